// Runs messages from file 3 in the wasm module, answers on file 4.
// Both ways: length (u32, little endian), then bytes.
const fs = require('fs');
const { Worker, isMainThread } = require('worker_threads');
if (isMainThread) {
  const w = new Worker(__filename, { argv: process.argv.slice(2), resourceLimits: { stackSizeMb: 200 } });
  w.on('error', (e) => { console.error(e); process.exit(9); });
  w.on('exit', (c) => process.exit(c));
} else main();

function main() {
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const kept = [];
let ex;
function fresh() {
  const env = new Proxy({}, { get: () => () => { throw new Error('import called'); } });
  const imports = new Proxy({}, { get: () => env });
  ex = new WebAssembly.Instance(mod, imports).exports;
  for (const k of kept) send(k);
}
function send(m) {
  const p = ex.room(m.length);
  new Uint8Array(ex.memory.buffer, p >>> 0, m.length).set(m);
  const n = ex.run(p, m.length) >>> 0;
  return Buffer.from(ex.memory.buffer.slice(ex.answer() >>> 0, (ex.answer() >>> 0) + n));
}
function readAll(n) {
  const b = Buffer.alloc(n);
  let at = 0;
  while (at < n) {
    const k = fs.readSync(3, b, at, n - at, null);
    if (k === 0) process.exit(0);
    at += k;
  }
  return b;
}
function writeAll(b) {
  let at = 0;
  while (at < b.length) at += fs.writeSync(4, b, at, b.length - at);
}
fresh();
for (;;) {
  const m = readAll(readAll(4).readUInt32LE(0));
  if (m[0] === 0) kept.push(m);
  let out;
  try {
    out = send(m);
  } catch (e) {
    let why = e.message;
    try {
      const p = ex.answer() >>> 0;
      why += ': ' + Buffer.from(ex.memory.buffer.slice(p, p + (ex.answer_len() >>> 0))).toString();
    } catch (_) {}
    out = Buffer.from('TRAP ' + why);
    fresh();
  }
  const h = Buffer.alloc(4);
  h.writeUInt32LE(out.length, 0);
  writeAll(Buffer.concat([h, out]));
}
}
