//! Execution of property functions: proptest-driven search over byte tapes,
//! process isolation, shrinking, replay, evidence.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::{File, OpenOptions};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, RngSeed, TestCaseError, TestError, TestRng, TestRunner};

use crate::tape::Tape;

#[derive(Clone, Debug)]
pub struct Fail {
    /// Stable signature, matched against the known-findings file.
    pub sig: String,
    pub msg: String,
}

impl Fail {
    pub fn new(sig: &str, msg: String) -> Self {
        Fail { sig: sig.to_string(), msg }
    }
}

pub type Outcome = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => {
        return Err($crate::runner::Fail { sig: $sig.to_string(), msg: format!($($arg)*) })
    };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond {
            $crate::fail!($sig, $($arg)*)
        }
    };
}

/// Collector of what a case was.
#[derive(Default)]
pub struct Ctx {
    pub want_desc: bool,
    pub desc: String,
    pub nontrivial: Option<u64>,
    pub labels: Vec<&'static str>,
    pub evals: u64,
    pub discarded: bool,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
    /// The case counts as non-trivial; `parts` identify it.
    pub fn interesting(&mut self, parts: &[&[u8]]) {
        self.nontrivial = Some(crate::tape::hash_bytes(parts));
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let s = f();
            self.desc.push_str(&s);
            self.desc.push('\n');
        }
    }
    /// Count a sub-evaluation beyond the case itself.
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn discard(&mut self) -> Outcome {
        self.discarded = true;
        Ok(())
    }
}

pub type RunFn = fn(&mut Tape, &mut Ctx) -> Outcome;
pub type EnumFn = fn(u64, &mut Ctx) -> Outcome;

pub struct Property {
    pub id: &'static str,
    /// rule that makes a case non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub tape_len: usize,
    pub quick: u64,
    pub thorough: u64,
    pub run: RunFn,
    /// fully enumerated cases, run in both tiers
    pub enumerated: Option<(u64, EnumFn)>,
    /// additional deterministic demonstrations of listed findings
    pub known_demos: &'static [KnownDemo],
    /// labels that must have been reached (guards against a vacuous check)
    pub must_reach: &'static [&'static str],
}

#[derive(Clone, Copy)]
pub struct KnownDemo {
    pub sig: &'static str,
    /// Runs in a subprocess with 8 MB stack and limited memory and time;
    /// the finding stands if it crashes, hits the limit or returns Err.
    pub run: fn() -> Outcome,
}

// ------------------------------------------------------------ tape strategy

#[derive(Debug)]
struct TapeStrategy {
    max: usize,
}

struct TapeTree {
    current: Vec<u8>,
    attempt: Option<Vec<u8>>,
    phase: u8,
    size: usize,
    at: usize,
}

impl Strategy for TapeStrategy {
    type Tree = TapeTree;
    type Value = Vec<u8>;
    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        use proptest::prelude::Rng;
        let rng = runner.rng();
        // mostly long tapes, sometimes short ones: an exhausted tape reads as
        // zeroes, which yields small cases
        let r = rng.next_u32();
        let len = match r & 7 {
            0 => (r >> 8) as usize % (self.max / 16 + 1),
            1 => (r >> 8) as usize % (self.max / 4 + 1),
            2 | 3 => (r >> 8) as usize % (self.max + 1),
            _ => self.max,
        };
        let mut v = vec![0u8; len];
        rng.fill_bytes(&mut v);
        let size = v.len();
        Ok(TapeTree { current: v, attempt: None, phase: 0, size, at: 0 })
    }
}

impl TapeTree {
    fn next(&mut self) -> bool {
        loop {
            let n = self.current.len();
            match self.phase {
                // truncation
                0 => {
                    self.size /= 2;
                    if self.size == 0 || n == 0 {
                        self.phase = 1;
                        self.size = (n / 2).max(1);
                        self.at = 0;
                        continue;
                    }
                    let keep = n.saturating_sub(self.size);
                    self.attempt = Some(self.current[..keep].to_vec());
                    return true;
                }
                // removal of blocks, zeroing of blocks
                1 | 2 => {
                    if self.at >= n {
                        self.at = 0;
                        if self.size <= 1 {
                            self.phase += 1;
                            self.size = (n / 2).max(1);
                            continue;
                        }
                        self.size = self.size / 2;
                        continue;
                    }
                    let end = (self.at + self.size).min(n);
                    let mut v = self.current.clone();
                    if self.phase == 1 {
                        v.drain(self.at..end);
                    } else {
                        if v[self.at..end].iter().all(|x| *x == 0) {
                            self.at = end;
                            continue;
                        }
                        v[self.at..end].fill(0);
                    }
                    self.attempt = Some(v);
                    return true;
                }
                // lowering of bytes
                3 | 4 => {
                    if self.at >= n {
                        self.at = 0;
                        self.phase += 1;
                        continue;
                    }
                    let b = self.current[self.at];
                    if b == 0 {
                        self.at += 1;
                        continue;
                    }
                    let mut v = self.current.clone();
                    v[self.at] = if self.phase == 3 { b / 2 } else { b - 1 };
                    self.attempt = Some(v);
                    return true;
                }
                _ => {
                    self.attempt = None;
                    return false;
                }
            }
        }
    }
}

impl ValueTree for TapeTree {
    type Value = Vec<u8>;
    fn current(&self) -> Vec<u8> {
        self.attempt.clone().unwrap_or_else(|| self.current.clone())
    }
    fn simplify(&mut self) -> bool {
        if let Some(a) = self.attempt.take() {
            // the attempt still fails: keep it and stay where we are
            self.current = a;
            if self.phase == 0 {
                self.size = self.current.len();
            }
        }
        self.next()
    }
    fn complicate(&mut self) -> bool {
        self.attempt = None;
        match self.phase {
            1 | 2 => self.at += self.size.max(1),
            3 | 4 => self.at += 1,
            _ => {}
        }
        self.next()
    }
}

// ---------------------------------------------------------------- one case

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

fn guarded(f: impl FnOnce() -> Outcome) -> Outcome {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            Err(Fail { sig: "panic".into(), msg: format!("panicked: {m}") })
        }
    }
}

pub fn run_tape(p: &Property, data: &[u8], ctx: &mut Ctx) -> Outcome {
    guarded(|| {
        let mut t = Tape::new(data);
        (p.run)(&mut t, ctx)
    })
}

pub fn run_enum(p: &Property, i: u64, ctx: &mut Ctx) -> Outcome {
    guarded(|| (p.enumerated.unwrap().1)(i, ctx))
}

// ------------------------------------------------------------------- worker

pub const VERIF: &str = env!("CARGO_MANIFEST_DIR");

pub fn verif_dir() -> PathBuf {
    Path::new(VERIF).parent().unwrap().to_path_buf()
}

const SLOT: u64 = 1 << 16;

struct Slots {
    file: File,
}

impl Slots {
    fn put(&self, i: usize, kind: u8, data: &[u8]) {
        let mut b = Vec::with_capacity(data.len() + 16);
        b.push(kind);
        b.extend_from_slice(&(data.len() as u32).to_le_bytes());
        b.extend_from_slice(data);
        let _ = self.file.write_all_at(&b, i as u64 * SLOT);
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Case {
    Tape(Vec<u8>),
    Enum(u64),
}

impl Case {
    fn text(&self) -> String {
        match self {
            Case::Tape(t) => format!("tape {}", hex::encode(t)),
            Case::Enum(i) => format!("enum {i}"),
        }
    }
    fn parse(s: &str) -> Option<Case> {
        let (k, v) = s.trim().split_once(' ').unwrap_or((s.trim(), ""));
        match k {
            "tape" => Some(Case::Tape(hex::decode(v.trim()).ok()?)),
            "enum" => Some(Case::Enum(v.trim().parse().ok()?)),
            _ => None,
        }
    }
}

pub fn run_case(p: &Property, c: &Case, ctx: &mut Ctx) -> Outcome {
    match c {
        Case::Tape(t) => run_tape(p, t, ctx),
        Case::Enum(i) => run_enum(p, *i, ctx),
    }
}

#[derive(Default)]
struct Stats {
    cases: u64,
    evals: u64,
    discarded: u64,
    nontrivial: HashSet<u64>,
    nontrivial_cases: u64,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    known: BTreeMap<String, u64>,
}

impl Stats {
    fn absorb(&mut self, ctx: Ctx) {
        self.cases += 1;
        self.evals += 1 + ctx.evals;
        if ctx.discarded {
            self.discarded += 1;
        }
        if let Some(h) = ctx.nontrivial {
            self.nontrivial_cases += 1;
            self.nontrivial.insert(h);
            if ctx.want_desc && self.samples.len() < 6 {
                self.samples.push(clip(&ctx.desc, 1400));
            }
        }
        for l in ctx.labels {
            *self.labels.entry(l).or_insert(0) += 1;
        }
    }
    fn merge(&mut self, o: Stats) {
        self.cases += o.cases;
        self.evals += o.evals;
        self.discarded += o.discarded;
        self.nontrivial_cases += o.nontrivial_cases;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 8 {
                self.samples.push(s);
            }
        }
    }
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…", &s[..e])
}

pub fn known_sigs(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: ")?;
            let l = l.strip_prefix(&format!("property={id} "))?;
            let l = l.strip_prefix("sig=")?;
            let (sig, what) = l.split_once(' ')?;
            Some((sig.to_string(), what.to_string()))
        })
        .collect()
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

pub struct WorkerResult {
    pub fail: Option<(Case, Fail)>,
    pub json: String,
}

pub const THREADS: usize = 8;

/// Entry of the worker process: run everything, write the result file.
pub fn worker(p: &'static Property, tier: &str, seed: u64, slots: &Path, out: &Path) -> i32 {
    install_panic_hook();
    let total = cases_for(p, tier);
    let slots = Arc::new(Slots { file: OpenOptions::new().write(true).open(slots).expect("slot file") });
    let stop = Arc::new(AtomicBool::new(false));
    let failure: Arc<Mutex<Option<(Case, Fail)>>> = Arc::new(Mutex::new(None));
    let known: Arc<Vec<String>> = Arc::new(known_sigs(p.id).into_iter().map(|x| x.0).collect());
    let enum_next = Arc::new(AtomicU64::new(0));
    let mut handles = Vec::new();
    for th in 0..THREADS {
        let (slots, stop, failure, known, enum_next) = (slots.clone(), stop.clone(), failure.clone(), known.clone(), enum_next.clone());
        let h = std::thread::Builder::new()
            .stack_size(1 << 30)
            .spawn(move || thread_main(p, th, total, seed, slots, stop, failure, known, enum_next))
            .expect("thread");
        handles.push(h);
    }
    let mut stats = Stats::default();
    for h in handles {
        match h.join() {
            Ok(s) => stats.merge(s),
            Err(_) => {
                eprintln!("harness error: worker thread panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()));
                return 70;
            }
        }
    }
    let mut f = File::create(out).expect("result file");
    let fail = failure.lock().unwrap().take();
    if let Some((c, fl)) = &fail {
        writeln!(f, "FAIL {}", c.text()).unwrap();
        writeln!(f, "SIG {}", fl.sig).unwrap();
        writeln!(f, "MSG {}", esc(&fl.msg)).unwrap();
    }
    for (k, v) in &stats.known {
        writeln!(f, "KNOWN {k} {v}").unwrap();
    }
    writeln!(f, "CASES {} {} {} {} {}", stats.cases, stats.evals, stats.nontrivial.len(), stats.nontrivial_cases, stats.discarded).unwrap();
    for (k, v) in &stats.labels {
        writeln!(f, "LABEL {v} {k}").unwrap();
    }
    for s in &stats.samples {
        writeln!(f, "SAMPLE {}", esc(s)).unwrap();
    }
    writeln!(f, "END").unwrap();
    0
}

pub fn cases_for(p: &Property, tier: &str) -> u64 {
    let base = if tier == "thorough" { p.thorough } else { p.quick };
    match std::env::var("PBT_CASES").ok().and_then(|x| x.parse().ok()) {
        Some(n) => n,
        None => base,
    }
}

#[allow(clippy::too_many_arguments)]
fn thread_main(
    p: &'static Property,
    th: usize,
    total: u64,
    seed: u64,
    slots: Arc<Slots>,
    stop: Arc<AtomicBool>,
    failure: Arc<Mutex<Option<(Case, Fail)>>>,
    known: Arc<Vec<String>>,
    enum_next: Arc<AtomicU64>,
) -> Stats {
    let mut stats = Stats::default();
    let mut sample_every = 1u64;
    if let Some((n, _)) = p.enumerated {
        loop {
            let i = enum_next.fetch_add(1, Ordering::Relaxed);
            if i >= n || stop.load(Ordering::Relaxed) {
                break;
            }
            if i % 64 == 0 || n < 5000 {
                slots.put(th, 2, &i.to_le_bytes());
            }
            let mut ctx = Ctx { want_desc: stats.samples.len() < 1, ..Default::default() };
            let r = run_enum(p, i, &mut ctx);
            stats.absorb(ctx);
            if let Err(f) = r {
                if known.contains(&f.sig) {
                    *stats.known.entry(f.sig).or_insert(0) += 1;
                } else {
                    let mut g = failure.lock().unwrap();
                    if g.is_none() {
                        *g = Some((Case::Enum(i), f));
                    }
                    stop.store(true, Ordering::Relaxed);
                    return stats;
                }
            }
        }
    }
    let cases = total / THREADS as u64 + if (th as u64) < total % THREADS as u64 { 1 } else { 0 };
    if cases == 0 {
        return stats;
    }
    let mut sd = [0u8; 32];
    sd[..8].copy_from_slice(&seed.to_le_bytes());
    sd[8] = th as u8;
    for (i, b) in p.id.bytes().enumerate().take(8) {
        sd[16 + i] = b;
    }
    let cfg = Config {
        cases: cases.min(u32::MAX as u64) as u32,
        failure_persistence: None,
        max_shrink_iters: 6000,
        max_shrink_time: 25_000,
        max_global_rejects: u32::MAX,
        rng_algorithm: RngAlgorithm::ChaCha,
        rng_seed: RngSeed::Random,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &sd));
    let st = RefCell::new(&mut stats);
    let first_fail: RefCell<Option<Fail>> = RefCell::new(None);
    let last_fail: RefCell<Option<Fail>> = RefCell::new(None);
    let counter = RefCell::new(&mut sample_every);
    let res = runner.run(&TapeStrategy { max: p.tape_len }, |tape| {
        let shrinking = first_fail.borrow().is_some();
        if !shrinking && stop.load(Ordering::Relaxed) {
            return Ok(());
        }
        slots.put(th, 1, &tape);
        let mut ctx = Ctx::default();
        if !shrinking {
            let n = st.borrow().cases;
            let mut every = counter.borrow_mut();
            // samples spread over the run
            if n >= **every && st.borrow().samples.len() < 2 {
                ctx.want_desc = true;
                **every = **every * 3 + 7;
            }
        }
        let r = run_tape(p, &tape, &mut ctx);
        if !shrinking {
            st.borrow_mut().absorb(ctx);
        }
        match r {
            Ok(()) => Ok(()),
            Err(f) if known.contains(&f.sig) => {
                if !shrinking {
                    *st.borrow_mut().known.entry(f.sig).or_insert(0) += 1;
                }
                Ok(())
            }
            Err(f) => {
                if shrinking && first_fail.borrow().as_ref().unwrap().sig != f.sig {
                    // a different failure: do not slip into it
                    return Ok(());
                }
                if !shrinking {
                    *first_fail.borrow_mut() = Some(f.clone());
                }
                *last_fail.borrow_mut() = Some(f);
                Err(TestCaseError::fail("property violated"))
            }
        }
    });
    drop(st);
    match res {
        Ok(()) => {}
        Err(TestError::Fail(_, tape)) => {
            let mut g = failure.lock().unwrap();
            if g.is_none() {
                let f = last_fail.borrow().clone().unwrap();
                *g = Some((Case::Tape(tape), f));
            }
            stop.store(true, Ordering::Relaxed);
        }
        Err(TestError::Abort(r)) => panic!("proptest aborted: {r}"),
    }
    slots.put(th, 0, &[]);
    stats
}

// ------------------------------------------------------------------- parent

fn spawn_self(args: &[String], mem_kb: u64, cpu_s: Option<u64>, stack_kb: Option<u64>, quiet: bool) -> Child {
    let exe = std::env::current_exe().expect("own path");
    let mut script = format!("ulimit -v {mem_kb}; ulimit -c 0; ");
    if let Some(c) = cpu_s {
        script.push_str(&format!("ulimit -t {c}; "));
    }
    if let Some(s) = stack_kb {
        script.push_str(&format!("ulimit -s {s}; "));
    }
    script.push_str("exec \"$0\" \"$@\"");
    let mut c = Command::new("sh");
    c.arg("-c").arg(script).arg(exe).args(args).stdin(Stdio::null());
    if quiet {
        c.stderr(Stdio::null()).stdout(Stdio::null());
    }
    c.spawn().expect("cannot start worker process")
}

fn wait_limit(c: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        match c.try_wait().expect("wait") {
            Some(s) => return Some(s),
            None => {
                if t.elapsed() > limit {
                    let _ = c.kill();
                    let _ = c.wait();
                    return None;
                }
                std::thread::sleep(Duration::from_millis(5));
            }
        }
    }
}

const SINGLE_MEM_KB: u64 = 6 << 20;
const SINGLE_CPU_S: u64 = 40;
const WORKER_MEM_KB: u64 = 26 << 20;

#[derive(Debug, PartialEq)]
enum SingleOutcome {
    Pass,
    Fail(String, String),
    Crash(String),
}

/// One case in its own process: pass, clean failure, or crash/limit.
fn single(p: &Property, case: &Case, scratch: &Path) -> SingleOutcome {
    let f = scratch.join("single.case");
    let o = scratch.join("single.out");
    let _ = std::fs::remove_file(&o);
    std::fs::write(&f, case.text()).unwrap();
    let args: Vec<String> = vec!["single".into(), p.id.into(), f.display().to_string(), o.display().to_string()];
    let mut c = spawn_self(&args, SINGLE_MEM_KB, Some(SINGLE_CPU_S), None, true);
    match wait_limit(&mut c, Duration::from_secs(SINGLE_CPU_S * 5)) {
        None => SingleOutcome::Crash("no answer within the time limit".into()),
        Some(s) => {
            use std::os::unix::process::ExitStatusExt;
            match s.code() {
                // 2: could not be run, no verdict
                Some(0 | 2) => SingleOutcome::Pass,
                Some(1) => {
                    let t = std::fs::read_to_string(&o).unwrap_or_default();
                    let (a, b) = t.split_once('\n').unwrap_or((&t, ""));
                    SingleOutcome::Fail(a.to_string(), b.to_string())
                }
                Some(n) => SingleOutcome::Crash(format!("process exited with code {n}")),
                None => {
                    let sig = s.signal().unwrap_or(0);
                    SingleOutcome::Crash(match sig {
                        6 => "process aborted (stack overflow or allocation failure)".to_string(),
                        9 | 24 => "process hit the CPU-time limit".to_string(),
                        11 => "process crashed (SIGSEGV)".to_string(),
                        n => format!("process ended by signal {n}"),
                    })
                }
            }
        }
    }
}

pub fn single_main(p: &'static Property, file: &str, out: &str) -> i32 {
    install_panic_hook();
    let text = std::fs::read_to_string(file).expect("case file");
    let case = Case::parse(&text).expect("case syntax");
    let known: Vec<String> = known_sigs(p.id).into_iter().map(|x| x.0).collect();
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || run_case(p, &case, &mut Ctx::default()))
        .unwrap();
    match h.join().unwrap() {
        Ok(()) => 0,
        Err(f) if known.contains(&f.sig) => 0,
        Err(f) => {
            std::fs::write(out, format!("{}\n{}", f.sig, f.msg)).unwrap();
            1
        }
    }
}

fn read_slots(path: &Path) -> Vec<(u8, Vec<u8>)> {
    let mut out = Vec::new();
    let Ok(f) = File::open(path) else { return out };
    for i in 0..THREADS {
        let mut h = [0u8; 5];
        if f.read_exact_at(&mut h, i as u64 * SLOT).is_err() {
            continue;
        }
        let n = u32::from_le_bytes([h[1], h[2], h[3], h[4]]) as usize;
        let mut d = vec![0u8; n.min(SLOT as usize - 5)];
        if f.read_exact_at(&mut d, i as u64 * SLOT + 5).is_ok() {
            out.push((h[0], d));
        }
    }
    out
}

fn slot_cases(p: &Property, slots: &[(u8, Vec<u8>)]) -> Vec<Case> {
    let mut v = Vec::new();
    for (k, d) in slots {
        match k {
            1 => v.push(Case::Tape(d.clone())),
            2 => {
                let i = u64::from_le_bytes(d[..8].try_into().unwrap());
                let n = p.enumerated.map_or(0, |x| x.0);
                let span = if n < 5000 { 1 } else { 64 * THREADS as u64 };
                for j in i..(i + span).min(n) {
                    v.push(Case::Enum(j));
                }
            }
            _ => {}
        }
    }
    v
}

/// Shrink a crashing tape out of process, within a limited effort.
fn shrink_crash(p: &Property, tape: Vec<u8>, scratch: &Path) -> Vec<u8> {
    let mut tree = TapeTree { size: tape.len(), current: tape, attempt: None, phase: 0, at: 0 };
    let t = Instant::now();
    let mut tries = 0;
    if tree.simplify() {
        loop {
            tries += 1;
            if tries > 200 || t.elapsed() > Duration::from_secs(60) {
                tree.attempt = None;
                break;
            }
            let crash = matches!(single(p, &Case::Tape(tree.current()), scratch), SingleOutcome::Crash(_));
            let more = if crash { tree.simplify() } else { tree.complicate() };
            if !more {
                break;
            }
        }
    }
    tree.current()
}

struct Parsed {
    fail: Option<(Case, Fail)>,
    cases: Vec<u64>,
    labels: Vec<(String, u64)>,
    samples: Vec<String>,
    known: Vec<(String, u64)>,
    complete: bool,
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('u') => {
                let h: String = (&mut it).take(4).collect();
                if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                    o.push(c);
                }
            }
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}

fn parse_result(path: &Path) -> Parsed {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut r = Parsed { fail: None, cases: vec![0; 5], labels: vec![], samples: vec![], known: vec![], complete: false };
    let (mut case, mut sig) = (None, String::new());
    for l in text.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "FAIL" => case = Case::parse(v),
            "SIG" => sig = v.to_string(),
            "MSG" => {
                if let Some(c) = case.take() {
                    r.fail = Some((c, Fail { sig: sig.clone(), msg: unesc(v) }));
                }
            }
            "CASES" => r.cases = v.split(' ').map(|x| x.parse().unwrap()).collect(),
            "LABEL" => {
                let (n, k) = v.split_once(' ').unwrap();
                r.labels.push((k.to_string(), n.parse().unwrap()));
            }
            "SAMPLE" => r.samples.push(v.to_string()),
            "KNOWN" => {
                let (k, n) = v.rsplit_once(' ').unwrap();
                r.known.push((k.to_string(), n.parse().unwrap()));
            }
            "END" => r.complete = true,
            _ => {}
        }
    }
    r
}

fn write_replay(p: &Property, case: &Case, fail: &Fail) -> PathBuf {
    let dir = verif_dir().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let h = crate::tape::hash_bytes(&[case.text().as_bytes()]);
    let path = dir.join(format!("{}-{:016x}.txt", p.id, h));
    let mut text = format!("property {}\n{}\n{}\n", p.id, case.text(), crate::dict::line());
    text.push_str(&format!("signature {}\n\n{}\n", fail.sig, fail.msg));
    text.push_str(&format!("\nreplay: {} replay {} {}\n", "target/release/pbt", p.id, path.display()));
    let _ = std::fs::write(&path, text);
    path
}

pub struct Report {
    pub code: i32,
}

pub fn check(p: &'static Property, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let scratch = std::env::temp_dir().join(format!("pbt-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch directory");
    let code = check_in(p, tier, seed, &scratch, t0);
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

fn check_in(p: &'static Property, tier: &str, seed: u64, scratch: &Path, t0: Instant) -> i32 {
    let slots = scratch.join("slots");
    let out = scratch.join("result");
    File::create(&slots).unwrap().set_len(SLOT * THREADS as u64).unwrap();
    let args: Vec<String> = vec![
        "worker".into(),
        p.id.into(),
        tier.into(),
        seed.to_string(),
        slots.display().to_string(),
        out.display().to_string(),
    ];
    let mut child = spawn_self(&args, WORKER_MEM_KB, None, None, false);
    let hang_after = Duration::from_secs(90);
    let total_limit = if tier == "thorough" { Duration::from_secs(6 * 3600) } else { Duration::from_secs(420) };
    let mut prev: Vec<(u8, Vec<u8>)> = Vec::new();
    let mut since: Vec<Instant> = vec![Instant::now(); THREADS];
    let mut hung: Option<usize> = None;
    let status = loop {
        if let Some(s) = child.try_wait().expect("wait") {
            break Some(s);
        }
        std::thread::sleep(Duration::from_millis(100));
        let cur = read_slots(&slots);
        for i in 0..cur.len() {
            if prev.get(i) != cur.get(i) {
                since[i] = Instant::now();
            } else if cur[i].0 != 0 && since[i].elapsed() > hang_after {
                hung = Some(i);
            }
        }
        prev = cur;
        if hung.is_some() || t0.elapsed() > total_limit {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
    };
    if status.and_then(|s| s.code()) == Some(2) {
        // said so itself
        return 2;
    }
    let parsed = parse_result(&out);
    let ok = status.map_or(false, |s| s.success()) && parsed.complete;
    let mut violation: Option<(Case, Fail)> = None;
    if ok {
        violation = parsed.fail.clone();
    } else {
        // crash, hang or overall timeout: find a case that reproduces it alone
        let mut cases = slot_cases(p, &read_slots(&slots));
        if let Some(h) = hung {
            if let Some((1, d)) = prev.get(h) {
                cases.insert(0, Case::Tape(d.clone()));
            }
        }
        let t = Instant::now();
        for c in cases {
            if t.elapsed() > Duration::from_secs(300) {
                break;
            }
            match single(p, &c, scratch) {
                SingleOutcome::Pass => {}
                SingleOutcome::Fail(sig, msg) => {
                    violation = Some((c, Fail { sig, msg }));
                    break;
                }
                SingleOutcome::Crash(msg) => {
                    let c = match c {
                        Case::Tape(t) => Case::Tape(shrink_crash(p, t, scratch)),
                        c => c,
                    };
                    violation = Some((c, Fail { sig: "crash".into(), msg }));
                    break;
                }
            }
        }
        if violation.is_none() {
            eprintln!("harness error: worker did not finish ({status:?}, hung {hung:?}) and no case reproduces it alone");
            return 2;
        }
    }

    // listed findings: demonstrate each again
    let listed = known_sigs(p.id);
    let mut known_lines = Vec::new();
    for (sig, what) in &listed {
        let mut seen = parsed.known.iter().any(|(s, _)| s == sig);
        if let Some(i) = p.known_demos.iter().position(|d| d.sig == sig) {
            let args: Vec<String> = vec!["demo".into(), p.id.into(), i.to_string()];
            let mut c = spawn_self(&args, 2 << 20, Some(10), Some(8192), true);
            let bad = match wait_limit(&mut c, Duration::from_secs(60)) {
                None => true,
                Some(s) => !s.success(),
            };
            seen |= bad;
        }
        if seen {
            known_lines.push(format!("KNOWN-FINDING: property={} {}", p.id, what));
        } else {
            println!("note: listed finding {sig} of {} did not show in this run", p.id);
        }
    }
    for l in &known_lines {
        println!("{l}");
    }

    let mut missing = Vec::new();
    if violation.is_none() {
        for m in p.must_reach {
            if !parsed.labels.iter().any(|(k, n)| k == m && *n > 0) {
                missing.push(*m);
            }
        }
    }

    write_evidence(p, tier, seed, &parsed, &violation, t0.elapsed().as_secs_f64());
    println!(
        "{} {tier} seed={seed}: {} cases, {} evaluations, {} distinct non-trivial, {} discarded, {:.1} s",
        p.id,
        parsed.cases[0],
        parsed.cases[1],
        parsed.cases[2],
        parsed.cases[4],
        t0.elapsed().as_secs_f64()
    );
    if let Some((case, fail)) = violation {
        let path = write_replay(p, &case, &fail);
        println!("{}", clip(&fail.msg, 3000));
        println!("VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }
    if !missing.is_empty() && std::env::var("PBT_CASES").is_err() {
        eprintln!("harness error: generation never reached {missing:?}");
        return 2;
    }
    0
}

fn write_evidence(p: &Property, tier: &str, seed: u64, r: &Parsed, v: &Option<(Case, Fail)>, wall: f64) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut s = String::new();
    s.push_str("{\n");
    s.push_str(&format!("  \"property\": \"{}\",\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"exploration\",\n", p.id, tier, seed));
    s.push_str("  \"coverage\": {\n");
    s.push_str(&format!("    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n", r.cases[1], r.cases[2]));
    s.push_str(&format!("    \"cases\": {},\n    \"nontrivial_cases\": {},\n    \"discarded\": {},\n", r.cases[0], r.cases[3], r.cases[4]));
    s.push_str(&format!("    \"enumerated\": {},\n", p.enumerated.map_or(0, |x| x.0)));
    s.push_str(&format!("    \"rule\": \"{}\",\n", esc(p.rule)));
    s.push_str("    \"labels\": {");
    let l: Vec<String> = r.labels.iter().map(|(k, n)| format!("\"{}\": {}", esc(k), n)).collect();
    s.push_str(&l.join(", "));
    s.push_str("},\n    \"samples\": [\n");
    let l: Vec<String> = r.samples.iter().map(|x| format!("      \"{x}\"")).collect();
    s.push_str(&l.join(",\n"));
    s.push_str("\n    ]\n  },\n");
    s.push_str("  \"assumptions\": [");
    let l: Vec<String> = p.assumptions.iter().map(|x| format!("\"{}\"", esc(x))).collect();
    s.push_str(&l.join(", "));
    s.push_str("],\n  \"violations\": [");
    if let Some((c, f)) = v {
        s.push_str(&format!("\"{}\"", esc(&clip(&format!("{} :: {} :: {}", f.sig, f.msg, c.text()), 4000))));
    }
    s.push_str(&format!("],\n  \"wall_s\": {wall:.2}\n}}\n"));
    std::fs::write(dir.join(format!("{}.json", p.id)), s).expect("evidence file");
}

pub fn demo_main(p: &'static Property, i: usize) -> i32 {
    install_panic_hook();
    match guarded(p.known_demos[i].run) {
        Ok(()) => 0,
        Err(_) => 1,
    }
}

pub fn replay(p: &'static Property, file: &str) -> i32 {
    install_panic_hook();
    let mut text = String::new();
    File::open(file).expect("replay file").read_to_string(&mut text).expect("replay file");
    let case = text.lines().find_map(Case::parse).expect("no case in replay file");
    if let Some(l) = text.lines().find(|l| l.starts_with("dictionary ")) {
        crate::dict::from_line(l);
    }
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let mut ctx = Ctx { want_desc: true, ..Default::default() };
            let r = run_case(p, &case, &mut ctx);
            (r, ctx.desc, ctx.labels)
        })
        .unwrap();
    let (r, desc, labels) = h.join().expect("replay thread");
    println!("{desc}labels: {labels:?}");
    match r {
        Ok(()) => {
            println!("holds");
            0
        }
        Err(f) => {
            println!("[{}] {}", f.sig, f.msg);
            println!("VIOLATION property={} replay={}", p.id, file);
            1
        }
    }
}
