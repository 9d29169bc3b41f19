//! C04: no input crashes or hangs the parser.

use frame_metadata::v14::RuntimeMetadataV14;
use frame_metadata::v15::RuntimeMetadataV15;
use crate::cards_ref::{call_pictures, pictures, MANY_PICTURES};
use substrate_parser::traits::{AsCompleteMetadata, AsMetadata};
use substrate_parser::ShortSpecs;

use std::sync::Arc;

use scale_info::{form::PortableForm, TypeDef, TypeDefPrimitive, TypeDefSequence, TypeDefTuple};

use crate::alloc::measure;
use crate::chaos::*;
use crate::ensure;
use crate::mem::*;
use crate::genreg::{registry, segs, sym, Gen, Opts};
use crate::meta::{gen_rt, real, RtOpts, NAMES};
use crate::runner::{Ctx, KnownDemo, Outcome, Property};
use crate::sut::show_reg;
use crate::tape::Tape;
use crate::walk::{compact_bytes, PTy};

pub static P: Property = Property {
    id: "C04",
    rule: "any entry point, data damaged or arbitrary, types and metadata damaged or whole; values of one and four megabytes of 12 flat types with processor time and memory bounded (enumerated); non-trivial = at least 4 requests were made and the registry or the data is damaged",
    assumptions: &[],
    tape_len: 2600,
    quick: 250_000,
    thorough: 20_000_000,
    run,
    enumerated: Some((SHAPES * 2, enumerated)),
    known_demos: &[KnownDemo { sig: "nested-calls", run: demo_nested }, KnownDemo { sig: "empty-elements", run: demo_empty }],
    must_reach: &["all", "at", "extension", "husk", "transaction", "unmarked", "parts", "extrinsic", "entry", "key", "v14", "v15", "real", "long", "megabytes", "value", "error"],
};

/// Cards of everything, all texts.
pub fn print(o: &Out, specs: &ShortSpecs) -> usize {
    let mut n = 0;
    for p in &o.pieces {
        let cards = match p {
            Piece::Data(d) if pictures(&d.data) > MANY_PICTURES => vec![],
            Piece::Call(c) if call_pictures(c) > MANY_PICTURES => vec![],
            Piece::Storage(s) if pictures(&s.value.data) > MANY_PICTURES => vec![],
            Piece::Data(d) => d.card(0, true, specs, "x"),
            Piece::Call(c) => c.card(0, specs, "x"),
            Piece::Storage(s) => [s.value.card(0, true, specs, "x")].concat(),
            _ => vec![],
        };
        for c in cards {
            n += c.show_with_docs().len() + c.show().len();
        }
    }
    n
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let specs = ShortSpecs { base58prefix: *t.pick(&[0, 42, 63, 64, 16383, 16384, u16::MAX]), decimals: *t.pick(&[0, 10, 12, 39, 255]), unit: t.pick(&["", "DOT", "µ"]).to_string() };
    if t.chance(25) {
        return structure(t, ctx);
    }
    if t.chance(4) {
        return long(t, ctx);
    }
    let Some(c) = gen_job(t, true) else { return ctx.discard() };
    let real = c.note.starts_with("metadata");
    let Some(c) = chaos(t, c) else { return ctx.discard() };
    ctx.label(c.label());
    ctx.label_if(real, "real");
    ctx.describe(|| c.show());
    let mm = MemMeta { of: c.meta.clone(), reg: MemReg::new(c.meta.reg.0.clone(), false) };
    let size = c.data.len() + c.key.len();
    let ((o, requests, bytes), peak) = measure(|| counted(&c.job, &mm, &c.data, &c.key, 150 * (size + 20)));
    ctx.label(if o.errors.is_empty() { "value" } else { "error" });
    if requests >= 4 {
        ctx.interesting(&[format!("{:?}", c.job).as_bytes(), &c.data, &c.key, c.note.as_bytes()]);
    }
    if std::env::var("C04_MEASURE").is_ok() {
        eprintln!("M {} {} {} {} {}", size, requests, bytes, peak, c.label());
    }
    bounded(size, requests, bytes, peak, || c.show())?;
    ctx.eval();
    let (_, peak) = measure(|| plain(&c.job, &c.meta, &c.data, &c.key));
    bounded(size, 0, 0, peak, || c.show())?;
    print(&o, &specs);
    Ok(())
}

/// The bounds are ten to thirty times what is seen in millions of cases.
fn bounded(size: usize, requests: usize, bytes: usize, peak: usize, what: impl Fn() -> String) -> Outcome {
    ensure!(bytes <= 60 * (size + 20), "bytes", "{}\n{bytes} bytes read for {size} of data in {requests} requests", what());
    ensure!(peak <= 200_000 * (size + 20), "memory", "{}\n{peak} bytes of memory held for {size} of data", what());
    Ok(())
}

/// Long data, of flat types: the work must stay proportional.
fn long(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let mut g = Gen::new(t, Opts { max_types: 4, max_depth: 1, recursion: false, ..Opts::default() });
    let (id, kind) = match g.tape.below(6) {
        0 => {
            let e = g.prim(TypeDefPrimitive::U8);
            (g.add(segs(&[]), TypeDefSequence { type_param: sym(e) }, vec![]), 1)
        }
        1 => {
            let e = g.uint_prim();
            (g.add(segs(&[]), TypeDefSequence { type_param: sym(e) }, vec![]), 16)
        }
        2 => (g.prim(TypeDefPrimitive::Str), 1),
        3 => (g.bits(), 0),
        4 => {
            let (a, b) = (g.prim(TypeDefPrimitive::U8), g.compact());
            let e = g.add(segs(&[]), TypeDefTuple { fields: vec![sym(a), sym(b)] }, vec![]);
            (g.add(segs(&[]), TypeDefSequence { type_param: sym(e) }, vec![]), 9)
        }
        _ => {
            let e = g.u8_array(4);
            (g.add(segs(&[]), TypeDefSequence { type_param: sym(e) }, vec![]), 4)
        }
    };
    let (reg, _) = g.finish();
    let n = t.range(2_000, 12_000);
    let b = *t.pick(&[0u8, 4, 0x20, 0x7f]);
    let count = if kind == 0 { n * 8 } else { n / kind };
    let mut data = compact_bytes(count as u128);
    data.extend(std::iter::repeat(b).take(n));
    let meta = bare(Arc::new(reg));
    let mm = MemMeta { of: meta.clone(), reg: MemReg::new(meta.reg.0.clone(), false) };
    let size = data.len();
    let job = Job::At { id, pos: 0 };
    ctx.label("long");
    ctx.interesting(&[&data, show_reg(&meta.reg.0).as_bytes()]);
    let what = || format!("{}type {id}, data {} and {n} times {b}", show_reg(&meta.reg.0), hex::encode(compact_bytes(count as u128)));
    ctx.describe(what);
    ctx.eval();
    let ((_, requests, bytes), peak) = measure(|| counted(&job, &mm, &data, &[], 20 * (size + 20)));
    if std::env::var("C04_MEASURE").is_ok() {
        eprintln!("L {} {} {} {}", size, requests, bytes, peak);
    }
    ensure!(bytes <= 4 * (size + 20), "bytes", "{}\n{bytes} bytes read for {size} of data in {requests} requests", what());
    ensure!(peak <= 2_000 * (size + 20), "memory", "{}\n{peak} bytes of memory held for {size} of data", what());
    let ((), peak) = measure(|| drop(plain(&job, &meta, &data, &[])));
    ensure!(peak <= 2_000 * (size + 20), "memory", "{}\n{peak} bytes of memory held for {size} of data", what());
    Ok(())
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn clock_gettime(clock: i32, at: *mut Timespec) -> i32;
}

/// Processor time of this thread, in seconds: other load does not matter.
fn thread_time() -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // SAFETY: `t` is a valid timespec on this platform
    unsafe { clock_gettime(3, &mut t) };
    t.sec as f64 + t.nsec as f64 / 1e9
}

const SHAPES: u64 = 12;

/// Megabytes of flat data, in one value: time that grows with the square of
/// the length would show as minutes.
fn enumerated(i: u64, ctx: &mut Ctx) -> Outcome {
    let mut zeros = vec![0u8; 4096];
    let mut t = Tape::new(&mut zeros);
    let mut g = Gen::new(&mut t, Opts::default());
    let seq = |g: &mut Gen, e: u32| g.add(segs(&[]), TypeDefSequence { type_param: sym(e) }, vec![]);
    let (u8_, u64_, str_) = (g.prim(TypeDefPrimitive::U8), g.prim(TypeDefPrimitive::U64), g.prim(TypeDefPrimitive::Str));
    let len = if i >= SHAPES { 1_000_000 } else { 4_000_000 };
    // bytes of an element
    let (id, unit) = match i % SHAPES {
        0 => (seq(&mut g, u8_), 1),
        1 => (seq(&mut g, u64_), 8),
        2 => (str_, 1),
        3 => (seq(&mut g, str_), 1),
        4 => {
            let a = g.u8_array(4);
            (seq(&mut g, a), 4)
        }
        5 => {
            let e = g.add(segs(&[]), TypeDefTuple { fields: vec![sym(u8_), sym(u64_)] }, vec![]);
            (seq(&mut g, e), 9)
        }
        6 => {
            let e = g.add(segs(&[]), scale_info::TypeDefCompact { type_param: sym(u64_) }, vec![]);
            (seq(&mut g, e), 1)
        }
        7 => {
            let e = seq(&mut g, u8_);
            (seq(&mut g, e), 1)
        }
        8 => {
            let e = g.prim(TypeDefPrimitive::U16);
            (seq(&mut g, e), 2)
        }
        9 => {
            let e = g.prim(TypeDefPrimitive::Bool);
            (seq(&mut g, e), 1)
        }
        10 => {
            let n = (len / 8) as u32;
            (g.add(segs(&[]), scale_info::TypeDefArray { len: n, type_param: sym(u64_) }, vec![]), 8)
        }
        _ => {
            let a = g.u8_array(32);
            let e = g.add(segs(&["sp_core", "crypto", "AccountId32"]), scale_info::TypeDefComposite { fields: vec![crate::meta::fld(None, a, None)] }, vec![]);
            (seq(&mut g, e), 32)
        }
    };
    let (reg, _) = g.finish();
    let mut data = if i % SHAPES == 10 { vec![] } else { compact_bytes((len / unit) as u128) };
    data.resize(data.len() + len / unit * unit, 0);
    let meta = bare(Arc::new(reg));
    let what = || format!("{}type {id}, {} of data, zeros after 0x{}", show_reg(&meta.reg.0), data.len(), hex::encode(&data[..4]));
    ctx.describe(what);
    ctx.label("megabytes");
    ctx.interesting(&[b"megabytes", &i.to_le_bytes()]);
    ctx.eval();
    let before = thread_time();
    let (o, peak) = measure(|| plain(&Job::All { id }, &meta, &data, &[]));
    let took = thread_time() - before;
    if std::env::var("C04_MEASURE").is_ok() {
        eprintln!("B {i} {} {took} {peak}", data.len());
    }
    ensure!(o.errors.is_empty(), "megabytes", "{}\nrejected: {:?}", what(), o.errors);
    ensure!(took < 10.0 * len as f64 / 4e6, "time", "{}\n{took} seconds of processor time", what());
    ensure!(peak <= 2_000 * data.len(), "memory", "{}\n{peak} bytes of memory held", what());
    Ok(())
}

/// Damaged metadata as a whole.
fn structure(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let rt = gen_rt(t, &RtOpts { odd_exts: 60, odd_version: 100, odd_params: 60, odd_call: 30, ..RtOpts::default() });
    let used: Vec<u32> = vec![rt.extrinsic_ty, rt.call_ty, rt.extra_ty, rt.address_ty, rt.signature_ty];
    let mut rt = rt;
    let k = t.below(5);
    for _ in 0..k {
        damage(t, &mut rt.reg, &used);
    }
    for p in &mut rt.pallets {
        for c in &mut p.constants {
            if t.chance(60) {
                any_data(t, &mut c.value);
            }
        }
    }
    if !tame(&mut rt.reg) {
        return ctx.discard();
    }
    let mut data = vec![0x10];
    any_data(t, &mut data);
    ctx.describe(|| format!("{}\ndata 0x{}", rt.show(), hex::encode(&data)));
    ctx.eval();
    if t.chance(128) {
        ctx.label("v14");
        let mut m: RuntimeMetadataV14 = rt.v14();
        if t.chance(60) {
            m.extrinsic.ty = crate::genreg::sym(t.below(rt.reg.types.len() + 2) as u32);
        }
        if t.chance(30) {
            m.pallets.clear();
        }
        whole(&m, &data);
    } else {
        ctx.label("v15");
        let mut m: RuntimeMetadataV15 = rt.v15();
        if t.chance(60) {
            m.extrinsic.call_ty = crate::genreg::sym(t.below(rt.reg.types.len() + 2) as u32);
        }
        if t.chance(30) {
            m.pallets.clear();
        }
        whole(&m, &data);
    }
    ctx.interesting(&[rt.show().as_bytes(), &data]);
    Ok(())
}

fn whole<M: AsCompleteMetadata<()>>(m: &M, data: &[u8]) {
    let _ = AsMetadata::<()>::spec_name_version(m);
    let _ = AsMetadata::<()>::call_ty(m);
    let _ = AsMetadata::<()>::signed_extensions(m);
    let _ = m.extrinsic_type_params();
    let _ = m.extrinsic_version();
    let _ = crate::meta::sut_tx(m, data, None);
    let _ = crate::meta::sut_tx_unmarked(m, data, None);
    let _ = crate::meta::sut_ux(m, data);
}

/// Calls within calls: every level takes three bytes of data and a share of
/// the stack.
fn demo_nested() -> Outcome {
    let r = real(NAMES.iter().position(|n| n.starts_with("polkadot9430")).unwrap());
    // utility.batch of one utility.batch of one …
    let mut data = Vec::new();
    for _ in 0..100_000 {
        data.extend([0x1a, 0x00, 0x04]);
    }
    data.extend([0x00, 0x00, 0x00]);
    let c = plain(&Job::All { id: r.call_ty }, &r.arc, &data, &[]);
    ensure!(c.pieces.len() + c.errors.len() == 1, "nested-calls", "no result");
    // values are also dropped recursively
    drop(c);
    Ok(())
}

/// Elements without encoding, as many as the compact says.
fn demo_empty() -> Outcome {
    let reg = registry(vec![ty(TypeDef::Tuple(TypeDefTuple { fields: vec![] })), ty(TypeDef::Sequence(TypeDefSequence { type_param: sym(0) }))]);
    let (o, peak) = measure(|| plain(&Job::All { id: 1 }, &bare(Arc::new(reg)), &[0xfe, 0xff, 0xff, 0xff], &[]));
    ensure!(peak < 1 << 26, "empty-elements", "{peak} bytes held after four bytes of data, {} values", o.pieces.len());
    Ok(())
}

fn ty(d: TypeDef<PortableForm>) -> PTy {
    scale_info::Type::new(segs(&[]), Vec::<scale_info::TypeParameter<PortableForm>>::new(), d, vec![])
}
