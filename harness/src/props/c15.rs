//! C15: unchecked extrinsics.

use substrate_parser::traits::AsCompleteMetadata;

use crate::genreg::instantiable;
use crate::meta::*;
use crate::mutate::mutate;
use crate::props::c12::{remark, BORDERS};
use crate::runner::{Ctx, KnownDemo, Outcome, Property};
use crate::tape::Tape;
use crate::walk::{compact_bytes, Hi, Mark};
use crate::{ensure, fail};

pub static P: Property = Property {
    id: "C15",
    rule: "signed and unsigned extrinsic of a generated runtime (V14, V15) or a bundled one; every length prefix, version byte and body also varied; non-trivial = at least 4 bytes of contents",
    assumptions: &[],
    tape_len: 2600,
    quick: 350_000,
    thorough: 15_000_000,
    run,
    enumerated: Some((321, enumerated)),
    known_demos: &[KnownDemo { sig: "trailing-after-call", run: demo_trailing }],
    must_reach: &["signed", "unsigned", "short", "unused", "no compact", "version", "damaged", "call type", "metadata structure", "real", "v14", "v15", "trailing", "empty", "all version bytes", "long"],
};

/// Returns true if the only disagreement is the listed one.
fn same<M: AsCompleteMetadata<()>>(m: &M, model: &Model, params: &Result<[u32; 4], String>, data: &[u8], ctx: &mut Ctx) -> Result<bool, String> {
    let (want, partial) = model.extrinsic(params, data);
    match &want {
        Err(UxErr::Budget) => return Ok(false),
        Ok(Ux::Signed { .. }) => ctx.label("signed"),
        Ok(Ux::Unsigned { .. }) => ctx.label("unsigned"),
        Err(UxErr::Meta(_)) => ctx.label("metadata structure"),
        Err(UxErr::NoCompact) => ctx.label("no compact"),
        Err(UxErr::Short { .. }) => ctx.label("short"),
        Err(UxErr::Unused { .. }) => ctx.label("unused"),
        Err(UxErr::Version { .. }) => ctx.label("version"),
        Err(UxErr::CallTy(_)) => ctx.label("call type"),
        Err(UxErr::Trailing { .. }) => ctx.label("trailing"),
        Err(UxErr::AnyOf(_)) => ctx.label("several things wrong"),
        Err(UxErr::Parsing) => {}
    }
    ctx.eval();
    let got = sut_ux(m, data);
    if want == got {
        return Ok(false);
    }
    if let (Some(p), Ok(g)) = (&partial, &got) {
        if p == g {
            return Ok(true);
        }
    }
    Err(format!("extrinsic 0x{}\nexpected {want:?}\ngot      {got:?}", hex::encode(data)))
}

pub struct Body {
    pub address: Vec<u8>,
    pub signature: Vec<u8>,
    pub extra: Vec<u8>,
    pub call: Vec<u8>,
    /// of all parts in this order
    pub marks: Vec<Mark>,
}

pub fn gen_body(t: &mut Tape, model: &Model, params: &[u32; 4], budget: u32) -> Option<Body> {
    let [a, c, s, x] = *params;
    let mut marks = Vec::new();
    let mut n = 0;
    let mut part = |id: u32| -> Option<Vec<u8>> {
        if !instantiable(model.reg, id) {
            return None;
        }
        let v = model.value(t, id, Hi::None, budget)?;
        marks.extend(shift(&v.marks, n));
        n += v.data.len();
        Some(v.data)
    };
    let (address, signature, extra, call) = (part(a)?, part(s)?, part(x)?, part(c)?);
    Some(Body { address, signature, extra, call, marks })
}

fn wrap(contents: &[u8]) -> Vec<u8> {
    [&compact_bytes(contents.len() as u128)[..], contents].concat()
}

pub fn signed(b: &Body, version: u8) -> Vec<u8> {
    [&[version & 0x7f | 0x80][..], &b.address, &b.signature, &b.extra, &b.call].concat()
}

pub fn unsigned(b: &Body, version: u8) -> Vec<u8> {
    [&[version & 0x7f][..], &b.call].concat()
}

fn variants<M: AsCompleteMetadata<()>>(t: &mut Tape, ctx: &mut Ctx, m: &M, model: &Model, params: &Result<[u32; 4], String>, b: &Body) -> Result<bool, String> {
    let v = model.version;
    let mut known = false;
    let s = signed(b, v);
    let u = unsigned(b, v);
    for x in [&s, &u] {
        known |= same(m, model, params, &wrap(x), ctx)?;
    }
    for _ in 0..4 {
        let x = if t.chance(170) { &s } else { &u };
        let whole = wrap(x);
        let n = x.len();
        let data = match t.below(10) {
            0 => [compact_bytes(n.saturating_sub(t.range(1, 4)) as u128), x.clone()].concat(),
            1 => [compact_bytes((n + t.range(1, 4)) as u128), x.clone()].concat(),
            2 => {
                let k = t.uint(32);
                [compact_bytes(k), x.clone()].concat()
            }
            3 => {
                let p = match t.below(4) {
                    0 => ((n as u16) << 2 | 1).to_le_bytes().to_vec(),
                    1 => ((n as u32) << 2 | 2).to_le_bytes().to_vec(),
                    2 => [&[3u8][..], &(n as u32).to_le_bytes()].concat(),
                    _ => [&[7u8][..], &(n as u64).to_le_bytes()[..5]].concat(),
                };
                [p, x.clone()].concat()
            }
            4 => {
                // other version byte, other sign bit
                let mut y = x.clone();
                y[0] = match t.below(3) {
                    0 => y[0] ^ 0x80,
                    1 => y[0] ^ (1 << t.below(8)),
                    _ => t.u8(),
                };
                wrap(&y)
            }
            5 | 6 => {
                ctx.label("damaged");
                let mut y = x.clone();
                let marks = if y.len() == s.len() { shift(&b.marks, 1) } else { vec![] };
                mutate(t, &mut y, &marks);
                wrap(&y)
            }
            7 => {
                let k = t.below(n + 1);
                ctx.label_if(k == 0, "empty");
                wrap(&x[..k])
            }
            8 => {
                let k = t.below(whole.len());
                whole[..k].to_vec()
            }
            _ => {
                let tail = t.tail(5);
                if t.chance(30) {
                    wrap(&[&x[..], &tail[..]].concat())
                } else {
                    [&whole[..], &tail[..]].concat()
                }
            }
        };
        known |= same(m, model, params, &data, ctx)?;
    }
    Ok(known)
}

fn finish(r: Result<bool, String>, who: impl FnOnce() -> String) -> Outcome {
    match r {
        Ok(false) => Ok(()),
        Ok(true) => fail!("trailing-after-call", "bytes after the call, inside the announced length, are accepted\n{}", who()),
        Err(e) => fail!("extrinsic", "{}\n{e}", who()),
    }
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    if t.chance(8) {
        let r = real(t.below(NAMES.len()));
        let model = Model::of_real(r);
        let params = Ok([model.address_ty, model.call_ty, model.signature_ty, model.extra_ty]);
        let Some(b) = gen_body(t, &model, params.as_ref().unwrap(), 150) else { return ctx.discard() };
        ctx.label("real");
        ctx.interesting(&[&b.call, &b.extra, r.name.as_bytes()]);
        ctx.describe(|| format!("metadata {} extrinsic 0x{}", r.name, hex::encode(wrap(&signed(&b, model.version)))));
        let x = variants(t, ctx, &r.arc, &model, &params, &b);
        return finish(x, || format!("metadata {}", r.name));
    }
    let o = RtOpts { odd_exts: 8, odd_version: 0, odd_params: 10, odd_call: 20, ..RtOpts::default() };
    let rt = gen_rt(t, &o);
    let model = rt.model();
    let v15 = t.chance(128);
    ctx.label(if v15 { "v15" } else { "v14" });
    let real_params = [rt.address_ty, rt.call_ty, rt.signature_ty, rt.extra_ty];
    let params = if v15 { Ok(real_params) } else { rt.v14_params() };
    let Some(b) = gen_body(t, &model, params.as_ref().unwrap_or(&real_params), 120) else { return ctx.discard() };
    if b.marks.len() >= 2 && b.call.len() + b.extra.len() + b.address.len() >= 4 {
        ctx.interesting(&[&b.address, &b.signature, &b.extra, &b.call]);
    }
    ctx.describe(|| format!("{}extrinsic 0x{}", rt.show(), hex::encode(wrap(&signed(&b, model.version)))));
    let r = match (t.chance(20), v15) {
        (false, false) => variants(t, ctx, &rt.arc14(), &model, &params, &b),
        (false, true) => variants(t, ctx, &rt.arc15(), &model, &params, &b),
        (true, false) => variants(t, ctx, &rt.v14(), &model, &params, &b),
        (true, true) => variants(t, ctx, &rt.v15(), &model, &params, &b),
    };
    finish(r, || rt.show())
}

/// All version bytes of extrinsics of bundled metadata; long ones.
fn every_version<M: AsCompleteMetadata<()>>(ctx: &mut Ctx, m: &M, model: &Model, params: &Result<[u32; 4], String>, b: &Body, long: Option<u64>) -> Result<bool, String> {
    let mut known = false;
    if let (Some(i), Some([pallet, call])) = (long, remark(model)) {
        let big = BORDERS[i as usize % 7];
        for n in big.saturating_sub(200 + b.address.len() + b.signature.len() + b.extra.len())..big + 2 {
            // the border is for the whole extrinsic
            let c = [vec![pallet, call], compact_bytes(n as u128), vec![i as u8; n]].concat();
            let b = Body { address: b.address.clone(), signature: b.signature.clone(), extra: b.extra.clone(), call: c, marks: vec![] };
            for x in [signed(&b, model.version), unsigned(&b, model.version)] {
                if x.len() + 1 >= big && x.len() <= big + 1 {
                    ctx.label_if(big > 16000, "long");
                    known |= same(m, model, params, &wrap(&x), ctx).map_err(|e| e.chars().take(3000).collect::<String>())?;
                }
            }
        }
        return Ok(known);
    }
    ctx.label("all version bytes");
    for v in 0..=255u8 {
        for mut x in [signed(b, v), unsigned(b, v)] {
            x[0] = v;
            known |= same(m, model, params, &wrap(&x), ctx)?;
        }
    }
    Ok(known)
}

fn enumerated(i: u64, ctx: &mut Ctx) -> Outcome {
    let r = real(i as usize);
    let b = tape_bytes(i ^ 0x15_0000, 2600);
    let mut t = Tape::new(&b);
    ctx.label("real");
    let model = Model::of_real(r);
    let params = Ok([model.address_ty, model.call_ty, model.signature_ty, model.extra_ty]);
    let Some(b) = gen_body(&mut t, &model, params.as_ref().unwrap(), 150) else { return ctx.discard() };
    ctx.interesting(&[&b.call, &b.extra, r.name.as_bytes()]);
    ctx.describe(|| format!("metadata {} extrinsic 0x{}", r.name, hex::encode(wrap(&signed(&b, model.version)))));
    let x = if i >= 300 || i % 11 == 0 {
        every_version(ctx, &r.arc, &model, &params, &b, i.checked_sub(300))
    } else {
        match &r.meta {
            RealMeta::V14(m) => variants(&mut t, ctx, m, &model, &params, &b),
            RealMeta::V15(m) => variants(&mut t, ctx, m, &model, &params, &b),
        }
    };
    finish(x, || format!("metadata {}", r.name))
}

/// An extrinsic of bundled metadata with bytes after its call.
fn demo_trailing() -> Outcome {
    let r = real(0);
    let model = Model::of_real(r);
    let params = Ok([model.address_ty, model.call_ty, model.signature_ty, model.extra_ty]);
    // system.remark with two bytes, then one more byte
    let data = hex::decode("1c04000008aabbcc").unwrap();
    let (want, partial) = model.extrinsic(&params, &data);
    ensure!(matches!(want, Err(UxErr::Trailing { .. })) && partial.is_some(), "demo", "demonstration is stale: {want:?}");
    let got = sut_ux(&r.arc, &data);
    ensure!(got.is_err(), "trailing-after-call", "extrinsic 0x1c04000008aabbcc with one byte after system.remark(0xaabb) accepted as {got:?}");
    Ok(())
}
