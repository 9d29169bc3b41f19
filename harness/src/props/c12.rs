//! C12: call and extensions are separated at the declared border.

use primitive_types::H256;
use substrate_parser::decoding_sci::decode_as_call;
use substrate_parser::decode_extensions;
use substrate_parser::traits::AsMetadata;
use substrate_parser::MarkedData;

use crate::meta::*;
use crate::mutate::mutate;
use crate::runner::{Ctx, Outcome, Property};
use crate::tape::Tape;
use crate::walk::compact_bytes;
use crate::{ensure, fail};

pub static P: Property = Property {
    id: "C12",
    rule: "transaction of a generated runtime (V14 and V15) or of a bundled one, with exact, short, long, malformed prefix or damaged contents; non-trivial = call of at least 2 bytes and non-empty extensions",
    assumptions: &[],
    tape_len: 2600,
    quick: 250_000,
    thorough: 20_000_000,
    run,
    enumerated: Some((424, enumerated)),
    known_demos: &[],
    must_reach: &["accepted", "call damaged", "unused call", "cut", "long form", "ext damaged", "real", "v14", "v15", "not a call", "short border", "long border", "far border", "long call"],
};

/// Lengths at which something changes.
pub const BORDERS: &[usize] = &[64, 256, 1 << 14, 1 << 15, 1 << 16, 1 << 17, 1 << 20];

pub struct Bad(pub &'static str, pub String);

/// All transaction functions on `data` agree with the model. Returns whether
/// it was judged.
pub fn compare<M: AsMetadata<()>>(m: &M, model: &Model, data: &[u8], genesis: Option<H256>, ctx: &mut Ctx) -> Result<Option<TxOut>, Bad> {
    let want = model.transaction(data, genesis);
    if over_budget(&want) {
        return Ok(None);
    }
    // the call is looked at even if extensions are refused
    let border = Model::border(data);
    let want_call = border.clone().ok().map(|(a, b)| match model.call(&data[..b], a) {
        Ok((c, end)) if end == b => Ok(c),
        Ok((_, end)) => Err(TxErr::UnusedCall { from: end, to: b }),
        Err(e) => Err(e),
    });
    if matches!(want_call, Some(Err(TxErr::Budget))) {
        return Ok(None);
    }
    ctx.eval();
    let got = sut_tx(m, data, genesis);
    if got != want {
        return Err(Bad("transaction", format!("data 0x{} genesis {genesis:?}\nexpected {want:?}\ngot      {got:?}", hex::encode(data))));
    }
    let slice = data;
    match MarkedData::<&[u8], (), M>::mark(&slice, &mut ()) {
        Ok(md) => {
            let Ok((a, b)) = border else {
                return Err(Bad("mark", format!("data 0x{} is marked at {} and {}, the prefix is not usable", hex::encode(data), md.call_start(), md.extensions_start())));
            };
            let same = md.call_start() == a && md.extensions_start() == b && *md.data() == data && md.data_no_extensions() == &data[..b];
            if !same {
                return Err(Bad("mark", format!("data 0x{}: call at {} to {}, marked {} to {}, without extensions 0x{}", hex::encode(data), a, b, md.call_start(), md.extensions_start(), hex::encode(md.data_no_extensions()))));
            }
            let c = decode_as_call(&md, &mut (), m).map_err(|e| tx_err(&e));
            if Some(&c) != want_call.as_ref() {
                return Err(Bad("call", format!("data 0x{}\nexpected call {want_call:?}\ngot {c:?}", hex::encode(data))));
            }
            let x = decode_extensions(&md, &mut (), m, genesis).map_err(|e| tx_err(&e));
            let w = want.clone().map(|w| w.1);
            if x != w {
                return Err(Bad("extensions", format!("data 0x{}\nexpected extensions {w:?}\ngot {x:?}", hex::encode(data))));
            }
        }
        Err(e) => {
            let e = tx_err(&e);
            if border.is_ok() || e != TxErr::Cut {
                return Err(Bad("mark", format!("data 0x{}: border {border:?}, marking gave {e:?}", hex::encode(data))));
            }
        }
    }
    Ok(Some(want))
}

pub fn compare_unmarked<M: AsMetadata<()>>(m: &M, model: &Model, data: &[u8], genesis: Option<H256>, ctx: &mut Ctx) -> Result<(), Bad> {
    let want = model.transaction_unmarked(data, genesis);
    if want == Err(TxErr::Budget) {
        return Ok(());
    }
    ctx.eval();
    let got = sut_tx_unmarked(m, data, genesis);
    if got != want {
        return Err(Bad("unmarked", format!("unmarked data 0x{} genesis {genesis:?}\nexpected {want:?}\ngot      {got:?}", hex::encode(data))));
    }
    Ok(())
}

/// Prefix and contents varied.
fn variants<M: AsMetadata<()>>(t: &mut Tape, ctx: &mut Ctx, m: &M, model: &Model, tx: &TxCase, genesis: Option<H256>) -> Result<(), Bad> {
    let whole = marked(&tx.call, &tx.ext);
    if let Some(Ok((c, _))) = compare(m, model, &whole, genesis, ctx)? {
        ctx.label("accepted");
        ctx.label_if(c.is_err(), "not a call");
        // same call and extensions without the prefix
        compare_unmarked(m, model, &[&tx.call[..], &tx.ext[..]].concat(), genesis, ctx)?;
    }
    let n = tx.call.len();
    for _ in 0..3 {
        let mut data = whole.clone();
        match t.weighted(&[28, 28, 28, 28, 28, 28, 28, 28, 28, 4]) {
            0 => {
                // shorter
                let k = t.range(0, n);
                ctx.label_if(k < n, "short border");
                data = [compact_bytes(k as u128), tx.call.clone(), tx.ext.clone()].concat();
            }
            1 => {
                let k = n + t.range(0, tx.ext.len().max(1));
                ctx.label_if(k > n, "long border");
                data = [compact_bytes(k as u128), tx.call.clone(), tx.ext.clone()].concat();
            }
            2 => {
                // more than there is
                let k = match t.below(3) {
                    0 => n + tx.ext.len() + t.range(1, 3),
                    1 => t.uint(32) as usize,
                    _ => u32::MAX as usize - t.below(8),
                };
                ctx.label_if(k > n + tx.ext.len(), "cut");
                data = [compact_bytes(k as u128), tx.call.clone(), tx.ext.clone()].concat();
            }
            3 => {
                // longer form of the same number, or plain garbage
                let p = match t.below(4) {
                    0 => ((n as u16) << 2 | 1).to_le_bytes().to_vec(),
                    1 => ((n as u32) << 2 | 2).to_le_bytes().to_vec(),
                    2 => [&[3u8][..], &(n as u32).to_le_bytes()].concat(),
                    _ => [&[7u8][..], &(n as u64).to_le_bytes()[..5]].concat(),
                };
                ctx.label("long form");
                data = [p, tx.call.clone(), tx.ext.clone()].concat();
            }
            4 | 5 => {
                // damage in the call, border kept
                let mut c = tx.call.clone();
                mutate(t, &mut c, &tx.call_marks);
                ctx.label("call damaged");
                data = marked(&c, &tx.ext);
            }
            6 => {
                let mut e = tx.ext.clone();
                mutate(t, &mut e, &tx.ext_marks);
                ctx.label("ext damaged");
                data = marked(&tx.call, &e);
            }
            7 => {
                // unused bytes at the end of the call
                let extra = t.tail(5);
                ctx.label("unused call");
                data = marked(&[&tx.call[..], &extra[..]].concat(), &tx.ext);
            }
            9 => {
                // many of them, so that the border is far away
                let big = BORDERS[t.below(BORDERS.len())] + t.below(3) - 1;
                ctx.label_if(big > n, "far border");
                let mut c = tx.call.clone();
                c.resize(big.max(n), t.u8());
                data = marked(&c, &tx.ext);
            }
            _ => {
                let k = t.below(data.len() + 1);
                data.truncate(k);
            }
        }
        compare(m, model, &data, genesis, ctx)?;
        if t.chance(60) {
            compare_unmarked(m, model, &data, genesis, ctx)?;
        }
    }
    Ok(())
}

pub fn note(ctx: &mut Ctx, tx: &TxCase) {
    if tx.call.len() >= 2 && !tx.ext.is_empty() {
        ctx.interesting(&[&tx.call, &tx.ext]);
    }
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    if t.chance(8) {
        let r = real(t.below(NAMES.len()));
        ctx.label("real");
        let model = Model::of_real(r);
        let Some((tx, genesis)) = gen_real_tx(t, &model, 150) else { return ctx.discard() };
        note(ctx, &tx);
        ctx.describe(|| format!("metadata {}\ncall 0x{}\nextensions 0x{}\ngenesis {genesis:?}", r.name, hex::encode(&tx.call), hex::encode(&tx.ext)));
        if let Err(Bad(s, e)) = variants(t, ctx, &r.arc, &model, &tx, genesis) {
            fail!(s, "metadata {}\n{e}", r.name);
        }
        return Ok(());
    }
    let o = RtOpts { odd_exts: 16, odd_version: 2, odd_params: 0, odd_call: 30, ..RtOpts::default() };
    let Some((rt, tx, genesis)) = gen_rt_tx(t, &o) else { return ctx.discard() };
    note(ctx, &tx);
    ctx.describe(|| format!("{}call 0x{}\nextensions 0x{}\ngenesis {genesis:?}", rt.show(), hex::encode(&tx.call), hex::encode(&tx.ext)));
    let model = rt.model();
    let v15 = t.chance(128);
    ctx.label(if v15 { "v15" } else { "v14" });
    let r = match (t.chance(20), v15) {
        (false, false) => variants(t, ctx, &rt.arc14(), &model, &tx, genesis),
        (false, true) => variants(t, ctx, &rt.arc15(), &model, &tx, genesis),
        (true, false) => variants(t, ctx, &rt.v14(), &model, &tx, genesis),
        (true, true) => variants(t, ctx, &rt.v15(), &model, &tx, genesis),
    };
    if let Err(Bad(s, e)) = r {
        fail!(s, "{}{e}", rt.show());
    }
    Ok(())
}

/// Bundled metadata used directly.
fn enumerated(i: u64, ctx: &mut Ctx) -> Outcome {
    if i >= 400 {
        return long_call(i - 400, ctx);
    }
    let r = real(i as usize);
    let b = tape_bytes(i, 2600);
    let mut t = Tape::new(&b);
    ctx.label("real");
    let model = Model::of_real(r);
    let Some((tx, genesis)) = gen_real_tx(&mut t, &model, 150) else { return ctx.discard() };
    note(ctx, &tx);
    ctx.describe(|| format!("metadata {}\ncall 0x{}\nextensions 0x{}\ngenesis {genesis:?}", r.name, hex::encode(&tx.call), hex::encode(&tx.ext)));
    let res = match &r.meta {
        RealMeta::V14(m) => variants(&mut t, ctx, m, &model, &tx, genesis),
        RealMeta::V15(m) => variants(&mut t, ctx, m, &model, &tx, genesis),
    };
    if let Err(Bad(s, e)) = res {
        fail!(s, "metadata {}\n{e}", r.name);
    }
    ensure!(tx.call.len() >= 2, "gen", "empty call");
    Ok(())
}

/// A remark of any length.
fn long_call(i: u64, ctx: &mut Ctx) -> Outcome {
    let r = real(i as usize);
    let model = Model::of_real(r);
    let b = tape_bytes(i ^ 0x12_0000, 2600);
    let mut t = Tape::new(&b);
    let Some((mut tx, genesis)) = gen_real_tx(&mut t, &model, 150) else { return ctx.discard() };
    let Some([pallet, remark]) = remark(&model) else { return ctx.discard() };
    let big = BORDERS[i as usize % 7] + i as usize / 7 % 3 - 1;
    // call of `big` bytes altogether
    let n = (0..6).map(|k| big - 2 - k).find(|n| 2 + compact_bytes(*n as u128).len() + n <= big).unwrap();
    tx.call = [vec![pallet, remark], compact_bytes(n as u128), vec![i as u8; n]].concat();
    ctx.label_if(tx.call.len() > 16_000, "long call");
    note(ctx, &tx);
    let data = marked(&tx.call, &tx.ext);
    ctx.describe(|| format!("metadata {} remark of {n} bytes, extensions 0x{}", r.name, hex::encode(&tx.ext)));
    let res = match &r.meta {
        RealMeta::V14(m) => compare(m, &model, &data, genesis, ctx),
        RealMeta::V15(m) => compare(m, &model, &data, genesis, ctx),
    };
    match res {
        Ok(Some(Ok((c, _)))) => ensure!(c.is_ok(), "long-call", "metadata {}: remark of {n} bytes was not decoded: {c:?}", r.name),
        Ok(w) => ensure!(w.is_some(), "gen", "remark of {n} bytes is over budget"),
        Err(Bad(s, mut e)) => {
            e.truncate(3000);
            fail!(s, "metadata {}\nremark of {n} bytes\n{e}", r.name)
        }
    }
    Ok(())
}

/// Numbers of `System::remark`.
pub fn remark(m: &Model) -> Option<[u8; 2]> {
    use scale_info::{TypeDef, TypeDefPrimitive};
    let ty = |id: u32| &m.reg.types[id as usize].ty.type_def;
    let TypeDef::Variant(calls) = ty(m.call_ty) else { return None };
    let system = calls.variants.iter().find(|v| v.name == "System")?;
    let TypeDef::Variant(c) = ty(system.fields.first()?.ty.id) else { return None };
    let remark = c.variants.iter().find(|v| v.name == "remark")?;
    match ty(remark.fields.first()?.ty.id) {
        TypeDef::Sequence(x) if matches!(ty(x.type_param.id), TypeDef::Primitive(TypeDefPrimitive::U8)) && remark.fields.len() == 1 => Some([system.index, remark.index]),
        _ => None,
    }
}
