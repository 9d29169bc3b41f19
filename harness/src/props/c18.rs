//! C18: one runtime in metadata versions 14 and 15.

use std::sync::OnceLock;

use frame_metadata::{v14, v15};
use primitive_types::H256;
use substrate_parser::traits::{AsCompleteMetadata, AsMetadata};

use crate::meta::*;
use crate::mutate::mutate;
use crate::props::c15::{gen_body, signed, unsigned};
use crate::runner::{Ctx, Outcome, Property};
use crate::tape::Tape;
use crate::walk::compact_bytes;
use crate::fail;

pub static P: Property = Property {
    id: "C18",
    rule: "generated runtime rendered in both metadata versions (type parameters in any order, missing, renamed), with transactions and extrinsics, valid and damaged, and the bundled version 14 metadata converted to version 15; non-trivial = a call of at least 2 bytes and non-empty extensions",
    assumptions: &[],
    tape_len: 2600,
    quick: 75_000,
    thorough: 6_000_000,
    run,
    enumerated: Some((280, enumerated)),
    known_demos: &[],
    must_reach: &["parameters found", "NoAddressParam", "NoCallParam", "NoExtraParam", "NoSignatureParam", "UnexpectedExtrinsicType", "shuffled parameters", "transaction accepted", "extrinsic accepted", "damaged", "real", "version"],
};

macro_rules! eq {
    ($what:expr, $a:expr, $b:expr) => {{
        let (a, b) = ($a, $b);
        if a != b {
            return Err(format!("{}\nversion 14: {a:?}\nversion 15: {b:?}", $what));
        }
    }};
}

fn show_spec<M: AsMetadata<()>>(m: &M) -> String {
    match m.spec_name_version() {
        Ok(x) => format!("{x:?}"),
        Err(e) => meta_err(&e),
    }
}

fn show_exts<M: AsMetadata<()>>(m: &M) -> String {
    format!("{:?}", m.signed_extensions().map_err(|e| meta_err(&e)))
}

/// All functions on one transaction and its parts.
fn both<A: AsCompleteMetadata<()>, B: AsCompleteMetadata<()>>(a: &A, b: &B, model: &Model, call: &[u8], ext: &[u8], genesis: Option<H256>, ctx: &mut Ctx) -> Result<(), String> {
    let data = marked(call, ext);
    let want = model.transaction(&data, genesis);
    ctx.label_if(want.is_ok(), "transaction accepted");
    if over_budget(&want) || model.transaction_unmarked(&data[..], genesis) == Err(TxErr::Budget) || model.call(call, 0) == Err(TxErr::Budget) {
        return Ok(());
    }
    let x = sut_tx(a, &data, genesis);
    ctx.eval();
    eq!(format!("transaction 0x{}", hex::encode(&data)), x, sut_tx(b, &data, genesis));
    let un = [call, ext].concat();
    if model.transaction_unmarked(&un, genesis) != Err(TxErr::Budget) {
        ctx.eval();
        eq!(format!("unmarked 0x{}", hex::encode(&un)), sut_tx_unmarked(a, &un, genesis), sut_tx_unmarked(b, &un, genesis));
    }
    let (mut p, mut q) = (0, 0);
    eq!(format!("call 0x{}", hex::encode(call)), sut_call(a, call, &mut p), sut_call(b, call, &mut q));
    eq!("position after the call", p, q);
    let (mut p, mut q) = (0, 0);
    eq!(format!("extensions 0x{}", hex::encode(ext)), sut_exts(a, ext, &mut p, genesis), sut_exts(b, ext, &mut q, genesis));
    eq!("position after the extensions", p, q);
    Ok(())
}

fn both_ux<A: AsCompleteMetadata<()>, B: AsCompleteMetadata<()>>(a: &A, b: &B, model: &Model, params: &[u32; 4], contents: &[u8], ctx: &mut Ctx) -> Result<(), String> {
    let data = [&compact_bytes(contents.len() as u128)[..], contents].concat();
    let want = model.extrinsic(&Ok(*params), &data).0;
    ctx.label_if(want.is_ok(), "extrinsic accepted");
    if want == Err(UxErr::Budget) {
        return Ok(());
    }
    ctx.eval();
    let x = sut_ux(a, &data);
    eq!(format!("extrinsic 0x{}", hex::encode(&data)), x, sut_ux(b, &data));
    Ok(())
}

fn static_parts<A: AsCompleteMetadata<()>, B: AsCompleteMetadata<()>>(a: &A, b: &B) -> Result<(), String> {
    eq!("name and version", show_spec(a), show_spec(b));
    eq!("extensions", show_exts(a), show_exts(b));
    eq!("extrinsic version", a.extrinsic_version().map_err(|e| meta_err(&e)), b.extrinsic_version().map_err(|e| meta_err(&e)));
    Ok(())
}

fn params_of<M: AsCompleteMetadata<()>>(m: &M) -> Result<[u32; 4], String> {
    m.extrinsic_type_params().map(|p| [p.address_ty.id, p.call_ty.id, p.signature_ty.id, p.extra_ty.id]).map_err(|e| meta_err(&e))
}

fn call_of<M: AsMetadata<()>>(m: &M) -> Result<u32, String> {
    m.call_ty().map(|x| x.id).map_err(|e| meta_err(&e))
}

fn check(t: &mut Tape, ctx: &mut Ctx, rt: &Rt, a: &v14::RuntimeMetadataV14, b: &v15::RuntimeMetadataV15, tx: &TxCase, genesis: Option<H256>) -> Result<(), String> {
    static_parts(a, b)?;
    let want = rt.v14_params();
    let all = [rt.address_ty, rt.call_ty, rt.signature_ty, rt.extra_ty];
    let got = params_of(a);
    if !meta_agree(&want, &got) {
        return Err(format!("type parameters of version 14: expected (address, call, signature, extra) {want:?}, got {got:?}"));
    }
    if params_of(b) != Ok(all) {
        return Err(format!("types of version 15: expected {all:?}, got {:?}", params_of(b)));
    }
    // the call type alone, too
    let w = want.clone().map(|x| x[1]);
    if !meta_agree(&w, &call_of(a)) || call_of(b) != Ok(rt.call_ty) {
        return Err(format!("call type: expected {w:?} and {}, got {:?} and {:?}", rt.call_ty, call_of(a), call_of(b)));
    }
    match &want {
        Ok(p) => {
            ctx.label("parameters found");
            if *p != all {
                return Ok(());
            }
        }
        Err(e) => {
            for l in ["NoAddressParam", "NoCallParam", "NoExtraParam", "NoSignatureParam", "UnexpectedExtrinsicType"] {
                ctx.label_if(e == l || e.starts_with("Unexp") && e.starts_with(l), l);
            }
            return Ok(());
        }
    }
    let model = rt.model();
    ctx.label_if(model.spec.is_err(), "version");
    both(a, b, &model, &tx.call, &tx.ext, genesis, ctx)?;
    let (mut c, mut e) = (tx.call.clone(), tx.ext.clone());
    if t.chance(128) {
        mutate(t, &mut c, &tx.call_marks);
    } else {
        mutate(t, &mut e, &tx.ext_marks);
    }
    ctx.label("damaged");
    both(a, b, &model, &c, &e, genesis, ctx)?;
    if let Some(body) = gen_body(t, &model, &all, 80) {
        let s = signed(&body, rt.version);
        both_ux(a, b, &model, &all, &s, ctx)?;
        both_ux(a, b, &model, &all, &unsigned(&body, rt.version), ctx)?;
        let mut s = s;
        mutate(t, &mut s, &shift(&body.marks, 1));
        both_ux(a, b, &model, &all, &s, ctx)?;
    }
    Ok(())
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let o = RtOpts { odd_exts: 20, odd_version: 12, odd_params: 60, odd_call: 20, ..RtOpts::default() };
    let Some((rt, tx, genesis)) = gen_rt_tx(t, &o) else { return ctx.discard() };
    if tx.call.len() >= 2 && !tx.ext.is_empty() {
        ctx.interesting(&[&tx.call, &tx.ext, &rt.extrinsic_ty.to_le_bytes()]);
    }
    ctx.describe(|| format!("{}call 0x{}\nextensions 0x{}\ngenesis {genesis:?}", rt.show(), hex::encode(&tx.call), hex::encode(&tx.ext)));
    let (a, b) = (rt.v14(), rt.v15());
    let names: Vec<&str> = a.types.types.iter().filter(|x| x.ty.type_params.len() >= 4).flat_map(|x| x.ty.type_params.iter().map(|p| p.name.as_str())).collect();
    ctx.label_if(names != ["Address", "Call", "Signature", "Extra"], "shuffled parameters");
    if let Err(e) = check(t, ctx, &rt, &a, &b, &tx, genesis) {
        let tp: Vec<_> = rt.reg.types.iter().filter(|x| !x.ty.type_params.is_empty()).map(|x| (x.id, &x.ty.type_params)).collect();
        fail!("versions", "{}type parameters {tp:?}\n{e}", rt.show());
    }
    Ok(())
}

fn converted(i: usize) -> &'static v15::RuntimeMetadataV15 {
    static CELLS: OnceLock<Vec<OnceLock<v15::RuntimeMetadataV15>>> = OnceLock::new();
    CELLS.get_or_init(|| NAMES.iter().map(|_| OnceLock::new()).collect())[i].get_or_init(|| match &real(i).meta {
        RealMeta::V14(m) => to_v15(m, &real(i).arc.params.clone().expect("parameters")),
        RealMeta::V15(m) => m.clone(),
    })
}

/// Bundled version 14 metadata and their conversion.
fn enumerated(i: u64, ctx: &mut Ctx) -> Outcome {
    let olds: Vec<usize> = (0..NAMES.len()).filter(|k| !NAMES[*k].ends_with("_v15") && NAMES[*k] != "statemint1002000").collect();
    let k = olds[i as usize % olds.len()];
    let r = real(k);
    let RealMeta::V14(a) = &r.meta else { return ctx.discard() };
    let b = converted(k);
    let bytes = tape_bytes(i ^ 0x18_0000, 2600);
    let mut t = Tape::new(&bytes);
    ctx.label("real");
    let model = Model::of_real(r);
    let Some((tx, genesis)) = gen_real_tx(&mut t, &model, 120) else { return ctx.discard() };
    ctx.interesting(&[&tx.call, &tx.ext, r.name.as_bytes()]);
    ctx.describe(|| format!("metadata {}\ncall 0x{}\nextensions 0x{}\ngenesis {genesis:?}", r.name, hex::encode(&tx.call), hex::encode(&tx.ext)));
    let mut go = || -> Result<(), String> {
        static_parts(a, b)?;
        eq!("types", params_of(a), params_of(b));
        both(a, b, &model, &tx.call, &tx.ext, genesis, ctx)?;
        let p = [model.address_ty, model.call_ty, model.signature_ty, model.extra_ty];
        // the parameters by name, straight from the type
        let tp = &a.types.types[a.extrinsic.ty.id as usize].ty.type_params;
        let by_name = |n: &str| tp.iter().find(|x| x.name == n).and_then(|x| x.ty).map(|x| x.id);
        if ["Address", "Call", "Signature", "Extra"].iter().all(|n| by_name(n).is_some()) {
            eq!("types by name", Ok([by_name("Address"), by_name("Call"), by_name("Signature"), by_name("Extra")]), params_of(a).map(|p| p.map(Some)));
        }
        if let Some(body) = gen_body(&mut t, &model, &p, 100) {
            let s = signed(&body, model.version);
            both_ux(a, b, &model, &p, &s, ctx)?;
        }
        Ok(())
    };
    if let Err(e) = go() {
        fail!("versions", "metadata {}\n{e}", r.name);
    }
    Ok(())
}
