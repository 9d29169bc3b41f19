//! C14: foreign or inconsistent transactions are refused, others are not.

use primitive_types::H256;
use substrate_parser::traits::AsMetadata;

use crate::meta::*;
use crate::runner::{Ctx, Outcome, Property};
use crate::tape::Tape;
use crate::walk::MarkKind;
use crate::fail;

pub static P: Property = Property {
    id: "C14",
    rule: "generated extension lists with specification version, genesis hash, block hash and mortality present, absent, repeated, wrapped, exchanged or mismatched, over all genesis options; non-trivial = the contents decode, so that the decision table decides",
    assumptions: &[],
    tape_len: 1500,
    quick: 350_000,
    thorough: 40_000_000,
    run,
    enumerated: None,
    known_demos: &[],
    must_reach: &[
        "accepted",
        "accepted immortal",
        "accepted mortal",
        "accepted without expectation",
        "SpecVersionTwice",
        "NoSpecVersion",
        "version mismatch",
        "GenesisHashTwice",
        "NoGenesisHash",
        "genesis mismatch",
        "BlockHashTwice",
        "EraTwice",
        "immortal mismatch",
        "metadata version unknown",
        "real",
        "v14",
        "v15",
    ],
};

fn label(want: &Exts, genesis: Option<H256>, ctx: &mut Ctx) {
    match want {
        Ok(x) => {
            ctx.label("accepted");
            ctx.label_if(genesis.is_none(), "accepted without expectation");
            match collect(x).era.first() {
                Some(substrate_parser::additional_types::Era::Immortal) => ctx.label("accepted immortal"),
                Some(_) => ctx.label("accepted mortal"),
                None => {}
            }
        }
        Err(TxErr::List(l)) => ctx.label(l),
        Err(TxErr::Version { .. }) => ctx.label("version mismatch"),
        Err(TxErr::Genesis { .. }) => ctx.label("genesis mismatch"),
        Err(TxErr::Immortal) => ctx.label("immortal mismatch"),
        Err(TxErr::Meta(_)) => ctx.label("metadata version unknown"),
        Err(TxErr::AnyOf(_)) => ctx.label("several things wrong"),
        _ => {}
    }
}

fn same<M: AsMetadata<()>>(m: &M, model: &Model, data: &[u8], genesis: Option<H256>, ctx: &mut Ctx) -> Result<(), String> {
    let want = model.extensions(data, 0, genesis);
    if want == Err(TxErr::Budget) {
        return Ok(());
    }
    label(&want, genesis, ctx);
    ctx.eval();
    let mut p = 0;
    let got = sut_exts(m, data, &mut p, genesis);
    if got != want {
        return Err(format!("extensions 0x{}, genesis {genesis:?}\nexpected {want:?}\ngot      {got:?}", hex::encode(data)));
    }
    Ok(())
}

fn variants<M: AsMetadata<()>>(t: &mut Tape, ctx: &mut Ctx, m: &M, model: &Model, tx: &TxCase, genesis: Option<H256>) -> Result<(), String> {
    for g in [genesis, None, Some(H256(tx.pool))] {
        same(m, model, &tx.ext, g, ctx)?;
    }
    // single changes to hashes, numbers, mortality
    for _ in 0..3 {
        if tx.ext_marks.is_empty() {
            break;
        }
        let mut d = tx.ext.clone();
        let k = *t.pick(&tx.ext_marks);
        if k.end > k.start {
            let i = k.start + t.below(k.end - k.start);
            if k.kind == MarkKind::Era && t.chance(128) {
                d.splice(k.start..k.end, [0u8]);
            } else {
                d[i] ^= 1 << t.below(8);
            }
        }
        same(m, model, &d, if t.chance(64) { None } else { Some(H256(tx.pool)) }, ctx)?;
    }
    Ok(())
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    if t.chance(6) {
        let r = real(t.below(NAMES.len()));
        ctx.label("real");
        let model = Model::of_real(r);
        let mut pool = [0; 32];
        pool.copy_from_slice(&t.bytes(32));
        let Some((mut ext, ext_values, ext_marks)) = gen_exts(t, &model, pool, 60) else { return ctx.discard() };
        if !t.chance(30) {
            if let Ok((_, v)) = &model.spec {
                let v: u128 = v.parse().unwrap();
                let v = if t.chance(40) { v ^ (1 << t.below(24)) } else { v };
                patch_version(&model, &mut ext, v);
            }
        }
        let tx = TxCase { call: vec![], call_value: ext_values[0].clone(), call_marks: vec![], ext, ext_values, ext_marks, pool };
        ctx.interesting(&[&tx.ext, r.name.as_bytes()]);
        ctx.describe(|| format!("metadata {}\nextensions 0x{}", r.name, hex::encode(&tx.ext)));
        if let Err(e) = variants(t, ctx, &r.arc, &model, &tx, Some(H256(pool))) {
            fail!("decision", "metadata {}\n{e}", r.name);
        }
        return Ok(());
    }
    let o = RtOpts { odd_exts: 170, odd_version: 6, odd_params: 0, odd_call: 0, more_exts: 3, gen: crate::genreg::Opts { max_types: 20, max_depth: 2, ..Default::default() } };
    let Some((rt, tx, genesis)) = gen_rt_tx(t, &o) else { return ctx.discard() };
    let model = rt.model();
    ctx.interesting(&[&tx.ext, format!("{:?}", rt.exts.iter().map(|e| &e.identifier).collect::<Vec<_>>()).as_bytes()]);
    ctx.describe(|| format!("{}extensions 0x{}\ngenesis {genesis:?}", rt.show(), hex::encode(&tx.ext)));
    let v15 = t.chance(128);
    ctx.label(if v15 { "v15" } else { "v14" });
    let r = match (t.chance(16), v15) {
        (false, false) => variants(t, ctx, &rt.arc14(), &model, &tx, genesis),
        (false, true) => variants(t, ctx, &rt.arc15(), &model, &tx, genesis),
        (true, false) => variants(t, ctx, &rt.v14(), &model, &tx, genesis),
        (true, true) => variants(t, ctx, &rt.v15(), &model, &tx, genesis),
    };
    if let Err(e) = r {
        fail!("decision", "{}{e}", rt.show());
    }
    Ok(())
}
