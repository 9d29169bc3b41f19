//! C13: all extensions, in order, all data used.

use primitive_types::H256;
use substrate_parser::traits::AsMetadata;

use crate::meta::*;
use crate::mutate::mutate;
use crate::runner::{Ctx, Outcome, Property};
use crate::tape::Tape;
use crate::{ensure, fail};

pub static P: Property = Property {
    id: "C13",
    rule: "generated signed-extension list (order, number, identifiers, explicit and implicit types) with generated contents behind arbitrary bytes, complete, cut at many places, extended, damaged; non-trivial = at least 3 extensions and 8 bytes of contents",
    assumptions: &[],
    tape_len: 2600,
    quick: 260_000,
    thorough: 15_000_000,
    run,
    enumerated: None,
    known_demos: &[],
    must_reach: &["accepted", "cut", "extended", "damaged", "many", "no extensions", "real", "v14", "v15", "repeated identifier", "behind a prefix"],
};

fn same<M: AsMetadata<()>>(m: &M, model: &Model, data: &[u8], start: usize, genesis: Option<H256>, ctx: &mut Ctx) -> Result<Option<Exts>, String> {
    let want = model.extensions(data, start, genesis);
    if want == Err(TxErr::Budget) {
        return Ok(None);
    }
    ctx.eval();
    let mut p = start;
    let got = sut_exts(m, data, &mut p, genesis);
    if got != want {
        return Err(format!("data 0x{} from {start}, genesis {genesis:?}\nexpected {want:?}\ngot      {got:?}", hex::encode(data)));
    }
    if let Ok(x) = &got {
        if p != data.len() {
            return Err(format!("position {p} after all of {} bytes", data.len()));
        }
        if x.len() != 2 * model.exts.len() {
            return Err(format!("{} values for {} extensions", x.len(), model.exts.len()));
        }
    }
    Ok(Some(want))
}

fn variants<M: AsMetadata<()>>(t: &mut Tape, ctx: &mut Ctx, m: &M, model: &Model, ext: &[u8], marks: &[crate::walk::Mark], genesis: Option<H256>) -> Result<(), String> {
    let np = if t.chance(100) { t.below(20) } else { 0 };
    ctx.label_if(np > 0, "behind a prefix");
    let mut data = t.bytes(np);
    data.extend_from_slice(ext);
    let r = same(m, model, &data, np, genesis, ctx)?;
    ctx.label_if(matches!(r, Some(Ok(_))), "accepted");
    let n = ext.len();
    if n > 0 {
        for _ in 0..4 {
            let k = if !marks.is_empty() && t.chance(160) {
                let m = t.pick(marks);
                (m.start + t.below(m.end - m.start + 1)).min(n - 1)
            } else {
                t.below(n)
            };
            ctx.label("cut");
            same(m, model, &data[..np + k], np, genesis, ctx)?;
        }
        let tail = t.tail(9);
        ctx.label("extended");
        same(m, model, &[&data[..], &tail[..]].concat(), np, genesis, ctx)?;
        let mut d = ext.to_vec();
        mutate(t, &mut d, marks);
        ctx.label("damaged");
        same(m, model, &[&data[..np], &d[..]].concat(), np, genesis, ctx)?;
    }
    // start at or behind the end
    let mut p = data.len() + t.below(3);
    let at = p;
    let got = sut_exts(m, &data, &mut p, genesis);
    if got.is_ok() {
        return Err(format!("from {at} of {} bytes: {got:?}", data.len()));
    }
    Ok(())
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    if t.chance(8) {
        let r = real(t.below(NAMES.len()));
        ctx.label("real");
        let model = Model::of_real(r);
        let Some((tx, genesis)) = gen_real_tx(t, &model, 60) else { return ctx.discard() };
        ctx.interesting(&[&tx.ext, r.name.as_bytes()]);
        ctx.describe(|| format!("metadata {}\nextensions 0x{}\ngenesis {genesis:?}", r.name, hex::encode(&tx.ext)));
        if let Err(e) = variants(t, ctx, &r.arc, &model, &tx.ext, &tx.ext_marks, genesis) {
            fail!("extensions", "metadata {}\n{e}", r.name);
        }
        return Ok(());
    }
    let o = RtOpts { odd_exts: 12, odd_version: 0, odd_params: 0, odd_call: 0, more_exts: 8, ..RtOpts::default() };
    let Some((mut rt, mut tx, genesis)) = gen_rt_tx(t, &o) else { return ctx.discard() };
    if t.chance(4) {
        rt.exts.clear();
        tx.ext.clear();
        tx.ext_marks.clear();
        tx.ext_values.clear();
        ctx.label("no extensions");
    }
    let n = rt.exts.len();
    ctx.label_if(n >= 10, "many");
    ctx.label_if((0..n).any(|i| (0..i).any(|j| rt.exts[i].identifier == rt.exts[j].identifier)), "repeated identifier");
    if n >= 3 && tx.ext.len() >= 8 {
        ctx.interesting(&[&tx.ext, format!("{:?}", rt.exts).as_bytes()]);
    }
    ctx.describe(|| format!("{}extensions 0x{}\ngenesis {genesis:?}", rt.show(), hex::encode(&tx.ext)));
    let model = rt.model();
    // what was put in is what the model reads
    if n > 0 && model.extensions(&tx.ext, 0, genesis).is_ok() {
        ensure!(model.extensions(&tx.ext, 0, genesis).as_ref() == Ok(&tx.ext_values), "harness", "model and generator differ\n{}", rt.show());
    }
    let v15 = t.chance(128);
    ctx.label(if v15 { "v15" } else { "v14" });
    let r = match (t.chance(20), v15) {
        (false, false) => variants(t, ctx, &rt.arc14(), &model, &tx.ext, &tx.ext_marks, genesis),
        (false, true) => variants(t, ctx, &rt.arc15(), &model, &tx.ext, &tx.ext_marks, genesis),
        (true, false) => variants(t, ctx, &rt.v14(), &model, &tx.ext, &tx.ext_marks, genesis),
        (true, true) => variants(t, ctx, &rt.v15(), &model, &tx.ext, &tx.ext_marks, genesis),
    };
    if let Err(e) = r {
        fail!("extensions", "{}{e}", rt.show());
    }
    Ok(())
}
