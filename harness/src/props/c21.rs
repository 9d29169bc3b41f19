//! C21: a failing external memory turns into an error.

use crate::mem::*;
use crate::runner::{Ctx, Outcome, Property};
use crate::tape::Tape;
use crate::{ensure, fail};

pub static P: Property = Property {
    id: "C21",
    rule: "any entry point over an external memory which fails at each of its requests in turn, for good and once only; non-trivial = at least 8 requests",
    assumptions: &[],
    tape_len: 2200,
    quick: 130_000,
    thorough: 5_000_000,
    run,
    enumerated: None,
    known_demos: &[],
    must_reach: &["all", "at", "extension", "husk", "transaction", "unmarked", "parts", "extrinsic", "entry", "key", "fault in read", "fault in types", "once", "after a clean error"],
};

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let Some(c) = gen_job(t, false) else { return ctx.discard() };
    ctx.label(c.label());
    ctx.describe(|| c.show());
    let mm = MemMeta { of: c.meta.clone(), reg: MemReg::new(c.meta.reg.0.clone(), false) };
    let (clean, m) = external(&c.job, &mm, &c.data, &c.key, 64, None);
    let n = m.log.len();
    if n >= 8 {
        ctx.interesting(&[format!("{:?}", c.job).as_bytes(), &c.data, &c.key]);
    }
    ctx.label_if(!clean.errors.is_empty() && n > 0, "after a clean error");
    let all = n <= 40;
    let points: Vec<usize> = if all { (0..n).collect() } else { (0..40).map(|_| t.below(n)).collect() };
    for k in points {
        let req = m.log[k];
        ctx.label(if matches!(req, Req::Read { .. }) { "fault in read" } else { "fault in types" });
        for times in [usize::MAX, 1] {
            ctx.eval();
            ctx.label_if(times == 1, "once");
            let (o, f) = external(&c.job, &mm, &c.data, &c.key, 64, Some((k, times)));
            let what = || format!("{}\nthe memory fails {} at request {k} of {n}: {req:?}\nwithout failure {clean:?}\nwith it         {o:?}", c.show(), if times == 1 { "once" } else { "for good" });
            ensure!(f.log.len() > k && f.log[..k] == m.log[..k], "requests", "{}", what());
            let carried = o.errors.iter().any(|e| e.contains(FAULT) && e.contains("External"));
            // the two places where the length in front is looked for: these errors
            // say only that it could not be
            let length = matches!(c.job, Job::Tx { .. } | Job::Parts { .. } | Job::Extrinsic) && o.errors.len() == 1 && o.pieces.is_empty() && m.log[..=k].iter().all(|r| matches!(r, Req::Read { .. })) && {
                let e = &o.errors[0];
                e.starts_with("CutSignable ") || e.starts_with("FormatNoCompact ")
            };
            if carried || length {
                // what is still reported beside the error is right
                let same = o.pieces.iter().all(|p| clean.pieces.contains(p));
                ensure!(same, "value", "{}", what());
                continue;
            }
            fail!(if o.errors.is_empty() { "swallowed" } else { "other-error" }, "{}", what());
        }
    }
    Ok(())
}
