//! C20: results do not depend on how data and metadata are stored.

use crate::chaos::chaos;
use crate::mem::*;
use crate::runner::{Ctx, Outcome, Property};
use crate::tape::Tape;
use crate::{ensure, fail};

pub static P: Property = Property {
    id: "C20",
    rule: "any entry point on valid and damaged data of generated (also with damaged types) and bundled metadata, over a plain slice with a whole registry, and over a paged recording memory with types fetched (or decoded) one at a time; non-trivial = at least 8 requests to the memory",
    assumptions: &["the memory answers as its trait documents"],
    tape_len: 2200,
    quick: 500_000,
    thorough: 30_000_000,
    run,
    enumerated: None,
    known_demos: &[],
    must_reach: &["all", "at", "extension", "husk", "transaction", "unmarked", "parts", "extrinsic", "entry", "key", "value", "error", "refused read", "encoded types", "damaged types", "real"],
};

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let page = *t.pick(&[1usize, 2, 3, 7, 16, 64, 256]);
    let encode = t.chance(60);
    let Some(c) = gen_job(t, true) else { return ctx.discard() };
    let broken = !c.note.starts_with("metadata") && t.chance(70);
    let c = if broken {
        match chaos(t, c) {
            Some(c) => c,
            None => return ctx.discard(),
        }
    } else {
        c
    };
    ctx.label_if(broken, "damaged types");
    ctx.label(c.label());
    ctx.label_if(c.note.starts_with("metadata"), "real");
    ctx.describe(|| c.show());
    let encode = encode && c.meta.reg.0.types.len() < 100;
    ctx.label_if(encode, "encoded types");
    let mm = MemMeta { of: c.meta.clone(), reg: MemReg::new(c.meta.reg.0.clone(), encode) };
    let a = plain(&c.job, &c.meta, &c.data, &c.key);
    ctx.eval();
    let (b, m) = external(&c.job, &mm, &c.data, &c.key, page, None);
    ctx.label(if a.errors.is_empty() { "value" } else { "error" });
    if m.log.len() >= 8 {
        ctx.interesting(&[format!("{:?}", c.job).as_bytes(), &c.data, &c.key, format!("{:?}", m.log).as_bytes()]);
    }
    ensure!(a == b, "differs", "{}\npages of {page}, encoded types {encode}\nin memory {a:?}\nexternal  {b:?}", c.show());
    // what was asked from the memory
    let (mut refused, mut outside) = (0, 0);
    let start_beyond = matches!(c.job, Job::At { pos, .. } | Job::Extension { pos, .. } if pos > c.data.len()) || matches!(c.job, Job::Key { pos, .. } if pos > c.key.len());
    for r in &m.log {
        if let Req::Read { at, len, buf, granted } = *r {
            let total = if buf == 0 { c.data.len() } else { c.key.len() };
            ensure!(at <= total || start_beyond, "beyond", "{}\nread of {len} at {at} of {total}", c.show());
            if !granted {
                refused += 1;
                // a single byte right behind the data may be asked for to see
                // which variant follows (none does, in an enum without any)
                if !(len == 1 && (at == total || start_beyond)) {
                    outside += 1;
                }
            }
        }
    }
    ctx.label_if(refused > 0, "refused read");
    if a.errors.is_empty() && outside > 0 {
        fail!("refused", "{}\na value although reads were refused: {:?}", c.show(), m.log);
    }
    // a repeated run asks for the same
    let (b2, m2) = external(&c.job, &mm, &c.data, &c.key, page, None);
    ensure!(b2 == b && m2.log == m.log, "repeat", "{}\nanother run gives another result", c.show());
    Ok(())
}
