//! C03: exact consumption wherever the value sits.

use substrate_parser::error::ParserError;

use crate::genreg::Opts;
use crate::mutate::mutate;
use crate::props::c01::{gen_case, label_case, show};
use crate::runner::{Ctx, Outcome, Property};
use crate::sut;
use crate::tape::Tape;
use crate::walk::{ref_decode, Hi, RefErr};
use crate::{ensure, fail};

pub static P: Property = Property {
    id: "C03",
    rule: "generated registry, type and encoded value, decoded with random bytes before and after, cut at every length, and after damage; non-trivial = at least 3 nodes and 2 encoded bytes",
    assumptions: &[],
    tape_len: 900,
    quick: 250_000,
    thorough: 30_000_000,
    run,
    enumerated: None,
    known_demos: &[],
    must_reach: &["prefix", "suffix", "cut", "damaged ok", "compact", "bits", "special", "sequence"],
};

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let opts = Opts { max_types: 30, ..Opts::default() };
    let Some(c) = gen_case(t, opts, Hi::None) else {
        return ctx.discard();
    };
    label_case(&c, ctx);
    let long = c.data.len() > 1500;
    ctx.label_if(long, "over 1500 bytes");
    ctx.describe(|| show(&c));
    let n = c.data.len();
    let (np, ns) = (t.below(24), t.below(40));
    let mut whole = t.bytes(np);
    whole.extend_from_slice(&c.data);
    let tail = if ns == 39 { t.tail(40) } else { t.bytes(ns) };
    let ns = tail.len();
    whole.extend_from_slice(&tail);
    ctx.label_if(np > 0, "prefix");
    ctx.label_if(ns > 0, "suffix");

    let mut pos = np;
    match sut::decode_at(&c.reg, c.id, &whole, &mut pos) {
        Ok(x) => {
            ensure!(x == c.expected, "surroundings", "value depends on surroundings: {np} bytes before, {ns} after\n{}\nwhole 0x{}\nexpected {:?}\ngot      {x:?}", show(&c), hex::encode(&whole), c.expected);
            ensure!(pos == np + n, "position", "position after decoding is {pos}, the value ends at {}\n{}", np + n, show(&c));
        }
        Err(e) => fail!("rejected", "valid encoding between {np} and {ns} bytes rejected: {e:?}\n{}", show(&c)),
    }
    let all = sut::decode_all(&c.reg, c.id, &whole[np..]);
    if ns == 0 {
        ensure!(matches!(&all, Ok(x) if *x == c.expected), "whole", "exact input not decoded: {all:?}\n{}", show(&c));
    } else {
        match &all {
            Err(ParserError::SomeDataNotUsedBlob { from }) if *from == n => {}
            x => fail!("leftover", "{ns} unused bytes from {n}, but the answer is {x:?}\n{}", show(&c)),
        }
    }
    // every proper prefix
    let cuts: Vec<usize> = if long { (0..3).map(|_| t.below(n)).chain(n - 2..n).collect() } else if n <= 80 { (0..n).collect() } else { (0..40).chain((0..24).map(|_| t.below(n))).chain(n - 16..n).collect() };
    for k in cuts {
        ctx.eval();
        ctx.label("cut");
        let mut p = 0;
        let r = sut::decode_at(&c.reg, c.id, &c.data[..k], &mut p);
        ensure!(r.is_err(), "truncated", "first {k} of {n} bytes decoded as {r:?}\n{}", show(&c));
        ensure!(sut::decode_all(&c.reg, c.id, &c.data[..k]).is_err(), "truncated", "first {k} of {n} bytes decoded\n{}", show(&c));
    }
    if n > 0 {
        for d in 0..3 {
            let mut p = n + d;
            let r = sut::decode_at(&c.reg, c.id, &c.data, &mut p);
            ensure!(r.is_err(), "beyond", "decoding at {} past the end gave {r:?}\n{}", n + d, show(&c));
        }
    }
    // damaged data: what is accepted is still consumed exactly
    let mut d = c.data.clone();
    mutate(t, &mut d, &c.marks);
    if d.len() > if long { 200_000 } else { 3000 } {
        return Ok(());
    }
    let (r, rp) = ref_decode(&c.reg, c.id, &d, 0, Hi::None);
    if r == Err(RefErr::Budget) {
        return Ok(());
    }
    let mut p = 0;
    let s = sut::decode_at(&c.reg, c.id, &d, &mut p);
    match (r, s) {
        (Ok(a), Ok(b)) => {
            ctx.label("damaged ok");
            ensure!(a == b && p == rp, "damaged", "damaged data 0x{}: expected end {rp} {a:?}\ngot {p} {b:?}\n{}", hex::encode(&d), show(&c));
            let w = sut::decode_all(&c.reg, c.id, &d);
            ensure!(w.is_ok() == (p == d.len()), "damaged-all", "decode-all of 0x{} gave {w:?}, value ends at {p} of {}\n{}", hex::encode(&d), d.len(), show(&c));
            let w = sut::decode_all(&c.reg, c.id, &d[..p]);
            ensure!(matches!(&w, Ok(x) if *x == a), "damaged-cut", "exact part of 0x{} gave {w:?}", hex::encode(&d));
        }
        (Err(_), Err(_)) => {}
        (a, b) => fail!("damaged-verdict", "damaged data 0x{}: expected {a:?}\ngot {b:?}\n{}", hex::encode(&d), show(&c)),
    }
    Ok(())
}
