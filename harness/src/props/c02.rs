//! C02: agreement with the native SCALE codec of the described type.

use std::sync::OnceLock;

use crate::mutate::mutate;
use crate::native::{all, of_parsed, Native};
use crate::props::c01::value_for;
use crate::runner::{Ctx, Outcome, Property};
use crate::sut;
use crate::tape::Tape;
use crate::walk::Hi;
use crate::{ensure, fail};

pub static P: Property = Property {
    id: "C02",
    rule: "one of some 145 Rust types with derived codec and type description; a generated value's encoding, damaged in 3 of 4 cases, or arbitrary bytes; non-trivial = at least 2 bytes",
    assumptions: &["parity-scale-codec and scale-info derive define the encoding"],
    tape_len: 700,
    quick: 8_000_000,
    thorough: 120_000_000,
    run,
    enumerated: Some((160 * 259, enumerated)),
    known_demos: &[],
    must_reach: &["accepted", "rejected", "accepted damaged", "leftover"],
};

fn natives() -> &'static Vec<Native> {
    static N: OnceLock<Vec<Native>> = OnceLock::new();
    N.get_or_init(all)
}

pub fn compare(n: &Native, data: &[u8], ctx: &mut Ctx, damaged: bool) -> Outcome {
    let native = (n.decode)(data);
    let mut pos = 0;
    let at = sut::decode_at(&n.reg, n.id, data, &mut pos);
    match (&native, &at) {
        (Some((v, used)), Ok(x)) => {
            ctx.label("accepted");
            ctx.label_if(damaged, "accepted damaged");
            ctx.label_if(*used < data.len(), "leftover");
            let got = of_parsed(&x.data);
            ensure!(got.as_ref() == Some(v), "value", "{}: data 0x{} native value {v:?}, reported {got:?}", n.name, hex::encode(data));
            ensure!(pos == *used, "consumed", "{}: data 0x{} native uses {used} bytes, parser {pos}", n.name, hex::encode(data));
        }
        (None, Err(_)) => ctx.label("rejected"),
        (Some((v, _)), Err(e)) => fail!("rejects", "{}: data 0x{} is {v:?} for the type's own codec, parser says {e:?}", n.name, hex::encode(data)),
        (None, Ok(x)) => fail!("accepts", "{}: data 0x{} is refused by the type's own codec, parser reports {x:?}", n.name, hex::encode(data)),
    }
    let whole = sut::decode_all(&n.reg, n.id, data);
    let expect = matches!(&native, Some((_, used)) if *used == data.len());
    ensure!(whole.is_ok() == expect, "whole", "{}: data 0x{} decode-all gives {whole:?}, native {native:?}", n.name, hex::encode(data));
    if let (Ok(a), Ok(b)) = (&whole, &at) {
        ensure!(a == b, "whole-value", "{}: decode-all and decode-at differ on 0x{}", n.name, hex::encode(data));
    }
    Ok(())
}

/// Every type against no bytes, each single byte, and a few long constants.
fn enumerated(i: u64, ctx: &mut Ctx) -> Outcome {
    let n = natives();
    let (k, b) = ((i / 259) as usize, (i % 259) as usize);
    let Some(n) = n.get(k) else { return Ok(()) };
    let data = match b {
        0..=255 => vec![b as u8],
        256 => vec![],
        257 => vec![0; 300],
        _ => vec![0xff; 300],
    };
    if data.len() > 1 {
        ctx.interesting(&[n.name.as_bytes(), &data]);
    }
    compare(n, &data, ctx, true)
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let n = t.pick(natives());
    let mode = t.below(8);
    let (data, damaged) = if mode < 7 {
        let Some(c) = value_for(t, &n.reg, n.id, Hi::None, 60) else {
            return ctx.discard();
        };
        let mut d = c.data;
        if mode > 1 {
            mutate(t, &mut d, &c.marks);
        } else {
            ensure!((n.decode)(&d).is_some(), "harness", "generator made an encoding of {} that its codec refuses: 0x{}", n.name, hex::encode(&d));
        }
        (d, mode > 1)
    } else {
        let k = t.below(40);
        (t.bytes(k), true)
    };
    ctx.describe(|| format!("{} 0x{}", n.name, hex::encode(&data)));
    if data.len() >= 2 {
        ctx.interesting(&[n.name.as_bytes(), &data]);
    }
    compare(n, &data, ctx, damaged)
}
