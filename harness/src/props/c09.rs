//! C09: mortality.

use parity_scale_codec::{Decode, Encode};
use scale_info::TypeDefComposite;
use std::sync::OnceLock;
use substrate_parser::additional_types::Era;
use substrate_parser::cards::ParsedData;
use substrate_parser::error::ParserError;

use crate::genreg::{registry, segs, Gen, Opts};
use crate::leaf::era_encode;
use crate::props::c01::value_for;
use crate::runner::{Ctx, Outcome, Property};
use crate::sut;
use crate::tape::Tape;
use crate::walk::{ref_decode, Hi, MarkKind, RefErr};
use crate::{ensure, fail};

pub static P: Property = Property {
    id: "C09",
    rule: "every single byte and every byte pair (enumerated) at a random offset with random followers, against a table built by encoding every (period, phase); plus eras made by hand, and eras embedded in generated structures, also damaged; non-trivial = every distinct pair, every embedded case with a mortal era",
    assumptions: &[],
    tape_len: 500,
    quick: 300_000,
    thorough: 20_000_000,
    run,
    enumerated: Some((65536 + 256, enumerated)),
    known_demos: &[],
    must_reach: &["valid pair", "invalid pair", "immortal", "single byte", "embedded", "damaged", "made era"],
};

/// All mortal encodings, from the chain's side: for each power of two period
/// from 4 to 65536 and each quantized phase below it.
fn table() -> &'static Vec<Option<(u64, u64)>> {
    static T: OnceLock<Vec<Option<(u64, u64)>>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![None; 65536];
        let mut period = 4u64;
        while period <= 65536 {
            let quantize = (period >> 12).max(1);
            let mut phase = 0;
            while phase < period {
                let encoded = (period.trailing_zeros() as u64 - 1).clamp(1, 15) | (phase / quantize) << 4;
                assert!(v[encoded as usize].is_none());
                v[encoded as usize] = Some((period, phase));
                phase += quantize;
            }
            period *= 2;
        }
        v
    })
}

fn era_registry() -> &'static (scale_info::PortableRegistry, u32) {
    static T: OnceLock<(scale_info::PortableRegistry, u32)> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = Tape::new(&[]);
        let mut g = Gen::new(&mut t, Opts::default());
        let id = g.era();
        (registry(std::mem::take(&mut g.types)), id)
    })
}

fn enumerated(i: u64, ctx: &mut Ctx) -> Outcome {
    let (reg, id) = era_registry();
    let mix = crate::tape::hash_bytes(&[&i.to_le_bytes()]);
    let lead = (mix % 5) as usize;
    let follow = (mix >> 8) as usize % 4;
    let mut data: Vec<u8> = (0..lead).map(|k| (mix >> (16 + 8 * k)) as u8).collect();
    if i >= 65536 {
        // single byte, nothing after it
        let b = (i - 65536) as u8;
        data.push(b);
        ctx.label("single byte");
        ctx.interesting(&[&[b]]);
        let mut p = lead;
        let r = sut::decode_at(reg, *id, &data, &mut p);
        let d = Era::decode(&mut &[b][..]);
        if b == 0 {
            ensure!(matches!(&r, Ok(x) if x.data == ParsedData::Era(Era::Immortal)) && p == lead + 1, "immortal", "0x00 decoded as {r:?}, position {p}");
            ensure!(d.is_ok(), "immortal", "Era::decode(0x00) = {d:?}");
        } else {
            ensure!(r.is_err(), "single", "single byte {b:#x} decoded as {r:?}");
            ensure!(d.is_err(), "single", "single byte {b:#x} decoded as {d:?}");
        }
        return Ok(());
    }
    let pair = (i as u16).to_le_bytes();
    data.extend(pair);
    data.extend((0..follow).map(|k| (mix >> (40 + 8 * k)) as u8));
    ctx.interesting(&[&pair]);
    let mut p = lead;
    let r = sut::decode_at(reg, *id, &data, &mut p);
    let d = Era::decode(&mut &pair[..]);
    if pair[0] == 0 {
        ctx.label("immortal");
        ensure!(matches!(&r, Ok(x) if x.data == ParsedData::Era(Era::Immortal)) && p == lead + 1, "immortal", "0x{} decoded as {r:?}, position {p}", hex::encode(pair));
        ensure!(matches!(d, Ok(Era::Immortal)), "immortal", "Era::decode gave {d:?}");
        return Ok(());
    }
    match table()[i as usize] {
        Some((period, phase)) => {
            ctx.label("valid pair");
            let e = Era::Mortal(period, phase);
            ensure!(matches!(&r, Ok(x) if x.data == ParsedData::Era(e)) && p == lead + 2, "mortal", "0x{}: expected {e:?}, got {r:?}, position {p}", hex::encode(pair));
            ensure!(matches!(&d, Ok(x) if *x == e), "mortal", "0x{}: expected {e:?}, Era::decode gave {d:?}", hex::encode(pair));
            ensure!(e.encode() == pair, "encode", "{e:?} encodes as 0x{}, expected 0x{}", hex::encode(e.encode()), hex::encode(pair));
            ensure!(Era::Immortal.encode() == [0], "encode", "immortal encodes as {:?}", Era::Immortal.encode());
        }
        None => {
            ctx.label("invalid pair");
            ensure!(matches!(&r, Err(ParserError::TypeFailure { position, ty: "Era" }) if *position == lead), "invalid", "0x{} at {lead}: expected refusal as Era at {lead}, got {r:?}", hex::encode(pair));
            ensure!(d.is_err(), "invalid", "0x{} decoded as {d:?}", hex::encode(pair));
        }
    }
    Ok(())
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    // an era made by hand, also with a period the chain would not choose
    let k = t.range(1, 63) as u32;
    let k = if t.chance(128) { k.min(20) } else { k };
    let period = 1u64 << k;
    let phase = t.u64() % period;
    let made = Era::Mortal(period, phase);
    let quantum = if k > 12 { 1u64 << (k - 12) } else { 1 };
    let expected = ((k as u16).saturating_sub(1).clamp(1, 15) | ((phase / quantum) << 4) as u16).to_le_bytes();
    ensure!(made.encode() == expected, "made", "{made:?} encodes as 0x{}, expected 0x{}", hex::encode(made.encode()), hex::encode(expected));
    if (2..=16).contains(&k) {
        ctx.label("made era");
        let back = Era::decode(&mut &expected[..]);
        let whole = Era::Mortal(period, phase - phase % quantum);
        ensure!(back.as_ref().ok() == Some(&whole), "made back", "{made:?} encodes as 0x{}, this decodes as {back:?}", hex::encode(expected));
    }
    ctx.eval();
    let mut g = Gen::new(t, Opts { max_types: 20, max_depth: 3, ..Opts::default() });
    let era = g.era();
    let n = g.tape.range(1, 5);
    let mut fields = Vec::new();
    for _ in 0..n {
        let ty = match g.tape.weighted(&[4, 3, 1, 1, 1]) {
            0 => era,
            1 => g.ty(),
            2 => g.wrapper(era),
            3 => g.add(segs(&[]), scale_info::TypeDefSequence::new(crate::genreg::sym(era)), vec![]),
            _ => {
                let n = g.tape.below(4) as u32;
                g.add(segs(&[]), scale_info::TypeDefArray::new(n, crate::genreg::sym(era)), vec![])
            }
        };
        let f = g.field(ty, true);
        fields.push(f);
    }
    let root = g.add(segs(&["root", "Thing"]), TypeDefComposite { fields }, vec![]);
    let (reg, _) = g.finish();
    let Some(v) = value_for(t, &reg, root, Hi::None, 200) else {
        return ctx.discard();
    };
    let eras: Vec<_> = v.marks.iter().filter(|m| m.kind == MarkKind::Era).copied().collect();
    ctx.label_if(!eras.is_empty(), "embedded");
    if eras.iter().any(|m| m.end - m.start == 2) {
        ctx.interesting(&[&v.data, &(reg.types.len() as u32).to_le_bytes()]);
    }
    let show = || format!("type {root} of registry\n{}data 0x{}", sut::show_reg(&reg), hex::encode(&v.data));
    ctx.describe(show);
    match sut::decode_all(&reg, root, &v.data) {
        Ok(x) => {
            ensure!(x == v.expected, "value", "{}\nexpected {:?}\ngot {x:?}", show(), v.expected);
            // what is reported encodes back to the bytes it came from
            let mut k = 0;
            let mut bad = None;
            crate::mutate::visit(&x.data, &mut |d| {
                if let ParsedData::Era(e) = d {
                    let m = eras[k];
                    k += 1;
                    let b = &v.data[m.start..m.end];
                    if e.encode() != b || era_encode(e) != b {
                        bad = Some((*e, b.to_vec()));
                    }
                }
            });
            ensure!(bad.is_none() && k == eras.len(), "reencode", "{bad:?}, {k} of {} eras reported\n{}", eras.len(), show());
        }
        Err(e) => fail!("rejected", "valid encoding rejected: {e:?}\n{}", show()),
    }
    if !eras.is_empty() {
        ctx.label("damaged");
        ctx.eval();
        let m = *t.pick(&eras);
        let mut d = v.data.clone();
        let new = match t.below(3) {
            0 => t.bytes(2),
            1 => vec![t.u8()],
            _ => vec![t.below(16) as u8, t.u8()],
        };
        d.splice(m.start..m.end, new);
        let (r, _) = ref_decode(&reg, root, &d, 0, Hi::None);
        if r == Err(RefErr::Budget) {
            return Ok(());
        }
        let mut p = 0;
        let s = sut::decode_at(&reg, root, &d, &mut p);
        match (r, s) {
            (Ok(a), Ok(b)) => ensure!(a == b, "damaged", "0x{}: expected {a:?}\ngot {b:?}\n{}", hex::encode(&d), show()),
            (Err(_), Err(_)) => {}
            (a, b) => fail!("damaged-verdict", "0x{}: expected {a:?}\ngot {b:?}\n{}", hex::encode(&d), show()),
        }
    }
    Ok(())
}
