//! C26: errors name cause and place.

use substrate_parser::error::ParserError;
use external_memory_tools::BufferError;

use crate::genreg::Opts;
use crate::props::c01::{gen_case, label_case, show};
use crate::runner::{Ctx, Outcome, Property};
use crate::sut::{self, Pe};
use crate::tape::Tape;
use crate::walk::{ref_decode, Hi, Mark, MarkKind, RefErr};
use crate::{ensure, fail};

pub static P: Property = Property {
    id: "C26",
    rule: "valid encoding of a generated type at a random offset, damaged at one recorded token: invalid bool, char, text, enum index, compact, length, fraction, mortality, or cut at every kind of place; the error must be of that kind with the true position, length and type, in the error value and in its text; non-trivial = a case with at least one damage",
    assumptions: &["registries are well formed; errors about the registry itself are decided in C05 and C06"],
    tape_len: 900,
    quick: 2_500_000,
    thorough: 40_000_000,
    run,
    enumerated: None,
    known_demos: &[],
    must_reach: &["bool", "char", "text", "enum index", "compact", "length", "fraction", "mortality", "cut uint", "cut raw", "cut text", "cut bits", "cut compact", "cut era", "beyond end"],
};

/// What the documentation of the errors says for the given cause.
pub fn agrees(e: &Pe, r: &RefErr, total: usize) -> bool {
    match (e, r) {
        (ParserError::Buffer(BufferError::DataTooShort { position, minimal_length }), RefErr::Short { pos, need }) => *pos <= total && position == pos && minimal_length == need,
        (ParserError::Buffer(BufferError::OutOfRange { position, total_length }), RefErr::Short { pos, .. }) => *pos > total && position == pos && *total_length == total,
        (ParserError::NoCompact { position }, RefErr::NoCompact { pos }) => position == pos,
        (ParserError::TypeFailure { position, ty }, RefErr::Type { pos, ty: t }) => position == pos && ty == t,
        (ParserError::UnexpectedEnumVariant { position }, RefErr::Variant { pos }) => position == pos,
        _ => false,
    }
}

fn text_agrees(e: &Pe, r: &RefErr, total: usize) -> bool {
    let s = e.to_string();
    let words: Vec<&str> = s.split(|c: char| !c.is_ascii_alphanumeric()).collect();
    let has = |n: usize| words.contains(&n.to_string().as_str());
    match r {
        RefErr::Short { pos, need } => has(*pos) && if *pos > total { has(total) } else { has(*need) },
        RefErr::NoCompact { pos } => has(*pos),
        RefErr::Type { pos, ty } => has(*pos) && s.contains(ty),
        RefErr::Variant { pos } => has(*pos),
        _ => true,
    }
}

fn damage(t: &mut Tape, m: &Mark, whole: &[u8]) -> Option<(Vec<u8>, &'static str)> {
    let tok = &whole[m.start..m.end];
    let mut d = whole.to_vec();
    let mut put = |b: &[u8]| {
        d.splice(m.start..m.end, b.iter().copied());
    };
    let l = match m.kind {
        MarkKind::Bool => {
            put(&[2 + t.below(254) as u8]);
            "bool"
        }
        MarkKind::Char => {
            let x = match t.below(3) {
                0 => 0xd800 + t.below(0x800) as u32,
                1 => 0x110000 + t.u16() as u32,
                _ => u32::MAX - t.u8() as u32,
            };
            put(&x.to_le_bytes());
            "char"
        }
        MarkKind::Text => {
            let (n, head) = crate::walk::compact_parse(tok, 32)?;
            if n == 0 {
                return None;
            }
            let mut b = tok.to_vec();
            let k = head + t.below(n as usize);
            b[k] = *t.pick(&[0xff, 0xc0, 0xfe, 0xf8]);
            put(&b);
            "text"
        }
        MarkKind::VariantIdx => {
            put(&[t.u8()]);
            "enum index"
        }
        MarkKind::Compact | MarkKind::SeqLen => {
            let b: Vec<u8> = match t.below(6) {
                0 => vec![0x01, 0x00],
                1 => vec![0x02, 0x00, 0x00, 0x00],
                2 => vec![0x03, 0xff, 0xff, 0xff, 0x3f],
                3 => vec![0x37, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17],
                4 => vec![0x0b, 0, 0, 0, 0, 0, 0],
                _ => {
                    // one too many zero bytes at the top
                    let mut b = crate::walk::compact_bytes(crate::walk::compact_parse(tok, 128)?.0.max(1 << 30));
                    b[0] += 4;
                    b.push(0);
                    b
                }
            };
            put(&b);
            if m.kind == MarkKind::Compact {
                "compact"
            } else {
                "length"
            }
        }
        MarkKind::Per => {
            let w = tok.len();
            put(&(u128::MAX - t.u8() as u128).to_le_bytes()[..w]);
            "fraction"
        }
        MarkKind::Era => {
            let b = match t.below(2) {
                0 => [0x10 | (t.u8() & 0xf0), t.u8()],
                _ => {
                    // phase beyond the period
                    let e = t.range(1, 10) as u16;
                    let v = e | (((1u16 << (e + 1)) + (t.u8() as u16 % 16)) << 4);
                    v.to_le_bytes()
                }
            };
            put(&b);
            "mortality"
        }
        _ => return None,
    };
    Some((d, l))
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let Some(c) = gen_case(t, Opts { max_types: 40, ..Opts::default() }, Hi::None) else {
        return ctx.discard();
    };
    if c.data.is_empty() || c.data.len() > 2500 {
        return ctx.discard();
    }
    label_case(&c, ctx);
    ctx.describe(|| show(&c));
    ctx.nontrivial = None;
    let base = t.below(20);
    let mut whole = t.bytes(base);
    whole.extend_from_slice(&c.data);
    let marks: Vec<Mark> = c.marks.iter().map(|m| Mark { kind: m.kind, start: m.start + base, end: m.end + base }).collect();
    let mut tried = 0;
    let rounds = 6;
    for _ in 0..rounds {
        let m = *t.pick(&marks);
        let (d, l) = if t.chance(140) {
            let w = m.end - m.start;
            if w == 0 {
                continue;
            }
            let cut = m.start + t.below(w);
            let l = match m.kind {
                MarkKind::Uint | MarkKind::Int => "cut uint",
                MarkKind::Raw => "cut raw",
                MarkKind::Text => "cut text",
                MarkKind::BitSeq => "cut bits",
                MarkKind::Compact | MarkKind::SeqLen => "cut compact",
                MarkKind::Era => "cut era",
                _ => "cut other",
            };
            (whole[..cut].to_vec(), l)
        } else {
            match damage(t, &m, &whole) {
                Some(x) => x,
                None => continue,
            }
        };
        let (r, _) = ref_decode(&c.reg, c.id, &d, base, Hi::None);
        let Err(r) = r else { continue };
        if r == RefErr::Budget {
            continue;
        }
        // later consequences of a changed number of elements are not single faults
        let here = match &r {
            RefErr::Short { pos, .. } | RefErr::NoCompact { pos } | RefErr::Type { pos, .. } | RefErr::Variant { pos } => *pos,
            _ => continue,
        };
        if !l.starts_with("cut") && here != m.start {
            continue;
        }
        tried += 1;
        ctx.eval();
        ctx.label(l);
        let mut p = base;
        match sut::decode_at(&c.reg, c.id, &d, &mut p) {
            Ok(x) => fail!("accepted", "damage ({l}) at {}: expected {r:?}, but decoded {x:?}\n0x{} from {base}\n{}", m.start, hex::encode(&d), show(&c)),
            Err(e) => {
                ensure!(agrees(&e, &r, d.len()), "error", "damage ({l}) of the token at {}: true cause {r:?}, reported {e:?}\n0x{} from {base}\n{}", m.start, hex::encode(&d), show(&c));
                ensure!(text_agrees(&e, &r, d.len()), "text", "error {e:?} reads {e}");
            }
        }
        if base == 0 {
            let a = sut::decode_all(&c.reg, c.id, &d);
            ensure!(matches!(&a, Err(e) if agrees(e, &r, d.len())), "error-all", "true cause {r:?}, decode-all reports {a:?}\n0x{}\n{}", hex::encode(&d), show(&c));
        }
    }
    // a start beyond the data
    if t.chance(40) {
        let over = whole.len() + t.range(1, 3);
        let (r, _) = ref_decode(&c.reg, c.id, &whole, over, Hi::None);
        if let Err(r) = r {
            if r != RefErr::Budget && !matches!(r, RefErr::NoCompact { .. }) {
                ctx.label("beyond end");
                let mut p = over;
                let e = sut::decode_at(&c.reg, c.id, &whole, &mut p);
                ensure!(matches!(&e, Err(e) if agrees(e, &r, whole.len())), "beyond", "from {over} of {} bytes: expected {r:?}, got {e:?}\n{}", whole.len(), show(&c));
            }
        }
    }
    if tried > 0 {
        ctx.interesting(&[&whole, &[base as u8], show(&c).as_bytes()]);
    }
    Ok(())
}
