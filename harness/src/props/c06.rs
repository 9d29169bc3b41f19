//! C06: compacts.

use scale_info::{TypeDefCompact, TypeDefComposite, TypeDefPrimitive, TypeDefSequence, TypeDefTuple, TypeDefVariant, TypeDefArray, TypeDefBitSequence, PortableRegistry};
use substrate_parser::cards::ParsedData;
use substrate_parser::compacts::{find_compact, get_compact};
use substrate_parser::error::{ParserError, RegistryError, RegistryInternalError};

use crate::dict;
use crate::genreg::{registry, segs, sym, Gen, Opts};
use crate::runner::{Ctx, Outcome, Property};
use crate::sut::{self, show_reg};
use crate::tape::Tape;
use crate::walk::{compact_bytes, compact_parse, ref_decode, Hi, RefErr};
use crate::{ensure, fail};

pub static P: Property = Property {
    id: "C06",
    rule: "all 1- and 2-byte inputs at each width with 3 tails (enumerated); generated canonical, non-canonical and out-of-range compacts at random offsets, bare and inside wrapper structs and sequences; compacts around every other kind of type; non-trivial = input of at least 2 bytes",
    assumptions: &["u8 to u128 only, as in the metadata format"],
    tape_len: 200,
    quick: 9_000_000,
    thorough: 150_000_000,
    run,
    enumerated: Some((5 * 65536, enumerated)),
    known_demos: &[],
    must_reach: &["canonical", "refused", "wrapped", "uncompactable", "sequence of compacts", "mode 3", "empty inside", "many wrappers"],
};

const WIDTHS: [u32; 5] = [8, 16, 32, 64, 128];

fn direct(bits: u32, data: &[u8], pos: usize) -> (Option<(u128, usize)>, Option<(u128, usize)>, String) {
    macro_rules! go {
        ($t:ty) => {{
            let f = find_compact::<$t, &[u8], ()>(&data, &mut (), pos);
            let mut p = pos;
            let g = get_compact::<$t, &[u8], ()>(&data, &mut (), &mut p);
            let text = format!("{f:?} {g:?}");
            let err_ok = |e: &ParserError<()>| if pos > data.len() { matches!(e, ParserError::Buffer(_)) } else { *e == ParserError::NoCompact { position: pos } };
            let f = match f {
                Ok(x) => Some((x.compact as u128, x.start_next_unit - pos)),
                Err(e) => {
                    if !err_ok(&e) {
                        return (Some((0, usize::MAX)), None, format!("unexpected error {e:?}"));
                    }
                    None
                }
            };
            let g = match g {
                Ok(x) => Some((x as u128, p - pos)),
                Err(e) => {
                    if !err_ok(&e) || p != pos {
                        return (Some((0, usize::MAX)), None, format!("unexpected error {e:?}, position {p}"));
                    }
                    None
                }
            };
            (f, g, text)
        }};
    }
    match bits {
        8 => go!(u8),
        16 => go!(u16),
        32 => go!(u32),
        64 => go!(u64),
        _ => go!(u128),
    }
}

fn check_direct(bits: u32, data: &[u8], pos: usize) -> Outcome {
    let expect = data.get(pos..).and_then(|d| compact_parse(d, bits));
    let (f, g, text) = direct(bits, data, pos);
    ensure!(f == expect && g == expect, "direct", "compact u{bits} at {pos} of 0x{}: expected value and length {expect:?}, got {text}", hex::encode(data));
    Ok(())
}

fn enumerated(i: u64, ctx: &mut Ctx) -> Outcome {
    let bits = WIDTHS[(i / 65536) as usize];
    let x = (i % 65536) as u16;
    let b = x.to_le_bytes();
    ctx.interesting(&[&b, &[bits as u8]]);
    if x < 256 {
        check_direct(bits, &b[..1], 0)?;
    }
    check_direct(bits, &b, 0)?;
    for tail in [0x00u8, 0x01, 0xff, 0x80] {
        let mut d = b.to_vec();
        d.extend_from_slice(&[tail; 20]);
        for n in [3, 4, 5, 6, 9, 10, 16, 17, 22] {
            ctx.eval();
            check_direct(bits, &d[..n], 0)?;
        }
    }
    Ok(())
}

fn prim(bits: u32) -> TypeDefPrimitive {
    match bits {
        8 => TypeDefPrimitive::U8,
        16 => TypeDefPrimitive::U16,
        32 => TypeDefPrimitive::U32,
        64 => TypeDefPrimitive::U64,
        _ => TypeDefPrimitive::U128,
    }
}

/// Bytes that are, or nearly are, a compact.
fn bytes(t: &mut Tape, bits: u32) -> Vec<u8> {
    match t.below(7) {
        0 | 1 => compact_bytes(t.uint(bits)),
        // canonical, maybe too large for the type
        2 => compact_bytes(t.uint(128)),
        // arbitrary payload of a mode
        3 => {
            let n = t.below(18);
            let first = ((t.below(16) as u8) << 2) | 3;
            let mut v = vec![first];
            v.extend(t.bytes(n));
            v
        }
        // the right number of payload bytes, high bytes maybe zero
        4 => {
            let n = t.range(4, 18);
            let mut v = vec![(((n - 4) as u8) << 2) | 3];
            v.extend(t.bytes(n));
            let z = t.below(4).min(n);
            for k in 0..z {
                v[n - k] = 0;
            }
            v
        }
        // boundary values in every mode
        5 => {
            let x = *t.pick(&[0u32, 1, 63, 64, 65, 255, 256, 16383, 16384, 16385, 65535, 65536, (1 << 30) - 1]);
            match t.below(3) {
                0 => (((x as u16) << 2) | 1).to_le_bytes().to_vec(),
                1 => ((x << 2) | 2).to_le_bytes().to_vec(),
                _ => {
                    let mut v = vec![3];
                    v.extend((x | ((t.below(2) as u32) << 30)).to_le_bytes());
                    v
                }
            }
        }
        _ => {
            let n = t.below(20);
            t.bytes(n)
        }
    }
}

fn value_of(d: &ParsedData) -> Option<u128> {
    match d {
        ParsedData::PrimitiveU8 { value, .. } => Some(*value as u128),
        ParsedData::PrimitiveU16 { value, .. } => Some(*value as u128),
        ParsedData::PrimitiveU32 { value, .. } => Some(*value as u128),
        ParsedData::PrimitiveU64 { value, .. } => Some(*value as u128),
        ParsedData::PrimitiveU128 { value, .. } => Some(*value),
        ParsedData::Composite(f) if f.len() == 1 => value_of(&f[0].data.data),
        ParsedData::Tuple(f) if f.len() == 1 => value_of(&f[0].data),
        _ => None,
    }
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    if t.below(5) == 0 {
        return inside(t, ctx);
    }
    let bits = *t.pick(&WIDTHS);
    let enc = bytes(t, bits);
    let before = t.below(6);
    let after = t.below(20) * t.below(2);
    let mut data = t.bytes(before);
    data.extend_from_slice(&enc);
    let tail = t.bytes(after);
    data.extend_from_slice(&tail);
    if data.len() >= 2 {
        ctx.interesting(&[&data, &[bits as u8, before as u8]]);
    }
    ctx.describe(|| format!("u{bits} compact at {before} of 0x{}", hex::encode(&data)));
    check_direct(bits, &data, before)?;
    if t.below(8) == 0 {
        check_direct(bits, &data, data.len())?;
        check_direct(bits, &data, data.len() + 1 + t.below(3))?;
    }
    let expect = compact_parse(&data[before..], bits);
    ctx.label(if expect.is_some() { "canonical" } else { "refused" });
    ctx.label_if(enc.first().map_or(false, |b| b & 3 == 3), "mode 3");

    // the same through the type decoder, under wrappers
    let mut d0 = Tape::new(&[]);
    let mut g = Gen::new(&mut d0, Opts::default());
    let mut id = g.add(segs(&[]), prim(bits), vec![]);
    let deep = t.rare(8);
    if deep {
        t.spill();
    }
    let inner_wraps = if deep { t.range(4, 200) } else { t.below(4) };
    let wrap = |g: &mut Gen, id: u32, t: &mut Tape| {
        if t.chance(80) {
            g.add(segs(&[]), TypeDefTuple { fields: vec![sym(id)] }, vec![])
        } else {
            let f = scale_info::Field { name: if !t.chance(128) { None } else if t.chance(50) { Some(dict::field_name(t)) } else { Some("inner".into()) }, ty: sym(id), type_name: if t.chance(50) { Some(g.rust_name(id, 3)) } else { t.chance(20).then(|| dict::type_name(t)) }, docs: vec![] };
            g.add(segs(&["wrap", "Wrap"]), TypeDefComposite { fields: vec![f] }, vec![])
        }
    };
    for _ in 0..inner_wraps {
        id = wrap(&mut g, id, t);
    }
    id = g.add(segs(&[]), TypeDefCompact::new(sym(id)), vec![]);
    let outer_wraps = if deep { t.range(0, 100) } else { t.below(3) };
    ctx.label_if(deep, "many wrappers");
    for _ in 0..outer_wraps {
        id = wrap(&mut g, id, t);
    }
    ctx.label_if(inner_wraps + outer_wraps > 0, "wrapped");
    let types = std::mem::take(&mut g.types);
    let reg = registry(types);
    let mut pos = before;
    let r = sut::decode_at(&reg, id, &data, &mut pos);
    match (&expect, &r) {
        (Some((v, n)), Ok(x)) => {
            ensure!(value_of(&x.data) == Some(*v), "typed-value", "compact u{bits} at {before} of 0x{}: expected {v}, got {x:?}\n{}", hex::encode(&data), show_reg(&reg));
            ensure!(pos == before + n, "typed-position", "compact u{bits} at {before} of 0x{} takes {n} bytes, position became {pos}", hex::encode(&data));
        }
        (None, Err(ParserError::NoCompact { position })) if *position == before => {}
        (e, g) => fail!("typed", "compact u{bits} at {before} of 0x{}: expected {e:?}, got {g:?}\n{}", hex::encode(&data), show_reg(&reg)),
    }
    Ok(())
}

/// Compacts around things, and vectors of compacts.
fn inside(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let mut g = Gen::new(t, Opts { max_types: 14, max_depth: 2, ..Opts::default() });
    let kind = g.tape.below(12);
    let inner = match kind {
        0 => g.prim(TypeDefPrimitive::Bool),
        1 => g.prim(TypeDefPrimitive::Str),
        2 => g.prim(TypeDefPrimitive::I32),
        3 => g.prim(TypeDefPrimitive::U256),
        4 => g.prim(TypeDefPrimitive::Char),
        5 => {
            let e = g.uint_prim();
            if g.tape.chance(128) {
                g.add(segs(&[]), TypeDefSequence::new(sym(e)), vec![])
            } else {
                let n = g.tape.below(3) as u32;
                g.add(segs(&[]), TypeDefArray::new(n, sym(e)), vec![])
            }
        }
        6 => {
            // two-field struct or tuple, even of empties
            let a = if g.tape.chance(100) { g.add(segs(&[]), TypeDefTuple { fields: vec![] }, vec![]) } else { g.uint_prim() };
            let b = g.uint_prim();
            if g.tape.chance(128) {
                g.add(segs(&[]), TypeDefTuple { fields: vec![sym(a), sym(b)] }, vec![])
            } else {
                let f = vec![g.field(a, true), g.field(b, true)];
                g.add(segs(&["Two"]), TypeDefComposite { fields: f }, vec![])
            }
        }
        7 => {
            let n = g.tape.below(2);
            let v = if n == 0 { vec![] } else { vec![scale_info::Variant { name: "V".into(), fields: vec![], index: 0, docs: vec![] }] };
            g.add(segs(&["En"]), TypeDefVariant { variants: v }, vec![])
        }
        8 => {
            let u = g.uint_prim();
            g.add(segs(&[]), TypeDefCompact::new(sym(u)), vec![])
        }
        9 => {
            let s = g.prim(TypeDefPrimitive::U8);
            let o = g.add(segs(&["Lsb0"]), TypeDefComposite { fields: vec![] }, vec![]);
            g.add(segs(&[]), TypeDefBitSequence::new_portable(sym(s), sym(o)), vec![])
        }
        10 => g.special(),
        _ => {
            if g.tape.chance(128) {
                g.add(segs(&[]), TypeDefTuple { fields: vec![] }, vec![])
            } else {
                g.add(segs(&["Empty"]), TypeDefComposite { fields: vec![] }, vec![])
            }
        }
    };
    let mut id = inner;
    for _ in 0..g.tape.below(3) {
        id = g.wrapper(id);
    }
    let compact_id = g.add(segs(&[]), TypeDefCompact::new(sym(id)), vec![]);
    id = compact_id;
    let seq = g.tape.below(4);
    if seq > 0 && g.tape.rare(4) {
        for _ in 0..g.tape.range(4, 200) {
            id = g.wrapper(id);
        }
    }
    if seq == 1 {
        id = g.add(segs(&[]), TypeDefSequence::new(sym(id)), vec![]);
    } else if seq == 2 {
        id = g.add(segs(&[]), TypeDefArray::new(2, sym(id)), vec![]);
    } else if seq == 3 {
        id = g.wrapper(id);
    }
    let (reg, _) = g.finish();
    let n = t.below(24);
    let mut data = t.bytes(n);
    if seq == 1 && t.chance(200) {
        data.insert(0, (t.below(4) as u8) << 2);
        ctx.label("sequence of compacts");
    }
    if data.len() > 1 {
        ctx.interesting(&[&data, &[kind as u8, seq as u8], show_reg(&reg).as_bytes()]);
    }
    ctx.describe(|| format!("compact around kind {kind}: type {id}\n{}data 0x{}", show_reg(&reg), hex::encode(&data)));
    judge(&reg, id, &data, ctx)
}

fn judge(reg: &PortableRegistry, id: u32, data: &[u8], ctx: &mut Ctx) -> Outcome {
    let (r, rp) = ref_decode(reg, id, data, 0, Hi::None);
    if r == Err(RefErr::Budget) {
        return ctx.discard();
    }
    let mut p = 0;
    let s = sut::decode_at(reg, id, data, &mut p);
    match (&r, &s) {
        (Ok(a), Ok(b)) => {
            ctx.label_if(data.is_empty() || rp == 0, "empty inside");
            ensure!(a == b && p == rp, "inside-value", "type {id} data 0x{}: expected {rp} {a:?}\ngot {p} {b:?}\n{}", hex::encode(data), show_reg(reg));
        }
        (Err(RefErr::CompactInside), Err(ParserError::Registry(RegistryError::Internal(RegistryInternalError::UnexpectedCompactInsides { id: bad })))) => {
            ctx.label("uncompactable");
            let is_compact = matches!(reg.types.get(*bad as usize).map(|t| &t.ty.type_def), Some(scale_info::TypeDef::Compact(_)));
            ensure!(is_compact, "inside-id", "reported compact type {bad} is not a compact\n{}", show_reg(reg));
            let alone = ref_decode(reg, *bad, &[0; 64], 0, Hi::None).0;
            ensure!(alone.is_err(), "inside-id", "type {id}: reported compact type {bad} is well-formed by itself\n{}", show_reg(reg));
        }
        (Err(RefErr::CompactInside), x) => fail!("inside-accepted", "type {id}: a compact around what cannot be compact gave {x:?}\n{}data 0x{}", show_reg(reg), hex::encode(data)),
        (Err(_), Err(_)) => {}
        (a, b) => fail!("inside-verdict", "type {id} data 0x{}: expected {a:?}\ngot {b:?}\n{}", hex::encode(data), show_reg(reg)),
    }
    Ok(())
}
