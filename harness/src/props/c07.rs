//! C07: bit sequences.

use bitvec::prelude::{BitStore, BitVec, BitOrder, Lsb0, Msb0};
use parity_scale_codec::Encode;
use scale_info::{TypeDefBitSequence, TypeDefComposite, TypeDefPrimitive, TypeDefSequence, TypeDefVariant, Variant, PortableRegistry};
use substrate_parser::cards::{ExtendedData, ParsedData};
use substrate_parser::error::{ParserError, RegistryError, RegistryInternalError};

use crate::genreg::{registry, segs, sym, Gen, Opts};
use crate::native::{of_parsed, V};
use crate::runner::{Ctx, Outcome, Property};
use crate::sut::{self, show_reg};
use crate::tape::Tape;
use crate::walk::{compact_bytes, ref_decode, Hi, RefErr};
use crate::{ensure, fail};

pub static P: Property = Property {
    id: "C07",
    rule: "all lengths 0..=1100 x 4 store widths x 2 orders x 4 patterns (enumerated); the longest sequence a chain can have and one bit more (enumerated); random lengths, sparse and dense patterns, offsets, unused bits set, wrong store or order types; non-trivial = at least one bit or damaged",
    assumptions: &["the bitvec codec is the encoding"],
    tape_len: 260,
    quick: 6_000_000,
    thorough: 60_000_000,
    run,
    enumerated: Some((8 * 1101 + 16, enumerated)),
    known_demos: &[],
    must_reach: &["dirty tail", "odd order", "odd store", "too short", "in sequence", "long", "longest", "above longest"],
};

fn encode<T: BitStore, O: BitOrder>(bits: &[bool]) -> Vec<u8>
where
    BitVec<T, O>: Encode,
{
    let mut b: BitVec<T, O> = BitVec::new();
    for x in bits {
        b.push(*x);
    }
    b.encode()
}

fn encode_native(kind: usize, bits: &[bool]) -> Vec<u8> {
    match kind {
        0 => encode::<u8, Lsb0>(bits),
        1 => encode::<u16, Lsb0>(bits),
        2 => encode::<u32, Lsb0>(bits),
        3 => encode::<u64, Lsb0>(bits),
        4 => encode::<u8, Msb0>(bits),
        5 => encode::<u16, Msb0>(bits),
        6 => encode::<u32, Msb0>(bits),
        _ => encode::<u64, Msb0>(bits),
    }
}

fn kind_ok(kind: usize, d: &ParsedData) -> bool {
    matches!(
        (kind, d),
        (0, ParsedData::BitVecU8Lsb0(_))
            | (1, ParsedData::BitVecU16Lsb0(_))
            | (2, ParsedData::BitVecU32Lsb0(_))
            | (3, ParsedData::BitVecU64Lsb0(_))
            | (4, ParsedData::BitVecU8Msb0(_))
            | (5, ParsedData::BitVecU16Msb0(_))
            | (6, ParsedData::BitVecU32Msb0(_))
            | (7, ParsedData::BitVecU64Msb0(_))
    )
}

fn reg_for(kind: usize) -> (PortableRegistry, u32) {
    let mut e = Tape::new(&[]);
    let mut g = Gen::new(&mut e, Opts::default());
    let p = [TypeDefPrimitive::U8, TypeDefPrimitive::U16, TypeDefPrimitive::U32, TypeDefPrimitive::U64][kind % 4].clone();
    let s = g.add(segs(&[]), p, vec![]);
    let o = g.add(segs(&["bitvec", "order", if kind < 4 { "Lsb0" } else { "Msb0" }]), TypeDefComposite { fields: vec![] }, vec![]);
    let b = g.add(segs(&[]), TypeDefBitSequence::new_portable(sym(s), sym(o)), vec![]);
    let types = std::mem::take(&mut g.types);
    (registry(types), b)
}

fn check(kind: usize, bits: &[bool], data: &[u8], at: usize, used: usize, r: &Result<ExtendedData, sut::Pe>, pos: usize) -> Outcome {
    match r {
        Ok(x) => {
            ensure!(kind_ok(kind, &x.data), "kind", "store/order kind {kind} reported as {:?}", x.data);
            ensure!(of_parsed(&x.data) == Some(V::Bits(bits.to_vec())), "bits", "kind {kind}: {} bits of 0x{} (at {at})\nexpected {bits:?}\ngot {:?}", bits.len(), hex::encode(data), x.data);
            ensure!(pos == at + used, "position", "kind {kind}: {} bits take {used} bytes, position moved {at} -> {pos}", bits.len());
        }
        Err(e) => fail!("rejected", "kind {kind}: {} bits of 0x{} refused: {e:?}", bits.len(), hex::encode(data)),
    }
    Ok(())
}

/// Most bits that the codec of the chain accepts.
const MAX_BITS: u32 = 0x1fff_ffff;

fn longest(kind: usize, over: u32, ctx: &mut Ctx) -> Outcome {
    let (reg, id) = reg_for(kind);
    let bits = MAX_BITS + over;
    ctx.interesting(&[&[kind as u8], &bits.to_le_bytes()]);
    let lead = 3;
    let mut data = vec![0xee; lead];
    data.extend(compact_bytes(bits as u128));
    let from = data.len();
    data.resize(from + (bits as usize).div_ceil(8 << (kind % 4)) * (1 << (kind % 4)), 0);
    let end = data.len();
    let mut ones = 0;
    for k in 0..200usize {
        // well before the end, where bits may be unused
        data[from + k * k * 1677] = k as u8;
        ones += (k as u8).count_ones() as usize;
    }
    data.push(0x77);
    let mut p = lead;
    let r = sut::decode_at(&reg, id, &data, &mut p);
    if over > 0 {
        ctx.label("above longest");
        let (width, order) = ([8, 16, 32, 64][kind % 4], if kind < 4 { "Lsb0" } else { "Msb0" });
        let name = format!("BitVec<u{width}, {order}>");
        match r {
            Err(ParserError::TypeFailure { position, ty }) => ensure!(position == lead && ty == name, "above", "{bits} bits at {lead} refused as {ty} at {position}, expected {name}"),
            Err(e) => fail!("above", "{bits} bits refused with {e:?}"),
            Ok(_) => fail!("above", "{bits} bits are accepted"),
        }
        return Ok(());
    }
    ctx.label("longest");
    let x = match r {
        Ok(x) => x.data,
        Err(e) => fail!("longest", "kind {kind}: {bits} bits refused: {e:?}"),
    };
    ensure!(kind_ok(kind, &x), "kind", "store/order kind {kind} reported as another");
    ensure!(p == end, "longest-position", "position {p}, expected {end}");
    let (len, got, again) = match x {
        ParsedData::BitVecU8Lsb0(b) => (b.len(), b.count_ones(), b.encode()),
        ParsedData::BitVecU16Lsb0(b) => (b.len(), b.count_ones(), b.encode()),
        ParsedData::BitVecU32Lsb0(b) => (b.len(), b.count_ones(), b.encode()),
        ParsedData::BitVecU64Lsb0(b) => (b.len(), b.count_ones(), b.encode()),
        ParsedData::BitVecU8Msb0(b) => (b.len(), b.count_ones(), b.encode()),
        ParsedData::BitVecU16Msb0(b) => (b.len(), b.count_ones(), b.encode()),
        ParsedData::BitVecU32Msb0(b) => (b.len(), b.count_ones(), b.encode()),
        ParsedData::BitVecU64Msb0(b) => (b.len(), b.count_ones(), b.encode()),
        _ => unreachable!(),
    };
    ensure!(len == bits as usize && got == ones && again == data[lead..end], "longest-bits", "kind {kind}: {len} bits, {got} ones of {ones}");
    Ok(())
}

fn enumerated(i: u64, ctx: &mut Ctx) -> Outcome {
    let kind = (i % 8) as usize;
    if i >= 8 * 1101 {
        return longest(kind, (i / 8 - 1101) as u32, ctx);
    }
    let n = (i / 8) as usize;
    let (reg, id) = reg_for(kind);
    ctx.interesting(&[&[kind as u8], &(n as u32).to_le_bytes()]);
    for pat in 0..4u64 {
        ctx.eval();
        let mut s = i * 4 + pat + 1;
        let bits: Vec<bool> = (0..n)
            .map(|k| match pat {
                0 => false,
                1 => true,
                2 => {
                    s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    s >> 40 & 1 == 1
                }
                // one half of every 64 bits blank
                _ => (k / 32 + n) % 2 == 0 && k % 5 < 3,
            })
            .collect();
        let mut data = encode_native(kind, &bits);
        let used = data.len();
        let mut p = 0;
        let r = sut::decode_at(&reg, id, &data, &mut p);
        check(kind, &bits, &data, 0, used, &r, p)?;
        // followed by other data, preceded by other data
        data.extend_from_slice(&[0xff; 9]);
        let mut p = 0;
        let r = sut::decode_at(&reg, id, &data, &mut p);
        check(kind, &bits, &data, 0, used, &r, p)?;
        data.insert(0, 0xfe);
        let mut p = 1;
        let r = sut::decode_at(&reg, id, &data, &mut p);
        check(kind, &bits, &data, 1, used, &r, p)?;
        // one byte missing
        if used > 1 {
            let d = &data[1..used];
            ensure!(sut::decode_all(&reg, id, d).is_err(), "short", "kind {kind}: {n} bits decoded with the last byte missing: 0x{}", hex::encode(d));
        }
    }
    Ok(())
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    if t.below(6) == 0 {
        return odd(t, ctx);
    }
    let kind = t.below(8);
    let n = match t.below(5) {
        0 => t.below(70),
        1 => t.below(300),
        2 => (64 * t.range(0, 6) + t.below(5)).saturating_sub(2),
        3 => t.below(2200),
        _ => {
            if t.chance(20) {
                let k = *t.pick(&[16384usize, 32768, 65536, 16384, 65536, 131072, 1 << 20, 524288]);
                (k + t.below(200)).saturating_sub(70)
            } else {
                t.below(140)
            }
        }
    };
    ctx.label_if(n > 1000, "long");
    ctx.label_if(n > 65535, "over 65535 bits");
    let style = t.below(4);
    let mut bits = vec![false; n];
    match style {
        0 => {
            for _ in 0..t.below(5) {
                if n > 0 {
                    let k = t.below(n);
                    bits[k] = true;
                }
            }
        }
        1 => {
            bits.fill(true);
            for _ in 0..t.below(5) {
                if n > 0 {
                    let k = t.below(n);
                    bits[k] = false;
                }
            }
        }
        _ => {
            let b = t.bytes(n.div_ceil(8).max(17));
            for (i, x) in bits.iter_mut().enumerate() {
                *x = b[i / 8] >> (i % 8) & 1 == 1;
            }
            if style == 3 {
                // blank out aligned 32-bit halves
                let m = t.u16();
                for (i, x) in bits.iter_mut().enumerate() {
                    if m >> (i / 32 % 16) & 1 == 1 {
                        *x = false;
                    }
                }
            }
        }
    }
    let (reg, id) = reg_for(kind);
    let enc = encode_native(kind, &bits);
    let used = enc.len();
    let before = t.below(9);
    let mut data = t.bytes(before);
    data.extend_from_slice(&enc);
    // set unused bits of the last store element
    let head = compact_bytes(n as u128).len();
    let width = [8, 16, 32, 64][kind % 4];
    let spare = (width - n % width) % width;
    if spare > 0 && t.chance(100) {
        ctx.label("dirty tail");
        let wb = width / 8;
        let last = before + used - wb;
        for s in 0..spare {
            if t.chance(128) {
                let in_el = width - 1 - s;
                let sig = if kind >= 4 { width - 1 - in_el } else { in_el };
                data[last + sig / 8] |= 1 << (sig % 8);
            }
        }
    }
    let after = t.below(20);
    let tail = t.bytes(after);
    data.extend_from_slice(&tail);
    if n > 0 {
        ctx.interesting(&[&data, &[kind as u8]]);
    }
    ctx.describe(|| format!("kind {kind}, {n} bits at {before} of 0x{}", hex::encode(&data[..data.len().min(200)])));
    let mut p = before;
    let r = sut::decode_at(&reg, id, &data, &mut p);
    check(kind, &bits, &data, before, used, &r, p)?;
    // cut inside
    if used > head {
        let k = t.below(used - head);
        let d = &data[..before + head + k];
        let mut p = before;
        let r = sut::decode_at(&reg, id, d, &mut p);
        ensure!(r.is_err(), "short", "kind {kind}: {n} bits decoded from {} of {used} bytes: {r:?}", head + k);
        ctx.label("too short");
    }
    Ok(())
}

/// Sequences of bit sequences, wrong order and store types, damaged data.
fn odd(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let mut g = Gen::new(t, Opts { max_types: 8, max_depth: 1, ..Opts::default() });
    let what = g.tape.below(4);
    let store = if what == 1 {
        match g.tape.below(7) {
            0 => g.prim(TypeDefPrimitive::U128),
            1 => g.prim(TypeDefPrimitive::Bool),
            2 => g.prim(TypeDefPrimitive::I8),
            3 => g.prim(TypeDefPrimitive::U256),
            4 => {
                let u = g.prim(TypeDefPrimitive::U8);
                g.wrapper(u)
            }
            5 => {
                let u = g.prim(TypeDefPrimitive::U8);
                g.add(segs(&[]), TypeDefSequence::new(sym(u)), vec![])
            }
            _ => g.prim(TypeDefPrimitive::I64),
        }
    } else {
        let p = g.tape.pick(&[TypeDefPrimitive::U8, TypeDefPrimitive::U16, TypeDefPrimitive::U32, TypeDefPrimitive::U64]).clone();
        g.prim(p)
    };
    let order = if what == 2 {
        match g.tape.below(12) {
            // the exact name, with something around or a letter changed
            6..=8 => {
                let name = *g.tape.pick(&["Lsb0", "Msb0"]);
                let mut odd = crate::dict::near(g.tape, name);
                if odd == "Lsb0" || odd == "Msb0" {
                    odd.push('_');
                }
                let deep = g.tape.chance(128);
                g.add(if deep { segs(&["bitvec", "order", &odd]) } else { segs(&[&odd]) }, TypeDefComposite { fields: vec![] }, vec![])
            }
            // any other kind of type, by the right name or by none
            9..=11 => {
                let u = g.prim(TypeDefPrimitive::U8);
                let path = if g.tape.chance(170) { segs(&[]) } else { segs(&["bitvec", "order", g.tape.pick(&["Lsb0", "Msb0"])]) };
                match g.tape.below(6) {
                    0 | 1 => {
                        let fields = vec![sym(u); g.tape.below(3)];
                        g.add(path, scale_info::TypeDefTuple { fields }, vec![])
                    }
                    2 => {
                        let len = g.tape.below(3) as u32;
                        g.add(path, scale_info::TypeDefArray { len, type_param: sym(u) }, vec![])
                    }
                    3 => g.add(path, TypeDefSequence::new(sym(u)), vec![]),
                    4 => g.add(path, TypeDefVariant { variants: vec![] }, vec![]),
                    _ => g.add(path, scale_info::TypeDefCompact { type_param: sym(u) }, vec![]),
                }
            }
            0 => g.add(segs(&["bitvec", "order", "Lsb1"]), TypeDefComposite { fields: vec![] }, vec![]),
            1 => g.add(segs(&["Lsb0", "order"]), TypeDefComposite { fields: vec![] }, vec![]),
            2 => g.add(segs(&[]), TypeDefComposite { fields: vec![] }, vec![]),
            3 => g.add(segs(&["msb0"]), TypeDefComposite { fields: vec![] }, vec![]),
            4 => g.add(segs(&["Msb0"]), TypeDefVariant { variants: vec![Variant { name: "A".into(), fields: vec![], index: 0, docs: vec![] }] }, vec![]),
            _ => g.prim(TypeDefPrimitive::U8),
        }
    } else {
        let name = *g.tape.pick(&["Lsb0", "Msb0"]);
        let deep = g.tape.chance(128);
        // what is in the order type does not matter
        let mut fields = vec![];
        if g.tape.chance(20) {
            let u = g.prim(TypeDefPrimitive::U8);
            fields = vec![crate::meta::fld(None, u, None); g.tape.range(1, 3)];
        }
        g.add(if deep { segs(&["bitvec", "order", name]) } else { segs(&[name]) }, TypeDefComposite { fields }, vec![])
    };
    let bit_id = g.add(segs(&[]), TypeDefBitSequence::new_portable(sym(store), sym(order)), vec![]);
    let mut id = bit_id;
    let seq = what == 3 || g.tape.chance(60);
    if seq {
        id = g.add(segs(&[]), TypeDefSequence::new(sym(id)), vec![]);
    }
    let (reg, _) = g.finish();
    let mut data = Vec::new();
    let m = if seq { t.range(0, 4) } else { 1 };
    if seq {
        data.extend(compact_bytes(m as u128));
    }
    for _ in 0..m {
        let n = t.below(90);
        data.extend(compact_bytes(n as u128));
        let k = (n.div_ceil(8) / 8 + 1) * 8;
        data.extend(t.bytes(k));
        if t.chance(50) {
            data.pop();
        }
    }
    ctx.interesting(&[&data, show_reg(&reg).as_bytes()]);
    ctx.describe(|| format!("type {id}\n{}data 0x{}", show_reg(&reg), hex::encode(&data)));
    let (r, rp) = ref_decode(&reg, id, &data, 0, Hi::None);
    if r == Err(RefErr::Budget) {
        return ctx.discard();
    }
    let mut p = 0;
    let s = sut::decode_at(&reg, id, &data, &mut p);
    match (&r, &s) {
        (Ok(a), Ok(b)) => {
            ctx.label_if(seq, "in sequence");
            ensure!(a == b && p == rp, "odd-value", "type {id}\n{}data 0x{}\nexpected {rp} {a:?}\ngot {p} {b:?}", show_reg(&reg), hex::encode(&data));
        }
        (Err(RefErr::NotOrder), e) => {
            ctx.label("odd order");
            let ok = matches!(e, Err(ParserError::Registry(RegistryError::Internal(RegistryInternalError::NotBitOrderType { id }))) if *id == bit_id);
            ensure!(ok, "order", "bit order of type {bit_id} is no bit order, answer {e:?}\n{}", show_reg(&reg));
        }
        (Err(RefErr::NotStore), e) => {
            ctx.label("odd store");
            let ok = matches!(e, Err(ParserError::Registry(RegistryError::Internal(RegistryInternalError::NotBitStoreType { id }))) if *id == bit_id);
            ensure!(ok, "store", "bit store of type {bit_id} is no bit store, answer {e:?}\n{}", show_reg(&reg));
        }
        (Err(_), Err(_)) => {}
        (a, b) => fail!("odd-verdict", "type {id}\n{}data 0x{}\nexpected {a:?}\ngot {b:?}", show_reg(&reg), hex::encode(&data)),
    }
    Ok(())
}
