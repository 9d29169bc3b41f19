//! Structure-blind content of reported data: the payload bytes of its leaves
//! in order, without variant selectors and length prefixes.

use substrate_parser::additional_types::Era;
use substrate_parser::cards::{ParsedData, Sequence};

pub fn leaf_bytes(d: &ParsedData) -> Vec<u8> {
    let mut out = Vec::new();
    go(d, &mut out);
    out
}

/// Encoding of a mortality, restated.
pub fn era_encode(e: &Era) -> Vec<u8> {
    match e {
        Era::Immortal => vec![0],
        Era::Mortal(period, phase) => {
            let mut k = 0u16;
            while 1u64 << (k + 1) < *period {
                k += 1;
            }
            let quantum = if *period > 4096 { period / 4096 } else { 1 };
            (k.clamp(1, 15) | ((phase / quantum) as u16) << 4).to_le_bytes().to_vec()
        }
    }
}

fn go(d: &ParsedData, o: &mut Vec<u8>) {
    macro_rules! bits {
        ($b:expr) => {{
            o.extend(($b.len() as u32).to_le_bytes());
            o.extend($b.iter().map(|x| *x as u8));
        }};
    }
    match d {
        ParsedData::BitVecU8Lsb0(b) => bits!(b),
        ParsedData::BitVecU16Lsb0(b) => bits!(b),
        ParsedData::BitVecU32Lsb0(b) => bits!(b),
        ParsedData::BitVecU64Lsb0(b) => bits!(b),
        ParsedData::BitVecU8Msb0(b) => bits!(b),
        ParsedData::BitVecU16Msb0(b) => bits!(b),
        ParsedData::BitVecU32Msb0(b) => bits!(b),
        ParsedData::BitVecU64Msb0(b) => bits!(b),
        ParsedData::BlockHash(h) | ParsedData::GenesisHash(h) | ParsedData::H256(h) => o.extend(h.as_bytes()),
        ParsedData::H160(h) => o.extend(h.as_bytes()),
        ParsedData::H512(h) => o.extend(h.as_bytes()),
        ParsedData::Id(x) => o.extend(x.0),
        ParsedData::PublicEd25519(x) => o.extend(x.0),
        ParsedData::PublicSr25519(x) => o.extend(x.0),
        ParsedData::PublicEcdsa(x) => o.extend(x.0),
        ParsedData::SignatureEd25519(x) => o.extend(x.0),
        ParsedData::SignatureSr25519(x) => o.extend(x.0),
        ParsedData::SignatureEcdsa(x) => o.extend(x.0),
        ParsedData::Call(x) => x.0.fields.iter().for_each(|f| go(&f.data.data, o)),
        ParsedData::Event(x) => x.0.fields.iter().for_each(|f| go(&f.data.data, o)),
        ParsedData::Composite(f) => f.iter().for_each(|f| go(&f.data.data, o)),
        ParsedData::Variant(v) => v.fields.iter().for_each(|f| go(&f.data.data, o)),
        ParsedData::Tuple(v) => v.iter().for_each(|x| go(&x.data, o)),
        ParsedData::EmptyEnum => {}
        ParsedData::Era(e) => {
            if let Era::Mortal(..) = e {
                o.push(era_encode(e)[1]);
            }
        }
        ParsedData::PerU16(x) => o.extend(x.deconstruct().to_le_bytes()),
        ParsedData::Percent(x) => o.extend(x.deconstruct().to_le_bytes()),
        ParsedData::Permill(x) => o.extend(x.deconstruct().to_le_bytes()),
        ParsedData::Perbill(x) => o.extend(x.deconstruct().to_le_bytes()),
        ParsedData::Perquintill(x) => o.extend(x.deconstruct().to_le_bytes()),
        ParsedData::PrimitiveBool(x) => o.push(*x as u8),
        ParsedData::PrimitiveChar(x) => o.extend((*x as u32).to_le_bytes()),
        ParsedData::PrimitiveI8(x) => o.extend(x.to_le_bytes()),
        ParsedData::PrimitiveI16(x) => o.extend(x.to_le_bytes()),
        ParsedData::PrimitiveI32(x) => o.extend(x.to_le_bytes()),
        ParsedData::PrimitiveI64(x) => o.extend(x.to_le_bytes()),
        ParsedData::PrimitiveI128(x) => o.extend(x.to_le_bytes()),
        ParsedData::PrimitiveI256(x) => o.extend(format!("{x}").bytes()),
        ParsedData::PrimitiveU8 { value, .. } => o.extend(value.to_le_bytes()),
        ParsedData::PrimitiveU16 { value, .. } => o.extend(value.to_le_bytes()),
        ParsedData::PrimitiveU32 { value, .. } => o.extend(value.to_le_bytes()),
        ParsedData::PrimitiveU64 { value, .. } => o.extend(value.to_le_bytes()),
        ParsedData::PrimitiveU128 { value, .. } => o.extend(value.to_le_bytes()),
        ParsedData::PrimitiveU256(x) => o.extend(format!("{x}").bytes()),
        ParsedData::Sequence(s) => match &s.data {
            Sequence::U8(v) => o.extend(v),
            Sequence::U16(v) => v.iter().for_each(|x| o.extend(x.to_le_bytes())),
            Sequence::U32(v) => v.iter().for_each(|x| o.extend(x.to_le_bytes())),
            Sequence::U64(v) => v.iter().for_each(|x| o.extend(x.to_le_bytes())),
            Sequence::U128(v) => v.iter().for_each(|x| o.extend(x.to_le_bytes())),
            Sequence::VecU8 { sequence, .. } => sequence.iter().for_each(|x| o.extend(x)),
        },
        ParsedData::SequenceRaw(s) => s.data.iter().for_each(|x| go(x, o)),
        ParsedData::Text { text, .. } => o.extend(text.bytes()),
    }
}
