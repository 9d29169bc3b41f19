//! Model of storage keys and entries, with its own hash functions.

use frame_metadata::v14::{RuntimeMetadataV14, StorageEntryMetadata, StorageEntryModifier, StorageEntryType, StorageHasher};
use scale_info::{form::PortableForm, PortableRegistry, TypeDef};
use substrate_parser::error::StorageError;
use substrate_parser::storage_data::{Hash, HashData, KeyData, KeyPart, Storage};

use crate::genreg::sym;
use crate::walk::{info_of, ref_decode, Hi, Mark, RefErr};

// ------------------------------------------------------------------ hashes

pub fn xxh64(data: &[u8], seed: u64) -> u64 {
    const P1: u64 = 0x9E3779B185EBCA87;
    const P2: u64 = 0xC2B2AE3D27D4EB4F;
    const P3: u64 = 0x165667B19E3779F9;
    const P4: u64 = 0x85EBCA77C2B2AE63;
    const P5: u64 = 0x27D4EB2F165667C5;
    let r64 = |d: &[u8]| u64::from_le_bytes(d[..8].try_into().unwrap());
    let round = |acc: u64, x: u64| acc.wrapping_add(x.wrapping_mul(P2)).rotate_left(31).wrapping_mul(P1);
    let mut d = data;
    let mut h;
    if data.len() >= 32 {
        let mut v = [seed.wrapping_add(P1).wrapping_add(P2), seed.wrapping_add(P2), seed, seed.wrapping_sub(P1)];
        while d.len() >= 32 {
            for (i, v) in v.iter_mut().enumerate() {
                *v = round(*v, r64(&d[8 * i..]));
            }
            d = &d[32..];
        }
        h = v[0].rotate_left(1).wrapping_add(v[1].rotate_left(7)).wrapping_add(v[2].rotate_left(12)).wrapping_add(v[3].rotate_left(18));
        for v in v {
            h = (h ^ round(0, v)).wrapping_mul(P1).wrapping_add(P4);
        }
    } else {
        h = seed.wrapping_add(P5);
    }
    h = h.wrapping_add(data.len() as u64);
    while d.len() >= 8 {
        h = (h ^ round(0, r64(d))).rotate_left(27).wrapping_mul(P1).wrapping_add(P4);
        d = &d[8..];
    }
    if d.len() >= 4 {
        let x = u32::from_le_bytes(d[..4].try_into().unwrap()) as u64;
        h = (h ^ x.wrapping_mul(P1)).rotate_left(23).wrapping_mul(P2).wrapping_add(P3);
        d = &d[4..];
    }
    for b in d {
        h = (h ^ (*b as u64).wrapping_mul(P5)).rotate_left(11).wrapping_mul(P1);
    }
    h ^= h >> 33;
    h = h.wrapping_mul(P2);
    h ^= h >> 29;
    h = h.wrapping_mul(P3);
    h ^ (h >> 32)
}

pub fn twox(data: &[u8], bytes: usize) -> Vec<u8> {
    (0..bytes / 8).flat_map(|s| xxh64(data, s as u64).to_le_bytes()).collect()
}

pub fn blake2b(data: &[u8], out: usize) -> Vec<u8> {
    const IV: [u64; 8] = [
        0x6a09e667f3bcc908,
        0xbb67ae8584caa73b,
        0x3c6ef372fe94f82b,
        0xa54ff53a5f1d36f1,
        0x510e527fade682d1,
        0x9b05688c2b3e6c1f,
        0x1f83d9abfb41bd6b,
        0x5be0cd19137e2179,
    ];
    const S: [[usize; 16]; 10] = [
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
        [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
        [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
        [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
        [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
        [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
        [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
        [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
        [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
        [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
    ];
    let mut h = IV;
    h[0] ^= 0x01010000 ^ out as u64;
    let n = data.len().div_ceil(128).max(1);
    for i in 0..n {
        let part = &data[128 * i..data.len().min(128 * i + 128)];
        let mut block = [0u8; 128];
        block[..part.len()].copy_from_slice(part);
        let m: Vec<u64> = block.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        let mut v = [0u64; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&IV);
        v[12] ^= (128 * i + part.len()) as u64;
        if i + 1 == n {
            v[14] = !v[14];
        }
        for r in 0..12 {
            let s = S[r % 10];
            let mut g = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
                v[d] = (v[d] ^ v[a]).rotate_right(32);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(24);
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
                v[d] = (v[d] ^ v[a]).rotate_right(16);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(63);
            };
            g(0, 4, 8, 12, m[s[0]], m[s[1]]);
            g(1, 5, 9, 13, m[s[2]], m[s[3]]);
            g(2, 6, 10, 14, m[s[4]], m[s[5]]);
            g(3, 7, 11, 15, m[s[6]], m[s[7]]);
            g(0, 5, 10, 15, m[s[8]], m[s[9]]);
            g(1, 6, 11, 12, m[s[10]], m[s[11]]);
            g(2, 7, 8, 13, m[s[12]], m[s[13]]);
            g(3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for k in 0..8 {
            h[k] ^= v[k] ^ v[k + 8];
        }
    }
    h.iter().flat_map(|x| x.to_le_bytes()).take(out).collect()
}

pub fn hash(h: &StorageHasher, data: &[u8]) -> Vec<u8> {
    match h {
        StorageHasher::Blake2_128 | StorageHasher::Blake2_128Concat => blake2b(data, 16),
        StorageHasher::Blake2_256 => blake2b(data, 32),
        StorageHasher::Twox128 => twox(data, 16),
        StorageHasher::Twox256 => twox(data, 32),
        StorageHasher::Twox64Concat => twox(data, 8),
        StorageHasher::Identity => vec![],
    }
}

pub fn transparent(h: &StorageHasher) -> bool {
    matches!(h, StorageHasher::Blake2_128Concat | StorageHasher::Twox64Concat | StorageHasher::Identity)
}

pub const HASHERS: [StorageHasher; 7] = [
    StorageHasher::Blake2_128,
    StorageHasher::Blake2_256,
    StorageHasher::Blake2_128Concat,
    StorageHasher::Twox128,
    StorageHasher::Twox256,
    StorageHasher::Twox64Concat,
    StorageHasher::Identity,
];

// ------------------------------------------------------------------- model

#[derive(Clone, Copy, Debug)]
pub enum StErr {
    Mismatch,
    Unused,
    ShorterThanPrefix,
    NotATuple,
    NumberMismatch,
    Key,
    Value,
    PlainExceeds,
    Budget,
    /// more than one thing is wrong (bits), which one is reported is free
    AnyOf(u16),
}

impl StErr {
    fn bits(self) -> u16 {
        match self {
            StErr::Mismatch => 1,
            StErr::Unused => 2,
            StErr::ShorterThanPrefix => 4,
            StErr::NotATuple => 8,
            StErr::NumberMismatch => 16,
            StErr::Key => 32,
            StErr::Value => 64,
            StErr::PlainExceeds => 128,
            StErr::Budget => 256,
            StErr::AnyOf(b) => b,
        }
    }

    fn of(bits: u16) -> Option<StErr> {
        use StErr::*;
        match bits {
            0 => None,
            b if b & 256 != 0 => Some(Budget),
            b => Some([Mismatch, Unused, ShorterThanPrefix, NotATuple, NumberMismatch, Key, Value, PlainExceeds].into_iter().find(|e| e.bits() == b).unwrap_or(AnyOf(b))),
        }
    }
}

/// Of a set the real code has to report one.
impl PartialEq for StErr {
    fn eq(&self, o: &StErr) -> bool {
        self.bits() & o.bits() != 0
    }
}

pub fn st_err<E: external_memory_tools::ExternalMemory>(e: &StorageError<E>) -> StErr {
    match e {
        StorageError::KeyPartHashMismatch => StErr::Mismatch,
        StorageError::KeyPartsUnused => StErr::Unused,
        StorageError::KeyShorterThanPrefix => StErr::ShorterThanPrefix,
        StorageError::MultipleHashesNotATuple => StErr::NotATuple,
        StorageError::MultipleHashesNumberMismatch => StErr::NumberMismatch,
        StorageError::ParsingKey(_) => StErr::Key,
        StorageError::ParsingValue(_) => StErr::Value,
        StorageError::PlainKeyExceedsPrefix => StErr::PlainExceeds,
    }
}

fn part(reg: &PortableRegistry, h: &StorageHasher, id: u32, key: &[u8], pos: &mut usize, wrong: &mut u16) -> Result<KeyPart, StErr> {
    let n = match h {
        StorageHasher::Blake2_128 | StorageHasher::Twox128 | StorageHasher::Blake2_128Concat => 16,
        StorageHasher::Blake2_256 | StorageHasher::Twox256 => 32,
        StorageHasher::Twox64Concat => 8,
        StorageHasher::Identity => 0,
    };
    if *pos > key.len() || key.len() - *pos < n {
        return Err(StErr::Key);
    }
    let head = &key[*pos..*pos + n];
    *pos += n;
    let opaque = |hash| Ok(KeyPart::Hash(HashData { hash, type_id: id }));
    match h {
        StorageHasher::Blake2_128 => return opaque(Hash::Blake2_128(head.try_into().unwrap())),
        StorageHasher::Blake2_256 => return opaque(Hash::Blake2_256(head.try_into().unwrap())),
        StorageHasher::Twox128 => return opaque(Hash::Twox128(head.try_into().unwrap())),
        StorageHasher::Twox256 => return opaque(Hash::Twox256(head.try_into().unwrap())),
        _ => {}
    }
    let (r, end) = ref_decode(reg, id, key, *pos, Hi::None);
    let d = r.map_err(|e| if e == RefErr::Budget { StErr::Budget } else { StErr::Key })?;
    if hash(h, &key[*pos..end]) != head {
        // what follows is still decoded: it may be wrong too
        *wrong |= StErr::Mismatch.bits();
    }
    *pos = end;
    Ok(KeyPart::Parsed(d))
}

/// Key parts from `pos`.
pub fn model_key(reg: &PortableRegistry, hashers: &[StorageHasher], key_ty: u32, key: &[u8], mut pos: usize) -> Result<KeyData, StErr> {
    let mut wrong = 0;
    let mut all = || -> Result<KeyData, StErr> {
        let data = if let [h] = hashers {
            KeyData::SingleHash { content: part(reg, h, key_ty, key, &mut pos, &mut wrong)? }
        } else {
            let ty = &reg.types.get(key_ty as usize).ok_or(StErr::Key)?.ty;
            let TypeDef::Tuple(t) = &ty.type_def else { return Err(StErr::NotATuple) };
            if t.fields.len() != hashers.len() {
                return Err(StErr::NumberMismatch);
            }
            let mut content = Vec::new();
            for (h, f) in hashers.iter().zip(&t.fields) {
                content.push(part(reg, h, f.id, key, &mut pos, &mut wrong)?);
            }
            KeyData::TupleHash { content, info: info_of(ty) }
        };
        if pos != key.len() {
            return Err(StErr::Unused);
        }
        Ok(data)
    };
    let r = all();
    match StErr::of(wrong | r.as_ref().err().map_or(0, |e| e.bits())) {
        None => r,
        Some(e) => Err(e),
    }
}

pub fn model_entry(reg: &PortableRegistry, e: &StorageEntryMetadata<PortableForm>, key: &[u8], value: &[u8]) -> Result<Storage, StErr> {
    let vt = match &e.ty {
        StorageEntryType::Plain(v) | StorageEntryType::Map { value: v, .. } => v.id,
    };
    let k = match &e.ty {
        _ if key.len() < 32 => Err(StErr::ShorterThanPrefix),
        StorageEntryType::Plain(_) if key.len() > 32 => Err(StErr::PlainExceeds),
        StorageEntryType::Plain(_) => Ok(KeyData::Plain),
        StorageEntryType::Map { hashers, key: kt, .. } => model_key(reg, hashers, kt.id, key, 32),
    };
    let (r, end) = ref_decode(reg, vt, value, 0, Hi::None);
    let d = match r {
        Err(RefErr::Budget) => Err(StErr::Budget),
        Ok(d) if end == value.len() => Ok(d),
        _ => Err(StErr::Value),
    };
    match (k, d) {
        (Ok(key), Ok(value)) => Ok(Storage { key, value, docs: e.docs.join("\n") }),
        (Err(a), Err(b)) => Err(StErr::of(a.bits() | b.bits()).expect("an error")),
        (Err(e), _) | (_, Err(e)) => Err(e),
    }
}

pub fn sut_entry(reg: &PortableRegistry, e: &StorageEntryMetadata<PortableForm>, key: &[u8], value: &[u8]) -> Result<Storage, StorageError<()>> {
    substrate_parser::decode_as_storage_entry::<&[u8], (), RuntimeMetadataV14>(&key, &value, &mut (), e, reg)
}

pub fn sut_key(reg: &PortableRegistry, hashers: &[StorageHasher], key_ty: u32, key: &[u8], pos: usize) -> Result<KeyData, StorageError<()>> {
    substrate_parser::storage_data::process_key_mapped::<&[u8], (), RuntimeMetadataV14>(hashers, &sym(key_ty), &key, &mut (), pos, reg)
}

pub fn entry(name: &str, ty: StorageEntryType<PortableForm>, docs: Vec<String>) -> StorageEntryMetadata<PortableForm> {
    StorageEntryMetadata { name: name.to_string(), modifier: StorageEntryModifier::Optional, ty, default: vec![], docs }
}

/// One part of a key: hash bytes and key encoding.
#[derive(Clone, Debug)]
pub struct PartBytes {
    pub head: Vec<u8>,
    pub enc: Vec<u8>,
    pub marks: Vec<Mark>,
}

pub fn join(parts: &[PartBytes]) -> Vec<u8> {
    parts.iter().flat_map(|p| p.head.iter().chain(&p.enc).copied()).collect()
}

/// Types of the parts, as far as hashers and type fit together.
pub fn part_types(reg: &PortableRegistry, hashers: &[StorageHasher], key_ty: u32) -> Option<Vec<u32>> {
    if hashers.len() == 1 {
        return Some(vec![key_ty]);
    }
    match &reg.types[key_ty as usize].ty.type_def {
        TypeDef::Tuple(t) if t.fields.len() == hashers.len() => Some(t.fields.iter().map(|f| f.id).collect()),
        _ => None,
    }
}
