//! Independent reference interpreter of type descriptions.
//!
//! `Walker` walks a `PortableRegistry` type and produces the `ExtendedData` the
//! parser is expected to report. It is driven by a `Src`: `GenSrc` invents the
//! value and writes its SCALE encoding, `DecSrc` reads given bytes. Nothing of
//! substrate_parser's decoding code is used here: compacts, bit packing, eras,
//! big integers, hints, husking and wrapping are all re-stated from the
//! documented behaviour and the SCALE rules.

use bitvec::prelude::{BitVec, Lsb0, Msb0};
use num_bigint::{BigInt, BigUint};
use primitive_types::{H160, H256, H512};
use scale_info::{form::PortableForm, PortableRegistry, Type, TypeDef, TypeDefPrimitive, Variant};
use sp_arithmetic::{PerU16, Perbill, Percent, Permill, Perquintill};
use substrate_crypto_light::{common::AccountId32, ecdsa, ed25519, sr25519};
use substrate_parser::additional_types::Era;
use substrate_parser::cards::{
    Call, Event, ExtendedData, FieldData, Info, PalletSpecificData, ParsedData, Sequence,
    SequenceData, SequenceRawData, VariantData,
};
use substrate_parser::special_indicators::{SpecialtyStr, SpecialtyUnsignedInteger};

use crate::tape::Tape;

pub type PTy = Type<PortableForm>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Hi {
    None,
    SpecVersion,
    TxVersion,
    Genesis,
    Mortality,
    Nonce,
    TipAsset,
    Tip,
    Balance,
    SpecName,
}

impl Hi {
    pub fn uint(self) -> SpecialtyUnsignedInteger {
        match self {
            Hi::SpecVersion => SpecialtyUnsignedInteger::SpecVersion,
            Hi::TxVersion => SpecialtyUnsignedInteger::TxVersion,
            Hi::Nonce => SpecialtyUnsignedInteger::Nonce,
            Hi::TipAsset => SpecialtyUnsignedInteger::TipAsset,
            Hi::Tip => SpecialtyUnsignedInteger::Tip,
            Hi::Balance => SpecialtyUnsignedInteger::Balance,
            _ => SpecialtyUnsignedInteger::None,
        }
    }

    pub fn of_extension(identifier: &str) -> Hi {
        match identifier {
            "CheckSpecVersion" => Hi::SpecVersion,
            "CheckTxVersion" => Hi::TxVersion,
            "CheckGenesis" => Hi::Genesis,
            "CheckMortality" => Hi::Mortality,
            "CheckNonce" => Hi::Nonce,
            "ChargeAssetTxPayment" => Hi::TipAsset,
            "ChargeTransactionPayment" => Hi::Tip,
            _ => Hi::None,
        }
    }

    pub fn of_tuple_element(ty: &PTy) -> Hi {
        match ty.path.segments.last().map(|s| s.as_str()) {
            Some("CheckNonce") => Hi::Nonce,
            Some("ChargeAssetTxPayment") => Hi::TipAsset,
            Some("ChargeTransactionPayment") => Hi::Tip,
            _ => Hi::None,
        }
    }

    pub fn of_field(name: Option<&str>, type_name: Option<&str>) -> Hi {
        match name {
            Some("nonce") => return Hi::Nonce,
            Some("spec_version") => return Hi::SpecVersion,
            Some("spec_name") => return Hi::SpecName,
            Some("tx_version") | Some("transaction_version") => return Hi::TxVersion,
            _ => {}
        }
        match type_name {
            Some(
                "Balance" | "BalanceOf<T>" | "BalanceOf<T, I>" | "DepositBalance"
                | "ExtendedBalance" | "PalletBalanceOf<T>" | "T::Balance",
            ) => Hi::Balance,
            _ => Hi::None,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum KeyKind {
    Ed,
    Sr,
    Ec,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PerKind {
    U16,
    Percent,
    Permill,
    Perbill,
    Perquintill,
}

impl PerKind {
    pub fn bits(self) -> u32 {
        match self {
            PerKind::U16 => 16,
            PerKind::Percent => 8,
            PerKind::Permill | PerKind::Perbill => 32,
            PerKind::Perquintill => 64,
        }
    }
    pub fn max(self) -> u128 {
        match self {
            PerKind::U16 => 65535,
            PerKind::Percent => 100,
            PerKind::Permill => 1_000_000,
            PerKind::Perbill => 1_000_000_000,
            PerKind::Perquintill => 1_000_000_000_000_000_000,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            PerKind::U16 => "PerU16",
            PerKind::Percent => "Percent",
            PerKind::Permill => "Permill",
            PerKind::Perbill => "Perbill",
            PerKind::Perquintill => "Perquintill",
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sp {
    None,
    Id,
    Era,
    H160,
    H256,
    H512,
    MultiSig,
    Call,
    Event,
    Per(PerKind),
    Pub(KeyKind),
    Sig(KeyKind),
    Unchecked,
}

fn key_ns(ns: &[String]) -> Option<KeyKind> {
    if ns.len() != 2 || ns[0] != "sp_core" {
        return None;
    }
    match ns[1].as_str() {
        "ed25519" => Some(KeyKind::Ed),
        "sr25519" => Some(KeyKind::Sr),
        "ecdsa" => Some(KeyKind::Ec),
        _ => None,
    }
}

/// Special treatment requested by the type path.
pub fn special(ty: &PTy) -> Sp {
    special_path(&ty.path.segments)
}

pub fn special_path(seg: &[String]) -> Sp {
    let Some((last, ns)) = seg.split_last() else {
        return Sp::None;
    };
    match last.as_str() {
        "AccountId32" => Sp::Id,
        "Call" | "RuntimeCall" => Sp::Call,
        "Event" | "RuntimeEvent" => Sp::Event,
        "Era" => Sp::Era,
        "AccountId20" | "H160" => Sp::H160,
        "H256" => Sp::H256,
        "H512" => Sp::H512,
        "MultiSignature" => Sp::MultiSig,
        "Perbill" => Sp::Per(PerKind::Perbill),
        "Percent" => Sp::Per(PerKind::Percent),
        "Permill" => Sp::Per(PerKind::Permill),
        "Perquintill" => Sp::Per(PerKind::Perquintill),
        "PerU16" => Sp::Per(PerKind::U16),
        "Public" => key_ns(ns).map_or(Sp::None, Sp::Pub),
        "Signature" => key_ns(ns).map_or(Sp::None, Sp::Sig),
        "UncheckedExtrinsic" => {
            if ns.len() == 3 && ns[0] == "sp_runtime" && ns[1] == "generic" && ns[2] == "unchecked_extrinsic" {
                Sp::Unchecked
            } else {
                Sp::None
            }
        }
        _ => Sp::None,
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RefErr {
    Short { pos: usize, need: usize },
    NoCompact { pos: usize },
    Type { pos: usize, ty: &'static str },
    Variant { pos: usize },
    Cyclic,
    CompactInside,
    NotOrder,
    NotStore,
    NotResolved,
    /// The reference gives up: case too large (skipped, never judged).
    Budget,
}

pub type R<T> = Result<T, RefErr>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MarkKind {
    Uint,
    Int,
    Bool,
    Char,
    Text,
    Compact,
    SeqLen,
    BitSeq,
    VariantIdx,
    Per,
    Era,
    Raw,
}

#[derive(Clone, Copy, Debug)]
pub struct Mark {
    pub kind: MarkKind,
    pub start: usize,
    pub end: usize,
}

pub trait Src {
    fn pos(&self) -> usize;
    fn node(&mut self, depth: u32) -> R<()>;
    fn raw(&mut self, n: usize) -> R<Vec<u8>>;
    fn uint(&mut self, bits: u32) -> R<u128>;
    fn sint(&mut self, bits: u32) -> R<i128>;
    fn boolean(&mut self) -> R<bool>;
    fn ch(&mut self) -> R<char>;
    fn text(&mut self) -> R<String>;
    fn compact(&mut self, bits: u32) -> R<u128>;
    fn per(&mut self, kind: PerKind, compact: bool) -> R<u128>;
    fn seq_len(&mut self, elem_cost: Option<u32>, depth: u32) -> R<u32>;
    /// bit length and the packed store elements' bytes
    fn bits(&mut self, store_bytes: usize, msb: bool, store: &'static str) -> R<Vec<bool>>;
    fn variant(&mut self, variants: &[Variant<PortableForm>], depth: u32) -> R<usize>;
    fn era(&mut self) -> R<Era>;
}

// ---------------------------------------------------------------- encoding

pub fn compact_bytes(x: u128) -> Vec<u8> {
    if x < 64 {
        vec![(x as u8) << 2]
    } else if x < 1 << 14 {
        (((x as u16) << 2) | 1).to_le_bytes().to_vec()
    } else if x < 1 << 30 {
        (((x as u32) << 2) | 2).to_le_bytes().to_vec()
    } else {
        let mut b = x.to_le_bytes().to_vec();
        while b.len() > 4 && b.last() == Some(&0) {
            b.pop();
        }
        let mut out = vec![(((b.len() - 4) as u8) << 2) | 3];
        out.extend(b);
        out
    }
}

/// Canonical compact at the start of `d` for an unsigned type of `bits` bits:
/// value and number of bytes.
pub fn compact_parse(d: &[u8], bits: u32) -> Option<(u128, usize)> {
    let first = *d.first()?;
    let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let (v, n, min) = match first & 3 {
        0 => ((first >> 2) as u128, 1, 0u128),
        1 => {
            let b = d.get(..2)?;
            ((u16::from_le_bytes([b[0], b[1]]) >> 2) as u128, 2, 64)
        }
        2 => {
            let b = d.get(..4)?;
            (
                (u32::from_le_bytes([b[0], b[1], b[2], b[3]]) >> 2) as u128,
                4,
                1 << 14,
            )
        }
        _ => {
            let n = (first >> 2) as usize + 4;
            if n > 16 {
                return None;
            }
            let b = d.get(1..1 + n)?;
            let mut v = 0u128;
            for (i, x) in b.iter().enumerate() {
                v |= (*x as u128) << (8 * i);
            }
            let min = if n == 4 { 1 << 30 } else { 1u128 << (8 * (n - 1)) };
            (v, n + 1, min)
        }
    };
    if v < min || v > max {
        return None;
    }
    Some((v, n))
}

pub fn era_parse(d: &[u8], pos: usize) -> R<(Era, usize)> {
    let Some(first) = d.first() else {
        return Err(RefErr::Short { pos, need: 1 });
    };
    if *first == 0 {
        return Ok((Era::Immortal, 1));
    }
    let Some(second) = d.get(1) else {
        return Err(RefErr::Short { pos, need: 2 });
    };
    // low four bits: log2(period) - 1; other bits: quantized phase
    let period = 1u64 << ((first & 0x0f) + 1);
    let quantum = if period > 4096 { period / 4096 } else { 1 };
    let phase = ((((*second as u64) << 8) | *first as u64) / 16) * quantum;
    if period < 4 || phase >= period {
        return Err(RefErr::Type { pos, ty: "Era" });
    }
    Ok((Era::Mortal(period, phase), 2))
}

fn pack_bits(bits: &[bool], store_bytes: usize, msb: bool) -> Vec<u8> {
    let width = store_bytes * 8;
    let elements = bits.len().div_ceil(8).div_ceil(store_bytes);
    let mut out = vec![0u8; elements * store_bytes];
    for (i, b) in bits.iter().enumerate() {
        if *b {
            let element = i / width;
            let in_el = i % width;
            let significance = if msb { width - 1 - in_el } else { in_el };
            out[element * store_bytes + significance / 8] |= 1 << (significance % 8);
        }
    }
    out
}

fn unpack_bits(bytes: &[u8], count: usize, store_bytes: usize, msb: bool) -> Vec<bool> {
    let width = store_bytes * 8;
    (0..count)
        .map(|i| {
            let element = i / width;
            let in_el = i % width;
            let significance = if msb { width - 1 - in_el } else { in_el };
            bytes[element * store_bytes + significance / 8] >> (significance % 8) & 1 == 1
        })
        .collect()
}

// ------------------------------------------------------------------ GenSrc

pub struct GenSrc<'t, 'd> {
    pub tape: &'t mut Tape<'d>,
    pub out: Vec<u8>,
    pub marks: Vec<Mark>,
    pub nodes: u32,
    pub node_budget: u32,
    pub max_depth: u32,
    pub cost: std::sync::Arc<Vec<u32>>,
    /// position of the first byte (non-zero when appended to a prefix)
    pub base: usize,
    pub variants_seen: u32,
    pub nonempty_seqs: u32,
    /// indices of the next variants to choose
    pub forced_variants: std::collections::VecDeque<u8>,
    /// 32-byte value used for most 32-byte blobs
    pub hash_pool: Option<[u8; 32]>,
    /// how many things may still be made much longer than usual
    pub big: u32,
}

impl<'t, 'd> GenSrc<'t, 'd> {
    pub fn new(tape: &'t mut Tape<'d>, reg: &PortableRegistry) -> Self {
        Self::with_costs(tape, std::sync::Arc::new(type_costs(reg)))
    }
    pub fn with_costs(tape: &'t mut Tape<'d>, cost: std::sync::Arc<Vec<u32>>) -> Self {
        let big = if tape.rare(2) { 2 } else { 0 };
        if big > 0 {
            tape.spill();
        }
        GenSrc {
            big,
            tape,
            out: Vec::new(),
            marks: Vec::new(),
            nodes: 0,
            node_budget: 600,
            max_depth: 24,
            cost,
            base: 0,
            variants_seen: 0,
            nonempty_seqs: 0,
            forced_variants: Default::default(),
            hash_pool: None,
        }
    }
    fn put(&mut self, kind: MarkKind, b: &[u8]) {
        let start = self.base + self.out.len();
        self.out.extend_from_slice(b);
        self.marks.push(Mark { kind, start, end: start + b.len() });
    }
    /// A length from around the limits of smaller counters.
    fn big_len(&mut self, unit: u32) -> Option<usize> {
        if self.big == 0 || unit > 40 || !self.tape.chance(110) {
            return None;
        }
        self.big -= 1;
        let around = *self.tape.pick(&[64usize, 256, 1024, 16384, 65536, 256, 128, 4096, 16384, 65536, 32768, 300]);
        let n = match self.tape.below(4) {
            0 => around + self.tape.below(around / 4),
            1 => around - 1 - self.tape.below(3),
            _ => around + self.tape.below(4),
        };
        // at most some 80000 nodes
        let n = n.min(80_000 / unit.max(1) as usize);
        self.node_budget = self.node_budget.saturating_add(n as u32 * unit);
        Some(n)
    }
    fn forced(&self, depth: u32) -> bool {
        depth > self.max_depth || self.nodes > self.node_budget
    }
}

impl<'t, 'd> Src for GenSrc<'t, 'd> {
    fn pos(&self) -> usize {
        self.base + self.out.len()
    }
    fn node(&mut self, _depth: u32) -> R<()> {
        self.nodes += 1;
        if self.nodes > 40 * self.node_budget + 200_000 {
            return Err(RefErr::Budget);
        }
        Ok(())
    }
    fn raw(&mut self, n: usize) -> R<Vec<u8>> {
        let b = match self.hash_pool {
            Some(h) if n == 32 && !self.tape.chance(16) => h.to_vec(),
            _ => self.tape.bytes(n),
        };
        self.put(MarkKind::Raw, &b);
        Ok(b)
    }
    fn uint(&mut self, bits: u32) -> R<u128> {
        let v = self.tape.uint(bits);
        self.put(MarkKind::Uint, &v.to_le_bytes()[..bits as usize / 8]);
        Ok(v)
    }
    fn sint(&mut self, bits: u32) -> R<i128> {
        let v = self.tape.uint(bits);
        self.put(MarkKind::Int, &v.to_le_bytes()[..bits as usize / 8]);
        Ok(sign_extend(v, bits))
    }
    fn boolean(&mut self) -> R<bool> {
        let v = self.tape.chance(128);
        self.put(MarkKind::Bool, &[v as u8]);
        Ok(v)
    }
    fn ch(&mut self) -> R<char> {
        let v = self.tape.ch();
        self.put(MarkKind::Char, &(v as u32).to_le_bytes());
        Ok(v)
    }
    fn text(&mut self) -> R<String> {
        let s = match self.big_len(1) {
            Some(_) if self.tape.chance(24) => {
                let n = (1 << 20) - 2 + self.tape.below(5) + (1 << 20) * self.tape.below(2);
                self.tape.long_text(n)
            }
            Some(n) => {
                let mut s = String::with_capacity(n + 3);
                let plain = self.tape.chance(128);
                while s.len() < n {
                    s.push(if plain { (b'a' + self.tape.u8() % 26) as char } else { self.tape.ch() });
                }
                s
            }
            None => self.tape.text(if self.nodes > self.node_budget { 2 } else { 90 }),
        };
        let mut b = compact_bytes(s.len() as u128);
        b.extend_from_slice(s.as_bytes());
        self.put(MarkKind::Text, &b);
        Ok(s)
    }
    fn compact(&mut self, bits: u32) -> R<u128> {
        let v = self.tape.uint(bits);
        self.put(MarkKind::Compact, &compact_bytes(v));
        Ok(v)
    }
    fn per(&mut self, kind: PerKind, compact: bool) -> R<u128> {
        let max = kind.max();
        let v = match self.tape.weighted(&[4, 1, 1, 6]) {
            0 => self.tape.u8() as u128 % (max + 1),
            1 => max,
            2 => max / 2,
            _ => self.tape.uint(kind.bits()) % (max + 1),
        };
        if compact {
            self.put(MarkKind::Compact, &compact_bytes(v));
        } else {
            self.put(MarkKind::Per, &v.to_le_bytes()[..kind.bits() as usize / 8]);
        }
        Ok(v)
    }
    fn seq_len(&mut self, elem_cost: Option<u32>, depth: u32) -> R<u32> {
        let cost = elem_cost.unwrap_or(1).max(1);
        let n = if self.forced(depth) || cost > self.node_budget {
            0
        } else if let Some(n) = self.big_len(cost) {
            n as u32
        } else {
            let room = (self.node_budget.saturating_sub(self.nodes) / cost).min(70);
            let cap = if depth > 8 { room.min(2) } else { room };
            self.tape.small_len(cap as usize) as u32
        };
        if n > 0 {
            self.nonempty_seqs += 1;
        }
        self.put(MarkKind::SeqLen, &compact_bytes(n as u128));
        Ok(n)
    }
    fn bits(&mut self, store_bytes: usize, msb: bool, _store: &'static str) -> R<Vec<bool>> {
        let width = store_bytes * 8;
        let n = match self.tape.weighted(&[2, 3, 3, 3, 1]) {
            0 => self.tape.below(9),
            1 => width * self.tape.range(0, 4),
            2 => (width * self.tape.range(1, 4) + self.tape.below(3)).saturating_sub(1),
            3 => self.tape.below(4 * width + 2),
            _ => self.tape.below(2000),
        };
        let n = match self.big_len(1) {
            Some(k) if self.tape.chance(200) => k * *self.tape.pick(&[1, 1, width, 8]) + n % width,
            Some(k) => k,
            None => n,
        };
        // payload style per store element: zero words, saturated words, random
        let mut bits = Vec::with_capacity(n);
        while bits.len() < n {
            let chunk = (width / 2).max(8).min(n - bits.len());
            match self.tape.weighted(&[2, 1, 3, 1]) {
                0 => bits.extend(std::iter::repeat(false).take(chunk)),
                1 => bits.extend(std::iter::repeat(true).take(chunk)),
                2 => {
                    let x = self.tape.u32();
                    bits.extend((0..chunk).map(|i| x >> (i % 32) & 1 == 1));
                }
                _ => {
                    let k = self.tape.below(chunk);
                    bits.extend((0..chunk).map(|i| i == k));
                }
            }
        }
        let mut b = compact_bytes(n as u128);
        b.extend(pack_bits(&bits, store_bytes, msb));
        self.put(MarkKind::BitSeq, &b);
        Ok(bits)
    }
    fn variant(&mut self, variants: &[Variant<PortableForm>], depth: u32) -> R<usize> {
        let c = |v: &Variant<PortableForm>, cost: &[u32]| {
            v.fields
                .iter()
                .fold(0u32, |a, f| a.saturating_add(cost.get(f.ty.id as usize).copied().unwrap_or(u32::MAX)))
        };
        if let Some(idx) = self.forced_variants.pop_front() {
            self.variants_seen += 1;
            self.put(MarkKind::VariantIdx, &[idx]);
            return variants.iter().position(|v| v.index == idx).ok_or(RefErr::Budget);
        }
        let mut k = self.tape.below(variants.len());
        if self.forced(depth) || c(&variants[k], &self.cost) > self.node_budget.saturating_mul(2) {
            k = (0..variants.len()).min_by_key(|i| c(&variants[*i], &self.cost)).unwrap();
        }
        if self.forced(depth) && c(&variants[k], &self.cost) == u32::MAX {
            return Err(RefErr::Budget);
        }
        self.variants_seen += 1;
        let idx = variants[k].index;
        self.put(MarkKind::VariantIdx, &[idx]);
        Ok(variants.iter().position(|v| v.index == idx).unwrap())
    }
    fn era(&mut self) -> R<Era> {
        if self.tape.chance(160) {
            let e = self.tape.range(1, 15);
            let period = 1u64 << (e + 1);
            let quantum = (period / 4096).max(1);
            let slots = period / quantum;
            let p = self.tape.u64() % slots;
            let enc = (e as u16) | ((p as u16) << 4);
            self.put(MarkKind::Era, &enc.to_le_bytes());
            Ok(Era::Mortal(period, p * quantum))
        } else {
            self.put(MarkKind::Era, &[0]);
            Ok(Era::Immortal)
        }
    }
}

pub fn sign_extend(v: u128, bits: u32) -> i128 {
    let sh = 128 - bits;
    ((v << sh) as i128) >> sh
}

/// Minimal number of nodes needed to instantiate each type.
pub fn type_costs(reg: &PortableRegistry) -> Vec<u32> {
    let n = reg.types.len();
    let mut cost = vec![u32::MAX; n];
    loop {
        let mut changed = false;
        for i in 0..n {
            let ty = &reg.types[i].ty;
            let get = |id: u32| cost.get(id as usize).copied().unwrap_or(u32::MAX);
            let sum = |ids: &mut dyn Iterator<Item = u32>| ids.fold(1u32, |a, id| a.saturating_add(get(id)));
            let c = match special(ty) {
                Sp::None | Sp::MultiSig | Sp::Call | Sp::Event | Sp::Unchecked => match &ty.type_def {
                    TypeDef::Composite(c) => sum(&mut c.fields.iter().map(|f| f.ty.id)),
                    TypeDef::Variant(v) => v
                        .variants
                        .iter()
                        .map(|v| sum(&mut v.fields.iter().map(|f| f.ty.id)))
                        .min()
                        .unwrap_or(1),
                    TypeDef::Sequence(_) => 1,
                    TypeDef::Array(a) => get(a.type_param.id).saturating_mul(a.len).saturating_add(1),
                    TypeDef::Tuple(t) => sum(&mut t.fields.iter().map(|f| f.id)),
                    TypeDef::Primitive(_) | TypeDef::BitSequence(_) => 1,
                    TypeDef::Compact(c) => get(c.type_param.id).saturating_add(1),
                },
                _ => 1,
            };
            if c < cost[i] {
                cost[i] = c;
                changed = true;
            }
        }
        if !changed {
            return cost;
        }
    }
}

// ------------------------------------------------------------------ DecSrc

pub struct DecSrc<'d> {
    pub data: &'d [u8],
    pub pos: usize,
    pub nodes: u32,
    pub node_budget: u32,
    pub max_depth: u32,
}

impl<'d> DecSrc<'d> {
    pub fn new(data: &'d [u8], pos: usize) -> Self {
        DecSrc { data, pos, nodes: 0, node_budget: 60_000.max(2 * data.len() as u32), max_depth: 3000 }
    }
    fn take(&mut self, n: usize) -> R<&'d [u8]> {
        match self.data.get(self.pos..self.pos.saturating_add(n)) {
            Some(s) => {
                self.pos += n;
                Ok(s)
            }
            None => Err(RefErr::Short { pos: self.pos, need: n }),
        }
    }
}

fn le(b: &[u8]) -> u128 {
    b.iter().enumerate().fold(0, |a, (i, x)| a | (*x as u128) << (8 * i))
}

impl<'d> Src for DecSrc<'d> {
    fn pos(&self) -> usize {
        self.pos
    }
    fn node(&mut self, depth: u32) -> R<()> {
        self.nodes += 1;
        if self.nodes > self.node_budget || depth > self.max_depth {
            return Err(RefErr::Budget);
        }
        Ok(())
    }
    fn raw(&mut self, n: usize) -> R<Vec<u8>> {
        Ok(self.take(n)?.to_vec())
    }
    fn uint(&mut self, bits: u32) -> R<u128> {
        Ok(le(self.take(bits as usize / 8)?))
    }
    fn sint(&mut self, bits: u32) -> R<i128> {
        Ok(sign_extend(le(self.take(bits as usize / 8)?), bits))
    }
    fn boolean(&mut self) -> R<bool> {
        let pos = self.pos;
        match self.take(1)?[0] {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(RefErr::Type { pos, ty: "bool" }),
        }
    }
    fn ch(&mut self) -> R<char> {
        let pos = self.pos;
        let v = le(self.take(4)?) as u32;
        char::from_u32(v).ok_or(RefErr::Type { pos, ty: "char" })
    }
    fn text(&mut self) -> R<String> {
        let pos = self.pos;
        let n = self.compact(32)? as usize;
        let b = self.take(n)?;
        match std::str::from_utf8(b) {
            Ok(s) => Ok(s.to_string()),
            Err(_) => Err(RefErr::Type { pos, ty: "str" }),
        }
    }
    fn compact(&mut self, bits: u32) -> R<u128> {
        let tail = self.data.get(self.pos..).unwrap_or(&[]);
        match compact_parse(tail, bits) {
            Some((v, n)) => {
                self.pos += n;
                Ok(v)
            }
            None => Err(RefErr::NoCompact { pos: self.pos }),
        }
    }
    fn per(&mut self, kind: PerKind, compact: bool) -> R<u128> {
        let pos = self.pos;
        if compact {
            Ok(self.compact(kind.bits())?.min(kind.max()))
        } else {
            let v = le(self.take(kind.bits() as usize / 8)?);
            if v > kind.max() {
                Err(RefErr::Type { pos, ty: kind.name() })
            } else {
                Ok(v)
            }
        }
    }
    fn seq_len(&mut self, _elem_cost: Option<u32>, _depth: u32) -> R<u32> {
        Ok(self.compact(32)? as u32)
    }
    fn bits(&mut self, store_bytes: usize, msb: bool, store: &'static str) -> R<Vec<bool>> {
        let pos = self.pos;
        let n = self.compact(32)? as usize;
        let bytes = n.div_ceil(8).div_ceil(store_bytes) * store_bytes;
        let head = self.pos - pos;
        match self.data.get(self.pos..self.pos + bytes) {
            Some(b) => {
                self.pos += bytes;
                let _ = store;
                Ok(unpack_bits(b, n, store_bytes, msb))
            }
            None => Err(RefErr::Short { pos, need: head + bytes }),
        }
    }
    fn variant(&mut self, variants: &[Variant<PortableForm>], _depth: u32) -> R<usize> {
        let pos = self.pos;
        let idx = self.take(1)?[0];
        variants
            .iter()
            .position(|v| v.index == idx)
            .ok_or(RefErr::Variant { pos })
    }
    fn era(&mut self) -> R<Era> {
        let (e, n) = era_parse(self.data.get(self.pos..).unwrap_or(&[]), self.pos)?;
        self.pos += n;
        Ok(e)
    }
}

// ------------------------------------------------------------------ Walker

#[derive(Clone, Debug)]
pub struct Prop {
    pub compact: Option<u32>,
    pub hint: Hi,
    pub path: Vec<u32>,
}

impl Prop {
    pub fn fresh() -> Self {
        Prop { compact: None, hint: Hi::None, path: Vec::new() }
    }
    pub fn with_hint(hint: Hi) -> Self {
        Prop { compact: None, hint, path: Vec::new() }
    }
    fn enter(&mut self, id: u32) -> R<()> {
        if self.path.contains(&id) {
            return Err(RefErr::Cyclic);
        }
        self.path.push(id);
        Ok(())
    }
    fn no_compact(&self) -> R<()> {
        if self.compact.is_some() {
            Err(RefErr::CompactInside)
        } else {
            Ok(())
        }
    }
    fn forget(&mut self) {
        if self.hint != Hi::TipAsset {
            self.hint = Hi::None;
        }
    }
}

pub struct Walker<'r, S: Src> {
    pub reg: &'r PortableRegistry,
    pub src: S,
    pub depth: u32,
    pub max_depth_seen: u32,
}

pub struct Husk {
    pub info: Vec<Info>,
    pub id: u32,
    pub prop: Prop,
}

pub fn info_of(ty: &PTy) -> Info {
    let mut docs = String::new();
    for (i, d) in ty.docs.iter().enumerate() {
        if i > 0 {
            docs.push('\n');
        }
        docs.push_str(d);
    }
    Info { docs, path: ty.path.clone() }
}

fn join_docs(d: &[String]) -> String {
    let mut docs = String::new();
    for (i, d) in d.iter().enumerate() {
        if i > 0 {
            docs.push('\n');
        }
        docs.push_str(d);
    }
    docs
}

fn nonempty_info(ty: &PTy) -> Option<Info> {
    let i = info_of(ty);
    if i.docs.is_empty() && i.path.segments.is_empty() {
        None
    } else {
        Some(i)
    }
}

impl<'r, S: Src> Walker<'r, S> {
    pub fn new(reg: &'r PortableRegistry, src: S) -> Self {
        Walker { reg, src, depth: 0, max_depth_seen: 0 }
    }

    pub fn resolve(&self, id: u32) -> R<&'r PTy> {
        self.reg
            .types
            .get(id as usize)
            .map(|t| &t.ty)
            .ok_or(RefErr::NotResolved)
    }

    pub fn root(&mut self, id: u32) -> R<ExtendedData> {
        self.ty(id, Prop::fresh(), Vec::new())
    }

    pub fn root_hinted(&mut self, id: u32, hint: Hi) -> R<ExtendedData> {
        self.ty(id, Prop::with_hint(hint), Vec::new())
    }

    pub fn ty(&mut self, id: u32, p: Prop, info: Vec<Info>) -> R<ExtendedData> {
        self.depth += 1;
        self.max_depth_seen = self.max_depth_seen.max(self.depth);
        self.src.node(self.depth)?;
        let r = self.ty_inner(id, p, info);
        self.depth -= 1;
        r
    }

    fn ty_inner(&mut self, id: u32, mut p: Prop, mut info: Vec<Info>) -> R<ExtendedData> {
        let ty = self.resolve(id)?;
        info.extend(nonempty_info(ty));
        let data = match special(ty) {
            Sp::None | Sp::Unchecked => return self.plain(id, ty, p, info),
            Sp::MultiSig => return self.multi_signature(id, ty, p, info),
            Sp::Call => return self.pallet_item(id, ty, p, info, true),
            Sp::Event => return self.pallet_item(id, ty, p, info, false),
            Sp::Per(kind) => {
                let v = self.src.per(kind, p.compact.take().is_some())?;
                match kind {
                    PerKind::U16 => ParsedData::PerU16(PerU16::from_parts(v as u16)),
                    PerKind::Percent => ParsedData::Percent(Percent::from_parts(v as u8)),
                    PerKind::Permill => ParsedData::Permill(Permill::from_parts(v as u32)),
                    PerKind::Perbill => ParsedData::Perbill(Perbill::from_parts(v as u32)),
                    PerKind::Perquintill => ParsedData::Perquintill(Perquintill::from_parts(v as u64)),
                }
            }
            other => {
                p.no_compact()?;
                match other {
                    Sp::Id => ParsedData::Id(AccountId32(arr(self.src.raw(32)?))),
                    Sp::Era => ParsedData::Era(self.src.era()?),
                    Sp::H160 => ParsedData::H160(H160(arr(self.src.raw(20)?))),
                    Sp::H256 => {
                        let h = H256(arr(self.src.raw(32)?));
                        match p.hint {
                            Hi::Genesis => ParsedData::GenesisHash(h),
                            Hi::Mortality => ParsedData::BlockHash(h),
                            _ => ParsedData::H256(h),
                        }
                    }
                    Sp::H512 => ParsedData::H512(H512(arr(self.src.raw(64)?))),
                    Sp::Pub(KeyKind::Ed) => ParsedData::PublicEd25519(ed25519::Public(arr(self.src.raw(32)?))),
                    Sp::Pub(KeyKind::Sr) => ParsedData::PublicSr25519(sr25519::Public(arr(self.src.raw(32)?))),
                    Sp::Pub(KeyKind::Ec) => ParsedData::PublicEcdsa(ecdsa::Public(arr(self.src.raw(33)?))),
                    Sp::Sig(k) => self.signature(k)?,
                    _ => unreachable!(),
                }
            }
        };
        Ok(ExtendedData { data, info })
    }

    fn signature(&mut self, k: KeyKind) -> R<ParsedData> {
        Ok(match k {
            KeyKind::Ed => ParsedData::SignatureEd25519(ed25519::Signature(arr(self.src.raw(64)?))),
            KeyKind::Sr => ParsedData::SignatureSr25519(sr25519::Signature(arr(self.src.raw(64)?))),
            KeyKind::Ec => ParsedData::SignatureEcdsa(ecdsa::Signature(arr(self.src.raw(65)?))),
        })
    }

    fn multi_signature(&mut self, id: u32, ty: &'r PTy, p: Prop, info: Vec<Info>) -> R<ExtendedData> {
        let TypeDef::Variant(x) = &ty.type_def else {
            return self.plain(id, ty, p, info);
        };
        if x.variants.is_empty() {
            return self.plain(id, ty, p, info);
        }
        p.no_compact()?;
        let k = self.src.variant(&x.variants, self.depth)?;
        let v = &x.variants[k];
        if v.fields.len() == 1 {
            let f = &v.fields[0];
            let kind = match f.type_name.as_deref() {
                Some("ecdsa::Signature") => Some((KeyKind::Ec, 65)),
                Some("ed25519::Signature") => Some((KeyKind::Ed, 64)),
                Some("sr25519::Signature") => Some((KeyKind::Sr, 64)),
                _ => None,
            };
            if let Some((kind, len)) = kind {
                if let Ok(h) = self.husk(f.ty.id, Vec::new()) {
                    if let TypeDef::Array(a) = &self.resolve(h.id)?.type_def {
                        if a.len == len {
                            if let Ok(e) = self.resolve(a.type_param.id) {
                                if e.type_def == TypeDef::Primitive(TypeDefPrimitive::U8) {
                                    return Ok(ExtendedData { data: self.signature(kind)?, info });
                                }
                            }
                        }
                    }
                }
            }
        }
        let data = self.chosen_variant(v)?;
        Ok(ExtendedData { data: ParsedData::Variant(data), info })
    }

    fn pallet_item(&mut self, id: u32, ty: &'r PTy, p: Prop, info: Vec<Info>, call: bool) -> R<ExtendedData> {
        let TypeDef::Variant(x) = &ty.type_def else {
            return self.plain(id, ty, p, info);
        };
        if x.variants.is_empty() {
            return self.plain(id, ty, p, info);
        }
        p.no_compact()?;
        let k = self.src.variant(&x.variants, self.depth)?;
        let pallet = &x.variants[k];
        if pallet.fields.len() == 1 {
            if let Ok(inner) = self.resolve(pallet.fields[0].ty.id) {
                let same = special(inner) == if call { Sp::Call } else { Sp::Event };
                if let (true, TypeDef::Variant(items)) = (same, &inner.type_def) {
                    if items.variants.is_empty() {
                        // nothing can be selected
                        return Err(RefErr::Variant { pos: self.src.pos() });
                    }
                    let k = self.src.variant(&items.variants, self.depth)?;
                    let item = &items.variants[k];
                    let d = self.chosen_variant(item)?;
                    let out = PalletSpecificData {
                        pallet_info: info_of(inner),
                        variant_docs: d.variant_docs,
                        pallet_name: pallet.name.clone(),
                        variant_name: d.variant_name,
                        fields: d.fields,
                    };
                    return Ok(ExtendedData {
                        data: if call { ParsedData::Call(Call(out)) } else { ParsedData::Event(Event(out)) },
                        info,
                    });
                }
            }
        }
        let data = self.chosen_variant(pallet)?;
        Ok(ExtendedData { data: ParsedData::Variant(data), info })
    }

    fn chosen_variant(&mut self, v: &'r Variant<PortableForm>) -> R<VariantData> {
        Ok(VariantData {
            variant_name: v.name.clone(),
            variant_docs: join_docs(&v.docs),
            fields: self.fields(&v.fields, Prop::fresh())?,
        })
    }

    fn fields(&mut self, fields: &'r [scale_info::Field<PortableForm>], mut p: Prop) -> R<Vec<FieldData>> {
        if fields.len() > 1 {
            p.no_compact()?;
            p.forget();
        }
        let mut out = Vec::new();
        for f in fields {
            let mut fp = p.clone();
            if fp.hint == Hi::None {
                fp.hint = Hi::of_field(f.name.as_deref(), f.type_name.as_deref());
            }
            fp.enter(f.ty.id)?;
            let data = self.ty(f.ty.id, fp, Vec::new())?;
            out.push(FieldData {
                field_name: f.name.clone(),
                type_name: f.type_name.clone(),
                field_docs: join_docs(&f.docs),
                data,
            });
        }
        Ok(out)
    }

    fn plain(&mut self, id: u32, ty: &'r PTy, mut p: Prop, mut info: Vec<Info>) -> R<ExtendedData> {
        let data = match &ty.type_def {
            TypeDef::Composite(c) => ParsedData::Composite(self.fields(&c.fields, p)?),
            TypeDef::Variant(v) => {
                p.no_compact()?;
                if v.variants.is_empty() {
                    ParsedData::EmptyEnum
                } else {
                    let k = self.src.variant(&v.variants, self.depth)?;
                    ParsedData::Variant(self.chosen_variant(&v.variants[k])?)
                }
            }
            TypeDef::Sequence(s) => {
                let n = self.src.seq_len(elem_cost(self.reg, s.type_param.id), self.depth)?;
                p.path.clear();
                self.elements(s.type_param.id, n, p)?
            }
            TypeDef::Array(a) => self.elements(a.type_param.id, a.len, p)?,
            TypeDef::Tuple(t) => {
                if t.fields.len() > 1 {
                    p.no_compact()?;
                    p.forget();
                }
                let mut out = Vec::new();
                for f in &t.fields {
                    let el = self.resolve(f.id)?;
                    let mut ep = p.clone();
                    ep.enter(f.id)?;
                    if ep.hint == Hi::None {
                        ep.hint = Hi::of_tuple_element(el);
                    }
                    out.push(self.ty(f.id, ep, Vec::new())?);
                }
                ParsedData::Tuple(out)
            }
            TypeDef::Primitive(x) => self.primitive(x, &p)?,
            TypeDef::Compact(c) => {
                p.no_compact()?;
                p.compact = Some(id);
                p.enter(c.type_param.id)?;
                let inner = self.ty(c.type_param.id, p, std::mem::take(&mut info))?;
                return Ok(inner);
            }
            TypeDef::BitSequence(b) => {
                p.no_compact()?;
                let order = self.resolve(b.bit_order_type.id)?;
                let msb = match (&order.type_def, order.path.segments.last().map(|s| s.as_str())) {
                    (TypeDef::Composite(_), Some("Lsb0")) => false,
                    (TypeDef::Composite(_), Some("Msb0")) => true,
                    _ => return Err(RefErr::NotOrder),
                };
                let store = self.resolve(b.bit_store_type.id)?;
                let (bytes, _) = match &store.type_def {
                    TypeDef::Primitive(TypeDefPrimitive::U8) => (1, ""),
                    TypeDef::Primitive(TypeDefPrimitive::U16) => (2, ""),
                    TypeDef::Primitive(TypeDefPrimitive::U32) => (4, ""),
                    TypeDef::Primitive(TypeDefPrimitive::U64) => (8, ""),
                    _ => return Err(RefErr::NotStore),
                };
                let bits = self.src.bits(bytes, msb, "")?;
                bit_data(&bits, bytes, msb)
            }
        };
        Ok(ExtendedData { data, info })
    }

    fn primitive(&mut self, x: &TypeDefPrimitive, p: &Prop) -> R<ParsedData> {
        let specialty = p.hint.uint();
        let ubits = match x {
            TypeDefPrimitive::U8 => 8,
            TypeDefPrimitive::U16 => 16,
            TypeDefPrimitive::U32 => 32,
            TypeDefPrimitive::U64 => 64,
            TypeDefPrimitive::U128 => 128,
            _ => 0,
        };
        if ubits > 0 {
            let v = if p.compact.is_some() { self.src.compact(ubits)? } else { self.src.uint(ubits)? };
            return Ok(match ubits {
                8 => ParsedData::PrimitiveU8 { value: v as u8, specialty },
                16 => ParsedData::PrimitiveU16 { value: v as u16, specialty },
                32 => ParsedData::PrimitiveU32 { value: v as u32, specialty },
                64 => ParsedData::PrimitiveU64 { value: v as u64, specialty },
                _ => ParsedData::PrimitiveU128 { value: v, specialty },
            });
        }
        p.no_compact()?;
        Ok(match x {
            TypeDefPrimitive::Bool => ParsedData::PrimitiveBool(self.src.boolean()?),
            TypeDefPrimitive::Char => ParsedData::PrimitiveChar(self.src.ch()?),
            TypeDefPrimitive::Str => ParsedData::Text {
                text: self.src.text()?,
                specialty: if p.hint == Hi::SpecName { SpecialtyStr::SpecName } else { SpecialtyStr::None },
            },
            TypeDefPrimitive::I8 => ParsedData::PrimitiveI8(self.src.sint(8)? as i8),
            TypeDefPrimitive::I16 => ParsedData::PrimitiveI16(self.src.sint(16)? as i16),
            TypeDefPrimitive::I32 => ParsedData::PrimitiveI32(self.src.sint(32)? as i32),
            TypeDefPrimitive::I64 => ParsedData::PrimitiveI64(self.src.sint(64)? as i64),
            TypeDefPrimitive::I128 => ParsedData::PrimitiveI128(self.src.sint(128)?),
            TypeDefPrimitive::U256 => {
                let b = self.src.raw(32)?;
                let mut v = BigUint::from(0u8);
                for x in b.iter().rev() {
                    v = v * 256u32 + *x as u32;
                }
                ParsedData::PrimitiveU256(v)
            }
            TypeDefPrimitive::I256 => {
                let b = self.src.raw(32)?;
                let mut v = BigInt::from(0u8);
                for x in b.iter().rev() {
                    v = v * 256 + *x as u32;
                }
                if b[31] & 0x80 != 0 {
                    v -= BigInt::from(1u8) << 256;
                }
                ParsedData::PrimitiveI256(v)
            }
            _ => unreachable!(),
        })
    }

    /// Element type with transparent layers (compact, single-field structs)
    /// removed.
    pub fn husk(&self, entry: u32, path: Vec<u32>) -> R<Husk> {
        let mut prop = Prop { compact: None, hint: Hi::None, path };
        let mut id = entry;
        let mut info = Vec::new();
        loop {
            prop.enter(id)?;
            let ty = self.resolve(id)?;
            info.extend(nonempty_info(ty));
            if special(ty) != Sp::None {
                break;
            }
            match &ty.type_def {
                TypeDef::Composite(c) if c.fields.len() == 1 => {
                    let f = &c.fields[0];
                    if prop.hint == Hi::None {
                        prop.hint = Hi::of_field(f.name.as_deref(), f.type_name.as_deref());
                    }
                    id = f.ty.id;
                }
                TypeDef::Compact(c) => {
                    prop.no_compact()?;
                    prop.compact = Some(id);
                    id = c.type_param.id;
                }
                _ => break,
            }
        }
        Ok(Husk { info, id, prop })
    }

    fn elements(&mut self, element: u32, n: u32, p: Prop) -> R<ParsedData> {
        p.no_compact()?;
        let husk = self.husk(element, p.path)?;
        let mut out = Vec::new();
        for _ in 0..n {
            out.push(self.ty(husk.id, husk.prop.clone(), Vec::new())?.data);
        }
        Ok(wrap(out, husk.info))
    }
}

fn elem_cost(reg: &PortableRegistry, id: u32) -> Option<u32> {
    // cheap structural estimate, depth-limited
    fn go(reg: &PortableRegistry, id: u32, d: u32) -> u32 {
        let Some(t) = reg.types.get(id as usize) else { return 1 };
        if d == 0 {
            return 1;
        }
        match &t.ty.type_def {
            TypeDef::Array(a) => a.len.saturating_mul(go(reg, a.type_param.id, d - 1)).saturating_add(1),
            TypeDef::Composite(c) => c.fields.iter().fold(1u32, |s, f| s.saturating_add(go(reg, f.ty.id, d - 1))),
            TypeDef::Tuple(c) => c.fields.iter().fold(1u32, |s, f| s.saturating_add(go(reg, f.id, d - 1))),
            TypeDef::Compact(c) => go(reg, c.type_param.id, d - 1),
            _ => 1,
        }
    }
    Some(go(reg, id, 4))
}

fn wrap(set: Vec<ParsedData>, element_info: Vec<Info>) -> ParsedData {
    macro_rules! plain_ints {
        ($v:ident, $s:ident) => {{
            let mut ints = Vec::new();
            for x in &set {
                match x {
                    ParsedData::$v { value, specialty } if *specialty == SpecialtyUnsignedInteger::None => ints.push(*value),
                    _ => return ParsedData::SequenceRaw(SequenceRawData { element_info, data: set }),
                }
            }
            ParsedData::Sequence(SequenceData { element_info, data: Sequence::$s(ints) })
        }};
    }
    match set.first() {
        Some(ParsedData::PrimitiveU8 { .. }) => plain_ints!(PrimitiveU8, U8),
        Some(ParsedData::PrimitiveU16 { .. }) => plain_ints!(PrimitiveU16, U16),
        Some(ParsedData::PrimitiveU32 { .. }) => plain_ints!(PrimitiveU32, U32),
        Some(ParsedData::PrimitiveU64 { .. }) => plain_ints!(PrimitiveU64, U64),
        Some(ParsedData::PrimitiveU128 { .. }) => plain_ints!(PrimitiveU128, U128),
        Some(ParsedData::Sequence(SequenceData { data: Sequence::U8(_), element_info: first_info })) => {
            let inner = first_info.clone();
            let mut rows = Vec::new();
            for x in &set {
                match x {
                    ParsedData::Sequence(SequenceData { data: Sequence::U8(v), element_info: i }) if *i == inner => rows.push(v.clone()),
                    ParsedData::SequenceRaw(r) if r.data.is_empty() => rows.push(Vec::new()),
                    _ => return ParsedData::SequenceRaw(SequenceRawData { element_info, data: set }),
                }
            }
            ParsedData::Sequence(SequenceData {
                element_info,
                data: Sequence::VecU8 { sequence: rows, inner_element_info: inner },
            })
        }
        _ => ParsedData::SequenceRaw(SequenceRawData { element_info, data: set }),
    }
}

fn bit_data(bits: &[bool], bytes: usize, msb: bool) -> ParsedData {
    macro_rules! mk {
        ($t:ty, $o:ty, $v:ident) => {{
            let mut b: BitVec<$t, $o> = BitVec::new();
            for x in bits {
                b.push(*x);
            }
            ParsedData::$v(b)
        }};
    }
    #[cfg(target_pointer_width = "64")]
    type Wide = u64;
    #[cfg(target_pointer_width = "32")]
    type Wide = u32;
    match (bytes, msb) {
        (1, false) => mk!(u8, Lsb0, BitVecU8Lsb0),
        (2, false) => mk!(u16, Lsb0, BitVecU16Lsb0),
        (4, false) => mk!(u32, Lsb0, BitVecU32Lsb0),
        (8, false) => mk!(Wide, Lsb0, BitVecU64Lsb0),
        (1, true) => mk!(u8, Msb0, BitVecU8Msb0),
        (2, true) => mk!(u16, Msb0, BitVecU16Msb0),
        (4, true) => mk!(u32, Msb0, BitVecU32Msb0),
        (8, true) => mk!(Wide, Msb0, BitVecU64Msb0),
        _ => unreachable!(),
    }
}

fn arr<const N: usize>(v: Vec<u8>) -> [u8; N] {
    v.try_into().unwrap()
}

/// Reference decoding of `data` from `pos` as type `id`.
pub fn ref_decode(reg: &PortableRegistry, id: u32, data: &[u8], pos: usize, hint: Hi) -> (R<ExtendedData>, usize) {
    let mut w = Walker::new(reg, DecSrc::new(data, pos));
    let r = w.root_hinted(id, hint);
    (r, w.src.pos)
}
