//! Reference for the printable cards: what is listed, where, and the text.

use num_bigint::{BigInt, BigUint};
use sp_arithmetic::PerThing;
use substrate_crypto_light::common::AccountId32;
use substrate_crypto_light::{ecdsa, ed25519, sr25519};
use substrate_parser::additional_types::Era;
use substrate_parser::cards::*;
use substrate_parser::printing_balance::Currency;
use substrate_parser::special_indicators::{SpecialtyStr, SpecialtyUnsignedInteger as SU};
use substrate_parser::ShortSpecs;

pub use crate::job::{call_pictures, pictures, MANY_PICTURES};
use crate::props::c24;
use crate::store::blake2b;
use crate::tape::Tape;

/// What a card stands for.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RVal {
    Nothing,
    Count(usize),
    Text(String),
    Int(BigInt),
    Bytes(Vec<u8>),
    U8s { hex: String, text: Option<String> },
    Bits(Vec<bool>),
    Era(Era),
    Money(Currency),
    Account(String),
    Bool(bool),
    Char(char),
    Chain(String, String),
}

#[derive(Clone, Debug)]
pub struct RCard {
    pub indent: u32,
    pub kind: &'static str,
    pub val: RVal,
    pub info: Vec<InfoFlat>,
    pub elem: Vec<InfoFlat>,
    /// Bytes of an account, known to the reference only.
    pub body: Vec<u8>,
}

impl PartialEq for RCard {
    fn eq(&self, o: &RCard) -> bool {
        self.indent == o.indent && self.kind == o.kind && self.val == o.val && self.info == o.info && self.elem == o.elem
    }
}

pub fn flat(i: &Info) -> InfoFlat {
    let docs = if i.docs.is_empty() { None } else { Some(i.docs.clone()) };
    let mut p = String::new();
    for (i, s) in i.path.segments.iter().enumerate() {
        if i > 0 {
            p += " >> ";
        }
        p += s;
    }
    InfoFlat { docs, path_flat: if i.path.segments.is_empty() { None } else { Some(p) } }
}

fn flats(i: &[Info]) -> Vec<InfoFlat> {
    i.iter().map(flat).collect()
}

fn docs_only(d: &str) -> Vec<InfoFlat> {
    if d.is_empty() {
        vec![]
    } else {
        vec![InfoFlat { docs: Some(d.into()), path_flat: None }]
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().flat_map(|x| [b"0123456789abcdef"[(x >> 4) as usize] as char, b"0123456789abcdef"[(x & 15) as usize] as char]).collect()
}

const B58: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

/// Bytes of an ss58 address: prefix, body, checksum.
pub fn ss58_bytes(body: &[u8], prefix: u16) -> Vec<u8> {
    let p = prefix & 0x3fff;
    let mut v = if p < 64 { vec![p as u8] } else { vec![0x40 | ((p >> 2) & 0x3f) as u8, (p >> 8) as u8 | ((p & 3) << 6) as u8] };
    v.extend_from_slice(body);
    let h = blake2b(&[b"SS58PRE", &v[..]].concat(), 64);
    v.extend_from_slice(&h[..2]);
    v
}

pub fn base58(b: &[u8]) -> String {
    let mut n = BigUint::from_bytes_be(b);
    let mut out = vec![];
    let zero = BigUint::default();
    while n != zero {
        let d: BigUint = &n % 58u8;
        n /= 58u8;
        out.push(B58[d.iter_u32_digits().next().unwrap_or(0) as usize]);
    }
    out.extend(b.iter().take_while(|x| **x == 0).map(|_| b'1'));
    out.reverse();
    String::from_utf8(out).unwrap()
}

pub fn base58_decode(s: &str) -> Option<Vec<u8>> {
    let mut n = BigUint::default();
    for c in s.bytes() {
        n = n * 58u8 + BigUint::from(B58.iter().position(|x| *x == c)?);
    }
    let zeros = s.bytes().take_while(|c| *c == b'1').count();
    let mut v = vec![0u8; zeros];
    if n != BigUint::default() {
        v.extend(n.to_bytes_be());
    }
    Some(v)
}

fn account(body: &[u8], specs: &ShortSpecs) -> RVal {
    RVal::Account(base58(&ss58_bytes(body, specs.base58prefix)))
}

pub struct Carder<'s> {
    pub specs: &'s ShortSpecs,
    pub name: &'s str,
    pub out: Vec<RCard>,
}

fn int(x: impl Into<BigInt>) -> RVal {
    RVal::Int(x.into())
}

impl Carder<'_> {
    fn push(&mut self, indent: u32, kind: &'static str, val: RVal, info: Vec<InfoFlat>) {
        self.out.push(RCard { indent, kind, val, info, elem: vec![], body: vec![] });
    }

    pub fn extended(&mut self, d: &ExtendedData, indent: u32, money: bool) {
        self.data(&d.data, flats(&d.info), indent, money)
    }

    pub fn item(&mut self, d: &PalletSpecificData, indent: u32, event: bool) {
        self.push(indent, "Pallet", RVal::Text(d.pallet_name.clone()), vec![flat(&d.pallet_info)]);
        self.push(indent + 1, if event { "Event" } else { "Call" }, RVal::Text(d.variant_name.clone()), docs_only(&d.variant_docs));
        self.fields(&d.fields, indent + 2, d.pallet_name == "Balances" || d.pallet_name == "Staking", vec![]);
    }

    /// Fields; the single unnamed one stands for its container.
    fn fields(&mut self, f: &[FieldData], indent: u32, money: bool, info: Vec<InfoFlat>) {
        if let [one] = f {
            if one.field_name.is_none() {
                let all = [info, docs_only(&one.field_docs), flats(&one.data.info)].concat();
                return self.data(&one.data.data, all, indent, money);
            }
        }
        for (i, x) in f.iter().enumerate() {
            match &x.field_name {
                Some(n) => self.push(indent, "Field Name", RVal::Text(n.clone()), docs_only(&x.field_docs)),
                None => self.push(indent, "Field Number", RVal::Count(i + 1), docs_only(&x.field_docs)),
            }
            self.extended(&x.data, indent + 1, money);
        }
    }

    fn unsigned(&mut self, v: u128, kind: &'static str, s: SU, info: Vec<InfoFlat>, indent: u32, money: bool) {
        let cur = || RVal::Money(c24::reference(v, self.specs.decimals, &self.specs.unit));
        let plain = RVal::Text(v.to_string());
        let (kind, val) = match s {
            SU::None => (kind, int(v)),
            SU::Balance if money => ("Balance", cur()),
            SU::Balance => ("Balance Raw", plain),
            SU::Tip => ("Tip", cur()),
            SU::TipAsset => ("Tip Asset", plain),
            SU::Nonce => ("Nonce", plain),
            SU::SpecVersion => ("Chain", RVal::Chain(self.name.to_string(), v.to_string())),
            SU::TxVersion => ("Tx Version", plain),
        };
        self.push(indent, kind, val, info)
    }

    fn u8s(&mut self, b: &[u8], info: Vec<InfoFlat>, elem: Vec<InfoFlat>, indent: u32) {
        let val = RVal::U8s { hex: hex(b), text: std::str::from_utf8(b).ok().map(|s| s.to_string()) };
        self.out.push(RCard { indent, kind: "Sequence u8", val, info, elem, body: vec![] });
    }

    fn data(&mut self, d: &ParsedData, info: Vec<InfoFlat>, indent: u32, money: bool) {
        use ParsedData as D;
        macro_rules! bits {
            ($v:expr) => {
                RVal::Bits($v.iter().map(|b| *b).collect())
            };
        }
        let (kind, val) = match d {
            D::BitVecU8Lsb0(v) => ("BitVec<u8, Lsb0>", bits!(v)),
            D::BitVecU16Lsb0(v) => ("BitVec<u16, Lsb0>", bits!(v)),
            D::BitVecU32Lsb0(v) => ("BitVec<u32, Lsb0>", bits!(v)),
            D::BitVecU64Lsb0(v) => ("BitVec<u64, Lsb0>", bits!(v)),
            D::BitVecU8Msb0(v) => ("BitVec<u8, Msb0>", bits!(v)),
            D::BitVecU16Msb0(v) => ("BitVec<u16, Msb0>", bits!(v)),
            D::BitVecU32Msb0(v) => ("BitVec<u32, Msb0>", bits!(v)),
            D::BitVecU64Msb0(v) => ("BitVec<u64, Msb0>", bits!(v)),
            D::BlockHash(h) => ("Block Hash", RVal::Bytes(h.0.to_vec())),
            D::GenesisHash(h) => ("Genesis Hash", RVal::Bytes(h.0.to_vec())),
            D::H160(h) => ("H160", RVal::Bytes(h.0.to_vec())),
            D::H256(h) => ("H256", RVal::Bytes(h.0.to_vec())),
            D::H512(h) => ("H512", RVal::Bytes(h.0.to_vec())),
            D::Id(a) => ("Id", account(&a.0, self.specs)),
            D::PublicEd25519(a) => ("PublicKey Ed25519", account(&a.0, self.specs)),
            D::PublicSr25519(a) => ("PublicKey Sr25519", account(&a.0, self.specs)),
            D::PublicEcdsa(a) => ("PublicKey Ecdsa", account(&a.0, self.specs)),
            D::SignatureEd25519(a) => ("Signature Ed25519", RVal::Bytes(a.0.to_vec())),
            D::SignatureSr25519(a) => ("Signature Sr25519", RVal::Bytes(a.0.to_vec())),
            D::SignatureEcdsa(a) => ("Signature Ecdsa", RVal::Bytes(a.0.to_vec())),
            D::EmptyEnum => ("Enum With No Variants", RVal::Nothing),
            D::Era(e) => ("Era", RVal::Era(*e)),
            D::PerU16(p) => ("PerU16", int(p.deconstruct())),
            D::Percent(p) => ("Percent", int(p.deconstruct())),
            D::Permill(p) => ("Permill", int(p.deconstruct())),
            D::Perbill(p) => ("Perbill", int(p.deconstruct())),
            D::Perquintill(p) => ("Perquintill", int(p.deconstruct())),
            D::PrimitiveBool(b) => ("Bool", RVal::Bool(*b)),
            D::PrimitiveChar(c) => ("Char", RVal::Char(*c)),
            D::PrimitiveI8(x) => ("i8", int(*x)),
            D::PrimitiveI16(x) => ("i16", int(*x)),
            D::PrimitiveI32(x) => ("i32", int(*x)),
            D::PrimitiveI64(x) => ("i64", int(*x)),
            D::PrimitiveI128(x) => ("i128", int(*x)),
            D::PrimitiveI256(x) => ("BigInt", int(x.clone())),
            D::PrimitiveU256(x) => ("BigUint", int(x.clone())),
            D::PrimitiveU8 { value, specialty } => return self.unsigned(*value as u128, "u8", *specialty, info, indent, money),
            D::PrimitiveU16 { value, specialty } => return self.unsigned(*value as u128, "u16", *specialty, info, indent, money),
            D::PrimitiveU32 { value, specialty } => return self.unsigned(*value as u128, "u32", *specialty, info, indent, money),
            D::PrimitiveU64 { value, specialty } => return self.unsigned(*value as u128, "u64", *specialty, info, indent, money),
            D::PrimitiveU128 { value, specialty } => return self.unsigned(*value, "u128", *specialty, info, indent, money),
            D::Text { text, specialty: SpecialtyStr::None } => ("Text", RVal::Text(text.clone())),
            D::Text { text, specialty: SpecialtyStr::SpecName } => ("Spec Name", RVal::Text(text.clone())),
            D::Call(c) => return self.item(&c.0, indent, false),
            D::Event(c) => return self.item(&c.0, indent, true),
            D::Composite(f) if f.is_empty() => return,
            D::Composite(f) if f.len() == 1 && f[0].field_name.is_none() => return self.fields(f, indent, money, info),
            D::Composite(f) => {
                self.push(indent, "Struct", RVal::Count(f.len()), info);
                return self.fields(f, indent + 1, money, vec![]);
            }
            D::Tuple(v) if v.is_empty() => return,
            D::Tuple(v) => {
                self.push(indent, "Tuple", RVal::Count(v.len()), info);
                for x in v {
                    self.extended(x, indent + 1, money);
                }
                return;
            }
            D::Variant(v) => {
                self.push(indent, "Enum", RVal::Nothing, info);
                self.push(indent + 1, "Enum Variant Name", RVal::Text(v.variant_name.clone()), docs_only(&v.variant_docs));
                return self.fields(&v.fields, indent + 2, money, vec![]);
            }
            D::SequenceRaw(s) => {
                self.out.push(RCard { indent, kind: "Sequence", val: RVal::Count(s.data.len()), info, elem: flats(&s.element_info), body: vec![] });
                for x in &s.data {
                    self.data(x, vec![], indent + 1, money);
                }
                return;
            }
            D::Sequence(s) => {
                let elem = flats(&s.element_info);
                let (n, list): (usize, Vec<(&'static str, u128)>) = match &s.data {
                    Sequence::U8(b) => return self.u8s(b, info, elem, indent),
                    Sequence::U16(v) => (v.len(), v.iter().map(|x| ("u16", *x as u128)).collect()),
                    Sequence::U32(v) => (v.len(), v.iter().map(|x| ("u32", *x as u128)).collect()),
                    Sequence::U64(v) => (v.len(), v.iter().map(|x| ("u64", *x as u128)).collect()),
                    Sequence::U128(v) => (v.len(), v.iter().map(|x| ("u128", *x)).collect()),
                    Sequence::VecU8 { sequence, .. } => (sequence.len(), vec![]),
                };
                self.out.push(RCard { indent, kind: "Sequence", val: RVal::Count(n), info, elem, body: vec![] });
                for (k, x) in list {
                    self.push(indent + 1, k, int(x), vec![]);
                }
                if let Sequence::VecU8 { sequence, inner_element_info } = &s.data {
                    for b in sequence {
                        self.u8s(b, vec![], flats(inner_element_info), indent + 1);
                    }
                }
                return;
            }
        };
        let body = match d {
            D::Id(a) => a.0.to_vec(),
            D::PublicEd25519(a) => a.0.to_vec(),
            D::PublicSr25519(a) => a.0.to_vec(),
            D::PublicEcdsa(a) => a.0.to_vec(),
            _ => vec![],
        };
        self.out.push(RCard { indent, kind, val, info, elem: vec![], body })
    }
}

pub fn cards_of(d: &ExtendedData, indent: u32, money: bool, specs: &ShortSpecs, name: &str) -> Vec<RCard> {
    let mut c = Carder { specs, name, out: vec![] };
    c.extended(d, indent, money);
    c.out
}

pub fn call_cards(d: &Call, specs: &ShortSpecs, name: &str) -> Vec<RCard> {
    let mut c = Carder { specs, name, out: vec![] };
    c.item(&d.0, 0, false);
    c.out
}

/// What a card of the code under test says.
pub fn read_card(c: &ExtendedCard) -> RCard {
    use ParserCard as P;
    macro_rules! bits {
        ($v:expr) => {
            RVal::Bits($v.iter().map(|b| *b).collect())
        };
    }
    let mut elem = vec![];
    let t = |s: &String| RVal::Text(s.clone());
    let a = |d: &IdData| RVal::Account(d.base58.clone());
    let (kind, val) = match &c.parser_card {
        P::Balance(x) => ("Balance", RVal::Money(x.clone())),
        P::BalanceRaw(x) => ("Balance Raw", t(x)),
        P::BitVecU8Lsb0(v) => ("BitVec<u8, Lsb0>", bits!(v)),
        P::BitVecU16Lsb0(v) => ("BitVec<u16, Lsb0>", bits!(v)),
        P::BitVecU32Lsb0(v) => ("BitVec<u32, Lsb0>", bits!(v)),
        P::BitVecU64Lsb0(v) => ("BitVec<u64, Lsb0>", bits!(v)),
        P::BitVecU8Msb0(v) => ("BitVec<u8, Msb0>", bits!(v)),
        P::BitVecU16Msb0(v) => ("BitVec<u16, Msb0>", bits!(v)),
        P::BitVecU32Msb0(v) => ("BitVec<u32, Msb0>", bits!(v)),
        P::BitVecU64Msb0(v) => ("BitVec<u64, Msb0>", bits!(v)),
        P::BlockHash(h) => ("Block Hash", RVal::Bytes(h.0.to_vec())),
        P::CallName(x) => ("Call", t(x)),
        P::CompositeAnnounced(n) => ("Struct", RVal::Count(*n)),
        P::EmptyEnum => ("Enum With No Variants", RVal::Nothing),
        P::EnumAnnounced => ("Enum", RVal::Nothing),
        P::EnumVariantName(x) => ("Enum Variant Name", t(x)),
        P::Era(e) => ("Era", RVal::Era(*e)),
        P::EventName(x) => ("Event", t(x)),
        P::FieldName(x) => ("Field Name", t(x)),
        P::FieldNumber(n) => ("Field Number", RVal::Count(*n)),
        P::GenesisHash(h) => ("Genesis Hash", RVal::Bytes(h.0.to_vec())),
        P::H160(h) => ("H160", RVal::Bytes(h.0.to_vec())),
        P::H256(h) => ("H256", RVal::Bytes(h.0.to_vec())),
        P::H512(h) => ("H512", RVal::Bytes(h.0.to_vec())),
        P::Id(d) => ("Id", a(d)),
        P::NameSpecVersion { name, version } => ("Chain", RVal::Chain(name.clone(), version.clone())),
        P::Nonce(x) => ("Nonce", t(x)),
        P::PalletName(x) => ("Pallet", t(x)),
        P::PerU16(p) => ("PerU16", int(p.deconstruct())),
        P::Percent(p) => ("Percent", int(p.deconstruct())),
        P::Permill(p) => ("Permill", int(p.deconstruct())),
        P::Perbill(p) => ("Perbill", int(p.deconstruct())),
        P::Perquintill(p) => ("Perquintill", int(p.deconstruct())),
        P::PrimitiveBool(b) => ("Bool", RVal::Bool(*b)),
        P::PrimitiveChar(b) => ("Char", RVal::Char(*b)),
        P::PrimitiveI8(x) => ("i8", int(*x)),
        P::PrimitiveI16(x) => ("i16", int(*x)),
        P::PrimitiveI32(x) => ("i32", int(*x)),
        P::PrimitiveI64(x) => ("i64", int(*x)),
        P::PrimitiveI128(x) => ("i128", int(*x)),
        P::PrimitiveI256(x) => ("BigInt", int(x.clone())),
        P::PrimitiveU8(x) => ("u8", int(*x)),
        P::PrimitiveU16(x) => ("u16", int(*x)),
        P::PrimitiveU32(x) => ("u32", int(*x)),
        P::PrimitiveU64(x) => ("u64", int(*x)),
        P::PrimitiveU128(x) => ("u128", int(*x)),
        P::PrimitiveU256(x) => ("BigUint", int(x.clone())),
        P::PublicEd25519(d) => ("PublicKey Ed25519", a(d)),
        P::PublicSr25519(d) => ("PublicKey Sr25519", a(d)),
        P::PublicEcdsa(d) => ("PublicKey Ecdsa", a(d)),
        P::SequenceAnnounced { len, element_info_flat } => {
            elem = element_info_flat.clone();
            ("Sequence", RVal::Count(*len))
        }
        P::SequenceU8 { hex, text, element_info_flat } => {
            elem = element_info_flat.clone();
            ("Sequence u8", RVal::U8s { hex: hex.clone(), text: text.clone() })
        }
        P::SignatureEd25519(s) => ("Signature Ed25519", RVal::Bytes(s.0.to_vec())),
        P::SignatureSr25519(s) => ("Signature Sr25519", RVal::Bytes(s.0.to_vec())),
        P::SignatureEcdsa(s) => ("Signature Ecdsa", RVal::Bytes(s.0.to_vec())),
        P::SpecName(x) => ("Spec Name", t(x)),
        P::Text(x) => ("Text", t(x)),
        P::Tip(x) => ("Tip", RVal::Money(x.clone())),
        P::TipAsset(x) => ("Tip Asset", t(x)),
        P::TupleAnnounced(n) => ("Tuple", RVal::Count(*n)),
        P::TxVersion(x) => ("Tx Version", t(x)),
    };
    RCard { indent: c.indent, kind, val, info: c.info_flat.clone(), elem, body: vec![] }
}

impl RCard {
    /// Label and payload as displayed; no payload for announcements alone.
    fn parts(&self) -> (&'static str, Option<String>) {
        let mut label = self.kind;
        let s = match &self.val {
            RVal::Nothing => return (label, None),
            RVal::Count(n) => match self.kind {
                "Struct" => format!("{n} field(s)"),
                "Tuple" | "Sequence" => format!("{n} element(s)"),
                _ => n.to_string(),
            },
            RVal::Text(s) | RVal::Account(s) => s.clone(),
            RVal::Int(i) => i.to_string(),
            RVal::Bytes(b) => hex(b),
            RVal::U8s { hex, text } => match text {
                Some(t) => {
                    label = "Text";
                    t.clone()
                }
                None => hex.clone(),
            },
            RVal::Bits(b) => format!("[{}]", b.iter().map(|b| if *b { "1" } else { "0" }).collect::<Vec<_>>().join(", ")),
            RVal::Era(Era::Immortal) => "Immortal".into(),
            RVal::Era(Era::Mortal(period, phase)) => format!("Mortal, phase: {phase}, period: {period}"),
            RVal::Money(c) => format!("{} {}", c.number, c.units),
            RVal::Bool(b) => b.to_string(),
            RVal::Char(c) => c.to_string(),
            RVal::Chain(n, v) => format!("{n}{v}"),
        };
        (label, Some(s))
    }

    pub fn show(&self) -> String {
        let mut s = "  ".repeat(self.indent as usize);
        let (l, p) = self.parts();
        s += l;
        if let Some(p) = p {
            s += ": ";
            s += &p;
        }
        s
    }

    pub fn show_with_docs(&self) -> String {
        let one = |i: &InfoFlat| format!("(docs: {}, path: {})", i.docs.as_deref().unwrap_or("None"), i.path_flat.as_deref().unwrap_or("None"));
        let mut s = self.show();
        if !self.elem.is_empty() {
            s += &format!(", element info: [{}]", self.elem.iter().map(one).collect::<Vec<_>>().join(","));
        }
        for i in &self.info {
            s += "\n";
            s += &"  ".repeat(self.indent as usize);
            s += &one(i);
        }
        s
    }
}

/// Read the displayed text back: `true` if it is this value and no other.
pub fn reads_back(text: &str, c: &RCard, specs: &ShortSpecs) -> Result<(), String> {
    let body_text = text.strip_prefix(&"  ".repeat(c.indent as usize)[..]).ok_or("indent")?;
    if body_text.starts_with("  ") && c.kind != "Field Name" {
        return Err("indent".into());
    }
    if c.val == RVal::Nothing {
        return if body_text == c.kind { Ok(()) } else { Err("label".into()) };
    }
    let (label, rest) = body_text.split_once(": ").ok_or("no label")?;
    let expect = match &c.val {
        RVal::U8s { text: Some(_), .. } => "Text",
        _ => c.kind,
    };
    if label != expect {
        return Err(format!("label {label:?}"));
    }
    let num = |s: &str| -> Option<BigInt> {
        let d = s.strip_prefix('-').unwrap_or(s);
        if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) || (d.len() > 1 && d.starts_with('0')) {
            return None;
        }
        s.parse().ok()
    };
    let unhex = |s: &str| -> Option<Vec<u8>> {
        if s.len() % 2 != 0 || !s.bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b)) {
            return None;
        }
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
    };
    let ok = match &c.val {
        RVal::Nothing => true,
        RVal::Count(n) => rest.split(' ').next().and_then(num) == Some(BigInt::from(*n)),
        RVal::Int(i) => num(rest).as_ref() == Some(i),
        RVal::Text(s) => rest == s,
        RVal::Bytes(b) => unhex(rest).as_ref() == Some(b),
        RVal::U8s { hex, text } => match text {
            Some(t) => rest == t && unhex(hex).as_deref() == Some(t.as_bytes()),
            None => unhex(rest).is_some_and(|b| unhex(hex) == Some(b)),
        },
        RVal::Bits(b) => {
            let inner = rest.strip_prefix('[').and_then(|r| r.strip_suffix(']')).ok_or("brackets")?;
            let got: Vec<bool> = inner.chars().filter(|c| *c == '0' || *c == '1').map(|c| c == '1').collect();
            got == *b && inner.chars().all(|c| "01, ".contains(c))
        }
        RVal::Era(e) => {
            let mut got = None;
            if rest == "Immortal" {
                got = Some(Era::Immortal)
            } else if let Some((ph, pe)) = rest.strip_prefix("Mortal, phase: ").and_then(|r| r.split_once(", period: ")) {
                got = Some(Era::Mortal(pe.parse().map_err(|_| "period")?, ph.parse().map_err(|_| "phase")?));
            }
            got.as_ref() == Some(e)
        }
        // the amount itself is read back in C24
        RVal::Money(m) => rest.strip_prefix(&m.number[..]).and_then(|r| r.strip_prefix(' ')) == Some(&m.units[..]),
        RVal::Account(_) => {
            let raw = base58_decode(rest).ok_or("base58")?;
            raw == ss58_bytes(&c.body, specs.base58prefix)
        }
        RVal::Bool(b) => rest == if *b { "true" } else { "false" },
        RVal::Char(ch) => rest.chars().eq([*ch]),
        RVal::Chain(n, v) => rest.strip_prefix(&n[..]) == Some(&v[..]),
    };
    if ok {
        Ok(())
    } else {
        Err("another value".into())
    }
}

pub const PREFIXES: &[u16] = &[0, 2, 42, 63, 64, 65, 66, 67, 127, 128, 255, 256, 257, 1284, 2254, 10041, 16383];

pub fn gen_specs(t: &mut Tape) -> (ShortSpecs, String) {
    let base58prefix = if t.chance(180) { *t.pick(PREFIXES) } else { t.u16() & 0x3fff };
    let decimals = if t.chance(128) { *t.pick(&[12u8, 10, 0, 18, 6]) } else { t.u8() };
    let unit = t.pick(&["DOT", "WND", "", "µ", "m"]).to_string();
    let name = if t.chance(200) { t.pick(&["westmint", "polkadot", ""]).to_string() } else { t.text(8) };
    (ShortSpecs { base58prefix, decimals, unit }, name)
}

/// Any leaf.
pub fn gen_leaf(t: &mut Tape, kind: usize) -> ParsedData {
    use bitvec::prelude::{BitVec, Lsb0, Msb0};
    use ParsedData as D;
    let su = |t: &mut Tape| *t.pick(&[SU::None, SU::Balance, SU::Tip, SU::TipAsset, SU::Nonce, SU::SpecVersion, SU::TxVersion]);
    let bits = |t: &mut Tape| -> Vec<bool> {
        let n = if t.chance(200) { t.small_len(20) } else if t.rare(1) { t.spill(); t.long() } else { t.below(140) };
        (0..n).map(|_| t.chance(128)).collect()
    };
    fn arr<const N: usize>(t: &mut Tape) -> [u8; N] {
        match t.below(8) {
            0 => [0; N],
            1 => [0xff; N],
            2 => {
                // leading or trailing zeros
                let k = t.below(N);
                let mut b = [0; N];
                b[k] = t.u8();
                b
            }
            _ => t.bytes(N).try_into().unwrap(),
        }
    }
    macro_rules! bv {
        ($v:ident, $st:ty, $o:ty) => {{
            let b = bits(t);
            D::$v(b.into_iter().collect::<BitVec<$st, $o>>())
        }};
    }
    macro_rules! per {
        ($v:ident, $max:expr, $inner:ty) => {{
            let x = match t.below(4) {
                0 => $max,
                1 => 0,
                _ => t.uint(64) as u64 % ($max + 1),
            };
            D::$v(PerThing::from_parts(x as $inner))
        }};
    }
    match kind % LEAVES {
        0 => bv!(BitVecU8Lsb0, u8, Lsb0),
        1 => bv!(BitVecU16Lsb0, u16, Lsb0),
        2 => bv!(BitVecU32Lsb0, u32, Lsb0),
        3 => bv!(BitVecU64Lsb0, u64, Lsb0),
        4 => bv!(BitVecU8Msb0, u8, Msb0),
        5 => bv!(BitVecU16Msb0, u16, Msb0),
        6 => bv!(BitVecU32Msb0, u32, Msb0),
        7 => bv!(BitVecU64Msb0, u64, Msb0),
        8 => D::BlockHash(arr::<32>(t).into()),
        9 => D::GenesisHash(arr::<32>(t).into()),
        10 => D::H160(arr::<20>(t).into()),
        11 => D::H256(arr::<32>(t).into()),
        12 => D::H512(arr::<64>(t).into()),
        13 => D::EmptyEnum,
        14 => D::Era(if t.chance(60) {
            Era::Immortal
        } else {
            let p = 1u64 << t.range(2, 16);
            let q = (p >> 12).max(1);
            Era::Mortal(p, t.u64() % p / q * q)
        }),
        15 => per!(PerU16, 65535u64, u16),
        16 => per!(Percent, 100u64, u8),
        17 => per!(Permill, 1_000_000u64, u32),
        18 => per!(Perbill, 1_000_000_000u64, u32),
        19 => per!(Perquintill, 1_000_000_000_000_000_000u64, u64),
        20 => D::PrimitiveBool(t.chance(128)),
        21 => D::PrimitiveChar(t.ch()),
        22 => D::PrimitiveI8(t.uint(8) as i8),
        23 => D::PrimitiveI16(t.uint(16) as i16),
        24 => D::PrimitiveI32(t.uint(32) as i32),
        25 => D::PrimitiveI64(t.uint(64) as i64),
        26 => D::PrimitiveI128(t.uint(128) as i128),
        27 => {
            let b = arr::<32>(t);
            D::PrimitiveI256(BigInt::from_signed_bytes_le(&b))
        }
        28 => D::PrimitiveU8 { value: t.uint(8) as u8, specialty: su(t) },
        29 => D::PrimitiveU16 { value: t.uint(16) as u16, specialty: su(t) },
        30 => D::PrimitiveU32 { value: t.uint(32) as u32, specialty: su(t) },
        31 => D::PrimitiveU64 { value: t.uint(64) as u64, specialty: su(t) },
        32 => D::PrimitiveU128 { value: t.uint(128), specialty: su(t) },
        33 => {
            let b = arr::<32>(t);
            D::PrimitiveU256(BigUint::from_bytes_le(&b))
        }
        34 => D::SignatureEd25519(ed25519::Signature(arr::<64>(t))),
        35 => D::SignatureSr25519(sr25519::Signature(arr::<64>(t))),
        36 => D::SignatureEcdsa(ecdsa::Signature(arr::<65>(t))),
        37 => D::Text { text: some_text(t, 12), specialty: SpecialtyStr::None },
        38 => D::Text { text: some_text(t, 12), specialty: SpecialtyStr::SpecName },
        39 => {
            let b = if t.chance(128) { some_text(t, 8).into_bytes() } else { some_bytes(t, 12) };
            D::Sequence(SequenceData { element_info: vec![], data: Sequence::U8(b) })
        }
        // accounts are last: they come with a picture
        40 => D::Id(AccountId32(arr::<32>(t))),
        41 => D::PublicEd25519(ed25519::Public(arr::<32>(t))),
        42 => D::PublicSr25519(sr25519::Public(arr::<32>(t))),
        _ => D::PublicEcdsa(ecdsa::Public(arr::<33>(t))),
    }
}

pub const LEAVES: usize = 44;
pub const PLAIN_LEAVES: usize = 40;

fn some_text(t: &mut Tape, max: usize) -> String {
    if t.rare(1) {
        let n = t.long();
        return t.long_text(n);
    }
    t.text(max)
}

fn some_bytes(t: &mut Tape, max: usize) -> Vec<u8> {
    if t.rare(1) {
        let n = t.long();
        return t.bytes(n);
    }
    let n = t.small_len(max);
    t.bytes(n)
}

struct Names(u32);

impl Names {
    fn text(&mut self, t: &mut Tape) -> String {
        self.0 += 1;
        match t.below(12) {
            0 if t.rare(1) => {
                let n = t.long();
                format!("{}{}", self.0, t.long_text(n))
            }
            0 => String::new(),
            1 => format!("a\nb{}", self.0),
            2 => format!("  {}: x", self.0),
            _ => format!("n{}", self.0),
        }
    }
    fn info(&mut self, t: &mut Tape) -> Info {
        let k = t.range(0, 2);
        let path: Vec<String> = (0..k).map(|_| self.text(t)).collect();
        let mut docs = if t.chance(128) { self.text(t) } else { String::new() };
        if path.is_empty() && docs.is_empty() {
            docs = format!("d{}", self.0);
        }
        Info { docs, path: scale_info::Path { segments: path } }
    }
    fn infos(&mut self, t: &mut Tape) -> Vec<Info> {
        let n = t.weighted(&[6, 4, 2, 1]);
        (0..n).map(|_| self.info(t)).collect()
    }
}

/// Any tree of parsed data, with a text of its own on every item.
pub fn gen_tree(t: &mut Tape, nodes: &mut u32, depth: u32) -> ExtendedData {
    let mut n = Names(0);
    tree(t, &mut n, nodes, depth)
}

fn tree(t: &mut Tape, n: &mut Names, nodes: &mut u32, depth: u32) -> ExtendedData {
    let info = n.infos(t);
    ExtendedData { data: node(t, n, nodes, depth), info }
}

fn fields(t: &mut Tape, n: &mut Names, nodes: &mut u32, depth: u32) -> Vec<FieldData> {
    let k = t.weighted(&[2, 5, 3, 2, 1]);
    let named = t.below(3);
    (0..k)
        .map(|_| FieldData {
            field_name: if named == 0 || (named == 2 && t.chance(128)) { Some(n.text(t)) } else { None },
            type_name: None,
            field_docs: if t.chance(100) { n.text(t) } else { String::new() },
            data: tree(t, n, nodes, depth),
        })
        .collect()
}

fn node(t: &mut Tape, n: &mut Names, nodes: &mut u32, depth: u32) -> ParsedData {
    *nodes = nodes.saturating_sub(1);
    if depth == 0 || *nodes == 0 || t.chance(90) {
        // account cards are slow
        let k = if t.chance(4) { 40 + t.below(4) } else { t.below(PLAIN_LEAVES) };
        return gen_leaf(t, k);
    }
    match t.below(10) {
        0 | 1 => ParsedData::Composite(fields(t, n, nodes, depth - 1)),
        2 | 3 => ParsedData::Variant(VariantData {
            variant_name: n.text(t),
            variant_docs: if t.chance(100) { n.text(t) } else { String::new() },
            fields: fields(t, n, nodes, depth - 1),
        }),
        4 => {
            let k = t.small_len(4);
            ParsedData::Tuple((0..k).map(|_| tree(t, n, nodes, depth - 1)).collect())
        }
        5 => {
            let k = t.small_len(4);
            ParsedData::SequenceRaw(SequenceRawData { element_info: n.infos(t), data: (0..k).map(|_| node(t, n, nodes, depth - 1)).collect() })
        }
        6 => {
            let k = if t.rare(1) { t.spill(); t.long().min(1100) } else { t.small_len(5) };
            let data = match t.below(6) {
                0 => Sequence::U16((0..k).map(|_| t.u16()).collect()),
                1 => Sequence::U32((0..k).map(|_| t.u32()).collect()),
                2 => Sequence::U64((0..k).map(|_| t.u64()).collect()),
                3 => Sequence::U128((0..k).map(|_| t.u128()).collect()),
                4 => Sequence::U8(if t.chance(128) { some_bytes(t, 5) } else { some_text(t, 5).into_bytes() }),
                _ => Sequence::VecU8 {
                    sequence: (0..k)
                        .map(|_| {
                            if t.chance(128) {
                                some_bytes(t, 6)
                            } else {
                                some_text(t, 6).into_bytes()
                            }
                        })
                        .collect(),
                    inner_element_info: n.infos(t),
                },
            };
            ParsedData::Sequence(SequenceData { element_info: n.infos(t), data })
        }
        k => {
            let d = PalletSpecificData {
                pallet_info: n.info(t),
                variant_docs: if t.chance(100) { n.text(t) } else { String::new() },
                pallet_name: if t.chance(170) { t.pick(&["Balances", "Staking", "System", "balances", "Balances2", ""]).to_string() } else { n.text(t) },
                variant_name: n.text(t),
                fields: fields(t, n, nodes, depth - 1),
            };
            if k < 9 {
                ParsedData::Call(Call(d))
            } else {
                ParsedData::Event(Event(d))
            }
        }
    }
}
