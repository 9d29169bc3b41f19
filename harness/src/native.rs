//! Rust types with derived codec and type description, and a neutral value
//! form in which their values and the parser's reports are compared.

use bitvec::prelude::{BitOrder, BitStore, BitVec, Lsb0, Msb0};
use parity_scale_codec::{Compact, Decode, Encode, HasCompact};
use scale_info::{build::Fields, meta_type, Path, PortableRegistry, Registry, Type, TypeDefPrimitive, TypeInfo};
use sp_arithmetic::{PerU16, Perbill, Percent, Permill, Perquintill};
use substrate_parser::cards::{ParsedData, Sequence};

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    U(u128),
    I(i128),
    B(bool),
    S(String),
    Seq(Vec<V>),
    /// structs and tuples; one-element ones are transparent
    St(Vec<V>),
    Var(String, Vec<V>),
    Bits(Vec<bool>),
    Sig(String, Vec<u8>),
}

fn bytes(b: &[u8]) -> V {
    V::Seq(b.iter().map(|x| V::U(*x as u128)).collect())
}

fn st(v: Vec<V>) -> V {
    if v.len() == 1 {
        v.into_iter().next().unwrap()
    } else {
        V::St(v)
    }
}

pub fn of_parsed(d: &ParsedData) -> Option<V> {
    macro_rules! bits {
        ($b:expr) => {
            V::Bits($b.iter().map(|x| *x).collect())
        };
    }
    Some(match d {
        ParsedData::PrimitiveU8 { value, .. } => V::U(*value as u128),
        ParsedData::PrimitiveU16 { value, .. } => V::U(*value as u128),
        ParsedData::PrimitiveU32 { value, .. } => V::U(*value as u128),
        ParsedData::PrimitiveU64 { value, .. } => V::U(*value as u128),
        ParsedData::PrimitiveU128 { value, .. } => V::U(*value),
        ParsedData::PrimitiveI8(x) => V::I(*x as i128),
        ParsedData::PrimitiveI16(x) => V::I(*x as i128),
        ParsedData::PrimitiveI32(x) => V::I(*x as i128),
        ParsedData::PrimitiveI64(x) => V::I(*x as i128),
        ParsedData::PrimitiveI128(x) => V::I(*x),
        ParsedData::PrimitiveBool(x) => V::B(*x),
        ParsedData::Text { text, .. } => V::S(text.clone()),
        ParsedData::Composite(f) => st(f.iter().map(|x| of_parsed(&x.data.data)).collect::<Option<_>>()?),
        ParsedData::Tuple(f) => st(f.iter().map(|x| of_parsed(&x.data)).collect::<Option<_>>()?),
        ParsedData::Variant(v) => {
            let mut inner: Vec<V> = v.fields.iter().map(|x| of_parsed(&x.data.data)).collect::<Option<_>>()?;
            // a multi-signature of typed signatures
            if inner.len() == 1 && matches!(&inner[0], V::Sig(k, _) if *k == v.variant_name) {
                return inner.pop();
            }
            V::Var(v.variant_name.clone(), inner)
        }
        ParsedData::PrimitiveChar(c) => V::S(format!("char {:x}", *c as u32)),
        ParsedData::PrimitiveU256(x) => V::S(format!("256 bits {x}")),
        ParsedData::PrimitiveI256(x) => V::S(format!("256 bits {x}")),
        ParsedData::Id(x) => bytes(&x.0),
        ParsedData::H160(x) => bytes(&x.0),
        ParsedData::H256(x) => bytes(&x.0),
        ParsedData::H512(x) => bytes(&x.0),
        ParsedData::PublicEd25519(x) => bytes(&x.0),
        ParsedData::PublicSr25519(x) => bytes(&x.0),
        ParsedData::PublicEcdsa(x) => bytes(&x.0),
        ParsedData::SignatureEd25519(x) => V::Sig("Ed25519".into(), x.0.to_vec()),
        ParsedData::SignatureSr25519(x) => V::Sig("Sr25519".into(), x.0.to_vec()),
        ParsedData::SignatureEcdsa(x) => V::Sig("Ecdsa".into(), x.0.to_vec()),
        ParsedData::Percent(x) => V::U(x.deconstruct() as u128),
        ParsedData::Permill(x) => V::U(x.deconstruct() as u128),
        ParsedData::Perbill(x) => V::U(x.deconstruct() as u128),
        ParsedData::Perquintill(x) => V::U(x.deconstruct() as u128),
        ParsedData::PerU16(x) => V::U(x.deconstruct() as u128),
        ParsedData::SequenceRaw(s) => V::Seq(s.data.iter().map(of_parsed).collect::<Option<_>>()?),
        ParsedData::Sequence(s) => V::Seq(match &s.data {
            Sequence::U8(v) => v.iter().map(|x| V::U(*x as u128)).collect(),
            Sequence::U16(v) => v.iter().map(|x| V::U(*x as u128)).collect(),
            Sequence::U32(v) => v.iter().map(|x| V::U(*x as u128)).collect(),
            Sequence::U64(v) => v.iter().map(|x| V::U(*x as u128)).collect(),
            Sequence::U128(v) => v.iter().map(|x| V::U(*x)).collect(),
            Sequence::VecU8 { sequence, .. } => sequence.iter().map(|r| V::Seq(r.iter().map(|x| V::U(*x as u128)).collect())).collect(),
        }),
        ParsedData::BitVecU8Lsb0(b) => bits!(b),
        ParsedData::BitVecU16Lsb0(b) => bits!(b),
        ParsedData::BitVecU32Lsb0(b) => bits!(b),
        ParsedData::BitVecU64Lsb0(b) => bits!(b),
        ParsedData::BitVecU8Msb0(b) => bits!(b),
        ParsedData::BitVecU16Msb0(b) => bits!(b),
        ParsedData::BitVecU32Msb0(b) => bits!(b),
        ParsedData::BitVecU64Msb0(b) => bits!(b),
        _ => return None,
    })
}

pub trait ToV {
    fn v(&self) -> V;
}

macro_rules! ints {
    ($($t:ty => $k:ident as $w:ty),*) => { $( impl ToV for $t { fn v(&self) -> V { V::$k(*self as $w) } } )* };
}
ints!(u8 => U as u128, u16 => U as u128, u32 => U as u128, u64 => U as u128, u128 => U as u128,
      i8 => I as i128, i16 => I as i128, i32 => I as i128, i64 => I as i128, i128 => I as i128);
impl ToV for bool {
    fn v(&self) -> V {
        V::B(*self)
    }
}
impl ToV for String {
    fn v(&self) -> V {
        V::S(self.clone())
    }
}
impl ToV for () {
    fn v(&self) -> V {
        V::St(vec![])
    }
}
impl<T: ToV> ToV for Vec<T> {
    fn v(&self) -> V {
        V::Seq(self.iter().map(|x| x.v()).collect())
    }
}
impl<T: ToV, const N: usize> ToV for [T; N] {
    fn v(&self) -> V {
        V::Seq(self.iter().map(|x| x.v()).collect())
    }
}
impl<T: ToV> ToV for Box<T> {
    fn v(&self) -> V {
        (**self).v()
    }
}
impl<T: ToV> ToV for Option<T> {
    fn v(&self) -> V {
        match self {
            None => V::Var("None".into(), vec![]),
            Some(x) => V::Var("Some".into(), vec![x.v()]),
        }
    }
}
impl<T: ToV, E: ToV> ToV for Result<T, E> {
    fn v(&self) -> V {
        match self {
            Ok(x) => V::Var("Ok".into(), vec![x.v()]),
            Err(x) => V::Var("Err".into(), vec![x.v()]),
        }
    }
}
impl<T: ToV> ToV for Compact<T> {
    fn v(&self) -> V {
        self.0.v()
    }
}
impl<T: BitStore, O: BitOrder> ToV for BitVec<T, O> {
    fn v(&self) -> V {
        V::Bits(self.iter().map(|x| *x).collect())
    }
}
macro_rules! tuples {
    ($(($($t:ident $i:tt),+))*) => { $( impl<$($t: ToV),+> ToV for ($($t,)+) { fn v(&self) -> V { st(vec![$(self.$i.v()),+]) } } )* };
}
tuples!((A 0) (A 0, B 1) (A 0, B 1, C 2) (A 0, B 1, C 2, D 3));

#[derive(Encode, Decode, TypeInfo)]
pub struct Unit;
impl ToV for Unit {
    fn v(&self) -> V {
        V::St(vec![])
    }
}

macro_rules! structs {
    ($( $(#[$a:meta])* $n:ident { $( $(#[$m:meta])* $f:ident : $t:ty ),* } )*) => { $(
        #[derive(Encode, Decode, TypeInfo)]
        $(#[$a])*
        pub struct $n { $( $(#[$m])* pub $f: $t ),* }
        impl ToV for $n { fn v(&self) -> V { st(vec![$(self.$f.v()),*]) } }
    )* };
}

structs! {
    Ints { a: u8, b: u16, c: u32, d: u64, e: u128 }
    Signed { a: i8, b: i16, c: i32, d: i64, e: i128 }
    Compacts { #[codec(compact)] a: u8, #[codec(compact)] b: u16, #[codec(compact)] c: u32, #[codec(compact)] d: u64, #[codec(compact)] e: u128 }
    Single { only: u32 }
    SingleText { name: String }
    Nested { a: Single, b: Option<Single>, c: Vec<Single>, d: (Single, Unit), e: Unit }
    Mixed { flag: bool, name: String, list: Vec<Ints>, opt: Option<Result<u8, String>>, arr: [u16; 3] }
    Deep { a: Box<Mixed>, b: Vec<Vec<u8>>, c: Vec<Vec<u16>>, d: Vec<String>, e: [[u8; 2]; 3] }
    BitsAll { a: BitVec<u8, Lsb0>, b: BitVec<u8, Msb0>, c: BitVec<u16, Lsb0>, d: BitVec<u16, Msb0> }
    BitsWide { a: BitVec<u32, Lsb0>, b: BitVec<u32, Msb0>, c: BitVec<u64, Lsb0>, d: BitVec<u64, Msb0> }
    VecCompact { a: Vec<Compact<u32>>, b: [Compact<u64>; 2], c: Option<Compact<u128>>, d: (Compact<u8>, Compact<u16>) }
    Balances { nonce: u32, balance: u128, #[codec(compact)] tip: u128, spec_version: u32 }
    Hinted { nonce: Compact<u64>, spec_name: String, tx_version: Vec<u32>, transaction_version: (u8, u8) }
}

#[derive(Encode, Decode, TypeInfo)]
pub struct Tup(pub u8, pub Compact<u32>, pub String);
impl ToV for Tup {
    fn v(&self) -> V {
        st(vec![self.0.v(), self.1.v(), self.2.v()])
    }
}

#[derive(Encode, Decode, TypeInfo)]
pub struct Newtype<T>(pub T);
impl<T: ToV> ToV for Newtype<T> {
    fn v(&self) -> V {
        self.0.v()
    }
}

#[derive(Encode, Decode, TypeInfo)]
pub enum Plain {
    A,
    B(u16),
    C { x: u8, y: Vec<u8> },
    D((), bool),
}
impl ToV for Plain {
    fn v(&self) -> V {
        match self {
            Plain::A => V::Var("A".into(), vec![]),
            Plain::B(x) => V::Var("B".into(), vec![x.v()]),
            Plain::C { x, y } => V::Var("C".into(), vec![x.v(), y.v()]),
            Plain::D(a, b) => V::Var("D".into(), vec![a.v(), b.v()]),
        }
    }
}

#[derive(Encode, Decode, TypeInfo)]
pub enum Scattered {
    #[codec(index = 3)]
    Three(Compact<u32>),
    #[codec(index = 255)]
    Last(Box<Plain>),
    #[codec(index = 128)]
    Half,
    #[codec(index = 0)]
    Zero { #[codec(compact)] a: u64, b: [u8; 4] },
}
impl ToV for Scattered {
    fn v(&self) -> V {
        match self {
            Scattered::Three(x) => V::Var("Three".into(), vec![x.v()]),
            Scattered::Last(x) => V::Var("Last".into(), vec![x.v()]),
            Scattered::Half => V::Var("Half".into(), vec![]),
            Scattered::Zero { a, b } => V::Var("Zero".into(), vec![a.v(), b.v()]),
        }
    }
}

#[derive(Encode, Decode, TypeInfo)]
pub enum Tree {
    Leaf(u8),
    Node(Box<Tree>, Box<Tree>),
    Many(Vec<Tree>),
    Named { t: Option<Box<Tree>>, #[codec(compact)] n: u32 },
}
impl ToV for Tree {
    fn v(&self) -> V {
        match self {
            Tree::Leaf(x) => V::Var("Leaf".into(), vec![x.v()]),
            Tree::Node(a, b) => V::Var("Node".into(), vec![a.v(), b.v()]),
            Tree::Many(x) => V::Var("Many".into(), vec![x.v()]),
            Tree::Named { t, n } => V::Var("Named".into(), vec![t.v(), n.v()]),
        }
    }
}

#[derive(Encode, Decode, TypeInfo)]
pub struct Gen2<T: HasCompact + TypeInfo + 'static, U> {
    #[codec(compact)]
    pub a: T,
    pub b: U,
}
impl<T: HasCompact + TypeInfo + ToV, U: ToV> ToV for Gen2<T, U> {
    fn v(&self) -> V {
        st(vec![self.a.v(), self.b.v()])
    }
}

/// A char has no codec of its own: four bytes, little-endian, of a code point.
pub struct Ch(pub char);
impl Decode for Ch {
    fn decode<I: parity_scale_codec::Input>(i: &mut I) -> Result<Self, parity_scale_codec::Error> {
        char::from_u32(u32::decode(i)?).map(Ch).ok_or_else(|| "no char".into())
    }
}
impl Encode for Ch {
    fn encode(&self) -> Vec<u8> {
        (self.0 as u32).encode()
    }
}
impl TypeInfo for Ch {
    type Identity = char;
    fn type_info() -> Type {
        char::type_info()
    }
}
impl ToV for Ch {
    fn v(&self) -> V {
        V::S(format!("char {:x}", self.0 as u32))
    }
}

macro_rules! big {
    ($($n:ident $p:ident $get:expr;)*) => { $(
        #[derive(Encode, Decode)]
        pub struct $n(pub [u8; 32]);
        impl TypeInfo for $n {
            type Identity = Self;
            fn type_info() -> Type {
                TypeDefPrimitive::$p.into()
            }
        }
        impl ToV for $n {
            fn v(&self) -> V {
                V::S(format!("256 bits {}", $get(&self.0)))
            }
        }
    )* };
}
big! {
    Unsigned256 U256 num_bigint::BigUint::from_bytes_le;
    Signed256 I256 num_bigint::BigInt::from_signed_bytes_le;
}

macro_rules! fixed {
    ($($n:ident $len:literal [$($seg:literal),*] $k:expr;)*) => { $(
        #[derive(Encode, Decode)]
        pub struct $n(pub [u8; $len]);
        impl TypeInfo for $n {
            type Identity = Self;
            fn type_info() -> Type {
                Type::builder().path(Path::from_segments([$($seg),*]).unwrap()).composite(Fields::unnamed().field(|f| f.ty::<[u8; $len]>().type_name(concat!("[u8; ", $len, "]"))))
            }
        }
        impl ToV for $n {
            fn v(&self) -> V {
                match $k {
                    "" => bytes(&self.0),
                    k => V::Sig(k.into(), self.0.to_vec()),
                }
            }
        }
    )* };
}
fixed! {
    Account 32 ["sp_core", "crypto", "AccountId32"] "";
    Account20 20 ["account", "AccountId20"] "";
    Hash160 20 ["primitive_types", "H160"] "";
    Hash256 32 ["primitive_types", "H256"] "";
    Hash512 64 ["primitive_types", "H512"] "";
    PublicEd 32 ["sp_core", "ed25519", "Public"] "";
    PublicSr 32 ["sp_core", "sr25519", "Public"] "";
    PublicEc 33 ["sp_core", "ecdsa", "Public"] "";
    SigEd 64 ["sp_core", "ed25519", "Signature"] "Ed25519";
    SigSr 64 ["sp_core", "sr25519", "Signature"] "Sr25519";
    SigEc 65 ["sp_core", "ecdsa", "Signature"] "Ecdsa";
    // not special by their paths
    OtherPublic 32 ["other", "ed25519", "Public"] "";
    OtherHash 32 ["other", "Hash256"] "";
}

pub mod ed25519 {
    use super::*;
    #[derive(Encode, Decode, TypeInfo)]
    pub struct Signature(pub [u8; 64]);
    impl ToV for Signature {
        fn v(&self) -> V {
            V::Sig("Ed25519".into(), self.0.to_vec())
        }
    }
}
pub mod sr25519 {
    use super::*;
    #[derive(Encode, Decode, TypeInfo)]
    pub struct Signature(pub [u8; 64]);
    impl ToV for Signature {
        fn v(&self) -> V {
            V::Sig("Sr25519".into(), self.0.to_vec())
        }
    }
}
pub mod ecdsa {
    use super::*;
    #[derive(Encode, Decode, TypeInfo)]
    pub struct Signature(pub [u8; 65]);
    impl ToV for Signature {
        fn v(&self) -> V {
            V::Sig("Ecdsa".into(), self.0.to_vec())
        }
    }
}

/// Signatures that are bare arrays inside, as in current runtimes.
#[derive(Encode, Decode, TypeInfo)]
pub enum MultiSignature {
    Ed25519(ed25519::Signature),
    Sr25519(sr25519::Signature),
    Ecdsa(ecdsa::Signature),
}
impl ToV for MultiSignature {
    fn v(&self) -> V {
        match self {
            MultiSignature::Ed25519(x) => x.v(),
            MultiSignature::Sr25519(x) => x.v(),
            MultiSignature::Ecdsa(x) => x.v(),
        }
    }
}

/// Signatures with the well-known paths, as in older runtimes.
pub mod old {
    use super::*;
    #[derive(Encode, Decode, TypeInfo)]
    pub enum MultiSignature {
        Ed25519(SigEd),
        #[codec(index = 7)]
        Sr25519(SigSr),
        Ecdsa(SigEc),
    }
    impl ToV for MultiSignature {
        fn v(&self) -> V {
            match self {
                MultiSignature::Ed25519(x) => x.v(),
                MultiSignature::Sr25519(x) => x.v(),
                MultiSignature::Ecdsa(x) => x.v(),
            }
        }
    }
}

macro_rules! parts {
    ($($t:ty),*) => { $( impl ToV for $t { fn v(&self) -> V { V::U(self.deconstruct() as u128) } } )* };
}
parts!(Percent, Permill, Perbill, Perquintill, PerU16);

structs! {
    Chars { a: Ch, b: Vec<Ch>, c: Option<Ch>, d: [Ch; 2], e: (Ch, u8) }
    Bigs { a: Unsigned256, b: Signed256, c: Vec<Unsigned256>, d: Option<Signed256> }
    Fractions { a: Percent, b: Permill, c: Perbill, d: Perquintill, e: PerU16 }
    CompactFractions { a: Compact<Percent>, b: Compact<Permill>, c: Compact<Perbill>, d: Compact<Perquintill>, e: Compact<PerU16>, f: Vec<Compact<Perbill>> }
    Hashes { a: Hash160, b: Hash256, c: Hash512, d: Account20, e: Vec<Hash256>, f: OtherHash }
    Keys { a: PublicEd, b: PublicSr, c: PublicEc, d: OtherPublic, e: Account, f: Vec<Account>, g: Option<(Account, Compact<u128>)> }
    Sigs { a: SigEd, b: SigSr, c: SigEc, d: MultiSignature, e: Option<old::MultiSignature> }
}

impl<T: ToV> ToV for std::collections::VecDeque<T> {
    fn v(&self) -> V {
        V::Seq(self.iter().map(|x| x.v()).collect())
    }
}
impl<T: ToV> ToV for std::rc::Rc<T> {
    fn v(&self) -> V {
        (**self).v()
    }
}

#[derive(Encode, Decode, TypeInfo)]
pub struct Chain {
    pub value: Compact<u16>,
    pub next: Option<Box<Chain>>,
    pub others: Vec<Chain>,
}
impl ToV for Chain {
    fn v(&self) -> V {
        st(vec![self.value.v(), self.next.v(), self.others.v()])
    }
}

pub struct Native {
    pub name: &'static str,
    pub reg: PortableRegistry,
    pub id: u32,
    /// value and number of bytes taken, if the type's decoder accepts
    pub decode: fn(&[u8]) -> Option<(V, usize)>,
}

fn dec<T: Decode + ToV>(d: &[u8]) -> Option<(V, usize)> {
    let mut s = d;
    let x = T::decode(&mut s).ok()?;
    Some((x.v(), d.len() - s.len()))
}

fn native<T: Decode + ToV + TypeInfo + 'static>(name: &'static str) -> Native {
    let mut r = Registry::new();
    let s = r.register_type(&meta_type::<T>());
    let reg: PortableRegistry = r.into();
    Native { name, id: s.id, reg, decode: dec::<T> }
}

pub fn all() -> Vec<Native> {
    macro_rules! l {
        ($($t:ty),* $(,)?) => { vec![$(native::<$t>(stringify!($t))),*] };
    }
    l![
        u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, String, (), Unit,
        Compact<u8>, Compact<u16>, Compact<u32>, Compact<u64>, Compact<u128>,
        Ints, Signed, Compacts, Single, SingleText, Nested, Mixed, Deep, BitsAll, BitsWide, VecCompact, Balances, Hinted,
        Tup, Plain, Scattered, Tree, Newtype<Newtype<u16>>, Newtype<Vec<Newtype<Compact<u32>>>>, Gen2<u32, String>, Gen2<u128, Vec<bool>>,
        Option<u8>, Option<bool>, Option<Option<String>>, Result<u32, Plain>, Vec<u8>, Vec<u16>, Vec<u32>, Vec<u64>, Vec<u128>, Vec<i32>, Vec<bool>,
        Vec<String>, Vec<Vec<u8>>, Vec<Vec<Vec<u8>>>, Vec<(u8, u16)>, Vec<Plain>, Vec<Option<u32>>, [u8; 0], [u8; 1], [u8; 32], [u16; 5], [Plain; 2], [[u32; 2]; 2],
        (u8,), (u8, u16), (u8, u16, String), (u8, (u16, (u32, bool)), Vec<u8>, Option<Tree>),
        BitVec<u8, Lsb0>, BitVec<u8, Msb0>, BitVec<u16, Lsb0>, BitVec<u16, Msb0>, BitVec<u32, Lsb0>, BitVec<u32, Msb0>, BitVec<u64, Lsb0>, BitVec<u64, Msb0>,
        Vec<BitVec<u8, Lsb0>>, Option<BitVec<u16, Msb0>>, Vec<Scattered>, Vec<Tree>, Box<Deep>, Vec<Compact<u128>>, (Compact<u32>, Compact<u64>),
        Ch, Vec<Ch>, Chars, Unsigned256, Signed256, Bigs, Percent, Permill, Perbill, Perquintill, PerU16, Fractions, Compact<Percent>, Compact<Permill>,
        Compact<Perbill>, Compact<Perquintill>, Compact<PerU16>, CompactFractions, Vec<Percent>, Account, Account20, Hash160, Hash256, Hash512, Hashes,
        PublicEd, PublicSr, PublicEc, OtherPublic, Keys, SigEd, SigSr, SigEc, Sigs, MultiSignature, old::MultiSignature, Vec<MultiSignature>,
        Option<Account>, (Account, Compact<u128>), std::collections::VecDeque<u16>, std::rc::Rc<Plain>, Chain, Vec<Chain>,
        Option<Compact<u64>>, Newtype<Compact<u64>>, Gen2<u8, Perbill>, Vec<(Ch, bool)>, [Account; 2], [MultiSignature; 2], Vec<[u8; 4]>, [Vec<u8>; 3],
        [String; 2], (Unit, Unit), Option<()>, Option<Option<Option<bool>>>, Result<(), ()>,
    ]
}
