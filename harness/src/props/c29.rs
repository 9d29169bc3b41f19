//! C29: the exported building blocks, from which others build walkers of
//! their own, tell the same as the decoder.

use frame_metadata::v14::RuntimeMetadataV14 as M;
use scale_info::{form::PortableForm, Field, PortableRegistry, TypeDef, TypeDefPrimitive, Variant};
use sp_arithmetic::{PerU16, Perbill, Percent, Permill, Perquintill};
use substrate_parser::cards::{Documented, ExtendedData, FieldData, Info, ParsedData, Sequence};
use substrate_parser::compacts::{find_compact, get_compact};
use substrate_parser::decoding_sci::{decode_with_type, ResolvedTy, Ty, decode_type_def_primitive, find_bit_order_ty, husk_type, pick_variant, BitVecPositions, FoundBitOrder};
use substrate_parser::error::{ParserError, RegistryError, RegistryInternalError};
use substrate_parser::propagated::{Checker, Propagated, SpecialtySet};
use substrate_parser::special_indicators::*;
use substrate_parser::traits::SignedExtensionMetadata;

use crate::genreg::{sym, Opts};
use crate::mutate::mutate;
use crate::props::c01::{gen_case, label_case, show};
use crate::props::c26::agrees;
use crate::runner::{Ctx, Fail, Outcome, Property};
use crate::sut::{self, show_reg, Pe};
use crate::tape::Tape;
use crate::walk::{compact_parse, info_of, ref_decode, special, DecSrc, Hi, KeyKind, PTy, PerKind, RefErr, Sp, Walker};
use crate::{ensure, fail};

pub static P: Property = Property {
    id: "C29",
    rule: "a walker made of the exported building blocks only (variant selection, compacts, bit sequence borders and orders, special type recognition, element husking, propagated hints and compact marks, primitives) over generated registries and encoded values, plain or as content of an extension, whole or damaged: same end, same errors, same primitives in the same order as the reference; each block asked about every type and field of the registry at random places of the data; non-trivial = at least 3 nodes and 2 encoded bytes",
    assumptions: &[],
    tape_len: 1000,
    quick: 400_000,
    thorough: 25_000_000,
    run,
    enumerated: None,
    known_demos: &[],
    must_reach: &[
        "compact", "bits", "special", "sequence", "damaged", "damaged ok", "error place", "hinted", "pallet item", "multi-signature", "signature field", "not a signature", "bit borders", "bits too long", "order", "no order", "husk", "husk error", "hint", "compact found", "prior information",
    ],
};

type B<'a> = &'a [u8];

fn sp_of(x: &SpecialtyTypeHinted) -> Sp {
    use SpecialtyTypeHinted as T;
    match x {
        T::None => Sp::None,
        T::AccountId32 => Sp::Id,
        T::Era => Sp::Era,
        T::H160 => Sp::H160,
        T::H256 => Sp::H256,
        T::H512 => Sp::H512,
        T::MultiSignature => Sp::MultiSig,
        T::PalletSpecific(PalletSpecificItem::Call) => Sp::Call,
        T::PalletSpecific(PalletSpecificItem::Event) => Sp::Event,
        T::Perbill => Sp::Per(PerKind::Perbill),
        T::Percent => Sp::Per(PerKind::Percent),
        T::Permill => Sp::Per(PerKind::Permill),
        T::Perquintill => Sp::Per(PerKind::Perquintill),
        T::PerU16 => Sp::Per(PerKind::U16),
        T::PublicEd25519 => Sp::Pub(KeyKind::Ed),
        T::PublicSr25519 => Sp::Pub(KeyKind::Sr),
        T::PublicEcdsa => Sp::Pub(KeyKind::Ec),
        T::SignatureEd25519 => Sp::Sig(KeyKind::Ed),
        T::SignatureSr25519 => Sp::Sig(KeyKind::Sr),
        T::SignatureEcdsa => Sp::Sig(KeyKind::Ec),
        T::UncheckedExtrinsic => Sp::Unchecked,
    }
}

/// The special type that is confirmed; `None` for an ordinary one.
fn confirmed(x: &SpecialtyTypeChecked) -> Option<Sp> {
    use SpecialtyTypeChecked as T;
    Some(match x {
        T::None => return None,
        T::AccountId32 => Sp::Id,
        T::Era => Sp::Era,
        T::H160 => Sp::H160,
        T::H256 => Sp::H256,
        T::H512 => Sp::H512,
        T::PalletSpecific { item: PalletSpecificItem::Call, .. } => Sp::Call,
        T::PalletSpecific { item: PalletSpecificItem::Event, .. } => Sp::Event,
        T::Perbill => Sp::Per(PerKind::Perbill),
        T::Percent => Sp::Per(PerKind::Percent),
        T::Permill => Sp::Per(PerKind::Permill),
        T::Perquintill => Sp::Per(PerKind::Perquintill),
        T::PerU16 => Sp::Per(PerKind::U16),
        T::PublicEd25519 => Sp::Pub(KeyKind::Ed),
        T::PublicSr25519 => Sp::Pub(KeyKind::Sr),
        T::PublicEcdsa => Sp::Pub(KeyKind::Ec),
        T::SignatureEd25519 => Sp::Sig(KeyKind::Ed),
        T::SignatureSr25519 => Sp::Sig(KeyKind::Sr),
        T::SignatureEcdsa => Sp::Sig(KeyKind::Ec),
    })
}

/// A primitive or hash, as seen on the way.
#[derive(Clone, Debug, PartialEq)]
enum Leaf {
    Data(ParsedData),
    /// an element of a wrapped sequence: its mark is known to be none
    Number(u32, u128),
}

fn number(d: &ParsedData) -> Option<(u32, u128, SpecialtyUnsignedInteger)> {
    Some(match d {
        ParsedData::PrimitiveU8 { value, specialty } => (8, *value as u128, *specialty),
        ParsedData::PrimitiveU16 { value, specialty } => (16, *value as u128, *specialty),
        ParsedData::PrimitiveU32 { value, specialty } => (32, *value as u128, *specialty),
        ParsedData::PrimitiveU64 { value, specialty } => (64, *value as u128, *specialty),
        ParsedData::PrimitiveU128 { value, specialty } => (128, *value, *specialty),
        _ => return None,
    })
}

fn leaves(d: &ParsedData, out: &mut Vec<Leaf>) {
    use ParsedData as D;
    let fields = |f: &[FieldData], out: &mut Vec<Leaf>| f.iter().for_each(|x| leaves(&x.data.data, out));
    match d {
        D::Composite(f) => fields(f, out),
        D::Variant(v) => fields(&v.fields, out),
        D::Call(c) => fields(&c.0.fields, out),
        D::Event(c) => fields(&c.0.fields, out),
        D::Tuple(v) => v.iter().for_each(|x| leaves(&x.data, out)),
        D::SequenceRaw(s) => s.data.iter().for_each(|x| leaves(x, out)),
        D::Sequence(s) => match &s.data {
            Sequence::U8(v) => out.extend(v.iter().map(|x| Leaf::Number(8, *x as u128))),
            Sequence::U16(v) => out.extend(v.iter().map(|x| Leaf::Number(16, *x as u128))),
            Sequence::U32(v) => out.extend(v.iter().map(|x| Leaf::Number(32, *x as u128))),
            Sequence::U64(v) => out.extend(v.iter().map(|x| Leaf::Number(64, *x as u128))),
            Sequence::U128(v) => out.extend(v.iter().map(|x| Leaf::Number(128, *x))),
            Sequence::VecU8 { sequence, .. } => sequence.iter().flatten().for_each(|x| out.push(Leaf::Number(8, *x as u128))),
        },
        D::H256(_) | D::BlockHash(_) | D::GenesisHash(_) | D::Text { .. } => out.push(Leaf::Data(d.clone())),
        D::PrimitiveBool(_) | D::PrimitiveChar(_) | D::PrimitiveI8(_) | D::PrimitiveI16(_) | D::PrimitiveI32(_) | D::PrimitiveI64(_) | D::PrimitiveI128(_) | D::PrimitiveI256(_) | D::PrimitiveU256(_) => out.push(Leaf::Data(d.clone())),
        d => {
            if let Some((w, v, s)) = number(d) {
                out.push(if s == SpecialtyUnsignedInteger::None { Leaf::Number(w, v) } else { Leaf::Data(d.clone()) });
            }
        }
    }
}

enum Stop {
    /// the block answered with an error
    Err(Pe),
    /// what the walker itself concludes
    Ref(RefErr),
    /// a block broke its contract
    Bad(&'static str, String),
}

impl From<Pe> for Stop {
    fn from(e: Pe) -> Self {
        Stop::Err(e)
    }
}

impl From<RegistryError<()>> for Stop {
    fn from(e: RegistryError<()>) -> Self {
        Stop::Err(ParserError::Registry(e))
    }
}

impl From<RegistryInternalError> for Stop {
    fn from(e: RegistryInternalError) -> Self {
        Stop::Err(ParserError::Registry(RegistryError::Internal(e)))
    }
}

/// The walker made of building blocks.
struct Blocks<'a> {
    reg: &'a PortableRegistry,
    data: B<'a>,
    pos: usize,
    out: Vec<Leaf>,
    seen: Vec<&'static str>,
    nodes: usize,
}

impl<'a> Blocks<'a> {
    fn ty_of(&self, id: u32) -> Result<&'a PTy, Stop> {
        self.reg.types.get(id as usize).map(|t| &t.ty).ok_or(Stop::Ref(RefErr::NotResolved))
    }

    fn take(&mut self, n: usize) -> Result<&'a [u8], Stop> {
        match self.data.get(self.pos..self.pos + n) {
            Some(b) => {
                self.pos += n;
                Ok(b)
            }
            None => Err(Stop::Ref(RefErr::Short { pos: self.pos, need: n })),
        }
    }

    fn pick(&mut self, variants: &'a [Variant<PortableForm>]) -> Result<&'a Variant<PortableForm>, Stop> {
        let v = pick_variant::<B, ()>(variants, &self.data, &mut (), self.pos)?;
        let byte = self.data.get(self.pos).copied();
        if Some(v.index) != byte || variants.iter().find(|x| Some(x.index) == byte).map(|x| x as *const _) != Some(v as *const _) {
            return Err(Stop::Bad("variant", format!("byte {byte:?} selects {v:?} of {variants:?}")));
        }
        self.pos += ENUM_INDEX_ENCODED_LEN;
        Ok(v)
    }

    fn fields(&mut self, fields: &'a [Field<PortableForm>], mut checker: Checker) -> Result<(), Stop> {
        if fields.len() > 1 {
            checker.reject_compact()?;
            checker.forget_hint();
        }
        for f in fields {
            let p = Propagated::for_field(&checker, f)?;
            self.walk(f.ty.id, p)?;
        }
        Ok(())
    }

    fn elements(&mut self, element: u32, n: u32, p: Propagated) -> Result<(), Stop> {
        p.reject_compact()?;
        let h = husk_type::<(), M>(&sym(element), self.reg, &mut (), p.checker)?;
        if self.reg.types.get(h.id as usize).map(|t| &t.ty) != Some(&h.ty) {
            return Err(Stop::Bad("husk type", format!("type {} is not {:?}", h.id, h.ty)));
        }
        for _ in 0..n {
            self.walk(h.id, Propagated::with_checker(h.checker.clone()))?;
        }
        Ok(())
    }

    fn walk(&mut self, id: u32, p: Propagated) -> Result<(), Stop> {
        self.nodes += 1;
        if self.nodes > 200_000 {
            return Err(Stop::Ref(RefErr::Budget));
        }
        let ty = self.ty_of(id)?;
        let hinted = SpecialtyTypeHinted::from_type(ty);
        if sp_of(&hinted) != special(ty) {
            return Err(Stop::Bad("path", format!("{} is taken for {:?}", ty.path, sp_of(&hinted))));
        }
        let before = self.pos;
        let mut pos = self.pos;
        let checked = SpecialtyTypeChecked::from_type::<B, (), M>(ty, &self.data, &mut (), &mut pos, self.reg);
        let what = confirmed(&checked);
        let through_index = matches!(&checked, SpecialtyTypeChecked::PalletSpecific { .. }) || (what.is_some() && special(ty) == Sp::MultiSig);
        if pos != before + through_index as usize {
            return Err(Stop::Bad("moved", format!("recognising {} moves from {before} to {pos}", ty.path)));
        }
        if through_index {
            self.seen.push(if special(ty) == Sp::MultiSig { "multi-signature" } else { "pallet item" });
        }
        let same = match special(ty) {
            Sp::None | Sp::Unchecked => what.is_none(),
            Sp::MultiSig => matches!(what, None | Some(Sp::Sig(_))),
            x @ (Sp::Call | Sp::Event) => what.is_none() || what == Some(x),
            x => what == Some(x),
        };
        if !same {
            return Err(Stop::Bad("confirmed", format!("{} is confirmed as {what:?}", ty.path)));
        }
        self.pos = pos;
        match checked {
            SpecialtyTypeChecked::None => self.plain(id, ty, p),
            SpecialtyTypeChecked::PalletSpecific { pallet_name, pallet_info, pallet_variant, item_ty_id, variants, item: _ } => {
                p.reject_compact()?;
                let bad = |s: String| Err(Stop::Bad("pallet", s));
                let TypeDef::Variant(outer) = &ty.type_def else { return bad(format!("{ty:?} is no enum")) };
                let byte = self.data[before];
                let Some(v) = outer.variants.iter().find(|v| v.index == byte) else { return bad(format!("no variant {byte}")) };
                let inner = self.ty_of(item_ty_id)?;
                let TypeDef::Variant(items) = &inner.type_def else { return bad(format!("{inner:?} is no enum")) };
                if pallet_variant != *v || pallet_name != v.name || v.fields.len() != 1 || v.fields[0].ty.id != item_ty_id || items.variants != variants || pallet_info != info_of(inner) {
                    return bad(format!("variant {v:?}, inner type {item_ty_id} {inner:?}\nreported {pallet_name} {pallet_info:?} {pallet_variant:?} {variants:?}"));
                }
                let v = self.pick(&items.variants)?;
                self.fields(&v.fields, Checker::new())
            }
            SpecialtyTypeChecked::Era => {
                p.reject_compact()?;
                let (_, n) = crate::walk::era_parse(self.data.get(self.pos..).unwrap_or(&[]), self.pos).map_err(Stop::Ref)?;
                self.pos += n;
                Ok(())
            }
            SpecialtyTypeChecked::H256 => {
                p.reject_compact()?;
                let h = primitive_types::H256::from_slice(self.take(32)?);
                self.out.push(Leaf::Data(match p.checker.specialty_set.hash256() {
                    SpecialtyH256::None => ParsedData::H256(h),
                    SpecialtyH256::GenesisHash => ParsedData::GenesisHash(h),
                    SpecialtyH256::BlockHash => ParsedData::BlockHash(h),
                }));
                Ok(())
            }
            SpecialtyTypeChecked::PerU16 => self.per::<PerU16>(PerKind::U16, p),
            SpecialtyTypeChecked::Percent => self.per::<Percent>(PerKind::Percent, p),
            SpecialtyTypeChecked::Permill => self.per::<Permill>(PerKind::Permill, p),
            SpecialtyTypeChecked::Perbill => self.per::<Perbill>(PerKind::Perbill, p),
            SpecialtyTypeChecked::Perquintill => self.per::<Perquintill>(PerKind::Perquintill, p),
            other => {
                p.reject_compact()?;
                use SpecialtyTypeChecked as T;
                let n = match other {
                    T::AccountId32 | T::PublicEd25519 | T::PublicSr25519 => 32,
                    T::H160 => 20,
                    T::PublicEcdsa => 33,
                    T::SignatureEcdsa => 65,
                    _ => 64,
                };
                self.take(n).map(|_| ())
            }
        }
    }

    fn per<X: sp_arithmetic::PerThing>(&mut self, kind: PerKind, p: Propagated) -> Result<(), Stop> {
        let pos = self.pos;
        let bytes = kind.bits() as usize / 8;
        if p.compact_at().is_some() {
            match kind.bits() {
                8 => get_compact::<u8, B, ()>(&self.data, &mut (), &mut self.pos).map(|_| ())?,
                16 => get_compact::<u16, B, ()>(&self.data, &mut (), &mut self.pos).map(|_| ())?,
                32 => get_compact::<u32, B, ()>(&self.data, &mut (), &mut self.pos).map(|_| ())?,
                _ => get_compact::<u64, B, ()>(&self.data, &mut (), &mut self.pos).map(|_| ())?,
            }
        } else {
            let v = self.take(bytes)?.iter().rev().fold(0u128, |a, x| a << 8 | *x as u128);
            if v > kind.max() {
                return Err(Stop::Ref(RefErr::Type { pos, ty: kind.name() }));
            }
        }
        Ok(())
    }

    fn plain(&mut self, id: u32, ty: &'a PTy, mut p: Propagated) -> Result<(), Stop> {
        match &ty.type_def {
            TypeDef::Composite(c) => self.fields(&c.fields, p.checker),
            TypeDef::Variant(v) => {
                p.reject_compact()?;
                if v.variants.is_empty() {
                    return Ok(());
                }
                let v = self.pick(&v.variants)?;
                self.fields(&v.fields, Checker::new())
            }
            TypeDef::Sequence(s) => {
                let n = get_compact::<u32, B, ()>(&self.data, &mut (), &mut self.pos)?;
                p.checker.drop_cycle_check();
                self.elements(s.type_param.id, n, p)
            }
            TypeDef::Array(a) => self.elements(a.type_param.id, a.len, p),
            TypeDef::Tuple(t) => {
                if t.fields.len() > 1 {
                    p.reject_compact()?;
                    p.forget_hint();
                }
                for f in &t.fields {
                    let el = self.ty_of(f.id)?;
                    let q = Propagated::for_ty(&p.checker, el, f.id)?;
                    self.walk(f.id, q)?;
                }
                Ok(())
            }
            TypeDef::Primitive(x) => {
                let d = decode_type_def_primitive::<B, ()>(x, &self.data, &mut (), &mut self.pos, p.checker.specialty_set)?;
                leaves(&d, &mut self.out);
                Ok(())
            }
            TypeDef::Compact(c) => {
                p.reject_compact()?;
                p.checker.specialty_set.compact_at = Some(id);
                p.checker.check_id(c.type_param.id)?;
                self.walk(c.type_param.id, p)
            }
            TypeDef::BitSequence(b) => {
                p.reject_compact()?;
                find_bit_order_ty::<(), M>(b, id, &mut (), self.reg)?;
                let end = match &self.ty_of(b.bit_store_type.id)?.type_def {
                    TypeDef::Primitive(TypeDefPrimitive::U8) => BitVecPositions::new::<u8, B, ()>(&self.data, &mut (), self.pos)?,
                    TypeDef::Primitive(TypeDefPrimitive::U16) => BitVecPositions::new::<u16, B, ()>(&self.data, &mut (), self.pos)?,
                    TypeDef::Primitive(TypeDefPrimitive::U32) => BitVecPositions::new::<u32, B, ()>(&self.data, &mut (), self.pos)?,
                    TypeDef::Primitive(TypeDefPrimitive::U64) => BitVecPositions::new::<u64, B, ()>(&self.data, &mut (), self.pos)?,
                    _ => return Err(Stop::Ref(RefErr::NotStore)),
                }
                .bitvec_end;
                if end > self.data.len() {
                    self.seen.push("bits too long");
                    return Err(Stop::Ref(RefErr::Short { pos: self.pos, need: end - self.pos }));
                }
                self.pos = end;
                Ok(())
            }
        }
    }
}

/// The walker of blocks against the reference and the decoder.
fn compare(reg: &PortableRegistry, id: u32, data: &[u8], from: usize, ident: &str, ctx: &mut Ctx) -> Result<Option<Result<ExtendedData, RefErr>>, Fail> {
    let hint = Hi::of_extension(ident);
    let (want, end) = ref_decode(reg, id, data, from, hint);
    if want == Err(RefErr::Budget) {
        return Ok(None);
    }
    ctx.eval();
    let meta = SignedExtensionMetadata { identifier: ident.to_string(), ty: sym(id), additional_signed: sym(id) };
    let mut w = Blocks { reg, data, pos: from, out: vec![], seen: vec![], nodes: 0 };
    let got = w.walk(id, Propagated::from_ext_meta(&meta));
    for l in &w.seen {
        ctx.label(l);
    }
    let who = || format!("type {id} as extension {ident:?} from {from} of 0x{}\n{}", hex::encode(data), show_reg(reg));
    match (&want, got) {
        (_, Err(Stop::Bad(sig, e))) => return Err(Fail::new(sig, format!("{e}\n{}", who()))),
        (_, Err(Stop::Ref(RefErr::Budget))) => return Ok(None),
        (Ok(x), Ok(())) => {
            if w.pos != end {
                return Err(Fail::new("end", format!("blocks end at {}, the value at {end}\n{}", w.pos, who())));
            }
            let mut l = vec![];
            leaves(&x.data, &mut l);
            if l != w.out {
                let i = l.iter().zip(&w.out).take_while(|(a, b)| a == b).count();
                return Err(Fail::new("primitives", format!("primitive {i}: expected {:?}\ngot {:?}\n{}", l.get(i), w.out.get(i), who())));
            }
        }
        (Err(r), Err(Stop::Err(e))) => {
            let same = match (&e, r) {
                (ParserError::Registry(RegistryError::Internal(i)), r) => matches!(
                    (i, r),
                    (RegistryInternalError::CyclicMetadata { .. }, RefErr::Cyclic) | (RegistryInternalError::UnexpectedCompactInsides { .. }, RefErr::CompactInside) | (RegistryInternalError::NotBitOrderType { .. }, RefErr::NotOrder) | (RegistryInternalError::NotBitStoreType { .. }, RefErr::NotStore) | (_, RefErr::NotResolved)
                ),
                (ParserError::Registry(_), r) => *r == RefErr::NotResolved,
                _ => agrees(&e, r, data.len()),
            };
            ctx.label("error place");
            if !same {
                return Err(Fail::new("error", format!("expected {r:?}, blocks report {e:?}\n{}", who())));
            }
        }
        (Err(r), Err(Stop::Ref(q))) => {
            if *r != q {
                return Err(Fail::new("error", format!("expected {r:?}, blocks lead to {q:?}\n{}", who())));
            }
        }
        (Ok(x), Err(Stop::Err(e))) => return Err(Fail::new("refused", format!("blocks report {e:?}, but the value is {x:?}\n{}", who()))),
        (Ok(x), Err(Stop::Ref(e))) => return Err(Fail::new("refused", format!("blocks lead to {e:?}, but the value is {x:?}\n{}", who()))),
        (Err(r), Ok(())) => return Err(Fail::new("accepted", format!("expected {r:?}, blocks find a value ending at {}\n{}", w.pos, who()))),
    }
    // and so does the decoder itself
    let mut p = from;
    let s = sut::decode_ext(reg, id, data, &mut p, ident);
    let same = match (&want, &s) {
        (Ok(a), Ok(b)) => a == b && p == end,
        (Err(_), Err(_)) => true,
        _ => false,
    };
    if !same {
        return Err(Fail::new("decoder", format!("expected {want:?} ending at {end}\ngot {s:?} ending at {p}\n{}", who())));
    }
    Ok(Some(want))
}

/// Questions about single types and fields.
fn single(t: &mut Tape, reg: &PortableRegistry, data: &[u8], ctx: &mut Ctx) -> Outcome {
    let who = || show_reg(reg);
    for _ in 0..4 {
        let id = t.below(reg.types.len()) as u32;
        let ty = &reg.types[id as usize].ty;
        ctx.eval();
        let i = Info::from_ty(ty);
        ensure!(i == info_of(ty) && ty.collect_docs() == i.docs, "info", "type {id}: {i:?}, docs {:?}\n{}", ty.collect_docs(), who());
        ensure!(i.is_empty() == (i.docs.is_empty() && i.path.segments.is_empty()), "info", "{i:?} empty: {}", i.is_empty());
        // husking
        let w = Walker::new(reg, DecSrc::new(&[], 0)).husk(id, vec![]);
        let mut c = Checker::new();
        c.specialty_set = SpecialtySet { compact_at: t.chance(128).then_some(7), hint: Hint::CheckNonce };
        let h = husk_type::<(), M>(&sym(id), reg, &mut (), c);
        match (&w, &h) {
            (Ok(w), Ok(h)) => {
                ctx.label("husk");
                let set = &h.checker.specialty_set;
                let same = w.id == h.id && w.info == h.info && reg.types[w.id as usize].ty == h.ty && w.prop.compact == set.compact_at && same_hint(w.prop.hint, &set.hint);
                ensure!(same, "husk", "type {id}: expected {} {:?} {:?}\ngot {h:?}\n{}", w.id, w.info, w.prop, who());
            }
            (Err(_), Err(_)) => ctx.label("husk error"),
            _ => fail!("husk", "type {id}: expected {:?}, got {h:?}\n{}", w.as_ref().map(|w| w.id), who()),
        }
        // recognition at any place
        let at = t.below(data.len() + 3);
        let mut pos = at;
        let s = SpecialtyTypeChecked::from_type::<B, (), M>(ty, &data, &mut (), &mut pos, reg);
        let moved = matches!(s, SpecialtyTypeChecked::PalletSpecific { .. }) || (special(ty) == Sp::MultiSig && confirmed(&s).is_some());
        ensure!(pos == at + moved as usize, "moved", "recognising type {id} at {at} of 0x{} leads to {pos}\n{}", hex::encode(data), who());
        match &ty.type_def {
            TypeDef::Variant(v) => {
                let p = pick_variant::<B, ()>(&v.variants, &data, &mut (), at);
                let want = data.get(at).and_then(|b| v.variants.iter().find(|v| v.index == *b));
                match (&p, want) {
                    (Ok(a), Some(b)) => ensure!(*a == b, "variant", "{a:?} picked by {:?}, expected {b:?}", data.get(at)),
                    (Err(ParserError::UnexpectedEnumVariant { position }), None) if at < data.len() => ensure!(*position == at, "variant", "error place {position}, not {at}"),
                    (Err(ParserError::Buffer(_)), None) if at >= data.len() => {}
                    _ => fail!("variant", "type {id} at {at} of 0x{}: picked {p:?}\n{}", hex::encode(data), who()),
                }
                for v in &v.variants {
                    ensure!(v.collect_docs() == v.docs.join("\n"), "docs", "{:?} for {v:?}", v.collect_docs());
                    v.fields.iter().try_for_each(|f| one_field(f, reg, ctx))?;
                }
            }
            TypeDef::Composite(c) => c.fields.iter().try_for_each(|f| one_field(f, reg, ctx))?,
            TypeDef::BitSequence(b) => {
                let order = &reg.types[b.bit_order_type.id as usize].ty;
                let o = find_bit_order_ty::<(), M>(b, id, &mut (), reg);
                let want = match (&order.type_def, order.path.segments.last().map(|s| s.as_str())) {
                    (TypeDef::Composite(_), Some("Lsb0")) => Some(false),
                    (TypeDef::Composite(_), Some("Msb0")) => Some(true),
                    _ => None,
                };
                ctx.label(if want.is_some() { "order" } else { "no order" });
                let same = match (&o, want) {
                    (Ok(FoundBitOrder::Lsb0), Some(false)) | (Ok(FoundBitOrder::Msb0), Some(true)) => true,
                    (Err(RegistryError::Internal(RegistryInternalError::NotBitOrderType { id: x })), None) => *x == id,
                    _ => false,
                };
                ensure!(same, "order", "order of type {id}: expected {want:?}, error {:?}\n{}", o.err(), who());
            }
            _ => {}
        }
    }
    // borders of bit sequences anywhere, the end of the data and beyond included
    let at = t.below(data.len() + 4);
    let want = data.get(at..).and_then(|d| compact_parse(d, 32));
    macro_rules! borders {
        ($($t:ty),*) => {$(
            let b = BitVecPositions::new::<$t, B, ()>(&data, &mut (), at);
            let size = std::mem::size_of::<$t>();
            let end = want.map(|(n, head)| at + head + (n as usize).div_ceil(8 * size) * size);
            ensure!(b.as_ref().ok().map(|b| b.bitvec_end) == end, "borders", "bit sequence in {} at {at} of 0x{}: expected end {end:?}, got {b:?}", stringify!($t), hex::encode(data));
            let f = find_compact::<$t, B, ()>(&data, &mut (), at);
            let c = data.get(at..).and_then(|d| compact_parse(d, 8 * size as u32));
            ensure!(f.as_ref().ok().map(|f| (f.compact as u128, f.start_next_unit)) == c.map(|(v, n)| (v, at + n)), "compact", "compact {} at {at} of 0x{}: expected {c:?}, found {}", stringify!($t), hex::encode(data), f.is_ok());
            ctx.label_if(f.is_ok(), "compact found");
        )*};
    }
    borders!(u8, u16, u32, u64);
    let f = find_compact::<u128, B, ()>(&data, &mut (), at);
    let c = data.get(at..).and_then(|d| compact_parse(d, 128));
    ensure!(f.as_ref().ok().map(|f| (f.compact, f.start_next_unit)) == c.map(|(v, n)| (v, at + n)), "compact", "compact u128 at {at} of 0x{}: expected {c:?}, found {}", hex::encode(data), f.is_ok());
    cycles(t, reg)?;
    ctx.label_if(want.is_some(), "bit borders");
    // identifiers and paths as hints
    let ident = *t.pick(super::c11::IDENTIFIERS);
    let meta = SignedExtensionMetadata { identifier: ident.to_string(), ty: sym(0), additional_signed: sym(0) };
    ensure!(same_hint(Hi::of_extension(ident), &Hint::from_ext_meta(&meta)), "hint", "extension {ident}: {:?}", Hint::from_ext_meta(&meta));
    let mut fake = reg.types[t.below(reg.types.len())].ty.clone();
    if t.chance(128) {
        fake.path.segments = vec!["x".into(), ident.to_string()];
    }
    ensure!(same_hint(Hi::of_tuple_element(&fake), &Hint::from_path(&fake.path)), "hint", "path {}: {:?}", fake.path, Hint::from_path(&fake.path));
    Ok(())
}

/// The cycle check against a plain list of what was met.
fn cycles(t: &mut Tape, reg: &PortableRegistry) -> Outcome {
    let mut c = if t.chance(128) { Checker::new() } else { Checker::default() };
    let mut met: Vec<u32> = vec![];
    let mut log = vec![];
    for _ in 0..t.range(1, 12) {
        let id = if t.chance(200) { t.below(6) as u32 } else { t.below(1 << 20) as u32 };
        let new = !met.contains(&id);
        let (kind, r) = match t.below(8) {
            0..=3 => ("id", c.check_id(id)),
            4 => {
                c.drop_cycle_check();
                met.clear();
                log.push("drop".to_string());
                continue;
            }
            5 => {
                let ty = &reg.types[t.below(reg.types.len())].ty;
                ("type", Checker::update_for_ty(&c, ty, id).map(|n| c = n))
            }
            6 => {
                let f = Field::<PortableForm> { name: None, ty: sym(id), type_name: None, docs: vec![] };
                ("field", Propagated::for_field(&c, &f).map(|n| c = n.checker))
            }
            _ => {
                let ty = &reg.types[t.below(reg.types.len())].ty;
                ("propagated", Propagated::for_ty(&c, ty, id).map(|n| c = n.checker))
            }
        };
        log.push(format!("{kind} {id}"));
        let ok = match &r {
            Ok(()) => new,
            Err(RegistryInternalError::CyclicMetadata { id: x }) => !new && *x == id,
            Err(_) => false,
        };
        ensure!(ok, "cycle", "after {log:?}: {r:?}");
        if new {
            met.push(id);
        }
    }
    Ok(())
}

/// The decoder, entered with the type given by number or in full, and with
/// information that was collected before.
fn entered(t: &mut Tape, reg: &PortableRegistry, id: u32, data: &[u8], from: usize, ctx: &mut Ctx) -> Outcome {
    ctx.eval();
    let mut p0 = from;
    let a = decode_with_type::<B, (), M>(&Ty::Symbol(&sym(id)), &data, &mut (), &mut p0, reg, Propagated::new());
    let Some(ty) = reg.types.get(id as usize).map(|t| &t.ty) else { return Ok(()) };
    let mut p1 = from;
    let b = decode_with_type::<B, (), M>(&Ty::Resolved(ResolvedTy { ty: ty.clone(), id }), &data, &mut (), &mut p1, reg, Propagated::default());
    let who = || format!("type {id} from {from} of 0x{}\n{}", hex::encode(data), show_reg(reg));
    let same = match (&a, &b) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => format!("{a:?}") == format!("{b:?}"),
        _ => false,
    };
    ensure!(p0 == p1 && same, "resolved", "by number {a:?} ending at {p0}\nin full {b:?} ending at {p1}\n{}", who());
    let mut prior: Vec<Info> = (0..if t.rare(4) { t.range(5, 300) } else { t.below(4) }).map(|_| info_of(&reg.types[t.below(reg.types.len())].ty)).collect();
    let mut q = Propagated::with_checker(Checker::new());
    for i in &prior {
        q.add_info(i);
    }
    prior.retain(|i| !i.is_empty());
    ensure!(q.info == prior, "information", "collected {:?}, expected {prior:?}", q.info);
    if t.chance(128) {
        q.add_info_slice(&prior.clone());
        prior.extend(prior.clone());
    }
    ctx.label_if(!prior.is_empty() && a.is_ok(), "prior information");
    let mut p2 = from;
    let c = decode_with_type::<B, (), M>(&Ty::Symbol(&sym(id)), &data, &mut (), &mut p2, reg, q);
    match (&a, &c) {
        (Ok(a), Ok(c)) => {
            prior.extend(a.info.iter().cloned());
            ensure!(a.data == c.data && c.info == prior && p0 == p2, "information", "without {a:?}\nwith {c:?}\n{}", who());
        }
        (Err(a), Err(c)) => ensure!(format!("{a:?}") == format!("{c:?}"), "information", "without {a:?}\nwith {c:?}\n{}", who()),
        _ => fail!("information", "without {a:?}\nwith {c:?}\n{}", who()),
    }
    Ok(())
}

fn same_hint(want: Hi, got: &Hint) -> bool {
    let s = if want == Hi::SpecName { SpecialtyStr::SpecName } else { SpecialtyStr::None };
    let h = match want {
        Hi::Genesis => 1,
        Hi::Mortality => 2,
        _ => 0,
    };
    let g = match got.hash256() {
        SpecialtyH256::None => 0,
        SpecialtyH256::GenesisHash => 1,
        SpecialtyH256::BlockHash => 2,
    };
    got.unsigned_integer() == want.uint() && got.string() == s && g == h
}

fn one_field(f: &Field<PortableForm>, reg: &PortableRegistry, ctx: &mut Ctx) -> Outcome {
    let hint = Hint::from_field(f);
    let want = Hi::of_field(f.name.as_deref(), f.type_name.as_deref());
    ctx.label_if(want != Hi::None, "hint");
    ensure!(same_hint(want, &hint), "hint", "field {f:?}: expected {want:?}, got {hint:?}");
    ensure!(f.collect_docs() == f.docs.join("\n"), "docs", "{:?} for {f:?}", f.collect_docs());
    let husk = Walker::new(reg, DecSrc::new(&[], 0)).husk(f.ty.id, vec![]);
    let len = husk.ok().and_then(|h| match &reg.types[h.id as usize].ty.type_def {
        TypeDef::Array(a) if matches!(reg.types.get(a.type_param.id as usize), Some(e) if e.ty.type_def == TypeDef::Primitive(TypeDefPrimitive::U8)) => Some(a.len),
        _ => None,
    });
    let want = match (f.type_name.as_deref(), len) {
        (Some("ecdsa::Signature"), Some(65)) => 1,
        (Some("ed25519::Signature"), Some(64)) => 2,
        (Some("sr25519::Signature"), Some(64)) => 3,
        _ => 0,
    };
    let got = match SignatureIndicator::from_field::<(), M>(f, &mut (), reg) {
        SignatureIndicator::None => 0,
        SignatureIndicator::Ecdsa => 1,
        SignatureIndicator::Ed25519 => 2,
        SignatureIndicator::Sr25519 => 3,
    };
    ctx.label_if(want > 0, "signature field");
    ctx.label_if(want == 0 && f.type_name.as_deref().is_some_and(|n| n.ends_with("::Signature")), "not a signature");
    ensure!(want == got, "signature", "field {f:?} is taken for signature kind {got}, expected {want}\n{}", show_reg(reg));
    Ok(())
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let Some(mut c) = gen_case(t, Opts { max_types: 40, ..Opts::default() }, Hi::None) else {
        return ctx.discard();
    };
    label_case(&c, ctx);
    if t.chance(16) {
        // an order that is none, a reference that leads elsewhere
        let n = c.reg.types.len() as u32;
        let i = t.below(c.reg.types.len());
        let to = t.below(n as usize) as u32;
        let keep = t.below(3) as u32;
        super::c27::map_ids(&mut c.reg.types[i].ty, &mut |id| if id % 3 == keep { to } else { id });
    }
    ctx.describe(|| show(&c));
    let before = t.below(12);
    let data = [t.bytes(before), c.data.clone()].concat();
    let ident = if t.chance(100) { *t.pick(super::c11::IDENTIFIERS) } else { "" };
    ctx.label_if(Hi::of_extension(ident) != Hi::None, "hinted");
    if compare(&c.reg, c.id, &data, before, ident, ctx)?.is_some() {
        entered(t, &c.reg, c.id, &data, before, ctx)?;
    }
    for _ in 0..2 {
        let mut d = c.data.clone();
        mutate(t, &mut d, &c.marks);
        ctx.label("damaged");
        if let Some(Ok(_)) = compare(&c.reg, c.id, &d, 0, ident, ctx)? {
            ctx.label("damaged ok");
        }
    }
    single(t, &c.reg, &data, ctx)
}
