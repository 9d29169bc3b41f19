//! Malformed registries and metadata, arbitrary data.

use std::sync::Arc;

use scale_info::{form::PortableForm, Field, PortableRegistry, TypeDef, TypeDefArray, TypeDefBitSequence, TypeDefCompact, TypeDefComposite, TypeDefPrimitive, TypeDefSequence, TypeDefTuple, TypeDefVariant, Variant};
use substrate_parser::traits::SignedExtensionMetadata;

use crate::genreg::{segs, sym};
use crate::mem::*;
use crate::meta::ArcReg;
use crate::mutate::mutate;
use crate::props::c11;
use crate::tape::Tape;
use crate::walk::PTy;
use frame_metadata::v14::StorageEntryType;

pub const PATHS: &[&[&str]] = &[
    &["AccountId32"],
    &["Call"],
    &["RuntimeCall"],
    &["Event"],
    &["Era"],
    &["H160"],
    &["AccountId20"],
    &["H256"],
    &["H512"],
    &["sp_runtime", "MultiSignature"],
    &["Perbill"],
    &["Percent"],
    &["Permill"],
    &["Perquintill"],
    &["PerU16"],
    &["sp_core", "ed25519", "Public"],
    &["sp_core", "sr25519", "Signature"],
    &["sp_core", "ecdsa", "Public"],
    &["sp_core", "ecdsa", "Signature"],
    &["sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic"],
    &["BTreeMap"],
    &["bitvec", "order", "Lsb0"],
    &["bitvec", "order", "Msb0"],
    &["Option"],
    &[],
];

const PRIMS: &[TypeDefPrimitive] = &[
    TypeDefPrimitive::U8,
    TypeDefPrimitive::U16,
    TypeDefPrimitive::U32,
    TypeDefPrimitive::U64,
    TypeDefPrimitive::U128,
    TypeDefPrimitive::U256,
    TypeDefPrimitive::I8,
    TypeDefPrimitive::I64,
    TypeDefPrimitive::I128,
    TypeDefPrimitive::I256,
    TypeDefPrimitive::Bool,
    TypeDefPrimitive::Char,
    TypeDefPrimitive::Str,
];

const NAMES: &[&str] = &["nonce", "spec_version", "spec_name", "tx_version", "transaction_version", "x"];
const TYPE_NAMES: &[&str] = &["Balance", "BalanceOf<T>", "ecdsa::Signature", "ed25519::Signature", "sr25519::Signature", "Compact<Balance>", "y"];

/// Any id; `used` are those that the data lead to.
fn any(t: &mut Tape, used: &[u32], n: usize) -> u32 {
    match t.weighted(&[10, 6, 1, 1]) {
        0 if !used.is_empty() => *t.pick(used),
        0 | 1 => t.below(n.max(1)) as u32,
        2 => n as u32 + t.below(3) as u32,
        _ => *t.pick(&[u32::MAX, u32::MAX - 1, 1 << 31]),
    }
}

fn any_field(t: &mut Tape, used: &[u32], n: usize) -> Field<PortableForm> {
    let name = t.chance(128).then(|| t.pick(NAMES).to_string());
    let tn = t.chance(128).then(|| t.pick(TYPE_NAMES).to_string());
    Field::new(name, sym(any(t, used, n)), tn, vec![])
}

fn any_fields(t: &mut Tape, used: &[u32], n: usize) -> Vec<Field<PortableForm>> {
    let k = t.weighted(&[2, 6, 3, 1]);
    (0..k).map(|_| any_field(t, used, n)).collect()
}

fn any_def(t: &mut Tape, used: &[u32], n: usize) -> TypeDef<PortableForm> {
    match t.below(8) {
        0 => TypeDef::Primitive(t.pick(PRIMS).clone()),
        1 => {
            let k = t.below(4);
            TypeDef::Tuple(TypeDefTuple { fields: (0..k).map(|_| sym(any(t, used, n))).collect() })
        }
        2 => TypeDef::Array(TypeDefArray { len: *t.pick(&[0, 1, 2, 20, 31, 32, 33, 64, 65, 4096, 65536, 1 << 30, u32::MAX]), type_param: sym(any(t, used, n)) }),
        3 => TypeDef::Sequence(TypeDefSequence { type_param: sym(any(t, used, n)) }),
        4 => TypeDef::Compact(TypeDefCompact { type_param: sym(any(t, used, n)) }),
        5 => TypeDef::BitSequence(TypeDefBitSequence { bit_store_type: sym(any(t, used, n)), bit_order_type: sym(any(t, used, n)) }),
        6 => TypeDef::Composite(TypeDefComposite { fields: any_fields(t, used, n) }),
        _ => {
            let k = t.below(5);
            TypeDef::Variant(TypeDefVariant {
                variants: (0..k)
                    .map(|i| {
                        let index = if t.chance(150) { i as u8 } else { t.u8() };
                        Variant { name: format!("V{i}"), fields: any_fields(t, used, n), index, docs: vec![] }
                    })
                    .collect(),
            })
        }
    }
}

/// All references of a type, for change.
fn refs(ty: &mut PTy) -> Vec<&mut scale_info::interner::UntrackedSymbol<std::any::TypeId>> {
    match &mut ty.type_def {
        TypeDef::Composite(c) => c.fields.iter_mut().map(|f| &mut f.ty).collect(),
        TypeDef::Variant(v) => v.variants.iter_mut().flat_map(|v| v.fields.iter_mut().map(|f| &mut f.ty)).collect(),
        TypeDef::Sequence(x) => vec![&mut x.type_param],
        TypeDef::Array(x) => vec![&mut x.type_param],
        TypeDef::Tuple(x) => x.fields.iter_mut().collect(),
        TypeDef::Compact(x) => vec![&mut x.type_param],
        TypeDef::BitSequence(x) => vec![&mut x.bit_store_type, &mut x.bit_order_type],
        TypeDef::Primitive(_) => vec![],
    }
}

pub fn damage(t: &mut Tape, reg: &mut PortableRegistry, used: &[u32]) {
    let n = reg.types.len();
    if n == 0 {
        return;
    }
    let at = (any(t, used, n) as usize).min(n - 1);
    match t.weighted(&[8, 6, 5, 5, 3, 2, 1]) {
        0 => {
            let to = any(t, used, n);
            let mut r = refs(&mut reg.types[at].ty);
            if !r.is_empty() {
                let k = t.below(r.len());
                *r[k] = sym(to);
            }
        }
        1 => reg.types[at].ty.type_def = any_def(t, used, n),
        2 => reg.types[at].ty.path = segs(*t.pick(PATHS)),
        3 => {
            if let TypeDef::Variant(v) = &mut reg.types[at].ty.type_def {
                match t.below(5) {
                    0 => v.variants.clear(),
                    1 => {
                        let k = t.below(v.variants.len() + 1);
                        v.variants.truncate(k)
                    }
                    2 => v.variants.iter_mut().for_each(|x| x.index = x.index.wrapping_add(1)),
                    3 => v.variants.iter_mut().for_each(|x| x.index &= 1),
                    _ => {
                        let f = any_fields(t, used, n);
                        if !v.variants.is_empty() {
                            let k = t.below(v.variants.len());
                            v.variants[k].fields = f;
                        }
                    }
                }
            } else {
                reg.types[at].ty.type_def = any_def(t, used, n);
            }
        }
        4 => {
            let (a, b) = (t.pick(NAMES).to_string(), t.pick(TYPE_NAMES).to_string());
            let f: Vec<&mut Field<PortableForm>> = match &mut reg.types[at].ty.type_def {
                TypeDef::Composite(c) => c.fields.iter_mut().collect(),
                TypeDef::Variant(v) => v.variants.iter_mut().flat_map(|v| v.fields.iter_mut()).collect(),
                _ => vec![],
            };
            for f in f {
                f.name = Some(a.clone());
                f.type_name = Some(b.clone());
            }
        }
        5 => {
            let b = t.below(n);
            let x = reg.types[b].ty.clone();
            reg.types[at].ty = x;
        }
        _ => reg.types.truncate(at + 1),
    }
}

/// Which types may be decoded from no data at all, and at which cost.
fn empties(reg: &PortableRegistry) -> Vec<Option<u64>> {
    let n = reg.types.len();
    let mut e: Vec<Option<u64>> = vec![None; n];
    loop {
        let mut grown = false;
        for i in 0..n {
            if e[i].is_some() {
                continue;
            }
            let g = |id: u32| e.get(id as usize).copied().flatten();
            let all = |mut ids: &mut dyn Iterator<Item = u32>| (&mut ids).try_fold(2u64, |a, id| g(id).map(|c| a.saturating_add(c)));
            let c = match &reg.types[i].ty.type_def {
                TypeDef::Composite(c) => all(&mut c.fields.iter().map(|f| f.ty.id)),
                TypeDef::Tuple(c) => all(&mut c.fields.iter().map(|f| f.id)),
                TypeDef::Array(a) if a.len == 0 => Some(1),
                TypeDef::Array(a) => g(a.type_param.id).map(|c| c.saturating_mul(a.len as u64).saturating_add(1)),
                TypeDef::Variant(v) if v.variants.is_empty() => Some(2),
                TypeDef::Compact(c) => g(c.type_param.id),
                _ => None,
            };
            if c.is_some() {
                e[i] = c;
                grown = true;
            }
        }
        if !grown {
            return e;
        }
    }
}

pub const EMPTY_COST: u64 = 30;

/// Leaves out what the listed finding on elements without encoding is about.
/// False when the registry still describes too much from no data.
pub fn tame(reg: &mut PortableRegistry) -> bool {
    let e = empties(reg);
    let empty = |id: u32| e.get(id as usize).copied().flatten().is_some();
    let u8_id = reg.types.iter().position(|t| t.ty.type_def == TypeDef::Primitive(TypeDefPrimitive::U8)).unwrap_or(u32::MAX as usize) as u32;
    let mut clipped = false;
    for t in &mut reg.types {
        match &mut t.ty.type_def {
            TypeDef::Sequence(s) if empty(s.type_param.id) => s.type_param = sym(u8_id),
            TypeDef::Array(a) if empty(a.type_param.id) && a.len > 4 => {
                a.len = 4;
                clipped = true;
            }
            _ => {}
        }
    }
    let e = if clipped { empties(reg) } else { e };
    e.iter().flatten().all(|c| *c <= EMPTY_COST)
}

pub fn any_data(t: &mut Tape, data: &mut Vec<u8>) {
    match t.weighted(&[6, 8, 3, 3, 1]) {
        0 => {}
        1 => mutate(t, data, &[]),
        2 => {
            let n = t.below(200);
            *data = t.bytes(n);
        }
        3 => {
            let b = *t.pick(&[0x00u8, 0x01, 0x04, 0x08, 0xff, 0xfe, 0x03, 0x10, 0x80]);
            let n = t.below(400);
            let k = t.below(data.len() + 1);
            data.truncate(k);
            data.extend(std::iter::repeat(b).take(n));
        }
        _ => {
            let x = data.clone();
            let k = t.below(3);
            for _ in 0..k {
                data.extend_from_slice(&x);
            }
        }
    }
    data.truncate(512);
}

/// The ids a decoding asks for.
pub fn used(c: &JobCase) -> Vec<u32> {
    let mm = MemMeta { of: c.meta.clone(), reg: MemReg::new(c.meta.reg.0.clone(), false) };
    let (_, m) = external(&c.job, &mm, &c.data, &c.key, 64, None);
    let mut v: Vec<u32> = m.log.iter().filter_map(|r| if let Req::Type { id } = r { Some(*id) } else { None }).collect();
    v.sort();
    v.dedup();
    v
}

/// Damages registry, metadata, job and data of a case; `None` if what is left
/// belongs to the listed finding.
pub fn chaos(t: &mut Tape, mut c: JobCase) -> Option<JobCase> {
    let used = used(&c);
    let n = c.meta.reg.0.types.len();
    let mut reg = c.meta.reg.0.clone();
    let k = t.weighted(&[2, 5, 4, 3, 2, 1, 1]);
    if k > 0 || n < 100 {
        let r = Arc::make_mut(&mut reg);
        for _ in 0..k {
            damage(t, r, &used);
        }
        if !tame(r) {
            return None;
        }
    }
    c.meta.reg = ArcReg(reg);
    let id = |t: &mut Tape| any(t, &used, n);
    if t.chance(50) {
        match &mut c.job {
            Job::All { id: x } | Job::Husk { id: x } | Job::At { id: x, .. } | Job::Extension { id: x, .. } => *x = id(t),
            Job::Entry { entry } => match &mut entry.ty {
                StorageEntryType::Plain(x) => *x = sym(id(t)),
                StorageEntryType::Map { hashers, key, value } => match t.below(4) {
                    0 => *key = sym(id(t)),
                    1 => *value = sym(id(t)),
                    2 => {
                        hashers.pop();
                    }
                    _ => {
                        let h = crate::store::HASHERS[t.below(crate::store::HASHERS.len())].clone();
                        hashers.push(h);
                    }
                },
            },
            Job::Key { hashers, ty, .. } => {
                if t.chance(128) {
                    *ty = id(t);
                } else {
                    hashers.pop();
                }
            }
            _ => {
                if let Ok(p) = &mut c.meta.params {
                    match t.below(4) {
                        0 => p.call_ty = sym(id(t)),
                        1 => p.address_ty = sym(id(t)),
                        2 => p.signature_ty = sym(id(t)),
                        _ => p.extra_ty = sym(id(t)),
                    }
                }
                if t.chance(128) {
                    let e = SignedExtensionMetadata { identifier: t.pick(c11::IDENTIFIERS).to_string(), ty: sym(id(t)), additional_signed: sym(id(t)) };
                    let k = t.below(c.meta.exts.len() + 1);
                    c.meta.exts.insert(k, e);
                }
            }
        }
    }
    match &mut c.job {
        Job::At { pos, .. } | Job::Extension { pos, .. } | Job::Key { pos, .. } if t.chance(40) => {
            *pos = *t.pick(&[0, 1, 31, 32, 33, 100, 512, 513, u32::MAX as usize]);
        }
        _ => {}
    }
    any_data(t, &mut c.data);
    if !c.key.is_empty() && t.chance(100) {
        any_data(t, &mut c.key);
    }
    if c.note.starts_with("runtime") || c.note.starts_with("  0:") {
        c.note = format!("extensions {:?}\n{}", c.meta.exts.iter().map(|e| (&e.identifier, e.ty.id, e.additional_signed.id)).collect::<Vec<_>>(), crate::sut::show_reg(&c.meta.reg.0));
    }
    Some(c)
}
