//! C27: numbering and unrelated types do not matter.

use std::any::TypeId;
use std::collections::HashMap;
use std::sync::Arc;

use frame_metadata::v14::StorageEntryType;
use scale_info::{form::PortableForm, interner::UntrackedSymbol, Field, PortableRegistry, Type, TypeDef};
use substrate_parser::error::{ParserError, RegistryError, RegistryInternalError};
use substrate_parser::storage_data::{KeyData, KeyPart};
use substrate_parser::traits::*;

use crate::genreg::{registry, sym, Gen, Opts};
use crate::mem::{do_job, gen_job, plain, ArcMeta, Job, JobCase, Out, Piece};
use crate::mutate::mutate;
use crate::props::c01::{gen_case, label_case, show};
use crate::runner::{Ctx, Outcome, Property};
use crate::sut::{self, Pe};
use crate::tape::Tape;
use crate::walk::{ref_decode, Hi, RefErr};
use crate::ensure;

pub static P: Property = Property {
    id: "C27",
    rule: "generated registry and value, decoded (valid and damaged data, plain and as extension), or any job (transactions, extrinsics, storage, husks, also of bundled metadata) before and after: random renumbering, numbers spread over the whole range, duplication of types with references spread over the copies, unrelated types added anywhere, enum variants reordered, and all at once; non-trivial = at least 3 nodes and a transformation that changes the registry",
    assumptions: &["duplicated variant indices in one enum (invalid metadata) are not reordered", "where the metadata is cyclic, copies of types only need the other transformations to agree"],
    tape_len: 1600,
    quick: 700_000,
    thorough: 40_000_000,
    run,
    enumerated: None,
    known_demos: &[],
    must_reach: &["renumbered", "duplicated", "unrelated", "reordered", "damaged", "pallet", "recursive", "cyclic", "spread", "job", "job error", "real", "transaction", "extrinsic", "entry", "key", "husk"],
};

/// Rewrite every reference of a type.
pub fn map_ids(ty: &mut Type<PortableForm>, f: &mut dyn FnMut(u32) -> u32) {
    let fields = |x: &mut [Field<PortableForm>], f: &mut dyn FnMut(u32) -> u32| {
        for x in x {
            x.ty = sym(f(x.ty.id));
        }
    };
    match &mut ty.type_def {
        TypeDef::Composite(c) => fields(&mut c.fields, f),
        TypeDef::Variant(v) => v.variants.iter_mut().for_each(|v| fields(&mut v.fields, f)),
        TypeDef::Sequence(x) => x.type_param = sym(f(x.type_param.id)),
        TypeDef::Array(x) => x.type_param = sym(f(x.type_param.id)),
        TypeDef::Tuple(x) => x.fields.iter_mut().for_each(|x| *x = sym(f(x.id))),
        TypeDef::Primitive(_) => {}
        TypeDef::Compact(x) => x.type_param = sym(f(x.type_param.id)),
        TypeDef::BitSequence(x) => {
            x.bit_store_type = sym(f(x.bit_store_type.id));
            x.bit_order_type = sym(f(x.bit_order_type.id));
        }
    }
    for p in &mut ty.type_params {
        if let Some(x) = &mut p.ty {
            *x = sym(f(x.id));
        }
    }
}

pub fn shuffle<T>(t: &mut Tape, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = t.below(i + 1);
        v.swap(i, j);
    }
}

#[derive(Default, Debug)]
pub struct Done {
    pub renumbered: bool,
    pub duplicated: bool,
    pub unrelated: bool,
    pub reordered: bool,
}

/// Equivalent registry, and the new ids of each old type.
pub fn transform(t: &mut Tape, reg: &PortableRegistry, extra: &[Type<PortableForm>]) -> (PortableRegistry, Vec<Vec<u32>>, Done) {
    let mode = t.range(1, 15);
    let mut done = Done::default();
    // items: Ok(old id) or Err(index in extra)
    let mut items: Vec<Result<u32, usize>> = reg.types.iter().map(|t| Ok(t.id)).collect();
    if mode & 1 != 0 && !items.is_empty() {
        done.duplicated = true;
        for _ in 0..t.range(1, 6) {
            let i = t.below(reg.types.len());
            items.push(Ok(i as u32));
        }
    }
    if mode & 2 != 0 && !extra.is_empty() {
        done.unrelated = true;
        let at = if t.chance(128) { 0 } else { items.len() };
        for i in 0..extra.len() {
            items.insert(at + i, Err(i));
        }
    }
    if mode & 4 != 0 {
        done.renumbered = true;
        shuffle(t, &mut items);
    }
    let mut places = vec![Vec::new(); reg.types.len()];
    let mut extra_places = vec![0u32; extra.len()];
    for (n, i) in items.iter().enumerate() {
        match i {
            Ok(o) => places[*o as usize].push(n as u32),
            Err(e) => extra_places[*e] = n as u32,
        }
    }
    let mut types = Vec::new();
    for i in &items {
        let ty = match i {
            Ok(o) => {
                let mut ty = reg.types[*o as usize].ty.clone();
                map_ids(&mut ty, &mut |id| match places.get(id as usize) {
                    Some(p) => p[if p.len() > 1 { t.below(p.len()) } else { 0 }],
                    None => id + 1_000_000,
                });
                if mode & 8 != 0 {
                    if let TypeDef::Variant(v) = &mut ty.type_def {
                        let mut idx: Vec<u8> = v.variants.iter().map(|v| v.index).collect();
                        idx.sort();
                        idx.dedup();
                        if idx.len() == v.variants.len() && idx.len() > 1 {
                            done.reordered = true;
                            if idx.len() < 40 {
                                shuffle(t, &mut v.variants);
                            } else {
                                v.variants.reverse();
                            }
                        }
                    }
                }
                ty
            }
            Err(e) => {
                let mut ty = extra[*e].clone();
                map_ids(&mut ty, &mut |id| extra_places.get(id as usize).copied().unwrap_or(0));
                ty
            }
        };
        types.push(ty);
    }
    (registry(types), places, done)
}

/// Errors without type ids.
pub fn same_err(a: &Pe, b: &Pe) -> bool {
    match (a, b) {
        (ParserError::Registry(RegistryError::Internal(a)), ParserError::Registry(RegistryError::Internal(b))) => {
            let k = |x: &RegistryInternalError| std::mem::discriminant(x);
            k(a) == k(b)
        }
        _ => a == b,
    }
}

/// Types under any numbers.
#[derive(Clone, Debug)]
pub struct Spread(Arc<HashMap<u32, Type<PortableForm>>>);

impl ResolveType<()> for Spread {
    fn resolve_ty(&self, id: u32, _: &mut ()) -> Result<Type<PortableForm>, RegistryError<()>> {
        self.0.get(&id).cloned().ok_or(RegistryError::Internal(RegistryInternalError::TypeNotResolved { id }))
    }
}

#[derive(Clone, Debug)]
pub struct SpreadMeta {
    reg: Spread,
    of: ArcMeta,
}

impl AsMetadata<()> for SpreadMeta {
    type TypeRegistry = Spread;
    type MetaStructureError = String;
    fn types(&self) -> Spread {
        self.reg.clone()
    }
    fn spec_name_version(&self) -> Result<SpecNameVersion, String> {
        self.of.spec.clone()
    }
    fn call_ty(&self) -> Result<UntrackedSymbol<TypeId>, String> {
        self.of.params.clone().map(|p| p.call_ty)
    }
    fn signed_extensions(&self) -> Result<Vec<SignedExtensionMetadata>, String> {
        Ok(self.of.exts.clone())
    }
}

impl AsCompleteMetadata<()> for SpreadMeta {
    fn extrinsic_type_params(&self) -> Result<ExtrinsicTypeParams, String> {
        self.of.params.clone()
    }
    fn extrinsic_version(&self) -> Result<u8, String> {
        Ok(self.of.version)
    }
}

/// Numbers far apart: `id` becomes `id * by + off`.
fn spread(t: &mut Tape, types: usize) -> (u32, u32) {
    let top = u32::MAX / (types as u32 + 2);
    let by = match t.below(4) {
        0 => 1,
        1 => [256, 1000, 1024, 4096, 65536][t.below(5)],
        2 => 1 << t.below(24),
        _ => t.range(1, top as usize) as u32,
    }
    .min(top);
    let off = match t.below(3) {
        0 => 0,
        1 => u32::MAX - by * (types as u32 + 1),
        _ => t.below((u32::MAX - by * (types as u32 + 1)) as usize) as u32,
    };
    (by, off)
}

/// The registry under numbers far apart, and the new number of `id`.
pub fn far_apart(t: &mut Tape, reg: &PortableRegistry, id: u32) -> (Spread, u32) {
    let (by, off) = spread(t, reg.types.len());
    let far = |i: u32| i.wrapping_mul(by).wrapping_add(off);
    let types = reg
        .types
        .iter()
        .map(|x| {
            let mut ty = x.ty.clone();
            map_ids(&mut ty, &mut |i| far(i));
            (far(x.id), ty)
        })
        .collect();
    (Spread(Arc::new(types)), far(id))
}

fn no_digits(s: &str) -> String {
    s.chars().filter(|c| !c.is_ascii_digit()).collect()
}

fn sorted(s: &str) -> Vec<char> {
    let mut v: Vec<char> = s.chars().collect();
    v.sort();
    v
}

/// Any job on a registry and on an equivalent one.
fn jobs(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let Some(c) = gen_job(t, true) else { return ctx.discard() };
    let reg = c.meta.reg.0.clone();
    let extra = {
        let mut g = Gen::new(t, Opts { max_types: 6, max_depth: 2, ..Opts::default() });
        g.ty();
        g.types
    };
    let (reg2, places, done) = transform(t, &reg, &extra);
    let (by, off) = if t.chance(160) { spread(t, reg2.types.len()) } else { (1, 0) };
    let far = |i: u32| i.wrapping_mul(by).wrapping_add(off);
    let types: HashMap<u32, Type<PortableForm>> = reg2
        .types
        .iter()
        .map(|x| {
            let mut ty = x.ty.clone();
            map_ids(&mut ty, &mut |i| far(i));
            (far(x.id), ty)
        })
        .collect();
    let old: HashMap<u32, u32> = places.iter().enumerate().flat_map(|(o, p)| p.iter().map(move |n| (far(*n), o as u32))).collect();
    let mut to = |id: u32| match places.get(id as usize) {
        Some(p) => far(p[if p.len() > 1 { t.below(p.len()) } else { 0 }]),
        None => far(reg2.types.len() as u32),
    };
    let mut job = c.job.clone();
    match &mut job {
        Job::All { id } | Job::At { id, .. } | Job::Extension { id, .. } | Job::Husk { id } => *id = to(*id),
        Job::Key { ty, .. } => *ty = to(*ty),
        Job::Entry { entry } => match &mut entry.ty {
            StorageEntryType::Plain(x) => *x = sym(to(x.id)),
            StorageEntryType::Map { key, value, .. } => {
                *key = sym(to(key.id));
                *value = sym(to(value.id));
            }
        },
        _ => {}
    }
    let mut of = c.meta.clone();
    if let Ok(p) = &mut of.params {
        for x in [&mut p.address_ty, &mut p.call_ty, &mut p.signature_ty, &mut p.extra_ty] {
            *x = sym(to(x.id));
        }
    }
    for e in &mut of.exts {
        e.ty = sym(to(e.ty.id));
        e.additional_signed = sym(to(e.additional_signed.id));
    }
    ctx.label("job");
    ctx.label(c.label());
    ctx.label_if(by > 1 || off > 0, "spread");
    ctx.label_if(c.real.is_some(), "real");
    if c.data.len() > 1 {
        ctx.interesting(&[&c.data, &c.key, format!("{job:?}").as_bytes()]);
    }
    let show = |c: &JobCase| format!("{}\n{done:?}, then {by} x number + {off}; new job {job:?}", c.show());
    ctx.describe(|| show(&c));
    ctx.eval();
    let a = plain(&c.job, &c.meta, &c.data, &c.key);
    let meta = SpreadMeta { reg: Spread(Arc::new(types)), of };
    let mut b: Out = do_job::<&[u8], (), SpreadMeta>(&job, &&c.data[..], &&c.key[..], &mut (), &meta);
    for p in &mut b.pieces {
        let key = match p {
            Piece::Storage(s) => &mut s.key,
            Piece::Key(k) => k,
            _ => continue,
        };
        let back = |p: &mut KeyPart| {
            if let KeyPart::Hash(h) = p {
                h.type_id = old.get(&h.type_id).copied().unwrap_or(u32::MAX);
            }
        };
        match key {
            KeyData::Plain => {}
            KeyData::SingleHash { content } => back(content),
            KeyData::TupleHash { content, .. } => content.iter_mut().for_each(back),
        }
    }
    ctx.label_if(!a.errors.is_empty(), "job error");
    if done.duplicated && a.errors.iter().chain(&b.errors).any(|e| e.contains("CyclicMetadata")) {
        ctx.label("unrolled cycle");
        return Ok(());
    }
    let same = a.pos == b.pos
        && a.errors.len() == b.errors.len()
        && a.errors.iter().zip(&b.errors).all(|(a, b)| no_digits(a) == no_digits(b))
        && a.pieces.len() == b.pieces.len()
        && a.pieces.iter().zip(&b.pieces).all(|(a, b)| match (a, b) {
            // husks show the type itself, numbers and order of variants included
            (Piece::Text(a), Piece::Text(b)) if matches!(job, Job::Husk { .. }) => sorted(&no_digits(a)) == sorted(&no_digits(b)),
            _ => a == b,
        });
    ensure!(same, "changed-job", "{}\nbefore: {a:?}\nafter: {b:?}", show(&c));
    Ok(())
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    if t.chance(70) {
        return jobs(t, ctx);
    }
    let Some(mut c) = gen_case(t, Opts { max_types: 30, max_depth: 4, ..Opts::default() }, Hi::None) else {
        return ctx.discard();
    };
    label_case(&c, ctx);
    ctx.nontrivial = None;
    if t.chance(20) {
        // a cycle that is not sound
        ctx.label("cyclic");
        let n = c.reg.types.len() as u32;
        let i = t.below(c.reg.types.len());
        let target = t.below(n as usize) as u32;
        map_ids(&mut c.reg.types[i].ty, &mut |id| if id % 2 == 0 { target } else { id });
    }
    let extra = {
        let mut g = Gen::new(t, Opts { max_types: 6, max_depth: 2, ..Opts::default() });
        g.ty();
        g.types
    };
    let (reg2, places, done) = transform(t, &c.reg, &extra);
    ctx.label_if(done.renumbered, "renumbered");
    ctx.label_if(done.duplicated, "duplicated");
    ctx.label_if(done.unrelated, "unrelated");
    ctx.label_if(done.reordered, "reordered");
    let p = &places[c.id as usize];
    let id2 = p[t.below(p.len())];
    ctx.describe(|| format!("{}\n{done:?}; type {id2} of\n{}", show(&c), sut::show_reg(&reg2)));
    if c.nodes >= 3 {
        ctx.interesting(&[&c.data, sut::show_reg(&c.reg).as_bytes(), sut::show_reg(&reg2).as_bytes()]);
    }
    let keep = reg2.clone();
    let ident = *t.pick(super::c11::IDENTIFIERS);
    let mut d = c.data.clone();
    for round in 0..3 {
        if round > 0 {
            ctx.label("damaged");
            d = c.data.clone();
            mutate(t, &mut d, &c.marks);
        }
        let hint = Hi::of_extension(ident);
        if matches!(ref_decode(&c.reg, c.id, &d, 0, hint).0, Err(RefErr::Budget)) || matches!(ref_decode(&reg2, id2, &d, 0, hint).0, Err(RefErr::Budget)) {
            continue;
        }
        ctx.eval();
        let (mut p, mut q, mut q2) = (0, 0, 0);
        let a = sut::decode_ext(&c.reg, c.id, &d, &mut p, ident);
        let b = sut::decode_ext(&reg2, id2, &d, &mut q, ident);
        let b2 = sut::decode_ext(&reg2, id2, &d, &mut q2, ident);
        let same = match (&a, &b) {
            // copies of the types of an unsound cycle are found out later
            (Err(ParserError::Registry(RegistryError::Internal(RegistryInternalError::CyclicMetadata { .. }))), _) if done.duplicated => {
                ctx.label("unrolled cycle");
                true
            }
            (Ok(x), Ok(y)) => x == y && p == q,
            (Err(x), Err(y)) => same_err(x, y),
            _ => false,
        };
        ensure!(same, "changed", "{done:?} (as extension {ident:?}, data 0x{})\n{}\nbefore, end {p}: {a:?}\nafter, end {q}: {b:?}\nnew registry, type {id2}:\n{}", hex::encode(&d), show(&c), sut::show_reg(&reg2));
        ensure!(b == b2 && q == q2, "nondeterministic", "data 0x{}: first {b:?}\nthen {b2:?}\n{}", hex::encode(&d), show(&c));
    }
    ensure!(keep == reg2, "registry-changed", "decoding changed the registry");
    Ok(())
}
