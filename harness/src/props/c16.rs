//! C16: storage keys, their hashers and hashes.

use std::sync::Arc;

use frame_metadata::v14::{StorageEntryType, StorageHasher};
use scale_info::{PortableRegistry, TypeDefPrimitive, TypeDefSequence, TypeDefTuple};

use crate::genreg::{instantiable, segs, sym, Gen, Opts};
use crate::mutate::mutate;
use crate::props::c01::value_of;
use crate::runner::{Ctx, Outcome, Property};
use crate::store::*;
use crate::sut::show_reg;
use crate::tape::Tape;
use crate::walk::{compact_bytes, type_costs, GenSrc, Hi};
use crate::ensure;

pub static P: Property = Property {
    id: "C16",
    rule: "0 to 6 (rarely up to 20) hashers over generated key types, keys built from parts with independently computed hashes, then bits of hashes flipped, parts damaged, cut, exchanged or appended; parts of up to 300 kB and key types numbered over 65535 (enumerated); non-trivial = at least one transparent part of at least 2 bytes",
    assumptions: &[],
    tape_len: 1400,
    quick: 1_200_000,
    thorough: 40_000_000,
    run,
    enumerated: Some((2 + LONG, enumerated)),
    known_demos: &[],
    must_reach: &[
        "accepted",
        "Blake2_128",
        "Blake2_256",
        "Blake2_128Concat",
        "Twox128",
        "Twox256",
        "Twox64Concat",
        "Identity",
        "tuple",
        "no hashers",
        "mismatch",
        "unused",
        "prefix",
        "not a tuple",
        "number",
        "key damaged",
        "many hashers",
        "hash damaged",
        "wrong hasher",
        "long part",
    ],
};

fn name(h: &StorageHasher) -> &'static str {
    match h {
        StorageHasher::Blake2_128 => "Blake2_128",
        StorageHasher::Blake2_256 => "Blake2_256",
        StorageHasher::Blake2_128Concat => "Blake2_128Concat",
        StorageHasher::Twox128 => "Twox128",
        StorageHasher::Twox256 => "Twox256",
        StorageHasher::Twox64Concat => "Twox64Concat",
        StorageHasher::Identity => "Identity",
    }
}

fn hasher(t: &mut Tape) -> StorageHasher {
    HASHERS[t.weighted(&[2, 2, 4, 2, 2, 4, 2])].clone()
}

/// Parts of a key with correct hashes; opaque hashes are of some random bytes.
pub fn gen_parts(t: &mut Tape, reg: &PortableRegistry, costs: &Arc<Vec<u32>>, hashers: &[StorageHasher], types: &[u32], budget: u32) -> Option<Vec<PartBytes>> {
    let mut out = Vec::new();
    for (h, id) in hashers.iter().zip(types) {
        if transparent(h) {
            let mut src = GenSrc::with_costs(t, costs.clone());
            src.node_budget = budget;
            let v = value_of(reg, src, *id, Hi::None)?;
            out.push(PartBytes { head: hash(h, &v.data), enc: v.data, marks: v.marks });
        } else {
            let n = hash(h, &[]).len();
            out.push(PartBytes { head: t.bytes(n), enc: vec![], marks: vec![] });
        }
    }
    Some(out)
}

struct K<'a> {
    reg: &'a PortableRegistry,
    hashers: &'a [StorageHasher],
    key_ty: u32,
    unit: u32,
}

impl K<'_> {
    fn check(&self, prefix: &[u8], key: &[u8], ctx: &mut Ctx) -> Outcome {
        let whole = [prefix, key].concat();
        let want = model_key(self.reg, self.hashers, self.key_ty, &whole, prefix.len());
        match &want {
            Ok(_) => ctx.label("accepted"),
            Err(StErr::Budget) => return Ok(()),
            Err(StErr::Mismatch) => ctx.label("mismatch"),
            Err(StErr::Unused) => ctx.label("unused"),
            Err(StErr::NotATuple) => ctx.label("not a tuple"),
            Err(StErr::NumberMismatch) => ctx.label("number"),
            _ => {}
        }
        ctx.eval();
        let who = || format!("hashers {:?} key type {} key 0x{} from {}\n{}", self.hashers, self.key_ty, hex::encode(&whole), prefix.len(), show_reg(self.reg));
        let got = sut_key(self.reg, self.hashers, self.key_ty, &whole, prefix.len());
        let same = match (&want, &got) {
            (Ok(a), Ok(b)) => a == b,
            (Err(a), Err(b)) => *a == st_err(b),
            _ => false,
        };
        ensure!(same, "key", "{}expected {want:?}\ngot      {got:?}", who());
        // as part of an entry: needs exactly 32 bytes of prefix
        let e = entry("E", StorageEntryType::Map { hashers: self.hashers.to_vec(), key: sym(self.key_ty), value: sym(self.unit) }, vec![]);
        let want = model_entry(self.reg, &e, &whole, &[]);
        ctx.label_if(matches!(want, Err(StErr::ShorterThanPrefix)), "prefix");
        if matches!(want, Err(StErr::Budget)) {
            return Ok(());
        }
        let got = sut_entry(self.reg, &e, &whole, &[]);
        let same = match (&want, &got) {
            (Ok(a), Ok(b)) => a == b,
            (Err(a), Err(b)) => *a == st_err(b),
            _ => false,
        };
        ensure!(same, "entry", "as entry: {}expected {want:?}\ngot      {got:?}", who());
        Ok(())
    }
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let mut g = Gen::new(t, Opts { max_types: 25, max_depth: 3, ..Opts::default() });
    let unit = g.add(segs(&[]), TypeDefTuple { fields: vec![] }, vec![]);
    let mut n = g.tape.weighted(&[1, 10, 8, 4, 2, 1, 1]);
    if n == 6 && g.tape.chance(100) {
        n = g.tape.range(7, 20);
    }
    let mut hashers: Vec<StorageHasher> = (0..n).map(|_| hasher(g.tape)).collect();
    let small = |g: &mut Gen| match g.tape.below(6) {
        0 => g.account_id(),
        1 => g.h256(),
        2 => g.uint_prim(),
        3 => g.compact(),
        _ => g.ty(),
    };
    let key_ty = if n == 1 && g.tape.chance(200) {
        small(&mut g)
    } else {
        let mut types: Vec<u32> = Vec::new();
        for _ in 0..n {
            let x = if !types.is_empty() && g.tape.chance(60) { *g.tape.pick(&types) } else { small(&mut g) };
            types.push(x);
        }
        let path = if g.tape.chance(40) { g.path() } else { segs(&[]) };
        let docs = g.docs();
        g.add(path, TypeDefTuple { fields: types.iter().map(|i| sym(*i)).collect() }, docs)
    };
    let key_ty = if g.tape.chance(12) { small(&mut g) } else { key_ty };
    if g.tape.chance(12) {
        let h = hasher(g.tape);
        if g.tape.chance(128) {
            hashers.push(h);
        } else {
            hashers.pop();
        }
    }
    let (reg, _) = g.finish();
    ctx.label_if(hashers.is_empty(), "no hashers");
    ctx.label_if(hashers.len() > 1, "tuple");
    ctx.label_if(hashers.len() > 6, "many hashers");
    for h in &hashers {
        ctx.label(name(h));
    }
    let types = part_types(&reg, &hashers, key_ty);
    let costs = Arc::new(type_costs(&reg));
    let parts = match &types {
        Some(ids) => {
            if !ids.iter().all(|i| instantiable(&reg, *i)) {
                return ctx.discard();
            }
            match gen_parts(t, &reg, &costs, &hashers, ids, 120) {
                Some(p) => p,
                None => return ctx.discard(),
            }
        }
        None => {
            let n = t.below(60);
            vec![PartBytes { head: t.bytes(n), enc: vec![], marks: vec![] }]
        }
    };
    let key = join(&parts);
    if key.len() > 6000 {
        return ctx.discard();
    }
    if types.is_some() && parts.iter().any(|p| p.enc.len() >= 2) {
        ctx.interesting(&[&key, format!("{hashers:?}").as_bytes()]);
    }
    ctx.describe(|| format!("hashers {hashers:?} key type {key_ty} key 0x{}\n{}", hex::encode(&key), show_reg(&reg)));
    let k = K { reg: &reg, hashers: &hashers, key_ty, unit };
    let np = if t.chance(200) { 32 } else { *t.pick(&[0usize, 1, 31, 33, 16, 64]) };
    let prefix = t.bytes(np);
    k.check(&prefix, &key, ctx)?;
    for _ in 0..4 {
        let mut ps = parts.clone();
        let mut key = key.clone();
        match t.below(7) {
            0 | 1 => {
                // one bit of a hash or of a key
                if !key.is_empty() {
                    let b = t.below(key.len());
                    ctx.label("hash damaged");
                    key[b] ^= 1 << t.below(8);
                }
            }
            2 => {
                if let Some(p) = (!ps.is_empty()).then(|| t.below(ps.len())) {
                    let m = ps[p].marks.clone();
                    mutate(t, &mut ps[p].enc, &m);
                    if t.chance(128) && transparent(&hashers.get(p).cloned().unwrap_or(StorageHasher::Identity)) && p < hashers.len() {
                        // hash of the damaged key
                        ps[p].head = hash(&hashers[p], &ps[p].enc);
                    }
                    ctx.label("key damaged");
                }
                key = join(&ps);
            }
            3 => {
                let n = t.below(key.len() + 1);
                key.truncate(n);
            }
            4 => {
                key.extend(t.tail(5));
            }
            5 => {
                // hash computed by another hasher
                if let Some(p) = (0..ps.len().min(hashers.len())).find(|i| transparent(&hashers[*i]) && !ps[*i].head.is_empty()) {
                    let n = ps[p].head.len();
                    let h = HASHERS[t.below(6)].clone();
                    let mut x = hash(&h, &ps[p].enc);
                    x.resize(n, 0);
                    ps[p].head = x;
                    ctx.label("wrong hasher");
                    key = join(&ps);
                }
            }
            _ => {
                // parts exchanged
                if ps.len() > 1 {
                    let (a, b) = (t.below(ps.len()), t.below(ps.len()));
                    ps.swap(a, b);
                    key = join(&ps);
                }
            }
        }
        k.check(&prefix, &key, ctx)?;
    }
    Ok(())
}

const LENGTHS: [usize; 6] = [255, 4096, 65_530, 65_536, 70_000, 300_000];

/// Known answers for the hash functions used by the model; long parts of
/// keys, with the last byte damaged too; key types of big numbers.
fn enumerated(i: u64, ctx: &mut Ctx) -> Outcome {
    match i {
        0 => ensure!(hex::encode(twox(b"System", 16)) == "26aa394eea5630e07c48ae0c9558cef7", "harness", "hash function of the model is wrong"),
        1 => ensure!(
            hex::encode(blake2b(b"abc", 32)) == "bddd813c634239723171ef3fee98579b94964e3bb1cb3e427262c8c068d52319",
            "harness",
            "hash function of the model is wrong"
        ),
        _ => return long(i as usize - 2, ctx),
    }
    Ok(())
}

const LONG: u64 = (HASHERS.len() * (LENGTHS.len() + 1) * 2) as u64;

fn long(i: usize, ctx: &mut Ctx) -> Outcome {
    let h = &HASHERS[i % HASHERS.len()];
    let i = i / HASHERS.len();
    let (tuple, i) = (i % 2 == 1, i / 2);
    let mut fuel = Tape::new(&[]);
    let mut g = Gen::new(&mut fuel, Opts::default());
    let unit = g.add(segs(&[]), TypeDefTuple { fields: vec![] }, vec![]);
    let u8_ = g.add(segs(&[]), TypeDefPrimitive::U8, vec![]);
    let n = LENGTHS.get(i).copied().unwrap_or(3);
    if i == LENGTHS.len() {
        // types of numbers that do not fit u16
        while g.add(segs(&[]), TypeDefTuple { fields: vec![] }, vec![]) < 65_600 {}
    }
    let bytes = g.add(segs(&[]), TypeDefSequence::new(sym(u8_)), vec![]);
    let one = g.add(segs(&["p"]), TypeDefTuple { fields: vec![sym(bytes), sym(u8_), sym(bytes)] }, vec![]);
    let (reg, _) = g.finish();
    let data: Vec<u8> = (0..n).map(|x| (x * 31 + x / 256) as u8).collect();
    let enc = [compact_bytes(n as u128), data].concat();
    let head = hash(h, &enc);
    let part = PartBytes { head, enc: if transparent(h) { enc } else { vec![] }, marks: vec![] };
    let small = PartBytes { head: hash(&StorageHasher::Twox64Concat, &[9]), enc: vec![9], marks: vec![] };
    let (hashers, key_ty, parts) = if tuple {
        (vec![h.clone(), StorageHasher::Twox64Concat, h.clone()], one, vec![part.clone(), small, part])
    } else {
        (vec![h.clone()], bytes, vec![part])
    };
    ctx.label("long part");
    ctx.interesting(&[b"long", &i.to_le_bytes(), name(h).as_bytes(), &[tuple as u8]]);
    let k = K { reg: &reg, hashers: &hashers, key_ty, unit };
    let mut key = join(&parts);
    k.check(&[0; 32], &key, ctx)?;
    let last = key.len() - 1;
    key[last] ^= 1;
    k.check(&[0; 32], &key, ctx)?;
    key.push(0);
    k.check(&[0; 32], &key, ctx)
}
