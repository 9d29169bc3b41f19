//! C17: storage entries, keys and values together.

use std::sync::{Arc, OnceLock};

use frame_metadata::v14::{StorageEntryMetadata, StorageEntryType, StorageHasher};
use scale_info::{form::PortableForm, PortableRegistry, TypeDefTuple};
use substrate_parser::storage_data::KeyData;

use crate::genreg::{instantiable, segs, sym, Gen, Opts};
use crate::meta::{real, tape_bytes, NAMES};
use crate::mutate::mutate;
use crate::props::c01::value_of;
use crate::props::c16::gen_parts;
use crate::runner::{Ctx, Outcome, Property};
use crate::store::*;
use crate::sut::show_reg;
use crate::tape::Tape;
use crate::walk::{type_costs, GenSrc, Hi, Mark};
use crate::{ensure, fail};

const SPACE: u64 = 7_000;

pub static P: Property = Property {
    id: "C17",
    rule: "every storage entry of all bundled metadata and generated entries, with generated keys and values, then values and keys damaged, cut, extended; non-trivial = value of at least 2 bytes",
    assumptions: &[],
    tape_len: 1600,
    quick: 1_500_000,
    thorough: 30_000_000,
    run,
    enumerated: Some((SPACE, enumerated)),
    known_demos: &[],
    must_reach: &["real plain", "real map", "plain", "map", "accepted", "value error", "key error", "plain key too long", "prefix", "both damaged", "value extended"],
};

struct Case<'a> {
    reg: &'a PortableRegistry,
    entry: &'a StorageEntryMetadata<PortableForm>,
    key: Vec<u8>,
    value: Vec<u8>,
    marks: Vec<Mark>,
}

fn build<'a>(t: &mut Tape, reg: &'a PortableRegistry, costs: &Arc<Vec<u32>>, entry: &'a StorageEntryMetadata<PortableForm>, budget: u32) -> Option<Case<'a>> {
    let mut key = t.bytes(32);
    let vt = match &entry.ty {
        StorageEntryType::Plain(v) => v.id,
        StorageEntryType::Map { hashers, key: k, value } => {
            let types = part_types(reg, hashers, k.id)?;
            let parts = gen_parts(t, reg, costs, hashers, &types, budget / 2)?;
            key.extend(join(&parts));
            value.id
        }
    };
    let mut src = GenSrc::with_costs(t, costs.clone());
    src.node_budget = budget;
    let v = value_of(reg, src, vt, Hi::None)?;
    Some(Case { reg, entry, key, value: v.data, marks: v.marks })
}

fn check(c: &Case, key: &[u8], value: &[u8], ctx: &mut Ctx) -> Outcome {
    let want = model_entry(c.reg, c.entry, key, value);
    match &want {
        Ok(_) => ctx.label("accepted"),
        Err(StErr::Budget) => return Ok(()),
        Err(StErr::Value) => ctx.label("value error"),
        Err(StErr::PlainExceeds) => ctx.label("plain key too long"),
        Err(StErr::ShorterThanPrefix) => ctx.label("prefix"),
        Err(_) => ctx.label("key error"),
    }
    ctx.eval();
    let got = sut_entry(c.reg, c.entry, key, value);
    let same = match (&want, &got) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => *a == st_err(b),
        _ => false,
    };
    ensure!(same, "entry", "key 0x{} value 0x{}\nentry {:?}\nexpected {want:?}\ngot      {got:?}", hex::encode(key), hex::encode(value), c.entry);
    Ok(())
}

fn variants(t: &mut Tape, ctx: &mut Ctx, c: &Case, n: usize) -> Outcome {
    check(c, &c.key, &c.value, ctx)?;
    // the plain facts, without the model
    let got = sut_entry(c.reg, c.entry, &c.key, &c.value);
    match &got {
        Ok(s) => {
            let plain = matches!(c.entry.ty, StorageEntryType::Plain(_));
            ensure!(s.docs == c.entry.docs.join("\n") && plain == matches!(s.key, KeyData::Plain), "parts", "{s:?}");
        }
        Err(e) => fail!("rejected", "key 0x{} value 0x{} of {:?} rejected: {e:?}", hex::encode(&c.key), hex::encode(&c.value), c.entry),
    }
    for _ in 0..n {
        let (mut key, mut value) = (c.key.clone(), c.value.clone());
        match t.below(8) {
            0 => {
                value.extend(t.tail(4));
                ctx.label("value extended");
            }
            1 => {
                let k = t.below(value.len() + 1);
                value.truncate(k);
            }
            2 => mutate(t, &mut value, &c.marks),
            3 => {
                key.extend(t.tail(4));
            }
            4 => {
                let k = t.below(key.len() + 1);
                key.truncate(k);
            }
            5 => {
                let k = t.below(key.len());
                key[k] ^= 1 << t.below(8);
            }
            6 => key.truncate(t.range(28, 33)),
            _ => {
                mutate(t, &mut value, &c.marks);
                mutate(t, &mut key, &[]);
                ctx.label("both damaged");
            }
        }
        check(c, &key, &value, ctx)?;
    }
    Ok(())
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let mut g = Gen::new(t, Opts { max_types: 35, max_depth: 3, ..Opts::default() });
    let value = g.ty();
    let plain = g.tape.chance(80);
    let docs = g.docs();
    let ty: StorageEntryType<PortableForm> = if plain {
        StorageEntryType::Plain(sym(value))
    } else {
        let n = g.tape.weighted(&[0, 8, 4, 1]);
        let hashers: Vec<StorageHasher> = (0..n).map(|_| g.tape.pick(&HASHERS).clone()).collect();
        let types: Vec<u32> = (0..n).map(|_| if g.tape.chance(100) { g.account_id() } else { g.ty() }).collect();
        let key = if n == 1 { types[0] } else { g.add(segs(&[]), TypeDefTuple { fields: types.iter().map(|i| sym(*i)).collect() }, vec![]) };
        StorageEntryType::Map { hashers, key: sym(key), value: sym(value) }
    };
    let (reg, _) = g.finish();
    ctx.label(if plain { "plain" } else { "map" });
    if !instantiable(&reg, value) {
        return ctx.discard();
    }
    if let StorageEntryType::Map { key, .. } = &ty {
        if !instantiable(&reg, key.id) {
            return ctx.discard();
        }
    }
    let e = entry("Entry", ty, docs);
    let costs = Arc::new(type_costs(&reg));
    let Some(c) = build(t, &reg, &costs, &e, 150) else { return ctx.discard() };
    if c.key.len() > 4000 {
        return ctx.discard();
    }
    if c.value.len() >= 2 {
        ctx.interesting(&[&c.key, &c.value]);
    }
    ctx.describe(|| format!("entry {e:?} key 0x{} value 0x{}\n{}", hex::encode(&c.key), hex::encode(&c.value), show_reg(&reg)));
    match variants(t, ctx, &c, 3) {
        Ok(()) => Ok(()),
        Err(mut f) => {
            f.msg = format!("{}{}", show_reg(&reg), f.msg);
            Err(f)
        }
    }
}

fn all() -> &'static Vec<(usize, usize)> {
    static L: OnceLock<Vec<(usize, usize)>> = OnceLock::new();
    L.get_or_init(|| (0..NAMES.len()).flat_map(|m| (0..real(m).entries.len()).map(move |e| (m, e))).collect())
}

/// Every entry of all bundled metadata.
fn enumerated(i: u64, ctx: &mut Ctx) -> Outcome {
    let l = all();
    ensure!(l.len() > 1500, "harness", "{} entries", l.len());
    let reps = (SPACE as usize / l.len()).max(1);
    let Some((m, e)) = l.get(i as usize / reps) else { return ctx.discard() };
    let r = real(*m);
    let e = &r.entries[*e];
    ctx.label(if matches!(e.meta.ty, StorageEntryType::Plain(_)) { "real plain" } else { "real map" });
    let b = tape_bytes(i ^ 0x17_0000, 1600);
    let mut t = Tape::new(&b);
    let Some(c) = build(&mut t, &r.reg, &r.costs, &e.meta, 120) else { return ctx.discard() };
    if c.value.len() >= 2 {
        ctx.interesting(&[&c.key, &c.value]);
    }
    ctx.describe(|| format!("metadata {} entry {}.{} key 0x{} value 0x{}", r.name, e.prefix, e.meta.name, hex::encode(&c.key), hex::encode(&c.value)));
    match variants(&mut t, ctx, &c, 4) {
        Ok(()) => Ok(()),
        Err(mut f) => {
            f.msg = format!("metadata {} entry {}.{}\n{}", r.name, e.prefix, e.meta.name, f.msg);
            Err(f)
        }
    }
}
