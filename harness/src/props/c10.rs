//! C10: calls and events belong to the pallet and item their indices select.

use std::sync::OnceLock;

use scale_info::{form::PortableForm, TypeDef, Variant};
use substrate_parser::cards::{Call, Event, ExtendedData, PalletSpecificData, ParsedData};
use substrate_parser::error::ParserError;

use crate::genreg::{instantiable, segs, Gen, Opts};
use crate::meta::*;
use crate::mutate::visit;
use crate::props::c01::{value_for, value_of, Val};
use crate::runner::{Ctx, Outcome, Property};
use crate::sut;
use crate::tape::Tape;
use crate::walk::{ref_decode, GenSrc, Hi, RefErr};
use crate::{ensure, fail};

const SPACE: u64 = 6_000;

pub static P: Property = Property {
    id: "C10",
    rule: "every call and event of all bundled metadata, and generated pallet layouts with scattered indices, nested calls and near misses of the pattern, with all unknown indices; non-trivial = the item has at least one argument, or the layout at least two pallets",
    assumptions: &[],
    tape_len: 1400,
    quick: 1_500_000,
    thorough: 30_000_000,
    run,
    enumerated: Some((SPACE, enumerated)),
    known_demos: &[],
    must_reach: &["real call", "real event", "call", "event", "nested call", "unknown pallet", "unknown item", "near miss", "scattered"],
};

#[derive(Clone, Copy)]
struct Item {
    meta: usize,
    call: bool,
    pallet: u8,
    item: u8,
    first: bool,
}

fn variants_of(ty: &TypeDef<PortableForm>) -> &[Variant<PortableForm>] {
    match ty {
        TypeDef::Variant(v) => &v.variants,
        _ => &[],
    }
}

/// Every call and event of all bundled metadata.
fn items() -> &'static Vec<Item> {
    static L: OnceLock<Vec<Item>> = OnceLock::new();
    L.get_or_init(|| {
        let mut l = Vec::new();
        for meta in 0..NAMES.len() {
            let r = real(meta);
            for (call, id) in [(true, r.call_ty), (false, r.event_ty)] {
                for p in variants_of(&r.reg.types[id as usize].ty.type_def) {
                    let inner = &r.reg.types[p.fields[0].ty.id as usize].ty;
                    for (k, x) in variants_of(&inner.type_def).iter().enumerate() {
                        l.push(Item { meta, call, pallet: p.index, item: x.index, first: k == 0 });
                    }
                }
            }
        }
        l
    })
}

fn data_of(d: &ParsedData, call: bool) -> Option<&PalletSpecificData> {
    match d {
        ParsedData::Call(Call(x)) if call => Some(x),
        ParsedData::Event(Event(x)) if !call => Some(x),
        _ => None,
    }
}

fn wrong_index(e: &Result<ExtendedData, sut::Pe>, position: usize) -> bool {
    matches!(e, Err(ParserError::UnexpectedEnumVariant { position: p }) if *p == position)
}

fn enumerated(i: u64, ctx: &mut Ctx) -> Outcome {
    let l = items();
    ensure!(l.len() as u64 <= SPACE && l.len() > 3000, "harness", "{} items", l.len());
    let Some(it) = l.get(i as usize) else { return ctx.discard() };
    let r = real(it.meta);
    let id = if it.call { r.call_ty } else { r.event_ty };
    ctx.label(if it.call { "real call" } else { "real event" });
    // what the indices mean, by direct lookup
    let outer = &r.reg.types[id as usize].ty;
    let p = variants_of(&outer.type_def).iter().find(|p| p.index == it.pallet).unwrap();
    let inner = &r.reg.types[p.fields[0].ty.id as usize].ty;
    let x = variants_of(&inner.type_def).iter().find(|x| x.index == it.item).unwrap();
    if !x.fields.is_empty() {
        ctx.interesting(&[&i.to_le_bytes()]);
    }
    ctx.describe(|| format!("metadata {} {} {}.{}", r.name, if it.call { "call" } else { "event" }, p.name, x.name));
    for rep in 0..2u64 {
        let b = tape_bytes(i * 2 + rep, 1400);
        let mut t = Tape::new(&b);
        let mut src = GenSrc::with_costs(&mut t, r.costs.clone());
        src.node_budget = 80;
        src.forced_variants = [it.pallet, it.item].into();
        let Some(v) = value_of(&r.reg, src, id, Hi::None) else { continue };
        ensure!(v.data[..2] == [it.pallet, it.item], "harness", "indices not forced");
        ctx.eval();
        let who = || format!("metadata {} pallet {} item {} data 0x{}", r.name, p.name, x.name, hex::encode(&v.data));
        let got = match sut::decode_all(&r.reg, id, &v.data) {
            Ok(g) => g,
            Err(e) => fail!("rejected", "{}: {e:?}", who()),
        };
        let Some(d) = data_of(&got.data, it.call) else { fail!("kind", "{}: not reported as a pallet item: {got:?}", who()) };
        let names: Vec<_> = d.fields.iter().map(|f| (f.field_name.clone(), f.type_name.clone(), f.field_docs.clone())).collect();
        let want: Vec<_> = x.fields.iter().map(|f| (f.name.clone(), f.type_name.clone(), f.docs.join("\n"))).collect();
        ensure!(d.pallet_name == p.name && d.variant_name == x.name && d.variant_docs == x.docs.join("\n"), "attribution", "{}: reported as {} {} ({})", who(), d.pallet_name, d.variant_name, d.variant_docs);
        ensure!(d.pallet_info.path == inner.path && d.pallet_info.docs == inner.docs.join("\n"), "pallet info", "{}: {:?}", who(), d.pallet_info);
        ensure!(names == want, "arguments", "{}: arguments {names:?}, expected {want:?}", who());
        ensure!(got == v.expected, "value", "{}\nexpected {:?}\ngot {got:?}", who(), v.expected);
        if it.call {
            let mut q = 0;
            let c = sut_call(&r.arc, &v.data, &mut q);
            ensure!(matches!(&c, Ok(Call(c)) if c == d) && q == v.data.len(), "call", "{}: {c:?} to {q}", who());
        }
    }
    if it.first {
        // all unused indices
        for k in 0..=255u8 {
            if variants_of(&inner.type_def).iter().all(|x| x.index != k) {
                ctx.label("unknown item");
                let mut d = vec![it.pallet, k];
                d.extend([0; 40]);
                let e = sut::decode_all(&r.reg, id, &d);
                ensure!(wrong_index(&e, 1), "unknown", "metadata {} {} has no item {k}, got {e:?}", r.name, p.name);
            }
            if variants_of(&outer.type_def).iter().all(|x| x.index != k) {
                ctx.label("unknown pallet");
                let mut d = vec![k, 0];
                d.extend([0; 40]);
                let e = sut::decode_all(&r.reg, id, &d);
                ensure!(wrong_index(&e, 0), "unknown", "metadata {} has no pallet {k}, got {e:?}", r.name);
            }
        }
    }
    Ok(())
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let mut g = Gen::new(t, Opts { max_types: 40, max_depth: 3, ..Opts::default() });
    let call = g.tape.chance(150);
    let strict = g.tape.chance(150);
    if g.tape.chance(60) {
        g.ty();
    }
    let id = g.pallet_enum(call, strict);
    let (mut reg, _) = g.finish();
    let mut miss = !strict;
    if t.chance(70) {
        // another path on the enum or on one of the pallets
        miss = true;
        let inner: Vec<u32> = variants_of(&reg.types[id as usize].ty.type_def).iter().flat_map(|v| v.fields.iter().map(|f| f.ty.id)).collect();
        let k = if t.chance(128) || inner.is_empty() { id } else { *t.pick(&inner) };
        let p: &[&str] = *t.pick(&[
            &["node_runtime", "RuntimeCall"][..],
            &["node_runtime", "RuntimeEvent"],
            &["RuntimeCall"],
            &["node", "runtime", "RuntimeCall"],
            &["node", "runtime", "Call"],
            &["a", "Call"],
            &["a", "Event"],
            &["a", "b", "c", "Event"],
            &["node_runtime", "Runtimecall"],
            &["node_runtime", "RuntimeCalls"],
            &["node_runtime", "Calls"],
            &["RuntimeCall", "node_runtime"],
            &["pallet", "pallet", "Error"],
            &[],
        ]);
        reg.types[k as usize].ty.path = segs(p);
    }
    ctx.label_if(miss, "near miss");
    if !instantiable(&reg, id) {
        return ctx.discard();
    }
    let Some(v): Option<Val> = value_for(t, &reg, id, Hi::None, 300) else { return ctx.discard() };
    ctx.describe(|| format!("type {id} of registry\n{}data 0x{}", sut::show_reg(&reg), hex::encode(&v.data)));
    let outer = &reg.types[id as usize].ty;
    let pallets = variants_of(&outer.type_def);
    ctx.label_if(pallets.iter().enumerate().any(|(i, p)| p.index as usize != i), "scattered");
    let got = match sut::decode_all(&reg, id, &v.data) {
        Ok(g) => g,
        Err(e) => fail!("rejected", "valid data rejected: {e:?}\ntype {id} of registry\n{}data 0x{}", sut::show_reg(&reg), hex::encode(&v.data)),
    };
    ensure!(got == v.expected, "value", "type {id} of registry\n{}data 0x{}\nexpected {:?}\ngot      {got:?}", sut::show_reg(&reg), hex::encode(&v.data), v.expected);
    let mut calls = 0;
    visit(&v.expected.data, &mut |d| calls += matches!(d, ParsedData::Call(_)) as u32);
    ctx.label_if(calls > 1, "nested call");
    if pallets.len() >= 2 {
        ctx.interesting(&[&v.data, &(reg.types.len() as u32).to_le_bytes(), format!("{:?}", pallets.iter().map(|p| p.index).collect::<Vec<_>>()).as_bytes()]);
    }
    if !miss {
        // straightforward lookup
        let p = pallets.iter().find(|p| p.index == v.data[0]).unwrap();
        let inner = &reg.types[p.fields[0].ty.id as usize].ty;
        let x = variants_of(&inner.type_def).iter().find(|x| x.index == v.data[1]).unwrap();
        ctx.label(if call { "call" } else { "event" });
        let Some(d) = data_of(&got.data, call) else { fail!("kind", "not reported as a pallet item: {got:?}\n{}", sut::show_reg(&reg)) };
        let same = d.pallet_name == p.name && d.variant_name == x.name && d.variant_docs == x.docs.join("\n") && d.fields.iter().map(|f| &f.field_name).eq(x.fields.iter().map(|f| &f.name));
        ensure!(same, "attribution", "0x{} is {}.{}, reported as {d:?}\n{}", hex::encode(&v.data), p.name, x.name, sut::show_reg(&reg));
        // unknown items of each pallet, unknown pallets
        let k = t.u8();
        for p in pallets {
            let inner = &reg.types[p.fields[0].ty.id as usize].ty;
            if variants_of(&inner.type_def).iter().all(|x| x.index != k) {
                ctx.eval();
                let e = sut::decode_all(&reg, id, &[&[p.index, k][..], &[0; 24]].concat());
                ensure!(wrong_index(&e, 1), "unknown", "item {k} of pallet {} is unknown, got {e:?}\n{}", p.name, sut::show_reg(&reg));
            }
        }
        if pallets.iter().all(|p| p.index != k) {
            ctx.eval();
            let e = sut::decode_all(&reg, id, &[&[k][..], &v.data[1..]].concat());
            ensure!(wrong_index(&e, 0), "unknown", "pallet {k} is unknown, got {e:?}\n{}", sut::show_reg(&reg));
        }
    }
    // any two bytes
    let mut d = v.data.clone();
    for k in 0..d.len().min(2) {
        if t.chance(128) {
            d[k] = t.u8();
        }
    }
    let (want, _) = ref_decode(&reg, id, &d, 0, Hi::None);
    if want != Err(RefErr::Budget) {
        let mut p = 0;
        let got = sut::decode_at(&reg, id, &d, &mut p);
        let same = match (&want, &got) {
            (Ok(a), Ok(b)) => a == b,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        ensure!(same, "indices", "data 0x{}\nexpected {want:?}\ngot {got:?}\n{}", hex::encode(&d), sut::show_reg(&reg));
    }
    Ok(())
}
