//! C08: special types by path, and only by path.

use scale_info::{form::PortableForm, PortableRegistry, TypeDef, TypeDefArray, TypeDefComposite, TypeDefPrimitive};
use substrate_parser::cards::ParsedData;

use crate::genreg::{registry, segs, sym, Gen, Opts};
use crate::leaf::leaf_bytes;
use crate::mutate::{mutate, visit};
use crate::props::c01::value_for;
use crate::runner::{Ctx, Outcome, Property};
use crate::sut::{self, show_reg};
use crate::tape::Tape;
use crate::walk::{ref_decode, special, Hi, MarkKind, RefErr, Sp};
use crate::{ensure, fail};

pub static P: Property = Property {
    id: "C08",
    rule: "struct of special types and lookalikes, paths perturbed (ident case, suffix, moved, namespace changed, extended or dropped, another special name of the same shape), values generated, fractions and bytes then damaged; compared with the reference and with the same registry after all paths are erased; plus every special type alone at every fraction boundary; non-trivial = at least one special or lookalike path on a used type",
    assumptions: &["a type that carries a special path also has the shape of that special type (other shapes are covered by C04)"],
    tape_len: 700,
    quick: 1_000_000,
    thorough: 50_000_000,
    run,
    enumerated: Some((ENUM, enumerated)),
    known_demos: &[],
    must_reach: &["id", "H160", "H256", "H512", "era", "multi", "per", "public", "signature", "call", "event", "near miss", "fraction out of range", "erased", "any shape"],
};

const BY_SIZE: &[(u32, &[&[&str]])] = &[
    (20, &[&["primitive_types", "H160"], &["account", "AccountId20"], &["H160"], &["x", "y", "AccountId20"]]),
    (32, &[&["sp_core", "crypto", "AccountId32"], &["AccountId32"], &["x", "AccountId32"], &["primitive_types", "H256"], &["H256"], &["sp_core", "ed25519", "Public"], &["sp_core", "sr25519", "Public"]]),
    (33, &[&["sp_core", "ecdsa", "Public"]]),
    (64, &[&["primitive_types", "H512"], &["H512"], &["sp_core", "ed25519", "Signature"], &["sp_core", "sr25519", "Signature"]]),
    (65, &[&["sp_core", "ecdsa", "Signature"]]),
];

fn size_of_bytes_struct(reg: &[scale_info::Type<PortableForm>], i: usize) -> Option<u32> {
    let TypeDef::Composite(c) = &reg[i].type_def else { return None };
    if c.fields.len() != 1 {
        return None;
    }
    match &reg.get(c.fields[0].ty.id as usize)?.type_def {
        TypeDef::Array(a) if reg.get(a.type_param.id as usize)?.type_def == TypeDef::Primitive(TypeDefPrimitive::U8) => Some(a.len),
        _ => None,
    }
}

/// Change the path, sometimes to something that is nearly special.
fn perturb(t: &mut Tape, types: &mut [scale_info::Type<PortableForm>], i: usize) -> bool {
    let path = &mut types[i].path.segments.clone();
    let sp = special(&types[i]);
    if sp == Sp::None && path.is_empty() {
        return false;
    }
    match t.below(12) {
        10 => {
            if let Some(l) = path.last_mut() {
                *l = crate::dict::near(t, l);
            }
        }
        0 => {
            if let Some(l) = path.last_mut() {
                *l = l.to_lowercase();
            }
        }
        1 => {
            if let Some(l) = path.last_mut() {
                l.push_str(t.pick(&["s", "2", "_", " ", "\u{0}"]));
            }
        }
        2 => path.push("Inner".into()),
        3 => {
            path.insert(0, t.pick(&["crate", "sp_core", "sp_runtime"]).to_string());
        }
        4 => {
            if path.len() > 1 {
                path.remove(0);
            }
        }
        5 => path.reverse(),
        6 => {
            let n = path.len();
            if n > 1 {
                path[n - 2] = t.pick(&["ed25519", "sr25519", "ecdsa", "Ed25519", "bls381", "sr25519 "]).to_string();
            }
        }
        7 => {
            if let Some(f) = path.first_mut() {
                *f = t.pick(&["sp_core", "sp_application_crypto", "core", "SP_CORE"]).to_string();
            }
        }
        8 | 9 => {
            if let Some(n) = size_of_bytes_struct(types, i) {
                if let Some((_, ps)) = BY_SIZE.iter().find(|(k, _)| *k == n) {
                    *path = t.pick(ps).iter().map(|s| s.to_string()).collect();
                }
            }
        }
        _ => path.clear(),
    }
    let old = types[i].path.clone();
    types[i].path.segments = path.clone();
    let now = special(&types[i]);
    // never give a special name to a type of another shape
    let fits = match (sp, now) {
        (_, Sp::None) => true,
        (a, b) if a == b => true,
        (_, Sp::Id | Sp::H256) => size_of_bytes_struct(types, i) == Some(32),
        (_, Sp::H160) => size_of_bytes_struct(types, i) == Some(20),
        (_, Sp::H512) => size_of_bytes_struct(types, i) == Some(64),
        (_, Sp::Pub(crate::walk::KeyKind::Ec)) => size_of_bytes_struct(types, i) == Some(33),
        (_, Sp::Pub(_)) => size_of_bytes_struct(types, i) == Some(32),
        (_, Sp::Sig(crate::walk::KeyKind::Ec)) => size_of_bytes_struct(types, i) == Some(65),
        (_, Sp::Sig(_)) => size_of_bytes_struct(types, i) == Some(64),
        _ => false,
    };
    if !fits || (sp != Sp::None && matches!(now, Sp::Per(_)) && sp != now) {
        types[i].path = old;
        return false;
    }
    true
}

fn bit_order_ids(reg: &[scale_info::Type<PortableForm>]) -> Vec<u32> {
    reg.iter()
        .filter_map(|t| match &t.type_def {
            TypeDef::BitSequence(b) => Some(b.bit_order_type.id),
            _ => None,
        })
        .collect()
}

fn erase(reg: &PortableRegistry) -> PortableRegistry {
    let mut r = reg.clone();
    let types: Vec<_> = r.types.iter().map(|t| t.ty.clone()).collect();
    let keep = bit_order_ids(&types);
    for t in &mut r.types {
        if !keep.contains(&t.id) {
            t.ty.path.segments.clear();
        }
    }
    r
}

const PATHS: &[&[&str]] = &[
    &["sp_core", "crypto", "AccountId32"],
    &["sp_runtime", "generic", "era", "Era"],
    &["primitive_types", "H160"],
    &["account", "AccountId20"],
    &["primitive_types", "H256"],
    &["primitive_types", "H512"],
    &["sp_arithmetic", "per_things", "Perbill"],
    &["sp_arithmetic", "per_things", "Percent"],
    &["sp_arithmetic", "per_things", "Permill"],
    &["sp_arithmetic", "per_things", "Perquintill"],
    &["sp_arithmetic", "per_things", "PerU16"],
    &["sp_core", "ed25519", "Public"],
    &["sp_core", "sr25519", "Public"],
    &["sp_core", "ecdsa", "Public"],
    &["sp_core", "ed25519", "Signature"],
    &["sp_core", "sr25519", "Signature"],
    &["sp_core", "ecdsa", "Signature"],
    &["sp_runtime", "MultiSignature"],
    &["x", "RuntimeCall"],
    &["x", "Event"],
    &["sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic"],
];

/// The well-known paths on types defined in any way.
fn any_shape(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let mut g = Gen::new(t, Opts { max_types: 12, max_depth: 3, ..Opts::default() });
    let a = g.ty();
    let b = match g.tape.below(5) {
        0 => g.bits(),
        1 => {
            let fields = vec![sym(a); g.tape.below(3)];
            g.add(segs(&[]), scale_info::TypeDefTuple { fields }, vec![])
        }
        2 => g.variant_ty(),
        _ => g.ty(),
    };
    let fields = vec![g.field(a, true), g.field(b, true)];
    let root = g.add(segs(&["root", "Thing"]), TypeDefComposite { fields }, vec![]);
    let mut types = std::mem::take(&mut g.types);
    drop(g);
    for k in 0..t.range(1, 3) {
        let i = if k == 0 && t.chance(180) { *t.pick(&[a, b]) as usize } else { t.below(types.len()) };
        types[i].path.segments = t.pick(PATHS).iter().map(|s| s.to_string()).collect();
    }
    let reg = registry(types);
    let mut data = match crate::genreg::instantiable(&reg, root).then(|| value_for(t, &reg, root, Hi::None, 100)).flatten() {
        Some(v) => v.data,
        None => vec![],
    };
    if data.is_empty() || t.chance(80) {
        let n = t.below(140);
        data.extend(t.bytes(n));
    }
    ctx.label("any shape");
    ctx.interesting(&[&data, show_reg(&reg).as_bytes()]);
    let show = || format!("type {root} of registry\n{}data 0x{}", show_reg(&reg), hex::encode(&data));
    ctx.describe(show);
    let (want, end) = ref_decode(&reg, root, &data, 0, Hi::None);
    if want == Err(RefErr::Budget) {
        return ctx.discard();
    }
    let mut p = 0;
    match (want, sut::decode_at(&reg, root, &data, &mut p)) {
        (Ok(a), Ok(b)) => ensure!(a == b && p == end, "shape-value", "{}\nexpected {end} {a:?}\ngot {p} {b:?}", show()),
        (Err(_), Err(_)) => {}
        (a, b) => fail!("shape-verdict", "{}\nexpected {a:?}\ngot {b:?}", show()),
    }
    Ok(())
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    if t.chance(30) {
        return any_shape(t, ctx);
    }
    let opts = Opts { max_types: 30, max_depth: 3, hints: t.chance(60), ..Opts::default() };
    let mut g = Gen::new(t, opts);
    let n = g.tape.range(1, 5);
    let mut fields = Vec::new();
    for _ in 0..n {
        let ty = match g.tape.weighted(&[8, 2, 1, 2, 2]) {
            0 => g.special(),
            1 => {
                let call = g.tape.chance(128);
                g.pallet_enum(call, false)
            }
            2 => g.ty(),
            3 => {
                let p = g.per_thing();
                g.add(segs(&[]), scale_info::TypeDefCompact::new(sym(p)), vec![])
            }
            _ => {
                let s = g.special();
                match g.tape.below(4) {
                    0 => g.wrapper(s),
                    1 => g.add(segs(&[]), scale_info::TypeDefSequence::new(sym(s)), vec![]),
                    2 => {
                        let k = g.tape.below(4) as u32;
                        g.add(segs(&[]), TypeDefArray::new(k, sym(s)), vec![])
                    }
                    _ => g.add(segs(&[]), scale_info::TypeDefTuple { fields: vec![sym(s), sym(s)] }, vec![]),
                }
            }
        };
        let f = g.field(ty, true);
        fields.push(f);
    }
    let root = g.add(segs(&["root", "Thing"]), TypeDefComposite { fields }, vec![]);
    let mut types = std::mem::take(&mut g.types);
    drop(g);
    let orders = bit_order_ids(&types);
    let mut near = 0;
    for _ in 0..t.below(6) {
        let i = t.below(types.len());
        if !orders.contains(&(i as u32)) && perturb(t, &mut types, i) {
            near += 1;
        }
    }
    let any = types.iter().any(|x| special(x) != Sp::None);
    let reg = registry(types);
    let root = if t.chance(30) { t.below(reg.types.len()) as u32 } else { root };
    if !crate::genreg::instantiable(&reg, root) {
        return ctx.discard();
    }
    let Some(v) = value_for(t, &reg, root, Hi::None, 300) else {
        return ctx.discard();
    };
    ctx.label_if(near > 0, "near miss");
    let show = || format!("type {root} of registry\n{}data 0x{}", show_reg(&reg), hex::encode(&v.data));
    ctx.describe(show);
    if (any || near > 0) && v.data.len() > 1 {
        ctx.interesting(&[&v.data, &(reg.types.len() as u32).to_le_bytes()]);
    }
    let mut labels: Vec<&'static str> = vec![];
    visit(&v.expected.data, &mut |d| {
        let l = match d {
            ParsedData::Id(_) => "id",
            ParsedData::H160(_) => "H160",
            ParsedData::H256(_) => "H256",
            ParsedData::H512(_) => "H512",
            ParsedData::Era(_) => "era",
            ParsedData::SignatureEd25519(_) | ParsedData::SignatureSr25519(_) | ParsedData::SignatureEcdsa(_) => "signature",
            ParsedData::PublicEd25519(_) | ParsedData::PublicSr25519(_) | ParsedData::PublicEcdsa(_) => "public",
            ParsedData::PerU16(_) | ParsedData::Percent(_) | ParsedData::Permill(_) | ParsedData::Perbill(_) | ParsedData::Perquintill(_) => "per",
            ParsedData::Call(_) => "call",
            ParsedData::Event(_) => "event",
            _ => return,
        };
        labels.push(l);
    });
    ctx.label_if(reg.types.iter().any(|t| special(&t.ty) == Sp::MultiSig), "multi");
    for l in labels {
        ctx.label(l);
    }
    let mut p = 0;
    let a = match sut::decode_at(&reg, root, &v.data, &mut p) {
        Ok(x) => x,
        Err(e) => fail!("rejected", "valid encoding rejected: {e:?}\n{}\nexpected {:?}", show(), v.expected),
    };
    ensure!(a == v.expected && p == v.data.len(), "value", "{}\nexpected {:?}\ngot {p} {a:?}", show(), v.expected);

    // paths erased: the same content, the same consumption
    ctx.label("erased");
    ctx.eval();
    let bare = erase(&reg);
    let (r, _) = ref_decode(&bare, root, &v.data, 0, Hi::None);
    if r == Err(RefErr::Budget) {
        return Ok(());
    }
    let mut q = 0;
    match sut::decode_at(&bare, root, &v.data, &mut q) {
        Ok(b) => {
            ensure!(q == p, "erased-consumption", "with paths {p} bytes are used, without paths {q}\n{}", show());
            let (x, y) = (leaf_bytes(&a.data), leaf_bytes(&b.data));
            ensure!(x == y, "erased-content", "content with paths 0x{}, without 0x{}\n{}\n{a:?}\n{b:?}", hex::encode(&x), hex::encode(&y), show());
        }
        Err(e) => fail!("erased-rejected", "accepted with paths, rejected without: {e:?}\n{}", show()),
    }

    // damage
    for _ in 0..2 {
        ctx.eval();
        let mut d = v.data.clone();
        let pers: Vec<_> = v.marks.iter().filter(|m| m.kind == MarkKind::Per).copied().collect();
        if !pers.is_empty() && t.chance(160) {
            let m = *t.pick(&pers);
            let w = m.end - m.start;
            let val = match t.below(4) {
                0 => u128::MAX,
                1 => {
                    let k = *t.pick(&[100u128, 1_000_000, 1_000_000_000, 1_000_000_000_000_000_000]);
                    k + 1
                }
                _ => t.u128(),
            };
            d[m.start..m.end].copy_from_slice(&val.to_le_bytes()[..w]);
        } else {
            mutate(t, &mut d, &v.marks);
        }
        let (r, rp) = ref_decode(&reg, root, &d, 0, Hi::None);
        if r == Err(RefErr::Budget) {
            continue;
        }
        let mut p = 0;
        let s = sut::decode_at(&reg, root, &d, &mut p);
        match (r, s) {
            (Ok(a), Ok(b)) => ensure!(a == b && p == rp, "damaged", "0x{}: expected end {rp} {a:?}\ngot {p} {b:?}\n{}", hex::encode(&d), show()),
            (Err(e), Err(_)) => ctx.label_if(matches!(e, RefErr::Type { ty: "PerU16" | "Percent" | "Permill" | "Perbill" | "Perquintill", .. }), "fraction out of range"),
            (a, b) => fail!("damaged-verdict", "0x{}: expected {a:?}\ngot {b:?}\n{}", hex::encode(&d), show()),
        }
    }
    Ok(())
}

// Every fraction alone, around every boundary; no interpreter involved.
const ENUM: u64 = 5 * 2 * 80;

fn enumerated(i: u64, ctx: &mut Ctx) -> Outcome {
    let kind = (i % 5) as usize;
    let compact = (i / 5) % 2 == 1;
    let k = i / 10;
    let (name, prim, bits, max) = [
        ("PerU16", TypeDefPrimitive::U16, 16u32, 65535u128),
        ("Percent", TypeDefPrimitive::U8, 8, 100),
        ("Permill", TypeDefPrimitive::U32, 32, 1_000_000),
        ("Perbill", TypeDefPrimitive::U32, 32, 1_000_000_000),
        ("Perquintill", TypeDefPrimitive::U64, 64, 1_000_000_000_000_000_000),
    ][kind]
        .clone();
    let top = (1u128 << bits) - 1;
    let v = if k < 65 { 1u128 << k } else { [0, 99, 100, 101, 999_999, 1_000_000, 1_000_001, 999_999_999, 1_000_000_000, 1_000_000_001, 999_999_999_999_999_999, 1_000_000_000_000_000_000, 1_000_000_000_000_000_001, u64::MAX as u128, 65535][k as usize - 65] };
    let v = v.min(top);
    ctx.interesting(&[&v.to_le_bytes(), &[kind as u8, compact as u8]]);
    let types = vec![
        scale_info::Type::new(segs(&[]), vec![], prim, vec![]),
        scale_info::Type::new(segs(&["sp_arithmetic", "per_things", name]), vec![], TypeDefComposite { fields: vec![scale_info::Field { name: None, ty: sym(0), type_name: None, docs: vec![] }] }, vec![]),
        scale_info::Type::new(segs(&[]), vec![], scale_info::TypeDefCompact::new(sym(1)), vec![]),
    ];
    let reg = registry(types);
    let data = if compact { crate::walk::compact_bytes(v) } else { v.to_le_bytes()[..bits as usize / 8].to_vec() };
    let r = sut::decode_all(&reg, 1 + compact as u32, &data);
    let got = r.as_ref().ok().map(|x| match &x.data {
        ParsedData::PerU16(x) => (x.deconstruct() as u128, "PerU16"),
        ParsedData::Percent(x) => (x.deconstruct() as u128, "Percent"),
        ParsedData::Permill(x) => (x.deconstruct() as u128, "Permill"),
        ParsedData::Perbill(x) => (x.deconstruct() as u128, "Perbill"),
        ParsedData::Perquintill(x) => (x.deconstruct() as u128, "Perquintill"),
        _ => (0, "other"),
    });
    if v <= max {
        ensure!(got == Some((v, name)), "fraction", "{name} (compact {compact}) of 0x{} decoded as {r:?}", hex::encode(&data));
    } else if !compact {
        ensure!(r.is_err(), "fraction", "{name} {v} beyond its maximum decoded as {r:?}");
    } else {
        // compact form: refused or saturated, never reported beyond the maximum
        ensure!(got.map_or(true, |(x, k)| x <= max && k == name), "fraction", "compact {name} {v} decoded as {r:?}");
    }
    Ok(())
}
