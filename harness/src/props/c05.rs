//! C05: cyclic metadata.

use scale_info::{form::PortableForm, Field, TypeDef, TypeDefArray, TypeDefCompact, TypeDefComposite, TypeDefSequence, TypeDefTuple, TypeDefVariant, Variant};
use substrate_parser::cards::ExtendedData;
use substrate_parser::decoding_sci::husk_type;
use substrate_parser::error::{ParserError, RegistryError, RegistryInternalError};
use substrate_parser::propagated::Checker;

use crate::genreg::{registry, segs, sym, Gen, Opts};
use crate::props::c27::{far_apart, SpreadMeta};
use crate::props::c01::{gen_case, value_for};
use crate::runner::{Ctx, Outcome, Property};
use crate::sut::{self, show_reg};
use crate::tape::Tape;
use crate::walk::{ref_decode, special, Hi, PTy, RefErr, Sp};
use crate::{ensure, fail};

pub static P: Property = Property {
    id: "C05",
    rule: "registries with a cycle of 1-6 links (struct field, tuple element, array element, vector element, compact, enum field), entered at any link and with or without data around it, decided by reachability without length or choice; and shared or soundly recursive types, up to 255 different layers one in the other, also with type numbers spread over the whole range; non-trivial = a cycle or sharing is present",
    assumptions: &[],
    tape_len: 700,
    quick: 2_000_000,
    thorough: 100_000_000,
    run,
    enumerated: None,
    known_demos: &[],
    must_reach: &["unsound", "sound cycle", "empty data", "husk cycle", "shared", "deep value", "through vector element", "through array", "through compact", "layers", "over 100 layers", "far apart"],
};

fn is_cyclic(e: &ParserError<()>) -> Option<u32> {
    match e {
        ParserError::Registry(RegistryError::Internal(RegistryInternalError::CyclicMetadata { id })) => Some(*id),
        _ => None,
    }
}

fn field(id: u32) -> Field<PortableForm> {
    Field { name: None, ty: sym(id), type_name: None, docs: vec![] }
}

/// Ids lying on some reference cycle of any kind.
fn on_cycle(types: &[PTy]) -> Vec<bool> {
    let n = types.len();
    let succ = |i: usize| -> Vec<usize> {
        match &types[i].type_def {
            TypeDef::Composite(c) => c.fields.iter().map(|f| f.ty.id as usize).collect(),
            TypeDef::Tuple(c) => c.fields.iter().map(|f| f.id as usize).collect(),
            TypeDef::Array(a) => vec![a.type_param.id as usize],
            TypeDef::Sequence(a) => vec![a.type_param.id as usize],
            TypeDef::Compact(a) => vec![a.type_param.id as usize],
            TypeDef::Variant(v) => v.variants.iter().flat_map(|v| v.fields.iter().map(|f| f.ty.id as usize)).collect(),
            _ => vec![],
        }
    };
    (0..n)
        .map(|s| {
            let mut seen = vec![false; n];
            let mut todo = succ(s);
            while let Some(x) = todo.pop() {
                if x == s {
                    return true;
                }
                if x < n && !seen[x] {
                    seen[x] = true;
                    todo.extend(succ(x));
                }
            }
            false
        })
        .collect()
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    match t.below(4) {
        0 => sound(t, ctx),
        _ => cycle(t, ctx),
    }
}

/// A ring of types, each link of a random kind.
fn cycle(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let long = t.rare(1);
    let len = if long { *t.pick(&[7usize, 9, 20, 33, 64, 65, 70, 100, 128, 130, 256, 257, 300]) } else { t.range(1, 6) };
    if long {
        t.spill();
    }
    let spread = t.range(1, 7);
    let mut g = Gen::new(t, Opts { recursion: false, calls: false, max_types: 40, max_depth: 2, lookalikes: false, ..Opts::default() });
    let base = g.types.len() as u32;
    // placeholders for the ring
    for _ in 0..len {
        g.add(segs(&[]), TypeDefTuple { fields: vec![] }, vec![]);
    }
    let mut kinds = Vec::new();
    for i in 0..len {
        let next = base + ((i + 1) % len) as u32;
        let me = base + i as u32;
        let kind = if long { [0, 6, 1, 2, 0, 3, 2][g.tape.below(spread)] } else { g.tape.weighted(&[5, 3, 3, 2, 2, 1, 2]) };
        kinds.push(kind);
        let rich = if long { 4 } else { 70 };
        let path = if g.tape.chance(120) { segs(&["ring", "Ring"]) } else { segs(&[]) };
        let def: TypeDef<PortableForm> = match kind {
            0 | 1 => {
                // only field, or among others
                let before = if g.tape.chance(rich) { g.tape.range(1, 2) } else { 0 };
                let after = if g.tape.chance(rich) { g.tape.range(1, 2) } else { 0 };
                let mut ids: Vec<u32> = (0..before).map(|_| g.ty()).collect();
                ids.push(next);
                ids.extend((0..after).map(|_| g.ty()));
                if kind == 0 {
                    TypeDefComposite { fields: ids.into_iter().map(field).collect() }.into()
                } else {
                    TypeDefTuple { fields: ids.into_iter().map(sym).collect() }.into()
                }
            }
            2 => TypeDefArray::new(if long { 1 } else { g.tape.below(4) as u32 }, sym(next)).into(),
            3 => TypeDefCompact::new(sym(next)).into(),
            4 => TypeDefSequence::new(sym(next)).into(),
            5 => {
                let mut variants = vec![Variant { name: "Again".into(), fields: vec![field(next)], index: 0, docs: vec![] }];
                variants.push(Variant { name: "End".into(), fields: vec![], index: 1, docs: vec![] });
                TypeDefVariant { variants }.into()
            }
            _ => TypeDefComposite { fields: vec![field(next)] }.into(),
        };
        g.types[me as usize] = scale_info::Type::new(path, Vec::<scale_info::TypeParameter<PortableForm>>::new(), def, vec![]);
    }
    let mut root = base + g.tape.below(len) as u32;
    for _ in 0..g.tape.below(3) {
        root = g.wrapper(root);
    }
    let types = std::mem::take(&mut g.types);
    let cyc = on_cycle(&types);
    let reg = registry(types);
    let n = if t.chance(80) { 0 } else { t.range(1, 300) };
    let mut data = t.bytes(n);
    // small lengths and low enum indices keep going round
    for b in data.iter_mut() {
        if t.chance(128) {
            *b = (*b & 3) << 2;
        }
    }
    ctx.interesting(&[&data, show_reg(&reg).as_bytes(), &root.to_le_bytes()]);
    ctx.describe(|| format!("ring of {len}, type {root}\n{}data 0x{}", show_reg(&reg), hex::encode(&data)));
    for (k, l) in [(2, "through array"), (3, "through compact"), (4, "through vector element"), (5, "through enum")] {
        ctx.label_if(kinds.contains(&k), l);
    }
    ctx.label_if(data.is_empty(), "empty data");
    ctx.label_if(long, "long ring");

    // reachability: entered by plain containment only, nothing before it
    let forced = first_position_cycle(&reg, root);
    let (r, rp) = ref_decode(&reg, root, &data, 0, Hi::None);
    if r == Err(RefErr::Budget) {
        return ctx.discard();
    }
    let mut p = 0;
    let s = sut::decode_at(&reg, root, &data, &mut p);
    if forced {
        ctx.label("unsound");
        match &s {
            Err(e) if is_cyclic(e).is_some() => {}
            Err(ParserError::Registry(RegistryError::Internal(RegistryInternalError::UnexpectedCompactInsides { .. }))) if kinds.contains(&3) => {}
            x => fail!("undetected", "type {root} contains itself at its very start, answer {x:?}\n{}data 0x{}", show_reg(&reg), hex::encode(&data)),
        }
    }
    match (&r, &s) {
        (Ok(a), Ok(b)) => {
            ctx.label("sound cycle");
            ensure!(a == b && p == rp, "value", "type {root}: expected {rp} {a:?}\ngot {p} {b:?}\n{}data 0x{}", show_reg(&reg), hex::encode(&data));
        }
        (Err(RefErr::Cyclic), Err(e)) => match is_cyclic(e) {
            Some(id) => ensure!(cyc.get(id as usize) == Some(&true), "wrong-id", "reported as cyclic type {id}, which lies on no cycle\n{}", show_reg(&reg)),
            None => fail!("misreported", "type {root} cyclic, reported {e:?}\n{}data 0x{}", show_reg(&reg), hex::encode(&data)),
        },
        // both wrong: a misplaced compact, and within it a cycle
        (Err(RefErr::CompactInside), Err(e)) if is_cyclic(e).is_some_and(|id| cyc.get(id as usize) == Some(&true)) => {}
        (Err(_), Err(e)) => ensure!(is_cyclic(e).is_none(), "false-cycle", "reported {e:?}, while decoding ends earlier: {r:?}\n{}data 0x{}", show_reg(&reg), hex::encode(&data)),
        (a, b) => fail!("verdict", "type {root}: expected {a:?}\ngot {b:?}\n{}data 0x{}", show_reg(&reg), hex::encode(&data)),
    }

    // direct husking of every ring member
    for i in (0..len as u32).step_by(1 + len / 30) {
        let id = base + i;
        let expect = husk_cycles(&reg, id);
        let h = husk_type::<(), frame_metadata::v14::RuntimeMetadataV14>(&sym(id), &reg, &mut (), Checker::new());
        let got = matches!(&h, Err(RegistryError::Internal(RegistryInternalError::CyclicMetadata { .. })));
        ctx.label_if(expect == Some(true), "husk cycle");
        if let Some(e) = expect {
            ensure!(e == got, "husk", "husking type {id}: cyclic {e} expected, got {h:?}\n{}", show_reg(&reg));
        }
    }
    Ok(())
}

/// Single-field and compact layers from `id` lead back into themselves.
/// `None`: a compact inside a compact comes first.
fn husk_cycles(reg: &scale_info::PortableRegistry, id: u32) -> Option<bool> {
    let mut seen = Vec::new();
    let mut id = id;
    let mut compact = false;
    loop {
        if seen.contains(&id) {
            return Some(true);
        }
        seen.push(id);
        let ty = &reg.types[id as usize].ty;
        if special(ty) != Sp::None {
            return Some(false);
        }
        match &ty.type_def {
            TypeDef::Composite(c) if c.fields.len() == 1 => id = c.fields[0].ty.id,
            TypeDef::Compact(c) => {
                if compact {
                    return None;
                }
                compact = true;
                id = c.type_param.id
            }
            _ => return Some(false),
        }
    }
}

/// The first thing inside `id` is, again and again, a type of the same chain.
fn first_position_cycle(reg: &scale_info::PortableRegistry, id: u32) -> bool {
    let mut seen = Vec::new();
    let mut id = id;
    loop {
        if seen.contains(&id) {
            return true;
        }
        seen.push(id);
        let ty = &reg.types[id as usize].ty;
        if special(ty) != Sp::None {
            return false;
        }
        id = match &ty.type_def {
            TypeDef::Composite(c) if !c.fields.is_empty() => c.fields[0].ty.id,
            TypeDef::Tuple(c) if !c.fields.is_empty() => c.fields[0].id,
            TypeDef::Array(a) if a.len > 0 => a.type_param.id,
            TypeDef::Compact(c) => c.type_param.id,
            _ => return false,
        };
    }
}

/// Same with types under numbers far apart.
fn far(t: &mut Tape, ctx: &mut Ctx, reg: &scale_info::PortableRegistry, id: u32, data: &[u8], want: &ExtendedData) -> Outcome {
    if !t.chance(60) {
        return Ok(());
    }
    ctx.label("far apart");
    let (far, id2) = far_apart(t, reg, id);
    let s = substrate_parser::decode_all_as_type::<&[u8], (), SpreadMeta>(&sym(id2), &data, &mut (), &far);
    ensure!(matches!(&s, Ok(x) if x == want), "far apart", "type {id}\n{}data 0x{}\nas type {id2} of {far:?}\nexpected {want:?}\ngot {s:?}", show_reg(reg), hex::encode(data));
    Ok(())
}

/// Many different layers, one in the other.
fn layers(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let mut g = Gen::new(t, Opts { recursion: false, max_types: 400, max_depth: 1, ..Opts::default() });
    let mut id = g.prim(scale_info::TypeDefPrimitive::U16);
    let n = 1 << g.tape.below(8);
    let n = n + g.tape.below(n);
    let kinds = g.tape.range(1, 6);
    for i in 0..n {
        id = match g.tape.below(kinds) {
            0 => g.add(segs(&["S"]), TypeDefComposite { fields: vec![field(id)] }, vec![format!("layer {i}")]),
            1 => g.add(segs(&[]), TypeDefTuple { fields: vec![sym(id)] }, vec![]),
            2 => g.add(segs(&[]), TypeDefArray::new(1, sym(id)), vec![]),
            3 => g.add(segs(&[]), TypeDefSequence::new(sym(id)), vec![]),
            4 => g.add(segs(&["E"]), TypeDefVariant { variants: vec![Variant { name: "A".into(), fields: vec![field(id)], index: i as u8, docs: vec![] }] }, vec![]),
            _ => g.add(segs(&[]), TypeDefTuple { fields: vec![sym(id), sym(0)] }, vec![]),
        };
    }
    let (reg, _) = g.finish();
    let Some(v) = value_for(t, &reg, id, Hi::None, 600) else {
        return ctx.discard();
    };
    ctx.label("layers");
    ctx.label_if(n > 100, "over 100 layers");
    ctx.interesting(&[&v.data, show_reg(&reg).as_bytes()]);
    ctx.describe(|| format!("{n} layers, type {id}\n{}data 0x{}", show_reg(&reg), hex::encode(&v.data)));
    let s = sut::decode_all(&reg, id, &v.data);
    ensure!(matches!(&s, Ok(x) if *x == v.expected), "layers", "{n} layers, type {id}\n{}data 0x{}\nexpected {:?}\ngot {s:?}", show_reg(&reg), hex::encode(&v.data), v.expected);
    far(t, ctx, &reg, id, &v.data, &v.expected)
}

/// Sharing and sound recursion are no cycles.
fn sound(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    if t.chance(6) {
        return layers(t, ctx);
    }
    if t.chance(128) {
        let mut g = Gen::new(t, Opts { recursion: false, max_types: 20, max_depth: 2, ..Opts::default() });
        let mut id = g.ty();
        for _ in 0..g.tape.range(1, 4) {
            id = match g.tape.below(5) {
                0 => g.add(segs(&[]), TypeDefTuple { fields: vec![sym(id), sym(id)] }, vec![]),
                1 => g.add(segs(&["S"]), TypeDefComposite { fields: vec![field(id), field(id)] }, vec![]),
                2 => {
                    let n = g.tape.range(1, 3) as u32;
                    g.add(segs(&[]), TypeDefArray::new(n, sym(id)), vec![])
                }
                3 => g.add(segs(&[]), TypeDefSequence::new(sym(id)), vec![]),
                _ => {
                    let v = vec![Variant { name: "A".into(), fields: vec![field(id), field(id)], index: 0, docs: vec![] }, Variant { name: "B".into(), fields: vec![field(id)], index: 1, docs: vec![] }];
                    g.add(segs(&["E"]), TypeDefVariant { variants: v }, vec![])
                }
            };
        }
        let (reg, _) = g.finish();
        let Some(v) = value_for(t, &reg, id, Hi::None, 200) else {
            return ctx.discard();
        };
        ctx.label("shared");
        ctx.interesting(&[&v.data, show_reg(&reg).as_bytes()]);
        ctx.describe(|| format!("shared types, type {id}\n{}data 0x{}", show_reg(&reg), hex::encode(&v.data)));
        let s = sut::decode_all(&reg, id, &v.data);
        ensure!(matches!(&s, Ok(x) if *x == v.expected), "shared", "type {id}\n{}data 0x{}\nexpected {:?}\ngot {s:?}", show_reg(&reg), hex::encode(&v.data), v.expected);
        return far(t, ctx, &reg, id, &v.data, &v.expected);
    }
    let Some(c) = gen_case(t, Opts { max_types: 20, ..Opts::default() }, Hi::None) else {
        return ctx.discard();
    };
    if c.shapes.recursive == 0 {
        return ctx.discard();
    }
    ctx.label_if(c.depth > 10, "deep value");
    ctx.interesting(&[&c.data, show_reg(&c.reg).as_bytes()]);
    ctx.describe(|| crate::props::c01::show(&c));
    let s = sut::decode_all(&c.reg, c.id, &c.data);
    ensure!(matches!(&s, Ok(x) if *x == c.expected), "recursive", "{}\nexpected {:?}\ngot {s:?}", crate::props::c01::show(&c), c.expected);
    far(t, ctx, &c.reg, c.id, &c.data, &c.expected)
}
