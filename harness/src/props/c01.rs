//! C01: decoding a SCALE-encoded value of any described type reports exactly
//! that value.

use scale_info::PortableRegistry;
use substrate_parser::cards::ExtendedData;

use crate::genreg::{instantiable, Gen, Opts, Shapes};
use crate::runner::{Ctx, Outcome, Property};
use crate::sut;
use crate::tape::Tape;
use crate::walk::{GenSrc, Hi, Mark, Walker};
use crate::{ensure, fail};

pub static P: Property = Property {
    id: "C01",
    rule: "random registry (nested structs, enums, tuples, vectors, arrays, compacts, bit sequences, special types, calls, recursion), random value of a random type of it, encoded by the reference encoder; non-trivial = at least 3 nodes and 2 encoded bytes",
    assumptions: &[],
    tape_len: 1400,
    quick: 4_000_000,
    thorough: 60_000_000,
    run,
    enumerated: None,
    known_demos: &[],
    must_reach: &["compact", "bits", "special", "pallet", "recursive", "deep", "sequence"],
};

pub struct GenCase {
    pub reg: PortableRegistry,
    pub id: u32,
    pub data: Vec<u8>,
    pub expected: ExtendedData,
    pub marks: Vec<Mark>,
    pub shapes: Shapes,
    pub nodes: u32,
    pub depth: u32,
    pub seqs: u32,
}

/// A registry, a type, a value and its encoding.
pub fn gen_case(t: &mut Tape, opts: Opts, hint: Hi) -> Option<GenCase> {
    let mut g = Gen::new(t, opts);
    let root = g.ty();
    // the leading type may be a lone primitive: usually wrap more around it
    let root = if g.types.len() < 3 && g.tape.chance(200) {
        let a = g.ty();
        let b = g.ty();
        let f = vec![g.field(root, true), g.field(a, true), g.field(b, false)];
        g.add(crate::genreg::segs(&["root", "Thing"]), scale_info::TypeDefComposite { fields: f }, vec![])
    } else {
        root
    };
    let (reg, shapes) = g.finish();
    gen_value(t, reg, shapes, root, hint)
}

pub struct Val {
    pub data: Vec<u8>,
    pub expected: ExtendedData,
    pub marks: Vec<Mark>,
    pub nodes: u32,
    pub depth: u32,
    pub seqs: u32,
}

/// A value of type `root` and its encoding.
pub fn value_for(t: &mut Tape, reg: &PortableRegistry, root: u32, hint: Hi, budget: u32) -> Option<Val> {
    let mut src = GenSrc::new(t, reg);
    src.node_budget = budget;
    value_of(reg, src, root, hint)
}

pub fn value_of(reg: &PortableRegistry, src: GenSrc, root: u32, hint: Hi) -> Option<Val> {
    let mut w = Walker::new(reg, src);
    let r = w.root_hinted(root, hint);
    let depth = w.max_depth_seen;
    let src = w.src;
    let (data, marks, nodes, seqs) = (src.out, src.marks, src.nodes, src.nonempty_seqs);
    match r {
        Ok(expected) => Some(Val { data, expected, marks, nodes, depth, seqs }),
        Err(_) => None,
    }
}

pub fn gen_value(t: &mut Tape, reg: PortableRegistry, shapes: Shapes, root: u32, hint: Hi) -> Option<GenCase> {
    if !instantiable(&reg, root) {
        return None;
    }
    let v = value_for(t, &reg, root, hint, 600)?;
    Some(GenCase { reg, id: root, data: v.data, expected: v.expected, marks: v.marks, shapes, nodes: v.nodes, depth: v.depth, seqs: v.seqs })
}

pub fn label_case(c: &GenCase, ctx: &mut Ctx) {
    ctx.label_if(c.shapes.compact > 0, "compact");
    ctx.label_if(c.shapes.bits > 0, "bits");
    ctx.label_if(c.shapes.special > 0, "special");
    ctx.label_if(c.shapes.pallet > 0, "pallet");
    ctx.label_if(c.shapes.recursive > 0, "recursive");
    ctx.label_if(c.shapes.lookalike > 0, "lookalike");
    ctx.label_if(c.shapes.hint > 0, "hint");
    ctx.label_if(c.shapes.husk > 0, "husk");
    ctx.label_if(c.depth >= 8, "deep");
    ctx.label_if(c.seqs > 0, "sequence");
    ctx.label_if(c.nodes >= 100, "large");
    if c.nodes >= 3 && c.data.len() >= 2 {
        ctx.interesting(&[&c.data, &(c.reg.types.len() as u32).to_le_bytes(), format!("{:?}", c.expected.info).as_bytes()]);
    }
}

pub fn show(c: &GenCase) -> String {
    format!("type {} of registry\n{}data 0x{}", c.id, sut::show_reg(&c.reg), hex::encode(&c.data))
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let Some(c) = gen_case(t, Opts::default(), Hi::None) else {
        return ctx.discard();
    };
    label_case(&c, ctx);
    ctx.describe(|| show(&c));
    match sut::decode_all(&c.reg, c.id, &c.data) {
        Ok(x) => ensure!(x == c.expected, "value", "decoded value differs\n{}\nexpected {:?}\ngot      {:?}", show(&c), c.expected, x),
        Err(e) => fail!("rejected", "valid encoding rejected: {e:?}\n{}\nexpected {:?}", show(&c), c.expected),
    }
    Ok(())
}
