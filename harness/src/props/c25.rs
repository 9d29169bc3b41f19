//! C25: documentation and names are carried over.

use scale_info::{form::PortableForm, Field, PortableRegistry, TypeDef};
use substrate_parser::cards::{ExtendedData, FieldData, Info, ParsedData, Sequence};

use crate::genreg::{Gen, Opts};
use crate::props::c01::gen_value;
use crate::runner::{Ctx, Outcome, Property};
use crate::sut::{self, show_reg};
use crate::tape::Tape;
use crate::walk::{special, Hi, Sp};
use crate::{ensure, fail};

pub static P: Property = Property {
    id: "C25",
    rule: "generated registry in which every type path, type documentation, field name, field type name, field documentation and variant documentation is a unique text (documentation of 0 to 3 lines; in some cases types share texts with what they hold); decoded values compared with the reference, and independently every reported text traced back to the item it was written on; non-trivial = at least 4 such texts reported",
    assumptions: &[],
    tape_len: 1000,
    quick: 2_000_000,
    thorough: 40_000_000,
    run,
    enumerated: None,
    known_demos: &[],
    must_reach: &["type docs", "type path", "field docs", "type name", "variant docs", "pallet docs", "element info", "nested info", "special", "compact", "shared texts"],
};

struct Tok {
    n: u32,
}

impl Tok {
    fn next(&mut self, what: &str) -> String {
        self.n += 1;
        format!("{what}~{}", self.n)
    }
    /// Text with words around it that could be cut off or mean something.
    fn dressed(&mut self, t: &mut Tape, what: &str) -> String {
        let tok = self.next(what);
        let w = crate::dict::word(t, &[]);
        match t.below(40) {
            0 => format!("{w}{tok}"),
            1 => format!("{tok}{w}"),
            2 => format!("{}{tok}", t.pick(&["r#", "_", "__", " ", "&", "T::", "Self::", "<T as Config>::", "::", "#", "//", "/// ", "# ", "'", "\t", "Box<"])),
            3 => format!("{tok}{}", t.pick(&["_", "__", " ", "\n", ">", "::", ";", ",", ".", ":", "\u{0}", "'", "s", "Of<T>", "<T, I>", "\r"])),
            4 => format!("{w}{tok}{w}"),
            5 => t.text(20) + &tok,
            6 => tok + &t.text(20),
            _ => tok,
        }
    }
    fn docs(&mut self, t: &mut Tape, what: &str) -> Vec<String> {
        let long = t.rare(4);
        let k = if long { *t.pick(&[1usize, 2, 9, 17, 40, 130, 300]) } else { t.weighted(&[3, 5, 3, 2]) };
        if long {
            // long lines, or many
            let n = t.long() / k.min(8);
            return (0..k).map(|i| if i % 3 == 0 { format!("{}{}", self.next(what), t.long_text(n)) } else { self.next(what) }).collect();
        }
        (0..k)
            .map(|i| match t.below(10) {
                0 if i > 0 => String::new(),
                1 => format!(" {} ", self.next(what)),
                2 => format!("{}\n{}", self.next(what), self.next(what)),
                3 => format!("{}: «docs, path»", self.next(what)),
                _ => self.dressed(t, what),
            })
            .collect()
    }
}

/// Write a unique text on every item that may carry one.
fn tokenize(t: &mut Tape, types: &mut [scale_info::Type<PortableForm>]) {
    let mut k = Tok { n: 0 };
    let orders: Vec<u32> = types
        .iter()
        .filter_map(|t| match &t.type_def {
            TypeDef::BitSequence(b) => Some(b.bit_order_type.id),
            _ => None,
        })
        .collect();
    let fields = |f: &mut [Field<PortableForm>], t: &mut Tape, k: &mut Tok| {
        for f in f {
            f.docs = k.docs(t, "fd");
            if f.name.is_some() {
                f.name = Some(k.dressed(t, "fn"));
                if t.rare(16) {
                    let n = t.long();
                    f.name = Some(k.next("fn") + &t.long_text(n));
                }
            }
            if !f.type_name.as_deref().is_some_and(|n| n.ends_with("::Signature")) {
                f.type_name = if t.chance(180) { Some(k.dressed(t, "tn")) } else { None };
            }
        }
    };
    for i in 0..types.len() {
        let sp = special(&types[i]);
        // names of variants tell what these are
        let special_enum = sp != Sp::None;
        let ty = &mut types[i];
        ty.docs = k.docs(t, "td");
        if !orders.contains(&(i as u32)) {
            match sp {
                Sp::None => {
                    let n = if t.rare(4) { *t.pick(&[5usize, 9, 13, 17, 33, 65, 130]) } else { t.weighted(&[4, 3, 3, 2]) };
                    ty.path.segments = (0..n).map(|_| k.dressed(t, "tp")).collect();
                }
                Sp::Pub(_) | Sp::Sig(_) => {}
                _ => {
                    // the namespace does not matter for these
                    let last = ty.path.segments.last().unwrap().clone();
                    let n = if t.rare(2) { t.range(3, 70) } else { t.below(3) };
                    let mut s: Vec<String> = (0..n).map(|_| k.dressed(t, "ns")).collect();
                    s.push(last);
                    ty.path.segments = s;
                }
            }
        }
        match &mut ty.type_def {
            TypeDef::Composite(c) => fields(&mut c.fields, t, &mut k),
            TypeDef::Variant(v) if v.variants.len() < 100 => {
                let rename = !special_enum && t.chance(64);
                for v in &mut v.variants {
                    if rename {
                        v.name = k.dressed(t, "vn");
                    }
                    v.docs = k.docs(t, "vd");
                    fields(&mut v.fields, t, &mut k);
                }
            }
            _ => {}
        }
    }
}

/// Write the texts of some types on what they hold, too.
fn share(t: &mut Tape, types: &mut [scale_info::Type<PortableForm>]) -> bool {
    let mut any = false;
    for i in 0..types.len() {
        let inner: Vec<u32> = match &types[i].type_def {
            TypeDef::Composite(c) => c.fields.iter().map(|f| f.ty.id).collect(),
            TypeDef::Compact(c) => vec![c.type_param.id],
            TypeDef::Sequence(c) => vec![c.type_param.id],
            TypeDef::Array(c) => vec![c.type_param.id],
            TypeDef::Tuple(c) => c.fields.iter().map(|f| f.id).collect(),
            _ => vec![],
        };
        for j in inner {
            // special types, and types that would become ones, keep their texts
            let ok = special(&types[i]) == Sp::None && special(&types[j as usize]) == Sp::None && !types[j as usize].path.segments.is_empty();
            if ok && t.chance(100) {
                types[j as usize].path = types[i].path.clone();
                types[j as usize].docs = types[i].docs.clone();
                any = true;
            }
        }
    }
    any
}

fn joined(d: &[String]) -> String {
    d.join("\n")
}

struct Trace<'r> {
    reg: &'r PortableRegistry,
    seen: Vec<&'static str>,
    texts: u32,
    err: Option<String>,
}

impl<'r> Trace<'r> {
    fn bad(&mut self, s: String) {
        if self.err.is_none() {
            self.err = Some(s);
        }
    }
    /// Types that carry exactly this info.
    fn types_of(&self, i: &Info) -> Vec<u32> {
        self.reg.types.iter().filter(|t| t.ty.path == i.path && joined(&t.ty.docs) == i.docs).map(|t| t.id).collect()
    }
    fn infos(&mut self, infos: &[Info], element: bool) {
        for i in infos {
            if i.docs.is_empty() && i.path.segments.is_empty() {
                self.bad("an empty info is reported".into());
            }
            if self.types_of(i).is_empty() {
                self.bad(format!("no type carries {i:?}"));
            }
            self.texts += 1;
            if !i.docs.is_empty() {
                self.seen.push("type docs");
            }
            if !i.path.segments.is_empty() {
                self.seen.push("type path");
            }
            if element {
                self.seen.push("element info");
            }
        }
        if infos.len() > 1 {
            self.seen.push("nested info");
        }
        // outer to inner: every next type is directly inside the previous one,
        // possibly through types without texts
        for w in infos.windows(2) {
            let (a, b) = (self.types_of(&w[0]), self.types_of(&w[1]));
            if !a.iter().any(|a| b.iter().any(|b| self.through(*a, *b, 12))) {
                self.bad(format!("{:?} is reported right inside {:?}, which does not hold it as only content", w[1], w[0]));
            }
        }
    }
    /// `b` is the only content of `a`.
    fn through(&self, a: u32, b: u32, left: u32) -> bool {
        if left == 0 {
            return false;
        }
        let next = match &self.reg.types[a as usize].ty.type_def {
            TypeDef::Composite(c) if c.fields.len() == 1 => c.fields[0].ty.id,
            TypeDef::Compact(c) => c.type_param.id,
            _ => return false,
        };
        if next == b {
            return true;
        }
        let t = &self.reg.types[next as usize].ty;
        t.path.segments.is_empty() && joined(&t.docs).is_empty() && self.through(next, b, left - 1)
    }
    /// Field set that must be one of those declared in the registry.
    fn fields(&mut self, f: &[FieldData], declared: Vec<&'r [Field<PortableForm>]>) {
        let same = |d: &&[Field<PortableForm>]| {
            d.len() == f.len() && d.iter().zip(f).all(|(d, f)| d.name == f.field_name && d.type_name == f.type_name && joined(&d.docs) == f.field_docs)
        };
        if !declared.iter().any(same) {
            self.bad(format!("no item declares the fields {:?}", f.iter().map(|f| (&f.field_name, &f.type_name, &f.field_docs)).collect::<Vec<_>>()));
        }
        for x in f {
            if !x.field_docs.is_empty() {
                self.seen.push("field docs");
                self.texts += 1;
            }
            if x.type_name.is_some() {
                self.seen.push("type name");
                self.texts += 1;
            }
            self.ext(&x.data);
        }
    }
    fn variant(&mut self, name: &str, docs: &str, f: &[FieldData]) {
        let reg = self.reg;
        let mut declared = Vec::new();
        for t in &reg.types {
            if let TypeDef::Variant(v) = &t.ty.type_def {
                declared.extend(v.variants.iter().filter(|v| v.name == name && joined(&v.docs) == docs).map(|v| &v.fields[..]));
            }
        }
        if !docs.is_empty() {
            self.texts += 1;
            self.seen.push("variant docs");
        }
        self.fields(f, declared);
    }
    fn ext(&mut self, x: &ExtendedData) {
        self.infos(&x.info, false);
        self.data(&x.data, Some(&x.info));
    }
    fn data(&mut self, d: &ParsedData, info: Option<&[Info]>) {
        let reg = self.reg;
        match d {
            ParsedData::Composite(f) => {
                let mut declared = Vec::new();
                for t in &reg.types {
                    if let TypeDef::Composite(c) = &t.ty.type_def {
                        // the struct's own texts are the last ones reported
                        let own = Info { docs: joined(&t.ty.docs), path: t.ty.path.clone() };
                        let silent = own.docs.is_empty() && own.path.segments.is_empty();
                        let fits = match info {
                            None => true,
                            Some(i) => silent || i.last() == Some(&own),
                        };
                        if fits {
                            declared.push(&c.fields[..]);
                        }
                    }
                }
                self.fields(f, declared);
            }
            ParsedData::Variant(v) => self.variant(&v.variant_name, &v.variant_docs, &v.fields),
            ParsedData::Call(substrate_parser::cards::Call(c)) | ParsedData::Event(substrate_parser::cards::Event(c)) => {
                if self.types_of(&c.pallet_info).is_empty() {
                    self.bad(format!("no type carries the pallet info {:?}", c.pallet_info));
                }
                if !c.pallet_info.docs.is_empty() {
                    self.seen.push("pallet docs");
                }
                self.variant(&c.variant_name, &c.variant_docs, &c.fields);
            }
            ParsedData::Tuple(x) => x.iter().for_each(|x| self.ext(x)),
            ParsedData::SequenceRaw(s) => {
                self.infos(&s.element_info, true);
                s.data.iter().for_each(|x| self.data(x, None));
            }
            ParsedData::Sequence(s) => {
                self.infos(&s.element_info, true);
                if let Sequence::VecU8 { inner_element_info, .. } = &s.data {
                    self.infos(inner_element_info, true);
                }
            }
            _ => {}
        }
    }
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let opts = Opts { hints: false, max_types: 40, ..Opts::default() };
    let mut g = Gen::new(t, opts);
    let a = g.ty();
    let b = g.ty();
    let root = if g.tape.chance(180) {
        let fields = vec![g.field(a, true), g.field(b, true)];
        g.add(crate::genreg::segs(&["root", "Thing"]), scale_info::TypeDefComposite { fields }, vec![])
    } else {
        b
    };
    let mut types = std::mem::take(&mut g.types);
    let shapes = g.finish().1;
    tokenize(t, &mut types);
    if t.chance(80) && share(t, &mut types) {
        ctx.label("shared texts");
    }
    let reg = crate::genreg::registry(types);
    let Some(c) = gen_value(t, reg, shapes, root, Hi::None) else {
        return ctx.discard();
    };
    let show = || format!("type {root} of registry\n{}data 0x{}", show_reg(&c.reg), hex::encode(&c.data));
    ctx.describe(show);
    let got = match sut::decode_all(&c.reg, c.id, &c.data) {
        Ok(x) => x,
        Err(e) => fail!("rejected", "valid encoding rejected: {e:?}\n{}", show()),
    };
    let mut tr = Trace { reg: &c.reg, seen: vec![], texts: 0, err: None };
    tr.ext(&c.expected);
    for l in &tr.seen {
        ctx.label(l);
    }
    ctx.label_if(c.shapes.special > 0, "special");
    ctx.label_if(c.shapes.compact > 0, "compact");
    if tr.texts >= 4 {
        ctx.interesting(&[&c.data, format!("{:?}", c.expected).as_bytes()]);
    }
    if let Some(e) = tr.err {
        fail!("harness", "the expectation itself is not traceable: {e}\n{}\n{:?}", show(), c.expected);
    }
    ensure!(got == c.expected, "value", "{}\nexpected {:?}\ngot      {got:?}", show(), c.expected);
    let mut tr = Trace { reg: &c.reg, seen: vec![], texts: 0, err: None };
    tr.ext(&got);
    if let Some(e) = tr.err {
        fail!("trace", "{e}\n{}\nreported {got:?}", show());
    }
    // the root's own texts come first
    let rt = &c.reg.types[root as usize].ty;
    if !(rt.docs.iter().all(|d| d.is_empty()) && rt.docs.len() < 2 && rt.path.segments.is_empty()) {
        ensure!(got.info.first() == Some(&Info { docs: joined(&rt.docs), path: rt.path.clone() }), "root", "{}\nreported {:?}", show(), got.info);
    }
    Ok(())
}
