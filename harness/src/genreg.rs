//! Generator of synthetic type registries.

use scale_info::{
    form::PortableForm, interner::UntrackedSymbol, Field, Path, PortableRegistry, PortableType, Type,
    TypeDef, TypeDefArray, TypeDefBitSequence, TypeDefCompact, TypeDefComposite, TypeDefPrimitive,
    TypeDefSequence, TypeDefTuple, TypeDefVariant, TypeParameter, Variant,
};
use std::any::TypeId;

use crate::dict;
use crate::tape::Tape;
use crate::walk::{special_path, type_costs, PTy, Sp};

pub type Sym = UntrackedSymbol<TypeId>;

pub fn sym(id: u32) -> Sym {
    UntrackedSymbol::from(id)
}

#[derive(Clone, Debug)]
pub struct Opts {
    /// account ids, hashes, per-things, eras, keys and signatures
    pub specials: bool,
    /// pallet-call and event enums
    pub calls: bool,
    /// hint-carrying field names, type names and tuple elements
    pub hints: bool,
    /// types referring to themselves through variants and sequences
    pub recursion: bool,
    pub docs: bool,
    /// lookalikes of special types (must be decoded as ordinary ones)
    pub lookalikes: bool,
    pub max_types: usize,
    pub max_depth: u32,
}

impl Default for Opts {
    fn default() -> Self {
        Opts { specials: true, calls: true, hints: true, recursion: true, docs: true, lookalikes: true, max_types: 60, max_depth: 5 }
    }
}

pub struct Gen<'t, 'd> {
    pub tape: &'t mut Tape<'d>,
    pub types: Vec<PTy>,
    pub opts: Opts,
    /// ids of types under construction that may be referred to recursively
    open: Vec<u32>,
    /// cost estimate (number of nodes) of finished types
    cost: Vec<u32>,
    pub shapes: Shapes,
    depth: u32,
    /// how many types may still be made much larger than usual
    pub big: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Shapes {
    pub compact: u32,
    pub bits: u32,
    pub special: u32,
    pub hint: u32,
    pub recursive: u32,
    pub pallet: u32,
    pub lookalike: u32,
    pub husk: u32,
    /// much larger than usual
    pub big: u32,
}

const SEGS: &[&str] = &["pallet_x", "T", "types", "Foo", "Bar", "runtime", "Data", "Id", "Hash", "config", "Zed", "Événement"];
const FIELD_NAMES: &[&str] = &["a", "value", "dest", "x", "who", "Nonce", "nonces", "spec", "amount", "r#type", "имя"];
const HINT_NAMES: &[&str] = &["nonce", "spec_version", "spec_name", "tx_version", "transaction_version"];
const TYPE_NAMES: &[&str] = &["u32", "T::Hash", "AccountId", "Vec<u8>", "balance", "BalanceOf<T,I>", "Balances", "T::Nonce", ""];
const HINT_TYPES: &[&str] = &["Balance", "BalanceOf<T>", "BalanceOf<T, I>", "DepositBalance", "ExtendedBalance", "PalletBalanceOf<T>", "T::Balance"];
const SIG_TYPES: &[&str] = &["ecdsa::Signature", "ed25519::Signature", "sr25519::Signature"];
const DOCS: &[&str] = &["Plain doc.", "", " # Heading", "line with \"quotes\"", "многострочный", "a: b, path: c)"];

pub fn segs(v: &[&str]) -> Path<PortableForm> {
    Path { segments: v.iter().map(|s| s.to_string()).collect() }
}

impl<'t, 'd> Gen<'t, 'd> {
    pub fn new(tape: &'t mut Tape<'d>, opts: Opts) -> Self {
        let big = if tape.rare(1) { 3 } else { 0 };
        Gen { big, tape, types: Vec::new(), opts, open: Vec::new(), cost: Vec::new(), shapes: Shapes::default(), depth: 0 }
    }

    pub fn finish(self) -> (PortableRegistry, Shapes) {
        (registry(self.types), self.shapes)
    }

    pub fn add(&mut self, path: Path<PortableForm>, def: impl Into<TypeDef<PortableForm>>, docs: Vec<String>) -> u32 {
        let t = Type::new(path, Vec::<TypeParameter<PortableForm>>::new(), def, docs);
        self.push(t)
    }

    fn push(&mut self, t: PTy) -> u32 {
        let c = self.cost_of(&t);
        self.types.push(t);
        self.cost.push(c);
        self.types.len() as u32 - 1
    }

    fn cost_of(&self, t: &PTy) -> u32 {
        let g = |id: u32| self.cost.get(id as usize).copied().unwrap_or(50);
        match &t.type_def {
            TypeDef::Composite(c) => c.fields.iter().fold(1u32, |a, f| a.saturating_add(g(f.ty.id))),
            TypeDef::Tuple(c) => c.fields.iter().fold(1u32, |a, f| a.saturating_add(g(f.id))),
            TypeDef::Array(a) => g(a.type_param.id).saturating_mul(a.len).saturating_add(1),
            TypeDef::Variant(v) => v
                .variants
                .iter()
                .map(|v| v.fields.iter().fold(1u32, |a, f| a.saturating_add(g(f.ty.id))))
                .max()
                .unwrap_or(1),
            TypeDef::Compact(c) => g(c.type_param.id),
            TypeDef::Sequence(_) => 4,
            _ => 1,
        }
    }

    fn reserve(&mut self) -> u32 {
        let t = Type::new(segs(&[]), Vec::<TypeParameter<PortableForm>>::new(), TypeDefTuple { fields: vec![] }, vec![]);
        self.types.push(t);
        self.cost.push(50);
        self.types.len() as u32 - 1
    }

    fn fill(&mut self, id: u32, path: Path<PortableForm>, def: impl Into<TypeDef<PortableForm>>, docs: Vec<String>) {
        let t = Type::new(path, Vec::<TypeParameter<PortableForm>>::new(), def, docs);
        self.cost[id as usize] = self.cost_of(&t);
        self.types[id as usize] = t;
    }

    pub fn docs(&mut self) -> Vec<String> {
        if !self.opts.docs || !self.tape.chance(64) {
            return vec![];
        }
        if self.tape.rare(2) {
            // many lines, or long ones
            let n = *self.tape.pick(&[1usize, 9, 17, 40, 70, 130, 260, 2]);
            let long = self.tape.long() / n.min(8);
            return (0..n).map(|i| if i % 9 == 0 { self.tape.long_text(long) } else { self.tape.pick(DOCS).to_string() }).collect();
        }
        let n = self.tape.range(1, 3);
        (0..n).map(|_| self.tape.pick(DOCS).to_string()).collect()
    }

    pub fn path(&mut self) -> Path<PortableForm> {
        if !self.tape.chance(120) {
            return segs(&[]);
        }
        if self.opts.lookalikes && self.tape.chance(30) {
            self.shapes.lookalike += 1;
            // idents and namespaces that are nearly, but not, special
            let p: &[&str] = *self.tape.pick(&[
                &["Signature"][..],
                &["sp_core", "Signature"],
                &["sp_core", "ed25519", "inner", "Signature"],
                &["sp_core", "Ed25519", "Public"],
                &["crypto", "sr25519", "Public"],
                &["ecdsa", "sp_core", "Public"],
                &["sp_runtime", "UncheckedExtrinsic"],
                &["AccountId32", "Inner"],
                &["H256", "Bits"],
                &["primitive_types", "H128"],
                &["Calls"],
                &["call"],
                &["pallet", "Events"],
                &["era", "EraIndex"],
                &["Perthing"],
                &["Multisignature"],
                &["h256"],
            ]);
            return segs(p);
        }
        let n = if self.tape.rare(2) { *self.tape.pick(&[5usize, 9, 13, 17, 33, 65, 130]) } else { self.tape.range(1, 3) };
        let rare = self.tape.chance(24);
        let segments: Vec<String> = (0..n).map(|_| if rare { dict::segment(self.tape) } else { self.tape.pick(SEGS).to_string() }).collect();
        if rare && special_path(&segments) != Sp::None {
            return segs(&["types"]);
        }
        Path { segments }
    }

    pub fn prim(&mut self, p: TypeDefPrimitive) -> u32 {
        // primitives are usually interned
        if !self.tape.chance(20) {
            if let Some(i) = self.types.iter().position(|t| t.type_def == TypeDef::Primitive(p.clone()) && t.path.segments.is_empty() && t.docs.is_empty()) {
                return i as u32;
            }
        }
        let docs = if self.tape.chance(10) { self.docs() } else { vec![] };
        self.add(segs(&[]), p, docs)
    }

    pub fn uint_prim(&mut self) -> u32 {
        let p = self.tape.pick(&[TypeDefPrimitive::U32, TypeDefPrimitive::U8, TypeDefPrimitive::U16, TypeDefPrimitive::U64, TypeDefPrimitive::U128]).clone();
        self.prim(p)
    }

    fn any_prim(&mut self) -> u32 {
        let p = self
            .tape
            .pick(&[
                TypeDefPrimitive::U32,
                TypeDefPrimitive::U8,
                TypeDefPrimitive::Bool,
                TypeDefPrimitive::Str,
                TypeDefPrimitive::U16,
                TypeDefPrimitive::U64,
                TypeDefPrimitive::U128,
                TypeDefPrimitive::Char,
                TypeDefPrimitive::I8,
                TypeDefPrimitive::I16,
                TypeDefPrimitive::I32,
                TypeDefPrimitive::I64,
                TypeDefPrimitive::I128,
                TypeDefPrimitive::U256,
                TypeDefPrimitive::I256,
                TypeDefPrimitive::U128,
                TypeDefPrimitive::U8,
            ])
            .clone();
        self.prim(p)
    }

    pub fn u8_array(&mut self, len: u32) -> u32 {
        let u = self.prim(TypeDefPrimitive::U8);
        self.add(segs(&[]), TypeDefArray::new(len, sym(u)), vec![])
    }

    /// A name longer than names are.
    pub fn long_name(&mut self) -> String {
        let n = self.tape.long().min(1100);
        self.tape.long_text(n)
    }

    pub fn field(&mut self, ty: u32, named: bool) -> Field<PortableForm> {
        let name = if named {
            if self.opts.hints && self.tape.chance(50) {
                self.shapes.hint += 1;
                Some(self.tape.pick(HINT_NAMES).to_string())
            } else if self.tape.chance(24) {
                Some(if self.tape.chance(80) {
                    let x = *self.tape.pick(HINT_NAMES);
                    dict::near(self.tape, x)
                } else {
                    dict::field_name(self.tape)
                })
            } else if self.tape.rare(3) {
                Some(self.long_name())
            } else {
                Some(self.tape.pick(FIELD_NAMES).to_string())
            }
        } else {
            None
        };
        let type_name = match self.tape.weighted(&[3, 3, if self.opts.hints { 2 } else { 0 }]) {
            0 => None,
            1 => Some(match self.tape.below(8) {
                0 if self.tape.rare(1) => self.long_name(),
                0 if self.tape.chance(80) => {
                    let x = *self.tape.pick(HINT_TYPES);
                    dict::near(self.tape, x)
                }
                0 => dict::type_name(self.tape),
                // as it is called in Rust
                1 | 2 => self.rust_name(ty, 3),
                _ => self.tape.pick(TYPE_NAMES).to_string(),
            }),
            _ => {
                self.shapes.hint += 1;
                Some(self.tape.pick(HINT_TYPES).to_string())
            }
        };
        let docs = if self.tape.chance(40) { self.docs() } else { vec![] };
        Field { name, ty: sym(ty), type_name, docs }
    }

    pub fn rust_name(&self, ty: u32, depth: u32) -> String {
        let Some(t) = self.types.get(ty as usize) else { return "T".into() };
        if let Some(l) = t.path.segments.last() {
            return l.clone();
        }
        if depth == 0 {
            return "T".into();
        }
        let of = |id: u32| self.rust_name(id, depth - 1);
        match &t.type_def {
            TypeDef::Primitive(p) => match p {
                TypeDefPrimitive::Str => "String".into(),
                p => format!("{p:?}").to_lowercase(),
            },
            TypeDef::Sequence(x) => format!("Vec<{}>", of(x.type_param.id)),
            TypeDef::Array(x) => format!("[{}; {}]", of(x.type_param.id), x.len),
            TypeDef::Compact(x) => format!("Compact<{}>", of(x.type_param.id)),
            TypeDef::Tuple(x) => format!("({})", x.fields.iter().map(|f| of(f.id)).collect::<Vec<_>>().join(", ")),
            TypeDef::BitSequence(_) => "BitVec".into(),
            _ => "T".into(),
        }
    }

    fn is_big(&mut self) -> bool {
        if self.big == 0 || !self.tape.chance(90) {
            return false;
        }
        self.big -= 1;
        self.shapes.big += 1;
        true
    }

    /// More small types than one byte counts, few of them different.
    fn many(&mut self) -> Vec<u32> {
        let n = *self.tape.pick(&[30usize, 64, 100, 255, 256, 257, 300, 520]);
        let mut pool: Vec<u32> = Vec::new();
        for _ in 0..self.tape.range(1, 3) {
            let i = self.ty();
            if self.cost[i as usize] < 4 {
                pool.push(i);
            }
        }
        let p = self.any_prim();
        pool.push(p);
        (0..n).map(|_| *self.tape.pick(&pool)).collect()
    }

    /// Single-field structs, one-element tuples and arrays around `ty`, one in
    /// the other.
    fn chain(&mut self, mut ty: u32) -> u32 {
        self.shapes.husk += 1;
        let n = *self.tape.pick(&[9usize, 17, 33, 40, 64, 70, 100, 130, 200]);
        let kinds = self.tape.range(1, 4);
        for i in 0..n {
            ty = match self.tape.below(kinds) {
                0 => {
                    let docs = if self.opts.docs && i % 7 == 0 { vec![format!("layer {i}")] } else { vec![] };
                    self.add(segs(&["Layer"]), TypeDefComposite { fields: vec![Field { name: None, ty: sym(ty), type_name: None, docs: vec![] }] }, docs)
                }
                1 => self.add(segs(&[]), TypeDefTuple { fields: vec![sym(ty)] }, vec![]),
                2 => self.add(segs(&[]), TypeDefArray::new(1, sym(ty)), vec![]),
                _ => self.add(segs(&[]), TypeDefComposite { fields: vec![Field { name: Some("inner".into()), ty: sym(ty), type_name: None, docs: vec![] }] }, vec![]),
            };
        }
        ty
    }

    pub fn fields(&mut self, max: usize) -> Vec<Field<PortableForm>> {
        if self.open.is_empty() && max > 4 && self.is_big() {
            let named = self.tape.chance(128);
            return self.many().into_iter().enumerate().map(|(i, ty)| Field { name: named.then(|| format!("f{i}")), ty: sym(ty), type_name: None, docs: vec![] }).collect();
        }
        let n = match self.tape.weighted(&[4, 3, 3, 1]) {
            0 => 1,
            1 => 2,
            2 => self.tape.below(max + 1),
            _ => 0,
        };
        let style = self.tape.weighted(&[4, 3, 1]);
        (0..n)
            .map(|_| {
                let named = match style {
                    0 => true,
                    1 => false,
                    _ => self.tape.chance(128),
                };
                let ty = self.ty();
                self.field(ty, named)
            })
            .collect()
    }

    /// A single-field struct around `ty`.
    pub fn wrapper(&mut self, ty: u32) -> u32 {
        self.shapes.husk += 1;
        let named = self.tape.chance(100);
        let f = self.field(ty, named);
        let path = self.path();
        let docs = self.docs();
        self.add(path, TypeDefComposite { fields: vec![f] }, docs)
    }

    /// A type that legally stands inside a compact.
    pub fn compactable(&mut self) -> u32 {
        match self.tape.weighted(&[6, 3, 2, 1]) {
            0 => self.uint_prim(),
            1 => {
                let mut t = self.uint_prim();
                for _ in 0..self.tape.range(1, 3) {
                    t = if self.tape.chance(40) {
                        let docs = self.docs();
                        self.add(segs(&[]), TypeDefTuple { fields: vec![sym(t)] }, docs)
                    } else {
                        self.wrapper(t)
                    };
                }
                t
            }
            2 if self.opts.specials => {
                self.shapes.special += 1;
                self.per_thing()
            }
            _ => {
                if self.tape.chance(128) {
                    self.add(segs(&[]), TypeDefTuple { fields: vec![] }, vec![])
                } else {
                    self.uint_prim()
                }
            }
        }
    }

    pub fn compact(&mut self) -> u32 {
        self.shapes.compact += 1;
        let inner = self.compactable();
        let docs = if self.tape.chance(20) { self.docs() } else { vec![] };
        self.add(segs(&[]), TypeDefCompact::new(sym(inner)), docs)
    }

    pub fn per_thing(&mut self) -> u32 {
        let (name, p) = self
            .tape
            .pick(&[
                ("Perbill", TypeDefPrimitive::U32),
                ("Percent", TypeDefPrimitive::U8),
                ("Permill", TypeDefPrimitive::U32),
                ("Perquintill", TypeDefPrimitive::U64),
                ("PerU16", TypeDefPrimitive::U16),
            ])
            .clone();
        let u = self.prim(p);
        let f = Field { name: None, ty: sym(u), type_name: None, docs: vec![] };
        self.add(segs(&["sp_arithmetic", "per_things", name]), TypeDefComposite { fields: vec![f] }, vec![])
    }

    pub fn bits(&mut self) -> u32 {
        self.shapes.bits += 1;
        let store = self.tape.pick(&[TypeDefPrimitive::U8, TypeDefPrimitive::U16, TypeDefPrimitive::U32, TypeDefPrimitive::U64]).clone();
        let name = *self.tape.pick(&["Lsb0", "Msb0"]);
        let s = self.prim(store);
        let o = self.add(segs(&["bitvec", "order", name]), TypeDefComposite { fields: vec![] }, vec![]);
        let docs = if self.tape.chance(20) { self.docs() } else { vec![] };
        self.add(segs(&[]), TypeDefBitSequence::new_portable(sym(s), sym(o)), docs)
    }

    fn bytes_struct(&mut self, path: &[&str], len: u32) -> u32 {
        let a = self.u8_array(len);
        let f = Field { name: None, ty: sym(a), type_name: Some(format!("[u8; {len}]")), docs: vec![] };
        let docs = if self.tape.chance(20) { self.docs() } else { vec![] };
        self.add(segs(path), TypeDefComposite { fields: vec![f] }, docs)
    }

    pub fn account_id(&mut self) -> u32 {
        self.bytes_struct(&["sp_core", "crypto", "AccountId32"], 32)
    }

    pub fn h256(&mut self) -> u32 {
        self.bytes_struct(&["primitive_types", "H256"], 32)
    }

    pub fn era(&mut self) -> u32 {
        let u = self.prim(TypeDefPrimitive::U8);
        let mut variants = vec![Variant { name: "Immortal".into(), fields: vec![], index: 0, docs: vec![] }];
        for i in 1..=255u8 {
            variants.push(Variant {
                name: format!("Mortal{i}"),
                fields: vec![Field { name: None, ty: sym(u), type_name: None, docs: vec![] }],
                index: i,
                docs: vec![],
            });
        }
        self.add(segs(&["sp_runtime", "generic", "era", "Era"]), TypeDefVariant { variants }, vec![])
    }

    pub fn key(&mut self, kind: usize, public: bool) -> u32 {
        let (ns, plen, slen) = [("ed25519", 32, 64), ("sr25519", 32, 64), ("ecdsa", 33, 65)][kind];
        if public {
            self.bytes_struct(&["sp_core", ns, "Public"], plen)
        } else {
            self.bytes_struct(&["sp_core", ns, "Signature"], slen)
        }
    }

    /// MultiSignature in old (named signature types) and new (bare arrays)
    /// metadata style, plus near misses.
    pub fn multi_signature(&mut self) -> u32 {
        self.shapes.special += 1;
        let mut variants = Vec::new();
        for (i, name) in ["Ed25519", "Sr25519", "Ecdsa"].iter().enumerate() {
            let len = [64, 64, 65][i];
            let style = self.tape.weighted(&[4, 3, 2, if self.opts.lookalikes { 4 } else { 0 }]);
            let mut type_name = Some(SIG_TYPES[[1, 2, 0][i]].to_string());
            let ty = match style {
                0 => self.u8_array(len),
                1 => self.key(i, false),
                2 => {
                    let a = self.u8_array(len);
                    self.wrapper(a)
                }
                _ => {
                    self.shapes.lookalike += 1;
                    match self.tape.below(4) {
                        0 => self.u8_array(if len == 64 { 65 } else { 64 }),
                        1 => {
                            type_name = match self.tape.below(8) {
                                7 => None,
                                6 => Some(crate::dict::near(self.tape, SIG_TYPES[[1, 2, 0][i]])),
                                k => Some(["Signature", "ed25519::Signature2", "", "ecdsa::signature", "sr25519::Signature", "ed25519::Signature"][k].to_string()),
                            };
                            self.u8_array(len)
                        }
                        2 => {
                            let u = self.prim(TypeDefPrimitive::I8);
                            self.add(segs(&[]), TypeDefArray::new(len, sym(u)), vec![])
                        }
                        _ => {
                            let u = self.prim(TypeDefPrimitive::U8);
                            self.add(segs(&[]), TypeDefSequence::new(sym(u)), vec![])
                        }
                    }
                }
            };
            let mut fields = vec![Field { name: None, ty: sym(ty), type_name, docs: vec![] }];
            if style == 3 && self.tape.chance(60) {
                let t = self.ty();
                let f = self.field(t, false);
                fields.push(f);
            }
            let idx = if self.tape.chance(30) { 10 + i as u8 * 3 } else { i as u8 };
            variants.push(Variant { name: name.to_string(), fields, index: idx, docs: self.docs() });
        }
        self.add(segs(&["sp_runtime", "MultiSignature"]), TypeDefVariant { variants }, vec![])
    }

    pub fn special(&mut self) -> u32 {
        self.shapes.special += 1;
        match self.tape.below(16) {
            0 | 1 => self.account_id(),
            2 => self.h256(),
            3 => self.bytes_struct(&["primitive_types", "H512"], 64),
            4 => self.bytes_struct(&["primitive_types", "H160"], 20),
            5 => self.bytes_struct(&["account", "AccountId20"], 20),
            6 => self.era(),
            7 | 8 => self.per_thing(),
            9 => self.key(0, true),
            10 => self.key(1, true),
            11 => self.key(2, true),
            12 => self.key(0, false),
            13 => self.key(1, false),
            14 => self.key(2, false),
            _ => self.multi_signature(),
        }
    }

    /// Distinct variant indices, sequential or scattered.
    fn indices(&mut self, n: usize) -> Vec<u8> {
        if !self.tape.chance(110) {
            (0..n as u16).map(|i| i as u8).collect()
        } else if n > 60 {
            let (by, off) = (self.tape.u8() | 1, self.tape.u8());
            (0..n as u16).map(|i| (i as u8).wrapping_mul(by).wrapping_add(off)).collect()
        } else {
            let mut out: Vec<u8> = Vec::new();
            while out.len() < n {
                let mut x = if self.tape.chance(40) { 255 } else { self.tape.u8() };
                while out.contains(&x) {
                    x = x.wrapping_add(1);
                }
                out.push(x);
            }
            out
        }
    }

    fn variants(&mut self, n: usize, prefix: &str) -> Vec<Variant<PortableForm>> {
        let idx = self.indices(n);
        (0..n)
            .map(|i| {
                let fields = if n > 20 || self.tape.chance(60) { vec![] } else { self.fields(4) };
                let docs = if n > 20 { vec![] } else { self.docs() };
                let name = if prefix == "V" && self.tape.chance(8) { dict::variant_name(self.tape) } else { format!("{prefix}{i}") };
                Variant { name, fields, index: idx[i], docs }
            })
            .collect()
    }

    pub fn variant_ty(&mut self) -> u32 {
        let n = match self.tape.weighted(&[8, 4, 1, 1]) {
            0 => self.tape.range(1, 4),
            1 => self.tape.range(1, 8),
            2 => 0,
            _ if self.tape.chance(40) => self.tape.range(61, 256),
            _ => self.tape.range(9, 60),
        };
        let path = self.path();
        let docs = self.docs();
        if self.opts.recursion && self.tape.chance(60) {
            self.shapes.recursive += 1;
            let id = self.reserve();
            self.open.push(id);
            let mut variants = self.variants(n.clamp(1, 8), "V");
            self.open.retain(|x| *x != id);
            // always leave a way out
            let used: Vec<u8> = variants.iter().map(|v| v.index).collect();
            let free = (0..=255u8).find(|i| !used.contains(i)).unwrap();
            variants.push(Variant { name: "End".into(), fields: vec![], index: free, docs: vec![] });
            self.fill(id, path, TypeDefVariant { variants }, docs);
            id
        } else {
            let variants = self.variants(n, "V");
            self.add(path, TypeDefVariant { variants }, docs)
        }
    }

    /// Outer call/event enum with pallets; sometimes malformed so that it must
    /// be treated as an ordinary enum.
    pub fn pallet_enum(&mut self, call: bool, strict: bool) -> u32 {
        self.shapes.pallet += 1;
        let idents: &[&str] = if call { &["RuntimeCall", "Call"] } else { &["RuntimeEvent", "Event"] };
        let outer_ident = *self.tape.pick(idents);
        let inner_ident = *self.tape.pick(idents);
        let outer = self.reserve();
        let recursive = self.opts.recursion && self.tape.chance(140);
        if recursive {
            self.shapes.recursive += 1;
            self.open.push(outer);
        }
        let n = self.tape.range(1, 4);
        let idx = self.indices(n);
        let mut pallets = Vec::new();
        for i in 0..n {
            let name = *self.tape.pick(&["Balances", "System", "Staking", "Utility", "balances", "Assets"]);
            let m = self.tape.range(1, 4);
            let mut items = self.variants(m, if call { "call_" } else { "Event" });
            if recursive {
                let used: Vec<u8> = items.iter().map(|v| v.index).collect();
                let free = (0..=255u8).find(|i| !used.contains(i)).unwrap();
                items.push(Variant { name: "end".into(), fields: vec![], index: free, docs: vec![] });
            }
            let docs = self.docs();
            let mut path = segs(&["pallet_x", "pallet", inner_ident]);
            let mut inner_def: TypeDef<PortableForm> = TypeDefVariant { variants: items }.into();
            let mut defect = 0;
            if !strict && self.opts.lookalikes && self.tape.chance(60) {
                self.shapes.lookalike += 1;
                defect = self.tape.range(1, 5);
            }
            match defect {
                1 => path = segs(&["pallet_x", "pallet", "Error"]),
                2 => path = segs(&["pallet_x", if call { "Event" } else { "Call" }]),
                3 => {
                    let fields = self.fields(3);
                    inner_def = TypeDefComposite { fields }.into();
                }
                _ => {}
            }
            let inner = self.add(path, inner_def, docs);
            let mut fields = vec![Field { name: None, ty: sym(inner), type_name: Some("self::sp_api::Call<T>".into()), docs: vec![] }];
            match defect {
                4 => {
                    let t = self.ty();
                    let f = self.field(t, false);
                    fields.push(f);
                }
                5 => fields.clear(),
                _ => {}
            }
            pallets.push(Variant { name: name.to_string(), fields, index: idx[i], docs: self.docs() });
        }
        self.open.retain(|x| *x != outer);
        let docs = self.docs();
        self.fill(outer, segs(&["node_runtime", outer_ident]), TypeDefVariant { variants: pallets }, docs);
        outer
    }

    /// Any type.
    pub fn ty(&mut self) -> u32 {
        self.depth += 1;
        let r = self.ty_inner();
        self.depth -= 1;
        r
    }

    fn ty_inner(&mut self) -> u32 {
        let full = self.types.len() >= self.opts.max_types || self.depth > self.opts.max_depth;
        if full || self.tape.exhausted() {
            if !self.types.is_empty() && self.tape.chance(128) {
                let closed: Vec<u32> = (0..self.types.len() as u32).filter(|i| !self.open.contains(i) && self.cost[*i as usize] < 120).collect();
                if !closed.is_empty() {
                    return *self.tape.pick(&closed);
                }
            }
            return self.any_prim();
        }
        let s = self.opts.specials as u32;
        let c = self.opts.calls as u32;
        let r = (self.opts.recursion && !self.open.is_empty()) as u32;
        match self.tape.weighted(&[10, 8, 4, 6, 6, 5, 5, 3, 6 * s, c, 3, 3 * r, 3]) {
            0 => self.any_prim(),
            1 => {
                let path = self.path();
                let docs = self.docs();
                let fields = self.fields(5);
                self.add(path, TypeDefComposite { fields }, docs)
            }
            2 => {
                let n = self.tape.below(5);
                let mut fields = Vec::new();
                if self.open.is_empty() && self.is_big() {
                    fields = self.many().into_iter().map(sym).collect();
                }
                for _ in 0..n {
                    let t = if self.opts.hints && self.tape.chance(50) {
                        self.shapes.hint += 1;
                        // tuple element with a signed-extension-like ident
                        let ident = *self.tape.pick(&["CheckNonce", "ChargeTransactionPayment", "ChargeAssetTxPayment", "CheckSpecVersion"]);
                        let inner = if self.tape.chance(100) { self.compact() } else { self.ty() };
                        let mut fields = vec![Field { name: None, ty: sym(inner), type_name: None, docs: vec![] }];
                        if self.tape.chance(60) {
                            let extra = self.ty();
                            let named = self.tape.chance(128);
                            let f = self.field(extra, named);
                            fields.push(f);
                        }
                        self.add(segs(&["ext", ident]), TypeDefComposite { fields }, vec![])
                    } else {
                        self.ty()
                    };
                    fields.push(sym(t));
                }
                let docs = if self.tape.chance(20) { self.docs() } else { vec![] };
                self.add(segs(&[]), TypeDefTuple { fields }, docs)
            }
            3 => self.variant_ty(),
            4 => {
                let open = self.open.clone();
                let el = if self.opts.recursion && !open.is_empty() && self.tape.chance(100) { *self.tape.pick(&open) } else { self.ty() };
                let path = if self.tape.chance(20) { self.path() } else { segs(&[]) };
                let docs = if self.tape.chance(20) { self.docs() } else { vec![] };
                self.add(path, TypeDefSequence::new(sym(el)), docs)
            }
            5 => {
                let el = self.ty();
                let c = self.cost[el as usize].max(1);
                let cap = (150 / c).max(1).min(66) as usize;
                let len = match self.tape.weighted(&[3, 3, 2, 1]) {
                    0 => self.tape.range(0, 4.min(cap)),
                    1 => self.tape.below(cap + 1),
                    2 => (*self.tape.pick(&[32usize, 20, 33, 64, 65, 1])).min(cap),
                    _ => 1,
                };
                let len = if c <= 2 && self.open.is_empty() && self.is_big() {
                    let around = *self.tape.pick(&[256usize, 1024, 4096, 16384, 65536, 256, 512]);
                    (around + self.tape.below(8)).saturating_sub(4)
                } else {
                    len
                };
                // a zero-length array would hide a cycle from the value level
                let len = if self.open.is_empty() { len } else { len.max(1) };
                let docs = if self.tape.chance(20) { self.docs() } else { vec![] };
                self.add(segs(&[]), TypeDefArray::new(len as u32, sym(el)), docs)
            }
            6 => self.compact(),
            7 => self.bits(),
            8 => self.special(),
            9 => {
                let call = self.tape.chance(128);
                self.pallet_enum(call, false)
            }
            10 => {
                let t = self.ty();
                if self.open.is_empty() && self.is_big() {
                    return self.chain(t);
                }
                self.wrapper(t)
            }
            11 => {
                // recursion directly through an enclosing variant
                let open = self.open.clone();
                *self.tape.pick(&open)
            }
            _ => {
                let closed: Vec<u32> = (0..self.types.len() as u32).filter(|i| !self.open.contains(i) && self.cost[*i as usize] < 120).collect();
                if closed.is_empty() {
                    self.any_prim()
                } else {
                    *self.tape.pick(&closed)
                }
            }
        }
    }
}

pub fn registry(types: Vec<PTy>) -> PortableRegistry {
    let mut reg = PortableRegistry::default_empty();
    reg.types = types.into_iter().enumerate().map(|(i, t)| PortableType::new(i as u32, t)).collect();
    reg
}

trait EmptyReg {
    fn default_empty() -> Self;
}

impl EmptyReg for PortableRegistry {
    fn default_empty() -> Self {
        scale_info::Registry::new().into()
    }
}

/// Root type ids for which a value of reasonable size exists.
pub fn instantiable(reg: &PortableRegistry, id: u32) -> bool {
    type_costs(reg).get(id as usize).map_or(false, |c| *c < 150_000)
}
