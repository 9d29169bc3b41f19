//! C30: the printed text of an error names its cause and every value that it
//! carries.

use std::error::Error;
use std::fmt::{Debug, Display};

use external_memory_tools::{BufferError, ExternalMemory};
use frame_metadata::v14::RuntimeMetadataV14 as M14;
use frame_metadata::v15::RuntimeMetadataV15 as M15;
use primitive_types::H256;
use substrate_parser::error::*;

use crate::mem::{external, gen_job, MemMeta};
use crate::runner::{Ctx, Outcome, Property};
use crate::tape::Tape;
use crate::{ensure, fail};

pub static P: Property = Property {
    id: "C30",
    rule: "every variant of every error type around every error that it can carry, with values at and around digit and width borders, next to a neighbour that differs in one value, in two exchanged values, in the variant or in the error inside; and errors of decoding jobs on damaged data and metadata; non-trivial = the error carries a value or another error",
    assumptions: &["the wording is free: a text is asked for the values, for the words of its cause (any of several), and to differ from the texts of other errors"],
    tape_len: 1800,
    quick: 1_000_000,
    thorough: 60_000_000,
    run,
    enumerated: Some((ENUM, enumerated)),
    known_demos: &[],
    must_reach: &[
        "BufferError", "RegistryInternalError", "RegistryError", "ParserError", "ExtensionsError", "MetaVersionErrorPallets", "MetaStructureErrorV14", "StorageError", "SignableError", "UncheckedExtrinsicError", "error inside", "external", "neighbour in a value", "exchanged values", "other variant", "other inside", "job", "job with values",
    ],
};

/// A memory whose errors carry a text.
#[derive(Debug, PartialEq, Eq)]
struct Own;

impl ExternalMemory for Own {
    type ExternalMemoryError = String;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Fam {
    Buffer,
    RegInt,
    Reg,
    Parser,
    Ext,
    Ver,
    Meta,
    Storage,
    Sign14,
    Sign15,
    Unch14,
    Unch15,
}

use Fam::*;

const FAMS: &[Fam] = &[Buffer, RegInt, Reg, Parser, Ext, Ver, Meta, Storage, Sign14, Sign15, Unch14, Unch15];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum K {
    /// position or length
    N,
    U32,
    U8,
    Hash,
    /// a version, as it is printed
    Digits,
    Ty,
    /// text of an external memory
    Text,
}

struct Var {
    name: &'static str,
    /// values, each with the words that tell its role
    vals: &'static [(K, &'static [&'static str])],
    inner: Option<Fam>,
    /// of each group one must be in the text
    words: &'static [&'static [&'static str]],
}

const fn v(name: &'static str, vals: &'static [(K, &'static [&'static str])], inner: Option<Fam>, words: &'static [&'static [&'static str]]) -> Var {
    Var { name, vals, inner, words }
}

const TWICE: &[&str] = &["more than one", "twice", "repeat", "second", "several", "duplicate"];
const NOT: &[&str] = &["no ", "not ", "n't", "missing", "absent", "without"];
const UNUSED: &[&str] = &["unused", "not used", "remain", "left"];
const MATCH: &[&str] = &["match", "differ", "equal", "same", "unexpected"];
const CYCLE: &[&str] = &["cycl", "loop", "endless", "recurs"];

macro_rules! list {
    ($($x:expr),* $(,)?) => {{
        const L: &[Var] = &[$($x),*];
        L
    }};
}

fn vars(f: Fam) -> &'static [Var] {
    match f {
        // of another crate: only used inside
        Buffer => list![
            v("External", &[(K::Text, &[])], None, &[]),
            v("DataTooShort", &[(K::N, &[]), (K::N, &[])], None, &[]),
            v("OutOfRange", &[(K::N, &[]), (K::N, &[])], None, &[]),
        ],
        RegInt => list![
            v("CyclicMetadata", &[(K::U32, &[])], None, &[CYCLE]),
            v("ExtrinsicNoCallParam", &[], None, &[&["extrinsic"], &["call"], NOT]),
            v("NotBitOrderType", &[(K::U32, &[])], None, &[&["bitvec", "bit sequence", "bit"], &["order"]]),
            v("NotBitStoreType", &[(K::U32, &[])], None, &[&["bitvec", "bit sequence", "bit"], &["store"]]),
            v("TypeNotResolved", &[(K::U32, &[])], None, &[&["resolve", "find", "found"]]),
            v("UnexpectedCompactInsides", &[(K::U32, &[])], None, &[&["compact"]]),
            v("UnexpectedExtrinsicType", &[(K::U32, &[])], None, &[&["extrinsic"]]),
        ],
        Reg => list![v("External", &[(K::Text, &[])], None, &[&["external", "memory"]]), v("Internal", &[], Some(RegInt), &[])],
        Parser => list![
            v("Buffer", &[], Some(Buffer), &[]),
            v("Registry", &[], Some(Reg), &[]),
            v("NoCompact", &[(K::N, &[])], None, &[&["compact"]]),
            v("SomeDataNotUsedBlob", &[(K::N, &[])], None, &[UNUSED]),
            v("TypeFailure", &[(K::N, &[]), (K::Ty, &[])], None, &[&["decode"]]),
            v("UnexpectedEnumVariant", &[(K::N, &[])], None, &[&["variant"]]),
        ],
        Ext => list![
            v("BlockHashTwice", &[], None, &[&["block hash"], TWICE]),
            v("EraTwice", &[], None, &[&["era", "mortality"], TWICE]),
            v("GenesisHashTwice", &[], None, &[&["genesis"], TWICE]),
            v("NoGenesisHash", &[], None, &[&["genesis"], NOT]),
            v("NoSpecVersion", &[], None, &[&["version"], NOT]),
            v("SpecVersionTwice", &[], None, &[&["version"], TWICE]),
        ],
        Ver => list![
            v("NoSpecNameIdentifier", &[], None, &[&["name"], NOT]),
            v("NoSpecVersionIdentifier", &[], None, &[&["spec version"], NOT]),
            v("NoSystemPallet", &[], None, &[&["system"], NOT]),
            v("NoVersionInConstants", &[], None, &[&["version"], NOT, &["constant"]]),
            v("RuntimeVersionNotDecodeable", &[], None, &[&["version"], &["decode"], NOT]),
            v("SpecNameIdentifierTwice", &[], None, &[&["name"], TWICE]),
            v("SpecVersionIdentifierTwice", &[], None, &[&["spec version"], TWICE]),
            v("UnexpectedRuntimeVersionFormat", &[], None, &[&["version"], &["composite", "struct", "format"]]),
        ],
        Meta => list![
            v("ExtrinsicTypeNotResolved", &[], Some(RegInt), &[&["extrinsic"], &["resolve", "find", "found"]]),
            v("NoAddressParam", &[], None, &[&["address"], NOT]),
            v("NoCallParam", &[], None, &[&["call"], NOT]),
            v("NoExtraParam", &[], None, &[&["extra"], NOT]),
            v("NoSignatureParam", &[], None, &[&["signature"], NOT]),
            v("UnexpectedExtrinsicType", &[(K::U32, &[])], None, &[&["extrinsic"]]),
            v("Version", &[], Some(Ver), &[]),
        ],
        Storage => list![
            v("KeyPartHashMismatch", &[], None, &[&["key"], &["hash"], MATCH]),
            v("KeyPartsUnused", &[], None, &[&["key"], UNUSED]),
            v("KeyShorterThanPrefix", &[], None, &[&["key"], &["short"], &["prefix"]]),
            v("MultipleHashesNotATuple", &[], None, &[&["tuple"], NOT]),
            v("MultipleHashesNumberMismatch", &[], None, &[&["tuple"], &["number", "length", "count"], MATCH]),
            v("ParsingKey", &[], Some(Parser), &[&["key"]]),
            v("ParsingValue", &[], Some(Parser), &[&["value"]]),
            v("PlainKeyExceedsPrefix", &[], None, &[&["plain"], &["prefix"]]),
        ],
        Sign14 | Sign15 => {
            macro_rules! sign {
                ($m:expr) => {
                    &[
                        v("CutSignable", &[], None, &[&["separate", "split", "cut"], &["call"], &["extension"]]),
                        v("ExtensionsList", &[], Some(Ext), &[]),
                        v("ImmortalHashMismatch", &[], None, &[&["immortal"], &["hash"], MATCH]),
                        v("MetaStructure", &[], Some($m), &[&["metadata"]]),
                        v("NotACall", &[(K::U32, &[])], None, &[&["call"], NOT]),
                        v("Parsing", &[], Some(Parser), &[&["pars", "decod"]]),
                        v("SomeDataNotUsedCall", &[(K::N, &[]), (K::N, &[])], None, &[&["call"], UNUSED]),
                        v("SomeDataNotUsedExtensions", &[(K::N, &[])], None, &[&["extension"], UNUSED]),
                        v("WrongGenesisHash", &[(K::Hash, &["extension", "decoded", "transaction"]), (K::Hash, &["expect"])], None, &[&["genesis"]]),
                        v("WrongSpecVersion", &[(K::Digits, &["extension", "transaction"]), (K::Digits, &["metadata"])], None, &[&["version"]]),
                    ]
                };
            }
            const A: &[Var] = sign!(Meta);
            const B: &[Var] = sign!(Ver);
            if f == Sign14 {
                A
            } else {
                B
            }
        }
        Unch14 | Unch15 => {
            macro_rules! unch {
                ($m:expr) => {
                    &[
                        v("FormatNoCompact", &[], None, &[&["extrinsic"], &["compact", "length"]]),
                        v("MetaStructure", &[], Some($m), &[&["metadata"]]),
                        v("Parsing", &[], Some(Parser), &[&["extrinsic"], &["pars", "decod"]]),
                        v("VersionMismatch", &[(K::U8, &["extrinsic", "byte"]), (K::U8, &["metadata"])], None, &[&["version"], MATCH]),
                        v("UnexpectedCallTy", &[(K::U32, &[])], None, &[&["call"], NOT]),
                    ]
                };
            }
            const A: &[Var] = unch!(Meta);
            const B: &[Var] = unch!(Ver);
            if f == Unch14 {
                A
            } else {
                B
            }
        }
    }
}

fn family(f: Fam) -> &'static str {
    match f {
        Buffer => "BufferError",
        RegInt => "RegistryInternalError",
        Reg => "RegistryError",
        Parser => "ParserError",
        Ext => "ExtensionsError",
        Ver => "MetaVersionErrorPallets",
        Meta => "MetaStructureErrorV14",
        Storage => "StorageError",
        Sign14 | Sign15 => "SignableError",
        Unch14 | Unch15 => "UncheckedExtrinsicError",
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Val {
    N(u64),
    Hash([u8; 32]),
    S(String),
    Ty(&'static str),
}

impl Val {
    fn n(&self) -> u64 {
        match self {
            Val::N(n) => *n,
            _ => unreachable!(),
        }
    }
    fn s(&self) -> String {
        match self {
            Val::N(n) => n.to_string(),
            Val::Hash(h) => hex::encode(h),
            Val::S(s) => s.clone(),
            Val::Ty(s) => s.to_string(),
        }
    }
    fn hash(&self) -> H256 {
        match self {
            Val::Hash(h) => H256(*h),
            _ => unreachable!(),
        }
    }
    fn ty(&self) -> &'static str {
        match self {
            Val::Ty(h) => h,
            _ => unreachable!(),
        }
    }
}

/// An error, described.
#[derive(Clone, Debug, PartialEq)]
struct Spec {
    f: Fam,
    var: usize,
    vals: Vec<Val>,
    inner: Option<Box<Spec>>,
}

const TYPES: &[&str] = &["bool", "char", "str", "Era", "Option<bool>", "BitVec<u8, Lsb0>", "BitVec<u64, Msb0>", "Perbill", "u8", "u16", "i128", "PerU16", "x"];

const EDGES: &[u64] = &[0, 1, 2, 9, 10, 11, 99, 100, 127, 128, 255, 256, 257, 999, 1000, 16383, 16384, 32767, 32768, 65535, 65536, 100_000, (1 << 24) - 1, 1 << 24, (1 << 31) - 1, 1 << 31, u32::MAX as u64, 1 << 32, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, 1 << 63, u64::MAX - 1, u64::MAX];

fn gen_num(t: &mut Tape, k: K) -> u64 {
    let max = match k {
        K::U8 => u8::MAX as u64,
        K::U32 => u32::MAX as u64,
        _ => u64::MAX,
    };
    match t.below(4) {
        0 => EDGES[t.below(EDGES.len())] & max,
        1 => t.uint(64) as u64 & max,
        2 => t.below(300) as u64 & max,
        _ => EDGES[t.below(EDGES.len())].wrapping_add(t.below(5) as u64).wrapping_sub(2) & max,
    }
}

fn gen_val(t: &mut Tape, k: K) -> Val {
    match k {
        K::N | K::U32 | K::U8 => Val::N(gen_num(t, k)),
        K::Hash => {
            let mut h = [0u8; 32];
            match t.below(3) {
                0 => h.copy_from_slice(&t.bytes(32)),
                1 => h[t.below(32)] = t.u8(),
                _ => h = [t.u8(); 32],
            }
            Val::Hash(h)
        }
        K::Digits => Val::S(t.uint(128).to_string()),
        K::Ty => Val::Ty(TYPES[t.below(TYPES.len())]),
        K::Text => Val::S(format!("flash page {} gone", gen_num(t, K::N))),
    }
}

fn gen(t: &mut Tape, f: Fam) -> Spec {
    let var = t.below(vars(f).len());
    let d = &vars(f)[var];
    let vals = d.vals.iter().map(|(k, _)| gen_val(t, *k)).collect();
    Spec { f, var, vals, inner: d.inner.map(|i| Box::new(gen(t, i))) }
}

// ------------------------------------------------------------- real errors

fn buffer(s: &Spec) -> BufferError<Own> {
    let n = |i: usize| s.vals[i].n() as usize;
    match s.var {
        0 => BufferError::External(s.vals[0].s()),
        1 => BufferError::DataTooShort { position: n(0), minimal_length: n(1) },
        _ => BufferError::OutOfRange { position: n(0), total_length: n(1) },
    }
}

fn reg_int(s: &Spec) -> RegistryInternalError {
    use RegistryInternalError as R;
    let id = s.vals.first().map_or(0, |v| v.n() as u32);
    match s.var {
        0 => R::CyclicMetadata { id },
        1 => R::ExtrinsicNoCallParam,
        2 => R::NotBitOrderType { id },
        3 => R::NotBitStoreType { id },
        4 => R::TypeNotResolved { id },
        5 => R::UnexpectedCompactInsides { id },
        _ => R::UnexpectedExtrinsicType { extrinsic_ty_id: id },
    }
}

fn reg(s: &Spec) -> RegistryError<Own> {
    match s.var {
        0 => RegistryError::External(s.vals[0].s()),
        _ => RegistryError::Internal(reg_int(s.inner.as_ref().unwrap())),
    }
}

fn parser(s: &Spec) -> ParserError<Own> {
    let n = |i: usize| s.vals[i].n() as usize;
    match s.var {
        0 => ParserError::Buffer(buffer(s.inner.as_ref().unwrap())),
        1 => ParserError::Registry(reg(s.inner.as_ref().unwrap())),
        2 => ParserError::NoCompact { position: n(0) },
        3 => ParserError::SomeDataNotUsedBlob { from: n(0) },
        4 => ParserError::TypeFailure { position: n(0), ty: s.vals[1].ty() },
        _ => ParserError::UnexpectedEnumVariant { position: n(0) },
    }
}

fn ext(s: &Spec) -> ExtensionsError {
    use ExtensionsError::*;
    match s.var {
        0 => BlockHashTwice,
        1 => EraTwice,
        2 => GenesisHashTwice,
        3 => NoGenesisHash,
        4 => NoSpecVersion,
        _ => SpecVersionTwice,
    }
}

fn ver(s: &Spec) -> MetaVersionErrorPallets {
    use MetaVersionErrorPallets::*;
    match s.var {
        0 => NoSpecNameIdentifier,
        1 => NoSpecVersionIdentifier,
        2 => NoSystemPallet,
        3 => NoVersionInConstants,
        4 => RuntimeVersionNotDecodeable,
        5 => SpecNameIdentifierTwice,
        6 => SpecVersionIdentifierTwice,
        _ => UnexpectedRuntimeVersionFormat,
    }
}

fn meta(s: &Spec) -> MetaStructureErrorV14 {
    use MetaStructureErrorV14::*;
    match s.var {
        0 => ExtrinsicTypeNotResolved(reg_int(s.inner.as_ref().unwrap())),
        1 => NoAddressParam,
        2 => NoCallParam,
        3 => NoExtraParam,
        4 => NoSignatureParam,
        5 => UnexpectedExtrinsicType { extrinsic_ty_id: s.vals[0].n() as u32 },
        _ => Version(ver(s.inner.as_ref().unwrap())),
    }
}

fn storage(s: &Spec) -> StorageError<Own> {
    use StorageError::*;
    match s.var {
        0 => KeyPartHashMismatch,
        1 => KeyPartsUnused,
        2 => KeyShorterThanPrefix,
        3 => MultipleHashesNotATuple,
        4 => MultipleHashesNumberMismatch,
        5 => ParsingKey(parser(s.inner.as_ref().unwrap())),
        6 => ParsingValue(parser(s.inner.as_ref().unwrap())),
        _ => PlainKeyExceedsPrefix,
    }
}

macro_rules! two {
    ($sign:ident, $unch:ident, $m:ty, $structure:ident) => {
        fn $sign(s: &Spec) -> SignableError<Own, $m> {
            use SignableError::*;
            let i = || s.inner.as_ref().unwrap();
            let n = |i: usize| s.vals[i].n() as usize;
            match s.var {
                0 => CutSignable,
                1 => ExtensionsList(ext(i())),
                2 => ImmortalHashMismatch,
                3 => MetaStructure($structure(i())),
                4 => NotACall(n(0) as u32),
                5 => Parsing(parser(i())),
                6 => SomeDataNotUsedCall { from: n(0), to: n(1) },
                7 => SomeDataNotUsedExtensions { from: n(0) },
                8 => WrongGenesisHash { as_decoded: s.vals[0].hash(), expected: s.vals[1].hash() },
                _ => WrongSpecVersion { as_decoded: s.vals[0].s(), in_metadata: s.vals[1].s() },
            }
        }
        fn $unch(s: &Spec) -> UncheckedExtrinsicError<Own, $m> {
            use UncheckedExtrinsicError::*;
            let i = || s.inner.as_ref().unwrap();
            let n = |i: usize| s.vals[i].n();
            match s.var {
                0 => FormatNoCompact,
                1 => MetaStructure($structure(i())),
                2 => Parsing(parser(i())),
                3 => VersionMismatch { version_byte: n(0) as u8, version: n(1) as u8 },
                _ => UnexpectedCallTy { call_ty_id: n(0) as u32 },
            }
        }
    };
}

two!(sign14, unch14, M14, meta);
two!(sign15, unch15, M15, ver);

/// The text as it is displayed, and the same through other ways to print it.
fn texts<X: Display + Debug>(x: X) -> Vec<String> {
    let _ = format!("{x:?}");
    let d: &dyn Display = &x;
    vec![x.to_string(), format!("{d}"), format!("{x:#}")]
}

fn dynamic<X: Error>(x: X) -> Vec<String> {
    let mut out = texts(&x);
    let e: &dyn Error = &x;
    out.push(e.to_string());
    out
}

fn print(s: &Spec) -> Vec<String> {
    match s.f {
        Buffer => dynamic(buffer(s)),
        RegInt => dynamic(reg_int(s)),
        Reg => dynamic(reg(s)),
        Parser => dynamic(parser(s)),
        Ext => dynamic(ext(s)),
        Ver => dynamic(ver(s)),
        Meta => dynamic(meta(s)),
        Storage => dynamic(storage(s)),
        // as `Error` these ask for printable metadata
        Sign14 => texts(sign14(s)),
        Sign15 => texts(sign15(s)),
        Unch14 => texts(unch14(s)),
        Unch15 => texts(unch15(s)),
    }
}

// ------------------------------------------------------------------ oracle

fn word(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}

/// Places where `what` stands in `text`, not as part of a longer word or number.
fn places(text: &str, what: &str) -> Vec<usize> {
    let mut out = vec![];
    let mut from = 0;
    while let Some(i) = text[from..].find(what) {
        let at = from + i;
        let end = at + what.len();
        let before = text[..at].chars().next_back();
        let after = text[end..].chars().next();
        let mut hex_mark = false;
        if text[..at].ends_with("0x") {
            hex_mark = true;
        }
        if (hex_mark || !before.is_some_and(word)) && !after.is_some_and(word) {
            out.push(at);
        }
        from = at + text[at..].chars().next().map_or(1, char::len_utf8);
    }
    out
}

/// Distance in characters from a value to the nearest of some words.
fn distance(lower: &str, at: usize, len: usize, words: &[&str]) -> usize {
    words
        .iter()
        .flat_map(|w| lower.match_indices(w).map(move |(i, _)| if i < at { at.saturating_sub(i + w.len()) } else { i.saturating_sub(at + len) }))
        .min()
        .unwrap_or(usize::MAX)
}

fn about(s: &Spec, text: &str) -> Option<(&'static str, String)> {
    let d = &vars(s.f)[s.var];
    if text.trim().is_empty() && !(s.f == Buffer) {
        return Some(("empty", "the text is empty".into()));
    }
    // each value, as often as it is carried
    for (i, x) in s.vals.iter().enumerate() {
        let p = x.s();
        let carried = s.vals.iter().filter(|y| y.s() == p).count();
        let seen = if matches!(x, Val::N(_) | Val::Hash(_)) || matches!(d.vals[i].0, K::Digits) { places(text, &p).len() } else { text.matches(&p[..]).count() };
        if seen < carried {
            return Some(("value", format!("value {p} ({i}) is not in the text, or not {carried} times")));
        }
    }
    // roles
    if let [a, b] = &s.vals[..] {
        let (pa, pb) = (a.s(), b.s());
        let (qa, qb) = (places(text, &pa), places(text, &pb));
        if pa != pb && qa.len() == 1 && qb.len() == 1 {
            let (wa, wb) = (d.vals[0].1, d.vals[1].1);
            let lower = text.to_ascii_lowercase();
            if wa.is_empty() {
                if d.name == "SomeDataNotUsedCall" && qa[0] > qb[0] {
                    return Some(("order", "the end of the range stands before its start".into()));
                }
            } else {
                let own = |at, len, w: &[&str], other: &[&str]| distance(&lower, at, len, w) < distance(&lower, at, len, other);
                if !own(qa[0], pa.len(), wa, wb) || !own(qb[0], pb.len(), wb, wa) {
                    return Some(("role", format!("{pa} is not shown as the one {wa:?}, or {pb} not as the one {wb:?}")));
                }
            }
        }
    }
    let mut rest = text.to_string();
    if let Some(i) = &s.inner {
        let inside = print(i).remove(0);
        match text.find(&inside) {
            None => return Some(("inside", format!("the error inside prints {inside:?}"))),
            Some(at) => rest = text[..at].to_string() + &text[at + inside.len()..],
        }
    }
    let rest = rest.to_lowercase();
    for group in d.words {
        if !group.iter().any(|w| rest.contains(w)) {
            return Some(("cause", format!("the text says none of {group:?}")));
        }
    }
    None
}

fn check(s: &Spec, ctx: &mut Ctx) -> Outcome {
    ctx.eval();
    ctx.label(family(s.f));
    ctx.label_if(s.inner.is_some(), "error inside");
    let all = print(s);
    let text = &all[0];
    ensure!(all.iter().all(|x| x == text), "way", "{s:?}\nprints in different ways {all:?}");
    if let Some((sig, why)) = about(s, text) {
        fail!(sig, "{s:?}\nprints {text:?}\n{why}");
    }
    if let Some(i) = &s.inner {
        if s.f != Buffer {
            converted(s, i)?;
        }
        check_inside(i, ctx)?;
    }
    Ok(())
}

fn check_inside(s: &Spec, ctx: &mut Ctx) -> Outcome {
    ctx.label_if(vars(s.f)[s.var].name == "External", "external");
    if s.f == Buffer {
        ctx.label(family(s.f));
        return Ok(());
    }
    check(s, ctx)
}

/// Conversions keep the error.
fn converted(s: &Spec, i: &Spec) -> Outcome {
    macro_rules! same {
        ($made:expr, $want:expr) => {{
            let (made, want) = ($made, $want);
            ensure!(made == want, "conversion", "{s:?}\nconverted {made:?}\nexpected  {want:?}");
        }};
    }
    match (s.f, vars(s.f)[s.var].name) {
        (Reg, "Internal") => same!(RegistryError::<Own>::from(reg_int(i)), reg(s)),
        (Parser, "Buffer") => same!(ParserError::<Own>::from(buffer(i)), parser(s)),
        (Parser, "Registry") => {
            same!(ParserError::<Own>::from(reg(i)), parser(s));
            if let Some(r) = &i.inner {
                same!(ParserError::<Own>::from(reg_int(r)), parser(s));
            }
        }
        (Meta, "ExtrinsicTypeNotResolved") => {
            same!(MetaStructureErrorV14::from(reg_int(i)), meta(s));
            same!(MetaStructureErrorV14::from(RegistryError::<()>::Internal(reg_int(i))), meta(s));
        }
        (Meta, "Version") => same!(MetaStructureErrorV14::from(ver(i)), meta(s)),
        // metadata have no equality
        (Sign14, "Parsing") => ensure!(matches!(SignableError::<Own, M14>::from(parser(i)), SignableError::Parsing(p) if p == parser(i)), "conversion", "{s:?}"),
        (Sign15, "Parsing") => ensure!(matches!(SignableError::<Own, M15>::from(parser(i)), SignableError::Parsing(p) if p == parser(i)), "conversion", "{s:?}"),
        (Unch14, "Parsing") => ensure!(matches!(UncheckedExtrinsicError::<Own, M14>::from(parser(i)), UncheckedExtrinsicError::Parsing(p) if p == parser(i)), "conversion", "{s:?}"),
        (Unch15, "Parsing") => ensure!(matches!(UncheckedExtrinsicError::<Own, M15>::from(parser(i)), UncheckedExtrinsicError::Parsing(p) if p == parser(i)), "conversion", "{s:?}"),
        _ => {}
    }
    Ok(())
}

/// An error of the same type that differs in one thing.
fn neighbour(t: &mut Tape, s: &Spec, ctx: &mut Ctx) -> Spec {
    let mut n = s.clone();
    match t.below(4) {
        0 if !s.vals.is_empty() => {
            ctx.label("neighbour in a value");
            let i = t.below(s.vals.len());
            let k = vars(s.f)[s.var].vals[i].0;
            n.vals[i] = match &s.vals[i] {
                Val::N(x) => {
                    let y = match t.below(5) {
                        0 => x.wrapping_add(1),
                        1 => x.wrapping_sub(1),
                        2 => x.wrapping_mul(10),
                        3 => x / 10,
                        _ => x ^ (1 << t.below(64)),
                    };
                    Val::N(match k {
                        K::U8 => y & 0xff,
                        K::U32 => y & 0xffff_ffff,
                        _ => y,
                    })
                }
                Val::Hash(h) => {
                    let mut h = *h;
                    h[t.below(32)] ^= 1 << t.below(8);
                    Val::Hash(h)
                }
                _ => gen_val(t, k),
            };
        }
        1 if s.vals.len() == 2 && vars(s.f)[s.var].vals[0].0 == vars(s.f)[s.var].vals[1].0 => {
            ctx.label("exchanged values");
            n.vals.swap(0, 1);
        }
        2 if s.inner.is_some() => {
            ctx.label("other inside");
            let i = neighbour(t, s.inner.as_ref().unwrap(), ctx);
            n.inner = Some(Box::new(i));
        }
        _ => {
            ctx.label("other variant");
            n = gen(t, s.f);
            // where possible, with the same values
            if n.vals.len() == s.vals.len() && vars(n.f)[n.var].vals.iter().zip(vars(s.f)[s.var].vals).all(|(a, b)| a.0 == b.0) {
                n.vals = s.vals.clone();
            }
            if let (Some(a), Some(b)) = (&mut n.inner, &s.inner) {
                if a.f == b.f {
                    *a = b.clone();
                }
            }
        }
    }
    n
}

/// Errors of `BufferError` belong to another crate; there only the values count.
fn comparable(a: &Spec, b: &Spec) -> bool {
    if a.f == Buffer {
        return false;
    }
    match (&a.inner, &b.inner) {
        (Some(x), Some(y)) if a.var == b.var => x == y || comparable(x, y),
        _ => true,
    }
}

fn numbers(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    let mut glued = false;
    let mut before = ' ';
    for c in s.chars().chain([' ']) {
        if c.is_ascii_digit() {
            if cur.is_empty() {
                glued = word(before);
            }
            cur.push(c);
        } else {
            if !cur.is_empty() && !glued && !word(c) {
                out.push(cur.clone());
            }
            cur.clear();
        }
        before = c;
    }
    out
}

fn job(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let Some(c) = gen_job(t, false) else { return ctx.discard() };
    let mm = MemMeta { of: c.meta.clone(), reg: crate::mem::MemReg::new(c.meta.reg.0.clone(), false) };
    let fail = if t.chance(60) { Some((t.below(30), usize::MAX)) } else { None };
    let (o, _) = external(&c.job, &mm, &c.data, &c.key, 64, fail);
    ctx.label("job");
    ctx.describe(|| c.show());
    for e in &o.errors {
        ctx.eval();
        let Some((debug, text)) = e.split_once(crate::job::BETWEEN) else { continue };
        let ns = numbers(debug);
        if !ns.is_empty() {
            ctx.label("job with values");
            ctx.interesting(&[e.as_bytes()]);
        }
        for n in &ns {
            ensure!(places(text, n).len() >= ns.iter().filter(|m| *m == n).count().min(2), "job-value", "{}\nthe error {debug}\nprints {text:?}, without {n}", c.show());
        }
        ensure!(!text.trim().is_empty(), "job-empty", "{}\nthe error {debug}\nprints nothing", c.show());
    }
    Ok(())
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    if t.chance(30) {
        return job(t, ctx);
    }
    let f = FAMS[1 + t.below(FAMS.len() - 1)];
    let s = gen(t, f);
    ctx.describe(|| format!("{s:?}\n{}", print(&s)[0]));
    if !s.vals.is_empty() || s.inner.is_some() {
        ctx.interesting(&[format!("{s:?}").as_bytes()]);
    }
    check(&s, ctx)?;
    let n = neighbour(t, &s, ctx);
    if n != s {
        check(&n, ctx)?;
        if comparable(&s, &n) {
            let (a, b) = (print(&s).remove(0), print(&n).remove(0));
            ensure!(a != b, "alike", "{s:?}\nand {n:?}\nboth print {a:?}");
        }
    }
    Ok(())
}

/// All variants, with all errors that they can carry.
fn shapes(f: Fam) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for (i, d) in vars(f).iter().enumerate() {
        match d.inner {
            None => out.push(vec![i]),
            Some(g) => out.extend(shapes(g).into_iter().map(|s| [vec![i], s].concat())),
        }
    }
    out
}

fn fill(f: Fam, shape: &[usize], e: u64) -> Spec {
    let d = &vars(f)[shape[0]];
    let vals = d
        .vals
        .iter()
        .enumerate()
        .map(|(i, (k, _))| {
            // the second value is another border
            let x = EDGES[(e as usize + i * 7) % EDGES.len()];
            match k {
                K::N => Val::N(x),
                K::U32 => Val::N(x & 0xffff_ffff),
                K::U8 => Val::N(x & 0xff),
                K::Hash => {
                    let mut h = [0; 32];
                    h[..8].copy_from_slice(&x.to_be_bytes());
                    h[31] = i as u8;
                    Val::Hash(h)
                }
                K::Digits => Val::S(x.to_string()),
                K::Ty => Val::Ty(TYPES[e as usize % TYPES.len()]),
                K::Text => Val::S(format!("flash page {x} gone")),
            }
        })
        .collect();
    Spec { f, var: shape[0], vals, inner: d.inner.map(|g| Box::new(fill(g, &shape[1..], e))) }
}

const ENUM: u64 = 11;

/// One family: all shapes at all borders, and no two of them print alike.
fn enumerated(i: u64, ctx: &mut Ctx) -> Outcome {
    let f = FAMS[1 + i as usize];
    let mut seen: Vec<(String, Spec)> = vec![];
    for shape in shapes(f) {
        for e in 0..EDGES.len() as u64 {
            let s = fill(f, &shape, e);
            check(&s, ctx)?;
            seen.push((print(&s).remove(0), s));
        }
    }
    seen.sort_by(|a, b| a.0.cmp(&b.0));
    for w in seen.windows(2) {
        if w[0].0 == w[1].0 && w[0].1 != w[1].1 && comparable(&w[0].1, &w[1].1) {
            fail!("alike", "{:?}\nand {:?}\nboth print {:?}", w[0].1, w[1].1, w[0].0);
        }
    }
    Ok(())
}
