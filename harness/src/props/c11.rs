//! C11: hints.

use scale_info::{form::PortableForm, Field, PortableRegistry, TypeDef, TypeDefArray, TypeDefCompact, TypeDefComposite, TypeDefPrimitive, TypeDefSequence, TypeDefTuple, TypeDefVariant, Variant};
use substrate_parser::cards::{ParsedData, Sequence};
use substrate_parser::special_indicators::{SpecialtyStr, SpecialtyUnsignedInteger};

use crate::dict;
use crate::genreg::{segs, sym, Gen, Opts};
use crate::mutate::{mutate, visit, Strip};
use crate::props::c01::value_for;
use crate::runner::{Ctx, Outcome, Property};
use crate::sut::{self, show_reg};
use crate::tape::Tape;
use crate::walk::{ref_decode, special_path, Hi, RefErr, Sp};
use crate::{ensure, fail};

pub static P: Property = Property {
    id: "C11",
    rule: "a hintable leaf (integer, compact, hash, text, lists of them, special type) under up to five layers of single-field structs, tuples, multi-field structs, enums, vectors, arrays, compacts, with hinting and nearly hinting field names, type names, element idents, decoded as content of each extension and as plain type; compared with the reference, and with the same types after renaming all hint sources; non-trivial = at least one hint source present",
    assumptions: &[],
    tape_len: 300,
    quick: 2_000_000,
    thorough: 80_000_000,
    run,
    enumerated: None,
    known_demos: &[],
    must_reach: &["marked Balance", "marked Tip", "marked TipAsset", "marked Nonce", "marked SpecVersion", "marked TxVersion", "marked SpecName", "marked GenesisHash", "marked BlockHash", "unmarked", "erased", "mark dropped", "raw sequence"],
};

pub const IDENTIFIERS: &[&str] = &[
    "",
    "CheckSpecVersion",
    "CheckTxVersion",
    "CheckGenesis",
    "CheckMortality",
    "CheckNonce",
    "ChargeAssetTxPayment",
    "ChargeTransactionPayment",
    "CheckWeight",
    "checkNonce",
    "CheckNonce ",
    "CheckEra",
    "SpecVersion",
    "ChargeTransactionPayments",
    "CheckMetadataHash",
];
const NAMES: &[&str] = &["nonce", "spec_version", "spec_name", "tx_version", "transaction_version", "Nonce", "nonces", "specVersion", "spec_names", "tip", "value", "genesis", "version"];
const TYPES: &[&str] = &[
    "Balance", "BalanceOf<T>", "BalanceOf<T, I>", "DepositBalance", "ExtendedBalance", "PalletBalanceOf<T>", "T::Balance", "balance", "BalanceOf<T,I>", "BalanceOf", "T::Balances", "Balance ", "u128", "Nonce",
];
const IDENTS: &[&str] = &["CheckNonce", "ChargeTransactionPayment", "ChargeAssetTxPayment", "CheckSpecVersion", "CheckTxVersion", "CheckGenesis", "checknonce", "Foo"];

const HINT_NAMES: &[&str] = &["nonce", "spec_version", "spec_name", "tx_version", "transaction_version"];
const HINT_TYPES: &[&str] = &["Balance", "BalanceOf<T>", "BalanceOf<T, I>", "DepositBalance", "ExtendedBalance", "PalletBalanceOf<T>", "T::Balance"];
const HINT_IDENTS: &[&str] = &["CheckNonce", "ChargeTransactionPayment", "ChargeAssetTxPayment"];

fn near(g: &mut Gen, of: &[&str]) -> String {
    let x = *g.tape.pick(of);
    dict::near(g.tape, x)
}

fn field(g: &mut Gen, ty: u32) -> Field<PortableForm> {
    let rare = g.tape.chance(16);
    let name = if g.tape.chance(150) { Some(if rare { dict::field_name(g.tape) } else if g.tape.chance(16) { near(g, HINT_NAMES) } else { g.tape.pick(NAMES).to_string() }) } else { None };
    let type_name = if g.tape.chance(120) { Some(if rare { dict::type_name(g.tape) } else if g.tape.chance(16) { near(g, HINT_TYPES) } else { g.tape.pick(TYPES).to_string() }) } else { None };
    Field { name, ty: sym(ty), type_name, docs: vec![] }
}

fn path(g: &mut Gen) -> scale_info::Path<PortableForm> {
    if g.tape.chance(110) {
        let i = *g.tape.pick(IDENTS);
        if g.tape.chance(16) {
            let p = vec![if g.tape.chance(128) { near(g, HINT_IDENTS) } else { dict::segment(g.tape) }];
            return if special_path(&p) == Sp::None { scale_info::Path { segments: p } } else { segs(&[]) };
        }
        segs(&["ext", i])
    } else {
        segs(&[])
    }
}

fn leaf(g: &mut Gen) -> u32 {
    match g.tape.below(14) {
        0 | 1 | 2 => g.uint_prim(),
        3 | 4 => g.compact(),
        5 => g.h256(),
        6 => g.prim(TypeDefPrimitive::Str),
        7 => g.special(),
        8 => g.prim(TypeDefPrimitive::I32),
        9 => {
            let u = g.uint_prim();
            g.add(segs(&[]), TypeDefSequence::new(sym(u)), vec![])
        }
        10 => {
            let h = g.h256();
            g.add(segs(&[]), TypeDefArray::new(2, sym(h)), vec![])
        }
        11 => g.prim(TypeDefPrimitive::Bool),
        _ => g.ty(),
    }
}

fn layer(g: &mut Gen, inner: u32) -> u32 {
    match g.tape.weighted(&[8, 3, 3, 3, 3, 3, 2, 2]) {
        0 => {
            let f = field(g, inner);
            let p = path(g);
            g.add(p, TypeDefComposite { fields: vec![f] }, vec![])
        }
        1 => g.add(segs(&[]), TypeDefTuple { fields: vec![sym(inner)] }, vec![]),
        2 => {
            let other = leaf(g);
            let (a, b) = (field(g, inner), field(g, other));
            let fields = if g.tape.chance(128) { vec![a, b] } else { vec![b, a] };
            let p = path(g);
            g.add(p, TypeDefComposite { fields }, vec![])
        }
        3 => {
            let n = g.tape.range(2, 3);
            let k = g.tape.below(n);
            let fields = (0..n).map(|i| sym(if i == k { inner } else { leaf(g) })).collect();
            g.add(segs(&[]), TypeDefTuple { fields }, vec![])
        }
        4 => {
            let mut fields = vec![field(g, inner)];
            if g.tape.chance(80) {
                let other = leaf(g);
                fields.push(field(g, other));
            }
            let p = path(g);
            g.add(p, TypeDefVariant { variants: vec![Variant { name: "Some".into(), fields, index: 1, docs: vec![] }] }, vec![])
        }
        5 => g.add(segs(&[]), TypeDefSequence::new(sym(inner)), vec![]),
        6 => {
            let n = g.tape.range(0, 3) as u32;
            g.add(segs(&[]), TypeDefArray::new(n, sym(inner)), vec![])
        }
        _ => {
            // a compact where it is legal
            let c = g.uint_prim();
            let f = field(g, c);
            let p = path(g);
            let s = g.add(p, TypeDefComposite { fields: vec![f] }, vec![]);
            let c = g.add(segs(&[]), TypeDefCompact::new(sym(s)), vec![]);
            let (a, b) = (field(g, inner), field(g, c));
            if g.tape.chance(128) {
                g.add(segs(&[]), TypeDefComposite { fields: vec![b] }, vec![])
            } else {
                g.add(segs(&[]), TypeDefComposite { fields: vec![a, b] }, vec![])
            }
        }
    }
}

fn erase(reg: &PortableRegistry) -> PortableRegistry {
    let mut r = reg.clone();
    let fix = |f: &mut Field<PortableForm>| {
        if f.name.as_deref().is_some_and(|n| HINT_NAMES.contains(&n)) {
            f.name = Some("plain".into());
        }
        if f.type_name.as_deref().is_some_and(|n| HINT_TYPES.contains(&n)) {
            f.type_name = Some("Plain".into());
        }
    };
    for t in &mut r.types {
        if t.ty.path.segments.last().is_some_and(|i| HINT_IDENTS.contains(&i.as_str())) {
            t.ty.path.segments = vec!["Plain".into()];
        }
        match &mut t.ty.type_def {
            TypeDef::Composite(c) => c.fields.iter_mut().for_each(fix),
            TypeDef::Variant(v) => v.variants.iter_mut().for_each(|v| v.fields.iter_mut().for_each(fix)),
            _ => {}
        }
    }
    r
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let mut g = Gen::new(t, Opts { max_types: 24, max_depth: 2, ..Opts::default() });
    let mut root = leaf(&mut g);
    let layers = g.tape.below(6);
    for _ in 0..layers {
        root = layer(&mut g, root);
    }
    let (reg, _) = g.finish();
    if !crate::genreg::instantiable(&reg, root) {
        return ctx.discard();
    }
    let word = dict::text(t);
    let identifier = if t.chance(10) { &word[..] } else { *t.pick(IDENTIFIERS) };
    let hint = Hi::of_extension(identifier);
    let Some(v) = value_for(t, &reg, root, hint, 150) else {
        return ctx.discard();
    };
    let show = || format!("as extension {identifier:?}: type {root} of registry\n{}data 0x{}", show_reg(&reg), hex::encode(&v.data));
    ctx.describe(show);
    let mut labels = vec![];
    let mut marked = false;
    visit(&v.expected.data, &mut |d| {
        let u = match d {
            ParsedData::PrimitiveU8 { specialty, .. }
            | ParsedData::PrimitiveU16 { specialty, .. }
            | ParsedData::PrimitiveU32 { specialty, .. }
            | ParsedData::PrimitiveU64 { specialty, .. }
            | ParsedData::PrimitiveU128 { specialty, .. } => Some(specialty),
            _ => None,
        };
        let l = match (d, u) {
            (_, Some(SpecialtyUnsignedInteger::Balance)) => "marked Balance",
            (_, Some(SpecialtyUnsignedInteger::Tip)) => "marked Tip",
            (_, Some(SpecialtyUnsignedInteger::TipAsset)) => "marked TipAsset",
            (_, Some(SpecialtyUnsignedInteger::Nonce)) => "marked Nonce",
            (_, Some(SpecialtyUnsignedInteger::SpecVersion)) => "marked SpecVersion",
            (_, Some(SpecialtyUnsignedInteger::TxVersion)) => "marked TxVersion",
            (ParsedData::Text { specialty: SpecialtyStr::SpecName, .. }, _) => "marked SpecName",
            (ParsedData::GenesisHash(_), _) => "marked GenesisHash",
            (ParsedData::BlockHash(_), _) => "marked BlockHash",
            (ParsedData::SequenceRaw(_), _) => {
                labels.push("raw sequence");
                return;
            }
            (_, Some(_)) => "unmarked",
            (ParsedData::Sequence(s), _) => {
                if matches!(s.data, Sequence::U8(_)) {
                    return;
                }
                "unmarked"
            }
            _ => return,
        };
        marked |= l != "unmarked";
        labels.push(l);
    });
    ctx.label_if(hint != Hi::None && !marked, "mark dropped");
    for l in labels {
        ctx.label(l);
    }
    let bare = erase(&reg);
    if hint != Hi::None || bare != reg {
        ctx.interesting(&[&v.data, identifier.as_bytes(), show_reg(&reg).as_bytes()]);
    }
    let check = |data: &[u8], good: bool, ctx: &mut Ctx| -> Outcome {
        let (r, rp) = ref_decode(&reg, root, data, 0, hint);
        if r == Err(RefErr::Budget) {
            return Ok(());
        }
        let mut p = 0;
        let a = sut::decode_ext(&reg, root, data, &mut p, identifier);
        match (&r, &a) {
            (Ok(x), Ok(y)) => ensure!(x == y && p == rp, "value", "data 0x{}\n{}\nexpected end {rp} {x:?}\ngot {p} {y:?}", hex::encode(data), show()),
            (Err(_), Err(_)) if !good => {}
            _ => fail!("verdict", "data 0x{}\n{}\nexpected {r:?}\ngot {a:?}", hex::encode(data), show()),
        }
        // the plain type, and the type with hint sources renamed: same value, same consumption, same verdict
        let strip = Strip { hints: true, infos: true, names: true };
        ctx.label("erased");
        for (reg2, id2) in [(&reg, ""), (&bare, identifier), (&bare, "")] {
            ctx.eval();
            let mut q = 0;
            let b = sut::decode_ext(reg2, root, data, &mut q, id2);
            match (&a, &b) {
                (Ok(x), Ok(y)) => {
                    let (x, y) = (strip.data(&x.data), strip.data(&y.data));
                    ensure!(x == y && p == q, "hint-effect", "data 0x{}\n{}\nthe hints change the value or consumption: with {p} {x:?}\nwithout ({id2:?}) {q} {y:?}", hex::encode(data), show());
                }
                (Err(_), Err(_)) => {}
                _ => fail!("hint-verdict", "data 0x{}\n{}\nthe hints change the verdict: with {a:?}\nwithout ({id2:?}) {b:?}", hex::encode(data), show()),
            }
        }
        Ok(())
    };
    check(&v.data, true, ctx)?;
    let mut d = v.data.clone();
    mutate(t, &mut d, &v.marks);
    check(&d, false, ctx)
}
