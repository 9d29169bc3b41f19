//! C23: displayed text shows the exact value.

use std::collections::HashMap;

use substrate_parser::cards::{ExtendedData, ParsedData};
use substrate_parser::ShortSpecs;

use crate::cards_ref::*;
use crate::genreg::Opts;
use crate::props::c01::gen_case;
use crate::runner::{Ctx, Outcome, Property};
use crate::tape::Tape;
use crate::walk::Hi;
use crate::{ensure, fail};

pub static P: Property = Property {
    id: "C23",
    rule: "leaves of every kind with values at and around the edges of their type, each with close neighbours, and trees and decoded values with many cards: the text is the expected one and reads back as the value; non-trivial = leaf other than all zero, or at least 3 cards",
    assumptions: &["amounts are read back in C24"],
    tape_len: 1200,
    quick: 600_000,
    thorough: 80_000_000,
    run,
    enumerated: Some((16384, enumerated)),
    known_demos: &[],
    must_reach: &["leaf", "neighbour", "tree", "value", "account", "ecdsa key", "two-byte prefix", "negative", "text", "hex", "bits", "era", "char", "element info", "docs"],
};

fn neighbours(t: &mut Tape, kind: usize, a: &ParsedData) -> Vec<ParsedData> {
    use ParsedData as D;
    let mut v = vec![gen_leaf(t, kind)];
    macro_rules! near {
        ($($k:ident),*) => {
            match a {
                $(D::$k(x) => {
                    v.push(D::$k(x.wrapping_add(1)));
                    v.push(D::$k(x.wrapping_neg()));
                })*
                D::PrimitiveU8 { value, specialty } => v.push(D::PrimitiveU8 { value: value.wrapping_add(1), specialty: *specialty }),
                D::PrimitiveU16 { value, specialty } => v.push(D::PrimitiveU16 { value: value.wrapping_add(1), specialty: *specialty }),
                D::PrimitiveU32 { value, specialty } => v.push(D::PrimitiveU32 { value: value.wrapping_add(1), specialty: *specialty }),
                D::PrimitiveU64 { value, specialty } => v.push(D::PrimitiveU64 { value: value.wrapping_add(1), specialty: *specialty }),
                D::PrimitiveU128 { value, specialty } => v.push(D::PrimitiveU128 { value: value.wrapping_add(1), specialty: *specialty }),
                D::PrimitiveI256(x) => v.push(D::PrimitiveI256(-x)),
                D::PrimitiveU256(x) => v.push(D::PrimitiveU256(x * 10u8)),
                D::H256(x) => {
                    let mut y = *x;
                    y.0[t.below(32)] ^= 1 << t.below(8);
                    v.push(D::H256(y));
                }
                D::H160(x) => {
                    let mut y = *x;
                    y.0[t.below(20)] ^= 1 << t.below(8);
                    v.push(D::H160(y));
                }
                D::BitVecU8Lsb0(x) => {
                    let mut y = x.clone();
                    y.push(false);
                    v.push(D::BitVecU8Lsb0(y));
                }
                D::BitVecU32Msb0(x) => {
                    let mut y = x.clone();
                    y.push(false);
                    v.push(D::BitVecU32Msb0(y));
                }
                _ => {}
            }
        };
    }
    near!(PrimitiveI8, PrimitiveI16, PrimitiveI32, PrimitiveI64, PrimitiveI128);
    v
}

/// Every card's text is right; texts of unequal values differ.
fn texts(d: &ExtendedData, indent: u32, money: bool, specs: &ShortSpecs, name: &str, ctx: &mut Ctx, seen: &mut HashMap<(&'static str, String), RVal>) -> Outcome {
    if pictures(&d.data) > MANY_PICTURES {
        return ctx.discard();
    }
    ctx.eval();
    let want = cards_of(d, indent, money, specs, name);
    let cards = d.card(indent, money, specs, name);
    ensure!(cards.len() == want.len(), "count", "data {d:?}\n{} cards, expected {}", cards.len(), want.len());
    for (c, w) in cards.iter().zip(&want) {
        let s = c.show();
        let e = w.show();
        ensure!(s == e, "text", "data {d:?}\nspecs {specs:?} name {name:?}\nshown    {s:?}\nexpected {e:?}");
        if let Err(e) = reads_back(&s, w, specs) {
            fail!("read-back", "data {d:?}\nspecs {specs:?} name {name:?}\nshown {s:?}, reads back as {e}; the value is {:?}", w.val);
        }
        if !w.body.is_empty() {
            use substrate_parser::cards::ParserCard as P;
            let (P::Id(i) | P::PublicEd25519(i) | P::PublicSr25519(i) | P::PublicEcdsa(i)) = &c.parser_card else { fail!("kind", "data {d:?}\ncard {:?}", c.parser_card) };
            ensure!(i.identicon == plot_icon::generate_png_scaled_default(&w.body), "picture", "data {d:?}\nthe picture is not that of 0x{}", hex(&w.body));
        }
        let s2 = c.show_with_docs();
        let e2 = w.show_with_docs();
        ctx.label_if(!w.elem.is_empty(), "element info");
        ctx.label_if(!w.info.is_empty(), "docs");
        ensure!(s2 == e2, "text-with-docs", "data {d:?}\nspecs {specs:?} name {name:?}\nshown    {s2:?}\nexpected {e2:?}");
        if let Some(old) = seen.insert((w.kind, s.trim_start().to_string()), w.val.clone()) {
            ensure!(old == w.val, "ambiguous", "{old:?} and {:?} are both shown as {s:?}", w.val);
        }
    }
    let joined: Vec<String> = cards.iter().map(|c| c.show()).collect();
    ensure!(d.show(indent, money, specs, name) == joined.join("\n"), "show", "data {d:?}\nshow() is not the texts of the cards:\n{}\n{}", d.show(indent, money, specs, name), joined.join("\n"));
    let joined: Vec<String> = cards.iter().map(|c| c.show_with_docs()).collect();
    ensure!(d.show_with_docs(indent, money, specs, name) == joined.join("\n"), "show", "data {d:?}\nshow_with_docs() is not the texts of the cards");
    Ok(())
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let (specs, name) = gen_specs(t);
    let mut seen = HashMap::new();
    match t.weighted(&[200, 40, 16]) {
        0 => {
            // accounts come with a slow picture
            let kind = if t.chance(6) { PLAIN_LEAVES + t.below(LEAVES - PLAIN_LEAVES) } else { t.below(PLAIN_LEAVES) };
            let a = gen_leaf(t, kind);
            label(&a, &specs, ctx);
            ctx.label("leaf");
            ctx.interesting(&[format!("{a:?}").as_bytes()]);
            ctx.describe(|| format!("{a:?} with {specs:?}"));
            let indent = t.below(4) as u32;
            let money = t.chance(128);
            let more = if kind < PLAIN_LEAVES { neighbours(t, kind, &a) } else { vec![] };
            ctx.label_if(!more.is_empty(), "neighbour");
            for x in std::iter::once(a).chain(more) {
                texts(&ExtendedData { data: x, info: vec![] }, indent, money, &specs, &name, ctx, &mut seen)?;
            }
            Ok(())
        }
        1 => {
            ctx.label("tree");
            let mut nodes = t.range(1, 20) as u32;
            let depth = t.range(1, 5) as u32;
            let d = gen_tree(t, &mut nodes, depth);
            if nodes > 3 {
                ctx.interesting(&[format!("{d:?}").as_bytes()]);
            }
            let money = t.chance(128);
            texts(&d, t.below(3) as u32, money, &specs, &name, ctx, &mut seen)
        }
        _ => {
            let Some(c) = gen_case(t, Opts { calls: true, hints: true, ..Opts::default() }, Hi::None) else { return ctx.discard() };
            ctx.label("value");
            if c.nodes > 3 {
                ctx.interesting(&[&c.data, format!("{:?}", c.expected).as_bytes()]);
            }
            texts(&c.expected, 0, true, &specs, &name, ctx, &mut seen)
        }
    }
}

fn label(d: &ParsedData, specs: &ShortSpecs, ctx: &mut Ctx) {
    use ParsedData as D;
    match d {
        D::Id(_) | D::PublicEd25519(_) | D::PublicSr25519(_) | D::PublicEcdsa(_) => {
            ctx.label("account");
            ctx.label_if(matches!(d, D::PublicEcdsa(_)), "ecdsa key");
            ctx.label_if(specs.base58prefix >= 64, "two-byte prefix");
        }
        D::PrimitiveI64(x) => ctx.label_if(*x < 0, "negative"),
        D::Text { .. } => ctx.label("text"),
        D::PrimitiveChar(_) => ctx.label("char"),
        D::H512(_) | D::H256(_) => ctx.label("hex"),
        D::BitVecU64Msb0(_) => ctx.label("bits"),
        D::Era(_) => ctx.label("era"),
        _ => {}
    }
}

/// All small values, all address prefixes.
fn enumerated(i: u64, ctx: &mut Ctx) -> Outcome {
    use sp_arithmetic::PerThing;
    use ParsedData as D;
    use substrate_parser::additional_types::Era;
    let mut list = vec![];
    for x in [i * 4, i * 4 + 1, i * 4 + 2, i * 4 + 3] {
        let x = x as u16;
        list.push(D::PerU16(PerThing::from_parts(x)));
        list.push(D::PrimitiveI16(x as i16));
        if x < 256 {
            list.push(D::PrimitiveI8(x as u8 as i8));
        }
        if x <= 100 {
            list.push(D::Percent(PerThing::from_parts(x as u8)));
        }
        for hi in [0u32, 1, 0x10] {
            if let Some(c) = char::from_u32(hi << 16 | x as u32) {
                list.push(D::PrimitiveChar(c));
            }
        }
        let p = 4u64 << (x % 15);
        let q = (p >> 12).max(1);
        list.push(D::Era(Era::Mortal(p, x as u64 % p / q * q)));
    }
    let specs = ShortSpecs { base58prefix: i as u16, decimals: 12, unit: "UNIT".into() };
    // the picture makes cards of accounts slow: the address alone here
    if i % 16 == 0 || i < 80 {
        list.push(D::Id(substrate_crypto_light::common::AccountId32([i as u8; 32])));
    }
    ctx.interesting(&[&i.to_le_bytes()]);
    let mut seen = HashMap::new();
    for d in list {
        texts(&ExtendedData { data: d, info: vec![] }, 0, true, &specs, "chain", ctx, &mut seen)?;
    }
    Ok(())
}
