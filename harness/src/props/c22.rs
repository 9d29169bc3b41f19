//! C22: cards show everything decoded, in order, at the right depth.

use substrate_parser::cards::{ExtendedCard, ExtendedData, ParsedData};
use substrate_parser::traits::AsMetadata;
use substrate_parser::{parse_transaction, parse_transaction_unmarked, ShortSpecs};

use crate::cards_ref::*;
use crate::genreg::Opts;
use crate::meta::*;
use crate::mutate::mutate;
use crate::props::c01::{gen_case, show};
use crate::props::c12::Bad;
use crate::runner::{Ctx, Outcome, Property};
use crate::sut;
use crate::tape::Tape;
use crate::walk::Hi;
use crate::{ensure, fail};

pub static P: Property = Property {
    id: "C22",
    rule: "cards of a generated tree of parsed data of every kind, of a decoded value of a generated registry, or of a whole transaction of a generated or bundled runtime, compared with the reference listing; non-trivial = at least 5 cards expected",
    assumptions: &[],
    tape_len: 2200,
    quick: 400_000,
    thorough: 30_000_000,
    run,
    enumerated: None,
    known_demos: &[],
    must_reach: &["tree", "value", "transaction", "real", "call error", "balance", "raw balance", "field number", "merged field", "empty struct", "element info", "event", "call", "u8 lists", "nested call"],
};

/// Compare with the reference; `None` when they agree.
pub fn differ(want: &[RCard], got: &[ExtendedCard]) -> Option<String> {
    let got: Vec<RCard> = got.iter().map(read_card).collect();
    if want == got {
        return None;
    }
    let i = want.iter().zip(&got).take_while(|(a, b)| a == b).count();
    Some(format!("{} cards expected, {} made; first difference at {i}:\nexpected {:?}\ngot      {:?}", want.len(), got.len(), want.get(i), got.get(i)))
}

pub fn label_tree(d: &ExtendedData, money: bool, ctx: &mut Ctx) {
    fn fields(f: &[substrate_parser::cards::FieldData], money: bool, ctx: &mut Ctx, inside: bool) {
        let single = f.len() == 1 && f[0].field_name.is_none();
        ctx.label_if(single, "merged field");
        ctx.label_if(!single && f.iter().any(|f| f.field_name.is_none()), "field number");
        for x in f {
            walk(&x.data.data, money, ctx, inside);
        }
    }
    fn walk(d: &ParsedData, money: bool, ctx: &mut Ctx, inside: bool) {
        use ParsedData as D;
        use substrate_parser::special_indicators::SpecialtyUnsignedInteger::Balance;
        match d {
            D::Composite(f) => {
                ctx.label_if(f.is_empty(), "empty struct");
                fields(f, money, ctx, inside)
            }
            D::Variant(v) => fields(&v.fields, money, ctx, inside),
            D::Call(c) => {
                ctx.label("call");
                ctx.label_if(inside, "nested call");
                fields(&c.0.fields, ["Balances", "Staking"].contains(&c.0.pallet_name.as_str()), ctx, true)
            }
            D::Event(c) => {
                ctx.label("event");
                fields(&c.0.fields, ["Balances", "Staking"].contains(&c.0.pallet_name.as_str()), ctx, true)
            }
            D::Tuple(v) => v.iter().for_each(|x| walk(&x.data, money, ctx, inside)),
            D::SequenceRaw(s) => {
                ctx.label_if(!s.element_info.is_empty(), "element info");
                s.data.iter().for_each(|x| walk(x, money, ctx, inside))
            }
            D::Sequence(s) => ctx.label_if(matches!(&s.data, substrate_parser::cards::Sequence::VecU8 { .. }), "u8 lists"),
            D::PrimitiveU8 { specialty: Balance, .. } | D::PrimitiveU16 { specialty: Balance, .. } | D::PrimitiveU32 { specialty: Balance, .. } | D::PrimitiveU64 { specialty: Balance, .. } | D::PrimitiveU128 { specialty: Balance, .. } => {
                ctx.label(if money { "balance" } else { "raw balance" })
            }
            _ => {}
        }
    }
    walk(&d.data, money, ctx, false)
}

/// Cards of a transaction agree with those of its parts.
fn transaction<M: AsMetadata<()>>(m: &M, model: &Model, tx: &TxCase, data: &[u8], genesis: Option<primitive_types::H256>, specs: &ShortSpecs, name: &str, ctx: &mut Ctx) -> Result<(), Bad> {
    let want = model.transaction(data, genesis);
    if over_budget(&want) {
        return Ok(());
    }
    let list = |x: &[ExtendedData]| x.iter().flat_map(|e| cards_of(e, 0, true, specs, name)).collect::<Vec<_>>();
    if let Ok((call, exts)) = &want {
        if exts.iter().map(|x| pictures(&x.data)).sum::<usize>() + call.as_ref().map_or(0, call_pictures) > MANY_PICTURES {
            return Ok(());
        }
        ctx.eval();
        let Ok(p) = parse_transaction(&data, &mut (), m, genesis) else {
            return Err(Bad("refused", format!("data 0x{}", hex::encode(data))));
        };
        let c = p.card(specs, name);
        let w = list(exts);
        if w.len() >= 5 {
            ctx.interesting(&[data]);
        }
        if let Some(d) = differ(&w, &c.extensions) {
            return Err(Bad("extensions", format!("data 0x{}\nextensions: {d}", hex::encode(data))));
        }
        match (call, c.call_result) {
            (Ok(w), Ok(g)) => {
                if let Some(d) = differ(&call_cards(w, specs, name), &g) {
                    return Err(Bad("call", format!("data 0x{}\ncall: {d}", hex::encode(data))));
                }
            }
            (Err(w), Err(g)) => {
                ctx.label("call error");
                if tx_err(&g) != *w {
                    return Err(Bad("call-error", format!("data 0x{}\nexpected {w:?}\ngot {:?}", hex::encode(data), tx_err(&g))));
                }
            }
            (w, g) => return Err(Bad("call-error", format!("data 0x{}\nexpected {w:?}\ngot {:?}", hex::encode(data), g.is_ok()))),
        }
    }
    let plain = [&tx.call[..], &tx.ext[..]].concat();
    if let Ok((call, exts)) = model.transaction_unmarked(&plain, genesis) {
        ctx.eval();
        let Ok(p) = parse_transaction_unmarked(&&plain[..], &mut (), m, genesis) else {
            return Err(Bad("refused", format!("data 0x{}", hex::encode(&plain))));
        };
        let c = p.card(specs, name);
        let r = differ(&list(&exts), &c.extensions).or_else(|| differ(&call_cards(&call, specs, name), &c.call));
        if let Some(d) = r {
            return Err(Bad("unmarked", format!("data 0x{}\n{d}", hex::encode(&plain))));
        }
    }
    Ok(())
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let (specs, name) = gen_specs(t);
    match t.weighted(&[120, 100, 30, 1]) {
        0 => {
            let mut nodes = t.range(1, 24) as u32;
            let depth = t.range(1, 5) as u32;
            let d = gen_tree(t, &mut nodes, depth);
            let money = t.chance(128);
            let indent = if t.chance(8) { *t.pick(&[250u32, 253, 255, 256, 300, 32767, 65530, 65535, 65536, 1 << 24, 70]) } else { t.below(5) as u32 };
            ctx.label_if(indent > 100, "far indent");
            ctx.label("tree");
            one(&d, &d, indent, money, &specs, &name, ctx)
        }
        1 => {
            let hint = if t.chance(40) { Hi::of_extension(t.pick(crate::props::c11::IDENTIFIERS)) } else { Hi::None };
            let Some(c) = gen_case(t, Opts { calls: true, hints: true, ..Opts::default() }, Hi::None) else { return ctx.discard() };
            let _ = hint;
            ctx.label("value");
            let money = t.chance(128);
            let got = sut::decode_all(&c.reg, c.id, &c.data);
            let Ok(got) = got else { fail!("refused", "{}{got:?}", show(&c)) };
            ctx.describe(|| show(&c));
            {
                let indent = if t.chance(8) { *t.pick(&[254u32, 255, 260, 65534]) } else { t.below(3) as u32 };
                ctx.label_if(indent > 100, "far indent");
                one(&c.expected, &got, indent, money, &specs, &name, ctx)
            }
        }
        k => {
            ctx.label("transaction");
            if k == 3 {
                let r = real(t.below(NAMES.len()));
                ctx.label("real");
                let model = Model::of_real(r);
                let Some((tx, genesis)) = gen_real_tx(t, &model, 150) else { return ctx.discard() };
                ctx.describe(|| format!("metadata {}\ncall 0x{}\nextensions 0x{}", r.name, hex::encode(&tx.call), hex::encode(&tx.ext)));
                let whole = marked(&tx.call, &tx.ext);
                if let Err(Bad(s, e)) = transaction(&r.arc, &model, &tx, &whole, genesis, &specs, &name, ctx) {
                    fail!(s, "metadata {}\n{e}", r.name);
                }
                return Ok(());
            }
            let o = RtOpts { odd_exts: 0, odd_version: 0, odd_params: 0, odd_call: 4, ..RtOpts::default() };
            let Some((rt, tx, genesis)) = gen_rt_tx(t, &o) else { return ctx.discard() };
            let model = rt.model();
            let mut whole = marked(&tx.call, &tx.ext);
            if t.chance(50) {
                let mut c = tx.call.clone();
                mutate(t, &mut c, &tx.call_marks);
                whole = marked(&c, &tx.ext);
            }
            ctx.describe(|| format!("{}call 0x{}\nextensions 0x{}", rt.show(), hex::encode(&tx.call), hex::encode(&tx.ext)));
            if let Err(Bad(s, e)) = transaction(&rt.arc14(), &model, &tx, &whole, genesis, &specs, &name, ctx) {
                fail!(s, "{}{e}", rt.show());
            }
            Ok(())
        }
    }
}

fn one(expected: &ExtendedData, got: &ExtendedData, indent: u32, money: bool, specs: &ShortSpecs, name: &str, ctx: &mut Ctx) -> Outcome {
    if pictures(&expected.data) > MANY_PICTURES {
        return ctx.discard();
    }
    label_tree(expected, money, ctx);
    let want = cards_of(expected, indent, money, specs, name);
    if want.len() >= 5 {
        ctx.interesting(&[format!("{want:?}").as_bytes()]);
    }
    ctx.eval();
    let cards = got.card(indent, money, specs, name);
    if let Some(d) = differ(&want, &cards) {
        fail!("cards", "data {got:?}\nindent {indent}, balances {money}, specs {specs:?}, name {name:?}\n{d}");
    }
    // depth first: a card is at most one or two steps deeper than the previous one
    let mut last = indent;
    for (i, c) in cards.iter().enumerate() {
        ensure!(c.indent >= indent && (i == 0 || c.indent <= last + 1), "depth", "data {got:?}\ncard {i} {c:?} after depth {last}");
        last = c.indent;
    }
    Ok(())
}
