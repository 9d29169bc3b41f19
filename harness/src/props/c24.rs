//! C24: displayed balances equal the balance exactly.

use num_bigint::BigUint;
use substrate_parser::cards::{ExtendedCard, ParserCard};
use substrate_parser::printing_balance::{AsBalance, Currency};

use crate::runner::{Ctx, Outcome, Property};
use crate::tape::Tape;
use crate::{ensure, fail};

pub static P: Property = Property {
    id: "C24",
    rule: "every decimals 0..255 with all 8-bit amounts and with amounts of every number of digits (ones, nines, trailing zeros, boundaries of each width), plus random amounts and unit names; non-trivial = amount above 0",
    assumptions: &[],
    tape_len: 48,
    quick: 8_000_000,
    thorough: 400_000_000,
    run,
    enumerated: Some((256, enumerated)),
    known_demos: &[],
    must_reach: &["zero", "prefix a", "prefix T", "no prefix", "prefix m", "prefix k", "below atto", "above tera", "u8", "u16", "u32", "u64", "u128", "card"],
};

const PREFIX: &[(i32, &str)] = &[(-4, "T"), (-3, "G"), (-2, "M"), (-1, "k"), (0, ""), (1, "m"), (2, "u"), (3, "n"), (4, "p"), (5, "f"), (6, "a")];

/// What the documentation prescribes.
pub fn reference(v: u128, decimals: u8, unit: &str) -> Currency {
    let digits = v.to_string();
    let d = decimals as i32;
    let exp = digits.len() as i32 - 1 - d;
    let m = if v == 0 { (d / 3).min(6) } else { (-exp.div_euclid(3)).clamp(-4, 6) };
    // v * 10^-d = number * 10^-3m
    let after = (d - 3 * m).max(0) as usize;
    let mut all = digits.clone();
    if d < 3 * m {
        all.push_str(&"0".repeat((3 * m - d) as usize));
    }
    if v == 0 {
        all = "0".into();
    }
    while all.len() <= after {
        all.insert(0, '0');
    }
    let (a, b) = all.split_at(all.len() - after);
    let number = if b.is_empty() { a.to_string() } else { format!("{a}.{b}") };
    Currency { number, units: format!("{}{unit}", PREFIX.iter().find(|p| p.0 == m).unwrap().1) }
}

fn pow10(n: u32) -> BigUint {
    BigUint::from(10u8).pow(n)
}

/// Exact reading of the displayed balance, without the reference.
fn read_back(c: &Currency, v: u128, decimals: u8, unit: &str) -> Result<(), String> {
    let Some(prefix) = c.units.strip_suffix(unit) else { return Err("unit name not shown".into()) };
    // with unit names that begin with a prefix letter only the first reading counts
    let Some((m, _)) = PREFIX.iter().find(|p| p.1 == prefix) else { return Err(format!("prefix {prefix:?}")) };
    let (a, b) = match c.number.split_once('.') {
        Some((_, "")) => return Err("nothing after the point".into()),
        Some((a, b)) => (a, b),
        None => (c.number.as_str(), ""),
    };
    if a.is_empty() || !a.bytes().chain(b.bytes()).all(|x| x.is_ascii_digit()) {
        return Err("not a decimal number".into());
    }
    if a.len() > 1 && a.starts_with('0') {
        return Err("leading zero".into());
    }
    let n: BigUint = format!("{a}{b}").parse().unwrap();
    // n * 10^-len(b) * 10^-3m == v * 10^-decimals
    let e = decimals as i32 - b.len() as i32 - 3 * m;
    let (l, r) = if e >= 0 { (n * pow10(e as u32), BigUint::from(v)) } else { (n, BigUint::from(v) * pow10(-e as u32)) };
    if l != r {
        return Err("another amount".into());
    }
    let zero_before = a == "0";
    if v != 0 && ((zero_before && *m != 6) || (a.len() > 3 && *m != -4)) {
        return Err("not one to three digits before the point".into());
    }
    Ok(())
}

fn one(v: u128, decimals: u8, unit: &str, ctx: &mut Ctx) -> Outcome {
    let want = reference(v, decimals, unit);
    let mut got: Vec<(&'static str, Currency)> = vec![("u128", u128::convert_balance_pretty(v, decimals, unit))];
    if let Ok(x) = u64::try_from(v) {
        got.push(("u64", u64::convert_balance_pretty(x, decimals, unit)));
    }
    if let Ok(x) = u32::try_from(v) {
        got.push(("u32", u32::convert_balance_pretty(x, decimals, unit)));
    }
    if let Ok(x) = u16::try_from(v) {
        got.push(("u16", u16::convert_balance_pretty(x, decimals, unit)));
    }
    if let Ok(x) = u8::try_from(v) {
        got.push(("u8", u8::convert_balance_pretty(x, decimals, unit)));
    }
    for (w, g) in got {
        ctx.eval();
        ctx.label(w);
        if let Err(e) = read_back(&g, v, decimals, unit) {
            fail!("amount", "{v} ({w}) with {decimals} decimals is shown as {:?} {:?}: {e}", g.number, g.units);
        }
        ensure!(g == want, "form", "{v} ({w}) with {decimals} decimals is shown as {g:?}, expected {want:?}");
    }
    ctx.label_if(v == 0, "zero");
    let p = want.units.strip_suffix(unit).unwrap();
    match p {
        "a" => ctx.label("prefix a"),
        "T" => ctx.label("prefix T"),
        "" => ctx.label("no prefix"),
        "m" => ctx.label("prefix m"),
        "k" => ctx.label("prefix k"),
        _ => {}
    }
    let before = want.number.split('.').next().unwrap();
    ctx.label_if(v != 0 && p == "a" && before == "0", "below atto");
    ctx.label_if(p == "T" && before.len() > 3, "above tera");
    Ok(())
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let bits = *t.pick(&[8u32, 16, 32, 64, 128, 128]);
    let mut v = t.uint(bits);
    if t.chance(80) {
        // round numbers
        let mut p = 1u128;
        for _ in 0..t.below(39) {
            p = p.saturating_mul(10);
        }
        v = match t.below(4) {
            0 => p,
            1 => p - 1,
            2 => (v % 1000).saturating_mul(p),
            _ => v / p,
        };
    }
    let decimals = if t.chance(128) { t.below(40) as u8 } else { t.u8() };
    let unit = match t.below(4) {
        0 => "DOT".to_string(),
        1 => t.pick(&["", "m", "k", "µ", "aT", "0", "1.5", " "]).to_string(),
        2 => t.text(6),
        _ => "WND".into(),
    };
    if v != 0 {
        ctx.interesting(&[&v.to_le_bytes(), &[decimals], unit.as_bytes()]);
    }
    ctx.describe(|| format!("{v} with {decimals} decimals, unit {unit:?}"));
    one(v, decimals, &unit, ctx)?;
    if t.chance(40) {
        // as it appears on a card
        ctx.label("card");
        let want = reference(v, decimals, &unit);
        let c = ExtendedCard { parser_card: ParserCard::Balance(want.clone()), indent: 0, info_flat: vec![] };
        let s = c.show();
        ensure!(s == format!("Balance: {} {}", want.number, want.units), "card", "shown as {s:?}");
    }
    Ok(())
}

fn enumerated(d: u64, ctx: &mut Ctx) -> Outcome {
    let d = d as u8;
    ctx.interesting(&[&[d]]);
    for v in 0..=255u128 {
        one(v, d, "UNIT", ctx)?;
    }
    let mut p = 1u128;
    let mut mixed = 0u128;
    for k in 0..39u32 {
        mixed = mixed.wrapping_mul(10).wrapping_add(((k * 7 + 3) % 10) as u128);
        for v in [p, p - 1, p.saturating_add(1), p.saturating_mul(2), p.saturating_mul(9), mixed, p.saturating_mul(120), p.saturating_mul(999)] {
            one(v, d, "UNIT", ctx)?;
        }
        p = p.saturating_mul(10);
    }
    for v in [u8::MAX as u128, u16::MAX as u128, u32::MAX as u128, u64::MAX as u128, u128::MAX] {
        for x in [v, v - 1, v.saturating_add(1)] {
            one(x, d, "UNIT", ctx)?;
        }
    }
    Ok(())
}
