//! Words and numbers that generators use now and then: literals of the code
//! under test (as a fuzzing dictionary is) and names from bundled metadata.

use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

use scale_info::{form::PortableForm, Field, TypeDef};

use crate::tape::Tape;

#[derive(Default)]
pub struct Dict {
    pub words: Vec<String>,
    pub numbers: Vec<u128>,
    pub fields: Vec<String>,
    pub type_names: Vec<String>,
    pub segments: Vec<String>,
    pub variants: Vec<String>,
}

/// Escaped character at the start, and how much source it takes.
fn escaped(s: &str) -> (Option<char>, usize) {
    let hex = |from: usize, to: usize| s.get(from..to).and_then(|x| u32::from_str_radix(x, 16).ok()).and_then(char::from_u32);
    match s.as_bytes().get(1) {
        Some(b'u') => {
            let end = s.find('}').unwrap_or(2);
            (hex(3, end), end + 1)
        }
        Some(b'x') => (hex(2, 4), 4),
        Some(b'n') => (Some('\n'), 2),
        Some(b't') => (Some('\t'), 2),
        Some(b'r') => (Some('\r'), 2),
        Some(b'0') => (Some('\0'), 2),
        // the line goes on
        Some(b'\n') => (None, 2),
        Some(c) if c.is_ascii() => (Some(*c as char), 2),
        _ => (None, 1),
    }
}

/// Text and number literals of Rust source, tests left out.
fn literals(s: &str, words: &mut BTreeSet<String>, numbers: &mut BTreeSet<u128>) {
    let b = s.as_bytes();
    let mut i = 0;
    let mut before = b' ';
    while i < b.len() {
        let c = b[i];
        if s[i..].starts_with("//") {
            i += s[i..].find('\n').unwrap_or(s.len() - i);
            continue;
        }
        if s[i..].starts_with("#[cfg(test)]") || s[i..].starts_with("mod tests {") {
            return;
        }
        if c == b'"' {
            let mut w = Vec::new();
            i += 1;
            while i < b.len() && b[i] != b'"' {
                if b[i] == b'\\' {
                    let (c, n) = escaped(&s[i..]);
                    w.extend(c.into_iter().flat_map(|c| c.to_string().into_bytes()));
                    i += n;
                    continue;
                }
                w.push(b[i]);
                i += 1;
            }
            let w = String::from_utf8_lossy(&w).into_owned();
            if !w.is_empty() && w.len() <= 40 && !w.contains('{') {
                words.insert(w);
            }
        } else if c == b'\'' && b.get(i + 1) == Some(&b'\\') {
            let (c, n) = escaped(&s[i + 1..]);
            words.extend(c.map(String::from));
            i += 1 + n;
        } else if c == b'\'' && s[i + 1..].chars().nth(1) == Some('\'') {
            let c = s[i + 1..].chars().next();
            words.extend(c.map(String::from));
            i += 1 + c.map_or(0, |c| c.len_utf8());
        } else if c.is_ascii_digit() && !(before.is_ascii_alphanumeric() || before == b'_') {
            let end = s[i..].find(|x: char| !(x.is_ascii_alphanumeric() || x == '_')).map_or(s.len(), |n| i + n);
            let n: String = s[i..end].chars().filter(|c| *c != '_').collect();
            let (radix, n) = match n.get(..2) {
                Some("0x") => (16, n[2..].to_string()),
                Some("0b") => (2, n[2..].to_string()),
                _ => (10, n),
            };
            // without a type suffix
            let n = ["u8", "u16", "u32", "u64", "u128", "usize", "i32", "i64"].iter().find_map(|x| n.strip_suffix(x)).unwrap_or(&n).to_string();
            numbers.extend(u128::from_str_radix(&n, radix).ok());
            before = b'0';
            i = end;
            continue;
        }
        before = c;
        i += s[i..].chars().next().map_or(1, |c| c.len_utf8());
    }
}

fn source(d: &mut Dict) {
    let dir = Path::new(env!("CARGO_MANIFEST_DIR")).join("../../repo/src");
    let mut files: Vec<_> = std::fs::read_dir(dir).map(|r| r.filter_map(|e| Some(e.ok()?.path())).collect()).unwrap_or_default();
    files.sort();
    let (mut words, mut numbers) = (BTreeSet::new(), BTreeSet::new());
    for f in files {
        if f.file_name().is_some_and(|n| n == "tests.rs") || f.extension().map_or(true, |e| e != "rs") {
            continue;
        }
        if let Ok(s) = std::fs::read_to_string(&f) {
            literals(&s, &mut words, &mut numbers);
        }
    }
    d.words = words.into_iter().collect();
    d.numbers = numbers.into_iter().collect();
}

fn names(d: &mut Dict) {
    let (mut f, mut n, mut s, mut v) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    for i in [0, 3] {
        let fields = |x: &[Field<PortableForm>], f: &mut BTreeSet<String>, n: &mut BTreeSet<String>| {
            for x in x {
                f.extend(x.name.clone());
                n.extend(x.type_name.clone());
            }
        };
        for t in &crate::meta::real(i).reg.types {
            s.extend(t.ty.path.segments.iter().cloned());
            match &t.ty.type_def {
                TypeDef::Composite(c) => fields(&c.fields, &mut f, &mut n),
                TypeDef::Variant(x) => {
                    for x in &x.variants {
                        v.insert(x.name.clone());
                        fields(&x.fields, &mut f, &mut n);
                    }
                }
                _ => {}
            }
        }
    }
    let short = |x: BTreeSet<String>| x.into_iter().filter(|x| x.len() < 60).collect();
    d.fields = short(f);
    d.type_names = short(n);
    d.segments = short(s);
    d.variants = short(v);
}

static D: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
    D.get_or_init(|| {
        let mut d = Dict::default();
        source(&mut d);
        names(&mut d);
        d
    })
}

/// What of the dictionary depends on the code, for replay files.
pub fn line() -> String {
    let d = dict();
    let w: Vec<String> = d.words.iter().map(hex::encode).collect();
    let n: Vec<String> = d.numbers.iter().map(|n| n.to_string()).collect();
    format!("dictionary {} {}", w.join(","), n.join(","))
}

/// Use the dictionary of a replay file.
pub fn from_line(s: &str) {
    let Some((w, n)) = s.trim().strip_prefix("dictionary ").and_then(|s| s.split_once(' ')) else { return };
    let mut d = Dict::default();
    d.words = w.split(',').filter_map(|w| String::from_utf8(hex::decode(w).ok()?).ok()).collect();
    d.numbers = n.split(',').filter_map(|n| n.parse().ok()).collect();
    names(&mut d);
    let _ = D.set(d);
}

pub fn word(t: &mut Tape, real: &'static [String]) -> &'static str {
    let d = dict();
    let set = if t.chance(128) || real.is_empty() { &d.words[..] } else { real };
    if set.is_empty() {
        return "word";
    }
    t.pick(set)
}

/// Nearly the name, never exactly.
pub fn near(t: &mut Tape, name: &str) -> String {
    let flip = |c: char| if c.is_uppercase() { c.to_lowercase().next() } else { c.to_uppercase().next() };
    let first = name.chars().next();
    let out = match t.below(14) {
        0 => format!("{}{name}", word(t, &[])),
        1 => format!("{name}{}", word(t, &[])),
        2 => format!("{}{name}", t.pick(&["T::", "pallet::", "r#", "_", " ", "my", "x", "Self::", "<T as Config>::", "&"])),
        3 => format!("{name}{}", t.pick(&["s", "2", "V2", "_", " ", "\u{0}", "<T>", "<T, I>", "::<T>", "Of<T>", "Id", "é"])),
        4 => name.to_lowercase(),
        5 => name.to_uppercase(),
        6 => first.and_then(flip).into_iter().chain(name.chars().skip(1)).collect(),
        7 => name.chars().skip(1).collect(),
        8 => {
            let mut s = name.to_string();
            s.pop();
            s
        }
        9 => format!("{name}{name}"),
        // snake to camel and back
        10 => name.chars().flat_map(|c| [c.is_uppercase().then_some('_'), Some(c.to_ascii_lowercase())]).flatten().skip(usize::from(first.is_some_and(|c| c.is_uppercase()))).collect(),
        11 => name.split('_').flat_map(|w| w.chars().take(1).filter_map(flip).chain(w.chars().skip(1))).collect(),
        12 => name.chars().rev().collect(),
        _ => {
            // one character another
            let n = t.below(name.chars().count().max(1));
            name.chars().enumerate().map(|(i, c)| if i == n { if c == 'x' { 'y' } else { 'x' } } else { c }).collect()
        }
    };
    if out == name {
        format!("{name}x")
    } else {
        out
    }
}

fn maybe_near(t: &mut Tape, real: &'static [String]) -> String {
    let w = word(t, real);
    if t.chance(64) {
        near(t, w)
    } else {
        w.into()
    }
}

pub fn field_name(t: &mut Tape) -> String {
    maybe_near(t, &dict().fields)
}

pub fn type_name(t: &mut Tape) -> String {
    maybe_near(t, &dict().type_names)
}

pub fn variant_name(t: &mut Tape) -> String {
    maybe_near(t, &dict().variants)
}

pub fn segment(t: &mut Tape) -> String {
    maybe_near(t, &dict().segments)
}

pub fn text(t: &mut Tape) -> String {
    word(t, &[]).into()
}

/// A number of the code, or next to one.
pub fn number(t: &mut Tape) -> u128 {
    let n = &dict().numbers;
    if n.is_empty() {
        return 0;
    }
    let x = *t.pick(n);
    match t.below(4) {
        0 => x.wrapping_add(1),
        1 => x.wrapping_sub(1),
        _ => x,
    }
}

#[cfg(test)]
mod tests {
    #[test]
    fn finds() {
        let (mut w, mut n) = Default::default();
        super::literals("let a1 = \"x\\\"y\"; // \"no\"\nlet b = ['\\u{e9}', '\\'', 'ö', \"\\u{2028}\\x41\\\n  z\"];if b == 0x1F_u8 || c > 12usize || 'a' == '\"' || 1..=3 {\"é\"}\n#[cfg(test)] \"q\"", &mut w, &mut n);
        assert_eq!(w.into_iter().collect::<Vec<_>>(), ["\"", "'", "a", "x\"y", "é", "ö", "\u{2028}A  z"]);
        assert_eq!(n.into_iter().collect::<Vec<_>>(), [1, 3, 12, 31]);
    }
}
