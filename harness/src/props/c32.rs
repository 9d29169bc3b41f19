//! C32: stored forms of the exported records.

use frame_metadata::{v14, v15};
use parity_scale_codec::{Decode, DecodeAll, Encode};
use substrate_parser::traits::{ExtrinsicTypeParams, SignedExtensionMetadata, SpecNameVersion};
use substrate_parser::ShortSpecs;

use crate::ensure;
use crate::genreg::sym;
use crate::runner::{Ctx, Outcome, Property};
use crate::tape::Tape;
use crate::walk::compact_bytes;

pub static P: Property = Property {
    id: "C32",
    rule: "one of the four records with generated contents, written and read back, also as one of several records in a row, cut, with bytes flipped, inserted or replaced; non-trivial = every distinct record other than the empty one",
    assumptions: &[],
    tape_len: 400,
    quick: 3_000_000,
    thorough: 40_000_000,
    run,
    enumerated: None,
    known_demos: &[],
    must_reach: &["specs", "version", "extension", "params", "damaged accepted", "damaged refused", "cut", "long text", "list", "big id", "same in V14", "same in V15"],
};

/// A record as its fields, in order.
#[derive(Clone, Debug, PartialEq)]
enum Part {
    U8(u8),
    U16(u16),
    Text(String),
    Id(u32),
}

use Part::{Id, Text, U16, U8};

fn write(parts: &[Part]) -> Vec<u8> {
    let mut out = Vec::new();
    for p in parts {
        match p {
            U8(x) => out.push(*x),
            U16(x) => out.extend(x.to_le_bytes()),
            Text(x) => {
                out.extend(compact_bytes(x.len() as u128));
                out.extend(x.as_bytes());
            }
            Id(x) => out.extend(compact_bytes(*x as u128)),
        }
    }
    out
}

/// Canonical compact up to 32 bits.
fn read_compact(d: &mut &[u8]) -> Option<u32> {
    let first = *d.first()?;
    let n = match first & 3 {
        0 => 1,
        1 => 2,
        2 => 4,
        _ => 5,
    };
    if d.len() < n || (n == 5 && first != 3) {
        return None;
    }
    let mut x = [0; 8];
    x[..n].copy_from_slice(&d[..n]);
    let v = if n == 5 { u64::from_le_bytes(x) >> 8 } else { u64::from_le_bytes(x) >> 2 };
    if compact_bytes(v as u128) != d[..n] {
        return None;
    }
    *d = &d[n..];
    Some(v as u32)
}

/// Parts like those of the shape.
fn read(shape: &[Part], d: &mut &[u8]) -> Option<Vec<Part>> {
    let mut out = Vec::new();
    for p in shape {
        out.push(match p {
            U8(_) => {
                let x = *d.first()?;
                *d = &d[1..];
                U8(x)
            }
            U16(_) => {
                let x = u16::from_le_bytes(d.get(..2)?.try_into().unwrap());
                *d = &d[2..];
                U16(x)
            }
            Text(_) => {
                let n = read_compact(d)? as usize;
                let x = String::from_utf8(d.get(..n)?.to_vec()).ok()?;
                *d = &d[n..];
                Text(x)
            }
            Id(_) => Id(read_compact(d)?),
        });
    }
    Some(out)
}

trait Record: Encode + Decode + Clone + std::fmt::Debug {
    const KIND: &'static str;
    fn make(t: &mut Tape) -> Self;
    fn parts(&self) -> Vec<Part>;
}

fn text(t: &mut Tape) -> String {
    if t.rare(60) {
        let n = t.long();
        return t.long_text(n.min(70_000));
    }
    t.text(12)
}

fn id(t: &mut Tape) -> u32 {
    match t.below(4) {
        0 => t.below(64) as u32,
        1 => t.uint(32) as u32,
        2 => *t.pick(&[63, 64, 16383, 16384, (1 << 30) - 1, 1 << 30, u32::MAX]),
        _ => t.below(1000) as u32,
    }
}

impl Record for ShortSpecs {
    const KIND: &'static str = "specs";
    fn make(t: &mut Tape) -> Self {
        ShortSpecs { base58prefix: t.uint(16) as u16, decimals: t.u8(), unit: text(t) }
    }
    fn parts(&self) -> Vec<Part> {
        vec![U16(self.base58prefix), U8(self.decimals), Text(self.unit.clone())]
    }
}

impl Record for SpecNameVersion {
    const KIND: &'static str = "version";
    fn make(t: &mut Tape) -> Self {
        SpecNameVersion { printed_spec_version: if t.chance(128) { t.uint(128).to_string() } else { text(t) }, spec_name: text(t) }
    }
    fn parts(&self) -> Vec<Part> {
        vec![Text(self.printed_spec_version.clone()), Text(self.spec_name.clone())]
    }
}

impl Record for SignedExtensionMetadata {
    const KIND: &'static str = "extension";
    fn make(t: &mut Tape) -> Self {
        SignedExtensionMetadata { identifier: text(t), ty: sym(id(t)), additional_signed: sym(id(t)) }
    }
    fn parts(&self) -> Vec<Part> {
        vec![Text(self.identifier.clone()), Id(self.ty.id), Id(self.additional_signed.id)]
    }
}

impl Record for ExtrinsicTypeParams {
    const KIND: &'static str = "params";
    fn make(t: &mut Tape) -> Self {
        ExtrinsicTypeParams { address_ty: sym(id(t)), call_ty: sym(id(t)), signature_ty: sym(id(t)), extra_ty: sym(id(t)) }
    }
    fn parts(&self) -> Vec<Part> {
        vec![Id(self.address_ty.id), Id(self.call_ty.id), Id(self.signature_ty.id), Id(self.extra_ty.id)]
    }
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    match t.below(4) {
        0 => record::<ShortSpecs>(t, ctx),
        1 => record::<SpecNameVersion>(t, ctx),
        2 => {
            extension(t, ctx)?;
            record::<SignedExtensionMetadata>(t, ctx)
        }
        _ => record::<ExtrinsicTypeParams>(t, ctx),
    }
}

/// The records of metadata and the one made of them have the same bytes.
fn extension(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let (identifier, ty, additional_signed) = (text(t), sym(id(t)), sym(id(t)));
    let (made, bytes) = if t.chance(128) {
        ctx.label("same in V14");
        let m = v14::SignedExtensionMetadata { identifier, ty, additional_signed };
        (SignedExtensionMetadata::from(m.clone()), m.encode())
    } else {
        ctx.label("same in V15");
        let m = v15::SignedExtensionMetadata { identifier, ty, additional_signed };
        (SignedExtensionMetadata::from(m.clone()), m.encode())
    };
    ctx.eval();
    ensure!(made.encode() == bytes, "same", "{made:?} is 0x{}, that of the metadata 0x{}", hex::encode(made.encode()), hex::encode(&bytes));
    Ok(())
}

fn record<R: Record>(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let r = R::make(t);
    let parts = r.parts();
    let bytes = write(&parts);
    ctx.label(R::KIND);
    ctx.label_if(parts.iter().any(|p| matches!(p, Text(x) if x.len() > 16000)), "long text");
    ctx.label_if(parts.iter().any(|p| matches!(p, Id(x) if *x >= 1 << 30)), "big id");
    if bytes.iter().any(|b| *b != 0) {
        ctx.interesting(&[R::KIND.as_bytes(), &bytes]);
    }
    ctx.describe(|| format!("{r:?}"));
    ctx.eval();
    let got = r.encode();
    ensure!(got == bytes, "written", "{r:?} is written as 0x{}\nexpected 0x{}", hex::encode(&got), hex::encode(&bytes));
    ensure!(r.encoded_size() == bytes.len(), "size", "{r:?}: size {} told, {} expected", r.encoded_size(), bytes.len());
    let tail_len = t.below(4);
    let tail = t.bytes(tail_len);
    agree::<R>(&parts, &[&bytes[..], &tail].concat())?;
    // in a row
    if t.chance(60) {
        ctx.label("list");
        let n = t.below(4);
        let all: Vec<R> = (0..n).map(|_| R::make(t)).chain([r.clone()]).collect();
        let mut want = compact_bytes(all.len() as u128);
        for x in &all {
            want.extend(write(&x.parts()));
        }
        ensure!(all.encode() == want, "list", "{all:?} is written as 0x{}\nexpected 0x{}", hex::encode(all.encode()), hex::encode(&want));
        let back = Vec::<R>::decode_all(&mut &want[..]);
        ensure!(
            matches!(&back, Ok(b) if b.iter().map(|x| x.parts()).eq(all.iter().map(|x| x.parts()))),
            "list",
            "{all:?} is read back as {back:?}"
        );
    }
    for _ in 0..3 {
        let mut b = bytes.clone();
        match t.below(4) {
            0 => {
                let n = t.below(b.len());
                b.truncate(n);
                ctx.label("cut");
            }
            1 => {
                let i = t.below(b.len());
                b[i] ^= 1 << t.below(8);
            }
            2 => {
                let i = t.below(b.len() + 1);
                b.insert(i, t.u8());
            }
            _ => {
                let n = t.below(12);
                b = t.bytes(n);
            }
        }
        let ok = agree::<R>(&parts, &b)?;
        ctx.label(if ok { "damaged accepted" } else { "damaged refused" });
        ctx.eval();
    }
    Ok(())
}

/// What is read of any bytes.
fn agree<R: Record>(shape: &[Part], data: &[u8]) -> Result<bool, crate::runner::Fail> {
    let mut left = data;
    let want = read(shape, &mut left);
    let mut rest = data;
    let got = R::decode(&mut rest);
    match (&want, &got) {
        (Some(w), Ok(g)) => {
            ensure!(*w == g.parts(), "read", "0x{} is read as {g:?}\nexpected {w:?}", hex::encode(data));
            ensure!(left.len() == rest.len(), "left", "0x{} is read as {g:?}: {} bytes left, {} expected", hex::encode(data), rest.len(), left.len());
        }
        (None, Err(_)) => {}
        _ => ensure!(false, "read", "0x{} of {} is read as {got:?}\nexpected {want:?}", hex::encode(data), R::KIND),
    }
    Ok(want.is_some())
}
