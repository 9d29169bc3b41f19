//! Damaging of encoded data, and helpers on reported data.

use substrate_parser::cards::{ExtendedData, FieldData, Info, ParsedData, Sequence, SequenceData, SequenceRawData};
use substrate_parser::special_indicators::{SpecialtyStr, SpecialtyUnsignedInteger};

use crate::tape::Tape;
use crate::walk::{Mark, MarkKind};

/// Random damage, aimed at structure borders when `marks` are known.
pub fn mutate(t: &mut Tape, data: &mut Vec<u8>, marks: &[Mark]) {
    let n = t.range(1, 3);
    for _ in 0..n {
        one(t, data, marks);
    }
}

fn at(t: &mut Tape, data: &[u8], marks: &[Mark]) -> usize {
    if !marks.is_empty() && t.chance(200) {
        let m = t.pick(marks);
        let w = m.end - m.start;
        let p = match t.below(3) {
            0 | 1 => m.start,
            _ => m.start + t.below(w.max(1)),
        };
        p.min(data.len())
    } else {
        t.below(data.len() + 1)
    }
}

fn one(t: &mut Tape, data: &mut Vec<u8>, marks: &[Mark]) {
    let p = at(t, data, marks);
    match t.below(11) {
        0 => {
            if let Some(b) = data.get_mut(p) {
                *b ^= 1 << t.below(8);
            }
        }
        1 => {
            if let Some(b) = data.get_mut(p) {
                *b = t.u8();
            }
        }
        2 => data.truncate(p),
        3 => {
            let n = t.range(1, 4);
            let x = t.bytes(n);
            data.splice(p..p, x);
        }
        4 => {
            let e = (p + t.range(1, 4)).min(data.len());
            data.drain(p..e);
        }
        5 => {
            if let Some(b) = data.get_mut(p) {
                *b = b.wrapping_add(1);
            }
        }
        6 => {
            if let Some(b) = data.get_mut(p) {
                *b = b.wrapping_sub(1);
            }
        }
        7 => {
            // non-canonical or boundary compacts
            let x: &[u8] = *t.pick(&[
                &[0x01, 0x00][..],
                &[0x02, 0x00, 0x00, 0x00],
                &[0x03, 0x00, 0x00, 0x00, 0x00],
                &[0x03, 0xff, 0xff, 0xff, 0x3f],
                &[0x03, 0xff, 0xff, 0xff, 0xff],
                &[0xfd, 0xff],
                &[0xfe, 0xff, 0xff, 0xff],
                &[0xfe, 0xff, 0x00, 0x00],
                &[0x07, 0x00, 0x00, 0x00, 0x00, 0x00],
                &[0x07, 0x00, 0x00, 0x00, 0x00, 0x01],
                &[0x33, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
                &[0xff],
                &[0xfc],
                &[0x05, 0x01],
            ]);
            let e = (p + x.len() * t.below(2)).min(data.len());
            data.splice(p..e, x.iter().copied());
        }
        8 => {
            let q = t.below(data.len() + 1);
            let (a, b) = (p.min(q), p.max(q));
            if b < data.len() {
                data.swap(a, b);
            }
        }
        9 => {
            let n = t.range(1, 9);
            let x = vec![*t.pick(&[0u8, 0xff, 0x80]); n];
            let e = (p + n).min(data.len());
            data.splice(p..e, x);
        }
        _ => {
            let n = t.range(1, 6);
            let x = t.bytes(n);
            data.extend(x);
        }
    }
}

pub fn kinds(marks: &[Mark], k: MarkKind) -> usize {
    marks.iter().filter(|m| m.kind == k).count()
}

/// Depth-first visit of every reported value.
pub fn visit(d: &ParsedData, f: &mut dyn FnMut(&ParsedData)) {
    f(d);
    match d {
        ParsedData::Composite(x) => x.iter().for_each(|x| visit(&x.data.data, f)),
        ParsedData::Variant(v) => v.fields.iter().for_each(|x| visit(&x.data.data, f)),
        ParsedData::Call(c) => c.0.fields.iter().for_each(|x| visit(&x.data.data, f)),
        ParsedData::Event(c) => c.0.fields.iter().for_each(|x| visit(&x.data.data, f)),
        ParsedData::Tuple(x) => x.iter().for_each(|x| visit(&x.data, f)),
        ParsedData::SequenceRaw(s) => s.data.iter().for_each(|x| visit(x, f)),
        _ => {}
    }
}

/// Transform every info, name, hint: generic rewriting of reported data.
pub struct Strip {
    pub hints: bool,
    pub infos: bool,
    pub names: bool,
}

impl Strip {
    pub fn ext(&self, d: &ExtendedData) -> ExtendedData {
        ExtendedData { data: self.data(&d.data), info: self.infos(&d.info) }
    }
    fn infos(&self, i: &[Info]) -> Vec<Info> {
        if self.infos {
            vec![]
        } else {
            i.to_vec()
        }
    }
    fn fields(&self, f: &[FieldData]) -> Vec<FieldData> {
        f.iter()
            .map(|f| FieldData {
                field_name: if self.names { None } else { f.field_name.clone() },
                type_name: if self.names { None } else { f.type_name.clone() },
                field_docs: if self.infos { String::new() } else { f.field_docs.clone() },
                data: self.ext(&f.data),
            })
            .collect()
    }
    pub fn data(&self, d: &ParsedData) -> ParsedData {
        let s = |x: &SpecialtyUnsignedInteger| if self.hints { SpecialtyUnsignedInteger::None } else { x.clone() };
        match d {
            ParsedData::PrimitiveU8 { value, specialty } => ParsedData::PrimitiveU8 { value: *value, specialty: s(specialty) },
            ParsedData::PrimitiveU16 { value, specialty } => ParsedData::PrimitiveU16 { value: *value, specialty: s(specialty) },
            ParsedData::PrimitiveU32 { value, specialty } => ParsedData::PrimitiveU32 { value: *value, specialty: s(specialty) },
            ParsedData::PrimitiveU64 { value, specialty } => ParsedData::PrimitiveU64 { value: *value, specialty: s(specialty) },
            ParsedData::PrimitiveU128 { value, specialty } => ParsedData::PrimitiveU128 { value: *value, specialty: s(specialty) },
            ParsedData::Text { text, specialty } => ParsedData::Text { text: text.clone(), specialty: if self.hints { SpecialtyStr::None } else { specialty.clone() } },
            ParsedData::GenesisHash(h) | ParsedData::BlockHash(h) if self.hints => ParsedData::H256(*h),
            ParsedData::Composite(f) => ParsedData::Composite(self.fields(f)),
            ParsedData::Tuple(x) => ParsedData::Tuple(x.iter().map(|x| self.ext(x)).collect()),
            ParsedData::Variant(v) => {
                let mut v = v.clone();
                v.fields = self.fields(&v.fields);
                if self.infos {
                    v.variant_docs = String::new();
                }
                ParsedData::Variant(v)
            }
            ParsedData::Call(c) => {
                let mut c = c.clone();
                c.0.fields = self.fields(&c.0.fields);
                ParsedData::Call(c)
            }
            ParsedData::Event(c) => {
                let mut c = c.clone();
                c.0.fields = self.fields(&c.0.fields);
                ParsedData::Event(c)
            }
            ParsedData::SequenceRaw(x) => {
                let r = SequenceRawData { element_info: self.infos(&x.element_info), data: x.data.iter().map(|x| self.data(x)).collect() };
                ParsedData::SequenceRaw(r)
            }
            // integers in sequences are held raw once their hints are erased
            ParsedData::Sequence(SequenceData { element_info, data }) if self.hints => {
                let data: Vec<ParsedData> = match data {
                    Sequence::U8(v) => v.iter().map(|x| ParsedData::PrimitiveU8 { value: *x, specialty: SpecialtyUnsignedInteger::None }).collect(),
                    Sequence::U16(v) => v.iter().map(|x| ParsedData::PrimitiveU16 { value: *x, specialty: SpecialtyUnsignedInteger::None }).collect(),
                    Sequence::U32(v) => v.iter().map(|x| ParsedData::PrimitiveU32 { value: *x, specialty: SpecialtyUnsignedInteger::None }).collect(),
                    Sequence::U64(v) => v.iter().map(|x| ParsedData::PrimitiveU64 { value: *x, specialty: SpecialtyUnsignedInteger::None }).collect(),
                    Sequence::U128(v) => v.iter().map(|x| ParsedData::PrimitiveU128 { value: *x, specialty: SpecialtyUnsignedInteger::None }).collect(),
                    Sequence::VecU8 { sequence, inner_element_info } => sequence
                        .iter()
                        .map(|r| {
                            ParsedData::SequenceRaw(SequenceRawData {
                                element_info: if r.is_empty() { self.infos(inner_element_info) } else { self.infos(inner_element_info) },
                                data: r.iter().map(|x| ParsedData::PrimitiveU8 { value: *x, specialty: SpecialtyUnsignedInteger::None }).collect(),
                            })
                        })
                        .collect(),
                };
                ParsedData::SequenceRaw(SequenceRawData { element_info: self.infos(element_info), data })
            }
            other => other.clone(),
        }
    }
}
