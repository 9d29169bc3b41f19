//! Thin calls into the code under test.

use frame_metadata::v14::RuntimeMetadataV14;
use scale_info::{PortableRegistry, TypeDef};
use substrate_parser::cards::ExtendedData;
use substrate_parser::decoding_sci::{decode_with_type, Ty};
use substrate_parser::error::ParserError;
use substrate_parser::propagated::Propagated;
use substrate_parser::traits::SignedExtensionMetadata;
use substrate_parser::{decode_all_as_type, decode_as_type_at_position};

use crate::genreg::sym;

pub type Pe = ParserError<()>;

pub fn decode_all(reg: &PortableRegistry, id: u32, data: &[u8]) -> Result<ExtendedData, Pe> {
    decode_all_as_type::<&[u8], (), RuntimeMetadataV14>(&sym(id), &data, &mut (), reg)
}

pub fn decode_at(reg: &PortableRegistry, id: u32, data: &[u8], pos: &mut usize) -> Result<ExtendedData, Pe> {
    decode_as_type_at_position::<&[u8], (), RuntimeMetadataV14>(&sym(id), &data, &mut (), reg, pos)
}

/// Decode as the content of the signed extension `identifier`.
pub fn decode_ext(reg: &PortableRegistry, id: u32, data: &[u8], pos: &mut usize, identifier: &str) -> Result<ExtendedData, Pe> {
    let meta = SignedExtensionMetadata { identifier: identifier.to_string(), ty: sym(id), additional_signed: sym(id) };
    decode_with_type::<&[u8], (), RuntimeMetadataV14>(&Ty::Symbol(&sym(id)), &data, &mut (), pos, reg, Propagated::from_ext_meta(&meta))
}

/// Compact description of a registry for reports.
pub fn show_reg(reg: &PortableRegistry) -> String {
    let mut s = String::new();
    for (i, t) in reg.types.iter().enumerate() {
        if s.len() > 6000 {
            s.push_str("  …\n");
            break;
        }
        let def = match &t.ty.type_def {
            TypeDef::Composite(c) => format!("struct {{{}}}", show_fields(&c.fields)),
            TypeDef::Variant(v) => {
                let mut vs: Vec<String> = v.variants.iter().take(12).map(|v| format!("{}={}{{{}}}", v.name, v.index, show_fields(&v.fields))).collect();
                if v.variants.len() > 12 {
                    vs.push("…".into());
                }
                format!("enum [{}]", vs.join(", "))
            }
            TypeDef::Sequence(x) => format!("Vec<{}>", x.type_param.id),
            TypeDef::Array(x) => format!("[{}; {}]", x.type_param.id, x.len),
            TypeDef::Tuple(x) => format!("({})", x.fields.iter().map(|f| f.id.to_string()).collect::<Vec<_>>().join(", ")),
            TypeDef::Primitive(x) => format!("{x:?}"),
            TypeDef::Compact(x) => format!("Compact<{}>", x.type_param.id),
            TypeDef::BitSequence(x) => format!("BitSequence<store {}, order {}>", x.bit_store_type.id, x.bit_order_type.id),
        };
        let path = t.ty.path.segments.join("::");
        s.push_str(&format!("  {i}: {path} {def}{}\n", if t.ty.docs.is_empty() { String::new() } else { format!(" docs {:?}", t.ty.docs) }));
    }
    s
}

fn show_fields(f: &[scale_info::Field<scale_info::form::PortableForm>]) -> String {
    f.iter()
        .map(|f| format!("{}{}{}", f.name.as_ref().map_or(String::new(), |n| format!("{n}: ")), f.ty.id, f.type_name.as_ref().map_or(String::new(), |n| format!(" as {n}"))))
        .collect::<Vec<_>>()
        .join(", ")
}
