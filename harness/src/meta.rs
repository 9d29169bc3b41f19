//! Metadata: the bundled real ones, and synthetic runtimes rendered as
//! version 14 and version 15, with models of the documented transaction and
//! extrinsic rules.

use std::fmt::Debug;
use std::path::Path;
use std::sync::{Arc, OnceLock};

use external_memory_tools::ExternalMemory;
use frame_metadata::{v14, v15};
use parity_scale_codec::Decode;
use primitive_types::H256;
use scale_info::{form::PortableForm, Field, PortableRegistry, TypeDef, TypeDefComposite, TypeDefPrimitive, TypeDefSequence, TypeDefTuple, TypeDefVariant, TypeParameter, Variant};
use substrate_parser::additional_types::Era;
use substrate_parser::cards::{Call, ExtendedData, ParsedData};
use substrate_parser::error::{ExtensionsError, SignableError};
use substrate_parser::special_indicators::{SpecialtyStr, SpecialtyUnsignedInteger};
use substrate_parser::traits::{AsCompleteMetadata, AsMetadata, ExtrinsicTypeParams};

use crate::dict;
use crate::genreg::{registry, segs, sym, Gen, Opts, Shapes};
use crate::tape::Tape;
use crate::walk::{compact_bytes, compact_parse, info_of, ref_decode, special, GenSrc, Hi, Mark, MarkKind, PTy, RefErr, Sp, Walker};

pub use crate::job::{ArcMeta, ArcReg};

impl ArcMeta {
    pub fn of<M: AsCompleteMetadata<()>>(m: &M, reg: Arc<PortableRegistry>) -> ArcMeta {
        ArcMeta {
            reg: ArcReg(reg),
            spec: m.spec_name_version().map_err(|e| meta_err(&e)),
            params: m.extrinsic_type_params().map_err(|e| meta_err(&e)),
            exts: m.signed_extensions().unwrap_or_default(),
            version: m.extrinsic_version().unwrap_or(0),
        }
    }
}

/// Structure errors of both versions in one notation.
pub fn meta_err(e: &impl Debug) -> String {
    let s = format!("{e:?}");
    let s = s.trim_matches('"').to_string();
    match s.strip_prefix("Version(") {
        Some(x) => x.strip_suffix(')').unwrap_or(x).to_string(),
        None => s,
    }
}

// ------------------------------------------------------------ real metadata

pub enum RealMeta {
    V14(v14::RuntimeMetadataV14),
    V15(v15::RuntimeMetadataV15),
}

pub struct Entry {
    pub pallet: String,
    pub prefix: String,
    pub meta: v14::StorageEntryMetadata<PortableForm>,
}

pub struct Real {
    pub name: &'static str,
    pub meta: RealMeta,
    pub reg: Arc<PortableRegistry>,
    pub arc: ArcMeta,
    pub call_ty: u32,
    pub event_ty: u32,
    pub entries: Vec<Entry>,
    pub costs: Arc<Vec<u32>>,
}

pub const NAMES: &[&str] = &["polkadot9430", "polkadot1003003_v15", "westmint9270", "acala2200", "astar66", "bifrost982", "statemint1002000", "westend9111", "acala2012", "polkadot1000001_v15"];

fn load_bytes(name: &str) -> Vec<u8> {
    let p = Path::new(env!("CARGO_MANIFEST_DIR")).join("../../repo/for_tests").join(name);
    let text = std::fs::read_to_string(&p).unwrap_or_else(|e| panic!("{}: {e}", p.display()));
    hex::decode(text.trim()).expect("hex metadata")
}

fn by_path(reg: &PortableRegistry, idents: &[&str]) -> Option<u32> {
    reg.types.iter().find(|t| t.ty.path.segments.len() == 2 && idents.contains(&t.ty.path.segments[1].as_str()) && matches!(t.ty.type_def, TypeDef::Variant(_))).map(|t| t.id)
}

fn load(name: &'static str) -> Real {
    let b = load_bytes(name);
    let v15 = b[4] == 15;
    macro_rules! entries {
        ($m:expr) => {
            $m.pallets
                .iter()
                .filter_map(|p| p.storage.as_ref().map(|s| (p, s)))
                .flat_map(|(p, s)| s.entries.iter().map(|e| Entry { pallet: p.name.clone(), prefix: s.prefix.clone(), meta: e.clone() }))
                .collect::<Vec<_>>()
        };
    }
    if v15 {
        let m = v15::RuntimeMetadataV15::decode(&mut &b[5..]).expect("v15 metadata");
        let reg = Arc::new(m.types.clone());
        Real {
            name,
            call_ty: m.outer_enums.call_enum_ty.id,
            event_ty: m.outer_enums.event_enum_ty.id,
            entries: entries!(m),
            costs: Arc::new(crate::walk::type_costs(&m.types)),
            arc: ArcMeta::of(&m, reg.clone()),
            meta: RealMeta::V15(m),
            reg,
        }
    } else {
        let m = v14::RuntimeMetadataV14::decode(&mut &b[5..]).expect("v14 metadata");
        let reg = Arc::new(m.types.clone());
        Real {
            name,
            call_ty: by_path(&reg, &["RuntimeCall", "Call"]).expect("call type"),
            event_ty: by_path(&reg, &["RuntimeEvent", "Event"]).expect("event type"),
            entries: entries!(m),
            costs: Arc::new(crate::walk::type_costs(&m.types)),
            arc: ArcMeta::of(&m, reg.clone()),
            meta: RealMeta::V14(m),
            reg,
        }
    }
}

/// The `i`-th bundled metadata (loaded on first use).
pub fn real(i: usize) -> &'static Real {
    static CELLS: OnceLock<Vec<OnceLock<Real>>> = OnceLock::new();
    let cells = CELLS.get_or_init(|| NAMES.iter().map(|_| OnceLock::new()).collect());
    let i = i % NAMES.len();
    cells[i].get_or_init(|| load(NAMES[i]))
}

/// Pseudo-random tape for the `i`-th enumerated case.
pub fn tape_bytes(i: u64, n: usize) -> Vec<u8> {
    let mut s = i.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234_5678_9abc_def1;
    (0..n)
        .map(|_| {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            (s >> 24) as u8
        })
        .collect()
}

// ---------------------------------------------------------- synthetic runtime

#[derive(Clone, Debug)]
pub struct RtExt {
    pub identifier: String,
    pub ty: u32,
    pub additional: u32,
}

#[derive(Clone, Debug)]
pub struct RtConst {
    pub name: String,
    pub ty: u32,
    pub value: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct RtPallet {
    pub name: String,
    pub constants: Vec<RtConst>,
}

#[derive(Clone, Debug)]
pub struct Rt {
    pub reg: PortableRegistry,
    pub call_ty: u32,
    pub address_ty: u32,
    pub signature_ty: u32,
    pub extra_ty: u32,
    pub extrinsic_ty: u32,
    pub exts: Vec<RtExt>,
    pub version: u8,
    pub pallets: Vec<RtPallet>,
    pub shapes: Shapes,
    /// the version constant is the regular one
    pub regular_version: bool,
    /// true when the call type follows the pallet pattern throughout
    pub strict_call: bool,
    /// (const position, field kind) of the spec version in the constant
    ver_fields: Vec<VerField>,
    ver_at: (usize, usize),
    pub spec_name: String,
}

#[derive(Clone, Debug)]
enum VerField {
    SpecVersion { bits: u32, compact: bool },
    SpecName,
    Fixed(Vec<u8>),
}

pub struct RtOpts {
    /// /256: probability of irregular extension lists
    pub odd_exts: u16,
    /// /256: probability of irregular version constants
    pub odd_version: u16,
    /// /256: probability of irregular extrinsic type
    pub odd_params: u16,
    /// /256: call type that need not follow the pattern
    pub odd_call: u16,
    /// up to this many further extensions of any type
    pub more_exts: usize,
    pub gen: Opts,
}

impl Default for RtOpts {
    fn default() -> Self {
        RtOpts { odd_exts: 30, odd_version: 8, odd_params: 6, odd_call: 30, more_exts: 1, gen: Opts { max_types: 45, max_depth: 3, ..Opts::default() } }
    }
}

pub fn fld(name: Option<&str>, ty: u32, type_name: Option<&str>) -> Field<PortableForm> {
    Field { name: name.map(|s| s.to_string()), ty: sym(ty), type_name: type_name.map(|s| s.to_string()), docs: vec![] }
}

struct ExtGen {
    unit: u32,
}

impl ExtGen {
    fn empty(&self, g: &mut Gen, name: &str) -> u32 {
        g.add(segs(&["frame_system", "extensions", name]), TypeDefComposite { fields: vec![] }, vec![])
    }
    fn wrap1(&self, g: &mut Gen, name: &str, inner: u32) -> u32 {
        g.add(segs(&["frame_system", "extensions", name]), TypeDefComposite { fields: vec![fld(None, inner, None)] }, vec![])
    }

    /// One of the well-known extensions.
    fn known(&self, g: &mut Gen, k: usize) -> RtExt {
        let (identifier, ty, additional) = match k {
            0 => ("CheckSpecVersion", self.empty(g, "CheckSpecVersion"), {
                let p = match g.tape.weighted(&[6, 1, 1, 1, 1]) {
                    0 => TypeDefPrimitive::U32,
                    1 => TypeDefPrimitive::U64,
                    2 => TypeDefPrimitive::U16,
                    3 => TypeDefPrimitive::U8,
                    _ => TypeDefPrimitive::U128,
                };
                g.prim(p)
            }),
            1 => ("CheckGenesis", self.empty(g, "CheckGenesis"), g.h256()),
            2 => {
                let era = g.era();
                ("CheckMortality", self.wrap1(g, "CheckMortality", era), g.h256())
            }
            3 => ("CheckTxVersion", self.empty(g, "CheckTxVersion"), g.prim(TypeDefPrimitive::U32)),
            4 => {
                let u = g.prim(TypeDefPrimitive::U32);
                let c = g.add(segs(&[]), scale_info::TypeDefCompact::new(sym(u)), vec![]);
                ("CheckNonce", self.wrap1(g, "CheckNonce", c), self.unit)
            }
            5 => {
                let u = g.prim(TypeDefPrimitive::U128);
                let c = g.add(segs(&[]), scale_info::TypeDefCompact::new(sym(u)), vec![]);
                ("ChargeTransactionPayment", self.wrap1(g, "ChargeTransactionPayment", c), self.unit)
            }
            6 => {
                let u = g.prim(TypeDefPrimitive::U128);
                let c = g.add(segs(&[]), scale_info::TypeDefCompact::new(sym(u)), vec![]);
                let a = g.prim(TypeDefPrimitive::U32);
                let o = g.add(
                    segs(&["Option"]),
                    TypeDefVariant {
                        variants: vec![
                            Variant { name: "None".into(), fields: vec![], index: 0, docs: vec![] },
                            Variant { name: "Some".into(), fields: vec![fld(None, a, None)], index: 1, docs: vec![] },
                        ],
                    },
                    vec![],
                );
                let t = g.add(
                    segs(&["pallet_asset_tx_payment", "ChargeAssetTxPayment"]),
                    TypeDefComposite { fields: vec![fld(Some("tip"), c, Some("BalanceOf<T>")), fld(Some("asset_id"), o, Some("Option<ChargeAssetIdOf<T>>"))] },
                    vec![],
                );
                ("ChargeAssetTxPayment", t, self.unit)
            }
            7 => ("CheckWeight", self.empty(g, "CheckWeight"), self.unit),
            _ => ("CheckNonZeroSender", self.empty(g, "CheckNonZeroSender"), self.unit),
        };
        RtExt { identifier: identifier.into(), ty, additional }
    }

    fn any(&self, g: &mut Gen) -> RtExt {
        let identifier = if g.tape.chance(30) {
            let of = *g.tape.pick(&["CheckSpecVersion", "CheckGenesis", "CheckMortality", "CheckTxVersion", "CheckNonce", "ChargeTransactionPayment", "ChargeAssetTxPayment"]);
            dict::near(g.tape, of)
        } else {
            g.tape.pick(&["PrevalidateAttests", "CheckNonce", "CheckMetadataHash", "checkspecversion", "CheckEra", "Custom", "CheckTxVersion", "ChargeTransactionPayment", ""]).to_string()
        };
        let ty = if g.tape.chance(90) { self.unit } else { g.ty() };
        let additional = if g.tape.chance(150) { self.unit } else { g.ty() };
        RtExt { identifier, ty, additional }
    }
}

/// Wrap a type without changing its encoding.
fn cover(g: &mut Gen, ty: u32) -> u32 {
    match g.tape.below(4) {
        0 => g.wrapper(ty),
        1 => {
            let w = g.wrapper(ty);
            g.wrapper(w)
        }
        2 => g.add(segs(&[]), TypeDefTuple { fields: vec![sym(ty)] }, vec![]),
        _ => {
            let unit = g.add(segs(&[]), TypeDefTuple { fields: vec![] }, vec![]);
            let named = g.tape.chance(128);
            let a = g.field(ty, named);
            let b = g.field(unit, named);
            g.add(segs(&["x", "Two"]), TypeDefComposite { fields: vec![a, b] }, vec![])
        }
    }
}

pub fn gen_rt(t: &mut Tape, o: &RtOpts) -> Rt {
    let mut g = Gen::new(t, o.gen.clone());
    let unit = g.add(segs(&[]), TypeDefTuple { fields: vec![] }, vec![]);
    let eg = ExtGen { unit };

    // extensions
    let mut exts: Vec<RtExt> = Vec::new();
    let n_known = if g.tape.chance(128) { 9 } else { g.tape.range(3, 9) };
    for k in 0..n_known {
        let e = eg.known(&mut g, k);
        exts.push(e);
    }
    if g.tape.chance(100) {
        for _ in 0..g.tape.range(1, o.more_exts.max(1)) {
            let e = eg.any(&mut g);
            exts.push(e);
        }
    }
    super::props::c27::shuffle(g.tape, &mut exts);
    if g.tape.chance(o.odd_exts) {
        for _ in 0..g.tape.range(1, 3) {
            if exts.is_empty() {
                break;
            }
            let i = g.tape.below(exts.len());
            match g.tape.below(8) {
                0 | 1 => {
                    exts.remove(i);
                }
                2 | 3 => {
                    let k = g.tape.below(4);
                    let e = eg.known(&mut g, k);
                    exts.insert(i, e);
                }
                4 => {
                    exts[i].additional = cover(&mut g, exts[i].additional);
                }
                5 => {
                    exts[i].ty = cover(&mut g, exts[i].ty);
                }
                6 => {
                    // explicit and implicit contents exchanged
                    let e = &mut exts[i];
                    std::mem::swap(&mut e.ty, &mut e.additional);
                }
                _ => {
                    let k = g.tape.below(4);
                    exts[i].identifier = ["CheckSpecVersion", "CheckGenesis", "CheckMortality", "CheckTxVersion"][k].into();
                }
            }
        }
    }

    // extrinsic contents
    let strict = !g.tape.chance(o.odd_call);
    let call_ty = if strict || g.tape.chance(200) { g.pallet_enum(true, strict) } else { g.ty() };
    let address_ty = match g.tape.below(3) {
        0 => g.account_id(),
        1 => {
            let id = g.account_id();
            let raw = g.u8_array(20);
            let u = g.prim(TypeDefPrimitive::U32);
            let c = g.add(segs(&[]), scale_info::TypeDefCompact::new(sym(u)), vec![]);
            g.add(
                segs(&["sp_runtime", "multiaddress", "MultiAddress"]),
                TypeDefVariant {
                    variants: vec![
                        Variant { name: "Id".into(), fields: vec![fld(None, id, Some("AccountId"))], index: 0, docs: vec![] },
                        Variant { name: "Index".into(), fields: vec![fld(None, c, Some("AccountIndex"))], index: 1, docs: vec![] },
                        Variant { name: "Address20".into(), fields: vec![fld(None, raw, Some("[u8; 20]"))], index: 4, docs: vec![] },
                    ],
                },
                vec![],
            )
        }
        _ => g.ty(),
    };
    let signature_ty = if g.tape.chance(200) { g.multi_signature() } else { g.ty() };
    let extra_ty = match g.tape.below(3) {
        0 | 1 => {
            let fields: Vec<_> = exts.iter().map(|e| sym(e.ty)).collect();
            g.add(segs(&[]), TypeDefTuple { fields }, vec![])
        }
        _ => g.ty(),
    };

    // version constant
    let mut kinds: Vec<(Option<&str>, u32, VerField)> = Vec::new();
    let s = g.prim(TypeDefPrimitive::Str);
    let u32t = g.prim(TypeDefPrimitive::U32);
    let u8t = g.prim(TypeDefPrimitive::U8);
    let text = |x: &str| {
        let mut b = compact_bytes(x.len() as u128);
        b.extend_from_slice(x.as_bytes());
        b
    };
    let spec_name = {
        let x = g.tape.text(12);
        if x.is_empty() {
            "polkadot".to_string()
        } else {
            x
        }
    };
    let bits = *g.tape.pick(&[32u32, 32, 32, 64, 128, 16, 8]);
    let p = match bits {
        8 => TypeDefPrimitive::U8,
        16 => TypeDefPrimitive::U16,
        32 => TypeDefPrimitive::U32,
        64 => TypeDefPrimitive::U64,
        _ => TypeDefPrimitive::U128,
    };
    let vt = g.prim(p);
    let compact = g.tape.chance(40);
    let vt = if compact { g.add(segs(&[]), scale_info::TypeDefCompact::new(sym(vt)), vec![]) } else { vt };
    kinds.push((Some("spec_name"), s, VerField::SpecName));
    kinds.push((Some("impl_name"), s, VerField::Fixed(text("impl"))));
    kinds.push((Some("authoring_version"), u32t, VerField::Fixed(vec![1, 0, 0, 0])));
    kinds.push((Some("spec_version"), vt, VerField::SpecVersion { bits, compact }));
    kinds.push((Some("impl_version"), u32t, VerField::Fixed(vec![7, 1, 0, 0])));
    kinds.push((Some("transaction_version"), u32t, VerField::Fixed(vec![14, 0, 0, 0])));
    kinds.push((Some("state_version"), u8t, VerField::Fixed(vec![1])));
    if g.tape.chance(100) {
        super::props::c27::shuffle(g.tape, &mut kinds);
    }
    if g.tape.chance(100) {
        let keep = g.tape.range(2, 7);
        let mut k = 0;
        kinds.retain(|(_, _, f)| {
            k += 1;
            k <= keep || !matches!(f, VerField::Fixed(_))
        });
    }
    // rarely a wide struct, so that name and version are far apart
    if g.tape.chance(16) {
        let n = if g.tape.chance(20) { *g.tape.pick(&[254usize, 255, 256, 300]) } else { g.tape.range(1, 40) };
        for _ in 0..n {
            let at = g.tape.below(kinds.len() + 1);
            kinds.insert(at, (Some("transaction_version"), u8t, VerField::Fixed(vec![at as u8])));
        }
    }
    let mut regular_version = true;
    let mut plain_const: Option<u32> = None;
    let mut pallets: Vec<RtPallet> = Vec::new();
    let mut const_name = "Version".to_string();
    let mut system = "System".to_string();
    let mut tail: Vec<u8> = Vec::new();
    if g.tape.chance(o.odd_version) {
        regular_version = false;
        match g.tape.below(13) {
            0 => kinds.retain(|k| !matches!(k.2, VerField::SpecVersion { .. })),
            1 => kinds.retain(|k| !matches!(k.2, VerField::SpecName)),
            2 => {
                // any width, the same or another value, anywhere
                let bits = *g.tape.pick(&[8u32, 16, 32, 64, 128]);
                let p = match bits {
                    8 => TypeDefPrimitive::U8,
                    16 => TypeDefPrimitive::U16,
                    32 => TypeDefPrimitive::U32,
                    64 => TypeDefPrimitive::U64,
                    _ => TypeDefPrimitive::U128,
                };
                let ty = g.prim(p);
                let f = if g.tape.chance(100) { VerField::SpecVersion { bits, compact: false } } else { VerField::Fixed(g.tape.bytes(bits as usize / 8)) };
                let at = g.tape.below(kinds.len() + 1);
                kinds.insert(at, (Some("spec_version"), ty, f));
            }
            3 => {
                let name = if g.tape.chance(100) { VerField::SpecName } else { VerField::Fixed(text("other")) };
                let at = g.tape.below(kinds.len() + 1);
                kinds.insert(at, (Some("spec_name"), s, name));
            }
            4 => {
                for k in kinds.iter_mut() {
                    if matches!(k.2, VerField::SpecVersion { .. }) || g.tape.chance(60) {
                        k.0 = *g.tape.pick(&[None, Some("specVersion"), Some("version"), Some("spec_name")]);
                    }
                }
            }
            5 => {
                // wrong type of a field
                for k in kinds.iter_mut() {
                    if matches!(k.2, VerField::SpecVersion { .. }) {
                        *k = (Some("spec_version"), s, VerField::Fixed(text("12")));
                    }
                }
            }
            6 => tail = vec![0; g.tape.range(1, 3)],
            7 => plain_const = Some(if g.tape.chance(128) { u32t } else { s }),
            // the version or the name deeper inside, also besides the real one
            9..=11 => {
                let version = g.tape.chance(160);
                let (inner, bytes) = if version { (u32t, vec![12, 0, 0, 0]) } else { (s, text("deep")) };
                let name = if version { "spec_version" } else { "spec_name" };
                let (own, deep) = *g.tape.pick(&[(Some(name), None), (None, Some(name)), (Some("authoring_version"), Some(name)), (Some(name), Some(name))]);
                let mut ty = inner;
                for _ in 0..g.tape.range(1, 3) {
                    ty = match g.tape.below(5) {
                        0 => g.add(segs(&[]), scale_info::TypeDefTuple { fields: vec![sym(ty)] }, vec![]),
                        1 => g.add(segs(&[]), scale_info::TypeDefArray { len: 1, type_param: sym(ty) }, vec![]),
                        _ => g.add(segs(&[]), TypeDefComposite { fields: vec![fld(deep, ty, None)] }, vec![]),
                    };
                }
                let f = (own, ty, VerField::Fixed(bytes));
                let real = |k: &VerField| if version { matches!(k, VerField::SpecVersion { .. }) } else { matches!(k, VerField::SpecName) };
                let i = kinds.iter().position(|k| real(&k.2)).unwrap_or(0);
                if g.tape.chance(128) {
                    kinds[i] = f;
                } else {
                    let at = g.tape.below(kinds.len() + 1);
                    kinds.insert(at, f);
                }
            }
            8 => const_name = if g.tape.chance(100) { dict::near(g.tape, "Version") } else { g.tape.pick(&["version", "RuntimeVersion", "VERSION", ""]).to_string() },
            _ => system = if g.tape.chance(100) { dict::near(g.tape, "System") } else { g.tape.pick(&["system", "Sys", "Timestamp", "System2"]).to_string() },
        }
    }
    let (const_ty, ver_fields) = match plain_const {
        Some(ty) => (ty, vec![VerField::Fixed(if ty == u32t { vec![1, 2, 0, 0] } else { text("x") })]),
        None => {
            // a lone field keeps its own struct
            let fields = kinds.iter().map(|(n, t, _)| fld(*n, *t, None)).collect();
            let ty = g.add(segs(&["sp_version", "RuntimeVersion"]), TypeDefComposite { fields }, vec![]);
            let mut f: Vec<VerField> = kinds.into_iter().map(|k| k.2).collect();
            if !tail.is_empty() {
                f.push(VerField::Fixed(tail));
            }
            (ty, f)
        }
    };
    let mut consts = vec![RtConst { name: const_name, ty: const_ty, value: vec![] }];
    let mut at = 0;
    if g.tape.chance(128) {
        consts.insert(0, RtConst { name: "BlockHashCount".into(), ty: u32t, value: vec![1, 2, 3, 4] });
        at = 1;
    }
    if g.tape.chance(128) {
        let name = if g.tape.chance(100) { dict::near(g.tape, "Version") } else { g.tape.pick(&["SS58Prefix", "Versions", "version"]).to_string() };
        consts.push(RtConst { name, ty: u8t, value: vec![42] });
    }
    let sys = RtPallet { name: system, constants: consts };
    let n_before = g.tape.below(3);
    for _ in 0..n_before {
        pallets.push(RtPallet {
            name: if g.tape.chance(60) { dict::near(g.tape, "System") } else { g.tape.pick(&["Timestamp", "Balances", "system", "SystemX", ""]).to_string() },
            constants: if g.tape.chance(160) { vec![RtConst { name: "Version".into(), ty: u32t, value: vec![5, 0, 0, 0] }] } else { vec![] },
        });
    }
    let ver_at = (pallets.len(), at);
    pallets.push(sys);
    if g.tape.chance(60) {
        pallets.push(RtPallet { name: g.tape.pick(&["Utility", "System"]).to_string(), constants: vec![RtConst { name: "Version".into(), ty: u8t, value: vec![3] }] });
    }

    // extrinsic type of version 14
    let mut params: Vec<(String, Option<u32>)> = vec![("Address".into(), Some(address_ty)), ("Call".into(), Some(call_ty)), ("Signature".into(), Some(signature_ty)), ("Extra".into(), Some(extra_ty))];
    if g.tape.chance(100) {
        super::props::c27::shuffle(g.tape, &mut params);
    }
    let mut more = 60;
    while g.tape.chance(more) {
        more = 120;
        let k = g.tape.below(params.len() + 1);
        let name = match g.tape.below(3) {
            0 => g.tape.pick(&["Format", "address", "Hash", "T"]).to_string(),
            _ => {
                let of = *g.tape.pick(&["Address", "Call", "Signature", "Extra"]);
                dict::near(g.tape, of)
            }
        };
        let ty = *g.tape.pick(&[Some(u32t), Some(u8t), None]);
        params.insert(k, (name, ty));
    }
    let mut shape = g.tape.weighted(&[5, 2, 2, 2, 1]);
    if g.tape.chance(o.odd_params) {
        match g.tape.below(4) {
            0 => {
                let k = g.tape.below(params.len());
                params.remove(k);
            }
            1 => {
                let k = g.tape.below(params.len());
                params[k].1 = None;
            }
            2 => shape = 5 + g.tape.below(9),
            _ => {
                let k = g.tape.below(params.len());
                params[k].0 = if g.tape.chance(128) { g.tape.pick(&["address", "AccountId", "Calls", "Sig", "SignedExtra"]).to_string() } else { dict::near(g.tape, &params[k].0) };
            }
        }
    }
    let tp: Vec<TypeParameter<PortableForm>> = params.iter().map(|(n, t)| TypeParameter::new_portable(n.clone(), t.map(sym))).collect();
    let vec_u8 = g.add(segs(&[]), TypeDefSequence::new(sym(u8t)), vec![]);
    let put = |g: &mut Gen, path: &[&str], def: TypeDef<PortableForm>, tp: Vec<TypeParameter<PortableForm>>| {
        let id = g.add(segs(path), def, vec![]);
        g.types[id as usize].type_params = tp;
        id
    };
    const UX: &[&str] = &["sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic"];
    let comp = |fields: Vec<Field<PortableForm>>| TypeDef::from(TypeDefComposite { fields });
    let extrinsic_ty = match shape {
        0 => put(&mut g, UX, comp(vec![fld(None, vec_u8, None)]), tp),
        1 => put(&mut g, &[], TypeDefSequence::new(sym(u8t)).into(), tp),
        2 => {
            let inner = put(&mut g, UX, comp(vec![fld(None, vec_u8, None)]), tp);
            put(&mut g, &["fp_self_contained", "unchecked_extrinsic", "UncheckedExtrinsic"], comp(vec![fld(None, inner, None)]), vec![])
        }
        3 => {
            let inner = put(&mut g, &[], TypeDefSequence::new(sym(u8t)).into(), tp);
            let w = put(&mut g, &["a", "Wrap"], comp(vec![fld(Some("inner"), inner, None)]), vec![]);
            put(&mut g, &["b", "UncheckedExtrinsic"], comp(vec![fld(None, w, None)]), vec![])
        }
        4 => put(&mut g, UX, TypeDefSequence::new(sym(u8t)).into(), tp),
        5 => put(&mut g, UX, comp(vec![fld(None, vec_u8, None), fld(None, unit, None)]), tp),
        6 => put(&mut g, UX, comp(vec![]), tp),
        7 => put(&mut g, &[], TypeDefSequence::new(sym(u32t)).into(), tp),
        8 => {
            let x = g.add(segs(&[]), TypeDefSequence::new(sym(u32t)), vec![]);
            put(&mut g, UX, comp(vec![fld(None, x, None)]), tp)
        }
        9 => put(&mut g, &["x", "Enum"], TypeDefVariant { variants: vec![] }.into(), tp),
        // nearly bytes
        _ => {
            let element = match g.tape.below(7) {
                0 | 1 => u8t,
                2 => g.add(segs(&[]), scale_info::TypeDefCompact { type_param: sym(u8t) }, vec![]),
                3 => g.add(segs(&[]), TypeDefComposite { fields: vec![fld(None, u8t, None)] }, vec![]),
                4 => g.prim(TypeDefPrimitive::I8),
                5 => vec_u8,
                _ => unit,
            };
            let len = g.tape.below(3) as u32;
            let def: TypeDef<PortableForm> = match g.tape.below(if element == u8t { 4 } else { 6 }) {
                0 => scale_info::TypeDefArray { len, type_param: sym(element) }.into(),
                1 => scale_info::TypeDefTuple { fields: vec![sym(element); len as usize] }.into(),
                2 => scale_info::TypeDefTuple { fields: vec![sym(vec_u8)] }.into(),
                3 => TypeDefPrimitive::Str.into(),
                _ => TypeDefSequence::new(sym(element)).into(),
            };
            if g.tape.chance(128) {
                let x = g.add(segs(&[]), def, vec![]);
                put(&mut g, UX, comp(vec![fld(None, x, None)]), tp)
            } else {
                put(&mut g, &[], def, tp)
            }
        }
    };
    let version = if g.tape.chance(200) { 4 } else { *g.tape.pick(&[5u8, 0, 127, 128, 132, 1]) };
    let (reg, shapes) = g.finish();
    let mut rt = Rt {
        reg,
        call_ty,
        address_ty,
        signature_ty,
        extra_ty,
        extrinsic_ty,
        exts,
        version,
        pallets,
        shapes,
        regular_version,
        strict_call: strict,
        ver_fields,
        ver_at,
        spec_name,
    };
    rt.set_spec(1, false);
    rt
}

impl Rt {
    /// Write the version constant; the version is cut to its width.
    pub fn set_spec(&mut self, v: u128, cut: bool) {
        let mut b = Vec::new();
        for f in &self.ver_fields {
            match f {
                VerField::SpecVersion { bits, compact } => {
                    let m = if *bits == 128 { u128::MAX } else { (1 << bits) - 1 };
                    let v = v & m;
                    if *compact {
                        b.extend(compact_bytes(v));
                    } else {
                        b.extend_from_slice(&v.to_le_bytes()[..*bits as usize / 8]);
                    }
                }
                VerField::SpecName => {
                    b.extend(compact_bytes(self.spec_name.len() as u128));
                    b.extend_from_slice(self.spec_name.as_bytes());
                }
                VerField::Fixed(x) => b.extend_from_slice(x),
            }
        }
        if cut {
            b.pop();
        }
        self.pallets[self.ver_at.0].constants[self.ver_at.1].value = b;
    }

    pub fn v14(&self) -> v14::RuntimeMetadataV14 {
        v14::RuntimeMetadataV14 {
            types: self.reg.clone(),
            pallets: self
                .pallets
                .iter()
                .enumerate()
                .map(|(i, p)| v14::PalletMetadata { name: p.name.clone(), storage: None, calls: None, event: None, constants: consts(p), error: None, index: i as u8 })
                .collect(),
            extrinsic: v14::ExtrinsicMetadata {
                ty: sym(self.extrinsic_ty),
                version: self.version,
                signed_extensions: self.exts.iter().map(|e| v14::SignedExtensionMetadata { identifier: e.identifier.clone(), ty: sym(e.ty), additional_signed: sym(e.additional) }).collect(),
            },
            ty: sym(0),
        }
    }

    pub fn v15(&self) -> v15::RuntimeMetadataV15 {
        v15::RuntimeMetadataV15 {
            types: self.reg.clone(),
            pallets: self
                .pallets
                .iter()
                .enumerate()
                .map(|(i, p)| v15::PalletMetadata { name: p.name.clone(), storage: None, calls: None, event: None, constants: consts(p), error: None, index: i as u8, docs: vec![] })
                .collect(),
            extrinsic: v15::ExtrinsicMetadata {
                version: self.version,
                address_ty: sym(self.address_ty),
                call_ty: sym(self.call_ty),
                signature_ty: sym(self.signature_ty),
                extra_ty: sym(self.extra_ty),
                signed_extensions: self.exts.iter().map(|e| v15::SignedExtensionMetadata { identifier: e.identifier.clone(), ty: sym(e.ty), additional_signed: sym(e.additional) }).collect(),
            },
            ty: sym(0),
            apis: vec![],
            // of the chain as a whole: nothing is read from here
            outer_enums: v15::OuterEnums { call_enum_ty: sym(self.extra_ty), event_enum_ty: sym(self.address_ty), error_enum_ty: sym(self.signature_ty) },
            custom: v15::CustomMetadata { map: Default::default() },
        }
    }

    /// Answers of the real implementation, without copies of the registry.
    pub fn arc14(&self) -> ArcMeta {
        let mut m = self.v14();
        let mut a = ArcMeta::of(&m, Arc::new(registry(vec![])));
        a.reg.0 = Arc::new(std::mem::replace(&mut m.types, registry(vec![])));
        a
    }

    pub fn arc15(&self) -> ArcMeta {
        let mut m = self.v15();
        let mut a = ArcMeta::of(&m, Arc::new(registry(vec![])));
        a.reg.0 = Arc::new(std::mem::replace(&mut m.types, registry(vec![])));
        a
    }

    pub fn show(&self) -> String {
        format!(
            "runtime: call {} address {} signature {} extra {} extrinsic {} version {}\nextensions {:?}\npallets {:?}\n{}",
            self.call_ty,
            self.address_ty,
            self.signature_ty,
            self.extra_ty,
            self.extrinsic_ty,
            self.version,
            self.exts.iter().map(|e| (e.identifier.as_str(), e.ty, e.additional)).collect::<Vec<_>>(),
            self.pallets,
            crate::sut::show_reg(&self.reg)
        )
    }

    pub fn model(&self) -> Model<'_> {
        Model {
            reg: &self.reg,
            call_ty: self.call_ty,
            address_ty: self.address_ty,
            signature_ty: self.signature_ty,
            extra_ty: self.extra_ty,
            exts: self.exts.clone(),
            spec: self.spec_model(),
            version: self.version,
            costs: Default::default(),
        }
    }

    /// What the version constant says.
    pub fn spec_model(&self) -> Result<(String, String), String> {
        let p = self.pallets.iter().find(|p| p.name == "System").ok_or("NoSystemPallet")?;
        let c = p.constants.iter().filter(|c| c.name == "Version").last().ok_or("NoVersionInConstants")?;
        let (r, end) = ref_decode(&self.reg, c.ty, &c.value, 0, Hi::None);
        let d = match r {
            Ok(d) if end == c.value.len() => d,
            _ => return Err("RuntimeVersionNotDecodeable".into()),
        };
        let ParsedData::Composite(fields) = d.data else { return Err("UnexpectedRuntimeVersionFormat".into()) };
        let (mut v, mut n) = (Vec::new(), Vec::new());
        for f in &fields {
            v.extend(spec_version_of(&f.data.data));
            if let ParsedData::Text { text, specialty: SpecialtyStr::SpecName } = &f.data.data {
                n.push(text.clone());
            }
        }
        let wrong: Vec<&str> = [
            (v.is_empty(), "NoSpecVersionIdentifier"),
            (v.len() > 1, "SpecVersionIdentifierTwice"),
            (n.is_empty(), "NoSpecNameIdentifier"),
            (n.len() > 1, "SpecNameIdentifierTwice"),
        ]
        .into_iter()
        .filter_map(|(w, e)| w.then_some(e))
        .collect();
        if !wrong.is_empty() {
            return Err(wrong.join("|"));
        }
        Ok((n.remove(0), v.remove(0)))
    }

    /// Types of the extrinsic parts as version 14 describes them.
    pub fn v14_params(&self) -> Result<[u32; 4], String> {
        let ty = |id: u32| -> &PTy { &self.reg.types[id as usize].ty };
        let mut id = self.extrinsic_ty;
        loop {
            if special(ty(id)) != Sp::None {
                break;
            }
            match &ty(id).type_def {
                TypeDef::Composite(c) if c.fields.len() == 1 => id = c.fields[0].ty.id,
                TypeDef::Compact(c) => id = c.type_param.id,
                _ => break,
            }
        }
        let t = ty(id);
        let is_vec_u8 = |t: &PTy| matches!(&t.type_def, TypeDef::Sequence(s) if ty(s.type_param.id).type_def == TypeDef::Primitive(TypeDefPrimitive::U8));
        let good = is_vec_u8(t) || matches!(&t.type_def, TypeDef::Composite(c) if c.fields.len() == 1 && is_vec_u8(ty(c.fields[0].ty.id)));
        if !good {
            return Err(format!("UnexpectedExtrinsicType {{ extrinsic_ty_id: {id} }}"));
        }
        let find = |n: &str| t.type_params.iter().filter(|p| p.name == n).last().and_then(|p| p.ty).map(|x| x.id);
        let found = ["Address", "Call", "Signature", "Extra"].map(|n| find(n).ok_or(format!("No{n}Param")));
        if let [Ok(a), Ok(c), Ok(s), Ok(x)] = &found {
            return Ok([*a, *c, *s, *x]);
        }
        Err(found.into_iter().filter_map(|f| f.err()).collect::<Vec<_>>().join("|"))
    }
}

/// Of several true errors about metadata (joined by `|`) one is reported.
pub fn one_of(a: &str, b: &str) -> bool {
    a.split('|').any(|x| b.split('|').any(|y| x == y))
}

pub fn meta_agree<T: PartialEq>(want: &Result<T, String>, got: &Result<T, String>) -> bool {
    match (want, got) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => one_of(a, b),
        _ => false,
    }
}

fn consts(p: &RtPallet) -> Vec<v14::PalletConstantMetadata<PortableForm>> {
    p.constants.iter().map(|c| v14::PalletConstantMetadata { name: c.name.clone(), ty: sym(c.ty), value: c.value.clone(), docs: vec![] }).collect()
}

fn spec_version_of(d: &ParsedData) -> Option<String> {
    use SpecialtyUnsignedInteger::SpecVersion as S;
    match d {
        ParsedData::PrimitiveU8 { value, specialty: S } => Some(value.to_string()),
        ParsedData::PrimitiveU16 { value, specialty: S } => Some(value.to_string()),
        ParsedData::PrimitiveU32 { value, specialty: S } => Some(value.to_string()),
        ParsedData::PrimitiveU64 { value, specialty: S } => Some(value.to_string()),
        ParsedData::PrimitiveU128 { value, specialty: S } => Some(value.to_string()),
        _ => None,
    }
}

// -------------------------------------------------------------------- model

/// The documented transaction rules over a reference decoder.
pub struct Model<'r> {
    pub reg: &'r PortableRegistry,
    pub call_ty: u32,
    pub address_ty: u32,
    pub signature_ty: u32,
    pub extra_ty: u32,
    pub exts: Vec<RtExt>,
    /// name, printed version
    pub spec: Result<(String, String), String>,
    pub version: u8,
    costs: std::cell::OnceCell<Arc<Vec<u32>>>,
}

#[derive(Clone, Debug)]
pub enum TxErr {
    Cut,
    List(&'static str),
    Immortal,
    Meta(String),
    NotACall(u32),
    /// any decoding error
    Parsing,
    UnusedCall { from: usize, to: usize },
    UnusedExt { from: usize },
    Genesis { as_decoded: H256, expected: H256 },
    Version { as_decoded: String, in_metadata: String },
    /// too large to judge
    Budget,
    /// more than one thing is wrong, which one is reported is free
    AnyOf(Vec<TxErr>),
}

impl PartialEq for TxErr {
    fn eq(&self, o: &TxErr) -> bool {
        use TxErr::*;
        match (self, o) {
            (AnyOf(a), AnyOf(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y),
            (AnyOf(a), x) | (x, AnyOf(a)) => a.iter().any(|y| y == x),
            (Cut, Cut) | (Immortal, Immortal) | (Parsing, Parsing) | (Budget, Budget) => true,
            (List(a), List(b)) => a == b,
            (Meta(a), Meta(b)) => one_of(a, b),
            (NotACall(a), NotACall(b)) => a == b,
            (UnusedCall { from: a, to: b }, UnusedCall { from: c, to: d }) => a == c && b == d,
            (UnusedExt { from: a }, UnusedExt { from: b }) => a == b,
            (Genesis { as_decoded: a, expected: b }, Genesis { as_decoded: c, expected: d }) => a == c && b == d,
            (Version { as_decoded: a, in_metadata: b }, Version { as_decoded: c, in_metadata: d }) => a == c && b == d,
            _ => false,
        }
    }
}

impl TxErr {
    fn of(e: RefErr) -> TxErr {
        if e == RefErr::Budget {
            TxErr::Budget
        } else {
            TxErr::Parsing
        }
    }
}

pub fn list_err(e: &ExtensionsError) -> &'static str {
    match e {
        ExtensionsError::BlockHashTwice => "BlockHashTwice",
        ExtensionsError::EraTwice => "EraTwice",
        ExtensionsError::GenesisHashTwice => "GenesisHashTwice",
        ExtensionsError::NoGenesisHash => "NoGenesisHash",
        ExtensionsError::NoSpecVersion => "NoSpecVersion",
        ExtensionsError::SpecVersionTwice => "SpecVersionTwice",
    }
}

pub fn tx_err<E: ExternalMemory, M: AsMetadata<E>>(e: &SignableError<E, M>) -> TxErr {
    match e {
        SignableError::CutSignable => TxErr::Cut,
        SignableError::ExtensionsList(x) => TxErr::List(list_err(x)),
        SignableError::ImmortalHashMismatch => TxErr::Immortal,
        SignableError::MetaStructure(x) => TxErr::Meta(meta_err(x)),
        SignableError::NotACall(x) => TxErr::NotACall(*x),
        SignableError::Parsing(_) => TxErr::Parsing,
        SignableError::SomeDataNotUsedCall { from, to } => TxErr::UnusedCall { from: *from, to: *to },
        SignableError::SomeDataNotUsedExtensions { from } => TxErr::UnusedExt { from: *from },
        SignableError::WrongGenesisHash { as_decoded, expected } => TxErr::Genesis { as_decoded: *as_decoded, expected: *expected },
        SignableError::WrongSpecVersion { as_decoded, in_metadata } => TxErr::Version { as_decoded: as_decoded.clone(), in_metadata: in_metadata.clone() },
    }
}

#[derive(Debug, Default, Clone)]
pub struct Collected {
    pub version: Vec<String>,
    pub genesis: Vec<H256>,
    pub block: Vec<H256>,
    pub era: Vec<Era>,
}

/// Everything checked that is in the extensions.
pub fn collect(exts: &[ExtendedData]) -> Collected {
    let mut c = Collected::default();
    for e in exts {
        let d = match &e.data {
            ParsedData::Composite(f) => match f.as_slice() {
                [one] => &one.data.data,
                _ => continue,
            },
            d => d,
        };
        c.version.extend(spec_version_of(d));
        match d {
            ParsedData::GenesisHash(h) => c.genesis.push(*h),
            ParsedData::BlockHash(h) => c.block.push(*h),
            ParsedData::Era(x) => c.era.push(*x),
            _ => {}
        }
    }
    c
}

/// All that is wrong with what was collected, apart from missing things.
fn wrong(c: &Collected, printed: Option<&str>, genesis: Option<H256>) -> Vec<TxErr> {
    let mut out = Vec::new();
    let twice = [(c.version.len(), "SpecVersionTwice"), (c.genesis.len(), "GenesisHashTwice"), (c.block.len(), "BlockHashTwice"), (c.era.len(), "EraTwice")];
    out.extend(twice.iter().filter(|x| x.0 > 1).map(|x| TxErr::List(x.1)));
    if let Some(p) = printed {
        out.extend(c.version.iter().filter(|v| *v != p).map(|v| TxErr::Version { as_decoded: v.clone(), in_metadata: p.to_string() }));
    }
    if let Some(expected) = genesis {
        out.extend(c.genesis.iter().filter(|g| **g != expected).map(|g| TxErr::Genesis { as_decoded: *g, expected }));
    }
    if c.era.contains(&Era::Immortal) && c.block.iter().any(|b| c.genesis.iter().any(|g| b != g)) {
        out.push(TxErr::Immortal);
    }
    out
}

/// The decision table on decoded extensions: what is wrong.
pub fn judge(exts: &[ExtendedData], printed: Option<&str>, genesis: Option<H256>) -> Vec<TxErr> {
    let c = collect(exts);
    let mut out = wrong(&c, printed, genesis);
    if c.version.is_empty() {
        out.push(TxErr::List("NoSpecVersion"));
    }
    if c.genesis.is_empty() {
        out.push(TxErr::List("NoGenesisHash"));
    }
    out
}

fn refuse(mut v: Vec<TxErr>) -> Result<(), TxErr> {
    match v.len() {
        0 => Ok(()),
        1 => Err(v.remove(0)),
        _ => Err(TxErr::AnyOf(v)),
    }
}

pub type Exts = Result<Vec<ExtendedData>, TxErr>;

impl<'r> Model<'r> {
    pub fn of_real(r: &'r Real) -> Model<'r> {
        let p = r.arc.params.clone().expect("params of bundled metadata");
        Model {
            reg: &r.reg,
            call_ty: p.call_ty.id,
            address_ty: p.address_ty.id,
            signature_ty: p.signature_ty.id,
            extra_ty: p.extra_ty.id,
            exts: r.arc.exts.iter().map(|e| RtExt { identifier: e.identifier.clone(), ty: e.ty.id, additional: e.additional_signed.id }).collect(),
            spec: r.arc.spec.clone().map(|s| (s.spec_name, s.printed_spec_version)),
            version: r.arc.version,
            costs: r.costs.clone().into(),
        }
    }

    pub fn costs(&self) -> Arc<Vec<u32>> {
        self.costs.get_or_init(|| Arc::new(crate::walk::type_costs(self.reg))).clone()
    }

    /// A value of `id` and its encoding.
    pub fn value(&self, t: &mut Tape, id: u32, hint: Hi, budget: u32) -> Option<crate::props::c01::Val> {
        let mut src = GenSrc::with_costs(t, self.costs());
        src.node_budget = budget;
        crate::props::c01::value_of(self.reg, src, id, hint)
    }

    /// Extensions from `pos`: decoded in order, all data used, accepted.
    pub fn extensions(&self, data: &[u8], pos: usize, genesis: Option<H256>) -> Exts {
        let (printed, meta) = match &self.spec {
            Ok((_, p)) => (Some(p.as_str()), None),
            Err(e) => (None, Some(TxErr::Meta(e.clone()))),
        };
        let mut bad: Vec<TxErr> = meta.into_iter().collect();
        let mut out = Vec::new();
        let mut p = pos;
        for k in 0..2 {
            for e in &self.exts {
                let id = if k == 0 { e.ty } else { e.additional };
                let (r, q) = ref_decode(self.reg, id, data, p, Hi::of_extension(&e.identifier));
                match r.map_err(TxErr::of) {
                    Ok(x) => out.push(x),
                    Err(TxErr::Budget) => return Err(TxErr::Budget),
                    Err(e) => {
                        bad.push(e);
                        bad.extend(wrong(&collect(&out), printed, genesis));
                        refuse(bad)?;
                        unreachable!()
                    }
                }
                p = q;
            }
        }
        if p != data.len() {
            bad.push(TxErr::UnusedExt { from: p });
        }
        bad.extend(judge(&out, printed, genesis));
        refuse(bad)?;
        Ok(out)
    }

    /// A call at `pos` within `data`, and its end.
    pub fn call(&self, data: &[u8], pos: usize) -> Result<(Call, usize), TxErr> {
        let (r, q) = ref_decode(self.reg, self.call_ty, data, pos, Hi::None);
        match r.map_err(TxErr::of)?.data {
            ParsedData::Call(c) => Ok((c, q)),
            _ => Err(TxErr::NotACall(self.call_ty)),
        }
    }

    /// Position of call and extensions.
    pub fn border(data: &[u8]) -> Result<(usize, usize), TxErr> {
        let (n, start) = compact_parse(data, 32).ok_or(TxErr::Cut)?;
        let end = start + n as usize;
        if end > data.len() {
            return Err(TxErr::Cut);
        }
        Ok((start, end))
    }

    pub fn transaction(&self, data: &[u8], genesis: Option<H256>) -> Result<(Result<Call, TxErr>, Vec<ExtendedData>), TxErr> {
        let (a, b) = Self::border(data)?;
        let exts = self.extensions(data, b, genesis)?;
        let call = match self.call(&data[..b], a) {
            Ok((c, end)) if end == b => Ok(c),
            Ok((_, end)) => Err(TxErr::UnusedCall { from: end, to: b }),
            Err(TxErr::Budget) => return Err(TxErr::Budget),
            Err(e) => Err(e),
        };
        Ok((call, exts))
    }

    pub fn transaction_unmarked(&self, data: &[u8], genesis: Option<H256>) -> Result<(Call, Vec<ExtendedData>), TxErr> {
        let (call, end) = self.call(data, 0)?;
        let exts = self.extensions(data, end, genesis)?;
        Ok((call, exts))
    }
}

// ----------------------------------------------------------- a transaction

pub struct TxCase {
    pub call: Vec<u8>,
    pub call_value: ExtendedData,
    pub call_marks: Vec<Mark>,
    pub ext: Vec<u8>,
    pub ext_values: Vec<ExtendedData>,
    pub ext_marks: Vec<Mark>,
    pub pool: [u8; 32],
}

/// Values for the call and all extensions of a runtime.
pub fn gen_tx(t: &mut Tape, m: &Model, budget: u32) -> Option<TxCase> {
    let mut pool = [0u8; 32];
    let b = t.bytes(32);
    pool.copy_from_slice(&b);
    let v = m.value(t, m.call_ty, Hi::None, budget)?;
    let (ext, ext_values, ext_marks) = gen_exts(t, m, pool, budget)?;
    Some(TxCase { call: v.data, call_value: v.expected, call_marks: v.marks, ext, ext_values, ext_marks, pool })
}

pub fn gen_exts(t: &mut Tape, m: &Model, pool: [u8; 32], budget: u32) -> Option<(Vec<u8>, Vec<ExtendedData>, Vec<Mark>)> {
    let mut ext = Vec::new();
    let mut values = Vec::new();
    let mut marks = Vec::new();
    for k in 0..2 {
        for e in &m.exts {
            let id = if k == 0 { e.ty } else { e.additional };
            let mut src = GenSrc::with_costs(t, m.costs());
            src.node_budget = budget;
            src.hash_pool = Some(pool);
            src.base = ext.len();
            let mut w = Walker::new(m.reg, src);
            values.push(w.root_hinted(id, Hi::of_extension(&e.identifier)).ok()?);
            ext.extend(w.src.out);
            marks.extend(w.src.marks);
        }
    }
    Some((ext, values, marks))
}

/// Runtime and transaction that mostly fit each other.
pub fn gen_rt_tx(t: &mut Tape, o: &RtOpts) -> Option<(Rt, TxCase, Option<H256>)> {
    let mut rt = gen_rt(t, o);
    for e in &rt.exts {
        if !crate::genreg::instantiable(&rt.reg, e.ty) || !crate::genreg::instantiable(&rt.reg, e.additional) {
            return None;
        }
    }
    if !crate::genreg::instantiable(&rt.reg, rt.call_ty) {
        return None;
    }
    let tx = {
        let m = rt.model();
        gen_tx(t, &m, 120)?
    };
    // the first spec version on any level decides what the metadata says
    let mut v: u128 = collect(&tx.ext_values).version.into_iter().next().and_then(|v| v.parse().ok()).unwrap_or(1);
    if t.chance(16) {
        v = if t.chance(128) { v ^ (1 << t.below(20)) } else { t.uint(32) };
    }
    let cut = t.chance(o.odd_version / 8);
    rt.set_spec(v, cut);
    let genesis = match t.weighted(&[2, 6, 1, 1]) {
        0 => None,
        1 => Some(H256(tx.pool)),
        2 => {
            let mut h = tx.pool;
            h[t.below(32)] ^= 1 << t.below(8);
            Some(H256(h))
        }
        _ => Some(H256([0; 32])),
    };
    Some((rt, tx, genesis))
}

pub fn marked(call: &[u8], ext: &[u8]) -> Vec<u8> {
    let mut d = compact_bytes(call.len() as u128);
    d.extend_from_slice(call);
    d.extend_from_slice(ext);
    d
}

pub fn shift(marks: &[Mark], by: usize) -> Vec<Mark> {
    marks.iter().map(|m| Mark { kind: m.kind, start: m.start + by, end: m.end + by }).collect()
}

pub fn pallet_info(reg: &PortableRegistry, id: u32) -> substrate_parser::cards::Info {
    info_of(&reg.types[id as usize].ty)
}

#[allow(dead_code)]
pub fn count(marks: &[Mark], k: MarkKind) -> usize {
    marks.iter().filter(|m| m.kind == k).count()
}

/// The same runtime in metadata version 15.
pub fn to_v15(m: &v14::RuntimeMetadataV14, p: &ExtrinsicTypeParams) -> v15::RuntimeMetadataV15 {
    v15::RuntimeMetadataV15 {
        types: m.types.clone(),
        pallets: m
            .pallets
            .iter()
            .map(|p| v15::PalletMetadata {
                name: p.name.clone(),
                storage: p.storage.clone(),
                calls: p.calls.clone(),
                event: p.event.clone(),
                constants: p.constants.clone(),
                error: p.error.clone(),
                index: p.index,
                docs: vec![],
            })
            .collect(),
        extrinsic: v15::ExtrinsicMetadata {
            version: m.extrinsic.version,
            address_ty: p.address_ty,
            call_ty: p.call_ty,
            signature_ty: p.signature_ty,
            extra_ty: p.extra_ty,
            signed_extensions: m
                .extrinsic
                .signed_extensions
                .iter()
                .map(|e| v15::SignedExtensionMetadata { identifier: e.identifier.clone(), ty: e.ty, additional_signed: e.additional_signed })
                .collect(),
        },
        ty: m.ty,
        apis: vec![],
        outer_enums: v15::OuterEnums { call_enum_ty: p.extra_ty, event_enum_ty: p.address_ty, error_enum_ty: p.signature_ty },
        custom: v15::CustomMetadata { map: Default::default() },
    }
}

pub fn registry_of(types: Vec<PTy>) -> PortableRegistry {
    registry(types)
}

// ------------------------------------------------- the code under test, neutral

pub type TxOut = Result<(Result<Call, TxErr>, Vec<ExtendedData>), TxErr>;

pub fn sut_tx<M: AsMetadata<()>>(m: &M, data: &[u8], genesis: Option<H256>) -> TxOut {
    match substrate_parser::parse_transaction::<&[u8], (), M>(&data, &mut (), m, genesis) {
        Ok(p) => Ok((p.call_result.map_err(|e| tx_err(&e)), p.extensions)),
        Err(e) => Err(tx_err(&e)),
    }
}

pub fn sut_tx_unmarked<M: AsMetadata<()>>(m: &M, data: &[u8], genesis: Option<H256>) -> Result<(Call, Vec<ExtendedData>), TxErr> {
    match substrate_parser::parse_transaction_unmarked::<&[u8], (), M>(&data, &mut (), m, genesis) {
        Ok(p) => Ok((p.call, p.extensions)),
        Err(e) => Err(tx_err(&e)),
    }
}

pub fn sut_exts<M: AsMetadata<()>>(m: &M, data: &[u8], pos: &mut usize, genesis: Option<H256>) -> Exts {
    substrate_parser::decode_extensions_unmarked::<&[u8], (), M>(&data, pos, &mut (), m, genesis).map_err(|e| tx_err(&e))
}

pub fn sut_call<M: AsMetadata<()>>(m: &M, data: &[u8], pos: &mut usize) -> Result<Call, TxErr> {
    substrate_parser::decoding_sci::decode_as_call_unmarked::<&[u8], (), M>(&data, pos, &mut (), m).map_err(|e| tx_err(&e))
}

pub fn over_budget(o: &TxOut) -> bool {
    matches!(o, Err(TxErr::Budget) | Ok((Err(TxErr::Budget), _)))
}

/// Overwrite the spec version in encoded extensions.
pub fn patch_version(m: &Model, ext: &mut [u8], version: u128) {
    let mut p = 0;
    for k in 0..2 {
        for e in &m.exts {
            let id = if k == 0 { e.ty } else { e.additional };
            let (r, q) = ref_decode(m.reg, id, ext, p, Hi::of_extension(&e.identifier));
            let Ok(d) = r else { return };
            if spec_version_of(&d.data).is_some() {
                let n = q - p;
                ext[p..q].copy_from_slice(&version.to_le_bytes()[..n]);
            }
            p = q;
        }
    }
}

/// Transaction for a bundled metadata, mostly acceptable.
pub fn gen_real_tx(t: &mut Tape, m: &Model, budget: u32) -> Option<(TxCase, Option<H256>)> {
    let mut tx = gen_tx(t, m, budget)?;
    if let Ok((_, v)) = &m.spec {
        if !t.chance(10) {
            patch_version(m, &mut tx.ext, v.parse().ok()?);
        }
    }
    let genesis = match t.weighted(&[1, 4, 1]) {
        0 => None,
        1 => Some(H256(tx.pool)),
        _ => Some(H256([1; 32])),
    };
    Some((tx, genesis))
}

// ------------------------------------------------------ unchecked extrinsics

#[derive(Clone, Debug, PartialEq)]
pub enum Ux {
    Signed { address: ExtendedData, signature: ExtendedData, extra: ExtendedData, call: Call },
    Unsigned { call: Call },
}

#[derive(Clone, Debug)]
pub enum UxErr {
    Meta(String),
    NoCompact,
    /// fewer bytes than announced
    Short { position: usize, missing: usize },
    /// more bytes than announced
    Unused { from: usize },
    Version { version_byte: u8, version: u8 },
    CallTy(u32),
    Parsing,
    /// all parts decoded, but bytes remain within the announced length
    Trailing { from: usize },
    Budget,
    /// more than one thing is wrong, which one is reported is free
    AnyOf(Vec<UxErr>),
}

impl PartialEq for UxErr {
    fn eq(&self, o: &UxErr) -> bool {
        use UxErr::*;
        match (self, o) {
            (AnyOf(a), AnyOf(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y),
            (AnyOf(a), x) | (x, AnyOf(a)) => a.iter().any(|y| y == x),
            (NoCompact, NoCompact) | (Parsing, Parsing) | (Budget, Budget) => true,
            (Meta(a), Meta(b)) => one_of(a, b),
            (Short { position: a, missing: b }, Short { position: c, missing: d }) => a == c && b == d,
            (Version { version_byte: a, version: b }, Version { version_byte: c, version: d }) => a == c && b == d,
            (CallTy(a), CallTy(b)) => a == b,
            // both say the same: bytes remain from there
            (Unused { from: a } | Trailing { from: a }, Unused { from: b } | Trailing { from: b }) => a == b,
            _ => false,
        }
    }
}

fn ux_refuse(mut v: Vec<UxErr>) -> Result<(), UxErr> {
    match v.len() {
        0 => Ok(()),
        1 => Err(v.remove(0)),
        _ => Err(UxErr::AnyOf(v)),
    }
}

impl<'r> Model<'r> {
    pub fn extrinsic(&self, params: &Result<[u32; 4], String>, data: &[u8]) -> (Result<Ux, UxErr>, Option<Ux>) {
        let mut partial = None;
        let r = self.extrinsic_inner(params, data, &mut partial);
        (r, partial)
    }

    fn extrinsic_inner(&self, params: &Result<[u32; 4], String>, data: &[u8], partial: &mut Option<Ux>) -> Result<Ux, UxErr> {
        let mut bad = Vec::new();
        if let Err(e) = params {
            bad.push(UxErr::Meta(e.clone()));
        }
        let mut start = 0;
        let mut version_byte = 0;
        match compact_parse(data, 32) {
            None => bad.push(UxErr::NoCompact),
            Some((n, s)) => {
                start = s;
                let end = s + n as usize;
                if end > data.len() {
                    bad.push(UxErr::Short { position: data.len(), missing: end - data.len() });
                }
                if end < data.len() {
                    bad.push(UxErr::Unused { from: end });
                }
                match data.get(s) {
                    Some(v) => {
                        version_byte = *v;
                        if v & 0x7f != self.version {
                            bad.push(UxErr::Version { version_byte, version: self.version });
                        }
                    }
                    None => bad.push(UxErr::Parsing),
                }
            }
        }
        ux_refuse(bad)?;
        let [address_ty, call_ty, signature_ty, extra_ty] = *params.as_ref().expect("refused above");
        let mut p = start + 1;
        let mut part = |id: u32| -> Result<ExtendedData, UxErr> {
            let (r, q) = ref_decode(self.reg, id, data, p, Hi::None);
            p = q;
            r.map_err(|e| if e == RefErr::Budget { UxErr::Budget } else { UxErr::Parsing })
        };
        let not_a_call = |p: usize| {
            let mut bad = vec![UxErr::CallTy(call_ty)];
            if p != data.len() {
                bad.push(UxErr::Trailing { from: p });
            }
            ux_refuse(bad).unwrap_err()
        };
        let out = if version_byte & 0x80 == 0 {
            match part(call_ty)?.data {
                ParsedData::Call(call) => Ux::Unsigned { call },
                _ => return Err(not_a_call(p)),
            }
        } else {
            let (address, signature, extra) = (part(address_ty)?, part(signature_ty)?, part(extra_ty)?);
            match part(call_ty)?.data {
                ParsedData::Call(call) => Ux::Signed { address, signature, extra, call },
                _ => return Err(not_a_call(p)),
            }
        };
        if p != data.len() {
            *partial = Some(out);
            return Err(UxErr::Trailing { from: p });
        }
        Ok(out)
    }
}

pub fn sut_ux<M: AsCompleteMetadata<()>>(m: &M, data: &[u8]) -> Result<Ux, UxErr> {
    use external_memory_tools::BufferError;
    use substrate_parser::error::{ParserError, UncheckedExtrinsicError as U};
    use substrate_parser::unchecked_extrinsic::UncheckedExtrinsic as X;
    match substrate_parser::decode_as_unchecked_extrinsic::<&[u8], (), M>(&data, &mut (), m) {
        Ok(X::Signed { address, signature, extra, call }) => Ok(Ux::Signed { address, signature, extra, call }),
        Ok(X::Unsigned { call }) => Ok(Ux::Unsigned { call }),
        Err(e) => Err(match e {
            U::FormatNoCompact => UxErr::NoCompact,
            U::MetaStructure(x) => UxErr::Meta(meta_err(&x)),
            U::VersionMismatch { version_byte, version } => UxErr::Version { version_byte, version },
            U::UnexpectedCallTy { call_ty_id } => UxErr::CallTy(call_ty_id),
            U::Parsing(ParserError::SomeDataNotUsedBlob { from }) => UxErr::Unused { from },
            U::Parsing(ParserError::Buffer(BufferError::DataTooShort { position, minimal_length })) if position == data.len() && compact_parse(data, 32).is_some_and(|(n, s)| s + n as usize > data.len()) => {
                UxErr::Short { position, missing: minimal_length }
            }
            U::Parsing(_) => UxErr::Parsing,
        }),
    }
}
