//! One decoding job over any memory; also compiled for other platforms.

use std::any::TypeId;
use std::fmt::{Debug, Display};
use std::sync::Arc;

use external_memory_tools::{AddressableBuffer, BufferError, ExternalMemory};
use frame_metadata::v14::{StorageEntryMetadata, StorageHasher};
use primitive_types::H256;
use scale_info::{form::PortableForm, interner::UntrackedSymbol, PortableRegistry, Type};
use substrate_parser::cards::{Call, ExtendedData, FieldData, ParsedData};
use substrate_parser::decoding_sci::{decode_with_type, husk_type, Ty};
use substrate_parser::error::RegistryError;
use substrate_parser::propagated::{Checker, Propagated};
use substrate_parser::storage_data::{KeyData, Storage};
use substrate_parser::traits::*;
use substrate_parser::unchecked_extrinsic::UncheckedExtrinsic as X;
use substrate_parser::*;

pub fn sym(id: u32) -> UntrackedSymbol<TypeId> {
    UntrackedSymbol::from(id)
}

// ---------------------------------------------------------- shared registry

/// A registry that is not copied on every access.
#[derive(Clone, Debug)]
pub struct ArcReg(pub Arc<PortableRegistry>);

impl<E: ExternalMemory> ResolveType<E> for ArcReg {
    fn resolve_ty(&self, id: u32, ext: &mut E) -> Result<Type<PortableForm>, RegistryError<E>> {
        self.0.resolve_ty(id, ext)
    }
}

/// Metadata with a shared registry and answers computed once from the real
/// implementations.
#[derive(Clone, Debug)]
pub struct ArcMeta {
    pub reg: ArcReg,
    pub spec: Result<SpecNameVersion, String>,
    pub params: Result<ExtrinsicTypeParams, String>,
    pub exts: Vec<SignedExtensionMetadata>,
    pub version: u8,
}

impl<E: ExternalMemory> AsMetadata<E> for ArcMeta {
    type TypeRegistry = ArcReg;
    type MetaStructureError = String;
    fn types(&self) -> ArcReg {
        self.reg.clone()
    }
    fn spec_name_version(&self) -> Result<SpecNameVersion, String> {
        self.spec.clone()
    }
    fn call_ty(&self) -> Result<UntrackedSymbol<TypeId>, String> {
        self.params.clone().map(|p| p.call_ty)
    }
    fn signed_extensions(&self) -> Result<Vec<SignedExtensionMetadata>, String> {
        Ok(self.exts.clone())
    }
}

impl<E: ExternalMemory> AsCompleteMetadata<E> for ArcMeta {
    fn extrinsic_type_params(&self) -> Result<ExtrinsicTypeParams, String> {
        self.params.clone()
    }
    fn extrinsic_version(&self) -> Result<u8, String> {
        Ok(self.version)
    }
}

// --------------------------------------------------------- one job, any memory

#[derive(Clone, Debug)]
pub enum Job {
    All { id: u32 },
    At { id: u32, pos: usize },
    Extension { id: u32, pos: usize, identifier: String },
    Husk { id: u32 },
    Tx { genesis: Option<H256> },
    TxUnmarked { genesis: Option<H256> },
    Parts { genesis: Option<H256> },
    Extrinsic,
    Entry { entry: StorageEntryMetadata<PortableForm> },
    Key { hashers: Vec<StorageHasher>, ty: u32, pos: usize },
}

#[derive(Debug, PartialEq)]
pub enum Piece {
    Data(ExtendedData),
    Call(Call),
    Storage(Storage),
    Key(KeyData),
    Text(String),
}

/// All values and all errors of a job.
#[derive(Debug, PartialEq)]
pub struct Out {
    pub pieces: Vec<Piece>,
    pub errors: Vec<String>,
    pub pos: usize,
}

/// Between the two forms of an error.
pub const BETWEEN: &str = " ¦ ";

pub fn do_job<B, E, M>(job: &Job, data: &B, key: &B, ext: &mut E, meta: &M) -> Out
where
    B: AddressableBuffer<E>,
    E: ExternalMemory,
    M: AsCompleteMetadata<E>,
{
    let mut o = Out { pieces: vec![], errors: vec![], pos: 0 };
    let reg = meta.types();
    fn err<X: Debug + Display>(e: X) -> String {
        // both forms
        format!("{e:?}{BETWEEN}{e}")
    }
    macro_rules! one {
        ($k:ident, $r:expr) => {
            match $r {
                Ok(x) => o.pieces.push(Piece::$k(x)),
                Err(e) => o.errors.push(err(e)),
            }
        };
    }
    match job {
        Job::All { id } => one!(Data, decode_all_as_type::<B, E, M>(&sym(*id), data, ext, &reg)),
        Job::At { id, pos } => {
            o.pos = *pos;
            one!(Data, decode_as_type_at_position::<B, E, M>(&sym(*id), data, ext, &reg, &mut o.pos))
        }
        Job::Extension { id, pos, identifier } => {
            o.pos = *pos;
            let m = SignedExtensionMetadata { identifier: identifier.clone(), ty: sym(*id), additional_signed: sym(*id) };
            one!(Data, decode_with_type::<B, E, M>(&Ty::Symbol(&sym(*id)), data, ext, &mut o.pos, &reg, Propagated::from_ext_meta(&m)))
        }
        Job::Husk { id } => match husk_type::<E, M>(&sym(*id), &reg, ext, Checker::new()) {
            Ok(h) => o.pieces.push(Piece::Text(format!("{} {:?} {:?}", h.id, h.ty, h.info))),
            Err(e) => o.errors.push(err(e)),
        },
        Job::Tx { genesis } => match parse_transaction::<B, E, M>(data, ext, meta, *genesis) {
            Ok(p) => {
                o.pieces.extend(p.extensions.into_iter().map(Piece::Data));
                one!(Call, p.call_result)
            }
            Err(e) => o.errors.push(err(e)),
        },
        Job::TxUnmarked { genesis } => match parse_transaction_unmarked::<B, E, M>(data, ext, meta, *genesis) {
            Ok(p) => {
                o.pieces.push(Piece::Call(p.call));
                o.pieces.extend(p.extensions.into_iter().map(Piece::Data));
            }
            Err(e) => o.errors.push(err(e)),
        },
        Job::Parts { genesis } => match MarkedData::<B, E, M>::mark(data, ext) {
            Ok(m) => {
                o.pieces.push(Piece::Text(format!("{} {} {}", m.call_start(), m.extensions_start(), m.data_no_extensions().total_len())));
                match decode_extensions::<B, E, M>(&m, ext, meta, *genesis) {
                    Ok(v) => o.pieces.extend(v.into_iter().map(Piece::Data)),
                    Err(e) => o.errors.push(err(e)),
                }
                one!(Call, decode_as_call::<B, E, M>(&m, ext, meta))
            }
            Err(e) => o.errors.push(err(e)),
        },
        Job::Extrinsic => match decode_as_unchecked_extrinsic::<B, E, M>(data, ext, meta) {
            Ok(X::Signed { address, signature, extra, call }) => o.pieces.extend([Piece::Data(address), Piece::Data(signature), Piece::Data(extra), Piece::Call(call)]),
            Ok(X::Unsigned { call }) => o.pieces.push(Piece::Call(call)),
            Err(e) => o.errors.push(err(e)),
        },
        Job::Entry { entry } => one!(Storage, decode_as_storage_entry::<B, E, M>(key, data, ext, entry, &reg)),
        Job::Key { hashers, ty, pos } => one!(Key, storage_data::process_key_mapped::<B, E, M>(hashers, &sym(*ty), key, ext, *pos, &reg)),
    }
    o
}


// ------------------------------------------------- jobs for other platforms

use frame_metadata::v14::RuntimeMetadataV14;
use frame_metadata::v15::RuntimeMetadataV15;
use parity_scale_codec::{Decode, Encode};

/// Registry alone, as metadata.
pub fn bare(reg: Arc<PortableRegistry>) -> ArcMeta {
    ArcMeta { reg: ArcReg(reg), spec: Err("none".into()), params: Err("none".into()), exts: vec![], version: 4 }
}

/// Metadata in encoded form.
#[derive(Clone, Debug, Encode, Decode)]
pub enum Src {
    Bare(Vec<u8>),
    V14(Vec<u8>),
    V15(Vec<u8>),
    /// kept from an earlier message
    Kept(u32),
}

pub enum Meta {
    Bare(ArcMeta),
    V14(RuntimeMetadataV14),
    V15(RuntimeMetadataV15),
}

impl Meta {
    pub fn new(s: &Src) -> Meta {
        match s {
            Src::Bare(b) => Meta::Bare(bare(Arc::new(PortableRegistry::decode(&mut &b[..]).unwrap()))),
            Src::V14(b) => Meta::V14(RuntimeMetadataV14::decode(&mut &b[..]).unwrap()),
            Src::V15(b) => Meta::V15(RuntimeMetadataV15::decode(&mut &b[..]).unwrap()),
            Src::Kept(_) => unreachable!(),
        }
    }
}

/// A job with its data, as sent.
#[derive(Clone, Debug, Encode, Decode)]
pub struct Sent {
    pub src: Src,
    pub kind: u8,
    pub id: u32,
    pub pos: u64,
    pub identifier: String,
    pub genesis: Option<[u8; 32]>,
    pub hashers: Vec<StorageHasher>,
    pub entry: Option<StorageEntryMetadata<PortableForm>>,
    pub data: Vec<u8>,
    pub key: Vec<u8>,
    pub prefix: u16,
    pub decimals: u8,
    pub unit: String,
    pub spec_name: String,
    /// every read of this byte fails
    pub hole: Option<u64>,
}

/// Memory of which one byte can not be read.
#[derive(Debug)]
pub struct Holed;

pub const HOLE: &str = "external-hole-marker";

impl ExternalMemory for Holed {
    type ExternalMemoryError = String;
}

#[derive(Clone, Debug)]
pub struct View {
    bytes: Arc<Vec<u8>>,
    len: usize,
    hole: usize,
}

impl AddressableBuffer<Holed> for View {
    type ReadBuffer = Vec<u8>;
    fn total_len(&self) -> usize {
        self.len
    }
    fn read_slice(&self, _: &mut Holed, position: usize, len: usize) -> Result<Vec<u8>, BufferError<Holed>> {
        if position > self.len {
            return Err(BufferError::OutOfRange { position, total_length: self.len });
        }
        if len > self.len - position {
            return Err(BufferError::DataTooShort { position, minimal_length: len });
        }
        if (position..position + len).contains(&self.hole) {
            return Err(BufferError::External(HOLE.to_string()));
        }
        Ok(self.bytes[position..position + len].to_vec())
    }
    fn limit_length(&self, len: usize) -> Result<View, BufferError<Holed>> {
        if len > self.len {
            return Err(BufferError::DataTooShort { position: 0, minimal_length: len });
        }
        Ok(View { len, ..self.clone() })
    }
}

#[derive(Clone, Debug, Encode, Decode)]
pub enum Message {
    Keep(u32, Src),
    Run(Box<Sent>),
}

impl Sent {
    pub fn new(src: Src, job: &Job, data: &[u8], key: &[u8], specs: &ShortSpecs, spec_name: &str) -> Sent {
        let mut s = Sent {
            src,
            kind: 0,
            id: 0,
            pos: 0,
            identifier: String::new(),
            genesis: None,
            hashers: vec![],
            entry: None,
            data: data.to_vec(),
            key: key.to_vec(),
            prefix: specs.base58prefix,
            decimals: specs.decimals,
            unit: specs.unit.clone(),
            spec_name: spec_name.into(),
            hole: None,
        };
        match job {
            Job::All { id } => s.id = *id,
            Job::At { id, pos } => (s.kind, s.id, s.pos) = (1, *id, *pos as u64),
            Job::Extension { id, pos, identifier } => (s.kind, s.id, s.pos, s.identifier) = (2, *id, *pos as u64, identifier.clone()),
            Job::Husk { id } => (s.kind, s.id) = (3, *id),
            Job::Tx { genesis } => (s.kind, s.genesis) = (4, genesis.map(|g| g.0)),
            Job::TxUnmarked { genesis } => (s.kind, s.genesis) = (5, genesis.map(|g| g.0)),
            Job::Parts { genesis } => (s.kind, s.genesis) = (6, genesis.map(|g| g.0)),
            Job::Extrinsic => s.kind = 7,
            Job::Entry { entry } => (s.kind, s.entry) = (8, Some(entry.clone())),
            Job::Key { hashers, ty, pos } => (s.kind, s.hashers, s.id, s.pos) = (9, hashers.clone(), *ty, *pos as u64),
        }
        s
    }

    pub fn job(&self) -> Job {
        let (id, pos, genesis) = (self.id, self.pos as usize, self.genesis.map(H256));
        match self.kind {
            0 => Job::All { id },
            1 => Job::At { id, pos },
            2 => Job::Extension { id, pos, identifier: self.identifier.clone() },
            3 => Job::Husk { id },
            4 => Job::Tx { genesis },
            5 => Job::TxUnmarked { genesis },
            6 => Job::Parts { genesis },
            7 => Job::Extrinsic,
            8 => Job::Entry { entry: self.entry.clone().unwrap() },
            _ => Job::Key { hashers: self.hashers.clone(), ty: self.id, pos },
        }
    }

    /// Everything that a user may see of the result, as text.
    pub fn run(&self, m: &Meta) -> String {
        let specs = ShortSpecs { base58prefix: self.prefix, decimals: self.decimals, unit: self.unit.clone() };
        match m {
            Meta::Bare(m) => self.run_with(m, &specs),
            Meta::V14(m) => about(m) + &self.run_with(m, &specs),
            Meta::V15(m) => about(m) + &self.run_with(m, &specs),
        }
    }

    fn run_with<M: AsCompleteMetadata<()> + AsCompleteMetadata<Holed>>(&self, m: &M, specs: &ShortSpecs) -> String {
        let (data, key) = (&self.data[..], &self.key[..]);
        let o = match self.hole {
            None => do_job::<&[u8], (), M>(&self.job(), &data, &key, &mut (), m),
            Some(hole) => {
                let view = |b: &[u8]| View { bytes: Arc::new(b.to_vec()), len: b.len(), hole: hole as usize };
                do_job::<View, Holed, M>(&self.job(), &view(data), &view(key), &mut Holed, m)
            }
        };
        let mut s = format!("at {}\n", o.pos);
        for e in &o.errors {
            s += &format!("error {e}\n");
        }
        for p in &o.pieces {
            s += &without_addresses(&format!("{p:?}\n"));
            let cards = match p {
                Piece::Data(d) if pictures(&d.data) > MANY_PICTURES => vec![],
                Piece::Call(c) if call_pictures(c) > MANY_PICTURES => vec![],
                Piece::Storage(s) if pictures(&s.value.data) > MANY_PICTURES => vec![],
                Piece::Data(d) => d.card(0, true, specs, &self.spec_name),
                Piece::Call(c) => c.card(1, specs, &self.spec_name),
                Piece::Storage(s) => s.value.card(2, false, specs, &self.spec_name),
                _ => vec![],
            };
            for c in cards {
                s += &c.show();
                s += "\n";
                s += &c.show_with_docs();
                s += "\n";
            }
        }
        s
    }
}

fn about<M: AsCompleteMetadata<()>>(m: &M) -> String {
    fn t<T: Debug, E: Debug>(r: Result<T, E>) -> String {
        match r {
            Ok(x) => format!("{x:?}\n"),
            Err(e) => format!("error {e:?}\n"),
        }
    }
    t(m.spec_name_version().map(|s| (s.printed_spec_version, s.spec_name)))
        + &t(m.call_ty().map(|s| s.id))
        + &t(m.signed_extensions().map(|v| v.into_iter().map(|e| (e.identifier, e.ty.id, e.additional_signed.id)).collect::<Vec<_>>()))
        + &t(m.extrinsic_type_params().map(|p| [p.address_ty.id, p.call_ty.id, p.signature_ty.id, p.extra_ty.id]))
        + &t(m.extrinsic_version())
}

/// The debug text of bit sequences tells where in memory they lie.
fn without_addresses(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(a) = rest.find("BitVec<") {
        out += &rest[..a];
        rest = &rest[a..];
        match rest.find(" } ") {
            Some(b) if rest[..b].contains("addr: 0x") => rest = &rest[b + 3..],
            _ => {
                out += "BitVec<";
                rest = &rest[7..];
            }
        }
    }
    out + rest
}

/// Number of things with a picture, each of which takes some milliseconds.
pub fn pictures(d: &ParsedData) -> usize {
    use ParsedData as D;
    let fields = |f: &[FieldData]| f.iter().map(|x| pictures(&x.data.data)).sum();
    match d {
        D::Id(_) | D::PublicEd25519(_) | D::PublicSr25519(_) | D::PublicEcdsa(_) => 1,
        D::Composite(f) => fields(f),
        D::Variant(v) => fields(&v.fields),
        D::Call(c) => fields(&c.0.fields),
        D::Event(c) => fields(&c.0.fields),
        D::Tuple(v) => v.iter().map(|x| pictures(&x.data)).sum(),
        D::SequenceRaw(s) => s.data.iter().map(pictures).sum(),
        _ => 0,
    }
}

pub const MANY_PICTURES: usize = 80;

pub fn call_pictures(c: &Call) -> usize {
    c.0.fields.iter().map(|x| pictures(&x.data.data)).sum()
}
