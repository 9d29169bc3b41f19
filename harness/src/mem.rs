//! Data and types in an external memory that records and may fail.

use std::any::TypeId;
use std::fmt::{self, Debug, Display};
use std::sync::Arc;

use external_memory_tools::{AddressableBuffer, BufferError, ExternalMemory};
use frame_metadata::v14::StorageHasher;
use parity_scale_codec::{Decode, Encode};
use primitive_types::H256;
use scale_info::{form::PortableForm, interner::UntrackedSymbol, PortableRegistry, Type};
use substrate_parser::error::{RegistryError, RegistryInternalError};
use substrate_parser::traits::*;

pub use crate::job::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Req {
    /// start, length, of which buffer
    Read { at: usize, len: usize, buf: u8, granted: bool },
    Type { id: u32 },
    Limit { len: usize },
}

#[derive(Debug, PartialEq, Eq)]
pub struct Fault;

pub const FAULT: &str = "external-fault-marker";

impl Display for Fault {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{FAULT}")
    }
}

/// Memory cells, cut into pages; everything outside the data is poison.
#[derive(Debug)]
pub struct Mem {
    pub cells: Vec<u8>,
    pub page: usize,
    pub log: Vec<Req>,
    /// request at which the memory fails, and for how many requests
    pub fail_at: Option<usize>,
    pub fail_for: usize,
    /// requests so far; more than `cap` are too much work
    pub count: usize,
    pub bytes: usize,
    pub cap: usize,
    /// whether requests are written down
    pub keep: bool,
}

impl ExternalMemory for Mem {
    type ExternalMemoryError = Fault;
}

impl Mem {
    pub fn new(page: usize) -> Mem {
        Mem { cells: vec![0xA5; page], page, log: vec![], fail_at: None, fail_for: usize::MAX, count: 0, bytes: 0, cap: usize::MAX, keep: true }
    }

    pub fn store(&mut self, data: &[u8], id: u8) -> Buf {
        let start = self.cells.len();
        self.cells.extend_from_slice(data);
        // a full page of poison
        self.cells.extend(std::iter::repeat(0x5A).take(self.page));
        Buf { start, len: data.len(), id }
    }

    fn request(&mut self, r: Req) -> Result<(), Fault> {
        let k = self.count;
        self.count += 1;
        if self.count > self.cap {
            panic!("too much work: more than {} requests", self.cap);
        }
        if self.keep {
            self.log.push(r);
        }
        match self.fail_at {
            Some(f) if k >= f && k - f < self.fail_for => Err(Fault),
            _ => Ok(()),
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Buf {
    pub start: usize,
    pub len: usize,
    pub id: u8,
}

impl AddressableBuffer<Mem> for Buf {
    type ReadBuffer = Vec<u8>;
    fn total_len(&self) -> usize {
        self.len
    }
    fn read_slice(&self, m: &mut Mem, position: usize, slice_len: usize) -> Result<Vec<u8>, BufferError<Mem>> {
        let granted = position <= self.len && slice_len <= self.len - position;
        m.request(Req::Read { at: position, len: slice_len, buf: self.id, granted }).map_err(BufferError::External)?;
        if position > self.len {
            return Err(BufferError::OutOfRange { position, total_length: self.len });
        }
        if !granted {
            return Err(BufferError::DataTooShort { position, minimal_length: slice_len });
        }
        m.bytes += slice_len;
        // page by page
        let (mut a, b) = (self.start + position, self.start + position + slice_len);
        let mut out = Vec::with_capacity(slice_len);
        while a < b {
            let e = b.min((a / m.page + 1) * m.page);
            out.extend_from_slice(&m.cells[a..e]);
            a = e;
        }
        Ok(out)
    }
    fn limit_length(&self, new_len: usize) -> Result<Buf, BufferError<Mem>> {
        if new_len > self.len {
            return Err(BufferError::DataTooShort { position: 0, minimal_length: new_len });
        }
        Ok(Buf { len: new_len, ..*self })
    }
}

/// Types, each fetched when needed: as a copy or from its encoded form.
#[derive(Clone, Debug)]
pub struct MemReg {
    pub reg: Arc<PortableRegistry>,
    pub encoded: Option<Arc<Vec<Vec<u8>>>>,
}

impl MemReg {
    pub fn new(reg: Arc<PortableRegistry>, encode: bool) -> MemReg {
        let encoded = encode.then(|| Arc::new(reg.types.iter().map(|t| t.ty.encode()).collect()));
        MemReg { reg, encoded }
    }
}

impl ResolveType<Mem> for MemReg {
    fn resolve_ty(&self, id: u32, m: &mut Mem) -> Result<Type<PortableForm>, RegistryError<Mem>> {
        m.request(Req::Type { id }).map_err(RegistryError::External)?;
        let missing = RegistryError::Internal(RegistryInternalError::TypeNotResolved { id });
        match &self.encoded {
            Some(e) => e.get(id as usize).map(|b| Type::decode(&mut &b[..]).unwrap()).ok_or(missing),
            None => self.reg.types.get(id as usize).map(|t| t.ty.clone()).ok_or(missing),
        }
    }
}

#[derive(Clone, Debug)]
pub struct MemMeta {
    pub of: ArcMeta,
    pub reg: MemReg,
}

impl AsMetadata<Mem> for MemMeta {
    type TypeRegistry = MemReg;
    type MetaStructureError = String;
    fn types(&self) -> MemReg {
        self.reg.clone()
    }
    fn spec_name_version(&self) -> Result<SpecNameVersion, String> {
        self.of.spec.clone()
    }
    fn call_ty(&self) -> Result<UntrackedSymbol<TypeId>, String> {
        self.of.params.clone().map(|p| p.call_ty)
    }
    fn signed_extensions(&self) -> Result<Vec<SignedExtensionMetadata>, String> {
        Ok(self.of.exts.clone())
    }
}

impl AsCompleteMetadata<Mem> for MemMeta {
    fn extrinsic_type_params(&self) -> Result<ExtrinsicTypeParams, String> {
        self.of.params.clone()
    }
    fn extrinsic_version(&self) -> Result<u8, String> {
        Ok(self.of.version)
    }
}

/// Over plain slices.
pub fn plain(job: &Job, meta: &ArcMeta, data: &[u8], key: &[u8]) -> Out {
    do_job::<&[u8], (), ArcMeta>(job, &data, &key, &mut (), meta)
}

pub fn external(job: &Job, meta: &MemMeta, data: &[u8], key: &[u8], page: usize, fail: Option<(usize, usize)>) -> (Out, Mem) {
    let mut m = Mem::new(page);
    let d = m.store(data, 0);
    let k = m.store(key, 1);
    if let Some((at, n)) = fail {
        m.fail_at = Some(at);
        m.fail_for = n;
    }
    let o = do_job::<Buf, Mem, MemMeta>(job, &d, &k, &mut m, meta);
    (o, m)
}

/// As [`external`], but only counts requests, and panics at too many.
pub fn counted(job: &Job, meta: &MemMeta, data: &[u8], key: &[u8], cap: usize) -> (Out, usize, usize) {
    let mut m = Mem::new(256);
    let d = m.store(data, 0);
    let k = m.store(key, 1);
    m.cap = cap;
    m.keep = false;
    let o = do_job::<Buf, Mem, MemMeta>(job, &d, &k, &mut m, meta);
    (o, m.count, m.bytes)
}

/// The data a job works on, and whether a model says it is cheap.
pub struct JobCase {
    pub job: Job,
    pub meta: ArcMeta,
    pub data: Vec<u8>,
    pub key: Vec<u8>,
    pub note: String,
    /// the runtime, and whether it is seen through version 15
    pub rt: Option<(Rt, bool)>,
    /// number of the bundled metadata
    pub real: Option<usize>,
}

use crate::genreg::{instantiable, segs, Gen, Opts};
use crate::meta::{gen_real_tx, gen_rt, gen_rt_tx, marked, over_budget, real, shift, Model, Rt, RtOpts, TxCase, TxErr, UxErr, NAMES};
use crate::mutate::mutate;
use crate::props::c15::gen_body;
use crate::props::c16::gen_parts;
use crate::props::{c01, c11, c15};
use crate::store::{self, HASHERS};
use crate::sut::show_reg;
use crate::tape::Tape;
use crate::walk::{compact_bytes, ref_decode, Hi, Mark, RefErr};
use frame_metadata::v14::StorageEntryType;

fn damaged(t: &mut Tape, mut data: Vec<u8>, marks: &[Mark]) -> Vec<u8> {
    match t.weighted(&[5, 2, 1, 1]) {
        0 => {}
        1 => {
            mutate(t, &mut data, marks);
        }
        2 => {
            let k = t.below(data.len() + 1);
            data.truncate(k);
        }
        _ => {
            let n = t.range(1, 3);
            data.extend(t.bytes(n));
        }
    }
    data
}

/// Any entry point with any data; `None` when the data would take too long.
pub fn gen_job(t: &mut Tape, with_real: bool) -> Option<JobCase> {
    match t.weighted(&[10, 6, 3, 4, if with_real { 1 } else { 0 }]) {
        0 => {
            let c = c01::gen_case(t, Opts { calls: true, hints: true, ..Opts::default() }, Hi::None)?;
            let note = show_reg(&c.reg);
            let reg = Arc::new(c.reg);
            let mut data = damaged(t, c.data, &c.marks);
            let mut hint = Hi::None;
            let mut pos = 0;
            let job = match t.below(5) {
                0 | 1 => Job::All { id: c.id },
                2 => {
                    pos = t.below(4);
                    data = [t.bytes(pos), data].concat();
                    if t.chance(10) {
                        pos = data.len() + t.below(2);
                    }
                    Job::At { id: c.id, pos }
                }
                3 => {
                    let identifier = t.pick(c11::IDENTIFIERS).to_string();
                    hint = Hi::of_extension(&identifier);
                    Job::Extension { id: c.id, pos, identifier }
                }
                _ => Job::Husk { id: t.below(reg.types.len() + 1) as u32 },
            };
            if !matches!(job, Job::Husk { .. }) && ref_decode(&reg, c.id, &data, pos, hint).0 == Err(RefErr::Budget) {
                return None;
            }
            Some(JobCase { job, meta: bare(reg), data, key: vec![], note, rt: None, real: None })
        }
        1 => {
            let o = RtOpts { odd_exts: 10, odd_version: 2, odd_params: 0, odd_call: 16, ..RtOpts::default() };
            let (rt, tx, genesis) = gen_rt_tx(t, &o)?;
            let v15 = !t.chance(128);
            let meta = if v15 { rt.arc15() } else { rt.arc14() };
            let note = rt.show();
            let c = tx_job(t, &rt.model(), meta, tx, genesis, note)?;
            Some(JobCase { rt: Some((rt, v15)), ..c })
        }
        2 => {
            let rt = gen_rt(t, &RtOpts { odd_exts: 0, odd_version: 0, odd_params: 6, odd_call: 10, ..RtOpts::default() });
            let v15 = !t.chance(128);
            let meta = if v15 { rt.arc15() } else { rt.arc14() };
            let c = ux_job(t, &rt, meta)?;
            Some(JobCase { rt: Some((rt, v15)), ..c })
        }
        3 => storage_job(t),
        _ => {
            let i = t.below(NAMES.len());
            let r = real(i);
            let model = Model::of_real(r);
            if t.chance(128) {
                let (tx, genesis) = gen_real_tx(t, &model, 80)?;
                let c = tx_job(t, &model, r.arc.clone(), tx, genesis, format!("metadata {}", r.name))?;
                return Some(JobCase { real: Some(i), ..c });
            }
            let id = t.below(r.reg.types.len()) as u32;
            if !instantiable(&r.reg, id) {
                return None;
            }
            let v = model.value(t, id, Hi::None, 80)?;
            let data = damaged(t, v.data, &v.marks);
            if ref_decode(&r.reg, id, &data, 0, Hi::None).0 == Err(RefErr::Budget) {
                return None;
            }
            Some(JobCase { job: Job::All { id }, meta: r.arc.clone(), data, key: vec![], note: format!("metadata {}", r.name), rt: None, real: Some(i) })
        }
    }
}

fn tx_job(t: &mut Tape, model: &Model, meta: ArcMeta, tx: TxCase, genesis: Option<H256>, note: String) -> Option<JobCase> {
    let split = t.chance(200);
    let data = if split {
        let call = if t.chance(60) { damaged(t, tx.call.clone(), &tx.call_marks) } else { tx.call.clone() };
        marked(&call, &tx.ext)
    } else {
        [&tx.call[..], &tx.ext[..]].concat()
    };
    let marks: Vec<Mark> = if split { vec![] } else { tx.call_marks.iter().cloned().chain(shift(&tx.ext_marks, tx.call.len())).collect() };
    let data = damaged(t, data, &marks);
    let job = match (split, t.chance(128)) {
        (true, true) => Job::Tx { genesis },
        (true, false) => Job::Parts { genesis },
        _ => Job::TxUnmarked { genesis },
    };
    let late = if split {
        let call = Model::border(&data).ok().map(|(a, b)| model.call(&data[..b], a));
        over_budget(&model.transaction(&data, genesis)) || matches!(call, Some(Err(TxErr::Budget)))
    } else {
        model.transaction_unmarked(&data, genesis) == Err(TxErr::Budget)
    };
    (!late).then_some(JobCase { job, meta, data, key: vec![], note, rt: None, real: None })
}

fn ux_job(t: &mut Tape, rt: &Rt, meta: ArcMeta) -> Option<JobCase> {
    let model = rt.model();
    let p = meta.params.clone().map(|p| [p.address_ty.id, p.call_ty.id, p.signature_ty.id, p.extra_ty.id]);
    let mut data = match &p {
        Ok(p) => {
            let b = gen_body(t, &model, p, 100)?;
            let x = if t.chance(180) { c15::signed(&b, model.version) } else { c15::unsigned(&b, model.version) };
            let x = damaged(t, x, &[]);
            [&compact_bytes(x.len() as u128)[..], &x].concat()
        }
        Err(_) => t.bytes(8),
    };
    if t.chance(40) {
        mutate(t, &mut data, &[]);
    }
    if model.extrinsic(&p, &data).0 == Err(UxErr::Budget) {
        return None;
    }
    Some(JobCase { job: Job::Extrinsic, meta, data, key: vec![], note: rt.show(), rt: None, real: None })
}

fn storage_job(t: &mut Tape) -> Option<JobCase> {
    let mut g = Gen::new(t, Opts { max_types: 30, max_depth: 3, ..Opts::default() });
    let value = g.ty();
    let n = g.tape.weighted(&[2, 8, 4, 1]);
    let hashers: Vec<StorageHasher> = (0..n).map(|_| HASHERS[g.tape.weighted(&[2, 2, 5, 2, 2, 5, 3])].clone()).collect();
    let types: Vec<u32> = (0..n).map(|_| if g.tape.chance(100) { g.account_id() } else { g.ty() }).collect();
    let key_ty = if n == 1 { types[0] } else { g.add(segs(&[]), scale_info::TypeDefTuple { fields: types.iter().map(|i| sym(*i)).collect() }, vec![]) };
    let (reg, _) = g.finish();
    if !instantiable(&reg, value) || !instantiable(&reg, key_ty) {
        return None;
    }
    let costs = Arc::new(crate::walk::type_costs(&reg));
    let parts = gen_parts(t, &reg, &costs, &hashers, &types, 60)?;
    let mut key = [t.bytes(32), store::join(&parts)].concat();
    let v = c01::value_for(t, &reg, value, Hi::None, 80)?;
    let data = damaged(t, v.data, &v.marks);
    match t.weighted(&[4, 1, 1]) {
        0 => {}
        1 => {
            let k = t.below(key.len());
            key[k] ^= 1 << t.below(8);
        }
        _ => key = damaged(t, key, &[]),
    }
    let ty = if n == 0 && t.chance(200) { StorageEntryType::Plain(sym(value)) } else { StorageEntryType::Map { hashers: hashers.clone(), key: sym(key_ty), value: sym(value) } };
    let e = store::entry("E", ty, vec!["docs".into()]);
    let note = format!("{}{e:?}", show_reg(&reg));
    let late = store::model_entry(&reg, &e, &key, &data) == Err(store::StErr::Budget);
    let (job, late) = if t.chance(50) {
        let pos = if t.chance(200) { 32 } else { t.below(40) };
        let late = pos <= key.len() && store::model_key(&reg, &hashers, key_ty, &key, pos) == Err(store::StErr::Budget);
        (Job::Key { hashers, ty: key_ty, pos }, late || pos > key.len())
    } else {
        (Job::Entry { entry: e }, late)
    };
    (!late).then_some(JobCase { job, meta: bare(Arc::new(reg)), data, key, note, rt: None, real: None })
}

impl JobCase {
    pub fn show(&self) -> String {
        format!("{}\njob {:?}\ndata 0x{}\nkey 0x{}", self.note, self.job, hex::encode(&self.data), hex::encode(&self.key))
    }
    pub fn label(&self) -> &'static str {
        match self.job {
            Job::All { .. } => "all",
            Job::At { .. } => "at",
            Job::Extension { .. } => "extension",
            Job::Husk { .. } => "husk",
            Job::Tx { .. } => "transaction",
            Job::TxUnmarked { .. } => "unmarked",
            Job::Parts { .. } => "parts",
            Job::Extrinsic => "extrinsic",
            Job::Entry { .. } => "entry",
            Job::Key { .. } => "key",
        }
    }
}
