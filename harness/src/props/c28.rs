//! C28: a 32-bit platform without the standard library gives the same results.

use std::cell::RefCell;
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::OnceLock;

use parity_scale_codec::Encode;

use crate::cards_ref::gen_specs;
use crate::chaos::chaos;
use crate::ensure;
use crate::job::{Message, HOLE, Meta, Sent, Src};
use crate::mem::*;
use crate::meta::{real, RealMeta, NAMES};
use crate::runner::{Ctx, Outcome, Property};
use crate::tape::Tape;

pub static P: Property = Property {
    id: "C28",
    rule: "any entry point on valid, damaged and arbitrary data of generated (whole and damaged) and bundled metadata, run natively with \"std\" and in a 32-bit wasm build without it; non-trivial = the reported text has at least 60 characters",
    assumptions: &["wasm32-unknown-unknown in node stands for 32-bit platforms"],
    tape_len: 2600,
    quick: 200_000,
    thorough: 8_000_000,
    run,
    enumerated: None,
    known_demos: &[],
    must_reach: &["all", "at", "extension", "husk", "transaction", "unmarked", "parts", "extrinsic", "entry", "key", "v14", "v15", "real", "value", "error", "damaged types", "bits", "long length", "long length of all", "failing memory"],
};

struct Wasm {
    _child: Child,
    to: ChildStdin,
    from: ChildStdout,
    kept: Vec<bool>,
}

impl Drop for Wasm {
    fn drop(&mut self) {
        let _ = self._child.kill();
        let _ = self._child.wait();
    }
}

fn root() -> PathBuf {
    std::env::current_exe().unwrap().ancestors().nth(3).unwrap().to_path_buf()
}

impl Wasm {
    fn start() -> Wasm {
        let r = root();
        // node makes the standard files non-blocking, others not
        let mut c = Command::new("sh")
            .args(["-c", "exec node --disable-wasm-trap-handler \"$@\" 3<&0 4>&1 </dev/null >/dev/null", "sh"])
            .arg(r.join("wasm/run.js"))
            .arg(r.join("target/wasm/pbt_wasm.wasm"))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("cannot start node");
        let (to, from) = (c.stdin.take().unwrap(), c.stdout.take().unwrap());
        Wasm { _child: c, to, from, kept: vec![false; NAMES.len()] }
    }

    fn ask(&mut self, m: &Message) -> std::io::Result<String> {
        let b = m.encode();
        self.to.write_all(&[&(b.len() as u32).to_le_bytes()[..], &b].concat())?;
        self.to.flush()?;
        let mut n = [0; 4];
        self.from.read_exact(&mut n)?;
        let mut out = vec![0; u32::from_le_bytes(n) as usize];
        self.from.read_exact(&mut out)?;
        Ok(String::from_utf8(out).unwrap())
    }
}

thread_local! {
    static WASM: RefCell<Option<Wasm>> = const { RefCell::new(None) };
}

fn in_wasm(s: &Sent) -> String {
    WASM.with(|w| {
        let mut w = w.borrow_mut();
        let w = w.get_or_insert_with(Wasm::start);
        if let Src::Kept(i) = s.src {
            if !w.kept[i as usize] {
                w.ask(&Message::Keep(i, real_src(i as usize))).expect("node does not answer");
                w.kept[i as usize] = true;
            }
        }
        // an infrastructure failure must not look like a finding
        match w.ask(&Message::Run(Box::new(s.clone()))) {
            Ok(x) => x,
            Err(e) => {
                eprintln!("harness error: node does not answer: {e}");
                std::process::exit(2)
            }
        }
    })
}

fn real_src(i: usize) -> Src {
    match &real(i).meta {
        RealMeta::V14(m) => Src::V14(m.encode()),
        RealMeta::V15(m) => Src::V15(m.encode()),
    }
}

fn real_meta(i: usize) -> &'static Meta {
    static M: OnceLock<Vec<OnceLock<Meta>>> = OnceLock::new();
    M.get_or_init(|| (0..NAMES.len()).map(|_| OnceLock::new()).collect())[i].get_or_init(|| Meta::new(&real_src(i)))
}

/// The metadata of a case, encoded.
pub fn src_of(c: &JobCase) -> Src {
    match (&c.real, &c.rt) {
        (Some(i), _) => Src::Kept(*i as u32),
        (_, Some((rt, v15))) => {
            let mut rt = rt.clone();
            rt.reg = (*c.meta.reg.0).clone();
            if *v15 {
                Src::V15(rt.v15().encode())
            } else {
                Src::V14(rt.v14().encode())
            }
        }
        _ => Src::Bare(c.meta.reg.0.encode()),
    }
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let (specs, name) = gen_specs(t);
    let Some(c) = gen_job(t, true) else { return ctx.discard() };
    let broken = c.real.is_none() && t.chance(60);
    let mut c = if broken {
        match chaos(t, c) {
            Some(c) => c,
            None => return ctx.discard(),
        }
    } else {
        c
    };
    // lengths close to what 32 bits hold
    if t.chance(12) {
        let x: &[u8] = *t.pick(&[&[0x03, 0xff, 0xff, 0xff, 0xff][..], &[0x03, 0xfb, 0xff, 0xff, 0xff], &[0x03, 0xfa, 0xff, 0xff, 0xff], &[0x03, 0, 0, 0, 0x80], &[0xfe, 0xff, 0xff, 0xff], &[0x03, 0xfc, 0xff, 0xff, 0xff]]);
        let whole = matches!(c.job, Job::Tx { .. } | Job::Parts { .. } | Job::Extrinsic);
        let k = if whole { c.data.len().min(1) } else { t.below(c.data.len() + 1) };
        let front = if k == 1 { 0 } else { k };
        c.data.splice(front..k, x.iter().copied());
        if whole {
            // refused before anything is decoded
            ctx.label("long length of all");
        } else if c.real.is_none() {
            // nothing may be made of elements without data
            let mut r = (*c.meta.reg.0).clone();
            if !crate::chaos::tame(&mut r) || r != *c.meta.reg.0 {
                return ctx.discard();
            }
        } else {
            return ctx.discard();
        }
        ctx.label("long length");
    }
    ctx.label(c.label());
    ctx.label_if(broken, "damaged types");
    let src = src_of(&c);
    ctx.label(match src {
        Src::Kept(_) => "real",
        Src::V14(_) => "v14",
        Src::V15(_) => "v15",
        Src::Bare(_) => "bare",
    });
    ctx.describe(|| c.show());
    let mut s = Sent::new(src, &c.job, &c.data, &c.key, &specs, &name);
    if t.chance(40) {
        s.hole = Some(t.below(c.data.len().max(c.key.len()) + 1) as u64);
    }
    ctx.eval();
    let want = match &s.src {
        Src::Kept(i) => s.run(real_meta(*i as usize)),
        src => s.run(&Meta::new(src)),
    };
    ctx.label(if want.contains("\nerror ") { "error" } else { "value" });
    ctx.label_if(want.contains("BitVec"), "bits");
    if want.len() >= 60 {
        ctx.interesting(&[want.as_bytes(), format!("{:?}", c.job).as_bytes(), &c.data, &c.key]);
    }
    let got = in_wasm(&s);
    ctx.label_if(s.hole.is_some() && want.contains(HOLE), "failing memory");
    // bit sequences are read in pieces there: the hole may be met before the end
    if s.hole.is_some() && want.contains("DataTooShort") && got.contains(HOLE) {
        ctx.label("hole met first");
        return Ok(());
    }
    if got != want {
        let at = want.bytes().zip(got.bytes()).take_while(|(a, b)| a == b).count();
        let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(200).min(s.len())..(at + 600).min(s.len())]).to_string();
        ensure!(false, "platform", "{}\nspecs {specs:?} unreadable byte {:?}\nnative, with std, from {at}: …{}\n32-bit, without std: …{}", c.show(), s.hole, cut(&want), cut(&got));
    }
    Ok(())
}
