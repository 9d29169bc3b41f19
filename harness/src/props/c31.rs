//! C31: results depend on nothing but the arguments.

use std::collections::HashMap;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};

use parity_scale_codec::{Decode, Encode};

use crate::cards_ref::gen_specs;
use crate::chaos::chaos;
use crate::ensure;
use crate::job::{Meta, Sent};
use crate::mem::{gen_job, JobCase};
use crate::props::c28::src_of;
use crate::runner::{Ctx, Outcome, Property};
use crate::tape::Tape;

pub static P: Property = Property {
    id: "C31",
    rule: "a history of decodings of two to four jobs (unrelated ones, ones that differ in little, equal ones; whole and damaged metadata; any entry point), on one to three threads of one fresh process, against each job alone in a fresh process of its own; non-trivial = at least two jobs with different results in the history",
    assumptions: &["a fresh process has no memory of earlier ones"],
    tape_len: 2800,
    quick: 16_000,
    thorough: 600_000,
    run,
    enumerated: None,
    known_demos: &[],
    must_reach: &["threads", "one thread", "sibling", "other metadata", "other specs", "shared metadata", "value", "error", "repeated", "many rounds", "v14", "v15", "bare"],
};

#[derive(Clone, Debug, Encode, Decode)]
struct History {
    jobs: Vec<Sent>,
    /// jobs done by each thread, in order
    orders: Vec<Vec<u8>>,
    /// how often each order is gone through, time permitting
    rounds: u16,
    /// metadata objects live on between jobs with the same metadata
    share: bool,
}

fn one(s: &Sent, m: &Meta) -> String {
    catch_unwind(AssertUnwindSafe(|| s.run(m))).unwrap_or_else(|_| "panic".into())
}

/// Results of each job that differ from the earlier ones of the same job in the
/// same thread, with the step.
type Seen = Vec<(u8, u32, String)>;

fn thread(h: &History, order: &[u8]) -> Seen {
    let end = Instant::now() + Duration::from_millis(100);
    let mut kept: HashMap<Vec<u8>, Meta> = HashMap::new();
    let mut seen: Seen = vec![];
    for (n, i) in (0..h.rounds).flat_map(|_| order).enumerate() {
        if n >= order.len() && Instant::now() > end {
            break;
        }
        let s = &h.jobs[*i as usize];
        let text = if h.share { one(s, kept.entry(s.src.encode()).or_insert_with(|| Meta::new(&s.src))) } else { one(s, &Meta::new(&s.src)) };
        if !seen.iter().any(|x| x.0 == *i && x.2 == text) {
            seen.push((*i, n as u32, text));
        }
    }
    seen
}

/// What the fresh process does.
pub fn main() -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let mut b = vec![];
    std::io::stdin().read_to_end(&mut b).unwrap();
    let h = Arc::new(History::decode(&mut &b[..]).unwrap());
    let start = Arc::new(Barrier::new(h.orders.len()));
    let threads: Vec<_> = (0..h.orders.len())
        .map(|k| {
            let (h, start) = (h.clone(), start.clone());
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    start.wait();
                    thread(&h, &h.orders[k])
                })
                .unwrap()
        })
        .collect();
    let out: Vec<Seen> = threads.into_iter().map(|t| t.join().unwrap()).collect();
    std::io::stdout().write_all(&out.encode()).unwrap();
    0
}

fn fresh(h: &History) -> Option<Vec<Seen>> {
    let harness = |e: std::io::Error| -> ! {
        eprintln!("harness error: no fresh process: {e}");
        std::process::exit(2)
    };
    let mut c = Command::new(std::env::current_exe().unwrap())
        .arg("history")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| harness(e));
    let mut to = c.stdin.take().unwrap();
    let _ = to.write_all(&h.encode());
    drop(to);
    let mut out = vec![];
    c.stdout.take().unwrap().read_to_end(&mut out).unwrap_or_else(|e| harness(e));
    if !c.wait().unwrap_or_else(|e| harness(e)).success() {
        return None;
    }
    Decode::decode(&mut &out[..]).ok()
}

fn sub(t: &mut Tape, n: usize) -> Vec<u8> {
    (0..n).map(|_| t.u8()).collect()
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let n = t.range(2, 4);
    let base = sub(t, 700);
    let (mut specs, mut name) = gen_specs(t);
    let mut jobs: Vec<(Sent, String)> = vec![];
    let mut bytes = base.clone();
    for k in 0..n {
        let kind = if k == 0 { 0 } else { t.weighted(&[3, 8, 5, 3]) };
        match kind {
            // the same but for a few decisions
            1 => {
                bytes = base.clone();
                for _ in 0..t.range(1, 3) {
                    let at = t.below(bytes.len().min(250));
                    bytes[at] = t.u8();
                }
            }
            0 if k > 0 => bytes = sub(t, 500),
            3 => (specs, name) = gen_specs(t),
            _ => bytes = base.clone(),
        }
        let Some(c) = gen_job(&mut Tape::new(&bytes), false) else { continue };
        let c: JobCase = if kind == 2 {
            match chaos(t, c) {
                Some(c) => c,
                None => continue,
            }
        } else {
            c
        };
        if k > 0 {
            ctx.label(match kind {
                0 => "unrelated",
                1 => "sibling",
                2 => "other metadata",
                _ => "other specs",
            });
        }
        let src = src_of(&c);
        ctx.label(match src {
            crate::job::Src::V14(_) => "v14",
            crate::job::Src::V15(_) => "v15",
            _ => "bare",
        });
        jobs.push((Sent::new(src, &c.job, &c.data, &c.key, &specs, &name), c.show()));
    }
    if jobs.len() < 2 {
        return ctx.discard();
    }
    let sent: Vec<Sent> = jobs.iter().map(|j| j.0.clone()).collect();
    let threads = if t.chance(100) { t.range(2, 3) } else { 1 };
    let orders: Vec<Vec<u8>> = (0..threads)
        .map(|_| {
            let mut o: Vec<u8> = (0..sent.len() as u8).collect();
            for i in (1..o.len()).rev() {
                o.swap(i, t.below(i + 1));
            }
            for _ in 0..t.below(4) {
                o.push(t.below(sent.len()) as u8);
            }
            o
        })
        .collect();
    let rounds = match t.weighted(&[6, 2, 2]) {
        0 => 1,
        1 => t.range(2, 10) as u16,
        _ => t.range(30, 300) as u16,
    };
    let share = t.chance(128);
    ctx.label(if threads > 1 { "threads" } else { "one thread" });
    ctx.label_if(rounds >= 30, "many rounds");
    ctx.label_if(share, "shared metadata");
    ctx.label_if(orders.iter().any(|o| o.len() > sent.len()), "repeated");
    ctx.describe(|| format!("{}\norders {orders:?} rounds {rounds} shared metadata {share}", jobs.iter().enumerate().map(|(i, j)| format!("job {i}: {}", j.1)).collect::<Vec<_>>().join("\n")));
    let h = History { jobs: sent, orders, rounds, share };
    let mut alone = vec![];
    for s in &h.jobs {
        match fresh(&History { jobs: vec![s.clone()], orders: vec![vec![0]], rounds: 1, share: false }) {
            Some(mut r) => alone.push(r.remove(0).remove(0).2),
            // another property's matter
            None => return ctx.discard(),
        }
    }
    ctx.eval();
    ctx.label_if(alone.iter().any(|a| a.contains("\nerror ")), "error");
    ctx.label_if(alone.iter().any(|a| !a.contains("\nerror ")), "value");
    if alone.iter().any(|a| *a != alone[0]) {
        ctx.interesting(&[&h.encode()]);
    }
    let Some(got) = fresh(&h) else {
        ensure!(false, "crash", "the history ends the process, none of its jobs alone does");
        return Ok(());
    };
    for (k, (order, got)) in h.orders.iter().zip(&got).enumerate() {
        ensure!(order.iter().all(|i| got.iter().any(|x| x.0 == *i)), "length", "results missing");
        for (i, n, text) in got {
            let want = &alone[*i as usize];
            if text != want {
                let at = want.bytes().zip(text.bytes()).take_while(|(a, b)| a == b).count();
                let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(200).min(s.len())..(at + 400).min(s.len())]).to_string();
                ensure!(false, "history", "thread {k}, step {n}, job {i}\nalone, from {at}: …{}\nin the history: …{}", cut(want), cut(text));
            }
        }
    }
    Ok(())
}
