//! C19: name and version from the Version constant of System.

use substrate_parser::traits::AsMetadata;

use crate::genreg::Opts;
use crate::meta::*;
use crate::runner::{Ctx, Outcome, Property};
use crate::tape::Tape;
use crate::{ensure, fail};

pub static P: Property = Property {
    id: "C19",
    rule: "generated version constants (any order, number and types of fields, missing, doubled, renamed, undecodable) in generated pallet lists, in both metadata versions, and the bundled metadata; non-trivial = a constant of at least 2 bytes",
    assumptions: &[],
    tape_len: 900,
    quick: 700_000,
    thorough: 40_000_000,
    run,
    enumerated: Some((NAMES.len() as u64, enumerated)),
    known_demos: &[],
    must_reach: &[
        "found",
        "NoSystemPallet",
        "NoVersionInConstants",
        "RuntimeVersionNotDecodeable",
        "UnexpectedRuntimeVersionFormat",
        "NoSpecVersionIdentifier",
        "SpecVersionIdentifierTwice",
        "NoSpecNameIdentifier",
        "SpecNameIdentifierTwice",
        "wide version",
    ],
};

fn answer<M: AsMetadata<()>>(m: &M) -> Result<(String, String), String> {
    m.spec_name_version().map(|x| (x.spec_name, x.printed_spec_version)).map_err(|e| meta_err(&e))
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    let o = RtOpts { odd_exts: 0, odd_version: 130, odd_params: 0, odd_call: 0, more_exts: 1, gen: Opts { max_types: 3, max_depth: 1, ..Opts::default() } };
    let mut rt = gen_rt(t, &o);
    let v = t.uint(128);
    let cut = t.chance(20);
    rt.set_spec(v, cut);
    if t.chance(30) {
        // damage in the constant
        let mut p = Vec::new();
        for (i, x) in rt.pallets.iter().enumerate() {
            for j in 0..x.constants.len() {
                p.push((i, j));
            }
        }
        let (i, j) = p[t.below(p.len())];
        crate::mutate::mutate(t, &mut rt.pallets[i].constants[j].value, &[]);
    }
    let want = rt.spec_model();
    match &want {
        Ok((_, v)) => {
            ctx.label("found");
            ctx.label_if(v.len() > 10, "wide version");
        }
        Err(e) => {
            for l in P.must_reach {
                ctx.label_if(e == l, l);
            }
        }
    }
    if rt.pallets.iter().any(|p| p.constants.iter().any(|c| c.value.len() >= 2)) {
        ctx.interesting(&[format!("{:?}", rt.pallets).as_bytes()]);
    }
    ctx.describe(|| format!("pallets {:?}\n{}", rt.pallets, crate::sut::show_reg(&rt.reg)));
    let (a, b) = (answer(&rt.v14()), answer(&rt.v15()));
    ctx.eval();
    ensure!(meta_agree(&want, &a), "v14", "{}version 14 gives {a:?}, expected {want:?}", rt.show());
    ensure!(meta_agree(&want, &b), "v15", "{}version 15 gives {b:?}, expected {want:?}", rt.show());
    Ok(())
}

fn enumerated(i: u64, ctx: &mut Ctx) -> Outcome {
    let r = real(i as usize);
    let got = match &r.meta {
        RealMeta::V14(m) => answer(m),
        RealMeta::V15(m) => answer(m),
    };
    // the file name tells what it is
    let name = r.name.trim_end_matches("_v15");
    let split = name.find(|c: char| c.is_ascii_digit()).unwrap();
    ctx.interesting(&[name.as_bytes()]);
    ctx.describe(|| format!("metadata {}", r.name));
    match &got {
        Ok((n, v)) if n.starts_with(&name[..split]) && v == &name[split..] => Ok(()),
        x => fail!("real", "metadata {} gives {x:?}", r.name),
    }
}
