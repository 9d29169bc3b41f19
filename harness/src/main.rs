use pbt::{props, runner};

fn main() {
    if std::env::args().nth(1).as_deref() == Some("history") {
        std::process::exit(props::c31::main());
    }
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let prop = || match props::by_id(arg(2)) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {:?}", arg(2));
            std::process::exit(2)
        }
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if arg(3) == "thorough" || (arg(3).is_empty() && std::env::var("VERIF_TIER").as_deref() == Ok("thorough")) { "thorough" } else { "quick" };
    let code = match arg(1) {
        "check" => runner::check(prop(), tier, seed),
        "worker" => runner::worker(prop(), arg(3), arg(4).parse().unwrap(), arg(5).as_ref(), arg(6).as_ref()),
        "single" => runner::single_main(prop(), arg(3), arg(4)),
        "demo" => runner::demo_main(prop(), arg(3).parse().unwrap()),
        "replay" => runner::replay(prop(), arg(3)),
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: pbt check|replay ID [quick|thorough|FILE]");
            2
        }
    };
    std::process::exit(code);
}
