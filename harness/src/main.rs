mod ast;
mod coerce;
mod dump;
mod engine;
mod gen_doc;
mod gen_schema;
mod gen_syn;
mod props;
mod refop;
mod refparse;
mod render;
mod schema;
mod src;
mod tangle;
mod typegen;
mod valid;
mod view;

use engine::{Opts, Prop};

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().is_some_and(|a| a == "--scale-child") {
        std::process::exit(props::scale::child());
    }
    let mut id = String::new();
    let mut o = Opts {
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        verif: std::env::var("BJ_VERIF").unwrap_or_else(|_| "/verif".into()),
        cases: None,
        threads: 8,
    };
    let (mut worker, mut replay, mut one, mut log) = (None, None, None, None);
    let mut i = 0;
    let mut inproc = false;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--seed" => o.seed = v.parse().unwrap(),
            "--tier" => o.tier = v,
            "--cases" => o.cases = Some(v.parse().unwrap()),
            "--threads" => o.threads = v.parse().unwrap(),
            "--worker" => worker = Some(v),
            "--replay" => replay = Some(v),
            "--one" => one = Some(v.parse::<u64>().unwrap()),
            "--log" => log = Some(v),
            "--inproc" => {
                inproc = true;
                i += 1;
                continue;
            }
            x => {
                id = x.to_string();
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    let all: &'static [Prop] = Box::leak(props::all().into_boxed_slice());
    if id == "list" {
        for p in all {
            println!("{}", p.id);
        }
        return;
    }
    if id == "C30" || id == "C31" {
        let choices = replay.map(|f| {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
            j["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()
        });
        std::process::exit(if id == "C30" { typegen::c30(&o, choices, one) } else { typegen::c31(&o, choices, one) });
    }
    let Some(p) = all.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    };
    engine::load_findings(&o.verif);
    let code = if let Some(f) = replay {
        let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
        let ch = j["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
        engine::replay(p, src::Src::from_choices(ch), &o)
    } else if let Some(n) = one {
        let mut s = src::Src::from_seed(engine::case_seed(p, o.seed, n));
        s.log = log.map(|f| std::fs::File::create(f).unwrap());
        engine::replay(p, s, &o)
    } else if let Some(slots) = worker {
        engine::run_worker(p, &o, Some(&slots))
    } else if inproc {
        engine::run_worker(p, &o, None)
    } else {
        engine::supervise(p, &o)
    };
    std::process::exit(code);
}
