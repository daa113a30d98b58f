//! `mc check <ID>`: decide one property; `mc replay <file>`: run one recorded case again;
//! `mc list`: the properties with checks.

mod ast;
mod canon;
mod checks;
mod engine;
mod json;
mod oracles;
mod project;
mod worlds;

use engine::{Cfg, Explorer, Finding, Report};
use json::J;
use std::time::Duration;

pub fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn known_findings(id: &str) -> Vec<Finding> {
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        let Some(l) = l.strip_prefix("known: ") else { continue };
        let get = |k: &str| -> Option<&str> {
            let at = l.find(&format!("{k}="))? + k.len() + 1;
            Some(&l[at..])
        };
        let word = |k: &str| get(k).and_then(|s| s.split(' ').next()).unwrap_or("").to_string();
        if word("property") != id {
            continue;
        }
        let Some((input, rest)) = get("input").and_then(json::parse_str) else {
            eprintln!("known-findings.txt: cannot read {l}");
            std::process::exit(3);
        };
        v.push(Finding {
            kind: word("kind"),
            cfg: Cfg::parse(&word("config")),
            input,
            any_input: word("match") == "history",
            what: rest.trim().strip_prefix("what=").unwrap_or(rest.trim()).to_string(),
        });
    }
    v
}

fn main() {
    engine::quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("check") => check(args.get(2).map(String::as_str).unwrap_or("")),
        Some("replay") => replay(args.get(2).map(String::as_str).unwrap_or("")),
        Some("list") => {
            for c in checks::all() {
                println!("{} {}", c.id, c.title);
            }
        }
        _ => {
            eprintln!("usage: mc check <ID> | replay <file> | list");
            std::process::exit(2);
        }
    }
}

fn check(id: &str) {
    let Some(c) = checks::all().into_iter().find(|c| c.id == id) else {
        eprintln!("no check for {id}");
        std::process::exit(2);
    };
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let default_cap = if tier == "thorough" { 3600 } else { 400 };
    let cap = std::env::var("MC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(default_cap);
    let known = known_findings(id);
    let ex = Explorer::new(id, &tier, known, Duration::from_secs(cap));
    let mut rep = Report::default();
    for k in &ex.known {
        // only say it if it is (still) true of this tree
        if c.rerun(&k.kind, k.cfg, &k.input) {
            println!("KNOWN-FINDING: property={id} {}", k.what);
        }
    }
    c.run(&ex, &mut rep);
    ex.finish_counts(&mut rep);
    let violated = rep.failure.is_some();
    let mut cov = vec![
        ("states", J::Int(rep.states as i64)),
        ("transitions", J::Int(rep.transitions as i64)),
        ("traces_validated_against_impl", J::Int(rep.traces as i64)),
        ("distinct_outputs", J::Int(rep.outcomes as i64)),
        ("cases_where_the_property_applied", J::Int((rep.traces - rep.vacuous.min(rep.traces)) as i64)),
        ("cases_where_it_says_nothing", J::Int(rep.vacuous as i64)),
        ("cases_listed_as_known_findings", J::Int(rep.known_hit as i64)),
        ("exhaustive", J::Bool(rep.capped.is_empty() && !violated)),
        ("samples", J::Arr(rep.samples.clone())),
        (
            "worlds",
            J::Arr(
                rep.worlds
                    .iter()
                    .map(|(n, size, run)| {
                        J::obj(vec![("name", J::s(n)), ("cases", J::Int(*size as i64)), ("run_first_here", J::Int(*run as i64))])
                    })
                    .collect(),
            ),
        ),
    ];
    if !rep.capped.is_empty() {
        cov.push(("stopped_by_the_time_limit_in", J::Arr(rep.capped.iter().map(|s| J::s(s)).collect())));
    }
    for (k, v) in &rep.extra {
        cov.push((k.as_str(), v.clone()));
    }
    let mut assumptions: Vec<J> = vec![J::s(
        "pulldown-cmark 0.13 (the version /repo locks), with the options the formatter documents, decides what a document means",
    )];
    assumptions.extend(rep.assumptions.iter().map(|s| J::s(s)));
    let ev = J::obj(vec![
        ("property", J::s(id)),
        ("tier", J::s(if tier == "thorough" { "thorough" } else { "quick" })),
        ("seed", J::Int(seed)),
        ("level", J::s("model_checking")),
        ("coverage", J::obj(cov)),
        ("assumptions", J::Arr(assumptions)),
        ("wall_s", J::Num(ex.start.elapsed().as_secs_f64())),
        ("violations", J::Int(i64::from(violated) + rep.more_failures as i64)),
    ]);
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{id}.json"), ev.render() + "\n") {
        eprintln!("cannot write evidence: {e}");
        std::process::exit(3);
    }
    println!(
        "{id} {tier}: states={} transitions={} traces={} distinct_outputs={} in {:.1}s{}",
        rep.states,
        rep.transitions,
        rep.traces,
        rep.outcomes,
        ex.start.elapsed().as_secs_f64(),
        if rep.capped.is_empty() { String::new() } else { format!(" (time limit reached in {})", rep.capped.join(", ")) },
    );
    if let Some(f) = rep.failure {
        let path = engine::write_replay(id, &f);
        println!("world: {}\nkind: {}\nconfig: {}\ninput: {}\n{}", f.world, f.kind, f.cfg.text(), json::quote(&f.input), f.detail);
        if rep.more_failures > 0 {
            println!("({} more cases fail in the explored worlds)", rep.more_failures);
        }
        println!("VIOLATION property={id} replay={path}");
        std::process::exit(1);
    }
}

fn replay(path: &str) {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("{path}: {e}");
        std::process::exit(2)
    });
    let f = |k: &str| json::field(&text, k).unwrap_or_default();
    let id = f("property");
    let Some(c) = checks::all().into_iter().find(|c| c.id == id) else {
        eprintln!("no check for {id:?}");
        std::process::exit(2);
    };
    let cfg = Cfg::parse(&f("config"));
    let a = c.rerun(&f("kind"), cfg, &f("input"));
    let b = c.rerun(&f("kind"), cfg, &f("input"));
    if a != b {
        eprintln!("the case does not behave the same way twice: {a:?} {b:?}");
        std::process::exit(3);
    }
    match a {
        true => {
            println!("{id}: still fails ({})\nconfig: {}\ninput: {}", f("kind"), cfg.text(), json::quote(&f("input")));
            std::process::exit(1);
        }
        false => println!("{id}: holds for this case"),
    }
}
