mod ctx;
mod explore;
mod json;
mod text;
mod units;
use ctx::Tier;
use explore::*;
use json::J;
use num_rational::BigRational;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::str::FromStr;
use std::sync::Arc;
use std::time::{Duration, Instant};

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.iter().any(|x| x == "--list") {
        for u in units::all() {
            println!("{}\t{}\t{}", u.prop, u.name, u.bounds);
        }
        return;
    }
    std::env::set_var("NO_COLOR", "1");
    if std::env::var("SYM_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let tier = if arg(&a, "--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let scratch = PathBuf::from(arg(&a, "--scratch").expect("--scratch"));
    std::fs::create_dir_all(scratch.join("home")).unwrap();
    // no .ledgerrc in sight
    let home = if ctx::own_directory() { PathBuf::from("home") } else { scratch.join("home") };
    std::env::set_var("HOME", home);
    let binary = PathBuf::from(arg(&a, "--bin").expect("--bin"));
    std::env::set_current_dir(scratch.join("home")).unwrap();
    let seed: u64 = arg(&a, "--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let budget: u64 = arg(&a, "--budget").and_then(|x| x.parse().ok()).unwrap_or(600);
    let threads: usize = arg(&a, "--threads").and_then(|x| x.parse().ok()).unwrap_or(8);
    let start = Instant::now();
    let known = arg(&a, "--known").map(|p| std::fs::read_to_string(p).unwrap_or_default()).unwrap_or_default();
    let prop = arg(&a, "--prop").unwrap_or_default();
    let cfg = |deadline: Instant| {
        Arc::new(Config {
            tier,
            binary: binary.clone(),
            scratch: scratch.clone(),
            threads,
            deadline,
            validate: if tier == Tier::Thorough { 200 } else { 25 },
            seed,
            repeat: 40,
            known: known.clone(),
            prop: prop.clone(),
        })
    };

    if let Some(f) = arg(&a, "--replay") {
        let t = std::fs::read_to_string(&f).expect("replay file");
        let mut unit = String::new();
        let mut m: Model = (BTreeMap::new(), BTreeMap::new());
        for l in t.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "unit" => unit = v.to_string(),
                "value" => {
                    let (n, x) = v.rsplit_once('=').unwrap();
                    m.0.insert(n.into(), BigRational::from_str(x).unwrap());
                }
                "choice" => {
                    let (n, x) = v.rsplit_once('=').unwrap();
                    m.1.insert(n.into(), x.parse().unwrap());
                }
                _ => {}
            }
        }
        let u = units::all().into_iter().find(|u| u.name == unit).expect("no such unit");
        let c = cfg(start + Duration::from_secs(3600));
        for i in 0..c.repeat {
            match concrete(u, &m, &c, &scratch.join("replay")) {
                Outcome::Violated(v, runs) => {
                    println!("reproduced in run {} of the real program", i + 1);
                    print!("{}", describe(&v, &runs));
                    std::process::exit(1);
                }
                Outcome::Done(_) => {}
                Outcome::Infeasible => {
                    println!("the values are outside the assumptions of the unit");
                    std::process::exit(0);
                }
                Outcome::Broken(s, _) => {
                    println!("reproduced: the output of the real program cannot be read as the answer to this input: {}", s);
                    std::process::exit(1);
                }
                Outcome::Unsupported(s) | Outcome::Inconclusive(s) => {
                    println!("undecided: {}", s);
                    std::process::exit(2);
                }
            }
        }
        println!("the property holds on this input now");
        std::process::exit(0);
    }

    let only = arg(&a, "--unit");
    let list: Vec<&'static units::Unit> = units::all()
        .into_iter()
        .filter(|u| u.prop == prop && (tier == Tier::Thorough || !u.thorough_only))
        .filter(|u| only.as_ref().map_or(true, |o| u.name == o))
        .collect();
    assert!(!list.is_empty(), "no units for {}", prop);
    let replays = PathBuf::from(arg(&a, "--replays").unwrap_or_else(|| scratch.join("replays").to_str().unwrap().into()));
    std::fs::create_dir_all(&replays).unwrap();
    let mut units_json = vec![];
    let mut violations = 0;
    let mut tot = Report::default();
    tot.complete = true;
    let mut vac: Vec<String> = vec![];
    let mut undecided = 0u64;
    let n = list.len();
    for (i, u) in list.iter().enumerate() {
        if violations > 0 && tier == Tier::Quick {
            break; // the verdict is clear
        }
        let left = (budget as f64 - start.elapsed().as_secs_f64()).max(20.0);
        // later units keep a share of the time
        let share = if i + 1 == n { left } else { left * 0.6 };
        let c = cfg(Instant::now() + Duration::from_secs_f64(share));
        let r = std::panic::catch_unwind(|| explore(u, &c)).unwrap_or_else(|_| {
            let mut r = Report::default();
            r.inconclusive.insert("the exploration broke off".into(), 1);
            r
        });
        eprintln!(
            "{} {}: {} paths, {} decisions, {} obligations, {} queries, solver {:.1}s, wall {:.1}s, {} validated{}{}{}{}",
            u.prop,
            u.name,
            r.stats.paths,
            r.stats.decisions,
            r.stats.obligations,
            r.queries,
            r.solver_s,
            r.wall_s,
            r.validated,
            if r.complete { String::new() } else { " INCOMPLETE".into() } + &(if r.stats.narrowed > 0 { format!(" narrowed {}", r.stats.narrowed) } else { String::new() }),
            if r.unsupported.is_empty() { String::new() } else { format!(" unsupported {:?}", r.unsupported) },
            if r.inconclusive.is_empty() { String::new() } else { format!(" inconclusive {:?}", r.inconclusive) },
            if r.unconfirmed.is_empty() { String::new() } else { format!(" unconfirmed {}", r.unconfirmed.len()) },
        );
        if std::env::var("SYM_VERBOSE").is_ok() {
            eprintln!("   covers {:?} infeasible {} forks {} trail {}", r.stats.covers, r.infeasible, r.stats.forks, r.max_trail);
            for x in r.unconfirmed.iter().take(3) {
                eprintln!("   UNCONFIRMED {}", x);
            }
        }
        for x in r.unconfirmed.iter() {
            println!("UNDECIDED property={} {}", prop, x.lines().next().unwrap_or(""));
        }
        let mut fresh = 0;
        for (v, runs) in &r.violations {
            if let Some(k) = known_entry(&known, &prop, v) {
                println!("KNOWN-FINDING: property={} {}", prop, k);
                continue;
            }
            fresh += 1;
            if fresh > 3 {
                continue;
            }
            let path = replays.join(format!("{}-{}-{}.replay", prop, u.name, fresh));
            let mut s = format!("property {}\nunit {}\nlabel {}\n", prop, v.unit, v.label);
            for (k, x) in &v.values {
                s.push_str(&format!("value {}={}\n", k, x));
            }
            for (k, x) in &v.choices {
                s.push_str(&format!("choice {}={}\n", k, x));
            }
            s.push_str(&describe(v, runs));
            std::fs::write(&path, &s).unwrap();
            println!("VIOLATION property={} replay={}", prop, path.display());
            print!("{}", describe(v, runs));
            violations += 1;
        }
        let und = r.unconfirmed.len() as u64 + r.unsupported.values().sum::<u64>() + r.inconclusive.values().sum::<u64>();
        undecided += und;
        if r.violations.is_empty() && und == 0 && r.complete {
            for l in u.covers {
                if !r.stats.covers.contains_key(*l) {
                    vac.push(format!("{}: nothing reached {:?}", u.name, l));
                }
            }
            if r.stats.paths == 0 {
                vac.push(format!("{}: no path", u.name));
            }
        }
        let mut j = J::obj();
        j.s("unit", u.name)
            .s("bounds", u.bounds)
            .n("paths", r.stats.paths)
            .n("infeasible_prefixes", r.infeasible)
            .n("branch_decisions", r.stats.decisions)
            .n("forks", r.stats.forks)
            .n("hash_order_choices", r.stats.hash_choices)
            .n("program_runs", r.stats.runs)
            .n("obligations", r.stats.obligations)
            .n("obligations_discharged", r.stats.discharged)
            .n("solver_queries", r.queries)
            .n("unsat", r.unsat)
            .n("sat", r.sat)
            .n("unknown", r.unknown)
            .f("solver_s", r.solver_s)
            .f("wall_s", r.wall_s)
            .b("all_paths_within_bounds_explored", r.complete)
            .n("paths_replayed_on_the_real_program", r.validated)
            .raw("reached", J::counts(&r.stats.covers))
            .n("runs_narrowed_to_single_values", r.stats.narrowed)
            .raw("not_encodable", J::counts(&r.unsupported))
            .raw("no_verdict", J::counts(&r.inconclusive))
            .n("unconfirmed_counterexamples", r.unconfirmed.len() as u64);
        units_json.push(j.end());
        tot.stats.paths += r.stats.paths;
        tot.stats.decisions += r.stats.decisions;
        tot.stats.obligations += r.stats.obligations;
        tot.stats.discharged += r.stats.discharged;
        tot.queries += r.queries;
        tot.unknown += r.unknown;
        tot.solver_s += r.solver_s;
        tot.validated += r.validated;
        tot.complete &= r.complete;
        tot.samples.extend(r.samples);
    }
    if let Some(out) = arg(&a, "--out") {
        let samples: Vec<String> = tot
            .samples
            .iter()
            .take(6)
            .map(|(m, runs)| {
                let mut j = J::obj();
                j.raw("values", J::map(m.0.iter().map(|(k, v)| (k.clone(), v.to_string()))));
                j.raw("choices", J::map(m.1.iter().map(|(k, v)| (k.clone(), v.to_string()))));
                j.raw(
                    "runs",
                    J::arr(runs.iter().take(3).map(|r| {
                        let mut j = J::obj();
                        j.s("args", &r.args.join(" "));
                        j.raw("files", J::map(r.files.iter().cloned()));
                        j.s("status", &r.status.short());
                        j.s("stdout", &r.out);
                        j.end()
                    })),
                );
                j.end()
            })
            .collect();
        let functions = arg(&a, "--functions").unwrap_or_default();
        let mut cov = J::obj();
        cov.n("states", tot.stats.paths)
            .n("transitions", tot.stats.decisions)
            .n("traces_validated_against_impl", tot.validated)
            .raw("samples", J::arr(samples.into_iter()))
            .b("exhaustive", tot.complete && undecided == 0)
            .n("obligations", tot.stats.obligations)
            .n("discharged", tot.stats.discharged)
            .n("solver_queries", tot.queries)
            .n("solver_unknown", tot.unknown)
            .f("solver_s", tot.solver_s)
            .n("undecided_paths", undecided)
            .s("solver", &symcore::solver::solver_cmd().0)
            .s("functions_encoded", &functions)
            .s("what_states_are", "states: complete symbolic paths of the program (each stands for all inputs satisfying its path condition); transitions: branch decisions on symbolic values put to the solver or to facts already on the path")
            .raw("units", J::arr(units_json.into_iter()));
        let mut j = J::obj();
        j.s("property", &prop)
            .s("tier", if tier == Tier::Thorough { "thorough" } else { "quick" })
            .n("seed", seed)
            .s("level", "model_checking")
            .raw("coverage", cov.end())
            .raw(
                "assumptions",
                J::arr(units::ASSUMPTIONS.iter().map(|x| json::quote(x))),
            )
            .f("wall_s", start.elapsed().as_secs_f64())
            .n("violations", violations);
        std::fs::write(&out, j.end()).unwrap();
    }
    let _ = std::fs::remove_dir_all(&scratch);
    if violations > 0 {
        std::process::exit(1);
    }
    if !vac.is_empty() {
        println!("ERROR vacuous: {}", vac.join("; "));
        std::process::exit(3);
    }
    std::process::exit(0);
}

fn describe(v: &symcore::Violation, runs: &[ctx::Run]) -> String {
    let mut s = format!("# {}: {}\n", v.label, v.msg.replace('\n', "\n# "));
    for r in runs {
        s.push_str(&format!("# $ dinero {}   => {}\n", r.args.join(" "), r.status.short()));
        for (n, t) in &r.files {
            s.push_str(&format!("#   {}:\n", n));
            for l in t.lines() {
                s.push_str(&format!("#   | {}\n", l));
            }
        }
        for l in r.out.lines() {
            s.push_str(&format!("#   > {}\n", l));
        }
    }
    s
}

/// Lines `finding: property=<id> unit=<unit> label=<label> :: <what fails>`
fn known_entry(known: &str, prop: &str, v: &symcore::Violation) -> Option<String> {
    known.lines().find_map(|l| {
        let r = l.strip_prefix("finding: ")?;
        let (key, what) = r.split_once(" :: ")?;
        if key == format!("property={} unit={} label={}", prop, v.unit, v.label) {
            Some(what.to_string())
        } else {
            None
        }
    })
}
