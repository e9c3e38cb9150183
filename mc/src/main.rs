#![allow(dead_code, unused_imports)]
mod checks;
mod explore;
mod hostile;
mod kit;
mod supervise;
mod traffic;
mod wire;

use explore::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

struct KnownFinding {
    property: String,
    sig: String,
    what: String,
}
/// lines: `known: property=<id> sig=<signature> -- <what>`; `fixed:` lines are documentation only
fn known_findings(path: &str) -> Vec<KnownFinding> {
    let t = std::fs::read_to_string(path).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            if let Some((id, r)) = r.split_once(" sig=") {
                let (sig, what) = r.split_once(" -- ").unwrap_or((r, ""));
                v.push(KnownFinding { property: id.trim().into(), sig: sig.trim().into(), what: what.trim().into() });
            }
        }
    }
    v
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    simrt::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("check") if std::env::var_os("MC_INFLIGHT").is_none() => supervised(&args),
        Some("check") => check(&args),
        Some("one") => one(&args),
        Some("replay") => replay(&args),
        Some("list") => {
            for t in [Tier::Quick, Tier::Thorough] {
                for c in checks::all() {
                    for s in (c.spaces)(t) {
                        println!("{:?} {} {}: {}", t, c.id, s.name, s.desc);
                    }
                }
            }
        }
        _ => {
            eprintln!("usage: mc check <ID> [--tier quick|thorough] [--evidence FILE] [--known FILE] [--replays DIR] [--only SPACE] [--budget SECONDS]\n       mc replay FILE\n       mc list");
            std::process::exit(2);
        }
    }
}

/// one execution, for the supervisor to see whether it survives
fn one(args: &[String]) {
    let tier = if args[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let c = checks::all().into_iter().find(|c| c.id == args[1]).expect("property");
    let sp = (c.spaces)(tier).into_iter().find(|s| s.name == args[3]).expect("space");
    let _ = execute(&sp, &devs_from(&serde_json::from_str(&args[4]).expect("json")), false);
    std::process::exit(0);
}

fn supervised(args: &[String]) {
    let id = args.get(1).cloned().unwrap_or_default();
    let tier = if arg(args, "--tier").as_deref() == Some("thorough") { "thorough" } else { "quick" };
    let d = match supervise::run(args, &id, tier) {
        Ok(d) => d,
        Err(m) => {
            eprintln!("MACHINERY: {m}");
            std::process::exit(2);
        }
    };
    let sig = format!("process-dies-{}", d.signal);
    let msg = format!("the whole process dies of signal {} (abort, stack overflow or no memory)", d.signal);
    let replays = arg(args, "--replays").unwrap_or_else(|| "replays".into());
    let _ = std::fs::create_dir_all(&replays);
    let path = format!("{}/{}-{}-{:08x}.json", replays, id, d.space.replace(['/', ' '], "_"), fnv(&format!("{}{}", sig, d.devs)) as u32);
    let art = json!({"property": id, "tier": tier, "space": d.space, "deviations": d.devs, "signature": sig, "message": msg,
                     "how_to_replay": format!("cd /verif && ./check.sh replay {path}")});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&art).unwrap());
    let kf = arg(args, "--known").map(|p| known_findings(&p)).unwrap_or_default();
    if let Some(k) = kf.iter().find(|k| k.property == id && k.sig == sig) {
        println!("KNOWN-FINDING: property={id} {} [{sig}]", k.what);
        std::process::exit(0);
    }
    println!("violation of {id} in space {}: [{sig}] {msg}", d.space);
    println!("  deviations from the default execution: {}", d.devs);
    println!("VIOLATION property={id} replay={path}");
    if let Some(p) = arg(args, "--evidence") {
        if let Some(d) = std::path::Path::new(&p).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        let ev = json!({
            "property": id, "tier": tier, "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
            "level": "model_checking", "wall_s": 0,
            "coverage": {"states": 1, "transitions": 1, "traces_validated_against_impl": 1,
                         "samples": [{"space": d.space, "deviations": d.devs, "outcome": msg}]},
            "violation": {"space": d.space, "signature": sig, "message": msg, "replay": path}, "result": "violated",
        });
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap() + "\n");
    }
    std::process::exit(1);
}

fn check(args: &[String]) {
    let id = args.get(1).cloned().unwrap_or_default();
    let tier = match arg(args, "--tier").as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let kf = arg(args, "--known").map(|p| known_findings(&p)).unwrap_or_default();
    let only = arg(args, "--only");
    let replays = arg(args, "--replays").unwrap_or_else(|| "replays".into());
    let budget: u64 = arg(args, "--budget").and_then(|b| b.parse().ok()).unwrap_or(if tier == Tier::Quick { 420 } else { 780 });
    let workers = arg(args, "--workers").and_then(|b| b.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16));
    let c = match checks::all().into_iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    };
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(budget);
    let mut spaces = (c.spaces)(tier);
    if let Some(o) = &only {
        spaces.retain(|s| s.name.contains(o.as_str()));
    }
    let known = |sig: &str| kf.iter().any(|k| k.property == id && k.sig == sig);
    let mut per_space = vec![];
    let mut tot = Stats { complete: true, ..Default::default() };
    let mut known_hit: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut stopped = None;
    let mut skipped = vec![];
    for sp in &spaces {
        if Instant::now() > deadline {
            skipped.push(sp.name.clone());
            tot.complete = false;
            continue;
        }
        let lim = Limits { deadline, workers };
        let (st, stop) = explore(sp, &lim, &known);
        println!(
            "{} {:<34} executions {:>8}  states {:>9}  transitions {:>11}  outcomes {:>6}  points<= {:>4}  {:.1}s{}",
            id,
            sp.name,
            st.executions,
            st.nodes,
            st.steps,
            st.outcomes.len(),
            st.max_points,
            st.wall_s,
            if st.complete { "" } else { "  (not exhausted)" }
        );
        tot.executions += st.executions;
        tot.nodes += st.nodes;
        tot.steps += st.steps;
        tot.inner += st.inner;
        tot.points += st.points;
        let distinct = st.outcomes.len();
        for o in &st.outcomes {
            tot.outcomes.insert(o ^ fnv(&sp.name));
        }
        tot.complete &= st.complete;
        for (k, v) in &st.known {
            let e = known_hit.entry(k.clone()).or_insert((0, v.1.clone()));
            e.0 += v.0;
        }
        tot.samples.extend(st.samples.iter().take(4).cloned());
        let by_kind: BTreeMap<&str, u64> = (0..simrt::KINDS).filter(|k| st.by_kind[*k] > 0).map(|k| (simrt::KIND_NAMES[k], st.by_kind[k])).collect();
        per_space.push(json!({
            "space": sp.name, "what": sp.desc, "executions": st.executions, "states": st.nodes, "transitions": st.steps,
            "distinct_outcomes": distinct, "inputs_examined_inside": st.inner,
            "bound": {"deviations": sp.total, "kinds": (0..simrt::KINDS).filter(|k| sp.kinds & (1 << k) != 0).map(|k| simrt::KIND_NAMES[k]).collect::<Vec<_>>(),
                      "enumerated_in_full": (0..simrt::KINDS).filter(|k| sp.free & sp.kinds & (1 << k) != 0).map(|k| simrt::KIND_NAMES[k]).collect::<Vec<_>>(),
                      "fates": format!("{:?}", sp.cfg.fates)},
            "executions_by_number_of_deviations": st.by_devs.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_, _>>(),
            "deviations_by_kind": by_kind, "longest_execution_choice_points": st.max_points, "longest_virtual_ms": st.vtime_ms,
            "situations_seen": st.cover, "exhausted": st.complete, "wall_s": (st.wall_s * 100.0).round() / 100.0,
        }));
        if let Some(s) = stop {
            stopped = Some((sp.clone(), s));
            break;
        }
    }
    let mut exit = 0;
    let mut viol = Value::Null;
    match &stopped {
        None => {}
        Some((_, Stop::Broken(m))) => {
            eprintln!("MACHINERY: {m}");
            exit = 2;
        }
        Some((sp, Stop::Violation(v))) => {
            // replay twice: the verdict must be a function of the deviation list
            let sig = |x: &Result<Exec, String>| match x {
                Ok(Exec { res: Err(f), .. }) => f.sig.clone(),
                Ok(_) => "held".into(),
                Err(e) => format!("broken: {e}"),
            };
            let endless = v.found.sig == "endless-loop";
            let a = if endless { Err("not replayed".into()) } else { execute(sp, &v.devs, false) };
            let b = if endless { Err("not replayed".into()) } else { execute(sp, &v.devs, true) };
            if !endless && (sig(&a) != v.found.sig || sig(&b) != v.found.sig) {
                eprintln!("MACHINERY: not reproducible: {} / {} / {}", v.found.sig, sig(&a), sig(&b));
                exit = 2;
            } else {
                let _ = std::fs::create_dir_all(&replays);
                let h = fnv(&format!("{}{}{:?}", sp.name, v.found.sig, v.devs));
                let path = format!("{}/{}-{}-{:08x}.json", replays, id, sp.name.replace(['/', ' '], "_"), h as u32);
                let logv = b.as_ref().map(|x| x.rep.log.clone()).unwrap_or_default();
                let art = json!({
                    "property": id, "tier": if tier == Tier::Quick { "quick" } else { "thorough" }, "space": sp.name, "deviations": devs_json(&v.devs),
                    "signature": v.found.sig, "message": v.found.msg, "seed": sp.cfg.seed,
                    "how_to_replay": format!("cd /verif && ./check.sh replay {path}"),
                    "trace": logv,
                });
                let _ = std::fs::write(&path, serde_json::to_string_pretty(&art).unwrap());
                println!("violation of {id} in space {}: [{}] {}", sp.name, v.found.sig, v.found.msg);
                println!("  deviations from the default execution: {}", devs_json(&v.devs));
                println!("VIOLATION property={id} replay={path}");
                viol = json!({"space": sp.name, "signature": v.found.sig, "message": v.found.msg, "replay": path});
                exit = 1;
            }
        }
    }
    for k in kf.iter().filter(|k| k.property == id) {
        if let Some((n, m)) = known_hit.get(&k.sig) {
            println!("KNOWN-FINDING: property={id} {} [{}] ({n} executions; {m})", k.what, k.sig);
        }
    }
    if !skipped.is_empty() {
        println!("not reached within the time budget: {}", skipped.join(", "));
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "model_checking",
        "wall_s": (wall * 100.0).round() / 100.0,
        "coverage": {
            "states": tot.nodes,
            "transitions": tot.steps,
            "traces_validated_against_impl": tot.executions,
            "distinct_outcomes": tot.outcomes.len(),
            "choice_points_replayed_and_new": tot.points,
            "inputs_examined_inside_executions": tot.inner,
            "exhausted_within_bounds": tot.complete,
            "spaces": per_space,
            "samples": tot.samples,
        },
        "method": "stateless model checking of the compiled library under a controlled scheduler, clock and network; every execution of the bounded space is run on the real code, so every explored trace is itself an execution of the implementation (no separate model). states = distinct nodes of the choice tree, transitions = scheduler steps executed.",
        "not_reached_in_time": skipped,
        "known_findings_seen": known_hit.iter().map(|(k, v)| json!({"signature": k, "executions": v.0})).collect::<Vec<_>>(),
        "violation": viol,
        "result": match exit { 0 => "held on everything explored", 1 => "violated", _ => "machinery failure" },
    });
    if let Some(p) = arg(args, "--evidence") {
        if let Some(d) = std::path::Path::new(&p).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap() + "\n");
    }
    println!(
        "{id} {:?}: {} executions, {} states, {} transitions, {} distinct outcomes in {:.1}s: {}",
        tier,
        tot.executions,
        tot.nodes,
        tot.steps,
        tot.outcomes.len(),
        wall,
        match exit {
            0 => "held",
            1 => "VIOLATED",
            _ => "MACHINERY FAILURE",
        }
    );
    std::process::exit(exit);
}

fn replay(args: &[String]) {
    let t = std::fs::read_to_string(args.get(1).expect("file")).expect("readable");
    let v: Value = serde_json::from_str(&t).expect("json");
    let id = v["property"].as_str().unwrap_or("").to_string();
    let tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let c = checks::all().into_iter().find(|c| c.id == id).expect("property");
    let sp = (c.spaces)(tier).into_iter().find(|s| Some(s.name.as_str()) == v["space"].as_str()).expect("space");
    match execute(&sp, &devs_from(&v["deviations"]), true) {
        Err(m) => {
            println!("broken: {m}");
            std::process::exit(2)
        }
        Ok(x) => {
            for l in &x.rep.log {
                println!("{l}");
            }
            if let Some(d) = x.rep.diverged {
                println!("diverged: {d}");
            }
            match x.res {
                Ok(o) => println!("held: {}", o.note),
                Err(f) => {
                    println!("violated: [{}] {}", f.sig, f.msg);
                    std::process::exit(1)
                }
            }
        }
    }
}
