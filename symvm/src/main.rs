mod engine;
mod env;
mod env_ctrl;
mod lib_ctx;
mod props;
mod smt;
mod term;
mod vm;

use engine::*;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

fn jesc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist<I: IntoIterator<Item = String>>(v: I) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}
fn jmap<V: std::fmt::Display>(m: &BTreeMap<String, V>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", jesc(k), v)).collect::<Vec<_>>().join(","))
}
fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let flag = |n: &str| args.iter().any(|a| a == n);
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
        }
        Some("check") => std::process::exit(check_cmd(
            &args[2],
            opt("--tier").or(std::env::var("VERIF_TIER").ok()).as_deref() == Some("thorough"),
            opt("--wall").and_then(|s| s.parse().ok()),
            opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(8),
            opt("--obl").and_then(|s| s.parse().ok()),
            flag("-v"),
            opt("--only"),
            opt("--root").unwrap_or(".".into()),
        )),
        Some("replay") => std::process::exit(replay_cmd(&args[2])),
        _ => {
            eprintln!("usage: symvm list | check ID [--tier quick|thorough] | replay FILE");
            std::process::exit(2)
        }
    }
}

/// known findings: lines "KNOWN property=<id> check=<check> scenario=<scenario prefix> | text"
struct Known {
    property: String,
    check: String,
    scenario: String,
    text: String,
}
fn known(root: &str) -> Vec<Known> {
    let s = std::fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("KNOWN "))
        .filter_map(|l| {
            let mut f = l.split('|').map(|x| x.trim().to_string());
            Some(Known { property: f.next()?, check: f.next()?, scenario: f.next()?, text: f.next()? })
        })
        .collect()
}

fn check_cmd(
    id: &str,
    thorough: bool,
    wall: Option<u64>,
    threads: usize,
    obl: Option<u64>,
    verbose: bool,
    only: Option<String>,
    root: String,
) -> i32 {
    let t0 = Instant::now();
    let p = match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let kn: Vec<Known> = known(&root).into_iter().filter(|k| k.property == id).collect();
    let cfg = props::Cfg { thorough };
    let mut sc = p.scenarios(&cfg);
    if let Some(o) = &only {
        sc.retain(|s| s.name.contains(o.as_str()));
    }
    // development aid: every scenario with the given token as the native coin
    if let Ok(t) = std::env::var("SYMVM_NATIVE") {
        let t: &'static str = Box::leak(t.into_boxed_str());
        sc = sc.into_iter().map(|s| s.native(t)).collect();
    }
    let opts = Opts {
        threads,
        wall: Duration::from_secs(wall.unwrap_or(if thorough { 3000 } else { 420 })),
        feas_ms: if thorough { 3000 } else { 1500 },
        obl_ms: obl.unwrap_or(if thorough { 60000 } else { 12000 }),
        max_paths: if thorough { 2_000_000 } else { 200_000 },
        keep_going: !kn.is_empty() || verbose,
        thorough,
        verbose,
        audit_ms: if thorough { 400_000 } else { 40_000 },
    };
    let names: Vec<String> = sc.iter().map(|s| s.name.clone()).collect();
    let (st, viol, timed_out) = explore(sc, opts);
    let mut real: Vec<Violation> = vec![];
    let mut known_hit: BTreeMap<String, String> = BTreeMap::new();
    for v in viol {
        if let Some(k) = kn.iter().find(|k| k.check == v.check && v.scenario.starts_with(&k.scenario)) {
            known_hit.insert(k.text.clone(), fmt_model(&v.model));
        } else {
            real.push(v);
        }
    }
    // vacuity: a complete run that never reaches the situation the property speaks about
    let mut missing = vec![];
    if only.is_none() && real.is_empty() {
        for r in p.reach.iter().chain(props::wide::reach_of(p.id)) {
            if !st.reached.contains_key(*r) {
                missing.push(r.to_string());
            }
        }
    }
    let incomplete = timed_out || st.dropped > 0 || !st.unsupported.is_empty() || !st.harness_errors.is_empty() || st.feas_unknown > 0;
    if verbose {
        eprintln!("scenarios {:?}", names);
        eprintln!("paths {} reverted {} infeasible {} decisions {} feas {} (unknown {}) obl queries {} solver {}ms max {}ms traces {} dropped {} timed_out {}",
            st.paths, st.reverted, st.infeasible, st.decisions, st.feas_queries, st.feas_unknown, st.obl_queries, st.solver_ms, st.max_query_ms, st.traces, st.dropped, timed_out);
        eprintln!("wins {:?}", st.wins);
        for (k, o) in &st.obls {
            eprintln!("  obl {:60} discharged {} trivial {} undecided {}", k, o.discharged, o.trivial, o.undecided);
        }
        for (k, v) in &st.reverts {
            eprintln!("  revert {} x{}", k, v);
        }
        for n in &names {
            eprintln!("  reached in {}: {:?}", n, st.reached_in.get(n).cloned().unwrap_or_default());
        }
        for (k, v) in &st.per_scenario {
            eprintln!("  paths {} : {}", k, v);
        }
        for k in &st.undecided {
            eprintln!("  UNDECIDED {}", k);
        }
        for (k, v) in &st.unsupported {
            eprintln!("  UNSUPPORTED {} x{}", k, v);
        }
        for (k, v) in &st.harness_errors {
            eprintln!("  HARNESS {} x{}", k, v);
        }
        for m in &st.trace_mismatch {
            eprintln!("  MISMATCH {}", m);
        }
        for m in &missing {
            eprintln!("  MISSING {}", m);
        }
        for v in &real {
            eprintln!("  VIOL {} @ {} : {} {:?}", v.check, v.scenario, fmt_model(&v.model), v.notes);
        }
    }
    let (asked, confirmed, unknown) = st.audit.kinds.values().fold((0, 0, 0), |a, k| (a.0 + k.0, a.1 + k.1, a.2 + k.2));
    if verbose {
        eprintln!("audit {:?} beyond budget {} in {}ms", st.audit.kinds, st.audit.beyond_budget, st.audit.ms);
        for r in &st.audit.refuted {
            eprintln!("  AUDIT REFUTED {}", r);
        }
    }
    let mut viols: Vec<(String, String, String, Vec<String>)> = real
        .iter()
        .map(|v| (v.check.clone(), v.scenario.clone(), fmt_model(&v.model), v.notes.clone()))
        .collect();
    if viols.is_empty() && !missing.is_empty() && !incomplete {
        for m in &missing {
            viols.push((format!("situation not reachable any more: {}", m), "-".into(), String::new(), vec![]));
        }
    }
    let (mut dis, mut triv, mut und) = (0, 0, 0);
    for o in st.obls.values() {
        dis += o.discharged;
        triv += o.trivial;
        und += o.undecided;
    }
    let mut obj: Vec<String> = vec![];
    for (n, o) in &st.obls {
        obj.push(format!(
            "{}:{{\"discharged_by_solver\":{},\"closed_by_interval_or_syntax\":{},\"undecided\":{}}}",
            jesc(n), o.discharged, o.trivial, o.undecided
        ));
    }
    let reached: Vec<String> = st
        .reached
        .iter()
        .map(|(n, (s, m))| format!("{}:{}", jesc(n), jesc(&format!("{} [{}]", s, fmt_model(m)))))
        .collect();
    let assumptions: Vec<String> = p
        .assumptions
        .iter()
        .map(|s| s.to_string())
        .chain(props::COMMON_ASSUMPTIONS.iter().map(|s| s.to_string()))
        .collect();
    let mut samples: Vec<String> = st.samples.clone();
    samples.truncate(8);
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\
\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"samples\":{},\
\"scenarios\":{},\"paths_per_scenario\":{},\"reverting_calls\":{},\"infeasible_paths\":{},\
\"functions_encoded\":{},\"bounds\":{},\"obligations\":{},\"discharged\":{},\"undecided\":{},\"per_check\":{{{}}},\
\"undecided_list\":{},\"obligation_queries\":{},\"feasibility_queries\":{},\"feasibility_unknown\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\
\"solver_ms\":{},\"max_query_ms\":{},\"solver_wins\":{},\"reached\":{{{}}},\"not_reached\":{},\"revert_reasons\":{},\
\"unsupported\":{},\"harness_errors\":{},\"trace_mismatches\":{},\"unexplored_paths\":{},\"timed_out\":{},\"known_findings_hit\":{},\
\"engine_audit\":{{\"conclusions_put_to_the_solver\":{},\"confirmed\":{},\"undecided\":{},\"refuted\":{},\"beyond_budget\":{},\"by_kind\":{{{}}},\"solver_ms\":{}}}}},\
\"assumptions\":{},\"wall_s\":{:.1},\"violations\":{}}}\n",
        jesc(id),
        jesc(if thorough { "thorough" } else { "quick" }),
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        st.paths,
        st.decisions,
        st.traces,
        jlist(samples.iter().map(|s| jesc(s))),
        jlist(names.iter().map(|s| jesc(s))),
        jmap(&st.per_scenario),
        st.reverted,
        st.infeasible,
        jlist(st.functions.iter().map(|s| jesc(s))),
        jesc(&format!("{}{}", p.bounds, props::wide::bounds_of(p.id))),
        dis + triv + und,
        dis + triv,
        und,
        obj.join(","),
        jlist(st.undecided.iter().map(|s| jesc(s))),
        st.obl_queries,
        st.feas_queries,
        st.feas_unknown,
        st.unsat,
        st.sat,
        st.unknown,
        st.solver_ms,
        st.max_query_ms,
        jmap(&st.wins),
        reached.join(","),
        jlist(missing.iter().map(|s| jesc(s))),
        jmap(&st.reverts),
        jmap(&st.unsupported),
        jmap(&st.harness_errors),
        jlist(st.trace_mismatch.iter().map(|s| jesc(s))),
        st.dropped,
        timed_out,
        jlist(known_hit.iter().map(|(k, m)| jesc(&format!("{} [{}]", k, m)))),
        asked,
        confirmed,
        unknown,
        jlist(st.audit.refuted.iter().map(|s| jesc(s))),
        st.audit.beyond_budget,
        st.audit.kinds.iter().map(|(n, k)| format!("{}:[{},{},{}]", jesc(n), k.0, k.1, k.2)).collect::<Vec<_>>().join(","),
        st.audit.ms,
        jlist(assumptions.iter().map(|s| jesc(s))),
        t0.elapsed().as_secs_f64(),
        viols.len()
    );
    if only.is_none() {
        let _ = std::fs::create_dir_all(format!("{}/evidence", root));
        std::fs::write(format!("{}/evidence/{}.json", root, id), ev).expect("evidence");
    }
    println!(
        "{}: {} paths, {} obligations discharged ({} by solver), {} undecided, {} traces replayed, {:.1}s",
        id, st.paths, dis + triv, dis, und, st.traces, t0.elapsed().as_secs_f64()
    );
    if incomplete || und > 0 || !st.trace_mismatch.is_empty() || !st.audit.refuted.is_empty() {
        println!(
            "  INCOMPLETE: {} undecided, {} unexplored, {} undecided branches, {} unsupported, {} harness errors, {} trace mismatches, {} refuted interval conclusions{}",
            und, st.dropped, st.feas_unknown, st.unsupported.len(), st.harness_errors.len(), st.trace_mismatch.len(), st.audit.refuted.len(),
            if timed_out { ", out of time" } else { "" }
        );
    }
    for (k, m) in &known_hit {
        println!("KNOWN-FINDING: property={} {} [{}]", id, k, m);
    }
    if !viols.is_empty() {
        let dir = format!("{}/evidence/replays", root);
        let _ = std::fs::create_dir_all(&dir);
        for (c, s, m, notes) in viols.iter().take(4) {
            let f = format!("{}/{}-{:016x}.replay", dir, id, fnv(&format!("{}{}{}", c, s, m)));
            let body = format!("property {}\nscenario {}\ncheck {}\nmodel {}\nnotes {:?}\n", id, s, c, m, notes);
            let _ = std::fs::write(&f, body);
            println!("  failed: {} @ {} with {} {:?}", c, s, m, notes);
            println!("VIOLATION property={} replay={}", id, f);
        }
        return 1;
    }
    0
}

fn replay_cmd(f: &str) -> i32 {
    let s = std::fs::read_to_string(f).expect("replay file");
    let g = |n: &str| s.lines().find_map(|l| l.strip_prefix(n)).unwrap_or("").trim().to_string();
    let (id, scen, check, model) = (g("property "), g("scenario "), g("check "), g("model "));
    let mut m = term::Model::new();
    for kv in model.split(", ").filter(|x| !x.is_empty()) {
        if let Some((k, v)) = kv.split_once('=') {
            m.insert(k.to_string(), v.parse().unwrap());
        }
    }
    let p = props::all().into_iter().find(|p| p.id == id).expect("property");
    for th in [false, true] {
        let sc = p.scenarios(&props::Cfg { thorough: th });
        if let Some(sc) = sc.into_iter().find(|s| s.name == scen) {
            let c = std::thread::Builder::new().stack_size(256 << 20).spawn(move || run_concrete(&sc, &m)).unwrap().join().unwrap();
            println!("outcome {:?}", c.outcome);
            println!("failed checks {:?} error {:?}", c.failed, c.error);
            for (n, v) in &c.values {
                println!("  {} = {}", n, v.as_ref().map(|x| x.to_string()).unwrap_or_default());
            }
            return if c.failed.contains(&check) { 1 } else { 0 };
        }
    }
    eprintln!("no scenario {}", scen);
    2
}
