mod bv;
mod checks;
mod config;
mod cross;
mod exec;
mod intr;
mod ir;
mod json;
mod lab;
mod report;
mod sources;
mod scen;
mod spec;

use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

struct Out {
    cfg: &'static str,
    cpu: &'static str,
    name: String,
    findings: Vec<lab::Finding>,
    obligations: u64,
    discharged: u64,
    inductive: u64,
    insts: u64,
    calls: u64,
    branches: u64,
    funcs: BTreeSet<String>,
    secs: f64,
    atoms: usize,
    hist: u64,
    stats: String,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let prop = a.get(1).cloned().unwrap_or_default();
    let tier = if a.get(2).map(|s| s.as_str()) == Some("thorough") { 1u8 } else { 0 };
    let env = config::Env {
        repo: get("--repo").unwrap_or("/repo".into()).into(),
        verif: get("--verif").unwrap_or("/verif".into()).into(),
        scratch: PathBuf::from(get("--scratch").expect("--scratch")),
    };
    let only = get("--only");
    let t0 = Instant::now();
    let Some(plan) = checks::plan(&prop, tier) else {
        eprintln!("unknown property {}", prop);
        std::process::exit(2);
    };
    let jobs: Vec<&checks::Job> = plan.jobs.iter().filter(|j| only.as_ref().map_or(true, |o| format!("{}/{}/{}", j.cfg, j.cpu, j.name).contains(o.as_str()))).collect();
    let mut cfgs: Vec<&'static str> = jobs.iter().map(|j| j.cfg).collect();
    cfgs.sort();
    cfgs.dedup();
    env.harness();
    let mut extras: Vec<Result<checks::Extra, String>> = vec![];
    let progs: BTreeMap<&'static str, Result<exec::Program, String>> = std::thread::scope(|s| {
        let xs: Vec<_> = plan.extras.iter().map(|x| s.spawn(|| x(&env))).collect();
        let hs: Vec<_> = cfgs.iter().map(|c| (*c, s.spawn(|| env.build(&config::config(c))))).collect();
        let r = hs.into_iter().map(|(c, h)| (c, h.join().unwrap_or_else(|_| Err("IR parser panicked".into())))).collect();
        for x in xs {
            extras.push(x.join().unwrap_or_else(|_| Err("rule failed to run".into())));
        }
        r
    });
    let build_s = t0.elapsed().as_secs_f64();
    let mut skipped: Vec<String> = vec![];
    let mut items: Vec<report::Item> = vec![];
    for (c, p) in &progs {
        if let Err(e) = p {
            let msg: Vec<&str> = e.lines().filter(|l| l.starts_with("error")).take(3).collect();
            skipped.push(format!("{}: {}", c, msg.join(" / ")));
            if e.starts_with("toolchain:") {
                eprintln!("{}", e);
                std::process::exit(2);
            }
            if plan.must_build {
                items.push(report::Item { cfg: c.to_string(), f: lab::Finding { kind: "Build".into(), loc: format!("build configuration {}", c), detail: msg.join(" / "), scen: e.clone() } });
            }
            eprintln!("build of configuration {} failed:\n{}", c, e);
        }
    }
    if !progs.is_empty() && progs.values().all(|p| p.is_err()) && items.is_empty() {
        eprintln!("no configuration builds");
        std::process::exit(2);
    }
    let jobs: Vec<&checks::Job> = jobs.into_iter().filter(|j| progs[j.cfg].is_ok()).collect();
    // the long ones first
    let slow = |n: &str| n.contains("long") || n.contains("hc256") || n.contains("interleaved") || n.contains("wrap") || n.contains("batches");
    let (first, rest): (Vec<&checks::Job>, Vec<&checks::Job>) = jobs.into_iter().partition(|j| slow(&j.name));
    let jobs: Vec<&checks::Job> = first.into_iter().chain(rest).collect();
    let next = AtomicUsize::new(0);
    let outs: Mutex<Vec<Out>> = Mutex::new(vec![]);
    let nt = std::env::var("VG_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize);
    std::thread::scope(|s| {
        for _ in 0..nt {
            std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= jobs.len() {
                    break;
                }
                let j = jobs[i];
                let p = progs[j.cfg].as_ref().unwrap();
                let t = Instant::now();
                let mut l = lab::Lab::new(p, config::cpu(j.cpu), tier);
                l.public_positions = plan.public_positions;
                l.wipe = plan.kinds.contains(&"NotErased");
                l.ex.repo_prefix = format!("{}/", env.repo.display());
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (j.f)(&mut l)));
                if r.is_err() {
                    l.findings.push(lab::Finding { kind: "Internal".into(), loc: "analyzer".into(), detail: "analyzer failure".into(), scen: format!("{}: {}", l.scen, l.hist.join(" ; ")) });
                }
                let o = Out {
                    cfg: j.cfg,
                    cpu: j.cpu,
                    name: j.name.clone(),
                    findings: std::mem::take(&mut l.findings),
                    obligations: l.obligations,
                    discharged: l.discharged,
                    inductive: l.inductive,
                    insts: l.ex.stats.insts,
                    calls: l.ex.stats.calls,
                    branches: l.ex.stats.branches,
                    funcs: l.ex.repo_funcs.iter().cloned().collect(),
                    secs: t.elapsed().as_secs_f64(),
                    atoms: l.ex.t.atoms.len(),
                    hist: l.ncalls,
                    stats: l.ex.t.stats(),
                };
                outs.lock().unwrap().push(o);
            }).unwrap();
        }
    });
    let mut outs = outs.into_inner().unwrap();
    outs.sort_by_key(|o| (o.cfg, o.cpu, o.name.clone()));
    if a.iter().any(|x| x == "-v") {
        for o in &outs {
            println!("{}/{}/{}: {}/{} obligations, {} inductive, {} insts {} atoms {:.2}s", o.cfg, o.cpu, o.name, o.discharged, o.obligations, o.inductive, o.insts, o.atoms, o.secs);
            if std::env::var("VGSTATS").is_ok() { println!("{}", o.stats); }
            for f in o.findings.iter().filter(|f| a.iter().any(|x| x == "-vv") || plan.kinds.contains(&f.kind.as_str()) || f.kind == "Internal") {
                println!("   {} {} | {} | {}", f.kind, f.loc, f.detail, f.scen);
            }
        }
    }
    let mut internal = 0;
    let (mut ob, mut di, mut ind, mut insts, mut calls, mut branches) = (0, 0, 0, 0, 0, 0);
    let mut funcs: BTreeSet<String> = BTreeSet::new();
    let mut per: BTreeMap<(String, String), (u64, u64)> = BTreeMap::new();
    for o in &outs {
        ob += o.obligations;
        di += o.discharged;
        ind += o.inductive;
        insts += o.insts;
        calls += o.calls;
        branches += o.branches;
        funcs.extend(o.funcs.iter().cloned());
        let e = per.entry((o.cfg.to_string(), o.cpu.to_string())).or_default();
        e.0 += 1;
        e.1 += o.obligations;
        if o.insts < 20 {
            eprintln!("job {}/{}/{} analysed nothing", o.cfg, o.cpu, o.name);
            internal += 1;
        }
        for f in &o.findings {
            if f.kind == "Internal" {
                internal += 1;
                eprintln!("internal failure in {}/{}/{}: {} {}", o.cfg, o.cpu, o.name, f.detail, f.scen);
            } else if plan.kinds.contains(&f.kind.as_str()) && !(plan.exempt)(f) {
                items.push(report::Item { cfg: format!("{} cpu {}", o.cfg, o.cpu), f: f.clone() });
            }
        }
    }
    // rules decided by type checking / item inspection
    let mut extra_desc: Vec<String> = vec![];
    for e in extras {
        match e {
            Ok(x) => {
                ob += x.obligations;
                di += x.obligations - x.findings.len().min(x.obligations as usize) as u64;
                extra_desc.extend(x.desc);
                for f in x.findings {
                    if a.iter().any(|x| x == "-v") {
                        println!("   {} {} | {} | {}", f.kind, f.loc, f.detail, f.scen);
                    }
                    items.push(report::Item { cfg: "rustc".into(), f });
                }
            }
            Err(m) => {
                eprintln!("{}", m);
                internal += 1;
            }
        }
    }
    let ev_dir = env.verif.join("evidence");
    let _ = std::fs::create_dir_all(&ev_dir);
    let kn = report::known(&env.verif.join("known_findings.txt"));
    let nviol = report::verdict(&prop, &items, &kn, &ev_dir);
    let bad = items.len() as u64;
    if plan.kinds.contains(&"Mismatch") {
        // obligations already count mismatches
    } else {
        // event rules: every analysed call history is one obligation
        ob += outs.iter().map(|o| o.hist).sum::<u64>();
        di += outs.iter().map(|o| o.hist).sum::<u64>().saturating_sub(bad);
    }
    let samples: Vec<String> = outs.iter().take(400).step_by((outs.len() / 6).max(1)).map(|o| format!("{} on cpu {}: {} ({} obligations, {} instructions interpreted)", o.cfg, o.cpu, o.name, o.obligations, o.insts)).collect();
    let explanation = format!(
        "{} | {} analysis jobs over {} repository functions; rule: {}. Builds x cpu models (jobs, obligations): {}. {}{}",
        "Abstract interpretation of rustc's LLVM IR (un-optimised by LLVM) of /repo, rebuilt on this run, entered through public-API harness functions with symbolic inputs; nothing is executed.",
        outs.len(), funcs.len(), plan.rule,
        per.iter().map(|((c, m), (n, o))| format!("{}/{} ({}, {})", c, m, n, o)).collect::<Vec<_>>().join(", "),
        if skipped.is_empty() { String::new() } else { format!("Configurations that did not build and were left out: {}. ", skipped.join("; ")) },
        if extra_desc.is_empty() { String::new() } else { format!("Type-level rules: {}", extra_desc.len()) },
    );
    let json = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"obligations\": {},\n  \"discharged\": {},\n  \"inductive_steps\": {},\n  \"checker_cmd\": {},\n  \"trusted_base\": {},\n  \"explanation\": {},\n  \"instructions_interpreted\": {},\n  \"calls_followed\": {},\n  \"branches_decided_or_joined\": {},\n  \"repo_functions\": {},\n  \"samples\": {},\n  \"rules\": {}\n }},\n \"assumptions\": {},\n \"violations\": {},\n \"wall_s\": {:.1}\n}}\n",
        report::esc(&prop), report::esc(if tier > 0 { "thorough" } else { "quick" }),
        std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<i64>().ok()).unwrap_or(1),
        report::esc(plan.level), ob, di, ind,
        report::esc(&format!("bash check.sh {} {}", prop, if tier > 0 { "thorough" } else { "quick" })),
        report::arr(["rustc front end and its LLVM IR emission".to_string(), "the analyzer's IR semantics and term normaliser (/verif/analyzer/src)".into(), "the specification terms (/verif/analyzer/src/spec.rs)".into()]),
        report::esc(&explanation), insts, calls, branches,
        report::arr(funcs.iter().cloned()), report::arr(samples), report::arr(extra_desc),
        report::arr(plan.assumptions.iter().map(|s| s.to_string())),
        nviol, t0.elapsed().as_secs_f64()
    );
    std::fs::write(ev_dir.join(format!("{}.json", prop)), json).unwrap();
    println!("{}: {} obligations, {} discharged, {} violations; build {:.1}s total {:.1}s", prop, ob, di, nviol, build_s, t0.elapsed().as_secs_f64());
    if nviol > 0 {
        std::process::exit(1);
    }
    if internal > 0 {
        std::process::exit(2);
    }
}
