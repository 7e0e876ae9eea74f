#![allow(clippy::all)]
mod engine;
mod gen;
mod model;
mod props;
mod spy;
mod types;

#[global_allocator]
static ALLOC: spy::Spy = spy::Spy;

use engine::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn known_keys(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in text.lines() {
        // known: property=C18 key=<key> <what fails>
        if let Some(rest) = l.strip_prefix("known: property=") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().unwrap_or("");
            let k = it.next().and_then(|k| k.strip_prefix("key=")).unwrap_or("");
            if p == id {
                out.push((k.to_string(), it.next().unwrap_or("").to_string()));
            }
        }
    }
    out
}

fn write_replay(id: &str, f: &Failure) -> String {
    let dir = verif_dir().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let body = serde_json::json!({"property": id, "sub": f.sub, "message": f.message, "shrink_steps": f.shrinks, "case": f.case});
    let text = serde_json::to_string_pretty(&body).unwrap();
    let mut h: u64 = 0xcbf29ce484222325;
    for b in text.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let p = dir.join(format!("{id}-{}-{:08x}.json", f.sub.replace(['/', ' '], "_"), h as u32));
    let _ = std::fs::write(&p, text);
    p.display().to_string()
}

fn replay_file(check: &Check, path: &Path) -> Result<(), String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {e}", path.display()))?;
    let v: serde_json::Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    let sub = v["sub"].as_str().unwrap_or("");
    let s = check.subs.iter().find(|s| s.name() == sub).ok_or_else(|| format!("no sub {sub}"))?;
    s.replay(&v["case"])
}

static ID: std::sync::OnceLock<String> = std::sync::OnceLock::new();
static REPLAYING: std::sync::OnceLock<String> = std::sync::OnceLock::new();
fn report(f: &Failure) {
    let id = ID.get().unwrap();
    let p = match REPLAYING.get() {
        Some(p) => p.clone(),
        None => write_replay(id, f),
    };
    println!("[{}] {} ", f.sub, f.message.chars().take(2000).collect::<String>());
    println!("VIOLATION property={id} replay={p}");
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut id = String::new();
    let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let mut replay: Option<String> = None;
    let mut only: Option<String> = None;
    let (mut fresh, mut exec) = (None, false);
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                i += 1;
                thorough = args[i] == "thorough";
            }
            "--seed" => {
                i += 1;
                seed = args[i].parse().unwrap();
            }
            "--replay" => {
                i += 1;
                replay = Some(args[i].clone());
            }
            "--only" => {
                i += 1;
                only = Some(args[i].clone());
            }
            "--fresh" => {
                fresh = Some((args[i + 1].parse().unwrap(), args[i + 2].parse().unwrap()));
                i += 2;
            }
            "--exec-ops" => exec = true,
            a => id = a.to_string(),
        }
        i += 1;
    }
    install_panic_hook();
    // processes of their own that some checks start
    if let Some(r) = fresh {
        return props::c25::child(r.0, r.1);
    }
    if exec {
        return props::c26::child();
    }
    let check = match props::get(&id) {
        Some(c) => c,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    };
    ID.set(id.clone()).unwrap();
    let limit = if thorough { 4 * 3600 } else { 780 };
    start_watchdog(Duration::from_secs(limit), report);
    if let Some(p) = replay {
        REPLAYING.set(p.clone()).unwrap();
        // with the stack the shards have
        let file = p.clone();
        let r = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                replay_beat("replay");
                replay_file(&check, Path::new(&file))
            })
            .unwrap()
            .join()
            .unwrap();
        match r {
            Ok(()) => {
                println!("replay: holds");
                std::process::exit(0)
            }
            Err(m) => {
                println!("replay: {m}");
                println!("VIOLATION property={id} replay={p}");
                std::process::exit(1)
            }
        }
    }
    let t0 = Instant::now();
    let env = Env { seed, thorough };
    let mut violations = 0u64;
    let mut evals = 0u64;
    let mut distinct = 0u64;
    let mut nontrivial = 0u64;
    let mut samples: Vec<serde_json::Value> = vec![];
    let mut subs_json = serde_json::Map::new();
    // saved minimal failures first
    let mut regress = 0u64;
    if only.is_none() {
        let dir = verif_dir().join("regress").join(&id);
        let mut files: Vec<_> = std::fs::read_dir(&dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        files.sort();
        for f in files {
            if f.extension().map(|e| e != "json").unwrap_or(true) {
                continue;
            }
            regress += 1;
            if let Err(m) = replay_file(&check, &f) {
                violations += 1;
                println!("[regress] {m}");
                println!("VIOLATION property={id} replay={}", f.display());
            }
        }
        evals += regress;
    }
    for s in &check.subs {
        if let Some(o) = &only {
            if !s.name().contains(o.as_str()) {
                continue;
            }
        }
        let r = s.run(&env);
        evals += r.evals;
        distinct += r.distinct;
        nontrivial += r.nontrivial;
        for x in r.samples.iter().take(2) {
            samples.push(serde_json::json!({"sub": r.name, "case": x}));
        }
        println!("  {:<34} {:>9} cases {:>9} nontrivial {:>9} distinct {:>7.2}s", r.name, r.evals, r.nontrivial, r.distinct, r.secs);
        let mut m = serde_json::Map::new();
        m.insert("kind".into(), r.kind.into());
        m.insert("evaluations".into(), r.evals.into());
        m.insert("nontrivial".into(), r.nontrivial.into());
        m.insert("distinct_nontrivial".into(), r.distinct.into());
        m.insert("seconds".into(), ((r.secs * 100.0).round() / 100.0).into());
        // the most frequent classes by name, the others together
        let mut all: Vec<_> = r.classes.into_iter().collect();
        all.sort_by(|a, b| b.1.cmp(&a.1).then(a.0.cmp(&b.0)));
        let rest: u64 = all.iter().skip(120).map(|x| x.1).sum();
        let mut cl: BTreeMap<_, _> = all.into_iter().take(120).collect();
        if rest > 0 {
            *cl.entry("(others)".into()).or_default() += rest;
        }
        m.insert("classes".into(), serde_json::to_value(cl).unwrap());
        subs_json.insert(r.name.clone(), m.into());
        if let Some(f) = &r.failure {
            violations += 1;
            report(f);
        }
    }
    let known = known_keys(&id);
    for p in &check.probes {
        if only.is_some() {
            break;
        }
        evals += 1;
        if let Err(m) = no_panic(|| (p.run)()).and_then(|r| r) {
            if let Some((_, what)) = known.iter().find(|(k, _)| k == p.key) {
                println!("KNOWN-FINDING: property={id} key={} {what}", p.key);
            } else {
                violations += 1;
                report(&Failure { sub: format!("probe-{}", p.key), case: serde_json::Value::Null, message: m, shrinks: 0 });
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = serde_json::json!({
        "property": id,
        "tier": if thorough {"thorough"} else {"quick"},
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "nontrivial_evaluations": nontrivial,
            "regression_files_replayed": regress,
            "rule": check.rule,
            "samples": samples,
            "subs": subs_json,
        },
        "assumptions": check.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
    });
    if only.is_none() {
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()) {
            eprintln!("cannot write evidence: {e}");
            std::process::exit(2);
        }
    }
    println!("{id}: {evals} evaluations, {distinct} distinct nontrivial, {violations} violations, {wall:.1}s");
    std::process::exit(if violations > 0 { 1 } else { 0 });
}
