#![allow(dead_code)]
//! vh: property checks for backpak.
//!   vh check PROP quick|thorough      (VERIF_SEED)
//!   vh replay FILE
mod b2;
mod cli;
mod damage;
mod engine;
mod fsck;
mod fsm;
mod hist;
mod props;
mod trace;
mod world;

use engine::*;
use serde_json::{Value, json};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::AtomicU64;
use std::time::{Duration, Instant};

const UID: u32 = 64123;

fn die(m: &str) -> ! {
    eprintln!("vh: error: {m}");
    std::process::exit(2)
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VH_VERIF").unwrap_or("/verif".into()))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() == 4 => parent(&a[1..]),
        Some("replay") if a.len() == 3 => parent(&a[1..]),
        Some("worker") => worker(&a[2..]),
        Some(x) if x.starts_with("helper-") => props::helper(&a[1..]),
        _ => die("usage: vh check PROP quick|thorough | vh replay FILE"),
    }
}

/// Runs as root: makes the scratch directory, starts the unprivileged worker, and
/// stores what it found.
fn parent(a: &[String]) {
    let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    let scratch = PathBuf::from(format!("{base}/vh-{}", std::process::id()));
    let alt = PathBuf::from(format!("/tmp/vh-alt-{}", std::process::id()));
    for d in [&scratch, &alt] {
        std::fs::create_dir(d).unwrap_or_else(|e| die(&format!("{}: {e}", d.display())));
        std::os::unix::fs::chown(d, Some(UID), Some(UID)).ok();
    }
    let r = std::panic::catch_unwind(|| parent_in(a, &scratch, &alt));
    if std::env::var_os("VH_KEEP").is_none() {
        let _ = fsm::wipe(&scratch);
        let _ = fsm::wipe(&alt);
    }
    std::process::exit(r.unwrap_or(2))
}

fn parent_in(a: &[String], scratch: &Path, alt: &Path) -> i32 {
    let bin = std::env::var("VH_BIN").unwrap_or("/repo/target/debug/backpak".into());
    for (from, to) in [(PathBuf::from(&bin), "backpak"), (std::env::current_exe().unwrap(), "vh")] {
        std::fs::copy(&from, scratch.join(to)).unwrap_or_else(|e| die(&format!("{}: {e}", from.display())));
    }
    for (k, to) in [("VH_BIN_HOOK", "backpak-hook")] {
        if let Ok(p) = std::env::var(k) {
            if Path::new(&p).exists() {
                std::fs::copy(&p, scratch.join(to)).unwrap_or_else(|e| die(&format!("{p}: {e}")));
            }
        }
    }
    let mut args: Vec<String> = vec!["worker".into(), scratch.to_str().unwrap().into()];
    args.extend(a.iter().cloned());
    if a[0] == "replay" {
        std::fs::copy(&a[1], scratch.join("replay-in.json")).unwrap_or_else(|e| die(&format!("{}: {e}", a[1])));
    }
    if let Ok(k) = std::fs::read(verif_dir().join("known_findings.txt")) {
        std::fs::write(scratch.join("known_findings.txt"), k).unwrap();
    }
    let mut c = std::process::Command::new(scratch.join("vh"));
    c.args(&args).current_dir(scratch).env("VH_ALT", alt);
    if unsafe { libc::geteuid() } == 0 {
        c.uid(UID).gid(UID);
        unsafe {
            c.pre_exec(|| {
                libc::setgroups(0, std::ptr::null());
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
    }
    let st = c.status().unwrap_or_else(|e| die(&format!("starting the worker: {e}")));
    let Some(code) = st.code() else { die("worker was killed") };
    if a[0] == "replay" {
        return code;
    }
    let prop = &a[1];
    if let Ok(ev) = std::fs::read(scratch.join("evidence.json")) {
        let d = verif_dir().join("evidence");
        std::fs::create_dir_all(&d).ok();
        std::fs::write(d.join(format!("{prop}.json")), ev).unwrap_or_else(|e| die(&format!("evidence: {e}")));
    }
    if let Ok(rp) = std::fs::read(scratch.join("replay-out.json")) {
        let d = verif_dir().join("replays");
        std::fs::create_dir_all(&d).ok();
        let v: Value = serde_json::from_slice(&rp).unwrap();
        let f = d.join(format!("{prop}-{}-{}-{}.json", v["suite"].as_str().unwrap_or("x"), v["seed"], v["index"]));
        std::fs::write(&f, rp).unwrap_or_else(|e| die(&format!("replay: {e}")));
        println!("VIOLATION property={prop} replay={}", f.display());
    }
    code
}

fn worker(a: &[String]) {
    let scratch = PathBuf::from(&a[0]);
    unsafe { libc::umask(0o022) };
    raise_nofile();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let known = std::fs::read_to_string(scratch.join("known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix("finding: ").map(|s| s.to_string()))
        .collect();
    let mut env = Env { tier: Tier::Quick, seed, bin: scratch.join("backpak"), scratch: scratch.clone(), next: AtomicU64::new(0), known };
    if std::env::var_os("VH_VERBOSE").is_none() {
        std::panic::set_hook(Box::new(|i| {
            if std::thread::current().name() == Some("main") {
                eprintln!("{i}");
            }
        }));
    }
    if a[1] == "replay" {
        let v: Value = serde_json::from_slice(&std::fs::read(scratch.join("replay-in.json")).unwrap()).unwrap();
        let prop = v["property"].as_str().unwrap_or("");
        let p = props::get(prop).unwrap_or_else(|| die(&format!("unknown property {prop}")));
        let s = p.suites.iter().find(|s| Some(s.name()) == v["suite"].as_str()).unwrap_or_else(|| die("unknown suite"));
        match s.replay(&env, &v["case"]) {
            Ok(i) => {
                println!("replay passes ({:?})", i.labels);
                std::process::exit(0)
            }
            Err(Fail::V(m)) => {
                println!("replay fails: {m}");
                std::process::exit(1)
            }
            Err(Fail::K(s, d)) => {
                println!("known finding {s}: {d}");
                std::process::exit(0)
            }
            Err(Fail::E(m)) => die(&m),
        }
    }
    let prop = a[2].clone();
    env.tier = match a[3].as_str() {
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    };
    let p = props::get(&prop).unwrap_or_else(|| die(&format!("unknown property {prop}")));
    let t0 = Instant::now();
    // A soft bound only: hitting it just ends generation early (noted in the evidence).
    let limit = if env.tier == Tier::Quick { 420 } else { 3 * 3600 };
    let deadline = t0 + Duration::from_secs(limit);
    let (mut ev, mut nt) = (0, 0);
    let mut samples = vec![];
    let mut suites = vec![];
    let mut violations = 0;
    let mut errors: Vec<String> = vec![];
    let mut known_seen = std::collections::BTreeMap::new();
    let only = std::env::var("VH_SUITE").ok();
    for s in &p.suites {
        if only.as_deref().is_some_and(|o| o != s.name()) {
            continue;
        }
        let t = Instant::now();
        let r = s.go(&prop, &env, deadline);
        ev += r.evaluations;
        nt += r.distinct_nontrivial;
        samples.extend(r.samples.iter().cloned());
        suites.push(json!({"suite": s.name(), "evaluations": r.evaluations, "distinct_nontrivial": r.distinct_nontrivial,
            "labels": r.labels, "wall_s": t.elapsed().as_secs_f64(), "stopped_by_time_bound": r.truncated}));
        eprintln!("[{}] {} cases, {} distinct non-trivial, {:.1}s {:?}{}", s.name(), r.evaluations, r.distinct_nontrivial,
            t.elapsed().as_secs_f64(), r.labels, if r.truncated { " (time bound)" } else { "" });
        for (k, v) in r.known {
            known_seen.entry(k).or_insert(v);
        }
        errors.extend(r.errors);
        if let Some((msg, v)) = r.violation {
            violations += 1;
            println!("{prop}: {msg}");
            std::fs::write(scratch.join("replay-out.json"), serde_json::to_vec_pretty(&v).unwrap()).unwrap();
            break;
        }
    }
    let evj = json!({
        "property": prop,
        "tier": if env.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": p.level,
        "coverage": {"evaluations": ev, "distinct_nontrivial": nt, "rule": p.rule, "samples": samples, "suites": suites},
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    std::fs::write(scratch.join("evidence.json"), serde_json::to_vec_pretty(&evj).unwrap()).unwrap();
    for (k, (n, d)) in &known_seen {
        println!("KNOWN-FINDING: property={prop} {k} ({n} cases) {d}");
    }
    for e in errors.iter().take(5) {
        eprintln!("vh: error: {e}");
    }
    let code = if violations > 0 {
        1
    } else if !errors.is_empty() {
        2
    } else {
        println!("{prop}: held on {ev} cases ({nt} distinct non-trivial) in {:.1}s", t0.elapsed().as_secs_f64());
        0
    };
    std::process::exit(code)
}

fn raise_nofile() {
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur = l.rlim_max.min(65536);
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
}
