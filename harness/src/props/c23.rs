//! C23: the Backblaze B2 backend stores and lists objects faithfully.
use super::PropDef;
use super::c05::{self, Cmd, Kind, Two};
use crate::b2::{self, Fault};
use crate::cli::*;
use crate::engine::*;
use crate::fsm::*;
use crate::hist::*;
use crate::want;
use crate::world::*;
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum What {
    Do(Cmd),
    /// A reading command (which of them).
    Read(u32),
    /// The same while an object is missing.
    Without(u32, u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step {
    what: What,
    plan: Vec<Fault>,
    cold: bool,
    /// An object is stored a second time before (as after a lost answer).
    twice: Option<u32>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    hist: Hist,
    page: u8,
    conns: u8,
    big: Option<(u32, u32)>,
    others: u8,
    steps: Vec<Step>,
    then: Vec<Cmd>,
    /// In the end: wrong credentials, no such bucket, no connections allowed.
    bad: Option<u8>,
}

const OTHERS: [&str; 8] = ["packs", "packs-old/x.pack", "snapshots.txt", "indexes", "zzz", "a/packs/y.pack", "packs.", "Packs/x.pack"];

fn readers(t: &Two) -> Vec<Vec<String>> {
    let r = t.w.repo_arg();
    let mut v: Vec<Vec<String>> = vec![];
    let mut add = |s: &[&str]| v.push([&["-r", r.as_str()], s].concat().iter().map(|s| s.to_string()).collect());
    add(&["check"]);
    add(&["check", "--read-packs"]);
    add(&["snapshots", "--sizes"]);
    add(&["usage"]);
    if let Some(s) = t.w.snaps.last() {
        let out = t.w.sb.ps("out");
        add(&["ls", &s.id]);
        add(&["restore", "-o", &out, "--", &s.id]);
        add(&["restore", "-o", &out, "--", &s.id]);
        add(&["cat", "snapshot", &s.id]);
        add(&["diff", &s.id, &t.w.snaps[0].id]);
        if let Some((p, _)) = s.flat.iter().filter(|e| matches!(e.1.kind, crate::fsm::Kind::F(_))).next_back() {
            add(&["dump", &s.id, p]);
        }
    }
    v
}

fn mock(t: &Two) -> &b2::Mock {
    t.w.b2.as_ref().unwrap()
}
fn whole(t: &Two) -> R<()> {
    mock(t).mirrored("repo")?;
    mock(t).mirrored("dst")?;
    t.deep().map(|_| ())
}
fn no_cache(t: &Two) -> R<()> {
    let c = t.w.sb.p("home/.cache");
    if c.exists() {
        wipe(&c)?;
    }
    Ok(())
}
fn out_dir(t: &Two) -> R<()> {
    if t.w.sb.p("out").exists() {
        wipe(&t.w.sb.p("out"))?;
    }
    std::fs::create_dir(t.w.sb.p("out"))?;
    Ok(())
}
fn lines(o: &Out) -> Vec<String> {
    let mut l: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect();
    l.sort();
    l
}

/// Run a command; it may not go on forever, nor use more connections than allowed.
fn go(t: &Two, copy: bool, a: &[&str], conns: u8) -> R<(Out, b2::Seen)> {
    let m = mock(t);
    let o = run_command_until(&mut t.w.sb.command(if copy { "view" } else { "cwd" }, a), true, &|| m.forever())?;
    let s = m.seen();
    let cl = || format!("`{}`", a.join(" "));
    want!(!m.forever(), "{} goes on forever, the last answer being: {}\n{:?}", cl(), s.last, s.log.iter().rev().take(12).collect::<Vec<_>>());
    want!(o.code.is_some() && !o.stderr.contains("panicked"), "{}\n{:?}", o.describe(), s.log);
    let most = conns as usize * if copy { 2 } else { 1 };
    want!(s.most <= most, "{} made {} requests at a time, where {most} are allowed", cl(), s.most);
    if let Some(w) = s.wrong.iter().find(|w| w.contains("checksum") || o.ok()) {
        want!(false, "{}: {w}\n{:?}", o.describe(), s.log);
    }
    Ok((o, s))
}

fn step(t: &mut Two, c: &Case, s: &Step, i: &mut Info) -> R<()> {
    let rs = readers(t);
    let (a, line): (Vec<String>, _) = match &s.what {
        What::Do(c) => match t.line(c)? {
            Some(l) => (l.args.clone(), Some(l)),
            None => return Ok(()),
        },
        What::Read(k) | What::Without(k, _) => (rs[pick(*k, rs.len())].clone(), None),
    };
    let copy = line.as_ref().is_some_and(|l| matches!(l.kind, Kind::Copy));
    let args: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let ours = |t: &Two| -> Vec<String> { mock(t).names("repo").into_iter().filter(|n| n.contains('/') && !OTHERS.contains(&n.as_str())).collect() };
    if let Some(k) = s.twice {
        let n = ours(t);
        if !n.is_empty() {
            let n = &n[pick(k, n.len())];
            let d = mock(t).data("repo", n).unwrap();
            mock(t).put("repo", n, d);
            i.hit("twice");
        }
    }
    out_dir(t)?;
    mock(t).arm(&[]);
    // What a reading command says when all is well.
    let (good, tree) = if line.is_none() { (Some(t.w.sb.ok(&args)?), scan(&t.w.sb.p("out"))?) } else { (None, Flat::new()) };
    let mut gone = None;
    if let What::Without(_, k) = s.what {
        let n = ours(t);
        if !n.is_empty() {
            let n = n[pick(k, n.len())].clone();
            gone = Some((mock(t).take("repo", &n).unwrap(), n));
        }
    }
    if s.cold || gone.is_some() {
        no_cache(t)?;
    }
    out_dir(t)?;
    let plan: &[Fault] = if gone.is_some() { &[] } else { &s.plan };
    mock(t).arm(plan);
    let (o, seen) = go(t, copy, &args, c.conns)?;
    i.add("requests", seen.requests as u64);
    for f in &seen.fired {
        let (w, k) = f.split_once(" at ").unwrap();
        i.hit(&format!("{} {}", k.split(' ').next().unwrap(), w.split('(').next().unwrap()));
        i.hit("faults");
    }
    if seen.most > 1 {
        i.hit("concurrent");
    }
    if !s.plan.is_empty() && seen.fired.is_empty() && gone.is_none() {
        i.hit("not-reached");
    }
    if seen.fired.is_empty() && gone.is_none() {
        want!(o.ok(), "{}\n{:?}", o.describe(), seen.log);
    } else {
        i.hit(if o.ok() { "went-well" } else { "failed" });
    }
    if let (Some(g), true) = (good, o.ok()) {
        if let (Some((_, n)), true) = (&gone, o.cmdline.contains(" check")) {
            // (Snapshots, and what isn't needed, are not missed.)
            want!(n.starts_with("snapshots/") || t.deep().is_ok(), "check doesn't see that {n} is missing: {}", o.describe());
        }
        // (Lists of what is there change with what is.)
        if gone.is_none() || ["ls", "restore", "cat", "diff", "dump"].contains(&args[2]) {
            want!(o.cmdline.contains(" check") || lines(&g) == lines(&o), "the output differs after {:?}: {}", seen.fired, o.describe());
            let d = cmp(&tree, &scan(&t.w.sb.p("out"))?, Cmp { times: false, modes: false, root_meta: false, atimes: false });
            want!(d.is_empty(), "after {:?} what was restored differs: {}", seen.fired, show(&d));
        }
    }
    if let Some((d, n)) = gone {
        mock(t).put("repo", &n, d);
        i.hit("without");
    }
    mock(t).arm(&[]);
    if let Some(l) = &line {
        t.settle(l, o.ok())?;
    }
    whole(t)
}

fn run(c: &Case, env: &Env) -> R<Info> {
    let mut i = Info::default();
    let mut h = c.hist.clone();
    h.setup.backend = Backend::B2(c.page, c.conns);
    if let (Some((s, n)), Node::D { kids, .. }) = (c.big, &mut h.roots[0]) {
        kids.insert("big".into(), Node::F { c: Content::Rand(s, n), mode: 0o644, t: (1_600_000_000, 0) });
    }
    let mut t = Two::new(&h, env, &mut i)?;
    let mut others = BTreeMap::new();
    for (k, n) in OTHERS.iter().enumerate() {
        if c.others & (1 << k) != 0 {
            let d = format!("other {n}").into_bytes();
            mock(&t).put("repo", n, d.clone());
            others.insert(n.to_string(), d);
        }
    }
    std::fs::create_dir(t.w.sb.p("view"))?;
    whole(&t)?;
    for (k, s) in c.steps.iter().enumerate() {
        step(&mut t, c, s, &mut i).map_err(|e| match e {
            Fail::V(m) => Fail::V(format!("step {k} ({s:?}): {m}")),
            e => e,
        })?;
    }
    for x in &c.then {
        if let Some(l) = t.line(x)? {
            let copy = matches!(l.kind, Kind::Copy);
            let a: Vec<&str> = l.args.iter().map(|s| s.as_str()).collect();
            mock(&t).arm(&[]);
            let (o, _) = go(&t, copy, &a, c.conns)?;
            want!(o.ok(), "{}", o.describe());
            t.settle(&l, true)?;
            whole(&t)?;
            i.hit("follow-ups");
        }
    }
    mock(&t).arm(&[]);
    no_cache(&t)?;
    t.restore_all()?;
    t.w.check_cmd("repo")?;
    t.w.check_cmd("dst")?;
    for (n, d) in &others {
        want!(mock(&t).data("repo", n).as_ref() == Some(d), "object {n}, which is not of the repository, was changed or removed");
    }
    if let Some(bad) = c.bad {
        let f = t.w.sb.p("repo/config.toml");
        let s = std::fs::read_to_string(&f)?;
        let (what, s2) = match bad {
            0 => ("wrong credentials", s.replace("\"secret\"", "\"other\"")),
            1 => ("a bucket that isn't there", s.replace("\"repo\"", "\"nowhere\"")),
            _ => ("no connections allowed", s.replace(&format!("concurrent_connections = {}", c.conns), "concurrent_connections = 0")),
        };
        want!(s != s2, "unexpected configuration: {s}");
        std::fs::write(&f, s2)?;
        let (r, s) = (t.w.repo_arg(), t.w.src("a"));
        for a in [vec!["-r", &r, "snapshots"], vec!["-r", &r, "backup", "--allow-repeat", &s], vec!["-r", &r, "check"]] {
            mock(&t).arm(&[]);
            let (o, _) = go(&t, false, &a, c.conns)?;
            want!(!o.ok(), "with {what}: {}", o.describe());
        }
        whole(&t)?;
        i.hit("bad");
    }
    i.nontrivial = ["faults", "without", "twice"].iter().any(|k| i.labels.contains_key(*k));
    i.note = format!("{} names per page, {} connections, {} faults", c.page, c.conns, i.labels.get("faults").copied().unwrap_or(0));
    Ok(i)
}

fn strat() -> BoxedStrategy<Case> {
    let cfg = GenCfg { size: 7, ..GenCfg::default() };
    let step = (
        prop_oneof![5 => c05::cmd().prop_map(What::Do), 3 => any::<u32>().prop_map(What::Read), 1 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| What::Without(a, b))],
        prop_oneof![1 => Just(vec![]), 5 => prop::collection::vec(b2::fault(), 1), 2 => prop::collection::vec(b2::fault(), 2..4)],
        prop::bool::weighted(0.8),
        prop::option::weighted(0.2, any::<u32>()),
    )
        .prop_map(|(what, plan, cold, twice)| Step { what, plan, cold, twice });
    (
        c05::prefix(cfg),
        prop_oneof![3 => 1u8..5, 1 => Just(200u8)],
        1u8..5,
        prop::option::weighted(0.3, (any::<u32>(), prop_oneof![5 => 60_000u32..400_000, 1 => 1_000_000u32..6_000_000])),
        prop_oneof![Just(0u8), any::<u8>()],
        prop::collection::vec(step, 1..5),
        prop::collection::vec(c05::cmd(), 0..3),
        prop::option::weighted(0.2, 0u8..3),
    )
        .prop_map(|(hist, page, conns, big, others, steps, then, bad)| Case { hist, page, conns, big, others, steps, then, bad })
        .boxed()
}

pub fn def() -> PropDef {
    PropDef {
        suites: vec![Box::new(Suite { name: "service", quick: 300, thorough: 8_000, threads: 16, strat: Box::new(strat), run: Box::new(run) })],
        level: "exploration",
        rule: "a request met a fault, or an object was missing or stored twice",
        assumptions: vec![
            "the model service answers like B2's documented API (v2/v3): versions, pages, tokens, upload URLs, checksums at the end of an upload",
            "naps between retries are made a hundred times shorter; whoever retries more than 60 times goes on forever",
            "the base URL is replaced through a guarded hook, plain HTTP instead of TLS",
        ],
    }
}
