//! C16: filtered repositories store only filtered data and fail safely.
use super::PropDef;
use super::c05::{self, Cmd, Kind, Two};
use crate::cli::*;
use crate::engine::*;
use crate::fsm::*;
use crate::hist::*;
use crate::want;
use crate::world::*;
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};


#[derive(Clone, Debug, Serialize, Deserialize)]
enum What {
    Do(Cmd),
    /// A reading command (which of them).
    Read(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fault {
    what: What,
    /// The filter instead of the unfilter.
    filter: bool,
    /// Which call fails, and if only that.
    n: u8,
    once: bool,
    mode: u8,
    bytes: u32,
    cold: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    hist: Hist,
    codec: Codec,
    big: Option<(u32, u32)>,
    faults: Vec<Fault>,
    then: Vec<Cmd>,
    /// In the end, see what happens with one of the commands only.
    half: Option<bool>,
}
const MODES: [&str; 10] = ["exit", "part", "few", "all", "kill", "mute", "noise", "gone", "err", "lie"];

fn readers(t: &Two) -> Vec<Vec<String>> {
    let r = t.w.repo_arg();
    let mut v: Vec<Vec<String>> = vec![];
    let mut add = |s: &[&str]| v.push([&["-r", r.as_str()], s].concat().iter().map(|s| s.to_string()).collect());
    add(&["check"]);
    add(&["check", "--read-packs"]);
    add(&["snapshots", "--sizes"]);
    add(&["usage"]);
    if let Some(s) = t.w.snaps.last() {
        let out = t.w.sb.ps("out");
        add(&["ls", &s.id]);
        add(&["restore", "-o", &out, "--", &s.id]);
        add(&["cat", "snapshot", &s.id]);
        add(&["diff", &s.id, &t.w.snaps[0].id]);
        if let Some((p, _)) = s.flat.iter().filter(|e| matches!(e.1.kind, crate::fsm::Kind::F(_))).next_back() {
            add(&["dump", &s.id, p]);
        }
    }
    v
}

/// Everything in the repository is what it should be.
fn layout(w: &World, repo: &str) -> R<()> {
    for d in [".", "packs", "indexes", "snapshots"] {
        for e in std::fs::read_dir(w.sb.p(repo).join(d))? {
            let n = e?.file_name().to_string_lossy().into_owned();
            let ok = match d {
                "." => ["config.toml", "packs", "indexes", "snapshots"].contains(&n.as_str()),
                "packs" => n.ends_with(".pack"),
                "indexes" => n.ends_with(".index"),
                _ => n.ends_with(".snapshot"),
            };
            want!(ok, "{d}/{n} is left in the repository");
        }
    }
    Ok(())
}

fn whole(t: &Two) -> R<()> {
    t.deep()?;
    layout(&t.w, "repo")?;
    layout(&t.w, "dst")
}

fn no_cache(t: &Two) -> R<()> {
    let c = t.w.sb.p("home/.cache");
    if c.exists() {
        wipe(&c)?;
    }
    Ok(())
}
fn out_dir(t: &Two) -> R<()> {
    if t.w.sb.p("out").exists() {
        wipe(&t.w.sb.p("out"))?;
    }
    std::fs::create_dir(t.w.sb.p("out"))?;
    Ok(())
}
fn lines(o: &Out) -> Vec<String> {
    let mut l: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect();
    l.sort();
    l
}

fn fault(t: &mut Two, f: &Fault, i: &mut Info) -> R<()> {
    let rs = readers(t);
    let (a, line): (Vec<String>, _) = match &f.what {
        What::Do(c) => match t.line(c)? {
            Some(l) => (l.args.clone(), Some(l)),
            None => return Ok(()),
        },
        What::Read(k) => (rs[pick(*k, rs.len())].clone(), None),
    };
    let copy = line.as_ref().is_some_and(|l| matches!(l.kind, Kind::Copy));
    let args: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    out_dir(t)?;
    // What a reading command says when all is well.
    let (good, tree) = if line.is_none() { (Some(t.w.sb.ok(&args)?), scan(&t.w.sb.p("out"))?) } else { (None, Flat::new()) };
    let mut mode = MODES[f.mode as usize % MODES.len()];
    if f.filter && mode == "lie" {
        mode = "part";
    }
    if f.cold {
        no_cache(t)?;
    }
    out_dir(t)?;
    // (Processes left by the command before may still be around: they don't get to see this.)
    let n = std::fs::read_dir(t.w.sb.p("filter/calls"))?.count();
    let calls = t.w.sb.p(&format!("filter/calls/{n}"));
    std::fs::create_dir(&calls)?;
    let plan = format!("run={n}\nwhich={}\nn={}\nonce={}\nmode={mode}\nbytes={}\n", if f.filter { "filter" } else { "unfilter" }, f.n, if f.once { "yes" } else { "" }, f.bytes);
    std::fs::write(t.w.sb.p("filter/plan"), plan)?;
    let o = t.w.sb.run_in(if copy { "view" } else { "cwd" }, &args)?;
    std::fs::remove_file(t.w.sb.p("filter/plan"))?;
    let failed = calls.join("failed").exists();
    if failed {
        i.hit(&format!("{}-{mode}", if f.filter { "filter" } else { "unfilter" }));
        i.hit("failures");
    } else {
        i.hit("not-reached");
    }
    want!(o.code.is_some(), "{}", o.describe());
    want!(!o.stderr.contains("panicked"), "a failing filter makes it panic: {}", o.describe());
    if !failed {
        want!(o.ok(), "{}", o.describe());
    } else if mode != "lie" {
        want!(!o.ok(), "call {} of the {} failed ({mode}, {} bytes), and the command reports success: {}", f.n, if f.filter { "filter" } else { "unfilter" }, f.bytes, o.describe());
    }
    if let (Some(g), true) = (good, o.ok()) {
        want!(o.cmdline.contains(" check") || lines(&g) == lines(&o), "an incomplete object was read ({mode}), and the output differs: {}", o.describe());
        let d = cmp(&tree, &scan(&t.w.sb.p("out"))?, Cmp { times: false, modes: false, root_meta: false, atimes: false });
        want!(d.is_empty(), "an incomplete object was read ({mode}), and what was restored differs: {}", show(&d));
    }
    if let Some(l) = &line {
        t.settle(l, o.ok())?;
    }
    if mode == "lie" {
        // (The cache believed it.)
        no_cache(t)?;
    }
    whole(t)
}

fn run(c: &Case, env: &Env) -> R<Info> {
    let mut i = Info::default();
    let mut h = c.hist.clone();
    h.setup.backend = Backend::Script(c.codec);
    if let (Some((s, n)), Node::D { kids, .. }) = (c.big, &mut h.roots[0]) {
        kids.insert("big".into(), Node::F { c: Content::Rand(s, n), mode: 0o644, t: (1_600_000_000, 0) });
    }
    let mut t = Two::new(&h, env, &mut i)?;
    std::fs::create_dir(t.w.sb.p("view"))?;
    whole(&t)?;
    for (k, f) in c.faults.iter().enumerate() {
        fault(&mut t, f, &mut i).map_err(|e| match e {
            Fail::V(m) => Fail::V(format!("fault {k} ({f:?}): {m}")),
            e => e,
        })?;
    }
    for x in &c.then {
        if let Some(l) = t.line(x)? {
            let copy = matches!(l.kind, Kind::Copy);
            t.run_done(&l, if copy { "view" } else { "cwd" })?;
            whole(&t)?;
            i.hit("follow-ups");
        }
    }
    t.restore_all()?;
    t.w.check_cmd("repo")?;
    t.w.check_cmd("dst")?;
    if let Some(un) = c.half {
        let f = t.w.sb.p("repo/config.toml");
        let s = std::fs::read_to_string(&f)?;
        let cut: String = s.lines().filter(|l| !l.starts_with(if un { "unfilter" } else { "filter" })).map(|l| format!("{l}\n")).collect();
        std::fs::write(&f, cut)?;
        let before = read_dir_bytes(&t.w.sb.p("repo"))?;
        let (r, s) = (t.w.repo_arg(), t.w.src("a"));
        for a in [vec!["-r", &r, "snapshots"], vec!["-r", &r, "backup", "--allow-repeat", &s], vec!["-r", &r, "check"]] {
            let o = t.w.sb.run(&a)?;
            want!(o.code.is_some() && !o.ok() && !o.stderr.contains("panicked"), "with only one of the two filters: {}", o.describe());
        }
        want!(read_dir_bytes(&t.w.sb.p("repo"))? == before, "a command refusing half a configuration changed the repository");
        i.hit("half");
    }
    i.nontrivial = i.labels.contains_key("failures");
    i.note = format!("{:?}, {} failing commands", c.codec, i.labels.get("failures").copied().unwrap_or(0));
    i.hit(&format!("{:?}", c.codec));

    Ok(i)
}

fn strat() -> BoxedStrategy<Case> {
    use Codec::*;
    let cfg = GenCfg { size: 7, ..GenCfg::default() };
    let codec = prop::sample::select(vec![Cat, Tr, Tr, Base64, Base64, Header, Header, Pad, Bits, Slurp]);
    let bytes = prop_oneof![1 => Just(0u32), 3 => 1u32..300, 2 => 300u32..5_000, 1 => 5_000u32..300_000];
    let fault = (
        prop_oneof![3 => c05::cmd().prop_map(What::Do), 2 => any::<u32>().prop_map(What::Read)],
        prop::bool::weighted(0.75),
        prop_oneof![3 => Just(0u8), 3 => 1u8..4, 1 => 4u8..12],
        any::<bool>(),
        any::<u8>(),
        bytes,
        prop::bool::weighted(0.8),
    )
        .prop_map(|(what, filter, n, once, mode, bytes, cold)| {
            // (Reading commands don't filter, and writing ones read little.)
            let filter = filter && !matches!(what, What::Read(_));
            Fault { what, filter, n, once, mode, bytes, cold }
        });
    (
        c05::prefix(cfg),
        codec,
        prop::option::weighted(0.3, (any::<u32>(), 60_000u32..400_000)),
        prop::collection::vec(fault, 1..5),
        prop::collection::vec(c05::cmd(), 0..3),
        prop::option::weighted(0.2, any::<bool>()),
    )
        .prop_map(|(hist, codec, big, faults, then, half)| Case { hist, codec, big, faults, then, half })
        .boxed()
}

pub fn def() -> PropDef {
    PropDef {
        suites: vec![Box::new(Suite { name: "faults", quick: 800, thorough: 10_000, threads: 8, strat: Box::new(strat), run: Box::new(run) })],
        level: "exploration",
        rule: "a call of the filter or the unfilter failed",
        assumptions: vec![
            "a failing filter says so by its exit status or dies by a signal; an unfilter may also give too little and report success, a filter may not",
            "the cache is removed after an unfilter gave too little and reported success",
        ],
    }
}
