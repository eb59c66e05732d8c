//! C22: an operation that hits an I/O error fails loudly and harmlessly.
use super::PropDef;
use super::c05::{self, Cmd, DIRS, Kind, Line, Two};
use crate::engine::*;
use crate::fsm::*;
use crate::hist::*;
use crate::trace::*;
use crate::world::*;
use crate::want;
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What {
    Do(Cmd),
    Restore(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum How {
    /// One call fails.
    Once(i32),
    /// Two do.
    Twice(i32, u32),
    /// Everything needing space does from there on.
    Full(i32),
    /// Everything that changes something does from there on.
    Dead(i32),
    /// These calls do half of what they are told.
    Short(Vec<u32>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fault {
    /// A pick, and among what: everything, what changes names, what isn't a plain write or read
    at: u32,
    among: u8,
    reads: bool,
    how: How,
    /// The thread that saw it takes its time.
    slow: bool,
    /// Another fault in the repetition.
    again: Option<u32>,
    /// Repeat in a fresh directory.
    fresh: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    hist: Hist,
    what: What,
    big: Option<(u32, u32)>,
    faults: Vec<Fault>,
    then: Option<Cmd>,
}

const WR: [i32; 5] = [libc::ENOSPC, libc::EIO, libc::EINTR, libc::EDQUOT, libc::EACCES];

fn some(t: &Trace, f: &Fault) -> Option<usize> {
    let v: Vec<usize> = (0..t.events.len())
        .filter(|i| {
            let e = &t.events[*i];
            let plain = ["write", "read", "stat"].iter().any(|k| e.starts_with(k));
            match f.among % 4 {
                0 => true,
                1 => !plain,
                2 => ["rename", "unlink", "link", "fsync", "truncate", "open+", "copy"].iter().any(|k| e.starts_with(k)),
                _ => !e.contains("/.cache/"),
            }
        })
        .collect();
    (!v.is_empty()).then(|| v[pick(f.at, v.len())])
}
fn spec_for(t: &Trace, f: &Fault, base: &Spec) -> Option<Spec> {
    let n = some(t, f)?;
    let mut s = Spec { reads: f.reads, slow: if f.slow { 60 } else { 0 }, ..base.clone() };
    // What EINTR means for these is up to the system; it doesn't happen on files.
    let suit = |n: usize, e: i32| if e == libc::EINTR && t.events.get(n).is_some_and(|x| !(x.starts_with("write") || x.starts_with("read"))) { libc::EIO } else { e };
    match &f.how {
        How::Once(e) => {
            let x = &t.events[n];
            let e = if x.starts_with("rename") && f.at % 4 == 0 { libc::EXDEV } else { suit(n, *e) };
            s.fail = vec![(n, e)];
        }
        How::Twice(e, d) => s.fail = vec![(n, suit(n, *e)), (n + 1 + (*d as usize % 12), libc::EIO)],
        How::Full(e) => s.fail_from = Some((n, *e)),
        How::Dead(e) => {
            s.fail_from = Some((n, *e));
            s.fail_all = true;
            s.reads = false;
        }
        How::Short(v) => {
            let k: Vec<usize> = (0..t.events.len()).filter(|i| t.events[*i].starts_with("write") || t.events[*i].starts_with("read")).collect();
            if k.is_empty() {
                return None;
            }
            s.short = v.iter().map(|p| k[pick(*p, k.len())]).collect();
        }
    }
    Some(s)
}

fn out_dir(t: &Two) -> R<()> {
    empty_dir_at(t, "out")
}
fn empty_dir_at(t: &Two, d: &str) -> R<()> {
    let p = t.w.sb.p(d);
    if p.exists() {
        wipe(&p)?;
    }
    Ok(std::fs::create_dir(p)?)
}

/// What a restore that reports success must have left in "out".
fn restored(t: &Two, s: &SnapModel) -> R<()> {
    let mut got = scan(&t.w.sb.p("out"))?;
    let top = s.paths[0].rsplit('/').next().unwrap();
    if s.paths.len() == 1 && !s.flat.contains_key(top) {
        got.remove(top);
    }
    let got = rekey(got, &s.paths);
    let d = cmp(&s.flat, &got, Cmp { times: true, modes: true, root_meta: false, atimes: false });
    want!(d.is_empty(), "the restore reports success, but the result differs from what was backed up: {}", show(&d));
    Ok(())
}

fn run(c: &Case, env: &Env) -> R<Info> {
    let mut i = Info::default();
    let mut h = c.hist.clone();
    if let (Some((s, n)), Node::D { kids, .. }) = (c.big, &mut h.roots[0]) {
        kids.insert("big".into(), Node::F { c: Content::Rand(s, n), mode: 0o644, t: (1_600_000_000, 0) });
    }
    let mut t = Two::new(&h, env, &mut i)?;
    for d in ["fresh", "view", "out"] {
        std::fs::create_dir(t.w.sb.p(d))?;
    }
    let mut snap = None;
    let l = match &c.what {
        What::Do(c) => t.line(c)?,
        What::Restore(k) => {
            if t.w.snaps.is_empty() {
                return Ok(i);
            }
            let s = t.w.snaps[pick(*k, t.w.snaps.len())].clone();
            let a = ["-r", &t.w.repo_arg(), "restore", "--times", "--permissions", "--output", &t.w.sb.ps("out"), &s.id].iter().map(|s| s.to_string()).collect();
            snap = Some(s);
            Some(Line { args: a, kind: Kind::Still })
        }
    };
    let Some(l) = l else { return Ok(i) };
    let a: Vec<&str> = l.args.iter().map(|s| s.as_str()).collect();
    let name = match &c.what {
        What::Do(x) => format!("{x:?}").split('(').next().unwrap().to_lowercase(),
        _ => "restore".into(),
    };
    let copy = matches!(l.kind, Kind::Copy);
    t.w.save(&DIRS, "0")?;
    let under = {
        let mut u = vec![];
        for d in ["repo", "dst", "cwd", "fresh", "home", "src", "out"] {
            u.push(t.w.sb.ps(d));
            u.push(std::fs::canonicalize(t.w.sb.p(d))?.to_str().unwrap().to_string());
        }
        u
    };
    let base = Spec { under, ..Spec::default() };
    let (snaps, dst, npast, roots) = (t.w.snaps.clone(), t.dst.clone(), t.past.all.len(), t.w.roots.clone());
    let mut known: [Option<Trace>; 2] = [None, None];
    let reset = |t: &mut Two| -> R<()> {
        t.w.load(&DIRS, "0")?;
        empty_dir_at(t, "fresh")?;
        empty_dir_at(t, "view")?;
        out_dir(t)?;
        t.w.snaps = snaps.clone();
        t.dst = dst.clone();
        t.past.all.truncate(npast);
        if t.w.roots != roots {
            for (n, r) in &roots {
                remake(r, &t.w.sb.p("src").join(n))?;
            }
            t.w.roots = roots.clone();
        }
        Ok(())
    };
    for f in &c.faults {
        reset(&mut t)?;
        // What happens when nothing fails
        if known[f.reads as usize].is_none() {
            let (o, whole) = t.w.sb.traced("cwd", &a, &Spec { reads: f.reads, ..base.clone() })?;
            want!(o.ok(), "command failed: {}", o.describe());
            t.settle(&l, true)?;
            if let Some(s) = &snap {
                restored(&t, s)?;
            }
            known[f.reads as usize] = Some(whole);
            reset(&mut t)?;
        }
        let whole = known[f.reads as usize].as_ref().unwrap();
        let mut cwd = "cwd";
        for round in 0..=(f.again.is_some() as usize) {
            let mut f = f.clone();
            if round == 1 {
                f.at = f.again.unwrap();
            }
            let Some(spec) = spec_for(whole, &f, &base) else { break };
            let Some(l) = (if let What::Do(x) = &c.what { t.line(x)? } else { Some(Line { args: l.args.clone(), kind: l.kind.clone() }) }) else { break };
            let a: Vec<&str> = l.args.iter().map(|s| s.as_str()).collect();
            let (o, tr) = t.w.sb.traced(cwd, &a, &spec)?;
            let hit = !tr.failed.is_empty();
            if hit {
                i.hit(&format!("{name}-{}", if o.ok() { "completes" } else { "fails" }));
                let e = &tr.failed[0];
                let wh = ["packs", "indexes", "snapshots", "/cwd/", "/fresh/", "/.cache/", "/src", "/out"].iter().find(|w| e.contains(**w)).unwrap_or(&"other");
                i.hit(&format!("{}-{}", e.split(' ').next().unwrap(), wh.trim_matches(&['/', '.'])));
                i.hit("faults");
            } else {
                i.hit("not-reached");
            }
            let ctx = |f: Fail| match f {
                Fail::V(m) => Fail::V(format!("with {:?} of `{}`, which ended with {:?}: {m}", tr.failed.iter().take(3).collect::<Vec<_>>(), a[2..].join(" "), o.code)),
                x => x,
            };
            (|| -> R<()> {
                want!(o.code.is_some(), "it was killed by a signal: {}", o.describe());
                want!(!o.panicked(), "it panics: {}", o.describe());
                if !hit {
                    want!(o.ok(), "command failed: {}", o.describe());
                }
                if matches!(f.how, How::Short(_)) {
                    want!(o.ok(), "it fails though nothing is wrong: {}", o.describe());
                }
                if !o.ok() {
                    want!(!o.stderr.trim().is_empty(), "it fails without saying why");
                }
                t.settle(&l, o.ok())?;
                if let (true, Some(s)) = (o.ok(), &snap) {
                    restored(&t, s)?;
                }
                t.deep()?;
                Ok(())
            })()
            .map_err(ctx)?;
            if f.fresh && !copy {
                cwd = "fresh";
            }
            // Once the fault is gone, it works.
            if round == f.again.is_some() as usize {
                (|| -> R<()> {
                    let l = match &c.what {
                        What::Do(x) => t.line(x)?,
                        _ => Some(Line { args: l.args.clone(), kind: l.kind.clone() }),
                    };
                    if let Some(l) = l {
                        t.run_done(&l, cwd)?;
                        i.hit("repeated");
                        if let Some(s) = &snap {
                            restored(&t, s)?;
                        }
                        t.deep()?;
                    }
                    if let Some(x) = &c.then {
                        if let Some(l) = t.line(x)? {
                            t.run_done(&l, if matches!(l.kind, Kind::Copy) != copy { "view" } else { cwd })?;
                            t.deep()?;
                        }
                    }
                    t.restore_all()?;
                    t.w.check_cmd("repo")
                })()
                .map_err(ctx)
                .map_err(|e| match e {
                    Fail::V(m) => Fail::V(format!("(afterwards) {m}")),
                    e => e,
                })?;
            }
        }
    }
    i.nontrivial = i.labels.contains_key("faults") && npast > 0;
    i.note = format!("{name}: {:?}", i.labels.keys().filter(|k| k.contains('-')).take(4).collect::<Vec<_>>());
    Ok(i)
}

fn strat(nf: usize) -> BoxedStrategy<Case> {
    let cfg = GenCfg { size: 8, ..GenCfg::default() };
    let e = || prop::sample::select(WR.to_vec());
    let how = prop_oneof![
        6 => e().prop_map(How::Once),
        2 => (e(), any::<u32>()).prop_map(|(a, b)| How::Twice(a, b)),
        2 => prop::sample::select(vec![libc::ENOSPC, libc::EDQUOT]).prop_map(How::Full),
        1 => prop::sample::select(vec![libc::EIO, libc::EROFS]).prop_map(How::Dead),
        1 => prop::collection::vec(any::<u32>(), 1..12).prop_map(How::Short),
    ];
    let fault = (any::<u32>(), any::<u8>(), any::<bool>(), how, prop::bool::weighted(0.3), prop::option::weighted(0.25, any::<u32>()), any::<bool>())
        .prop_map(|(at, among, reads, how, slow, again, fresh)| Fault { at, among, reads, how, slow, again, fresh });
    let what = prop_oneof![3 => c05::cmd().prop_map(What::Do), 1 => any::<u32>().prop_map(What::Restore)];
    let big = prop::option::weighted(0.1, (any::<u32>(), 100_000u32..3_000_000));
    (c05::prefix(cfg), what, big, prop::collection::vec(fault, nf), prop::option::weighted(0.3, c05::cmd()))
        .prop_map(|(hist, what, big, faults, then)| Case { hist, what, big, faults, then })
        .boxed()
}

pub fn def() -> PropDef {
    PropDef {
        suites: vec![
            Box::new(Suite { name: "faults", quick: 300, thorough: 6000, threads: 8, strat: Box::new(|| strat(6)), run: Box::new(run) }),
        ],
        level: "exploration",
        rule: "a system call was made to fail, in a repository with a snapshot",
        assumptions: vec![
            "system calls on the files of the repository, the cache, the working directory, what is backed up and where is restored fail; memory-mapped reading does not",
            "left-over work files are used again with the same repository only",
        ],
    }
}
