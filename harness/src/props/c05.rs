//! C05: a crash at any point never loses a snapshot and work can resume.
use super::PropDef;
use crate::engine::*;
use crate::fsck;
use crate::fsm::*;
use crate::hist::{self, *};
use crate::trace::*;
use crate::world::*;
use crate::{viol, want};
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Cmd {
    Backup(u32),
    Prune,
    Copy,
    Filter(u32, u32),
    Rebuild,
    Forget(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Then {
    Same,
    Do(Cmd),
    Edit(u32, Vec<Edit>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub hist: Hist,
    pub cmd: Cmd,
    /// Where to kill: a pick, and whether among the changes to names only.
    pub kills: Vec<(u32, bool)>,
    pub torn: bool,
    /// Run it again and kill it again.
    pub again: Option<(u32, bool)>,
    /// Follow-up commands run in the crashed command's directory.
    pub same_cwd: bool,
    pub then: Vec<Then>,
}

pub const DIRS: [&str; 4] = ["repo", "dst", "cwd", "home"];

pub fn cmd() -> BoxedStrategy<Cmd> {
    let p = any::<u32>;
    prop_oneof![
        5 => prop_oneof![3 => Just(1u32), 2 => Just(3), 1 => Just(2)].prop_map(Cmd::Backup),
        5 => Just(Cmd::Prune),
        3 => Just(Cmd::Copy),
        2 => (p(), p()).prop_map(|(a, b)| Cmd::Filter(a, b)),
        2 => Just(Cmd::Rebuild),
        1 => prop_oneof![(0u32..8).prop_map(|i| Cmd::Forget(1 << i)), p().prop_map(Cmd::Forget)],
    ]
    .boxed()
}

pub struct Two {
    pub w: World,
    pub dst: Vec<SnapModel>,
    pub past: Past,
}
/// A command line with what it needs to be judged.
pub struct Line {
    pub args: Vec<String>,
    pub kind: Kind,
}
#[derive(Clone, Debug)]
pub enum Kind {
    Backup(Vec<String>),
    Copy,
    Filter(SnapModel, Vec<String>),
    Forget(Vec<String>),
    Still,
}

impl Two {
    pub fn new(h: &Hist, env: &Env, i: &mut Info) -> R<Two> {
        let mut w = hist::start(h, env)?;
        let mut past = Past::new();
        let s = Setup { pack: h.setup.pack.map(|p| p * 2), ..h.setup.clone() };
        w.make_repo("dst", &s)?;
        for o in &h.ops {
            hist::step(&mut w, &mut past, o, i)?;
        }
        Ok(Two { w, dst: vec![], past })
    }
    /// None if the command makes no sense now.
    pub fn line(&self, c: &Cmd) -> R<Option<Line>> {
        let r = self.w.repo_arg();
        let mut a: Vec<String> = vec!["-r".into(), r];
        let kind = match c {
            Cmd::Backup(m) => {
                let names = select(&NAMES, *m);
                a.extend(["backup".into(), "--allow-empty".into(), "--".into()]);
                a.extend(names.iter().map(|n| self.w.src(n)));
                Kind::Backup(names)
            }
            Cmd::Prune => {
                a.push("prune".into());
                Kind::Still
            }
            Cmd::Rebuild => {
                if self.w.sb.list("repo", "packs")?.is_empty() {
                    return Ok(None);
                }
                a.push("rebuild-index".into());
                Kind::Still
            }
            Cmd::Copy => {
                if self.w.snaps.is_empty() {
                    return Ok(None);
                }
                a.extend(["copy".into(), "--to".into(), self.w.sb.ps("dst"), "--all".into()]);
                Kind::Copy
            }
            Cmd::Filter(s, e) => {
                if self.w.snaps.is_empty() {
                    return Ok(None);
                }
                let s = &self.w.snaps[pick(*s, self.w.snaps.len())];
                let ps: Vec<&String> = s.flat.keys().filter(|k| k.contains('/')).collect();
                if ps.is_empty() {
                    return Ok(None);
                }
                let pat = vec![ending(ps[pick(*e, ps.len())])];
                a.extend(["filter-snapshot".into(), "--skip".into(), pat[0].clone(), "--".into(), s.id.clone()]);
                Kind::Filter(s.clone(), pat)
            }
            Cmd::Forget(m) => {
                let ids = masked(&self.w, *m);
                if ids.is_empty() {
                    return Ok(None);
                }
                a.push("forget".into());
                a.extend(ids.iter().cloned());
                Kind::Forget(ids)
            }
        };
        Ok(Some(Line { args: a, kind }))
    }
    /// Bring the model up to what is there after (perhaps part of) a command ran.
    /// `done`: it ran to its end.
    pub fn settle(&mut self, l: &Line, done: bool) -> R<()> {
        let have = self.w.sb.snapshots("repo")?;
        let old: BTreeSet<String> = self.w.snaps.iter().map(|s| s.id.clone()).collect();
        let gone: Vec<&String> = old.difference(&have).collect();
        let new: Vec<String> = have.difference(&old).cloned().collect();
        match &l.kind {
            Kind::Forget(ids) => {
                if let Some(g) = gone.iter().find(|g| !ids.contains(g)) {
                    viol!("forget removed snapshot {g}, which it was not told to");
                }
                want!(!done || gone.len() == ids.len(), "forget left some snapshots");
                self.w.snaps.retain(|s| have.contains(&s.id));
            }
            _ => want!(gone.is_empty(), "snapshot {} is gone", gone[0]),
        }
        match (&l.kind, new.len()) {
            (_, 0) => {}
            (Kind::Backup(names), 1) => {
                self.w.adopt(names, &old)?;
                self.past.all.push(self.w.snaps.last().unwrap().clone());
            }
            (Kind::Filter(s, pat), 1) => {
                let mut s = s.clone();
                s.id = new[0].clone();
                s.flat = without(&s.flat, pat);
                for r in s.roots.values_mut() {
                    // (Reverting to this one is not needed.)
                    *r = Node::dir();
                }
                self.w.snaps.push(s);
            }
            _ => viol!("{} new snapshots appeared: {new:?}", new.len()),
        }
        // The copy's target.
        let have = self.w.sb.snapshots("dst")?;
        for s in &self.dst {
            want!(have.contains(&s.id), "snapshot {} is gone from the copy's target", s.id);
        }
        if matches!(l.kind, Kind::Copy) {
            let src = self.w.fsck()?;
            let dst = self.w.fsck_of("dst", &self.w.setup.backend.clone())?;
            for id in &have {
                if self.dst.iter().any(|s| s.id == *id) {
                    continue;
                }
                let d = &dst.snaps[id];
                let Some(m) = self.w.snaps.iter().find(|m| {
                    let x = &src.snaps[&m.id];
                    x.time == d.time && x.author == d.author && x.tree == d.tree && x.paths == d.paths
                }) else {
                    viol!("the target holds snapshot {id}, which none in the source corresponds to")
                };
                self.dst.push(SnapModel { id: id.clone(), ..m.clone() });
            }
            if done {
                let t: BTreeSet<_> = self.dst.iter().map(|s| dst.snaps[&s.id].time).collect();
                for m in &self.w.snaps {
                    want!(t.contains(&src.snaps[&m.id].time), "snapshot {} was not copied", m.id);
                }
            }
        } else {
            want!(have.len() == self.dst.len(), "snapshots appeared in the copy's target");
        }
        Ok(())
    }
    pub fn deep(&self) -> R<(fsck::Repo, fsck::Repo)> {
        let r = self.w.deep_check()?;
        let d = self.w.fsck_of("dst", &self.w.setup.backend.clone())?;
        self.w.deep_check_repo(&d, &self.dst)?;
        Ok((r, d))
    }
    pub fn restore_all(&mut self) -> R<()> {
        for s in self.w.snaps.clone() {
            self.w.check_restore(&s, &[])?;
        }
        for s in self.dst.clone() {
            self.w.check_restore_from("dst", &s, &[])?;
        }
        Ok(())
    }
    pub fn run_done(&mut self, l: &Line, cwd: &str) -> R<()> {
        let a: Vec<&str> = l.args.iter().map(|s| s.as_str()).collect();
        self.w.sb.ok_in(cwd, &a)?;
        self.settle(l, true)
    }
}

/// Which events to kill at: `names` restricts to calls that change what names mean.
pub fn spots(t: &Trace, picks: &[(u32, bool)]) -> Vec<usize> {
    let named: Vec<usize> =
        (0..t.events.len()).filter(|i| ["rename", "unlink", "link", "copy", "open+", "truncate"].iter().any(|k| t.events[*i].starts_with(k))).collect();
    let mut v: Vec<usize> = picks
        .iter()
        .filter_map(|(p, names)| {
            if *names && !named.is_empty() {
                // Before or just after such a call.
                Some(named[pick(*p >> 1, named.len())] + (*p & 1) as usize)
            } else if t.n > 0 {
                Some(pick(*p, t.n))
            } else {
                None
            }
        })
        .collect();
    v.sort();
    v.dedup();
    v
}

fn run(c: &Case, env: &Env) -> R<Info> {
    let mut i = Info::default();
    let mut t = Two::new(&c.hist, env, &mut i)?;
    for d in ["fresh", "view"] {
        std::fs::create_dir(t.w.sb.p(d))?;
    }
    // (Under load a fresh directory for the reading commands.)
    let Some(l) = t.line(&c.cmd)? else { return Ok(i) };
    let a: Vec<&str> = l.args.iter().map(|s| s.as_str()).collect();
    t.w.save(&DIRS, "0")?;
    let under = {
        let mut u = vec![];
        for d in DIRS {
            u.push(t.w.sb.ps(d));
            u.push(std::fs::canonicalize(t.w.sb.p(d))?.to_str().unwrap().to_string());
        }
        u
    };
    let (o, whole) = t.w.sb.traced("cwd", &a, &Spec { under: under.clone(), ..Spec::default() })?;
    if !o.ok() {
        viol!("command failed: {}", o.describe());
    }
    let (snaps, dst, npast, roots) = (t.w.snaps.clone(), t.dst.clone(), t.past.all.len(), t.w.roots.clone());
    t.settle(&l, true)?;
    t.deep()?;
    let name = format!("{:?}", c.cmd).split('(').next().unwrap().to_lowercase();
    let cwd = if c.same_cwd { "cwd" } else { "fresh" };
    for n in spots(&whole, &c.kills) {
        // Back to before the command.
        t.w.load(&DIRS, "0")?;
        empty_dir(&t.w.sb.p("fresh"))?;
        t.w.snaps = snaps.clone();
        t.dst = dst.clone();
        t.past.all.truncate(npast);
        if t.w.roots != roots {
            for (n, r) in &roots {
                remake(r, &t.w.sb.p("src").join(n))?;
            }
            t.w.roots = roots.clone();
        }
        let (o, tr) = t.w.sb.traced("cwd", &a, &Spec { under: under.clone(), kill: Some(n), torn: c.torn, ..Spec::default() })?;
        i.hit("kills");
        if !tr.killed {
            // Thread timing made this run shorter.
            i.hit("not-reached");
            if !o.ok() {
                viol!("command failed: {}", o.describe());
            }
        } else {
            i.hit(&format!("killed-{name}"));
            if let Some(e) = tr.events.last() {
                let what = e.split(' ').next().unwrap();
                let wh = ["packs", "indexes", "snapshots", "/cwd/", "/home/"].iter().find(|w| e.contains(**w)).unwrap_or(&"other");
                i.hit(&format!("at-{what}-{}", wh.trim_matches('/')));
            }
        }
        let ctx = |f: Fail| match f {
            Fail::V(m) => Fail::V(format!("after a kill before event {n} of {} ({}) of `{}`: {m}", tr.n, tr.events.last().cloned().unwrap_or_default(), a[2..].join(" "))),
            x => x,
        };
        (|| -> R<()> {
            // What is there now, as seen by the independent reader and by one restore each.
            t.settle(&l, !tr.killed)?;
            t.deep()?;
            if n % 3 == 0 {
                t.restore_all()?;
            }
            if let (Some(k), Some(l2)) = (&c.again, t.line(&c.cmd)?) {
                let a: Vec<&str> = l2.args.iter().map(|s| s.as_str()).collect();
                let n = spots(&whole, &[*k]).first().copied().unwrap_or(0);
                let (o, tr) = t.w.sb.traced(cwd, &a, &Spec { under: under.clone(), kill: Some(n), torn: c.torn, ..Spec::default() })?;
                if !tr.killed && !o.ok() {
                    viol!("command failed: {}", o.describe());
                }
                i.hit(if tr.killed { "killed-twice" } else { "finished-second-time" });
                t.settle(&l2, !tr.killed)?;
                t.deep()?;
            }
            for th in &c.then {
                let l2 = match th {
                    Then::Edit(r, es) => {
                        for e in es {
                            t.w.edit(NAMES[pick(*r, 2)], e)?;
                        }
                        continue;
                    }
                    Then::Same => match t.line(&c.cmd)? {
                        Some(l2) => l2,
                        None => continue,
                    },
                    Then::Do(x) => match t.line(x)? {
                        Some(l2) => l2,
                        None => continue,
                    },
                };
                // A target's left-over work files would not be its own in the same directory:
                // commands working on another repository get a directory to themselves.
                let other = matches!(l2.kind, Kind::Copy) != matches!(c.cmd, Cmd::Copy);
                let d = if other { "view" } else { cwd };
                if other {
                    empty_dir(&t.w.sb.p("view"))?;
                }
                t.run_done(&l2, d)?;
                t.deep()?;
                i.hit("follow-ups");
            }
            t.restore_all()?;
            t.w.check_cmd("repo")?;
            t.w.check_cmd("dst")?;
            Ok(())
        })()
        .map_err(ctx)?;
    }
    i.nontrivial = i.labels.contains_key(&format!("killed-{name}")) && npast > 0;
    i.note = format!("{name}: {} events", whole.n);
    Ok(i)
}

/// A prefix which leaves something to do for every command.
pub fn prefix(cfg: GenCfg) -> BoxedStrategy<Hist> {
    let w = W { prune: 1, forget: 3, rebuild: 1, revert: 1, repeat: 1, ..W::default() };
    (
        setup(),
        prop::collection::vec(dir(cfg), 2),
        prop::collection::vec(hist::op(cfg, w), 0..5),
        prop_oneof![3 => Just(vec![1u32]), 1 => Just(vec![3]), 1 => Just(vec![1, 3]), 1 => Just(vec![])],
        prop::collection::vec((any::<u32>(), prop::collection::vec(edit(cfg), 1..4)), 1..3),
        prop::option::of(0u32..4),
        prop::option::weighted(0.5, prop::collection::vec(edit(cfg), 1..4)),
    )
        .prop_map(|(setup, roots, mut ops, bk, ed, forget, more)| {
            for b in &bk {
                ops.push(Op::Backup(*b));
            }
            for (r, e) in ed {
                ops.push(Op::Edit(r, e));
            }
            if !bk.is_empty() {
                ops.push(Op::Backup(bk[0]));
            }
            if let Some(f) = forget {
                ops.push(Op::Forget(1 << f));
            }
            if let Some(e) = more {
                ops.push(Op::Edit(0, e));
            }
            Hist { setup, roots, ops }
        })
        .boxed()
}

fn strat(nk: usize) -> BoxedStrategy<Case> {
    let cfg = GenCfg { size: 8, ..GenCfg::default() };
    let then = prop_oneof![
        3 => Just(Then::Same),
        5 => cmd().prop_map(Then::Do),
        2 => (any::<u32>(), prop::collection::vec(edit(cfg), 1..3)).prop_map(|(r, e)| Then::Edit(r, e)),
    ];
    (prefix(cfg), cmd(), prop::collection::vec((any::<u32>(), any::<bool>()), nk), any::<bool>(), prop::option::weighted(0.3, (any::<u32>(), any::<bool>())), prop::bool::weighted(0.65), prop::collection::vec(then, 1..4))
        .prop_map(|(hist, cmd, kills, torn, again, same_cwd, then)| Case { hist, cmd, kills, torn, again, same_cwd, then })
        .boxed()
}

pub fn def() -> PropDef {
    PropDef {
        suites: vec![
            Box::new(Suite { name: "crash", quick: 300, thorough: 6000, threads: 8, strat: Box::new(|| strat(6)), run: Box::new(run) }),
        ],
        level: "exploration",
        rule: "the command was killed at least once before its end, in a repository with a snapshot",
        assumptions: vec![
            "the process is killed (SIGKILL before or in the middle of a system call); loss of data the system had accepted (power failure) is not modelled",
            "left-over work files are used again with the same repository only",
        ],
    }
}
