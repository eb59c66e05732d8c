//! C18: dry runs change nothing.
use super::PropDef;
use super::c05::{self, Cmd, Line, Two, cmd, prefix, spots};
use crate::cli::*;
use crate::engine::*;
use crate::fsck;
use crate::fsm::{self, *};
use crate::hist::{Hist, NAMES};
use crate::trace::*;
use crate::want;
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Do {
    Run(Cmd),
    /// Take some index files away and have them rebuilt.
    Rebuild(u32),
    Duplicates,
    /// Restore a snapshot over an edited copy of itself (to its own place or with -o).
    Restore { snap: u32, edits: Vec<Edit>, place: bool, flags: u8 },
    Edit(u32, Vec<Edit>),
    Wrong(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    hist: Hist,
    /// A command to kill first, leaving its work files behind.
    kill: Option<(Cmd, u32, bool)>,
    cmds: Vec<(Do, bool, bool)>,
}

const STATE: [&str; 5] = ["repo", "dst", "cwd", "view", "home"];

/// What a command did, in a form which does not depend on when it ran.
#[derive(PartialEq, Debug, Clone)]
struct Effect {
    code: Option<i32>,
    snaps: [BTreeSet<String>; 2],
    /// Stored chunks, and trees where they don't hold times of access.
    blobs: [Vec<String>; 2],
    listed: [usize; 2],
    leftovers: bool,
}

struct T {
    t: Two,
    out: Option<Node>,
}
impl T {
    fn repos(&self) -> R<[fsck::Repo; 2]> {
        let b = self.t.w.setup.backend.clone();
        Ok([self.t.w.fsck_of("repo", &b)?, self.t.w.fsck_of("dst", &b)?])
    }
    fn effect(&self, o: &Out, before: &[fsck::Repo; 2], trees: bool) -> R<Effect> {
        let now = self.repos()?;
        let mut e = Effect { code: o.code, snaps: Default::default(), blobs: Default::default(), listed: [0; 2], leftovers: false };
        for (k, r) in now.iter().enumerate() {
            let m = r.indexed_blobs();
            for (id, s) in &r.snaps {
                let l = if before[k].snaps.contains_key(id) {
                    id.clone()
                } else {
                    let f = r.flat(&s.tree, &m).map_err(|e| Fail::V(format!("snapshot {id}: {e}")))?;
                    let f: BTreeMap<_, _> = f.into_iter().map(|(p, e)| (p, (e.kind, e.mode, e.t))).collect();
                    format!("{:?} {:?} {:?} {}", s.paths, s.tags, s.author, fsck::hash(format!("{f:?}").as_bytes()))
                };
                e.snaps[k].insert(l);
            }
            e.blobs[k] = r.all_blobs().into_iter().filter(|(_, b)| trees || !b.tree).map(|(_, b)| b.id).collect();
            e.blobs[k].sort();
            e.listed[k] = r.master().len();
        }
        for d in ["cwd", "view"] {
            e.leftovers |= std::fs::read_dir(self.t.w.sb.p(d))?.next().is_some();
        }
        Ok(e)
    }
    /// Everything a dry run must leave alone.
    fn image(&self) -> R<BTreeMap<String, Vec<u8>>> {
        let mut m = BTreeMap::new();
        for d in ["repo", "dst", "cwd", "view"] {
            for (n, b) in read_dir_bytes(&self.t.w.sb.p(d))? {
                m.insert(format!("{d}/{n}"), b);
            }
        }
        for d in ["src", "out"] {
            for (n, e) in scan(&self.t.w.sb.p(d))? {
                m.insert(format!("{d}/{n}"), format!("{:?} {:o} {:?}", e.kind, e.mode, e.t).into_bytes());
                if let Kind::F(b) = e.kind {
                    m.insert(format!("{d}/{n} contents"), b.to_vec());
                }
            }
        }
        Ok(m)
    }
    /// Files the way the model says (a real run reads, or restores, them).
    fn refresh(&self) -> R<()> {
        for (n, r) in &self.t.w.roots {
            remake(r, &self.t.w.sb.p("src").join(n))?;
        }
        fsm::wipe(&self.t.w.sb.p("out"))?;
        match &self.out {
            Some(o) => materialise(o, &self.t.w.sb.p("out"))?,
            None => std::fs::create_dir(self.t.w.sb.p("out"))?,
        }
        Ok(())
    }
}
fn torn_index(name: &str, b: &[u8]) -> bool {
    let f = name.rsplit('/').next().unwrap();
    let work = name.starts_with("cwd/") || name.starts_with("view/");
    work && f.strip_suffix(".index").is_some_and(|id| id != "backpak-wip" && fsck::parse_index(b, id).is_err())
}
fn differ(a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>) -> Option<String> {
    for (k, v) in a {
        match b.get(k) {
            None => return Some(format!("{k} is gone")),
            // (A copy of an index torn by a kill is of no use; nobody reads it.)
            Some(x) if x != v && !torn_index(k, v) => return Some(format!("{k} changed")),
            _ => {}
        }
    }
    b.keys().find(|k| !a.contains_key(*k)).map(|k| format!("{k} appeared"))
}

fn run(c: &Case, env: &Env) -> R<Info> {
    let mut i = Info::default();
    let mut s = T { t: Two::new(&c.hist, env, &mut i)?, out: None };
    for d in ["view", "out"] {
        std::fs::create_dir(s.t.w.sb.p(d))?;
    }
    let dir_of = |copy: bool| if copy { "view" } else { "cwd" };
    if let Some((k, p, names)) = &c.kill {
        if let Some(l) = s.t.line(k)? {
            let a: Vec<&str> = l.args.iter().map(|s| s.as_str()).collect();
            let under: Vec<String> = STATE.iter().map(|d| s.t.w.sb.ps(d)).collect();
            let d = dir_of(matches!(l.kind, c05::Kind::Copy));
            // Where it would be killed depends on its length, found by running it first.
            s.t.w.save(&STATE, "k")?;
            let (_, whole) = s.t.w.sb.traced(d, &a, &Spec { under: under.clone(), ..Spec::default() })?;
            s.t.w.load(&STATE, "k")?;
            s.refresh()?;
            let n = spots(&whole, &[(*p, *names)]).first().copied().unwrap_or(0);
            let (_, tr) = s.t.w.sb.traced(d, &a, &Spec { under, kill: Some(n), ..Spec::default() })?;
            s.t.settle(&l, !tr.killed)?;
            if std::fs::read_dir(s.t.w.sb.p(d))?.next().is_some() {
                i.hit("leftovers");
            }
        }
    }
    let mut did = 0;
    for (n, (what, short, twice)) in c.cmds.iter().enumerate() {
        let flag = if *short { "-n" } else { "--dry-run" };
        let r = s.t.w.repo_arg();
        s.out = None;
        let mut hidden = false;
        let (args, line, label): (Vec<String>, Option<Line>, &str) = match what {
            Do::Edit(r, es) => {
                for e in es {
                    s.t.w.edit(NAMES[pick(*r, 2)], e)?;
                }
                continue;
            }
            Do::Run(c) => match s.t.line(c)? {
                Some(l) => (l.args.clone(), Some(l), match c {
                    Cmd::Backup(_) => "backup",
                    Cmd::Prune => "prune",
                    Cmd::Copy => "copy",
                    Cmd::Filter(..) => "filter-snapshot",
                    Cmd::Rebuild => "rebuild-index",
                    Cmd::Forget(_) => "forget",
                }),
                None => continue,
            },
            Do::Rebuild(mask) => {
                if s.t.w.sb.list("repo", "packs")?.is_empty() {
                    continue;
                }
                for (k, f) in s.t.w.sb.list("repo", "indexes")?.into_iter().enumerate() {
                    if mask >> (k % 32) & 1 == 1 {
                        std::fs::remove_file(s.t.w.sb.p("repo/indexes").join(f))?;
                        hidden = true;
                    }
                }
                let l = s.t.line(&Cmd::Rebuild)?.unwrap();
                (l.args.clone(), Some(l), "rebuild-index")
            }
            Do::Duplicates => (vec!["-r".into(), r, "forget".into(), "DUPLICATES".into()], None, "duplicates"),
            Do::Wrong(k) => {
                let mut a: Vec<String> = vec!["-r".into(), r];
                a.extend(match k % 4 {
                    0 => vec!["backup".to_string(), s.t.w.sb.ps("src/a"), s.t.w.sb.ps("src/none")],
                    1 => vec!["forget".into(), "zzzz".into()],
                    2 => vec!["copy".into(), "--to".into(), s.t.w.sb.ps("none"), "--all".into()],
                    _ => vec!["restore".into(), "-o".into(), s.t.w.sb.ps("out/none"), "LAST".into()],
                });
                (a, None, "wrong")
            }
            Do::Restore { snap, edits, place, flags } => {
                if s.t.w.snaps.is_empty() {
                    continue;
                }
                let m = s.t.w.snaps[pick(*snap, s.t.w.snaps.len())].clone();
                let mut a: Vec<String> = vec!["-r".into(), r, "restore".into()];
                for (k, f) in ["--delete", "--times", "--permissions"].iter().enumerate() {
                    if flags >> k & 1 == 1 {
                        a.push(f.to_string());
                    }
                }
                let mut roots = m.roots.clone();
                for (k, e) in edits.iter().enumerate() {
                    let x = NAMES[k % 2];
                    if let Some(r) = roots.get_mut(x) {
                        apply(r, e, &mut s.t.w.clk);
                    }
                }
                if *place {
                    for (n, r) in roots {
                        s.t.w.roots.insert(n, r);
                    }
                } else {
                    let mut o = Node::dir();
                    if m.paths.len() == 1 {
                        let r = roots.into_values().next().unwrap();
                        if r.kids().is_some() {
                            o = r;
                        }
                    } else {
                        *o.kids_mut().unwrap() = roots;
                    }
                    s.out = Some(o);
                    a.extend(["-o".into(), s.t.w.sb.ps("out")]);
                }
                a.extend(["--".into(), m.id.clone()]);
                s.refresh()?;
                (a, None, "restore")
            }
        };
        let cwd = dir_of(label == "copy");
        let dry: Vec<&str> = args[..3].iter().map(|x| x.as_str()).chain([flag]).chain(args[3..].iter().map(|x| x.as_str())).collect();
        let real: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
        let trees = label != "backup";
        let tag = format!("d{n}");
        s.t.w.save(&STATE, &tag)?;
        let at = if hidden { None } else { Some(s.repos()?) };
        let look = |s: &T, o: &Out, at: &Option<[fsck::Repo; 2]>| -> R<(Option<Effect>, Flat, Flat)> {
            let e = match at {
                Some(at) => Some(s.effect(o, at, trees)?),
                None if o.ok() => Some(s.effect(o, &s.repos()?, trees)?),
                None => None,
            };
            Ok((e, scan(&s.t.w.sb.p("src"))?, scan(&s.t.w.sb.p("out"))?))
        };
        // Without a dry run.
        s.refresh()?;
        let o = s.t.w.sb.run_in(cwd, &real)?;
        if !o.ok() && !matches!(label, "wrong" | "restore") {
            return Err(Fail::V(format!("command failed: {}", o.describe())));
        }
        let want = look(&s, &o, &at)?;
        s.t.w.load(&STATE, &tag)?;
        s.refresh()?;
        // With.
        let before = s.image()?;
        for _ in 0..1 + *twice as u8 {
            let x = s.t.w.sb.run_in(cwd, &dry)?;
            if let Some(d) = differ(&before, &s.image()?) {
                return Err(Fail::V(format!("`{}` changed something: {d}", dry[2..].join(" "))));
            }
            want!(!x.panicked(), "dry run panicked: {}", x.describe());
            // (Whether a directory can be written to is not looked at beforehand.)
            want!(x.ok() == o.ok() || args[2] == "restore" && x.ok(), "`{}` {}, but without the flag it {}", dry[2..].join(" "), if x.ok() { "succeeds" } else { "fails" }, if o.ok() { "succeeds" } else { "fails" });
        }
        let o2 = s.t.w.sb.run_in(cwd, &real)?;
        if let Some(l) = &line {
            s.t.settle(l, o2.ok())?;
        } else if label == "duplicates" {
            let have = s.t.w.sb.snapshots("repo")?;
            s.t.w.snaps.retain(|m| have.contains(&m.id));
        }
        let got = look(&s, &o2, &at)?;
        want!(o2.ok() == o.ok(), "after a dry run the command behaves differently: {}", o2.describe());
        if want.0 != got.0 {
            return Err(Fail::V(format!("`{}` had another effect after a dry run: {:?} instead of {:?}", real[2..].join(" "), got.0, want.0)));
        }
        for (w, g) in [(&want.1, &got.1), (&want.2, &got.2)] {
            // Modification times are up to the clock where they are not restored.
            let d = cmp(w, g, Cmp { modes: true, times: o.ok() && args.iter().any(|a| a == "--times"), ..Cmp::default() });
            want!(d.is_empty(), "`{}` had another effect after a dry run: {}", real[2..].join(" "), show(&d));
        }
        if label != "restore" && label != "wrong" {
            s.t.deep()?;
        }
        s.out = None;
        s.refresh()?;
        let after = s.image()?;
        let did_something = before != after || label == "restore" && (want.1 != scan(&s.t.w.sb.p("src"))? || want.2.len() > 1);
        i.hit(&format!("dry-{label}{}", if did_something { "" } else { "-nothing" }));
        did += did_something as u32;
    }
    s.t.restore_all()?;
    i.nontrivial = did > 0;
    Ok(i)
}

fn strat() -> BoxedStrategy<Case> {
    let cfg = GenCfg { size: 8, ..GenCfg::default() };
    let p = any::<u32>;
    let d = prop_oneof![
        8 => cmd().prop_map(Do::Run),
        2 => p().prop_map(Do::Rebuild),
        1 => Just(Do::Duplicates),
        4 => (p(), prop::collection::vec(edit(cfg), 0..5), any::<bool>(), 0u8..8).prop_map(|(snap, edits, place, flags)| Do::Restore { snap, edits, place, flags }),
        3 => (p(), prop::collection::vec(edit(cfg), 1..3)).prop_map(|(r, e)| Do::Edit(r, e)),
        1 => any::<u8>().prop_map(Do::Wrong),
    ];
    (prefix(cfg), prop::option::weighted(0.5, (cmd(), p(), prop::bool::weighted(0.7))), prop::collection::vec((d, any::<bool>(), prop::bool::weighted(0.2)), 2..6))
        .prop_map(|(hist, kill, cmds)| Case { hist, kill, cmds })
        .boxed()
}

pub fn def() -> PropDef {
    PropDef {
        suites: vec![Box::new(Suite { name: "dry", quick: 600, thorough: 10_000, threads: 8, strat: Box::new(strat), run: Box::new(run) })],
        level: "exploration",
        rule: "at least one dry run of a command which, run for real, changed something",
        assumptions: vec![
            "the cache may be filled by reading; times of access are not looked at",
            "left-over work files are used again with the same repository only",
        ],
    }
}
