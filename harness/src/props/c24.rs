//! C24: concurrent backups into one repository do not harm each other.
use super::PropDef;
use super::c04::tight_but;
use crate::cli::*;
use crate::engine::*;
use crate::fsck;
use crate::fsm::*;
use crate::hist::{self, *};
use crate::trace::*;
use crate::world::*;
use crate::{viol, want};
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

/// What runs besides other such things.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Job {
    /// Roots, --allow-repeat.
    Backup(u32, bool),
    /// A snapshot of before.
    Restore(u32),
    List,
    Check,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Round {
    edits: Vec<(u32, Vec<Edit>)>,
    /// Copy an entry of one root into the other.
    share: Option<u32>,
    jobs: Vec<Job>,
    /// Who goes on, and by how many events. Nobody is held if there's none.
    sched: Vec<(u32, u32)>,
    then: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    hist: Hist,
    rounds: Vec<Round>,
}

fn line(w: &World, k: usize, j: &Job) -> Option<Vec<String>> {
    let mut a = vec!["-r".to_string(), w.repo_arg()];
    match j {
        Job::Backup(m, rep) => {
            a.extend(["backup", "--allow-empty", "--author"].map(String::from));
            a.push(format!("job{k}"));
            if *rep {
                a.push("--allow-repeat".into());
            }
            a.push("--".into());
            a.extend(select(&NAMES, *m).iter().map(|n| w.src(n)));
        }
        Job::Restore(s) => {
            if w.snaps.is_empty() {
                return None;
            }
            a.extend(["restore", "-o"].map(String::from));
            a.extend([w.sb.ps(&format!("job{k}")), w.snaps[pick(*s, w.snaps.len())].id.clone()]);
        }
        Job::List => a.push("snapshots".into()),
        Job::Check => a.push("check".into()),
    }
    Some(a)
}

/// Run them all, at once or as scheduled.
fn together(w: &World, lines: &[Vec<String>], sched: &[(u32, u32)], i: &mut Info) -> R<Vec<Out>> {
    let sb = &w.sb;
    let dir = |k: usize| format!("dir{k}");
    for k in 0..lines.len() {
        let _ = wipe(&sb.p(&dir(k)));
        std::fs::create_dir(sb.p(&dir(k)))?;
    }
    let args = |k: usize| -> Vec<&str> { lines[k].iter().map(|s| s.as_str()).collect() };
    if sched.is_empty() {
        return std::thread::scope(|s| {
            let hs: Vec<_> = (0..lines.len()).map(|k| s.spawn(move || sb.run_in(&dir(k), &args(k)))).collect();
            hs.into_iter().map(|h| h.join().map_err(|_| Fail::E("thread".into()))?).collect()
        });
    }
    // Each is held at its start and after each of its turns.
    let turns: Vec<(usize, u32)> = sched.iter().map(|(who, n)| (pick(*who, lines.len()), *n)).collect();
    let flag = |k: usize, n: usize, what: &str| sb.ps(&format!("{what}-{k}-{n}"));
    let mut cmds = vec![];
    for k in 0..lines.len() {
        let (mut at, mut hold) = (0, vec![(0, flag(k, 0, "held"), flag(k, 0, "go"))]);
        for (_, n) in turns.iter().filter(|t| t.0 == k) {
            at += (*n).max(1) as usize;
            let h = hold.len();
            hold.push((at, flag(k, h, "held"), flag(k, h, "go")));
        }
        for (_, a, b) in &hold {
            let _ = (std::fs::remove_file(a), std::fs::remove_file(b));
        }
        let mut under = vec![];
        for d in ["repo".to_string(), dir(k)] {
            under.push(sb.ps(&d));
            under.push(std::fs::canonicalize(sb.p(&d))?.to_str().unwrap().to_string());
        }
        let spec = Spec { under, reads: true, hold, ..Spec::default() };
        let (c, out) = sb.trace_command(&dir(k), &args(k), &spec, &k.to_string())?;
        cmds.push((c, out));
    }
    let done: Vec<_> = lines.iter().map(|_| std::sync::atomic::AtomicBool::new(false)).collect();
    use std::sync::atomic::Ordering::SeqCst;
    let r: R<Vec<(Out, Trace)>> = std::thread::scope(|s| {
        let mut hs = vec![];
        for (k, (mut c, out)) in cmds.into_iter().enumerate() {
            let done = &done;
            hs.push(s.spawn(move || -> R<(Out, Trace)> {
                let o = run_command_opts(&mut c, false);
                done[k].store(true, SeqCst);
                let mut o = o?;
                let t = read_trace(&out, &o)?;
                o.code = t.code;
                o.signal = t.signal;
                o.cmdline = args(k).join(" ");
                Ok((o, t))
            }));
        }
        let wait = |k: usize, n: usize| -> R<()> {
            let t0 = Instant::now();
            while !std::path::Path::new(&flag(k, n, "held")).exists() && !done[k].load(SeqCst) {
                if t0.elapsed().as_secs() > 100 {
                    return Err(Fail::E(format!("command {k} didn't get to its event {n}: {}", stuck())));
                }
                std::thread::sleep(Duration::from_micros(300));
            }
            Ok(())
        };
        let mut at = vec![0; lines.len()];
        let go = || -> R<()> {
            for k in 0..lines.len() {
                wait(k, 0)?;
            }
            for (k, _) in &turns {
                std::fs::write(flag(*k, at[*k], "go"), b"")?;
                at[*k] += 1;
                wait(*k, at[*k])?;
            }
            Ok(())
        };
        let res = { let mut go = go; go() };
        // (Whatever happened, let them all go, one after the other.)
        for k in 0..lines.len() {
            for n in 0..=turns.len() {
                let _ = std::fs::write(flag(k, n, "go"), b"");
            }
            while !done[k].load(SeqCst) && res.is_ok() {
                std::thread::sleep(Duration::from_micros(300));
            }
        }
        let v = hs.into_iter().map(|h| h.join().map_err(|_| Fail::E("thread".into()))?).collect::<R<Vec<_>>>();
        if let Err(Fail::V(_)) = &v {
            return v;
        }
        res?;
        v
    });
    let r = r?;
    i.add("events", r.iter().map(|x| x.1.n as u64).sum());
    if r.iter().filter(|x| x.1.n > 0).count() > 1 {
        i.hit("interleaved");
    }
    Ok(r.into_iter().map(|x| x.0).collect())
}

/// What all of our processes are doing.
fn stuck() -> String {
    fn of(pid: &str, t: &mut String) {
        for e in std::fs::read_dir(format!("/proc/{pid}/task")).into_iter().flatten().flatten() {
            let r = |f: &str| std::fs::read_to_string(e.path().join(f)).unwrap_or_default();
            *t += &format!("{} {} {} {}; ", e.file_name().to_string_lossy(), r("comm").trim(), r("stat").rsplit(") ").next().unwrap_or("").get(..1).unwrap_or(""), r("syscall").trim());
            for c in r("children").split_whitespace() {
                of(c, t);
            }
        }
    }
    let mut t = String::new();
    of("self", &mut t);
    t
}

fn share(w: &mut World, p: u32) -> R<()> {
    let (from, to) = if p & 1 == 0 { ("a", "b") } else { ("b", "a") };
    let Node::D { kids, .. } = &w.roots[from] else { return Ok(()) };
    if kids.is_empty() {
        return Ok(());
    }
    let n = kids.values().nth(pick(p, kids.len())).unwrap().clone();
    w.edit(to, &Edit::Add { at: p, name: format!("shared{}", p % 7), node: n })?;
    Ok(())
}

fn run(c: &Case, env: &Env) -> R<Info> {
    let mut i = Info::default();
    let mut w = hist::start(&c.hist, env)?;
    let mut past = Past::new();
    for o in &c.hist.ops {
        hist::step(&mut w, &mut past, o, &mut i)?;
    }
    let mut twice = false;
    for r in &c.rounds {
        for (k, es) in &r.edits {
            for e in es {
                w.edit(NAMES[pick(*k, 2)], e)?;
            }
        }
        if let Some(p) = r.share {
            share(&mut w, p)?;
        }
        let jobs: Vec<(&Job, Vec<String>)> = r.jobs.iter().enumerate().filter_map(|(k, j)| Some((j, line(&w, k, j)?))).collect();
        let lines: Vec<Vec<String>> = jobs.iter().map(|x| x.1.clone()).collect();
        let before = w.fsck()?;
        for k in 0..r.jobs.len() {
            let _ = wipe(&w.sb.p(&format!("job{k}")));
            std::fs::create_dir(w.sb.p(&format!("job{k}")))?;
        }
        let outs = together(&w, &lines, &r.sched, &mut i)?;
        for o in &outs {
            if !o.ok() {
                viol!("a command fails while others run: {}", o.describe());
            }
        }
        let after = w.fsck()?;
        for s in before.snaps.keys() {
            want!(after.snaps.contains_key(s), "snapshot {s} is gone");
        }
        let mut new: BTreeSet<&String> = after.snaps.keys().filter(|s| !before.snaps.contains_key(*s)).collect();
        let mut backups = 0;
        for (k, j) in r.jobs.iter().enumerate() {
            match j {
                Job::Backup(m, rep) => {
                    backups += 1;
                    let names = select(&NAMES, *m);
                    let mine: Vec<&String> = new.iter().copied().filter(|s| after.snaps[*s].author == format!("job{k}")).collect();
                    want!(mine.len() == 1 || mine.is_empty() && !rep, "one of the backups made {} snapshots", mine.len());
                    if let Some(id) = mine.first() {
                        new.remove(*id);
                        let s = SnapModel {
                            id: id.to_string(),
                            paths: names.iter().map(|n| w.src(n)).collect(),
                            flat: w.expected(&names),
                            author: Some(format!("job{k}")),
                            tags: BTreeSet::new(),
                            roots: names.iter().map(|n| (n.clone(), w.roots[n].clone())).collect(),
                        };
                        past.all.push(s.clone());
                        past.last = names;
                        w.snaps.push(s);
                        i.hit("snapshots");
                    } else {
                        // Then there must be one just like it.
                        let paths: BTreeSet<String> = names.iter().map(|n| w.src(n)).collect();
                        let f = w.expected(&names);
                        let b = after.indexed_blobs();
                        let same = after.snaps.values().any(|s| {
                            s.paths == paths && after.flat(&s.tree, &b).is_ok_and(|g| cmp(&f, &g, Cmp { times: true, modes: true, root_meta: true, atimes: false }).is_empty())
                        });
                        want!(same, "a backup of {paths:?} made no snapshot, but there is none of the same");
                    }
                }
                Job::Restore(s) if !before.snaps.is_empty() => {
                    let m = &w.snaps[..before.snaps.len()];
                    let m = &m[pick(*s, m.len())];
                    let f = rekey(scan(&w.sb.p(&format!("job{k}")))?, &m.paths);
                    let mut f = f;
                    let top = m.paths[0].rsplit('/').next().unwrap();
                    if m.paths.len() == 1 && !m.flat.contains_key(top) {
                        f.remove(top);
                    }
                    let d = cmp(&m.flat, &f, Cmp { times: false, modes: false, root_meta: false, atimes: false });
                    want!(d.is_empty(), "restored while backups ran: {}", show(&d));
                    i.hit("restored-meanwhile");
                }
                Job::Restore(_) => {}
                Job::List => i.hit("listed-meanwhile"),
                Job::Check => i.hit("checked-meanwhile"),
            }
        }
        want!(new.is_empty(), "snapshots nobody made: {new:?}");
        i.add("backups", backups);
        for k in 0..r.jobs.len() {
            if let Ok(mut d) = std::fs::read_dir(w.sb.p(&format!("dir{k}"))) {
                if let Some(e) = d.next() {
                    viol!("{:?} is left in the working directory", e?.file_name());
                }
            }
        }
        for (d, _, f) in parts(&w)? {
            viol!("{f} is left in {d}");
        }
        // Sound, and nothing stored more often than by each backup once.
        let now = w.deep_check()?;
        let count = |r: &fsck::Repo| {
            let mut n: BTreeMap<String, u64> = BTreeMap::new();
            for (_, e) in r.all_blobs() {
                *n.entry(e.id).or_default() += 1;
            }
            n
        };
        let (b, a) = (count(&before), count(&now));
        for (id, n) in &a {
            match b.get(id) {
                Some(m) => want!(n == m, "blob {id}, which was there before, is stored {n} times instead of {m}"),
                None => want!(*n <= backups, "blob {id} is stored {n} times by {backups} backups"),
            }
        }
        if a.values().any(|n| *n > 1) {
            i.hit("stored-twice");
            twice = true;
        }
        let m: BTreeSet<_> = now.master().into_keys().collect();
        want!(now.packs.keys().all(|p| m.contains(p) || before.packs.contains_key(p)), "a pack of one of the backups is in no index");
        w.check_cmd("repo")?;
        w.bp_ok(&["usage"])?;
        for o in &r.then {
            if !hist::step(&mut w, &mut past, o, &mut i)? {
                continue;
            }
            match o {
                Op::Prune => tight_but(&w, twice)?,
                _ => drop(w.deep_check()?),
            }
            if matches!(o, Op::Prune | Op::Rebuild) {
                i.hit("maintained-after");
            }
        }
    }
    w.check_all(&[])?;
    // All of it can be copied.
    if !w.snaps.is_empty() {
        w.make_repo("dst", &c.hist.setup)?;
        let d = w.sb.ps("dst");
        w.bp_ok(&["copy", "--to", &d, "--all"])?;
        let d = w.fsck_of("dst", &c.hist.setup.backend)?;
        d.sound().map_err(|e| Fail::V(format!("the copy is not sound: {e}")))?;
        want!(d.snaps.len() == w.snaps.len(), "{} of {} snapshots were copied", d.snaps.len(), w.snaps.len());
        want!(d.duplicates().is_empty(), "copy stored something twice");
    }
    w.bp_ok(&["prune"])?;
    tight_but(&w, twice)?;
    let had: BTreeSet<String> = w.fsck()?.packs.into_keys().collect();
    if !had.is_empty() {
        w.bp_ok(&["rebuild-index"])?;
    }
    w.check_all(&[])?;
    w.check_cmd("repo")?;
    i.nontrivial = i.labels.get("snapshots").is_some_and(|n| *n > 1);
    i.note = format!("{} backups at once, {} events", i.labels.get("backups").unwrap_or(&0), i.labels.get("events").unwrap_or(&0));
    Ok(i)
}

fn parts(w: &World) -> R<Vec<(&'static str, usize, String)>> {
    let mut v = vec![];
    for d in ["packs", "indexes", "snapshots"] {
        for f in w.sb.list("repo", d)? {
            if f.ends_with(".part") {
                v.push((d, v.len(), f));
            }
        }
    }
    Ok(v)
}

fn strat(held: bool) -> BoxedStrategy<Case> {
    let p = any::<u32>;
    let cfg = GenCfg { size: 8, ..GenCfg::default() };
    let job = prop_oneof![
        8 => (prop_oneof![3 => Just(1u32), 2 => Just(2), 3 => Just(3)], prop::bool::weighted(0.8)).prop_map(|(m, r)| Job::Backup(m, r)),
        1 => p().prop_map(Job::Restore),
        1 => Just(Job::List),
        1 => Just(Job::Check),
    ];
    let turn = (p(), prop_oneof![3 => 1u32..12, 3 => 1u32..60, 1 => Just(1u32), 1 => 50u32..200]);
    let sched = if held { prop::collection::vec(turn, 1..12).boxed() } else { Just(vec![]).boxed() };
    let then = prop::collection::vec(hist::op(cfg, W { prune: 4, rebuild: 3, ..W::default() }), 0..4);
    let round = (
        prop::collection::vec((p(), prop::collection::vec(edit(cfg), 1..4)), 0..3),
        prop::option::weighted(0.7, p()),
        (prop_oneof![3 => Just(1u32), 2 => Just(2), 3 => Just(3)], prop::collection::vec(job, 1..if held { 3 } else { 5 })).prop_map(|(m, mut j)| {
            // At least two backups.
            if j.iter().filter(|j| matches!(j, Job::Backup(..))).count() < 2 {
                j.push(Job::Backup(m, true));
            }
            j
        }),
        sched,
        then,
    )
        .prop_map(|(edits, share, jobs, sched, then)| Round { edits, share, jobs, sched, then });
    let h = hist::hist(cfg, W { prune: 1, forget: 1, ..W::default() }, 0..4).prop_map(move |mut h| {
        // (With the cache's locks held, others would wait for them.)
        if held && h.setup.backend == Backend::Cached {
            h.setup.backend = Backend::Plain;
        }
        h
    });
    (h, prop::collection::vec(round, 1..3)).prop_map(|(hist, rounds)| Case { hist, rounds }).boxed()
}

pub fn def() -> PropDef {
    PropDef {
        suites: vec![
            Box::new(Suite { name: "interleaved", quick: 600, thorough: 8000, threads: 8, strat: Box::new(|| strat(true)), run: Box::new(run) }),
            Box::new(Suite { name: "parallel", quick: 200, thorough: 5000, threads: 4, strat: Box::new(|| strat(false)), run: Box::new(run) }),
        ],
        level: "exploration",
        rule: "two or more backups ran at the same time and made snapshots",
        assumptions: vec![
            "the files don't change while they are backed up",
            "commands at the same time are backups and such as only read; each has a working directory of its own",
        ],
    }
}
