//! C21: rebuild-index recovers a complete index from the packs alone.
use super::PropDef;
use super::c04::tight_but;
use crate::engine::*;
use crate::fsck;
use crate::fsm::*;
use crate::hist::{self, *};
use crate::trace::*;
use crate::want;
use crate::world::*;
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

/// What befalls the indexes.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tamper {
    Remove(u32),
    RemoveAll,
    /// An index there once was comes back.
    Bring(u32),
    /// Its contents, under another's name.
    Swap(u32, u32),
    Empty(u32),
    Cut(u32, u32),
    Flip(u32, u32),
    /// Something else altogether, under a good name.
    Junk(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Killed {
    Backup(u32),
    Prune,
    Rebuild,
    Filter,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    hist: Hist,
    kills: Vec<(Killed, u32)>,
    tamper: Vec<Tamper>,
    /// Remove a pack, too.
    lose: Option<u32>,
    /// Run it in the directory with the left-overs.
    same_cwd: bool,
    then: Vec<Op>,
}

type Olds = BTreeMap<String, Vec<u8>>;
fn note(w: &World, o: &mut Olds) -> R<()> {
    for f in w.sb.list("repo", "indexes")? {
        if !f.ends_with(".part") && !o.contains_key(&f) {
            o.insert(f.clone(), std::fs::read(w.sb.p("repo/indexes").join(f))?);
        }
    }
    Ok(())
}

fn kill(w: &mut World, past: &mut Past, k: &Killed, at: u32, olds: &mut Olds, i: &mut Info) -> R<()> {
    let (r, mut a) = (w.repo_arg(), vec![]);
    let mut names = vec![];
    match k {
        Killed::Backup(m) => {
            names = select(&NAMES, *m);
            for n in &names {
                w.edit(n, &Edit::Add { at, name: "new".into(), node: Node::file(&format!("new {at}")) })?;
            }
            a.extend(["backup".to_string(), "--".into()]);
            a.extend(names.iter().map(|n| w.src(n)));
        }
        Killed::Prune => a.push("prune".into()),
        Killed::Rebuild if w.sb.list("repo", "packs")?.is_empty() => return Ok(()),
        Killed::Rebuild => a.push("rebuild-index".into()),
        Killed::Filter if w.snaps.is_empty() => return Ok(()),
        Killed::Filter => a.extend(["filter-snapshot", "--skip", "new$", "--dry-run", "LAST"].map(String::from)),
    }
    let mut full = vec!["-r", r.as_str()];
    full.extend(a.iter().map(|s| s.as_str()));
    let under = vec![w.sb.ps("repo"), w.sb.ps("cwd")];
    let before = w.sb.snapshots("repo")?;
    let (_, t) = w.sb.traced("cwd", &full, &Spec { under, kill: Some(pick(at, 60)), ..Spec::default() })?;
    i.hit(if t.killed { "killed" } else { "not-killed" });
    if !names.is_empty() && w.adopt(&names, &before)?.is_some() {
        past.all.push(w.snaps.last().unwrap().clone());
    }
    note(w, olds)
}

fn tamper(w: &World, t: &Tamper, olds: &Olds, i: &mut Info) -> R<()> {
    let d = w.sb.p("repo/indexes");
    let have: Vec<String> = w.sb.list("repo", "indexes")?.into_iter().filter(|f| !f.ends_with(".part")).collect();
    let one = |k: u32| if have.is_empty() { None } else { Some(d.join(&have[pick(k, have.len())])) };
    let put = |p: &std::path::Path, b: &[u8]| -> R<()> {
        let _ = std::fs::remove_file(p);
        Ok(std::fs::write(p, b)?)
    };
    match t {
        Tamper::Remove(k) => {
            if let Some(p) = one(*k) {
                std::fs::remove_file(p)?;
                i.hit("index-removed");
            }
        }
        Tamper::RemoveAll => {
            for f in &have {
                std::fs::remove_file(d.join(f))?;
            }
            i.hit("all-removed");
        }
        Tamper::Bring(k) => {
            let gone: Vec<_> = olds.iter().filter(|o| !have.contains(o.0)).collect();
            if !gone.is_empty() {
                let (f, b) = gone[pick(*k, gone.len())];
                std::fs::write(d.join(f), b)?;
                i.hit("stale-index");
            }
        }
        Tamper::Swap(a, b) => {
            if let (Some(p), false) = (one(*a), olds.is_empty()) {
                put(&p, olds.values().nth(pick(*b, olds.len())).unwrap())?;
                i.hit("index-swapped");
            }
        }
        Tamper::Empty(k) => {
            if let Some(p) = one(*k) {
                put(&p, b"")?;
                i.hit("index-damaged");
            }
        }
        Tamper::Cut(k, n) | Tamper::Flip(k, n) => {
            if let Some(p) = one(*k) {
                let mut b = std::fs::read(&p)?;
                if !b.is_empty() {
                    let n = pick(*n, b.len());
                    if matches!(t, Tamper::Cut(..)) { b.truncate(n) } else { b[n] ^= 1 << (n % 8) }
                    put(&p, &b)?;
                    i.hit("index-damaged");
                }
            }
        }
        Tamper::Junk(k) => {
            put(&d.join(format!("{}.index", fsck::hash(&k.to_be_bytes()))), b"junk")?;
            i.hit("junk");
        }
    }
    Ok(())
}

/// The one index lists exactly the packs there are.
fn complete(w: &World, what: &str) -> R<fsck::Repo> {
    let r = w.fsck()?;
    want!(r.indexes.len() == 1, "{what} there are {} indexes", r.indexes.len());
    let ix = r.indexes.values().next().unwrap();
    let (listed, have): (BTreeSet<_>, BTreeSet<_>) = (ix.packs.keys().collect(), r.packs.keys().collect());
    want!(listed == have, "{what} the index lists {listed:?}, but the packs are {have:?}");
    for (id, p) in &r.packs {
        want!(ix.packs[id] == p.entries, "{what} the index and pack {id} disagree on the manifest");
    }
    let m = r.master();
    want!(m.len() == r.packs.len(), "{what} the index supersedes itself");
    Ok(r)
}

fn run(c: &Case, env: &Env) -> R<Info> {
    let mut i = Info::default();
    let mut w = hist::start(&c.hist, env)?;
    let mut past = Past::new();
    let mut olds = Olds::new();
    for o in &c.hist.ops {
        hist::step(&mut w, &mut past, o, &mut i)?;
        note(&w, &mut olds)?;
    }
    for (k, at) in &c.kills {
        kill(&mut w, &mut past, k, *at, &mut olds, &mut i)?;
    }
    for t in &c.tamper {
        tamper(&w, t, &olds, &mut i)?;
    }
    let mut lost = false;
    let packs: Vec<String> = w.sb.list("repo", "packs")?.into_iter().filter(|f| !f.ends_with(".part")).collect();
    if let (Some(k), false) = (c.lose, packs.is_empty()) {
        let f = &packs[pick(k, packs.len())];
        std::fs::remove_file(w.sb.p("repo/packs").join(f))?;
        // (Or its contents are still to be had.)
        let _ = wipe(&w.sb.p("home/.cache"));
        // (Work left over which counts on the lost pack is refused.)
        empty_dir(&w.sb.p("cwd"))?;
        lost = true;
        i.hit("pack-lost");
    }
    let none = |d: &str| -> R<bool> { Ok(w.sb.list("repo", d)?.iter().all(|f| f.ends_with(".part"))) };
    if none("packs")? && none("indexes")? {
        return Ok(i);
    }
    std::fs::create_dir(w.sb.p("fresh"))?;
    let cwd = if c.same_cwd { "cwd" } else { "fresh" };
    let (snaps, packs) = (w.sb.snapshots("repo")?, crate::cli::read_dir_bytes(&w.sb.p("repo/packs"))?);
    let kinds = w.sb.list("repo", "indexes")?.len();
    let r = w.repo_arg();
    w.sb.ok_in(cwd, &["-r", &r, "rebuild-index"])?;
    let now = complete(&w, "after rebuild-index")?;
    want!(w.sb.snapshots("repo")? == snaps, "rebuild-index changed the snapshots");
    want!(crate::cli::read_dir_bytes(&w.sb.p("repo/packs"))? == packs, "rebuild-index changed the packs");
    // What is whole is usable.
    let blobs = now.indexed_blobs();
    let whole = |id: &str| now.reach(&now.snaps[id].tree, &blobs, &mut BTreeSet::new()).is_ok();
    let broken: Vec<String> = w.snaps.iter().filter(|s| !whole(&s.id)).map(|s| s.id.clone()).collect();
    want!(lost || broken.is_empty(), "snapshots {broken:?} are no longer whole");
    for s in w.snaps.clone() {
        if !broken.contains(&s.id) {
            w.check_restore(&s, &[])?;
        }
    }
    if broken.is_empty() {
        w.deep_check()?;
        w.check_cmd("repo")?;
    } else {
        i.hit("broken-snapshots");
        want!(!w.bp(&["check"])?.ok(), "check succeeds though snapshots {broken:?} are broken");
        // Back up anew: that may fail, with nothing to compare with, but must not rely on what's gone.
        let names: Vec<String> = NAMES.map(String::from).to_vec();
        for round in 0..2 {
            for n in &names[..1 + round] {
                let before = w.sb.snapshots("repo")?;
                let s = w.src(n);
                let o = w.sb.run_in(cwd, &["-r", &r, "backup", "--allow-empty", "--", &s])?;
                want!(!o.panicked(), "{}", o.describe());
                want!(o.ok() || round == 0, "backup fails with all broken snapshots gone: {}", o.describe());
                if !o.ok() {
                    continue;
                }
                i.hit("backup-after-loss");
                let id = w.adopt(std::slice::from_ref(n), &before)?;
                let r = w.fsck()?;
                // None if the latest one is the same.
                let id = id.or_else(|| r.snaps.iter().map(|(id, s)| (s.time, id.clone())).max().map(|x| x.1));
                let Some(id) = id else { return Err(Fail::V("backup succeeded without any snapshot".into())) };
                let f = r.flat(&r.snaps[&id].tree, &r.indexed_blobs()).map_err(|e| Fail::V(format!("backup succeeded, but its snapshot {id} is not whole: {e}")))?;
                let d = cmp(&w.expected(std::slice::from_ref(n)), &f, Cmp { times: true, modes: true, root_meta: true, atimes: false });
                want!(d.is_empty(), "backup succeeded, but its snapshot {id} holds something else: {}", show(&d));
            }
            if round == 0 {
                w.forget(&broken, &[])?;
            }
        }
        past.all.retain(|s| !broken.contains(&s.id));
        w.deep_check()?;
        w.check_cmd("repo")?;
    }
    // Everything goes on as usual.
    for o in &c.then {
        if !hist::step(&mut w, &mut past, o, &mut i)? {
            continue;
        }
        match o {
            Op::Prune => tight_but(&w, i.labels.contains_key("killed"))?,
            Op::Rebuild => drop(complete(&w, "after another rebuild-index")?),
            _ => drop(w.deep_check()?),
        }
    }
    if !none_left(&w)? {
        let before = w.fsck()?.packs.len();
        w.bp_ok(&["rebuild-index"])?;
        want!(complete(&w, "in the end")?.packs.len() == before, "rebuild-index changed the packs");
        w.deep_check()?;
    }
    w.bp_ok(&["prune"])?;
    tight_but(&w, i.labels.contains_key("killed"))?;
    w.check_all(&[])?;
    w.check_cmd("repo")?;
    i.nontrivial = !w.snaps.is_empty() && ["index-removed", "all-removed", "stale-index", "index-swapped", "index-damaged", "junk", "killed"].iter().any(|l| i.labels.contains_key(*l));
    i.note = format!("{} snapshots, {kinds} indexes before", snaps.len());
    Ok(i)
}
fn none_left(w: &World) -> R<bool> {
    let none = |d: &str| -> R<bool> { Ok(w.sb.list("repo", d)?.iter().all(|f| f.ends_with(".part"))) };
    Ok(none("packs")? && none("indexes")?)
}

fn strat() -> BoxedStrategy<Case> {
    let p = any::<u32>;
    let t = prop_oneof![
        4 => p().prop_map(Tamper::Remove),
        2 => Just(Tamper::RemoveAll),
        4 => p().prop_map(Tamper::Bring),
        1 => (p(), p()).prop_map(|(a, b)| Tamper::Swap(a, b)),
        1 => p().prop_map(Tamper::Empty),
        1 => (p(), p()).prop_map(|(a, b)| Tamper::Cut(a, b)),
        2 => (p(), p()).prop_map(|(a, b)| Tamper::Flip(a, b)),
        1 => p().prop_map(Tamper::Junk),
    ];
    let k = prop_oneof![4 => prop_oneof![Just(1u32), Just(3)].prop_map(Killed::Backup), 3 => Just(Killed::Prune), 1 => Just(Killed::Rebuild), 1 => Just(Killed::Filter)];
    let of = |size: u32| {
        let cfg = GenCfg { size, ..GenCfg::default() };
        (
            hist::hist(cfg, W { rebuild: 1, forget: 2, prune: 2, backup: 8, ..W::default() }, 2..10),
            prop::collection::vec(hist::op(cfg, W { rebuild: 2, ..W::default() }), 0..5),
        )
    };
    (
        prop_oneof![of(5), of(10)],
        prop_oneof![2 => Just(vec![]).boxed(), 3 => prop::collection::vec((k, p()), 1..3).boxed()],
        prop::collection::vec(t, 0..4),
        prop::option::weighted(0.25, p()),
        any::<bool>(),
    )
        .prop_map(|((hist, then), kills, tamper, lose, same_cwd)| Case { hist, kills, tamper, lose, same_cwd, then })
        .boxed()
}

pub fn def() -> PropDef {
    PropDef {
        suites: vec![Box::new(Suite { name: "rebuild", quick: 1000, thorough: 20_000, threads: 8, strat: Box::new(strat), run: Box::new(run) })],
        level: "exploration",
        rule: "indexes were tampered with or a command killed before the rebuild, and snapshots are left",
        assumptions: vec![
            "packs themselves are undamaged (but may be missing)",
            "with neither packs nor indexes there is nothing to rebuild",
            "when a pack is lost, so is the work left over by interrupted commands",
            "a backup may fail as long as there are snapshots whose directories are lost",
        ],
    }
}
