//! C06: check passes exactly when all snapshots can be restored.
//! C07: damaged repository data is never returned as good data.
use super::PropDef;
use crate::cli::*;
use crate::damage::{self, *};
use crate::engine::*;
use crate::fsm::*;
use crate::hist::{self, *};
use crate::world::*;
use crate::{viol, want};
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    hist: Hist,
    /// Each inner list is applied to the undamaged repository.
    damages: Vec<Vec<Damage>>,
    /// Start the reading commands without what is cached.
    cold: bool,
    pick: u32,
}

fn build(c: &Case, env: &Env, i: &mut Info) -> R<World> {
    let mut w = hist::start(&c.hist, env)?;
    let mut past = Past::new();
    for o in &c.hist.ops {
        hist::step(&mut w, &mut past, o, i)?;
    }
    w.save(&["repo", "home"], "0")?;
    Ok(w)
}
fn label(d: &Damage) -> String {
    format!("{:?}-{}", d.what, format!("{:?}", d.how).split('(').next().unwrap()).to_lowercase()
}
/// Restore the state and damage it.
fn wreck(w: &World, ds: &[Damage], cold: bool, i: &mut Info) -> R<Option<String>> {
    w.load(&["repo", "home"], "0")?;
    let mut what = vec![];
    for d in ds {
        if let Some(t) = damage::apply(w, "repo", d)? {
            i.hit(&label(d));
            what.push(t);
        }
    }
    if what.is_empty() {
        return Ok(None);
    }
    if cold {
        empty_dir(&w.sb.p("home"))?;
    }
    Ok(Some(what.join(", ")))
}

fn run06(c: &Case, env: &Env) -> R<Info> {
    let mut i = Info::default();
    let mut w = build(c, env, &mut i)?;
    // Undamaged: sound and said to be.
    w.check_cmd("repo")?;
    w.deep_check()?;
    let all: BTreeSet<String> = w.sb.list("repo", "packs")?;
    for ds in &c.damages {
        let Some(what) = wreck(&w, &ds[..1], c.cold, &mut i)? else { continue };
        let plain = w.bp(&["check"])?;
        let full = w.bp(&["check", "--read-packs"])?;
        for o in [&plain, &full] {
            want!(!o.panicked(), "check crashes on a damaged repository ({what}): {}", o.describe());
        }
        i.hit(&format!("verdict-{}{}", plain.ok() as u8, full.ok() as u8));
        if plain.ok() {
            // Every pack a live index lists must be there (and without indexes nothing is needed).
            let have = w.sb.list("repo", "packs")?;
            if have != all {
                let gone: Vec<_> = all.difference(&have).collect();
                let needed = w.fsck().map(|r| r.master().keys().any(|p| gone.contains(&&format!("{p}.pack")))).unwrap_or(true);
                want!(!needed, "check passes although a pack listed in an index is gone ({what})");
            }
        }
        if full.ok() {
            // Then whatever is listed must restore; from the stored data, not from a cache.
            empty_dir(&w.sb.p("home"))?;
            let left = w.sb.snapshots("repo")?;
            for s in w.snaps.clone() {
                if left.contains(&s.id) {
                    w.check_restore(&s, &[]).map_err(|f| match f {
                        Fail::V(m) => Fail::V(format!("check --read-packs passes, but after {what}: {m}")),
                        x => x,
                    })?;
                }
            }
            i.hit("passes-and-restores");
        } else {
            i.hit("detected");
        }
    }
    i.nontrivial = !w.snaps.is_empty() && (i.labels.contains_key("detected") || i.labels.contains_key("passes-and-restores"));
    i.note = format!("{} snapshots, {} kinds of damage", w.snaps.len(), c.damages.len());
    Ok(i)
}

fn run07(c: &Case, env: &Env) -> R<Info> {
    let mut i = Info::default();
    let mut w = build(c, env, &mut i)?;
    if w.snaps.is_empty() {
        return Ok(i);
    }
    let r = w.fsck()?;
    // What to ask for, and the right answers.
    let mut asks: Vec<Vec<String>> = vec![];
    let s = |a: &[&str]| a.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    for (k, m) in w.snaps.iter().enumerate().take(3) {
        asks.push(s(&["ls", &m.id]));
        asks.push(s(&["cat", "snapshot", &m.id]));
        let ps: Vec<&String> = m.flat.keys().collect();
        for j in 0..3u32 {
            if !ps.is_empty() {
                asks.push(s(&["dump", &m.id, "--", ps[pick(c.pick.wrapping_mul(j * 2 + 1).wrapping_add(k as u32) >> 3, ps.len())]]));
            }
        }
        if k > 0 {
            asks.push(s(&["diff", &w.snaps[0].id, &m.id]));
        }
    }
    let pids: Vec<&String> = r.packs.keys().collect();
    let iids: Vec<&String> = r.indexes.keys().collect();
    let bids: Vec<String> = r.all_blobs().into_iter().map(|(_, e)| e.id).collect();
    if !pids.is_empty() {
        asks.push(s(&["cat", "pack", pids[pick(c.pick, pids.len())]]));
        asks.push(s(&["cat", "index", iids[pick(c.pick, iids.len())]]));
        for j in 0..3 {
            asks.push(s(&["cat", "blob", &bids[pick((c.pick >> 5).wrapping_mul(j + 1), bids.len())]]));
        }
    }
    let ask = |w: &World, a: &[String]| -> R<Out> { w.bp(&a.iter().map(|x| x.as_str()).collect::<Vec<_>>()) };
    let mut right = vec![];
    for a in &asks {
        let o = ask(&w, a)?;
        if !o.ok() {
            viol!("command failed on an undamaged repository: {}", o.describe());
        }
        right.push(o.stdout);
    }
    for ds in &c.damages {
        let Some(what) = wreck(&w, ds, c.cold, &mut i)? else { continue };
        for (a, good) in asks.iter().zip(&right) {
            let o = ask(&w, a)?;
            want!(!o.panicked(), "`{}` crashes after {what}: {}", a.join(" "), o.describe());
            if o.ok() {
                want!(o.stdout == *good, "`{}` succeeds with wrong output after {what}", a.join(" "));
                i.hit("right");
            } else {
                i.hit("refused");
            }
        }
        for m in w.snaps.clone().iter().take(3) {
            let out = "damaged-out";
            wipe(&w.sb.p(out))?;
            std::fs::create_dir(w.sb.p(out))?;
            let o = w.bp(&["restore", "-o", &w.sb.ps(out), "--", &m.id])?;
            want!(!o.panicked(), "restore crashes after {what}: {}", o.describe());
            if o.ok() {
                let got = rekey(scan(&w.sb.p(out))?, &m.paths);
                let d = cmp(&m.flat, &got, Cmp::default());
                want!(d.is_empty(), "restore reports success after {what} but gives something else: {}", show(&d));
                i.hit("restored");
            } else {
                i.hit("restore-refused");
            }
        }
    }
    i.nontrivial = i.labels.contains_key("restore-refused") || i.labels.contains_key("refused");
    i.note = format!("{} questions under {} kinds of damage", asks.len(), c.damages.len());
    let _ = &mut w;
    Ok(i)
}

fn strat(n: usize, most: usize) -> BoxedStrategy<Case> {
    let cfg = GenCfg { size: 10, ..GenCfg::default() };
    let w = W { edit: 6, backup: 6, repeat: 0, forget: 1, prune: 1, rebuild: 1, revert: 1 };
    (hist(cfg, w, 1..6), prop::collection::vec(prop::collection::vec(damage::damage(), 1..=most), n), any::<bool>(), any::<u32>())
        .prop_map(|(mut hist, damages, cold, pick)| {
            hist.ops.insert(0, Op::Backup(1 + pick % 3));
            Case { hist, damages, cold, pick }
        })
        .boxed()
}

pub fn def06() -> PropDef {
    PropDef {
        suites: vec![Box::new(Suite { name: "check", quick: 500, thorough: 12_000, threads: 8, strat: Box::new(|| strat(6, 1)), run: Box::new(run06) })],
        level: "exploration",
        rule: "a repository with snapshots was damaged effectively at least once and checked",
        assumptions: vec!["one object (two when exchanged) is damaged at a time"],
    }
}
pub fn def07() -> PropDef {
    PropDef {
        suites: vec![Box::new(Suite { name: "damage", quick: 250, thorough: 8_000, threads: 8, strat: Box::new(|| strat(4, 2)), run: Box::new(run07) })],
        level: "exploration",
        rule: "at least one command met damage (refused to answer)",
        assumptions: vec!["IDs are collision-free (SHA-224); no forged object carries the ID of another"],
    }
}
