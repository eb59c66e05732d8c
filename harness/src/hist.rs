//! Histories of commands on one repository.
use crate::engine::*;
use crate::fsm::*;
use crate::want;
use crate::world::*;
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Edit(u32, Vec<Edit>),
    Backup(u32),
    /// The last backup's paths again, with --allow-repeat.
    Repeat,
    /// Forget the snapshots in the mask (bit i: i-th oldest, modulo the number there are).
    Forget(u32),
    Prune,
    Rebuild,
    /// Put the files back to how a snapshot (maybe a forgotten one) had them, times included.
    Revert(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub setup: Setup,
    pub roots: Vec<Node>,
    pub ops: Vec<Op>,
}
pub const NAMES: [&str; 2] = ["a", "b"];

#[derive(Clone, Copy)]
pub struct W {
    pub edit: u32,
    pub backup: u32,
    pub repeat: u32,
    pub forget: u32,
    pub prune: u32,
    pub rebuild: u32,
    pub revert: u32,
}
impl Default for W {
    fn default() -> W {
        W { edit: 6, backup: 6, repeat: 1, forget: 3, prune: 3, rebuild: 1, revert: 2 }
    }
}

pub fn op(cfg: GenCfg, w: W) -> BoxedStrategy<Op> {
    let p = any::<u32>;
    let mask = prop_oneof![4 => Just(1u32), 2 => Just(3), 1 => Just(2)];
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (w.edit, (p(), prop::collection::vec(edit(cfg), 1..5)).prop_map(|(r, e)| Op::Edit(r, e)).boxed()),
        (w.backup, mask.prop_map(Op::Backup).boxed()),
        (w.repeat, Just(Op::Repeat).boxed()),
        (w.forget, prop_oneof![2 => (0u32..20).prop_map(|i| Op::Forget(1 << i)), 1 => p().prop_map(Op::Forget), 1 => Just(Op::Forget(u32::MAX))].boxed()),
        (w.prune, Just(Op::Prune).boxed()),
        (w.rebuild, Just(Op::Rebuild).boxed()),
        (w.revert, p().prop_map(Op::Revert).boxed()),
    ];
    v.retain(|x| x.0 > 0);
    prop::strategy::Union::new_weighted(v).boxed()
}
pub fn hist(cfg: GenCfg, w: W, n: std::ops::Range<usize>) -> BoxedStrategy<Hist> {
    (setup(), prop::collection::vec(dir(cfg), 2), prop::collection::vec(op(cfg, w), n))
        .prop_map(|(setup, roots, ops)| Hist { setup, roots, ops })
        .boxed()
}

pub fn start(h: &Hist, env: &Env) -> R<World> {
    let mut w = World::new(env, &h.setup)?;
    for (n, r) in NAMES.iter().zip(&h.roots) {
        w.set_root(n, r)?;
    }
    Ok(w)
}

pub struct Past {
    /// Every snapshot there ever was.
    pub all: Vec<SnapModel>,
    pub last: Vec<String>,
}
impl Past {
    pub fn new() -> Past {
        Past { all: vec![], last: vec!["a".into()] }
    }
}

pub fn masked(w: &World, mask: u32) -> Vec<String> {
    let n = w.snaps.len();
    (0..n).filter(|i| if mask.count_ones() == 1 { mask.trailing_zeros() as usize % n == *i } else { mask >> (i % 32) & 1 == 1 }).map(|i| w.snaps[i].id.clone()).collect()
}

/// Run one operation, keeping the model in step. Checks what the operation itself must do.
pub fn step(w: &mut World, past: &mut Past, o: &Op, i: &mut Info) -> R<bool> {
    match o {
        Op::Edit(r, es) => {
            for e in es {
                let l = w.edit(NAMES[pick(*r, 2)], e)?;
                if !l.is_empty() {
                    i.hit(l);
                }
            }
        }
        Op::Backup(_) | Op::Repeat => {
            let (names, extra): (Vec<String>, &[&str]) = match o {
                Op::Backup(m) => (select(&NAMES, *m), &["--allow-empty"]),
                _ => (past.last.clone(), &["--allow-empty", "--allow-repeat"]),
            };
            let id = w.backup(&names, extra)?;
            past.last = names.clone();
            match id {
                Some(_) => past.all.push(w.snaps.last().unwrap().clone()),
                None => {
                    want!(matches!(o, Op::Backup(_)), "backup --allow-repeat added no snapshot");
                    let f = w.expected(&names);
                    let paths: Vec<String> = names.iter().map(|n| w.src(n)).collect();
                    // (Filtered snapshots may keep an older one's time.)
                    let latest = w.fsck()?.snaps.iter().map(|(id, s)| (s.time, id.clone())).max().map(|x| x.1);
                    let same = w.snaps.iter().find(|s| Some(&s.id) == latest.as_ref()).is_some_and(|s| {
                        s.paths == paths && cmp(&f, &s.flat, Cmp { times: true, modes: true, root_meta: true, atimes: false }).is_empty()
                    });
                    want!(same, "backup reported success and added no snapshot, but the latest one holds something else");
                }
            }
            i.hit(if id.is_some() { "backup" } else { "same" });
        }
        Op::Forget(m) => {
            let ids = masked(w, *m);
            if ids.is_empty() {
                return Ok(false);
            }
            w.forget(&ids, &[])?;
            i.add("forgotten", ids.len() as u64);
        }
        Op::Prune => {
            w.bp_ok(&["prune"])?;
            i.hit("prune");
        }
        Op::Rebuild => {
            if w.sb.list("repo", "packs")?.is_empty() {
                return Ok(false);
            }
            w.bp_ok(&["rebuild-index"])?;
            i.hit("rebuild");
        }
        Op::Revert(k) => {
            if past.all.is_empty() {
                return Ok(false);
            }
            let s = past.all[pick(*k, past.all.len())].clone();
            w.revert(&s)?;
            i.hit("revert");
        }
    }
    Ok(true)
}
