//! C04: prune keeps every live snapshot intact and reclaims the rest.
use super::PropDef;
use crate::engine::*;
use crate::fsm::*;
use crate::hist::{self, *};
use crate::world::*;
use crate::{viol, want};
use proptest::prelude::*;
use std::collections::BTreeSet;

/// Everything stored is needed, everything needed is stored and indexed.
pub fn tight(w: &World) -> R<()> {
    tight_but(w, false)
}
/// `twice`: several packs may hold the same (having been made at the same time,
/// or found by rebuild-index after a crash).
pub fn tight_but(w: &World, twice: bool) -> R<()> {
    let r = w.deep_check()?;
    let need = r.reachable().map_err(Fail::V)?;
    let mut have = BTreeSet::new();
    for (p, e) in r.all_blobs() {
        want!(need.contains(&e.id), "pack {p} still holds blob {} which no snapshot refers to", e.id);
        want!(have.insert(e.id.clone()) || twice, "blob {} is stored twice after a prune", e.id);
    }
    let m = r.master();
    let listed: BTreeSet<_> = m.keys().cloned().collect();
    let present: BTreeSet<_> = r.packs.keys().cloned().collect();
    want!(listed == present, "packs listed {listed:?} and present {present:?} differ");
    Ok(())
}

fn run(h: &Hist, env: &Env) -> R<Info> {
    let mut w = start(h, env)?;
    let mut i = Info::default();
    let mut past = Past::new();
    let mut forgot = false;
    let mut pruned = false;
    for o in &h.ops {
        if !hist::step(&mut w, &mut past, o, &mut i)? {
            continue;
        }
        match o {
            Op::Forget(_) => forgot = true,
            Op::Prune => {
                tight(&w)?;
                let before = crate::cli::read_dir_bytes(&w.sb.p("repo"))?;
                w.bp_ok(&["prune"])?;
                if crate::cli::read_dir_bytes(&w.sb.p("repo"))? != before {
                    viol!("pruning a second time changed the repository");
                }
                if forgot {
                    i.hit("prune-after-forget");
                    pruned = true;
                    w.check_all(&[])?;
                }
                forgot = false;
            }
            Op::Backup(_) | Op::Repeat => {
                if pruned {
                    i.hit("backup-after-prune");
                }
                w.deep_check()?;
            }
            _ => {}
        }
    }
    w.bp_ok(&["prune"])?;
    tight(&w)?;
    w.check_all(&[])?;
    w.check_cmd("repo")?;
    i.nontrivial = i.labels.contains_key("prune-after-forget") && !past.all.is_empty();
    i.note = format!("{} snapshots taken, {} left", past.all.len(), w.snaps.len());
    Ok(i)
}

/// Some backups, then forgetting, perhaps changes, then a prune; several times over.
fn phases(cfg: GenCfg, n: std::ops::Range<usize>, per: usize) -> BoxedStrategy<Hist> {
    let bk = || prop_oneof![4 => Just(1u32), 2 => Just(3), 1 => Just(2)].prop_map(Op::Backup);
    let some = W { prune: 0, forget: 0, rebuild: 1, revert: 3, ..W::default() };
    let phase = (
        bk(),
        prop::collection::vec(prop_oneof![2 => (any::<u32>(), prop::collection::vec(edit(cfg), 1..5)).prop_map(|(r, e)| Op::Edit(r, e)), 1 => hist::op(cfg, some)], 1..per),
        bk(),
        prop::collection::vec(hist::op(cfg, some), 0..3),
        prop_oneof![3 => (0u32..8).prop_map(|i| Op::Forget(1 << i)), 2 => any::<u32>().prop_map(Op::Forget), 1 => Just(Op::Forget(u32::MAX))],
        prop::collection::vec(hist::op(cfg, W { revert: 8, ..some }), 0..3),
    )
        .prop_map(|(a, b, c, d, f, g)| {
            let mut v = vec![a];
            v.extend(b);
            v.push(c);
            v.extend(d);
            v.push(f);
            v.extend(g);
            v.push(Op::Prune);
            v
        });
    (setup(), prop::collection::vec(dir(cfg), 2), prop::collection::vec(phase, n))
        .prop_map(|(setup, roots, ops)| Hist { setup, roots, ops: ops.concat() })
        .boxed()
}

pub fn def() -> PropDef {
    let small = || phases(GenCfg::default(), 1..4, 4);
    let free = || hist(GenCfg::default(), W { prune: 4, forget: 4, revert: 3, ..W::default() }, 4..16);
    let big = || phases(GenCfg { big: true, size: 8, ..GenCfg::default() }, 1..3, 3);
    PropDef {
        suites: vec![
            Box::new(Suite { name: "phases", quick: 400, thorough: 6000, threads: 8, strat: Box::new(small), run: Box::new(run) }),
            Box::new(Suite { name: "histories", quick: 150, thorough: 3000, threads: 8, strat: Box::new(free), run: Box::new(run) }),
            Box::new(Suite { name: "chunked", quick: 30, thorough: 800, threads: 8, strat: Box::new(big), run: Box::new(run) }),
        ],
        level: "exploration",
        rule: "the history forgets at least one snapshot and prunes after that",
        assumptions: vec!["completed, sequential commands (interrupted ones are C05)"],
    }
}
