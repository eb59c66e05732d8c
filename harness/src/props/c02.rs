//! C02: every snapshot in a history restores the state it was taken of.
use super::PropDef;
use crate::engine::*;
use crate::fsm::*;
use crate::want;
use crate::world::*;
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Edit(u32, Vec<Edit>),
    Backup(u32),
    /// Exchange two roots' places (mv a t; mv b a; mv t b), times kept.
    SwapRoots,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    setup: Setup,
    roots: Vec<Node>,
    ops: Vec<Op>,
}
pub const NAMES: [&str; 3] = ["a", "b", "src"];

pub fn ops(cfg: GenCfg, n: std::ops::Range<usize>) -> BoxedStrategy<Vec<Op>> {
    let op = prop_oneof![
        6 => (any::<u32>(), prop::collection::vec(edit(cfg), 1..6)).prop_map(|(r, e)| Op::Edit(r, e)),
        6 => prop_oneof![3 => Just(1u32), 2 => Just(3), 1 => 1u32..8].prop_map(Op::Backup),
        1 => Just(Op::SwapRoots),
    ];
    prop::collection::vec(op, n).boxed()
}

fn strat(n: std::ops::Range<usize>, big: bool) -> BoxedStrategy<Case> {
    let cfg = GenCfg { big, ..GenCfg::default() };
    (setup(), prop::collection::vec(dir(cfg), 3), ops(cfg, n)).prop_map(|(setup, roots, ops)| Case { setup, roots, ops }).boxed()
}

fn run(c: &Case, env: &Env) -> R<Info> {
    let mut w = World::new(env, &c.setup)?;
    let mut i = Info::default();
    for (n, r) in NAMES.iter().zip(&c.roots) {
        w.set_root(n, r)?;
    }
    let mut since = false;
    for op in &c.ops {
        match op {
            Op::Edit(r, es) => {
                for e in es {
                    let l = w.edit(NAMES[pick(*r, 3)], e)?;
                    if !l.is_empty() {
                        i.hit(l);
                        since = !w.snaps.is_empty();
                    }
                }
            }
            Op::Backup(m) => {
                let names = select(&NAMES, *m);
                let flat = w.expected(&names);
                let id = w.backup(&names, &["--allow-empty"])?;
                let paths: Vec<String> = names.iter().map(|n| w.src(n)).collect();
                if id.is_none() {
                    // Only allowed when the latest snapshot of these paths holds the same.
                    let last = w.snaps.iter().rev().find(|s| s.paths == paths);
                    let same = last.is_some_and(|s| cmp(&flat, &s.flat, Cmp { times: true, modes: true, root_meta: true, atimes: false }).is_empty());
                    want!(same, "backup reported success without a snapshot though the files changed");
                    i.hit("repeat");
                } else if since {
                    i.hit("incremental");
                    since = false;
                }
                let s = w.snaps.last().unwrap().clone();
                if id.is_some() {
                    w.check_restore(&s, &[])?;
                }
            }
            Op::SwapRoots => {
                let (a, b) = (w.roots["a"].clone(), w.roots["b"].clone());
                w.roots.insert("a".into(), b);
                w.roots.insert("b".into(), a);
                let p = |n: &str| w.sb.p("src").join(n);
                std::fs::rename(p("a"), p("swap"))?;
                std::fs::rename(p("b"), p("a"))?;
                std::fs::rename(p("swap"), p("b"))?;
                i.hit("swap-roots");
            }
        }
    }
    if w.snaps.is_empty() {
        return Ok(i);
    }
    w.deep_check()?;
    w.check_all(&["--times", "--permissions"])?;
    i.add("snapshots", w.snaps.len() as u64);
    i.nontrivial = w.snaps.len() >= 2 && i.labels.contains_key("incremental");
    i.note = format!("{} snapshots over {} operations", w.snaps.len(), c.ops.len());
    Ok(i)
}

/// Files whose bytes are those of directories stored in the same repository.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Same {
    root: Node,
    pack: Option<u32>,
    order: u8,
    prune: bool,
}
fn same(c: &Same, env: &Env) -> R<Info> {
    let mut i = Info::default();
    let setup = Setup { pack: c.pack, ..Setup::plain() };
    let trees = {
        let mut t = World::new(env, &setup)?;
        t.set_root("a", &c.root)?;
        t.backup(&["a".into()], &["--allow-empty"])?;
        let r = t.fsck()?;
        r.packs.values().flat_map(|p| p.entries.iter().zip(&p.blobs)).filter(|(e, _)| e.tree).map(|(_, b)| (**b).clone()).collect::<Vec<_>>()
    };
    let mut w = World::new(env, &setup)?;
    w.set_root("a", &c.root)?;
    let mut b = Node::dir();
    for (k, t) in trees.iter().enumerate() {
        b.kids_mut().unwrap().insert(format!("t{k}"), Node::F { c: Content::Hex(data_encoding::HEXLOWER.encode(t)), mode: 0o644, t: (1_650_000_000 + k as i64, 7) });
    }
    i.add("tree-files", trees.len() as u64);
    w.set_root("b", &b)?;
    let (a, b): (Vec<String>, Vec<String>) = (vec!["a".into()], vec!["b".into()]);
    let both: Vec<String> = vec!["a".into(), "b".into()];
    let plan: Vec<&Vec<String>> = match c.order {
        0 => vec![&b, &a],
        1 => vec![&a, &b],
        2 => vec![&both],
        _ => vec![&b, &both, &a],
    };
    for p in plan {
        w.backup(p, &["--allow-empty"])?;
    }
    w.deep_check()?;
    w.check_all(&["--times", "--permissions"])?;
    w.check_cmd("repo")?;
    if c.prune && w.snaps.len() > 1 {
        let first = w.snaps[0].id.clone();
        w.forget(&[first], &[])?;
        w.bp_ok(&["prune"])?;
        w.deep_check()?;
        w.check_all(&[])?;
        w.check_cmd("repo")?;
    }
    i.nontrivial = !trees.is_empty() && w.snaps.len() >= 2 - c.prune as usize;
    i.note = format!("{} files holding the bytes of a directory", trees.len());
    Ok(i)
}
fn same_strat() -> BoxedStrategy<Same> {
    (dir(GenCfg { links: false, ..GenCfg::default() }), pack_size(), 0u8..4, any::<bool>()).prop_map(|(root, pack, order, prune)| Same { root, pack, order, prune }).boxed()
}

pub fn def() -> PropDef {
    PropDef {
        suites: vec![
            Box::new(Suite { name: "histories", quick: 500, thorough: 3000, threads: 8, strat: Box::new(|| strat(4..12, false)), run: Box::new(run) }),
            Box::new(Suite { name: "long", quick: 8, thorough: 300, threads: 8, strat: Box::new(|| strat(15..30, true)), run: Box::new(run) }),
            Box::new(Suite { name: "same-bytes", quick: 40, thorough: 600, threads: 8, strat: Box::new(same_strat), run: Box::new(same) }),
        ],
        level: "exploration",
        rule: "at least two snapshots, one of them taken after effective edits to files backed up before",
        assumptions: vec!["a file whose bytes change also changes its size or its modification time (the documented change detection)"],
    }
}
