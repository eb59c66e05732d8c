//! C03: data already in the repository is never stored again.
use super::PropDef;
use crate::engine::*;
use crate::fsm::*;
use crate::hist::{self, *};
use crate::{viol, want};
use std::collections::BTreeSet;

fn run(h: &Hist, env: &Env) -> R<Info> {
    let mut w = start(h, env)?;
    let mut i = Info::default();
    let mut past = Past::new();
    let mut seen: BTreeSet<String> = BTreeSet::new(); // chunks stored so far
    for o in &h.ops {
        let before = if matches!(o, Op::Backup(_) | Op::Repeat) { Some((w.sb.list("repo", "packs")?, w.sb.list("repo", "indexes")?)) } else { None };
        let nsnap = past.all.len();
        if !hist::step(&mut w, &mut past, o, &mut i)? {
            continue;
        }
        let Some((packs, indexes)) = before else { continue };
        let r = w.fsck()?;
        let d = r.duplicates();
        if !d.is_empty() {
            viol!("{} blobs are stored more than once, e.g. {} (after {o:?})", d.len(), d[0]);
        }
        // What the new packs hold must be new; file data must be data no earlier backup had.
        for (id, p) in &r.packs {
            if packs.contains(&format!("{id}.pack")) {
                continue;
            }
            i.hit("new-packs");
            for e in p.entries.iter().filter(|e| !e.tree) {
                want!(seen.insert(e.id.clone()), "chunk {} was uploaded again", e.id);
            }
        }
        // Same files as some snapshot which is still there: nothing to upload.
        let f = w.expected(&past.last);
        let all = Cmp { times: true, modes: true, root_meta: true, atimes: false };
        let known = past.all[..nsnap].iter().any(|s| s.paths.len() == past.last.len() && cmp(&f, &s.flat, all).is_empty());
        if known {
            i.hit("identical");
            let (p2, i2) = (w.sb.list("repo", "packs")?, w.sb.list("repo", "indexes")?);
            want!(p2 == packs, "backing up an identical tree uploaded {} packs", p2.len() - packs.len());
            want!(i2 == indexes, "backing up an identical tree uploaded an index");
        }
        // Files known by content: no file data.
        let have: BTreeSet<Vec<u8>> = past.all[..nsnap].iter().flat_map(|s| s.flat.values()).filter_map(|e| if let Kind::F(b) = &e.kind { Some(b.to_vec()) } else { None }).collect();
        if f.values().all(|e| if let Kind::F(b) = &e.kind { have.contains(&**b) } else { true }) && nsnap > 0 {
            i.hit("known-content");
            let fresh = r.packs.iter().filter(|(id, _)| !packs.contains(&format!("{id}.pack"))).any(|(_, p)| p.entries.iter().any(|e| !e.tree));
            want!(!fresh, "file data was uploaded although every file's content had been backed up before");
        }
    }
    w.deep_check()?;
    i.nontrivial = past.all.len() >= 2 && (i.labels.contains_key("known-content") || i.labels.contains_key("dup") || i.labels.contains_key("rename"));
    i.note = format!("{} snapshots", past.all.len());
    Ok(i)
}

pub fn def() -> PropDef {
    let small = || {
        let cfg = GenCfg::default();
        hist(cfg, W { forget: 0, prune: 0, rebuild: 1, revert: 3, repeat: 2, ..W::default() }, 3..14)
    };
    let big = || {
        let cfg = GenCfg { big: true, size: 6, ..GenCfg::default() };
        hist(cfg, W { forget: 0, prune: 0, rebuild: 0, revert: 2, repeat: 1, ..W::default() }, 3..8)
    };
    PropDef {
        suites: vec![
            Box::new(Suite { name: "histories", quick: 800, thorough: 6000, threads: 8, strat: Box::new(small), run: Box::new(run) }),
            Box::new(Suite { name: "chunked", quick: 30, thorough: 1000, threads: 8, strat: Box::new(big), run: Box::new(run) }),
        ],
        level: "exploration",
        rule: "at least two snapshots, with content that was backed up before appearing again (kept, copied, renamed or reverted)",
        assumptions: vec!["completed, sequential commands (interrupted and concurrent ones are C05 and C24)"],
    }
}
