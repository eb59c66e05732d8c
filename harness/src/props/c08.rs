//! C08: copied snapshots are complete and identical in the target.
//! C09: filter-snapshot makes a copy without exactly the skipped entries.
use super::PropDef;
use crate::cli::read_dir_bytes;
use crate::engine::*;
use crate::fsck;
use crate::fsm::*;
use crate::hist::{self, *};
use crate::world::*;
use crate::{viol, want};
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Pat {
    /// The path of an entry (any path ending in it).
    End(u32),
    /// An entry's last component, anywhere.
    Name(u32),
    /// A piece of an entry's name, anywhere in the path.
    Piece(u32, u32),
    /// A path and everything below it, but not itself.
    Below(u32),
    Nothing,
}
fn pat() -> BoxedStrategy<Pat> {
    let p = any::<u32>;
    prop_oneof![
        4 => p().prop_map(Pat::End),
        4 => p().prop_map(Pat::Name),
        2 => (p(), p()).prop_map(|(a, b)| Pat::Piece(a, b)),
        2 => p().prop_map(Pat::Below),
        1 => Just(Pat::Nothing),
    ]
    .boxed()
}
/// `anywhere`: patterns must mean the same for relative and absolute paths.
fn regexes(ps: &[Pat], f: &Flat, anywhere: bool) -> Vec<String> {
    let keys: Vec<&String> = f.keys().filter(|k| !k.is_empty()).collect();
    let deep: Vec<&String> = keys.iter().filter(|k| k.contains('/')).copied().collect();
    // Deeper entries first: skipping whole roots leaves little to compare.
    let get = |p: u32| -> Option<&String> {
        let v = if p % 8 != 0 && !deep.is_empty() { &deep } else { &keys };
        (!v.is_empty()).then(|| v[pick(p >> 3, v.len())])
    };
    ps.iter()
        .filter_map(|p| {
            Some(match p {
                Pat::End(k) => ending(get(*k)?),
                Pat::Name(k) => ending(get(*k)?.rsplit('/').next().unwrap()),
                Pat::Below(k) => format!("(^|/){}/", regex::escape(get(*k)?)),
                Pat::Piece(k, at) => {
                    let n: Vec<char> = get(*k)?.rsplit('/').next().unwrap().chars().collect();
                    let i = pick(*at, n.len());
                    let s: String = n[i..(i + 2).min(n.len())].iter().collect();
                    if anywhere { format!("/[^/]*{}[^/]*$", regex::escape(&format!("{s}_"))) } else { regex::escape(&s) }
                }
                Pat::Nothing => "(^|/)no such name$".into(),
            })
        })
        .collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sel {
    All,
    /// Which ones (in this order, possibly repeated), and how they are named.
    Some(Vec<(u32, u8)>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum COp {
    Src(Op),
    Meta(Option<String>, Vec<String>, u32),
    Copy(Sel, Vec<Pat>),
    DstBackup(u32),
    DstForget(u32),
    DstPrune,
    DstRebuild,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    hist: Hist,
    dst: Setup,
    ops: Vec<COp>,
}

fn meta_of(s: &fsck::Snap) -> (i128, String, String, BTreeSet<String>, BTreeSet<String>) {
    (s.time, s.tz.clone(), s.author.clone(), s.tags.clone(), s.paths.clone())
}
fn tagsets() -> BoxedStrategy<(Option<String>, Vec<String>)> {
    (
        prop::option::of(prop::sample::select(vec!["Ann", "b ö", "", "x\"y"]).prop_map(String::from)),
        prop::collection::vec(prop::sample::select(vec!["t1", "t2", "weekly", "é", ""]).prop_map(String::from), 0..3),
    )
        .boxed()
}

fn run08(c: &Case, env: &Env) -> R<Info> {
    let mut i = Info::default();
    let mut w = hist::start(&c.hist, env)?;
    w.make_repo("dst", &Setup { xdev: c.hist.setup.xdev, ..c.dst.clone() })?;
    if c.dst.backend == Backend::Filter {
        write_config(&w.sb, "dst", &c.dst)?;
    }
    let dbe = c.dst.backend.clone();
    let mut past = Past::new();
    let mut dst: Vec<SnapModel> = vec![];
    let (sr, dr) = (w.sb.ps("repo"), w.sb.ps("dst"));
    for o in c.hist.ops.iter().map(|o| COp::Src(o.clone())).chain(c.ops.iter().cloned()) {
        match &o {
            COp::Src(o) => {
                hist::step(&mut w, &mut past, o, &mut i)?;
            }
            COp::Meta(author, tags, m) => {
                let mut extra: Vec<String> = vec!["--allow-empty".into(), "--allow-repeat".into()];
                if let Some(a) = author {
                    extra.push(format!("--author={a}"));
                }
                extra.extend(tags.iter().map(|t| format!("--tag={t}")));
                let e: Vec<&str> = extra.iter().map(|s| s.as_str()).collect();
                let names = select(&NAMES, *m);
                w.backup(&names, &e)?;
                past.last = names;
                i.hit("backup-with-tags");
            }
            COp::Copy(sel, pats) => {
                if w.snaps.is_empty() {
                    continue;
                }
                let src = w.fsck()?;
                let before = w.fsck_of("dst", &dbe)?;
                let src_bytes = read_dir_bytes(&w.sb.p("repo"))?;
                let mut want_ids: Vec<String> = vec![];
                let mut args: Vec<String> = vec!["-r".into(), sr.clone(), "copy".into(), "--to".into(), dr.clone()];
                let mut joint = Flat::new();
                match sel {
                    Sel::All => {
                        want_ids = w.snaps.iter().map(|s| s.id.clone()).collect();
                        args.push("--all".into());
                    }
                    Sel::Some(v) => {
                        let mut chron: Vec<(i128, String)> = src.snaps.iter().map(|(id, s)| (s.time, id.clone())).collect();
                        chron.sort();
                        for (k, how) in v {
                            let k = pick(*k, chron.len());
                            let id = chron[k].1.clone();
                            let back = chron.len() - 1 - k;
                            let uniq = |n: usize| chron.iter().filter(|x| x.1.starts_with(&id[..n])).count() == 1;
                            args.push(match how % 4 {
                                0 => id.clone(),
                                1 if uniq(8) => id[..8].to_string(),
                                2 if back == 0 => "LAST".into(),
                                2 => format!("LAST~{back}"),
                                _ => id.clone(),
                            });
                            want_ids.push(id);
                        }
                    }
                }
                for s in w.snaps.iter().filter(|s| want_ids.contains(&s.id)) {
                    joint.extend(s.flat.clone());
                }
                let pats = regexes(pats, &joint, true);
                for p in &pats {
                    args.insert(3, format!("--skip={p}"));
                }
                let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
                w.sb.ok(&a)?;
                i.hit(if pats.is_empty() { "copy" } else { "copy-skip" });
                want!(read_dir_bytes(&w.sb.p("repo"))? == src_bytes, "copy changed the source repository");
                let after = w.fsck_of("dst", &dbe)?;
                let old_dups = before.duplicates();
                if let Some(d) = after.duplicates().iter().find(|d| !old_dups.contains(d)) {
                    viol!("blob {d} is stored twice after a copy");
                }
                for id in before.snaps.keys() {
                    want!(after.snaps.contains_key(id), "snapshot {id} disappeared from the copy's target");
                }
                let mut gone: Vec<String> = vec![];
                let blobs = after.indexed_blobs();
                for id in want_ids.iter().collect::<BTreeSet<_>>() {
                    let m = w.snaps.iter().find(|s| s.id == **id).unwrap();
                    let expect = without(&m.flat, &pats);
                    if expect.len() != m.flat.len() {
                        i.hit("skipped-something");
                    }
                    let all = Cmp { times: true, modes: true, root_meta: true, atimes: false };
                    // Which one of the target's is it?
                    let mut near = vec![];
                    let mut hit = None;
                    for (did, d) in &after.snaps {
                        if meta_of(d) == meta_of(&src.snaps[id]) {
                            let f = after.flat(&d.tree, &blobs).map_err(|e| Fail::V(format!("copied snapshot {did}: {e}")))?;
                            let diff = cmp(&expect, &f, all);
                            if diff.is_empty() {
                                hit = Some(did.clone());
                            } else {
                                near = diff;
                            }
                        }
                    }
                    let Some(did) = hit else {
                        viol!("no snapshot in the target has the metadata and contents of {id} (differences: {})", show(&near))
                    };
                    if !before.snaps.contains_key(&did) {
                        i.hit("copied");
                        gone.push(did.clone());
                    } else {
                        i.hit("already-there");
                    }
                    if !dst.iter().any(|s| s.id == did) {
                        dst.push(SnapModel { id: did, flat: expect, ..m.clone() });
                    }
                }
                for id in after.snaps.keys().filter(|k| !before.snaps.contains_key(*k)) {
                    want!(gone.contains(id), "copy put a snapshot {id} into the target which was not asked for");
                }
                w.deep_check_repo(&after, &dst)?;
                let (p, x) = (w.sb.list("dst", "packs")?, w.sb.list("dst", "indexes")?);
                w.sb.ok(&a)?;
                want!(p == w.sb.list("dst", "packs")? && x == w.sb.list("dst", "indexes")?, "copying the same again added data");
                want!(w.sb.snapshots("dst")? == after.snaps.keys().cloned().collect::<BTreeSet<_>>(), "copying the same again changed the target's snapshots");
            }
            COp::DstBackup(m) => {
                let names = select(&NAMES, *m);
                let before = w.sb.snapshots("dst")?;
                let mut a: Vec<String> = vec!["-r".into(), dr.clone(), "backup".into(), "--allow-empty".into(), "--allow-repeat".into(), "--".into()];
                a.extend(names.iter().map(|n| w.src(n)));
                w.sb.ok(&a.iter().map(|s| s.as_str()).collect::<Vec<_>>())?;
                let after = w.sb.snapshots("dst")?;
                let new: Vec<String> = after.difference(&before).cloned().collect();
                want!(new.len() == 1, "backup --allow-repeat added {} snapshots", new.len());
                dst.push(SnapModel {
                    id: new[0].clone(),
                    paths: names.iter().map(|n| w.src(n)).collect(),
                    flat: w.expected(&names),
                    author: None,
                    tags: BTreeSet::new(),
                    roots: BTreeMap::new(),
                });
                i.hit("dst-backup");
            }
            COp::DstForget(k) => {
                if dst.is_empty() {
                    continue;
                }
                let s = dst.remove(pick(*k, dst.len()));
                w.sb.ok(&["-r", &dr, "forget", &s.id])?;
            }
            COp::DstPrune => {
                w.sb.ok(&["-r", &dr, "prune"])?;
                i.hit("dst-prune");
            }
            COp::DstRebuild => {
                if !w.sb.list("dst", "packs")?.is_empty() {
                    w.sb.ok(&["-r", &dr, "rebuild-index"])?;
                }
            }
        }
    }
    let r = w.fsck_of("dst", &dbe)?;
    w.deep_check_repo(&r, &dst)?;
    for s in dst.clone() {
        w.check_restore_from("dst", &s, &["--times", "--permissions"])?;
    }
    w.check_cmd("dst")?;
    w.check_all(&[])?;
    i.nontrivial = i.labels.contains_key("copied");
    i.note = format!("{} snapshots here, {} there", w.snaps.len(), dst.len());
    Ok(i)
}

fn strat08(big: bool) -> BoxedStrategy<Case> {
    let cfg = GenCfg { size: if big { 6 } else { 10 }, big, ..GenCfg::default() };
    let wt = W { prune: 1, forget: 2, rebuild: 1, revert: 2, repeat: 1, ..W::default() };
    let p = any::<u32>;
    let mask = || prop_oneof![3 => Just(1u32), 2 => Just(3), 1 => Just(2)];
    let sel = prop_oneof![2 => Just(Sel::All), 3 => prop::collection::vec((p(), any::<u8>()), 1..5).prop_map(Sel::Some)];
    let op = prop_oneof![
        5 => hist::op(cfg, wt).prop_map(COp::Src),
        2 => (tagsets(), mask()).prop_map(|((a, t), m)| COp::Meta(a, t, m)),
        5 => (sel, prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(pat(), 1..3)]).prop_map(|(s, p)| COp::Copy(s, p)),
        2 => mask().prop_map(COp::DstBackup),
        1 => p().prop_map(COp::DstForget),
        1 => Just(COp::DstPrune),
        1 => Just(COp::DstRebuild),
    ];
    (hist(cfg, wt, 1..5), setup(), prop::collection::vec(op, 3..9))
        .prop_map(|(mut hist, dst, ops)| {
            hist.ops.insert(0, Op::Backup(1));
            Case { hist, dst, ops }
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FOp {
    before: Vec<Op>,
    target: (u32, u8),
    pats: Vec<Pat>,
    keep: bool,
    meta: (Option<String>, Vec<String>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FCase {
    hist: Hist,
    meta: (Option<String>, Vec<String>),
    ops: Vec<FOp>,
}
fn run09(c: &FCase, env: &Env) -> R<Info> {
    let mut i = Info::default();
    let mut w = hist::start(&c.hist, env)?;
    let mut past = Past::new();
    for o in &c.hist.ops {
        hist::step(&mut w, &mut past, o, &mut i)?;
    }
    {
        let mut extra: Vec<String> = vec!["--allow-empty".into(), "--allow-repeat".into()];
        if let Some(a) = &c.meta.0 {
            extra.push(format!("--author={a}"));
        }
        extra.extend(c.meta.1.iter().map(|t| format!("--tag={t}")));
        w.backup(&["a".into(), "b".into()], &extra.iter().map(|s| s.as_str()).collect::<Vec<_>>())?;
    }
    let host = std::fs::read_to_string("/proc/sys/kernel/hostname").unwrap_or_default().trim().to_string();
    for f in &c.ops {
        for o in &f.before {
            hist::step(&mut w, &mut past, o, &mut i)?;
        }
        if w.snaps.is_empty() {
            continue;
        }
        let src = w.fsck()?;
        let before = read_dir_bytes(&w.sb.p("repo"))?;
        let m = w.snaps[pick(f.target.0, w.snaps.len())].clone();
        let s = &src.snaps[&m.id];
        let pats = regexes(&f.pats, &m.flat, false);
        if pats.is_empty() {
            continue;
        }
        let mut a: Vec<String> = vec!["filter-snapshot".into()];
        a.extend(pats.iter().map(|p| format!("--skip={p}")));
        if f.keep {
            a.push("--keep-metadata".into());
        } else {
            if let Some(x) = &f.meta.0 {
                a.push(format!("--author={x}"));
            }
            a.extend(f.meta.1.iter().map(|t| format!("--tag={t}")));
        }
        a.push("--".into());
        a.push(if f.target.1 % 3 == 0 && src.snaps.keys().filter(|k| k.starts_with(&m.id[..10])).count() == 1 { m.id[..10].to_string() } else { m.id.clone() });
        let now = || jiff::Timestamp::now().as_nanosecond();
        let t0 = now();
        w.bp_ok(&a.iter().map(|s| s.as_str()).collect::<Vec<_>>())?;
        let t1 = now();
        let expect = without(&m.flat, &pats);
        let after = read_dir_bytes(&w.sb.p("repo"))?;
        let new: Vec<String> =
            after.keys().filter(|k| !before.contains_key(*k) && k.starts_with("snapshots/")).map(|k| k[10..].trim_end_matches(".snapshot").to_string()).collect();
        for (k, v) in &before {
            want!(after.get(k) == Some(v), "filter-snapshot changed {k}");
        }
        if expect.len() == m.flat.len() {
            i.hit("nothing-filtered");
            want!(new.is_empty(), "filter-snapshot made a snapshot though nothing matched {pats:?}");
            continue;
        }
        i.hit("filtered");
        let r = w.fsck()?;
        // Keeping the metadata of what was filtered that way before makes the same snapshot again.
        if new.is_empty() && f.keep {
            let there = w.snaps.iter().any(|x| {
                let y = &r.snaps[&x.id];
                meta_of(y) == meta_of(s) && cmp(&expect, &x.flat, Cmp { times: true, modes: true, root_meta: true, atimes: false }).is_empty()
            });
            want!(there, "filter-snapshot made no snapshot though {pats:?} match");
            i.hit("again");
            continue;
        }
        want!(new.len() == 1, "filter-snapshot made {} snapshots though {pats:?} match", new.len());
        let n = &r.snaps[&new[0]];
        want!(n.paths == s.paths, "the filtered snapshot records paths {:?} instead of {:?}", n.paths, s.paths);
        if f.keep {
            want!(meta_of(n) == meta_of(s), "--keep-metadata changed the metadata from {:?} to {:?}", meta_of(s), meta_of(n));
            i.hit("kept-metadata");
        } else {
            let tags: BTreeSet<String> = f.meta.1.iter().cloned().collect();
            want!(n.tags == tags, "the filtered snapshot has tags {:?} instead of {tags:?}", n.tags);
            let author = f.meta.0.clone().unwrap_or(host.clone());
            want!(n.author == author, "the filtered snapshot has author {:?} instead of {author:?}", n.author);
            want!(t0 <= n.time && n.time <= t1, "the filtered snapshot's time is {} and not between {t0} and {t1}", n.time);
        }
        w.snaps.push(SnapModel { id: new[0].clone(), flat: expect, roots: m.roots.clone(), ..m.clone() });
        w.deep_check()?;
        let d = r.duplicates();
        want!(d.is_empty(), "blob {} is stored twice after filter-snapshot", d[0]);
        let s = w.snaps.last().unwrap().clone();
        w.check_restore(&s, &["--times", "--permissions"])?;
    }
    w.deep_check()?;
    w.check_all(&[])?;
    w.check_cmd("repo")?;
    // The originals can go, the filtered ones stay whole.
    let keep: Vec<String> = w.snaps.iter().map(|s| s.id.clone()).collect();
    if keep.len() > 1 && i.labels.contains_key("filtered") {
        w.forget(&keep[..keep.len() - 1], &[])?;
        w.bp_ok(&["prune"])?;
        super::c04::tight(&w)?;
        w.check_all(&[])?;
    }
    i.nontrivial = i.labels.contains_key("filtered");
    i.note = format!("{} snapshots", w.snaps.len());
    Ok(i)
}
fn strat09() -> BoxedStrategy<FCase> {
    let cfg = GenCfg { size: 12, ..GenCfg::default() };
    let wt = W { prune: 1, forget: 1, rebuild: 1, revert: 0, repeat: 1, ..W::default() };
    let f = (prop::collection::vec(hist::op(cfg, wt), 0..3), any::<(u32, u8)>(), prop::collection::vec(pat(), 1..4), any::<bool>(), tagsets())
        .prop_map(|(before, target, pats, keep, meta)| FOp { before, target, pats, keep, meta });
    (hist(cfg, wt, 0..5), tagsets(), prop::collection::vec(f, 1..4)).prop_map(|(hist, meta, ops)| FCase { hist, meta, ops }).boxed()
}

pub fn def08() -> PropDef {
    PropDef {
        suites: vec![
            Box::new(Suite { name: "copy", quick: 450, thorough: 9_000, threads: 8, strat: Box::new(|| strat08(false)), run: Box::new(run08) }),
            Box::new(Suite { name: "large", quick: 70, thorough: 1_500, threads: 8, strat: Box::new(|| strat08(true)), run: Box::new(run08) }),
        ],
        level: "exploration",
        rule: "at least one snapshot was newly copied into the target",
        assumptions: vec!["skip patterns are such that they match the path within the snapshot exactly when they match the absolute path"],
    }
}
pub fn def09() -> PropDef {
    PropDef {
        suites: vec![Box::new(Suite { name: "filter", quick: 600, thorough: 12_000, threads: 8, strat: Box::new(strat09), run: Box::new(run09) })],
        level: "exploration",
        rule: "at least one filter matched something and made a snapshot",
        assumptions: vec!["patterns are matched against the path within the snapshot; anchored ones are not generated"],
    }
}
