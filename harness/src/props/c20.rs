//! C20: reported sizes are the real sizes.
use super::PropDef;
use crate::engine::*;
use crate::fsck::{self, TNode};
use crate::fsm::*;
use crate::hist::{self, *};
use crate::trace::*;
use crate::want;
use crate::world::*;
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    hist: Hist,
    /// Before which operations snapshots of nothing are made.
    nothing: Vec<u32>,
    /// Interrupt a backup at the end.
    kill: Option<u32>,
    /// Options of `snapshots`, and which of them to ask for.
    asks: Vec<(u8, Vec<u32>)>,
}

/// The bytes a snapshot consists of, and which of them no earlier one had.
#[derive(Default, Debug, Clone, PartialEq)]
struct Sizes {
    trees: u64,
    chunks: u64,
    fresh: u64,
    reused: u64,
    /// New data of files.
    fresh_chunks: u64,
    /// There is an empty directory (whose tree is the same blob as a file of just 0xa0).
    empty: bool,
    /// path -> (size, bytes no earlier snapshot had counted once, same but not shared within this snapshot)
    files: BTreeMap<String, (u64, u64, u64)>,
}
type Blobs = BTreeMap<String, (bool, Arc<Vec<u8>>)>;

fn count(r: &fsck::Repo, b: &Blobs, tree: &str, at: &str, seen: &mut BTreeSet<String>, z: &mut Sizes, files: &mut BTreeMap<String, Vec<String>>) -> R<()> {
    // (Nothing is stored for an empty directory.)
    let (len, kids) = match b.get(tree) {
        Some((_, d)) => (d.len() as u64, if tree == fsck::empty_tree() { BTreeMap::new() } else { fsck::parse_tree(d).map_err(Fail::V)? }),
        None if tree == fsck::empty_tree() => (0, BTreeMap::new()),
        None => return Err(Fail::V(format!("tree {tree} is not there"))),
    };
    z.trees += len;
    z.empty |= tree == fsck::empty_tree();
    if seen.insert(tree.to_string()) { z.fresh += len } else { z.reused += len }
    for (n, e) in kids {
        let p = join(at, &n);
        match e.node {
            TNode::Dir(t) => count(r, b, &t, &p, seen, z, files)?,
            TNode::File(cs) => {
                for c in &cs {
                    let len = b.get(c).ok_or_else(|| Fail::V(format!("chunk {c} is not there")))?.1.len() as u64;
                    z.chunks += len;
                    if seen.insert(c.clone()) { z.fresh += len; z.fresh_chunks += len } else { z.reused += len }
                }
                files.insert(p, cs);
            }
            _ => {}
        }
    }
    Ok(())
}

/// By snapshot, oldest first.
fn expected(r: &fsck::Repo) -> R<Vec<(String, Sizes)>> {
    let b = r.indexed_blobs();
    let mut order: Vec<(&String, &fsck::Snap)> = r.snaps.iter().collect();
    order.sort_by_key(|(id, s)| (s.time, id.to_string()));
    let mut seen = BTreeSet::new();
    let mut v = vec![];
    for (id, s) in order {
        let before = seen.clone();
        let (mut z, mut files) = (Sizes::default(), BTreeMap::new());
        count(r, &b, &s.tree, "", &mut seen, &mut z, &mut files)?;
        let mut uses: BTreeMap<&String, BTreeSet<&String>> = BTreeMap::new();
        for (p, cs) in &files {
            for c in cs {
                uses.entry(c).or_default().insert(p);
            }
        }
        for (p, cs) in &files {
            let len = |c: &String| b[c].1.len() as u64;
            let once: BTreeSet<&String> = cs.iter().filter(|c| !before.contains(*c)).collect();
            let own = once.iter().filter(|c| uses[**c].len() == 1 && !(z.empty && c.as_str() == fsck::empty_tree())).map(|c| len(c)).sum();
            z.files.insert(p.clone(), (cs.iter().map(len).sum(), once.iter().map(|c| len(c)).sum(), own));
        }
        v.push((id.clone(), z));
    }
    Ok(v)
}

/// "12 KB" could be what is said of so many bytes.
fn says(t: &str, n: u64) -> R<bool> {
    let Some((x, u)) = t.trim().split_once(' ') else { return Err(Fail::V(format!("{t:?} is not a size"))) };
    let (Ok(v), Some(k)) = (x.parse::<f64>(), ["B", "KB", "MB", "GB"].iter().position(|k| *k == u)) else {
        return Err(Fail::V(format!("{t:?} is not a size")));
    };
    let unit = 1000f64.powi(k as i32);
    let step = 10f64.powi(-(x.split_once('.').map_or(0, |d| d.1.len()) as i32));
    Ok(if k == 0 { v == n as f64 } else { (v * unit - n as f64).abs() <= unit * step * 0.5 + 1e-6 * n as f64 && v >= 0.99 })
}
fn right(what: &str, t: &str, n: u64) -> R<()> {
    want!(says(t, n)?, "{what}: reported as {t}, really {n} bytes");
    Ok(())
}
/// The text between two others.
fn between<'a>(l: &'a str, a: &str, b: &str) -> Option<&'a str> {
    let l = &l[l.find(a)? + a.len()..];
    if b.is_empty() { Some(l) } else { Some(&l[..l.find(b)?]) }
}
fn need<'a>(t: &'a str, l: Option<&'a str>, what: &str) -> R<&'a str> {
    l.ok_or_else(|| Fail::V(format!("{what} is not reported in {t:?}")))
}

fn usage(w: &World, r: &fsck::Repo, z: &[(String, Sizes)], i: &mut Info) -> R<()> {
    let o = w.bp_ok(&["usage"])?;
    let t = o.text();
    let line = |end: &str| t.lines().find(|l| l.ends_with(end));
    let fresh: u64 = z.iter().map(|x| x.1.fresh).sum();
    let reused: u64 = z.iter().map(|x| x.1.reused).sum();
    let n = z.len();
    if n == 0 {
        want!(t.lines().any(|l| l == "0 snapshots"), "usage does not say there are no snapshots: {t}");
    } else {
        want!(t.lines().any(|l| l.starts_with(&format!("{n} snapshots, from "))), "usage does not say there are {n} snapshots: {t}");
        right("unique data", need(&t, line(" unique data"), "unique data")?.trim_end_matches(" unique data"), fresh)?;
        right("reused data", need(&t, line(" reused (deduplicated)"), "reused data")?.trim_end_matches(" reused (deduplicated)"), reused)?;
    }
    let master = r.master();
    let l = need(&t, t.lines().find(|l| l.contains(" reference ")), "the number of packs")?;
    let k = r.indexes.len();
    let head = format!("{k} {} reference {} packs", if k == 1 { "index" } else { "indexes" }, master.len());
    want!(l.starts_with(&head) && !l[head.len()..].starts_with(|c: char| c.is_ascii_digit()), "usage says {l:?} instead of {head:?}");
    let stored: u64 = master.values().flatten().map(|e| e.len).sum();
    match between(l, "including ", " unused data") {
        Some(x) => {
            right("unused data", x, stored.saturating_sub(fresh))?;
            want!(stored > fresh, "unused data is reported, but there is none");
            i.hit("unused");
        }
        None => want!(stored <= fresh, "{} unused bytes are not reported", stored - fresh),
    }
    want!(!t.contains("more than packs"), "usage says snapshots contain more than packs");
    let mut total = 0;
    for (what, dir) in [("snapshots:", "snapshots"), ("indexes:", "indexes"), ("packs:", "packs")] {
        let mut n = 0;
        for f in w.sb.list("repo", dir)? {
            if !f.ends_with(".part") {
                n += std::fs::metadata(w.sb.p("repo").join(dir).join(f))?.len();
            }
        }
        total += n;
        right(what, need(&t, t.lines().find_map(|l| l.strip_prefix(what)), what)?, n)?;
    }
    right("total", need(&t, t.lines().find_map(|l| l.strip_prefix("total:")), "the total")?, total)
}

fn snapshots(w: &World, z: &[(String, Sizes)], opts: u8, of: &[u32], i: &mut Info) -> R<()> {
    let (per_file, stat, meta, rev) = (opts & 1 == 1, opts & 2 == 2, opts & 4 == 4, opts & 8 == 8);
    let mut a = vec!["snapshots"];
    a.push(if per_file { "--file-sizes" } else { "--sizes" });
    for (f, b) in [("--stat", stat), ("--metadata", stat && meta), ("--reverse", rev)] {
        if b {
            a.push(f);
        }
    }
    let mut which: BTreeSet<usize> = of.iter().filter(|_| !z.is_empty()).map(|k| pick(*k, z.len())).collect();
    let ids: Vec<&str> = which.iter().map(|k| z[*k].0.as_str()).collect();
    a.extend(ids);
    if which.is_empty() {
        which = (0..z.len()).collect();
    }
    let t = w.bp_ok(&a)?.text();
    let mut blocks: Vec<Vec<&str>> = vec![];
    for l in t.lines() {
        if l.starts_with("snapshot ") {
            blocks.push(vec![]);
        }
        if let Some(b) = blocks.last_mut() {
            b.push(l);
        }
    }
    let mut order: Vec<usize> = which.into_iter().collect();
    if rev {
        order.reverse();
    }
    want!(blocks.len() == order.len(), "{a:?} shows {} snapshots instead of {}", blocks.len(), order.len());
    for (b, k) in blocks.iter().zip(order) {
        let (id, s) = &z[k];
        want!(b[0].strip_prefix("snapshot ").is_some_and(|x| x.split(' ').next() == Some(id)), "{a:?} shows {:?} where {id} was due", b[0]);
        let l = need(b[0], b.iter().find(|l| l.starts_with("Sizes: ")).copied(), "the size")?;
        let at = |x, y| need(l, between(l, x, y), "part of the sizes");
        let ctx = format!("snapshot {id} ({a:?})");
        right(&format!("{ctx}: total"), at("Sizes: ", " total (")?, s.trees + s.chunks)?;
        right(&format!("{ctx}: files"), at(" total (", " files, ")?, s.chunks)?;
        right(&format!("{ctx}: metadata"), at(" files, ", " metadata / ")?, s.trees)?;
        right(&format!("{ctx}: new"), at(" metadata / ", " new, ")?, s.fresh)?;
        right(&format!("{ctx}: reused"), at(" new, ", " reused)")?, s.reused)?;
        // (Paths are padded with blanks, so names with blanks at their ends can be mistaken for others.)
        let mut shown: BTreeMap<String, Vec<(String, String)>> = BTreeMap::new();
        for l in b {
            if let Some((p, x)) = l.rsplit_once(" | ") {
                let (Some(f), Some(u)) = (between(x, "", " new, "), between(x, " new, ", " reused")) else { continue };
                let p = if stat { l.get(3..p.len()).unwrap_or("") } else { &p[1..] };
                shown.entry(p.trim_end_matches(' ').into()).or_default().push((f.into(), u.into()));
            }
        }
        let mut files: BTreeMap<&str, Vec<(u64, u64, u64)>> = BTreeMap::new();
        for (p, x) in &s.files {
            files.entry(p.trim_end_matches(' ')).or_default().push(*x);
        }
        want!(per_file || shown.is_empty(), "{ctx}: shows sizes of files unasked");
        let (mut exact, mut sum) = (true, 0u64);
        for (p, lines) in &shown {
            let Some(of) = files.get(p.as_str()) else { return Err(Fail::V(format!("{ctx}: there is no file {p:?}"))) };
            want!(lines.len() <= of.len(), "{ctx}: {p:?} is shown {} times", lines.len());
            i.hit("files");
            let whole = |t: &str| t.strip_suffix(" B").and_then(|x| x.parse::<u64>().ok());
            let [(len, fresh, own)] = of[..] else {
                exact = false;
                continue;
            };
            let (f, u) = &lines[0];
            if fresh == own {
                right(&format!("{ctx}: new data of {p:?}"), f, fresh)?;
                right(&format!("{ctx}: reused data of {p:?}"), u, len - fresh)?;
                sum += fresh;
            } else if let (Some(f), Some(u)) = (whole(f), whole(u)) {
                want!(f + u == len && f >= own && f <= fresh, "{ctx}: {p:?} is said to have {f} new and {u} reused bytes; it has {len}, of which {own} to {fresh} are new");
                sum += f;
            } else {
                exact = false;
            }
        }
        if per_file && !stat {
            // All which bring anything new, and together all that is new.
            let missed = s.files.iter().find(|(p, (_, _, own))| *own > 0 && !shown.contains_key(p.trim_end_matches(' ')));
            if let Some((p, x)) = missed {
                return Err(Fail::V(format!("{ctx}: {p:?}, with {} new bytes, is not shown", x.2)));
            }
            want!(!exact || sum == s.fresh_chunks, "{ctx}: the files' new data comes to {sum}, not {}", s.fresh_chunks);
        }
    }
    Ok(())
}

#[cfg(feature = "lib")]
fn library(w: &World, r: &fsck::Repo, z: &[(String, Sizes)]) -> R<()> {
    use backpak::{backend, index, tree};
    let e = |e: anyhow::Error| Fail::V(format!("{e:#}"));
    let repo = w.repo_arg();
    let (_, b) = backend::open(repo.as_str().into(), backend::cache::DEFAULT_SIZE, backend::CacheBehavior::Normal).map_err(e)?;
    let ix = index::build_master_index(&b).map_err(e)?;
    let packs = index::blob_to_pack_map(&ix).map_err(e)?;
    let lens = index::blob_to_size_map(&ix).map_err(e)?;
    let mut cache = tree::Cache::new(&ix, &packs, &b);
    let mut seen = Default::default();
    for (id, s) in z {
        let t = r.snaps[id].tree.parse().map_err(|_| Fail::E("ID".into()))?;
        let f = tree::forest_from_root(&t, &mut cache).map_err(e)?;
        let x = tree::forest_sizes(&t, &f, &lens, &mut seen).map_err(e)?;
        let got = (x.tree_bytes, x.chunk_bytes, x.introduced, x.reused);
        let want = (s.trees, s.chunks, s.fresh, s.reused);
        want!(got == want, "forest_sizes of snapshot {id} (tree, chunk, introduced, reused) are {got:?} instead of {want:?}");
        let sum: u64 = x.per_file.iter().map(|f| f.1.introduced).sum();
        want!(sum == s.fresh_chunks, "files of snapshot {id} introduce {sum} bytes instead of {}", s.fresh_chunks);
        let have: BTreeMap<String, u64> = x.per_file.iter().map(|f| (f.0.to_string(), f.1.introduced + f.1.reused)).collect();
        let want: BTreeMap<String, u64> = s.files.iter().map(|f| (f.0.clone(), f.1.0)).collect();
        want!(have == want, "files of snapshot {id} and their sizes are {have:?} instead of {want:?}");
    }
    Ok(())
}
#[cfg(not(feature = "lib"))]
fn library(_: &World, _: &fsck::Repo, _: &[(String, Sizes)]) -> R<()> {
    Ok(())
}

fn run(c: &Case, env: &Env) -> R<Info> {
    let mut i = Info::default();
    let mut w = hist::start(&c.hist, env)?;
    let mut past = Past::new();
    for (k, o) in c.hist.ops.iter().enumerate() {
        if c.nothing.iter().any(|n| pick(*n, c.hist.ops.len()) == k) {
            let s = w.src("a");
            let before = w.sb.snapshots("repo")?;
            w.bp_ok(&["backup", "--allow-empty", "--allow-repeat", "--skip", ".", "--", &s])?;
            for id in w.sb.snapshots("repo")?.difference(&before) {
                let roots = [("a".to_string(), Node::dir())].into();
                w.snaps.push(SnapModel { id: id.clone(), paths: vec![s.clone()], flat: Flat::new(), author: None, tags: BTreeSet::new(), roots });
            }
            i.hit("empty-snapshot");
        }
        hist::step(&mut w, &mut past, o, &mut i)?;
    }
    if let Some(k) = c.kill {
        for n in NAMES {
            w.edit(n, &Edit::Add { at: k, name: "late".into(), node: Node::file(&format!("late {k}")) })?;
        }
        let (r, a, b) = (w.repo_arg(), w.src("a"), w.src("b"));
        let under = vec![w.sb.ps("repo"), w.sb.ps("cwd")];
        let (_, tr) = w.sb.traced("cwd", &["-r", &r, "backup", &a, &b], &Spec { under, kill: Some((k % 40) as usize), ..Spec::default() })?;
        i.hit(if tr.killed { "killed" } else { "not-killed" });
    }
    let r = w.fsck()?;
    let z = expected(&r)?;
    let all: BTreeSet<String> = r.reachable().map_err(Fail::V)?;
    let b = r.indexed_blobs();
    let unique: u64 = all.iter().filter_map(|id| b.get(id)).map(|x| x.1.len() as u64).sum();
    if z.iter().map(|x| x.1.fresh).sum::<u64>() != unique {
        return Err(Fail::E("the harness counts wrong".into()));
    }
    usage(&w, &r, &z, &mut i)?;
    for (o, of) in &c.asks {
        snapshots(&w, &z, *o, of, &mut i)?;
    }
    if w.setup.backend == Backend::Plain {
        library(&w, &r, &z)?;
    }
    i.nontrivial = z.len() > 1 && z.iter().any(|x| x.1.reused > 0);
    i.note = format!("{} snapshots, {unique} bytes", z.len());
    Ok(i)
}

fn strat() -> BoxedStrategy<Case> {
    let p = any::<u32>;
    let of = |size: u32, odd: bool, n: usize| {
        let cfg = GenCfg { size, odd_names: odd, ..GenCfg::default() };
        (
            hist::hist(cfg, W { rebuild: 1, forget: 2, prune: 1, repeat: 2, ..W::default() }, 1..n),
            prop::collection::vec(p(), 0..3),
            prop::option::weighted(0.2, p()),
            prop::collection::vec((0u8..16, prop_oneof![2 => Just(vec![]).boxed(), 1 => prop::collection::vec(p(), 1..3).boxed()]), 1..4),
        )
            .prop_map(|(hist, nothing, kill, asks)| Case { hist, nothing, kill, asks })
    };
    prop_oneof![2 => of(4, false, 5), 3 => of(10, true, 9)].boxed()
}

pub fn def() -> PropDef {
    PropDef {
        suites: vec![Box::new(Suite { name: "sizes", quick: 1500, thorough: 20_000, threads: 8, strat: Box::new(strat), run: Box::new(run) })],
        level: "exploration",
        rule: "two or more snapshots, which have data in common",
        assumptions: vec![
            "sizes are printed rounded; each number must be what the real one rounds to (exact below 1000 B, and as computed by the library)",
            "which of several files of a snapshot sharing data counts as bringing it is left open",
        ],
    }
}
