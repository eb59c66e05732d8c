//! C10: what ls, diff, dump, cat and snapshots --stat say is what is stored.
use super::PropDef;
use crate::engine::*;
use crate::fsck::{self, TNode};
use crate::fsm::*;
use crate::hist::{self, *};
use crate::{viol, want};
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

/// How an entry is shown.
pub fn shown(p: &str, e: &Ent) -> String {
    match &e.kind {
        Kind::D => format!("{p}/"),
        Kind::L(t) => format!("{p} -> {t}"),
        _ => p.to_string(),
    }
}
fn kids<'a>(f: &'a Flat, at: &str) -> Vec<(&'a str, &'a Ent)> {
    let pre = if at.is_empty() { String::new() } else { format!("{at}/") };
    f.iter().filter(|(p, _)| !p.is_empty() && p.strip_prefix(pre.as_str()).is_some_and(|r| !r.is_empty() && !r.contains('/'))).map(|(p, e)| (p.as_str(), e)).collect()
}
fn under(f: &Flat, at: &str, mark: &str, out: &mut Vec<String>) {
    let pre = format!("{at}/");
    for (p, e) in f {
        if p == at || p.starts_with(&pre) {
            out.push(format!("{mark} {}", shown(p, e)));
        }
    }
}
/// The lines of a diff from `a` to `b`.
pub fn diff(a: &Flat, b: &Flat, meta: bool) -> Vec<String> {
    fn rec(a: &Flat, b: &Flat, at: &str, meta: bool, out: &mut Vec<String>) {
        let (ka, kb): (BTreeMap<_, _>, BTreeMap<_, _>) = (kids(a, at).into_iter().collect(), kids(b, at).into_iter().collect());
        for p in ka.keys().chain(kb.keys()).collect::<BTreeSet<_>>() {
            let (Some(x), Some(y)) = (ka.get(p), kb.get(p)) else {
                if ka.contains_key(p) { under(a, p, "-", out) } else { under(b, p, "+", out) }
                continue;
            };
            let changed = |out: &mut Vec<String>| {
                let c = if x.mode != y.mode {
                    "P"
                } else if x.t != y.t {
                    "T"
                } else {
                    return;
                };
                if meta {
                    out.push(format!("{c} {}", shown(p, y)));
                }
            };
            match (&x.kind, &y.kind) {
                (Kind::D, Kind::D) => {
                    rec(a, b, p, meta, out);
                    changed(out);
                }
                (Kind::F(m), Kind::F(n)) => {
                    if m != n {
                        out.push(format!("C {p}"));
                    } else {
                        changed(out);
                    }
                }
                (Kind::L(m), Kind::L(n)) if m == n => {}
                _ => {
                    under(a, p, "-", out);
                    under(b, p, "+", out);
                }
            }
        }
    }
    let mut out = vec![];
    rec(a, b, "", meta, &mut out);
    out.sort();
    out
}
fn lines(s: &str) -> Vec<String> {
    let mut v: Vec<String> = s.split('\n').filter(|l| !l.is_empty()).map(String::from).collect();
    v.sort();
    v
}
/// Reading a file changes its access time when that is not after its mtime: don't compare it then.
fn without_atimes(l: Vec<String>, b: &Flat) -> Vec<String> {
    l.into_iter().filter(|l| !(l.strip_prefix("A ").and_then(|p| b.get(p.trim_end_matches('/'))).is_some_and(|e| e.t >= ATIME))).collect()
}
fn same(what: &str, got: &[String], expect: &[String]) -> R<()> {
    if got != expect {
        let g: BTreeSet<_> = got.iter().collect();
        let e: BTreeSet<_> = expect.iter().collect();
        viol!(
            "{what}: wrongly shown {:?}, not shown {:?} ({} lines, {} expected)",
            g.difference(&e).take(4).collect::<Vec<_>>(),
            e.difference(&g).take(4).collect::<Vec<_>>(),
            got.len(),
            expect.len()
        );
    }
    Ok(())
}
fn json(o: &crate::cli::Out) -> R<Value> {
    serde_json::from_slice(&o.stdout).map_err(|e| Fail::V(format!("`{}` printed something that is not JSON: {e}", o.cmdline)))
}
fn js(v: &Value, k: &str) -> String {
    v[k].as_str().unwrap_or_default().to_string()
}
fn manifest(v: &Value) -> Vec<(bool, u64, String)> {
    v.as_array().map_or(vec![], |a| a.iter().map(|e| (js(e, "type") == "tree", e["length"].as_u64().unwrap_or(u64::MAX), js(e, "id"))).collect())
}
fn entries(v: &[fsck::Entry]) -> Vec<(bool, u64, String)> {
    v.iter().map(|e| (e.tree, e.len, e.id.clone())).collect()
}
fn instant(v: &Value) -> Option<i128> {
    v.as_str()?.parse::<jiff::Timestamp>().ok().map(|t| t.as_nanosecond())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ask {
    Ls(u32),
    /// snapshot, path, way of writing it, -o
    Dump(u32, u32, u8, bool),
    /// snapshot, path, way of making it one that's not there
    DumpMissing(u32, u32, u8),
    CatBlob(u32),
    CatPack(u32),
    CatIndex(u32),
    CatSnap(u32),
    CatMissing(u8, u32),
    Diff(u32, u32, bool),
    DiffFs(u32, bool),
    Stat { pick: Option<u32>, meta: bool, reverse: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    hist: Hist,
    asks: Vec<Ask>,
}

/// Another way to write a relative path.
fn spell(p: &str, how: u8) -> String {
    match how % 6 {
        0 => format!("./{p}"),
        1 => p.replace('/', "//"),
        2 => format!("{p}/"),
        3 => p.replace('/', "/./"),
        _ => p.to_string(),
    }
}

fn run(c: &Case, env: &Env) -> R<Info> {
    let mut i = Info::default();
    let mut w = hist::start(&c.hist, env)?;
    let mut past = Past::new();
    for o in &c.hist.ops {
        hist::step(&mut w, &mut past, o, &mut i)?;
    }
    let r = w.fsck()?;
    let blobs = r.indexed_blobs();
    let mut chron: Vec<(i128, String)> = r.snaps.iter().map(|(id, s)| (s.time, id.clone())).collect();
    chron.sort();
    let of = |id: &str| w.snaps.iter().find(|s| s.id == id).unwrap();
    let root = |f: &Flat| -> Flat { f.iter().filter(|(p, _)| !p.is_empty()).map(|(p, e)| (p.clone(), e.clone())).collect() };
    let mut nout = 0;
    for a in &c.asks {
        let n = w.snaps.len();
        if n == 0 && !matches!(a, Ask::Stat { .. } | Ask::CatBlob(_) | Ask::CatPack(_) | Ask::CatIndex(_) | Ask::CatMissing(..)) {
            continue;
        }
        match a {
            Ask::Ls(k) => {
                let s = &w.snaps[pick(*k, n)];
                let mut e: Vec<String> = s.flat.iter().map(|(p, e)| shown(p, e)).collect();
                e.sort();
                same("ls", &lines(&w.bp_ok(&["ls", &s.id])?.text()), &e)?;
                i.hit("ls");
            }
            Ask::Dump(k, p, how, file) => {
                let s = &w.snaps[pick(*k, n)];
                let Some((path, e)) = s.flat.iter().nth(pick(*p, s.flat.len())) else { continue };
                let sp = spell(path, *how);
                nout += 1;
                let o = w.sb.ps(&format!("dumped{nout}"));
                let mut args = vec!["dump"];
                if *file {
                    args.extend(["-o", &o]);
                }
                args.extend(["--", &s.id, &sp]);
                let x = w.bp_ok(&args)?;
                let got = if *file { std::fs::read(&o).map_err(|e| Fail::V(format!("dump -o made no file: {e}")))? } else { x.stdout.clone() };
                match &e.kind {
                    Kind::F(b) => {
                        i.hit("dump-file");
                        want!(got == **b, "dump of {sp:?} gives {} bytes, and not the {} of the file", got.len(), b.len());
                    }
                    Kind::L(t) => {
                        i.hit("dump-link");
                        want!(got == format!("{path} -> {t}\n").as_bytes(), "dump of the link {sp:?} to {t:?} gives {:?}", String::from_utf8_lossy(&got));
                    }
                    _ => {
                        i.hit("dump-dir");
                        let mut e = vec![format!("{path}/")];
                        e.extend(kids(&s.flat, path).iter().map(|(p, e)| shown(p, e).replace(" -> ", "-> ")));
                        e.sort();
                        let mut g = lines(&String::from_utf8_lossy(&got).replace(" -> ", "-> "));
                        e[..].iter_mut().for_each(|l| *l = l.replace(" -> ", "-> "));
                        e.sort();
                        g.sort();
                        same(&format!("dump of {sp:?}"), &g, &e)?;
                    }
                }
            }
            Ask::DumpMissing(k, p, how) => {
                let s = &w.snaps[pick(*k, n)];
                let Some((path, e)) = s.flat.iter().nth(pick(*p, s.flat.len())) else { continue };
                let sp = match how % 6 {
                    0 => format!("{path}/nonesuch"),
                    1 => format!("{path}x"),
                    2 => format!("/{path}"),
                    3 => format!("{path}/../{path}"),
                    4 => path.chars().take(path.chars().count() - 1).collect(),
                    _ => match &e.kind {
                        Kind::D => format!("{path}/{path}"),
                        Kind::L(t) => format!("{path}/{t}"),
                        _ => format!("{path}/{}", path.rsplit('/').next().unwrap()),
                    },
                };
                let norm = sp.split('/').filter(|c| !c.is_empty() && *c != ".").collect::<Vec<_>>().join("/");
                let plain = !sp.starts_with('/') && !sp.split('/').any(|c| c == "..");
                if norm.is_empty() || (plain && s.flat.contains_key(&norm)) {
                    continue;
                }
                let x = w.bp(&["dump", "--", &s.id, &sp])?;
                want!(!x.ok(), "dump of {sp:?}, which the snapshot does not contain, succeeds and prints {:?}", x.text());
                want!(x.stdout.is_empty(), "dump of {sp:?}, which the snapshot does not contain, prints {:?}", x.text());
                want!(!x.panicked(), "dump of {sp:?}, which the snapshot does not contain: {}", x.describe());
                i.hit("dump-missing");
            }
            Ask::CatBlob(k) => {
                if blobs.is_empty() {
                    continue;
                }
                let (id, (tree, b)) = blobs.iter().nth(pick(*k, blobs.len())).unwrap();
                let x = w.bp_ok(&["cat", "blob", id])?;
                if !*tree {
                    i.hit("cat-chunk");
                    want!(x.stdout == **b, "cat blob {id} gives something else than is stored");
                    continue;
                }
                i.hit("cat-tree");
                let v = json(&x)?;
                let t = fsck::parse_tree(b).map_err(Fail::V)?;
                let m = v.as_object().cloned().unwrap_or_default();
                want!(m.len() == t.len(), "cat blob {id} shows {} entries of {}", m.len(), t.len());
                for (name, e) in &t {
                    let Some(x) = m.get(name) else { viol!("cat blob {id} does not show {name:?}") };
                    let ok = match &e.node {
                        TNode::File(c) => x["chunks"].as_array().is_some_and(|a| a.iter().map(|x| x.as_str().unwrap_or("")).eq(c.iter().map(|s| s.as_str()))),
                        TNode::Dir(d) => x["tree"].as_str() == Some(d),
                        TNode::Link(l) => x["symlink"].as_str() == Some(l),
                    };
                    want!(ok, "cat blob {id} shows {x} for {name:?}, which is {:?}", e.node);
                    let md = &x["metadata"];
                    let ok = md["mode"].as_u64() == Some(e.mode as u64)
                        && md["size"].as_u64() == e.size
                        && md["uid"].as_u64() == Some(e.uid as u64)
                        && md["gid"].as_u64() == Some(e.gid as u64)
                        && instant(&md["mtime"]) == Some(e.mtime)
                        && instant(&md["atime"]) == Some(e.atime);
                    want!(ok, "cat blob {id} shows metadata {md} for {name:?}, which are {e:?}");
                }
            }
            Ask::CatPack(k) => {
                if r.packs.is_empty() {
                    continue;
                }
                let (id, p) = r.packs.iter().nth(pick(*k, r.packs.len())).unwrap();
                let v = json(&w.bp_ok(&["cat", "pack", id])?)?;
                want!(manifest(&v) == entries(&p.entries), "cat pack {id} shows {v}, stored is {:?}", p.entries);
                i.hit("cat-pack");
            }
            Ask::CatIndex(k) => {
                if r.indexes.is_empty() {
                    continue;
                }
                let (id, x) = r.indexes.iter().nth(pick(*k, r.indexes.len())).unwrap();
                let v = json(&w.bp_ok(&["cat", "index", id])?)?;
                let sup: BTreeSet<String> = v["supersedes"].as_array().map_or(BTreeSet::new(), |a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect());
                let packs: BTreeMap<String, Vec<(bool, u64, String)>> = v["packs"].as_object().map_or(BTreeMap::new(), |m| m.iter().map(|(k, v)| (k.clone(), manifest(v))).collect());
                let expect: BTreeMap<String, Vec<(bool, u64, String)>> = x.packs.iter().map(|(k, v)| (k.clone(), entries(v))).collect();
                want!(sup == x.supersedes && packs == expect, "cat index {id} shows {v}, stored is {x:?}");
                i.hit("cat-index");
            }
            Ask::CatSnap(k) => {
                let s = &w.snaps[pick(*k, n)];
                let t = &r.snaps[&s.id];
                let v = json(&w.bp_ok(&["cat", "snapshot", &s.id])?)?;
                let set = |k: &str| -> BTreeSet<String> { v[k].as_array().map_or(BTreeSet::new(), |a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()) };
                let time = v["time"].as_str().and_then(|t| t.parse::<jiff::Zoned>().ok()).map(|z| z.timestamp().as_nanosecond());
                let ok = set("paths") == t.paths && set("tags") == t.tags && js(&v, "author") == t.author && js(&v, "tree") == t.tree && time == Some(t.time);
                want!(ok, "cat snapshot {} shows {v}, stored is {t:?}", s.id);
                i.hit("cat-snapshot");
            }
            Ask::CatMissing(what, k) => {
                let kind = ["blob", "pack", "index", "snapshot"][pick(*what as u32, 4)];
                let id = fsck::hash(&k.to_le_bytes());
                let x = w.bp(&["cat", kind, &id])?;
                want!(!x.ok() && x.stdout.is_empty() && !x.panicked(), "cat {kind} of an ID that's not there: {} and prints {:?}", x.describe(), x.text());
                i.hit("cat-missing");
            }
            Ask::Diff(a, b, meta) => {
                let (a, b) = (&w.snaps[pick(*a, n)], &w.snaps[pick(*b, n)]);
                let mut args = vec!["diff", a.id.as_str(), b.id.as_str()];
                if *meta {
                    args.push("-m");
                }
                let e = diff(&root(&a.flat), &root(&b.flat), *meta);
                same(&format!("diff {} {}", a.id, b.id), &without_atimes(lines(&w.bp_ok(&args)?.text()), &b.flat), &e)?;
                i.hit(if a.id == b.id { "diff-self" } else if e.is_empty() { "diff-none" } else { "diff-some" });
            }
            Ask::DiffFs(a, meta) => {
                let a = &w.snaps[pick(*a, n)];
                let names: Vec<String> = a.roots.keys().cloned().collect();
                let mut args = vec!["diff", a.id.as_str()];
                if *meta {
                    args.push("-m");
                }
                let now = root(&w.expected(&names));
                let e = diff(&root(&a.flat), &now, *meta);
                same(&format!("diff {} with the files", a.id), &without_atimes(lines(&w.bp_ok(&args)?.text()), &now), &e)?;
                i.hit(if e.is_empty() { "diff-fs-none" } else { "diff-fs-some" });
            }
            Ask::Stat { pick: sel, meta, reverse } => {
                let mut args = vec!["snapshots".to_string(), "--stat".into()];
                if *meta {
                    args.push("-m".into());
                }
                if *reverse {
                    args.push("--reverse".into());
                }
                let chosen: Vec<usize> = match sel {
                    Some(k) if n > 0 => (0..n).filter(|j| k >> (j % 32) & 1 == 1).collect(),
                    _ => vec![],
                };
                // (Given in any order, shown in the order of time.)
                args.extend(chosen.iter().rev().map(|j| chron[*j].1.clone()));
                let mut order: Vec<usize> = if chosen.is_empty() { (0..n).collect() } else { chosen };
                if *reverse {
                    order.reverse();
                }
                let t = w.bp_ok(&args.iter().map(|s| s.as_str()).collect::<Vec<_>>())?.text();
                let mut got: Vec<(String, Vec<String>)> = vec![];
                for l in t.lines() {
                    if let Some(x) = l.strip_prefix("snapshot ") {
                        got.push((x.split(' ').next().unwrap().to_string(), vec![]));
                    } else if l.len() > 3 && l.starts_with(' ') && !l.starts_with("  ") && l.as_bytes()[2] == b' ' {
                        match got.last_mut() {
                            Some(g) => g.1.push(l[1..].to_string()),
                            None => viol!("snapshots --stat shows {l:?} before any snapshot"),
                        }
                    }
                }
                let ids: Vec<&str> = got.iter().map(|g| g.0.as_str()).collect();
                let expect: Vec<&str> = order.iter().map(|j| chron[*j].1.as_str()).collect();
                want!(ids == expect, "snapshots --stat {args:?} shows snapshots {ids:?} instead of {expect:?}");
                for ((id, mut l), j) in got.into_iter().zip(order) {
                    let before = if j == 0 { Flat::new() } else { root(&of(&chron[j - 1].1).flat) };
                    l.sort();
                    let l = without_atimes(l, &of(&id).flat);
                    same(&format!("snapshots --stat for {id}"), &l, &diff(&before, &root(&of(&id).flat), *meta))?;
                }
                i.hit("stat");
            }
        }
    }
    i.nontrivial = !w.snaps.is_empty() && ["diff-some", "diff-fs-some", "dump-file", "stat"].iter().any(|l| i.labels.contains_key(*l));
    i.note = format!("{} snapshots, {} questions", w.snaps.len(), c.asks.len());
    Ok(i)
}

fn strat() -> BoxedStrategy<Case> {
    let cfg = GenCfg { size: 14, fifo: true, odd_meta: true, ..GenCfg::default() };
    let wt = W { prune: 1, forget: 1, rebuild: 1, revert: 2, repeat: 1, ..W::default() };
    let p = any::<u32>;
    let b = any::<bool>;
    let ask = prop_oneof![
        2 => p().prop_map(Ask::Ls),
        8 => (p(), p(), any::<u8>(), b()).prop_map(|(a, b, c, d)| Ask::Dump(a, b, c, d)),
        3 => (p(), p(), any::<u8>()).prop_map(|(a, b, c)| Ask::DumpMissing(a, b, c)),
        4 => p().prop_map(Ask::CatBlob),
        1 => p().prop_map(Ask::CatPack),
        1 => p().prop_map(Ask::CatIndex),
        1 => p().prop_map(Ask::CatSnap),
        1 => (any::<u8>(), p()).prop_map(|(a, b)| Ask::CatMissing(a, b)),
        6 => (p(), p(), b()).prop_map(|(x, y, m)| Ask::Diff(x, y, m)),
        3 => (p(), b()).prop_map(|(x, m)| Ask::DiffFs(x, m)),
        3 => (prop::option::of(p()), b(), b()).prop_map(|(pick, meta, reverse)| Ask::Stat { pick, meta, reverse }),
    ];
    (hist(cfg, wt, 2..9), prop::collection::vec(ask, 4..16))
        .prop_map(|(mut hist, asks)| {
            hist.ops.insert(0, Op::Backup(3));
            Case { hist, asks }
        })
        .boxed()
}

pub fn def() -> PropDef {
    PropDef {
        suites: vec![Box::new(Suite { name: "show", quick: 1600, thorough: 20_000, threads: 8, strat: Box::new(strat), run: Box::new(run) })],
        level: "exploration",
        rule: "the repository has a snapshot and a non-empty diff, a file's dump or a --stat was compared",
        assumptions: vec!["names contain no line breaks", "the order of the lines within one listing is not compared", "dump of the snapshot's root itself (.) is not asked for"],
    }
}
