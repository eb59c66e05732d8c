//! C12: snapshot references select exactly the snapshots they name.
use super::PropDef;
use super::c10;
use crate::cli::{Out, read_dir_bytes};
use crate::engine::*;
use crate::fsck;
use crate::fsm::*;
use crate::hist::{self, *};
use crate::world::*;
use crate::{viol, want};
use ciborium::value::Value;
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

/// A snapshot put into the repository by the harness.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Forge {
    tree: u32,
    /// Seconds, nanoseconds and zone; few different ones, so that some coincide.
    time: (i64, u32, u8),
    author: u8,
    tags: Vec<String>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ref {
    Full(u32),
    /// The first n characters.
    Prefix(u32, u8),
    /// The shortest prefix that is long enough and its own only.
    Unique(u32),
    /// Counting back (also beyond the first one), and how it is written.
    Last(u32, u8),
    /// Another spelling that refers to nothing.
    Bad(u8, u32),
    /// A prefix which two snapshots have.
    Ambiguous,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ask {
    List(Vec<Ref>, bool),
    Cat(Ref),
    Ls(Ref),
    Dump(Ref),
    Diff(Ref, Ref),
    Restore(Ref),
    Copy(Vec<Ref>),
    Filter(Ref),
    Forget(Vec<Ref>, bool),
    Duplicates(bool),
    Forge(Forge),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    hist: Hist,
    forged: Vec<Forge>,
    collide: bool,
    asks: Vec<Ask>,
}

fn encode(time: i128, tz: &str, author: &str, tags: &BTreeSet<String>, paths: &BTreeSet<String>, tree: &str) -> Vec<u8> {
    let t = |s: &str| Value::Text(s.into());
    let set = |s: &BTreeSet<String>| Value::Array(s.iter().map(|x| t(x)).collect());
    let mut m = vec![
        (t("time"), Value::Integer((time as i64).into())),
        (t("tz"), t(tz)),
        (t("author"), t(author)),
    ];
    if !tags.is_empty() {
        m.push((t("tags"), set(tags)));
    }
    m.push((t("paths"), set(paths)));
    m.push((t("tree"), Value::Bytes(fsck::unb32(tree))));
    let mut o = vec![];
    ciborium::into_writer(&Value::Map(m), &mut o).unwrap();
    o
}

const ZONES: [&str; 4] = ["UTC", "America/New_York", "+05:30", "Pacific/Auckland"];
const AUTHORS: [&str; 5] = ["ann", "bob", "", "snapshot x", "é\"q"];

struct St {
    w: World,
    r: fsck::Repo,
    nout: u32,
}
impl St {
    /// (time, ID), oldest first.
    fn chron(&self) -> Vec<(i128, String)> {
        let mut v: Vec<(i128, String)> = self.r.snaps.iter().map(|(id, s)| (s.time, id.clone())).collect();
        v.sort();
        v
    }
    fn model(&self, id: &str) -> &SnapModel {
        self.w.snaps.iter().find(|s| s.id == id).unwrap()
    }
    fn put(&mut self, f: &Forge, author: Option<String>) -> R<String> {
        let real: Vec<SnapModel> = self.w.snaps.iter().filter(|s| !s.roots.is_empty()).cloned().collect();
        let m = real[pick(f.tree, real.len())].clone();
        let t = self.r.snaps[&m.id].clone();
        let time = (1_600_000_000 + f.time.0) as i128 * 1_000_000_000 + f.time.1 as i128;
        let author = author.unwrap_or(AUTHORS[f.author as usize % 5].into());
        let tags: BTreeSet<String> = f.tags.iter().cloned().collect();
        let b = encode(time, ZONES[f.time.2 as usize % 4], &author, &tags, &t.paths, &t.tree);
        let id = fsck::hash(&b);
        let mut file = b"MKBAKSNP2".to_vec();
        file.extend(b);
        if self.w.setup.backend == Backend::Filter {
            file.iter_mut().for_each(|x| *x = x.wrapping_add(1));
        }
        std::fs::write(self.w.sb.p("repo/snapshots").join(format!("{id}.snapshot")), &file)?;
        if !self.w.snaps.iter().any(|s| s.id == id) {
            self.w.snaps.push(SnapModel { id: id.clone(), roots: BTreeMap::new(), author: Some(author), tags, ..m });
        }
        self.r = self.w.fsck()?;
        Ok(id)
    }
    /// What to write, and the snapshot it names, if it does name one.
    fn resolve(&self, r: &Ref, i: &mut Info) -> (String, Option<String>) {
        let c = self.chron();
        let with = |p: &str| c.iter().filter(|x| x.1.starts_with(p)).count();
        let at = |k: u32| c[pick(k, c.len())].1.clone();
        let s = match r {
            Ref::Last(k, how) => {
                let k = pick(*k, c.len() + 3);
                let n = ["LAST", "HEAD"][*how as usize & 1];
                let s = match (k, *how as usize >> 1 & 1) {
                    (0, 0) => n.to_string(),
                    (1, 0) => format!("{n}~"),
                    _ => format!("{n}~{}{k}", if how & 4 != 0 { "0" } else { "" }),
                };
                let hit = (k < c.len()).then(|| c[c.len() - 1 - k].1.clone());
                i.hit(if hit.is_some() { "last" } else { "last-beyond" });
                return (s, hit);
            }
            Ref::Bad(how, k) => match how % 12 {
                0 => "LAST~-1".into(),
                1 => "last".into(),
                2 => "LAST~~".into(),
                3 => " LAST".into(),
                4 => "LAST~x".into(),
                5 => "LAST^".into(),
                6 => String::new(),
                7 => fsck::hash(&k.to_le_bytes()),
                8 => "LAST~99999999999999999999999".into(),
                9 => "DUPLICATE".into(),
                10 => format!("LAST~{}", usize::MAX),
                _ => "snapshots".into(),
            },
            _ if c.is_empty() => "v0v0v0".into(),
            Ref::Full(k) => at(*k),
            Ref::Prefix(k, n) => at(*k)[..(*n as usize % 46).min(45)].to_string(),
            Ref::Unique(k) => {
                let id = at(*k);
                let n = (4..45).find(|n| with(&id[..*n]) == 1).unwrap_or(45);
                id[..n].to_string()
            }
            Ref::Ambiguous => match c.iter().find(|x| with(&x.1[..4]) > 1) {
                Some(x) => {
                    let n = (4..45).take_while(|n| with(&x.1[..*n]) > 1).last().unwrap();
                    x.1[..n].to_string()
                }
                None => "v0v0".into(),
            },
        };
        let hit = if s.len() >= 4 && with(&s) == 1 { c.iter().find(|x| x.1.starts_with(&s)).map(|x| x.1.clone()) } else { None };
        i.hit(match (&hit, s.len()) {
            (Some(_), 45) => "full",
            (Some(_), _) => "prefix",
            (None, 0..4) => "too-short",
            _ if !matches!(r, Ref::Bad(..)) && with(&s) > 1 => "ambiguous",
            _ => "unknown",
        });
        (s, hit)
    }
    fn refused(&self, x: &Out, args: &[&str], before: &BTreeMap<String, Vec<u8>>) -> R<()> {
        want!(!x.panicked(), "a bad reference: {}", x.describe());
        want!(!x.ok(), "`{}` succeeds though a reference names no single snapshot", args.join(" "));
        want!(read_dir_bytes(&self.w.sb.p("repo"))? == *before, "`{}` changed the repository though a reference names no single snapshot", args.join(" "));
        Ok(())
    }
}

/// Snapshot ID, tags, author, paths as listed.
fn listed(t: &str) -> Vec<(String, String, String, BTreeSet<String>)> {
    let mut v: Vec<(String, String, String, BTreeSet<String>)> = vec![];
    for l in t.lines() {
        if let Some(x) = l.strip_prefix("snapshot ") {
            let (id, tags) = x.split_once(' ').unwrap_or((x, ""));
            v.push((id.to_string(), tags.trim_start_matches('(').trim_end_matches(')').to_string(), String::new(), BTreeSet::new()));
        } else if let (Some(a), Some(s)) = (l.strip_prefix("Author: "), v.last_mut()) {
            s.2 = a.to_string();
        } else if let (Some(p), Some(s)) = (l.strip_prefix("  - "), v.last_mut()) {
            s.3.insert(p.to_string());
        }
    }
    v
}

fn run(c: &Case, env: &Env) -> R<Info> {
    let mut i = Info::default();
    let mut w = hist::start(&c.hist, env)?;
    let mut past = Past::new();
    for o in &c.hist.ops {
        hist::step(&mut w, &mut past, o, &mut i)?;
    }
    let r = w.fsck()?;
    let mut st = St { w, r, nout: 0 };
    for f in &c.forged {
        st.put(f, None)?;
    }
    if c.collide {
        // Two whose IDs start the same, by trying many author names.
        let f = Forge { tree: 0, time: (c.forged.len() as i64, 5, 0), author: 0, tags: vec![] };
        let t = st.r.snaps[&st.w.snaps[0].id].clone();
        let time = (1_600_000_000 + f.time.0) as i128 * 1_000_000_000 + 5;
        let mut seen = BTreeMap::new();
        for k in 0..6000u32 {
            let id = fsck::hash(&encode(time, "UTC", &format!("c{k}"), &BTreeSet::new(), &t.paths, &t.tree));
            if let Some(o) = seen.insert(id[..4].to_string(), k) {
                st.put(&f, Some(format!("c{o}")))?;
                st.put(&f, Some(format!("c{k}")))?;
                break;
            }
        }
    }
    st.w.make_repo("dst", &Setup::plain())?;
    for a in &c.asks {
        let before = read_dir_bytes(&st.w.sb.p("repo"))?;
        let chron = st.chron();
        match a {
            Ask::Forge(f) => {
                if st.w.snaps.iter().any(|s| !s.roots.is_empty()) {
                    st.put(f, None)?;
                }
                continue;
            }
            Ask::List(refs, rev) => {
                let rs: Vec<_> = refs.iter().map(|r| st.resolve(r, &mut i)).collect();
                let mut args = vec!["snapshots"];
                if *rev {
                    args.push("--reverse");
                }
                args.push("--");
                args.extend(rs.iter().map(|r| r.0.as_str()));
                let x = st.w.bp(&args)?;
                if rs.iter().any(|r| r.1.is_none()) {
                    st.refused(&x, &args, &before)?;
                    continue;
                }
                want!(x.ok(), "command failed: {}", x.describe());
                let sel: BTreeSet<&String> = rs.iter().filter_map(|r| r.1.as_ref()).collect();
                let mut expect: Vec<&String> = chron.iter().map(|x| &x.1).filter(|id| sel.is_empty() || sel.contains(id)).collect();
                if *rev {
                    expect.reverse();
                }
                let got = listed(&x.text());
                want!(got.iter().map(|g| &g.0).eq(expect.iter().copied()), "`{}` lists {:?} instead of {expect:?}", args.join(" "), got.iter().map(|g| &g.0).collect::<Vec<_>>());
                for (id, tags, author, paths) in got {
                    let s = &st.r.snaps[&id];
                    let t = s.tags.iter().cloned().collect::<Vec<_>>().join(" ");
                    want!(tags == t && author == s.author && paths == s.paths, "snapshot {id} is listed with tags {tags:?}, author {author:?} and paths {paths:?}; stored is {s:?}");
                }
                i.hit("list");
            }
            Ask::Cat(r) => {
                let (r, hit) = st.resolve(r, &mut i);
                let args = ["cat", "snapshot", "--", &r];
                let x = st.w.bp(&args)?;
                let Some(id) = hit else {
                    st.refused(&x, &args, &before)?;
                    continue;
                };
                want!(x.ok(), "command failed: {}", x.describe());
                let v: serde_json::Value = serde_json::from_slice(&x.stdout).map_err(|e| Fail::V(format!("cat snapshot: {e}")))?;
                let s = &st.r.snaps[&id];
                let time = v["time"].as_str().and_then(|t| t.parse::<jiff::Zoned>().ok()).map(|z| z.timestamp().as_nanosecond());
                let ok = v["author"].as_str() == Some(&s.author) && v["tree"].as_str() == Some(&s.tree) && time == Some(s.time);
                want!(ok, "cat snapshot {r} shows {v}, and {id} is {s:?}");
                i.hit("cat");
            }
            Ask::Ls(r) => {
                let (r, hit) = st.resolve(r, &mut i);
                let args = ["ls", "--", &r];
                let x = st.w.bp(&args)?;
                let Some(id) = hit else {
                    st.refused(&x, &args, &before)?;
                    continue;
                };
                want!(x.ok(), "command failed: {}", x.describe());
                let mut e: Vec<String> = st.model(&id).flat.iter().map(|(p, e)| c10::shown(p, e)).collect();
                e.sort();
                let mut g: Vec<String> = x.text().lines().map(String::from).collect();
                g.sort();
                want!(g == e, "ls {r} lists something else than {id} holds");
                i.hit("ls");
            }
            Ask::Dump(r) => {
                let (r, hit) = st.resolve(r, &mut i);
                let path = hit.as_ref().and_then(|id| st.model(id).flat.iter().find(|(_, e)| matches!(e.kind, Kind::F(_))).map(|(p, e)| (p.clone(), e.clone())));
                let (p, e) = match (&hit, path) {
                    (Some(_), None) => continue,
                    (_, Some((p, e))) => (p, Some(e)),
                    (None, None) => ("a".into(), None),
                };
                let args = ["dump", "--", &r, &p];
                let x = st.w.bp(&args)?;
                if hit.is_none() {
                    st.refused(&x, &args, &before)?;
                    continue;
                }
                want!(x.ok(), "command failed: {}", x.describe());
                want!(matches!(&e.unwrap().kind, Kind::F(b) if x.stdout == **b), "dump {r} {p:?} gives something else than is in {}", hit.unwrap());
            }
            Ask::Diff(a, b) => {
                let (a, ha) = st.resolve(a, &mut i);
                let (b, hb) = st.resolve(b, &mut i);
                let args = ["diff", "--", &a, &b];
                let x = st.w.bp(&args)?;
                let (Some(ha), Some(hb)) = (ha, hb) else {
                    st.refused(&x, &args, &before)?;
                    continue;
                };
                want!(x.ok(), "command failed: {}", x.describe());
                let e = c10::diff(&st.model(&ha).flat, &st.model(&hb).flat, false);
                let mut g: Vec<String> = x.text().lines().map(String::from).collect();
                g.sort();
                want!(g == e, "diff {a} {b} is not that of {ha} and {hb}");
                i.hit("diff");
            }
            Ask::Restore(r) => {
                let (r, hit) = st.resolve(r, &mut i);
                match hit {
                    Some(id) => {
                        let m = SnapModel { id: r, ..st.model(&id).clone() };
                        st.w.check_restore(&m, &["--times"])?;
                        i.hit("restore");
                    }
                    None => {
                        st.nout += 1;
                        let o = st.w.sb.ps(&format!("bad{}", st.nout));
                        std::fs::create_dir(&o)?;
                        std::fs::write(format!("{o}/mine"), "x")?;
                        let args = ["restore", "--delete", "-o", &o, "--", &r];
                        let x = st.w.bp(&args)?;
                        st.refused(&x, &args, &before)?;
                        let f = read_dir_bytes(std::path::Path::new(&o))?;
                        want!(f.len() == 1 && f.contains_key("mine"), "restore of a bad reference changed the output directory: {:?}", f.keys());
                    }
                }
            }
            Ask::Copy(refs) => {
                let rs: Vec<_> = refs.iter().map(|r| st.resolve(r, &mut i)).collect();
                if rs.is_empty() {
                    continue;
                }
                empty_dir(&st.w.sb.p("dst/snapshots"))?;
                let d = st.w.sb.ps("dst");
                let mut args = vec!["copy", "--to", &d, "--"];
                args.extend(rs.iter().map(|r| r.0.as_str()));
                let x = st.w.bp(&args)?;
                if rs.iter().any(|r| r.1.is_none()) {
                    st.refused(&x, &args, &before)?;
                    want!(st.w.sb.snapshots("dst")?.is_empty(), "copy put snapshots into the target though a reference was bad");
                    continue;
                }
                want!(x.ok(), "command failed: {}", x.describe());
                let key = |s: &fsck::Snap| (s.time, s.author.clone(), s.tags.clone(), s.tree.clone());
                let got: BTreeSet<_> = st.w.fsck_of("dst", &Backend::Plain)?.snaps.values().map(key).collect();
                let expect: BTreeSet<_> = rs.iter().map(|r| key(&st.r.snaps[r.1.as_ref().unwrap()])).collect();
                want!(got == expect, "copy of {:?} gives {got:?} instead of {expect:?}", rs.iter().map(|r| &r.0).collect::<Vec<_>>());
                i.hit("copy");
            }
            Ask::Filter(r) => {
                let (r, hit) = st.resolve(r, &mut i);
                let args = ["filter-snapshot", "--keep-metadata", "--skip=no such thing", "--", &r];
                let x = st.w.bp(&args)?;
                match hit {
                    None => st.refused(&x, &args, &before)?,
                    Some(_) => want!(x.ok(), "command failed: {}", x.describe()),
                }
            }
            Ask::Forget(refs, dry) => {
                let mut rs: Vec<_> = refs.iter().map(|r| st.resolve(r, &mut i)).collect();
                // Naming one twice is an error or not; don't care.
                let mut seen = BTreeSet::new();
                rs.retain(|r| r.1.is_none() || seen.insert(r.1.clone()));
                if rs.is_empty() {
                    continue;
                }
                let mut args = vec!["forget"];
                if *dry {
                    args.push("-n");
                }
                args.push("--");
                args.extend(rs.iter().map(|r| r.0.as_str()));
                let x = st.w.bp(&args)?;
                want!(!x.panicked(), "forget: {}", x.describe());
                let bad = rs.iter().any(|r| r.1.is_none());
                want!(x.ok() != bad, "forget {:?}: {}", rs, x.describe());
                let gone: BTreeSet<String> = rs.iter().filter_map(|r| r.1.clone()).collect();
                // (With a bad one among them, the others may be forgotten or not.)
                let have = st.w.sb.snapshots("repo")?;
                let all: BTreeSet<String> = st.r.snaps.keys().cloned().collect();
                let left: BTreeSet<String> = all.difference(&gone).cloned().collect();
                if *dry {
                    want!(have == all, "forget --dry-run changed the snapshots");
                } else if bad {
                    want!(have.is_superset(&left) && all.is_superset(&have), "forget {rs:?} removed {:?}", all.difference(&have));
                } else {
                    want!(have == left, "forget {rs:?} removed {:?}", all.difference(&have).collect::<Vec<_>>());
                }
                for (k, v) in &read_dir_bytes(&st.w.sb.p("repo"))? {
                    want!(before.get(k) == Some(v), "forget changed {k}");
                }
                for k in before.keys().filter(|k| !k.starts_with("snapshots/")) {
                    want!(st.w.sb.p("repo").join(k).exists(), "forget removed {k}");
                }
                st.w.snaps.retain(|s| have.contains(&s.id));
                st.r.snaps.retain(|k, _| have.contains(k));
                i.hit("forget");
            }
            Ask::Duplicates(dry) => {
                let args: &[&str] = if *dry { &["forget", "-n", "DUPLICATES"] } else { &["forget", "DUPLICATES"] };
                st.w.bp_ok(args)?;
                let mut keep: Vec<&String> = vec![];
                let full = Cmp { times: true, modes: true, root_meta: true, atimes: false };
                let mut last: Option<&Flat> = None;
                for (_, id) in &chron {
                    let f = &st.model(id).flat;
                    if last.is_none_or(|l| !cmp(l, f, full).is_empty()) {
                        keep.push(id);
                        last = Some(f);
                    }
                }
                let have = st.w.sb.snapshots("repo")?;
                let expect: BTreeSet<String> = if *dry { chron.iter().map(|x| x.1.clone()).collect() } else { keep.into_iter().cloned().collect() };
                want!(have == expect, "forget DUPLICATES{}: kept {have:?} instead of {expect:?}", if *dry { " in a dry run" } else { "" });
                if !dry && have.len() < chron.len() {
                    i.hit("duplicates");
                }
                st.w.snaps.retain(|s| have.contains(&s.id));
                st.r.snaps.retain(|k, _| have.contains(k));
            }
        }
        if !matches!(a, Ask::Forget(..) | Ask::Duplicates(_)) {
            // (filter-snapshot may pack the empty tree.)
            let f = matches!(a, Ask::Filter(_));
            let cut = |m: BTreeMap<String, Vec<u8>>| m.into_iter().filter(|x| !f || x.0.starts_with("snapshots")).collect::<BTreeMap<_, _>>();
            if cut(read_dir_bytes(&st.w.sb.p("repo"))?) != cut(before) {
                viol!("{a:?} changed the repository");
            }
        }
    }
    i.nontrivial = st.w.snaps.len() > 1 || i.labels.contains_key("forget") || i.labels.contains_key("duplicates");
    i.note = format!("{} snapshots, {} commands", st.r.snaps.len(), c.asks.len());
    Ok(i)
}

fn reference() -> BoxedStrategy<Ref> {
    let p = any::<u32>;
    prop_oneof![
        2 => p().prop_map(Ref::Full),
        2 => (p(), any::<u8>()).prop_map(|(k, n)| Ref::Prefix(k, n)),
        4 => p().prop_map(Ref::Unique),
        6 => (p(), any::<u8>()).prop_map(|(k, h)| Ref::Last(k, h)),
        1 => (any::<u8>(), p()).prop_map(|(h, k)| Ref::Bad(h, k)),
        1 => Just(Ref::Ambiguous),
    ]
    .boxed()
}
fn strat() -> BoxedStrategy<Case> {
    let cfg = GenCfg { size: 6, ..GenCfg::default() };
    let wt = W { prune: 0, forget: 0, rebuild: 0, revert: 2, repeat: 2, backup: 6, edit: 4 };
    let forge = || {
        (any::<u32>(), (0i64..6, prop::sample::select(vec![0u32, 5, 999_999_999]), any::<u8>()), any::<u8>(), prop::collection::vec(prop::sample::select(vec!["t1", "t2", "é"]).prop_map(String::from), 0..3))
            .prop_map(|(tree, time, author, tags)| Forge { tree, time, author, tags })
    };
    let refs = || prop::collection::vec(reference(), 0..4);
    let ask = prop_oneof![
        4 => (refs(), any::<bool>()).prop_map(|(r, b)| Ask::List(r, b)),
        4 => reference().prop_map(Ask::Cat),
        2 => reference().prop_map(Ask::Ls),
        1 => reference().prop_map(Ask::Dump),
        2 => (reference(), reference()).prop_map(|(a, b)| Ask::Diff(a, b)),
        2 => reference().prop_map(Ask::Restore),
        2 => refs().prop_map(Ask::Copy),
        1 => reference().prop_map(Ask::Filter),
        4 => (refs(), prop::bool::weighted(0.2)).prop_map(|(r, b)| Ask::Forget(r, b)),
        1 => prop::bool::weighted(0.2).prop_map(Ask::Duplicates),
        2 => forge().prop_map(Ask::Forge),
    ];
    (hist(cfg, wt, 1..6), prop::collection::vec(forge(), 0..6), prop::bool::weighted(0.3), prop::collection::vec(ask, 4..14))
        .prop_map(|(mut hist, forged, collide, asks)| {
            hist.ops.insert(0, Op::Backup(1));
            Case { hist, forged, collide, asks }
        })
        .boxed()
}

pub fn def() -> PropDef {
    PropDef {
        suites: vec![Box::new(Suite { name: "refs", quick: 900, thorough: 20_000, threads: 8, strat: Box::new(strat), run: Box::new(run) })],
        level: "exploration",
        rule: "there was more than one snapshot, or some were forgotten",
        assumptions: vec!["snapshots of the same time are ordered by their IDs", "forget with a bad reference among good ones fails, and may or may not forget the good ones"],
    }
}
