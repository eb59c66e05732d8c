//! C13: stored objects follow the documented format and their IDs.
use super::PropDef;
use crate::cli::*;
use crate::engine::*;
use crate::fsck;
use crate::fsm::*;
use crate::hist::{self, *};
use crate::want;
use crate::world::*;
use ciborium::value::Value;
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Op(Op),
    /// Back up with this time zone, author and tags.
    Zoned { mask: u32, zone: u8, author: Option<String>, tags: Vec<String> },
    Copy(u32),
    Filter(u32, bool),
    /// Rewrite a snapshot in the older format.
    Old(u32, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    hist: Hist,
    dst: Setup,
    steps: Vec<Step>,
}

/// TZ, and the zone or offset to be recorded (if that's certain).
const ZONES: [(&str, &str); 14] = [
    ("UTC", "UTC"),
    ("America/New_York", "America/New_York"),
    ("Pacific/Chatham", "Pacific/Chatham"),
    ("Asia/Kathmandu", "Asia/Kathmandu"),
    ("Pacific/Kiritimati", "Pacific/Kiritimati"),
    ("EST5EDT,M3.2.0,M11.1.0", ""),
    ("<+0330>-3:30", "+03:30"),
    ("<-09>9", "-09:00"),
    ("", ""),
    ("No/Such_Zone", ""),
    (":America/Lima", "America/Lima"),
    (":@/zone.tzif", "+05:45"),
    ("@/zone.tzif", "+05:45"),
    ("GMT+3", ""),
];

fn zoned(time: i128, tz: &str) -> R<jiff::Zoned> {
    let t = jiff::Timestamp::from_nanosecond(time).map_err(|e| Fail::V(format!("snapshot time: {e}")))?;
    let z: jiff::tz::TimeZone = jiff::fmt::temporal::DateTimeParser::new().parse_time_zone(tz).map_err(|e| Fail::V(format!("recorded time zone {tz:?}: {e}")))?;
    Ok(t.to_zoned(z))
}

/// Beyond what reading it already demands.
fn strict(w: &World, repo: &str, b: &Backend) -> R<fsck::Repo> {
    let r = w.fsck_of(repo, b)?;
    r.sound().map_err(|e| Fail::V(format!("{repo} is not sound: {e}")))?;
    for (id, s) in &r.snaps {
        zoned(s.time, &s.tz).map_err(|e| Fail::V(format!("snapshot {id}: {e:?}")))?;
        want!(s.paths.iter().all(|p| p.starts_with('/')), "snapshot {id} records relative paths: {:?}", s.paths);
    }
    for (id, p) in &r.packs {
        want!(!p.entries.is_empty(), "pack {id} is empty");
        let n: BTreeSet<&String> = p.entries.iter().map(|e| &e.id).collect();
        want!(n.len() == p.entries.len(), "pack {id} holds a blob twice");
    }
    for (id, i) in &r.indexes {
        want!(!i.supersedes.contains(id), "index {id} supersedes itself");
    }
    // Blobs called trees are trees.
    for p in r.packs.values() {
        for (e, b) in p.entries.iter().zip(&p.blobs).filter(|x| x.0.tree) {
            let t = fsck::parse_tree(b).map_err(|x| Fail::V(format!("tree {}: {x}", e.id)))?;
            for n in t.keys() {
                want!(!n.is_empty() && !n.contains('/') && n != "." && n != "..", "tree {} has an entry called {n:?}", e.id);
            }
        }
    }
    Ok(r)
}

fn run(c: &Case, env: &Env) -> R<Info> {
    let mut i = Info::default();
    let mut w = hist::start(&c.hist, env)?;
    w.make_repo("dst", &c.dst)?;
    let (repo, dst) = (w.repo_arg(), w.sb.ps("dst"));
    let top = w.sb.ps(".").trim_end_matches("/.").to_string();
    std::fs::copy("/usr/share/zoneinfo/Asia/Kathmandu", w.sb.p("zone.tzif"))?;
    let mut past = Past::new();
    let bk = c.hist.setup.backend.clone();
    let mut n_new = 0u64;
    for s in &c.steps {
        let before = w.fsck()?;
        match s {
            Step::Op(o) => {
                hist::step(&mut w, &mut past, o, &mut i)?;
            }
            Step::Zoned { mask, zone, author, tags } => {
                let names = select(&NAMES, *mask);
                let (tz, expect) = ZONES[*zone as usize % ZONES.len()];
                let paths: Vec<String> = names.iter().map(|n| w.src(n)).collect();
                let had = w.sb.snapshots("repo")?;
                let mut args = vec!["-r", &repo, "backup", "--allow-empty", "--allow-repeat"];
                if let Some(a) = author {
                    args.extend(["--author", a]);
                }
                for t in tags {
                    args.extend(["--tag", t]);
                }
                args.push("--");
                args.extend(paths.iter().map(|s| s.as_str()));
                let mut cmd = w.sb.command("cwd", &args);
                cmd.env("TZ", tz.replace('@', &top));
                let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as i128;
                let t0 = now();
                let o = run_command(cmd)?;
                let t1 = now();
                want!(o.ok(), "backup with TZ={tz:?} failed: {}", o.describe());
                let id = w.adopt(&names, &had)?;
                let Some(id) = id else {
                    return Err(Fail::V("backup --allow-repeat added no snapshot".into()));
                };
                past.all.push(w.snaps.last().unwrap().clone());
                past.last = names;
                let r = w.fsck()?;
                let s = &r.snaps[&id];
                // (Clocks of the kernel's coarse and fine kind differ by some milliseconds.)
                want!(t0 - 20_000_000 <= s.time && s.time <= t1 + 20_000_000, "snapshot taken between {t0} and {t1} records the time {} (TZ={tz:?})", s.time);
                let z = zoned(s.time, &s.tz)?;
                let right = expect.is_empty() || if expect.starts_with(['+', '-']) { z.strftime("%:z").to_string() == expect } else { s.tz == expect };
                want!(right, "with TZ={tz:?} the recorded zone is {:?}", s.tz);
                let tags: BTreeSet<String> = tags.iter().cloned().collect();
                want!(s.tags == tags, "tags {tags:?} are recorded as {:?}", s.tags);
                want!(author.as_ref().is_none_or(|a| *a == s.author), "author {author:?} is recorded as {:?}", s.author);
                let x = w.sb.ok(&["-r", &repo, "snapshots", &id])?;
                let hms = z.strftime("%H:%M:%S").to_string();
                want!(x.text().contains(&hms), "snapshots shows {} for {z}", x.text());
                i.hit("zoned");
            }
            Step::Copy(m) => {
                let ids = masked(&w, *m);
                if ids.is_empty() {
                    continue;
                }
                let mut args = vec!["-r", &repo, "copy", "--to", &dst, "--"];
                args.extend(ids.iter().map(|s| s.as_str()));
                w.sb.ok(&args)?;
                let (r, d) = (w.fsck()?, strict(&w, "dst", &c.dst.backend)?);
                for id in &ids {
                    let s = &r.snaps[id];
                    want!(d.snaps.values().any(|x| (x.time, &x.author, &x.tags, &x.tree, &x.paths) == (s.time, &s.author, &s.tags, &s.tree, &s.paths)), "copied snapshot {id} is not in the target");
                }
                i.hit("copy");
            }
            Step::Filter(k, keep) => {
                if w.snaps.is_empty() {
                    continue;
                }
                let s = w.snaps[pick(*k, w.snaps.len())].clone();
                let Some(p) = s.flat.keys().rfind(|p| p.contains('/')).cloned() else { continue };
                let had = w.sb.snapshots("repo")?;
                let pat = ending(&p);
                let mut args = vec!["-r", &repo, "filter-snapshot", "-s", &pat];
                if *keep {
                    args.push("--keep-metadata");
                }
                args.push(&s.id);
                w.sb.ok(&args)?;
                let new: Vec<String> = w.sb.snapshots("repo")?.difference(&had).cloned().collect();
                if *keep && new.is_empty() {
                    continue; // (It's been filtered like that before.)
                }
                want!(new.len() == 1, "filter-snapshot made {} snapshots", new.len());
                w.snaps.push(SnapModel { id: new[0].clone(), flat: without(&s.flat, &[pat]), roots: BTreeMap::new(), ..s });
                i.hit("filter");
            }
            Step::Old(k, zone) => {
                if w.snaps.is_empty() || bk == Backend::Filter {
                    continue;
                }
                let n = pick(*k, w.snaps.len());
                let id = w.snaps[n].id.clone();
                let s = before.snaps[&id].clone();
                let tz = ["UTC", "America/New_York", "Asia/Kathmandu", "+02:00"][*zone as usize & 3];
                let z = zoned(s.time, tz)?;
                // As jiff or chrono wrote them.
                let t = if zone & 4 == 0 { z.to_string() } else { z.strftime("%FT%H:%M:%S%.f%:z").to_string() };
                let text = |s: &str| Value::Text(s.into());
                let set = |s: &BTreeSet<String>| Value::Array(s.iter().map(|x| text(x)).collect());
                let v = Value::Map(vec![
                    (text("time"), text(&t)),
                    (text("author"), text(&s.author)),
                    (text("tags"), set(&s.tags)),
                    (text("paths"), set(&s.paths)),
                    (text("tree"), Value::Bytes(fsck::unb32(&s.tree))),
                ]);
                let mut b = vec![];
                ciborium::into_writer(&v, &mut b).unwrap();
                let new = fsck::hash(&b);
                let mut f = b"MKBAKSNP1".to_vec();
                f.extend(b);
                std::fs::write(w.sb.p("repo/snapshots").join(format!("{new}.snapshot")), f)?;
                if id != new {
                    std::fs::remove_file(w.sb.p("repo/snapshots").join(format!("{id}.snapshot")))?;
                }
                w.snaps[n].id = new.clone();
                let x = w.sb.ok(&["-r", &repo, "cat", "snapshot", &new])?;
                let v: serde_json::Value = serde_json::from_slice(&x.stdout).map_err(|e| Fail::V(format!("cat snapshot: {e}")))?;
                let time = v["time"].as_str().and_then(|t| t.parse::<jiff::Zoned>().ok().map(|z| z.timestamp().as_nanosecond()).or_else(|| t.parse::<jiff::Timestamp>().ok().map(|t| t.as_nanosecond())));
                want!(time == Some(s.time), "a snapshot with the time {t} in the older format is shown as {v}, instead of {}", s.time);
                i.hit("old-format");
            }
        }
        let after = strict(&w, "repo", &bk)?;
        n_new += after.packs.keys().filter(|k| !before.packs.contains_key(*k)).count() as u64;
    }
    let r = w.deep_check()?;
    if let Some(s) = w.snaps.last().cloned() {
        w.check_restore(&s, &["--times"])?;
    }
    i.nontrivial = !r.packs.is_empty() && n_new > 0;
    i.note = format!("{} snapshots, {} packs, {} indexes", r.snaps.len(), r.packs.len(), r.indexes.len());
    Ok(i)
}

fn strat() -> BoxedStrategy<Case> {
    let cfg = GenCfg { size: 8, odd_meta: true, newline_names: true, ..GenCfg::default() };
    let p = any::<u32>;
    let word = prop_oneof![
        3 => "[a-z]{1,6}".prop_map(String::from),
        1 => prop::sample::select(vec!["é日", "two words", "a,b", "(x)", "\u{1F980}", "with\nbreak", "=", "%s", "\"", "v1"]).prop_map(String::from),
    ];
    let author = prop_oneof![word.clone(), Just(String::new())];
    let zoned = (prop_oneof![Just(1u32), Just(2), Just(3)], any::<u8>(), prop::option::of(author), prop::collection::vec(word, 0..3))
        .prop_map(|(mask, zone, author, tags)| Step::Zoned { mask, zone, author, tags });
    let step = prop_oneof![
        8 => op(cfg, W { forget: 1, ..W::default() }).prop_map(Step::Op),
        4 => zoned,
        2 => p().prop_map(Step::Copy),
        1 => (p(), any::<bool>()).prop_map(|(a, b)| Step::Filter(a, b)),
        1 => (p(), any::<u8>()).prop_map(|(a, b)| Step::Old(a, b)),
    ];
    (hist(cfg, W::default(), 0..1), setup(), prop::collection::vec(step, 3..10)).prop_map(|(hist, dst, steps)| Case { hist, dst, steps }).boxed()
}

pub fn def() -> PropDef {
    #[allow(unused_mut)]
    let mut suites: Vec<Box<dyn AnySuite>> =
        vec![Box::new(Suite { name: "repos", quick: 1500, thorough: 12_000, threads: 8, strat: Box::new(strat), run: Box::new(run) })];
    #[cfg(feature = "lib")]
    suites.push(Box::new(Suite { name: "codec", quick: 200_000, thorough: 3_000_000, threads: 8, strat: Box::new(codec::strat), run: Box::new(codec::run) }));
    PropDef {
        suites,
        level: "exploration",
        rule: "repos: packs were written; codec: the value has at least one entry",
        assumptions: vec!["times within 64 bit nanoseconds", "the zone recorded is compared for named and fixed-offset zones only"],
    }
}

/// Library encoders and decoders against the independent reader.
#[cfg(feature = "lib")]
mod codec {
    use super::*;
    use backpak::hashing::ObjectId;
    use backpak::index::Index;
    use backpak::pack::PackManifestEntry;
    use backpak::tree::{Node, NodeContents, NodeMetadata, PosixMetadata, Tree, serialize_and_hash};
    use jiff::Timestamp;
    use std::str::FromStr;

    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub enum Val {
        /// name, kind, mode, size, uid, gid, atime, mtime, ids, target
        Tree(Vec<(String, u8, u16, Option<u64>, (u32, u32), (i64, i64), Vec<u32>, String)>),
        Index(Vec<u32>, Vec<(u32, Vec<(bool, u32, u32)>)>),
        Id(Vec<u8>),
        Text(String),
    }
    fn oid(n: u32) -> (ObjectId, String) {
        let b = n.to_le_bytes();
        (ObjectId::hash(&b), fsck::hash(&b))
    }
    fn ser<T: serde::Serialize>(t: &T) -> Vec<u8> {
        let mut v = vec![];
        ciborium::into_writer(t, &mut v).unwrap();
        v
    }
    pub fn run(v: &Val, _: &Env) -> R<Info> {
        let mut i = Info::default();
        match v {
            Val::Tree(es) => {
                let node = |e: &(String, u8, u16, Option<u64>, (u32, u32), (i64, i64), Vec<u32>, String)| {
                    let (ty, contents) = match e.1 % 3 {
                        0 => (0o100000, NodeContents::File { chunks: e.6.iter().map(|n| oid(*n).0).collect() }),
                        1 => (0o040000, NodeContents::Directory { subtree: oid(e.6.first().copied().unwrap_or(7)).0 }),
                        _ => (0o120000, NodeContents::Symlink { target: e.7.clone().into() }),
                    };
                    let ts = |n: i64| Timestamp::from_nanosecond(n as i128).unwrap();
                    let m = PosixMetadata { mode: ty | (e.2 & 0o7777) as u32, size: e.3, user_id: e.4.0, group_id: e.4.1, access_time: ts(e.5.0), modify_time: ts(e.5.1) };
                    Node { contents, metadata: NodeMetadata::Posix(m) }
                };
                let mut t = Tree::new();
                for e in es {
                    t.insert(e.0.clone().into(), node(e));
                }
                let (b, id) = serialize_and_hash(&t).map_err(|e| Fail::V(format!("can't serialise: {e}")))?;
                want!(id.to_string() == fsck::hash(&b), "the tree's ID is not its hash");
                let back: Tree = ciborium::from_reader(&b[..]).map_err(|e| Fail::V(format!("can't read back a tree: {e}")))?;
                want!(back == t, "a tree changed on its way through its encoding: {t:?} became {back:?}");
                // The same entries put in in another order.
                let mut t2 = Tree::new();
                let last: BTreeMap<&String, _> = es.iter().map(|e| (&e.0, e)).collect();
                for e in last.values().rev() {
                    t2.insert(e.0.clone().into(), node(e));
                }
                want!(serialize_and_hash(&t2).map_err(|e| Fail::V(e.to_string()))?.1 == id, "equal trees have different IDs");
                let p = fsck::parse_tree(&b).map_err(|e| Fail::V(format!("tree is not as documented: {e}")))?;
                want!(p.len() == last.len(), "encoded tree has {} entries instead of {}", p.len(), last.len());
                for (n, e) in &last {
                    let Some(g) = p.get(*n) else { return Err(Fail::V(format!("no entry {n:?} in the encoded tree"))) };
                    let same = match &g.node {
                        fsck::TNode::File(c) => e.1 % 3 == 0 && c.iter().eq(e.6.iter().map(|n| oid(*n).1).collect::<Vec<_>>().iter()),
                        fsck::TNode::Dir(d) => e.1 % 3 == 1 && *d == oid(e.6.first().copied().unwrap_or(7)).1,
                        fsck::TNode::Link(l) => e.1 % 3 == 2 && *l == e.7,
                    };
                    want!(
                        same && g.mode & 0o7777 == (e.2 & 0o7777) as u32 && g.size == e.3 && (g.uid, g.gid) == e.4 && (g.atime, g.mtime) == (e.5.0 as i128, e.5.1 as i128),
                        "entry {n:?} is encoded as {g:?} instead of {e:?}"
                    );
                }
                i.hit("tree");
                i.nontrivial = !es.is_empty();
            }
            Val::Index(sup, packs) => {
                let entry = |x: &(bool, u32, u32)| {
                    let (t, n) = if x.0 { (backpak::blob::Type::Tree, "tree") } else { (backpak::blob::Type::Chunk, "chunk") };
                    let _ = n;
                    PackManifestEntry { blob_type: t, length: x.1, id: oid(x.2).0 }
                };
                let idx = Index {
                    supersedes: sup.iter().map(|n| oid(*n).0).collect(),
                    packs: packs.iter().map(|(p, m)| (oid(*p).0, m.iter().map(entry).collect())).collect(),
                };
                let b = ser(&idx);
                let back: Index = ciborium::from_reader(&b[..]).map_err(|e| Fail::V(format!("can't read back an index: {e}")))?;
                want!(back == idx, "an index changed on its way through its encoding");
                let mut f = b"MKBAKIDX1".to_vec();
                f.extend(zstd::encode_all(&b[..], 1).unwrap());
                let p = fsck::parse_index(&f, &fsck::hash(&b)).map_err(|e| Fail::V(format!("index is not as documented: {e}")))?;
                let exp: BTreeMap<String, Vec<fsck::Entry>> =
                    packs.iter().map(|(p, m)| (oid(*p).1, m.iter().map(|x| fsck::Entry { tree: x.0, len: x.1 as u64, id: oid(x.2).1 }).collect())).collect();
                want!(p.packs == exp && p.supersedes == sup.iter().map(|n| oid(*n).1).collect(), "index {idx:?} is encoded as {p:?}");
                i.hit("index");
                i.nontrivial = !packs.is_empty();
            }
            Val::Id(b) => {
                let s = fsck::b32(b);
                match ObjectId::from_str(&s) {
                    Ok(id) => {
                        want!(b.len() == 28, "an ID of {} bytes is accepted", b.len());
                        want!(id.to_string() == s, "ID {s} is shown as {id}");
                        let mut c = vec![0x58, 28];
                        c.extend(b);
                        want!(ser(&id) == c, "ID {s} is encoded as {:?}", ser(&id));
                        let back: ObjectId = ciborium::from_reader(&c[..]).map_err(|e| Fail::V(format!("can't read back an ID: {e}")))?;
                        want!(back == id, "ID {s} is read back as {back}");
                        want!(s.starts_with(&id.short_name()), "short name {} of {s}", id.short_name());
                    }
                    Err(e) => want!(b.len() != 28, "ID {s} is refused: {e}"),
                }
                want!(ObjectId::hash(b).to_string() == fsck::hash(b), "hash of {b:?} is wrong");
                i.hit("id");
                i.nontrivial = true;
            }
            Val::Text(s) => {
                if let Ok(id) = ObjectId::from_str(s) {
                    want!(id.to_string() == *s, "{s:?} is taken for the ID {id}");
                }
                i.hit("text");
                i.nontrivial = s.len() > 40;
            }
        }
        Ok(i)
    }
    pub fn strat() -> BoxedStrategy<Val> {
        let cfg = GenCfg { newline_names: true, ..GenCfg::default() };
        let t = || prop_oneof![3 => any::<i64>(), 1 => prop::sample::select(vec![0i64, 1, -1, -999_999_999, -1_000_000_001, i64::MAX, i64::MIN + 1]), 2 => -2_000_000_000_000_000_000i64..4_000_000_000_000_000_000];
        let n = || 0u32..40;
        let e = (
            name(cfg),
            any::<u8>(),
            any::<u16>(),
            prop::option::of(any::<u64>()),
            (any::<u32>(), any::<u32>()),
            (t(), t()),
            prop::collection::vec(n(), 0..4),
            prop_oneof![Just(String::new()), ".{0,12}".prop_map(|s| s)],
        );
        let m = (any::<bool>(), any::<u32>(), n());
        let id_text = prop_oneof![
            prop::collection::vec(any::<u8>(), 28).prop_map(|b| fsck::b32(&b).to_uppercase()),
            (prop::collection::vec(any::<u8>(), 28), 0usize..45, prop::sample::select(vec!['0', 'v', 'w', '=', 'é', ' ', '1', 'A'])).prop_map(|(b, at, c)| {
                let mut s: Vec<char> = fsck::b32(&b).chars().collect();
                s[at] = c;
                s.into_iter().collect()
            }),
            (prop::collection::vec(any::<u8>(), 28), 0usize..46).prop_map(|(b, n)| fsck::b32(&b).chars().take(n).collect()),
            prop::collection::vec(any::<u8>(), 28).prop_map(|b| fsck::b32(&b) + "0"),
        ];
        prop_oneof![
            4 => prop::collection::vec(e, 0..6).prop_map(Val::Tree),
            3 => (prop::collection::vec(n(), 0..4), prop::collection::vec((n(), prop::collection::vec(m, 0..5)), 0..4)).prop_map(|(a, b)| {
                let b: BTreeMap<u32, _> = b.into_iter().collect();
                Val::Index(a, b.into_iter().collect())
            }),
            1 => prop_oneof![4 => prop::collection::vec(any::<u8>(), 28), 1 => prop::collection::vec(any::<u8>(), 0..60)].prop_map(Val::Id),
            1 => id_text.prop_map(Val::Text),
        ]
        .boxed()
    }
}
