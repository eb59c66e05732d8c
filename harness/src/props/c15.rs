//! C15: the cache is transparent and keeps to its size.
use super::PropDef;
use crate::cli::*;
use crate::engine::*;
use crate::fsm::*;
use crate::hist::{self, *};
use crate::trace::*;
use crate::want;
use crate::world::*;
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Do(Op),
    /// Set the size of the cache.
    Limit(u32),
    /// Wipe the whole cache, its database or some of its files.
    Wipe,
    Unbase,
    Lose(u32),
    /// Go on with the cache of another user.
    Client,
    /// Kill a reading command in the n-th change it makes to the cache.
    Crash(u8, bool),
    /// Some reading commands at the same time.
    Together(Vec<u8>),
    /// Compare what commands say.
    Compare,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    hist: Hist,
    limit: u32,
    steps: Vec<Step>,
}

struct Watch {
    limit: u64,
    before: BTreeMap<String, u64>,
    /// Left by killed commands, so that the cache needn't know of them.
    stray: BTreeSet<String>,
}

fn cached(sb: &Sandbox) -> R<BTreeMap<String, u64>> {
    let mut m = BTreeMap::new();
    let d = sb.p("home/.cache/backpak");
    if d.is_dir() {
        for e in std::fs::read_dir(d)? {
            let e = e?;
            let n = e.file_name().to_string_lossy().into_owned();
            if !n.starts_with("cache_metadata") {
                m.insert(n, e.metadata()?.len());
            }
        }
    }
    Ok(m)
}

impl Watch {
    /// After a command: did the cache keep to its size?
    fn look(&mut self, sb: &Sandbox, what: &str, i: &mut Info) -> R<()> {
        let now = cached(sb)?;
        let odd: Vec<&String> = now.keys().filter(|n| !self.stray.contains(*n) && ![".pack", ".index", ".snapshot"].iter().any(|x| n.ends_with(x))).collect();
        want!(odd.is_empty(), "{what} left {odd:?} in the cache");
        let new = now.keys().any(|n| !self.before.contains_key(n));
        let known: Vec<u64> = now.iter().filter(|(n, _)| !self.stray.contains(*n)).map(|x| *x.1).collect();
        let total: u64 = known.iter().sum();
        if new {
            want!(total <= self.limit || known.len() == 1, "after {what} the cache of {} bytes holds {total} bytes in {} files", self.limit, known.len());
            i.hit("filled");
            if self.before.keys().any(|n| !now.contains_key(n)) {
                i.hit("evicted");
            }
        }
        self.before = now;
        Ok(())
    }
}

fn set_limit(w: &World, home: &str, limit: u64) -> R<()> {
    std::fs::create_dir_all(w.sb.p(home).join(".config"))?;
    std::fs::write(w.sb.p(home).join(".config/backpak.toml"), format!("cache_size = \"{limit} B\"\n"))?;
    Ok(())
}

/// Reading commands whose output doesn't depend on anything else.
fn readers(w: &World) -> Vec<Vec<String>> {
    let mut v: Vec<Vec<String>> = ["check", "check --read-packs", "snapshots", "snapshots --sizes", "usage"]
        .iter()
        .map(|s| s.split(' ').map(|s| s.to_string()).collect())
        .collect();
    for s in w.snaps.iter().rev().take(2) {
        v.push(vec!["ls".into(), s.id.clone()]);
        v.push(vec!["cat".into(), "snapshot".into(), s.id.clone()]);
        if let Some((p, _)) = s.flat.iter().filter(|e| matches!(e.1.kind, Kind::F(_))).next_back() {
            v.push(vec!["dump".into(), s.id.clone(), p.clone()]);
        }
    }
    if w.snaps.len() > 1 {
        v.push(vec!["diff".into(), w.snaps[0].id.clone(), w.snaps[1].id.clone()]);
    }
    v
}

fn args<'a>(repo: &'a str, a: &'a [String]) -> Vec<&'a str> {
    let mut v = vec!["-r", repo];
    v.extend(a.iter().map(|s| s.as_str()));
    v
}
fn gist(o: &Out) -> (Option<i32>, Vec<String>, String) {
    let mut l: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect();
    if o.cmdline.contains(" check") {
        // (It shows how far it is from time to time.)
        l.clear();
    }
    l.sort();
    (o.code, l, o.stderr.clone())
}

fn odds(a: &Out, b: &Out) -> String {
    let (x, y) = (gist(a), gist(b));
    let only = |x: &Vec<String>, y: &Vec<String>| x.iter().filter(|l| !y.contains(l)).take(5).cloned().collect::<Vec<_>>();
    format!("{}\nagainst {}\nlines only in one: {:?}\nin the other: {:?}", a.describe(), b.describe(), only(&x.1, &y.1), only(&y.1, &x.1))
}
fn compare(w: &mut World, watch: &mut Watch, i: &mut Info) -> R<()> {
    let r = w.repo_arg();
    for a in readers(w) {
        let a1 = args(&r, &a);
        let warm = w.sb.run(&a1)?;
        watch.look(&w.sb, &a.join(" "), i)?;
        // Without one, and with a fresh one.
        std::fs::rename(w.sb.p("home"), w.sb.p("home-warm"))?;
        std::fs::create_dir(w.sb.p("home"))?;
        let cold = w.sb.run(&a1)?;
        let mut plain = None;
        if w.setup.backend == Backend::Cached {
            let s = Setup { backend: Backend::Plain, ..w.setup.clone() };
            write_config(&w.sb, "repo", &s)?;
            plain = Some(w.sb.run(&a1)?);
            write_config(&w.sb, "repo", &w.setup.clone())?;
        }
        wipe(&w.sb.p("home"))?;
        std::fs::rename(w.sb.p("home-warm"), w.sb.p("home"))?;
        want!(gist(&warm) == gist(&cold), "another outcome with the cache as it is than with an empty one: {}", odds(&warm, &cold));
        if let Some(p) = plain {
            want!(gist(&warm) == gist(&p), "another outcome with the cache than without: {}", odds(&warm, &p));
        }
        want!(warm.ok(), "{}", warm.describe());
    }
    i.hit("compared");
    Ok(())
}

fn together(w: &mut World, which: &[u8], i: &mut Info) -> R<()> {
    let all = readers(w);
    let r = w.repo_arg();
    let picked: Vec<&Vec<String>> = which.iter().map(|k| &all[pick(*k as u32 * 0x0101_0101, all.len())]).collect();
    let alone: Vec<Out> = picked.iter().map(|a| w.sb.run(&args(&r, a))).collect::<R<_>>()?;
    let sb = &w.sb;
    let got: Vec<R<Out>> = std::thread::scope(|s| {
        let h: Vec<_> = picked.iter().map(|a| s.spawn(|| sb.run(&args(&r, a)))).collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (g, a) in got.into_iter().zip(alone) {
        let g = g?;
        want!(g.ok() && gist(&g) == gist(&a), "while other commands were using the cache: {}", odds(&g, &a));
    }
    i.hit("together");
    Ok(())
}

fn run(c: &Case, env: &Env) -> R<Info> {
    let mut i = Info::default();
    let mut w = hist::start(&c.hist, env)?;
    let mut past = Past::new();
    for h in ["home2", "home-warm"] {
        let _ = std::fs::remove_dir(w.sb.p(h));
    }
    std::fs::create_dir(w.sb.p("home2"))?;
    let mut watch = Watch { limit: c.limit as u64, before: BTreeMap::new(), stray: BTreeSet::new() };
    let mut other = Watch { limit: c.limit as u64, before: BTreeMap::new(), stray: BTreeSet::new() };
    set_limit(&w, "home", c.limit as u64)?;
    set_limit(&w, "home2", c.limit as u64)?;
    let cache = w.sb.p("home/.cache/backpak");
    for s in &c.steps {
        match s {
            Step::Do(o) => {
                hist::step(&mut w, &mut past, o, &mut i)?;
                watch.look(&w.sb, &format!("{o:?}").chars().take(12).collect::<String>(), &mut i)?;
            }
            Step::Limit(n) => {
                watch.limit = *n as u64;
                set_limit(&w, "home", *n as u64)?;
            }
            Step::Wipe => {
                if cache.is_dir() {
                    wipe(&cache)?;
                    i.hit("wiped");
                }
                watch.stray.clear();
                watch.before.clear();
            }
            Step::Unbase => {
                if cache.is_dir() {
                    for f in ["", "-wal", "-shm"] {
                        let _ = std::fs::remove_file(cache.join(format!("cache_metadata.sqlite{f}")));
                    }
                    watch.stray.extend(cached(&w.sb)?.into_keys());
                    i.hit("no-database");
                }
            }
            Step::Lose(m) => {
                for (k, n) in cached(&w.sb)?.into_keys().enumerate() {
                    if m >> (k % 32) & 1 == 1 {
                        std::fs::remove_file(cache.join(n))?;
                        i.hit("lost");
                    }
                }
                watch.before = cached(&w.sb)?;
            }
            Step::Client => {
                std::fs::rename(w.sb.p("home"), w.sb.p("home3"))?;
                std::fs::rename(w.sb.p("home2"), w.sb.p("home"))?;
                std::fs::rename(w.sb.p("home3"), w.sb.p("home2"))?;
                std::mem::swap(&mut watch, &mut other);
            }
            Step::Crash(n, wiped) => {
                if *wiped && cache.is_dir() {
                    wipe(&cache)?;
                    watch.stray.clear();
                }
                let r = w.repo_arg();
                let spec = Spec { under: vec![w.sb.ps("home")], kill: Some(*n as usize), torn: n % 2 == 1, ..Spec::default() };
                let (o, t) = w.sb.traced("cwd", &["-r", &r, "check", "--read-packs"], &spec)?;
                want!(t.killed || o.ok(), "{}", o.describe());
                if t.killed {
                    i.hit("killed");
                    watch.stray.extend(cached(&w.sb)?.into_keys());
                }
                watch.before = cached(&w.sb)?;
            }
            Step::Together(v) => {
                together(&mut w, v, &mut i)?;
                watch.before = cached(&w.sb)?;
            }
            Step::Compare => compare(&mut w, &mut watch, &mut i)?,
        }
    }
    w.deep_check()?;
    w.check_all(&["--times"])?;
    compare(&mut w, &mut watch, &mut i)?;
    i.nontrivial = i.labels.contains_key("evicted");
    i.note = format!("{} steps, limit {}", c.steps.len(), watch.limit);
    Ok(i)
}

fn strat() -> BoxedStrategy<Case> {
    let cfg = GenCfg { size: 10, ..GenCfg::default() };
    let ops = W { edit: 3, backup: 5, repeat: 1, forget: 2, prune: 2, rebuild: 1, revert: 1 };
    let limit = || prop_oneof![3 => 1u32..500, 6 => 500u32..5000, 3 => 5000u32..100_000, 1 => Just(1_000_000_000u32)];
    let step = prop_oneof![
        12 => hist::op(cfg, ops).prop_map(Step::Do),
        2 => limit().prop_map(Step::Limit),
        1 => Just(Step::Wipe),
        1 => Just(Step::Unbase),
        2 => any::<u32>().prop_map(Step::Lose),
        3 => Just(Step::Client),
        2 => (0u8..60, any::<bool>()).prop_map(|(n, w)| Step::Crash(n, w)),
        2 => prop::collection::vec(any::<u8>(), 2..7).prop_map(Step::Together),
        1 => Just(Step::Compare),
    ];
    (hist::hist(cfg, ops, 0..1), any::<bool>(), limit(), prop::collection::vec(step, 3..14))
        .prop_map(|(mut hist, filter, limit, mut steps)| {
            hist.setup.backend = if filter { Backend::Filter } else { Backend::Cached };
            steps.insert(0, Step::Do(Op::Backup(3)));
            Case { hist, limit, steps }
        })
        .boxed()
}

/// The cache of the library on its own.
#[cfg(feature = "lib")]
mod lru {
    use super::*;
    use backpak::backend::cache::Cache;
    use std::io::{Read, Seek, SeekFrom};

    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub enum Act {
        Put(u8, u32),
        /// (Moving a file into it.)
        Move(u8, u32),
        /// Put from something that fails before all is read.
        Fail(u8, u32),
        Get(u8),
        Evict(u8),
        Prune,
        /// Remove the file behind its back.
        Lose(u8),
    }
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub enum Do {
        One(u8, Act),
        /// Several threads at once, each with one of the handles.
        Many(Vec<Vec<Act>>),
        /// Another handle with this limit.
        Open(u32),
    }
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct Case {
        limit: u32,
        acts: Vec<Do>,
    }

    struct Faulty(std::io::Cursor<Vec<u8>>);
    impl Read for Faulty {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            match self.0.read(b)? {
                0 => Err(std::io::Error::other("made up")),
                n => Ok(n),
            }
        }
    }
    fn bytes(n: u8, len: u32) -> Vec<u8> {
        let mut v = vec![];
        prng((n as u64) << 32 | len as u64, &mut v, len as usize);
        v
    }
    fn name(n: u8) -> String {
        format!("{n}.pack")
    }
    fn open(d: &std::path::Path, limit: u32) -> R<Cache> {
        let b = serde_json::from_str(&format!("\"{limit} B\"")).unwrap();
        Cache::new(camino::Utf8Path::from_path(d).unwrap(), b).map_err(|e| Fail::V(format!("opening the cache: {e:#}")))
    }
    enum Got {
        Nothing,
        Hit(Vec<u8>),
        Miss,
    }
    fn all(mut f: std::fs::File) -> anyhow::Result<Vec<u8>> {
        let mut v = vec![];
        f.seek(SeekFrom::Start(0))?;
        f.read_to_end(&mut v)?;
        Ok(v)
    }
    fn own_cwd(d: &std::path::Path) -> anyhow::Result<()> {
        anyhow::ensure!(unsafe { libc::unshare(libc::CLONE_FS) } == 0, "unshare");
        let _ = std::fs::create_dir(d);
        Ok(std::env::set_current_dir(d)?)
    }
    fn act(c: &Cache, d: &std::path::Path, a: &Act) -> anyhow::Result<Got> {
        Ok(match a {
            Act::Put(n, l) => Got::Hit(all(c.insert(&name(*n), std::io::Cursor::new(bytes(*n, *l)))?)?),
            Act::Move(n, l) => {
                // (It's taken from the working directory.)
                std::fs::write(name(*n), bytes(*n, *l))?;
                let f = std::fs::File::open(name(*n))?;
                Got::Hit(all(c.insert_file(&name(*n), f)?)?)
            }
            Act::Fail(n, l) => {
                anyhow::ensure!(c.insert(&name(*n), Faulty(std::io::Cursor::new(bytes(*n ^ 255, *l)))).is_err(), "inserting what fails to be read works");
                Got::Nothing
            }
            Act::Get(n) => match c.try_read(&name(*n))? {
                Some(f) => Got::Hit(all(f)?),
                None => Got::Miss,
            },
            Act::Evict(n) => {
                c.evict(&name(*n))?;
                Got::Nothing
            }
            Act::Prune => {
                c.prune()?;
                Got::Nothing
            }
            Act::Lose(n) => {
                let _ = std::fs::remove_file(d.join(name(*n)));
                Got::Nothing
            }
        })
    }
    fn on_disk(d: &std::path::Path) -> R<BTreeMap<String, Vec<u8>>> {
        let mut m = BTreeMap::new();
        for e in std::fs::read_dir(d)? {
            let e = e?;
            let n = e.file_name().to_string_lossy().into_owned();
            if !n.starts_with("cache_metadata") {
                m.insert(n, std::fs::read(e.path())?);
            }
        }
        Ok(m)
    }

    /// Name, size and if the file is there; the one used last is last.
    struct Model {
        rows: Vec<(u8, u64)>,
        files: BTreeMap<u8, Vec<u8>>,
        limit: u64,
    }
    impl Model {
        fn used(&mut self, n: u8, l: u64) {
            self.rows.retain(|r| r.0 != n);
            self.rows.push((n, l));
        }
        fn prune(&mut self, i: &mut Info) {
            let (mut acc, mut keep) = (0, 0);
            for (_, l) in self.rows.iter().rev() {
                acc += l;
                if acc > self.limit && keep > 0 {
                    break;
                }
                keep += 1;
            }
            for (n, _) in self.rows.drain(..self.rows.len() - keep) {
                self.files.remove(&n);
                i.hit("evicted");
            }
        }
    }

    pub fn run(c: &Case, env: &Env) -> R<Info> {
        let sb = Sandbox::new(env)?;
        std::thread::scope(|s| {
            s.spawn(|| {
                own_cwd(&sb.p("in")).map_err(|e| Fail::E(e.to_string()))?;
                go(c, &sb)
            })
            .join()
            .unwrap_or_else(|e| Err(Fail::V(format!("panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))))
        })
    }
    fn go(c: &Case, sb: &Sandbox) -> R<Info> {
        let mut i = Info::default();
        let d = sb.p("cwd");
        let mut h = vec![open(&d, c.limit)?];
        let mut m = Model { rows: vec![], files: BTreeMap::new(), limit: c.limit as u64 };
        for (k, x) in c.acts.iter().enumerate() {
            match x {
                Do::Open(l) => {
                    h.push(open(&d, *l)?);
                    m.limit = *l as u64;
                    i.hit("open");
                }
                Do::One(by, a) => {
                    let r = act(&h[*by as usize % h.len()], &d, a).map_err(|e| Fail::V(format!("{a:?} (step {k}) fails: {e:#}")))?;
                    match (a, r) {
                        (Act::Put(n, l) | Act::Move(n, l), Got::Hit(b)) => {
                            want!(b == bytes(*n, *l), "{a:?} (step {k}) gives back something else");
                            m.files.insert(*n, b);
                            m.used(*n, *l as u64);
                        }
                        (Act::Get(n), Got::Hit(b)) => {
                            want!(m.files.get(n) == Some(&b), "reading {n} (step {k}) gives {} bytes, {:?} were put there last", b.len(), m.files.get(n).map(|b| b.len()));
                            m.used(*n, b.len() as u64);
                            i.hit("hit");
                        }
                        (Act::Get(n), Got::Miss) => {
                            want!(!m.files.contains_key(n), "{n} (step {k}) isn't in the cache, but fits");
                            m.rows.retain(|r| r.0 != *n);
                            i.hit("miss");
                        }
                        (Act::Evict(n), _) => {
                            m.files.remove(n);
                            m.rows.retain(|r| r.0 != *n);
                        }
                        (Act::Lose(n), _) => {
                            // (The cache goes on counting it until it finds out.)
                            m.files.remove(n);
                        }
                        (Act::Prune, _) => {
                            m.prune(&mut i);
                            let after = on_disk(&d)?;
                            let total: u64 = after.values().map(|b| b.len() as u64).sum();
                            want!(after.len() <= 1 || total <= m.limit, "pruned (step {k}), {} files with {total} bytes are left, the limit being {}", after.len(), m.limit);
                        }
                        _ => {}
                    }
                }
                Do::Many(v) => {
                    i.hit("threads");
                    let d2 = &d;
                    let h2 = &h;
                    let rs: Vec<Result<(), String>> = std::thread::scope(|s| {
                        let j: Vec<_> = v
                            .iter()
                            .enumerate()
                            .map(|(t, acts)| {
                                let own = sb.p(&format!("in{t}"));
                                s.spawn(move || -> Result<(), String> {
                                    own_cwd(&own).map_err(|e| e.to_string())?;
                                    for a in acts {
                                        match (a, act(&h2[t % h2.len()], d2, a).map_err(|e| format!("{a:?} fails: {e:#}"))?) {
                                            // (What was put may have been replaced already, but not by something no one put.)
                                            (Act::Put(n, _) | Act::Move(n, _) | Act::Get(n), Got::Hit(b)) if b != bytes(*n, b.len() as u32) => {
                                                return Err(format!("{a:?} gives {} bytes no one put there", b.len()));
                                            }
                                            _ => {}
                                        }
                                    }
                                    Ok(())
                                })
                            })
                            .collect();
                        j.into_iter().map(|j| j.join().unwrap_or(Err("panic".into()))).collect()
                    });
                    for r in rs {
                        r.map_err(|e| Fail::V(format!("with {} threads (step {k}): {e}", v.len())))?;
                    }
                    // Get back to a known state: everything goes.
                    for n in 0..=255u8 {
                        if v.iter().flatten().any(|a| matches!(a, Act::Put(m, _) | Act::Move(m, _) | Act::Get(m) | Act::Evict(m) | Act::Fail(m, _) | Act::Lose(m) if *m == n)) || m.rows.iter().any(|r| r.0 == n) {
                            h[0].evict(&name(n)).map_err(|e| Fail::V(format!("evicting: {e:#}")))?;
                        }
                    }
                    m.rows.clear();
                    m.files.clear();
                }
            }
            let have = on_disk(&d)?;
            let want: BTreeMap<String, Vec<u8>> = m.files.iter().map(|(n, b)| (name(*n), b.clone())).collect();
            if have != want {
                let s = |m: &BTreeMap<String, Vec<u8>>| m.iter().map(|(n, b)| format!("{n}: {}", b.len())).collect::<Vec<_>>().join(", ");
                return Err(Fail::V(format!("after step {k} ({x:?}) the cache (limit {}) holds [{}], it should hold [{}]", m.limit, s(&have), s(&want))));
            }
        }
        i.nontrivial = i.labels.contains_key("evicted");
        i.note = format!("{} steps, {} entries left", c.acts.len(), m.files.len());
        Ok(i)
    }

    pub fn strat() -> BoxedStrategy<Case> {
        let len = || prop_oneof![1 => Just(0u32), 6 => 1u32..100, 3 => 100u32..1000, 1 => 1000u32..20_000];
        let limit = || prop_oneof![1 => 1u32..10, 6 => 10u32..1000, 2 => 1000u32..20_000, 1 => Just(1_000_000u32)];
        let n = || 0u8..8;
        let act = || {
            prop_oneof![
                6 => (n(), len()).prop_map(|(n, l)| Act::Put(n, l)),
                2 => (n(), len()).prop_map(|(n, l)| Act::Move(n, l)),
                1 => (n(), len()).prop_map(|(n, l)| Act::Fail(n, l)),
                4 => n().prop_map(Act::Get),
                1 => n().prop_map(Act::Evict),
                4 => Just(Act::Prune),
                1 => n().prop_map(Act::Lose),
            ]
        };
        let d = prop_oneof![
            20 => (any::<u8>(), act()).prop_map(|(b, a)| Do::One(b, a)),
            1 => prop::collection::vec(prop::collection::vec(act().prop_filter("", |a| !matches!(a, Act::Lose(_))), 1..8), 2..6).prop_map(Do::Many),
            1 => limit().prop_map(Do::Open),
        ];
        (limit(), prop::collection::vec(d, 4..50)).prop_map(|(limit, acts)| Case { limit, acts }).boxed()
    }
}

pub fn def() -> PropDef {
    #[allow(unused_mut)]
    let mut suites: Vec<Box<dyn AnySuite>> =
        vec![Box::new(Suite { name: "commands", quick: 500, thorough: 8_000, threads: 8, strat: Box::new(strat), run: Box::new(run) })];
    #[cfg(feature = "lib")]
    suites.push(Box::new(Suite { name: "lru", quick: 6000, thorough: 100_000, threads: 8, strat: Box::new(lru::strat), run: Box::new(lru::run) }));
    PropDef {
        suites,
        level: "exploration",
        rule: "something was evicted from the cache for want of space",
        assumptions: vec![
            "the limit isn't zero (refused) and the cache may hold one entry bigger than its limit (existing unit tests demand both)",
            "files left in the cache by a killed command needn't count towards its size",
            "objects of the same name have the same contents (names are hashes)",
        ],
    }
}
