//! C19: a backup contains exactly the selected files.
use super::PropDef;
use crate::cli::*;
use crate::engine::*;
use crate::fsm::*;
use crate::hist::NAMES;
use crate::want;
use crate::world::*;
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{FileTypeExt, MetadataExt};
use std::path::Path;
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Poke {
    Fifo(u32, String),
    Socket(u32),
    /// Nobody may read it.
    Closed(u32),
    /// A directory which can be listed, but not looked into (or the other way).
    Half(u32, bool),
    NonUtf8(u32),
    /// A link to something else in there: its absolute path, or relative to the link.
    Link { at: u32, name: String, to: u32, abs: bool },
    /// To its own directory or one above, or to itself.
    Loop { at: u32, name: String, to: u8 },
    Dangling { at: u32, name: String },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Pat {
    /// Paths ending like this one.
    End(u32),
    /// Exactly this absolute path.
    Exact(u32),
    /// Everything below this one.
    Below(u32),
    Part { of: u32, from: u32, len: u32 },
    Ext(u32),
    /// Names beginning like this one.
    First(u32),
    /// This but not (where the regex has no look-around) the rest.
    Any(u32, u32),
    Raw(String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PathArg {
    root: u32,
    sub: Option<u32>,
    style: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conf {
    skips: Vec<Pat>,
    deref: Option<bool>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    edits: Vec<(u32, Edit)>,
    pokes: Vec<(u32, Poke)>,
    paths: Vec<PathArg>,
    /// A path which isn't there.
    missing: Option<u8>,
    /// 0, 1: neither; 2: -L; 3: -P
    deref: u8,
    skips: Vec<Pat>,
    global: Option<Conf>,
    local: Option<Vec<Pat>>,
    /// 0: ~/.config, 1: --config FILE, 2: --config ""
    how: u8,
    empty: bool,
    repeat: bool,
    author: Option<u8>,
    tags: u8,
    cwd: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    setup: Setup,
    roots: Vec<Node>,
    steps: Vec<Step>,
    /// Steps which repeat the one before (with other flags, maybe).
    again: Vec<bool>,
}

struct Seen {
    flat: Flat,
    special: Vec<String>,
    skipped: u64,
    followed: u64,
}
/// What the files look like to someone who reads them, by the documented rules.
fn look(abs: &Path, at: &str, deref: bool, skips: &regex::RegexSet, s: &mut Seen) -> Result<(), String> {
    let text = abs.to_str().ok_or("a name which is not UTF-8")?;
    if skips.is_match(text) {
        s.skipped += 1;
        return Ok(());
    }
    let e = |e: std::io::Error| format!("{text}: {e}");
    let m = if deref { std::fs::metadata(abs) } else { std::fs::symlink_metadata(abs) }.map_err(e)?;
    if deref && std::fs::symlink_metadata(abs).is_ok_and(|m| m.is_symlink()) {
        s.followed += 1;
    }
    let ft = m.file_type();
    let kind = if ft.is_symlink() {
        Kind::L(std::fs::read_link(abs).map_err(e)?.to_str().ok_or("a link which is not UTF-8")?.to_string())
    } else if ft.is_dir() {
        let mut names = vec![];
        for k in std::fs::read_dir(abs).map_err(e)? {
            names.push(k.map_err(e)?.file_name());
        }
        for n in names {
            let n = n.to_str().ok_or("a name which is not UTF-8")?.to_string();
            look(&abs.join(&n), &join(at, &n), deref, skips, s)?;
        }
        Kind::D
    } else if ft.is_file() {
        Kind::F(Arc::new(std::fs::read(abs).map_err(e)?))
    } else {
        assert!(ft.is_fifo() || ft.is_socket());
        s.special.push(text.to_string());
        return Ok(());
    };
    let ent = Ent { kind, mode: m.mode() & 0o7777, t: (m.mtime(), m.mtime_nsec() as u32), atime: (m.atime(), m.atime_nsec() as u32) };
    s.flat.insert(at.to_string(), ent);
    Ok(())
}

fn poke(w: &World, root: &str, p: &Poke) -> R<bool> {
    let model = &w.roots[root];
    let mut dirs = model.paths(&|n| n.kids().is_some());
    dirs.insert(0, vec![]);
    let all = model.paths(&|_| true);
    let real = |p: &[String]| -> std::path::PathBuf { p.iter().fold(w.sb.p("src").join(root), |a, b| a.join(b)) };
    if model.kids().is_none() {
        return Ok(false);
    }
    let dir = |k: u32| real(&dirs[pick(k, dirs.len())]);
    let put = |at: u32, name: &str, to: &Path| -> R<bool> {
        let l = dir(at).join(name);
        if std::fs::symlink_metadata(&l).is_ok() {
            return Ok(false);
        }
        if std::os::unix::fs::symlink(to, &l).is_ok() {
            set_times(&l, ATIME, (1_650_000_000, 0))?;
        }
        Ok(true)
    };
    Ok(match p {
        Poke::Fifo(k, n) => {
            let f = dir(*k).join(n);
            std::fs::symlink_metadata(&f).is_err() && mkfifo(&f).is_ok()
        }
        Poke::Socket(k) => {
            // (Socket addresses are short.)
            let s = std::path::PathBuf::from(format!("/dev/shm/vh-sock-{}-{}", std::process::id(), w.sb.root.file_name().unwrap().to_string_lossy()));
            let l = std::os::unix::net::UnixListener::bind(&s)?;
            drop(l);
            let r = std::fs::rename(&s, dir(*k).join("sock.et"));
            let _ = std::fs::remove_file(&s);
            r.is_ok()
        }
        Poke::Closed(k) => {
            let Some(f) = all.get(pick(*k, all.len())) else { return Ok(false) };
            let f = real(f);
            !std::fs::symlink_metadata(&f).map_or(true, |m| m.is_symlink()) && chmod(&f, 0).is_ok()
        }
        Poke::Half(k, b) => chmod(&dir(*k), if *b { 0o500 } else { 0o400 }).is_ok(),
        Poke::NonUtf8(k) => std::fs::write(dir(*k).join(std::ffi::OsStr::from_bytes(b"b\xffd")), "x").is_ok(),
        Poke::Link { at, name, to, abs } => {
            let Some(t) = all.get(pick(*to, all.len())) else { return Ok(false) };
            let from = &dirs[pick(*at, dirs.len())];
            if *abs {
                put(*at, name, &real(t))?
            } else {
                let up: std::path::PathBuf = from.iter().map(|_| "..").chain(t.iter().map(|s| s.as_str())).collect();
                put(*at, name, &up)?
            }
        }
        Poke::Loop { at, name, to } => put(*at, name, Path::new(["." , "..", "../.", name][*to as usize % 4]))?,
        Poke::Dangling { at, name } => put(*at, name, Path::new("not/there"))?,
    })
}

fn regex_of(p: &Pat, paths: &[String]) -> String {
    let get = |k: u32| paths[pick(k, paths.len())].clone();
    let last = |p: &str| p.rsplit('/').next().unwrap().to_string();
    match p {
        Pat::End(k) => format!("/{}$", regex::escape(&last(&get(*k)))),
        Pat::Exact(k) => format!("^{}$", regex::escape(&get(*k))),
        Pat::Below(k) => format!("^{}/", regex::escape(&get(*k))),
        Pat::Part { of, from, len } => {
            let t: Vec<char> = get(*of).chars().collect();
            // Rarely one that every path has.
            let lo = t.len().saturating_sub(12);
            let a = lo + pick(*from, t.len() - lo);
            let b = (a + 1 + pick(*len, 6)).min(t.len());
            regex::escape(&t[a..b].iter().collect::<String>())
        }
        Pat::Ext(k) => match last(&get(*k)).rsplit_once('.') {
            Some((_, e)) => format!("\\.{}$", regex::escape(e)),
            None => "\\.txt$".into(),
        },
        Pat::First(k) => format!("/{}[^/]*$", regex::escape(&last(&get(*k)).chars().take(1).collect::<String>())),
        Pat::Any(a, b) => format!("/({}|{})(/|$)", regex::escape(&last(&get(*a))), regex::escape(&last(&get(*b)))),
        Pat::Raw(s) => s.clone(),
    }
}

fn toml_list(v: &[String]) -> String {
    serde_json::to_string(v).unwrap()
}

fn run(c: &Case, env: &Env) -> R<Info> {
    let mut i = Info::default();
    let mut w = World::new(env, &c.setup)?;
    for (n, r) in NAMES.iter().zip(&c.roots) {
        w.set_root(n, r)?;
    }
    std::fs::create_dir(w.sb.p("cwd2"))?;
    std::fs::create_dir_all(w.sb.p("home/.config"))?;
    std::fs::create_dir(w.sb.p("links"))?;
    let mut clean = true;
    let mut prev: Option<&Step> = None;
    let mut interesting = 0;
    for (k, st) in c.steps.iter().enumerate() {
        // Perhaps the same as before, but for the flags.
        let again = c.again.get(k).copied().unwrap_or(false) && prev.is_some();
        let st = &if again {
            let p = prev.unwrap().clone();
            Step { empty: st.empty, repeat: st.repeat, author: if st.cwd { st.author } else { p.author }, how: p.how, ..p }
        } else {
            st.clone()
        };
        if !again {
            let mut pokes = false;
            if !st.edits.is_empty() || !st.pokes.is_empty() || !clean {
                for (r, e) in &st.edits {
                    let n = NAMES[pick(*r, 2)];
                    let r = w.roots.get_mut(n).unwrap();
                    i.hit(apply(r, e, &mut w.clk));
                }
                for (n, r) in &w.roots {
                    remake(r, &w.sb.p("src").join(n))?;
                }
                for (r, p) in &st.pokes {
                    pokes |= poke(&w, NAMES[pick(*r, 2)], p)?;
                }
            }
            clean = !pokes;
        }
        // The paths.
        let cwd = if st.cwd { "cwd2" } else { "cwd" };
        let mut known: Vec<String> = NAMES.iter().map(|n| w.src(n)).collect();
        for n in NAMES {
            known.extend(w.roots[n].paths(&|_| true).iter().map(|p| format!("{}/{}", w.src(n), p.join("/"))));
        }
        let mut args = vec![];
        for (j, p) in st.paths.iter().enumerate() {
            let mut rel = NAMES[pick(p.root, 2)].to_string();
            if let Some(s) = p.sub {
                let subs = w.roots[&rel].paths(&|_| true);
                if let Some(s) = subs.get(pick(s, subs.len())) {
                    rel = format!("{rel}/{}", s.join("/"));
                }
            }
            let abs = w.src(&rel);
            args.push(match p.style % 6 {
                0 | 1 => abs,
                2 => format!("../src/{rel}"),
                3 => format!("../src/./{}/../{rel}", NAMES[0]),
                4 if std::fs::symlink_metadata(&abs).is_ok_and(|m| m.is_dir()) => format!("{abs}/"),
                5 => {
                    let l = w.sb.p("links").join(format!("l{k}-{j}"));
                    let _ = std::fs::remove_file(&l);
                    std::os::unix::fs::symlink(&abs, &l)?;
                    l.to_str().unwrap().to_string()
                }
                _ => abs,
            });
        }
        if let Some(m) = st.missing {
            args.push(match m % 3 {
                0 => w.sb.ps("none"),
                1 => "nothing/here".into(),
                _ => format!("{}/x", w.sb.ps("f.file")),
            });
        }
        // Configuration.
        let resolve = |v: &[Pat]| -> Vec<String> { v.iter().map(|p| regex_of(p, &known)).collect() };
        let _ = std::fs::remove_file(w.sb.p("home/.config/backpak.toml"));
        for d in ["cwd", "cwd2"] {
            let _ = std::fs::remove_file(w.sb.p(d).join(".backpak"));
        }
        let mut config_skips = vec![];
        let mut deref = false;
        let mut a: Vec<String> = vec!["-r".into(), w.repo_arg()];
        match st.how % 3 {
            0 => {}
            1 if st.global.is_some() => a.extend(["--config".into(), w.sb.ps("home/some.toml")]),
            1 => {}
            _ => a.extend(["--config".into(), "".into()]),
        }
        if let Some(g) = &st.global {
            let skips = resolve(&g.skips);
            let mut t = format!("skips = {}\n", toml_list(&skips));
            if let Some(d) = g.deref {
                t += &format!("[backup]\ndereference = {d}\n");
            }
            std::fs::write(w.sb.p(if st.how % 3 == 1 { "home/some.toml" } else { "home/.config/backpak.toml" }), t)?;
            if st.how % 3 < 2 {
                config_skips = skips;
                deref = g.deref.unwrap_or(false);
            }
        }
        if let Some(l) = &st.local {
            let skips = resolve(l);
            std::fs::write(w.sb.p(cwd).join(".backpak"), format!("skips = {}\n", toml_list(&skips)))?;
            if st.how % 3 < 2 {
                config_skips = skips;
                i.hit("local-config");
            }
        }
        match st.deref % 4 {
            2 => deref = true,
            3 => deref = false,
            _ => {}
        }
        a.push("backup".into());
        match st.deref % 4 {
            2 => a.push("-L".into()),
            3 => a.push("-P".into()),
            _ => {}
        }
        let cli = resolve(&st.skips);
        for s in &cli {
            a.extend(["--skip".into(), s.clone()]);
        }
        for (f, b) in [("--allow-empty", st.empty), ("--allow-repeat", st.repeat)] {
            if b {
                a.push(f.into());
            }
        }
        let author = st.author.map(|n| format!("author {n}"));
        if let Some(x) = &author {
            a.extend(["--author".into(), x.clone()]);
        }
        let tags: BTreeSet<String> = (0..3).filter(|b| st.tags >> b & 1 == 1).map(|b| format!("t{b}")).collect();
        for t in &tags {
            a.extend(["-t".into(), t.clone()]);
        }
        a.push("--".into());
        a.extend(args.iter().cloned());
        // What should come of it?
        let all: Vec<String> = config_skips.iter().chain(&cli).cloned().collect();
        let mut s = Seen { flat: Flat::new(), special: vec![], skipped: 0, followed: 0 };
        let mut trouble: Option<String> = None;
        let mut paths: BTreeSet<String> = BTreeSet::new();
        for p in &args {
            match std::fs::canonicalize(w.sb.p(cwd).join(p)) {
                Ok(p) => match p.to_str() {
                    Some(p) => {
                        paths.insert(p.to_string());
                    }
                    None => trouble = Some("not UTF-8".into()),
                },
                Err(e) => trouble = Some(format!("{p}: {e}")),
            }
        }
        let names: BTreeSet<&str> = paths.iter().map(|p| p.rsplit('/').next().unwrap()).collect();
        if trouble.is_none() && names.len() < paths.len() {
            trouble = Some("two of the paths have the same name".into());
        }
        match regex::RegexSet::new(&all) {
            Err(e) => trouble = Some(e.to_string()),
            Ok(set) if trouble.is_none() => {
                for p in &paths {
                    if let Err(e) = look(Path::new(p), p.rsplit('/').next().unwrap(), deref, &set, &mut s) {
                        trouble = Some(e);
                        break;
                    }
                }
            }
            _ => {}
        }
        let before = read_dir_bytes(&w.sb.p("repo"))?;
        let r = w.fsck()?;
        let latest = r.snaps.iter().max_by_key(|(id, s)| (s.time, id.to_string()));
        let blobs = r.indexed_blobs();
        let host = hostname();
        let same = match latest {
            Some((_, l)) if trouble.is_none() => {
                let f = r.flat(&l.tree, &blobs).map_err(Fail::V)?;
                let c = Cmp { times: true, modes: true, root_meta: true, atimes: true };
                l.paths == paths && l.tags == tags && l.author == *author.as_ref().unwrap_or(&host) && cmp(&s.flat, &f, c).is_empty()
            }
            _ => false,
        };
        let argv: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
        let o = w.sb.run_in(cwd, &argv)?;
        prev = Some(&c.steps[k]);
        want!(!o.panicked(), "backup panicked: {}", o.describe());
        let left: Vec<_> = std::fs::read_dir(w.sb.p(cwd))?.map(|e| e.map(|e| e.file_name())).collect::<Result<_, _>>()?;
        want!(left.iter().all(|n| n == ".backpak"), "backup left files behind: {left:?}");
        if let Some(t) = trouble {
            want!(!o.ok(), "`{}` succeeds in spite of: {t}", o.cmdline);
            want!(read_dir_bytes(&w.sb.p("repo"))? == before, "a backup which failed (because of {t}) changed the repository");
            i.hit("refused");
            interesting += 1;
            continue;
        }
        want!(o.ok(), "backup failed: {}", o.describe());
        let text = o.text() + &o.stderr;
        for p in &s.special {
            let warned = text.lines().any(|l| l.contains("WARN") && l.contains(p.as_str()));
            want!(warned, "no warning that the special file {p} was skipped");
            i.hit("special");
        }
        let now = w.fsck()?;
        let new: Vec<&String> = now.snaps.keys().filter(|k| !r.snaps.contains_key(*k)).collect();
        want!(r.snaps.keys().all(|k| now.snaps.contains_key(k)), "a backup removed a snapshot");
        let empty = s.flat.is_empty();
        let add = (!empty || st.empty) && (!same || st.repeat);
        i.hit(match (empty, same, add) {
            (true, _, true) => "empty-added",
            (true, _, false) => "empty-not-added",
            (_, true, true) => "repeat-added",
            (_, true, false) => "repeat-not-added",
            (_, false, _) => "added",
        });
        want!(new.len() <= 1, "one backup made {} snapshots", new.len());
        if !add {
            want!(new.is_empty(), "`{}` added a snapshot although {}", o.cmdline, if empty { "it is empty" } else { "it is the same as the last" });
            continue;
        }
        want!(new.len() == 1, "`{}` added no snapshot", o.cmdline);
        let n = &now.snaps[new[0]];
        let f = now.flat(&n.tree, &now.indexed_blobs()).map_err(|e| Fail::V(format!("snapshot {}: {e}", new[0])))?;
        let d = cmp(&s.flat, &f, Cmp { times: true, modes: true, root_meta: true, atimes: false });
        want!(d.is_empty(), "`{}` made a snapshot with other than the selected files: {}", o.cmdline, show(&d));
        want!(n.paths == paths, "the snapshot says it is of {:?} instead of {paths:?}", n.paths);
        want!(n.tags == tags && n.author == *author.as_ref().unwrap_or(&host), "the snapshot has other tags or another author than given");
        i.add("skipped", s.skipped);
        i.add("followed", s.followed);
        interesting += (s.skipped > 0 || s.followed > 0 || !s.special.is_empty()) as u32;
        let file = paths.len() == 1 && s.flat.values().next().is_some_and(|e| s.flat.len() == 1 && e.kind != Kind::D);
        if k % 2 == 1 && !file {
            // Also as restored. (With -o, a single file would go by the name given.)
            let paths: Vec<String> = paths.into_iter().collect();
            let mut got = w.restored("repo", new[0], &paths, &[])?;
            let top = paths[0].rsplit('/').next().unwrap();
            if paths.len() == 1 && !s.flat.contains_key(top) {
                got.remove(top);
            }
            let d = cmp(&s.flat, &got, Cmp::default());
            want!(d.is_empty(), "`{}` restores to other than the selected files: {}", o.cmdline, show(&d));
        }
    }
    w.fsck()?.sound().map_err(|e| Fail::V(format!("repository is not sound: {e}")))?;
    i.nontrivial = interesting > 0;
    Ok(i)
}

fn hostname() -> String {
    let mut b = [0u8; 256];
    unsafe { libc::gethostname(b.as_mut_ptr() as *mut _, b.len()) };
    String::from_utf8_lossy(&b[..b.iter().position(|x| *x == 0).unwrap_or(0)]).into_owned()
}

fn pat() -> BoxedStrategy<Pat> {
    let p = any::<u32>;
    prop_oneof![
        4 => p().prop_map(Pat::End),
        3 => p().prop_map(Pat::Exact),
        2 => p().prop_map(Pat::Below),
        3 => (p(), p(), p()).prop_map(|(of, from, len)| Pat::Part { of, from, len }),
        1 => p().prop_map(Pat::Ext),
        1 => p().prop_map(Pat::First),
        1 => (p(), p()).prop_map(|(a, b)| Pat::Any(a, b)),
        1 => prop::sample::select(vec!["(", "^src", "^/$", "no such thing", "a{2}", "\\.", "[0-9]$", "/\\.[^/]*$", "^[^/]", "foo$"]).prop_map(|s| Pat::Raw(s.into())),
    ]
    .boxed()
}
fn pats(n: usize) -> BoxedStrategy<Vec<Pat>> {
    prop::collection::vec(pat(), 0..n).boxed()
}
fn step(cfg: GenCfg) -> BoxedStrategy<Step> {
    let p = any::<u32>;
    let pk = prop_oneof![
        2 => (p(), name(cfg)).prop_map(|(k, n)| Poke::Fifo(k, n)),
        1 => p().prop_map(Poke::Socket),
        1 => p().prop_map(Poke::Closed),
        1 => (p(), any::<bool>()).prop_map(|(k, b)| Poke::Half(k, b)),
        1 => p().prop_map(Poke::NonUtf8),
        8 => (p(), name(cfg), p(), any::<bool>()).prop_map(|(at, name, to, abs)| Poke::Link { at, name, to, abs }),
        1 => (p(), name(cfg), any::<u8>()).prop_map(|(at, name, to)| Poke::Loop { at, name, to }),
        1 => (p(), name(cfg)).prop_map(|(at, name)| Poke::Dangling { at, name }),
    ];
    let path = (p(), prop::option::weighted(0.3, p()), any::<u8>()).prop_map(|(root, sub, style)| PathArg { root, sub, style });
    let conf = (pats(3), prop::option::of(any::<bool>())).prop_map(|(skips, deref)| Conf { skips, deref });
    (
        (
            prop::collection::vec((p(), edit(cfg)), 0..3),
            prop_oneof![2 => Just(vec![]).boxed(), 3 => prop::collection::vec((p(), pk), 1..4).boxed()],
            prop_oneof![3 => prop::collection::vec(path.clone(), 1..2), 2 => prop::collection::vec(path, 1..4)],
            prop::option::weighted(0.03, any::<u8>()),
            0u8..4,
            prop_oneof![1 => Just(vec![]).boxed(), 2 => pats(4)],
        ),
        prop::option::weighted(0.4, conf),
        prop::option::weighted(0.3, pats(3)),
        prop_oneof![4 => Just(0u8), 1 => Just(1), 1 => Just(2)],
        prop::bool::weighted(0.4),
        prop::bool::weighted(0.3),
        prop::option::weighted(0.2, 0u8..2),
        prop_oneof![3 => Just(0u8), 1 => 0u8..8],
        any::<bool>(),
    )
        .prop_map(|((edits, pokes, paths, missing, deref, skips), global, local, how, empty, repeat, author, tags, cwd)| Step {
            edits,
            pokes,
            paths,
            missing,
            deref,
            skips,
            global,
            local,
            how,
            empty,
            repeat,
            author,
            tags,
            cwd,
        })
        .boxed()
}
fn strat() -> BoxedStrategy<Case> {
    // (Generated links mostly dangle; those made by Poke::Link lead somewhere.)
    let with = |links| {
        let cfg = GenCfg { size: 12, fifo: true, links, ..GenCfg::default() };
        case(cfg)
    };
    prop_oneof![1 => with(true), 2 => with(false)].boxed()
}
fn case(cfg: GenCfg) -> BoxedStrategy<Case> {
    (setup(), prop::collection::vec(dir(cfg), 2), prop::collection::vec(step(cfg), 1..6), prop::collection::vec(prop::bool::weighted(0.35), 6))
        .prop_map(|(setup, roots, steps, again)| Case { setup, roots, steps, again })
        .boxed()
}

pub fn def() -> PropDef {
    PropDef {
        suites: vec![Box::new(Suite { name: "selection", quick: 1500, thorough: 30_000, threads: 8, strat: Box::new(strat), run: Box::new(run) })],
        level: "exploration",
        rule: "at least one backup skipped something, followed a link, met a special file or was refused",
        assumptions: vec![
            "files don't change while they are backed up",
            "skips in .backpak replace those of the global configuration (as the code says)",
        ],
    }
}
