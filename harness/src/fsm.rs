//! Model of a file tree: generated specs, materialisation, scanning and comparison.
use crate::engine::*;
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ffi::{CString, OsStr};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Content {
    Lit(String),
    Rand(u32, u32),
    Hex(String),
    Fill(u8, u32),
    Period(u32, u32, u32),
    Cat(Vec<Content>),
    /// prefix length, replacement, skipped length
    Splice(Box<Content>, u32, Box<Content>, u32),
}

pub fn prng(seed: u64, out: &mut Vec<u8>, len: usize) {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
    let end = out.len() + len;
    while out.len() < end {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        let b = x.wrapping_mul(0x2545F4914F6CDD1D).to_le_bytes();
        let n = (end - out.len()).min(8);
        out.extend_from_slice(&b[..n]);
    }
}

impl Content {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Content::Lit(s) => s.as_bytes().to_vec(),
            Content::Hex(s) => data_encoding::HEXLOWER.decode(s.as_bytes()).unwrap_or_default(),
            Content::Rand(s, n) => {
                let mut v = Vec::with_capacity(*n as usize);
                prng(*s as u64 + 1, &mut v, *n as usize);
                v
            }
            Content::Fill(b, n) => vec![*b; *n as usize],
            Content::Period(s, p, n) => {
                let mut one = vec![];
                prng(*s as u64 + 77, &mut one, (*p).max(1) as usize);
                one.iter().cycle().take(*n as usize).copied().collect()
            }
            Content::Cat(v) => v.iter().flat_map(|c| c.bytes()).collect(),
            Content::Splice(base, at, ins, skip) => {
                let b = base.bytes();
                let at = (*at as usize).min(b.len());
                let sk = (at + *skip as usize).min(b.len());
                let mut o = b[..at].to_vec();
                o.extend(ins.bytes());
                o.extend_from_slice(&b[sk..]);
                o
            }
        }
    }
}

pub type Time = (i64, u32);

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Node {
    F { c: Content, mode: u16, t: Time },
    D { kids: BTreeMap<String, Node>, mode: u16, t: Time },
    L { to: String },
    /// A FIFO: special files are not backed up.
    P,
}

#[derive(Clone, PartialEq, Eq)]
pub enum Kind {
    F(Arc<Vec<u8>>),
    D,
    L(String),
    O(u32),
}
impl std::fmt::Debug for Kind {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Kind::F(b) => {
                let head: String = String::from_utf8_lossy(&b[..b.len().min(24)]).into();
                write!(f, "file[{} bytes {head:?}..]", b.len())
            }
            Kind::D => write!(f, "dir"),
            Kind::L(t) => write!(f, "link -> {t:?}"),
            Kind::O(m) => write!(f, "special {m:o}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ent {
    pub kind: Kind,
    pub mode: u32,
    pub t: Time,
    pub atime: Time,
}
/// Relative path ("" is the root itself, if included) to entry.
pub type Flat = BTreeMap<String, Ent>;

impl Node {
    pub fn dir() -> Node {
        Node::D { kids: BTreeMap::new(), mode: 0o755, t: (1_600_000_000, 0) }
    }
    pub fn file(s: &str) -> Node {
        Node::F { c: Content::Lit(s.into()), mode: 0o644, t: (1_600_000_000, 0) }
    }
    pub fn kids(&self) -> Option<&BTreeMap<String, Node>> {
        match self {
            Node::D { kids, .. } => Some(kids),
            _ => None,
        }
    }
    pub fn kids_mut(&mut self) -> Option<&mut BTreeMap<String, Node>> {
        match self {
            Node::D { kids, .. } => Some(kids),
            _ => None,
        }
    }
    pub fn flat_into(&self, at: &str, out: &mut Flat) {
        let (kind, mode, t) = match self {
            Node::F { c, mode, t } => (Kind::F(Arc::new(c.bytes())), *mode as u32, *t),
            Node::D { mode, t, .. } => (Kind::D, *mode as u32, *t),
            Node::L { to } => (Kind::L(to.clone()), 0o777, LINK_T),
            Node::P => return,
        };
        out.insert(at.to_string(), Ent { kind, mode, t, atime: ATIME });
        if let Node::D { kids, .. } = self {
            for (n, k) in kids {
                k.flat_into(&join(at, n), out);
            }
        }
    }
    pub fn flat(&self) -> Flat {
        let mut f = Flat::new();
        self.flat_into("", &mut f);
        f
    }
    pub fn count(&self) -> usize {
        1 + self.kids().map_or(0, |k| k.values().map(|n| n.count()).sum())
    }
    pub fn get_mut(&mut self, path: &[String]) -> Option<&mut Node> {
        let mut n = self;
        for p in path {
            n = n.kids_mut()?.get_mut(p)?;
        }
        Some(n)
    }
    pub fn get(&self, path: &[String]) -> Option<&Node> {
        let mut n = self;
        for p in path {
            n = n.kids()?.get(p)?;
        }
        Some(n)
    }
    /// All paths below (not including) this node which satisfy `f`.
    pub fn paths(&self, f: &dyn Fn(&Node) -> bool) -> Vec<Vec<String>> {
        fn rec(n: &Node, at: &mut Vec<String>, f: &dyn Fn(&Node) -> bool, out: &mut Vec<Vec<String>>) {
            if let Some(k) = n.kids() {
                for (name, c) in k {
                    at.push(name.clone());
                    if f(c) {
                        out.push(at.clone());
                    }
                    rec(c, at, f, out);
                    at.pop();
                }
            }
        }
        let mut v = vec![];
        rec(self, &mut vec![], f, &mut v);
        v
    }
}

pub fn join(a: &str, b: &str) -> String {
    if a.is_empty() { b.to_string() } else { format!("{a}/{b}") }
}

/// Access times are set into the future so that reading never changes them (relatime).
pub const ATIME: Time = (4_102_444_800, 0);
pub const LINK_T: Time = (1_500_000_000, 5);

pub fn cpath(p: &Path) -> CString {
    CString::new(p.as_os_str().as_bytes()).unwrap()
}
pub fn set_times(p: &Path, a: Time, m: Time) -> R<()> {
    let ts = [
        libc::timespec { tv_sec: a.0, tv_nsec: a.1 as i64 },
        libc::timespec { tv_sec: m.0, tv_nsec: m.1 as i64 },
    ];
    let r = unsafe { libc::utimensat(libc::AT_FDCWD, cpath(p).as_ptr(), ts.as_ptr(), libc::AT_SYMLINK_NOFOLLOW) };
    if r != 0 {
        return Err(std::io::Error::last_os_error().into());
    }
    Ok(())
}
pub fn chmod(p: &Path, m: u32) -> R<()> {
    let r = unsafe { libc::chmod(cpath(p).as_ptr(), m as libc::mode_t) };
    if r != 0 {
        return Err(std::io::Error::last_os_error().into());
    }
    Ok(())
}
pub fn mkfifo(p: &Path) -> R<()> {
    let r = unsafe { libc::mkfifo(cpath(p).as_ptr(), 0o644) };
    if r != 0 {
        return Err(std::io::Error::last_os_error().into());
    }
    Ok(())
}

/// Create `node` at `p` (which must not exist).
pub fn materialise(node: &Node, p: &Path) -> R<()> {
    match node {
        Node::F { c, mode, t } => {
            std::fs::write(p, c.bytes())?;
            chmod(p, *mode as u32)?;
            set_times(p, ATIME, *t)?;
        }
        Node::D { kids, mode, t } => {
            std::fs::create_dir(p)?;
            for (n, k) in kids {
                materialise(k, &p.join(n))?;
            }
            chmod(p, *mode as u32)?;
            set_times(p, ATIME, *t)?;
        }
        Node::L { to } => {
            std::os::unix::fs::symlink(to, p)?;
            set_times(p, ATIME, LINK_T)?;
        }
        Node::P => mkfifo(p)?,
    }
    Ok(())
}

/// Remove whatever is at `p`, permission bits notwithstanding.
pub fn wipe(p: &Path) -> std::io::Result<()> {
    match std::fs::symlink_metadata(p) {
        Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(()),
        Err(e) => Err(e),
        Ok(m) if m.is_dir() => {
            if m.permissions().mode() & 0o700 != 0o700 {
                std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o700))?;
            }
            for e in std::fs::read_dir(p)? {
                wipe(&e?.path())?;
            }
            std::fs::remove_dir(p)
        }
        Ok(_) => std::fs::remove_file(p),
    }
}

pub fn remake(node: &Node, p: &Path) -> R<()> {
    wipe(p)?;
    materialise(node, p)
}

fn scan_into(p: &Path, at: &str, out: &mut Flat) -> R<()> {
    let m = std::fs::symlink_metadata(p)?;
    let ft = m.file_type();
    let kind = if ft.is_symlink() {
        Kind::L(String::from_utf8_lossy(std::fs::read_link(p)?.as_os_str().as_bytes()).into_owned())
    } else if ft.is_dir() {
        Kind::D
    } else if ft.is_file() {
        let b = match std::fs::read(p) {
            Ok(b) => b,
            Err(e) if e.kind() == std::io::ErrorKind::PermissionDenied => {
                std::fs::set_permissions(p, std::fs::Permissions::from_mode(m.mode() & 0o7777 | 0o400))?;
                let b = std::fs::read(p)?;
                std::fs::set_permissions(p, std::fs::Permissions::from_mode(m.mode() & 0o7777))?;
                b
            }
            Err(e) => return Err(e.into()),
        };
        Kind::F(Arc::new(b))
    } else {
        Kind::O(m.mode() & 0o170000)
    };
    let isdir = kind == Kind::D;
    out.insert(
        at.to_string(),
        Ent { kind, mode: m.mode() & 0o7777, t: (m.mtime(), m.mtime_nsec() as u32), atime: (m.atime(), m.atime_nsec() as u32) },
    );
    if isdir {
        let restore = if m.mode() & 0o500 != 0o500 {
            std::fs::set_permissions(p, std::fs::Permissions::from_mode(m.mode() & 0o7777 | 0o700))?;
            true
        } else {
            false
        };
        let names: Vec<PathBuf> = std::fs::read_dir(p)?.map(|e| e.map(|e| e.path())).collect::<Result<_, _>>()?;
        for c in names {
            let n = c.file_name().unwrap_or(OsStr::new("?")).to_string_lossy().into_owned();
            scan_into(&c, &join(at, &n), out)?;
        }
        if restore {
            std::fs::set_permissions(p, std::fs::Permissions::from_mode(m.mode() & 0o7777))?;
        }
    }
    Ok(())
}
pub fn scan(p: &Path) -> R<Flat> {
    let mut f = Flat::new();
    if std::fs::symlink_metadata(p).is_ok() {
        scan_into(p, "", &mut f)?;
    }
    Ok(f)
}

#[derive(Copy, Clone, Debug, Default)]
pub struct Cmp {
    pub times: bool,
    pub modes: bool,
    pub root_meta: bool,
    pub atimes: bool,
}

/// Differences between expected and actual; empty means equal.
pub fn cmp(want: &Flat, got: &Flat, c: Cmp) -> Vec<String> {
    let mut d = vec![];
    for (p, w) in want {
        match got.get(p) {
            None => d.push(format!("missing {p:?} ({:?})", w.kind)),
            Some(g) => {
                if w.kind != g.kind {
                    let mut at = String::new();
                    if let (Kind::F(a), Kind::F(b)) = (&w.kind, &g.kind) {
                        let i = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
                        at = format!(" (first difference at offset {i})");
                    }
                    d.push(format!("{p:?}: expected {:?}, found {:?}{at}", w.kind, g.kind));
                    continue;
                }
                let link = matches!(w.kind, Kind::L(_));
                if p.is_empty() && !c.root_meta {
                    continue;
                }
                if c.modes && !link && w.mode != g.mode {
                    d.push(format!("{p:?}: expected mode {:o}, found {:o}", w.mode, g.mode));
                }
                if c.times && !link && w.t != g.t {
                    d.push(format!("{p:?}: expected mtime {:?}, found {:?}", w.t, g.t));
                }
                if c.atimes && w.atime != g.atime {
                    d.push(format!("{p:?}: expected atime {:?}, found {:?}", w.atime, g.atime));
                }
            }
        }
    }
    for (p, g) in got {
        if !want.contains_key(p) {
            d.push(format!("unexpected {p:?} ({:?})", g.kind));
        }
    }
    d
}
pub fn show(d: &[String]) -> String {
    let mut s = d.iter().take(6).cloned().collect::<Vec<_>>().join("; ");
    if d.len() > 6 {
        s += &format!("; ... {} differences", d.len());
    }
    s
}

/// Sub-forest of `f` below `prefix` re-rooted at "" (includes the root itself).
pub fn subflat(f: &Flat, prefix: &str) -> Flat {
    let pre = format!("{prefix}/");
    f.iter()
        .filter_map(|(p, e)| {
            if p == prefix {
                Some((String::new(), e.clone()))
            } else {
                p.strip_prefix(&pre).map(|r| (r.to_string(), e.clone()))
            }
        })
        .collect()
}

// ---------------------------------------------------------------- generators

#[derive(Copy, Clone, Debug)]
pub struct GenCfg {
    pub odd_names: bool,
    pub newline_names: bool,
    pub links: bool,
    pub big: bool,
    pub odd_meta: bool,
    pub fifo: bool,
    pub depth: u32,
    pub size: u32,
}
impl Default for GenCfg {
    fn default() -> Self {
        GenCfg { odd_names: true, newline_names: false, links: true, big: false, odd_meta: false, fifo: false, depth: 3, size: 14 }
    }
}

pub fn name(cfg: GenCfg) -> BoxedStrategy<String> {
    let plain = prop::sample::select(vec!["a", "b", "c", "d", "e", "foo", "bar", "baz.txt", "src", "lib"]).prop_map(String::from);
    if !cfg.odd_names {
        return plain.boxed();
    }
    let odd = prop::sample::select(vec![
        " ", "x y", "é", "日本語", "-n", "--all", ".hidden", "~", "#h", "a.pack", "LAST", "..x", "...", "q\"uote", "back\\slash", "*",
        "a.b.c", "tab\there", "A", "[x]", "$HOME", "a:b", "🦀", "e\u{301}", "temp-backpak-x.pack", "foo ", "%s", "packs", "config.toml",
        ".backpak", "x.part", "a -> b",
    ])
    .prop_map(String::from);
    let long = (1usize..4).prop_map(|n| "n".repeat([100, 254, 255][n - 1]));
    let rnd = "[a-z]{1,3}".prop_map(|s| s);
    if cfg.newline_names {
        let nl = prop::sample::select(vec!["new\nline", "\r", "\u{1}", "a\n+ b"]).prop_map(String::from);
        prop_oneof![12 => plain, 4 => odd, 1 => long, 2 => rnd, 1 => nl].boxed()
    } else {
        prop_oneof![12 => plain, 4 => odd, 1 => long, 2 => rnd].boxed()
    }
}

pub fn small_content() -> BoxedStrategy<Content> {
    prop_oneof![
        1 => Just(Content::Lit(String::new())),
        4 => (0u32..12).prop_map(|i| Content::Lit(format!("content {i}"))),
        2 => "[ -~]{0,40}".prop_map(Content::Lit),
        4 => (0u32..40, 1u32..3000).prop_map(|(s, n)| Content::Rand(s, n)),
        1 => (any::<u8>(), 1u32..5000).prop_map(|(b, n)| Content::Fill(b, n)),
        1 => Just(Content::Fill(0xa0, 1)),
        1 => (0u32..4, 1u32..64, 1u32..4000).prop_map(|(s, p, n)| Content::Period(s, p, n)),
    ]
    .boxed()
}
/// Sizes around the chunker's limits (512 KiB / 1 MiB / 8 MiB, 10 MiB for mmap).
pub fn big_content() -> BoxedStrategy<Content> {
    const K: u32 = 1024;
    let edge = prop::sample::select(vec![512 * K, 1024 * K, 8 * 1024 * K, 10 * 1024 * K]);
    prop_oneof![
        3 => (0u32..5, 400 * K..2200 * K).prop_map(|(s, n)| Content::Rand(s, n)),
        2 => (edge, -2i64..3, 0u32..3).prop_map(|(e, d, s)| Content::Rand(s, (e as i64 + d) as u32)),
        1 => (any::<u8>(), 8000u32 * K..11000 * K).prop_map(|(b, n)| Content::Fill(b, n)),
        1 => (0u32..3, 9000u32 * K..12500 * K).prop_map(|(s, n)| Content::Rand(s, n)),
        2 => (0u32..3, 1000u32 * K..3000 * K, 0u32..1500 * K, 0u32..9, 0u32..100)
            .prop_map(|(s, n, at, ins, sk)| Content::Splice(Box::new(Content::Rand(s, n)), at, Box::new(Content::Rand(ins, ins * 13)), sk)),
        1 => (0u32..3, 600u32 * K..900 * K, 2u32..5).prop_map(|(s, n, r)| Content::Cat((0..r).map(|_| Content::Rand(s, n)).collect())),
    ]
    .boxed()
}
pub fn content(cfg: GenCfg) -> BoxedStrategy<Content> {
    if cfg.big {
        prop_oneof![14 => small_content(), 1 => big_content()].boxed()
    } else {
        small_content()
    }
}
pub fn time(cfg: GenCfg) -> BoxedStrategy<Time> {
    let normal = (1_500_000_000i64..1_700_000_000, prop_oneof![Just(0u32), 0u32..1_000_000_000]);
    if cfg.odd_meta {
        prop_oneof![
            6 => normal,
            1 => (prop::sample::select(vec![0i64, 1, -1, -2, -86400, -1_000_000_000, -2_147_483_648, 2_147_483_647, 2_147_483_648, 4_294_967_295, 9_223_372_035]),
                  prop::sample::select(vec![0u32, 1, 999_999_999, 500_000_000])),
        ]
        .boxed()
    } else {
        normal.boxed()
    }
}
pub fn fmode(cfg: GenCfg) -> BoxedStrategy<u16> {
    if cfg.odd_meta {
        prop_oneof![3 => Just(0o644u16), 1 => Just(0o755u16), 3 => (0u16..0o10000).prop_map(|m| m | 0o400)].boxed()
    } else {
        prop::sample::select(vec![0o644u16, 0o600, 0o755, 0o444]).boxed()
    }
}
pub fn dmode(cfg: GenCfg) -> BoxedStrategy<u16> {
    if cfg.odd_meta {
        prop_oneof![3 => Just(0o755u16), 3 => (0u16..0o10000).prop_map(|m| m | 0o700)].boxed()
    } else {
        prop::sample::select(vec![0o755u16, 0o700, 0o750]).boxed()
    }
}
pub fn link_target() -> BoxedStrategy<String> {
    // Only targets that stay inside the scratch directory or exist nowhere.
    prop_oneof![
        prop::sample::select(vec!["a", "b", "foo", "./a", "../a", "../src", ".", "missing", "foo/bar", "/nonexistent-vh/x", "é", "a/", "..", "self"]).prop_map(String::from),
        "[a-z]{1,5}(/[a-z]{1,5}){0,2}",
    ]
    .boxed()
}
pub fn leaf(cfg: GenCfg) -> BoxedStrategy<Node> {
    let f = (content(cfg), fmode(cfg), time(cfg)).prop_map(|(c, mode, t)| Node::F { c, mode, t });
    let l = link_target().prop_map(|to| Node::L { to });
    let d = (dmode(cfg), time(cfg)).prop_map(|(mode, t)| Node::D { kids: BTreeMap::new(), mode, t });
    match (cfg.links, cfg.fifo) {
        (true, false) => prop_oneof![10 => f, 2 => l, 1 => d].boxed(),
        (true, true) => prop_oneof![10 => f, 2 => l, 1 => d, 1 => Just(Node::P)].boxed(),
        (false, true) => prop_oneof![10 => f, 1 => d, 1 => Just(Node::P)].boxed(),
        (false, false) => prop_oneof![10 => f, 1 => d].boxed(),
    }
}
pub fn node(cfg: GenCfg) -> BoxedStrategy<Node> {
    leaf(cfg)
        .prop_recursive(cfg.depth, cfg.size, 5, move |inner| {
            (prop::collection::btree_map(name(cfg), inner, 0..6), dmode(cfg), time(cfg)).prop_map(|(kids, mode, t)| Node::D { kids, mode, t })
        })
        .boxed()
}
pub fn dir(cfg: GenCfg) -> BoxedStrategy<Node> {
    (prop::collection::btree_map(name(cfg), node(cfg), 0..7), dmode(cfg), time(cfg)).prop_map(|(kids, mode, t)| Node::D { kids, mode, t }).boxed()
}

// --------------------------------------------------------------------- edits

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    Add { at: u32, name: String, node: Node },
    Write { at: u32, c: Content },
    /// Same length, other bytes; the mtime moves.
    Flip { at: u32, seed: u32, back: bool },
    /// Some bytes are replaced by others (maybe as many).
    Splice { at: u32, pos: u32, ins: u32, skip: u32 },
    /// Other length, same mtime.
    Grow { at: u32, n: u32 },
    Touch { at: u32 },
    Chmod { at: u32, bit: u16 },
    Remove { at: u32 },
    Rename { at: u32, to: u32, name: String },
    Dup { at: u32, to: u32, name: String },
    Retype { at: u32, node: Node },
    Swap { a: u32, b: u32 },
}
pub fn edit(cfg: GenCfg) -> BoxedStrategy<Edit> {
    let p = any::<u32>;
    prop_oneof![
        4 => (p(), name(cfg), node(cfg)).prop_map(|(at, name, node)| Edit::Add { at, name, node }),
        3 => (p(), content(cfg)).prop_map(|(at, c)| Edit::Write { at, c }),
        3 => (p(), 0u32..99, any::<bool>()).prop_map(|(at, seed, back)| Edit::Flip { at, seed, back }),
        2 => (p(), p(), 0u32..40, 0u32..40).prop_map(|(at, pos, ins, skip)| Edit::Splice { at, pos, ins, skip }),
        2 => (p(), 1u32..50).prop_map(|(at, n)| Edit::Grow { at, n }),
        1 => p().prop_map(|at| Edit::Touch { at }),
        1 => (p(), prop::sample::select(vec![0o1u16, 0o20, 0o4, 0o200])).prop_map(|(at, bit)| Edit::Chmod { at, bit }),
        2 => p().prop_map(|at| Edit::Remove { at }),
        2 => (p(), p(), name(cfg)).prop_map(|(at, to, name)| Edit::Rename { at, to, name }),
        2 => (p(), p(), name(cfg)).prop_map(|(at, to, name)| Edit::Dup { at, to, name }),
        2 => (p(), leaf(cfg)).prop_map(|(at, node)| Edit::Retype { at, node }),
        1 => (p(), p()).prop_map(|(a, b)| Edit::Swap { a, b }),
    ]
    .boxed()
}

/// Keeps the model legal for the documented change detection: whenever a file's
/// bytes change at some path, its size or its mtime differs from *every* earlier
/// version that was at this path, so `tick` gives each write its own mtime.
pub struct Clock {
    n: i64,
    used: std::collections::HashSet<Time>,
}
impl Clock {
    pub fn new(n: i64) -> Clock {
        Clock { n, used: Default::default() }
    }
    pub fn tick(&mut self) -> Time {
        self.n += 1;
        let t = (1_700_000_000 + self.n, (self.n as u32 * 7919) % 1_000_000_000);
        if self.used.insert(t) { t } else { self.tick() }
    }
    /// A unique time lying before all others.
    pub fn back(&mut self) -> Time {
        self.n += 1;
        let t = (1_400_000_000 - self.n, (self.n as u32 * 104729) % 1_000_000_000);
        if self.used.insert(t) { t } else { self.back() }
    }
    /// A unique time in the same second as another, if possible.
    pub fn near(&mut self, t: Time, k: u32) -> Time {
        for j in 0..6 {
            let d = [1u32, 1000, 1_000_000, 999_999_999, 500_000_000, 999_000_000][((k + j) % 6) as usize];
            let new = (t.0, (t.1 + d) % 1_000_000_000);
            if new != t && self.used.insert(new) {
                return new;
            }
        }
        self.tick()
    }
}
fn retime(n: &mut Node, clk: &mut Clock) {
    match n {
        Node::F { t, .. } => *t = clk.tick(),
        Node::D { kids, t, .. } => {
            *t = clk.tick();
            for k in kids.values_mut() {
                retime(k, clk);
            }
        }
        _ => {}
    }
}
/// Give every file whose mtime occurred already a time of its own.
pub fn uniq_times(n: &mut Node, seen: &mut std::collections::HashSet<Time>, clk: &mut Clock) {
    match n {
        Node::F { t, .. } => {
            if !seen.insert(*t) {
                *t = clk.tick();
                seen.insert(*t);
            }
            clk.used.insert(*t);
        }
        Node::D { kids, .. } => {
            for k in kids.values_mut() {
                uniq_times(k, seen, clk);
            }
        }
        _ => {}
    }
}
fn is_f(n: &Node) -> bool {
    matches!(n, Node::F { .. })
}
fn is_d(n: &Node) -> bool {
    matches!(n, Node::D { .. })
}
fn depth_ok(path: &[String], n: &Node) -> bool {
    fn d(n: &Node) -> usize {
        1 + n.kids().map_or(0, |k| k.values().map(d).max().unwrap_or(0))
    }
    path.len() + d(n) < 9
}

/// Apply to the (root directory) model. Returns a label, or "" if it had no effect.
pub fn apply(root: &mut Node, e: &Edit, clk: &mut Clock) -> &'static str {
    let any_paths = |r: &Node| r.paths(&|_| true);
    let dirs = |r: &Node| {
        let mut v = r.paths(&is_d);
        v.insert(0, vec![]);
        v
    };
    match e {
        Edit::Add { at, name, node } => {
            if root.count() > 60 {
                return "";
            }
            let ds = dirs(root);
            let p = ds[pick(*at, ds.len())].clone();
            if !depth_ok(&p, node) {
                return "";
            }
            let mut n = node.clone();
            retime(&mut n, clk);
            root.get_mut(&p).unwrap().kids_mut().unwrap().insert(name.clone(), n);
            "add"
        }
        Edit::Write { at, c } => {
            let fs = root.paths(&is_f);
            if fs.is_empty() {
                return "";
            }
            if let Some(Node::F { c: cc, t, .. }) = root.get_mut(&fs[pick(*at, fs.len())]) {
                *cc = c.clone();
                *t = clk.tick();
            }
            "write"
        }
        Edit::Flip { at, seed, back } => {
            let fs = root.paths(&is_f);
            if fs.is_empty() {
                return "";
            }
            if let Some(Node::F { c, t, .. }) = root.get_mut(&fs[pick(*at, fs.len())]) {
                let n = c.bytes().len() as u32;
                *c = Content::Rand(1000 + *seed, n);
                *t = match (*back, seed % 3) {
                    (true, _) => clk.back(),
                    (_, 0) => clk.tick(),
                    _ => clk.near(*t, *seed),
                };
            }
            "flip"
        }
        Edit::Splice { at, pos, ins, skip } => {
            let fs = root.paths(&is_f);
            if fs.is_empty() {
                return "";
            }
            if let Some(Node::F { c, t, .. }) = root.get_mut(&fs[pick(*at, fs.len())]) {
                let n = c.bytes().len();
                *c = Content::Splice(Box::new(c.clone()), pick(*pos, n + 1) as u32, Box::new(Content::Rand(2000 + pos % 50, *ins)), *skip);
                *t = clk.near(*t, *ins);
            }
            "splice"
        }
        Edit::Grow { at, n } => {
            let fs = root.paths(&is_f);
            if fs.is_empty() {
                return "";
            }
            if let Some(Node::F { c, .. }) = root.get_mut(&fs[pick(*at, fs.len())]) {
                *c = Content::Cat(vec![c.clone(), Content::Fill(b'g', *n)]);
            }
            "grow"
        }
        Edit::Touch { at } => {
            let ps = any_paths(root);
            if ps.is_empty() {
                return "";
            }
            match root.get_mut(&ps[pick(*at, ps.len())]) {
                Some(Node::F { t, .. }) | Some(Node::D { t, .. }) => *t = clk.tick(),
                _ => return "",
            }
            "touch"
        }
        Edit::Chmod { at, bit } => {
            let ps = any_paths(root);
            if ps.is_empty() {
                return "";
            }
            match root.get_mut(&ps[pick(*at, ps.len())]) {
                Some(Node::F { mode, .. }) => *mode = (*mode ^ bit) | 0o400,
                Some(Node::D { mode, .. }) => *mode = (*mode ^ bit) | 0o700,
                _ => return "",
            }
            "chmod"
        }
        Edit::Remove { at } => {
            let ps = any_paths(root);
            if ps.is_empty() {
                return "";
            }
            let p = &ps[pick(*at, ps.len())];
            let (l, d) = p.split_last().unwrap();
            root.get_mut(d).unwrap().kids_mut().unwrap().remove(l);
            "remove"
        }
        Edit::Rename { at, to, name } | Edit::Dup { at, to, name } => {
            let ps = any_paths(root);
            let ds = dirs(root);
            if ps.is_empty() {
                return "";
            }
            let p = ps[pick(*at, ps.len())].clone();
            let d = ds[pick(*to, ds.len())].clone();
            let ren = matches!(e, Edit::Rename { .. });
            let mut dst = d.clone();
            dst.push(name.clone());
            // Not into itself, and never onto an existing entry (that could put a file of
            // the same size and time where another one was, which is outside the domain).
            if dst.starts_with(&p) || p.starts_with(&dst) || root.get(&dst).is_some() {
                return "";
            }
            let mut n = root.get(&p).unwrap().clone();
            if !depth_ok(&d, &n) || (!ren && root.count() + n.count() > 60) {
                return "";
            }
            // Moving keeps times like mv does, unless an earlier version at the target
            // path may have had the same size and time: give it a fresh time then.
            if !ren {
                retime(&mut n, clk)
            }
            if ren {
                let (l, dd) = p.split_last().unwrap();
                root.get_mut(dd).unwrap().kids_mut().unwrap().remove(l);
            }
            root.get_mut(&d).unwrap().kids_mut().unwrap().insert(name.clone(), n);
            if ren { "rename" } else { "dup" }
        }
        Edit::Retype { at, node } => {
            let ps = any_paths(root);
            if ps.is_empty() {
                return "";
            }
            let mut n = node.clone();
            retime(&mut n, clk);
            *root.get_mut(&ps[pick(*at, ps.len())]).unwrap() = n;
            "retype"
        }
        Edit::Swap { a, b } => {
            let fs = root.paths(&is_f);
            if fs.len() < 2 {
                return "";
            }
            let (pa, pb) = (fs[pick(*a, fs.len())].clone(), fs[pick(*b, fs.len())].clone());
            if pa == pb {
                return "";
            }
            // Two files exchange places, with fresh times (else same-size files could
            // legally be mistaken for unchanged ones only if their times were equal too).
            let (mut x, mut y) = (root.get(&pa).unwrap().clone(), root.get(&pb).unwrap().clone());
            retime(&mut x, clk);
            retime(&mut y, clk);
            *root.get_mut(&pa).unwrap() = y;
            *root.get_mut(&pb).unwrap() = x;
            "swap"
        }
    }
}
