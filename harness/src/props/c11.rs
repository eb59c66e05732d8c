//! C11: restoring over existing files touches only what it should.
use super::PropDef;
use crate::cli::read_dir_bytes;
use crate::engine::*;
use crate::fsm::*;
use crate::world::*;
use crate::want;
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

/// Changes to the destination which edits of a source tree don't make.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Poke {
    /// Replace an entry by a link to something outside of the destination.
    Link(u32, u8),
    /// Make one file another name of a second one.
    Hard(u32, u32),
    /// Make a file another name of one outside.
    HardOut(u32),
    Fifo(u32, String),
    /// Give a directory the times it has in the snapshot.
    Times,
    ReadOnly(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    setup: Setup,
    roots: Vec<Node>,
    /// 0: to the original paths, 1: -o, 2: -o ., 3: -o with a trailing slash, 4: -o ./x/../out, 5: configured
    how: u8,
    /// Whether a root is there at all.
    present: u8,
    edits: Vec<(u32, Edit)>,
    pokes: Vec<(u32, Poke)>,
    delete: bool,
    times: bool,
    perms: bool,
    dry_first: bool,
}

const OUTSIDE: [&str; 8] = ["@/outside/d", "@/outside/f", "@/outside/none", "@/outside", "../../outside/d", "../outside/d", "../../../outside/f", "@/sibling"];

fn outside() -> Node {
    let mut d = Node::dir();
    let k = d.kids_mut().unwrap();
    for n in ["a", "b", "foo"] {
        k.insert(n.into(), Node::file(&format!("outside {n}")));
    }
    let mut sub = Node::dir();
    sub.kids_mut().unwrap().insert("a".into(), Node::file("outside sub"));
    k.insert("c".into(), sub);
    let mut o = Node::dir();
    let k = o.kids_mut().unwrap();
    k.insert("d".into(), d);
    k.insert("f".into(), Node::file("outside file"));
    k.insert("linked".into(), Node::file("outside, linked"));
    o
}

fn fix_links(n: &mut Node, at: &str) {
    match n {
        Node::L { to } => *to = to.replace('@', at),
        Node::D { kids, .. } => kids.values_mut().for_each(|k| fix_links(k, at)),
        _ => {}
    }
}

struct Out {
    /// path -> (entry as restored, was it there with this type before)
    flat: BTreeMap<String, Want>,
    blocked: bool,
    may_fail: bool,
}
#[derive(Clone)]
enum Want {
    /// As in the destination before.
    Kept(Kind),
    /// As in the snapshot, and what was there before if it was of the same type.
    Snap(Ent, Option<Ent>),
}
fn whole(n: &Node, at: &str, o: &mut Out) {
    let mut f = Flat::new();
    n.flat_into(at, &mut f);
    for (p, e) in f {
        o.flat.insert(p, Want::Snap(e, None));
    }
}
fn kept(n: &Node, at: &str, o: &mut Out) {
    let k = match n {
        Node::P => Kind::O(libc::S_IFIFO as u32),
        Node::D { .. } => Kind::D,
        Node::F { c, .. } => Kind::F(std::sync::Arc::new(c.bytes())),
        Node::L { to } => Kind::L(to.clone()),
    };
    o.flat.insert(at.into(), Want::Kept(k));
    for (n, k) in n.kids().into_iter().flatten() {
        kept(k, &join(at, n), o);
    }
}
fn one(n: &Node) -> Ent {
    let mut f = Flat::new();
    match n {
        Node::D { mode, t, .. } => Node::D { kids: BTreeMap::new(), mode: *mode, t: *t }.flat_into("", &mut f),
        n => n.flat_into("", &mut f),
    }
    f.remove("").unwrap()
}
/// What must be there after restoring `snap` over `dest`.
fn merge(snap: Option<&Node>, dest: Option<&Node>, at: &str, delete: bool, o: &mut Out) {
    match (snap, dest) {
        (None, None) => {}
        (None, Some(d)) => {
            if !delete || matches!(d, Node::P) {
                kept(d, at, o)
            }
        }
        (Some(s), None) => whole(s, at, o),
        (Some(s), Some(Node::P)) => {
            // Special files are not looked at, and never replaced.
            o.blocked = true;
            whole(s, at, o);
        }
        (Some(s), Some(d)) => match (s, d) {
            (Node::D { kids: ks, .. }, Node::D { kids: kd, .. }) => {
                o.flat.insert(at.into(), Want::Snap(one(s), Some(one(d))));
                let names: BTreeSet<&String> = ks.keys().chain(kd.keys()).collect();
                for n in names {
                    merge(ks.get(n), kd.get(n), &join(at, n), delete, o);
                }
            }
            (_, Node::D { .. }) if !delete => kept(d, at, o),
            (Node::F { .. }, Node::F { mode, .. }) => {
                let (es, ed) = (one(s), one(d));
                o.may_fail |= es.kind != ed.kind && mode & 0o200 == 0;
                o.flat.insert(at.into(), Want::Snap(es, Some(ed)));
            }
            (Node::L { .. }, Node::L { .. }) => {
                o.flat.insert(at.into(), Want::Snap(one(s), Some(one(d))));
            }
            _ => whole(s, at, o),
        },
    }
}

fn run(c: &Case, env: &Env) -> R<Info> {
    let mut i = Info::default();
    let mut w = World::new(env, &c.setup)?;
    let top = w.sb.ps(".").trim_end_matches("/.").to_string();
    let names: Vec<String> = ["a", "b"][..c.roots.len()].iter().map(|s| s.to_string()).collect();
    for (n, r) in names.iter().zip(&c.roots) {
        w.set_root(n, r)?;
    }
    w.backup(&names, &["--allow-empty"])?;
    let snap = w.roots.clone();
    let single = names.len() == 1;
    let original = c.how == 0;
    materialise(&outside(), &w.sb.p("outside"))?;
    std::fs::write(w.sb.p("sibling"), "sibling")?;

    // The destination, root by root.
    let mut dest: BTreeMap<String, Node> = snap.clone();
    let mut clk = Clock::new(1000);
    for (k, e) in &c.edits {
        let n = &names[pick(*k, names.len())];
        if dest[n].kids().is_none() {
            continue;
        }
        let l = apply(dest.get_mut(n).unwrap(), e, &mut clk);
        if !l.is_empty() {
            i.hit(l);
        }
    }
    let (mut hard, mut hard_out): (Vec<(String, Vec<String>, Vec<String>)>, Vec<(String, Vec<String>)>) = (vec![], vec![]);
    for (k, p) in &c.pokes {
        let name = names[pick(*k, names.len())].clone();
        let n = dest.get_mut(&name).unwrap();
        match p {
            Poke::Link(at, t) => {
                let mut v = n.paths(&|_| true);
                if original || !single {
                    v.insert(0, vec![]); // The root itself.
                }
                if v.is_empty() {
                    continue;
                }
                *n.get_mut(&v[pick(*at, v.len())]).unwrap() = Node::L { to: OUTSIDE[*t as usize % OUTSIDE.len()].into() };
                i.hit("link-out");
            }
            Poke::Fifo(at, name) => {
                let v = n.paths(&|n| matches!(n, Node::D { .. }));
                let at = if v.is_empty() { vec![] } else { v[pick(*at, v.len())].clone() };
                if let Some(k) = n.get_mut(&at).and_then(|n| n.kids_mut()) {
                    k.insert(name.clone(), Node::P);
                    i.hit("fifo");
                }
            }
            Poke::Hard(a, b) => {
                let v = n.paths(&|n| matches!(n, Node::F { .. }));
                if v.len() > 1 {
                    let (a, b) = (v[pick(*a, v.len())].clone(), v[pick(*b, v.len())].clone());
                    if a != b {
                        hard.push((name, a, b));
                    }
                }
            }
            Poke::HardOut(a) => {
                let v = n.paths(&|n| matches!(n, Node::F { .. }));
                if !v.is_empty() {
                    hard_out.push((name, v[pick(*a, v.len())].clone()));
                }
            }
            Poke::Times => {
                i.hit("times-same");
                fn same(s: &Node, d: &mut Node) {
                    if let (Node::D { kids: ks, t: ts, mode: ms }, Node::D { kids, t, mode }) = (s, d) {
                        (*t, *mode) = (*ts, *ms);
                        for (n, k) in kids {
                            if let Some(s) = ks.get(n) {
                                same(s, k);
                            }
                        }
                    }
                }
                same(&snap[&name], n);
            }
            Poke::ReadOnly(a) => {
                let v = n.paths(&|n| matches!(n, Node::F { .. }));
                if !v.is_empty()
                    && let Some(Node::F { mode, .. }) = n.get_mut(&v[pick(*a, v.len())])
                {
                    *mode &= 0o7555;
                }
            }
        }
    }
    for (n, d) in dest.iter_mut() {
        fix_links(d, &top);
        // (Changing a read-only file fails; keep that rare.)
        fn writable(d: &mut Node) {
            match d {
                Node::F { mode, .. } => *mode |= 0o200,
                Node::D { kids, .. } => kids.values_mut().for_each(writable),
                _ => {}
            }
        }
        if !c.pokes.iter().any(|p| matches!(p.1, Poke::ReadOnly(_))) {
            writable(d);
        }
        let _ = n;
    }
    // One file with several names has one content, mode and time.
    let mut shared: BTreeSet<String> = BTreeSet::new();
    let key = |n: &String, p: &[String]| join(n, &p.join("/"));
    let mut links: Vec<(String, String)> = vec![];
    for (n, a, b) in &hard {
        let d = dest.get_mut(n).unwrap();
        let (Some(x @ Node::F { .. }), Some(Node::F { .. })) = (d.get(a).cloned(), d.get(b)) else { continue };
        if shared.contains(&key(n, b)) || shared.contains(&key(n, a)) {
            continue;
        }
        // Not what's taken for the snapshot's file by its size and time.
        let clash = |p: &[String]| matches!((snap[n].get(p), &x), (Some(Node::F { c, t, .. }), Node::F { c: xc, t: xt, .. }) if t == xt && c.bytes().len() == xc.bytes().len() && c.bytes() != xc.bytes());
        if clash(b) {
            continue;
        }
        *d.get_mut(b).unwrap() = x;
        shared.insert(key(n, a));
        shared.insert(key(n, b));
        links.push((key(n, a), key(n, b)));
        i.hit("hard-link");
    }
    for (n, a) in &hard_out {
        let d = dest.get_mut(n).unwrap();
        if shared.contains(&key(n, a)) || !matches!(d.get(a), Some(Node::F { .. })) {
            continue;
        }
        *d.get_mut(a).unwrap() = outside().get(&["linked".into()]).unwrap().clone();
        shared.insert(key(n, a));
        links.push(("@linked".into(), key(n, a)));
        i.hit("hard-link-out");
    }
    let present = |k: usize| (single && !original) || c.present >> k & 1 == 0;
    let out = if original { "src" } else { "out" };
    if original {
        for n in &names {
            wipe(&w.sb.p("src").join(n))?;
        }
    }
    let root_at = |n: &str| if single && !original { w.sb.p("out") } else { w.sb.p(out).join(n) };
    if !original && !single {
        std::fs::create_dir(w.sb.p("out"))?;
        std::fs::create_dir(w.sb.p("out/other"))?;
        std::fs::write(w.sb.p("out/other/x"), "mine")?;
    }
    let mut o = Out { flat: BTreeMap::new(), blocked: false, may_fail: false };
    for (k, n) in names.iter().enumerate() {
        let p = present(k);
        merge(snap.get(n), dest.get(n).filter(|_| p), n, c.delete, &mut o);
        if p {
            materialise(&dest[n], &root_at(n))?;
        } else {
            i.hit("gone");
        }
    }
    for (a, b) in &links {
        let at = |p: &str| match p.split_once('/') {
            Some((n, r)) => root_at(n).join(r),
            None => w.sb.p("outside/linked"),
        };
        let n = b.split_once('/').unwrap().0;
        if present(names.iter().position(|x| x == n).unwrap()) {
            let (a, b) = (at(a), at(b));
            let d = b.parent().unwrap();
            let m = scan(d)?.remove("").unwrap();
            std::fs::remove_file(&b)?;
            std::fs::hard_link(a, &b)?;
            set_times(d, ATIME, m.t)?;
        }
    }
    // Everything there is besides the destination.
    let others = |w: &World| -> R<Flat> {
        let mut f = Flat::new();
        let mut ds = vec!["outside", "sibling", "home", "cwd"];
        ds.extend(if original { vec!["out/other"] } else { vec!["src", "out/other"] });
        for d in ds {
            for (p, mut e) in scan(&w.sb.p(d))? {
                if d == "outside" && p == "linked" {
                    // (Times and modes of shared files may be those of the snapshot.)
                    (e.mode, e.t) = (0, (0, 0));
                }
                if d == "home" && (p.is_empty() || p.starts_with(".cache")) {
                    continue;
                }
                e.atime = (0, 0);
                f.insert(format!("{d}/{p}"), e);
            }
        }
        Ok(f)
    };
    if c.how == 5 && !original {
        std::fs::create_dir_all(w.sb.p("home/.config"))?;
        std::fs::write(w.sb.p("home/.config/backpak.toml"), format!("[restore]\noutput = {:?}\n", w.sb.ps("out")))?;
    }
    let scan_all = |w: &World| -> R<Flat> {
        let mut f = Flat::new();
        for n in &names {
            for (p, e) in scan(&root_at(n))? {
                f.insert(join(n, &p).trim_end_matches('/').to_string(), e);
            }
        }
        let _ = w;
        Ok(f)
    };
    let noatime = |mut f: Flat| {
        f.values_mut().for_each(|e| e.atime = (0, 0));
        f
    };
    let nolinks = |mut f: Flat| {
        f.values_mut().filter(|e| matches!(e.kind, Kind::L(_))).for_each(|e| e.t = (0, 0));
        f
    };
    let before = scan_all(&w)?;
    let others_before = others(&w)?;
    let repo_before = read_dir_bytes(&w.sb.p("repo"))?;

    let (r, abs) = (w.repo_arg(), w.sb.ps("out"));
    let id = w.snaps[0].id.clone();
    let mut args = vec!["-r", &r, "restore"];
    let (slash, dots) = (format!("{abs}/"), "./../out/../cwd/../out".to_string());
    let mut cwd = "cwd";
    // (A .backpak in the working directory is taken for the configuration.)
    let named = |m: &BTreeMap<String, Node>| m.values().any(|n| n.kids().is_some_and(|k| k.contains_key(".backpak")));
    match if c.how == 2 && single && (named(&snap) || named(&dest)) { 3 } else { c.how } {
        1 => args.extend(["-o", &abs]),
        2 if !matches!(dest[&names[0]], Node::D { .. }) && single => args.extend(["-o", &abs]),
        2 => {
            args.extend(["-o", "."]);
            cwd = "out";
        }
        3 if !single || matches!(dest[&names[0]], Node::D { .. }) => args.extend(["-o", &slash]),
        3 => args.extend(["-o", &abs]),
        4 if !single || matches!(dest[&names[0]], Node::D { .. }) => args.extend(["-o", &dots]),
        4 => args.extend(["-o", &abs]),
        _ => {}
    }
    for (on, f) in [(c.delete, "--delete"), (c.times, "--times"), (c.perms, "--permissions")] {
        if on {
            args.push(f);
        }
    }
    let mut dry = args.clone();
    dry.extend(["--dry-run", &id]);
    args.push(&id);

    let mut said = None;
    if c.dry_first {
        let x = w.sb.run_in(cwd, &dry)?;
        want!(x.ok(), "dry run failed: {}", x.describe());
        let d = cmp(&noatime(before.clone()), &noatime(scan_all(&w)?), Cmp { times: true, modes: true, root_meta: true, atimes: true });
        want!(d.is_empty(), "restore --dry-run changed the destination: {}", show(&d));
        said = Some(x.text());
    }
    let x = w.sb.run_in(cwd, &args)?;
    want!(!x.panicked(), "restore: {}", x.describe());
    let now = others(&w)?;
    let d = cmp(&others_before, &now, Cmp { times: true, modes: true, root_meta: true, atimes: true });
    want!(d.is_empty(), "restore changed something outside of the destination: {} [{}]", show(&d), x.describe());
    want!(read_dir_bytes(&w.sb.p("repo"))? == repo_before, "restore changed the repository");
    if o.blocked {
        want!(!x.ok(), "restore succeeded though a special file is in the way: {}", x.describe());
        i.hit("blocked");
    }
    if !x.ok() {
        want!(o.blocked || o.may_fail, "restore failed: {}", x.describe());
        i.hit("failed");
        i.note = "failed, as it must".into();
        return Ok(i);
    }
    if let Some(s) = said {
        want!(s == x.text(), "the dry run said\n{s}and the real one\n{}", x.text());
    }
    let after = scan_all(&w)?;
    let mut diff = vec![];
    let mut changed = 0u64;
    for (p, want) in &o.flat {
        let Some(g) = after.get(p) else {
            diff.push(format!("missing {p:?}"));
            continue;
        };
        match want {
            Want::Kept(k) => {
                let b = &before[p];
                if &g.kind != k {
                    diff.push(format!("{p:?}, which the snapshot does not replace, is now {:?} instead of {k:?}", g.kind));
                } else if (g.mode, g.t) != (b.mode, b.t) && !matches!(k, Kind::D) && !shared.contains(p) {
                    diff.push(format!("mode or time of {p:?}, which the snapshot does not replace, changed"));
                }
            }
            Want::Snap(e, was) => {
                if g.kind != e.kind {
                    diff.push(format!("{p:?} is {:?} instead of {:?}", g.kind, e.kind));
                    continue;
                }
                let link = matches!(e.kind, Kind::L(_));
                // (Links which were replaced get their times on the next run only.)
                let replaced = was.as_ref().is_none_or(|b| b.kind != e.kind);
                changed += replaced as u64;
                if shared.contains(p) {
                    continue;
                }
                if c.times && g.t != e.t && !(link && replaced) {
                    diff.push(format!("{p:?}: mtime {:?} instead of {:?}", g.t, e.t));
                }
                if c.perms && !link && g.mode != e.mode {
                    diff.push(format!("{p:?}: mode {:o} instead of {:o}", g.mode, e.mode));
                }
                if let Some(b) = was {
                    // (Writing to a file clears its set-ID bits.)
                    let m = if b.kind == e.kind { 0o7777 } else { 0o1777 };
                    if !c.perms && !link && g.mode & m != b.mode & m {
                        diff.push(format!("{p:?}: mode changed from {:o} to {:o} without --permissions", b.mode, g.mode));
                    }
                    if !c.times && b.kind == e.kind && !matches!(e.kind, Kind::D) && g.t != b.t {
                        diff.push(format!("{p:?}: mtime of an unchanged entry changed without --times"));
                    }
                }
            }
        }
    }
    for p in after.keys().filter(|p| !o.flat.contains_key(*p)) {
        diff.push(format!("{p:?} should not be there{}", if before.contains_key(p) { " any more" } else { "" }));
    }
    want!(diff.is_empty(), "`restore{}` over existing files: {}", args[3..args.len() - 1].join(" "), show(&diff));
    // Again.
    if shared.is_empty() {
        let x = w.sb.run_in(cwd, &args)?;
        want!(x.ok(), "a second restore failed: {}", x.describe());
        let d = cmp(&nolinks(noatime(after.clone())), &nolinks(noatime(scan_all(&w)?)), Cmp { times: true, modes: true, root_meta: true, atimes: true });
        want!(d.is_empty(), "a second identical restore changed {}", show(&d));
        let says = |l: &&str| l.len() > 2 && "+-COPTM".contains(&l[..1]) && &l[1..2] == " ";
        let t = x.text();
        let t: Vec<&str> = t.lines().filter(|l| l.is_char_boundary(1) && l.is_char_boundary(2)).filter(says).filter(|l| !(l.starts_with("T ") && l.contains(" -> "))).collect();
        // (With only one of the flags, differences of the other kind are reported every time.)
        want!(c.times != c.perms || t.is_empty(), "a second identical restore says {t:?}");
        i.hit("again");
    } else {
        let x = w.sb.run_in(cwd, &args)?;
        let strip = |f: Flat| f.into_iter().map(|(p, e)| (p, e.kind)).collect::<BTreeMap<_, _>>();
        want!(x.ok() && strip(after) == strip(scan_all(&w)?), "a second identical restore changes something: {}", x.describe());
    }
    i.nontrivial = changed > 0 || before.len() != o.flat.len();
    i.hit(["original", "out", "out-dot", "out-slash", "out-dots", "configured"][c.how as usize % 6]);
    i.note = format!("{} entries before, {} after, {changed} replaced or new", before.len(), o.flat.len());
    Ok(i)
}
fn strat() -> BoxedStrategy<Case> {
    let cfg = GenCfg { size: 10, ..GenCfg::default() };
    let cfg_meta = GenCfg { odd_meta: true, ..cfg };
    let p = any::<u32>;
    let poke = prop_oneof![
        4 => (p(), any::<u8>()).prop_map(|(a, t)| Poke::Link(a, t)),
        2 => (p(), p()).prop_map(|(a, b)| Poke::Hard(a, b)),
        1 => p().prop_map(Poke::HardOut),
        1 => (p(), name(cfg)).prop_map(|(a, n)| Poke::Fifo(a, n)),
        2 => Just(Poke::Times),
        1 => p().prop_map(Poke::ReadOnly),
    ];
    let root = prop_oneof![10 => dir(cfg), 3 => dir(cfg_meta), 2 => leaf(GenCfg { links: false, ..cfg })];
    (
        setup(),
        prop_oneof![3 => prop::collection::vec(root.clone(), 1), 2 => prop::collection::vec(root, 2)],
        prop_oneof![3 => Just(0u8), 3 => Just(1), 1 => 2u8..6],
        prop_oneof![4 => Just(0u8), 1 => any::<u8>()],
        prop::collection::vec((p(), edit(cfg)), 0..8),
        prop_oneof![1 => Just(vec![]).boxed(), 2 => prop::collection::vec((p(), poke), 1..4).boxed()],
        (any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>()),
    )
        .prop_map(|(setup, roots, how, present, edits, pokes, (delete, times, perms, dry_first))| Case {
            setup,
            roots,
            how,
            present,
            edits,
            pokes,
            delete,
            times,
            perms,
            dry_first,
        })
        .boxed()
}

pub fn def() -> PropDef {
    PropDef {
        suites: vec![Box::new(Suite { name: "over", quick: 4500, thorough: 30_000, threads: 8, strat: Box::new(strat), run: Box::new(run) })],
        level: "exploration",
        rule: "the restore had to replace, add or remove something",
        assumptions: vec![
            "a destination file of the same size and mtime as in the snapshot has the same contents (documented change detection)",
            "special files in the destination are left alone; one in the way makes the restore fail",
            "links which are added or replaced get their times on the next run only (which the tests demand)",
            "a read-only destination file whose contents differ may make the restore fail",
            "times and modes of destination files with several hard links are not compared",
        ],
    }
}
