//! C01: backup then restore reproduces the source exactly.
use super::PropDef;
use crate::engine::*;
use crate::fsm::*;
use crate::world::*;
use crate::{viol, want};
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    setup: Setup,
    roots: Vec<Node>,
    times: bool,
    perms: bool,
    absolute: bool,
    twice: bool,
}

fn strat(big: bool) -> BoxedStrategy<Case> {
    let cfg = GenCfg { odd_meta: true, newline_names: true, fifo: true, big, ..GenCfg::default() };
    let root = prop_oneof![7 => dir(cfg), 1 => leaf(GenCfg { links: false, fifo: false, ..cfg })];
    let roots = prop_oneof![4 => prop::collection::vec(root.clone(), 1..=1), 1 => prop::collection::vec(root, 2..=3)];
    (setup(), roots, any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>())
        .prop_map(|(setup, roots, times, perms, absolute, twice)| Case { setup, roots, times, perms, absolute, twice })
        .boxed()
}

fn biggest() -> BoxedStrategy<Case> {
    let cfg = GenCfg { odd_meta: true, ..GenCfg::default() };
    (setup(), prop::collection::vec((name(cfg), big_content(), fmode(cfg), time(cfg)), 1..4), any::<bool>())
        .prop_map(|(setup, fs, absolute)| {
            let mut d = Node::dir();
            for (n, c, mode, t) in fs {
                d.kids_mut().unwrap().insert(n, Node::F { c, mode, t });
            }
            Case { setup, roots: vec![d], times: true, perms: true, absolute, twice: false }
        })
        .boxed()
}

fn run(c: &Case, env: &Env) -> R<Info> {
    let mut w = World::new(env, &c.setup)?;
    let mut i = Info::default();
    let names: Vec<String> = ["one", "two", "three"].iter().take(c.roots.len()).map(|s| s.to_string()).collect();
    for (n, r) in names.iter().zip(&c.roots) {
        w.set_root(n, r)?;
    }
    let id = w.backup(&names, &["--allow-empty"])?;
    want!(id.is_some(), "backup reported success but added no snapshot");
    let s = w.snaps[0].clone();
    let mut flags = vec![];
    if c.times {
        flags.push("--times");
    }
    if c.perms {
        flags.push("--permissions");
    }
    // What was backed up is still there unchanged.
    for n in &names {
        let mut f = Flat::new();
        w.roots[n].flat_into("", &mut f);
        let mut got = scan(&w.sb.p("src").join(n))?;
        got.retain(|_, e| !matches!(e.kind, Kind::O(_)));
        let d = cmp(&f, &got, Cmp { times: true, modes: true, root_meta: true, atimes: false });
        want!(d.is_empty(), "backup changed the source: {}", show(&d));
    }
    if c.absolute {
        for n in &names {
            wipe(&w.sb.p("src").join(n))?;
        }
        for round in 0..1 + c.twice as u32 {
            let mut a = vec!["restore"];
            a.extend(&flags);
            a.push(&s.id);
            w.bp_ok(&a)?;
            let mut got = scan(&w.sb.p("src"))?;
            got.remove("");
            let d = cmp(&s.flat, &got, Cmp { times: c.times, modes: c.perms, root_meta: true, atimes: false });
            if !d.is_empty() {
                viol!("restore (run {round}) {flags:?} to the original paths gives something else: {}", show(&d));
            }
        }
        i.hit("absolute");
    } else if c.roots.len() == 1 && matches!(c.roots[0], Node::F { .. }) {
        // A single file: the output directory gets its name only with several paths.
        w.deep_check()?;
        i.hit("file-root");
    } else {
        w.check_restore(&s, &flags)?;
    }
    w.deep_check()?;
    let f = &s.flat;
    let files: Vec<usize> = f.values().filter_map(|e| if let Kind::F(b) = &e.kind { Some(b.len()) } else { None }).collect();
    let links = f.values().filter(|e| matches!(e.kind, Kind::L(_))).count();
    let depth = f.keys().map(|k| k.matches('/').count()).max().unwrap_or(0);
    if !files.is_empty() && (depth >= 2 || files.iter().any(|l| *l > 512 * 1024)) {
        i.nontrivial = true;
    }
    i.add("files", files.len() as u64);
    i.add("links", links as u64);
    i.add("chunked-files", files.iter().filter(|l| **l > 512 * 1024).count() as u64);
    i.hit(match c.setup.backend {
        Backend::Plain => "plain",
        Backend::Cached => "cached",
        Backend::Filter | Backend::Script(_) => "filtered",
        Backend::B2(..) => "b2",
    });
    if c.setup.xdev {
        i.hit("cross-device");
    }
    i.note = format!("{} entries, depth {depth}, {} files, flags {flags:?}, absolute {}", f.len(), files.len(), c.absolute);
    Ok(i)
}

pub fn def() -> PropDef {
    PropDef {
        suites: vec![
            Box::new(Suite { name: "trees", quick: 1500, thorough: 12_000, threads: 8, strat: Box::new(|| strat(false)), run: Box::new(run) }),
            Box::new(Suite { name: "large", quick: 24, thorough: 900, threads: 6, strat: Box::new(biggest), run: Box::new(run) }),
        ],
        level: "exploration",
        rule: "the tree has at least one file and either directories nested two deep or a file of more than one chunk (512 KiB)",
        assumptions: vec![
            "names are UTF-8; modes keep the owner's read (and directory search) bits, as the checks run as an unprivileged user",
            "ownership, access times of the restored tree and symlink metadata are not compared",
        ],
    }
}
