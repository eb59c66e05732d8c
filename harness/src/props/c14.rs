//! C14: chunking is lossless, bounded, deterministic and local.
use super::PropDef;
use crate::engine::*;
use crate::fsck;
use crate::fsm::*;
use crate::want;
use crate::world::*;
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

const K: usize = 1024;
const MIN: usize = 512 * K;
const MAX: usize = 8 * 1024 * K;
const MMAP: usize = 10 * 1024 * K;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    /// At this fraction (of 2^32), skip so many bytes and insert those.
    At(u32, u32, Content),
    Append(Content),
    Truncate(u32),
    /// Cut off everything before or after some chunk boundary.
    Cut(u32, bool),
    Same,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    base: Content,
    edit: Edit,
    /// Nothing about it suits cutting: it resynchronises after any edit.
    random: bool,
}

/// What chunks a file was cut into: ID and length.
type Cuts = Vec<(String, usize)>;

fn lossless(what: &str, bytes: &[u8], cuts: &Cuts) -> R<()> {
    let mut at = 0;
    for (n, (id, len)) in cuts.iter().enumerate() {
        want!(*len > 0, "{what}: chunk {n} is empty");
        want!(at + len <= bytes.len(), "{what}: the chunks are longer than the file ({} bytes)", bytes.len());
        want!(&fsck::hash(&bytes[at..at + len]) == id, "{what}: chunk {n} (bytes {at}..{}) is not the file's contents there", at + len);
        want!(*len <= MAX, "{what}: chunk {n} has {len} bytes, more than 8 MiB");
        want!(*len >= MIN || n + 1 == cuts.len(), "{what}: chunk {n} of {} has {len} bytes, less than 512 kiB", cuts.len());
        at += len;
    }
    want!(at == bytes.len(), "{what}: the chunks have {at} bytes altogether, the file {}", bytes.len());
    Ok(())
}

fn apply_edit(b: &[u8], e: &Edit, cuts: &Cuts) -> Vec<u8> {
    match e {
        Edit::At(f, del, ins) => {
            let at = ((b.len() as u64 * *f as u64) >> 32) as usize;
            let end = (at + *del as usize).min(b.len());
            [&b[..at], &ins.bytes(), &b[end..]].concat()
        }
        Edit::Append(c) => [b, &c.bytes()].concat(),
        Edit::Truncate(f) => b[..((b.len() as u64 * *f as u64) >> 32) as usize].to_vec(),
        Edit::Cut(k, before) => {
            let n = pick(*k, cuts.len() + 1);
            let at: usize = cuts[..n].iter().map(|c| c.1).sum();
            if *before { b[at..].to_vec() } else { b[..at].to_vec() }
        }
        Edit::Same => b.to_vec(),
    }
}

/// Where the edit leaves the cuts of the first version valid.
fn local(a: &[u8], ca: &Cuts, b: &[u8], cb: &Cuts, c: &Case, i: &mut Info) -> R<()> {
    let pre = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let ends = |c: &Cuts| {
        c.iter()
            .scan(0, |s, x| {
                *s += x.1;
                Some(*s)
            })
            .collect::<Vec<usize>>()
    };
    let (ea, eb) = (ends(ca), ends(cb));
    // A cut depends only on what comes before it (but for the end of the file).
    let ia: Vec<usize> = ea.iter().copied().filter(|e| *e <= pre && *e < a.len()).collect();
    let ib: Vec<usize> = eb.iter().copied().filter(|e| *e <= pre && *e < b.len()).collect();
    // (Either may be cut at its end where the other isn't.)
    let n = ia.len().min(ib.len());
    want!(ia[..n] == ib[..n] && ia.len().abs_diff(ib.len()) <= 1, "the first {pre} bytes of two files are the same, but they're cut at {ia:?} in one and {ib:?} in the other");
    if let Some(x) = ia.get(n).or(ib.get(n)) {
        want!(*x >= a.len().min(b.len()), "the first {pre} bytes of two files (of {} and {}) are the same, but only one is cut at {x}", a.len(), b.len());
    }
    // ... and on what's after the previous cut.
    let post = a.iter().rev().zip(b.iter().rev()).take_while(|(x, y)| x == y).count().min(a.len() - pre).min(b.len() - pre);
    let sa: BTreeSet<usize> = ea.iter().map(|e| a.len() - e).filter(|d| *d <= post).collect();
    let sb: BTreeSet<usize> = eb.iter().map(|e| b.len() - e).filter(|d| *d <= post).collect();
    let common = if a.is_empty() || b.is_empty() { return Ok(()) } else { sa.intersection(&sb).max().copied().unwrap_or(0) };
    let ta: Vec<_> = sa.iter().filter(|d| **d <= common).collect();
    let tb: Vec<_> = sb.iter().filter(|d| **d <= common).collect();
    want!(ta == tb, "both files are cut {common} bytes before their end and equal from there on, but cut differently from there on");
    if common > 0 {
        i.hit("resynchronised");
    }
    if c.random && post > 0 {
        // Boundaries follow from the contents: after some chunks they're the same again.
        want!(post - common <= 16 << 20, "the last {post} bytes of two files of random data are the same, but only the last {common} are cut alike");
        i.add("resync-MiB", ((post - common) >> 20) as u64);
    }
    Ok(())
}

fn finish(a: &[u8], ca: &Cuts, b: &[u8], cb: &Cuts, c: &Case, i: &mut Info) -> R<()> {
    lossless("file", a, ca)?;
    lossless("edited file", b, cb)?;
    local(a, ca, b, cb, c, i)?;
    if a == b {
        want!(ca == cb, "a file of the same contents was cut differently");
        i.hit("same");
    }
    if c.random && a.len() > 12 << 20 {
        // "aiming for 1MiB"
        let mean = a.len() / ca.len();
        want!(mean > 600 * K && mean < 3000 * K, "{} bytes of random data were cut into {} chunks", a.len(), ca.len());
    }
    for (n, l) in [("buffered", a.len()), ("buffered", b.len())] {
        i.hit(if l >= MMAP { "mapped" } else { n });
    }
    i.add("chunks", (ca.len() + cb.len()) as u64);
    i.nontrivial = ca.len() > 1 || cb.len() > 1;
    i.note = format!("{} bytes in {} chunks, {} bytes in {}", a.len(), ca.len(), b.len(), cb.len());
    Ok(())
}

fn len(small: bool) -> BoxedStrategy<u32> {
    let near = |n: usize| (n as u32 - 3..n as u32 + 4).boxed();
    let top = if small { 14u32 << 20 } else { 28 << 20 };
    prop_oneof![
        1 => 0..64u32,
        2 => 0..MIN as u32 * 4,
        2 => prop_oneof![near(MIN), near(2 * MIN), near(MAX), near(MMAP), near(MAX + MIN), near(2 * MAX)],
        3 => (9u32 << 20)..(12u32 << 20),
        2 => 0..top,
    ]
    .boxed()
}
fn bulk(small: bool) -> BoxedStrategy<(Content, bool)> {
    let s = any::<u32>;
    prop_oneof![
        4 => (s(), len(small)).prop_map(|(s, n)| (Content::Rand(s, n), true)),
        1 => (any::<u8>(), len(small)).prop_map(|(b, n)| (Content::Fill(b, n), false)),
        1 => (s(), 1u32..70_000, len(small)).prop_map(|(s, p, n)| (Content::Period(s, p, n), false)),
        1 => (s(), s(), len(true), len(true)).prop_map(|(a, b, n, m)| (Content::Cat(vec![Content::Rand(a, n / 3), Content::Fill(b as u8, m / 2), Content::Rand(b, n / 3)]), false)),
    ]
    .boxed()
}
fn strat(small: bool) -> BoxedStrategy<Case> {
    let bit = prop_oneof![
        4 => any::<u32>().prop_flat_map(|s| (1u32..40).prop_map(move |n| Content::Rand(s, n))),
        1 => (any::<u32>(), 1u32..3_000_000).prop_map(|(s, n)| Content::Rand(s, n)),
        1 => Just(Content::Lit(String::new())),
    ];
    let del = prop_oneof![2 => Just(0u32), 3 => 0u32..40, 1 => 0u32..3_000_000];
    // Early ones tell the most.
    let at = prop_oneof![any::<u32>(), 0u32..1 << 30, Just(0u32)];
    let edit = prop_oneof![
        5 => (at, del, bit.clone()).prop_map(|(a, d, i)| Edit::At(a, d, i)),
        2 => bulk(true).prop_map(|(c, _)| Edit::Append(c)),
        1 => any::<u32>().prop_map(Edit::Truncate),
        2 => (any::<u32>(), any::<bool>()).prop_map(|(k, b)| Edit::Cut(k, b)),
        1 => Just(Edit::Same),
    ];
    (bulk(small), edit).prop_map(|((base, random), edit)| Case { base, edit, random }).boxed()
}

/// The same through the command line.
fn run_cli(c: &Case, env: &Env) -> R<Info> {
    let mut i = Info::default();
    let w = World::new(env, &Setup::plain())?;
    let file = |b: &[u8]| -> R<()> { Ok(std::fs::write(w.sb.p("src/f"), b)?) };
    let p = w.src("f");
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut backup = || -> R<(Cuts, BTreeMap<String, usize>)> {
        w.bp_ok(&["backup", "--allow-repeat", &p])?;
        let r = w.fsck()?;
        let id = r.snaps.keys().find(|k| !seen.contains(*k)).cloned().ok_or(Fail::V("no snapshot".into()))?;
        seen.insert(id.clone());
        let blobs = r.indexed_blobs();
        let lens: BTreeMap<String, usize> = blobs.iter().filter(|b| !b.1.0).map(|(k, b)| (k.clone(), b.1.len())).collect();
        let t = blobs.get(&r.snaps[&id].tree).ok_or(Fail::V("no tree".into()))?;
        let t = fsck::parse_tree(&t.1).map_err(Fail::V)?;
        let Some(fsck::TNode::File(ids)) = t.get("f").map(|n| &n.node) else {
            return Err(Fail::V("the file is not in the tree".into()));
        };
        let cuts = ids.iter().map(|i| (i.clone(), lens.get(i).copied().unwrap_or(0))).collect();
        Ok((cuts, lens))
    };
    let a = c.base.bytes();
    file(&a)?;
    let (ca, before) = backup()?;
    let b = apply_edit(&a, &c.edit, &ca);
    file(&b)?;
    let mtime = std::time::SystemTime::now() + std::time::Duration::from_secs(10);
    std::fs::File::options().write(true).open(w.sb.p("src/f"))?.set_modified(mtime)?;
    let (cb, after) = backup()?;
    finish(&a, &ca, &b, &cb, c, &mut i)?;
    // What's cut alike is stored once.
    want!(w.fsck()?.duplicates().is_empty(), "something was stored twice");
    let fresh = after.len() - before.len();
    let distinct: BTreeSet<&(String, usize)> = cb.iter().filter(|x| !ca.contains(x)).collect();
    want!(fresh == distinct.len(), "{fresh} chunks were added, but {} are new", distinct.len());
    Ok(i)
}

#[cfg(feature = "lib")]
fn run_lib(c: &Case, env: &Env) -> R<Info> {
    use std::sync::atomic::Ordering;
    let mut i = Info::default();
    let d = env.scratch.join(format!("c{}", env.next.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir(&d)?;
    let chunk = |name: &str, b: &[u8]| -> R<Cuts> {
        let p = d.join(name);
        std::fs::write(&p, b)?;
        let it = backpak::chunk::chunk_file(p.to_str().unwrap()).map_err(|e| Fail::V(format!("chunk_file: {e:#}")))?;
        let mut at = 0;
        let mut v = vec![];
        for x in it {
            let x: backpak::blob::Blob = x;
            want!(x.kind == backpak::blob::Type::Chunk, "a chunk isn't one");
            let l = x.bytes().len();
            want!(b.get(at..at + l) == Some(x.bytes()), "chunk at {at} doesn't hold the file's contents there");
            at += l;
            v.push((x.id.to_string(), l));
        }
        std::fs::remove_file(&p)?;
        Ok(v)
    };
    let go = |i: &mut Info| {
        let a = c.base.bytes();
        let ca = chunk("a", &a)?;
        let b = apply_edit(&a, &c.edit, &ca);
        let cb = chunk("b", &b)?;
        finish(&a, &ca, &b, &cb, c, i)
    };
    let r = go(&mut i);
    std::fs::remove_dir_all(&d)?;
    r.map(|_| i)
}

pub fn def() -> PropDef {
    #[allow(unused_mut)]
    let mut suites: Vec<Box<dyn AnySuite>> =
        vec![Box::new(Suite { name: "backup", quick: 50, thorough: 1500, threads: 8, strat: Box::new(|| strat(true)), run: Box::new(run_cli) })];
    #[cfg(feature = "lib")]
    suites.push(Box::new(Suite { name: "chunk_file", quick: 1000, thorough: 20_000, threads: 8, strat: Box::new(|| strat(false)), run: Box::new(run_lib) }));
    PropDef {
        suites,
        level: "exploration",
        rule: "one of the two files has several chunks",
        assumptions: vec![
            "the documented sizes: 512 kiB to 8 MiB, aiming for 1 MiB (random data: on average 600 to 3000 kiB)",
            "after an edit of random data the cuts are the same again within 16 MiB",
        ],
    }
}
