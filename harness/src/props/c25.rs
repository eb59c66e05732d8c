//! C25: packs fill to the configured size and hold what was sent.
use super::PropDef;
use crate::cli::*;
use crate::engine::*;
use crate::fsck;
use crate::fsm::*;
use crate::hist::{self, *};
use crate::trace::*;
use crate::want;
use crate::world::*;
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    hist: Hist,
    /// Pack size.
    size: u32,
    /// Processor cores the commands see.
    cpus: u8,
    last: u32,
}

/// The sizes of the packs made by one command: of each kind only the last may be below the limit.
fn filled(what: &str, before: &fsck::Repo, after: &fsck::Repo, limit: u64, i: &mut Info) -> R<()> {
    let new: Vec<(&String, &fsck::Pack)> = after.packs.iter().filter(|p| !before.packs.contains_key(p.0)).collect();
    let kinds: BTreeSet<bool> = new.iter().flat_map(|p| p.1.entries.iter().map(|e| e.tree)).collect();
    let small: Vec<String> = new.iter().filter(|p| p.1.size < limit).map(|p| format!("{} ({} bytes)", p.0, p.1.size)).collect();
    want!(small.len() <= kinds.len(), "{what} with a pack size of {limit} made {} packs, {} of them smaller: {small:?}", new.len(), small.len());
    for (id, p) in &new {
        want!(!p.entries.is_empty(), "pack {id} is empty");
        // (Having compressed well so far, it may go on without looking at its size for longer.)
        let raw: u64 = p.entries.iter().map(|e| e.len).sum();
        let most: u64 = p.entries.iter().map(|e| e.len).max().unwrap_or(0);
        let room = if raw <= p.stream + p.stream / 50 { limit * 2 + 2 * most + 4000 } else { u64::MAX };
        want!(p.stream <= room, "{what} with a pack size of {limit} made a pack of {} bytes (biggest blob: {most})", p.stream);
    }
    i.add("packs", new.len() as u64);
    i.add("full", (new.len() - small.len()) as u64);
    Ok(())
}

/// Was everything on the backend before what refers to it?
fn ordered(t: &Trace, r: &fsck::Repo, before: &fsck::Repo) -> R<()> {
    let done: BTreeMap<&str, usize> = t
        .events
        .iter()
        .enumerate()
        .filter(|(_, e)| !e.starts_with("fsync"))
        .filter_map(|(n, e)| {
            let p = e.split_once(' ')?.1;
            (p.contains("/repo/") || p.contains("/alt")).then_some(())?;
            Some((p.rsplit('/').next()?, n))
        })
        .collect();
    let at = |id: &str, ext: &str| done.get(format!("{id}.{ext}").as_str()).copied();
    for (id, x) in r.indexes.iter().filter(|x| !before.indexes.contains_key(x.0)) {
        let Some(n) = at(id, "index") else { continue };
        for p in x.packs.keys().filter(|p| !before.packs.contains_key(*p)) {
            want!(at(p, "pack").is_some_and(|m| m < n), "index {id} was put on the backend before pack {p}");
        }
        for s in r.snaps.keys().filter(|s| !before.snaps.contains_key(*s)) {
            if let Some(m) = at(s, "snapshot") {
                want!(n < m, "snapshot {s} was put on the backend before index {id}");
            }
        }
    }
    Ok(())
}

fn run(c: &Case, env: &Env) -> R<Info> {
    let mut i = Info::default();
    let mut h = c.hist.clone();
    h.setup.pack = Some(c.size);
    let mut w = hist::start(&h, env)?;
    let mut past = Past::new();
    let cores = w.sb.cores(c.cpus)?;
    let limit = c.size as u64;
    let rec = |o: &Op| matches!(o, Op::Backup(_) | Op::Prune);
    for o in &h.ops {
        let before = w.fsck()?;
        let had = w.sb.snapshots("repo")?;
        let fake = cores && matches!(o, Op::Backup(_));
        if fake {
            // (What step() does, but on a machine of so many cores.)
            let Op::Backup(m) = o else { unreachable!() };
            let names = select(&NAMES, *m);
            let r = w.repo_arg();
            let paths: Vec<String> = names.iter().map(|n| w.src(n)).collect();
            let mut a = vec!["-r", &r, "backup", "--allow-empty", "--"];
            a.extend(paths.iter().map(|s| s.as_str()));
            let mut cmd = w.sb.command("cwd", &a);
            w.sb.with_cores(&mut cmd);
            let o = run_command(cmd)?;
            want!(o.ok(), "on {} cores: {}", c.cpus, o.describe());
            if w.adopt(&names, &had)?.is_some() {
                past.all.push(w.snaps.last().unwrap().clone());
            }
            past.last = names;
            i.hit(&format!("cores-{}", c.cpus));
        } else {
            hist::step(&mut w, &mut past, o, &mut i)?;
        }
        let after = w.fsck()?;
        after.sound().map_err(|e| Fail::V(format!("repository is not sound: {e}")))?;
        if rec(o) {
            filled(if matches!(o, Op::Prune) { "prune" } else { "backup" }, &before, &after, limit, &mut i)?;
            let d = after.duplicates();
            want!(d.is_empty(), "blobs {d:?} were packed twice");
        }
    }
    // Once more, watching what happens when.
    let names = select(&NAMES, c.last);
    let before = w.fsck()?;
    let had = w.sb.snapshots("repo")?;
    let (r, paths) = (w.repo_arg(), names.iter().map(|n| w.src(n)).collect::<Vec<_>>());
    let mut a = vec!["-r", &r, "backup", "--allow-empty", "--"];
    a.extend(paths.iter().map(|s| s.as_str()));
    let (o, t) = w.sb.traced("cwd", &a, &Spec { under: vec!["/".into()], ..Spec::default() })?;
    want!(o.ok(), "{}", o.describe());
    w.adopt(&names, &had)?;
    let after = w.fsck()?;
    ordered(&t, &after, &before)?;
    filled("backup", &before, &after, limit, &mut i)?;
    w.deep_check()?;
    i.nontrivial = i.labels.get("packs").is_some_and(|n| *n > 2);
    i.note = format!("{} packs with a limit of {limit}", after.packs.len());
    Ok(i)
}

fn strat() -> BoxedStrategy<Case> {
    let cfg = GenCfg { size: 14, ..GenCfg::default() };
    let ops = W { edit: 5, backup: 6, repeat: 0, forget: 2, prune: 2, rebuild: 1, revert: 1 };
    let size = prop_oneof![1 => 1u32..200, 4 => 200u32..5_000, 2 => 5_000u32..60_000, 1 => Just(100_000_000u32)];
    (hist(cfg, ops, 1..7), size, prop_oneof![2 => 1u8..4, 1 => 4u8..20], 1u32..4).prop_map(|(hist, size, cpus, last)| Case { hist, size, cpus, last }).boxed()
}

/// The packer of the library on its own.
#[cfg(feature = "lib")]
mod packer {
    use super::*;
    use backpak::blob::{Blob, Contents, Type};
    use backpak::hashing::ObjectId;
    use std::io::{Read, Seek, SeekFrom};
    use std::sync::atomic::{AtomicU64, Ordering};
    use std::sync::mpsc::sync_channel;

    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct Case {
        pub target: u64,
        /// Content and how often something like it is sent.
        pub blobs: Vec<(Content, bool, u8)>,
        /// Nothing in it compresses.
        pub random: bool,
        pub slow: u8,
    }

    pub fn run(c: &Case, env: &Env) -> R<Info> {
        let d = env.scratch.join(format!("k{}", env.next.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir(&d)?;
        // A working directory of this thread's (and those it starts) own.
        let r = std::thread::scope(|s| {
            s.spawn(|| {
                if unsafe { libc::unshare(libc::CLONE_FS) } != 0 {
                    return Err(Fail::E("unshare".into()));
                }
                std::env::set_current_dir(&d)?;
                go(c, &d)
            })
            .join()
            .unwrap_or_else(|e| Err(Fail::V(format!("packing panicked: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))))
        });
        std::fs::remove_dir_all(&d)?;
        r
    }

    enum Got {
        File(String, std::fs::File),
        Meta(String, Vec<(bool, u64, String)>),
        End,
    }

    fn go(c: &Case, d: &std::path::Path) -> R<Info> {
        let mut i = Info::default();
        let mut sent: Vec<(bool, String, Vec<u8>)> = vec![];
        let mut seen = BTreeSet::new();
        for (content, tree, n) in &c.blobs {
            for k in 0..*n as u32 {
                let mut b = content.bytes();
                if k > 0 {
                    let mut salt = vec![];
                    let l = if c.random { b.len() } else { 4.min(b.len()) };
                    prng(k as u64 * 7919 + b.len() as u64, &mut salt, l);
                    b[..l].copy_from_slice(&salt);
                }
                // (Empty ones are never sent, and nothing is sent twice.)
                let id = fsck::hash(&b);
                if !b.is_empty() && seen.insert(id.clone()) {
                    sent.push((*tree, id, b));
                }
            }
        }
        let (btx, brx) = sync_channel(0);
        let (mtx, mrx) = sync_channel(0);
        let (utx, urx) = sync_channel::<(String, std::fs::File)>(0);
        let (raw, comp) = (AtomicU64::new(0), AtomicU64::new(0));
        let target = serde_json::from_value(serde_json::json!(format!("{} B", c.target))).map_err(|e| Fail::E(format!("size: {e}")))?;
        let mut got: Vec<Got> = vec![];
        let r = std::thread::scope(|s| {
            let (raw, comp) = (&raw, &comp);
            let p = s.spawn(move || backpak::pack::pack(target, brx, mtx, utx, raw, comp).map_err(|e| format!("{e:#}")));
            let sent = &sent;
            s.spawn(move || {
                for (tree, _, b) in sent {
                    let x = Blob { contents: Contents::Buffer(b.clone()), id: ObjectId::hash(b), kind: if *tree { Type::Tree } else { Type::Chunk } };
                    if btx.send(x).is_err() {
                        break;
                    }
                }
            });
            // What arrives in which order.
            let (mut m, mut u) = (true, true);
            while m || u {
                let mut none = true;
                // (A pack's metadata first: would it come before the pack?)
                match mrx.try_recv() {
                    Ok(x) => {
                        let x: backpak::pack::PackMetadata = x;
                        got.push(Got::Meta(x.id.to_string(), x.manifest.iter().map(|e| (e.blob_type == Type::Tree, e.length as u64, e.id.to_string())).collect()));
                        none = false;
                    }
                    Err(std::sync::mpsc::TryRecvError::Disconnected) => m = false,
                    _ => {}
                }
                match urx.try_recv() {
                    Ok((n, f)) => {
                        if c.slow > 0 {
                            std::thread::sleep(std::time::Duration::from_micros(c.slow as u64 * 10));
                        }
                        got.push(Got::File(n, f));
                        none = false;
                    }
                    Err(std::sync::mpsc::TryRecvError::Disconnected) => u = false,
                    _ => {}
                }
                if none {
                    std::thread::sleep(std::time::Duration::from_micros(50));
                }
            }
            p.join().unwrap_or(Err("panic".into()))
        });
        r.map_err(|e| Fail::V(format!("packing failed: {e}")))?;
        got.push(Got::End);
        let total: u64 = sent.iter().map(|s| s.2.len() as u64).sum();
        want!(raw.load(Ordering::SeqCst) == total, "{total} bytes were sent, {} are said to be packed", raw.load(Ordering::SeqCst));
        let mut files: BTreeMap<String, std::fs::File> = BTreeMap::new();
        let mut at = 0;
        let mut packs = vec![];
        for g in got {
            match g {
                Got::File(n, f) => {
                    want!(files.insert(n.clone(), f).is_none(), "{n} was uploaded twice");
                }
                Got::Meta(id, m) => {
                    let Some(mut f) = files.remove(&format!("{id}.pack")) else {
                        return Err(Fail::V(format!("pack {id} was indexed before it was uploaded")));
                    };
                    let (mut b, mut b2) = (vec![], vec![]);
                    f.seek(SeekFrom::Start(0))?;
                    f.read_to_end(&mut b)?;
                    std::fs::File::open(d.join(format!("{id}.pack")))?.read_to_end(&mut b2)?;
                    want!(b == b2, "the file of pack {id} is not the one that was sent on");
                    let p = fsck::parse_pack(&b, &id).map_err(|e| Fail::V(format!("pack {id}: {e}")))?;
                    let pm: Vec<_> = p.entries.iter().map(|e| (e.tree, e.len, e.id.clone())).collect();
                    want!(pm == m, "pack {id} holds another manifest than was sent on");
                    want!(!m.is_empty(), "pack {id} is empty");
                    for (k, e) in m.iter().enumerate() {
                        let Some(s) = sent.get(at) else {
                            return Err(Fail::V("more was packed than was sent".into()));
                        };
                        want!(e.2 == s.1 && e.0 == s.0 && *p.blobs[k] == s.2, "blob {k} of pack {id} is not the {at}th that was sent");
                        at += 1;
                    }
                    // Any of them can be had on its own.
                    let man: Vec<backpak::pack::PackManifestEntry> = m
                        .iter()
                        .map(|e| backpak::pack::PackManifestEntry { blob_type: if e.0 { Type::Tree } else { Type::Chunk }, length: e.1 as u32, id: e.2.parse().unwrap() })
                        .collect();
                    let k = at % m.len();
                    let (e, x) = backpak::pack::extract_blob(&mut std::io::Cursor::new(&b), &man[k].id, &man).map_err(|e| Fail::V(format!("extracting blob {k} of {}: {e:#}", m.len())))?;
                    want!(e == man[k] && x == *p.blobs[k], "extracting blob {k} of {} gives another", m.len());
                    let n = AtomicU64::new(0);
                    backpak::pack::verify(&mut std::io::Cursor::new(&b), &man, &n).map_err(|e| Fail::V(format!("verifying a sound pack: {e:#}")))?;
                    packs.push(p);
                }
                Got::End => want!(files.is_empty(), "uploaded but never indexed: {:?}", files.keys()),
            }
        }
        want!(at == sent.len(), "{} blobs were sent, {at} packed", sent.len());
        for (k, p) in packs.iter().enumerate() {
            let lens: Vec<u64> = p.entries.iter().map(|e| e.len).collect();
            want!(k + 1 == packs.len() || p.size >= c.target, "pack {k} of {} was closed with {} bytes, the limit being {}", packs.len(), p.size, c.target);
            if c.random {
                let before: u64 = lens[..lens.len() - 1].iter().sum();
                want!(before <= c.target + c.target / 50 + 100, "a pack got another blob when {before} incompressible bytes were in it, the limit being {}", c.target);
            }
        }
        let left: Vec<String> = std::fs::read_dir(d)?.map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).filter(|n| !n.ends_with(".pack") || n.starts_with("temp")).collect();
        want!(left.is_empty(), "files are left over: {left:?}");
        i.nontrivial = packs.len() > 1;
        i.hit(if c.random { "random" } else { "mixed" });
        i.add("packs", packs.len() as u64);
        i.add("blobs", sent.len() as u64);
        i.note = format!("{} blobs, {total} bytes, in {} packs with a limit of {}", sent.len(), packs.len(), c.target);
        Ok(i)
    }

    pub fn strat() -> BoxedStrategy<Case> {
        let len = || prop_oneof![4 => 1u32..300, 4 => 300u32..20_000, 2 => 20_000u32..400_000, 1 => 400_000u32..3_000_000];
        let rnd = || (any::<u32>(), len()).prop_map(|(s, n)| Content::Rand(s, n));
        let mixed = prop_oneof![
            3 => rnd().boxed(),
            2 => (any::<u8>(), len()).prop_map(|(b, n)| Content::Fill(b, n)).boxed(),
            2 => (any::<u32>(), 1u32..3000, len()).prop_map(|(s, p, n)| Content::Period(s, p, n)).boxed(),
        ];
        let n = || prop_oneof![3 => Just(1u8), 2 => 2u8..8, 1 => 8u8..40];
        let target = prop_oneof![1 => 1u64..300, 3 => 300u64..10_000, 3 => 10_000u64..1_000_000, 1 => 1_000_000u64..8_000_000, 1 => Just(100_000_000u64)];
        let seqs = prop_oneof![
            1 => (prop::collection::vec((rnd(), any::<bool>(), n()), 0..12), Just(true)),
            1 => (prop::collection::vec((mixed, any::<bool>(), n()), 0..12), Just(false)),
        ];
        (target, seqs, prop_oneof![3 => Just(0u8), 1 => any::<u8>()])
            .prop_map(|(target, (blobs, random), slow)| {
                // (Keep it to some 20 MB.)
                let mut room = 20_000_000u64;
                let blobs = blobs
                    .into_iter()
                    .map(|(c, t, n)| {
                        let l = match &c {
                            Content::Rand(_, n) | Content::Fill(_, n) | Content::Period(_, _, n) => *n as u64,
                            _ => 1,
                        };
                        let n = (n as u64).min(room / l.max(1)).max(1);
                        room = room.saturating_sub(n * l);
                        (c, t, n as u8)
                    })
                    .collect();
                Case { target, blobs, random, slow }
            })
            .boxed()
    }
}

pub fn def() -> PropDef {
    #[allow(unused_mut)]
    let mut suites: Vec<Box<dyn AnySuite>> =
        vec![Box::new(Suite { name: "pipeline", quick: 1500, thorough: 10_000, threads: 8, strat: Box::new(strat), run: Box::new(run) })];
    #[cfg(feature = "lib")]
    suites.push(Box::new(Suite { name: "packer", quick: 3000, thorough: 40_000, threads: 8, strat: Box::new(packer::strat), run: Box::new(packer::run) }));
    PropDef {
        suites,
        level: "exploration",
        rule: "pipeline: more than two packs were made; packer: more than one",
        assumptions: vec![
            "blobs are not empty, and none is sent twice (as the commands see to)",
            "how far a pack may exceed the limit is tested for data that hardly compresses only",
        ],
    }
}
