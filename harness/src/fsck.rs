//! An independent reader of backpak repositories, written from docs/src/formats.md.
//! It shares no code with backpak: its own CBOR walk (ciborium values), zstd and SHA-224.
use crate::fsm::{Ent, Flat, Kind, Time, join};
use ciborium::value::Value;
use sha2::{Digest, Sha224};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::Arc;

pub type Res<T> = Result<T, String>;
pub type Id = String;

pub fn b32(bytes: &[u8]) -> Id {
    const A: &[u8] = b"0123456789abcdefghijklmnopqrstuv";
    let mut out = String::new();
    let (mut acc, mut n) = (0u32, 0);
    for b in bytes {
        acc = (acc << 8) | *b as u32;
        n += 8;
        while n >= 5 {
            n -= 5;
            out.push(A[((acc >> n) & 31) as usize] as char);
            acc &= (1 << n) - 1;
        }
    }
    if n > 0 {
        out.push(A[((acc << (5 - n)) & 31) as usize] as char);
    }
    out
}
pub fn unb32(id: &str) -> Vec<u8> {
    let (mut out, mut acc, mut n) = (Vec::new(), 0u32, 0);
    for c in id.bytes() {
        let d = (c as char).to_digit(32).expect("base 32 digit");
        acc = ((acc << 5) | d) & 0xffff;
        n += 5;
        if n >= 8 {
            n -= 8;
            out.push((acc >> n) as u8);
        }
    }
    out
}
pub fn hash(bytes: &[u8]) -> Id {
    b32(&Sha224::digest(bytes))
}
pub fn empty_tree() -> Id {
    hash(&[0xa0])
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Entry {
    pub tree: bool,
    pub len: u64,
    pub id: Id,
}
#[derive(Clone, Debug)]
pub struct Pack {
    pub entries: Vec<Entry>,
    pub blobs: Vec<Arc<Vec<u8>>>,
    pub size: u64,
    /// compressed bytes of the blob stream
    pub stream: u64,
}
#[derive(Clone, Debug, Default)]
pub struct Index {
    pub supersedes: BTreeSet<Id>,
    pub packs: BTreeMap<Id, Vec<Entry>>,
    pub size: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub time: i128,
    pub tz: String,
    pub author: String,
    pub tags: BTreeSet<String>,
    pub paths: BTreeSet<String>,
    pub tree: Id,
    pub size: u64,
}
#[derive(Clone, Debug, Default)]
pub struct Repo {
    pub packs: BTreeMap<Id, Pack>,
    pub indexes: BTreeMap<Id, Index>,
    pub snaps: BTreeMap<Id, Snap>,
}

fn cbor(b: &[u8]) -> Res<Value> {
    let mut r = b;
    let v: Value = ciborium::from_reader(&mut r).map_err(|e| format!("bad CBOR: {e}"))?;
    if !r.is_empty() {
        return Err(format!("{} stray bytes after the CBOR value", r.len()));
    }
    Ok(v)
}
fn id_of(v: &Value) -> Res<Id> {
    match v {
        Value::Bytes(b) if b.len() == 28 => Ok(b32(b)),
        _ => Err(format!("expected a 28 byte ID, found {v:?}")),
    }
}
fn text(v: &Value) -> Res<String> {
    v.as_text().map(String::from).ok_or_else(|| format!("expected text, found {v:?}"))
}
fn int(v: &Value) -> Res<i128> {
    match v {
        Value::Integer(i) => Ok((*i).into()),
        Value::Tag(2, b) => Ok(b.as_bytes().ok_or("bad bignum")?.iter().fold(0i128, |a, x| (a << 8) | *x as i128)),
        Value::Tag(3, b) => Ok(-1 - b.as_bytes().ok_or("bad bignum")?.iter().fold(0i128, |a, x| (a << 8) | *x as i128)),
        _ => Err(format!("expected an integer, found {v:?}")),
    }
}
fn map(v: &Value) -> Res<BTreeMap<String, &Value>> {
    let mut m = BTreeMap::new();
    for (k, x) in v.as_map().ok_or_else(|| format!("expected a map, found {v:?}"))? {
        if m.insert(text(k)?, x).is_some() {
            return Err(format!("duplicate key {k:?}"));
        }
    }
    Ok(m)
}
fn get<'a>(m: &BTreeMap<String, &'a Value>, k: &str) -> Res<&'a Value> {
    m.get(k).copied().ok_or_else(|| format!("missing key {k:?}"))
}
fn manifest(v: &Value) -> Res<Vec<Entry>> {
    v.as_array()
        .ok_or("manifest is not an array")?
        .iter()
        .map(|e| {
            let m = map(e)?;
            if m.len() != 3 {
                return Err("manifest entry with other than 3 fields".to_string());
            }
            let tree = match text(get(&m, "type")?)?.as_str() {
                "tree" => true,
                "chunk" => false,
                o => return Err(format!("unknown blob type {o}")),
            };
            Ok(Entry { tree, len: int(get(&m, "length")?)? as u64, id: id_of(get(&m, "id")?)? })
        })
        .collect()
}
fn unzstd(b: &[u8]) -> Res<Vec<u8>> {
    zstd::stream::decode_all(b).map_err(|e| format!("zstd: {e}"))
}

pub fn parse_pack(b: &[u8], want: &str) -> Res<Pack> {
    if !b.starts_with(b"MKBAKPAK1") {
        return Err("bad pack magic".into());
    }
    if b.len() < 13 {
        return Err("pack too short".into());
    }
    let n = u32::from_be_bytes(b[b.len() - 4..].try_into().unwrap()) as usize;
    if n + 13 > b.len() {
        return Err("manifest length beyond the pack".into());
    }
    let mz = &b[b.len() - 4 - n..b.len() - 4];
    let mc = unzstd(mz)?;
    let id = hash(&mc);
    if id != want {
        return Err(format!("manifest hashes to {id}"));
    }
    let entries = manifest(&cbor(&mc)?)?;
    let sz = &b[9..b.len() - 4 - n];
    let data = unzstd(sz)?;
    let mut at = 0usize;
    let mut blobs = vec![];
    for e in &entries {
        let end = at + e.len as usize;
        if end > data.len() {
            return Err(format!("blob {} runs past the stream", e.id));
        }
        let x = &data[at..end];
        let h = hash(x);
        if h != e.id {
            return Err(format!("blob {} hashes to {h}", e.id));
        }
        blobs.push(Arc::new(x.to_vec()));
        at = end;
    }
    if at != data.len() {
        return Err(format!("{} stray bytes in the blob stream", data.len() - at));
    }
    Ok(Pack { entries, blobs, size: b.len() as u64, stream: sz.len() as u64 })
}
pub fn parse_index(b: &[u8], want: &str) -> Res<Index> {
    let r = b.strip_prefix(b"MKBAKIDX1").ok_or("bad index magic")?;
    let c = unzstd(r)?;
    let id = hash(&c);
    if !want.is_empty() && id != want {
        return Err(format!("contents hash to {id}"));
    }
    let v = cbor(&c)?;
    let m = map(&v)?;
    let supersedes = get(&m, "supersedes")?.as_array().ok_or("supersedes")?.iter().map(id_of).collect::<Res<_>>()?;
    let mut packs = BTreeMap::new();
    for (k, x) in get(&m, "packs")?.as_map().ok_or("packs")? {
        packs.insert(id_of(k)?, manifest(x)?);
    }
    Ok(Index { supersedes, packs, size: b.len() as u64 })
}
pub fn parse_snap(b: &[u8], want: &str) -> Res<Snap> {
    let (r, old) = match b.strip_prefix(b"MKBAKSNP2") {
        Some(r) => (r, false),
        // (Only what a check itself puts there.)
        None => (b.strip_prefix(b"MKBAKSNP1").ok_or("bad snapshot magic")?, true),
    };
    let id = hash(r);
    if id != want {
        return Err(format!("contents hash to {id}"));
    }
    let v = cbor(r)?;
    let m = map(&v)?;
    let set = |v: &Value| -> Res<BTreeSet<String>> { v.as_array().ok_or("not an array")?.iter().map(text).collect() };
    let (time, tz) = if old {
        let t = text(get(&m, "time")?)?;
        let z: jiff::Zoned = t.parse().or_else(|_| jiff::Zoned::strptime("%FT%H:%M:%S%.f%:z", &t)).map_err(|e| format!("time {t:?}: {e}"))?;
        let tz = jiff::fmt::temporal::DateTimePrinter::new().time_zone_to_string(z.time_zone()).map_err(|e| e.to_string())?;
        (z.timestamp().as_nanosecond(), tz)
    } else {
        (int(get(&m, "time")?)?, text(get(&m, "tz")?)?)
    };
    Ok(Snap {
        time,
        tz,
        author: text(get(&m, "author")?)?,
        tags: m.get("tags").map(|v| set(v)).transpose()?.unwrap_or_default(),
        paths: set(get(&m, "paths")?)?,
        tree: id_of(get(&m, "tree")?)?,
        size: b.len() as u64,
    })
}

#[derive(Clone, Debug)]
pub enum TNode {
    File(Vec<Id>),
    Dir(Id),
    Link(String),
}
#[derive(Clone, Debug)]
pub struct TEnt {
    pub node: TNode,
    pub mode: u32,
    pub size: Option<u64>,
    pub mtime: i128,
    pub atime: i128,
    pub uid: u32,
    pub gid: u32,
}
pub fn parse_tree(b: &[u8]) -> Res<BTreeMap<String, TEnt>> {
    let v = cbor(b)?;
    let mut out = BTreeMap::new();
    for (name, n) in map(&v)? {
        let m = map(n)?;
        let node = if let Some(c) = m.get("chunks") {
            TNode::File(c.as_array().ok_or("chunks")?.iter().map(id_of).collect::<Res<_>>()?)
        } else if let Some(t) = m.get("tree") {
            TNode::Dir(id_of(t)?)
        } else if let Some(l) = m.get("symlink") {
            TNode::Link(text(l)?)
        } else {
            return Err(format!("node {name:?} of no known kind"));
        };
        let md = map(get(&m, "metadata")?)?;
        if text(get(&md, "type")?)? != "posix" {
            return Err("metadata type".into());
        }
        let mode = int(get(&md, "mode")?)? as u32;
        let ok = match node {
            TNode::File(_) => mode & 0o170000 == 0o100000,
            TNode::Dir(_) => mode & 0o170000 == 0o040000,
            TNode::Link(_) => mode & 0o170000 == 0o120000,
        };
        if !ok {
            return Err(format!("node {name:?} has mode {mode:o}"));
        }
        out.insert(
            name,
            TEnt {
                node,
                mode,
                size: md.get("size").map(|v| int(v)).transpose()?.map(|x| x as u64),
                mtime: int(get(&md, "mtime")?)?,
                atime: int(get(&md, "atime")?)?,
                uid: int(get(&md, "uid")?)? as u32,
                gid: int(get(&md, "gid")?)? as u32,
            },
        );
    }
    Ok(out)
}

pub fn ns(t: i128) -> Time {
    (t.div_euclid(1_000_000_000) as i64, t.rem_euclid(1_000_000_000) as u32)
}

fn files(dir: &Path, ext: &str) -> Res<Vec<(Id, Vec<u8>)>> {
    let mut v = vec![];
    for e in std::fs::read_dir(dir).map_err(|e| format!("{}: {e}", dir.display()))? {
        let e = e.map_err(|e| e.to_string())?;
        let n = e.file_name().to_string_lossy().into_owned();
        let Some(id) = n.strip_suffix(ext) else {
            if n.ends_with(".part") {
                continue; // an interrupted copy; ignored by design
            }
            return Err(format!("stray file {n} in {}", dir.display()));
        };
        v.push((id.to_string(), std::fs::read(e.path()).map_err(|e| e.to_string())?));
    }
    Ok(v)
}

/// Parse everything; any structural damage is an error.
pub fn load(dir: &Path) -> Res<Repo> {
    load_with(dir, &|b| Ok(b))
}
pub fn load_with(dir: &Path, unfilter: &dyn Fn(Vec<u8>) -> Res<Vec<u8>>) -> Res<Repo> {
    let mut r = Repo::default();
    for (id, b) in files(&dir.join("packs"), ".pack")? {
        let b = unfilter(b).map_err(|e| format!("pack {id}: {e}"))?;
        r.packs.insert(id.clone(), parse_pack(&b, &id).map_err(|e| format!("pack {id}: {e}"))?);
    }
    for (id, b) in files(&dir.join("indexes"), ".index")? {
        let b = unfilter(b).map_err(|e| format!("index {id}: {e}"))?;
        r.indexes.insert(id.clone(), parse_index(&b, &id).map_err(|e| format!("index {id}: {e}"))?);
    }
    for (id, b) in files(&dir.join("snapshots"), ".snapshot")? {
        let b = unfilter(b).map_err(|e| format!("snapshot {id}: {e}"))?;
        r.snaps.insert(id.clone(), parse_snap(&b, &id).map_err(|e| format!("snapshot {id}: {e}"))?);
    }
    Ok(r)
}

impl Repo {
    /// Packs listed by the indexes that are not superseded.
    pub fn master(&self) -> BTreeMap<Id, Vec<Entry>> {
        let dead: BTreeSet<&Id> = self.indexes.values().flat_map(|i| i.supersedes.iter()).collect();
        let mut m = BTreeMap::new();
        for (id, i) in &self.indexes {
            if !dead.contains(id) {
                m.extend(i.packs.clone());
            }
        }
        m
    }
    pub fn blob(&self, id: &str) -> Option<Arc<Vec<u8>>> {
        for p in self.packs.values() {
            for (e, b) in p.entries.iter().zip(&p.blobs) {
                if e.id == id {
                    return Some(b.clone());
                }
            }
        }
        None
    }
    /// id -> (tree?, data) through the live indexes only.
    pub fn indexed_blobs(&self) -> BTreeMap<Id, (bool, Arc<Vec<u8>>)> {
        let mut m = BTreeMap::new();
        for pid in self.master().keys() {
            if let Some(p) = self.packs.get(pid) {
                for (e, b) in p.entries.iter().zip(&p.blobs) {
                    m.insert(e.id.clone(), (e.tree, b.clone()));
                }
            }
        }
        m
    }
    pub fn all_blobs(&self) -> Vec<(Id, Entry)> {
        self.packs.iter().flat_map(|(p, x)| x.entries.iter().map(move |e| (p.clone(), e.clone()))).collect()
    }
    /// Number of times each blob is stored, over all packs.
    pub fn duplicates(&self) -> Vec<Id> {
        let mut n: BTreeMap<Id, u32> = BTreeMap::new();
        for (_, e) in self.all_blobs() {
            *n.entry(e.id).or_default() += 1;
        }
        n.into_iter().filter(|(_, c)| *c > 1).map(|(i, _)| i).collect()
    }
    /// Consistency of indexes with packs: every listed pack present with this manifest.
    pub fn check_indexes(&self) -> Vec<String> {
        let mut d = vec![];
        for (pid, m) in self.master() {
            match self.packs.get(&pid) {
                None => d.push(format!("index lists pack {pid}, which does not exist")),
                Some(p) if p.entries != m => d.push(format!("index and pack {pid} disagree on the manifest")),
                _ => {}
            }
        }
        d
    }
    /// Walk a snapshot through the live indexes; all blobs it reaches (trees, chunks).
    pub fn reach(&self, tree: &str, blobs: &BTreeMap<Id, (bool, Arc<Vec<u8>>)>, out: &mut BTreeSet<Id>) -> Res<()> {
        if !out.insert(tree.to_string()) {
            return Ok(());
        }
        let empty = Arc::new(vec![0xa0u8]);
        let data = match blobs.get(tree).filter(|_| tree != empty_tree()) {
            // (Blobs are deduplicated by ID alone, so either kind will do.)
            Some((_, d)) => d,
            None if tree == empty_tree() => &empty,
            None => return Err(format!("tree {tree} is in no indexed pack")),
        };
        for (n, e) in parse_tree(data)? {
            match e.node {
                TNode::Dir(t) => self.reach(&t, blobs, out)?,
                TNode::File(cs) => {
                    let mut tot = 0;
                    for c in cs {
                        let Some((_, d)) = blobs.get(&c) else { return Err(format!("chunk {c} of {n:?} is in no indexed pack")) };
                        tot += d.len() as u64;
                        out.insert(c);
                    }
                    if e.size != Some(tot) {
                        return Err(format!("{n:?}: recorded size {:?} but chunks hold {tot}", e.size));
                    }
                }
                _ => {}
            }
        }
        Ok(())
    }
    /// The tree as stored, read independently: top-level names included.
    pub fn flat(&self, tree: &str, blobs: &BTreeMap<Id, (bool, Arc<Vec<u8>>)>) -> Res<Flat> {
        let mut f = Flat::new();
        self.flat_rec(tree, "", blobs, &mut f)?;
        Ok(f)
    }
    fn flat_rec(&self, tree: &str, at: &str, blobs: &BTreeMap<Id, (bool, Arc<Vec<u8>>)>, f: &mut Flat) -> Res<()> {
        let empty = Arc::new(vec![0xa0u8]);
        let data = match blobs.get(tree).filter(|_| tree != empty_tree()) {
            Some((_, d)) => d,
            None if tree == empty_tree() => &empty,
            None => return Err(format!("tree {tree} is in no indexed pack")),
        };
        for (n, e) in parse_tree(data)? {
            let p = join(at, &n);
            let kind = match &e.node {
                TNode::Dir(_) => Kind::D,
                TNode::Link(t) => Kind::L(t.clone()),
                TNode::File(cs) => {
                    let mut v = vec![];
                    for c in cs {
                        v.extend_from_slice(&blobs.get(c).ok_or_else(|| format!("chunk {c} of {p:?} is in no indexed pack"))?.1);
                    }
                    Kind::F(Arc::new(v))
                }
            };
            f.insert(p.clone(), Ent { kind, mode: e.mode & 0o7777, t: ns(e.mtime), atime: ns(e.atime) });
            if let TNode::Dir(t) = &e.node {
                self.flat_rec(t, &p, blobs, f)?;
            }
        }
        Ok(())
    }
    pub fn reachable(&self) -> Res<BTreeSet<Id>> {
        let blobs = self.indexed_blobs();
        let mut s = BTreeSet::new();
        for (id, sn) in &self.snaps {
            self.reach(&sn.tree, &blobs, &mut s).map_err(|e| format!("snapshot {id}: {e}"))?;
        }
        Ok(s)
    }
    /// Everything a sound repository must satisfy.
    pub fn sound(&self) -> Res<()> {
        let d = self.check_indexes();
        if !d.is_empty() {
            return Err(d.join("; "));
        }
        self.reachable()?;
        Ok(())
    }
}
