//! Damage done to stored objects.
use crate::engine::*;
use crate::fsck;
use crate::world::*;
use ciborium::value::Value;
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};
use std::path::PathBuf;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum What {
    Pack,
    Index,
    Snapshot,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum How {
    Remove,
    Truncate(u32),
    Empty,
    Flip(u32, u8),
    Zero(u32, u16),
    Insert(u32, Vec<u8>),
    Cut(u32, u16),
    Append(Vec<u8>),
    /// Exchange with another object of the kind.
    Swap(u32),
    /// Overwrite with another object of the kind.
    Over(u32),
    /// Well-formed, but its contents are not what they were: what to change, and where.
    Forge(u8, u32, u32),
    /// The same, stored under the name that fits the new contents (indexes).
    Renamed(u8, u32, u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Damage {
    pub what: What,
    pub which: u32,
    pub how: How,
}

pub fn damage() -> BoxedStrategy<Damage> {
    let p = any::<u32>;
    let bytes = || prop::collection::vec(any::<u8>(), 1..20);
    let how = prop_oneof![
        2 => Just(How::Remove),
        2 => p().prop_map(How::Truncate),
        1 => Just(How::Empty),
        6 => (p(), any::<u8>()).prop_map(|(a, b)| How::Flip(a, b)),
        1 => (p(), 1u16..40).prop_map(|(a, b)| How::Zero(a, b)),
        1 => (p(), bytes()).prop_map(|(a, b)| How::Insert(a, b)),
        1 => (p(), 1u16..40).prop_map(|(a, b)| How::Cut(a, b)),
        1 => bytes().prop_map(How::Append),
        2 => p().prop_map(How::Swap),
        1 => p().prop_map(How::Over),
        5 => (any::<u8>(), p(), p()).prop_map(|(a, b, c)| How::Forge(a, b, c)),
        2 => (any::<u8>(), p(), p()).prop_map(|(a, b, c)| How::Renamed(a, b, c)),
    ];
    (prop_oneof![5 => Just(What::Pack), 3 => Just(What::Index), 2 => Just(What::Snapshot)], p(), how)
        .prop_map(|(what, which, how)| Damage { what, which, how })
        .boxed()
}

fn filter(b: Vec<u8>, be: &Backend) -> Vec<u8> {
    if *be == Backend::Filter { b.into_iter().map(|x| x.wrapping_add(1)).collect() } else { b }
}
fn unfilter(b: Vec<u8>, be: &Backend) -> Vec<u8> {
    if *be == Backend::Filter { crate::world::unfilter(b).unwrap() } else { b }
}
fn enc(v: &Value) -> Vec<u8> {
    let mut o = vec![];
    ciborium::into_writer(v, &mut o).unwrap();
    o
}
fn z(b: &[u8]) -> Vec<u8> {
    zstd::stream::encode_all(b, 1).unwrap()
}

/// All IDs (28 byte strings) and small integers of a CBOR value.
fn walk<'a>(v: &'a mut Value, out: &mut Vec<&'a mut Value>) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| walk(x, out)),
        Value::Map(m) => m.iter_mut().for_each(|(k, x)| {
            walk(k, out);
            walk(x, out)
        }),
        _ => out.push(v),
    }
}
/// Change something of a CBOR document.
fn tamper(v: &mut Value, kind: u8, a: u32, b: u32) {
    // Array surgery?
    fn arrays<'a>(v: &'a mut Value, out: &mut Vec<*mut Vec<Value>>) {
        match v {
            Value::Array(x) => {
                for e in x.iter_mut() {
                    arrays(e, out);
                }
                out.push(x as *mut _);
            }
            Value::Map(m) => {
                for (_, e) in m.iter_mut() {
                    arrays(e, out);
                }
            }
            _ => {}
        }
    }
    match kind % 4 {
        0 | 1 => {
            let mut arr = vec![];
            arrays(v, &mut arr);
            arr.retain(|p| !unsafe { &**p }.is_empty());
            if arr.is_empty() {
                return;
            }
            // (No other reference is alive; the pointers are to distinct, live vectors.)
            let at = pick(a, arr.len());
            let x = unsafe { &mut *arr[at] };
            let i = pick(b, x.len());
            if kind % 4 == 0 {
                let j = pick(b / 7 + 1, x.len());
                x.swap(i, j);
            } else {
                x.remove(i);
            }
        }
        2 => {
            // A map entry goes (maps other than the outermost first).
            fn maps(v: &mut Value, out: &mut Vec<*mut Vec<(Value, Value)>>) {
                match v {
                    Value::Array(x) => x.iter_mut().for_each(|e| maps(e, out)),
                    Value::Map(m) => {
                        for (_, e) in m.iter_mut() {
                            maps(e, out);
                        }
                        if m.iter().any(|(k, _)| matches!(k, Value::Bytes(_))) {
                            out.push(m as *mut _);
                        }
                    }
                    _ => {}
                }
            }
            let mut ms = vec![];
            maps(v, &mut ms);
            if ms.is_empty() {
                return;
            }
            let at = pick(a, ms.len());
            let m = unsafe { &mut *ms[at] };
            m.remove(pick(b, m.len()));
        }
        _ => {
            let mut l = vec![];
            walk(v, &mut l);
            let n = l.len();
            if n == 0 {
                return;
            }
            match &mut *l[pick(a, n)] {
                Value::Bytes(x) if !x.is_empty() => {
                    let i = pick(b, x.len());
                    x[i] ^= 1 << (b % 8)
                }
                x @ Value::Integer(_) => {
                    let o: i128 = (*x).clone().into_integer().unwrap().into();
                    let d = [1i128, -1, 1 << 20, -(o / 2), 4_000_000_000 - o][pick(b, 5)];
                    *x = Value::Integer(((o + d).max(0) as u64).into())
                }
                Value::Text(t) => t.push('x'),
                _ => {}
            }
        }
    }
}

fn forge(what: What, b: &[u8], kind: u8, a: u32, c: u32) -> Option<Vec<u8>> {
    // (It may have been damaged before.)
    if b.len() < 13 {
        return None;
    }
    match what {
        What::Pack => {
            let n = u32::from_be_bytes(b[b.len() - 4..].try_into().ok()?) as usize;
            let body = b.get(9..(b.len() - 4).checked_sub(n)?)?;
            let man = &b[b.len() - 4 - n..b.len() - 4];
            let mut data = zstd::stream::decode_all(body).ok()?;
            let mut mc = zstd::stream::decode_all(man).ok()?;
            if data.is_empty() {
                return None;
            }
            match kind % 5 {
                0 | 1 => {
                    let i = pick(a, data.len());
                    data[i] ^= 1 << (c % 8);
                }
                2 => {
                    let i = pick(a, data.len());
                    if c % 2 == 0 { data.truncate(i) } else { data.remove(i); }
                }
                3 => data.rotate_left(1),
                _ => {
                    let mut v: Value = ciborium::from_reader(&mc[..]).ok()?;
                    tamper(&mut v, (c >> 8) as u8, a, c);
                    mc = enc(&v);
                }
            }
            let m = z(&mc);
            let mut o = b[..9].to_vec();
            o.extend(z(&data));
            o.extend(&m);
            o.extend((m.len() as u32).to_be_bytes());
            Some(o)
        }
        What::Index => {
            let mut v: Value = ciborium::from_reader(&zstd::stream::decode_all(&b[9..]).ok()?[..]).ok()?;
            tamper(&mut v, kind, a, c);
            let mut o = b[..9].to_vec();
            o.extend(z(&enc(&v)));
            Some(o)
        }
        What::Snapshot => {
            let mut v: Value = ciborium::from_reader(&b[9..]).ok()?;
            tamper(&mut v, kind, a, c);
            let mut o = b[..9].to_vec();
            o.extend(enc(&v));
            Some(o)
        }
    }
}

/// Do the damage; says what was done, or None if nothing changed.
pub fn apply(w: &World, repo: &str, d: &Damage) -> R<Option<String>> {
    let (dir, ext) = match d.what {
        What::Pack => ("packs", ".pack"),
        What::Index => ("indexes", ".index"),
        What::Snapshot => ("snapshots", ".snapshot"),
    };
    let dirp = w.sb.p(repo).join(dir);
    let names: Vec<String> = w.sb.list(repo, dir)?.into_iter().filter(|n| n.ends_with(ext)).collect();
    if names.is_empty() {
        return Ok(None);
    }
    let n = &names[pick(d.which, names.len())];
    let p = dirp.join(n);
    let old = std::fs::read(&p)?;
    let len = old.len();
    let mut new = old.clone();
    let other = |k: u32| -> Option<PathBuf> {
        let o = &names[pick(k, names.len())];
        (o != n).then(|| dirp.join(o))
    };
    let be = &w.setup.backend;
    match &d.how {
        How::Remove => {
            std::fs::remove_file(&p)?;
            return Ok(Some(format!("removed {dir}/{n}")));
        }
        How::Truncate(k) => new.truncate(pick(*k, len)),
        How::Empty => new.clear(),
        How::Flip(k, b) => {
            if len > 0 {
                new[pick(*k, len)] ^= 1 << (b % 8)
            }
        }
        How::Zero(k, m) => {
            let i = pick(*k, len);
            let e = (i + *m as usize).min(len);
            new[i..e].fill(0)
        }
        How::Insert(k, b) => {
            let i = pick(*k, len);
            new.splice(i..i, b.iter().copied());
        }
        How::Cut(k, m) => {
            let i = pick(*k, len);
            let e = (i + *m as usize).min(len);
            new.drain(i..e);
        }
        How::Append(b) => new.extend(b),
        How::Swap(k) => {
            let Some(o) = other(*k) else { return Ok(None) };
            new = std::fs::read(&o)?;
            std::fs::write(&p, &new)?;
            std::fs::write(&o, &old)?;
            return Ok(Some(format!("exchanged {dir}/{n} with {:?}", o.file_name().unwrap())));
        }
        How::Over(k) => {
            let Some(o) = other(*k) else { return Ok(None) };
            new = std::fs::read(&o)?;
        }
        How::Forge(kind, a, c) => {
            let Some(x) = forge(d.what, &unfilter(old.clone(), be), *kind, *a, *c) else { return Ok(None) };
            new = filter(x, be);
        }
        How::Renamed(kind, a, c) => {
            let plain = unfilter(old.clone(), be);
            let Some(x) = forge(d.what, &plain, *kind, *a, *c) else { return Ok(None) };
            // A forged snapshot under its proper name would be another snapshot.
            if d.what != What::Index || zstd::stream::decode_all(&x[9..]).ok() == zstd::stream::decode_all(&plain[9..]).ok() {
                return Ok(None);
            }
            let id = fsck::hash(&zstd::stream::decode_all(&x[9..])?);
            std::fs::remove_file(&p)?;
            std::fs::write(dirp.join(format!("{id}{ext}")), filter(x, be))?;
            return Ok(Some(format!("replaced {dir}/{n} by a forged {id}")));
        }
    }
    if new == old {
        return Ok(None);
    }
    std::fs::write(&p, &new)?;
    Ok(Some(format!("{:?} on {dir}/{n} ({len} bytes)", d.how)))
}
