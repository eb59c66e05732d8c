//! A model of the Backblaze B2 service on the loopback interface.
//!
//! It keeps versions of objects in memory and mirrors the newest of each into
//! directories named like the buckets, so that a bucket can be read like any repository.
use crate::engine::*;
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};
use serde_json::{Value, json};
use sha1::{Digest, Sha1};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub const KINDS: [&str; 8] = ["get", "put", "list", "delete", "versions", "auth", "buckets", "upload-url"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What {
    Status(u16),
    /// The connection breaks before the request is handled.
    Before,
    /// It is handled, but the answer doesn't arrive.
    After,
    /// So many thousandths of the answer do.
    Cut(u16),
    /// So many thousandths of the upload are read, then the connection breaks.
    Part(u16),
    /// All tokens given out expire.
    Expire,
    /// The upload URL used is not good any more.
    Wear,
    Slow,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fault {
    /// KINDS, or any request.
    pub kind: u8,
    pub nth: u8,
    pub times: u8,
    pub what: What,
}
impl Fault {
    fn kind(&self) -> Option<&'static str> {
        KINDS.get(self.kind as usize % 10).copied()
    }
}
pub fn fault() -> BoxedStrategy<Fault> {
    let what = prop_oneof![
        4 => prop::sample::select(vec![408u16, 429, 500, 503]).prop_map(What::Status),
        1 => prop::sample::select(vec![400u16, 403]).prop_map(What::Status),
        2 => Just(What::Before),
        3 => Just(What::After),
        3 => (0u16..1000).prop_map(What::Cut),
        3 => (0u16..1000).prop_map(What::Part),
        2 => Just(What::Expire),
        1 => Just(What::Wear),
        1 => Just(What::Slow),
    ];
    let kind = prop_oneof![4 => Just(0u8), 4 => Just(1), 2 => Just(2), 4 => Just(3), 3 => Just(4), 1 => 5u8..8, 3 => Just(8)];
    (kind, prop_oneof![2 => Just(0u8), 3 => 0u8..3, 1 => 0u8..12], prop_oneof![4 => Just(1u8), 1 => 2u8..4], what)
        .prop_map(|(kind, nth, times, what)| Fault { kind, nth, times, what })
        .boxed()
}

struct Ver {
    id: String,
    data: Arc<Vec<u8>>,
}
#[derive(Default)]
struct Inner {
    dir: PathBuf,
    objects: BTreeMap<(String, String), Vec<Ver>>,
    next: u64,
    tokens: HashSet<String>,
    worn: HashSet<String>,
    page: usize,
    in_flight: usize,
    most: usize,
    plan: Vec<Fault>,
    counts: BTreeMap<String, usize>,
    fired: Vec<String>,
    same: BTreeMap<String, usize>,
    last: String,
    wrong: Vec<String>,
    log: Vec<String>,
}
pub struct Mock {
    m: Arc<Mutex<Inner>>,
    stop: Arc<AtomicBool>,
    port: u16,
}
/// What happened during one command.
#[derive(Debug, Clone)]
pub struct Seen {
    pub fired: Vec<String>,
    pub most: usize,
    pub requests: usize,
    pub wrong: Vec<String>,
    pub last: String,
    pub log: Vec<String>,
}
/// The same request more often than any generated plan makes it: it will never stop.
const FOREVER: usize = 60;

impl Mock {
    pub fn start(dir: &Path, page: usize) -> R<Mock> {
        let l = TcpListener::bind(("127.0.0.1", 0))?;
        let port = l.local_addr()?.port();
        let m = Arc::new(Mutex::new(Inner { dir: dir.into(), page, ..Inner::default() }));
        let stop = Arc::new(AtomicBool::new(false));
        let (m2, s2) = (m.clone(), stop.clone());
        std::thread::Builder::new().name("b2".into()).spawn(move || {
            for c in l.incoming() {
                if s2.load(SeqCst) {
                    break;
                }
                let Ok(c) = c else { continue };
                let m = m2.clone();
                let _ = std::thread::Builder::new().name("b2-conn".into()).spawn(move || {
                    let _ = c.set_read_timeout(Some(Duration::from_secs(60)));
                    let _ = c.set_write_timeout(Some(Duration::from_secs(60)));
                    let _ = serve(&c, &m, port);
                    let _ = c.shutdown(Shutdown::Both);
                });
            }
        })?;
        Ok(Mock { m, stop, port })
    }
    pub fn url(&self) -> String {
        format!("http://127.0.0.1:{}", self.port)
    }
    /// The next command meets these faults.
    pub fn arm(&self, plan: &[Fault]) {
        let mut m = self.m.lock().unwrap();
        m.plan = plan.to_vec();
        m.counts.clear();
        m.fired.clear();
        m.wrong.clear();
        m.log.clear();
        m.same.clear();
        m.most = m.in_flight;
    }
    pub fn seen(&self) -> Seen {
        let m = self.m.lock().unwrap();
        Seen { fired: m.fired.clone(), most: m.most, requests: m.counts.values().sum(), wrong: m.wrong.clone(), last: m.last.clone(), log: m.log.clone() }
    }
    pub fn forever(&self) -> bool {
        self.m.lock().unwrap().same.values().any(|n| *n > FOREVER)
    }
    pub fn names(&self, bucket: &str) -> Vec<String> {
        self.m.lock().unwrap().objects.keys().filter(|k| k.0 == bucket).map(|k| k.1.clone()).collect()
    }
    pub fn versions(&self, bucket: &str, name: &str) -> usize {
        self.m.lock().unwrap().objects.get(&(bucket.into(), name.into())).map_or(0, |v| v.len())
    }
    pub fn data(&self, bucket: &str, name: &str) -> Option<Vec<u8>> {
        Some(self.m.lock().unwrap().objects.get(&(bucket.into(), name.into()))?.last()?.data.to_vec())
    }
    pub fn put(&self, bucket: &str, name: &str, data: Vec<u8>) {
        self.m.lock().unwrap().put(bucket, name, data);
    }
    /// Remove all versions of an object; gives back the newest.
    pub fn take(&self, bucket: &str, name: &str) -> Option<Vec<u8>> {
        let mut m = self.m.lock().unwrap();
        let v = m.objects.remove(&(bucket.into(), name.into()))?;
        m.mirror(bucket, name);
        Some(v.last()?.data.to_vec())
    }
    /// The buckets' objects are as their directories show them.
    pub fn mirrored(&self, bucket: &str) -> R<()> {
        let m = self.m.lock().unwrap();
        let mut want: BTreeSet<String> = m.objects.keys().filter(|k| k.0 == bucket && kept(&k.1)).map(|k| k.1.clone()).collect();
        for d in ["packs", "indexes", "snapshots"] {
            for e in std::fs::read_dir(m.dir.join(bucket).join(d))? {
                let n = format!("{d}/{}", e?.file_name().to_string_lossy());
                if !want.remove(&n) {
                    return Err(Fail::E(format!("model service: {n} in the directory only")));
                }
            }
        }
        if let Some(n) = want.first() {
            return Err(Fail::E(format!("model service: {n} not in the directory")));
        }
        Ok(())
    }
}
impl Drop for Mock {
    fn drop(&mut self) {
        self.stop.store(true, SeqCst);
        let _ = TcpStream::connect(("127.0.0.1", self.port));
    }
}

fn kept(name: &str) -> bool {
    ["packs/", "indexes/", "snapshots/"].iter().any(|p| name.starts_with(p))
}

impl Inner {
    fn put(&mut self, bucket: &str, name: &str, data: Vec<u8>) -> String {
        self.next += 1;
        let id = format!("4_z{:08}", self.next);
        self.objects.entry((bucket.into(), name.into())).or_default().push(Ver { id: id.clone(), data: Arc::new(data) });
        self.mirror(bucket, name);
        id
    }
    fn mirror(&self, bucket: &str, name: &str) {
        if !kept(name) {
            return;
        }
        let f = self.dir.join(bucket).join(name);
        match self.objects.get(&(bucket.to_string(), name.to_string())).and_then(|v| v.last()) {
            Some(v) => {
                let _ = std::fs::create_dir_all(f.parent().unwrap());
                let _ = std::fs::write(f, &*v.data);
            }
            None => {
                let _ = std::fs::remove_file(f);
            }
        }
    }
    fn token(&mut self) -> String {
        self.next += 1;
        let t = format!("tok{}", self.next);
        self.tokens.insert(t.clone());
        t
    }
}

struct Req {
    method: String,
    path: String,
    query: BTreeMap<String, String>,
    head: BTreeMap<String, String>,
}

fn decode(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 && s.is_char_boundary(i + 1) {
            if let Some(x) = s.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok()) {
                o.push(x);
                i += 3;
                continue;
            }
        }
        o.push(if b[i] == b'+' { b' ' } else { b[i] });
        i += 1;
    }
    String::from_utf8_lossy(&o).into_owned()
}

fn request<B: BufRead>(r: &mut B) -> Option<Req> {
    let mut l = String::new();
    if r.read_line(&mut l).ok()? == 0 {
        return None;
    }
    let mut p = l.split_whitespace();
    let (method, target) = (p.next()?.to_string(), p.next()?.to_string());
    let (path, q) = target.split_once('?').unwrap_or((&target, ""));
    let query = q.split('&').filter(|s| !s.is_empty()).map(|kv| kv.split_once('=').unwrap_or((kv, ""))).map(|(k, v)| (decode(k), decode(v))).collect();
    let mut head = BTreeMap::new();
    loop {
        let mut l = String::new();
        if r.read_line(&mut l).ok()? == 0 {
            return None;
        }
        let l = l.trim_end();
        if l.is_empty() {
            break;
        }
        if let Some((k, v)) = l.split_once(':') {
            head.insert(k.to_lowercase(), v.trim().to_string());
        }
    }
    Some(Req { method, path: path.to_string(), query, head })
}

fn kind(r: &Req) -> &'static str {
    let p = &r.path;
    if p.starts_with("/file/") {
        "get"
    } else if p.starts_with("/upload/") {
        "put"
    } else if p.ends_with("b2_list_file_names") {
        "list"
    } else if p.ends_with("b2_list_file_versions") {
        "versions"
    } else if p.ends_with("b2_delete_file_version") {
        "delete"
    } else if p.ends_with("b2_authorize_account") {
        "auth"
    } else if p.ends_with("b2_list_buckets") {
        "buckets"
    } else if p.ends_with("b2_get_upload_url") {
        "upload-url"
    } else {
        "unknown"
    }
}

/// (Dropped before the last bytes go out: the other side may start something else then.)
struct Flying<'a>(&'a Mutex<Inner>);
impl Drop for Flying<'_> {
    fn drop(&mut self) {
        self.0.lock().unwrap().in_flight -= 1;
    }
}

fn serve(c: &TcpStream, m: &Mutex<Inner>, port: u16) -> std::io::Result<()> {
    let mut rd = BufReader::new(c);
    let Some(req) = request(&mut rd) else { return Ok(()) };
    let k = kind(&req);
    let fault = {
        let mut m = m.lock().unwrap();
        m.in_flight += 1;
        m.most = m.most.max(m.in_flight);
        let all: usize = m.counts.values().sum();
        let n = *m.counts.get(k).unwrap_or(&0);
        *m.counts.entry(k.into()).or_default() += 1;
        let f = m
            .plan
            .iter()
            .find(|f| {
                let at = match f.kind() {
                    Some(x) if x == k => n,
                    None => all,
                    _ => return false,
                };
                (f.nth as usize..f.nth as usize + f.times as usize).contains(&at)
            })
            .cloned();
        let fits = |w: &What| match w {
            What::Part(_) | What::Wear => k == "put",
            // (Answers to be expected of these only.)
            What::Status(403 | 400) => k == "put" || k == "get",
            What::Expire => k != "auth",
            _ => true,
        };
        let f = f.filter(|f| fits(&f.what)).map(|f| f.what);
        let of = |n: &str| req.query.get(n).map(|p| format!(" {p}")).unwrap_or_default();
        let line = format!("{k} {}{}{}{}", req.path, of("prefix"), of("startFileName"), req.head.get("x-bz-file-name").map(|p| format!(" {p}")).unwrap_or_default());
        // (Logging in again comes with other requests.)
        if !["auth", "buckets", "upload-url"].contains(&k) {
            *m.same.entry(line.clone()).or_default() += 1;
        }
        if let Some(w) = &f {
            m.fired.push(format!("{w:?} at {line}"));
        }
        m.log.push(format!("{line} {f:?}"));
        f
    };
    let fly = Flying(m);
    let len: usize = req.head.get("content-length").and_then(|l| l.parse().ok()).unwrap_or(0);
    let mut body = vec![];
    match &fault {
        Some(What::Part(x)) => {
            let mut b = vec![0; len * *x as usize / 1000];
            rd.read_exact(&mut b)?;
            return Ok(());
        }
        Some(What::Before) => return Ok(()),
        _ => {
            let n = (&mut rd).take(len as u64).read_to_end(&mut body)?;
            if n < len {
                m.lock().unwrap().wrong.push(format!("an upload of {len} bytes ended after {n}: {}", req.head.get("x-bz-file-name").cloned().unwrap_or_default()));
                return Ok(());
            }
        }
    }
    let (status, answer): (u16, Vec<u8>) = match &fault {
        Some(What::Status(s)) => (*s, oops(*s, "planned")),
        Some(What::Expire) => {
            m.lock().unwrap().tokens.clear();
            handle(&req, k, &body, m, port)
        }
        Some(What::Wear) => {
            m.lock().unwrap().worn.insert(req.head.get("authorization").cloned().unwrap_or_default());
            handle(&req, k, &body, m, port)
        }
        Some(What::Slow) => {
            std::thread::sleep(Duration::from_millis(30));
            handle(&req, k, &body, m, port)
        }
        _ => handle(&req, k, &body, m, port),
    };
    {
        let mut m = m.lock().unwrap();
        if status != 200 {
            m.last = format!("{status} for {k} {}", req.path);
        }
    }
    let mut w = c;
    let mut out = format!("HTTP/1.1 {status} X\r\nContent-Type: {}\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", if k == "get" && status == 200 { "application/octet-stream" } else { "application/json" }, answer.len()).into_bytes();
    let head = out.len();
    out.extend(&answer);
    let upto = match &fault {
        Some(What::After) => return Ok(()),
        // (All headers and a part of the body, or part of the headers.)
        Some(What::Cut(x)) if *x < 100 => head * *x as usize / 100,
        Some(What::Cut(x)) => head + answer.len() * (*x as usize - 100) / 900,
        _ => out.len(),
    };
    if k == "get" && status == 200 && upto > head {
        // Streaming takes a while.
        let mid = head + (upto - head) / 2;
        w.write_all(&out[..mid])?;
        w.flush()?;
        std::thread::sleep(Duration::from_millis(2));
        drop(fly);
        w.write_all(&out[mid..upto])?;
    } else {
        drop(fly);
        w.write_all(&out[..upto])?;
    }
    w.flush()?;
    Ok(())
}

fn oops(status: u16, why: &str) -> Vec<u8> {
    let code = match status {
        401 => "expired_auth_token",
        403 => "cap_exceeded",
        404 => "not_found",
        408 => "request_timeout",
        429 => "too_many_requests",
        503 => "service_unavailable",
        _ => "bad_request",
    };
    json!({"status": status, "code": code, "message": why}).to_string().into_bytes()
}

fn handle(r: &Req, k: &str, body: &[u8], m: &Mutex<Inner>, port: u16) -> (u16, Vec<u8>) {
    let mut m = m.lock().unwrap();
    let auth = r.head.get("authorization").cloned().unwrap_or_default();
    let no = |s: u16, w: &str| (s, oops(s, w));
    let ok = |v: Value| (200, v.to_string().into_bytes());
    let url = format!("http://127.0.0.1:{port}");
    if k == "auth" {
        let b = data_encoding::BASE64.encode(b"key:secret");
        if auth.strip_prefix("Basic").map(|s| s.trim()) != Some(&b) {
            return no(401, "bad credentials");
        }
        let t = m.token();
        return ok(json!({"accountId": "acc", "authorizationToken": t, "apiInfo": {"storageApi": {
            "apiUrl": url, "downloadUrl": url, "recommendedPartSize": 100_000_000, "absoluteMinimumPartSize": 5_000_000,
            "capabilities": ["listBuckets", "listFiles", "readFiles", "writeFiles", "deleteFiles"], "bucketId": null, "bucketName": null, "namePrefix": null}}}));
    }
    if !m.tokens.contains(&auth) {
        return no(401, "Authorization token has expired");
    }
    if k == "put" && m.worn.contains(&auth) {
        return no(503, "no tomes available");
    }
    let q = |n: &str| r.query.get(n).cloned();
    let bucket = q("bucketId").map(|b| b.strip_prefix("id-").unwrap_or("?").to_string());
    match k {
        "buckets" => {
            // (Other buckets may be listed, too.)
            let n = q("bucketName").unwrap_or_default();
            if m.dir.join(&n).is_dir() {
                ok(json!({"buckets": [{"bucketName": format!("not-{n}"), "bucketId": "id-other"}, {"bucketName": n, "bucketId": format!("id-{n}")}]}))
            } else {
                ok(json!({"buckets": []}))
            }
        }
        "upload-url" => {
            let t = m.token();
            ok(json!({"bucketId": q("bucketId"), "uploadUrl": format!("{url}/upload/{}", bucket.unwrap_or_default()), "authorizationToken": t}))
        }
        "put" => {
            let b = r.path.strip_prefix("/upload/").unwrap_or("").to_string();
            let name = decode(r.head.get("x-bz-file-name").map_or("", |s| s));
            let sha = r.head.get("x-bz-content-sha1").cloned().unwrap_or_default();
            let (data, sha) = if sha == "hex_digits_at_end" {
                if body.len() < 40 {
                    return no(400, "no checksum");
                }
                let (d, s) = body.split_at(body.len() - 40);
                (d, String::from_utf8_lossy(s).into_owned())
            } else {
                (body, sha)
            };
            if data_encoding::HEXLOWER.encode(&Sha1::digest(data)) != sha.to_lowercase() {
                m.wrong.push(format!("{name} was uploaded with a wrong checksum"));
                return no(400, "Sha1 did not match data received");
            }
            if r.method != "POST" || name.is_empty() {
                return no(400, "bad upload");
            }
            let id = m.put(&b, &name, data.to_vec());
            ok(json!({"action": "upload", "fileName": name, "fileId": id, "contentLength": data.len(), "contentSha1": sha}))
        }
        "list" | "versions" => {
            let b = bucket.unwrap_or_default();
            let prefix = q("prefix").unwrap_or_default();
            let start = q("startFileName").unwrap_or_default();
            let max: usize = q("maxFileCount").and_then(|s| s.parse().ok()).unwrap_or(100).clamp(1, 10_000);
            let page = max.min(m.page.max(1));
            let mut files = vec![];
            let mut next = None;
            for ((bk, n), vs) in &m.objects {
                if *bk != b || !n.starts_with(&prefix) || n.as_str() < start.as_str() {
                    continue;
                }
                let some: Vec<&Ver> = if k == "list" { vs.last().into_iter().collect() } else { vs.iter().rev().collect() };
                // (All versions of a name on one page.)
                if files.len() >= page {
                    next = Some(n.clone());
                    break;
                }
                for v in some {
                    files.push(json!({"action": "upload", "bucketId": format!("id-{b}"), "contentLength": v.data.len(), "contentType": "application/octet-stream",
                        "fileId": v.id, "fileName": n, "uploadTimestamp": 1_600_000_000_000u64}));
                }
            }
            let mut o = json!({"files": files, "nextFileName": next});
            if k == "versions" {
                o["nextFileId"] = json!(next.map(|_| "4_z0"));
            }
            ok(o)
        }
        "delete" => {
            let Ok(v) = serde_json::from_slice::<Value>(body) else { return no(400, "bad json") };
            let (name, id) = (v["fileName"].as_str().unwrap_or(""), v["fileId"].as_str().unwrap_or(""));
            let Some(key) = m.objects.iter().find(|(k, vs)| k.1 == name && vs.iter().any(|v| v.id == id)).map(|x| x.0.clone()) else {
                return no(400, "file_not_present");
            };
            let vs = m.objects.get_mut(&key).unwrap();
            vs.retain(|v| v.id != id);
            if vs.is_empty() {
                m.objects.remove(&key);
            }
            m.mirror(&key.0, &key.1);
            ok(json!({"fileName": name, "fileId": id}))
        }
        "get" => {
            let p = decode(r.path.strip_prefix("/file/").unwrap_or(""));
            let (b, n) = p.split_once('/').unwrap_or((&p, ""));
            match m.objects.get(&(b.to_string(), n.to_string())).and_then(|v| v.last()) {
                Some(v) => (200, v.data.to_vec()),
                None => no(404, "File with such name does not exist."),
            }
        }
        _ => no(400, "unknown request"),
    }
}
