//! Scratch directories and running the real backpak binary in them.
use crate::engine::*;
use crate::{err, viol};
use crate::fsck;
use crate::fsm;
use std::collections::BTreeSet;
use std::io::{Read, Seek};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

pub struct Sandbox {
    pub root: PathBuf,
    pub bin: PathBuf,
    pub env: Vec<(String, String)>,
}

#[derive(Debug, Clone)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: String,
    pub cmdline: String,
}

impl Drop for Sandbox {
    fn drop(&mut self) {
        if std::env::var_os("VH_KEEP").is_none() {
            let _ = fsm::wipe(&self.root);
        }
    }
}

pub fn keep_trace() -> bool {
    std::env::var_os("VH_TRACE").is_some()
}

impl Sandbox {
    pub fn new(env: &Env) -> R<Sandbox> {
        let n = env.next.fetch_add(1, Ordering::Relaxed);
        // Nested, so that ".." in generated links stays inside.
        let root = env.scratch.join(format!("s{n}"));
        std::fs::create_dir_all(root.join("z/w"))?;
        let sb = Sandbox { root: root.clone(), bin: env.bin.clone(), env: vec![] };
        std::fs::create_dir(sb.p("home"))?;
        std::fs::create_dir(sb.p("cwd"))?;
        Ok(sb)
    }
    /// A path in the sandbox's working area.
    pub fn p(&self, s: &str) -> PathBuf {
        self.root.join("z/w").join(s)
    }
    pub fn ps(&self, s: &str) -> String {
        self.p(s).to_str().unwrap().to_string()
    }
    pub fn command(&self, cwd: &str, args: &[&str]) -> Command {
        let mut c = Command::new(&self.bin);
        c.args(args);
        self.setup(&mut c, cwd);
        c
    }
    pub fn setup(&self, c: &mut Command, cwd: &str) {
        c.current_dir(self.p(cwd))
            .env_clear()
            .env("HOME", self.p("home"))
            .env("PATH", "/usr/local/bin:/usr/bin:/bin")
            .env("RUST_BACKTRACE", "0")
            .env("TZ", "UTC")
            .env("LANG", "C.UTF-8")
            .envs(self.env.iter().cloned())
            .stdin(Stdio::null());
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::umask(0o022);
                Ok(())
            });
        }
    }
    pub fn run_in(&self, cwd: &str, args: &[&str]) -> R<Out> {
        let c = self.command(cwd, args);
        run_command(c)
    }
    pub fn run(&self, args: &[&str]) -> R<Out> {
        self.run_in("cwd", args)
    }
    /// Run and require success.
    pub fn ok_in(&self, cwd: &str, args: &[&str]) -> R<Out> {
        let o = self.run_in(cwd, args)?;
        if !o.ok() {
            viol!("command failed: {}", o.describe());
        }
        Ok(o)
    }
    pub fn ok(&self, args: &[&str]) -> R<Out> {
        self.ok_in("cwd", args)
    }
    pub fn init(&self, repo: &str, pack_size: Option<&str>, force_cache: bool) -> R<()> {
        let r = self.ps(repo);
        let mut a = vec!["-r", &r, "init"];
        if let Some(s) = pack_size {
            a.extend(["--pack-size", s]);
        }
        a.push("filesystem");
        if force_cache {
            a.push("--force-cache");
        }
        self.ok(&a)?;
        Ok(())
    }
    /// Prepare for running commands on a pretended machine with so many cores.
    /// (False if there's no compiler for the library which does that.)
    pub fn cores(&self, n: u8) -> R<bool> {
        let t: String = (0..n.max(1)).map(|i| format!("processor\t: {i}\nphysical id\t: 0\ncore id\t: {i}\ncpu cores\t: {n}\n\n")).collect();
        std::fs::write(self.p("cpuinfo"), t)?;
        Ok(cpuinfo_lib(self.root.parent().unwrap()).is_some())
    }
    pub fn with_cores(&self, c: &mut Command) {
        if let Some(l) = cpuinfo_lib(self.root.parent().unwrap()) {
            c.env("LD_PRELOAD", l).env("FAKE_CPUINFO", self.p("cpuinfo"));
        }
    }
    pub fn list(&self, repo: &str, what: &str) -> R<BTreeSet<String>> {
        let mut s = BTreeSet::new();
        for e in std::fs::read_dir(self.p(repo).join(what))? {
            s.insert(e?.file_name().to_string_lossy().into_owned());
        }
        Ok(s)
    }
    pub fn snapshots(&self, repo: &str) -> R<BTreeSet<String>> {
        Ok(self.list(repo, "snapshots")?.into_iter().filter(|n| !n.ends_with(".part")).map(|n| n.trim_end_matches(".snapshot").to_string()).collect())
    }
    pub fn fsck(&self, repo: &str) -> R<fsck::Repo> {
        fsck::load(&self.p(repo)).map_err(Fail::V)
    }
    pub fn write_file(&self, name: &str, data: &[u8]) -> R<()> {
        std::fs::write(self.p(name), data)?;
        Ok(())
    }
}

impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn panicked(&self) -> bool {
        self.code == Some(101) || self.signal.is_some() || self.stderr.contains("panicked at")
    }
    pub fn describe(&self) -> String {
        let mut e = self.stderr.trim().to_string();
        if e.len() > 900 {
            let mut cut = e.len() - 900;
            while !e.is_char_boundary(cut) {
                cut += 1
            }
            e = format!("...{}", &e[cut..]);
        }
        format!("`{}` exited {:?} signal {:?}: {}", self.cmdline, self.code, self.signal, e)
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
}

fn env_trouble(stderr: &str) -> bool {
    ["Too many open files", "Cannot allocate memory", "Resource temporarily unavailable", "No space left on device"]
        .iter()
        .any(|s| stderr.contains(s))
}

const CPUINFO_C: &str = r#"
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
static int go(const char *n, const char *p, int f, int m) {
    int (*r)(const char *, int, ...) = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, n);
    const char *c = getenv("FAKE_CPUINFO");
    return r(c && !strcmp(p, "/proc/cpuinfo") ? c : p, f, m);
}
int open(const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return go("open", p, f, m); }
int open64(const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return go("open64", p, f, m); }
"#;
fn preload(scratch: &Path, name: &str, src: &str) -> Option<PathBuf> {
    let (c, so) = (scratch.join(format!("{name}.c")), scratch.join(format!("{name}.so")));
    std::fs::write(&c, src).ok()?;
    let ok = Command::new("cc").args(["-shared", "-fPIC", "-o"]).arg(&so).arg(&c).arg("-ldl").stderr(Stdio::null()).status().ok()?.success();
    ok.then_some(so)
}
/// A library to preload, which redirects reading /proc/cpuinfo.
fn cpuinfo_lib(scratch: &Path) -> Option<PathBuf> {
    static LIB: std::sync::OnceLock<Option<PathBuf>> = std::sync::OnceLock::new();
    LIB.get_or_init(|| preload(scratch, "cpuinfo", CPUINFO_C)).clone()
}
const HASTE_C: &str = r#"
#define _GNU_SOURCE
#include <dlfcn.h>
#include <time.h>
static struct timespec less(const struct timespec *t) {
    long long ns = (t->tv_sec * 1000000000LL + t->tv_nsec) / 100;
    struct timespec r = { ns / 1000000000, ns % 1000000000 };
    return r;
}
int nanosleep(const struct timespec *t, struct timespec *r) {
    int (*f)(const struct timespec *, struct timespec *) = dlsym(RTLD_NEXT, "nanosleep");
    struct timespec l = less(t);
    if (r) r->tv_sec = r->tv_nsec = 0;
    return f(&l, 0);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *r) {
    int (*f)(clockid_t, int, const struct timespec *, struct timespec *) = dlsym(RTLD_NEXT, "clock_nanosleep");
    if (fl) return f(c, fl, t, r);
    struct timespec l = less(t);
    if (r) r->tv_sec = r->tv_nsec = 0;
    return f(c, fl, &l, 0);
}
"#;
/// A library to preload, which makes naps a hundred times shorter.
pub fn haste_lib(scratch: &Path) -> Option<PathBuf> {
    static LIB: std::sync::OnceLock<Option<PathBuf>> = std::sync::OnceLock::new();
    LIB.get_or_init(|| preload(scratch, "haste", HASTE_C)).clone()
}

pub const TIMEOUT: Duration = Duration::from_secs(150);
/// A command which doesn't use the processor for so long won't any more.
pub const HANG: Duration = Duration::from_secs(20);

fn children(pid: u32) -> Vec<u32> {
    let mut v = vec![];
    for t in std::fs::read_dir(format!("/proc/{pid}/task")).into_iter().flatten().flatten() {
        let c = std::fs::read_to_string(t.path().join("children")).unwrap_or_default();
        v.extend(c.split_whitespace().filter_map(|p| p.parse::<u32>().ok()));
    }
    v
}
/// Processor time (in ticks) of a process and those below it, bytes they read, and if one could go on.
fn use_of(pid: u32) -> (u64, u64, bool) {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(") ").next().unwrap_or("").split(' ').collect();
    let mut cpu: u64 = [11, 12, 13, 14].iter().filter_map(|i| f.get(*i)?.parse::<u64>().ok()).sum();
    let io = std::fs::read_to_string(format!("/proc/{pid}/io")).unwrap_or_default();
    let mut bytes: u64 = io.lines().filter(|l| l.starts_with("rchar:")).filter_map(|l| l.split_whitespace().nth(1)?.parse::<u64>().ok()).sum();
    let mut busy = false;
    for t in std::fs::read_dir(format!("/proc/{pid}/task")).into_iter().flatten().flatten() {
        let s = std::fs::read_to_string(t.path().join("stat")).unwrap_or_default();
        busy |= matches!(s.rsplit(") ").next().unwrap_or("").chars().next(), Some('R' | 'D'));
    }
    for c in children(pid) {
        let u = use_of(c);
        (cpu, bytes, busy) = (cpu + u.0, bytes + u.1, busy | u.2);
    }
    (cpu, bytes, busy)
}
fn kill_tree(pid: u32) {
    for c in children(pid) {
        kill_tree(c);
    }
    unsafe { libc::kill(pid as i32, libc::SIGKILL) };
}

pub fn run_command(mut c: Command) -> R<Out> {
    run_command_opts(&mut c, true)
}
pub fn run_command_opts(c: &mut Command, env_is_error: bool) -> R<Out> {
    run_command_until(c, env_is_error, &|| false)
}
/// ...and kill it when `stop` says so.
pub fn run_command_until(c: &mut Command, env_is_error: bool, stop: &dyn Fn() -> bool) -> R<Out> {
    let mut so = tempfile::tempfile()?;
    let mut se = tempfile::tempfile()?;
    c.stdout(so.try_clone()?).stderr(se.try_clone()?);
    let cmdline = c.get_args().map(|a| a.to_string_lossy().into_owned()).collect::<Vec<_>>().join(" ");
    let mut ch = c.spawn()?;
    let t0 = Instant::now();
    let mut nap = 200u64;
    let (mut last, mut since, mut was_busy) = ((0, 0), Instant::now(), false);
    let status = loop {
        if let Some(s) = ch.try_wait()? {
            break s;
        }
        if stop() {
            kill_tree(ch.id());
        }
        if t0.elapsed() > TIMEOUT {
            let _ = ch.kill();
            let _ = ch.wait();
            err!("timeout: {cmdline}");
        }
        if t0.elapsed() > Duration::from_secs(2) {
            let (cpu, bytes, busy) = use_of(ch.id());
            // (The thread which shows the progress goes on writing and using a bit of time.)
            let prev = std::mem::replace(&mut was_busy, busy);
            let busy = busy && prev;
            if busy || cpu > last.0 + 25 || bytes != last.1 {
                (last, since) = ((cpu, bytes), Instant::now());
            } else if since.elapsed() > HANG {
                kill_tree(ch.id());
                let _ = ch.wait();
                viol!("`{cmdline}` hangs: nothing has happened for {} s", HANG.as_secs());
            }
            nap = 50_000;
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 5 / 4).min(4000);
    };
    so.rewind()?;
    se.rewind()?;
    let mut stdout = vec![];
    so.read_to_end(&mut stdout)?;
    let mut eb = vec![];
    se.read_to_end(&mut eb)?;
    let stderr = String::from_utf8_lossy(&eb).into_owned();
    let o = Out { code: status.code(), signal: status.signal(), stdout, stderr, cmdline };
    if keep_trace() {
        eprintln!("RUN {} -> {:?}/{:?}\n{}", o.cmdline, o.code, o.signal, o.stderr);
    }
    if env_is_error && !o.ok() && env_trouble(&o.stderr) {
        err!("environment trouble: {}", o.describe());
    }
    Ok(o)
}

pub fn read_dir_bytes(p: &Path) -> R<std::collections::BTreeMap<String, Vec<u8>>> {
    let mut m = std::collections::BTreeMap::new();
    fn rec(p: &Path, at: &str, m: &mut std::collections::BTreeMap<String, Vec<u8>>) -> R<()> {
        for e in std::fs::read_dir(p)? {
            let e = e?;
            let n = fsm::join(at, &e.file_name().to_string_lossy());
            if e.file_type()?.is_dir() {
                m.insert(format!("{n}/"), vec![]);
                rec(&e.path(), &n, m)?;
            } else if e.file_type()?.is_symlink() {
                m.insert(n, std::fs::read_link(e.path())?.to_string_lossy().into_owned().into_bytes());
            } else {
                m.insert(n, std::fs::read(e.path())?);
            }
        }
        Ok(())
    }
    if p.exists() {
        rec(p, "", &mut m)?;
    }
    Ok(m)
}
