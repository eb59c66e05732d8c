//! A supervisor for one backpak process: stops it (ptrace + a seccomp filter) at each
//! system call that touches files below given prefixes, numbers these stops, and
//! there kills it, makes the call fail, or holds it until told to go on.
//!
//! It runs as a process of its own (`vh helper-trace SPEC`), as waiting for
//! any traced thread takes the whole process' children.
use crate::cli::*;
use crate::engine::*;
use crate::err;
use serde_derive::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};
use std::ffi::CString;
use std::io::Read;
use std::os::unix::fs::{FileExt, MetadataExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Spec {
    pub argv: Vec<String>,
    /// Count events on files below these.
    pub under: Vec<String>,
    /// Also count reading (open for reading, read, getdents).
    pub reads: bool,
    /// Kill before this event.
    pub kill: Option<usize>,
    /// The killing event, if a write, first does half of its work.
    pub torn: bool,
    /// Data not fsynced at the kill is lost (files below the first prefix given here).
    pub power: Vec<String>,
    /// Make these events fail with an errno.
    pub fail: Vec<(usize, i32)>,
    /// Every event from this number on fails (a full disk stays full).
    pub fail_from: Option<(usize, i32)>,
    /// Not just what needs space fails from there on.
    pub fail_all: bool,
    /// These reads and writes do half of what they are asked to.
    pub short: Vec<usize>,
    /// A thread that saw a call fail then takes this long (ms) for the next.
    pub slow: u64,
    /// Hold before event n: create the first file, wait for the second.
    pub hold: Vec<(usize, String, String)>,
    pub out: String,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Trace {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub n: usize,
    pub killed: bool,
    pub failed: Vec<String>,
    pub events: Vec<String>,
}

const WRITES: &[i64] = &[
    libc::SYS_open, libc::SYS_openat, libc::SYS_creat, libc::SYS_write, libc::SYS_pwrite64, libc::SYS_writev, libc::SYS_pwritev,
    libc::SYS_rename, libc::SYS_renameat, libc::SYS_renameat2, libc::SYS_link, libc::SYS_linkat, libc::SYS_unlink, libc::SYS_unlinkat,
    libc::SYS_rmdir, libc::SYS_mkdir, libc::SYS_mkdirat, libc::SYS_symlink, libc::SYS_symlinkat, libc::SYS_ftruncate, libc::SYS_truncate,
    libc::SYS_fallocate, libc::SYS_fsync, libc::SYS_fdatasync, libc::SYS_copy_file_range, libc::SYS_sendfile, libc::SYS_chmod,
    libc::SYS_fchmod, libc::SYS_fchmodat, libc::SYS_utimensat,
];
const READS: &[i64] = &[libc::SYS_read, libc::SYS_pread64, libc::SYS_readv, libc::SYS_getdents64, libc::SYS_statx, libc::SYS_newfstatat];

fn install_filter(reads: bool) -> std::io::Result<()> {
    const LD: u16 = 0x20; // BPF_LD | BPF_W | BPF_ABS
    const JEQ: u16 = 0x15;
    const RET: u16 = 0x06;
    let mut prog: Vec<libc::sock_filter> = vec![];
    let f = |code, jt, jf, k| libc::sock_filter { code, jt, jf, k };
    prog.push(f(LD, 0, 0, 4));
    prog.push(f(JEQ, 1, 0, 0xC000003E)); // x86_64
    prog.push(f(RET, 0, 0, 0x7fff0000));
    prog.push(f(LD, 0, 0, 0));
    let mut all: Vec<i64> = WRITES.to_vec();
    if reads {
        all.extend(READS);
    }
    for nr in all {
        prog.push(f(JEQ, 0, 1, nr as u32));
        prog.push(f(RET, 0, 0, 0x7ff00000)); // SECCOMP_RET_TRACE
    }
    prog.push(f(RET, 0, 0, 0x7fff0000)); // allow
    let p = libc::sock_fprog { len: prog.len() as u16, filter: prog.as_mut_ptr() };
    unsafe {
        if libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 {
            return Err(std::io::Error::last_os_error());
        }
        if libc::syscall(libc::SYS_seccomp, 1u64, 0u64, &p as *const _) != 0 {
            return Err(std::io::Error::last_os_error());
        }
    }
    Ok(())
}

fn read_str(pid: i32, addr: u64) -> String {
    let Ok(f) = std::fs::File::open(format!("/proc/{pid}/mem")) else { return String::new() };
    let mut out = vec![];
    let mut at = addr;
    loop {
        let mut b = [0u8; 256];
        // Not across a page boundary more than needed.
        let n = (4096 - (at as usize & 4095)).min(256);
        let Ok(r) = f.read_at(&mut b[..n], at) else { break };
        if r == 0 {
            break;
        }
        if let Some(z) = b[..r].iter().position(|c| *c == 0) {
            out.extend_from_slice(&b[..z]);
            break;
        }
        out.extend_from_slice(&b[..r]);
        at += r as u64;
        if out.len() > 8192 {
            break;
        }
    }
    String::from_utf8_lossy(&out).into_owned()
}
fn fd_path(pid: i32, fd: i64) -> String {
    let p = if fd as i32 == libc::AT_FDCWD { format!("/proc/{pid}/cwd") } else { format!("/proc/{pid}/fd/{fd}") };
    std::fs::read_link(p).map(|p| p.to_string_lossy().into_owned()).unwrap_or_default()
}
fn at_path(pid: i32, dirfd: i64, s: &str) -> String {
    if s.starts_with('/') {
        return s.to_string();
    }
    let base = fd_path(pid, dirfd);
    let p = format!("{base}/{s}");
    p.replace("/./", "/")
}

struct Regs(libc::user_regs_struct);
fn regs(pid: i32) -> Option<Regs> {
    unsafe {
        let mut r: libc::user_regs_struct = std::mem::zeroed();
        if libc::ptrace(libc::PTRACE_GETREGS, pid, 0, &mut r) != 0 {
            return None;
        }
        Some(Regs(r))
    }
}

/// Is this system call an event? Describe it.
fn classify(pid: i32, r: &libc::user_regs_struct, spec: &Spec) -> Option<(String, String)> {
    let (a0, a1, a2, a3) = (r.rdi as i64, r.rsi as i64, r.rdx as i64, r.r10 as i64);
    let cwd = libc::AT_FDCWD as i64;
    let nr = r.orig_rax as i64;
    let wr = |fl: i64| fl as i32 & (libc::O_CREAT | libc::O_TRUNC) != 0 || fl as i32 & libc::O_ACCMODE != libc::O_RDONLY;
    let (name, path) = match nr {
        libc::SYS_open => {
            let w = wr(a1);
            if !w && !spec.reads {
                return None;
            }
            (if w { "open+" } else { "open" }, at_path(pid, cwd, &read_str(pid, a0 as u64)))
        }
        libc::SYS_creat => ("open+", at_path(pid, cwd, &read_str(pid, a0 as u64))),
        libc::SYS_openat => {
            let w = wr(a2);
            if !w && !spec.reads {
                return None;
            }
            (if w { "open+" } else { "open" }, at_path(pid, a0, &read_str(pid, a1 as u64)))
        }
        libc::SYS_write | libc::SYS_pwrite64 | libc::SYS_writev | libc::SYS_pwritev => ("write", fd_path(pid, a0)),
        libc::SYS_read | libc::SYS_pread64 | libc::SYS_readv => ("read", fd_path(pid, a0)),
        libc::SYS_getdents64 => ("getdents", fd_path(pid, a0)),
        libc::SYS_statx | libc::SYS_newfstatat => {
            let s = read_str(pid, a1 as u64);
            ("stat", if s.is_empty() { fd_path(pid, a0) } else { at_path(pid, a0, &s) })
        }
        libc::SYS_rename => ("rename", at_path(pid, cwd, &read_str(pid, a1 as u64))),
        libc::SYS_renameat | libc::SYS_renameat2 => ("rename", at_path(pid, a2, &read_str(pid, a3 as u64))),
        libc::SYS_link => ("link", at_path(pid, cwd, &read_str(pid, a1 as u64))),
        libc::SYS_linkat => ("link", at_path(pid, a2, &read_str(pid, a3 as u64))),
        libc::SYS_unlink => ("unlink", at_path(pid, cwd, &read_str(pid, a0 as u64))),
        libc::SYS_unlinkat => ("unlink", at_path(pid, a0, &read_str(pid, a1 as u64))),
        libc::SYS_rmdir => ("rmdir", at_path(pid, cwd, &read_str(pid, a0 as u64))),
        libc::SYS_mkdir => ("mkdir", at_path(pid, cwd, &read_str(pid, a0 as u64))),
        libc::SYS_mkdirat => ("mkdir", at_path(pid, a0, &read_str(pid, a1 as u64))),
        libc::SYS_symlink => ("symlink", at_path(pid, cwd, &read_str(pid, a1 as u64))),
        libc::SYS_symlinkat => ("symlink", at_path(pid, a1, &read_str(pid, a2 as u64))),
        libc::SYS_truncate => ("truncate", at_path(pid, cwd, &read_str(pid, a0 as u64))),
        libc::SYS_ftruncate => ("truncate", fd_path(pid, a0)),
        libc::SYS_fallocate => ("fallocate", fd_path(pid, a0)),
        libc::SYS_fsync | libc::SYS_fdatasync => ("fsync", fd_path(pid, a0)),
        libc::SYS_copy_file_range => ("copy", fd_path(pid, a2)),
        libc::SYS_sendfile => ("copy", fd_path(pid, a0)),
        libc::SYS_chmod => ("chmod", at_path(pid, cwd, &read_str(pid, a0 as u64))),
        libc::SYS_fchmod => ("chmod", fd_path(pid, a0)),
        libc::SYS_fchmodat => ("chmod", at_path(pid, a0, &read_str(pid, a1 as u64))),
        libc::SYS_utimensat => ("utimens", if a1 == 0 { fd_path(pid, a0) } else { at_path(pid, a0, &read_str(pid, a1 as u64)) }),
        _ => return None,
    };
    if !spec.under.iter().any(|u| path.starts_with(u.as_str())) {
        return None;
    }
    Some((name.to_string(), path))
}

struct Dirty {
    file: std::fs::File,
    synced: u64,
    dirty: bool,
}

pub fn helper(a: &[String]) {
    let spec: Spec = serde_json::from_slice(&std::fs::read(&a[1]).expect("spec")).expect("spec");
    let t = supervise(&spec).unwrap_or_else(|e| {
        eprintln!("vh-trace: {e}");
        std::process::exit(97)
    });
    std::fs::write(&spec.out, serde_json::to_vec(&t).unwrap()).expect("trace out");
    std::process::exit(0)
}

fn supervise(spec: &Spec) -> std::io::Result<Trace> {
    let reads = spec.reads;
    let mut c = std::process::Command::new(&spec.argv[0]);
    c.args(&spec.argv[1..]);
    unsafe {
        c.pre_exec(move || {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            install_filter(reads)
        });
    }
    let ch = c.spawn()?;
    let main = ch.id() as i32;
    std::mem::forget(ch);
    let mut t = Trace::default();
    let mut first = true;
    let mut seen: HashSet<i32> = HashSet::new();
    let mut dirty: HashMap<(u64, u64), Dirty> = HashMap::new();
    // While one thread is held, so is any other that comes to an event
    // (but not what isn't one: it might have locked something others need).
    let mut holding: Option<(i32, i32, &str, std::time::Instant)> = None;
    let mut released: HashSet<usize> = HashSet::new();
    let mut waiting: std::collections::VecDeque<(i32, i32)> = Default::default();
    let mut again: std::collections::VecDeque<(i32, i32)> = Default::default();
    let mut slow: HashSet<i32> = HashSet::new();
    let mut parked: Vec<(i32, std::time::Instant)> = vec![];
    loop {
        parked.retain(|(pid, t)| {
            let over = t.elapsed().as_millis() as u64 >= spec.slow;
            if over {
                unsafe { libc::ptrace(libc::PTRACE_CONT, *pid, 0, 0) };
            }
            !over
        });
        if let Some((pid, st, go, t0)) = holding {
            if Path::new(go).exists() || t0.elapsed().as_secs() > 120 {
                holding = None;
                released.insert(t.n);
                again.append(&mut waiting);
                again.push_front((pid, st));
            }
        }
        let (pid, st) = match again.pop_front() {
            Some(x) if holding.is_none() => x,
            Some(x) => {
                waiting.push_back(x);
                continue;
            }
            None => {
                let mut st = 0;
                let f = if holding.is_some() || !parked.is_empty() { libc::__WALL | libc::WNOHANG } else { libc::__WALL };
                let pid = unsafe { libc::waitpid(-1, &mut st, f) };
                if pid == 0 {
                    std::thread::sleep(std::time::Duration::from_micros(300));
                    continue;
                }
                if pid < 0 {
                    let e = std::io::Error::last_os_error();
                    if e.raw_os_error() == Some(libc::EINTR) {
                        continue;
                    }
                    break;
                }
                (pid, st)
            }
        };
        if libc::WIFEXITED(st) {
            if pid == main {
                t.code = Some(libc::WEXITSTATUS(st));
            }
            continue;
        }
        if libc::WIFSIGNALED(st) {
            if pid == main {
                t.signal = Some(libc::WTERMSIG(st));
            }
            continue;
        }
        let sig = libc::WSTOPSIG(st);
        let ev = st >> 16;
        if first {
            first = false;
            seen.insert(pid);
            let o = libc::PTRACE_O_TRACESECCOMP | libc::PTRACE_O_TRACECLONE | libc::PTRACE_O_TRACEFORK | libc::PTRACE_O_TRACEVFORK | libc::PTRACE_O_TRACEEXEC | libc::PTRACE_O_EXITKILL;
            unsafe {
                if libc::ptrace(libc::PTRACE_SETOPTIONS, pid, 0, o) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
                libc::ptrace(libc::PTRACE_CONT, pid, 0, 0);
            }
            continue;
        }
        let mut deliver = 0;
        if sig == libc::SIGTRAP && ev == libc::PTRACE_EVENT_SECCOMP {
            if let Some(r) = regs(pid) {
                if let Some((name, path)) = classify(pid, &r.0, spec) {
                    if holding.is_some() {
                        waiting.push_back((pid, st));
                        continue;
                    }
                    let n = t.n;
                    if let Some((_, held, go)) = spec.hold.iter().find(|h| h.0 == n && !released.contains(&n)) {
                        std::fs::write(held, b"")?;
                        holding = Some((pid, st, go, std::time::Instant::now()));
                        continue;
                    }
                    t.n += 1;
                    if t.events.len() < 20_000 {
                        t.events.push(format!("{name} {path}"));
                    }
                    if spec.kill == Some(n) {
                        if spec.torn && name == "write" && r.0.rdx > 1 {
                            let mut h = r.0;
                            h.rdx /= 2;
                            if h.orig_rax as i64 == libc::SYS_write || h.orig_rax as i64 == libc::SYS_pwrite64 {
                                note_dirty(pid, &r.0, &path, spec, &mut dirty);
                                unsafe {
                                    libc::ptrace(libc::PTRACE_SETREGS, pid, 0, &h);
                                    libc::ptrace(libc::PTRACE_SYSCALL, pid, 0, 0);
                                    let mut s2 = 0;
                                    libc::waitpid(pid, &mut s2, libc::__WALL);
                                }
                            }
                        }
                        unsafe { libc::kill(main, libc::SIGKILL) };
                        t.killed = true;
                        continue;
                    }
                    let fail = spec.fail.iter().find(|(k, _)| *k == n).map(|f| f.1).or(spec.fail_from.filter(|(k, _)| n >= *k && (spec.fail_all || fills(&name))).map(|f| f.1));
                    if let Some(e) = fail {
                        if spec.slow > 0 {
                            slow.insert(pid);
                        }
                        t.failed.push(format!("{name} {path} -> {e}"));
                        let mut h = r.0;
                        h.orig_rax = u64::MAX;
                        h.rax = (-(e as i64)) as u64;
                        unsafe { libc::ptrace(libc::PTRACE_SETREGS, pid, 0, &h) };
                    } else if spec.short.contains(&n) && matches!(name.as_str(), "read" | "write") && r.0.rdx > 1 && halves(r.0.orig_rax as i64) {
                        t.failed.push(format!("{name} {path} of {} -> {}", r.0.rdx, r.0.rdx / 2));
                        let mut h = r.0;
                        h.rdx /= 2;
                        unsafe { libc::ptrace(libc::PTRACE_SETREGS, pid, 0, &h) };
                    } else if !spec.power.is_empty() {
                        match name.as_str() {
                            "write" | "copy" => note_dirty(pid, &r.0, &path, spec, &mut dirty),
                            "fsync" => {
                                if let Ok(f) = std::fs::File::open(format!("/proc/{pid}/fd/{}", r.0.rdi)) {
                                    if let Ok(m) = f.metadata() {
                                        if let Some(d) = dirty.get_mut(&(m.dev(), m.ino())) {
                                            d.dirty = false;
                                            d.synced = m.len();
                                        }
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                } else if slow.remove(&pid) {
                    parked.push((pid, std::time::Instant::now()));
                    continue;
                }
            }
        } else if ev != 0 {
        } else if sig == libc::SIGSTOP && seen.insert(pid) {
        } else if sig != libc::SIGTRAP {
            deliver = sig;
        }
        unsafe { libc::ptrace(libc::PTRACE_CONT, pid, 0, deliver) };
    }
    if t.killed {
        for d in dirty.values().filter(|d| d.dirty) {
            let _ = d.file.set_len(d.synced);
        }
    }
    Ok(t)
}

fn halves(nr: i64) -> bool {
    matches!(nr, libc::SYS_read | libc::SYS_write | libc::SYS_pread64 | libc::SYS_pwrite64)
}

/// Calls that need space.
fn fills(name: &str) -> bool {
    matches!(name, "open+" | "write" | "copy" | "mkdir" | "symlink" | "link" | "fallocate")
}

fn note_dirty(pid: i32, r: &libc::user_regs_struct, path: &str, spec: &Spec, dirty: &mut HashMap<(u64, u64), Dirty>) {
    if !spec.power.iter().any(|p| path.starts_with(p.as_str())) {
        return;
    }
    let fd = if r.orig_rax as i64 == libc::SYS_copy_file_range { r.rdx } else { r.rdi };
    let Ok(f) = std::fs::OpenOptions::new().write(true).open(format!("/proc/{pid}/fd/{fd}")) else { return };
    let Ok(m) = f.metadata() else { return };
    let d = dirty.entry((m.dev(), m.ino())).or_insert(Dirty { file: f, synced: 0, dirty: true });
    d.dirty = true;
}

pub fn cstr(s: &str) -> CString {
    CString::new(s).unwrap()
}

impl Sandbox {
    /// Start a supervised command; `finish` it with `trace_result`.
    pub fn trace_command(&self, cwd: &str, args: &[&str], spec: &Spec, tag: &str) -> R<(std::process::Command, PathBuf)> {
        let mut s = spec.clone();
        s.argv = vec![self.bin.to_str().unwrap().to_string()];
        s.argv.extend(args.iter().map(|a| a.to_string()));
        if s.under.is_empty() {
            s.under = vec![self.p("").to_str().unwrap().to_string()];
        }
        let out = self.root.join(format!("trace{tag}.out"));
        let _ = std::fs::remove_file(&out);
        s.out = out.to_str().unwrap().into();
        let sp = self.root.join(format!("trace{tag}.spec"));
        std::fs::write(&sp, serde_json::to_vec(&s).unwrap())?;
        let mut c = std::process::Command::new(self.bin.with_file_name("vh"));
        c.arg("helper-trace").arg(&sp);
        self.setup(&mut c, cwd);
        Ok((c, out))
    }
    pub fn traced(&self, cwd: &str, args: &[&str], spec: &Spec) -> R<(Out, Trace)> {
        let (mut c, out) = self.trace_command(cwd, args, spec, "")?;
        let mut o = run_command_opts(&mut c, false)?;
        let t = read_trace(&out, &o)?;
        o.code = t.code;
        o.signal = t.signal;
        o.cmdline = args.join(" ");
        if keep_trace() {
            eprintln!("TRACED {:?} kill {:?} of {} fail {:?} -> {:?}\n{}", args, spec.kill, t.n, t.failed, t.code, o.stderr);
        }
        Ok((o, t))
    }
}
pub fn read_trace(out: &Path, o: &Out) -> R<Trace> {
    let mut b = vec![];
    match std::fs::File::open(out) {
        Ok(mut f) => {
            f.read_to_end(&mut b)?;
        }
        Err(e) => err!("supervisor left no trace ({e}): {}", o.describe()),
    }
    serde_json::from_slice(&b).map_err(|e| Fail::E(format!("trace: {e}")))
}
