//! A repository, its sources and the model of what its snapshots must hold.
use crate::cli::*;
use crate::engine::*;
use crate::fsck;
use crate::fsm::*;
use crate::{viol, want};
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::PathBuf;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Backend {
    Plain,
    Cached,
    /// Stored bytes are the byte-wise translation of the object (tr).
    Filter,
    /// Filtered by a script which can be made to fail (C16).
    Script(Codec),
    /// A model B2 service giving so many names per page, used with so many connections.
    B2(u8, u8),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Codec {
    Cat,
    Tr,
    Base64,
    Header,
    /// Puts 150000 zeros in front.
    Pad,
    /// In many small pieces.
    Bits,
    /// Reads everything before it writes anything.
    Slurp,
}
impl Codec {
    pub fn commands(self) -> (String, String) {
        let (a, b) = match self {
            Codec::Cat => ("cat", "cat"),
            Codec::Tr => (FILTER, UNFILTER),
            Codec::Base64 => ("base64 -w0", "base64 -d"),
            Codec::Header => ("{ printf 'HDR!'; cat; }", "tail -c +5"),
            Codec::Pad => ("{ head -c 150000 /dev/zero; cat; }", "tail -c +150001"),
            Codec::Bits => ("dd bs=61 status=none", "dd bs=67 status=none"),
            Codec::Slurp => ("{ x=$(base64 -w0); printf %s \"$x\"; }", "{ x=$(cat); printf %s \"$x\" | base64 -d; }"),
        };
        (a.into(), b.into())
    }
    pub fn decode(self, b: Vec<u8>) -> fsck::Res<Vec<u8>> {
        let strip = |p: &[u8]| if b.starts_with(p) { Ok(b[p.len()..].to_vec()) } else { Err("is not the filter's output".into()) };
        match self {
            Codec::Cat | Codec::Bits => Ok(b),
            Codec::Tr => unfilter(b),
            Codec::Base64 | Codec::Slurp => data_encoding::BASE64.decode(&b).map_err(|_| "is not the filter's output".into()),
            Codec::Header => strip(b"HDR!"),
            Codec::Pad => strip(&[0; 150_000]),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Setup {
    pub pack: Option<u32>,
    pub backend: Backend,
    pub xdev: bool,
}
impl Setup {
    pub fn plain() -> Setup {
        Setup { pack: None, backend: Backend::Plain, xdev: false }
    }
}
pub fn pack_size() -> BoxedStrategy<Option<u32>> {
    prop_oneof![2 => Just(None), 4 => prop::sample::select(vec![Some(300u32), Some(1000), Some(3000), Some(20_000)])].boxed()
}
pub fn setup() -> BoxedStrategy<Setup> {
    (pack_size(), prop_oneof![6 => Just(Backend::Plain), 2 => Just(Backend::Cached), 1 => Just(Backend::Filter)], prop::bool::weighted(0.15))
        .prop_map(|(pack, backend, xdev)| Setup { pack, backend, xdev })
        .boxed()
}

pub const FILTER: &str = "tr '\\000-\\377' '\\001-\\377\\000'";
pub const UNFILTER: &str = "tr '\\001-\\377\\000' '\\000-\\377'";
pub fn unfilter(b: Vec<u8>) -> fsck::Res<Vec<u8>> {
    Ok(b.into_iter().map(|x| x.wrapping_sub(1)).collect())
}

#[derive(Clone, Debug)]
pub struct SnapModel {
    pub id: String,
    pub paths: Vec<String>,
    pub flat: Flat,
    pub author: Option<String>,
    pub tags: BTreeSet<String>,
    pub roots: BTreeMap<String, Node>,
}

pub struct World {
    pub sb: Sandbox,
    pub roots: BTreeMap<String, Node>,
    pub clk: Clock,
    pub snaps: Vec<SnapModel>,
    pub setup: Setup,
    pub nout: u32,
    alt: Option<PathBuf>,
    pub b2: Option<crate::b2::Mock>,
}
impl Drop for World {
    fn drop(&mut self) {
        if let Some(a) = &self.alt {
            let _ = wipe(a);
        }
    }
}

pub fn write_config(sb: &Sandbox, repo: &str, s: &Setup) -> R<()> {
    let mut t = String::new();
    if let Some(p) = s.pack {
        t += &format!("pack_size = \"{p} B\"\n");
    }
    if s.backend == Backend::Filter {
        t += &format!("filter = {FILTER:?}\nunfilter = {UNFILTER:?}\n");
    }
    if let Backend::Script(c) = s.backend {
        write_script(sb, c)?;
        let f = sb.ps("f.sh");
        // (With exec, a signal kills the very process started, else it's some child of it.)
        let ex = if matches!(c, Codec::Cat | Codec::Base64 | Codec::Header | Codec::Slurp) { "exec " } else { "" };
        t += &format!("filter = \"{ex}sh {f} filter\"\nunfilter = \"{ex}sh {f} unfilter\"\n");
    }
    t += &format!("[backend]\ntype = \"Filesystem\"\nforce_cache = {}\n", s.backend == Backend::Cached);
    std::fs::write(sb.p(repo).join("config.toml"), t)?;
    Ok(())
}

fn write_script(sb: &Sandbox, c: Codec) -> R<()> {
    let (a, b) = c.commands();
    let d = sb.ps("filter");
    std::fs::create_dir_all(sb.p("filter/calls"))?;
    std::fs::write(
        sb.p("f.sh"),
        format!(
            r#"filter() {{ {a}; }}
unfilter() {{ {b}; }}
k=$1
i=0
if [ -e {d}/plan ]; then
    . {d}/plan
    while ! mkdir {d}/calls/$run/$k-$i 2>/dev/null; do i=$((i+1)); done
    if [ $k = $which ] && [ $i -ge $n ] && {{ [ -z "$once" ] || [ $i = $n ]; }}; then
        : > {d}/calls/$run/failed
        case $mode in
        exit) exit 1;;
        part) $k | head -c $bytes; exit 3;;
        few) head -c $bytes | $k; exit 3;;
        all) $k; exit 4;;
        kill) $k | head -c $bytes; kill -9 $$;;
        mute) cat > /dev/null; exit 5;;
        noise) head -c 300000 /dev/zero; exit 6;;
        gone) exec /nonexistent-vh/filter;;
        err) echo trouble >&2; exit 255;;
        lie) $k | head -c $bytes; exit 0;;
        esac
    fi
fi
$k
"#
        ),
    )?;
    Ok(())
}

impl World {
    pub fn new(env: &Env, setup: &Setup) -> R<World> {
        let mut sb = Sandbox::new(env)?;
        std::fs::create_dir(sb.p("src"))?;
        let mut b2 = None;
        if let Backend::B2(page, _) = setup.backend {
            let m = crate::b2::Mock::start(&sb.p(""), page as usize)?;
            sb.env.push(("BACKPAK_B2_API".into(), m.url()));
            if let Some(l) = haste_lib(&env.scratch) {
                sb.env.push(("LD_PRELOAD".into(), l.to_str().unwrap().into()));
            }
            sb.bin = env.scratch.join("backpak-hook");
            want!(sb.bin.exists(), "no build with the hook");
            b2 = Some(m);
        }
        let mut w = World { sb, roots: BTreeMap::new(), clk: Clock::new(0), snaps: vec![], setup: setup.clone(), nout: 0, alt: None, b2 };
        w.make_repo("repo", setup)?;
        Ok(w)
    }
    pub fn make_repo(&mut self, repo: &str, setup: &Setup) -> R<()> {
        if let Backend::B2(_, conns) = setup.backend {
            for d in ["packs", "indexes", "snapshots"] {
                std::fs::create_dir_all(self.sb.p(repo).join(d))?;
            }
            let cfg = self.sb.p(repo).join("config.toml");
            let (c, f) = (conns.to_string(), cfg.to_str().unwrap());
            let size = setup.pack.map(|p| format!("{p} B"));
            let mut a = vec!["-r", f, "init"];
            if let Some(s) = &size {
                a.extend(["--pack-size", s.as_str()]);
            }
            a.extend(["backblaze", "--key-id", "key", "--application-key", "secret", "--bucket", repo, "--concurrent-connections", &c]);
            self.sb.ok(&a)?;
            return Ok(());
        }
        if setup.xdev {
            if let Ok(a) = std::env::var("VH_ALT") {
                let d = match &self.alt {
                    Some(d) => d.clone(),
                    None => {
                        let d = PathBuf::from(a).join(self.sb.root.file_name().unwrap());
                        std::fs::create_dir(&d)?;
                        self.alt = Some(d.clone());
                        d
                    }
                };
                std::fs::create_dir(d.join(repo))?;
                std::os::unix::fs::symlink(d.join(repo), self.sb.p(repo))?;
            }
        }
        self.sb.init(repo, setup.pack.map(|p| format!("{p} B")).as_deref(), setup.backend == Backend::Cached)?;
        if matches!(setup.backend, Backend::Filter | Backend::Script(_)) {
            write_config(&self.sb, repo, setup)?;
        }
        Ok(())
    }
    pub fn set_root(&mut self, name: &str, node: &Node) -> R<()> {
        let mut n = node.clone();
        let mut seen = HashSet::new();
        for r in self.roots.values() {
            collect_times(r, &mut seen);
        }
        uniq_times(&mut n, &mut seen, &mut self.clk);
        remake(&n, &self.sb.p("src").join(name))?;
        self.roots.insert(name.to_string(), n);
        Ok(())
    }
    pub fn edit(&mut self, name: &str, e: &Edit) -> R<&'static str> {
        let r = self.roots.get_mut(name).unwrap();
        let l = apply(r, e, &mut self.clk);
        if !l.is_empty() {
            remake(r, &self.sb.p("src").join(name))?;
        }
        Ok(l)
    }
    pub fn src(&self, name: &str) -> String {
        self.sb.ps(&format!("src/{name}"))
    }
    pub fn expected(&self, names: &[String]) -> Flat {
        let mut f = Flat::new();
        for n in names {
            self.roots[n].flat_into(n, &mut f);
        }
        f
    }
    pub fn repo_arg(&self) -> String {
        self.sb.ps("repo")
    }
    /// Run backpak on the main repository.
    pub fn bp(&self, args: &[&str]) -> R<Out> {
        let r = self.repo_arg();
        let mut a = vec!["-r", r.as_str()];
        a.extend(args);
        self.sb.run(&a)
    }
    pub fn bp_ok(&self, args: &[&str]) -> R<Out> {
        let o = self.bp(args)?;
        if !o.ok() {
            viol!("command failed: {}", o.describe());
        }
        Ok(o)
    }
    pub fn backup(&mut self, names: &[String], extra: &[&str]) -> R<Option<String>> {
        self.backup_in("cwd", names, extra)
    }
    /// Back up the named roots; returns the new snapshot's ID if there is one.
    pub fn backup_in(&mut self, cwd: &str, names: &[String], extra: &[&str]) -> R<Option<String>> {
        let before = self.sb.snapshots("repo")?;
        let r = self.repo_arg();
        let paths: Vec<String> = names.iter().map(|n| self.src(n)).collect();
        let mut a = vec!["-r", &r, "backup"];
        a.extend(extra);
        a.push("--");
        a.extend(paths.iter().map(|s| s.as_str()));
        self.sb.ok_in(cwd, &a)?;
        self.adopt(names, &before)
    }
    /// Record the snapshot that appeared since `before`.
    pub fn adopt(&mut self, names: &[String], before: &BTreeSet<String>) -> R<Option<String>> {
        let after = self.sb.snapshots("repo")?;
        if let Some(g) = before.difference(&after).next() {
            viol!("snapshot {g} disappeared during a backup");
        }
        let new: Vec<_> = after.difference(before).cloned().collect();
        want!(new.len() <= 1, "one backup made {} snapshots", new.len());
        if let Some(id) = new.first() {
            let flat = self.expected(names);
            self.snaps.push(SnapModel {
                id: id.clone(),
                paths: names.iter().map(|n| self.src(n)).collect(),
                flat,
                author: None,
                tags: BTreeSet::new(),
                roots: names.iter().map(|n| (n.clone(), self.roots[n].clone())).collect(),
            });
        }
        Ok(new.first().cloned())
    }
    /// Put the roots back to what they were when `s` was taken (times included).
    pub fn revert(&mut self, s: &SnapModel) -> R<()> {
        for (n, r) in &s.roots {
            remake(r, &self.sb.p("src").join(n))?;
            self.roots.insert(n.clone(), r.clone());
        }
        Ok(())
    }
    pub fn forget(&mut self, ids: &[String], extra: &[&str]) -> R<()> {
        let mut a = vec!["forget"];
        a.extend(extra);
        a.extend(ids.iter().map(|s| s.as_str()));
        self.bp_ok(&a)?;
        self.snaps.retain(|s| !ids.contains(&s.id));
        Ok(())
    }
    /// Restore snapshot `id` into a fresh directory and give back what is there, keyed like
    /// the snapshot (top-level names included).
    pub fn restored(&mut self, repo: &str, id: &str, paths: &[String], flags: &[&str]) -> R<Flat> {
        self.nout += 1;
        let out = format!("out{}", self.nout);
        std::fs::create_dir(self.sb.p(&out))?;
        let (r, o) = (self.sb.ps(repo), self.sb.ps(&out));
        let mut a = vec!["-r", &r, "restore", "-o", &o];
        a.extend(flags);
        a.extend(["--", id]);
        let x = self.sb.run(&a)?;
        if !x.ok() {
            viol!("restore failed: {}", x.describe());
        }
        let f = scan(&self.sb.p(&out))?;
        wipe(&self.sb.p(&out))?;
        Ok(rekey(f, paths))
    }
    pub fn check_restore(&mut self, s: &SnapModel, flags: &[&str]) -> R<()> {
        self.check_restore_from("repo", s, flags)
    }
    pub fn check_restore_from(&mut self, repo: &str, s: &SnapModel, flags: &[&str]) -> R<()> {
        let mut got = self.restored(repo, &s.id, &s.paths, flags)?;
        let top = s.paths[0].rsplit('/').next().unwrap();
        if s.paths.len() == 1 && !s.flat.contains_key(top) {
            got.remove(top); // (That's the output directory itself.)
        }
        let c = Cmp {
            times: flags.contains(&"--times"),
            modes: flags.contains(&"--permissions"),
            root_meta: false,
            atimes: false,
        };
        let d = cmp(&s.flat, &got, c);
        if !d.is_empty() {
            viol!("restoring snapshot {} {flags:?} gives something else than was backed up: {}", s.id, show(&d));
        }
        Ok(())
    }
    pub fn check_all(&mut self, flags: &[&str]) -> R<()> {
        for s in self.snaps.clone() {
            self.check_restore(&s, flags)?;
        }
        Ok(())
    }
    pub fn fsck_of(&self, repo: &str, b: &Backend) -> R<fsck::Repo> {
        let script;
        let f: &dyn Fn(Vec<u8>) -> fsck::Res<Vec<u8>> = match b {
            Backend::Filter => &unfilter,
            Backend::Script(c) => {
                script = |b| c.decode(b);
                &script
            }
            _ => &|b| Ok(b),
        };
        fsck::load_with(&self.sb.p(repo), f).map_err(|e| Fail::V(format!("repository is malformed: {e}")))
    }
    pub fn fsck(&self) -> R<fsck::Repo> {
        self.fsck_of("repo", &self.setup.backend.clone())
    }
    /// Independent reader: structure, indexes, reachability, and every model snapshot's tree.
    pub fn deep_check(&self) -> R<fsck::Repo> {
        let r = self.fsck()?;
        self.deep_check_repo(&r, &self.snaps)?;
        Ok(r)
    }
    pub fn deep_check_repo(&self, r: &fsck::Repo, snaps: &[SnapModel]) -> R<()> {
        r.sound().map_err(|e| Fail::V(format!("repository is not sound: {e}")))?;
        let have: BTreeSet<_> = r.snaps.keys().cloned().collect();
        let model: BTreeSet<_> = snaps.iter().map(|s| s.id.clone()).collect();
        want!(have == model, "snapshots present {have:?}, expected {model:?}");
        let blobs = r.indexed_blobs();
        for s in snaps {
            let f = r.flat(&r.snaps[&s.id].tree, &blobs).map_err(|e| Fail::V(format!("snapshot {}: {e}", s.id)))?;
            let d = cmp(&s.flat, &f, Cmp { times: true, modes: true, root_meta: true, atimes: false });
            want!(d.is_empty(), "snapshot {} holds something else than was backed up: {}", s.id, show(&d));
            let p: BTreeSet<String> = s.paths.iter().cloned().collect();
            want!(r.snaps[&s.id].paths == p, "snapshot {} records paths {:?} instead of {p:?}", s.id, r.snaps[&s.id].paths);
        }
        Ok(())
    }
    pub fn check_cmd(&self, repo: &str) -> R<()> {
        let r = self.sb.ps(repo);
        for a in [vec!["-r", &r, "check"], vec!["-r", &r, "check", "--read-packs"]] {
            let o = self.sb.run(&a)?;
            if !o.ok() {
                viol!("check fails on a sound repository: {}", o.describe());
            }
        }
        Ok(())
    }
}

/// A restore with -o of one path puts its contents directly into the output directory.
pub fn rekey(f: Flat, paths: &[String]) -> Flat {
    let mut out = Flat::new();
    if paths.len() == 1 {
        let n = paths[0].rsplit('/').next().unwrap();
        for (p, e) in f {
            out.insert(join(n, &p).trim_end_matches('/').to_string(), e);
        }
    } else {
        for (p, e) in f {
            if !p.is_empty() {
                out.insert(p, e);
            }
        }
    }
    out
}

pub fn collect_times(n: &Node, s: &mut HashSet<Time>) {
    match n {
        Node::F { t, .. } => {
            s.insert(*t);
        }
        Node::D { kids, .. } => kids.values().for_each(|k| collect_times(k, s)),
        _ => {}
    }
}

/// A non-empty selection of root names out of a bit mask.
pub fn select(names: &[&str], mask: u32) -> Vec<String> {
    let v: Vec<String> = names.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, n)| n.to_string()).collect();
    if v.is_empty() { vec![names[0].to_string()] } else { v }
}

/// The entries left when everything matching (and what is below it) is skipped.
pub fn without(f: &Flat, patterns: &[String]) -> Flat {
    let set = regex::RegexSet::new(patterns).expect("generated patterns are valid");
    let mut out = Flat::new();
    'next: for (p, e) in f {
        if p.is_empty() {
            out.insert(p.clone(), e.clone());
            continue;
        }
        let mut at = String::new();
        for c in p.split('/') {
            at = join(&at, c);
            if set.is_match(&at) {
                continue 'next;
            }
        }
        out.insert(p.clone(), e.clone());
    }
    out
}
/// A pattern for paths ending in these components, the same for absolute and relative paths.
pub fn ending(rel: &str) -> String {
    format!("(^|/){}$", regex::escape(rel))
}

/// Copy what is below `from` into the existing directory `to`.
pub fn copy_into(from: &std::path::Path, to: &std::path::Path) -> R<()> {
    for e in std::fs::read_dir(from)? {
        let e = e?;
        let t = to.join(e.file_name());
        let ft = e.file_type()?;
        if ft.is_dir() {
            std::fs::create_dir(&t)?;
            copy_into(&e.path(), &t)?;
        } else if ft.is_symlink() {
            std::os::unix::fs::symlink(std::fs::read_link(e.path())?, &t)?;
        } else {
            std::fs::copy(e.path(), &t)?;
        }
    }
    Ok(())
}
pub fn empty_dir(p: &std::path::Path) -> R<()> {
    for e in std::fs::read_dir(p)? {
        wipe(&e?.path())?;
    }
    Ok(())
}
impl World {
    /// Remember the state of some directories of the sandbox.
    pub fn save(&self, dirs: &[&str], tag: &str) -> R<()> {
        for d in dirs {
            let t = self.sb.root.join(format!("save-{tag}-{d}"));
            std::fs::create_dir(&t)?;
            copy_into(&self.sb.p(d), &t)?;
        }
        Ok(())
    }
    pub fn load(&self, dirs: &[&str], tag: &str) -> R<()> {
        for d in dirs {
            empty_dir(&self.sb.p(d))?;
            copy_into(&self.sb.root.join(format!("save-{tag}-{d}")), &self.sb.p(d))?;
        }
        Ok(())
    }
}
