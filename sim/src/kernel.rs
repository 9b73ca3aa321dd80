//! The simulated operating system: file system, streams, entropy, clock,
//! environment, and the place where faults are injected.

use crate::rng::{mix, Rng};
use crate::scenario::*;
use std::collections::{BTreeMap, HashMap};

pub type Ino = usize;

#[derive(Clone, Debug)]
pub enum Node {
    File(Vec<u8>),
    Dir,
    Symlink(String),
    Fifo(Vec<u8>, usize),
    /// FIFO being read by somebody: what went through it.
    Sink(Vec<u8>),
    Null,
    Full,
    Urandom,
    /// /dev/stdout and friends: refers to a descriptor of the opener.
    Std(i64),
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub node: Node,
    pub readonly: bool,
    /// permission bits of a regular file
    pub mode: u32,
    /// last modification, nanoseconds on the file system's own clock
    pub mtime: i64,
    /// advisory locks: (process, description, exclusive)
    locks: Vec<(usize, usize, bool)>,
}

/// A change to the file system made by a simulated process.
#[derive(Clone, Debug)]
pub struct Mutation {
    pub step: u64,
    pub proc: usize,
    pub what: &'static str,
    pub path: String,
}

#[derive(Clone, Debug)]
pub struct Event {
    pub step: u64,
    pub proc: usize,
    pub call: String,
    pub class: Class,
    pub ret: i64,
    pub err: i32,
    pub fault: Option<String>,
}

#[derive(Clone, Debug, Default)]
pub struct InStream {
    pub path: String,
    pub data: Vec<u8>,
    pub eof: bool,
    /// step at which the end of the file was first seen
    pub eof_step: u64,
    /// step at which data was last delivered
    pub data_step: u64,
}

#[derive(Clone)]
enum Target {
    Ino(Ino),
    Stdin,
    Stdout,
    Stderr,
}

#[derive(Clone)]
struct Desc {
    target: Target,
    pos: u64,
    readable: bool,
    writable: bool,
    append: bool,
    class_in: bool,
    stream: Option<usize>,
    /// content at open, restored when close reports a delayed write error
    at_open: Option<Vec<u8>>,
}

pub struct Proc {
    pub spec: ProcSpec,
    fds: BTreeMap<i64, usize>,
    descs: Vec<Desc>,
    cwd: String,
    ord: HashMap<Class, u32>,
    any: u32,
    poison: HashMap<Class, i32>,
    torn: HashMap<Class, usize>,
    reads: usize,
    writes: usize,
    so_writes: usize,
    rng: Rng,
    /// decides which thread runs, and how long
    threads: Rng,
    stdin_pos: usize,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub streams: Vec<InStream>,
    pub fired: Vec<usize>,
    pub limit_hit: bool,
    pub nospace_hit: bool,
    pub steps: u64,
    pub exited: bool,
    pub refused: Vec<String>,
    pub env_reads: Vec<String>,
    pub clock_reads: u64,
    /// calls that read from standard input, under whatever descriptor
    pub stdin_reads: u64,
    /// files opened for reading only, links followed
    pub opened: Vec<String>,
    umask: u32,
    pub random_bytes: u64,
    pub max_so_write_err: i32,
}

/// Content of a watched path right after some step.
#[derive(Clone, Debug)]
pub struct Snap {
    pub step: u64,
    pub proc: usize,
    pub path: String,
    pub content: Option<Vec<u8>>,
}

pub struct Kernel {
    pub inodes: Vec<Inode>,
    pub names: BTreeMap<String, Ino>,
    pub space: Option<u64>,
    pub procs: Vec<Proc>,
    pub faults: Vec<Fault>,
    pub events: Vec<Event>,
    pub mutations: Vec<Mutation>,
    pub snaps: Vec<Snap>,
    pub watch: Vec<String>,
    pub step: u64,
    pub now: i64,
    /// resolution of file time stamps
    grain: i64,
    /// contents that a failing close took away again: (path, content before)
    pub lost: Vec<(usize, String, Vec<u8>)>,
    version: u64,
    snap_version: u64,
}

pub struct Req<'a> {
    pub op: u32,
    pub a: [i64; 6],
    pub path1: String,
    pub path2: String,
    pub data: &'a [u8],
}

#[derive(Default, Debug)]
pub struct Resp {
    pub ret: i64,
    pub err: i32,
    pub die: bool,
    pub data: Vec<u8>,
    pub r: [i64; 8],
}

fn fail(e: i32) -> Resp {
    Resp { ret: -1, err: e, ..Default::default() }
}
fn ok(n: i64) -> Resp {
    Resp { ret: n, ..Default::default() }
}

pub mod op {
    pub const OPEN: u32 = 1;
    pub const CLOSE: u32 = 2;
    pub const READ: u32 = 3;
    pub const PREAD: u32 = 4;
    pub const WRITE: u32 = 5;
    pub const PWRITE: u32 = 6;
    pub const LSEEK: u32 = 7;
    pub const FSTAT: u32 = 8;
    pub const STAT: u32 = 9;
    pub const LSTAT: u32 = 10;
    pub const ACCESS: u32 = 11;
    pub const RENAME: u32 = 12;
    pub const UNLINK: u32 = 13;
    pub const RMDIR: u32 = 14;
    pub const MKDIR: u32 = 15;
    pub const LINK: u32 = 16;
    pub const SYMLINK: u32 = 17;
    pub const READLINK: u32 = 18;
    pub const FTRUNCATE: u32 = 19;
    pub const TRUNCATE: u32 = 20;
    pub const FSYNC: u32 = 21;
    pub const CHMOD: u32 = 22;
    pub const DUP: u32 = 23;
    pub const GETCWD: u32 = 24;
    pub const CHDIR: u32 = 25;
    pub const GETRANDOM: u32 = 26;
    pub const CLOCK: u32 = 27;
    pub const SLEEP: u32 = 28;
    pub const GETPID: u32 = 29;
    pub const GETENV: u32 = 30;
    pub const REALPATH: u32 = 31;
    pub const UID: u32 = 32;
    pub const DUP2: u32 = 33;
    pub const REFUSED: u32 = 34;
    pub const OPENDIR: u32 = 35;
    pub const READDIR: u32 = 36;
    pub const HOSTNAME: u32 = 37;
    pub const YIELD: u32 = 38;
    pub const ISATTY: u32 = 39;
    pub const TOUCH: u32 = 40;
    pub const FLOCK: u32 = 41;
    pub const UMASK: u32 = 42;
    pub const SCHED: u32 = 43;
    pub const NAMES: &[&str] = &[
        "?", "open", "close", "read", "pread", "write", "pwrite", "lseek", "fstat", "stat", "lstat", "access", "rename", "unlink", "rmdir",
        "mkdir", "link", "symlink", "readlink", "ftruncate", "truncate", "fsync", "chmod", "dup", "getcwd", "chdir", "getrandom", "clock",
        "sleep", "getpid", "getenv", "realpath", "uid", "dup2", "refused", "opendir", "readdir", "hostname", "yield", "isatty", "touch", "flock", "umask", "sched",
    ];
}

pub fn absolute(cwd: &str, p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", cwd, p) };
    let mut parts: Vec<&str> = Vec::new();
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                parts.pop();
            }
            c => parts.push(c),
        }
    }
    format!("/{}", parts.join("/"))
}

impl Kernel {
    pub fn new(files: &[(String, FileSpec)]) -> Kernel {
        let mut k = Kernel {
            inodes: vec![],
            names: BTreeMap::new(),
            space: None,
            procs: vec![],
            faults: vec![],
            events: vec![],
            mutations: vec![],
            snaps: vec![],
            watch: vec![],
            step: 0,
            now: 0,
            // Some file systems keep nanoseconds, some whole or even pairs of seconds.
            grain: [1, 1_000_000_000, 2_000_000_000][(files.iter().fold(7u64, |h, f| mix(&[h, crate::rng::hash_bytes(f.0.as_bytes())])) % 3) as usize],
            lost: vec![],
            version: 0,
            snap_version: 0,
        };
        for (p, n) in [
            ("/", Node::Dir),
            ("/w", Node::Dir),
            ("/tmp", Node::Dir),
            ("/dev", Node::Dir),
            ("/dev/null", Node::Null),
            ("/dev/full", Node::Full),
            ("/dev/urandom", Node::Urandom),
            ("/dev/random", Node::Urandom),
            ("/dev/stdin", Node::Std(0)),
            ("/dev/stdout", Node::Std(1)),
            ("/dev/stderr", Node::Std(2)),
        ] {
            k.add(p, n, false);
        }
        for (p, f) in files {
            // Parent directories appear as needed.
            let mut dir = String::new();
            let comps: Vec<&str> = p.split('/').filter(|c| !c.is_empty()).collect();
            for c in &comps[..comps.len().saturating_sub(1)] {
                dir = format!("{}/{}", dir, c);
                if !k.names.contains_key(&dir) {
                    k.add(&dir, Node::Dir, false);
                }
            }
            match f {
                FileSpec::File(b) => k.add(p, Node::File(b.clone()), false),
                FileSpec::ReadOnly(b) => k.add(p, Node::File(b.clone()), true),
                FileSpec::Dir => k.add(p, Node::Dir, false),
                FileSpec::Symlink(t) => k.add(p, Node::Symlink(t.clone()), false),
                FileSpec::Hard(t) => {
                    if let Some(i) = k.names.get(t).copied() {
                        k.names.insert(p.clone(), i);
                    }
                    continue;
                }
                FileSpec::Fifo(b) => k.add(p, Node::Fifo(b.clone(), 0), false),
                FileSpec::Sink => k.add(p, Node::Sink(vec![]), false),
                FileSpec::Sealed => k.add(p, Node::Dir, true),
            };
            // Files found in place are older, some by far, or carry a date in the future.
            if let Some(i) = k.names.get(p).copied() {
                let h = mix(&[crate::rng::hash_bytes(p.as_bytes()), 9]);
                if !k.inodes[i].readonly {
                    k.inodes[i].mode = [0o644, 0o644, 0o600, 0o664, 0o755, 0o640, 0o666][(h >> 40) as usize % 7];
                }
                k.inodes[i].mtime = k.stamp()
                    + match h % 4 {
                        0 => (h >> 8) as i64 % 3_600_000_000_000,
                        1 => -((h >> 8) as i64 % 5_000_000_000),
                        _ => -((h >> 8) as i64 % 800_000_000_000_000_000),
                    };
            }
        }
        k
    }

    /// The time stamp a modification gets now.
    fn stamp(&self) -> i64 {
        let t = 1_700_000_000_000_000_000 + self.now;
        t - t % self.grain
    }

    fn add(&mut self, path: &str, node: Node, readonly: bool) -> Ino {
        let mtime = self.stamp();
        let mode = if readonly { 0o444 } else { 0o644 };
        self.inodes.push(Inode { node, readonly, mode, mtime, locks: vec![] });
        self.names.insert(path.to_string(), self.inodes.len() - 1);
        self.inodes.len() - 1
    }

    /// Regular files by path: the observable state of the disk.
    pub fn disk(&self) -> BTreeMap<String, Vec<u8>> {
        let mut m = BTreeMap::new();
        for (p, ino) in &self.names {
            match &self.inodes[*ino].node {
                Node::File(b) => {
                    m.insert(p.clone(), b.clone());
                }
                Node::Symlink(t) => {
                    m.insert(p.clone(), format!("symlink:{}", t).into_bytes());
                }
                Node::Sink(_) => {
                    m.insert(p.clone(), b"fifo:".to_vec());
                }
                Node::Dir if !matches!(p.as_str(), "/" | "/w" | "/tmp" | "/dev") => {
                    m.insert(format!("{}/", p), vec![]);
                }
                _ => {}
            }
        }
        m
    }

    /// What a reader of `path` by process `pid` would get from now on.
    pub fn readable(&self, pid: usize, path: &str) -> Option<Vec<u8>> {
        let (_, ino) = self.resolve(path, true).ok()?;
        match &self.inodes[ino?].node {
            Node::File(b) => Some(b.clone()),
            Node::Fifo(b, p) => Some(b[*p..].to_vec()),
            Node::Std(0) => Some(self.procs[pid].spec.stdin.clone()),
            Node::Null => Some(vec![]),
            _ => None,
        }
    }

    /// Identity and permissions of regular files and FIFOs by path.
    pub fn meta(&self) -> BTreeMap<String, (Ino, u32)> {
        self.names.iter().filter(|(_, i)| matches!(self.inodes[**i].node, Node::File(_) | Node::Sink(_))).map(|(p, i)| (p.clone(), (*i, self.inodes[*i].mode))).collect()
    }

    /// Is the directory of `path` closed to changes?
    fn sealed(&self, path: &str) -> bool {
        let dir = path.rsplit_once('/').map(|x| x.0).unwrap_or("");
        self.names.get(if dir.is_empty() { "/" } else { dir }).map_or(false, |i| self.inodes[*i].readonly)
    }

    pub fn content(&self, path: &str) -> Option<Vec<u8>> {
        let (_, ino) = self.resolve(path, true).ok()?;
        match &self.inodes[ino?].node {
            Node::File(b) | Node::Sink(b) => Some(b.clone()),
            _ => None,
        }
    }

    /// Follows symlinks; the last component may be missing (None).
    pub fn resolve(&self, abs: &str, follow_last: bool) -> Result<(String, Option<Ino>), i32> {
        let mut path = abs.to_string();
        for _ in 0..12 {
            // Every proper prefix must be a directory.
            let comps: Vec<&str> = path.split('/').filter(|c| !c.is_empty()).collect();
            let mut cur = String::new();
            let mut redirected = None;
            for (k, c) in comps.iter().enumerate() {
                cur = format!("{}/{}", cur, c);
                let last = k + 1 == comps.len();
                match self.names.get(&cur).map(|i| &self.inodes[*i].node) {
                    None if last => {}
                    None => return Err(libc::ENOENT),
                    Some(Node::Symlink(t)) if !last || follow_last => {
                        let dir = cur.rsplit_once('/').map(|x| x.0).unwrap_or("");
                        let rest = comps[k + 1..].join("/");
                        redirected = Some(absolute(if dir.is_empty() { "/" } else { dir }, &format!("{}/{}", t, rest)));
                        break;
                    }
                    Some(Node::Dir) => {}
                    Some(_) if last => {}
                    Some(_) => return Err(libc::ENOTDIR),
                }
            }
            match redirected {
                Some(p) => path = p,
                None => {
                    let p = if comps.is_empty() { "/".to_string() } else { cur };
                    let ino = self.names.get(&p).copied();
                    return Ok((p, ino));
                }
            }
        }
        Err(libc::ELOOP)
    }

    fn used(&self) -> u64 {
        let mut seen: Vec<Ino> = self.names.values().copied().collect();
        seen.sort();
        seen.dedup();
        seen.iter().map(|i| if let Node::File(b) = &self.inodes[*i].node { b.len() as u64 } else { 0 }).sum()
    }

    /// Paths by which an inode is reachable.
    fn paths_of(&self, ino: Ino) -> Vec<String> {
        self.names.iter().filter(|(_, i)| **i == ino).map(|(p, _)| p.clone()).collect()
    }

    fn mutate(&mut self, proc: usize, what: &'static str, path: String) {
        self.version += 1;
        self.mutations.push(Mutation { step: self.step, proc, what, path });
    }

    fn mutate_ino(&mut self, proc: usize, what: &'static str, ino: Ino) {
        self.inodes[ino].mtime = self.stamp();
        for p in self.paths_of(ino) {
            self.mutate(proc, what, p);
        }
        self.version += 1;
    }

    pub fn edit(&mut self, who: usize, e: &Edit) {
        self.step += 1;
        // Edits follow at once or after a while.
        self.now += 1_000_000;
        self.version += 1;
        let (path, hash) = match e {
            Edit::Put(p, b) | Edit::Replace(p, b) | Edit::Poke(p, _, b) | Edit::Append(p, b) => (Some(p.clone()), crate::rng::hash_bytes(b)),
            Edit::Truncate(p, n) => (Some(p.clone()), *n),
            Edit::Remove(_) | Edit::Space(_) => (None, 0),
        };
        let hash = mix(&[hash, 5]);
        if hash % 3 == 0 {
            self.now += (hash >> 8) as i64 % 10_000_000_000;
        }
        let dated = path.as_ref().and_then(|p| self.names.get(p)).map(|i| self.inodes[*i].mtime);
        match e {
            Edit::Space(n) => self.space = n.map(|n| n + self.used()),
            Edit::Remove(p) => {
                self.names.remove(p);
            }
            Edit::Replace(p, b) => {
                self.add(p, Node::File(b.clone()), false);
            }
            Edit::Put(p, b) => match self.names.get(p).copied() {
                Some(i) if matches!(self.inodes[i].node, Node::File(_)) => self.inodes[i].node = Node::File(b.clone()),
                Some(_) => {}
                None => {
                    self.add(p, Node::File(b.clone()), false);
                }
            },
            Edit::Poke(p, at, b) => {
                if let Some(i) = self.names.get(p).copied() {
                    if let Node::File(f) = &mut self.inodes[i].node {
                        let end = *at as usize + b.len();
                        if f.len() < end {
                            f.resize(end, b' ');
                        }
                        f[*at as usize..end].copy_from_slice(b);
                    }
                }
            }
            Edit::Append(p, b) => {
                if let Some(i) = self.names.get(p).copied() {
                    if let Node::File(f) = &mut self.inodes[i].node {
                        f.extend_from_slice(b);
                    }
                }
            }
            Edit::Truncate(p, n) => {
                if let Some(i) = self.names.get(p).copied() {
                    if let Node::File(f) = &mut self.inodes[i].node {
                        f.truncate(*n as usize);
                    }
                }
            }
        }
        if let Some(i) = path.and_then(|p| self.names.get(&p)).copied() {
            // A copied file may keep the date it had elsewhere.
            self.inodes[i].mtime = match (hash >> 4) % 6 {
                0 => dated.unwrap_or(self.stamp()),
                1 => self.stamp() - (hash >> 8) as i64 % 100_000_000_000_000,
                _ => self.stamp(),
            };
        }
        self.events.push(Event {
            step: self.step,
            proc: who,
            call: format!("edit:{}", e.name()),
            class: Class::Other,
            ret: 0,
            err: 0,
            fault: None,
        });
        self.snapshot(who);
    }

    pub fn spawn(&mut self, spec: &ProcSpec) -> usize {
        let mk = |t: Target, r: bool, w: bool| Desc {
            target: t,
            pos: 0,
            readable: r,
            writable: w,
            append: false,
            class_in: false,
            stream: None,
            at_open: None,
        };
        let mut fds = BTreeMap::new();
        fds.insert(0, 0);
        fds.insert(1, 1);
        fds.insert(2, 2);
        self.procs.push(Proc {
            fds,
            descs: vec![mk(Target::Stdin, true, false), mk(Target::Stdout, false, true), mk(Target::Stderr, false, true)],
            cwd: spec.cwd.clone(),
            ord: HashMap::new(),
            any: 0,
            poison: HashMap::new(),
            torn: HashMap::new(),
            reads: 0,
            writes: 0,
            so_writes: 0,
            rng: Rng::new(mix(&[spec.entropy, 77])),
            threads: Rng::new(mix(&[spec.entropy, 78])),
            stdin_pos: 0,
            stdout: vec![],
            stderr: vec![],
            streams: vec![],
            fired: vec![],
            limit_hit: false,
            nospace_hit: false,
            steps: 0,
            exited: false,
            refused: vec![],
            env_reads: vec![],
            clock_reads: 0,
            stdin_reads: 0,
            opened: vec![],
            umask: spec.umask,
            random_bytes: 0,
            max_so_write_err: 0,
            spec: spec.clone(),
        });
        self.procs.len() - 1
    }

    /// Records the content of watched paths if the disk changed since last time.
    pub fn snapshot(&mut self, proc: usize) {
        if self.version == self.snap_version {
            return;
        }
        self.snap_version = self.version;
        for p in self.watch.clone() {
            let content = self.content(&p);
            let same = self.snaps.iter().rev().find(|s| s.path == p).map_or(false, |s| s.content == content);
            if !same {
                self.snaps.push(Snap { step: self.step, proc, path: p, content });
            }
        }
    }

    pub fn force_snapshot(&mut self) {
        self.version += 1;
        self.snapshot(usize::MAX);
    }

    /// Would this flock have to wait for another holder?
    pub fn flock_blocks(&self, pid: usize, fd: i64, how: i64) -> bool {
        let how = how as i32 & !libc::LOCK_NB;
        let d = match self.procs[pid].fds.get(&fd) {
            Some(d) => *d,
            None => return false,
        };
        match self.procs[pid].descs[d].target {
            Target::Ino(i) if how != libc::LOCK_UN => self.inodes[i].locks.iter().any(|l| !(l.0 == pid && l.1 == d) && (l.2 || how == libc::LOCK_EX)),
            _ => false,
        }
    }

    /// The process is gone: its descriptors are closed, its locks released.
    pub fn gone(&mut self, pid: usize) {
        self.procs[pid].exited = true;
        for i in &mut self.inodes {
            i.locks.retain(|l| l.0 != pid);
        }
    }

    /// A file that is merely looked for may exist: what lies around in directories
    /// is not for the program to depend on.
    fn conjure(&mut self, pid: usize, path: &str) {
        let spec = &self.procs[pid].spec;
        if ["/dev", "/proc", "/sys", "/etc"].iter().any(|d| path.starts_with(d)) {
            return;
        }
        let (path, ino) = match self.resolve(path, true) {
            Ok(x) => x,
            Err(_) => return,
        };
        let own = match spec.io() {
            Some((i, o)) => [i, o].iter().any(|x| absolute(&spec.cwd, x) == path || self.resolve(&absolute(&spec.cwd, x), true).map_or(false, |y| y.0 == path)),
            None => false,
        };
        let h = mix(&[spec.phantoms, crate::rng::hash_bytes(path.as_bytes())]);
        if ino.is_some() || own || h % 2 == 0 {
            return;
        }
        let text: &[u8] = match (h >> 4) % 6 {
            0 => b"",
            1 => b"1\n",
            2 => b"nop\n",
            3 => b"[c8s]\ncolor = always\n",
            4 => b":00000001FF\n",
            _ => b"start: .equ $300\n",
        };
        self.add(&path, Node::File(text.to_vec()), false);
    }

    fn desc(&self, pid: usize, fd: i64) -> Option<&Desc> {
        let p = &self.procs[pid];
        p.fds.get(&fd).map(|d| &p.descs[*d])
    }

    fn classify(&self, pid: usize, q: &Req) -> Class {
        let by_fd = |fd: i64, i: Class, o: Class| match self.desc(pid, fd) {
            Some(d) => match d.target {
                Target::Stdin => i,
                Target::Stdout | Target::Stderr => o,
                Target::Ino(ino) => match self.inodes[ino].node {
                    Node::Urandom => Class::Random,
                    _ => {
                        if d.class_in {
                            i
                        } else {
                            o
                        }
                    }
                },
            },
            None => Class::Other,
        };
        match q.op {
            op::OPEN => {
                let w = q.a[0] & 3 != 0 || q.a[0] & (libc::O_CREAT | libc::O_TRUNC) as i64 != 0;
                if w {
                    Class::OutOpen
                } else if q.path1 == "/dev/urandom" || q.path1 == "/dev/random" {
                    Class::Random
                } else {
                    Class::InOpen
                }
            }
            op::READ | op::PREAD => by_fd(q.a[0], Class::InRead, Class::Other),
            op::WRITE | op::PWRITE => match self.desc(pid, q.a[0]).map(|d| d.target.clone()) {
                Some(Target::Stdout) => Class::StdoutWrite,
                Some(Target::Stderr) => Class::StderrWrite,
                _ => Class::OutWrite,
            },
            op::CLOSE => by_fd(q.a[0], Class::InClose, Class::OutClose),
            op::LSEEK | op::FSTAT | op::ISATTY => by_fd(q.a[0], Class::InMeta, Class::OutMeta),
            op::STAT | op::LSTAT | op::ACCESS | op::READLINK | op::REALPATH => Class::InMeta,
            op::RENAME | op::UNLINK | op::RMDIR | op::MKDIR | op::LINK | op::SYMLINK | op::FTRUNCATE | op::TRUNCATE | op::FSYNC | op::CHMOD | op::TOUCH => {
                Class::OutMeta
            }
            op::GETRANDOM => Class::Random,
            _ => Class::Other,
        }
    }

    /// One system call of process `pid`: the only way anything happens.
    /// Which thread of a process gets to run: `a[0]` can, `a[1]` more could if the
    /// time they are prepared to wait had passed.  The first is the one running now,
    /// when `a[2]` is set.
    fn next_thread(&mut self, pid: usize, q: &Req) -> Resp {
        let (ready, timed) = (q.a[0] as usize, q.a[1] as usize);
        let ids: Vec<u16> = q.data.chunks_exact(2).map(|b| u16::from_le_bytes([b[0], b[1]])).collect();
        let p = &mut self.procs[pid];
        if ready + timed == 0 {
            // All wait for one another.
            self.events.push(Event { step: self.step, proc: pid, call: "every thread waits".into(), class: Class::Other, ret: -99, err: 0, fault: None });
            return Resp { die: true, ret: -1, ..Default::default() };
        }
        let style = mix(&[p.spec.entropy, 79]) % 6;
        let r = &mut p.threads;
        let mut c = if ready == 0 || (timed > 0 && r.chance(1, 40)) {
            ready + r.usize(timed)
        } else {
            match style {
                // whoever runs, keeps running
                0 if q.a[2] != 0 && !r.chance(1, 16) => 0,
                // the oldest first, the newest first
                1 | 2 if !r.chance(1, 16) => {
                    let ids = &ids[..ready];
                    let want = if style == 1 { ids.iter().min() } else { ids.iter().max() };
                    ids.iter().position(|i| Some(i) == want).unwrap()
                }
                _ => r.usize(ready),
            }
        };
        c = c.min(ready + timed - 1);
        let fuel = if style < 3 { 1 + r.skew(4000) } else { 1 + r.skew(200) };
        self.now += if c >= ready { 3_600_000_000_000 } else { 1_000 };
        self.events.push(Event { step: self.step, proc: pid, call: format!("thread {}", ids.get(c).copied().unwrap_or(0)), class: Class::Other, ret: 0, err: 0, fault: None });
        let mut out = ok(c as i64);
        out.r[0] = fuel as i64;
        out
    }

    pub fn syscall(&mut self, pid: usize, q: &Req) -> Resp {
        self.step += 1;
        if q.op == op::SCHED {
            return self.next_thread(pid, q);
        }
        let class = self.classify(pid, q);
        let nth = {
            let p = &mut self.procs[pid];
            p.steps += 1;
            p.any += 1;
            let o = p.ord.entry(class).or_insert(0);
            *o += 1;
            *o
        };
        let any = self.procs[pid].any;
        let lat = 1_000 + self.procs[pid].rng.below(200_000) as i64;
        self.now += lat;

        // Which injected fault applies to this call?
        let mut act: Option<(usize, Act)> = None;
        for (k, f) in self.faults.iter().enumerate() {
            if f.proc == pid && ((f.class == class && f.nth == nth) || (f.class == Class::Any && f.nth == any)) {
                if Self::applicable(&f.act, q.op, class) {
                    act = Some((k, f.act.clone()));
                    break;
                }
            }
        }
        let mut note = None;
        let mut limit: Option<u64> = None;
        let mut kill_after = false;
        let mut lie: Option<i64> = None;
        let mut pre: Option<Resp> = None;
        let mut poison_after: Option<(i32, usize)> = None;
        let mut close_err: Option<i32> = None;

        if let Some(e) = self.procs[pid].poison.get(&class).copied() {
            pre = Some(fail(e));
            note = Some(format!("still failing: {}", errno_name(e)));
            // The error after a torn transfer counts as a failure once the program has been told.
            if let Some(k) = self.procs[pid].torn.remove(&class) {
                self.procs[pid].fired.push(k);
            }
        } else if let Some((k, a)) = act {
            note = Some(a.name());
            if !matches!(a, Act::TornErr { n, .. } if n > 0) {
                self.procs[pid].fired.push(k);
            }
            match a {
                Act::Eintr => pre = Some(fail(libc::EINTR)),
                Act::Errno { errno, forever } => {
                    if forever {
                        self.procs[pid].poison.insert(class, errno);
                    }
                    pre = Some(fail(errno));
                }
                Act::Short(n) => limit = Some(n.max(1) as u64),
                Act::TornErr { n, errno } => {
                    if n == 0 {
                        self.procs[pid].poison.insert(class, errno);
                        pre = Some(fail(errno));
                    } else {
                        limit = Some(n as u64);
                        poison_after = Some((errno, k));
                    }
                }
                Act::Zero => pre = Some(ok(0)),
                Act::KillBefore => pre = Some(Resp { die: true, ..Default::default() }),
                Act::KillAfter => kill_after = true,
                Act::KillTorn(n) => {
                    limit = Some(n.max(1) as u64);
                    kill_after = true;
                }
                Act::LieSize(n) => lie = Some(n),
                Act::NoSys => pre = Some(fail(libc::ENOSYS)),
                Act::Stall(ns) => self.now += ns as i64,
                Act::CloseErr(e) => close_err = Some(e),
            }
        }

        let mut resp = match pre {
            Some(r) => r,
            None => self.perform(pid, q, limit, lie, close_err),
        };
        if let Some((e, k)) = poison_after {
            self.procs[pid].poison.insert(class, e);
            if resp.ret <= 0 {
                // Nothing was left to transfer: the error comes at once.
                self.procs[pid].fired.push(k);
                resp = fail(e);
            } else {
                self.procs[pid].torn.insert(class, k);
            }
        }
        if kill_after {
            resp.die = true;
        }
        let call = match q.op {
            op::OPEN | op::STAT | op::LSTAT | op::UNLINK | op::MKDIR | op::GETENV | op::ACCESS | op::REFUSED => {
                format!("{} {}", op::NAMES[q.op as usize], q.path1)
            }
            op::RENAME | op::LINK | op::SYMLINK => format!("{} {} {}", op::NAMES[q.op as usize], q.path1, q.path2),
            op::READ | op::WRITE | op::PREAD | op::PWRITE => format!("{} fd{} {}", op::NAMES[q.op as usize], q.a[0], q.a[1]),
            _ => op::NAMES.get(q.op as usize).unwrap_or(&"?").to_string(),
        };
        self.events.push(Event { step: self.step, proc: pid, call, class, ret: if resp.die { -99 } else { resp.ret }, err: resp.err, fault: note });
        self.snapshot(pid);
        resp
    }

    fn applicable(a: &Act, o: u32, class: Class) -> bool {
        match a {
            Act::Short(_) | Act::TornErr { .. } => matches!(o, op::READ | op::WRITE | op::PREAD | op::PWRITE),
            Act::KillTorn(_) | Act::Zero => matches!(o, op::WRITE | op::PWRITE),
            Act::LieSize(_) => matches!(o, op::FSTAT | op::STAT) && class == Class::InMeta,
            Act::NoSys => matches!(o, op::FSTAT | op::STAT | op::LSTAT | op::GETRANDOM),
            Act::Eintr => matches!(o, op::OPEN | op::READ | op::WRITE | op::PREAD | op::PWRITE | op::GETRANDOM | op::FSYNC),
            Act::CloseErr(_) => o == op::CLOSE,
            _ => true,
        }
    }

    fn chunk(v: &[u32], k: usize) -> Option<u64> {
        // Limits stop after a while, so that no run is all tiny transfers.
        if v.is_empty() || k >= 3000 {
            return None;
        }
        match v[k % v.len()] {
            0 => None,
            n => Some(n as u64),
        }
    }

    fn new_fd(&mut self, pid: usize, d: Desc, min: i64) -> i64 {
        let p = &mut self.procs[pid];
        p.descs.push(d);
        let mut fd = min;
        while p.fds.contains_key(&fd) {
            fd += 1;
        }
        p.fds.insert(fd, p.descs.len() - 1);
        fd
    }

    fn stat_resp(&self, ino: Ino, lie: Option<i64>) -> Resp {
        let n = &self.inodes[ino];
        let (size, mode) = match &n.node {
            Node::File(b) => (b.len() as i64, 0o100000 | n.mode as i64),
            Node::Dir => (4096, if n.readonly { 0o040555 } else { 0o040755 }),
            Node::Symlink(t) => (t.len() as i64, 0o120777),
            Node::Fifo(..) | Node::Sink(_) | Node::Std(_) => (0, 0o010644),
            _ => (0, 0o020666),
        };
        let mut r = ok(0);
        r.r[0] = lie.unwrap_or(size);
        r.r[1] = mode;
        r.r[2] = ino as i64 + 100;
        r.r[3] = self.paths_of(ino).len() as i64;
        r.r[4] = n.mtime.div_euclid(1_000_000_000);
        r.r[5] = n.mtime.rem_euclid(1_000_000_000);
        r
    }

    fn random_fill(&mut self, pid: usize, n: usize) -> Vec<u8> {
        let p = &mut self.procs[pid];
        p.random_bytes += n as u64;
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            v.extend_from_slice(&p.rng.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }

    fn perform(&mut self, pid: usize, q: &Req, limit: Option<u64>, lie: Option<i64>, close_err: Option<i32>) -> Resp {
        let cwd = self.procs[pid].cwd.clone();
        let abs = |p: &str| absolute(&cwd, p);
        // Paths that do not name anything.
        let needs_path = matches!(
            q.op,
            op::OPEN | op::STAT | op::LSTAT | op::ACCESS | op::RENAME | op::UNLINK | op::RMDIR | op::MKDIR | op::TRUNCATE | op::CHDIR | op::REALPATH | op::READLINK
        );
        if needs_path && q.path1.is_empty() {
            return fail(libc::ENOENT);
        }
        if needs_path && q.path1.len() > 1024 {
            return fail(libc::ENAMETOOLONG);
        }
        if self.procs[pid].spec.phantoms != 0 {
            match q.op {
                op::STAT | op::LSTAT | op::ACCESS => self.conjure(pid, &abs(&q.path1)),
                op::OPEN if q.a[0] as i32 & libc::O_CREAT == 0 => self.conjure(pid, &abs(&q.path1)),
                _ => {}
            }
        }
        match q.op {
            op::OPEN => self.do_open(pid, &abs(&q.path1), q.path1.ends_with('/'), q.a[0] as i32, q.a[1] as u32),
            op::CLOSE => {
                let d = match self.procs[pid].fds.remove(&q.a[0]) {
                    Some(d) => d,
                    None => return fail(libc::EBADF),
                };
                if !self.procs[pid].fds.values().any(|x| *x == d) {
                    for i in &mut self.inodes {
                        i.locks.retain(|l| !(l.0 == pid && l.1 == d));
                    }
                }
                if let Some(e) = close_err {
                    let desc = self.procs[pid].descs[d].clone();
                    if let (Target::Ino(ino), Some(old)) = (desc.target, desc.at_open) {
                        // The buffered data never reached the server.
                        if let Node::File(b) = &self.inodes[ino].node {
                            let b = b.clone();
                            for p in self.paths_of(ino) {
                                self.lost.push((pid, p, b.clone()));
                            }
                        }
                        if let Node::File(b) = &mut self.inodes[ino].node {
                            *b = old;
                        }
                        self.mutate_ino(pid, "lost-write", ino);
                    }
                    return fail(e);
                }
                ok(0)
            }
            op::READ | op::PREAD => self.do_read(pid, q, limit),
            op::WRITE | op::PWRITE => self.do_write(pid, q, limit),
            op::LSEEK => {
                let (target, pos) = match self.desc(pid, q.a[0]) {
                    Some(d) => (d.target.clone(), d.pos as i64),
                    None => return fail(libc::EBADF),
                };
                let size = match target {
                    Target::Ino(i) => match &self.inodes[i].node {
                        Node::File(b) => b.len() as i64,
                        Node::Fifo(..) | Node::Sink(_) => return fail(libc::ESPIPE),
                        _ => 0,
                    },
                    _ => return fail(libc::ESPIPE),
                };
                let np = match q.a[2] {
                    0 => q.a[1],
                    1 => pos + q.a[1],
                    _ => size + q.a[1],
                };
                if np < 0 {
                    return fail(libc::EINVAL);
                }
                let d = self.procs[pid].fds[&q.a[0]];
                self.procs[pid].descs[d].pos = np as u64;
                // Going back starts another pass over the file.
                if let (Some(st), true) = (self.procs[pid].descs[d].stream, np != pos) {
                    let p = &mut self.procs[pid];
                    let path = p.streams[st].path.clone();
                    p.streams.push(InStream { path, ..Default::default() });
                    p.descs[d].stream = Some(p.streams.len() - 1);
                }
                ok(np)
            }
            op::FSTAT => match self.desc(pid, q.a[0]).map(|d| d.target.clone()) {
                Some(Target::Ino(i)) => self.stat_resp(i, lie),
                Some(_) => {
                    let mut r = ok(0);
                    r.r[1] = 0o010644;
                    r.r[0] = lie.unwrap_or(0);
                    r
                }
                None => fail(libc::EBADF),
            },
            op::STAT | op::LSTAT | op::ACCESS => match self.resolve(&abs(&q.path1), q.op != op::LSTAT) {
                Ok((_, Some(i))) => {
                    if q.op == op::ACCESS {
                        if q.a[0] & 2 != 0 && self.inodes[i].readonly {
                            return fail(libc::EACCES);
                        }
                        return ok(0);
                    }
                    self.stat_resp(i, lie)
                }
                Ok((_, None)) => fail(libc::ENOENT),
                Err(e) => fail(e),
            },
            op::RENAME => {
                let (a, b) = (self.resolve(&abs(&q.path1), false), self.resolve(&abs(&q.path2), false));
                match (a, b) {
                    (Ok((pa, Some(ia))), Ok((pb, ib))) => {
                        if let Some(ib) = ib {
                            if matches!(self.inodes[ib].node, Node::Dir) {
                                return fail(libc::EISDIR);
                            }
                            if q.a[0] & 1 != 0 {
                                return fail(libc::EEXIST);
                            }
                        }
                        if pa == pb {
                            return ok(0);
                        }
                        if self.sealed(&pa) || self.sealed(&pb) {
                            return fail(libc::EACCES);
                        }
                        let existed = ib.is_some();
                        self.names.remove(&pa);
                        self.names.insert(pb.clone(), ia);
                        self.mutate(pid, "rename-from", pa);
                        self.mutate(pid, if existed { "replace" } else { "create" }, pb);
                        ok(0)
                    }
                    (Ok((_, None)), _) => fail(libc::ENOENT),
                    (Err(e), _) | (_, Err(e)) => fail(e),
                }
            }
            op::UNLINK => match self.resolve(&abs(&q.path1), false) {
                Ok((_, Some(i))) if matches!(self.inodes[i].node, Node::Dir) => fail(libc::EISDIR),
                Ok((p, Some(_))) if self.sealed(&p) => {
                    let _ = p;
                    fail(libc::EACCES)
                }
                Ok((p, Some(_))) => {
                    self.names.remove(&p);
                    self.mutate(pid, "unlink", p);
                    ok(0)
                }
                Ok((_, None)) => fail(libc::ENOENT),
                Err(e) => fail(e),
            },
            op::RMDIR => match self.resolve(&abs(&q.path1), false) {
                Ok((p, Some(i))) => {
                    if !matches!(self.inodes[i].node, Node::Dir) {
                        return fail(libc::ENOTDIR);
                    }
                    let pre = format!("{}/", p);
                    if self.names.keys().any(|k| k.starts_with(&pre)) {
                        return fail(libc::ENOTEMPTY);
                    }
                    if self.sealed(&p) {
                        return fail(libc::EACCES);
                    }
                    self.names.remove(&p);
                    self.mutate(pid, "rmdir", p);
                    ok(0)
                }
                Ok((_, None)) => fail(libc::ENOENT),
                Err(e) => fail(e),
            },
            op::MKDIR => match self.resolve(&abs(&q.path1), true) {
                Ok((_, Some(_))) => fail(libc::EEXIST),
                Ok((p, None)) => {
                    if self.sealed(&p) {
                        return fail(libc::EACCES);
                    }
                    self.add(&p, Node::Dir, false);
                    self.mutate(pid, "create", p);
                    ok(0)
                }
                Err(e) => fail(e),
            },
            op::LINK => match (self.resolve(&abs(&q.path1), false), self.resolve(&abs(&q.path2), false)) {
                (Ok((_, Some(i))), Ok((p, None))) => {
                    if self.sealed(&p) {
                        return fail(libc::EACCES);
                    }
                    self.names.insert(p.clone(), i);
                    self.mutate(pid, "create", p);
                    ok(0)
                }
                (_, Ok((_, Some(_)))) => fail(libc::EEXIST),
                _ => fail(libc::ENOENT),
            },
            op::SYMLINK => match self.resolve(&abs(&q.path2), false) {
                Ok((p, None)) => {
                    if self.sealed(&p) {
                        return fail(libc::EACCES);
                    }
                    self.add(&p, Node::Symlink(q.path1.clone()), false);
                    self.mutate(pid, "create", p);
                    ok(0)
                }
                Ok(_) => fail(libc::EEXIST),
                Err(e) => fail(e),
            },
            op::READLINK => match self.resolve(&abs(&q.path1), false) {
                Ok((_, Some(i))) => match &self.inodes[i].node {
                    Node::Symlink(t) => Resp { ret: t.len() as i64, data: t.clone().into_bytes(), ..Default::default() },
                    _ => fail(libc::EINVAL),
                },
                Ok((_, None)) => fail(libc::ENOENT),
                Err(e) => fail(e),
            },
            op::REALPATH => match self.resolve(&abs(&q.path1), true) {
                Ok((p, Some(_))) => Resp { ret: p.len() as i64, data: p.into_bytes(), ..Default::default() },
                Ok((_, None)) => fail(libc::ENOENT),
                Err(e) => fail(e),
            },
            op::FTRUNCATE | op::TRUNCATE => {
                let (ino, n) = if q.op == op::FTRUNCATE {
                    match self.desc(pid, q.a[0]) {
                        Some(Desc { target: Target::Ino(i), writable: true, .. }) => (*i, q.a[1]),
                        Some(_) => return fail(libc::EINVAL),
                        None => return fail(libc::EBADF),
                    }
                } else {
                    match self.resolve(&abs(&q.path1), true) {
                        Ok((_, Some(i))) => (i, q.a[0]),
                        Ok((_, None)) => return fail(libc::ENOENT),
                        Err(e) => return fail(e),
                    }
                };
                match &mut self.inodes[ino].node {
                    Node::File(b) => b.resize(n.max(0) as usize, 0),
                    _ => return fail(libc::EINVAL),
                }
                self.mutate_ino(pid, "truncate", ino);
                ok(0)
            }
            op::FSYNC => {
                if q.a[1] <= 1 {
                    match self.desc(pid, q.a[0]).map(|d| d.target.clone()) {
                        Some(Target::Ino(i)) if matches!(self.inodes[i].node, Node::File(_) | Node::Dir) => ok(0),
                        Some(_) => fail(libc::EINVAL),
                        None => fail(libc::EBADF),
                    }
                } else {
                    ok(0)
                }
            }
            op::CHMOD => {
                if q.a[1] >= 0 {
                    if let Some(Target::Ino(i)) = self.desc(pid, q.a[1]).map(|d| d.target.clone()) {
                        self.inodes[i].readonly = q.a[0] & 0o200 == 0;
                        self.inodes[i].mode = q.a[0] as u32 & 0o7777;
                        self.mutate_ino(pid, "chmod", i);
                    }
                    return ok(0);
                }
                match self.resolve(&abs(&q.path1), true) {
                    Ok((p, Some(i))) => {
                        self.inodes[i].readonly = q.a[0] & 0o200 == 0;
                        self.inodes[i].mode = q.a[0] as u32 & 0o7777;
                        self.mutate(pid, "chmod", p);
                        ok(0)
                    }
                    Ok((_, None)) => fail(libc::ENOENT),
                    Err(e) => fail(e),
                }
            }
            op::DUP | op::DUP2 => {
                let d = match self.procs[pid].fds.get(&q.a[0]).copied() {
                    Some(d) => d,
                    None => return fail(libc::EBADF),
                };
                let p = &mut self.procs[pid];
                let mut fd = q.a[1];
                if q.op == op::DUP {
                    fd = fd.max(0);
                    while p.fds.contains_key(&fd) {
                        fd += 1;
                    }
                }
                p.fds.insert(fd, d);
                ok(fd)
            }
            op::GETCWD => Resp { ret: cwd.len() as i64, data: cwd.into_bytes(), ..Default::default() },
            op::CHDIR => match self.resolve(&abs(&q.path1), true) {
                Ok((p, Some(i))) if matches!(self.inodes[i].node, Node::Dir) => {
                    self.procs[pid].cwd = p;
                    ok(0)
                }
                Ok((_, Some(_))) => fail(libc::ENOTDIR),
                Ok((_, None)) => fail(libc::ENOENT),
                Err(e) => fail(e),
            },
            op::GETRANDOM => {
                let mut n = q.a[0] as usize;
                if let Some(l) = limit {
                    n = n.min(l as usize);
                }
                let v = self.random_fill(pid, n);
                Resp { ret: n as i64, data: v, ..Default::default() }
            }
            op::CLOCK => {
                self.procs[pid].clock_reads += 1;
                let mut r = ok(0);
                r.r[0] = self.procs[pid].spec.clock + self.now;
                r
            }
            op::SLEEP => {
                self.now += q.a[0].max(0);
                ok(0)
            }
            op::GETPID => ok(self.procs[pid].spec.pid as i64 - q.a[0]),
            op::UID => ok(self.procs[pid].spec.uid as i64),
            op::GETENV => {
                let p = &mut self.procs[pid];
                p.env_reads.push(q.path1.clone());
                let v = match p.spec.env.iter().find(|e| e.0 == q.path1) {
                    Some(e) => Some(e.1.clone()),
                    None if p.spec.env_chaos != 0 => {
                        let h = mix(&[p.spec.env_chaos, crate::rng::hash_bytes(q.path1.as_bytes())]);
                        match h % 6 {
                            0 => None,
                            1 => Some("1".into()),
                            2 => Some("0".into()),
                            3 => Some("".into()),
                            4 => Some("/tmp".into()),
                            _ => Some(format!("x{}", h % 1000)),
                        }
                    }
                    None => None,
                };
                match v {
                    Some(v) => Resp { ret: v.len() as i64, data: v.into_bytes(), ..Default::default() },
                    None => fail(libc::ENOENT),
                }
            }
            op::HOSTNAME => {
                let h = format!("host{}", self.procs[pid].spec.entropy % 1000);
                Resp { ret: h.len() as i64, data: h.into_bytes(), ..Default::default() }
            }
            op::ISATTY => match self.desc(pid, q.a[0]).map(|d| d.target.clone()) {
                Some(Target::Ino(_)) | None => fail(libc::ENOTTY),
                Some(_) if self.procs[pid].spec.tty => ok(1),
                Some(_) => fail(libc::ENOTTY),
            },
            op::TOUCH => {
                // Explicit time stamps or a change of owner.
                let ino = if q.a[0] >= 0 {
                    match self.desc(pid, q.a[0]).map(|d| d.target.clone()) {
                        Some(Target::Ino(i)) => i,
                        Some(_) => return ok(0),
                        None => return fail(libc::EBADF),
                    }
                } else {
                    match self.resolve(&abs(&q.path1), true) {
                        Ok((_, Some(i))) => i,
                        Ok((_, None)) => return fail(libc::ENOENT),
                        Err(e) => return fail(e),
                    }
                };
                self.mutate_ino(pid, "touch", ino);
                if q.a[1] != 0 {
                    self.inodes[ino].mtime = q.a[1];
                }
                ok(0)
            }
            op::FLOCK => {
                let d = match self.procs[pid].fds.get(&q.a[0]).copied() {
                    Some(d) => d,
                    None => return fail(libc::EBADF),
                };
                let i = match self.procs[pid].descs[d].target {
                    Target::Ino(i) => i,
                    _ => return ok(0),
                };
                if self.flock_blocks(pid, q.a[0], q.a[1]) {
                    return fail(libc::EAGAIN);
                }
                let how = q.a[1] as i32 & !libc::LOCK_NB;
                self.inodes[i].locks.retain(|l| !(l.0 == pid && l.1 == d));
                if how != libc::LOCK_UN {
                    self.inodes[i].locks.push((pid, d, how == libc::LOCK_EX));
                }
                ok(0)
            }
            op::OPENDIR => match self.resolve(&abs(&q.path1), true) {
                Ok((_, Some(i))) if matches!(self.inodes[i].node, Node::Dir) => ok(i as i64),
                Ok((_, Some(_))) => fail(libc::ENOTDIR),
                _ => fail(libc::ENOENT),
            },
            op::READDIR => {
                let dir = match self.paths_of(q.a[0] as usize).first() {
                    Some(p) if p == "/" => "/".to_string(),
                    Some(p) => format!("{}/", p),
                    None => return ok(0),
                };
                let mut names: Vec<String> =
                    self.names.keys().filter_map(|k| k.strip_prefix(&dir)).filter(|r| !r.is_empty() && !r.contains('/')).map(|x| x.to_string()).collect();
                // Directory order is unspecified: it follows the simulated entropy.
                let e = self.procs[pid].spec.entropy;
                names.sort_by_key(|n| mix(&[e, crate::rng::hash_bytes(n.as_bytes())]));
                match names.get(q.a[1] as usize) {
                    Some(n) => Resp { ret: n.len() as i64, data: n.clone().into_bytes(), ..Default::default() },
                    None => ok(0),
                }
            }
            op::YIELD => ok(0),
            op::UMASK => {
                let old = std::mem::replace(&mut self.procs[pid].umask, q.a[0] as u32 & 0o777);
                ok(old as i64)
            }
            op::REFUSED => {
                self.procs[pid].refused.push(q.path1.clone());
                ok(0)
            }
            _ => fail(libc::ENOSYS),
        }
    }

    fn do_open(&mut self, pid: usize, abs: &str, slash: bool, flags: i32, mode: u32) -> Resp {
        let acc = flags & 3;
        let (readable, writable) = (acc == libc::O_RDONLY || acc == libc::O_RDWR, acc != libc::O_RDONLY);
        let (path, ino) = match self.resolve(abs, flags & libc::O_NOFOLLOW == 0) {
            Ok(x) => x,
            Err(e) => return fail(e),
        };
        let ino = match ino {
            Some(i) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return fail(libc::EEXIST);
                }
                if matches!(self.inodes[i].node, Node::Dir) && (writable || flags & libc::O_CREAT != 0) {
                    return fail(libc::EISDIR);
                }
                if slash && !matches!(self.inodes[i].node, Node::Dir) {
                    return fail(libc::ENOTDIR);
                }
                if self.inodes[i].readonly && writable {
                    return fail(libc::EACCES);
                }
                if flags & libc::O_TRUNC != 0 && writable {
                    if let Node::File(b) = &mut self.inodes[i].node {
                        b.clear();
                        self.mutate_ino(pid, "truncate", i);
                    }
                }
                i
            }
            None => {
                if flags & libc::O_CREAT == 0 {
                    return fail(libc::ENOENT);
                }
                if slash {
                    return fail(libc::EISDIR);
                }
                if self.sealed(&path) {
                    return fail(libc::EACCES);
                }
                let i = self.add(&path, Node::File(vec![]), false);
                self.inodes[i].mode = mode & 0o7777 & !self.procs[pid].umask;
                self.mutate(pid, "create", path.clone());
                i
            }
        };
        if flags & libc::O_ACCMODE == libc::O_RDONLY && !matches!(self.inodes[ino].node, Node::Dir) {
            self.procs[pid].opened.push(path.clone());
        }
        // /dev/std*: a new reference to the descriptor.
        if let Node::Std(fd) = self.inodes[ino].node {
            return match self.procs[pid].fds.get(&fd).copied() {
                Some(d) => {
                    let mut desc = self.procs[pid].descs[d].clone();
                    if readable && !writable {
                        let p = &mut self.procs[pid];
                        p.streams.push(InStream { path, ..Default::default() });
                        desc.stream = Some(p.streams.len() - 1);
                        desc.class_in = true;
                    }
                    ok(self.new_fd(pid, desc, 3))
                }
                None => fail(libc::ENXIO),
            };
        }
        let at_open = match &self.inodes[ino].node {
            Node::File(b) if writable => Some(b.clone()),
            _ => None,
        };
        let is_file = matches!(self.inodes[ino].node, Node::File(_) | Node::Fifo(..) | Node::Dir);
        let stream = if readable && !writable && is_file {
            let p = &mut self.procs[pid];
            p.streams.push(InStream { path, ..Default::default() });
            Some(p.streams.len() - 1)
        } else {
            None
        };
        let d = Desc {
            target: Target::Ino(ino),
            pos: 0,
            readable,
            writable,
            append: flags & libc::O_APPEND != 0,
            class_in: !writable,
            stream,
            at_open,
        };
        ok(self.new_fd(pid, d, 3))
    }

    fn do_read(&mut self, pid: usize, q: &Req, limit: Option<u64>) -> Resp {
        let d = match self.procs[pid].fds.get(&q.a[0]).copied() {
            Some(d) => d,
            None => return fail(libc::EBADF),
        };
        let desc = self.procs[pid].descs[d].clone();
        if !desc.readable {
            return fail(libc::EBADF);
        }
        let mut n = q.a[1] as u64;
        if let Some(l) = limit {
            n = n.min(l);
        }
        if desc.class_in || matches!(desc.target, Target::Stdin) {
            let k = self.procs[pid].reads;
            self.procs[pid].reads += 1;
            if let Some(c) = Self::chunk(&self.procs[pid].spec.read_chunks, k) {
                n = n.min(c);
            }
        }
        let pos = if q.op == op::PREAD { q.a[2] as u64 } else { desc.pos };
        let data: Vec<u8> = match desc.target {
            Target::Stdin => {
                let p = &mut self.procs[pid];
                p.stdin_reads += 1;
                let e = (p.stdin_pos + n as usize).min(p.spec.stdin.len());
                let v = p.spec.stdin[p.stdin_pos..e].to_vec();
                p.stdin_pos = e;
                v
            }
            Target::Stdout | Target::Stderr => return fail(libc::EBADF),
            Target::Ino(i) => match &mut self.inodes[i].node {
                Node::File(b) => {
                    let st = (pos as usize).min(b.len());
                    let e = (st + n as usize).min(b.len());
                    b[st..e].to_vec()
                }
                Node::Fifo(b, p) => {
                    let e = (*p + n as usize).min(b.len());
                    let v = b[*p..e].to_vec();
                    *p = e;
                    v
                }
                Node::Dir => return fail(libc::EISDIR),
                Node::Null => vec![],
                Node::Full => vec![0; n as usize],
                Node::Urandom => self.random_fill(pid, n as usize),
                Node::Sink(_) => vec![],
                Node::Symlink(_) | Node::Std(_) => return fail(libc::EINVAL),
            },
        };
        let step = self.step;
        let p = &mut self.procs[pid];
        if q.op == op::READ {
            p.descs[d].pos += data.len() as u64;
        }
        if let Some(s) = desc.stream {
            if data.is_empty() && q.a[1] > 0 {
                if !p.streams[s].eof {
                    p.streams[s].eof_step = step;
                }
                p.streams[s].eof = true;
            }
            if !data.is_empty() {
                p.streams[s].data_step = step;
            }
            p.streams[s].data.extend_from_slice(&data);
        }
        Resp { ret: data.len() as i64, data, ..Default::default() }
    }

    fn do_write(&mut self, pid: usize, q: &Req, limit: Option<u64>) -> Resp {
        let d = match self.procs[pid].fds.get(&q.a[0]).copied() {
            Some(d) => d,
            None => return fail(libc::EBADF),
        };
        let desc = self.procs[pid].descs[d].clone();
        if !desc.writable {
            return fail(libc::EBADF);
        }
        let mut n = q.data.len() as u64;
        if n == 0 {
            return ok(0);
        }
        if let Some(l) = limit {
            n = n.min(l);
        }
        match desc.target {
            Target::Stdin => fail(libc::EBADF),
            Target::Stderr => {
                self.procs[pid].stderr.extend_from_slice(&q.data[..n as usize]);
                ok(n as i64)
            }
            Target::Stdout => {
                let p = &mut self.procs[pid];
                let k = p.so_writes;
                p.so_writes += 1;
                if let Some(c) = Self::chunk(&p.spec.stdout_chunks, k) {
                    n = n.min(c);
                }
                if let Some((max, e)) = p.spec.stdout_limit {
                    let left = max.saturating_sub(p.stdout.len() as u64);
                    if left == 0 {
                        p.limit_hit = true;
                        p.max_so_write_err = e;
                        return fail(e);
                    }
                    n = n.min(left);
                }
                p.stdout.extend_from_slice(&q.data[..n as usize]);
                ok(n as i64)
            }
            Target::Ino(i) => {
                let k = self.procs[pid].writes;
                self.procs[pid].writes += 1;
                if let Some(c) = Self::chunk(&self.procs[pid].spec.write_chunks, k) {
                    n = n.min(c);
                }
                let room = self.space.map(|s| s.saturating_sub(self.used()));
                let pos;
                match &mut self.inodes[i].node {
                    Node::File(b) => {
                        pos = if q.op == op::PWRITE {
                            q.a[2] as usize
                        } else if desc.append {
                            b.len()
                        } else {
                            desc.pos as usize
                        };
                        let mut end = pos + n as usize;
                        if let Some(room) = room {
                            let max = b.len() + room as usize;
                            if end > max {
                                end = max;
                                if end <= pos {
                                    self.procs[pid].nospace_hit = true;
                                    return fail(libc::ENOSPC);
                                }
                                n = (end - pos) as u64;
                            }
                        }
                        if b.len() < end {
                            b.resize(end, 0);
                        }
                        b[pos..end].copy_from_slice(&q.data[..n as usize]);
                    }
                    Node::Null => return ok(n as i64),
                    Node::Full => {
                        self.procs[pid].nospace_hit = true;
                        return fail(libc::ENOSPC);
                    }
                    Node::Sink(_) if q.op == op::PWRITE => return fail(libc::ESPIPE),
                    Node::Sink(b) => {
                        pos = 0;
                        b.extend_from_slice(&q.data[..n as usize]);
                    }
                    Node::Fifo(..) => return ok(n as i64),
                    _ => return fail(libc::EBADF),
                }
                if q.op == op::WRITE {
                    self.procs[pid].descs[d].pos = (pos + n as usize) as u64;
                }
                self.mutate_ino(pid, "write", i);
                ok(n as i64)
            }
        }
    }
}
