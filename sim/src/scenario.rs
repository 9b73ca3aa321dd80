//! A scenario is the complete, explicit description of one simulated world:
//! initial files, simulated processes, concurrent actors, schedule and faults.
//! A run is a pure function of the scenario and of the code under test, so a
//! serialised scenario is the replay file.

use crate::json::*;

#[derive(Clone, Debug, PartialEq)]
pub enum FileSpec {
    File(Vec<u8>),
    ReadOnly(Vec<u8>),
    Dir,
    Symlink(String),
    /// Another name of a file listed before.
    Hard(String),
    Fifo(Vec<u8>),
    /// A FIFO with a reader at the other end.
    Sink,
    /// A directory in which nothing may be created, removed or renamed.
    Sealed,
}

/// What a simulated process was asked to do, as the user sees it.
#[derive(Clone, Debug, PartialEq)]
pub enum Task {
    /// Assemble `input` (path as given) into `output` (path as given; "-" is stdout).
    Assemble { input: String, output: String },
    /// -h / -v
    Info,
    /// A command line that names no assembly.
    BadUsage,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ProcSpec {
    pub task: Task,
    pub argv: Vec<String>,
    pub cwd: String,
    pub env: Vec<(String, String)>,
    /// 0: unknown environment variables are unset; otherwise they get values derived from this.
    pub env_chaos: u64,
    /// Not 0: files the process merely looks for may turn out to exist, derived from this.
    pub phantoms: u64,
    /// The standard streams are a terminal.
    pub tty: bool,
    pub release: bool,
    pub entropy: u64,
    pub clock: i64,
    pub pid: u32,
    pub uid: u32,
    pub umask: u32,
    pub heap_shift: u32,
    pub alloc_fail_at: u32,
    pub alloc_fail_len: u32,
    /// Transfer limits applied cyclically to successive calls; 0 or empty: no limit.
    pub read_chunks: Vec<u32>,
    pub write_chunks: Vec<u32>,
    pub stdout_chunks: Vec<u32>,
    pub stdin: Vec<u8>,
    /// After this many bytes, writes to stdout fail with this errno.
    pub stdout_limit: Option<(u64, i32)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Class {
    InOpen,
    InRead,
    InMeta,
    InClose,
    OutOpen,
    OutWrite,
    OutMeta,
    OutClose,
    StdoutWrite,
    StderrWrite,
    Random,
    Other,
    Any,
}

pub const CLASSES: &[(Class, &str)] = &[
    (Class::InOpen, "in.open"),
    (Class::InRead, "in.read"),
    (Class::InMeta, "in.meta"),
    (Class::InClose, "in.close"),
    (Class::OutOpen, "out.open"),
    (Class::OutWrite, "out.write"),
    (Class::OutMeta, "out.meta"),
    (Class::OutClose, "out.close"),
    (Class::StdoutWrite, "stdout.write"),
    (Class::StderrWrite, "stderr.write"),
    (Class::Random, "random"),
    (Class::Other, "other"),
    (Class::Any, "any"),
];

pub fn class_name(c: Class) -> &'static str {
    CLASSES.iter().find(|x| x.0 == c).unwrap().1
}

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    /// The call is interrupted before doing anything.
    Eintr,
    /// The call fails with this errno; `forever`: so does every later call of the class.
    Errno { errno: i32, forever: bool },
    /// At most n bytes are transferred by this call.
    Short(u32),
    /// n bytes are transferred, and every later call of the class fails.
    TornErr { n: u32, errno: i32 },
    /// A write that accepts nothing and reports no error.
    Zero,
    /// The process is killed before / after the call takes effect, or after n bytes of it.
    KillBefore,
    KillAfter,
    KillTorn(u32),
    /// The file size reported by stat is wrong (special files, growing files).
    LieSize(i64),
    /// statx is not available (old kernel).
    NoSys,
    /// The call takes this long.
    Stall(u64),
    /// close() releases the descriptor but reports a delayed write error: the data is lost.
    CloseErr(i32),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub proc: usize,
    pub class: Class,
    pub nth: u32,
    pub act: Act,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Edit {
    /// Create or replace in place (same inode when it exists).
    Put(String, Vec<u8>),
    /// Replace by rename: readers that have the old file open keep it.
    Replace(String, Vec<u8>),
    /// Overwrite part of a file in place.
    Poke(String, u64, Vec<u8>),
    Append(String, Vec<u8>),
    Truncate(String, u64),
    Remove(String),
    /// Free space left on the device from now on (None: unlimited).
    Space(Option<u64>),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct RunPhase {
    pub procs: Vec<ProcSpec>,
    /// Other actors on the machine; each performs its edits in order, interleaved by the schedule.
    pub actors: Vec<Vec<Edit>>,
    /// Successive choices of who moves next (taken modulo the number of runnable parties).
    pub schedule: Vec<u16>,
    pub faults: Vec<Fault>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Phase {
    Run(RunPhase),
    Edit(Edit),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Scenario {
    pub property: String,
    pub seed: u64,
    /// Sub-kind of the workload, for statistics and for the oracle.
    pub kind: String,
    pub files: Vec<(String, FileSpec)>,
    pub phases: Vec<Phase>,
}

impl ProcSpec {
    pub fn assemble(input: &str, output: &str) -> ProcSpec {
        ProcSpec {
            task: Task::Assemble { input: input.into(), output: output.into() },
            argv: vec!["c8s".into(), "-o".into(), output.into(), input.into()],
            cwd: "/w".into(),
            env: vec![],
            env_chaos: 0,
            phantoms: 0,
            tty: false,
            release: false,
            entropy: 1,
            clock: 1_700_000_000_000_000_000,
            pid: 4242,
            uid: 1000,
            umask: 0o022,
            heap_shift: 0,
            alloc_fail_at: 0,
            alloc_fail_len: 0,
            read_chunks: vec![],
            write_chunks: vec![],
            stdout_chunks: vec![],
            stdin: vec![],
            stdout_limit: None,
        }
    }
    pub fn io(&self) -> Option<(&str, &str)> {
        match &self.task {
            Task::Assemble { input, output } => Some((input, output)),
            _ => None,
        }
    }
}

fn u(x: u64) -> J {
    J::Int(x as i64)
}
fn nums(v: &[u32]) -> J {
    arr(v.iter().map(|x| i(*x)).collect())
}
fn to_nums(j: &J) -> Vec<u32> {
    j.items().iter().map(|x| x.as_u64() as u32).collect()
}
fn strs(v: &[String]) -> J {
    arr(v.iter().map(|x| s(x)).collect())
}

impl ProcSpec {
    fn to_json(&self) -> J {
        let mut v = vec![];
        match &self.task {
            Task::Assemble { input, output } => {
                v.push(("task", s("assemble")));
                v.push(("input", s(input)));
                v.push(("output", s(output)));
            }
            Task::Info => v.push(("task", s("info"))),
            Task::BadUsage => v.push(("task", s("bad-usage"))),
        }
        v.push(("argv", strs(&self.argv)));
        v.push(("cwd", s(&self.cwd)));
        v.push(("env", arr(self.env.iter().map(|(a, b)| arr(vec![s(a), s(b)])).collect())));
        v.push(("env_chaos", u(self.env_chaos)));
        v.push(("phantoms", u(self.phantoms)));
        v.push(("tty", J::Bool(self.tty)));
        v.push(("profile", s(if self.release { "release" } else { "debug" })));
        v.push(("entropy", u(self.entropy)));
        v.push(("clock", J::Int(self.clock)));
        v.push(("pid", i(self.pid)));
        v.push(("uid", i(self.uid)));
        v.push(("umask", i(self.umask)));
        v.push(("heap_shift", i(self.heap_shift)));
        v.push(("alloc_fail_at", i(self.alloc_fail_at)));
        v.push(("alloc_fail_len", i(self.alloc_fail_len)));
        v.push(("read_chunks", nums(&self.read_chunks)));
        v.push(("write_chunks", nums(&self.write_chunks)));
        v.push(("stdout_chunks", nums(&self.stdout_chunks)));
        v.push(("stdin", bytes(&self.stdin)));
        if let Some((n, e)) = self.stdout_limit {
            v.push(("stdout_limit", arr(vec![u(n), i(e)])));
        }
        obj(v)
    }
    fn from_json(j: &J) -> ProcSpec {
        let task = match j.get("task").as_str() {
            "assemble" => Task::Assemble { input: j.get("input").as_str().into(), output: j.get("output").as_str().into() },
            "info" => Task::Info,
            _ => Task::BadUsage,
        };
        ProcSpec {
            task,
            argv: j.get("argv").items().iter().map(|x| x.as_str().to_string()).collect(),
            cwd: j.get("cwd").as_str().into(),
            env: j.get("env").items().iter().map(|x| (x.items()[0].as_str().into(), x.items()[1].as_str().into())).collect(),
            env_chaos: j.get("env_chaos").as_u64(),
            phantoms: j.get("phantoms").as_u64(),
            tty: j.get("tty").as_bool(),
            release: j.get("profile").as_str() == "release",
            entropy: j.get("entropy").as_u64(),
            clock: j.get("clock").as_i64(),
            pid: j.get("pid").as_u64() as u32,
            uid: j.get("uid").as_u64() as u32,
            umask: j.get("umask").as_u64() as u32,
            heap_shift: j.get("heap_shift").as_u64() as u32,
            alloc_fail_at: j.get("alloc_fail_at").as_u64() as u32,
            alloc_fail_len: j.get("alloc_fail_len").as_u64() as u32,
            read_chunks: to_nums(j.get("read_chunks")),
            write_chunks: to_nums(j.get("write_chunks")),
            stdout_chunks: to_nums(j.get("stdout_chunks")),
            stdin: j.get("stdin").as_bytes(),
            stdout_limit: match j.get("stdout_limit") {
                J::Arr(v) => Some((v[0].as_u64(), v[1].as_i64() as i32)),
                _ => None,
            },
        }
    }
}

impl Act {
    pub fn name(&self) -> String {
        match self {
            Act::Eintr => "eintr".into(),
            Act::Errno { errno, forever } => format!("{}{}", errno_name(*errno), if *forever { "(forever)" } else { "" }),
            Act::Short(_) => "short".into(),
            Act::TornErr { errno, .. } => format!("torn+{}", errno_name(*errno)),
            Act::Zero => "zero-write".into(),
            Act::KillBefore => "kill-before".into(),
            Act::KillAfter => "kill-after".into(),
            Act::KillTorn(_) => "kill-torn".into(),
            Act::LieSize(_) => "wrong-size".into(),
            Act::NoSys => "enosys".into(),
            Act::Stall(_) => "stall".into(),
            Act::CloseErr(e) => format!("close-{}", errno_name(*e)),
        }
    }
    fn to_json(&self) -> J {
        match self {
            Act::Eintr => arr(vec![s("eintr")]),
            Act::Errno { errno, forever } => arr(vec![s("errno"), i(*errno), J::Bool(*forever)]),
            Act::Short(n) => arr(vec![s("short"), i(*n)]),
            Act::TornErr { n, errno } => arr(vec![s("torn-err"), i(*n), i(*errno)]),
            Act::Zero => arr(vec![s("zero")]),
            Act::KillBefore => arr(vec![s("kill-before")]),
            Act::KillAfter => arr(vec![s("kill-after")]),
            Act::KillTorn(n) => arr(vec![s("kill-torn"), i(*n)]),
            Act::LieSize(n) => arr(vec![s("lie-size"), i(*n)]),
            Act::NoSys => arr(vec![s("nosys")]),
            Act::Stall(n) => arr(vec![s("stall"), u(*n)]),
            Act::CloseErr(e) => arr(vec![s("close-err"), i(*e)]),
        }
    }
    fn from_json(j: &J) -> Act {
        let v = j.items();
        let n = |k: usize| v.get(k).map(|x| x.as_i64()).unwrap_or(0);
        match v[0].as_str() {
            "eintr" => Act::Eintr,
            "errno" => Act::Errno { errno: n(1) as i32, forever: v[2].as_bool() },
            "short" => Act::Short(n(1) as u32),
            "torn-err" => Act::TornErr { n: n(1) as u32, errno: n(2) as i32 },
            "zero" => Act::Zero,
            "kill-before" => Act::KillBefore,
            "kill-after" => Act::KillAfter,
            "kill-torn" => Act::KillTorn(n(1) as u32),
            "lie-size" => Act::LieSize(n(1)),
            "nosys" => Act::NoSys,
            "stall" => Act::Stall(n(1) as u64),
            _ => Act::CloseErr(n(1) as i32),
        }
    }
}

pub fn errno_name(e: i32) -> String {
    let names = [
        (libc::EPERM, "EPERM"),
        (libc::ENOENT, "ENOENT"),
        (libc::EINTR, "EINTR"),
        (libc::EIO, "EIO"),
        (libc::EAGAIN, "EAGAIN"),
        (libc::ENOMEM, "ENOMEM"),
        (libc::EACCES, "EACCES"),
        (libc::ENOTDIR, "ENOTDIR"),
        (libc::EISDIR, "EISDIR"),
        (libc::ENFILE, "ENFILE"),
        (libc::EMFILE, "EMFILE"),
        (libc::ETXTBSY, "ETXTBSY"),
        (libc::EFBIG, "EFBIG"),
        (libc::ENOSPC, "ENOSPC"),
        (libc::EROFS, "EROFS"),
        (libc::EPIPE, "EPIPE"),
        (libc::ELOOP, "ELOOP"),
        (libc::ENOSYS, "ENOSYS"),
        (libc::ESTALE, "ESTALE"),
        (libc::EDQUOT, "EDQUOT"),
        (libc::ETIMEDOUT, "ETIMEDOUT"),
        (libc::ENXIO, "ENXIO"),
        (libc::ENODEV, "ENODEV"),
        (libc::ESPIPE, "ESPIPE"),
        (libc::EBADF, "EBADF"),
        (libc::EINVAL, "EINVAL"),
        (libc::EEXIST, "EEXIST"),
        (libc::ENAMETOOLONG, "ENAMETOOLONG"),
        (libc::EOVERFLOW, "EOVERFLOW"),
    ];
    names.iter().find(|x| x.0 == e).map(|x| x.1.to_string()).unwrap_or(format!("errno{}", e))
}

impl Edit {
    pub fn name(&self) -> &'static str {
        match self {
            Edit::Put(..) => "put",
            Edit::Replace(..) => "replace",
            Edit::Poke(..) => "poke",
            Edit::Append(..) => "append",
            Edit::Truncate(..) => "truncate",
            Edit::Remove(..) => "remove",
            Edit::Space(..) => "space",
        }
    }
    fn to_json(&self) -> J {
        match self {
            Edit::Put(p, b) => obj(vec![("put", s(p)), ("data", bytes(b))]),
            Edit::Replace(p, b) => obj(vec![("replace", s(p)), ("data", bytes(b))]),
            Edit::Poke(p, o, b) => obj(vec![("poke", s(p)), ("at", u(*o)), ("data", bytes(b))]),
            Edit::Append(p, b) => obj(vec![("append", s(p)), ("data", bytes(b))]),
            Edit::Truncate(p, n) => obj(vec![("truncate", s(p)), ("at", u(*n))]),
            Edit::Remove(p) => obj(vec![("remove", s(p))]),
            Edit::Space(n) => obj(vec![("space", n.map(u).unwrap_or(J::Null))]),
        }
    }
    fn from_json(j: &J) -> Edit {
        let k = match j {
            J::Obj(v) => v[0].0.as_str(),
            _ => "",
        };
        let p = j.get(k).as_str().to_string();
        let d = j.get("data").as_bytes();
        match k {
            "put" => Edit::Put(p, d),
            "replace" => Edit::Replace(p, d),
            "poke" => Edit::Poke(p, j.get("at").as_u64(), d),
            "append" => Edit::Append(p, d),
            "truncate" => Edit::Truncate(p, j.get("at").as_u64()),
            "remove" => Edit::Remove(p),
            _ => Edit::Space(match j.get("space") {
                J::Int(x) => Some(*x as u64),
                _ => None,
            }),
        }
    }
}

impl Scenario {
    pub fn to_json(&self) -> J {
        let files = self
            .files
            .iter()
            .map(|(p, f)| match f {
                FileSpec::File(b) => obj(vec![("path", s(p)), ("file", bytes(b))]),
                FileSpec::ReadOnly(b) => obj(vec![("path", s(p)), ("readonly", bytes(b))]),
                FileSpec::Dir => obj(vec![("path", s(p)), ("dir", J::Bool(true))]),
                FileSpec::Symlink(t) => obj(vec![("path", s(p)), ("symlink", s(t))]),
                FileSpec::Hard(t) => obj(vec![("path", s(p)), ("hard", s(t))]),
                FileSpec::Fifo(b) => obj(vec![("path", s(p)), ("fifo", bytes(b))]),
                FileSpec::Sink => obj(vec![("path", s(p)), ("sink", J::Bool(true))]),
                FileSpec::Sealed => obj(vec![("path", s(p)), ("sealed", J::Bool(true))]),
            })
            .collect();
        let phases = self
            .phases
            .iter()
            .map(|p| match p {
                Phase::Edit(e) => obj(vec![("edit", e.to_json())]),
                Phase::Run(r) => obj(vec![
                    ("procs", arr(r.procs.iter().map(|p| p.to_json()).collect())),
                    ("actors", arr(r.actors.iter().map(|a| arr(a.iter().map(|e| e.to_json()).collect())).collect())),
                    ("schedule", arr(r.schedule.iter().map(|x| i(*x)).collect())),
                    (
                        "faults",
                        arr(r
                            .faults
                            .iter()
                            .map(|f| obj(vec![("proc", i(f.proc as u64)), ("call", s(class_name(f.class))), ("nth", i(f.nth)), ("act", f.act.to_json())]))
                            .collect()),
                    ),
                ]),
            })
            .collect();
        obj(vec![
            ("property", s(&self.property)),
            ("seed", u(self.seed)),
            ("kind", s(&self.kind)),
            ("files", arr(files)),
            ("phases", arr(phases)),
        ])
    }

    pub fn from_json(j: &J) -> Scenario {
        let files = j
            .get("files")
            .items()
            .iter()
            .map(|f| {
                let spec = if *f.get("file") != J::Null {
                    FileSpec::File(f.get("file").as_bytes())
                } else if *f.get("readonly") != J::Null {
                    FileSpec::ReadOnly(f.get("readonly").as_bytes())
                } else if *f.get("symlink") != J::Null {
                    FileSpec::Symlink(f.get("symlink").as_str().into())
                } else if *f.get("hard") != J::Null {
                    FileSpec::Hard(f.get("hard").as_str().into())
                } else if *f.get("fifo") != J::Null {
                    FileSpec::Fifo(f.get("fifo").as_bytes())
                } else if *f.get("sink") != J::Null {
                    FileSpec::Sink
                } else if *f.get("sealed") != J::Null {
                    FileSpec::Sealed
                } else {
                    FileSpec::Dir
                };
                (f.get("path").as_str().to_string(), spec)
            })
            .collect();
        let phases = j
            .get("phases")
            .items()
            .iter()
            .map(|p| {
                if *p.get("edit") != J::Null {
                    return Phase::Edit(Edit::from_json(p.get("edit")));
                }
                Phase::Run(RunPhase {
                    procs: p.get("procs").items().iter().map(ProcSpec::from_json).collect(),
                    actors: p.get("actors").items().iter().map(|a| a.items().iter().map(Edit::from_json).collect()).collect(),
                    schedule: p.get("schedule").items().iter().map(|x| x.as_u64() as u16).collect(),
                    faults: p
                        .get("faults")
                        .items()
                        .iter()
                        .map(|f| Fault {
                            proc: f.get("proc").as_u64() as usize,
                            class: CLASSES.iter().find(|c| c.1 == f.get("call").as_str()).map(|c| c.0).unwrap_or(Class::Any),
                            nth: f.get("nth").as_u64() as u32,
                            act: Act::from_json(f.get("act")),
                        })
                        .collect(),
                })
            })
            .collect();
        Scenario {
            property: j.get("property").as_str().into(),
            seed: j.get("seed").as_u64(),
            kind: j.get("kind").as_str().into(),
            files,
            phases,
        }
    }
}
