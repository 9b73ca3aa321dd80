//! Executes a scenario: spawns the simulated processes, decides who moves at
//! every step, answers their calls from the simulated kernel, records history.

use crate::kernel::*;
use crate::rng::{hash_bytes, mix};
use crate::scenario::*;
use crate::server::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Status {
    Exit(i32),
    /// Died of a signal the simulator did not send.
    Signal(i32),
    /// Killed by an injected crash.
    Killed,
    /// Still running when the step, processor-time or wall-clock limit was reached.
    Hang,
}

#[derive(Clone, Debug)]
pub struct ProcResult {
    pub phase: usize,
    pub spec: ProcSpec,
    pub status: Status,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub streams: Vec<InStream>,
    pub fired: Vec<Fault>,
    pub limit_hit: bool,
    pub nospace_hit: bool,
    pub steps: u64,
    pub allocs: u32,
    pub alloc_fired: u32,
    pub refused: Vec<String>,
    pub env_reads: Vec<String>,
    pub stdin_reads: u64,
    pub opened: Vec<String>,
    pub first_step: u64,
    pub last_step: u64,
    /// What the input path held when the process started (None: nothing readable).
    pub source: Option<Vec<u8>>,
    /// What the output path held when the process started, and when it ended.
    pub out_before: Option<Vec<u8>>,
    pub out_after: Option<Vec<u8>>,
}

pub type Disk = BTreeMap<String, Vec<u8>>;

pub struct History {
    pub procs: Vec<ProcResult>,
    pub snaps: Vec<Snap>,
    /// contents taken away by a failing close: (process, path, content)
    pub lost: Vec<(usize, String, Vec<u8>)>,
    pub mutations: Vec<Mutation>,
    pub events: Vec<Event>,
    /// Disk before the first phase and after each phase.
    pub disks: Vec<Disk>,
    /// Identity and permissions of files, likewise.
    pub metas: Vec<BTreeMap<String, (usize, u32)>>,
    pub sim_ns: i64,
}

impl ProcResult {
    pub fn ok(&self) -> bool {
        self.status == Status::Exit(0)
    }
    /// Absolute output path, when the output is a path.
    pub fn out_path(&self) -> Option<String> {
        match self.spec.io() {
            Some((_, "-")) | None => None,
            Some((_, o)) => Some(absolute(&self.spec.cwd, o)),
        }
    }
    pub fn in_path(&self) -> Option<String> {
        self.spec.io().map(|(i, _)| absolute(&self.spec.cwd, i))
    }
}

impl History {
    /// Everything observable, as one number: equal hashes mean equal executions.
    pub fn hash(&self) -> u64 {
        let mut h = self.trace_hash();
        for p in &self.procs {
            let t = format!("{:?}", p.status);
            h = mix(&[h, hash_bytes(t.as_bytes()), hash_bytes(&p.stdout), hash_bytes(&p.stderr), p.allocs as u64, p.steps]);
        }
        for d in &self.disks {
            for (k, v) in d {
                h = mix(&[h, hash_bytes(k.as_bytes()), hash_bytes(v)]);
            }
        }
        h
    }
    /// The interleaving: who did what, with what result and fault.
    pub fn trace_hash(&self) -> u64 {
        let mut h = 0;
        for e in &self.events {
            let f = e.fault.as_ref().map(|f| hash_bytes(f.as_bytes())).unwrap_or(0);
            h = mix(&[h, e.proc as u64, hash_bytes(e.call.as_bytes()), e.ret as u64, e.err as u64, f]);
        }
        h
    }
    pub fn trace(&self) -> Vec<String> {
        let mut v = vec![];
        for e in &self.events {
            let who = if e.proc >= 1000 { format!("actor{}", e.proc - 1000) } else { format!("p{}", e.proc) };
            let res = if e.ret == -99 {
                "killed".to_string()
            } else if e.ret < 0 {
                errno_name(e.err)
            } else {
                e.ret.to_string()
            };
            let f = e.fault.as_ref().map(|f| format!("   <-- fault: {}", f)).unwrap_or_default();
            v.push(format!("{:4} {} {} -> {}{}", e.step, who, e.call, res, f));
        }
        v
    }
}

pub struct Runner {
    cfg: Config,
    servers: BTreeMap<(bool, usize), Server>,
    pub step_cap: u64,
    pub processes: u64,
}

#[derive(Debug)]
pub struct HarnessError(pub String);

impl Runner {
    pub fn new(cfg: &Config) -> Runner {
        Runner { cfg: cfg.clone(), servers: BTreeMap::new(), step_cap: 400_000, processes: 0 }
    }

    fn server(&mut self, release: bool, slot: usize) -> Result<&mut Server, HarnessError> {
        if !self.servers.contains_key(&(release, slot)) {
            let s = Server::spawn(&self.cfg, release).map_err(HarnessError)?;
            self.servers.insert((release, slot), s);
        }
        Ok(self.servers.get_mut(&(release, slot)).unwrap())
    }

    pub fn run(&mut self, sc: &Scenario) -> Result<History, HarnessError> {
        let mut k = Kernel::new(&sc.files);
        for ph in &sc.phases {
            if let Phase::Run(r) = ph {
                for p in &r.procs {
                    if let Some((_, o)) = p.io() {
                        if o != "-" {
                            let w = absolute(&p.cwd, o);
                            if !k.watch.contains(&w) {
                                k.watch.push(w);
                            }
                        }
                    }
                }
            }
        }
        k.force_snapshot();
        let mut h = History { procs: vec![], snaps: vec![], lost: vec![], mutations: vec![], events: vec![], disks: vec![k.disk()], metas: vec![k.meta()], sim_ns: 0 };
        for (n, ph) in sc.phases.iter().enumerate() {
            match ph {
                Phase::Edit(e) => k.edit(1000, e),
                Phase::Run(r) => self.phase(&mut k, n, r, &mut h)?,
            }
            h.disks.push(k.disk());
            h.metas.push(k.meta());
        }
        h.snaps = std::mem::take(&mut k.snaps);
        h.lost = std::mem::take(&mut k.lost);
        h.mutations = std::mem::take(&mut k.mutations);
        h.events = std::mem::take(&mut k.events);
        h.sim_ns = k.now;
        Ok(h)
    }

    fn phase(&mut self, k: &mut Kernel, n: usize, r: &RunPhase, h: &mut History) -> Result<(), HarnessError> {
        let base = k.procs.len();
        let mut slots: Vec<usize> = vec![];
        let mut used: BTreeMap<bool, usize> = BTreeMap::new();
        for p in &r.procs {
            k.spawn(p);
            let u = used.entry(p.release).or_insert(0);
            slots.push(*u);
            *u += 1;
        }
        for f in &r.faults {
            let mut f = f.clone();
            f.proc += base;
            k.faults.push(f);
        }
        let m = r.procs.len();
        let mut at: Vec<Option<At>> = vec![None; m];
        let mut waits: Vec<Option<(i64, i64)>> = vec![None; m];
        let mut killed = vec![false; m];
        let mut hung = vec![false; m];
        let mut first = vec![0u64; m];
        let mut last = vec![0u64; m];
        let mut source: Vec<Option<Vec<u8>>> = vec![None; m];
        let mut before: Vec<Option<Vec<u8>>> = vec![None; m];
        let mut after: Vec<Option<Vec<u8>>> = vec![None; m];
        let paths: Vec<(Option<String>, Option<String>)> = r
            .procs
            .iter()
            .map(|p| match p.io() {
                Some((i, o)) => (Some(absolute(&p.cwd, i)), if o == "-" { None } else { Some(absolute(&p.cwd, o)) }),
                None => (None, None),
            })
            .collect();
        let mut actor_pos = vec![0usize; r.actors.len()];
        let mut tick = 0usize;
        let phase_start = k.step;
        loop {
            // Who can move?  Processes first, then actors; the schedule picks.
            let alive: Vec<usize> = (0..m).filter(|i| !matches!(at[*i], Some(At::Exited(_)) | Some(At::Stuck))).collect();
            // Those waiting for a lock that another holds cannot.
            let live: Vec<usize> = alive.iter().copied().filter(|i| waits[*i].map_or(true, |(fd, how)| !k.flock_blocks(base + *i, fd, how))).collect();
            let acting: Vec<usize> = (0..r.actors.len()).filter(|a| actor_pos[*a] < r.actors[*a].len()).collect();
            let total = live.len() + acting.len();
            if total == 0 && !alive.is_empty() {
                // Everybody waits for somebody else, for ever.
                let i = alive[0];
                hung[i] = true;
                waits[i] = None;
                let s = self.server(r.procs[i].release, slots[i])?;
                let next = s.answer(&Resp { die: true, ..Default::default() });
                k.gone(base + i);
                after[i] = paths[i].1.as_ref().and_then(|p| k.content(p));
                at[i] = Some(next);
                continue;
            }
            if total == 0 {
                break;
            }
            let c = r.schedule.get(tick).copied().unwrap_or(0) as usize % total;
            tick += 1;
            if c >= live.len() {
                let a = acting[c - live.len()];
                k.edit(1000 + a, &r.actors[a][actor_pos[a]]);
                actor_pos[a] += 1;
                continue;
            }
            let i = live[c];
            let (rel, slot) = (r.procs[i].release, slots[i]);
            let cap = self.step_cap;
            let s = self.server(rel, slot)?;
            let next = match at[i] {
                None => {
                    first[i] = k.step;
                    source[i] = paths[i].0.as_ref().and_then(|p| k.readable(base + i, p));
                    before[i] = paths[i].1.as_ref().and_then(|p| k.content(p));
                    s.start(&r.procs[i])
                }
                Some(At::Request) => {
                    let (o, a, p1, p2, data) = s.request();
                    let q = Req { op: o, a, path1: p1, path2: p2, data: &data };
                    let mut resp = k.syscall(base + i, &q);
                    let deadlock = o == op::SCHED && resp.die;
                    if k.step - phase_start > cap || deadlock {
                        hung[i] = true;
                        resp.die = true;
                    }
                    if resp.die {
                        killed[i] = true;
                    }
                    s.answer(&resp)
                }
                _ => unreachable!(),
            };
            last[i] = k.step;
            match next {
                At::Broken => {
                    self.servers.clear();
                    return Err(HarnessError("a fork server ended unexpectedly".into()));
                }
                At::Stuck => {
                    hung[i] = true;
                    k.gone(base + i);
                }
                At::Exited(_) => {
                    k.gone(base + i);
                    self.processes += 1;
                }
                At::Request => {
                    waits[i] = self.server(rel, slot)?.wants_lock();
                }
            }
            if matches!(next, At::Exited(_) | At::Stuck) {
                after[i] = paths[i].1.as_ref().and_then(|p| k.content(p));
            }
            at[i] = Some(next);
        }
        for i in 0..m {
            let w = match at[i] {
                Some(At::Exited(w)) => w,
                _ => 0,
            };
            let status = if hung[i] {
                Status::Hang
            } else if killed[i] {
                Status::Killed
            } else if libc::WIFEXITED(w) {
                Status::Exit(libc::WEXITSTATUS(w))
            } else if libc::WTERMSIG(w) == libc::SIGXCPU || libc::WTERMSIG(w) == libc::SIGKILL {
                Status::Hang
            } else {
                Status::Signal(libc::WTERMSIG(w))
            };
            let (allocs, alloc_fired) = self.servers[&(r.procs[i].release, slots[i])].allocs();
            let p = &mut k.procs[base + i];
            let fired = p.fired.iter().map(|f| k.faults[*f].clone()).collect();
            h.procs.push(ProcResult {
                phase: n,
                spec: r.procs[i].clone(),
                status,
                stdout: std::mem::take(&mut p.stdout),
                stderr: std::mem::take(&mut p.stderr),
                streams: std::mem::take(&mut p.streams),
                fired,
                limit_hit: p.limit_hit,
                nospace_hit: p.nospace_hit,
                steps: p.steps,
                allocs,
                alloc_fired,
                refused: std::mem::take(&mut p.refused),
                env_reads: std::mem::take(&mut p.env_reads),
                stdin_reads: p.stdin_reads,
                opened: std::mem::take(&mut p.opened),
                first_step: first[i],
                last_step: last[i],
                source: source[i].take(),
                out_before: before[i].take(),
                out_after: after[i].take(),
            });
        }
        Ok(())
    }
}
