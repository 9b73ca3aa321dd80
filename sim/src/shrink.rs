//! Minimises a failing scenario: drops and simplifies parts of it for as long
//! as the same class of violation (at the same site) persists.

use crate::props::judge;
use crate::runner::Runner;
use crate::scenario::*;
use std::time::{Duration, Instant};

pub struct Shrinker<'a> {
    pub run: &'a mut Runner,
    pub prop: &'a str,
    pub class: String,
    pub site: Option<String>,
    pub left: u32,
    pub deadline: Instant,
    pub tried: u32,
}

impl<'a> Shrinker<'a> {
    pub fn new(run: &'a mut Runner, prop: &'a str, class: &str, site: Option<String>, budget: u32, time: Duration) -> Shrinker<'a> {
        Shrinker { run, prop, class: class.into(), site, left: budget, deadline: Instant::now() + time, tried: 0 }
    }

    fn spent(&self) -> bool {
        self.left == 0 || Instant::now() > self.deadline
    }

    /// Does the candidate fail in the same way?
    fn fails(&mut self, sc: &Scenario) -> bool {
        if self.spent() || !sc.phases.iter().any(|p| matches!(p, Phase::Run(r) if !r.procs.is_empty())) {
            return false;
        }
        self.left -= 1;
        self.tried += 1;
        match judge(self.prop, sc, self.run) {
            Ok(v) => v.fail.map_or(false, |f| f.0 == self.class) && v.site == self.site,
            Err(_) => false,
        }
    }

    /// Tries one change; keeps it if the violation persists.
    fn attempt(&mut self, sc: &mut Scenario, change: impl FnOnce(&mut Scenario)) -> bool {
        let mut c = sc.clone();
        change(&mut c);
        if c != *sc && self.fails(&c) {
            *sc = c;
            return true;
        }
        false
    }

    /// Removes as many elements of a list as possible, large pieces first.
    fn reduce<T: Clone>(&mut self, sc: &mut Scenario, get: impl Fn(&Scenario) -> Vec<T>, set: impl Fn(&mut Scenario, Vec<T>)) -> bool {
        let mut changed = false;
        let mut piece = get(sc).len();
        while piece > 0 && !self.spent() {
            let mut at = 0;
            loop {
                let v = get(sc);
                if at >= v.len() || self.spent() {
                    break;
                }
                let end = (at + piece).min(v.len());
                let mut w = v[..at].to_vec();
                w.extend_from_slice(&v[end..]);
                if self.attempt(sc, |c| set(c, w)) {
                    changed = true;
                } else {
                    at = end;
                }
            }
            piece /= 2;
        }
        changed
    }

    pub fn minimise(&mut self, sc: &mut Scenario) {
        for _ in 0..6 {
            let before = sc.clone();
            self.phases(sc);
            self.parties(sc);
            self.machine(sc);
            self.files(sc);
            self.sources(sc);
            if *sc == before || self.spent() {
                break;
            }
        }
    }

    fn phases(&mut self, sc: &mut Scenario) {
        let mut k = sc.phases.len();
        while k > 0 {
            k -= 1;
            if sc.phases.len() > 1 {
                self.attempt(sc, |c| {
                    c.phases.remove(k);
                });
            }
        }
    }

    fn parties(&mut self, sc: &mut Scenario) {
        for n in 0..sc.phases.len() {
            let (mut procs, actors) = match &sc.phases[n] {
                Phase::Run(r) => (r.procs.len(), r.actors.len()),
                _ => continue,
            };
            let mut k = procs;
            while k > 0 {
                k -= 1;
                if procs > 1 {
                    let gone = self.attempt(sc, |c| {
                        if let Phase::Run(r) = &mut c.phases[n] {
                            r.procs.remove(k);
                            r.faults.retain(|f| f.proc != k);
                            for f in &mut r.faults {
                                if f.proc > k {
                                    f.proc -= 1;
                                }
                            }
                        }
                    });
                    if gone {
                        procs -= 1;
                    }
                }
            }
            for a in (0..actors).rev() {
                self.reduce(sc, |c| edits(c, n, a).clone(), |c, v| *edits_mut(c, n, a) = v);
            }
            self.reduce(sc, |c| phase(c, n).faults.clone(), |c, v| phase_mut(c, n).faults = v);
            self.reduce(sc, |c| phase(c, n).schedule.clone(), |c, v| phase_mut(c, n).schedule = v);
            let len = phase(sc, n).schedule.len();
            for k in 0..len.min(40) {
                self.attempt(sc, |c| phase_mut(c, n).schedule[k] = 0);
                if phase(sc, n).schedule[k] > 1 {
                    self.attempt(sc, |c| phase_mut(c, n).schedule[k] = 1);
                }
            }
        }
    }

    fn machine(&mut self, sc: &mut Scenario) {
        for n in 0..sc.phases.len() {
            let procs = match &sc.phases[n] {
                Phase::Run(r) => r.procs.len(),
                _ => continue,
            };
            for k in 0..procs {
                let d = ProcSpec::assemble("", "");
                macro_rules! plain {
                    ($($f:ident),*) => { $( { let x = d.$f.clone(); self.attempt(sc, |c| phase_mut(c, n).procs[k].$f = x); } )* };
                }
                plain!(read_chunks, write_chunks, stdout_chunks, env, env_chaos, phantoms, tty, heap_shift, clock, pid, uid, umask, entropy, release, stdout_limit);
                self.reduce(sc, |c| phase(c, n).procs[k].env.clone(), |c, v| phase_mut(c, n).procs[k].env = v);
                self.attempt(sc, |c| {
                    let p = &mut phase_mut(c, n).procs[k];
                    if p.alloc_fail_len > 1 {
                        p.alloc_fail_len = 1;
                    }
                });
                // A plain spelling of the command line.
                self.attempt(sc, |c| {
                    let p = &mut phase_mut(c, n).procs[k];
                    if let Task::Assemble { input, output } = p.task.clone() {
                        p.argv = vec!["c8s".into(), "-o".into(), output, input];
                    }
                });
                self.attempt(sc, |c| {
                    for ch in [&mut phase_mut(c, n).procs[k]] {
                        for v in [&mut ch.read_chunks, &mut ch.write_chunks, &mut ch.stdout_chunks] {
                            v.truncate(1);
                        }
                    }
                });
            }
            // Earlier faults, smaller amounts.
            for k in 0..phase(sc, n).faults.len() {
                while phase(sc, n).faults[k].nth > 1 && self.attempt(sc, |c| phase_mut(c, n).faults[k].nth /= 2) {}
                self.attempt(sc, |c| {
                    if let Act::Errno { forever, .. } = &mut phase_mut(c, n).faults[k].act {
                        *forever = false;
                    }
                });
            }
        }
    }

    fn files(&mut self, sc: &mut Scenario) {
        let mut k = sc.files.len();
        while k > 0 {
            k -= 1;
            self.attempt(sc, |c| {
                c.files.remove(k);
            });
        }
        for k in 0..sc.files.len() {
            self.attempt(sc, |c| {
                if let FileSpec::Fifo(b) | FileSpec::ReadOnly(b) = c.files[k].1.clone() {
                    c.files[k].1 = FileSpec::File(b);
                }
            });
        }
    }

    fn sources(&mut self, sc: &mut Scenario) {
        for k in 0..sc.files.len() {
            self.text(sc, move |c| match &mut c.files[k].1 {
                FileSpec::File(b) | FileSpec::ReadOnly(b) | FileSpec::Fifo(b) => Some(b),
                _ => None,
            });
        }
        for n in 0..sc.phases.len() {
            let (procs, actors) = match &sc.phases[n] {
                Phase::Run(r) => (r.procs.len(), r.actors.iter().map(|a| a.len()).collect::<Vec<_>>()),
                Phase::Edit(_) => {
                    self.text(sc, move |c| match &mut c.phases[n] {
                        Phase::Edit(e) => edit_data(e),
                        _ => None,
                    });
                    continue;
                }
            };
            for k in 0..procs {
                self.text(sc, move |c| Some(&mut phase_mut(c, n).procs[k].stdin));
            }
            for (a, len) in actors.into_iter().enumerate() {
                for e in 0..len {
                    self.text(sc, move |c| edit_data(&mut edits_mut(c, n, a)[e]));
                }
            }
        }
    }

    /// Shortens one text: by lines, then by characters.
    fn text(&mut self, sc: &mut Scenario, loc: impl Fn(&mut Scenario) -> Option<&mut Vec<u8>>) {
        let read = |c: &Scenario| -> Vec<u8> { loc(&mut c.clone()).map(|b| b.clone()).unwrap_or_default() };
        if read(sc).is_empty() {
            return;
        }
        let lines = |b: &[u8]| -> Vec<Vec<u8>> { b.split_inclusive(|x| *x == b'\n').map(|x| x.to_vec()).collect() };
        self.reduce(
            sc,
            |c| lines(&read(c)),
            |c, v| {
                if let Some(b) = loc(c) {
                    *b = v.concat();
                }
            },
        );
        if read(sc).len() <= 3000 {
            self.reduce(
                sc,
                |c| read(c),
                |c, v| {
                    if let Some(b) = loc(c) {
                        *b = v;
                    }
                },
            );
        }
    }
}

fn edit_data(e: &mut Edit) -> Option<&mut Vec<u8>> {
    match e {
        Edit::Put(_, b) | Edit::Replace(_, b) | Edit::Append(_, b) | Edit::Poke(_, _, b) => Some(b),
        _ => None,
    }
}
fn phase(c: &Scenario, n: usize) -> &RunPhase {
    match &c.phases[n] {
        Phase::Run(r) => r,
        _ => unreachable!(),
    }
}
fn phase_mut(c: &mut Scenario, n: usize) -> &mut RunPhase {
    match &mut c.phases[n] {
        Phase::Run(r) => r,
        _ => unreachable!(),
    }
}
fn edits(c: &Scenario, n: usize, a: usize) -> &Vec<Edit> {
    &phase(c, n).actors[a]
}
fn edits_mut(c: &mut Scenario, n: usize, a: usize) -> &mut Vec<Edit> {
    &mut phase_mut(c, n).actors[a]
}
