//! One workload generator and one oracle per property.
//!
//! An oracle executes the scenario (and, where it compares, scenarios derived
//! from it) and judges the recorded history.  It never looks at how the code
//! under test is written, only at what the simulated world observed.

use crate::gen::{self, Size};
use crate::kernel::{absolute, Mutation};
use crate::model::{self, Outcome};
use crate::rng::Rng;
use crate::runner::*;
use crate::scenario::*;
use crate::world::*;

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C22", "C23", "C24"];

pub struct Verdict {
    /// (violation class, what happened)
    pub fail: Option<(String, String)>,
    /// A violation that the oracle can attribute to a named call site.
    pub site: Option<String>,
    pub history: History,
    /// Further histories executed for comparison.
    pub compared: u64,
    pub probes: Vec<&'static str>,
}

type Res<T> = Result<T, HarnessError>;

fn one(sc_prop: &str, kind: &str, seed: u64, w: World, faults: Vec<Fault>) -> Scenario {
    Scenario {
        property: sc_prop.into(),
        seed,
        kind: kind.into(),
        files: w.files,
        phases: vec![Phase::Run(RunPhase { procs: vec![w.p], actors: vec![], schedule: vec![], faults })],
    }
}

// ---- generation -------------------------------------------------------------

pub fn generate(prop: &str, seed: u64, thorough: bool, run: &mut Runner) -> Res<Scenario> {
    let r = &mut Rng::new(seed);
    let sc = match prop {
        "C01" => gen_c01(r, thorough),
        "C02" => gen_c02(r, thorough),
        "C03" => gen_c03(r, thorough),
        "C04" => gen_c04(r, thorough),
        "C05" => gen_c05(r, thorough),
        "C06" => gen_c06(r, thorough),
        "C07" => gen_c07(r, thorough),
        "C08" => gen_c08(r),
        "C09" => gen_c09(r, thorough),
        "C10" => gen_c10(r, thorough),
        "C11" => gen_c11(r),
        "C12" => gen_c12(r, thorough),
        "C13" => gen_c13(r),
        "C14" => gen_c14(r, run)?,
        "C15" => gen_c15(r),
        "C22" => gen_c22(r, thorough),
        "C23" => gen_c23(r, thorough),
        _ => gen_c24(r),
    };
    Ok(Scenario { property: prop.into(), seed, ..sc })
}

fn gen_c01(r: &mut Rng, thorough: bool) -> Scenario {
    let size = size(r, thorough);
    let (src, kind) = match r.below(12) {
        _ if r.chance(1, 2500) => (gen::vast(r), "vast"),
        0..=7 => (gen::valid(r, size), "accepted"),
        8..=10 => (gen::invalid(r, Size::Small), "rejected"),
        _ => (gen::noise(r), "noise"),
    };
    let mut w = world(r, src.clone(), RICH);
    machine(r, &mut w.p);
    let mut faults = vec![];
    let mut phases = vec![];
    match r.below(5) {
        0 => {}
        1 | 2 => benign(r, 0, &mut w.p, &mut faults, &src, 300),
        _ => {
            if r.chance(1, 2) {
                benign(r, 0, &mut w.p, &mut faults, &src, 100);
            }
            let class = *r.pick(&[Class::InOpen, Class::InRead, Class::InRead, Class::OutOpen, Class::OutWrite, Class::OutWrite, Class::StdoutWrite, Class::InMeta]);
            fatal(r, 0, &mut faults, class);
            if r.chance(1, 3) {
                phases.push(Phase::Edit(Edit::Space(Some(r.skew(3000)))));
            }
        }
    }
    let mut sc = one("", kind, 0, w, faults);
    phases.append(&mut sc.phases);
    sc.phases = phases;
    sc
}

fn gen_c02(r: &mut Rng, thorough: bool) -> Scenario {
    let size = size(r, thorough);
    let (src, kind) = match r.below(10) {
        _ if r.chance(1, 2500) => (gen::vast(r), "vast"),
        0..=6 => (gen::valid(r, size), "accepted"),
        7..=8 => (gen::invalid(r, Size::Small), "rejected"),
        _ => (gen::noise(r), "noise"),
    };
    let mut w = world(r, src.clone(), RICH);
    w.p.release = r.chance(1, 2);
    let mut faults = vec![];
    benign(r, 0, &mut w.p, &mut faults, &src, if thorough { 2000 } else { 400 });
    one("", kind, 0, w, faults)
}

fn gen_c03(r: &mut Rng, thorough: bool) -> Scenario {
    let size = size(r, thorough);
    let src = if r.chance(7, 8) { gen::valid(r, size) } else { gen::any(r, Size::Small) };
    let stdout = r.chance(1, 4);
    let mut w = world(r, src.clone(), Shape { stdout, ..RICH });
    w.p.release = r.chance(1, 2);
    let mut faults = vec![];
    let mut phases = vec![];
    let mut kind = "call-fails";
    if r.chance(1, 2) {
        // Small transfers, so that failures strike between them.
        benign(r, 0, &mut w.p, &mut faults, &src, 60);
    }
    let input = absolute(&w.p.cwd, w.p.io().unwrap().0);
    let output = w.p.io().unwrap().1.to_string();
    match r.below(12) {
        0 => {
            // Nothing there to read.
            kind = "input-missing";
            w.files.retain(|f| f.0 != input);
            if r.chance(1, 2) {
                w.files.push((input.clone(), FileSpec::Dir));
            } else if r.chance(1, 2) {
                w.files.push((input.clone(), FileSpec::Symlink(input.clone())));
            }
        }
        1 if output != "-" => {
            kind = "output-unusable";
            let o = absolute(&w.p.cwd, &output);
            w.files.retain(|f| f.0 != o);
            match r.below(3) {
                0 => w.files.push((o, FileSpec::Dir)),
                1 => w.files.push((o, FileSpec::ReadOnly(b"old\n".to_vec()))),
                _ => {
                    let bad = format!("no/such/dir/{}", output.trim_start_matches('/'));
                    w.p.task = Task::Assemble { input: w.p.io().unwrap().0.into(), output: bad.clone() };
                    w.p.argv = command(r, &w.p.io().unwrap().0.to_string(), Some(&bad));
                }
            }
        }
        2 | 3 if output != "-" => {
            kind = "disk-full";
            phases.push(Phase::Edit(Edit::Space(Some(r.skew(2000)))));
        }
        4 if output != "-" => {
            kind = "close-error";
            faults.clear();
            for nth in 1..=2 {
                faults.push(Fault { proc: 0, class: Class::OutClose, nth, act: Act::CloseErr(*r.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT])) });
            }
        }
        5 if output != "-" => {
            kind = "full-device";
            w.p.task = Task::Assemble { input: w.p.io().unwrap().0.into(), output: "/dev/full".into() };
            w.p.argv = command(r, &w.p.io().unwrap().0.to_string(), Some("/dev/full"));
        }
        _ if output == "-" => {
            kind = "stdout-fails";
            w.p.stdout_limit = Some((r.skew(400), *r.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO])));
        }
        _ => {
            let class = *r.pick(&[Class::InOpen, Class::InRead, Class::InRead, Class::OutOpen, Class::OutWrite, Class::OutWrite, Class::OutWrite]);
            fatal(r, 0, &mut faults, class);
        }
    }
    let mut sc = one("", kind, 0, w, faults);
    phases.append(&mut sc.phases);
    sc.phases = phases;
    sc
}

fn gen_c04(r: &mut Rng, thorough: bool) -> Scenario {
    let size = size(r, thorough);
    let (src, kind) = match r.below(10) {
        0..=5 => (gen::invalid(r, size), "rejected"),
        6 => (gen::noise(r), "noise"),
        _ => (gen::valid(r, size), "accepted"),
    };
    let mut w = world(r, src.clone(), RICH);
    machine(r, &mut w.p);
    let mut faults = vec![];
    if r.chance(2, 3) {
        benign(r, 0, &mut w.p, &mut faults, &src, 100);
    }
    match r.below(4) {
        0 => kill(r, 0, &mut faults),
        1 => {
            let class = *r.pick(&[Class::InRead, Class::InRead, Class::InOpen, Class::InMeta]);
            fatal(r, 0, &mut faults, class);
        }
        2 if r.chance(1, 3) => w.p.stdout_limit = Some((r.skew(100), *r.pick(&[libc::EPIPE, libc::ENOSPC]))),
        _ => {}
    }
    one("", kind, 0, w, faults)
}

fn gen_c05(r: &mut Rng, thorough: bool) -> Scenario {
    let size = size(r, thorough);
    let (src, kind) = if r.chance(5, 6) { (gen::valid(r, size), "accepted") } else { (gen::invalid(r, Size::Small), "rejected") };
    let mut w = world(r, src.clone(), Shape { stdout: false, ..RICH });
    machine(r, &mut w.p);
    let mut faults = vec![];
    if r.chance(3, 4) {
        benign(r, 0, &mut w.p, &mut faults, &src, 40);
    }
    let mut phases = vec![];
    match r.below(6) {
        0 | 1 | 2 => kill(r, 0, &mut faults),
        3 => fatal(r, 0, &mut faults, Class::OutWrite),
        4 => phases.push(Phase::Edit(Edit::Space(Some(r.skew(2000))))),
        _ => {}
    }
    let mut sc = one("", kind, 0, w, faults);
    phases.append(&mut sc.phases);
    sc.phases = phases;
    sc
}

fn gen_c06(r: &mut Rng, thorough: bool) -> Scenario {
    let size = size(r, thorough);
    let (src, kind) = match r.below(10) {
        0..=6 => (gen::valid(r, size), "accepted"),
        7..=8 => (gen::invalid(r, size), "rejected"),
        _ => (gen::noise(r), "noise"),
    };
    let mut w = world(r, src.clone(), RICH);
    machine(r, &mut w.p);
    let mut faults = vec![];
    if r.chance(1, 3) {
        benign(r, 0, &mut w.p, &mut faults, &src, 100);
    }
    if r.chance(1, 2) {
        w.p.phantoms = r.next() >> 2;
    }
    one("", kind, 0, w, faults)
}

/// A schedule that switches often, rarely, or in bursts.
fn schedule(r: &mut Rng, n: usize) -> Vec<u16> {
    let mut v = vec![];
    let mode = r.below(3);
    let mut cur = r.below(16) as u16;
    while v.len() < n {
        match mode {
            0 => v.push(r.below(64) as u16),
            1 => {
                for _ in 0..1 + r.skew(20) {
                    v.push(cur);
                }
                cur = r.below(16) as u16;
            }
            _ => {
                if r.chance(1, 4) {
                    cur = r.below(16) as u16;
                }
                v.push(cur);
            }
        }
    }
    v
}

fn gen_c07(r: &mut Rng, thorough: bool) -> Scenario {
    let n = r.range(2, 4) as usize;
    let mut files: Vec<(String, FileSpec)> = vec![("/w/d1".into(), FileSpec::Dir), ("/w/d2".into(), FileSpec::Dir)];
    let mut procs = vec![];
    let mut faults = vec![];
    let shared = r.chance(1, 2);
    let common = gen::any(r, Size::Small);
    let outs_pool: &[&[&str]] = &[
        &["out0.hex", "out1.hex", "out2.hex", "out3.hex"],
        &["/w/d1/out.hex", "/w/d2/out.hex", "out.hex", "/tmp/out.hex"],
        &["a.hex", "b.hex", "a.hex.hex", "-"],
        &["x", "x.hex", "x.tmp", "x.hex.tmp"],
    ];
    let outs = r.pick(outs_pool);
    for k in 0..n {
        let sz = if thorough { size(r, true) } else { Size::Small };
        let src = if shared { common.clone() } else if r.chance(3, 4) { gen::valid(r, sz) } else { gen::invalid(r, Size::Small) };
        let inp = if shared { "shared.asm".to_string() } else { format!("in{}.asm", k) };
        let abs = absolute("/w", &inp);
        if !files.iter().any(|f| f.0 == abs) {
            files.push((abs, FileSpec::File(src.clone())));
        }
        let mut p = ProcSpec::assemble(&inp, outs[k]);
        let o = if outs[k] == "a.hex" && r.chance(1, 2) { None } else { Some(outs[k]) };
        p.argv = command(r, &inp, o);
        p.argv[0] = "c8s".into();
        p.pid = 1000 + k as u32 * r.range(1, 7) as u32 + k as u32;
        p.release = r.chance(1, 2);
        // Identical machines in one run, different ones in another.
        p.entropy = if r.chance(1, 2) { 5 } else { r.next() >> 2 };
        if outs[k] != "-" && r.chance(1, 3) {
            let o = absolute("/w", outs[k]);
            files.push((o, FileSpec::File(old_output(r))));
        }
        if r.chance(2, 3) {
            benign(r, k, &mut p, &mut faults, &src, 30);
        }
        match r.below(6) {
            0 => kill(r, k, &mut faults),
            1 => {
                let class = *r.pick(&[Class::InRead, Class::OutOpen, Class::OutWrite]);
                fatal(r, k, &mut faults, class);
            }
            _ => {}
        }
        procs.push(p);
    }
    let len = r.range(20, 250) as usize;
    let schedule = schedule(r, len);
    Scenario {
        property: "".into(),
        seed: 0,
        kind: if shared { "shared-input".into() } else { "own-inputs".into() },
        files,
        phases: vec![Phase::Run(RunPhase { procs, actors: vec![], schedule, faults })],
    }
}

fn gen_c08(r: &mut Rng) -> Scenario {
    // Versions of one program that differ in layout, so that a mixture shows.
    let base = String::from_utf8_lossy(&gen::valid(r, Size::Small)).into_owned();
    let probe = "start_q: ld v0, 1\njp end_q\ncall mid_q\nmid_q: .db 1, 2, 3\nend_q: jp start_q\n";
    let first = if r.chance(1, 3) { base.clone() } else { format!("{}{}", probe, base) };
    let path = "/w/in.asm".to_string();
    let mut edits = vec![];
    let mut cur = first.clone().into_bytes();
    let n = r.range(1, 4);
    for _ in 0..n {
        let e = match r.below(8) {
            0 => Edit::Append(path.clone(), if r.chance(1, 2) { b"nop\nnop\n".to_vec() } else { gen::valid(r, Size::Tiny) }),
            1 => Edit::Truncate(path.clone(), r.below(cur.len() as u64 + 1)),
            2 => {
                let at = r.below(cur.len() as u64 + 1);
                let n = 1 + r.skew(30) as usize;
                Edit::Poke(path.clone(), at, (0..n).map(|_| *r.pick(b"nop\n ;,1v$")).collect())
            }
            3 => Edit::Remove(path.clone()),
            4 => Edit::Replace(path.clone(), gen::any(r, Size::Small)),
            k => {
                // Insert or remove lines: everything behind moves.
                let t = String::from_utf8_lossy(&cur).into_owned();
                let mut lines: Vec<&str> = t.split('\n').collect();
                let at = r.usize(lines.len());
                if r.chance(2, 3) {
                    lines.insert(at, "ld v1, 2");
                    lines.insert(0, "nop");
                } else {
                    lines.remove(at);
                }
                cur = lines.join("\n").into_bytes();
                if k == 5 {
                    Edit::Replace(path.clone(), cur.clone())
                } else {
                    Edit::Put(path.clone(), cur.clone())
                }
            }
        };
        edits.push(e);
    }
    let mut p = ProcSpec::assemble("in.asm", if r.chance(1, 6) { "-" } else { "out.hex" });
    p.release = r.chance(1, 2);
    let mut faults = vec![];
    if r.chance(1, 2) {
        let calls = r.range(2, 40) as usize;
        p.read_chunks = chunks(r, first.len(), calls);
    }
    if r.chance(1, 3) {
        for j in 0..r.range(1, 3) as u32 {
            faults.push(Fault { proc: 0, class: Class::InRead, nth: 1 + j + r.skew(4) as u32, act: Act::Eintr });
        }
    }
    let len = r.range(5, 60) as usize;
    let mut sched = schedule(r, len);
    // Let the process move first: an edit before the open is just another input.
    let lead = r.range(1, 4) as usize;
    for x in sched.iter_mut().take(lead) {
        *x = 0;
    }
    Scenario {
        property: "".into(),
        seed: 0,
        kind: "edited-while-read".into(),
        files: vec![(path, FileSpec::File(first.into_bytes()))],
        phases: vec![Phase::Run(RunPhase { procs: vec![p], actors: vec![edits], schedule: sched, faults })],
    }
}

fn gen_c09(r: &mut Rng, thorough: bool) -> Scenario {
    let size = if r.chance(1, 12) { Size::Huge } else { size(r, thorough) };
    let (src, kind) = match r.below(10) {
        _ if r.chance(1, 100) => (gen::stress(r), "stress"),
        0 | 1 => (gen::valid(r, size), "accepted"),
        2..=4 => (gen::invalid(r, size), "rejected"),
        5 => {
            let v = gen::valid(r, Size::Small);
            let mut v = gen::spoil(r, &v);
            for _ in 0..r.skew(5) {
                v = gen::spoil(r, &v);
            }
            (v, "mangled")
        }
        _ => (gen::noise(r), "noise"),
    };
    let mut w = world(r, src.clone(), RICH);
    machine(r, &mut w.p);
    let mut faults = vec![];
    if r.chance(1, 2) {
        benign(r, 0, &mut w.p, &mut faults, &src, 200);
    }
    if r.chance(1, 3) {
        let to_file = w.p.io().unwrap().1 != "-";
        let class = *r.pick(&[Class::InOpen, Class::InRead, Class::InMeta, Class::OutOpen, Class::OutWrite, Class::OutWrite]);
        if to_file || !matches!(class, Class::OutOpen | Class::OutWrite) {
            fatal(r, 0, &mut faults, class);
        }
    }
    one("", kind, 0, w, faults)
}

fn gen_c10(r: &mut Rng, thorough: bool) -> Scenario {
    let size = size(r, thorough);
    let src = if r.chance(1, if crate::dict::get().numbers.is_empty() { 40 } else { 12 }) {
        gen::far(r)
    } else if r.chance(1, 8) {
        gen::noise(r)
    } else {
        gen::invalid(r, size)
    };
    let mut w = world(r, src.clone(), RICH);
    w.p.release = r.chance(1, 2);
    w.p.entropy = r.next() >> 2;
    let mut faults = vec![];
    if r.chance(2, 3) {
        benign(r, 0, &mut w.p, &mut faults, &src, 60);
    }
    let mut kind = "delivered";
    if r.chance(1, 2) {
        w.p.stdout_chunks = (0..r.range(1, 6)).map(|_| 1 + r.skew(40) as u32).collect();
        for j in 0..r.skew(4) as u32 {
            faults.push(Fault { proc: 0, class: Class::StdoutWrite, nth: 1 + j + r.skew(6) as u32, act: Act::Eintr });
        }
    }
    if r.chance(1, 5) {
        kind = "stdout-fails";
        w.p.stdout_limit = Some((r.skew(80), *r.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO])));
    }
    one("", kind, 0, w, faults)
}

fn gen_c11(r: &mut Rng) -> Scenario {
    let cwd = "/w";
    let out = *r.pick(&["out.hex", "a.hex", "build/out.hex", "in.hex"]);
    let mut files = vec![("/w/in.asm".to_string(), FileSpec::File(gen::any(r, Size::Small))), ("/w/build".to_string(), FileSpec::Dir)];
    if r.chance(1, 3) {
        files.push((absolute(cwd, out), FileSpec::File(old_output(r))));
    }
    let mut phases = vec![];
    let n = r.range(1, 7);
    let mut src = vec![];
    let mut earlier: Vec<Vec<u8>> = vec![];
    // A second source assembled into the same output now and then.
    let two = r.chance(1, 3);
    if two {
        files.push(("/w/other.asm".to_string(), FileSpec::File(gen::any(r, Size::Small))));
    }
    for k in 0..=n {
        let last = k == n;
        let input = if two && r.chance(1, 2) { "other.asm" } else { "in.asm" };
        if r.chance(2, 3) {
            src = match r.below(7) {
                0 => gen::invalid(r, Size::Small),
                1 => gen::valid(r, Size::Tiny),
                // A small change that leaves the length as it is, or nearly.
                2 | 3 if !src.is_empty() => gen::tweak(r, &src),
                4 if !earlier.is_empty() => r.pick(&earlier).clone(),
                _ => {
                    let sz = if r.chance(1, 10) { Size::Mixed } else { Size::Small };
                    gen::valid(r, sz)
                }
            };
            earlier.push(src.clone());
            let e = match r.below(3) {
                0 => Edit::Replace(absolute(cwd, input), src.clone()),
                _ => Edit::Put(absolute(cwd, input), src.clone()),
            };
            phases.push(Phase::Edit(e));
        }
        let mut p = ProcSpec::assemble(input, out);
        let o = if out == "a.hex" && r.chance(1, 2) { None } else { Some(out) };
        p.argv = command(r, input, o);
        p.argv[0] = "c8s".into();
        machine(r, &mut p);
        let mut faults = vec![];
        let mut space = false;
        if !last {
            if r.chance(1, 2) {
                benign(r, 0, &mut p, &mut faults, &src, 30);
            }
            match r.below(6) {
                0 | 1 => kill(r, 0, &mut faults),
                2 => {
                    let class = *r.pick(&[Class::InRead, Class::OutOpen, Class::OutWrite, Class::OutWrite]);
                    fatal(r, 0, &mut faults, class);
                }
                3 => {
                    space = true;
                    phases.push(Phase::Edit(Edit::Space(Some(r.skew(600)))));
                }
                4 if r.chance(1, 3) => phases.push(Phase::Edit(Edit::Remove(absolute(cwd, out)))),
                _ => {}
            }
        } else if r.chance(1, 3) {
            benign(r, 0, &mut p, &mut faults, &src, 30);
        }
        phases.push(Phase::Run(RunPhase { procs: vec![p], actors: vec![], schedule: vec![], faults }));
        if space {
            phases.push(Phase::Edit(Edit::Space(None)));
        }
    }
    Scenario { property: "".into(), seed: 0, kind: "history".into(), files, phases }
}

fn gen_c12(r: &mut Rng, thorough: bool) -> Scenario {
    let size = size(r, thorough);
    let src = gen::valid(r, size);
    let mut w = world(r, src.clone(), Shape { stdout: false, ..RICH });
    let input = w.p.io().unwrap().0.to_string();
    w.p.task = Task::Assemble { input: input.clone(), output: "-".into() };
    w.p.argv = command(r, &input, Some("-"));
    machine(r, &mut w.p);
    let mut faults = vec![];
    let mut kind = "taken";
    if r.chance(3, 4) {
        benign(r, 0, &mut w.p, &mut faults, &src, 200);
    }
    if r.chance(1, 3) {
        kind = "consumer-gone";
        let e = *r.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO]);
        if r.chance(3, 4) {
            w.p.stdout_limit = Some((r.skew(2000), e));
        } else {
            faults.push(Fault { proc: 0, class: Class::StdoutWrite, nth: 1 + r.skew(5) as u32, act: Act::Errno { errno: e, forever: true } });
        }
    }
    one("", kind, 0, w, faults)
}

fn gen_c13(r: &mut Rng) -> Scenario {
    let src = gen::any(r, Size::Small);
    let mut w = world(r, src.clone(), RICH);
    machine(r, &mut w.p);
    let mut kind = "distinct";
    if r.chance(1, 6) && w.p.stdin.is_empty() {
        // Input and output are one file, possibly through a link.
        kind = "alias";
        let input = w.p.io().unwrap().0.to_string();
        let out = if r.chance(1, 3) {
            input.clone()
        } else if r.chance(1, 2) && w.files.iter().any(|f| f.0 == absolute(&w.p.cwd, &input) && matches!(f.1, FileSpec::File(_))) {
            w.files.push(("/w/hard.hex".into(), FileSpec::Hard(absolute(&w.p.cwd, &input))));
            "/w/hard.hex".into()
        } else {
            let abs = absolute(&w.p.cwd, &input);
            w.files.retain(|f| f.0 != "/w/alias.hex");
            w.files.push(("/w/alias.hex".into(), FileSpec::Symlink(abs)));
            "/w/alias.hex".into()
        };
        if w.files.iter().any(|f| matches!(f.1, FileSpec::Fifo(_))) {
            kind = "distinct";
        } else {
            w.p.task = Task::Assemble { input: input.clone(), output: out.clone() };
            w.p.argv = vec!["c8s".into(), format!("--output={}", out), "--".into(), input];
        }
    }
    if kind == "distinct" && r.chance(1, 10) {
        // The directory of the output does not exist, or is none.
        kind = "no-directory";
        let input = w.p.io().unwrap().0.to_string();
        w.files.push(("/w/plain.txt".into(), FileSpec::File(b"a file\n".to_vec())));
        let out = r.pick(&["/w/missing/out.hex", "new/deep/out.hex", "/w/plain.txt/out.hex", "/nowhere/a.hex", "new/", "missing/../out.hex"]).to_string();
        w.p.task = Task::Assemble { input: input.clone(), output: out.clone() };
        w.p.argv = command(r, &input, Some(&out));
    }
    let mut faults = vec![];
    if r.chance(1, 2) {
        benign(r, 0, &mut w.p, &mut faults, &src, 60);
    }
    let mut phases = vec![];
    match r.below(5) {
        0 => kill(r, 0, &mut faults),
        1 | 2 => {
            let class = *r.pick(&[Class::InOpen, Class::InRead, Class::OutOpen, Class::OutWrite, Class::OutWrite, Class::OutMeta]);
            fatal(r, 0, &mut faults, class);
        }
        3 => phases.push(Phase::Edit(Edit::Space(Some(r.skew(800))))),
        _ => {}
    }
    let mut sc = one("", kind, 0, w, faults);
    phases.append(&mut sc.phases);
    sc.phases = phases;
    sc
}

fn gen_c14(r: &mut Rng, run: &mut Runner) -> Res<Scenario> {
    let size = if r.chance(1, 12) { Size::Mixed } else { Size::Small };
    let src = if r.chance(7, 8) { gen::valid(r, size) } else { gen::any(r, Size::Small) };
    let mut w = world(r, src.clone(), RICH);
    w.p.release = r.chance(1, 2);
    w.p.entropy = r.next() >> 2;
    let mut faults = vec![];
    if r.chance(1, 4) {
        benign(r, 0, &mut w.p, &mut faults, &src, 30);
    }
    let mut sc = one("", "allocation-fails", 0, w, faults);
    // How many allocations are there to fail?
    let n = run.run(&sc)?.procs[0].allocs.max(1) as u64;
    let at = match r.below(4) {
        0 => 1 + r.skew(n - 1),
        1 => n - r.skew(n - 1),
        _ => r.range(1, n),
    };
    let len = match r.below(4) {
        0 => 1_000_000,
        1 => r.range(2, 10),
        _ => 1,
    };
    if let Phase::Run(p) = &mut sc.phases[0] {
        p.procs[0].alloc_fail_at = at as u32;
        p.procs[0].alloc_fail_len = len as u32;
    }
    Ok(sc)
}

fn gen_c15(r: &mut Rng) -> Scenario {
    let src = gen::any(r, Size::Tiny);
    let mut w = world(r, src, Shape { fifo: false, ..RICH });
    let input = w.p.io().unwrap().0.to_string();
    let input = if input.starts_with('-') { "in.asm".to_string() } else { input };
    let (task, args): (Task, Vec<&str>) = match r.below(38) {
        0 => (Task::Info, vec!["-h"]),
        1 => (Task::Info, vec!["--help"]),
        2 => (Task::Info, vec!["-v"]),
        3 => (Task::Info, vec!["--version"]),
        4 => (Task::Info, vec!["-h", &input]),
        5 => (Task::Info, vec![&input, "-v"]),
        6 => (Task::Info, vec!["-o", "out.hex", "-h", &input]),
        7 => (Task::Info, vec!["-hv"]),
        8 => (Task::BadUsage, vec![]),
        9 => (Task::BadUsage, vec![&input, "other.asm"]),
        10 => (Task::BadUsage, vec!["-x", &input]),
        11 => (Task::BadUsage, vec![&input, "-o"]),
        12 => (Task::BadUsage, vec!["--bogus", &input]),
        13 => (Task::BadUsage, vec!["-o", "out.hex"]),
        14 => (Task::BadUsage, vec!["-o", "a", "-o", "b", &input]),
        15 => (Task::BadUsage, vec!["--output=out.hex"]),
        16 => (Task::BadUsage, vec![&input, &input, &input]),
        17 => (Task::Info, vec!["-v", "--", &input, "extra"]),
        18 => (Task::BadUsage, vec!["-o", "-"]),
        19 => (Task::BadUsage, vec!["--help=yes", &input]),
        20 => (Task::BadUsage, vec!["-h", "-o"]),
        21 => (Task::BadUsage, vec!["-h", "--bogus"]),
        22 => (Task::BadUsage, vec!["--"]),
        23 => (Task::BadUsage, vec!["-o", &input]),
        24 => (Task::BadUsage, vec![&input, "--output"]),
        25 => (Task::BadUsage, vec!["-h", "-h"]),
        26 => (Task::Info, vec!["--version", "--output=out.hex"]),
        27 => (Task::Info, vec!["--help", "--version", &input, &input]),
        28 => (Task::Info, vec![&input, "-o", "-", "--help"]),
        29 => (Task::BadUsage, vec!["-o", "out.hex", "--", &input, "-h"]),
        30 => (Task::BadUsage, vec!["-", &input]),
        31 => (Task::BadUsage, vec!["-o", "", "in.asm", "x.asm"]),
        32 => (Task::BadUsage, vec!["-O", "out.hex", &input]),
        33 => (Task::BadUsage, vec!["--out", "out.hex", &input]),
        34 => (Task::Info, vec!["-vo", "out.hex", &input]),
        35 => (Task::BadUsage, vec![&input, "é.asm"]),
        36 => (Task::BadUsage, vec![&input, ""]),
        _ => (Task::BadUsage, vec!["-H", &input]),
    };
    w.p.argv = vec![w.p.argv[0].clone()];
    w.p.argv.extend(args.iter().map(|x| x.to_string()));
    let kind = if task == Task::Info { "info" } else { "usage-error" };
    w.p.task = task;
    machine(r, &mut w.p);
    let mut faults = vec![];
    if r.chance(1, 2) {
        w.p.stdout_chunks = (0..r.range(1, 6)).map(|_| 1 + r.skew(60) as u32).collect();
        for j in 0..r.skew(3) as u32 {
            faults.push(Fault { proc: 0, class: Class::StdoutWrite, nth: 1 + j + r.skew(4) as u32, act: Act::Eintr });
        }
    }
    if r.chance(1, 2) {
        w.p.phantoms = r.next() >> 2;
    }
    if r.chance(1, 3) {
        w.p.stdout_limit = Some((r.skew(300), *r.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO])));
    }
    one("", kind, 0, w, faults)
}

fn gen_c22(r: &mut Rng, thorough: bool) -> Scenario {
    let size = size(r, thorough);
    let src = gen::valid(r, size);
    let mut w = world(r, src.clone(), Shape { stdout: false, links: false, ..RICH });
    machine(r, &mut w.p);
    let mut faults = vec![];
    if r.chance(2, 3) {
        benign(r, 0, &mut w.p, &mut faults, &src, 100);
    }
    let input = w.p.io().unwrap().0.to_string();
    let keep = absolute(&w.p.cwd, &input);
    let put = |w: &mut World, p: &str, f: FileSpec| {
        w.files.retain(|f| f.0 != p || f.0 == keep);
        w.files.push((p.to_string(), f));
    };
    let old = FileSpec::File(old_output(r));
    let (kind, out) = match r.below(12) {
        0 => {
            put(&mut w, "/w/q/target.hex", old);
            put(&mut w, "/w/q/link.hex", FileSpec::Symlink(r.pick(&["/w/q/target.hex", "target.hex", "../q/target.hex"]).to_string()));
            ("symbolic link", "/w/q/link.hex")
        }
        1 => {
            put(&mut w, "/w/q/sub", FileSpec::Dir);
            put(&mut w, "/w/q/link.hex", FileSpec::Symlink(r.pick(&["/w/q/sub/fresh.hex", "sub/fresh.hex", "fresh.hex"]).to_string()));
            ("link to a file yet to be", "/w/q/link.hex")
        }
        2 => {
            put(&mut w, "/w/q/target.hex", old);
            put(&mut w, "/w/q/second", FileSpec::Symlink("target.hex".into()));
            put(&mut w, "/w/q/link.hex", FileSpec::Symlink("/w/q/second".into()));
            ("chain of links", "/w/q/link.hex")
        }
        3 => {
            put(&mut w, "/w/real_dir/target.hex", old);
            put(&mut w, "/w/dirlink", FileSpec::Symlink("real_dir".into()));
            ("link in the path", "/w/dirlink/target.hex")
        }
        4 | 5 => {
            put(&mut w, "/w/q/target.hex", old);
            put(&mut w, "/w/q/other_name.hex", FileSpec::Hard("/w/q/target.hex".into()));
            ("file with two names", if r.chance(1, 2) { "/w/q/target.hex" } else { "/w/q/other_name.hex" })
        }
        6 | 7 => {
            put(&mut w, "/w/q/pipe", FileSpec::Sink);
            ("fifo", "/w/q/pipe")
        }
        8 => ("standard output as a device", "/dev/stdout"),
        9 => {
            if r.chance(1, 2) {
                ("null device", "/dev/null")
            } else {
                ("new file", "/w/build/fresh_q.hex")
            }
        }
        10 => {
            put(&mut w, "/w/sealed", FileSpec::Sealed);
            put(&mut w, "/w/sealed/out.hex", old);
            ("file in a closed directory", "/w/sealed/out.hex")
        }
        _ => {
            put(&mut w, "/w/q/out.hex", old);
            ("existing file", "/w/q/out.hex")
        }
    };
    w.p.task = Task::Assemble { input: input.clone(), output: out.into() };
    w.p.argv = command(r, &input, Some(out));
    one("", kind, 0, w, faults)
}

fn gen_c23(r: &mut Rng, thorough: bool) -> Scenario {
    let n = r.range(2, 4) as usize;
    let sz = if thorough { size(r, true) } else { Size::Small };
    let src = if r.chance(5, 6) { gen::valid(r, sz) } else { gen::invalid(r, Size::Small) };
    let mut files: Vec<(String, FileSpec)> = vec![("/w/in.asm".into(), FileSpec::File(src.clone())), ("/w/build".into(), FileSpec::Dir)];
    if r.chance(1, 2) {
        files.push(("/w/out.hex".into(), FileSpec::File(old_output(r))));
    }
    files.push(("/w/alias.hex".into(), FileSpec::Symlink("out.hex".into())));
    let mixed = r.chance(1, 3);
    let mut procs = vec![];
    let mut faults = vec![];
    for k in 0..n {
        let out = if mixed { *r.pick(&["out.hex", "./out.hex", "/w/out.hex", "alias.hex", "build/../out.hex"]) } else { "out.hex" };
        let inp = if mixed { *r.pick(&["in.asm", "./in.asm", "/w/in.asm"]) } else { "in.asm" };
        let mut p = ProcSpec::assemble(inp, out);
        p.argv = command(r, inp, Some(out));
        p.argv[0] = "c8s".into();
        p.pid = 1000 + k as u32;
        p.release = r.chance(1, 2);
        p.entropy = if r.chance(1, 2) { 5 } else { r.next() >> 2 };
        if r.chance(3, 4) {
            benign(r, k, &mut p, &mut faults, &src, 30);
        }
        procs.push(p);
    }
    let len = r.range(20, 250) as usize;
    let schedule = schedule(r, len);
    Scenario {
        property: "".into(),
        seed: 0,
        kind: if mixed { "several spellings".into() } else { "one spelling".into() },
        files,
        phases: vec![Phase::Run(RunPhase { procs, actors: vec![], schedule, faults })],
    }
}

fn gen_c24(r: &mut Rng) -> Scenario {
    let mut sc;
    if r.chance(1, 5) {
        sc = gen_c15(r);
    } else {
        let src = match r.below(8) {
            0 => vec![],
            1 => b"; nothing to assemble\n".to_vec(),
            2 => gen::noise(r),
            _ => gen::any(r, Size::Small),
        };
        let mut w = world(r, src.clone(), RICH);
        machine(r, &mut w.p);
        let mut faults = vec![];
        if r.chance(1, 2) {
            benign(r, 0, &mut w.p, &mut faults, &src, 60);
        }
        let mut kind = "ordinary";
        let (input, output) = w.p.io().map(|(i, o)| (i.to_string(), o.to_string())).unwrap();
        match r.below(8) {
            0 => {
                kind = "input missing";
                let abs = absolute(&w.p.cwd, &input);
                w.files.retain(|f| f.0 != abs);
            }
            1 => {
                kind = "odd input name";
                let odd = *r.pick(&["-", "", "/dev/null", "/dev/full/x", "."]);
                if odd == "-" && r.chance(1, 2) {
                    w.files.push((absolute(&w.p.cwd, "-"), FileSpec::File(src.clone())));
                }
                w.p.task = Task::Assemble { input: odd.into(), output: output.clone() };
                w.p.argv = vec!["c8s".into(), "-o".into(), output, "--".into(), odd.into()];
            }
            2 => {
                let class = *r.pick(&[Class::InOpen, Class::InRead, Class::OutOpen, Class::OutWrite]);
                fatal(r, 0, &mut faults, class);
                kind = "call-fails";
            }
            _ => {}
        }
        sc = one("", kind, 0, w, faults);
    }
    if let Some(Phase::Run(q)) = sc.phases.iter_mut().find(|p| matches!(p, Phase::Run(_))) {
        let p = &mut q.procs[0];
        p.phantoms = if r.chance(1, 2) { r.next() >> 2 } else { 0 };
        if !matches!(p.io(), Some(("/dev/stdin", _))) {
            p.stdin = match r.below(4) {
                0 => vec![],
                1 => b"y\n".repeat(20),
                2 => b"next.asm\nafter.asm\n".to_vec(),
                _ => gen::valid(r, Size::Tiny),
            };
        }
        p.tty = r.chance(1, 3);
    }
    sc
}

// ---- oracles ------------------------------------------------------------------

fn run_phase(sc: &Scenario) -> &RunPhase {
    sc.phases.iter().find_map(|p| if let Phase::Run(r) = p { Some(r) } else { None }).expect("a run")
}

/// The same process on an ideal system: no faults, whole transfers, unlimited space.
fn ideal_proc(p: &ProcSpec) -> ProcSpec {
    ProcSpec { read_chunks: vec![], write_chunks: vec![], stdout_chunks: vec![], stdout_limit: None, alloc_fail_at: 0, alloc_fail_len: 0, ..p.clone() }
}

fn solo(sc: &Scenario, files: Vec<(String, FileSpec)>, p: ProcSpec) -> Scenario {
    Scenario {
        property: sc.property.clone(),
        seed: sc.seed,
        kind: "derived".into(),
        files,
        phases: vec![Phase::Run(RunPhase { procs: vec![p], ..Default::default() })],
    }
}

fn ideal(sc: &Scenario) -> Scenario {
    let mut files = sc.files.clone();
    for f in &mut files {
        if let FileSpec::Fifo(b) = &f.1 {
            f.1 = FileSpec::File(b.clone());
        }
    }
    solo(sc, files, ideal_proc(&run_phase(sc).procs[0]))
}

fn show(b: &[u8]) -> String {
    let t = String::from_utf8_lossy(b);
    let mut s: String = t.chars().take(160).collect();
    if t.chars().count() > 160 {
        s.push('…');
    }
    format!("{:?} ({} bytes)", s, b.len())
}
fn show_opt(b: &Option<Vec<u8>>) -> String {
    b.as_ref().map(|b| show(b)).unwrap_or("nothing".into())
}

fn outcome(p: &ProcResult) -> Option<Outcome> {
    p.source.as_ref().map(|s| model::assemble(s))
}

fn is_stdout(p: &ProcResult) -> bool {
    matches!(p.spec.io(), Some((_, "-")))
}

/// The bytes at the destination when the process ended.
fn delivered(p: &ProcResult) -> Option<&[u8]> {
    if is_stdout(p) {
        Some(&p.stdout)
    } else {
        p.out_after.as_deref()
    }
}

fn check_object(p: &ProcResult, image: &[(u16, u8)]) -> Result<(), String> {
    let b = delivered(p).ok_or("the destination holds no file")?;
    let got = model::decode_hex(b).map_err(|e| format!("the destination is not one complete I8HEX object: {}; it holds {}", e, show(b)))?;
    if got != image {
        let d = (0..got.len().max(image.len())).find(|k| got.get(*k) != image.get(*k)).unwrap();
        let f = |x: Option<&(u16, u8)>| x.map(|(a, b)| format!("${:03X}=${:02X}", a, b)).unwrap_or("nothing".into());
        return Err(format!(
            "the object is not the image of the source: first difference is {} where the language gives {} ({} bytes, expected {})",
            f(got.get(d)),
            f(image.get(d)),
            got.len(),
            image.len()
        ));
    }
    Ok(())
}

fn fail(class: &str, msg: String) -> Option<(String, String)> {
    Some((class.to_string(), msg))
}

/// Exit 0 must mean success (C01), for one process.
fn success_is_real(p: &ProcResult) -> Option<(String, String)> {
    if !p.ok() || p.spec.io().is_none() {
        return None;
    }
    if p.out_path().map_or(false, |o| o.starts_with("/dev/")) {
        return None;
    }
    match outcome(p) {
        None => fail("exit0-no-source", "exit status 0 although the input could not be read".into()),
        Some(Outcome::Reject(r)) => fail("exit0-rejected", format!("exit status 0 although the language rejects the source ({}{})", r.kind, r.at.map(|a| format!(" at {}:{}", a.0, a.1)).unwrap_or_default())),
        Some(Outcome::Image(im)) => check_object(p, &im).err().and_then(|e| fail("exit0-wrong-object", format!("exit status 0, but {}", e))),
    }
}

/// Contents of the process's output path while it ran, starting with the content before.
fn states<'a>(h: &'a History, p: &'a ProcResult) -> Vec<(u64, &'a Option<Vec<u8>>)> {
    let mut v = vec![(p.first_step, &p.out_before)];
    if let Some(o) = p.out_path() {
        for s in &h.snaps {
            if s.path == o && s.step > p.first_step && s.step <= p.last_step {
                v.push((s.step, &s.content));
            }
        }
    }
    v
}

fn errors_injected(p: &ProcResult) -> bool {
    p.nospace_hit || p.limit_hit || p.alloc_fired > 0 || p.fired.iter().any(|f| matches!(f.act, Act::Errno { .. } | Act::TornErr { .. } | Act::Zero | Act::CloseErr(_)))
}

pub fn judge(prop: &str, sc: &Scenario, run: &mut Runner) -> Res<Verdict> {
    let h = run.run(sc)?;
    let mut v = Verdict { fail: None, site: None, history: h, compared: 0, probes: vec![] };
    match prop {
        "C01" => v.fail = judge_c01(&v.history, &mut v.probes),
        "C02" => {
            let b = run.run(&ideal(sc))?;
            v.compared = 1;
            v.fail = judge_c02(&v.history, &b, &mut v.probes);
        }
        "C03" => {
            v.fail = judge_c03(&v.history, &mut v.probes);
            if v.fail.is_some() && sc.kind == "close-error" {
                let p = &v.history.procs[0];
                // Attributed to the close of the output only if nothing else was injected
                // and the object had been written in full before the close.
                if p.ok() && p.fired.iter().all(|f| matches!(f.act, Act::CloseErr(_))) && written_in_full(&v.history, p) {
                    v.site = Some("output-close-error-ignored".into());
                }
            }
        }
        "C04" => v.fail = judge_c04(&v.history, &mut v.probes),
        "C05" => {
            let b = run.run(&ideal(sc))?;
            v.compared = 1;
            v.fail = judge_c05(&v.history, &b, &mut v.probes);
        }
        "C06" => {
            let mut canon = ideal(sc);
            let input = absolute(&run_phase(sc).procs[0].cwd, run_phase(sc).procs[0].io().unwrap().0);
            canon.files.retain(|f| f.0 == input || matches!(f.1, FileSpec::Dir) || f.0.starts_with("/w/real/source"));
            if let Phase::Run(r) = &mut canon.phases[0] {
                let p = &mut r.procs[0];
                let d = ProcSpec::assemble("", "");
                *p = ProcSpec { task: p.task.clone(), argv: p.argv.clone(), cwd: p.cwd.clone(), stdin: p.stdin.clone(), ..d };
            }
            let b = run.run(&canon)?;
            v.compared = 1;
            v.fail = judge_c06(&v.history, &b, &mut v.probes);
            if v.fail.is_none() && b.procs[0].ok() && !is_stdout(&b.procs[0]) {
                let mut c2 = canon.clone();
                if let Phase::Run(r) = &mut c2.phases[0] {
                    let p = &mut r.procs[0];
                    let input = p.io().unwrap().0.to_string();
                    p.task = Task::Assemble { input: input.clone(), output: "-".into() };
                    p.argv = vec!["c8s".into(), "-o".into(), "-".into(), "--".into(), input];
                }
                let b2 = run.run(&c2)?;
                v.compared = 2;
                if b2.procs[0].stdout != b.procs[0].out_after.clone().unwrap_or_default() || !b2.procs[0].ok() {
                    v.fail = fail("destination-matters", format!("written to a file the object is {}, to standard output {}", show_opt(&b.procs[0].out_after), show(&b2.procs[0].stdout)));
                }
            }
        }
        "C07" => {
            let r = run_phase(sc);
            let mut fails = None;
            for (k, spec) in r.procs.iter().enumerate() {
                let mut s = solo(sc, sc.files.clone(), spec.clone());
                if let Phase::Run(q) = &mut s.phases[0] {
                    q.faults = r.faults.iter().filter(|f| f.proc == k).map(|f| Fault { proc: 0, ..f.clone() }).collect();
                }
                let b = run.run(&s)?;
                v.compared += 1;
                let f = judge_c07(k, &v.history.procs[k], &b.procs[0], &mut v.probes);
                if fails.is_none() {
                    fails = f;
                }
            }
            v.fail = fails;
        }
        "C08" => v.fail = judge_c08(&v.history, &mut v.probes),
        "C09" => v.fail = judge_c09(&v.history, &mut v.probes),
        "C10" => {
            let b = run.run(&ideal(sc))?;
            v.compared = 1;
            v.fail = judge_c10(&v.history, &b, &mut v.probes);
        }
        "C11" => {
            let mut fails = None;
            for k in 0..v.history.procs.len() {
                let p = &v.history.procs[k];
                // Runs under good conditions: nothing but benign faults, space left.
                if p.status == Status::Killed || errors_injected(p) || p.source.is_none() {
                    continue;
                }
                let input = p.in_path().unwrap();
                let mut files: Vec<(String, FileSpec)> = sc.files.iter().filter(|f| f.1 == FileSpec::Dir).cloned().collect();
                files.push((input, FileSpec::File(p.source.clone().unwrap())));
                let b = run.run(&solo(sc, files, ideal_proc(&p.spec)))?;
                v.compared += 1;
                let f = judge_c11(k, p, &b.procs[0], &mut v.probes);
                if fails.is_none() {
                    fails = f;
                }
            }
            v.fail = fails;
        }
        "C12" => {
            let mut s = ideal(sc);
            if let Phase::Run(r) = &mut s.phases[0] {
                let p = &mut r.procs[0];
                let input = p.io().unwrap().0.to_string();
                p.task = Task::Assemble { input: input.clone(), output: "/w/zz_reference.hex".into() };
                p.argv = vec!["c8s".into(), "-o".into(), "/w/zz_reference.hex".into(), "--".into(), input];
            }
            let b = run.run(&s)?;
            v.compared = 1;
            v.fail = judge_c12(&v.history, &b, &mut v.probes);
        }
        "C13" => {
            let b = run.run(&ideal(sc))?;
            v.compared = 1;
            v.fail = judge_c13(sc, &v.history, &b, &mut v.probes);
        }
        "C14" => {
            let b = run.run(&ideal(sc))?;
            v.compared = 1;
            v.fail = judge_c14(&v.history, &b, &mut v.probes);
        }
        "C22" => {
            let mut s = ideal(sc);
            if let Phase::Run(r) = &mut s.phases[0] {
                let p = &mut r.procs[0];
                let input = p.io().unwrap().0.to_string();
                p.task = Task::Assemble { input: input.clone(), output: "-".into() };
                p.argv = vec!["c8s".into(), "-o".into(), "-".into(), "--".into(), input];
            }
            let b = run.run(&s)?;
            v.compared = 1;
            v.fail = judge_c22(sc, &v.history, &b, &mut v.probes);
        }
        "C23" => {
            let mut fails = None;
            for (k, spec) in run_phase(sc).procs.iter().enumerate() {
                let b = run.run(&solo(sc, sc.files.clone(), ideal_proc(spec)))?;
                v.compared += 1;
                fails = fails.or(judge_c23(k, &v.history, &b.procs[0], &mut v.probes));
            }
            v.fail = fails;
        }
        "C24" => v.fail = judge_c24(&v.history, &mut v.probes),
        _ => {
            let b = run.run(&ideal(sc))?;
            v.compared = 1;
            v.fail = judge_c15(&v.history, &b, &mut v.probes);
        }
    }
    Ok(v)
}

fn judge_c01(h: &History, probes: &mut Vec<&'static str>) -> Option<(String, String)> {
    for p in &h.procs {
        match (p.ok(), outcome(p)) {
            (true, Some(Outcome::Image(_))) if p.fired.is_empty() => probes.push("success, no fault"),
            (true, Some(Outcome::Image(_))) => probes.push("success under faults"),
            (false, Some(Outcome::Image(_))) => probes.push("acceptable source, run failed"),
            (false, Some(Outcome::Reject(_))) => probes.push("rejected source, run failed"),
            (false, None) => probes.push("unreadable source"),
            _ => {}
        }
        if let Some(f) = success_is_real(p) {
            return Some(f);
        }
    }
    None
}

fn judge_c02(h: &History, b: &History, probes: &mut Vec<&'static str>) -> Option<(String, String)> {
    let (p, q) = (&h.procs[0], &b.procs[0]);
    match outcome(p) {
        Some(Outcome::Image(im)) => {
            probes.push("accepted");
            if !p.ok() {
                return fail("benign-fails", format!("an acceptable source under benign conditions ended with {:?}; stdout {}, stderr {}", p.status, show(&p.stdout), show(&p.stderr)));
            }
            if let Err(e) = check_object(p, &im) {
                return fail("benign-wrong", e);
            }
        }
        Some(Outcome::Reject(r)) => {
            probes.push("rejected");
            if p.ok() || !matches!(p.status, Status::Exit(_)) {
                return fail("benign-reject", format!("a source the language rejects ({}) ended with {:?}", r.kind, p.status));
            }
        }
        None => return None,
    }
    same(p, q, "on an ideal system", "benign-differs")
}

/// Same observable result?
fn same(p: &ProcResult, q: &ProcResult, than: &str, class: &str) -> Option<(String, String)> {
    if p.status != q.status {
        return fail(class, format!("ended with {:?}, {} with {:?}; stdout {} stderr {}", p.status, than, q.status, show(&p.stdout), show(&p.stderr)));
    }
    if p.stdout != q.stdout {
        return fail(class, format!("standard output is {}, {} it is {}", show(&p.stdout), than, show(&q.stdout)));
    }
    if p.stderr != q.stderr {
        return fail(class, format!("standard error is {}, {} it is {}", show(&p.stderr), than, show(&q.stderr)));
    }
    if p.ok() && p.out_after != q.out_after {
        return fail(class, format!("the output is {}, {} it is {}", show_opt(&p.out_after), than, show_opt(&q.out_after)));
    }
    None
}

/// A complete correct object had been written when a close took it away again.
fn written_in_full(h: &History, p: &ProcResult) -> bool {
    match outcome(p) {
        Some(Outcome::Image(im)) => h.lost.iter().any(|(_, _, c)| model::decode_hex(c).as_ref() == Ok(&im)),
        _ => false,
    }
}

fn contains(hay: &[u8], needle: &str) -> bool {
    let n = needle.as_bytes();
    n.is_empty() || hay.windows(n.len()).any(|w| w == n)
}

fn judge_c03(h: &History, probes: &mut Vec<&'static str>) -> Option<(String, String)> {
    let p = &h.procs[0];
    let (input, output) = p.spec.io().unwrap();
    let in_fault = p.source.is_none()
        || p.fired.iter().any(|f| matches!(f.class, Class::InOpen | Class::InRead) && matches!(f.act, Act::Errno { .. } | Act::TornErr { .. }));
    // A destination that exists but cannot be a file, or whose directory is missing.
    let out_fault = p.nospace_hit
        || p.limit_hit
        || p.fired.iter().any(|f| matches!(f.class, Class::OutOpen | Class::OutWrite | Class::OutClose | Class::OutMeta | Class::StdoutWrite) && !matches!(f.act, Act::Eintr | Act::Short(_) | Act::Stall(_)))
        || h.events.iter().any(|e| e.proc == 0 && e.class == Class::OutOpen && e.ret < 0 && e.err != libc::EINTR);
    if !in_fault && !out_fault {
        probes.push("fault not reached");
        // Then the run is an ordinary one.
        return success_is_real(p);
    }
    probes.push(if in_fault && out_fault { "both fail" } else if in_fault { "input fails" } else { "output fails" });
    if p.ok() {
        if output == "/dev/full" {
            return fail("silent-failure", "exit status 0 although the output device accepted nothing".into());
        }
        probes.push("recovered or unaffected");
        return success_is_real(p).map(|(c, m)| (format!("silent-{}", c), m));
    }
    if p.status == Status::Hang {
        return fail("hang", "the run did not end".into());
    }
    if !matches!(p.status, Status::Exit(_)) {
        return fail("crash", format!("an I/O failure ended the run with {:?}", p.status));
    }
    if p.limit_hit || p.fired.iter().any(|f| f.class == Class::StdoutWrite && !matches!(f.act, Act::Eintr | Act::Short(_) | Act::Stall(_))) {
        return None; // the message channel itself failed
    }
    let said: Vec<u8> = [&p.stdout[..], &p.stderr[..]].concat();
    let named = (in_fault && contains(&said, input)) || (out_fault && contains(&said, output));
    // A rejected source explains a failure just as well.
    let rejected = matches!(outcome(p), Some(Outcome::Reject(_))) && contains(&said, input);
    let overlap = matches!(outcome(p), Some(Outcome::Reject(model::Reject { kind: "overlap", .. }))) && !said.is_empty();
    if !named && !rejected && !overlap {
        return fail("unnamed", format!("the failing file ({}) is not named; the run said {}", if in_fault { input } else { output }, show(&said)));
    }
    None
}

fn judge_c04(h: &History, probes: &mut Vec<&'static str>) -> Option<(String, String)> {
    let p = &h.procs[0];
    let src = p.source.clone().unwrap_or_default();
    let rejected = !matches!(outcome(p), Some(Outcome::Image(_)));
    // When had the process received the whole source?
    let whole = p.streams.iter().filter(|s| s.data.len() >= src.len()).map(|s| s.data_step).min();
    let whole = if src.is_empty() { Some(whole.unwrap_or(0)) } else { whole };
    let unread = whole.is_none();
    probes.push(match (rejected, unread) {
        (true, _) => "rejected",
        (false, true) => "accepted but never read in full",
        _ => "accepted",
    });
    if p.status == Status::Killed {
        probes.push("killed");
    }
    let touched = states(h, p).iter().skip(1).find(|s| *s.1 != p.out_before).map(|s| s.0);
    if let Some(t) = touched {
        if rejected {
            return fail("output-touched", format!("the source is not acceptable, yet at step {} the output changed from {} to {}", t, show_opt(&p.out_before), show_opt(states(h, p).iter().find(|s| s.0 == t).unwrap().1)));
        }
        if whole.map_or(true, |w| t <= w) {
            return fail("output-too-early", format!("the output was touched at step {}, before the source had been read in full", t));
        }
    }
    // Creation or truncation that leaves the content as it was is still a touch.
    if let Some(o) = p.out_path() {
        let m = h.mutations.iter().find(|m| m.proc == 0 && m.path == o && (rejected || whole.map_or(true, |w| m.step <= w)));
        if let Some(m) = m {
            return fail("output-touched", format!("{} of the output at step {} by a run that {}", m.what, m.step, if rejected { "rejects its source" } else { "had not read its source in full" }));
        }
    }
    if rejected || unread {
        if let Some(l) = record_line(&p.stdout, &src) {
            return fail("records-on-stdout", format!("object record on standard output although nothing was assembled: {:?}", l));
        }
    }
    None
}

/// An object record that is not merely quoted from the source.
fn record_line(b: &[u8], src: &[u8]) -> Option<String> {
    String::from_utf8_lossy(b).lines().map(|l| l.trim_end_matches('\r')).find(|l| model::record(l).is_some() && !contains(src, l)).map(|l| l.to_string())
}

/// Old content or prefix of the reference object, at every instant.
fn old_or_prefix(h: &History, p: &ProcResult, object: Option<&[u8]>) -> Option<(String, String)> {
    let mut begun = false;
    for (step, c) in states(h, p).into_iter().skip(1) {
        if !begun && *c == p.out_before {
            continue;
        }
        let ok = match (c, object) {
            (Some(c), Some(o)) => o.starts_with(c),
            _ => false,
        };
        if !ok {
            return fail(
                "torn-output",
                format!("at step {} the output holds {}, which is neither its old content {} nor a prefix of the object {}", step, show_opt(c), show_opt(&p.out_before), object.map(show).unwrap_or("(none: the source is rejected)".into())),
            );
        }
        begun = true;
    }
    None
}

fn judge_c05(h: &History, b: &History, probes: &mut Vec<&'static str>) -> Option<(String, String)> {
    let (p, q) = (&h.procs[0], &b.procs[0]);
    let object = if q.ok() { q.out_after.as_deref() } else { None };
    let st = states(h, p);
    if st.len() > 3 {
        probes.push("several intermediate states");
    }
    if p.status == Status::Killed {
        let len = p.out_after.as_ref().map_or(0, |o| o.len());
        probes.push(if p.out_after == p.out_before {
            "killed before the output was touched"
        } else if object.map_or(false, |o| len < o.len()) {
            "killed with a partial output"
        } else {
            "killed with a complete output"
        });
    }
    if p.ok() {
        probes.push("completed");
    }
    old_or_prefix(h, p, object)
}

fn judge_c06(h: &History, b: &History, probes: &mut Vec<&'static str>) -> Option<(String, String)> {
    let (p, q) = (&h.procs[0], &b.procs[0]);
    probes.push(if p.ok() { "accepted" } else { "rejected" });
    if p.spec.release {
        probes.push("release build against debug build");
    }
    same(p, q, "on the reference machine", "not-reproducible")
}

fn judge_c07(k: usize, p: &ProcResult, q: &ProcResult, probes: &mut Vec<&'static str>) -> Option<(String, String)> {
    if p.status == Status::Killed && q.status == Status::Killed {
        probes.push("killed");
    } else if p.ok() {
        probes.push("survivor succeeded");
    } else {
        probes.push("survivor failed by itself");
    }
    if let Some((c, m)) = same(p, q, "when run alone", "interference") {
        return fail(&c, format!("run {} (output {}): {}", k, p.spec.io().unwrap().1, m));
    }
    if p.out_after != q.out_after {
        return fail("interference", format!("run {} leaves its output {} as {}, when run alone as {}", k, p.spec.io().unwrap().1, show_opt(&p.out_after), show_opt(&q.out_after)));
    }
    success_is_real(p)
}

fn judge_c08(h: &History, probes: &mut Vec<&'static str>) -> Option<(String, String)> {
    let p = &h.procs[0];
    let path = p.in_path().unwrap();
    let reads: Vec<&Vec<u8>> = p.streams.iter().filter(|s| s.path == path).map(|s| &s.data).collect();
    let edited = h.events.iter().any(|e| e.proc >= 1000 && e.step > p.first_step && e.step <= p.last_step);
    if edited {
        probes.push("edited during the run");
    }
    if let Some(s) = &p.source {
        if reads.iter().any(|r| *r != s) {
            probes.push("read differs from the initial content");
        }
    }
    match p.status {
        Status::Exit(0) => {
            let mut why = "no read of the input took place".to_string();
            for r in &reads {
                match model::assemble(r) {
                    Outcome::Image(im) => match check_object(p, &im) {
                        Ok(()) => return None,
                        Err(e) => why = e,
                    },
                    Outcome::Reject(x) => why = format!("the bytes read are rejected by the language ({})", x.kind),
                }
            }
            fail("mixed-reads", format!("exit status 0, but no single read of the input explains the result: {}", why))
        }
        Status::Exit(_) => {
            if reads.is_empty() || reads.iter().any(|r| !gen::accepted(r)) {
                return None;
            }
            fail("mixed-reads", format!("the run failed although what it read is acceptable; it said {}", show(&p.stdout)))
        }
        _ => fail("crash", format!("the run ended with {:?}", p.status)),
    }
}

fn judge_c09(h: &History, probes: &mut Vec<&'static str>) -> Option<(String, String)> {
    let p = &h.procs[0];
    probes.push(match p.status {
        Status::Exit(0) => "exit 0",
        Status::Exit(1) => "exit 1",
        _ => "other",
    });
    match p.status {
        Status::Exit(0) | Status::Exit(1) => {}
        Status::Hang => return fail("hang", format!("the run did not end ({} calls made)", p.steps)),
        _ => return fail("disorderly", format!("the run ended with {:?}; stderr {}", p.status, show(&p.stderr))),
    }
    if contains(&p.stderr, "panicked") {
        return fail("panic", format!("the run panicked: {}", show(&p.stderr)));
    }
    let bytes = p.source.as_ref().map_or(0, |s| s.len()) + p.out_after.as_ref().map_or(0, |o| o.len()) + p.stdout.len();
    let budget = 300 + 4 * bytes as u64 + 4 * p.fired.len() as u64;
    if p.steps > budget {
        return fail("too-many-calls", format!("{} system calls for {} bytes (budget {})", p.steps, bytes, budget));
    }
    None
}

fn judge_c10(h: &History, b: &History, probes: &mut Vec<&'static str>) -> Option<(String, String)> {
    let (p, q) = (&h.procs[0], &b.procs[0]);
    let r = match outcome(p) {
        Some(Outcome::Reject(r)) => r,
        _ => {
            probes.push("source happens to be acceptable");
            return None;
        }
    };
    let path = p.spec.io().unwrap().0;
    if p.limit_hit {
        probes.push("message not deliverable");
        if p.ok() || !matches!(p.status, Status::Exit(_)) {
            return fail("undelivered-but-ok", format!("the message could not be delivered and the run ended with {:?}", p.status));
        }
        return None;
    }
    if p.status != Status::Exit(1) {
        return fail("reject-status", format!("a rejected source ({}) ended with {:?}", r.kind, p.status));
    }
    if p.stdout != q.stdout || p.stderr != q.stderr {
        return fail("message-damaged", format!("the message arrived as {}, on an ideal system it is {}", show(&p.stdout), show(&q.stdout)));
    }
    if p.stdout.is_empty() && p.stderr.is_empty() {
        return fail("no-message", "a rejection without any message".into());
    }
    if let Some((line, col, _)) = r.at {
        probes.push(if r.kind == "syntax" { "located syntax error" } else { "located semantic error" });
        let want = format!("{}:{}:{}", path, line, col);
        let said = String::from_utf8_lossy(if p.stdout.is_empty() { &p.stderr } else { &p.stdout }).into_owned();
        let ok = said.strip_prefix(&want).map_or(false, |rest| !rest.starts_with(|c: char| c.is_ascii_digit()));
        if !ok {
            return fail("wrong-location", format!("the first offending construct is at {}, the message says {}", want, show(said.as_bytes())));
        }
    } else {
        probes.push(match r.kind {
            "utf8" => "not UTF-8",
            "overlap" => "overlap",
            _ => "unexpected end of file",
        });
    }
    None
}

fn judge_c11(k: usize, p: &ProcResult, q: &ProcResult, probes: &mut Vec<&'static str>) -> Option<(String, String)> {
    if let Some((c, m)) = same(p, q, "in a fresh directory", "history-matters") {
        return fail(&c, format!("run {} of the history: {}", k + 1, m));
    }
    match outcome(p) {
        Some(Outcome::Image(im)) => {
            if p.out_before.is_some() {
                probes.push("accepted over a previous output");
            }
            if !p.ok() {
                return fail("history-fails", format!("run {} of the history: an acceptable source ended with {:?}, {}", k + 1, p.status, show(&p.stdout)));
            }
            check_object(p, &im).err().and_then(|e| fail("history-wrong", format!("run {} of the history: {}", k + 1, e)))
        }
        _ => {
            probes.push("rejected in a history");
            if p.out_after != p.out_before {
                return fail("history-touched", format!("run {} rejects its source but changed the output from {} to {}", k + 1, show_opt(&p.out_before), show_opt(&p.out_after)));
            }
            None
        }
    }
}

fn judge_c12(h: &History, b: &History, probes: &mut Vec<&'static str>) -> Option<(String, String)> {
    let (p, q) = (&h.procs[0], &b.procs[0]);
    let im = match outcome(p) {
        Some(Outcome::Image(im)) => im,
        _ => return None,
    };
    if let Some(m) = h.mutations.iter().find(|m| m.proc == 0) {
        return fail("file-touched", format!("{} of {} although the output is standard output", m.what, m.path));
    }
    let object = q.out_after.clone().unwrap_or_default();
    let broken = p.limit_hit || p.fired.iter().any(|f| matches!(f.act, Act::Errno { .. }));
    if broken {
        probes.push("consumer failed");
        if p.ok() {
            return fail("lost-object", format!("exit status 0 although only {} of {} bytes were taken", p.stdout.len(), object.len()));
        }
        if !object.starts_with(&p.stdout) {
            return fail("not-a-prefix", format!("the consumer received {}, not a prefix of the object {}", show(&p.stdout), show(&object)));
        }
        return None;
    }
    probes.push("consumer took everything");
    if !p.ok() {
        return fail("stream-fails", format!("ended with {:?}, stderr {}", p.status, show(&p.stderr)));
    }
    if let Err(e) = check_object(p, &im) {
        return fail("stream-wrong", e);
    }
    if p.stdout != object {
        return fail("stream-differs", format!("standard output carries {}, the object in a file is {}", show(&p.stdout), show(&object)));
    }
    None
}

/// The file a path leads to through links, on the given disk.
fn resolve(disk: &Disk, path: &str) -> String {
    let mut p = path.to_string();
    for _ in 0..8 {
        match disk.get(&p).and_then(|b| b.strip_prefix(b"symlink:")) {
            Some(t) => {
                let t = String::from_utf8_lossy(t).into_owned();
                let dir = p.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default();
                p = absolute(if dir.is_empty() { "/" } else { &dir }, &t);
            }
            None => break,
        }
    }
    p
}

fn judge_c13(sc: &Scenario, h: &History, b: &History, probes: &mut Vec<&'static str>) -> Option<(String, String)> {
    let (p, q) = (&h.procs[0], &b.procs[0]);
    let before = &h.disks[p.phase];
    let after = &h.disks[p.phase + 1];
    let out = p.out_path().map(|o| resolve(before, &o));
    let input = p.in_path().map(|i| resolve(before, &i));
    // A file may have several names.
    let first = |p: &String| match sc.files.iter().find(|f| f.0 == *p) {
        Some((_, FileSpec::Hard(t))) => t.clone(),
        _ => p.clone(),
    };
    let alias = out.is_some() && out.as_ref().map(first) == input.as_ref().map(first);
    let accepted = matches!(outcome(p), Some(Outcome::Image(_)));
    if alias {
        probes.push(if accepted { "input is output, accepted" } else { "input is output, rejected" });
    }
    let named = p.out_path();
    let mut outputs: Vec<&String> = vec![];
    outputs.extend(out.iter());
    outputs.extend(named.iter());
    if let Some(o) = &out {
        outputs.extend(sc.files.iter().map(|f| &f.0).filter(|p| first(p) == first(o)));
    }
    let describe = |m: &Mutation| format!("{} of {} at step {}", m.what, m.path, m.step);
    for m in h.mutations.iter().filter(|m| m.proc == 0) {
        if outputs.iter().any(|o| **o == m.path) {
            if alias && !accepted {
                return fail("input-destroyed", format!("{}: input and output are one file and the source is not acceptable", describe(m)));
            }
            continue;
        }
        if before.contains_key(&m.path) {
            return fail("bystander-touched", format!("{} although it is not the output of this run", describe(m)));
        }
    }
    for (path, old) in before {
        if outputs.iter().any(|o| *o == path) {
            continue;
        }
        match after.get(path) {
            Some(new) if new == old => {}
            Some(_) => return fail("bystander-touched", format!("{} was changed", path)),
            None => return fail("bystander-touched", format!("{} is gone", path)),
        }
    }
    if matches!(p.status, Status::Exit(_)) {
        for path in after.keys() {
            // A file whose removal was tried and refused by the system is not the run's fault.
            let refused = h.events.iter().any(|e| e.proc == 0 && e.ret < 0 && e.fault.is_some() && e.call.strip_prefix("unlink ").map_or(false, |u| absolute(&p.spec.cwd, u) == *path));
            if refused {
                continue;
            }
            if !before.contains_key(path) && !outputs.iter().any(|o| *o == path) {
                return fail("litter", format!("{} was left behind by a run that ended with {:?}", path, p.status));
            }
        }
        probes.push("orderly end");
    }
    if p.ok() && p.out_before.is_none() {
        probes.push("new output created");
    }
    if alias && accepted {
        let object = if q.ok() { q.out_after.as_deref() } else { None };
        return old_or_prefix(h, p, object).map(|(_, m)| ("alias-torn".to_string(), m));
    }
    None
}

fn judge_c14(h: &History, b: &History, probes: &mut Vec<&'static str>) -> Option<(String, String)> {
    let (p, q) = (&h.procs[0], &b.procs[0]);
    probes.push(match (&p.status, p.alloc_fired > 0) {
        (_, false) => "allocation not reached",
        (Status::Exit(0), _) => "survived",
        (Status::Exit(_), _) => "reported",
        (Status::Signal(_), _) => "aborted",
        _ => "other",
    });
    if p.status == Status::Hang {
        return fail("hang", "the run did not end after an allocation failure".into());
    }
    if let Some(f) = success_is_real(p) {
        return Some(f);
    }
    if let Some(i) = p.in_path() {
        let i = resolve(&h.disks[p.phase], &i);
        if h.mutations.iter().any(|m| m.proc == 0 && m.path == i) {
            return fail("input-touched", "the input was changed".into());
        }
    }
    if is_stdout(p) {
        return None;
    }
    let object = if q.ok() { q.out_after.as_deref() } else { None };
    old_or_prefix(h, p, object)
}

fn judge_c15(h: &History, b: &History, probes: &mut Vec<&'static str>) -> Option<(String, String)> {
    let (p, q) = (&h.procs[0], &b.procs[0]);
    if let Some(m) = h.mutations.iter().find(|m| m.proc == 0) {
        return fail("file-touched", format!("{} of {} by a command line that asks for no assembly ({:?})", m.what, m.path, p.spec.argv));
    }
    if let Some(e) = h.events.iter().find(|e| e.proc == 0 && matches!(e.class, Class::InOpen | Class::OutOpen)) {
        return fail("file-opened", format!("{} by a command line that asks for no assembly ({:?})", e.call, p.spec.argv));
    }
    if matches!(p.status, Status::Hang | Status::Signal(_)) {
        return fail("crash", format!("{:?} ended with {:?}", p.spec.argv, p.status));
    }
    if !p.limit_hit && contains(&p.stderr, "panicked") {
        return fail("panic", format!("{:?} ended in a panic: {}", p.spec.argv, show(&p.stderr)));
    }
    match p.spec.task {
        Task::Info => {
            probes.push(if p.limit_hit { "text not deliverable" } else { "text delivered" });
            if q.stdout.is_empty() || !q.ok() {
                return fail("no-text", format!("{:?} says {} and ends with {:?}", p.spec.argv, show(&q.stdout), q.status));
            }
            let full = p.stdout == q.stdout;
            if p.ok() != full {
                return fail("info-status", format!("{:?} ended with {:?} having delivered {} of {} bytes", p.spec.argv, p.status, p.stdout.len(), q.stdout.len()));
            }
        }
        _ => {
            probes.push("usage error");
            if p.ok() {
                return fail("usage-ok", format!("{:?} ended with exit status 0", p.spec.argv));
            }
            if q.stdout.is_empty() && q.stderr.is_empty() {
                return fail("no-text", format!("{:?} says nothing", p.spec.argv));
            }
            if !p.limit_hit && p.stdout != q.stdout {
                return fail("message-damaged", format!("the message arrived as {}", show(&p.stdout)));
            }
        }
    }
    None
}

fn judge_c22(sc: &Scenario, h: &History, b: &History, probes: &mut Vec<&'static str>) -> Option<(String, String)> {
    let (p, q) = (&h.procs[0], &b.procs[0]);
    let im = match outcome(p) {
        Some(Outcome::Image(im)) => im,
        _ => return None,
    };
    let out = p.out_path().unwrap();
    let (before, after) = (&h.disks[p.phase], &h.disks[p.phase + 1]);
    let (was, is) = (&h.metas[p.phase], &h.metas[p.phase + 1]);
    if !p.ok() {
        return fail("destination-refused", format!("an acceptable source ended with {:?} when written to {} ({}): {}{}", p.status, out, sc.kind, show(&p.stdout), show(&p.stderr)));
    }
    let object = q.stdout.clone();
    let got: Vec<u8> = match out.as_str() {
        "/dev/null" => return None,
        "/dev/stdout" => p.stdout.clone(),
        _ => p.out_after.clone().unwrap_or_default(),
    };
    if model::decode_hex(&got).as_ref() != Ok(&im) || got != object {
        return fail("destination-wrong", format!("{} ({}) received {} instead of the object {}", out, sc.kind, show(&got), show(&object)));
    }
    if out == "/dev/stdout" {
        probes.push("through standard output");
        return None;
    }
    // Links and FIFOs are still what they were.
    for (path, old) in before {
        let special = old.starts_with(b"symlink:") || old.starts_with(b"fifo:");
        if special && after.get(path) != Some(old) {
            return fail("destination-replaced", format!("{} was {}, now it is {}", path, show(old), show_opt(&after.get(path).cloned())));
        }
    }
    let target = resolve(before, &real_dir(before, &out));
    match was.get(&target) {
        Some((ino, mode)) => {
            probes.push("existing destination");
            for (other, m) in was.iter().filter(|m| m.1 .0 == *ino) {
                let now = is.get(other).copied();
                if was.iter().filter(|m| m.1 .0 == *ino).count() > 1 {
                    probes.push("several names");
                    if now.map(|n| Some(n.0)) != Some(is.get(&target).map(|t| t.0)) {
                        return fail("destination-replaced", format!("{} and {} were one file, now they are not", other, target));
                    }
                }
                if now.map(|n| n.1) != Some(m.1) {
                    return fail("permissions", format!("{} had permissions {:o}, now {:?}", other, mode, now.map(|n| format!("{:o}", n.1))));
                }
            }
        }
        None => {
            probes.push("new destination");
            let want = 0o666 & !p.spec.umask;
            match is.get(&target) {
                Some((_, m)) if *m == want => {}
                x => return fail("permissions", format!("the new file {} should have permissions {:o} (umask {:o}), it has {:?}", target, want, p.spec.umask, x.map(|x| format!("{:o}", x.1)))),
            }
        }
    }
    None
}

/// Follows a link in the directory part of a path.
fn real_dir(disk: &Disk, path: &str) -> String {
    match path.rsplit_once('/') {
        Some((d, f)) if !d.is_empty() => format!("{}/{}", resolve(disk, d), f),
        _ => path.to_string(),
    }
}

fn judge_c23(k: usize, h: &History, q: &ProcResult, probes: &mut Vec<&'static str>) -> Option<(String, String)> {
    let p = &h.procs[k];
    let out = p.out_path().unwrap();
    let at = |disk: &Disk| disk.get(&resolve(disk, &out)).cloned();
    let now = at(h.disks.last().unwrap());
    match outcome(p) {
        Some(Outcome::Image(im)) => {
            probes.push("accepted");
            let object = q.out_after.clone();
            if !p.ok() {
                return fail("race-fails", format!("run {} of {} racing for one output ended with {:?}: {}{}", k, h.procs.len(), p.status, show(&p.stdout), show(&p.stderr)));
            }
            if !p.stdout.is_empty() || !p.stderr.is_empty() {
                return fail("race-differs", format!("run {} said {}{}", k, show(&p.stdout), show(&p.stderr)));
            }
            if now != object || now.as_ref().map(|n| model::decode_hex(n)) != Some(Ok(im)) {
                return fail("race-spoils", format!("after all {} runs succeeded the output holds {} instead of the object {}", h.procs.len(), show_opt(&now), show_opt(&object)));
            }
            None
        }
        _ => {
            probes.push("rejected");
            if let Some(f) = same(p, q, "when run alone", "race-differs") {
                return Some(f);
            }
            if now != at(&h.disks[0]) {
                return fail("race-spoils", format!("all runs reject their source, yet the output is now {}", show_opt(&now)));
            }
            None
        }
    }
}

fn judge_c24(h: &History, probes: &mut Vec<&'static str>) -> Option<(String, String)> {
    let p = &h.procs[0];
    let disk = &h.disks[p.phase];
    probes.push(match p.spec.task {
        Task::Assemble { .. } => "assembly",
        Task::Info => "information",
        Task::BadUsage => "usage error",
    });
    let own: Vec<String> = p.in_path().iter().flat_map(|x| [x.clone(), resolve(disk, x), resolve(disk, &real_dir(disk, x))]).collect();
    if p.stdin_reads > 0 && !own.iter().any(|x| x == "/dev/stdin") {
        return fail("stdin-read", format!("standard input was read {} times although it is not the input (standard input held {})", p.stdin_reads, show(&p.spec.stdin)));
    }
    if p.status == Status::Hang {
        return fail("hang", "the run did not end".into());
    }
    for f in &p.opened {
        if !own.contains(f) && !f.starts_with("/dev/") {
            return fail("other-file-read", format!("{} was opened for reading; the input is {:?}", f, p.in_path()));
        }
    }
    if !p.spec.stdin.is_empty() && p.stdin_reads == 0 {
        probes.push("standard input left alone");
    }
    None
}
