//! Pieces of scenarios: machines, command lines, directories, I/O conditions.

use crate::dict;
use crate::gen;
use crate::kernel::absolute;
use crate::model;
use crate::rng::Rng;
use crate::scenario::*;

/// Spells a command line that assembles `input` into `output` (None: the default a.hex).
pub fn command(r: &mut Rng, input: &str, output: Option<&str>) -> Vec<String> {
    let mut v: Vec<String> = vec![r.pick(&["c8s", "c8s", "/usr/bin/c8s", "./c8s", "target/debug/c8s"]).to_string()];
    let o: Vec<String> = match output {
        None => vec![],
        Some(o) => match r.below(5) {
            0 | 1 => vec!["-o".into(), o.into()],
            2 if !o.is_empty() => vec![format!("-o{}", o)],
            3 => vec!["--output".into(), o.into()],
            _ => vec![format!("--output={}", o)],
        },
    };
    if (input.starts_with('-') && input != "-") || r.chance(1, 8) {
        v.extend(o);
        v.push("--".into());
        v.push(input.into());
    } else if r.chance(1, 3) {
        v.push(input.into());
        v.extend(o);
    } else {
        v.extend(o);
        v.push(input.into());
    }
    v
}

/// The machine the process finds itself on.
pub fn machine(r: &mut Rng, p: &mut ProcSpec) {
    p.release = r.chance(1, 2);
    p.entropy = r.next() >> 2;
    p.clock = match r.below(9) {
        // Agrees with the clock that dates files, or runs a little behind or ahead of it.
        5 | 6 => 1_700_000_000_000_000_000,
        7 => 1_699_999_998_000_000_000 + r.below(4_000_000_000) as i64,
        8 => 1_700_000_000_000_000_000 + r.skew(1_000_000_000_000_000) as i64,
        0 => 0,
        1 => 1_500_000_000_000_000_000,
        2 => 2_200_000_000_000_000_000,
        _ => (r.next() >> 3) as i64,
    };
    p.pid = r.range(2, 4_000_000) as u32;
    p.uid = *r.pick(&[0u32, 1, 1000, 65534]);
    p.umask = *r.pick(&[0o022u32, 0o022, 0o002, 0o077, 0o027, 0]);
    p.heap_shift = if r.chance(1, 2) { r.skew(300_000) as u32 } else { 0 };
    if r.chance(1, 2) {
        p.env_chaos = r.next() >> 2;
    }
    p.tty = r.chance(1, 6);
    let pool: &[(&str, &[&str])] = &[
        ("HOME", &["/root", "/home/u", ""]),
        ("LANG", &["C", "de_DE.UTF-8", "ja_JP.SJIS", "tr_TR"]),
        ("LC_ALL", &["POSIX", "en_US.UTF-8"]),
        ("TERM", &["dumb", "xterm-256color"]),
        ("COLUMNS", &["1", "80", "x"]),
        ("TMPDIR", &["/tmp", "/w", "/nonexistent"]),
        ("TZ", &["UTC", "Asia/Kathmandu"]),
        ("USER", &["root", "u"]),
        ("PWD", &["/", "/w", "/elsewhere"]),
        ("PATH", &["", "/bin"]),
        ("NO_COLOR", &["1"]),
        ("SOURCE_DATE_EPOCH", &["0", "1"]),
        ("DEBUG", &["1"]),
        ("C8S_DEBUG", &["1"]),
        ("VERBOSE", &["1"]),
        ("CI", &["true"]),
    ];
    for (k, vs) in pool {
        if r.chance(1, 4) {
            p.env.push((k.to_string(), r.pick(vs).to_string()));
        }
    }
}

/// A pattern of transfer sizes that keeps the number of calls for `len` bytes below about `calls`.
pub fn chunks(r: &mut Rng, len: usize, calls: usize) -> Vec<u32> {
    let min = (len / calls.max(1)).max(1) as u64;
    match r.below(6) {
        0 => vec![min as u32],
        1 => vec![(min * r.range(1, 8)) as u32],
        2 => {
            let n = r.range(2, 7);
            (0..n).map(|_| (min * r.range(1, 16)) as u32).collect()
        }
        3 => vec![min as u32, 0],
        4 => {
            let n = r.range(2, 5);
            (0..n).map(|_| (min + r.below(3)) as u32).collect()
        }
        _ => {
            let n = r.range(2, 9);
            (0..n).map(|_| (min + r.skew(4096)) as u32).collect()
        }
    }
}

fn object_len(src: &[u8]) -> usize {
    match model::assemble(src) {
        model::Outcome::Image(v) => v.len() * 3 + 40,
        _ => 200,
    }
}

/// Conditions a correct program cannot notice.
pub fn benign(r: &mut Rng, k: usize, p: &mut ProcSpec, faults: &mut Vec<Fault>, src: &[u8], calls: usize) {
    if r.chance(2, 3) {
        p.read_chunks = chunks(r, src.len(), calls);
    }
    let out = object_len(src);
    if r.chance(2, 3) {
        p.write_chunks = chunks(r, out, calls);
    }
    if r.chance(1, 2) {
        p.stdout_chunks = chunks(r, out, calls);
    }
    let add = |faults: &mut Vec<Fault>, class: Class, nth: u32, act: Act| faults.push(Fault { proc: k, class, nth, act });
    for class in [Class::InOpen, Class::InRead, Class::OutOpen, Class::OutWrite, Class::StdoutWrite, Class::Random] {
        if r.chance(1, 3) {
            // One or several interruptions in a row, somewhere.
            let at = 1 + r.skew(6) as u32;
            for j in 0..1 + r.skew(4) as u32 {
                add(faults, class, at + j, Act::Eintr);
            }
        }
        if r.chance(1, 10) {
            add(faults, class, 1 + r.skew(5) as u32, Act::Stall(r.range(1, 3_600_000_000_000)));
        }
        if r.chance(1, 8) && matches!(class, Class::InRead | Class::OutWrite | Class::StdoutWrite) {
            add(faults, class, 1 + r.skew(6) as u32, Act::Short(1 + r.skew(50) as u32));
        }
    }
    if r.chance(1, 4) {
        let n = match r.below(6) {
            0 => 0,
            1 => 1,
            2 => src.len() as i64 + r.range(1, 5000) as i64,
            3 => (src.len() / 2) as i64,
            4 => 1 << 20,
            _ => src.len() as i64 - r.range(0, 9).min(src.len() as u64) as i64,
        };
        for nth in 1..=3 {
            add(faults, Class::InMeta, nth, Act::LieSize(n));
        }
    } else if r.chance(1, 5) {
        add(faults, Class::InMeta, 1, Act::NoSys);
    }
    if r.chance(1, 8) {
        add(faults, Class::Random, 1, Act::NoSys);
    }
}

pub const IN_OPEN: &[i32] = &[
    libc::ENOENT, libc::EACCES, libc::EMFILE, libc::ENFILE, libc::ELOOP, libc::EIO, libc::ENOMEM, libc::ESTALE, libc::ENAMETOOLONG, libc::ENODEV, libc::EPERM, libc::ENOTDIR,
];
pub const IN_READ: &[i32] = &[libc::EIO, libc::EISDIR, libc::ENOMEM, libc::ESTALE, libc::EAGAIN, libc::ETIMEDOUT, libc::EBADF];
pub const OUT_OPEN: &[i32] = &[
    libc::EACCES, libc::ENOSPC, libc::EROFS, libc::EDQUOT, libc::EMFILE, libc::EISDIR, libc::ETXTBSY, libc::EIO, libc::ENXIO, libc::ENOENT, libc::EPERM, libc::ENOMEM,
];
pub const OUT_WRITE: &[i32] = &[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG, libc::EPIPE, libc::ESTALE, libc::EAGAIN, libc::ENOMEM, libc::EPERM];

/// One failure that a program cannot overlook.
pub fn fatal(r: &mut Rng, k: usize, faults: &mut Vec<Fault>, class: Class) {
    let (errs, torn) = match class {
        Class::InOpen => (IN_OPEN, false),
        Class::InRead => (IN_READ, true),
        Class::OutOpen => (OUT_OPEN, false),
        _ => (OUT_WRITE, true),
    };
    let errno = *r.pick(errs);
    let nth = match class {
        Class::InOpen | Class::OutOpen => 1,
        _ => 1 + r.skew(7) as u32,
    };
    let act = if torn && r.chance(1, 3) {
        Act::TornErr { n: r.skew(60) as u32, errno }
    } else if class == Class::OutWrite && r.chance(1, 6) {
        Act::Zero
    } else {
        Act::Errno { errno, forever: r.chance(1, 2) }
    };
    faults.push(Fault { proc: k, class, nth, act });
}

/// A crash at an arbitrary point.
pub fn kill(r: &mut Rng, k: usize, faults: &mut Vec<Fault>) {
    let (class, nth) = match r.below(5) {
        0 | 1 => (Class::Any, 1 + r.skew(40) as u32),
        2 => (Class::OutOpen, 1),
        3 => (Class::OutWrite, 1 + r.skew(12) as u32),
        _ => (Class::Any, 1 + r.below(12) as u32),
    };
    let act = match r.below(3) {
        0 => Act::KillBefore,
        1 => Act::KillAfter,
        _ if class == Class::OutWrite => Act::KillTorn(1 + r.skew(200) as u32),
        _ => Act::KillAfter,
    };
    faults.push(Fault { proc: k, class, nth, act });
}

pub struct World {
    pub files: Vec<(String, FileSpec)>,
    pub p: ProcSpec,
}

#[derive(Clone, Copy)]
pub struct Shape {
    pub fifo: bool,
    pub stdout: bool,
    pub links: bool,
    pub bystanders: bool,
}

pub const PLAIN: Shape = Shape { fifo: false, stdout: false, links: false, bystanders: false };
pub const RICH: Shape = Shape { fifo: true, stdout: true, links: true, bystanders: true };

/// Something that may already lie at the output path.
pub fn old_output(r: &mut Rng) -> Vec<u8> {
    match r.below(7) {
        0 => vec![],
        1 => b":0402000012345678E6\n:00000001FF\n".to_vec(),
        2 => {
            // A longer object than any new one is likely to be.
            let mut s = String::new();
            for k in 0..r.range(50, 400) {
                let a = (k * 16) as u16;
                let sum = 16u8.wrapping_add((a >> 8) as u8).wrapping_add(a as u8);
                s.push_str(&format!(":10{:04X}00{}{:02X}\n", a, "00".repeat(16), sum.wrapping_neg()));
            }
            s.push_str(":00000001FF\n");
            s.into_bytes()
        }
        3 => b"something else entirely\n".repeat(r.range(1, 40) as usize),
        4 => (0..r.range(1, 300)).map(|k| (k * 37 % 256) as u8).collect(),
        5 => b":0".to_vec(),
        _ => b":00000001FF\n".to_vec(),
    }
}

/// A directory with a source and a command line that assembles it.
pub fn world(r: &mut Rng, src: Vec<u8>, sh: Shape) -> World {
    let mut files: Vec<(String, FileSpec)> = vec![];
    let cwd = r.pick(&["/w", "/w", "/w", "/w/proj", "/"]).to_string();
    if cwd == "/w/proj" {
        files.push((cwd.clone(), FileSpec::Dir));
    }
    let odd_inputs = [
        "-", "%s.asm", "{}.asm", "~u.asm", "$HOME.asm", "a\tb.asm", "x.asm ", " lead.asm", "C:\\x.asm", "in.asm:3", "a,b;c.asm", "CAPS.ASM", "a.hex.asm", ".hidden", "in.", "\"q\".asm", "*.asm", "src//game.asm", "src/./game.asm",
        "deep/er/and/deeper/still/source_of_a_program_that_nobody_will_ever_type_by_hand_because_its_name_is_far_too_long_for_that_but_which_some_build_system_may_well_have_generated_from_something_else_and_left_in_its_output_directory_0123456789abcdef.asm",
    ];
    let inputs = ["in.asm", "prog.c8", "./in.asm", "src/game.asm", "/w/abs/x.asm", "a b.asm", "é→.asm", "../up.asm", "in", "-dash.asm", "x.hex", "long_name_that_goes_on_and_on_and_on_for_a_while.assembler_source"];
    let mut input = if r.chance(1, 8) { r.pick(&odd_inputs).to_string() } else { r.pick(&inputs).to_string() };
    let novel = !dict::get().words.is_empty();
    if novel && r.chance(1, 10) {
        input = dict::beside(r, &input, false).unwrap_or(input);
    }
    let abs = absolute(&cwd, &input);
    if sh.fifo && r.chance(1, 10) {
        files.push((abs.clone(), FileSpec::Fifo(src.clone())));
    } else if sh.links && r.chance(1, 8) {
        files.push(("/w/real/source.txt".into(), FileSpec::File(src.clone())));
        files.push((abs.clone(), FileSpec::Symlink("/w/real/source.txt".into())));
    } else if r.chance(1, 10) {
        files.push((abs.clone(), FileSpec::ReadOnly(src.clone())));
    } else {
        files.push((abs.clone(), FileSpec::File(src.clone())));
    }
    let mut stdin = vec![];
    if sh.fifo && r.chance(1, 12) {
        input = "/dev/stdin".into();
        stdin = src.clone();
    }
    // Directories the outputs may go to.
    files.push(("/w/build".into(), FileSpec::Dir));
    let odd_outs = ["./-", "-.hex", "out.hex ", " out.hex", "OUT.HEX", "out", "out.", ".hex", "%s.hex", "{}", "~out.hex", "a.hex", "./a.hex", "/w/build//x.hex", "--", "-x.hex", "a,b.hex", "\"q\".hex", "out.hex.hex", "/w/build/../x.hex"];
    let outs = ["out.hex", "./out.hex", "/w/build/game.hex", "o", "out put.hex", "ö.hex", "/tmp/o.hex", "in.asm.hex", "out.asm"];
    let mut output: Option<String> = if r.chance(1, 6) { None } else { Some(if r.chance(1, 8) { r.pick(&odd_outs).to_string() } else { r.pick(&outs).to_string() }) };
    if novel && r.chance(1, 10) {
        output = dict::beside(r, output.as_deref().unwrap_or("out.hex"), false).or(output);
    }
    if absolute(&cwd, output.as_deref().unwrap_or("a.hex")) == abs {
        output = Some(if abs.ends_with("/out.hex") { "other.hex" } else { "out.hex" }.into());
    }
    if sh.stdout && r.chance(1, 6) {
        output = Some("-".into());
    }
    let name = output.clone().unwrap_or("a.hex".into());
    if name != "-" {
        let abs_out = absolute(&cwd, &name);
        if abs_out != abs {
            if sh.links && r.chance(1, 10) {
                files.push(("/w/real/object.txt".into(), FileSpec::File(old_output(r))));
                files.push((abs_out, FileSpec::Symlink("/w/real/object.txt".into())));
            } else if r.chance(1, 2) {
                files.push((abs_out, FileSpec::File(old_output(r))));
            }
        }
    }
    if sh.bystanders {
        let pool = ["a.hex", "out.hex", "out.hex.tmp", "out.tmp", ".c8s.lock", "in.hex", "in.asm.bak", "c8s.log", "notes.txt", "o~", "a.hex.tmp", "build/x.hex", "core", "labels.sym", "out.hex~", "out.hex.bak", "out.hex.new", "out.hex.lock", ".out.hex.swp", "out.bak", "a.hex~", "a.hex.bak", "a.out", "out.hex.part", "in.sym", "in.lst", "out.lst", "c8s.tmp", ".c8s", "c8s.cache", "in.asm~"];
        for b in pool {
            if r.chance(1, 7) {
                let p = absolute(&cwd, b);
                if !files.iter().any(|f| f.0 == p) && p != absolute(&cwd, &name) {
                    files.push((p, FileSpec::File(format!("bystander {}\n", b).into_bytes())));
                }
            }
        }
        for _ in 0..if novel { r.below(6) } else { 0 } {
            let beside = if r.chance(2, 3) { &name } else { &input };
            if let Some(b) = dict::beside(r, if beside == "-" { "in.asm" } else { beside }, true) {
                let p = absolute(&cwd, &b);
                // Not where a directory is needed, nor below a file.
                let clash = files.iter().any(|f| f.0 == p || f.0.starts_with(&format!("{}/", p)) || (p.starts_with(&format!("{}/", f.0)) && !matches!(f.1, FileSpec::Dir)));
                let out = absolute(&cwd, &name);
                if !clash && p != out && !out.starts_with(&format!("{}/", p)) && !p.starts_with(&format!("{}/", out)) {
                    files.push((p, FileSpec::File(format!("bystander {}\n", b).into_bytes())));
                }
            }
        }
        if r.chance(1, 6) {
            files.push(("/tmp/c8s.tmp".into(), FileSpec::File(b"tmp\n".to_vec())));
        }
    }
    let mut p = ProcSpec::assemble(&input, &name);
    p.argv = command(r, &input, output.as_deref());
    p.cwd = cwd;
    p.stdin = stdin;
    World { files, p }
}

pub fn size(r: &mut Rng, thorough: bool) -> gen::Size {
    match r.below(if thorough { 30 } else { 60 }) {
        0 => gen::Size::Huge,
        1..=8 => gen::Size::Mixed,
        9..=20 => gen::Size::Tiny,
        _ => gen::Size::Small,
    }
}
