//! The executable reference model: what a source text denotes.
//!
//! Written from the README (mnemonic table, literals, directives, labels) and
//! from the language the tool accepts at the pinned commit; it shares no code
//! with c8s.  It predicts the memory image, or that the source is rejected and
//! where, and deliberately says nothing about wording or record layout.

use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    /// address -> byte
    Image(Vec<(u16, u8)>),
    Reject(Reject),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Reject {
    pub kind: &'static str,
    /// line, column (both from 1) and length in code points of the offending construct.
    pub at: Option<(usize, usize, usize)>,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    Comment,
    Dot,
    Colon,
    Comma,
    Newline,
    Word(String),
    Text(String),
    Number(u16),
    Bad,
}

struct Tok {
    t: T,
    line: usize,
    col: usize,
    len: usize,
}

fn blank(c: char) -> bool {
    c != '\n' && c.is_whitespace()
}

/// Splits the text into tokens; the first malformed one ends the list.
fn tokens(src: &str) -> Vec<Tok> {
    let cs: Vec<char> = src.chars().collect();
    let mut out = Vec::new();
    let (mut p, mut line, mut col) = (0usize, 1usize, 1usize);
    while p < cs.len() {
        let c = cs[p];
        if blank(c) {
            p += 1;
            col += 1;
            continue;
        }
        let start = p;
        // `one`: a malformed token is located by its first character only.
        let mut one = false;
        let t = match c {
            ';' => {
                while p < cs.len() && cs[p] != '\n' {
                    p += 1;
                }
                T::Comment
            }
            '.' => {
                p += 1;
                T::Dot
            }
            ':' => {
                p += 1;
                T::Colon
            }
            ',' => {
                p += 1;
                T::Comma
            }
            '\n' => {
                p += 1;
                T::Newline
            }
            '"' => {
                let mut q = p + 1;
                let mut closed = false;
                while q < cs.len() {
                    match cs[q] {
                        '"' => {
                            closed = true;
                            break;
                        }
                        // A backslash shields the next character, which must exist on the same line.
                        '\\' => {
                            if q + 1 >= cs.len() || cs[q + 1] == '\n' {
                                break;
                            }
                            q += 2;
                        }
                        _ => q += 1,
                    }
                }
                if closed {
                    p = q + 1;
                    T::Text(cs[start + 1..q].iter().collect())
                } else {
                    one = true;
                    T::Bad
                }
            }
            '$' | '#' => {
                let mut v = 0u16;
                let mut q = p + 1;
                while q < cs.len() && q < p + 4 && cs[q].is_ascii_hexdigit() {
                    v = v * 16 + cs[q].to_digit(16).unwrap() as u16;
                    q += 1;
                }
                if q > p + 1 {
                    p = q;
                    T::Number(v)
                } else {
                    one = true;
                    T::Bad
                }
            }
            '%' => {
                let mut v = 0u32;
                let mut q = p + 1;
                while q < cs.len() && matches!(cs[q], '0' | '1' | '.') {
                    v = (v * 2 + (cs[q] == '1') as u32).min(0x10000);
                    q += 1;
                }
                if q == p + 1 {
                    one = true;
                    T::Bad
                } else {
                    p = q;
                    if v <= 0xFFF {
                        T::Number(v as u16)
                    } else {
                        T::Bad
                    }
                }
            }
            '0'..='9' => {
                let mut v = 0u32;
                while p < cs.len() && cs[p].is_ascii_digit() {
                    v = (v * 10 + cs[p].to_digit(10).unwrap()).min(1_000_000);
                    p += 1;
                }
                if v <= 4095 {
                    T::Number(v as u16)
                } else {
                    T::Bad
                }
            }
            '[' => {
                if p + 2 < cs.len() && matches!(cs[p + 1], 'i' | 'I') && cs[p + 2] == ']' {
                    p += 3;
                    T::Word(cs[start..p].iter().collect())
                } else {
                    one = true;
                    T::Bad
                }
            }
            c if c == '_' || c.is_ascii_alphabetic() => {
                while p < cs.len() && (cs[p] == '_' || cs[p].is_ascii_alphanumeric()) {
                    p += 1;
                }
                T::Word(cs[start..p].iter().collect())
            }
            _ => {
                one = true;
                T::Bad
            }
        };
        let bad = t == T::Bad;
        // The location covers the first line of the token, its newline included.
        let first_line = cs[start..p].iter().position(|&c| c == '\n').map(|k| k + 1).unwrap_or(p - start);
        out.push(Tok { t, line, col, len: if one { 1 } else { first_line } });
        if bad {
            break;
        }
        for &c in &cs[start..p] {
            if c == '\n' {
                line += 1;
                col = 1;
            } else {
                col += 1;
            }
        }
    }
    out
}

#[derive(Clone, Debug)]
enum Field {
    Num(u16),
    Reg(u16),
    Dt,
    St,
    K,
    I,
    AtI,
    B,
    F,
    Name(String),
}

enum Arg {
    Num(u16),
    Text(String),
}

type Loc = (usize, usize, usize);

enum Stmt {
    Directive(Loc, String, Vec<Arg>),
    Label(Loc, String),
    Op(Loc, String, Vec<Field>),
}

fn rej(kind: &'static str, t: Option<&Tok>) -> Reject {
    Reject { kind, at: t.map(|t| (t.line, t.col, t.len)) }
}

/// Whether an operand spelt like this refers to a label.
pub fn is_name(w: &str) -> bool {
    matches!(field(w), Field::Name(_))
}

fn field(w: &str) -> Field {
    match w {
        "dt" | "DT" => Field::Dt,
        "st" | "ST" => Field::St,
        "k" | "K" => Field::K,
        "i" | "I" => Field::I,
        "[i]" | "[I]" => Field::AtI,
        "b" | "B" => Field::B,
        "f" | "F" => Field::F,
        _ => {
            let cs: Vec<char> = w.chars().collect();
            if cs.len() == 2 && matches!(cs[0], 'v' | 'V') && cs[1].is_ascii_hexdigit() {
                Field::Reg(cs[1].to_digit(16).unwrap() as u16)
            } else {
                Field::Name(w.to_string())
            }
        }
    }
}

fn statements(toks: &[Tok]) -> Result<Vec<Stmt>, Reject> {
    let mut out = Vec::new();
    let mut p = 0;
    while p < toks.len() {
        let here = &toks[p];
        let loc = (here.line, here.col, here.len);
        match &here.t {
            T::Comment | T::Newline => p += 1,
            T::Dot => {
                p += 1;
                let (name, nloc) = match toks.get(p) {
                    Some(Tok { t: T::Word(w), line, col, len }) => (w.clone(), (*line, *col, *len)),
                    other => return Err(rej("syntax", other)),
                };
                p += 1;
                let mut args = Vec::new();
                loop {
                    match toks.get(p).map(|t| &t.t) {
                        Some(T::Newline) => break,
                        Some(T::Number(n)) => args.push(Arg::Num(*n)),
                        Some(T::Text(s)) => args.push(Arg::Text(s.clone())),
                        _ => return Err(rej("syntax", toks.get(p))),
                    }
                    p += 1;
                    match toks.get(p).map(|t| &t.t) {
                        Some(T::Comma) => p += 1,
                        _ => break,
                    }
                }
                out.push(Stmt::Directive(nloc, name, args));
            }
            T::Word(w) if toks.get(p + 1).map_or(false, |t| t.t == T::Colon) => {
                out.push(Stmt::Label(loc, w.clone()));
                p += 2;
            }
            T::Word(w) => {
                p += 1;
                let mut fields = Vec::new();
                loop {
                    match toks.get(p).map(|t| &t.t) {
                        Some(T::Newline) | Some(T::Comment) => break,
                        Some(T::Number(n)) => fields.push(Field::Num(*n)),
                        Some(T::Word(f)) => fields.push(field(f)),
                        _ => return Err(rej("syntax", toks.get(p))),
                    }
                    p += 1;
                    match toks.get(p).map(|t| &t.t) {
                        Some(T::Comma) => p += 1,
                        _ => break,
                    }
                }
                out.push(Stmt::Op(loc, w.clone(), fields));
            }
            _ => return Err(rej("syntax", Some(here))),
        }
    }
    Ok(out)
}

/// The README's mnemonic table: operand shape and the opcode word it fills in.
/// Shapes: x y = general registers, 0 = register V0, n = nibble, k = byte, a = address,
/// and D S K I @ B F = DT ST K I [I] B F.
#[derive(Clone, Copy)]
pub struct Shape {
    pub mnemonic: &'static str,
    pub shape: &'static str,
    pub word: u16,
}

const fn sh(mnemonic: &'static str, shape: &'static str, word: u16) -> Shape {
    Shape { mnemonic, shape, word }
}

pub const TABLE: &[Shape] = &[
    sh("nop", "", 0x0000),
    sh("cls", "", 0x00E0),
    sh("ret", "", 0x00EE),
    sh("trapret", "", 0x00F9),
    sh("trap", "", 0x00FA),
    sh("ld", "I@", 0x00F8),
    sh("jp", "a", 0x1000),
    sh("call", "a", 0x2000),
    sh("se", "xk", 0x3000),
    sh("sne", "xk", 0x4000),
    sh("se", "xy", 0x5000),
    sh("ld", "xk", 0x6000),
    sh("add", "xk", 0x7000),
    sh("ld", "xy", 0x8000),
    sh("or", "xy", 0x8001),
    sh("and", "xy", 0x8002),
    sh("xor", "xy", 0x8003),
    sh("add", "xy", 0x8004),
    sh("sub", "xy", 0x8005),
    sh("shr", "x", 0x8006),
    sh("subn", "xy", 0x8007),
    sh("shl", "x", 0x800E),
    sh("sne", "xy", 0x9000),
    sh("ld", "Ia", 0xA000),
    sh("jp", "0a", 0xB000),
    sh("rnd", "xk", 0xC000),
    sh("drw", "xyn", 0xD000),
    sh("skp", "x", 0xE09E),
    sh("sknp", "x", 0xE0A1),
    sh("ld", "xD", 0xF007),
    sh("ld", "xK", 0xF00A),
    sh("ld", "Dx", 0xF015),
    sh("ld", "Sx", 0xF018),
    sh("add", "Ix", 0xF01E),
    sh("ld", "Fx", 0xF029),
    sh("ld", "Bx", 0xF033),
    sh("ld", "@x", 0xF055),
    sh("ld", "x@", 0xF065),
];

fn encode(name: &str, fields: &[Field], labels: &HashMap<&str, u16>) -> Option<u16> {
    let name = name.to_ascii_lowercase();
    'row: for Shape { mnemonic, shape, word } in TABLE {
        if *mnemonic != name || shape.len() != fields.len() {
            continue;
        }
        let mut w = *word;
        for (s, f) in shape.chars().zip(fields) {
            // A value may be written in place or through a label; an unresolved label fits nothing.
            let value = |max: u16| -> Option<u16> {
                let v = match f {
                    Field::Num(n) => *n,
                    Field::Name(l) => *labels.get(l.as_str())?,
                    _ => return None,
                };
                if v <= max {
                    Some(v)
                } else {
                    None
                }
            };
            w |= match (s, f) {
                ('x', Field::Reg(r)) => r << 8,
                ('y', Field::Reg(r)) => r << 4,
                ('0', Field::Reg(0)) => 0,
                ('D', Field::Dt) | ('S', Field::St) | ('K', Field::K) | ('I', Field::I) => 0,
                ('@', Field::AtI) | ('B', Field::B) | ('F', Field::F) => 0,
                ('n', _) => match value(0xF) {
                    Some(v) => v,
                    None => continue 'row,
                },
                ('k', _) => match value(0xFF) {
                    Some(v) => v,
                    None => continue 'row,
                },
                ('a', _) => match value(0xFFF) {
                    Some(v) => v,
                    None => continue 'row,
                },
                _ => continue 'row,
            };
        }
        return Some(w);
    }
    None
}

enum Dir {
    Org(u16),
    Equ(u16),
    Db(Vec<u8>),
}

fn directive(name: &str, args: &[Arg]) -> Option<Dir> {
    match (name.to_ascii_lowercase().as_str(), args) {
        ("org", [Arg::Num(n)]) => Some(Dir::Org(*n)),
        ("equ", [Arg::Num(n)]) => Some(Dir::Equ(*n)),
        ("db", args) if !args.is_empty() => {
            let mut b = Vec::new();
            for a in args {
                match a {
                    Arg::Num(n) if *n <= 0xFF => b.push(*n as u8),
                    Arg::Num(_) => return None,
                    Arg::Text(t) => b.extend_from_slice(t.as_bytes()),
                }
            }
            Some(Dir::Db(b))
        }
        _ => None,
    }
}

pub fn assemble(source: &[u8]) -> Outcome {
    match try_assemble(source) {
        Ok(v) => Outcome::Image(v),
        Err(r) => Outcome::Reject(r),
    }
}

fn try_assemble(source: &[u8]) -> Result<Vec<(u16, u8)>, Reject> {
    let text = std::str::from_utf8(source).map_err(|_| Reject { kind: "utf8", at: None })?;
    let toks = tokens(text);
    let prog = statements(&toks)?;
    let sem = |loc: &Loc| Reject { kind: "semantic", at: Some(*loc) };

    // First pass: sizes and labels.  The address counter never passes $FFF.
    let mut labels: HashMap<&str, u16> = HashMap::new();
    let mut pc: u32 = 0;
    let mut k = 0;
    while k < prog.len() {
        match &prog[k] {
            Stmt::Op(loc, _, _) => {
                pc += 2;
                if pc > 0xFFF {
                    return Err(sem(loc));
                }
            }
            Stmt::Directive(loc, name, args) => match directive(name, args) {
                Some(Dir::Org(a)) => pc = a as u32,
                Some(Dir::Db(b)) => {
                    if b.len() > 0xFFF || pc + b.len() as u32 > 0xFFF {
                        return Err(sem(loc));
                    }
                    pc += b.len() as u32;
                }
                // A constant needs a label directly before it.
                Some(Dir::Equ(_)) | None => return Err(sem(loc)),
            },
            Stmt::Label(loc, name) => {
                let mut v = pc as u16;
                if let Some(Stmt::Directive(_, n, a)) = prog.get(k + 1) {
                    if let Some(Dir::Equ(c)) = directive(n, a) {
                        v = c;
                        k += 1;
                    }
                }
                if labels.insert(name, v).is_some() {
                    return Err(sem(loc));
                }
            }
        }
        k += 1;
    }

    // Second pass: bytes.
    let mut pc: u16 = 0;
    let mut mem: Vec<Option<u8>> = vec![None; 4096];
    let mut clash = false;
    let mut put = |pc: &mut u16, b: &[u8]| {
        for x in b {
            let cell = &mut mem[*pc as usize];
            clash |= cell.is_some();
            *cell = Some(*x);
            *pc += 1;
        }
    };
    for s in &prog {
        match s {
            Stmt::Op(loc, name, fields) => {
                let w = encode(name, fields, &labels).ok_or_else(|| sem(loc))?;
                put(&mut pc, &w.to_be_bytes());
            }
            Stmt::Directive(_, name, args) => match directive(name, args) {
                Some(Dir::Org(a)) => pc = a,
                Some(Dir::Db(b)) => put(&mut pc, &b),
                _ => {}
            },
            Stmt::Label(..) => {}
        }
    }
    if clash {
        return Err(Reject { kind: "overlap", at: None });
    }
    Ok(mem.iter().enumerate().filter_map(|(a, b)| b.map(|b| (a as u16, b))).collect())
}

/// Strict 8-bit Intel HEX: returns the image, or why the object is not a complete one.
pub fn decode_hex(obj: &[u8]) -> Result<Vec<(u16, u8)>, String> {
    let text = std::str::from_utf8(obj).map_err(|_| "not text".to_string())?;
    if !text.ends_with('\n') {
        return Err("last record is not terminated".into());
    }
    let mut mem: Vec<Option<u8>> = vec![None; 65536];
    let mut ended = false;
    for (n, line) in text[..text.len() - 1].split('\n').enumerate() {
        let line = line.strip_suffix('\r').unwrap_or(line);
        if ended {
            return Err(format!("line {}: text after the end-of-file record", n + 1));
        }
        let (kind, addr, data) = record(line).ok_or_else(|| format!("line {}: not a valid record: {:?}", n + 1, line))?;
        match kind {
            0 => {
                for (k, b) in data.iter().enumerate() {
                    let a = addr as usize + k;
                    if a > 0xFFFF {
                        return Err(format!("line {}: address wraps", n + 1));
                    }
                    if mem[a].is_some() {
                        return Err(format!("line {}: address ${:03X} written twice", n + 1, a));
                    }
                    mem[a] = Some(*b);
                }
            }
            1 if data.is_empty() => ended = true,
            k => return Err(format!("line {}: record type {} is not I8HEX", n + 1, k)),
        }
    }
    if !ended {
        return Err("no end-of-file record".into());
    }
    Ok(mem.iter().enumerate().filter_map(|(a, b)| b.map(|b| (a as u16, b))).collect())
}

/// One record: type, address, data, if well formed with a valid checksum.
pub fn record(line: &str) -> Option<(u8, u16, Vec<u8>)> {
    let h = line.strip_prefix(':')?;
    if h.len() % 2 != 0 || h.len() < 10 || !h.bytes().all(|c| c.is_ascii_hexdigit()) {
        return None;
    }
    let b: Vec<u8> = (0..h.len() / 2).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap()).collect();
    if b[0] as usize + 5 != b.len() || b.iter().fold(0u8, |a, x| a.wrapping_add(*x)) != 0 {
        return None;
    }
    Some((b[3], u16::from_be_bytes([b[1], b[2]]), b[4..b.len() - 1].to_vec()))
}
