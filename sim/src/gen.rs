//! Source texts: programs over the whole language, ways to spoil them, noise.

use crate::dict;
use crate::model::{self, Outcome, Shape};
use crate::rng::Rng;

/// Per-program style knobs, drawn once per program (swarm style).
struct Style {
    comments: u64,
    labels: u64,
    orgs: u64,
    data: u64,
    text: u64,
    unicode: bool,
    case: u64,
    blank: &'static [&'static str],
    bases: &'static [u8],
    multiline: bool,
    crlf: bool,
    indent: bool,
}

fn style(r: &mut Rng) -> Style {
    const BLANKS: &[&[&str]] = &[
        &[" "],
        &["\t"],
        &[" ", "  ", "\t", "   \t "],
        &[
            " ", "\u{a0}", "\u{3000}", "\u{2003}", "\u{2028}", "\u{85}", "\r", "\u{b}", "\u{c}", "\u{1680}", "\u{2000}", "\u{2001}", "\u{2002}", "\u{2004}", "\u{2005}", "\u{2006}", "\u{2007}", "\u{2008}", "\u{2009}",
            "\u{200a}", "\u{2029}", "\u{202f}", "\u{205f}",
        ],
    ];
    const BASES: &[&[u8]] = &[b"$", b"#", b"d", b"%", b"$#d%", b"$#d%", b"$d"];
    Style {
        comments: r.below(60),
        labels: r.below(40),
        orgs: if r.chance(1, 2) { 0 } else { r.below(25) },
        data: r.below(60),
        text: r.below(100),
        unicode: r.chance(1, 3),
        case: r.below(4),
        blank: BLANKS[r.usize(BLANKS.len()).min(r.usize(BLANKS.len()) + 1).min(BLANKS.len() - 1)],
        bases: BASES[r.usize(BASES.len())],
        multiline: r.chance(1, 6),
        crlf: r.chance(1, 8),
        indent: r.chance(1, 2),
    }
}

fn cased(r: &mut Rng, st: &Style, w: &str) -> String {
    match st.case {
        0 => w.to_lowercase(),
        1 => w.to_uppercase(),
        _ => w.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}

/// Registers and other reserved operands: all lower or all upper case.
fn reserved(r: &mut Rng, st: &Style, w: &str) -> String {
    match st.case {
        0 => w.to_lowercase(),
        1 => w.to_uppercase(),
        _ => {
            if r.chance(1, 2) {
                w.to_lowercase()
            } else {
                w.to_uppercase()
            }
        }
    }
}

fn number_in(r: &mut Rng, base: u8, v: u32) -> String {
    match base {
        b'$' | b'#' => {
            let d = match r.below(4) {
                0 => format!("{:03x}", v),
                1 => format!("{:03X}", v),
                2 => format!("{:x}", v),
                _ => format!("{:X}", v),
            };
            // The digits of one number need not agree in case.
            let d: String = if r.chance(1, 4) { d.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() } else { d };
            format!("{}{}", base as char, d)
        }
        b'%' => {
            let mut d = format!("{:b}", v);
            if r.chance(1, 3) {
                let w = *r.pick(&[4usize, 8, 12, 16, 33, 70]);
                while d.len() < w {
                    d.insert(0, '0');
                }
            }
            if r.chance(1, 3) {
                d = d.replace('0', ".");
            }
            format!("%{}", d)
        }
        _ => {
            if r.chance(1, 8) {
                format!("{:0w$}", v, w = r.range(2, 12) as usize)
            } else {
                format!("{}", v)
            }
        }
    }
}

fn number(r: &mut Rng, st: &Style, v: u32) -> String {
    let b = *r.pick(st.bases);
    number_in(r, b, v)
}

/// Values up to max, boundaries likely.
fn value(r: &mut Rng, max: u32) -> u32 {
    if !dict::get().numbers.is_empty() && r.chance(1, 10) {
        if let Some(v) = dict::number(r, max as u64) {
            return v as u32;
        }
    }
    match r.below(8) {
        0 => 0,
        1 => max,
        2 => max - 1.min(max),
        3 => (max + 1) / 2,
        4 => r.skew(max as u64) as u32,
        _ => r.range(0, max as u64) as u32,
    }
}

fn blank(r: &mut Rng, st: &Style) -> String {
    r.pick(st.blank).to_string()
}
fn gap(r: &mut Rng, st: &Style) -> String {
    if r.chance(1, 2) {
        String::new()
    } else {
        blank(r, st)
    }
}

fn text_of(r: &mut Rng, st: &Style, max: usize) -> String {
    const ASCII: &[&str] = &["a", "Z", "0", " ", ";", ":", ",", ".", "%", "$", "#", "'", "\\\"", "\\\\", "\\n", "[i]", "_", "\t", "ld v0, 1", "\\x"];
    const WIDE: &[&str] = &["é", "ß", "→", "漢", "😀", "\u{301}", "\u{feff}", "\u{200d}", "\u{7f}", "\u{1}"];
    let mut s = String::new();
    while s.len() < max {
        let known = dict::get();
        if known.words.len() + known.phrases.len() > 0 && r.chance(1, 16) {
            s.push_str(&dict::text(r).unwrap_or("").replace(|c: char| c == '"' || c == '\\', ""));
        } else if !known.chars.is_empty() && r.chance(1, 8) {
            s.push(*r.pick(&known.chars));
        } else if st.unicode && r.chance(1, 4) {
            s.push_str(r.pick(WIDE));
        } else if st.multiline && r.chance(1, 10) {
            s.push('\n');
        } else if r.chance(1, 8) {
            // Any printable character, plain or escaped.
            let c = r.range(32, 126) as u8 as char;
            if c == '"' || c == '\\' || r.chance(1, 3) {
                s.push('\\');
            }
            s.push(c);
        } else {
            s.push_str(r.pick(ASCII));
        }
        if r.chance(1, 9) {
            break;
        }
    }
    s
}

fn comment(r: &mut Rng, st: &Style) -> String {
    let n = r.skew(60) as usize;
    format!(";{}", text_of(r, st, n).replace('\n', " "))
}

fn name(r: &mut Rng, k: usize) -> String {
    if !dict::get().words.is_empty() && r.chance(1, 12) {
        if let Some(w) = dict::ident(r) {
            return match r.below(4) {
                0 => w.to_lowercase(),
                1 => w.to_uppercase(),
                2 => format!("{}{}", w, k),
                _ => w.to_string(),
            };
        }
    }
    match r.below(24) {
        // Names that differ from another one only in case, or only at the end.
        0 | 1 => return format!("Twin_{}", k / 2),
        2 | 3 => return format!("twin_{}", k / 2),
        4 => return format!("{}_{}", "long_name".repeat(r.range(1, 30) as usize), k),
        // Names that look like registers, mnemonics or directives.
        7 => {
            // One letter from being a register.
            let c = *r.pick(b"GHIJKLMNOPQRSTUVWXYZghijklmnopqrstuvwxyz_");
            return format!("{}{}", r.pick(&["v", "V"]), c as char);
        }
        5 => return r.pick(&["vg", "v10", "Dt", "sT", "v00", "vx", "ii", "kk", "V_", "_", "dts", "bf", "fb"]).to_string(),
        6 => return r.pick(&["add", "LD", "Cls", "jp", "org", "db", "equ", "drw", "Trap", "nop"]).to_string(),
        _ => {}
    }
    let stem = *r.pick(&["l", "L", "loop", "_x", "Draw_", "v", "i_", "dt_", "a0b", "__", "K9", "org", "equ_", "bb", "vff", "spr"]);
    format!("{}_{}", stem, k)
}

struct Out<'a> {
    r: &'a mut Rng,
    st: Style,
    s: String,
    pc: u32,
    used: Vec<(u32, u32)>,
    labels: Vec<String>,
    pending: Vec<String>,
    /// (name, value)
    consts: Vec<(String, u32)>,
    made: usize,
}

impl<'a> Out<'a> {
    fn eol(&mut self) {
        if self.r.chance(self.st.comments, 200) {
            let g = if self.r.chance(1, 5) { String::new() } else { blank(self.r, &self.st) };
            let c = comment(self.r, &self.st);
            self.s.push_str(&g);
            self.s.push_str(&c);
        } else if self.r.chance(1, 12) {
            let g = blank(self.r, &self.st);
            self.s.push_str(&g);
        }
        self.newline();
    }
    fn newline(&mut self) {
        if self.st.crlf {
            self.s.push('\r');
        }
        self.s.push('\n');
    }
    fn lead(&mut self) {
        if self.st.indent || self.r.chance(1, 8) {
            let g = blank(self.r, &self.st);
            self.s.push_str(&g);
        }
    }
    /// Whether [at, at+n) is free.
    fn free(&self, at: u32, n: u32) -> bool {
        self.used.iter().all(|(a, b)| at + n <= *a || *b <= at)
    }
    fn room(&self, n: u32) -> bool {
        self.pc + n <= 0xFFF && self.free(self.pc, n)
    }
    fn take(&mut self, n: u32) {
        if n > 0 {
            match self.used.iter_mut().find(|u| u.1 == self.pc) {
                Some(u) => u.1 += n,
                None => self.used.push((self.pc, self.pc + n)),
            }
        }
        self.pc += n;
    }
    fn org(&mut self, a: u32) {
        self.lead();
        let d = cased(self.r, &self.st, "org");
        let n = number(self.r, &self.st, a);
        let g = self.before(&n);
        self.s.push_str(&format!(".{}{}{}", d, g, n));
        self.eol_dir();
        self.pc = a;
    }
    /// After a literal list: a trailing comma, a comment, or the next statement on the same line.
    fn eol_dir(&mut self) {
        match self.r.below(16) {
            0 => {
                self.s.push(',');
                self.newline();
            }
            1 => {
                let g = blank(self.r, &self.st);
                self.s.push_str(&g);
            }
            _ => self.eol(),
        }
    }
    fn move_somewhere(&mut self, need: u32) -> bool {
        for _ in 0..12 {
            let novel = if dict::get().numbers.is_empty() || self.r.chance(2, 3) { None } else { dict::number(self.r, 0xFFE) };
            let a = match self.r.below(6) {
                _ if novel.is_some() => novel.unwrap_or(0) as u32,
                0 => 0x200,
                // Right behind or right before an existing block.
                1 | 2 if !self.used.is_empty() => {
                    let u = self.used[self.r.usize(self.used.len())];
                    if self.r.chance(1, 2) {
                        u.1
                    } else {
                        u.0.saturating_sub(need)
                    }
                }
                3 => 0xFFF - need,
                _ => self.r.range(0, 0xFFF) as u32,
            };
            if a + need <= 0xFFF && self.free(a, need) {
                self.org(a);
                return true;
            }
        }
        false
    }
    /// The same data in several places, mostly a round distance apart.
    fn twins(&mut self) {
        let n = 1 + self.r.skew(40) as u32;
        let v: Vec<u32> = (0..n).map(|_| value(self.r, 255)).collect();
        let step = *self.r.pick(&[16u32, 32, 64, 128, 256, 256, 512, 1024, 2048]);
        let mut a = self.r.range(0, 0xFFE) as u32;
        for _ in 0..self.r.range(2, 4) {
            if a + n > 0xFFF || !self.free(a, n) {
                break;
            }
            self.org(a);
            let items: Vec<String> = v.iter().map(|v| number(self.r, &self.st, *v)).collect();
            self.s.push_str(&format!(".db {}", items.join(",")));
            self.newline();
            self.take(n);
            a = a.wrapping_add(if self.r.chance(3, 4) { step } else { n }) & 0xFFF;
        }
    }
    fn label(&mut self) {
        if self.r.chance(1, 60) {
            // A label nothing can refer to, for its name means something else.
            let n = self.r.pick(&["i", "I", "dt", "DT", "st", "k", "K", "b", "B", "f", "F", "v0", "VF", "vA", "v9"]).to_string();
            if !self.labels.contains(&n) && !self.s.contains(&format!("{}:", n)) {
                self.s.push_str(&format!("{}:", n));
                self.newline();
            }
        }
        let n = if !self.pending.is_empty() && self.r.chance(2, 3) {
            let k = self.r.usize(self.pending.len());
            self.pending.remove(k)
        } else {
            self.fresh()
        };
        self.s.push_str(&n);
        let g = gap(self.r, &self.st);
        self.s.push_str(&g);
        self.s.push(':');
        if self.r.chance(1, 2) {
            self.eol();
        } else if self.r.chance(3, 4) {
            let g = blank(self.r, &self.st);
            self.s.push_str(&g);
        }
        self.labels.push(n);
    }
    /// What separates a word from an operand: nothing is needed before a sign.
    fn before(&mut self, operand: &str) -> String {
        if !operand.starts_with(|c: char| c == '_' || c.is_ascii_alphanumeric()) && self.r.chance(1, 6) {
            String::new()
        } else {
            blank(self.r, &self.st)
        }
    }
    /// A name not used so far.
    fn fresh(&mut self) -> String {
        for _ in 0..8 {
            self.made += 1;
            let mut n = name(self.r, self.made);
            if !self.labels.is_empty() && self.r.chance(1, 16) {
                // All but the name of another label.
                let k = self.r.usize(self.labels.len());
                let m = near(self.r, &self.labels[k]);
                if model::is_name(&m) {
                    n = m;
                }
            }
            if !self.labels.contains(&n) && !self.pending.contains(&n) && !self.consts.iter().any(|c| c.0 == n) {
                return n;
            }
        }
        self.made += 1;
        format!("u__{}", self.made)
    }
    fn constant(&mut self) {
        let n = self.fresh();
        let max = *self.r.pick(&[15u32, 255, 4095]);
        let v = value(self.r, max);
        let d = cased(self.r, &self.st, "equ");
        let num = number(self.r, &self.st, v);
        let g = self.before(&num);
        let g1 = gap(self.r, &self.st);
        if self.r.chance(1, 6) {
            // The constant may follow on a later line.
            self.s.push_str(&format!("{}:\n{}.{}{}{}", n, g1, d, g, num));
        } else {
            self.s.push_str(&format!("{}:{}.{}{}{}", n, g1, d, g, num));
        }
        self.eol_dir();
        self.consts.push((n, v));
    }
    fn operand(&mut self, s: char) -> String {
        let reg = |o: &mut Self| {
            let d = o.r.below(16);
            let v = if o.r.chance(1, 2) { "v" } else { "V" };
            let h = if o.r.chance(1, 2) { format!("{:x}", d) } else { format!("{:X}", d) };
            format!("{}{}", v, h)
        };
        match s {
            'x' | 'y' => reg(self),
            '0' => self.r.pick(&["v0", "V0"]).to_string(),
            'D' => reserved(self.r, &self.st, "dt"),
            'S' => reserved(self.r, &self.st, "st"),
            'K' => reserved(self.r, &self.st, "k"),
            'I' => reserved(self.r, &self.st, "i"),
            '@' => reserved(self.r, &self.st, "[i]"),
            'B' => reserved(self.r, &self.st, "b"),
            'F' => reserved(self.r, &self.st, "f"),
            _ => {
                let max = match s {
                    'n' => 15,
                    'k' => 255,
                    _ => 4095,
                };
                if self.r.chance(1, 3) {
                    let fit: Vec<String> = self.consts.iter().filter(|c| c.1 <= max).map(|c| c.0.clone()).collect();
                    if !fit.is_empty() {
                        return self.r.pick(&fit).clone();
                    }
                }
                if s == 'a' && self.r.chance(2, 3) {
                    if !self.labels.is_empty() && self.r.chance(1, 2) {
                        let k = self.r.usize(self.labels.len());
                        return self.labels[k].clone();
                    }
                    // A label defined later.
                    if !self.pending.is_empty() && self.r.chance(1, 2) {
                        let k = self.r.usize(self.pending.len());
                        return self.pending[k].clone();
                    }
                    let n = self.fresh();
                    self.pending.push(n.clone());
                    return n;
                }
                let v = value(self.r, max);
                number(self.r, &self.st, v)
            }
        }
    }
    fn instruction(&mut self) {
        if !self.room(2) && !self.move_somewhere(2) {
            return;
        }
        self.lead();
        let Shape { mnemonic, shape, .. } = model::TABLE[self.r.usize(model::TABLE.len())];
        let m = cased(self.r, &self.st, mnemonic);
        self.s.push_str(&m);
        for (k, c) in shape.chars().enumerate() {
            let f = self.operand(c);
            let pre = if k == 0 { self.before(&f) } else { format!("{},{}", gap(self.r, &self.st), gap(self.r, &self.st)) };
            self.s.push_str(&pre);
            self.s.push_str(&f);
        }
        if !shape.is_empty() && self.r.chance(1, 20) {
            if self.r.chance(1, 2) {
                self.s.push(',');
                self.eol();
            } else {
                let g = blank(self.r, &self.st);
                self.s.push_str(&g);
            }
        } else {
            self.eol();
        }
        self.take(2);
    }
    fn data(&mut self, budget: u32) {
        let mut n = 0u32;
        let mut items = vec![];
        let count = 1 + self.r.skew(24);
        for _ in 0..count {
            if self.r.chance(self.st.text, 300) {
                let max = self.r.skew(40) as usize;
                let t = if self.r.chance(1, 10) { String::new() } else { text_of(self.r, &self.st, max) };
                if n + t.len() as u32 > budget {
                    continue;
                }
                n += t.len() as u32;
                items.push(format!("\"{}\"", t));
            } else if n < budget {
                n += 1;
                let v = value(self.r, 255);
                items.push(number(self.r, &self.st, v));
            }
        }
        if items.is_empty() || (!self.room(n) && !self.move_somewhere(n)) {
            return;
        }
        self.lead();
        let d = cased(self.r, &self.st, "db");
        let g = self.before(&items[0]);
        let mut line = format!(".{}{}", d, g);
        for (k, it) in items.iter().enumerate() {
            if k > 0 {
                line.push_str(&gap(self.r, &self.st));
                line.push(',');
                line.push_str(&gap(self.r, &self.st));
            }
            line.push_str(it);
        }
        self.s.push_str(&line);
        self.eol_dir();
        self.take(n);
    }
    fn finish(mut self) -> String {
        if !self.s.ends_with('\n') {
            self.s.push('\n');
        }
        // Labels used but not yet defined.
        for n in std::mem::take(&mut self.pending) {
            self.s.push_str(&format!("{}:\n", n));
        }
        self.s
    }
}

fn program(r: &mut Rng, statements: u64) -> String {
    let st = style(r);
    let mut o = Out { r, st, s: String::new(), pc: 0, used: vec![], labels: vec![], pending: vec![], consts: vec![], made: 0 };
    if o.r.chance(1, 12) {
        o.newline();
    }
    for _ in 0..o.r.skew(5) {
        o.constant();
    }
    if o.r.chance(2, 3) {
        o.org(0x200);
    }
    for _ in 0..statements {
        if o.r.chance(o.st.comments, 200) {
            o.lead();
            let c = comment(o.r, &o.st);
            o.s.push_str(&c);
            o.newline();
        }
        if o.r.chance(1, 20) {
            o.newline();
        }
        if o.r.chance(o.st.orgs, 100) {
            o.move_somewhere(2);
        }
        if o.r.chance(1, 40) {
            o.twins();
        }
        if o.r.chance(1, 60) {
            // The very end of memory, which a label may still name.
            o.org(0xFFF);
            o.label();
        }
        if o.r.chance(1, 25) {
            o.constant();
        }
        while o.r.chance(o.st.labels, 100) {
            o.label();
            if o.r.chance(1, 25) {
                o.constant();
            }
        }
        if o.r.chance(o.st.data, 100) {
            let b = o.r.skew(200) as u32 + 1;
            o.data(b);
        } else {
            o.instruction();
        }
    }
    o.finish()
}

/// A program whose object is at least `n` bytes of memory (n <= 4095), for long outputs.
fn big_program(r: &mut Rng, n: u32) -> String {
    let st = style(r);
    let mut o = Out { r, st, s: String::new(), pc: 0, used: vec![], labels: vec![], pending: vec![], consts: vec![], made: 0 };
    let start = if n >= 0xFFF { 0 } else { o.r.range(0, (0xFFF - n) as u64) as u32 };
    if start > 0 || o.r.chance(1, 2) {
        o.org(start);
    }
    let end = start + n;
    while o.pc < end {
        let left = end - o.pc;
        if left == 1 || o.r.chance(3, 4) {
            let k = left.min(1 + o.r.skew(120) as u32);
            let items: Vec<String> = (0..k)
                .map(|_| {
                    let v = value(o.r, 255);
                    number(o.r, &o.st, v)
                })
                .collect();
            o.s.push_str(&format!(".db {}\n", items.join(",")));
            o.take(k);
        } else {
            o.instruction();
        }
    }
    o.finish()
}

/// Long but ordinary shapes: many ranges, many labels, long lists, long comments.
fn shaped(r: &mut Rng, huge: bool) -> String {
    let mut s = String::new();
    match r.below(7) {
        0 => {
            // Many separate ranges, in a scrambled order.
            let n = r.range(2, 300);
            let step = 0xFF0 / n.max(1);
            let mut order: Vec<u64> = (0..n).collect();
            for k in (1..order.len()).rev() {
                order.swap(k, r.usize(k + 1));
            }
            for k in order {
                let len = r.range(0, step.min(12));
                s.push_str(&format!(".org ${:x}\n", k * step));
                for _ in 0..len {
                    s.push_str(&format!(".db {}\n", r.below(256)));
                }
            }
        }
        1 => {
            // Many labels, used across the whole program.
            let n = r.range(10, 600);
            s.push_str(".org $200\n");
            for k in 0..n {
                s.push_str(&format!("L{}: jp L{}\n", k, r.below(n)));
            }
        }
        2 => {
            // Many constants.
            let n = r.range(10, 1200);
            for k in 0..n {
                s.push_str(&format!("c{}: .equ {}\n", k, (k * 7) % 256));
            }
            for _ in 0..r.range(1, 200) {
                s.push_str(&format!("ld v{:x}, c{}\n", r.below(16), r.below(n)));
            }
        }
        3 => {
            // A long literal list.
            let n = if huge { r.range(4000, 25000) } else { r.range(100, 4000) };
            let empty = n > 4095 || r.chance(1, 4);
            s.push_str(".db ");
            let items: Vec<String> = (0..n).map(|k| if empty { "\"\"".to_string() } else { format!("{}", k % 256) }).collect();
            s.push_str(&items.join(","));
            s.push('\n');
        }
        4 => {
            // Text far longer than the program: comments, blank lines.
            let n = if huge { r.range(60_000, 300_000) } else { r.range(2_000, 20_000) };
            s.push_str("start: ld v0, $42\n");
            while (s.len() as u64) < n {
                match r.below(3) {
                    0 => s.push_str(&format!("; {}\n", "lorem ipsum é ".repeat(r.range(1, 40) as usize))),
                    1 => s.push_str(&"\n".repeat(r.range(1, 50) as usize)),
                    _ => s.push_str(&format!(";{}\n", "-".repeat(r.range(0, 5000) as usize))),
                }
            }
            s.push_str("jp start\n");
        }
        5 => {
            // One long string.
            let n = if huge { r.range(1000, 4095) } else { r.range(10, 1500) };
            s.push_str(&format!(".db \"{}\"\n", "x".repeat(n as usize)));
        }
        _ => {
            let n = if huge { r.range(3000, 4095) } else { r.range(200, 1600) };
            s = big_program(r, n as u32);
        }
    }
    s
}

pub fn accepted(src: &[u8]) -> bool {
    matches!(model::assemble(src), Outcome::Image(_))
}

#[derive(Clone, Copy, PartialEq)]
pub enum Size {
    Tiny,
    Small,
    Mixed,
    Huge,
}

/// A program behind, or around, a megabyte or two of nothing.
pub fn vast(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[1usize << 20, 1 << 20, 1_000_000, 1 << 21]) + r.usize(5) * 40;
    let w = *r.pick(&["; xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx\n", "\n", " ", "; \u{e9}\u{e9}\n", "\t\t\n"]);
    let one = r.chance(1, 4);
    let fill = if one { format!("; {}\n", "-".repeat(n)) } else { w.repeat(n / w.len() + 1) };
    let head = valid(r, Size::Tiny);
    let mut v = if r.chance(1, 2) { head.clone() } else { vec![] };
    if !v.is_empty() && v.last() != Some(&b'\n') {
        v.push(b'\n');
    }
    v.extend_from_slice(fill.as_bytes());
    v.extend_from_slice(b"ld v1, $23\ncls\n");
    if accepted(&v) {
        return v;
    }
    let mut v = fill.into_bytes();
    v.extend_from_slice(&head);
    v
}

/// A program the language accepts.
pub fn valid(r: &mut Rng, size: Size) -> Vec<u8> {
    for _ in 0..20 {
        let t = match size {
            Size::Tiny => {
                let n = r.range(1, 4);
                program(r, n)
            }
            Size::Small => {
                let n = 1 + r.skew(24);
                program(r, n)
            }
            Size::Mixed => {
                if r.chance(1, 8) {
                    shaped(r, false)
                } else {
                    let n = 1 + r.skew(120);
                    program(r, n)
                }
            }
            Size::Huge => shaped(r, true),
        };
        if accepted(t.as_bytes()) {
            let d = dict::get();
            if d.words.len() + d.phrases.len() > 0 && r.chance(1, 8) {
                // A comment of its own line, mostly the first or the last.
                let w = dict::text(r).unwrap_or("").replace('\n', " ");
                let c = match r.below(4) {
                    _ if w.trim_start().starts_with(';') => w,
                    0 => format!(";{}", w),
                    1 => format!("; {} 1", w),
                    _ => format!("; {}", w),
                };
                let mut l: Vec<&str> = t.split('\n').collect();
                let k = if r.chance(1, 2) { 0 } else { r.usize(l.len() + 1) };
                l.insert(k, &c);
                let t = l.join("\n");
                if accepted(t.as_bytes()) {
                    return t.into_bytes();
                }
            }
            let often = if dict::get().numbers.is_empty() { 40 } else { 12 };
            if size != Size::Tiny && r.chance(1, often) {
                return stretch(r, t.as_bytes());
            }
            return t.into_bytes();
        }
    }
    b"start: ld v0, $12\n.db 1, 2, 3\njp start\n".to_vec()
}

/// A size at, just below or just above one that programs like to choose as a limit.
fn edge(r: &mut Rng) -> usize {
    if !dict::get().numbers.is_empty() && r.chance(2, 5) {
        if let Some(n) = dict::number(r, 200_000) {
            return n as usize;
        }
    }
    const EDGES: &[usize] = &[8, 16, 32, 64, 80, 100, 127, 128, 200, 255, 256, 500, 512, 1000, 1024, 2000, 2048, 4000, 4096, 8192, 10_000, 16_384, 32_768, 65_536];
    let k = r.usize(EDGES.len()).min(r.usize(EDGES.len()));
    EDGES[k] + r.usize(6) - 2
}

/// The same program with one of its dimensions blown up: a name, a number, a comment,
/// the blanks between two words, the number of labels, sections, lines, list items ...
pub fn stretch(r: &mut Rng, src: &[u8]) -> Vec<u8> {
    let Ok(old) = String::from_utf8(src.to_vec()) else { return src.to_vec() };
    for _ in 0..6 {
        let n = edge(r);
        let mut lines: Vec<String> = old.split('\n').map(|l| l.to_string()).collect();
        let at = r.usize(lines.len());
        let mut t = old.clone();
        if !t.ends_with('\n') {
            t.push('\n');
        }
        let bytes = old.as_bytes();
        let word = |c: u8| c == b'_' || c.is_ascii_alphanumeric();
        let s = match r.below(18) {
            16 | 17 => {
                // A section of exactly so many bytes.
                let Outcome::Image(img) = model::assemble(src) else { continue };
                let n = n.min(4095);
                let mut used = vec![false; 0x1000];
                for (a, _) in &img {
                    used[*a as usize & 0xFFF] = true;
                }
                let at: Vec<usize> = (0..0xFFF).filter(|a| a + n <= 0xFFF && !used[*a..a + n].iter().any(|u| *u)).collect();
                if at.is_empty() {
                    // No room: the section alone.
                    t = String::new();
                }
                let a = if at.is_empty() { r.usize(0x1000 - n) } else { at[r.usize(at.len())] };
                t.push_str(&format!(".org {}\n", a));
                let mut left = n;
                while left > 0 {
                    let m = match r.below(4) {
                        0 => 16 - (n - left) % 16,
                        1 => left,
                        _ => 1 + r.skew(40) as usize,
                    }
                    .min(left);
                    if m == 2 && r.chance(1, 2) {
                        t.push_str("add v3, 44\n");
                    } else if r.chance(1, 2) {
                        t.push_str(&format!(".db \"{}\"\n", "s".repeat(m)));
                    } else {
                        let items: Vec<String> = (0..m).map(|k| ((k * 7 + m) % 256).to_string()).collect();
                        t.push_str(&format!(".db {}\n", items.join(",")));
                    }
                    left -= m;
                }
                t
            }
            14 | 15 => {
                // A source of exactly this many bytes, or of a multiple of a common block size.
                let n = match r.below(3) {
                    0 => (t.len() / n + 1) * n,
                    1 => (1 + r.skew(20) as usize) * *r.pick(&[512usize, 1000, 1024, 4096]) + r.usize(3) - 1,
                    _ => n,
                };
                if t.len() + 2 > n || n > 400_000 {
                    continue;
                }
                if r.chance(1, 2) {
                    t.truncate(t.trim_end_matches('\n').len());
                }
                let c = r.pick(&["-", " ", "x"]).repeat(n - t.len() - 2);
                match r.below(4) {
                    0 | 3 => format!(";{}\n{}", c, t),
                    1 => format!("{}{};{}", t, r.pick(&["\n", " "]), c),
                    _ => format!("{} ;{}", t, c),
                }
            }
            0 | 1 => {
                // A long name, and another one that differs only at its end.
                let names = defined(&old);
                let base = if names.is_empty() { "n_".to_string() } else { r.pick(&names).clone() };
                let long = format!("{}{}", base, r.pick(&["_", "q", "0"]).repeat(n));
                let mut out = String::new();
                let mut k = 0;
                while k < bytes.len() {
                    if word(bytes[k]) {
                        let mut e = k;
                        while e < bytes.len() && word(bytes[e]) {
                            e += 1;
                        }
                        out.push_str(if old[k..e] == base { &long } else { &old[k..e] });
                        k = e;
                    } else {
                        let c = old[k..].chars().next().unwrap();
                        out.push(c);
                        k += c.len_utf8();
                    }
                }
                if r.chance(1, 2) {
                    if !out.ends_with('\n') {
                        out.push('\n');
                    }
                    out.push_str(&format!("{}a: .equ {}\n{}b: .equ {}\nld v1, {}{}\n", long, r.below(256), long, r.below(256), long, r.pick(&["a", "b"])));
                }
                out
            }
            2 | 3 => {
                // A number with many leading zeros.
                let starts: Vec<usize> = (1..bytes.len()).filter(|&k| (bytes[k].is_ascii_digit() && matches!(bytes[k - 1], b' ' | b',' | b'\t')) || (bytes[k - 1] == b'%' && matches!(bytes[k], b'0' | b'1' | b'.'))).collect();
                if starts.is_empty() {
                    continue;
                }
                let k = *r.pick(&starts);
                let z = if bytes[k - 1] == b'%' && r.chance(1, 2) { "." } else { "0" };
                format!("{}{}{}", &old[..k], z.repeat(n), &old[k..])
            }
            4 => {
                let c = match r.below(4) {
                    0 => "-".repeat(n),
                    1 => "ld v0, 1 ".repeat(n / 9 + 1),
                    2 => "é".repeat(n),
                    _ => "nop ".repeat(n / 4 + 1),
                };
                lines[at].push_str(&format!(" ;{}", c));
                lines.join("\n")
            }
            5 => {
                // Blanks in front of a line, or between two words.
                let b = r.pick(&[" ", "\t", "\u{3000}"]).repeat(n);
                let gaps: Vec<usize> = (0..bytes.len()).filter(|&k| bytes[k] == b' ').collect();
                if r.chance(1, 2) || gaps.is_empty() {
                    lines[at].insert_str(0, &b);
                    lines.join("\n")
                } else {
                    let k = *r.pick(&gaps);
                    format!("{}{}{}", &old[..k], b, &old[k..])
                }
            }
            6 => {
                lines.insert(at, r.pick(&["\n", ";\n", "\t\n"]).repeat(n));
                lines.join("\n")
            }
            7 | 8 => {
                // Many labels in one place, or many constants, and uses of some.
                let n = n.min(4100);
                let mut l = String::new();
                let konst = r.chance(1, 2);
                let sep = if konst || r.chance(1, 2) { "\n" } else { " " };
                for k in 0..n {
                    if konst {
                        l.push_str(&format!("zz{}: .equ {}{}", k, k % 256, sep));
                    } else {
                        l.push_str(&format!("zz{}:{}", k, sep));
                    }
                }
                for _ in 0..r.range(1, 4) {
                    let k = if r.chance(1, 2) { n - 1 } else { r.usize(n) };
                    l.push_str(&if konst { format!("add v3, zz{}\n", k) } else { format!("ld i, zz{}\n", k) });
                }
                lines.insert(at, l);
                lines.join("\n")
            }
            9 | 10 => {
                // Many sections of one byte each, wherever there is room.
                let n = if r.chance(1, 4) { n.min(3000) } else { n.min(300) };
                let Outcome::Image(img) = model::assemble(src) else { continue };
                let mut free = vec![true; 0xFFF];
                for (a, _) in &img {
                    if (*a as usize) < free.len() {
                        free[*a as usize] = false;
                    }
                }
                let room: Vec<usize> = (0..0xFFF).filter(|a| free[*a]).collect();
                if room.is_empty() {
                    continue;
                }
                let step = (room.len() / n).max(1);
                let mut order: Vec<usize> = (0..n).map(|k| k * step).filter(|k| *k < room.len()).map(|k| room[k]).collect();
                match r.below(3) {
                    0 => order.reverse(),
                    1 => {
                        for k in (1..order.len()).rev() {
                            order.swap(k, r.usize(k + 1));
                        }
                    }
                    _ => {}
                }
                for a in order {
                    t.push_str(&format!(".org {}\n.db {}\n", a, a % 251));
                }
                t
            }
            11 => {
                // A long list; mostly of nothing when it is very long.
                let some = r.chance(1, 2);
                let items: Vec<String> = (0..n).map(|k| if !some || k > 300 { "\"\"".to_string() } else { (k % 256).to_string() }).collect();
                t.push_str(&format!(".db {}, 77\n", items.join(r.pick(&[",", ", "]))));
                t
            }
            12 => {
                t.push_str(&format!(".db \"{}\"\n", r.pick(&["x", "é", "\\\"", ";"]).repeat(n.min(4000))));
                t
            }
            _ => {
                let n = n.min(2046);
                t.push_str(&r.pick(&["cls\n", ".db 1\n", "add v1, 2\n"]).repeat(n));
                t
            }
        };
        if accepted(s.as_bytes()) {
            return s.into_bytes();
        }
    }
    src.to_vec()
}

/// The labels a text defines.
fn defined(text: &str) -> Vec<String> {
    text.split('\n')
        .filter_map(|l| {
            let (a, _) = l.split_once(':')?;
            let a = a.trim();
            if !a.is_empty() && a.chars().all(|c| c == '_' || c.is_ascii_alphanumeric()) && !a.starts_with(|c: char| c.is_ascii_digit()) {
                Some(a.to_string())
            } else {
                None
            }
        })
        .collect()
}

/// A name close to, but mostly not the same as, the given one.
fn near(r: &mut Rng, n: &str) -> String {
    match r.below(9) {
        7 if n.len() > 1 && !n[1..].starts_with(|c: char| c.is_ascii_digit()) => n[1..].to_string(),
        8 => {
            let k = r.usize(n.len());
            format!("{}{}", &n[..=k], &n[k..])
        }
        0 => n.to_uppercase(),
        1 => n.to_lowercase(),
        2 => n.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        3 => format!("{}_", n),
        4 => format!("_{}", n),
        5 if n.len() > 1 => n[..n.len() - 1].to_string(),
        _ => format!("{}0", n),
    }
}

/// Any mnemonic with any number of operands of any kind.
fn statement(r: &mut Rng, names: &[String]) -> String {
    let st = style(r);
    let m = match r.below(12) {
        0 if !dict::get().words.is_empty() && r.chance(1, 2) => dict::word(r).unwrap_or("nop").to_string(),
        0 => r.pick(&["move", "ldd", "l", "jmp", "trapre", "nopp", "_ld", "org", "db"]).to_string(),
        _ => {
            let k = r.usize(model::TABLE.len());
            cased(r, &st, model::TABLE[k].mnemonic)
        }
    };
    let mut f = vec![];
    for _ in 0..*r.pick(&[0, 1, 1, 2, 2, 2, 2, 3, 3, 4]) {
        f.push(match r.below(14) {
            0..=4 => format!("v{:x}", r.below(16)),
            5 => "v0".to_string(),
            6 => {
                let max = *r.pick(&[15u32, 16, 255, 256, 4095]);
                let v = value(r, max);
                number(r, &st, v)
            }
            7 => reserved(r, &st, "dt"),
            8 => reserved(r, &st, "st"),
            9 => reserved(r, &st, "i"),
            10 => reserved(r, &st, "[i]"),
            11 => r.pick(&["k", "K", "b", "B", "f", "F"]).to_string(),
            12 if !names.is_empty() => r.pick(names).clone(),
            _ => r.pick(&["1", "15", "16", "$10", "255", "256", "$100", "Dt", "sT", "vg"]).to_string(),
        });
    }
    format!("{} {}", m, f.join(", "))
}

/// An error far down or far to the right.
pub fn far(r: &mut Rng) -> Vec<u8> {
    let edge = *r.pick(&[127u64, 255, 256, 512, 1000, 4095, 10_000, 32_767, 65_535, 65_536, 70_000]);
    let edge = if r.chance(2, 3) { edge.min(1000) } else { edge };
    let n = (edge + r.below(5)).saturating_sub(2) as usize;
    let n = if r.chance(1, 2) { dict::number(r, 70_000).map_or(n, |n| n as usize) } else { n };
    let bad = String::from_utf8_lossy(&invalid(r, Size::Tiny)).into_owned();
    let bad = match r.below(6) {
        0 => bad,
        4 => r.pick(&["@\n", "nop\n?\n", " $\n", "x y\n", "ld v1, [\n", "%2\n", "1\n", "\"abc"]).to_string(),
        5 => "a:\na: nop\n".to_string(),
        1 => "bogus v1, v2\n".to_string(),
        2 => "ld v1 v2\njp nowhere\n".to_string(),
        _ => "jp nowhere\n".to_string(),
    };
    let pad = match r.below(6) {
        0 => "\n".repeat(n),
        1 => "; é\n".repeat(n),
        2 => " ".repeat(n),
        3 => "\t".repeat(n),
        4 => (0..n / 8).map(|k| format!("l{:04}: ", k)).collect(),
        _ => format!(".db \"{}\", 1 ", "ü".repeat(n.min(1500))),
    };
    format!("{}{}", pad, bad).into_bytes()
}

/// A small change to a program: one character, usually within a number or a string.
pub fn tweak(r: &mut Rng, src: &[u8]) -> Vec<u8> {
    let mut v = src.to_vec();
    if v.is_empty() {
        return b"nop".to_vec();
    }
    let digits: Vec<usize> = (0..v.len()).filter(|k| v[*k].is_ascii_digit()).collect();
    let words: Vec<usize> = (0..v.len()).filter(|k| v[*k].is_ascii_alphanumeric()).collect();
    match r.below(8) {
        0 if !words.is_empty() => {
            let k = *r.pick(&words);
            v[k] = *r.pick(b"abcdefv0123456789_");
        }
        1 => v.extend_from_slice(b"\n"),
        2 => {
            v.pop();
        }
        3 if !words.is_empty() => {
            let k = *r.pick(&words);
            v[k] ^= 0x20;
        }
        _ if !digits.is_empty() => {
            let k = *r.pick(&digits);
            v[k] = b'0' + r.below(10) as u8;
        }
        _ => v.push(b' '),
    }
    v
}

/// Spoils a program in one of many ways; the result may still be acceptable.
pub fn spoil(r: &mut Rng, src: &[u8]) -> Vec<u8> {
    let mut text = String::from_utf8_lossy(src).into_owned();
    let lines = text.split('\n').count();
    let insert = |r: &mut Rng, text: &str, line: &str| -> String {
        let mut v: Vec<&str> = text.split('\n').collect();
        let k = r.usize(v.len());
        v.insert(k, line);
        v.join("\n")
    };
    if !dict::get().words.is_empty() && r.chance(1, 6) {
        let w = dict::word(r).unwrap_or("nop");
        let w = if r.chance(1, 4) { w.to_uppercase() } else { w.to_string() };
        let l = match r.below(10) {
            0 => format!(".{} 1", w),
            1 => format!(".{} \"a\", 2", w),
            2 => format!("{} v1, {}", w, r.below(256)),
            3 => w,
            4 => format!("ld v1, {}", w),
            5 => format!("jp {}", w),
            6 => format!("{}: nop\njp {}", w, w),
            7 => format!("{} {}", w, r.below(4096)),
            8 => format!("ld {}, v1", w),
            _ => format!("{}: .equ 3\nld v2, {}", w, w),
        };
        return insert(r, &text, &l).into_bytes();
    }
    if !dict::get().chars.is_empty() && r.chance(1, 6) {
        let c = dict::character(r).unwrap_or('@');
        let spots: Vec<usize> = (0..=text.len()).filter(|k| text.is_char_boundary(*k)).collect();
        let k = *r.pick(&spots);
        text.insert(k, c);
        return text.into_bytes();
    }
    match r.below(36) {
        34 => {
            // The same name twice among many.
            let n = edge(r).min(5000);
            let k = r.usize(n);
            let mut l: String = (0..n).map(|k| format!("zy{}: ", k)).collect();
            l.push_str(&match r.below(3) {
                0 => format!("\nzy{}: .equ 3", k),
                1 => format!("\nnop\nzy{}: nop", k),
                _ => format!("zy{}:", k),
            });
            text = insert(r, &text, &l);
        }
        22 | 23 => {
            // A reference that almost matches an existing label.
            let names = defined(&text);
            let n = if names.is_empty() { "Start_".to_string() } else { r.pick(&names).clone() };
            let m = near(r, &n);
            let op = *r.pick(&["jp", "call", "ld i,", "jp v0,", "ld v1,", "JP", "drw v1, v2,", "se v3,"]);
            text = insert(r, &text, &format!("{} {}", op, m));
        }
        24 => {
            // An existing label once more, as an address or a constant.
            let names = defined(&text);
            let n = if names.is_empty() { "Start_".to_string() } else { r.pick(&names).clone() };
            let t = match r.below(4) {
                0 => format!("{}: .equ {}", n, r.below(4096)),
                1 => format!("{} :", n),
                2 => format!("{}: {}: nop", n, n),
                _ => format!("{}:", n),
            };
            text = insert(r, &text, &t);
        }
        25..=27 => {
            // Any mnemonic with any operands.
            let l = statement(r, &defined(&text));
            text = insert(r, &text, &l);
        }
        28 => {
            // Text where none belongs, of any length and width.
            let mut st = style(r);
            st.unicode = true;
            let n = r.skew(120) as usize;
            let t = text_of(r, &st, n);
            let l = match r.below(6) {
                0 => format!("\"{}\"", t),
                1 => format!("ld v0, \"{}\"", t),
                2 => format!("\"{}\": nop", t),
                3 => format!(".org \"{}\"", t),
                4 => format!("jp \"{}\", 1", t),
                _ => format!("lx: .equ \"{}\"", t),
            };
            text = insert(r, &text, &l);
        }
        29 => {
            // Around the end of the address space.
            let room = r.skew(20) as u32;
            let take = (room + r.below(5) as u32).saturating_sub(2);
            let mut l = format!(".org ${:X}", 0xFFF - room);
            if r.chance(1, 2) {
                for _ in 0..(take + 1) / 2 {
                    l.push_str("\ncls");
                }
            } else if take > 0 {
                l.push_str(&format!("\n.db {}", vec!["7"; take as usize].join(",")));
            }
            if r.chance(1, 2) {
                l.push_str("\ntail_: jp tail_");
            }
            if !text.ends_with('\n') {
                text.push('\n');
            }
            text.push_str(&l);
            text.push('\n');
        }
        30 | 31 => {
            // A further section that overlaps an existing one by little, or just touches it.
            if let Outcome::Image(img) = model::assemble(text.as_bytes()) {
                if !img.is_empty() {
                    let edges: Vec<u32> = (0..img.len())
                        .filter(|&k| k == 0 || img[k - 1].0 + 1 != img[k].0 || k + 1 == img.len() || img[k + 1].0 != img[k].0 + 1)
                        .map(|k| img[k].0 as u32)
                        .collect();
                    let e = *r.pick(&edges);
                    let n = 1 + r.skew(6) as u32;
                    let a = (e + r.below(3) as u32).saturating_sub(r.below(n as u64 + 2) as u32);
                    if !text.ends_with('\n') {
                        text.push('\n');
                    }
                    // Other sections may lie between the two in the source.
                    if r.chance(1, 2) {
                        let mut at = r.below(64);
                        let most = if r.chance(1, 8) { 900 } else { 60 };
                        for _ in 0..r.skew(most) {
                            if !img.iter().any(|x| x.0 as u64 == at) && (at + 1 < a as u64 || at > (a + n) as u64) {
                                text.push_str(&format!(".org {}\n.db 4\n", at));
                            }
                            at += if most > 60 { r.range(2, 5) } else { r.range(2, 64) };
                            if at >= 0xFFE {
                                break;
                            }
                        }
                    }
                    if r.chance(1, 3) {
                        // The same bytes once more, in the same place.
                        let k = r.usize(img.len());
                        let (mut lo, mut hi) = (k, k + 1);
                        while lo > 0 && img[lo - 1].0 + 1 == img[lo].0 {
                            lo -= 1;
                        }
                        while hi < img.len() && img[hi - 1].0 + 1 == img[hi].0 {
                            hi += 1;
                        }
                        if r.chance(1, 3) {
                            lo = r.range(lo as u64, k as u64) as usize;
                        }
                        if r.chance(1, 3) {
                            hi = r.range(k as u64 + 1, hi as u64) as usize;
                        }
                        let same: Vec<String> = img[lo..hi].iter().map(|b| b.1.to_string()).collect();
                        text.push_str(&format!(".org {}\n.db {}\n", img[lo].0, same.join(",")));
                    } else {
                        text.push_str(&format!(".org {}\n.db {}\n", a, vec!["9"; n as usize].join(",")));
                    }
                }
            }
        }
        32 => {
            // A constant or an address in a place too narrow for it.
            let (op, v) = *r.pick(&[("ld v1,", 256), ("add v2,", 4095), ("se v3,", 257), ("sne v3,", 256), ("rnd v3,", 512), ("drw v1, v2,", 16), ("drw v1, v2,", 255), ("drw v1, v2,", 256), ("drw v1, v2,", 4080), ("ld v1,", 255), ("drw v1, v2,", 15)]);
            text = insert(r, &text, &format!("wide_: .equ {}\n{} wide_", v, op));
        }
        33 => {
            let (op, v) = *r.pick(&[("ld v1,", 256u32), ("add v2,", 256), ("se v3,", 256), ("sne v3,", 256), ("rnd v3,", 256), ("drw v1, v2,", 16), ("drw v1, v2,", 256), (".db", 256), (".org", 4096), ("jp", 4096), ("call", 4096), ("ld i,", 4096), ("jp v0,", 4096), ("w_: .equ", 4096)]);
            let base = *r.pick(b"d%$");
            let n = number_in(r, base, v);
            text = insert(r, &text, &format!("{} {}", op, n));
        }
        0 => text = insert(r, &text, "jp nowhere_at_all"),
        1 => text = insert(r, &text, "dup_a: nop\ndup_a: nop"),
        2 => {
            let n = r.range(256, 5000);
            text = insert(r, &text, &format!(".db {}", n))
        }
        3 => {
            let n = *r.pick(&["4096", "65536", "4294967296", "18446744073709551616", "99999999999999999999999"]);
            text = insert(r, &text, &format!("jp {}", n))
        }
        4 => {
            let z = r.range(12, 140) as usize;
            let bits: String = (0..z).map(|_| if r.chance(1, 4) { *r.pick(&['1', '1', '.']) } else { '0' }).collect();
            text = insert(r, &text, &format!(".db %1{}", bits))
        }
        5 => text = insert(r, &text, ".org $FFE\nnop\nnop"),
        6 => text = insert(r, &text, ".org $300\n.db 1, 2, 3\n.org $302\n.db 9"),
        35 => {
            // No directive, nor a mnemonic, of any length.
            let n = 1 + r.skew(70) as usize;
            let w: String = (0..n).map(|_| *r.pick(b"abcdeorgdbequ_XYZ") as char).collect();
            let l = match r.below(4) {
                0 => format!(".{}", w),
                1 => format!(".{} 1", w),
                2 => format!("{}: .{} \"x\", 2", w, w),
                _ => format!("{} v1, v2", w),
            };
            text = insert(r, &text, &l);
        }
        7 => {
            let t = *r.pick(&["\u{200b}", "ld\u{180e}v1, 2", "@", "[j]", "ld v0, ", "ld v0 v1", ".db", ".org", ".equ 5", "x: .equ", ": foo", ",", "$", "%", "%2", "\"", ".db \"open", ".db \"a\\", "ld vg, 1", ".bogus 1", "frob v1", "(", "!", "~", "é", "\u{feff}", "$xyz", "..", "nop nop", "nop, nop", "jp v1, 5", "drw v0, v1, 16", "ld v0, 256", "ld [i], dt", "add dt, v0", ".org 1, 2", ".org \"x\"", ".equ \"x\"", "x y: nop", "cls 1", "ret v0", ".db v0", ".db label", "ld i, 4096"]);
            text = insert(r, &text, t)
        }
        8 => {
            // Cut off in the middle.
            let b = text.into_bytes();
            let k = r.usize(b.len() + 1);
            return b[..k].to_vec();
        }
        9 => {
            // No final newline.
            while text.ends_with('\n') {
                text.pop();
            }
            if r.chance(1, 2) {
                text.push_str("\n.db 5");
            }
        }
        10 => {
            // A damaged byte.
            let mut b = text.into_bytes();
            if !b.is_empty() {
                let k = r.usize(b.len());
                b[k] = r.below(256) as u8;
            }
            return b;
        }
        11 => {
            let mut b = text.into_bytes();
            let k = r.usize(b.len() + 1);
            let bad: &[u8] = *r.pick(&[&b"\xff"[..], &b"\xc3"[..], &b"\xe2\x82"[..], &b"\xed\xa0\x80"[..], &b"\xf4\x90\x80\x80"[..], &b"\xc0\x80"[..]]);
            b.splice(k..k, bad.iter().copied());
            return b;
        }
        12 => {
            let n = r.range(4, 40);
            text = insert(r, &text, &format!("ld {}", vec!["v0"; n as usize].join(",")))
        }
        13 => {
            let n = r.range(2000, 4200);
            text = insert(r, &text, &format!(".db \"{}\"", "y".repeat(n as usize)))
        }
        14 => {
            // Drop a line.
            let mut v: Vec<&str> = text.split('\n').collect();
            let k = r.usize(lines);
            v.remove(k);
            text = v.join("\n");
        }
        15 => {
            // Swap two lines.
            let mut v: Vec<&str> = text.split('\n').collect();
            let (a, b) = (r.usize(lines), r.usize(lines));
            v.swap(a, b);
            text = v.join("\n");
        }
        16 => {
            // Say a line twice.
            let v: Vec<&str> = text.split('\n').collect();
            let l = v[r.usize(lines)].to_string();
            text = insert(r, &text, &l);
        }
        17 => {
            let l = format!("Late_{}: .equ 3\nld v{:x}, Late_{}", r.below(9), r.below(16), r.below(9));
            text = insert(r, &text, &l);
        }
        18 => {
            text = insert(r, &text, ".db 1, ; no comment may follow the comma");
        }
        19 => text = insert(r, &text, "\"text alone\""),
        20 => text = insert(r, &text, "17"),
        _ => {
            let k = r.range(1, 30);
            for _ in 0..k {
                text = insert(r, &text, "nop");
            }
        }
    }
    text.into_bytes()
}

/// A source the language rejects.
pub fn invalid(r: &mut Rng, size: Size) -> Vec<u8> {
    let base = if r.chance(1, 10) { vec![] } else { valid(r, size) };
    for _ in 0..30 {
        let s = spoil(r, &base);
        if !accepted(&s) {
            return s;
        }
    }
    b"jp nowhere\n".to_vec()
}

/// Tokens in any order, or bytes with no structure at all.
pub fn noise(r: &mut Rng) -> Vec<u8> {
    const WORDS: &[&str] = &[
        "ld", "LD", "jp", "drw", "v0", "Vf", "dt", "Dt", "st", "i", "[i]", "[I]", "b", "f", "k", ".", ".db", ".org", ".equ", ":", ",", "\"", "\"a\"", "\\", "$", "$F", "#12", "%1.1", "%", "12",
        "4095", "4096", "_", "x:", "x", ";", "; c", "\n", "\n", "\n", " ", "\t", "\r", "é", "\u{3000}", "[", "]", "nop", "cls", "0", "-1", "trap", "$FFF", "$1000", "\u{0}",
    ];
    match r.below(6) {
        0 => {
            let n = r.skew(2000) as usize;
            (0..n).map(|_| r.below(256) as u8).collect()
        }
        1 => {
            let n = r.skew(400) as usize;
            (0..n).map(|_| r.range(32, 126) as u8).collect()
        }
        2 => vec![],
        3 if r.chance(1, 6) => {
            let n = r.range(5_000, 30_000) as usize;
            let mut s = String::from("ld ");
            s.push_str(&vec!["v0"; n].join(","));
            s.push('\n');
            s.into_bytes()
        }
        4 if r.chance(1, 4) => {
            let w = *r.pick(&["(", "[", "\"", "a", "%0", ".", ":", ",", "$0,", "\\", "x:", "é", "\"\\\\"]);
            w.repeat(r.range(100, 8000) as usize).into_bytes()
        }
        _ => {
            let n = r.skew(200);
            let mut s = String::new();
            for _ in 0..n {
                match r.below(24) {
                    0 => s.push_str(dict::word(r).unwrap_or("nop")),
                    1 => s.push(dict::character(r).unwrap_or('\t')),
                    _ => s.push_str(r.pick(WORDS)),
                }
                if r.chance(1, 2) {
                    s.push(' ');
                }
            }
            s.into_bytes()
        }
    }
}

/// One construct repeated very often, with or without an error behind it.
pub fn stress(r: &mut Rng) -> Vec<u8> {
    // (unit, most repetitions); {} stands for the number of the repetition.
    const UNITS: &[(&str, u64)] = &[
        ("\n", 400_000),
        (" \t\n", 200_000),
        (";\n", 200_000),
        ("; c é\n", 100_000),
        ("l{}:\n", 40_000),
        ("l{}: ", 40_000),
        ("c{}: .equ 1\n", 20_000),
        (".org 0\n", 60_000),
        (".db \"\"\n", 60_000),
        (".db \"\",\n", 60_000),
        (" ", 400_000),
        ("\u{3000}", 100_000),
        ("\r\n", 100_000),
    ];
    // (start, unit, end, most repetitions)
    const LISTS: &[(&str, &str, &str, u64)] = &[
        (".db ", "\"\",", "0\n", 100_000),
        (".db ", "\"\",\t", "\"a\"\n", 100_000),
        (".db ", "7,", "7\n", 60_000),
        ("ld ", "v0,", "v0\n", 60_000),
        ("jp ", "x,", "x\n", 60_000),
        ("jp ", "1 ", "\n", 30_000),
        (".org ", "1,", "1\n", 60_000),
        ("; ", "x", "\n", 400_000),
        ("", "n", "_ : nop\n", 200_000),
        (".db ", "0", "7\n", 100_000),
        (".db %", ".", "1\n", 100_000),
        (".db 4", "9", "\n", 50_000),
        (".db \"", "x", "\"\n", 200_000),
        (".db \"", "\\\"", "\"\n", 2_000),
        (".db \"", "\n", "\"\n", 4_000),
        (".", "x", " 1\n", 100_000),
        ("", "z", "\n", 100_000),
        (".db \"", "x", "\n", 200_000),
    ];
    let mut s = String::new();
    if r.chance(1, 2) {
        s.push_str("begin_: ld v0, $12\n");
    }
    if r.chance(3, 5) {
        let (u, most) = *r.pick(UNITS);
        let n = if r.chance(1, 2) { most } else { r.range(most / 20, most) };
        if u.contains("{}") {
            for k in 0..n {
                s.push_str(&u.replace("{}", &k.to_string()));
            }
        } else {
            s.push_str(&u.repeat(n as usize));
        }
    } else {
        let (a, u, e, most) = *r.pick(LISTS);
        let n = if r.chance(1, 2) { most } else { r.range(most / 20, most) };
        s.push_str(a);
        s.push_str(&u.repeat(n as usize));
        s.push_str(e);
    }
    match r.below(6) {
        0 => s.push_str("jp nowhere_\n"),
        1 => s.push_str("@"),
        2 => s.push_str("end_: jp end_\n"),
        3 => s.push_str("ld v0, \"é\"\n"),
        4 => s.push_str("end_: jp end_"),
        _ => {}
    }
    s.into_bytes()
}

/// A mixture for checks that do not care whether the source is acceptable.
pub fn any(r: &mut Rng, size: Size) -> Vec<u8> {
    match r.below(10) {
        0..=5 => valid(r, size),
        6..=8 => invalid(r, size),
        _ => noise(r),
    }
}
