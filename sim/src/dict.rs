//! Numbers, words and characters that the code under test mentions and did not mention
//! when the checks were written (then the dictionary is empty).  They only steer the search (a limit somebody wrote down is worth
//! approaching); what counts as a violation never depends on them.

use crate::rng::Rng;
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    pub numbers: Vec<u64>,
    /// Single words, and pieces of file names.
    pub words: Vec<String>,
    /// Anything longer.
    pub phrases: Vec<String>,
    pub chars: Vec<char>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn get() -> &'static Dict {
    DICT.get_or_init(|| raw().finish())
}

/// Everything the code mentions.
pub fn entries() -> Vec<String> {
    raw().entries()
}

fn raw() -> Raw {
    let repo = std::env::var("C8SIM_REPO").unwrap_or_default();
    let mut texts = vec![];
    if !repo.is_empty() {
        collect(&Path::new(&repo).join("src"), &mut texts);
    }
    texts.sort();
    let mut d = Raw::default();
    for t in &texts {
        d.scan(t);
    }
    d
}

/// A number the code mentions, or one beside it, if there is any of at most `max`.
pub fn number(r: &mut Rng, max: u64) -> Option<u64> {
    let n = &get().numbers;
    if n.is_empty() {
        return None;
    }
    let v = (*r.pick(n) + r.below(5)).saturating_sub(2);
    if v <= max {
        Some(v)
    } else {
        None
    }
}

/// A word the code mentions, if there is any.
pub fn word(r: &mut Rng) -> Option<&'static str> {
    let w = &get().words;
    if w.is_empty() {
        None
    } else {
        Some(r.pick(w).as_str())
    }
}

/// A word that can name something.
pub fn ident(r: &mut Rng) -> Option<&'static str> {
    let w: Vec<&'static String> = get().words.iter().filter(|w| w.chars().all(|c| c == '_' || c.is_ascii_alphanumeric()) && !w.starts_with(|c: char| c.is_ascii_digit())).collect();
    if w.is_empty() {
        None
    } else {
        Some(r.pick(&w).as_str())
    }
}

/// Anything to be found in a text.
pub fn text(r: &mut Rng) -> Option<&'static str> {
    let d = get();
    let n = d.words.len() + d.phrases.len();
    if n == 0 {
        return None;
    }
    let k = r.usize(n);
    Some(if k < d.words.len() { &d.words[k] } else { &d.phrases[k - d.words.len()] })
}

/// A name for a file beside `path` that a word the code mentions suggests.
pub fn beside(r: &mut Rng, path: &str, anywhere: bool) -> Option<String> {
    let w = word(r)?;
    if w.contains('\0') || w == "." || w == ".." {
        return None;
    }
    if w.contains('/') {
        let plain = !w.ends_with('/') && !w.contains("//") && !w.contains("/.");
        return if anywhere && plain && w.starts_with('/') { Some(w.to_string()) } else { None };
    }
    let (dir, file) = match path.rfind('/') {
        Some(k) => (&path[..k + 1], &path[k + 1..]),
        None => ("", path),
    };
    let stem = match file.rfind('.') {
        Some(k) if k > 0 => &file[..k],
        _ => file,
    };
    let n = match r.below(6) {
        0 | 1 => format!("{}{}{}", dir, file, w),
        2 => format!("{}{}{}", dir, stem, w),
        3 => format!("{}{}.{}", dir, stem, w.trim_start_matches('.')),
        4 => format!("{}{}{}", dir, w, file),
        _ => format!("{}{}", dir, w),
    };
    // Names that other parts of a scenario use for directories.
    let taken = ["w", "tmp", "build", "real", "src", "abs", "proj", "deep", "up", "dev"].contains(&n.rsplit('/').next().unwrap_or(""));
    if taken || n.is_empty() || n.len() > 200 {
        None
    } else {
        Some(n)
    }
}

/// A character the code mentions, if there is any.
pub fn character(r: &mut Rng) -> Option<char> {
    let c = &get().chars;
    if c.is_empty() {
        None
    } else {
        Some(*r.pick(c))
    }
}

fn collect(dir: &Path, out: &mut Vec<String>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            collect(&p, out);
        } else if p.extension().map_or(false, |x| x == "rs") {
            if let Ok(t) = std::fs::read_to_string(&p) {
                out.push(t);
            }
        }
    }
}

/// What the code mentioned when the checks were written (`c8sim dict raw`).
const KNOWN: &str = include_str!("known.txt");

#[derive(Default)]
struct Raw {
    numbers: BTreeSet<u64>,
    words: BTreeSet<String>,
    chars: BTreeSet<char>,
}

impl Raw {
    fn scan(&mut self, text: &str) {
        let text = text.split("#[cfg(test)]").next().unwrap_or("");
        let c: Vec<char> = text.chars().collect();
        let mut k = 0;
        // The number just seen, and the operator after it.
        let mut last: Option<(u64, char)> = None;
        let word = |x: char| x == '_' || x.is_alphanumeric();
        while k < c.len() {
            let n = c.get(k + 1).copied().unwrap_or(' ');
            if c[k] == '/' && n == '/' {
                while k < c.len() && c[k] != '\n' {
                    k += 1;
                }
            } else if c[k] == '/' && n == '*' {
                k += 2;
                while k < c.len() && !(c[k] == '*' && c.get(k + 1) == Some(&'/')) {
                    k += 1;
                }
                k += 2;
            } else if c[k] == '"' || (c[k] == 'r' && (n == '"' || n == '#') && (k == 0 || !word(c[k - 1]))) {
                let raw = c[k] == 'r';
                let mut hashes = 0;
                if raw {
                    k += 1;
                    while c.get(k) == Some(&'#') {
                        hashes += 1;
                        k += 1;
                    }
                    if c.get(k) != Some(&'"') {
                        continue;
                    }
                }
                k += 1;
                let mut s = String::new();
                while k < c.len() {
                    if c[k] == '"' && (1..=hashes).all(|h| c.get(k + h) == Some(&'#')) {
                        k += hashes;
                        break;
                    }
                    if !raw && c[k] == '\\' {
                        k += 1;
                        if let Some(x) = c.get(k) {
                            s.push(match x {
                                'n' => '\n',
                                't' => '\t',
                                'r' => '\r',
                                '0' => '\0',
                                x => *x,
                            });
                        }
                    } else {
                        s.push(c[k]);
                    }
                    k += 1;
                }
                k += 1;
                // The fixed parts of a format.
                for part in s.split(|c| c == '{' || c == '}') {
                    if s.contains('{') && part.contains(|c: char| c.is_alphanumeric()) && !part.starts_with(|c: char| c == ':' || c.is_ascii_digit()) {
                        self.words.insert(part.to_string());
                    }
                }
                self.words.insert(s);
                last = None;
            } else if c[k] == '\'' {
                // A character, or a lifetime.
                if n == '\\' {
                    let end = (k + 3..c.len().min(k + 14)).find(|e| c[*e] == '\'').unwrap_or(k + 3);
                    let digits: String = c[(k + 3).min(c.len())..end.min(c.len())].iter().filter(|x| x.is_ascii_hexdigit()).collect();
                    let x = match c.get(k + 2).copied().unwrap_or(' ') {
                        'u' | 'x' => u32::from_str_radix(&digits, 16).ok().and_then(char::from_u32).unwrap_or(' '),
                        'n' => '\n',
                        't' => '\t',
                        'r' => '\r',
                        '0' => '\0',
                        x => x,
                    };
                    self.chars.insert(x);
                    k += 2;
                    if c.get(k) == Some(&'\'') {
                        k += 1;
                    }
                    while k < c.len() && c[k] != '\'' && c[k] != '\n' {
                        k += 1;
                    }
                } else if c.get(k + 2) == Some(&'\'') {
                    self.chars.insert(n);
                    k += 2;
                }
                k += 1;
            } else if c[k].is_ascii_digit() && (k == 0 || !word(c[k - 1])) {
                let start = k;
                while k < c.len() && word(c[k]) {
                    k += 1;
                }
                let t: String = c[start..k].iter().filter(|x| **x != '_').collect();
                let t = t.trim_end_matches("usize").trim_end_matches("u64").trim_end_matches("u32").trim_end_matches("u16").trim_end_matches("u8").trim_end_matches("i64").trim_end_matches("i32");
                let v = if let Some(h) = t.strip_prefix("0x") {
                    u64::from_str_radix(h, 16).ok()
                } else if let Some(b) = t.strip_prefix("0b") {
                    u64::from_str_radix(b, 2).ok()
                } else {
                    t.parse().ok()
                };
                if let Some(v) = v {
                    self.numbers.insert(v);
                    match last {
                        Some((a, '*')) => {
                            self.numbers.insert(a.saturating_mul(v));
                        }
                        Some((a, '<')) if v < 40 => {
                            self.numbers.insert(a.saturating_mul(1 << v));
                        }
                        _ => {}
                    }
                    last = Some((v, ' '));
                }
            } else {
                if c[k] == '*' || (c[k] == '<' && n == '<') {
                    if let Some(l) = last.as_mut() {
                        l.1 = c[k];
                    }
                } else if !c[k].is_whitespace() && !(c[k] == '<' && k > 0 && c[k - 1] == '<') {
                    last = None;
                }
                k += 1;
                if word(c[k - 1]) {
                    while k < c.len() && word(c[k]) {
                        k += 1;
                    }
                }
            }
        }
    }

    fn entries(&self) -> Vec<String> {
        let n = self.numbers.iter().map(|n| format!("n {}", n));
        let c = self.chars.iter().map(|c| format!("c {:?}", c));
        let w = self.words.iter().map(|w| format!("w {:?}", w));
        n.chain(c).chain(w).collect()
    }

    fn finish(self) -> Dict {
        let known: BTreeSet<&str> = KNOWN.lines().collect();
        let novel = |e: String| !known.contains(e.as_str());
        let words: Vec<String> = self.words.into_iter().filter(|w| novel(format!("w {:?}", w)) && (1..=40).contains(&w.chars().count()) && !w.contains(|c: char| c == '{' || c == '}')).collect();
        let word = |w: &&String| w.chars().count() <= 20 && !w.contains(|c: char| c.is_whitespace() || "(^\\<:".contains(c));
        Dict {
            numbers: self.numbers.into_iter().filter(|n| (2..=200_000).contains(n) && novel(format!("n {}", n))).collect(),
            chars: self.chars.into_iter().filter(|c| novel(format!("c {:?}", c))).collect(),
            phrases: words.iter().filter(|w| !word(w)).cloned().collect(),
            words: words.iter().filter(word).cloned().collect(),
        }
    }
}
