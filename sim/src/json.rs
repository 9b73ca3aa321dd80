//! A minimal JSON value: enough for replay files and evidence.

use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn s(x: &str) -> J {
    J::Str(x.to_string())
}
pub fn i<T: TryInto<i64>>(x: T) -> J {
    J::Int(x.try_into().ok().unwrap_or(i64::MAX))
}
pub fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
pub fn arr(v: Vec<J>) -> J {
    J::Arr(v)
}
pub fn counts(m: &BTreeMap<String, u64>) -> J {
    J::Obj(m.iter().map(|(k, v)| (k.clone(), i(*v))).collect())
}

/// Bytes: a plain string when they are printable text, hexadecimal otherwise.
pub fn bytes(b: &[u8]) -> J {
    match std::str::from_utf8(b) {
        Ok(t) => obj(vec![("text", s(t))]),
        Err(_) => obj(vec![("hex", s(&b.iter().map(|x| format!("{:02x}", x)).collect::<String>()))]),
    }
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        static NULL: J = J::Null;
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn as_i64(&self) -> i64 {
        match self {
            J::Int(x) => *x,
            J::Num(x) => *x as i64,
            _ => 0,
        }
    }
    pub fn as_u64(&self) -> u64 {
        self.as_i64() as u64
    }
    pub fn as_bool(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn as_str(&self) -> &str {
        match self {
            J::Str(x) => x,
            _ => "",
        }
    }
    pub fn items(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn as_bytes(&self) -> Vec<u8> {
        if let J::Str(t) = self.get("text") {
            return t.as_bytes().to_vec();
        }
        let h = self.get("hex").as_str();
        (0..h.len() / 2).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap_or(0)).collect()
    }

    pub fn render(&self) -> String {
        let mut out = String::new();
        self.write(&mut out, 0);
        out.push('\n');
        out
    }
    fn scalar(&self) -> bool {
        !matches!(self, J::Arr(_) | J::Obj(_))
    }
    fn write(&self, o: &mut String, ind: usize) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(x) => o.push_str(&x.to_string()),
            J::Num(x) => o.push_str(&format!("{:.3}", x)),
            J::Str(t) => quote(t, o),
            J::Arr(v) if v.is_empty() => o.push_str("[]"),
            J::Obj(v) if v.is_empty() => o.push_str("{}"),
            J::Arr(v) => {
                let flat = v.iter().all(|x| x.scalar());
                o.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        o.push_str(if flat { ", " } else { "," });
                    }
                    if !flat {
                        nl(o, ind + 1);
                    }
                    x.write(o, ind + 1);
                }
                if !flat {
                    nl(o, ind);
                }
                o.push(']');
            }
            J::Obj(v) => {
                let flat = v.len() <= 6 && v.iter().all(|(_, x)| x.scalar());
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push_str(if flat { ", " } else { "," });
                    }
                    if !flat {
                        nl(o, ind + 1);
                    }
                    quote(n, o);
                    o.push_str(": ");
                    x.write(o, ind + 1);
                }
                if !flat {
                    nl(o, ind);
                }
                o.push('}');
            }
        }
    }

    pub fn parse(t: &str) -> Result<J, String> {
        let b: Vec<char> = t.chars().collect();
        let mut p = P { b: &b, i: 0 };
        let v = p.value()?;
        p.ws();
        if p.i != p.b.len() {
            return Err(format!("trailing text at {}", p.i));
        }
        Ok(v)
    }
}

fn nl(o: &mut String, ind: usize) {
    o.push('\n');
    for _ in 0..ind {
        o.push_str("  ");
    }
}

fn quote(t: &str, o: &mut String) {
    o.push('"');
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f || (0x80..0xA0).contains(&(c as u32)) => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c if (c as u32) >= 0xFFFF0 || c == '\u{2028}' || c == '\u{2029}' || c == '\u{feff}' => {
                let mut buf = [0u16; 2];
                for u in c.encode_utf16(&mut buf) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

struct P<'a> {
    b: &'a [char],
    i: usize,
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && self.b[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: char) -> Result<(), String> {
        self.ws();
        if self.i < self.b.len() && self.b[self.i] == c {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected '{}' at {}", c, self.i))
        }
    }
    fn peek(&mut self) -> char {
        self.ws();
        *self.b.get(self.i).unwrap_or(&'\0')
    }
    fn word(&mut self, w: &str, v: J) -> Result<J, String> {
        for c in w.chars() {
            if self.b.get(self.i) != Some(&c) {
                return Err(format!("bad literal at {}", self.i));
            }
            self.i += 1;
        }
        Ok(v)
    }
    fn string(&mut self) -> Result<String, String> {
        self.eat('"')?;
        let mut units: Vec<u16> = Vec::new();
        let mut out = String::new();
        loop {
            let c = *self.b.get(self.i).ok_or("unterminated string")?;
            self.i += 1;
            if c == '\\' && self.b.get(self.i) == Some(&'u') {
                let h: String = self.b.get(self.i + 1..self.i + 5).ok_or("bad \\u")?.iter().collect();
                units.push(u16::from_str_radix(&h, 16).map_err(|e| e.to_string())?);
                self.i += 5;
                continue;
            }
            if !units.is_empty() {
                out.push_str(&String::from_utf16_lossy(&units));
                units.clear();
            }
            match c {
                '"' => return Ok(out),
                '\\' => {
                    let e = *self.b.get(self.i).ok_or("unterminated escape")?;
                    self.i += 1;
                    out.push(match e {
                        'n' => '\n',
                        'r' => '\r',
                        't' => '\t',
                        'b' => '\u{8}',
                        'f' => '\u{c}',
                        x => x,
                    });
                }
                c => out.push(c),
            }
        }
    }
    fn value(&mut self) -> Result<J, String> {
        match self.peek() {
            '{' => {
                self.eat('{')?;
                let mut v = Vec::new();
                if self.peek() == '}' {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.eat(':')?;
                    v.push((k, self.value()?));
                    if self.peek() == ',' {
                        self.i += 1;
                        continue;
                    }
                    self.eat('}')?;
                    return Ok(J::Obj(v));
                }
            }
            '[' => {
                self.eat('[')?;
                let mut v = Vec::new();
                if self.peek() == ']' {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.value()?);
                    if self.peek() == ',' {
                        self.i += 1;
                        continue;
                    }
                    self.eat(']')?;
                    return Ok(J::Arr(v));
                }
            }
            '"' => Ok(J::Str(self.string()?)),
            't' => self.word("true", J::Bool(true)),
            'f' => self.word("false", J::Bool(false)),
            'n' => self.word("null", J::Null),
            _ => {
                let st = self.i;
                while self.i < self.b.len() && "+-.eE0123456789".contains(self.b[self.i]) {
                    self.i += 1;
                }
                let t: String = self.b[st..self.i].iter().collect();
                if let Ok(x) = t.parse::<i64>() {
                    return Ok(J::Int(x));
                }
                t.parse::<f64>().map(J::Num).map_err(|_| format!("bad value at {}", st))
            }
        }
    }
}
