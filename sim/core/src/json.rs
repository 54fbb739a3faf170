//! Minimal JSON (plans, replay files, evidence). Numbers are i64 or f64.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    I(i64),
    F(f64),
    S(String),
    A(Vec<J>),
    O(BTreeMap<String, J>),
}

pub fn obj(v: Vec<(&str, J)>) -> J {
    J::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
pub fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
pub fn n(x: impl TryInto<i64>) -> J {
    J::I(x.try_into().unwrap_or(i64::MAX))
}
pub fn arr<T>(v: impl IntoIterator<Item = T>, f: impl Fn(T) -> J) -> J {
    J::A(v.into_iter().map(f).collect())
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::O(m) => m.get(k).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn has(&self, k: &str) -> bool {
        matches!(self, J::O(m) if m.contains_key(k))
    }
    pub fn int(&self) -> i64 {
        match self {
            J::I(i) => *i,
            J::F(f) => *f as i64,
            J::Bool(b) => *b as i64,
            _ => 0,
        }
    }
    pub fn us(&self) -> usize {
        self.int() as usize
    }
    pub fn bool(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => "",
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => &[],
        }
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::O(m) = self {
            m.insert(k.to_string(), v);
        }
    }
    pub fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => write!(out, "{b}").unwrap(),
            J::I(i) => write!(out, "{i}").unwrap(),
            J::F(f) => write!(out, "{f:.3}").unwrap(),
            J::S(s) => esc(s, out),
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::O(m) => {
                out.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    esc(k, out);
                    out.push(':');
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
    pub fn dump(&self) -> String {
        let mut o = String::new();
        self.write(&mut o);
        o
    }
    pub fn parse(src: &str) -> Result<J, String> {
        let b = src.as_bytes();
        let mut p = P { b, i: 0 };
        let v = p.val()?;
        p.ws();
        if p.i != b.len() {
            return Err(format!("trailing data at {}", p.i));
        }
        Ok(v)
    }
}

fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\t' => out.push_str("\\t"),
            '\r' => out.push_str("\\r"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                write!(out, "\\u{:04x}", c as u32).unwrap()
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\t' | b'\r') {
            self.i += 1;
        }
    }
    fn lit(&mut self, t: &str, v: J) -> Result<J, String> {
        if self.b[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            Ok(v)
        } else {
            Err(format!("bad literal at {}", self.i))
        }
    }
    fn val(&mut self) -> Result<J, String> {
        self.ws();
        match self.b.get(self.i) {
            None => Err("eof".into()),
            Some(b'n') => self.lit("null", J::Null),
            Some(b't') => self.lit("true", J::Bool(true)),
            Some(b'f') => self.lit("false", J::Bool(false)),
            Some(b'"') => Ok(J::S(self.string()?)),
            Some(b'[') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&b']') {
                    self.i += 1;
                    return Ok(J::A(v));
                }
                loop {
                    v.push(self.val()?);
                    self.ws();
                    match self.b.get(self.i) {
                        Some(b',') => self.i += 1,
                        Some(b']') => {
                            self.i += 1;
                            return Ok(J::A(v));
                        }
                        _ => return Err(format!("bad array at {}", self.i)),
                    }
                }
            }
            Some(b'{') => {
                self.i += 1;
                let mut m = BTreeMap::new();
                self.ws();
                if self.b.get(self.i) == Some(&b'}') {
                    self.i += 1;
                    return Ok(J::O(m));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if self.b.get(self.i) != Some(&b':') {
                        return Err(format!("bad object at {}", self.i));
                    }
                    self.i += 1;
                    m.insert(k, self.val()?);
                    self.ws();
                    match self.b.get(self.i) {
                        Some(b',') => self.i += 1,
                        Some(b'}') => {
                            self.i += 1;
                            return Ok(J::O(m));
                        }
                        _ => return Err(format!("bad object at {}", self.i)),
                    }
                }
            }
            Some(_) => {
                let st = self.i;
                while self.i < self.b.len()
                    && matches!(self.b[self.i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E')
                {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.b[st..self.i]).unwrap_or("");
                if let Ok(i) = t.parse::<i64>() {
                    Ok(J::I(i))
                } else {
                    t.parse::<f64>().map(J::F).map_err(|_| format!("bad number at {st}"))
                }
            }
        }
    }
    fn string(&mut self) -> Result<String, String> {
        if self.b.get(self.i) != Some(&b'"') {
            return Err(format!("expected string at {}", self.i));
        }
        self.i += 1;
        let mut out = Vec::new();
        loop {
            match self.b.get(self.i) {
                None => return Err("eof in string".into()),
                Some(b'"') => {
                    self.i += 1;
                    return String::from_utf8(out).map_err(|e| e.to_string());
                }
                Some(b'\\') => {
                    self.i += 1;
                    let c = *self.b.get(self.i).ok_or("eof")?;
                    self.i += 1;
                    let ch = match c {
                        b'n' => '\n',
                        b't' => '\t',
                        b'r' => '\r',
                        b'u' => {
                            let h = self.hex4()?;
                            let cp = if (0xd800..0xdc00).contains(&h) {
                                self.i += 2;
                                let l = self.hex4()?;
                                0x10000 + ((h - 0xd800) << 10) + (l.wrapping_sub(0xdc00) & 0x3ff)
                            } else {
                                h
                            };
                            char::from_u32(cp).unwrap_or('\u{fffd}')
                        }
                        c => c as char,
                    };
                    let mut buf = [0; 4];
                    out.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
                }
                Some(c) => {
                    out.push(*c);
                    self.i += 1;
                }
            }
        }
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let t = self.b.get(self.i..self.i + 4).ok_or("eof")?;
        self.i += 4;
        u32::from_str_radix(std::str::from_utf8(t).map_err(|e| e.to_string())?, 16)
            .map_err(|e| e.to_string())
    }
}
