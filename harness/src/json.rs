//! A small JSON reader/writer for vectors and traces, independent of the crate
//! under test.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub struct P<'a> {
    s: &'a [u8],
    i: usize,
}

pub fn parse(s: &str) -> Result<J, String> {
    let mut p = P { s: s.as_bytes(), i: 0 };
    let v = p.value()?;
    p.ws();
    if p.i != p.s.len() {
        return Err(format!("trailing data at {}", p.i));
    }
    Ok(v)
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\t' | b'\r') {
            self.i += 1;
        }
    }
    fn err<T>(&self, m: &str) -> Result<T, String> {
        Err(format!("{m} at {}", self.i))
    }
    fn value(&mut self) -> Result<J, String> {
        self.ws();
        match self.s.get(self.i) {
            Some(b'{') => {
                self.i += 1;
                let mut o = vec![];
                self.ws();
                if self.s.get(self.i) == Some(&b'}') {
                    self.i += 1;
                    return Ok(J::Obj(o));
                }
                loop {
                    self.ws();
                    let k = match self.value()? {
                        J::Str(k) => k,
                        _ => return self.err("key"),
                    };
                    self.ws();
                    if self.s.get(self.i) != Some(&b':') {
                        return self.err("colon");
                    }
                    self.i += 1;
                    o.push((k, self.value()?));
                    self.ws();
                    match self.s.get(self.i) {
                        Some(b',') => self.i += 1,
                        Some(b'}') => {
                            self.i += 1;
                            return Ok(J::Obj(o));
                        }
                        _ => return self.err("object"),
                    }
                }
            }
            Some(b'[') => {
                self.i += 1;
                let mut a = vec![];
                self.ws();
                if self.s.get(self.i) == Some(&b']') {
                    self.i += 1;
                    return Ok(J::Arr(a));
                }
                loop {
                    a.push(self.value()?);
                    self.ws();
                    match self.s.get(self.i) {
                        Some(b',') => self.i += 1,
                        Some(b']') => {
                            self.i += 1;
                            return Ok(J::Arr(a));
                        }
                        _ => return self.err("array"),
                    }
                }
            }
            Some(b'"') => {
                self.i += 1;
                let mut out = vec![];
                loop {
                    match self.s.get(self.i) {
                        Some(b'"') => {
                            self.i += 1;
                            return String::from_utf8(out).map(J::Str).map_err(|e| e.to_string());
                        }
                        Some(b'\\') => {
                            let c = *self.s.get(self.i + 1).ok_or("eof")?;
                            self.i += 2;
                            match c {
                                b'n' => out.push(b'\n'),
                                b't' => out.push(b'\t'),
                                b'r' => out.push(b'\r'),
                                b'b' => out.push(8),
                                b'f' => out.push(12),
                                b'u' => {
                                    let h = std::str::from_utf8(&self.s[self.i..self.i + 4]).map_err(|e| e.to_string())?;
                                    let v = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                                    self.i += 4;
                                    let ch = char::from_u32(v).ok_or("surrogate")?;
                                    let mut b = [0; 4];
                                    out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                                }
                                c => out.push(c),
                            }
                        }
                        Some(c) => {
                            out.push(*c);
                            self.i += 1;
                        }
                        None => return self.err("string"),
                    }
                }
            }
            Some(b't') if self.s[self.i..].starts_with(b"true") => {
                self.i += 4;
                Ok(J::Bool(true))
            }
            Some(b'f') if self.s[self.i..].starts_with(b"false") => {
                self.i += 5;
                Ok(J::Bool(false))
            }
            Some(b'n') if self.s[self.i..].starts_with(b"null") => {
                self.i += 4;
                Ok(J::Null)
            }
            Some(b'-' | b'0'..=b'9') => {
                let st = self.i;
                self.i += 1;
                while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
                    self.i += 1;
                }
                std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().map(J::Int).map_err(|e| format!("{e}"))
            }
            _ => self.err("value"),
        }
    }
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(o) => o.iter().find(|(n, _)| n == k).map(|(_, v)| v).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
    pub fn at(&self, i: usize) -> &J {
        self.arr().get(i).unwrap_or(&J::Null)
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            J::Bool(b) => i64::from(*b),
            o => panic!("vector: int expected, got {o:?}"),
        }
    }
    pub fn us(&self) -> usize {
        self.int() as usize
    }
    pub fn bool(&self) -> bool {
        match self {
            J::Bool(b) => *b,
            o => panic!("vector: bool expected, got {o:?}"),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            J::Null => "",
            o => panic!("vector: string expected, got {o:?}"),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.arr().iter().map(|b| b.int() as u8).collect()
    }
    pub fn cps(&self) -> Vec<u32> {
        self.arr().iter().map(|b| b.int() as u32).collect()
    }
    pub fn string(&self) -> String {
        self.arr().iter().map(|b| char::from_u32(b.int() as u32).expect("scalar")).collect()
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => write!(o, "{i}").unwrap(),
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(a) => {
                o.push('[');
                for (i, v) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    v.write(o);
                }
                o.push(']');
            }
            J::Obj(a) => {
                o.push('{');
                for (i, (k, v)) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::Str(k.clone()).write(o);
                    o.push(':');
                    v.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
}

pub fn s(x: &str) -> J {
    J::Str(x.to_string())
}
pub fn i(x: usize) -> J {
    J::Int(x as i64)
}
pub fn bytes(b: &[u8]) -> J {
    J::Arr(b.iter().map(|b| J::Int(i64::from(*b))).collect())
}
pub fn cps(st: &str) -> J {
    J::Arr(st.chars().map(|c| J::Int(i64::from(c as u32))).collect())
}
pub fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

/// TLC prints a string value in quotes, with `"` and `\` escaped.
pub fn unprint(line: &str) -> Option<String> {
    let l = line.trim_end();
    if l.len() < 2 || !l.starts_with("\"{") || !l.ends_with('"') {
        return None;
    }
    let mut out = String::with_capacity(l.len());
    let mut it = l[1..l.len() - 1].chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => out.push('\n'),
                Some('t') => out.push('\t'),
                Some(c) => out.push(c),
                None => return None,
            }
        } else {
            out.push(c);
        }
    }
    Some(out)
}
