//! Minimal JSON, enough for the records TLC prints and the traces it reads.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    N(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => &[],
        }
    }
    pub fn s(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => "",
        }
    }
    pub fn n(&self) -> i64 {
        match self {
            J::N(n) => *n,
            _ => i64::MIN,
        }
    }
    pub fn ints(&self) -> Vec<i64> {
        self.arr().iter().map(|j| j.n()).collect()
    }
    pub fn show(&self) -> String {
        let mut o = String::new();
        self.put(&mut o);
        o
    }
    fn put(&self, o: &mut String) {
        match self {
            J::N(n) => {
                let _ = write!(o, "{}", n);
            }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 || (c as u32) > 126 => {
                            let mut b = [0u16; 2];
                            for u in c.encode_utf16(&mut b) {
                                let _ = write!(o, "\\u{:04x}", u);
                            }
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, j) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    j.put(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, j)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::S(k.clone()).put(o);
                    o.push(':');
                    j.put(o);
                }
                o.push('}');
            }
        }
    }
}

pub fn cps(s: &str) -> J {
    J::A(s.chars().map(|c| J::N(c as i64)).collect())
}
pub fn from_cps(j: &J) -> String {
    j.arr().iter().map(|x| char::from_u32(x.n() as u32).unwrap()).collect()
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

pub fn parse(s: &str) -> J {
    let mut p = P { b: s.as_bytes(), i: 0 };
    p.val()
}

/// A line printed by TLC's PrintT of a string: a quoted, escaped JSON text.
pub fn parse_tlc_line(line: &str) -> Option<J> {
    let line = line.trim_end();
    if !(line.starts_with('"') && line.ends_with('"') && line.len() > 2) {
        return None;
    }
    let mut p = P { b: line.as_bytes(), i: 0 };
    let inner = p.string();
    if !(inner.starts_with('[') || inner.starts_with('{')) {
        return None;
    }
    Some(parse(&inner))
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && self.b[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn val(&mut self) -> J {
        self.ws();
        match self.b[self.i] {
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    match self.b[self.i] {
                        b']' => {
                            self.i += 1;
                            return J::A(v);
                        }
                        b',' => self.i += 1,
                        _ => v.push(self.val()),
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    match self.b[self.i] {
                        b'}' => {
                            self.i += 1;
                            return J::O(v);
                        }
                        b',' => self.i += 1,
                        _ => {
                            let k = self.string();
                            self.ws();
                            self.i += 1; // ':'
                            let j = self.val();
                            v.push((k, j));
                        }
                    }
                }
            }
            b'"' => J::S(self.string()),
            b't' => {
                self.i += 4;
                J::N(1)
            }
            b'f' => {
                self.i += 5;
                J::N(0)
            }
            _ => {
                let st = self.i;
                while self.i < self.b.len() && (self.b[self.i] == b'-' || self.b[self.i].is_ascii_digit()) {
                    self.i += 1;
                }
                J::N(std::str::from_utf8(&self.b[st..self.i]).unwrap().parse().unwrap())
            }
        }
    }
    fn string(&mut self) -> String {
        self.i += 1;
        let mut out = vec![];
        loop {
            match self.b[self.i] {
                b'"' => {
                    self.i += 1;
                    return String::from_utf8(out).unwrap();
                }
                b'\\' => {
                    self.i += 1;
                    match self.b[self.i] {
                        b'n' => out.push(b'\n'),
                        b't' => out.push(b'\t'),
                        b'r' => out.push(b'\r'),
                        b'u' => {
                            let h = std::str::from_utf8(&self.b[self.i + 1..self.i + 5]).unwrap();
                            let c = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap();
                            let mut b = [0; 4];
                            out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
                            self.i += 4;
                        }
                        c => out.push(c),
                    }
                    self.i += 1;
                }
                c => {
                    out.push(c);
                    self.i += 1;
                }
            }
        }
    }
}
