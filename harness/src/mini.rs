//! A small JSON value, reader and writer (no dependencies).
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, key: &str) -> &J {
        static NULL: J = J::Null;
        match self {
            J::Obj(v) => v.iter().find(|(k, _)| k == key).map(|(_, v)| v).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            J::Bool(b) => *b as i64,
            _ => panic!("harness: expected int, got {:?}", self),
        }
    }
    pub fn usize(&self) -> usize { self.int() as usize }
    pub fn or_int(&self, d: i64) -> i64 { if let J::Null = self { d } else { self.int() } }
    pub fn bool(&self) -> bool {
        match self {
            J::Bool(b) => *b,
            J::Int(i) => *i != 0,
            J::Null => false,
            _ => panic!("harness: expected bool, got {:?}", self),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("harness: expected string, got {:?}", self),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            J::Null => &[],
            _ => panic!("harness: expected array, got {:?}", self),
        }
    }
    /// Code points to text.
    pub fn text(&self) -> String {
        self.arr().iter().map(|c| char::from_u32(c.int() as u32).expect("harness: code point")).collect()
    }
    pub fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => { let _ = write!(out, "{}", i); }
            J::Str(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        c if c < ' ' => { let _ = write!(out, "\\u{:04x}", c as u32); }
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::Arr(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { out.push(','); }
                    x.write(out);
                }
                out.push(']');
            }
            J::Obj(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { out.push(','); }
                    J::Str(k.clone()).write(out);
                    out.push(':');
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
    pub fn to_text(&self) -> String { let mut s = String::new(); self.write(&mut s); s }
}

pub fn cps(s: &str) -> J { J::Arr(s.chars().map(|c| J::Int(c as i64)).collect()) }
pub fn s(x: &str) -> J { J::Str(x.into()) }
pub fn i(x: usize) -> J { J::Int(x as i64) }
#[macro_export]
macro_rules! obj {
    ($($k:expr => $v:expr),* $(,)?) => { $crate::mini::J::Obj(vec![$(($k.to_string(), $v)),*]) };
}

pub fn parse(src: &str) -> J {
    let b = src.as_bytes();
    let mut p = 0;
    let v = value(b, &mut p);
    ws(b, &mut p);
    assert!(p == b.len(), "harness: trailing JSON at {}", p);
    v
}
fn ws(b: &[u8], p: &mut usize) { while *p < b.len() && (b[*p] as char).is_ascii_whitespace() { *p += 1; } }
fn value(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if b[*p] == b'}' { *p += 1; break; }
                if b[*p] == b',' { *p += 1; continue; }
                let k = match value(b, p) { J::Str(s) => s, _ => panic!("harness: JSON key") };
                ws(b, p);
                assert!(b[*p] == b':');
                *p += 1;
                v.push((k, value(b, p)));
            }
            J::Obj(v)
        }
        b'[' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if b[*p] == b']' { *p += 1; break; }
                if b[*p] == b',' { *p += 1; continue; }
                v.push(value(b, p));
            }
            J::Arr(v)
        }
        b'"' => {
            *p += 1;
            let mut out: Vec<u8> = vec![];
            while b[*p] != b'"' {
                if b[*p] == b'\\' {
                    *p += 1;
                    match b[*p] {
                        b'n' => out.push(b'\n'),
                        b't' => out.push(b'\t'),
                        b'r' => out.push(b'\r'),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'u' => {
                            let h = std::str::from_utf8(&b[*p + 1..*p + 5]).unwrap();
                            let c = u32::from_str_radix(h, 16).unwrap();
                            let mut buf = [0; 4];
                            out.extend(char::from_u32(c).expect("harness: \\u").encode_utf8(&mut buf).bytes());
                            *p += 4;
                        }
                        c => out.push(c),
                    }
                } else { out.push(b[*p]); }
                *p += 1;
            }
            *p += 1;
            J::Str(String::from_utf8(out).unwrap())
        }
        b't' => { *p += 4; J::Bool(true) }
        b'f' => { *p += 5; J::Bool(false) }
        b'n' => { *p += 4; J::Null }
        _ => {
            let st = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) { *p += 1; }
            J::Int(std::str::from_utf8(&b[st..*p]).unwrap().parse().expect("harness: int"))
        }
    }
}
