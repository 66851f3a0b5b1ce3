//! Minimal JSON reader/writer (the sandbox is offline; no dependencies).
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(HashMap<String, J>),
}

static NULL: J = J::Null;

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn at(&self, i: usize) -> &J {
        match self {
            J::Arr(v) => v.get(i).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn is_str(&self) -> bool {
        matches!(self, J::Str(_))
    }
    pub fn num(&self) -> i128 {
        match self {
            J::Num(n) => *n,
            J::Str(s) => s.parse().unwrap_or_else(|_| panic!("not a number: {s}")),
            x => panic!("not a number: {x:?}"),
        }
    }
    pub fn opt(&self) -> Option<i128> {
        match self {
            J::Num(n) => Some(*n),
            _ => None,
        }
    }
    pub fn us(&self) -> usize {
        self.num() as usize
    }
    pub fn bool(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
}

pub fn parse(s: &str) -> J {
    let b = s.as_bytes();
    let mut p = 0;
    let v = val(b, &mut p);
    ws(b, &mut p);
    assert!(p == b.len(), "trailing json at {p}");
    v
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && matches!(b[*p], b' ' | b'\n' | b'\t' | b'\r') {
        *p += 1;
    }
}

fn val(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut m = HashMap::new();
            loop {
                ws(b, p);
                if b[*p] == b'}' {
                    *p += 1;
                    return J::Obj(m);
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                let k = string(b, p);
                ws(b, p);
                assert!(b[*p] == b':');
                *p += 1;
                let v = val(b, p);
                m.insert(k, v);
            }
        },
        b'[' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(b, p);
                if b[*p] == b']' {
                    *p += 1;
                    return J::Arr(v);
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                v.push(val(b, p));
            }
        },
        b'"' => J::Str(string(b, p)),
        b't' => {
            *p += 4;
            J::Bool(true)
        },
        b'f' => {
            *p += 5;
            J::Bool(false)
        },
        b'n' => {
            *p += 4;
            J::Null
        },
        _ => {
            let s = *p;
            while *p < b.len() && matches!(b[*p], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[s..*p]).unwrap();
            match t.parse::<i128>() {
                Ok(n) => J::Num(n),
                Err(_) => J::Str(t.to_string()),
            }
        },
    }
}

fn string(b: &[u8], p: &mut usize) -> String {
    assert!(b[*p] == b'"', "string expected at {p}");
    *p += 1;
    let mut out = Vec::new();
    loop {
        match b[*p] {
            b'"' => {
                *p += 1;
                return String::from_utf8_lossy(&out).into_owned();
            },
            b'\\' => {
                *p += 1;
                match b[*p] {
                    b'n' => out.push(b'\n'),
                    b't' => out.push(b'\t'),
                    b'r' => out.push(b'\r'),
                    b'b' => out.push(8),
                    b'f' => out.push(12),
                    b'u' => {
                        let h = std::str::from_utf8(&b[*p + 1..*p + 5]).unwrap();
                        let c = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap_or('?');
                        let mut t = [0; 4];
                        out.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                        *p += 4;
                    },
                    c => out.push(c),
                }
                *p += 1;
            },
            c => {
                out.push(c);
                *p += 1;
            },
        }
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
