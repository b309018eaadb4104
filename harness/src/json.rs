//! A small JSON value with a reader and a writer. Byte strings are written as
//! arrays of numbers (TLC reads them as sequences).
use std::fmt::Write;

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    I(i64),
    B(bool),
    S(String),
    Y(Vec<u8>),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

pub fn s(x: &str) -> J {
    J::S(x.to_string())
}
pub fn i(x: usize) -> J {
    // TLC integers are 32-bit
    J::I(std::cmp::min(x, 2147483647) as i64)
}
pub fn y(x: &[u8]) -> J {
    J::Y(x.to_vec())
}
pub fn o(fields: Vec<(&str, J)>) -> J {
    J::O(fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl J {
    pub fn opt(&self, k: &str) -> Option<&J> {
        match self {
            J::O(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn get(&self, k: &str) -> &J {
        self.opt(k).unwrap_or_else(|| panic!("harness: no field {} in {:?}", k, self))
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::O(f) = self {
            for e in f.iter_mut() {
                if e.0 == k {
                    e.1 = v;
                    return;
                }
            }
            f.push((k.to_string(), v));
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::I(x) => *x,
            _ => panic!("harness: not a number {:?}", self),
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            J::B(x) => *x,
            _ => panic!("harness: not a boolean {:?}", self),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(x) => x,
            _ => panic!("harness: not a string {:?}", self),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(x) => x,
            J::Y(x) if x.is_empty() => &[],
            _ => panic!("harness: not an array {:?}", self),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            J::Y(x) => x.clone(),
            J::A(x) => x.iter().map(|e| e.int() as u8).collect(),
            _ => panic!("harness: not bytes {:?}", self),
        }
    }
    pub fn text(&self) -> String {
        String::from_utf8(self.bytes()).expect("harness: text not UTF-8")
    }
    pub fn dump(&self) -> String {
        let mut out = String::new();
        self.write(&mut out);
        out
    }
    pub fn write(&self, out: &mut String) {
        match self {
            J::I(x) => write!(out, "{}", x).unwrap(),
            J::B(x) => out.push_str(if *x { "true" } else { "false" }),
            J::S(x) => {
                out.push('"');
                for c in x.chars() {
                    match c {
                        '"' | '\\' => {
                            out.push('\\');
                            out.push(c)
                        }
                        c if (c as u32) < 32 => write!(out, "\\u{:04x}", c as u32).unwrap(),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::Y(x) => {
                out.push('[');
                for (k, b) in x.iter().enumerate() {
                    if k > 0 {
                        out.push(',');
                    }
                    let b = *b;
                    if b >= 100 {
                        out.push((b'0' + b / 100) as char);
                    }
                    if b >= 10 {
                        out.push((b'0' + b / 10 % 10) as char);
                    }
                    out.push((b'0' + b % 10) as char);
                }
                out.push(']');
            }
            J::A(x) => {
                out.push('[');
                for (k, e) in x.iter().enumerate() {
                    if k > 0 {
                        out.push(',');
                    }
                    e.write(out);
                }
                out.push(']');
            }
            J::O(x) => {
                out.push('{');
                for (k, (n, e)) in x.iter().enumerate() {
                    if k > 0 {
                        out.push(',');
                    }
                    write!(out, "\"{}\":", n).unwrap();
                    e.write(out);
                }
                out.push('}');
            }
        }
    }

    pub fn parse(text: &str) -> J {
        let b = text.as_bytes();
        let mut p = 0;
        let v = value(b, &mut p);
        ws(b, &mut p);
        assert!(p == b.len(), "harness: trailing JSON");
        v
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] as char).is_ascii_whitespace() {
        *p += 1;
    }
}

fn string(b: &[u8], p: &mut usize) -> String {
    assert!(b[*p] == b'"', "harness: JSON string");
    *p += 1;
    let mut out = Vec::new();
    while b[*p] != b'"' {
        if b[*p] == b'\\' {
            *p += 1;
            match b[*p] {
                b'n' => out.push(b'\n'),
                b't' => out.push(b'\t'),
                c => out.push(c),
            }
        } else {
            out.push(b[*p]);
        }
        *p += 1;
    }
    *p += 1;
    String::from_utf8(out).unwrap()
}

fn value(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut f = Vec::new();
            ws(b, p);
            if b[*p] == b'}' {
                *p += 1;
                return J::O(f);
            }
            loop {
                ws(b, p);
                let k = string(b, p);
                ws(b, p);
                assert!(b[*p] == b':');
                *p += 1;
                f.push((k, value(b, p)));
                ws(b, p);
                *p += 1;
                if b[*p - 1] == b'}' {
                    return J::O(f);
                }
            }
        }
        b'[' => {
            *p += 1;
            let mut a = Vec::new();
            ws(b, p);
            if b[*p] == b']' {
                *p += 1;
                return J::A(a);
            }
            loop {
                a.push(value(b, p));
                ws(b, p);
                *p += 1;
                if b[*p - 1] == b']' {
                    return J::A(a);
                }
            }
        }
        b'"' => J::S(string(b, p)),
        b't' => {
            *p += 4;
            J::B(true)
        }
        b'f' => {
            *p += 5;
            J::B(false)
        }
        _ => {
            let st = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) {
                *p += 1;
            }
            J::I(std::str::from_utf8(&b[st..*p]).unwrap().parse().unwrap())
        }
    }
}
