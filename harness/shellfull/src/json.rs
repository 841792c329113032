//! Just enough JSON output.
use std::fmt::Write;

pub struct Obj(String);

impl Obj {
    pub fn new(op: &str) -> Self {
        let mut o = Obj(String::from("{"));
        o = o.str("op", op);
        o
    }
    fn key(&mut self, k: &str) {
        if self.0.len() > 1 {
            self.0.push(',');
        }
        write!(self.0, "\"{k}\":").unwrap();
    }
    pub fn raw(mut self, k: &str, v: &str) -> Self {
        self.key(k);
        self.0.push_str(v);
        self
    }
    pub fn str(mut self, k: &str, v: &str) -> Self {
        self.key(k);
        self.0.push_str(&quote(v));
        self
    }
    pub fn int(self, k: &str, v: usize) -> Self {
        // TLC integers have 32 bits
        let v = v.min(i32::MAX as usize);
        self.raw(k, &v.to_string())
    }
    pub fn bool(self, k: &str, v: bool) -> Self {
        self.raw(k, if v { "true" } else { "false" })
    }
    /// text as an array of code points
    pub fn cps(self, k: &str, v: &str) -> Self {
        let s = cps(v);
        self.raw(k, &s)
    }
    pub fn end(mut self) -> String {
        self.0.push('}');
        self.0
    }
}

pub fn cps(v: &str) -> String {
    let v: Vec<String> = v.chars().map(|c| (c as u32).to_string()).collect();
    format!("[{}]", v.join(","))
}

pub fn quote(v: &str) -> String {
    let mut s = String::from("\"");
    for c in v.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    write!(s, "\\u{:04x}", u).unwrap();
                }
            }
            c => s.push(c),
        }
    }
    s.push('"');
    s
}

/// `97,98` -> "ab"; "-" is the empty text
pub fn text(tok: &str) -> String {
    if tok == "-" {
        return String::new();
    }
    tok.split(',')
        .map(|x| char::from_u32(x.parse().unwrap()).unwrap())
        .collect()
}

pub fn num(tok: &str) -> usize {
    if tok == "max" {
        usize::MAX
    } else {
        tok.parse().unwrap()
    }
}

pub fn caught<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
