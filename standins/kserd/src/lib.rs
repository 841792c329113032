//! Stand-in for the kserd crate: numbers and the little of the data format that ogma prints.
use std::{borrow::Cow, cmp::Ordering, collections::BTreeMap, fmt, hash, str::FromStr};

#[derive(Debug, Clone, Copy)]
pub enum Number {
    Uint(u128),
    Int(i128),
    Float(f64),
}
use Number::*;
impl Number {
    pub fn as_f64(&self) -> f64 {
        match *self {
            Uint(x) => x as f64,
            Int(x) => x as f64,
            Float(x) => x,
        }
    }
    /// The number if it is a whole one that is not negative.
    pub fn as_u128(&self) -> Result<u128, String> {
        match *self {
            Uint(x) => Ok(x),
            Int(x) if x >= 0 => Ok(x as u128),
            Float(x) if x >= 0.0 && x.fract() == 0.0 && x < 2f64.powi(128) => Ok(x as u128),
            x => Err(format!("{x} is not an unsigned integer")),
        }
    }
    pub fn as_i128(&self) -> Result<i128, String> {
        match *self {
            Uint(x) => i128::try_from(x).map_err(|e| e.to_string()),
            Int(x) => Ok(x),
            Float(x) if x.fract() == 0.0 && x.abs() < 2f64.powi(127) => Ok(x as i128),
            x => Err(format!("{x} is not an integer")),
        }
    }
}
impl PartialEq for Number {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Uint(a), Uint(b)) => a == b,
            (Int(a), Int(b)) => a == b,
            _ => {
                let (a, b) = (self.as_f64(), o.as_f64());
                a == b || a.is_nan() && b.is_nan()
            }
        }
    }
}
impl Eq for Number {}
impl PartialOrd for Number {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Number {
    fn cmp(&self, o: &Self) -> Ordering {
        match (self, o) {
            (Uint(a), Uint(b)) => a.cmp(b),
            (Int(a), Int(b)) => a.cmp(b),
            _ => {
                let (a, b) = (self.as_f64(), o.as_f64());
                a.partial_cmp(&b).unwrap_or_else(|| a.is_nan().cmp(&b.is_nan()))
            }
        }
    }
}
impl hash::Hash for Number {
    fn hash<H: hash::Hasher>(&self, h: &mut H) {
        (self.as_f64() + 0.0).to_bits().hash(h)
    }
}
impl fmt::Display for Number {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Uint(x) => x.fmt(f),
            Int(x) => x.fmt(f),
            Float(x) => x.fmt(f),
        }
    }
}
impl FromStr for Number {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        if let Ok(x) = s.parse() {
            return Ok(Uint(x));
        }
        if let Ok(x) = s.parse() {
            return Ok(Int(x));
        }
        s.parse().map(Float).map_err(|e: std::num::ParseFloatError| e.to_string())
    }
}
macro_rules! from {
    ($($v:ident: $($t:ty)*),*) => { $($(impl From<$t> for Number { fn from(x: $t) -> Self { $v(x as _) } })*)* };
}
from!(Uint: u8 u16 u32 u64 u128 usize, Int: i8 i16 i32 i64 i128 isize, Float: f32 f64);

#[derive(Debug, Clone, PartialEq)]
pub enum Value<'a> {
    Unit,
    Bool(bool),
    Num(Number),
    Str(Cow<'a, str>),
    Cntr(BTreeMap<Cow<'a, str>, Kserd<'a>>),
}
#[derive(Debug, Clone, PartialEq)]
pub struct Kserd<'a> {
    id: Option<String>,
    val: Value<'a>,
}
#[derive(Debug)]
pub struct ToKserdErr(String);
impl From<String> for ToKserdErr {
    fn from(s: String) -> Self {
        ToKserdErr(s)
    }
}
pub trait ToKserd<'a> {
    fn into_kserd(self) -> Result<Kserd<'a>, ToKserdErr>;
}
impl<'a> Kserd<'a> {
    pub fn new(val: Value<'a>) -> Self {
        Kserd { id: None, val }
    }
    pub fn new_unit() -> Self {
        Self::new(Value::Unit)
    }
    pub fn new_bool(b: bool) -> Self {
        Self::new(Value::Bool(b))
    }
    pub fn new_string(s: String) -> Self {
        Self::new(Value::Str(s.into()))
    }
    pub fn new_str(s: &'a str) -> Self {
        Self::new(Value::Str(s.into()))
    }
    pub fn with_id(id: String, val: Value<'a>) -> Result<Self, String> {
        let bad = |c: char| c.is_whitespace() || "()[]{},=:\"'".contains(c);
        if id.is_empty() || id.contains(bad) {
            return Err(format!("'{id}' is not an identity"));
        }
        Ok(Kserd { id: Some(id), val })
    }
    pub fn as_str(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, 0);
        s
    }
    fn write(&self, s: &mut String, ind: usize) {
        if let Some(id) = &self.id {
            s.push_str(id);
        }
        let named = self.id.is_some();
        match &self.val {
            Value::Unit => s.push_str("()"),
            Value::Bool(b) => s.push_str(&if named { format!("({b})") } else { b.to_string() }),
            Value::Num(n) => {
                let n = n.to_string();
                s.push_str(&if named { format!("({n})") } else { n })
            }
            Value::Str(x) => s.push_str(&format!("\"{x}\"")),
            Value::Cntr(m) => {
                let simple = m.len() <= 4
                    && m.values().all(|v| !matches!(&v.val, Value::Cntr(_)));
                if simple {
                    s.push_str(if named { " (" } else { "(" });
                    for (i, (k, v)) in m.iter().enumerate() {
                        s.push_str(if i > 0 { ", " } else { "" });
                        s.push_str(&format!("{k} = "));
                        v.write(s, ind);
                    }
                    s.push(')');
                } else {
                    s.push_str(if named { " (\n" } else { "(\n" });
                    for (k, v) in m {
                        s.push_str(&" ".repeat(ind + 4));
                        s.push_str(&format!("{k} = "));
                        v.write(s, ind + 4);
                        s.push('\n');
                    }
                    s.push_str(&" ".repeat(ind));
                    s.push(')');
                }
            }
        }
    }
}
impl PartialEq<i32> for Number {
    fn eq(&self, o: &i32) -> bool {
        *self == Number::from(*o)
    }
}
