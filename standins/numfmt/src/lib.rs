//! Stand-in for the numfmt crate.
use std::str::FromStr;
#[derive(Debug, Clone, Default)]
pub struct Formatter {
    dec: Option<usize>,
    suffix: String,
    percent: bool,
    prefix: String,
    sep: Option<char>,
    scale: bool,
    buf: String,
}
impl Formatter {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn fmt(&mut self, n: f64) -> &str {
        let n = if self.percent { n * 100.0 } else { n };
        let mut unit = "";
        let mut n = n;
        if self.scale {
            for (d, u) in [(1e12, " T"), (1e9, " B"), (1e6, " M"), (1e3, " K")] {
                if n.is_finite() && n.abs() >= d {
                    (n, unit) = (n / d, u);
                    break;
                }
            }
        }
        let mut s = if n == 0.0 && self.dec.is_none() {
            "0".to_string()
        } else if let Some(d) = self.dec {
            format!("{n:.d$}")
        } else if n.is_finite() && n.fract() == 0.0 {
            format!("{n:.1}")
        } else {
            format!("{n}")
        };
        if s == "inf" {
            s = "∞".into()
        } else if s == "-inf" {
            s = "-∞".into()
        }
        if let Some(c) = self.sep {
            let (i, f) = s.split_at(s.find('.').unwrap_or(s.len()));
            let (sign, digits) = i.split_at(usize::from(i.starts_with('-')));
            let mut o = String::new();
            for (k, d) in digits.chars().enumerate() {
                if k > 0 && (digits.len() - k) % 3 == 0 {
                    o.push(c);
                }
                o.push(d);
            }
            s = format!("{sign}{o}{f}");
        }
        self.buf = format!("{}{s}{unit}{}{}", self.prefix, if self.percent { "%" } else { "" }, self.suffix);
        &self.buf
    }
}
/// `prefix[.N%,]suffix`
impl FromStr for Formatter {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        let mut f = Formatter { scale: true, sep: Some(','), ..Formatter::new() };
        let Some(a) = s.find('[') else {
            f.suffix = s.into();
            return Ok(f);
        };
        if let Some(i) = s[a..].find(' ') {
            if s[a..].find(']').map_or(true, |j| i < j) {
                return Err("unexpected character. expected a ., ~, %, s, m, b, n, /, ] but found ' '".into());
            }
        }
        let Some(b) = s.find(']') else { return Err("could not find closing bracket".into()) };
        f.prefix = s[..a].into();
        f.suffix = s[b + 1..].into();
        let mut it = s[a + 1..b].chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '.' => {
                    let mut d = String::new();
                    while let Some(x) = it.next_if(|x| x.is_ascii_digit()) {
                        d.push(x);
                    }
                    if it.next_if_eq(&'*').is_none() {
                        f.dec = Some(d.parse().map_err(|_| "invalid precision".to_string())?);
                    }
                }
                '%' => {
                    f.percent = true;
                    f.scale = false
                }
                ',' => f.sep = Some(','),
                'n' => f.scale = false,
                c => return Err(format!("unexpected '{c}'")),
            }
        }
        Ok(f)
    }
}
