//! Stand-in for the comfy-table crate: the one style ogma uses.
use std::fmt;
pub enum TableComponent {
    HorizontalLines,
    MiddleIntersections,
    LeftBorderIntersections,
    RightBorderIntersections,
}
pub mod presets {
    pub const UTF8_FULL: &str = "";
}
#[derive(Default)]
pub struct Table {
    header: Option<Vec<String>>,
    rows: Vec<Vec<String>>,
}
impl Table {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_header<I>(&mut self, r: I) -> &mut Self
    where
        I: IntoIterator,
        I::Item: ToString,
    {
        self.header = Some(r.into_iter().map(|x| x.to_string()).collect());
        self
    }
    pub fn add_row<I>(&mut self, r: I) -> &mut Self
    where
        I: IntoIterator,
        I::Item: ToString,
    {
        self.rows.push(r.into_iter().map(|x| x.to_string()).collect());
        self
    }
    pub fn load_preset(&mut self, _: &str) -> &mut Self {
        self
    }
    pub fn remove_style(&mut self, _: TableComponent) -> &mut Self {
        self
    }
}
impl fmt::Display for Table {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let w = |s: &str| s.lines().map(unicode_width::UnicodeWidthStr::width).max().unwrap_or(0);
        let all = || self.header.iter().chain(&self.rows);
        let n = all().map(|r| r.len()).max().unwrap_or(0);
        let widths: Vec<usize> = (0..n).map(|i| all().filter_map(|r| r.get(i)).map(|s| w(s)).max().unwrap_or(0)).collect();
        let rule = |l: &str, m: &str, c: &str, r: &str| {
            format!("{l}{}{r}", widths.iter().map(|w| m.repeat(w + 2)).collect::<Vec<_>>().join(c))
        };
        let mut out = vec![rule("┌", "─", "┬", "┐")];
        let mut row = |r: &Vec<String>, out: &mut Vec<String>| {
            let h = r.iter().map(|s| s.lines().count().max(1)).max().unwrap_or(1);
            for k in 0..h {
                let cells: Vec<String> = (0..n)
                    .map(|i| {
                        let s = r.get(i).and_then(|s| s.lines().nth(k)).unwrap_or("");
                        format!(" {s}{} ", " ".repeat(widths[i] - w(s)))
                    })
                    .collect();
                out.push(format!("│{}│", cells.join("┆")));
            }
        };
        if let Some(h) = &self.header {
            row(h, &mut out);
            out.push(rule("╞", "═", "╪", "╡"));
        }
        for r in &self.rows {
            row(r, &mut out);
        }
        out.push(rule("└", "─", "┴", "┘"));
        f.write_str(&out.join("\n"))
    }
}
