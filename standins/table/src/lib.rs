//! Stand-in for the table crate: a rectangle of entries, the first row being a header.
//!
//! Written from what ogma asks of it; every row is padded with nil to the widest.
use rayon::prelude::*;
use std::{cmp::Ordering, iter, slice};

pub use kserd::Number;

#[derive(Debug, Clone, PartialEq, PartialOrd)]
pub enum Entry<T> {
    Nil,
    Num(Number),
    Obj(T),
}
impl<T> Entry<T> {
    pub fn is_nil(&self) -> bool {
        matches!(self, Entry::Nil)
    }
    fn map<U>(self, f: impl Fn(T) -> U) -> Entry<U> {
        match self {
            Entry::Nil => Entry::Nil,
            Entry::Num(n) => Entry::Num(n),
            Entry::Obj(x) => Entry::Obj(f(x)),
        }
    }
}
impl<T> Default for Entry<T> {
    fn default() -> Self {
        Entry::Nil
    }
}

pub type DataTable<T> = Table<T>;

#[derive(Debug, Clone, PartialEq)]
pub struct Table<T> {
    pub header: bool,
    rows: Vec<Vec<Entry<T>>>,
    cols: usize,
}
impl<T> Default for Table<T> {
    fn default() -> Self {
        Table { header: true, rows: Vec::new(), cols: 0 }
    }
}
impl<T> From<Vec<Vec<Entry<T>>>> for Table<T> {
    fn from(rows: Vec<Vec<Entry<T>>>) -> Self {
        let mut t = Table { rows, ..Self::default() };
        t.pad();
        t
    }
}
pub type Row<'a, T> = slice::Iter<'a, Entry<T>>;
pub type RowMut<'a, T> = slice::IterMut<'a, Entry<T>>;

#[derive(Debug)]
pub struct Col<'a, T> {
    rows: slice::Iter<'a, Vec<Entry<T>>>,
    col: usize,
}
impl<'a, T> Iterator for Col<'a, T> {
    type Item = &'a Entry<T>;
    fn next(&mut self) -> Option<Self::Item> {
        self.rows.next().map(|r| &r[self.col])
    }
}

impl<T> Table<T> {
    pub fn new() -> Self {
        Self::default()
    }
    fn pad(&mut self) {
        self.cols = self.rows.iter().map(Vec::len).max().unwrap_or(0);
        let c = self.cols;
        self.rows.iter_mut().for_each(|r| r.resize_with(c, Entry::default));
    }
    pub fn rows_len(&self) -> usize {
        self.rows.len()
    }
    pub fn cols_len(&self) -> usize {
        self.cols
    }
    pub fn is_empty(&self) -> bool {
        self.rows.is_empty() || self.cols == 0
    }
    pub fn row(&self, idx: usize) -> Option<Row<T>> {
        self.rows.get(idx).map(|r| r.iter())
    }
    pub fn row_mut(&mut self, idx: usize) -> Option<RowMut<T>> {
        self.rows.get_mut(idx).map(|r| r.iter_mut())
    }
    pub fn rows(&self) -> impl Iterator<Item = Row<'_, T>> + '_ {
        self.rows.iter().map(|r| r.iter())
    }
    pub fn col(&self, col: usize) -> Option<Col<T>> {
        (col < self.cols).then(|| Col { rows: self.rows.iter(), col })
    }
    pub fn col_mut(&mut self, col: usize) -> Option<impl Iterator<Item = &mut Entry<T>>> {
        (col < self.cols).then(|| self.rows.iter_mut().map(move |r| &mut r[col]))
    }
    pub fn cols(&self) -> impl Iterator<Item = Col<'_, T>> + '_ {
        (0..self.cols).map(|col| Col { rows: self.rows.iter(), col })
    }
    pub fn add_row<R, E>(&mut self, row: R)
    where
        R: Iterator<Item = E>,
        E: Into<Entry<T>>,
    {
        self.add_rows(iter::once(row))
    }
    pub fn add_rows<I, R, E>(&mut self, rows: I)
    where
        I: Iterator<Item = R>,
        R: Iterator<Item = E>,
        E: Into<Entry<T>>,
    {
        self.rows.extend(rows.map(|r| r.map(Into::into).collect::<Vec<_>>()));
        self.pad();
    }
    pub fn add_col<C, E>(&mut self, col: C)
    where
        C: Iterator<Item = E>,
        E: Into<Entry<T>>,
    {
        self.add_cols(iter::once(col))
    }
    pub fn add_cols<I, C, E>(&mut self, cols: I)
    where
        I: Iterator<Item = C>,
        C: Iterator<Item = E>,
        E: Into<Entry<T>>,
    {
        for col in cols {
            let at = self.cols;
            for (i, e) in col.enumerate() {
                if i == self.rows.len() {
                    self.rows.push(Vec::new());
                }
                self.rows[i].resize_with(at, Entry::default);
                self.rows[i].push(e.into());
            }
            self.cols = at + 1;
            self.rows.iter_mut().for_each(|r| r.resize_with(at + 1, Entry::default));
        }
    }
    pub fn insert_row<R, E>(&mut self, idx: usize, row: R)
    where
        R: Iterator<Item = E>,
        E: Into<Entry<T>>,
    {
        self.rows.insert(idx, row.map(Into::into).collect());
        self.pad();
    }
    pub fn remove_row(&mut self, idx: usize) {
        self.rows.remove(idx);
        if self.rows.is_empty() {
            self.cols = 0;
        }
    }
    pub fn retain_rows(&mut self, mut keep: impl FnMut(usize, &[Entry<T>]) -> bool) {
        let mut i = 0;
        self.rows.retain(|r| {
            i += 1;
            keep(i - 1, r)
        });
    }
    pub fn reverse_rows(&mut self) {
        let at = (self.header as usize).min(self.rows.len());
        self.rows[at..].reverse();
    }
    pub fn sort(&mut self, col: usize, cmp: impl Fn(&Entry<T>, &Entry<T>) -> Ordering) {
        let at = (self.header as usize).min(self.rows.len());
        self.rows[at..].sort_by(|a, b| cmp(&a[col], &b[col]));
    }
    pub fn into_raw(self) -> Vec<Vec<Entry<T>>> {
        self.rows
    }
    pub fn map_obj<U>(self, f: impl Fn(T) -> U) -> Table<U> {
        let Table { header, rows, cols } = self;
        let rows = rows.into_iter().map(|r| r.into_iter().map(|e| e.map(&f)).collect()).collect();
        Table { header, rows, cols }
    }
}
impl<T: Send> Table<T> {
    pub fn remove_col_par(&mut self, col: usize) {
        if col < self.cols {
            self.cols -= 1;
            self.rows.par_iter_mut().for_each(|r| drop(r.remove(col)));
            if self.cols == 0 {
                self.rows.clear();
            }
        }
    }
    pub fn reverse_cols_par(&mut self) {
        self.rows.par_iter_mut().for_each(|r| r.reverse());
    }
}
impl<T: Clone> Table<T> {
    pub fn clone_with_col_capacity(&self, _cols: usize) -> Self {
        self.clone()
    }
}

/// Delimited values: fields in double quotes may hold the delimiter, line breaks and, doubled or
/// after a backslash, quotes.
pub fn parse_dsv(sep: char, s: &str) -> Table<String> {
    let mut rows = Vec::new();
    let mut row = Vec::new();
    let mut field = String::new();
    let (mut quoted, mut was_quoted) = (false, false);
    let mut chars = s.chars().peekable();
    fn end(row: &mut Vec<Entry<String>>, field: &mut String, was_quoted: &mut bool) {
        let f = std::mem::take(field);
        row.push(match f.parse() {
            _ if *was_quoted => Entry::Obj(f),
            _ if f.is_empty() => Entry::Nil,
            Ok(n) => Entry::Num(n),
            Err(_) => Entry::Obj(f),
        });
        *was_quoted = false;
    }
    let mut open = false;
    while let Some(c) = chars.next() {
        open = true;
        match c {
            '"' if quoted && chars.peek() == Some(&'"') => field.extend(chars.next()),
            '"' if quoted => quoted = false,
            '"' if field.is_empty() && !was_quoted => {
                quoted = true;
                was_quoted = true;
            }
            c if quoted => field.push(c),
            c if c == sep => end(&mut row, &mut field, &mut was_quoted),
            '\r' if chars.peek() == Some(&'\n') => (),
            '\n' => {
                end(&mut row, &mut field, &mut was_quoted);
                rows.push(std::mem::take(&mut row));
                open = false;
            }
            c => field.push(c),
        }
    }
    if open {
        end(&mut row, &mut field, &mut was_quoted);
        rows.push(row);
    }
    Table::from(rows)
}
