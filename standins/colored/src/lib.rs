//! Stand-in for colored 2.0 (not available offline): the same escape sequences.
use std::fmt;
pub mod control {
    use std::sync::atomic::{AtomicU8, Ordering};
    static OVER: AtomicU8 = AtomicU8::new(0);
    pub fn set_override(on: bool) {
        OVER.store(1 + on as u8, Ordering::Relaxed)
    }
    pub fn unset_override() {
        OVER.store(0, Ordering::Relaxed)
    }
    pub(crate) fn on() -> bool {
        match OVER.load(Ordering::Relaxed) {
            1 => false,
            2 => true,
            _ => std::env::var_os("CLICOLOR_FORCE").map_or(false, |x| x != "0"),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Color {
    Black, Red, Green, Yellow, Blue, Magenta, Cyan, White,
    BrightBlack, BrightRed, BrightGreen, BrightYellow, BrightBlue, BrightMagenta, BrightCyan, BrightWhite,
}
impl Color {
    fn n(self) -> u8 {
        let n = self as u8;
        if n < 8 { 30 + n } else { 82 + n }
    }
}
/// bold 1, dimmed 2, italic 3, underline 4, blink 5, reversed 7, hidden 8, strikethrough 9
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct ColoredString {
    s: String,
    fg: Option<Color>,
    bg: Option<Color>,
    sty: Vec<u8>,
}
impl std::ops::Deref for ColoredString {
    type Target = str;
    fn deref(&self) -> &str {
        &self.s
    }
}
impl From<&str> for ColoredString {
    fn from(s: &str) -> Self {
        ColoredString { s: s.into(), ..Default::default() }
    }
}
impl From<String> for ColoredString {
    fn from(s: String) -> Self {
        ColoredString { s, ..Default::default() }
    }
}
impl fmt::Display for ColoredString {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let plain = self.fg.is_none() && self.bg.is_none() && self.sty.is_empty();
        if plain || !control::on() {
            return f.pad(&self.s);
        }
        let mut codes: Vec<String> = self.sty.iter().map(|x| x.to_string()).collect();
        if let Some(c) = self.bg {
            codes.push((c.n() + 10).to_string());
        }
        if let Some(c) = self.fg {
            codes.push(c.n().to_string());
        }
        write!(f, "\x1b[{}m", codes.join(";"))?;
        f.pad(&self.s.replace("\x1b[0m", &format!("\x1b[0m\x1b[{}m", codes.join(";"))))?;
        write!(f, "\x1b[0m")
    }
}
macro_rules! each {
    (fg: $($f:ident $c:ident),*; bg: $($g:ident $d:ident),*; sty: $($h:ident $n:literal),*) => {
        pub trait Colorize: Sized {
            #[doc(hidden)]
            fn cs(self) -> ColoredString;
            fn normal(self) -> ColoredString {
                ColoredString { s: self.cs().s, ..Default::default() }
            }
            fn clear(self) -> ColoredString { self.normal() }
            fn color(self, c: Color) -> ColoredString { ColoredString { fg: Some(c), ..self.cs() } }
            $(fn $f(self) -> ColoredString { ColoredString { fg: Some(Color::$c), ..self.cs() } })*
            $(fn $g(self) -> ColoredString { ColoredString { bg: Some(Color::$d), ..self.cs() } })*
            $(fn $h(self) -> ColoredString { let mut x = self.cs(); x.sty.push($n); x.sty.sort(); x })*
        }
    };
}
each! {
    fg: black Black, red Red, green Green, yellow Yellow, blue Blue, magenta Magenta, purple Magenta, cyan Cyan, white White,
        bright_black BrightBlack, bright_red BrightRed, bright_green BrightGreen, bright_yellow BrightYellow,
        bright_blue BrightBlue, bright_magenta BrightMagenta, bright_purple BrightMagenta, bright_cyan BrightCyan,
        bright_white BrightWhite;
    bg: on_black Black, on_red Red, on_green Green, on_yellow Yellow, on_blue Blue, on_magenta Magenta, on_purple Magenta,
        on_cyan Cyan, on_white White, on_bright_black BrightBlack, on_bright_red BrightRed, on_bright_green BrightGreen,
        on_bright_yellow BrightYellow, on_bright_blue BrightBlue, on_bright_magenta BrightMagenta,
        on_bright_purple BrightMagenta, on_bright_cyan BrightCyan, on_bright_white BrightWhite;
    sty: bold 1, dimmed 2, italic 3, underline 4, blink 5, reversed 7, hidden 8, strikethrough 9
}
impl Colorize for ColoredString {
    fn cs(self) -> ColoredString { self }
}
impl<'a> Colorize for &'a str {
    fn cs(self) -> ColoredString { self.into() }
}
