//! Stand-in for cansi 2.2 (not available offline): `cansi::v3`.
pub mod v3 {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Color {
        Black, Red, Green, Yellow, Blue, Magenta, Cyan, White,
        BrightBlack, BrightRed, BrightGreen, BrightYellow, BrightBlue, BrightMagenta, BrightCyan, BrightWhite,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Intensity { Normal, Bold, Faint }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct CategorisedSlice<'t> {
        pub text: &'t str,
        pub start: usize,
        pub end: usize,
        pub fg: Option<Color>,
        pub bg: Option<Color>,
        pub intensity: Option<Intensity>,
        pub italic: Option<bool>,
        pub underline: Option<bool>,
        pub blink: Option<bool>,
        pub reversed: Option<bool>,
        pub hidden: Option<bool>,
        pub strikethrough: Option<bool>,
    }
    const COLS: [Color; 16] = [
        Color::Black, Color::Red, Color::Green, Color::Yellow, Color::Blue, Color::Magenta, Color::Cyan, Color::White,
        Color::BrightBlack, Color::BrightRed, Color::BrightGreen, Color::BrightYellow, Color::BrightBlue,
        Color::BrightMagenta, Color::BrightCyan, Color::BrightWhite,
    ];
    /// The text cut at escape sequences (`ESC [ n;n m`, which are left out) with the style in force.
    pub fn categorise_text(text: &str) -> Vec<CategorisedSlice<'_>> {
        let blank = |start| CategorisedSlice {
            text: "", start, end: start, fg: None, bg: None, intensity: None, italic: None, underline: None,
            blink: None, reversed: None, hidden: None, strikethrough: None,
        };
        let mut out: Vec<CategorisedSlice> = vec![];
        let mut sty = blank(0);
        let mut lo = 0;
        let b = text.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i] == 0x1b && b.get(i + 1) == Some(&b'[') {
                // parameters, then a final byte 0x40..=0x7e
                let mut j = i + 2;
                while j < b.len() && !(0x40..=0x7e).contains(&b[j]) && b[j] < 0x80 { j += 1 }
                if j < b.len() && (0x40..=0x7e).contains(&b[j]) {
                    if lo < i {
                        out.push(CategorisedSlice { text: &text[lo..i], start: lo, end: i, ..sty });
                    }
                    if b[j] == b'm' {
                        for p in text[i + 2..j].split(';') {
                            match p.parse::<u8>().unwrap_or(0) {
                                0 => sty = blank(0),
                                1 => sty.intensity = Some(Intensity::Bold),
                                2 => sty.intensity = Some(Intensity::Faint),
                                3 => sty.italic = Some(true),
                                4 => sty.underline = Some(true),
                                5 => sty.blink = Some(true),
                                7 => sty.reversed = Some(true),
                                8 => sty.hidden = Some(true),
                                9 => sty.strikethrough = Some(true),
                                22 => sty.intensity = Some(Intensity::Normal),
                                23 => sty.italic = Some(false),
                                24 => sty.underline = Some(false),
                                25 => sty.blink = Some(false),
                                27 => sty.reversed = Some(false),
                                28 => sty.hidden = Some(false),
                                29 => sty.strikethrough = Some(false),
                                n @ 30..=37 => sty.fg = Some(COLS[n as usize - 30]),
                                39 => sty.fg = None,
                                n @ 40..=47 => sty.bg = Some(COLS[n as usize - 40]),
                                49 => sty.bg = None,
                                n @ 90..=97 => sty.fg = Some(COLS[n as usize - 82]),
                                n @ 100..=107 => sty.bg = Some(COLS[n as usize - 92]),
                                _ => (),
                            }
                        }
                    }
                    i = j + 1;
                    lo = i;
                    continue;
                }
            }
            i += 1;
        }
        if lo < b.len() {
            out.push(CategorisedSlice { text: &text[lo..], start: lo, end: b.len(), ..sty });
        }
        out
    }
    /// The slices cut into lines at `\n` (an optional `\r` before it goes too); no empty last line.
    pub fn line_iter<'t, 's>(slices: &'s [CategorisedSlice<'t>]) -> std::vec::IntoIter<Vec<CategorisedSlice<'t>>> {
        let mut lines = vec![];
        let mut cur: Vec<CategorisedSlice> = vec![];
        let mut open = false;
        for s in slices {
            let mut lo = 0;
            loop {
                match s.text[lo..].find('\n') {
                    Some(k) => {
                        let mut hi = lo + k;
                        if hi > lo && s.text.as_bytes()[hi - 1] == b'\r' { hi -= 1 }
                        cur.push(CategorisedSlice { text: &s.text[lo..hi], start: s.start + lo, end: s.start + hi, ..*s });
                        lines.push(std::mem::take(&mut cur));
                        lo += k + 1;
                        open = false;
                    }
                    None => break,
                }
            }
            if lo < s.text.len() {
                cur.push(CategorisedSlice { text: &s.text[lo..], start: s.start + lo, end: s.end, ..*s });
                open = true;
            }
        }
        if open || !cur.is_empty() {
            lines.push(cur);
        }
        lines.into_iter()
    }
}
