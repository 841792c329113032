use crate::interface::theme::Theme;
use crate::json::*;
use std::io::Write;
use tui::style::*;

fn colour(s: &str) -> Option<Color> {
    use Color::*;
    Some(match s {
        "None" => return None,
        "Reset" => Reset,
        "Black" => Black,
        "Red" => Red,
        "Green" => Green,
        "Yellow" => Yellow,
        "Blue" => Blue,
        "Magenta" => Magenta,
        "Cyan" => Cyan,
        "Gray" => Gray,
        "DarkGray" => DarkGray,
        "LightRed" => LightRed,
        "LightGreen" => LightGreen,
        "LightYellow" => LightYellow,
        "LightBlue" => LightBlue,
        "LightMagenta" => LightMagenta,
        "LightCyan" => LightCyan,
        "White" => White,
        x => {
            let n: Vec<u8> = x[1..].split('.').map(|x| x.parse().unwrap()).collect();
            match n.len() {
                1 => Indexed(n[0]),
                _ => Rgb(n[0], n[1], n[2]),
            }
        }
    })
}

fn name(c: Option<Color>) -> String {
    match c {
        None => "None".into(),
        Some(Color::Rgb(r, g, b)) => format!("#{r}.{g}.{b}"),
        Some(Color::Indexed(i)) => format!("@{i}"),
        Some(c) => format!("{c:?}"),
    }
}

/// `theme fg bg add sub`
pub fn run(script: &str, out: &mut impl Write) {
    for line in script.lines() {
        let t: Vec<&str> = line.split_whitespace().collect();
        let th: u8 = t[0].parse().unwrap();
        let (add, sub): (u16, u16) = (t[3].parse().unwrap(), t[4].parse().unwrap());
        let style = Style {
            fg: colour(t[1]),
            bg: colour(t[2]),
            add_modifier: Modifier::from_bits_truncate(add),
            sub_modifier: Modifier::from_bits_truncate(sub),
        };
        let (add, sub) = (style.add_modifier.bits(), style.sub_modifier.bits());
        let r = caught(|| style.theme(th));
        let ok = r.is_some();
        let r = r.unwrap_or_default();
        let o = Obj::new("theme")
            .int("t", th as usize)
            .str("fg", &name(style.fg))
            .str("bg", &name(style.bg))
            .int("add", add as usize)
            .int("sub", sub as usize)
            .bool("ok", ok)
            .str("ofg", &name(r.fg))
            .str("obg", &name(r.bg))
            .int("oadd", r.add_modifier.bits() as usize)
            .int("osub", r.sub_modifier.bits() as usize);
        writeln!(out, "{}", o.end()).unwrap();
    }
}
