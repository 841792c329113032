//! Runs on a pseudo terminal: polls the real event source when told to and reports what it got.
use crate::interface::events::*;
use crate::json::*;
use std::io::{BufRead, Write};

fn code(c: KeyCode) -> String {
    match c {
        KeyCode::Char(c) => format!("Char {}", c as u32),
        KeyCode::F(n) => format!("F {n}"),
        c => format!("{c:?}"),
    }
}

/// commands on fd 3 (`poll` | `quit`), answers on fd 4; the terminal is stdin
pub fn child() {
    let cmds = std::io::BufReader::new(std::fs::File::open("/proc/self/fd/3").unwrap());
    let mut out = std::fs::OpenOptions::new().write(true).open("/proc/self/fd/4").unwrap();
    let mut ev = Events::new().unwrap();
    writeln!(out, "{}", Obj::new("ready").end()).unwrap();
    for l in cmds.lines() {
        let l = l.unwrap();
        if l == "quit" {
            break;
        }
        let mut got = vec![];
        // a poll ends at the first None
        while let Some(e) = ev.next() {
            got.push(match e {
                Event::Key { code: c, mods } => format!("{} {}", code(c), mods.bits()),
                Event::Resize => "Resize".to_string(),
            });
            if got.len() > 100_000 {
                break;
            }
        }
        let v: Vec<String> = got.iter().map(|x| quote(x)).collect();
        writeln!(out, "{}", Obj::new("poll").raw("got", &format!("[{}]", v.join(","))).end()).unwrap();
    }
    std::process::exit(0);
}
