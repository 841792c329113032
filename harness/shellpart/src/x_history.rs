use crate::interface::history::History;
use crate::json::*;
use std::io::Write;

/// `new` | `add n` | `back` | `fwd`; lines are the decimal texts of the numbers
pub fn run(script: &str, out: &mut impl Write) {
    let mut h = History::new();
    for line in script.lines() {
        let mut t = line.split_whitespace();
        let op = t.next().unwrap();
        let arg: usize = t.next().map(|x| x.parse().unwrap()).unwrap_or(0);
        let ok = caught(|| match op {
            "new" => h = History::new(),
            "add" => h.add(arg.to_string()),
            "back" => h.back(),
            "fwd" => h.fwd(),
            _ => unreachable!(),
        })
        .is_some();
        let cur = caught(|| h.current().map(|x| x.to_string()));
        let ok = ok && cur.is_some();
        // 0: nothing offered; anything that is not one of the lines given is -1
        let cur = match cur.flatten() {
            None => 0,
            Some(x) => x.parse::<i64>().unwrap_or(-1),
        };
        let o = Obj::new(op)
            .int("arg", arg)
            .bool("ok", ok)
            .raw("cur", &cur.to_string());
        writeln!(out, "{}", o.end()).unwrap();
        if !ok {
            h = History::new();
        }
    }
}
