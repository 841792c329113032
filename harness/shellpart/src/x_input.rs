use crate::interface::input::{InputBuffer, Mvmt};
use crate::json::*;
use std::io::Write;

pub fn apply(b: &mut InputBuffer, op: &str, arg: &str) {
    match op {
        "ins" => text(arg).chars().for_each(|c| b.insert(c)),
        "str" => b.insert_str(&text(arg)),
        "bs" => b.backspace(),
        "del" => b.delete(),
        "clear" => b.clear(),
        "ms" => b.move_start(),
        "ml" => b.move_left(Mvmt::Ch(num(arg))),
        "mr" => b.move_right(Mvmt::Ch(num(arg))),
        "wl" => b.move_left(Mvmt::Word),
        "wr" => b.move_right(Mvmt::Word),
        "rc" => b.reset_buf_changed(),
        _ => unreachable!("{op}"),
    }
}

/// one step per line: `op [arg]`; every step is answered with the full observable state
pub fn run(script: &str, out: &mut impl Write) {
    let mut b = InputBuffer::new();
    for line in script.lines() {
        let mut t = line.split_whitespace();
        let op = t.next().unwrap();
        let arg = t.next().unwrap_or("-");
        let mut o = Obj::new(op);
        o = match op {
            "ins" | "str" => o.cps("arg", &text(arg)),
            "ml" | "mr" => o.raw("arg", &format!("[{}]", num(arg).min(i32::MAX as usize))),
            _ => o.raw("arg", "[]"),
        };
        let ok = caught(|| {
            if op == "new" {
                b = InputBuffer::new();
            } else {
                apply(&mut b, op, arg);
            }
        })
        .is_some();
        // the state as every accessor reports it
        let obs = caught(|| {
            let p = b.ch_pos();
            (
                b.buffer(..),
                p,
                b.buf_pos(),
                b.buffer_changed(),
                b.buffer(..p),
                b.chars(..).iter().collect::<String>(),
                b.chars(p..).iter().collect::<String>(),
            )
        });
        let ok = ok && obs.is_some();
        let (buf, pos, bpos, chg, pre, chars, post) = obs.unwrap_or_default();
        let o = o
            .bool("ok", ok)
            .cps("buf", &buf)
            .int("pos", pos)
            .int("bpos", bpos)
            .bool("chg", chg)
            .cps("pre", &pre)
            .cps("chars", &chars)
            .cps("post", &post);
        writeln!(out, "{}", o.end()).unwrap();
        if !ok {
            b = InputBuffer::new();
        }
    }
}
