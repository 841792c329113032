//! One completion list at a time: requests, answers arriving when the script says so, selection and
//! replacement in the input line the way the shell does it.
use crate::interface::completions::*;
use crate::interface::input::*;
use crate::json::*;
use crossbeam::channel::*;
use std::io::Write;
use std::time::{Duration, Instant};

struct Call {
    src: usize,
    input: String,
    cursor: usize,
    word: usize,
}

struct Gated {
    src: usize,
    calls: Sender<Call>,
    go: Receiver<Vec<String>>,
}

impl Completer for Gated {
    fn complete(&self, input: &str, cursor_pos: usize, word_pos: usize) -> Vec<Completion> {
        self.calls
            .send(Call {
                src: self.src,
                input: input.to_string(),
                cursor: cursor_pos,
                word: word_pos,
            })
            .ok();
        let v = self.go.recv().unwrap_or_default();
        v.into_iter()
            .map(|value| Completion {
                value,
                ty: CompletionType::Path,
            })
            .collect()
    }
}

const PATIENCE: Duration = Duration::from_secs(20);

struct St {
    cm: Completions,
    calls: Receiver<Call>,
    go: Vec<Sender<Vec<String>>>,
    line: InputBuffer,
}

fn fresh() -> St {
    let (tx, calls) = unbounded();
    let mut go = vec![];
    let mut cs: Vec<Box<dyn Completer>> = vec![];
    for src in 0..2 {
        let (g, rx) = unbounded();
        go.push(g);
        cs.push(Box::new(Gated {
            src,
            calls: tx.clone(),
            go: rx,
        }));
    }
    St {
        cm: Completions::new(cs),
        calls,
        go,
        line: InputBuffer::new(),
    }
}

fn lists(v: &[Completion]) -> String {
    let v: Vec<String> = v.iter().map(|c| cps(&c.value)).collect();
    format!("[{}]", v.join(","))
}

/// Script: `new` | `line TEXT CURSOR` | `req` | `ans SRC N TEXT..` | `next` | `prev` | `reset`
/// `line` writes the line and moves the cursor; `req` requests and collects the two calls;
/// `ans` lets a source answer and waits for its items; next/prev replace as the shell does.
pub fn run(script: &str, out: &mut impl Write) {
    let mut st = fresh();
    for l in script.lines() {
        let t: Vec<&str> = l.split_whitespace().collect();
        let mut o = Obj::new(t[0]);
        let mut arg = String::from("[]");
        let (mut len, mut with, mut c, mut w) = (0usize, String::new(), 0usize, 0usize);
        let mut calls = vec![];
        let mut want = 0usize;
        let ok = caught(|| match t[0] {
            "new" => st = fresh(),
            "line" => {
                arg = format!("[{},{}]", cps(&text(t[1])), t[2]);
                st.line.clear();
                st.line.insert_str(&text(t[1]));
                st.line.move_start();
                st.line.move_right(Mvmt::Ch(num(t[2])));
            }
            "req" => {
                st.cm.request(&st.line);
                for _ in 0..2 {
                    if let Ok(c) = st.calls.recv_timeout(PATIENCE) {
                        calls.push(c);
                    }
                }
                calls.sort_by_key(|c| c.src);
            }
            "ans" => {
                let items: Vec<String> = t[3..].iter().map(|x| text(x)).collect();
                arg = format!(
                    "[{}]",
                    items.iter().map(|x| cps(x)).collect::<Vec<_>>().join(",")
                );
                let before = st.cm.items().len();
                want = items.len().min(10);
                st.go[num(t[1])].send(items).ok();
                let t0 = Instant::now();
                while want > 0 && st.cm.items().len() == before && t0.elapsed() < PATIENCE {
                    st.cm.recv();
                    std::thread::yield_now();
                }
            }
            // the shell only walks while there are suggestions
            "next" | "prev" if !st.cm.has() => (),
            "next" | "prev" => {
                let start = st.cm.word_pos();
                let (n, s) = if t[0] == "next" {
                    st.cm.highlight_next()
                } else {
                    st.cm.highlight_prev()
                };
                len = n;
                with = s.to_string();
                st.line.move_start();
                st.line.move_right(Mvmt::Ch(start));
                for _ in 0..n {
                    st.line.delete();
                }
                st.line.insert_str(&with);
            }
            "reset" => st.cm.reset(),
            _ => unreachable!(),
        })
        .is_some();
        let calls: Vec<String> = calls
            .iter()
            .map(|c| {
                Obj::new("call")
                    .int("src", c.src)
                    .cps("input", &c.input)
                    .int("cursor", c.cursor)
                    .int("word", c.word)
                    .end()
            })
            .collect();
        let _ = (&mut c, &mut w);
        o = o
            .raw("arg", &arg)
            .bool("ok", ok)
            .raw("calls", &format!("[{}]", calls.join(",")))
            .int("len", len)
            .cps("with", &with)
            .int("wpos", caught(|| st.cm.word_pos()).unwrap_or(0))
            .raw("items", &caught(|| lists(st.cm.items())).unwrap_or("[]".into()))
            .bool("has", caught(|| st.cm.has()).unwrap_or(false))
            .raw(
                "hl",
                &caught(|| st.cm.highlighted())
                    .flatten()
                    .map(|x| (x + 1).to_string())
                    .unwrap_or("0".into()),
            )
            .cps("line", &st.line.buffer(..))
            .int("pos", st.line.ch_pos());
        writeln!(out, "{}", o.end()).unwrap();
        if !ok {
            st = fresh();
        }
    }
}
