//! Schedules: the completion engine under arbitrary interleavings. Every observable step is logged
//! under one lock, so the log order is the order in which the steps happened.
use crate::interface::completions::*;
use crate::interface::input::*;
use crate::json::*;
use crossbeam::channel::*;
use std::collections::VecDeque;
use std::io::Write;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Default)]
struct Shared {
    log: Vec<String>,
    /// sources currently inside a call
    inside: Vec<bool>,
    /// permits: how many items the source may return with
    permits: Vec<VecDeque<usize>>,
    /// when Some(n): every call returns at once with n items
    auto: Vec<Option<usize>>,
    last: Vec<String>,
    returned: Vec<usize>,
}

#[derive(Clone)]
struct Ctl(Arc<(Mutex<Shared>, Condvar)>);

struct Src {
    ix: usize,
    ctl: Ctl,
}

/// the number of the request is written in the line itself
fn reqno(input: &str) -> usize {
    input
        .split(|c: char| !c.is_ascii_digit())
        .find(|x| !x.is_empty())
        .and_then(|x| x.parse().ok())
        .unwrap_or(0)
}

impl Completer for Src {
    fn complete(&self, input: &str, cursor_pos: usize, word_pos: usize) -> Vec<Completion> {
        let (m, cv) = &*self.ctl.0;
        let mut g = m.lock().unwrap();
        let r = reqno(input);
        g.log.push(
            Obj::new("call")
                .int("src", self.ix + 1)
                .int("req", r)
                .cps("input", input)
                .int("cursor", cursor_pos)
                .int("word", word_pos)
                .end(),
        );
        g.inside[self.ix] = true;
        g.last[self.ix] = input.to_string();
        cv.notify_all();
        let n = loop {
            if let Some(n) = g.permits[self.ix].pop_front() {
                break n;
            }
            if let Some(n) = g.auto[self.ix] {
                break n;
            }
            g = cv.wait(g).unwrap();
        };
        g.inside[self.ix] = false;
        g.returned[self.ix] = r;
        g.log.push(
            Obj::new("ret")
                .int("src", self.ix + 1)
                .int("req", r)
                .int("n", n)
                .end(),
        );
        cv.notify_all();
        (0..n)
            .map(|k| Completion {
                value: format!("{r}:{}:{}", self.ix + 1, k + 1),
                ty: CompletionType::Method,
            })
            .collect()
    }
}

fn items(v: &[Completion]) -> String {
    let v: Vec<String> = v
        .iter()
        .map(|c| format!("[{}]", c.value.replace(':', ",")))
        .collect();
    format!("[{}]", v.join(","))
}

const PATIENCE: Duration = Duration::from_secs(20);

/// Script, one schedule after `new SRCS`:
/// `req TEXT CURSOR` | `reset` | `recv` | `permit SRC N` (as soon as the source is inside a call;
/// given up silently if it is not) | `await SRC` (a short while) | `nap MICROS` | `drain N..` (end of
/// the schedule: all sources answer at once, everything must come to rest)
pub fn run(script: &str, out: &mut impl Write) {
    let mut cm: Option<Completions> = None;
    let mut ctl: Option<Ctl> = None;
    let mut line = String::new();
    let mut reqs = 0usize;
    let mut live = false;
    let mut line_cur = String::new();
    let mut nsrc = 0;
    let mut line_no = 0;
    let flush = |ctl: &Option<Ctl>, out: &mut dyn Write| {
        if let Some(c) = ctl {
            for l in c.0 .0.lock().unwrap().log.drain(..) {
                writeln!(out, "{l}").unwrap();
            }
        }
    };
    for l in script.lines() {
        line_no += 1;
        let t: Vec<&str> = l.split_whitespace().collect();
        let log = |ctl: &Option<Ctl>, s: String| {
            ctl.as_ref().unwrap().0 .0.lock().unwrap().log.push(s);
        };
        // what the receiver side shows
        let shown = |o: Obj, cm: &Completions| {
            o.raw("items", &items(cm.items()))
                .bool("hasitems", cm.has())
                .int("hl", cm.highlighted().map(|x| x + 1).unwrap_or(0))
        };
        match t[0] {
            "new" => {
                flush(&ctl, out);
                nsrc = num(t[1]);
                let c = Ctl(Arc::new((
                    Mutex::new(Shared {
                        inside: vec![false; nsrc],
                        permits: vec![VecDeque::new(); nsrc],
                        auto: vec![None; nsrc],
                        last: vec![String::new(); nsrc],
                        returned: vec![0; nsrc],
                        ..Shared::default()
                    }),
                    Condvar::new(),
                )));
                let cs: Vec<Box<dyn Completer>> = (0..nsrc)
                    .map(|ix| Box::new(Src { ix, ctl: c.clone() }) as Box<dyn Completer>)
                    .collect();
                ctl = Some(c);
                reqs = 0;
                live = false;
                log(&ctl, Obj::new("new").int("srcs", nsrc).int("line", line_no).end());
                cm = Some(Completions::new(cs));
            }
            "req" => {
                let mut b = InputBuffer::new();
                b.insert_str(&text(t[1]));
                b.move_start();
                b.move_right(Mvmt::Ch(num(t[2])));
                reqs += 1;
                line = b.buffer(..);
                line_cur = line.clone();
                live = true;
                log(
                    &ctl,
                    Obj::new("req")
                        .int("req", reqno(&line))
                        .cps("input", &line)
                        .int("pos", b.ch_pos())
                        .end(),
                );
                let m = cm.as_mut().unwrap();
                let ok = caught(|| m.request(&b)).is_some();
                let o = shown(Obj::new("reqd"), m).bool("ok", ok).int("wpos", m.word_pos());
                log(&ctl, o.end());
            }
            "reset" => {
                let m = cm.as_mut().unwrap();
                m.reset();
                live = false;
                let o = shown(Obj::new("reset"), m);
                log(&ctl, o.end());
            }
            "recv" => {
                let m = cm.as_mut().unwrap();
                log(&ctl, Obj::new("recvb").end());
                let has = m.recv();
                let o = shown(Obj::new("recv").bool("has", has), m);
                log(&ctl, o.end());
            }
            "next" | "prev" => {
                let m = cm.as_mut().unwrap();
                if m.has() {
                    if t[0] == "next" {
                        m.highlight_next();
                    } else {
                        m.highlight_prev();
                    }
                    let o = shown(Obj::new(t[0]), m);
                    log(&ctl, o.end());
                }
            }
            "await" | "permit" => {
                let s = num(t[1]) - 1;
                let (m, cv) = &*ctl.as_ref().unwrap().0;
                let g = m.lock().unwrap();
                let (mut g, to) = cv
                    .wait_timeout_while(g, Duration::from_millis(2), |g| !g.inside[s])
                    .unwrap();
                if t[0] == "permit" && !to.timed_out() && g.permits[s].is_empty() {
                    g.permits[s].push_back(num(t[2]));
                    cv.notify_all();
                }
            }
            // this source gets all it was asked done and answers the latest request with N items,
            // whatever the others do
            "settle" => {
                let s = num(t[1]) - 1;
                let n = num(t[2]);
                let m = cm.as_mut().unwrap();
                let (mx, cv) = &*ctl.as_ref().unwrap().0;
                let lastno = reqno(&line);
                let t0 = Instant::now();
                let mut g = mx.lock().unwrap();
                while t0.elapsed() < PATIENCE && !(g.returned[s] == lastno && !g.inside[s]) {
                    if g.inside[s] && g.permits[s].is_empty() {
                        g.permits[s].push_back(n);
                        cv.notify_all();
                    }
                    g = cv.wait_timeout(g, Duration::from_millis(5)).unwrap().0;
                }
                let arrived = g.returned[s] == lastno;
                drop(g);
                let from = |m: &Completions| {
                    let me = format!(":{}:", s + 1);
                    m.items().iter().filter(|c| c.value.contains(&me)).count()
                };
                while arrived && from(m) < n.min(10) && t0.elapsed() < PATIENCE {
                    log(&ctl, Obj::new("recvb").end());
                    let has = m.recv();
                    let o = shown(Obj::new("recv").bool("has", has), m);
                    log(&ctl, o.end());
                    if !has {
                        std::thread::sleep(Duration::from_micros(50));
                    }
                }
                let late = !arrived || from(m) < n.min(10);
                let o = shown(Obj::new("settled").int("src", s + 1).int("n", n), m);
                log(&ctl, o.end());
                if late {
                    flush(&ctl, out);
                    return; // it will not get better
                }
            }
            "nap" => std::thread::sleep(Duration::from_micros(num(t[1]) as u64)),
            "drain" => {
                let m = cm.as_mut().unwrap();
                let (mx, cv) = &*ctl.as_ref().unwrap().0;
                let mut expect = 0;
                let mut late = false;
                let mut waited = Duration::ZERO;
                {
                    let mut g = mx.lock().unwrap();
                    for s in 0..nsrc {
                        g.auto[s] = Some(num(t[1 + s]));
                    }
                    cv.notify_all();
                    if reqs > 0 {
                        // every source must get to the latest request and answer it
                        let lastno = reqno(&line);
                        let t0 = Instant::now();
                        while t0.elapsed() < PATIENCE
                            && !(0..nsrc).all(|s| g.returned[s] == lastno && !g.inside[s])
                        {
                            g = cv.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
                        }
                        waited = t0.elapsed();
                        // what they answered to it is known from the log: at least that must arrive
                        if live {
                            for e in &g.log {
                                if e.contains("\"op\":\"ret\"")
                                    && e.contains(&format!("\"req\":{lastno},"))
                                {
                                    let n = e.rsplit("\"n\":").next().unwrap();
                                    let n: usize =
                                        n.trim_end_matches('}').parse().unwrap_or(0);
                                    expect += n.min(10);
                                }
                            }
                        }
                    }
                }
                // a receive that brings nothing is left out of the record
                let mut take = |m: &mut Completions| {
                    let at = {
                        let mut g = mx.lock().unwrap();
                        g.log.push(Obj::new("recvb").end());
                        g.log.len() - 1
                    };
                    let n = m.items().len();
                    let has = m.recv();
                    let mut g = mx.lock().unwrap();
                    if has || m.items().len() != n {
                        let o = shown(Obj::new("recv").bool("has", has), m);
                        g.log.push(o.end());
                    } else {
                        g.log.remove(at);
                    }
                };
                let t0 = Instant::now();
                loop {
                    take(m);
                    if m.items().len() >= expect || t0.elapsed() > PATIENCE {
                        break;
                    }
                    std::thread::sleep(Duration::from_micros(100));
                }
                // anything that should not come gets a chance to
                std::thread::sleep(Duration::from_micros(1500));
                take(m);
                let o = shown(Obj::new("drained"), m);
                log(&ctl, o.end());
                late = late || m.items().len() < expect || waited > PATIENCE;
                flush(&ctl, out);
                if late {
                    return; // it will not get better
                }
            }
            _ => unreachable!(),
        }
    }
    let _ = line_cur;
    flush(&ctl, out);
}
