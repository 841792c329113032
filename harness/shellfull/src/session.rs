use crate::interface::{self, *};
use crate::json::*;
use crossterm::event::{KeyCode, KeyModifiers};
use std::collections::VecDeque;
use std::io::{self, Write};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
use tui::backend::{Backend, TestBackend};
use tui::buffer::Cell;
use tui::layout::Rect;
use tui::style::{Color, Modifier};

type Event = <Events as Iterator>::Item;
const PATIENCE: Duration = Duration::from_secs(10);

/// what one evaluation does
#[derive(Clone)]
struct Plan {
    mode: String, // ok | panic | hold (until cancelled or all keys given) | deaf (all keys given)
    out: Option<String>,
    colour: usize,
    title: Option<String>,
    prompt: Option<String>,
    keys: Vec<Vec<String>>, // keys pressed during it, one batch per look at the keyboard
}

#[derive(Default)]
struct Shared {
    log: Vec<String>,
    phase: Phase,
    plans: VecDeque<Plan>,
    during: VecDeque<Vec<String>>, // keys left for the running evaluation
    xgiven: bool,
    since: usize,
    gates: Vec<bool>,
    calls: Vec<Vec<Option<(String, usize, Vec<String>)>>>, // per tab and source: the last answer
    waiting: usize,
    tabs: usize,
    ids: Vec<u64>,
    tick: u64,
}
#[derive(Default, PartialEq, Clone, Copy)]
enum Phase {
    #[default]
    Keys,
    Eval,
}
type Sh = Arc<(Mutex<Shared>, Condvar)>;

// ---- the screen
#[derive(Clone)]
struct Screen(Arc<Mutex<TestBackend>>);
/// times the screen was drawn
static DRAWS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn draws() -> usize {
    DRAWS.load(std::sync::atomic::Ordering::SeqCst)
}
impl Backend for Screen {
    fn draw<'a, I>(&mut self, content: I) -> io::Result<()>
    where
        I: Iterator<Item = (u16, u16, &'a Cell)>,
    {
        DRAWS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        self.0.lock().unwrap().draw(content)
    }
    fn hide_cursor(&mut self) -> io::Result<()> {
        self.0.lock().unwrap().hide_cursor()
    }
    fn show_cursor(&mut self) -> io::Result<()> {
        self.0.lock().unwrap().show_cursor()
    }
    fn get_cursor(&mut self) -> io::Result<(u16, u16)> {
        self.0.lock().unwrap().get_cursor()
    }
    fn set_cursor(&mut self, x: u16, y: u16) -> io::Result<()> {
        self.0.lock().unwrap().set_cursor(x, y)
    }
    fn clear(&mut self) -> io::Result<()> {
        self.0.lock().unwrap().clear()
    }
    fn size(&self) -> io::Result<Rect> {
        self.0.lock().unwrap().size()
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// the second half of a character that is two columns wide (such cells are never sent to a terminal)
fn covered(buf: &tui::buffer::Buffer, x: u16, y: u16) -> bool {
    let mut cov = false;
    for i in 0..x {
        cov = !cov && unicode_width::UnicodeWidthStr::width(buf.get(i, y).symbol.as_str()) == 2;
    }
    cov
}
fn overlay(c: &Cell) -> bool {
    matches!(c.bg, Color::Magenta | Color::LightMagenta | Color::Cyan)
}
impl Screen {
    /// rows of the overlay (suggestions or help): texts and which one is highlighted
    fn overlay(&self) -> (Vec<String>, i32, bool) {
        let b = self.0.lock().unwrap();
        let buf = b.buffer();
        let a = buf.area;
        let mut rows = vec![];
        let mut hl = -1;
        let mut bottom = false;
        for y in 0..a.height {
            let cells: Vec<&Cell> =
                (0..a.width).filter(|x| !covered(buf, *x, y)).map(|x| buf.get(x, y)).filter(|c| overlay(c)).collect();
            if cells.is_empty() {
                continue;
            }
            bottom |= y + 2 == a.height;
            if cells.iter().any(|c| c.bg == Color::Cyan) {
                hl = rows.len() as i32;
            }
            rows.push(cells.iter().map(|c| c.symbol.clone()).collect::<String>());
        }
        (rows, hl, bottom)
    }
    fn json(&self) -> String {
        let (ov, hl, _) = self.overlay();
        let mut b = self.0.lock().unwrap();
        let cur = b.get_cursor().unwrap();
        let buf = b.buffer();
        let a = buf.area;
        let mut rows = vec![];
        for y in 0..a.height.saturating_sub(1) {
            let mut r: Vec<u32> = (1..a.width.saturating_sub(1))
                .map(|x| {
                    let c = buf.get(x, y);
                    if covered(buf, x, y) {
                        if overlay(buf.get(x - 1, y)) { 0 } else { 32 }
                    } else if overlay(c) {
                        0
                    } else {
                        c.symbol.chars().next().map(|c| c as u32).unwrap_or(32)
                    }
                })
                .collect();
            while r.last() == Some(&32) {
                r.pop();
            }
            rows.push(format!("{r:?}"));
        }
        let sel: String = (0..a.width)
            .map(|x| buf.get(x, 0))
            .filter(|c| c.modifier.contains(Modifier::UNDERLINED))
            .map(|c| c.symbol.clone())
            .collect();
        let ov: Vec<String> = ov.iter().map(|x| cps(x.trim())).collect();
        Obj::new("screen")
            .int("w", a.width as usize)
            .int("h", a.height as usize)
            .raw("rows", &format!("[{}]", rows.join(",")))
            .cps("sel", &sel)
            .raw("ov", &format!("[{}]", ov.join(",")))
            .raw("hl", &hl.to_string())
            .int("cx", cur.0 as usize)
            .int("cy", cur.1 as usize)
            .end()
    }
}

// ---- keys
fn event(k: &str) -> Event {
    use KeyCode::*;
    let n = KeyModifiers::empty();
    let (c, m) = match k {
        "ent" => (Enter, n),
        "sent" => (Enter, KeyModifiers::SHIFT),
        "aent" => (Enter, KeyModifiers::ALT),
        "bs" => (Backspace, n),
        "sbs" => (Backspace, KeyModifiers::SHIFT),
        "del" => (Delete, n),
        "up" => (Up, n),
        "down" => (Down, n),
        "left" => (Left, n),
        "right" => (Right, n),
        "cleft" => (Left, KeyModifiers::CONTROL),
        "cright" => (Right, KeyModifiers::CONTROL),
        "sup" => (Up, KeyModifiers::SHIFT),
        "sdown" => (Down, KeyModifiers::SHIFT),
        "pgup" => (PageUp, n),
        "pgdn" => (PageDown, n),
        "tab" => (Tab, n),
        "esc" => (Esc, n),
        "home" => (Home, n),
        "end" => (End, n),
        "ins" => (Insert, n),
        "f1" => (F(1), n),
        "cup" => (Up, KeyModifiers::CONTROL),
        "adown" => (Down, KeyModifiers::ALT),
        "stab" => (BackTab, KeyModifiers::SHIFT),
        "cent" => (Enter, KeyModifiers::CONTROL),
        "cbs" => (Backspace, KeyModifiers::CONTROL),
        "sleft" => (Left, KeyModifiers::SHIFT),
        "cx" => (Char('x'), KeyModifiers::CONTROL),
        "cc" => (Char('c'), KeyModifiers::CONTROL),
        "ax" => (Char('x'), KeyModifiers::ALT),
        "ah" => (Char('h'), KeyModifiers::ALT),
        "aq" => (Char('q'), KeyModifiers::ALT),
        "at" => (Char('t'), KeyModifiers::ALT),
        "am" => (Char('m'), KeyModifiers::ALT),
        "rsz" => return Event::Resize,
        k => match (&k[..1], char::from_u32(k[1..].parse().unwrap()).unwrap()) {
            ("c", c) => (Char(c), n),
            ("S", c) => (Char(c), KeyModifiers::SHIFT),
            _ => unreachable!("{k}"),
        },
    };
    Event::Key { code: c, mods: m }
}
fn keyjson(op: &str, k: &str) -> String {
    let (k, c) = match k.as_bytes()[0] {
        b'c' | b'S' if k.as_bytes().get(1).map(|x| x.is_ascii_digit()).unwrap_or(false) => ("char", num(&k[1..])),
        _ => (k, 0),
    };
    Obj::new(op).str("k", k).int("c", c).end()
}

// ---- the script of one session, handed out as batches of events
struct Feed {
    sh: Sh,
    screen: Screen,
    script: VecDeque<String>,
    batch: VecDeque<String>,
    nones: usize,
    waiting: Option<(usize, Instant, Option<Instant>)>,
    closing: usize,
}
impl Feed {
    fn log(&self, s: String) {
        self.sh.0.lock().unwrap().log.push(s)
    }
    /// the next batch, doing what stands in between; false: nothing to give this time
    fn advance(&mut self) -> bool {
        loop {
            if let Some((tab, t0, full)) = self.waiting {
                // all answers there and drawn? shown for three turns, so a late change would show
                let (want, have, groups) = {
                    let s = self.sh.0.lock().unwrap();
                    let c = &s.calls[tab];
                    let first = c[0].as_ref().map(|x| (x.0.clone(), x.1));
                    let all = c.iter().all(|x| x.as_ref().map(|x| (x.0.clone(), x.1)) == first) && first.is_some();
                    let n: usize = c.iter().flatten().map(|x| x.2.len().min(10)).sum();
                    let g: Vec<String> = c
                        .iter()
                        .map(|x| {
                            let v: Vec<String> = x.iter().flat_map(|x| x.2.iter().map(|y| cps(y))).collect();
                            format!("[{}]", v.join(","))
                        })
                        .collect();
                    let (ov, _, bottom) = self.screen.overlay();
                    let n = if bottom { n.min(ov.len()) } else { n };
                    (if all { Some(n) } else { None }, ov.len(), g.join(","))
                };
                let full = if want == Some(have) { full.or(Some(Instant::now())) } else { None };
                let enough = full.map(|t| t.elapsed() > Duration::from_millis(25)).unwrap_or(false);
                if !enough && t0.elapsed() < PATIENCE {
                    self.waiting = Some((tab, t0, full));
                    return false;
                }
                self.waiting = None;
                {
                    let mut s = self.sh.0.lock().unwrap();
                    s.gates[tab] = false;
                    s.log.push(
                        Obj::new("wait").int("tab", tab + 1).bool("full", enough).raw("groups", &format!("[{groups}]")).end(),
                    );
                }
                self.log(self.screen.json());
                continue;
            }
            let line = match self.script.pop_front() {
                Some(l) => l,
                None => {
                    self.closing += 1;
                    if self.closing > 60 {
                        panic!("the shell does not end");
                    }
                    "b aq".into()
                }
            };
            let t: Vec<&str> = line.split_whitespace().collect();
            match t[0] {
                "b" => {
                    self.batch = t[1..].iter().map(|x| x.to_string()).collect();
                    return true;
                }
                "resize" => {
                    let (w, h) = (num(t[1]) as u16, num(t[2]) as u16);
                    self.screen.0.lock().unwrap().resize(w, h);
                    self.log(Obj::new("size").int("w", w as usize).int("h", h as usize).end());
                    self.batch = VecDeque::from(vec!["rsz".to_string()]);
                    return true;
                }
                "wait" => {
                    let tab = num(t[1]) - 1;
                    let mut s = self.sh.0.lock().unwrap();
                    s.gates[tab] = true;
                    self.waiting = Some((tab, Instant::now(), None));
                    self.sh.1.notify_all();
                    drop(s);
                    return false;
                }
                _ => unreachable!("{line}"),
            }
        }
    }
}
impl Iterator for Feed {
    type Item = Event;
    fn next(&mut self) -> Option<Event> {
        {
            let mut s = self.sh.0.lock().unwrap();
            s.tick += 1;
            if s.phase == Phase::Eval {
                // keys for the running evaluation; after the last ones it is told to end
                let k = match s.during.front_mut() {
                    None => None,
                    Some(b) if b.is_empty() => {
                        s.during.pop_front();
                        s.since = draws();
                        None
                    }
                    Some(b) => Some(b.remove(0)),
                };
                if let Some(k) = &k {
                    s.xgiven |= k == "cx";
                    // how often the screen was drawn since this key was there to be read
                    let l = format!(",\"late\":{}}}", draws() - s.since);
                    let j = keyjson("dkey", k);
                    s.log.push(j[..j.len() - 1].to_string() + &l);
                }
                self.sh.1.notify_all();
                return k.map(|k| event(&k));
            }
        }
        if self.batch.is_empty() {
            // the end of a batch is seen as None; two more turns for whatever is still kept back
            if self.nones < 3 {
                self.nones += 1;
                return None;
            }
            if self.waiting.is_none() {
                self.log(self.screen.json());
            }
            if !self.advance() {
                return None;
            }
            self.nones = 0;
            if self.batch.is_empty() {
                return None;
            }
        }
        let k = self.batch.pop_front().unwrap();
        self.log(keyjson("key", &k));
        Some(event(&k))
    }
}

// ---- suggestion sources
struct Source {
    sh: Sh,
    tab: usize,
    src: usize,
}
/// what a source answers: depends on the word only; source 0 always has something
fn answer(src: usize, word: &str) -> Vec<String> {
    let n = word.chars().count();
    match (src, n % 4) {
        (0, 0) => vec!["al".into(), "be ta".into(), "gamma".into()],
        (0, 1) => vec![format!("{word}x")],
        (0, 2) => vec![format!("{word}yy"), "\u{3b1}\u{4e16}".into(), word.into()],
        (0, _) => (0..12).map(|i| format!("it{i}")).collect(),
        (_, 1) => vec!["second".into()],
        (_, 2) => vec!["2a".into(), "2b".into()],
        _ => vec![],
    }
}
impl Completer for Source {
    fn complete(&self, input: &str, cursor_pos: usize, word_pos: usize) -> Vec<Completion> {
        let ans = answer(self.src, &input[word_pos..cursor_pos]);
        let mut s = self.sh.0.lock().unwrap();
        while !s.gates[self.tab] {
            s = self.sh.1.wait(s).unwrap();
        }
        s.calls[self.tab][self.src] = Some((input.to_string(), cursor_pos, ans.clone()));
        drop(s);
        ans.into_iter()
            .map(|value| Completion { value, ty: [CompletionType::Method, CompletionType::Path][self.src.min(1)].clone_() })
            .collect()
    }
}
trait CloneTy {
    fn clone_(&self) -> CompletionType;
}
impl CloneTy for CompletionType {
    fn clone_(&self) -> CompletionType {
        match self {
            CompletionType::Method => CompletionType::Method,
            CompletionType::Type => CompletionType::Type,
            CompletionType::Path => CompletionType::Path,
            CompletionType::Literal => CompletionType::Literal,
        }
    }
}

// ---- evaluations
fn coloured(t: &str, k: usize) -> String {
    if k == 0 {
        return t.to_string();
    }
    // every run of k characters is red, every other one plain; colours end with their line
    let mut s = String::new();
    let mut red = false;
    for (i, c) in t.chars().enumerate() {
        let want = c != '\n' && i % (2 * k) >= k;
        if want != red {
            s += if want { "\x1b[1;31m" } else { "\x1b[0m" };
            red = want;
        }
        s.push(c);
    }
    s + if red { "\x1b[0m" } else { "" }
}
fn optcps(o: Obj, k: &str, v: &Option<String>) -> Obj {
    let has = format!("has{k}");
    o.bool(&has, v.is_some()).cps(k, v.as_deref().unwrap_or(""))
}
fn evaluate(sh: &Sh, input: String, id: u64, cancel: &Cancelled) -> ConfigUpdate {
    let plan = {
        let mut s = sh.0.lock().unwrap();
        let n = match s.ids.iter().position(|x| *x == id) {
            Some(i) => i,
            None => {
                s.ids.push(id);
                s.ids.len() - 1
            }
        };
        let p = s.plans.pop_front().unwrap_or(Plan {
            mode: "ok".into(),
            out: Some(input.clone()),
            colour: 0,
            title: None,
            prompt: None,
            keys: vec![],
        });
        let o = Obj::new("enterb").cps("input", &input).int("id", n + 1).bool("off", !on(cancel)).end();
        s.log.push(o);
        s.during = p.keys.iter().cloned().collect();
        s.xgiven = false;
        s.since = draws();
        s.phase = Phase::Eval;
        p
    };
    if plan.mode == "hold" || plan.mode == "deaf" {
        let t0 = Instant::now();
        let mut s = sh.0.lock().unwrap();
        // given a Ctrl+x it waits for the flag; else until all keys were handed out
        while !s.during.is_empty() || (s.xgiven && !on(cancel)) {
            if plan.mode == "hold" && on(cancel) || t0.elapsed() > PATIENCE {
                break;
            }
            s = sh.1.wait_timeout(s, Duration::from_millis(5)).unwrap().0;
        }
    }
    let mut s = sh.0.lock().unwrap();
    let panics = plan.mode == "panic";
    let o = Obj::new("entere").bool("cancelled", on(cancel)).bool("panic", panics);
    let o = optcps(o, "out", &plan.out);
    let o = optcps(o, "title", &plan.title);
    let o = optcps(o, "prompt", &plan.prompt);
    s.log.push(o.end());
    s.during.clear();
    s.phase = Phase::Keys;
    drop(s);
    if panics {
        panic!("as planned");
    }
    ConfigUpdate {
        new_title: plan.title,
        new_prompt: plan.prompt,
        new_completions: None,
        add_output: plan.out.map(|o| coloured(&o, plan.colour)),
    }
}
fn on(c: &Cancelled) -> bool {
    c.get()
}

fn opt(t: &str) -> Option<String> {
    if t == "none" {
        None
    } else {
        Some(text(t))
    }
}
/// Sessions: `session W H SOURCES COLOUR`, then `tab TITLE PROMPT` per tab to be opened, `plan MODE OUT COLOUR
/// TITLE PROMPT KEYS…` per evaluation, then `b KEYS…`, `resize W H`, `wait TAB`.
pub fn run_all(script: &str, mut out: impl Write) {
    let mut sessions: Vec<Vec<&str>> = vec![];
    for l in script.lines() {
        if l.starts_with("session") {
            sessions.push(vec![]);
        }
        sessions.last_mut().unwrap().push(l);
    }
    for s in sessions {
        let (log, go_on) = run_one(&s);
        for l in log {
            writeln!(out, "{l}").unwrap();
        }
        out.flush().unwrap();
        if !go_on {
            break;
        }
    }
}
fn run_one(lines: &[&str]) -> (Vec<String>, bool) {
    let t: Vec<&str> = lines[0].split_whitespace().collect();
    let (w, h, srcs, deco) = (num(t[1]) as u16, num(t[2]) as u16, num(t[3]), num(t[4]));
    let sh: Sh = Default::default();
    let mut tabs: Vec<(String, String)> = vec![];
    let mut rest = VecDeque::new();
    {
        let mut s = sh.0.lock().unwrap();
        for l in &lines[1..] {
            let t: Vec<&str> = l.split_whitespace().collect();
            match t[0] {
                "tab" => tabs.push((text(t[1]), text(t[2]))),
                "plan" => {
                    let mut keys = vec![];
                    for b in t[6..].join(" ").split('/') {
                        keys.push(b.split_whitespace().map(|x| x.to_string()).collect());
                    }
                    s.plans.push_back(Plan {
                        mode: t[1].into(),
                        out: opt(t[2]),
                        colour: num(t[3]),
                        title: opt(t[4]),
                        prompt: opt(t[5]),
                        keys,
                    })
                }
                _ => rest.push_back(l.to_string()),
            }
        }
        let tj: Vec<String> = tabs.iter().map(|(a, b)| format!("{{\"title\":{},\"prompt\":{}}}", cps(a), cps(b))).collect();
        s.log.push(
            Obj::new("new").int("w", w as usize).int("h", h as usize).int("srcs", srcs).raw("tabs", &format!("[{}]", tj.join(","))).end(),
        );
    }
    let screen = Screen(Arc::new(Mutex::new(TestBackend::new(w, h))));
    let feed = Feed { sh: sh.clone(), screen: screen.clone(), script: rest, batch: Default::default(), nones: 0, waiting: None, closing: 0 };
    let (sh2, sh3) = (sh.clone(), sh.clone());
    let done = Arc::new(Mutex::new(None));
    let done2 = done.clone();
    std::thread::spawn(move || {
        let config = move || {
            let k = {
                let mut s = sh2.0.lock().unwrap();
                s.tabs += 1;
                s.gates.push(false);
                s.calls.push(vec![None; srcs]);
                s.tabs - 1
            };
            let (title, prompt) = tabs.get(k).cloned().unwrap_or(("".into(), "> ".into()));
            let sh4 = sh2.clone();
            Config {
                title,
                prompt,
                decorate_input: Box::new(move |s, _| coloured(&s, deco)),
                on_enter_press: Box::new(move |i, id, c| evaluate(&sh4, i, id, &c)),
                completers: (0..srcs)
                    .map(|src| Box::new(Source { sh: sh2.clone(), tab: k, src }) as Box<dyn Completer>)
                    .collect(),
            }
        };
        let r = caught(move || interface::run(feed, screen, config).is_ok());
        let s = match r {
            None => Obj::new("panic"),
            Some(ok) => Obj::new("ended").bool("ok", ok),
        };
        sh3.0.lock().unwrap_or_else(|e| e.into_inner()).log.push(s.end());
        *done2.lock().unwrap() = Some(());
    });
    // no look at the keyboard for a long time: stuck
    let mut last = (0, Instant::now());
    loop {
        std::thread::sleep(Duration::from_millis(1));
        let mut s = sh.0.lock().unwrap_or_else(|e| e.into_inner());
        let fin = done.lock().unwrap().is_some();
        if s.tick != last.0 {
            last = (s.tick, Instant::now());
        }
        let stuck = last.1.elapsed() > Duration::from_secs(40);
        if stuck && !fin {
            s.log.push(Obj::new("stuck").end());
        }
        if stuck || fin {
            for g in &mut s.gates {
                *g = true;
            }
            sh.1.notify_all();
            return (std::mem::take(&mut s.log), fin);
        }
    }
}
