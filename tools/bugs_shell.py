"""Planted bugs in the part of the shell that builds here."""
SH = "ogma-shell/interface/"
I, H, C, E, T, A = SH + "input.rs", SH + "history.rs", SH + "completions.rs", SH + "events.rs", SH + "theme.rs", "bin/app.rs"
CMP = '''
use std::sync::{Arc, Mutex, mpsc::*};
use std::time::Duration;
struct Src(Mutex<Receiver<Vec<String>>>, Mutex<Sender<String>>);
impl Completer for Src {
    fn complete(&self, i: &str, _: usize, _: usize) -> Vec<Completion> {
        self.1.lock().unwrap().send(i.to_string()).ok();
        self.0.lock().unwrap().recv().unwrap_or_default().into_iter()
            .map(|value| Completion { value, ty: CompletionType::Literal }).collect()
    }
}
fn src() -> (Box<dyn Completer>, Sender<Vec<String>>, Receiver<String>) {
    let (a, b) = channel(); let (c, d) = channel();
    (Box::new(Src(Mutex::new(b), Mutex::new(c))), a, d)
}
fn line(s: &str) -> InputBuffer { let mut i = InputBuffer::new(); for c in s.chars() { i.insert(c) } i }
fn strs(n: usize, p: &str) -> Vec<String> { (0..n).map(|i| format!("{p}{i}")).collect() }
fn nap() { std::thread::sleep(Duration::from_millis(150)) }
'''
BUGS = [
 dict(id="c01-insert-str-bytes", property="C01", needs="pasting/inserting a string with a multi-byte character, then editing on",
      breaks="insert_str advances the cursor by bytes instead of characters",
      edits=[(I, "        for c in s.chars() {\n            self.insert(c);\n        }",
              "        self.buf.splice(self.pos..self.pos, s.chars());\n        self.pos += s.len();\n        self.buf_changed = true;")],
      demo='''fn main() {
    let mut i = InputBuffer::new();
    i.insert_str("ab"); i.move_left(Mvmt::Ch(1)); i.insert_str("é"); i.insert('x');
    assert_eq!(i.buffer(..), "aéxb"); assert_eq!(i.ch_pos(), 3);
}'''),
 dict(id="c01-delete-last-unmarked", property="C01", needs="delete of the last character after the mark was reset",
      breaks="deleting the character at the end of the line does not mark the line as changed",
      edits=[(I, "        if self.pos < self.buf.len() {\n            self.buf.remove(self.pos);\n            self.buf_changed = true;\n        }",
              "        if self.pos < self.buf.len() {\n            self.buf.remove(self.pos);\n            self.buf_changed |= self.pos < self.buf.len();\n        }")],
      demo='''fn main() {
    let mut i = InputBuffer::new();
    i.insert_str("ab"); i.move_left(Mvmt::Ch(1)); i.reset_buf_changed(); i.delete();
    assert_eq!(i.buffer(..), "a"); assert!(i.buffer_changed());
}'''),
 dict(id="c02-buf-pos-utf16", property="C02", needs="an astral or three-byte character before the cursor",
      breaks="the byte position of the cursor counts at most two bytes per character",
      edits=[(I, ".map(|x| x.len_utf8()).sum()", ".map(|x| x.len_utf8().min(3)).sum()")],
      demo='''fn main() {
    let mut i = InputBuffer::new();
    i.insert_str("a\\u{1f600}b");
    assert_eq!(i.buf_pos(), 6);
}'''),
 dict(id="c02-word-left-ascii", property="C02", needs="a word step over a word with a non-ASCII numeric/letter character",
      breaks="word steps stop inside words with non-ASCII letters",
      edits=[(I, "let b = c.is_alphanumeric() || \"-_\".contains(c);", "let b = c.is_alphabetic() || c.is_ascii_digit() || \"-_\".contains(c);")],
      demo='''fn main() {
    let mut i = InputBuffer::new();
    i.insert_str("m\\u{b2}x y"); i.move_start(); i.move_right(Mvmt::Word);
    assert_eq!(i.ch_pos(), 3);
}'''),
 dict(id="c03-full-history-keeps-place", property="C03", needs="more than 100 lines entered, the last one while standing on an older line",
      breaks="entering a line while the history is full does not return to the resting position",
      edits=[(H, "        while self.items.len() >= LIM {\n            self.items.remove(0);\n        }\n        self.items.push(line);\n        self.idx = None;",
              "        if self.items.len() >= LIM {\n            self.items.rotate_left(1);\n            self.items[LIM - 1] = line;\n        } else {\n            self.items.push(line);\n            self.idx = None;\n        }")],
      demo='''fn main() {
    let mut h = History::new();
    for i in 0..100 { h.add(format!("l{i}")) }
    h.back(); h.back(); h.add("new".into());
    assert_eq!(h.current(), None); h.back(); assert_eq!(h.current(), Some("new"));
}'''),
 dict(id="c04-batch-shares-fate", property="C04", needs="a stale and a current answer waiting together at one receive, the current one first",
      breaks="answers to a superseded request appear when they arrive in one batch with current ones",
      edits=[(C, "        for pkg in self.rx.try_iter().filter(|x| x.changeset == chgset) {\n            has |= true;\n            self.items.extend(pkg.items);\n        }",
              "        for pkg in self.rx.try_iter() {\n            has |= pkg.changeset == chgset;\n            if has {\n                self.items.extend(pkg.items);\n            }\n        }")],
      demo=CMP + '''fn main() {
    let (a, ta, ra) = src(); let (b, tb, rb) = src();
    let mut c = Completions::new(vec![a, b]);
    c.request(&line("one")); ra.recv().unwrap(); rb.recv().unwrap();
    c.request(&line("two")); nap();
    ta.send(strs(1, "old")).unwrap(); ra.recv().unwrap(); ta.send(strs(1, "new")).unwrap(); nap();
    tb.send(strs(1, "stale")).unwrap(); nap();
    c.recv();
    let v: Vec<_> = c.items().iter().map(|x| x.value.clone()).collect();
    assert!(!v.contains(&"stale0".to_string()), "{v:?}");
    std::process::exit(0);
}'''),
 dict(id="c05-replace-len-bytes", property="C05", needs="a selected suggestion with a multi-byte character, then another selection step",
      breaks="the number of characters to replace is the byte length of the selected suggestion",
      edits=[(C, "self.ins_len = self.cmpl().unwrap_or(&self.replace).chars().count();",
              "self.ins_len = self.cmpl().map(|c| c.len()).unwrap_or_else(|| self.replace.chars().count());")],
      demo=CMP + '''fn main() {
    let (a, ta, ra) = src();
    let mut c = Completions::new(vec![a]);
    c.request(&line("x d")); ta.send(vec!["é".into(), "dd".into()]).unwrap(); nap(); c.recv();
    c.highlight_next();
    assert_eq!(c.highlight_next(), (1, "dd"));
    std::process::exit(0);
}'''),
 dict(id="c05-late-answers-reselect", property="C05", needs="a second source answers after the user selected the last suggestion on offer",
      breaks="going back from an unselected position skips the newest suggestions once the selection has been moved",
      edits=[(C, "            Some(x) => Some(x.saturating_sub(1)),\n            None => Some(self.items.len().saturating_sub(1)),",
              "            Some(x) => Some(x.saturating_sub(1)),\n            None => Some(self.items.len().min(CMPL_ITEMS_LIM).saturating_sub(1)),")],
      demo=CMP + '''fn main() {
    let (a, ta, ra) = src(); let (b, tb, rb) = src();
    let mut c = Completions::new(vec![a, b]);
    c.request(&line("x")); ta.send(strs(8, "a")).unwrap(); tb.send(strs(8, "b")).unwrap(); nap(); c.recv();
    assert_eq!(c.items().len(), 16);
    c.highlight_prev();
    assert_eq!(c.highlighted(), Some(15));
    std::process::exit(0);
}'''),
 dict(id="c06-stuck-source-blocks", property="C06", needs="one source stuck while several more requests are made",
      breaks="a stuck suggestion source blocks the dispatcher, so the other sources are not asked any more",
      edits=[(C, "let (txx, rxx) = unbounded();", "let (txx, rxx) = ::libs::crossbeam::channel::bounded(2);")],
      demo=CMP + '''fn main() {
    let (a, ta, ra) = src(); let (b, tb, rb) = src();
    let mut c = Completions::new(vec![a, b]);
    for i in 0..6 {
        c.request(&line(&format!("l{i}")));
        // the second source answers each, the first never does
        assert_eq!(rb.recv_timeout(Duration::from_secs(5)).ok(), Some(format!("l{i}")));
        tb.send(strs(1, "x")).unwrap(); nap();
    }
    std::process::exit(0);
}'''),
 dict(id="c06-limit-shared", property="C06", needs="two sources with together more than ten suggestions",
      breaks="the limit of ten applies to all sources together, so later answers are lost",
      edits=[(C, "            self.items.extend(pkg.items);", "            self.items.extend(pkg.items);\n            self.items.truncate(CMPL_ITEMS_LIM);")],
      demo=CMP + '''fn main() {
    let (a, ta, ra) = src(); let (b, tb, rb) = src();
    let mut c = Completions::new(vec![a, b]);
    c.request(&line("x")); ta.send(strs(7, "a")).unwrap(); nap(); c.recv(); tb.send(strs(7, "b")).unwrap(); nap(); c.recv();
    assert_eq!(c.items().len(), 14);
    std::process::exit(0);
}'''),
 dict(id="c07-start-pos-bytes", property="C07", needs="a multi-byte character within the typed word",
      breaks="the word position is computed with the byte length of the word",
      edits=[(C, "self.start_pos = input_buf.ch_pos().saturating_sub(self.ins_len);",
              "self.start_pos = input_buf.ch_pos().saturating_sub(cursor_pos - word_pos);")],
      demo=CMP + '''fn main() {
    let (a, ta, ra) = src();
    let mut c = Completions::new(vec![a]);
    c.request(&line("abc dé"));
    assert_eq!(c.word_pos(), 4);
    std::process::exit(0);
}'''),
 dict(id="c09-theme-mod-four", property="C09", needs="a theme number of 3 modulo 4 (the theme key pressed three times)",
      breaks="every second odd theme shows the default colours",
      edits=[(T, "        let t = theme % 2;\n        debug_assert!(t < 2, \"remember to have a theme for each mod\");",
              "        let t = theme & 3;\n        debug_assert!(t < 4, \"remember to have a theme for each mod\");"),
             (T, "            0 => self, // default theme,", "            0 | 2 | 3 => self, // default theme,")],
      demo='''use tui::style::*;
fn main() {
    for t in [1u8, 3, 5, 7] { assert_eq!(Style::default().fg(Color::White).theme(t).fg, Some(Color::Black)); }
}'''),
 dict(id="c10-def-delimiter", property="C10", needs="a definition pattern with a comma in it",
      breaks="--def values are split at commas",
      edits=[(A, "    #[clap(long)]\n    pub def", "    #[clap(long, use_value_delimiter = true, require_value_delimiter = true)]\n    pub def")],
      demo='''use clap::Parser;
fn main() {
    let a = app::App::try_parse_from(["ogma", "--def", "a,b.ogma", "f"]).unwrap();
    assert_eq!(a.def, Some(vec!["a,b.ogma".to_string()])); assert_eq!(a.files, vec!["f".to_string()]);
}'''),
 dict(id="c08-burst-lost", property="C08", needs="more than 200 key presses between two polls",
      breaks="events beyond a fixed backlog are dropped",
      edits=[(E, "use ::libs::crossbeam::channel::{unbounded, Receiver};", "use ::libs::crossbeam::channel::{bounded, Receiver};"),
             (E, "let (tx, rx) = unbounded();", "let (tx, rx) = bounded(200);"),
             (E, "if tx.send(ev).is_err() {", "if tx.try_send(ev).is_err() {")],
      args='',
      sh=None,
      demo='''use std::io::Write;
fn main() {
    // the terminal is a pseudo terminal made by demo.sh (script feeds 300 keys, then we poll)
    let mut ev = Events::new().unwrap();
    std::thread::sleep(std::time::Duration::from_millis(1500));
    let mut n = 0;
    for _ in 0..20 { while ev.next().is_some() { n += 1 } std::thread::sleep(std::time::Duration::from_millis(50)); }
    std::fs::write(std::env::args().nth(1).unwrap(), n.to_string()).unwrap();
    std::process::exit(0);
}'''),
]
PTY = '''
cat > "$tmp/drive.py" <<'PY'
import os, pty, sys, time, tty
m, s = pty.openpty()
tty.setraw(s)
pid = os.fork()
if pid == 0:
    os.setsid(); os.dup2(s, 0)
    os.execv(sys.argv[1], [sys.argv[1], sys.argv[2]])
time.sleep(0.7)
for _ in range(30): os.write(m, b"abcdefghij")
os.waitpid(pid, 0)
n = int(open(sys.argv[2]).read())
print("got", n, "of 300")
sys.exit(0 if n == 300 else 1)
PY
timeout 60 python3 "$tmp/drive.py" "$tmp/target/debug/demo" "$tmp/n"
'''
import sys
def _():
    M = sys.modules["__main__"]
    d = M.DEMO % ""
    return d.replace('timeout 60 "$tmp/target/debug/demo" \n', PTY)
BUGS[-1]["sh"] = _()
