#!/usr/bin/env python3
"""Makes seeded/<id>/ from a table of planted bugs and confirms each: applies, builds, stable tests pass,
demo passes without and fails with the change. Works in a scratch copy of /repo."""
import concurrent.futures, json, os, queue, shutil, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = "ogma-shell/interface/"
TOML = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[[bin]]
name = "demo"
path = "demo.rs"
[dependencies]
crossbeam = "0.8"
crossterm = "0.24"
tui = { version = "0.18", default-features = false, features = ["crossterm"] }
clap = { version = "3", features = ["derive"] }
'''
DEMO = '''#!/bin/bash
# exit 0: behaves; nonzero: broken. Runs in /repo (or a copy of it).
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cp "$here/Cargo.toml" "$here/Cargo.lock" "$tmp/"
sed "s#@REPO@#$repo#g" "$here/demo.rs" > "$tmp/demo.rs"
export RUST_BACKTRACE=0 CARGO_TARGET_DIR=$tmp/target CARGO_NET_OFFLINE=true
cd "$tmp" && cargo build --offline --locked >build.log 2>&1 || { tail -20 build.log; exit 4; }
timeout 60 "$tmp/target/debug/demo" %s
'''
HEAD = '''#![allow(dead_code, unused)]
extern crate self as libs;
pub use crossbeam;
pub mod interface {
    #[path = "@REPO@/ogma-shell/interface/completions.rs"] pub mod completions;
    #[path = "@REPO@/ogma-shell/interface/events.rs"] pub mod events;
    #[path = "@REPO@/ogma-shell/interface/history.rs"] pub mod history;
    #[path = "@REPO@/ogma-shell/interface/input.rs"] pub mod input;
    #[path = "@REPO@/ogma-shell/interface/theme.rs"] pub mod theme;
    use input::InputBuffer;
}
#[path = "@REPO@/bin/app.rs"] pub mod app;
use interface::{completions::*, events::*, history::*, input::*, theme::*};
'''

# ---- demos on the whole interface: the crates that cannot be fetched are in kit/ beside the demo
TOML2 = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[[bin]]
name = "demo"
path = "demo.rs"
[dependencies]
libs = { path = "kit/libs" }
cansi = { path = "kit/standins/cansi" }
crossterm = "0.24"
tui = { version = "0.18", default-features = false, features = ["crossterm"] }
unicode-width = "0.1"
'''
DEMO2 = '''#!/bin/bash
# exit 0: behaves; nonzero: broken. Runs in /repo (or a copy of it). kit/ holds small stand-ins for crates
# that cannot be fetched here.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/Cargo.toml" "$here/Cargo.lock" "$here/kit" "$tmp/"
sed "s#@REPO@#$repo#g" "$here/demo.rs" > "$tmp/demo.rs"
sed "s#@REPO@#$repo#g" "$here/kit/libs/Cargo.toml" > "$tmp/kit/libs/Cargo.toml"
export RUST_BACKTRACE=0 CARGO_TARGET_DIR=$tmp/target CARGO_NET_OFFLINE=true
cd "$tmp" && cargo build --offline --locked >build.log 2>&1 || { tail -20 build.log; exit 4; }
timeout 60 "$tmp/target/debug/demo"
'''
HEAD2 = '''#![allow(dead_code, unused)]
#[path = "@REPO@/ogma-shell/interface/mod.rs"]
pub mod interface;
use interface::*;
use crossterm::event::{KeyCode, KeyModifiers};
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};
use tui::backend::TestBackend;
type Event = <Events as Iterator>::Item;
type Keys = Vec<Option<Event>>; // None: the batch ends
const W: u16 = 40;
const H: u16 = 20;
fn k(code: KeyCode, mods: KeyModifiers) -> Keys { vec![Some(Event::Key { code, mods })] }
fn key(c: KeyCode) -> Keys { k(c, KeyModifiers::empty()) }
fn alt(c: char) -> Keys { k(KeyCode::Char(c), KeyModifiers::ALT) }
fn ctrl(c: KeyCode) -> Keys { k(c, KeyModifiers::CONTROL) }
fn txt(s: &str) -> Keys { s.chars().flat_map(|c| key(KeyCode::Char(c))).collect() }
fn enter() -> Keys { let mut x = key(KeyCode::Enter); x.push(None); x }
fn end() -> Keys { vec![None] }
fn naps(n: usize) -> Keys { vec![None; n] }
struct Script(Arc<Mutex<VecDeque<Option<Event>>>>);
impl Iterator for Script {
    type Item = Event;
    fn next(&mut self) -> Option<Event> {
        match self.0.lock().unwrap().pop_front() {
            Some(x) => x,
            None => { eprintln!("the shell has not ended"); std::process::exit(5) }
        }
    }
}
/// runs the shell over the keys (all tabs have to be closed at the end) and gives the rows last drawn
fn shell(keys: Vec<Keys>, cfg: impl FnMut() -> Config + 'static) -> Vec<String> { shell_wh(W, H, keys, cfg) }
fn shell_wh(w: u16, h: u16, keys: Vec<Keys>, cfg: impl FnMut() -> Config + 'static) -> Vec<String> {
    let q = Arc::new(Mutex::new(alt('h').into_iter().chain(end()).chain(keys.into_iter().flatten()).collect()));
    let t = interface::run(Script(q), TestBackend::new(w, h), cfg).unwrap();
    let b = t.backend().buffer();
    let a = b.area;
    (0..a.height).map(|y| (0..a.width).map(|x| b.get(x, y).symbol.clone()).collect::<String>()).collect()
}
/// rows of the outputs area
fn outputs(rows: &[String]) -> Vec<String> {
    let n = rows.iter().position(|r| r.contains(" Outputs ")).unwrap();
    rows[n + 1..rows.len() - 1].iter().map(|r| r.trim_matches(|c| c == ' ' || c == '┃').to_string()).collect()
}
fn input(rows: &[String]) -> String { rows[2].trim_matches(|c| c == ' ' || c == '┃').to_string() }
'''


# ---- demos on the language engine
TOML3 = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[[bin]]
name = "demo"
path = "demo.rs"
[dependencies]
ogma = { path = "kit/ogma" }
libs = { path = "kit/libs" }
kserd = { path = "kit/standins/kserd" }
notify = { path = "kit/standins/notify" }
table = { path = "kit/standins/table" }
[profile.dev]
opt-level = 1
debug = 0
incremental = false
'''
DEMO3 = DEMO2.replace('''sed "s#@REPO@#$repo#g" "$here/kit/libs/Cargo.toml" > "$tmp/kit/libs/Cargo.toml"
''', '''for x in libs ogma; do sed "s#@REPO@#$repo#g" "$here/kit/$x/Cargo.toml" > "$tmp/kit/$x/Cargo.toml"; done
mkdir -p "$tmp/wd"
''').replace('''timeout 60 "$tmp/target/debug/demo"''', '''cd "$tmp/wd" && timeout 60 "$tmp/target/debug/demo"''')
HEAD3 = '''#![allow(dead_code, unused)]
use ogma::{lang::{ast::Location, process_definition, Definitions, Value}, rt::process_expression};
use std::sync::Arc;
fn def(d: &mut Definitions, s: &str) -> Result<(), String> {
    process_definition(s, Location::Shell, None, d).map(|_| ()).map_err(|e| e.to_string())
}
fn file_def(d: &mut Definitions, s: &str, file: &str) -> Result<(), String> {
    process_definition(s, Location::file(std::path::Path::new(file), 1), None, d).map(|_| ()).map_err(|e| e.to_string())
}
fn run(d: &Definitions, s: &str) -> Result<Value, String> {
    let wd: Arc<std::path::Path> = std::env::current_dir().unwrap().into();
    process_expression((), s, Location::Shell, d, &*wd, &*wd).map_err(|e| e.to_string())
}
/// the value as text: numbers and strings as they are, tables as rows
fn show(v: &Value) -> String {
    match v {
        Value::Nil => "-".into(),
        Value::Bool(b) => b.to_string(),
        Value::Num(n) => n.to_string(),
        Value::Str(s) => s.to_string(),
        Value::Tab(t) => t.rows().map(|r| r.map(|e| match e {
            table::Entry::Nil => "-".to_string(),
            table::Entry::Num(n) => n.to_string(),
            table::Entry::Obj(v) => show(v),
        }).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(";"),
        v => format!("{v:?}"),
    }
}
fn val(d: &Definitions, s: &str) -> String { match run(d, s) { Ok(v) => show(&v), Err(e) => panic!("`{s}`: {e}") } }
fn bad(d: &Definitions, s: &str) { if let Ok(v) = run(d, s) { panic!("`{s}` gives {}", show(&v)) } }
'''


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(b, work):
    d = os.path.join(R, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    run(["git", "-C", work, "checkout", "--", "."])
    for f, old, new in b["edits"]:
        p = os.path.join(work, f)
        s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = run(["git", "-C", work, "diff"]).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    if "files" in b:  # a demo of another kind
        for n, t in b["files"].items():
            open(os.path.join(d, n), "w").write(t)
    else:
        full = b.get("kind") == "shellfull"
        eng = b.get("kind") == "engine"
        h = "shellfull" if full else "engine" if eng else "shellpart"
        if eng:
            kit = os.path.join(d, "kit")
            shutil.rmtree(kit, ignore_errors=True)
            for x in os.listdir(os.path.join(R, "standins")):
                if x not in ("cansi", "glob", "quickcheck_macros"):
                    shutil.copytree(os.path.join(R, "standins", x), os.path.join(kit, "standins", x),
                                    ignore=shutil.ignore_patterns("target"))
            for x in ("libs", "ogma"):
                os.makedirs(os.path.join(kit, x))
                t = open(os.path.join(R, "harness", x, "Cargo.toml")).read()
                t = t.replace("../../standins", "../standins").replace("/repo/", "@REPO@/")
                if x == "ogma":
                    i, j = t.index("[[test]]"), t.index("[dependencies]")
                    t = (t[:i] + t[j:t.index("[dev-dependencies]")]).replace("[workspace]\n", "")
                open(os.path.join(kit, x, "Cargo.toml"), "w").write(t)
        if full:
            kit = os.path.join(d, "kit")
            shutil.rmtree(kit, ignore_errors=True)
            for x in ("divvy", "colored", "cansi", "fastrand", "rustc-hash"):
                shutil.copytree(os.path.join(R, "standins", x), os.path.join(kit, "standins", x),
                                ignore=shutil.ignore_patterns("target"))
            os.makedirs(os.path.join(kit, "libs"))
            t = open(os.path.join(R, "harness/libs/Cargo.toml")).read()
            open(os.path.join(kit, "libs/Cargo.toml"), "w").write(
                t.replace("../../standins", "../standins").replace("/repo/", "@REPO@/"))
        open(os.path.join(d, "Cargo.toml"), "w").write(TOML2 if full else TOML3 if eng else TOML)
        shutil.copy(os.path.join(R, "harness", h, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
        t = open(os.path.join(d, "Cargo.lock")).read().replace(f'name = "{h}"', 'name = "demo"')
        # packages are sorted by name
        head, *pk = t.split("[[package]]\n")
        pk = sorted((x.rstrip("\n") for x in pk), key=lambda x: x.split('"')[1])
        open(os.path.join(d, "Cargo.lock"), "w").write(head + "\n\n".join("[[package]]\n" + x for x in pk) + "\n")
        if eng:  # the executor needs more: have cargo remove that
            tmp = work + "-lock"
            shutil.rmtree(tmp, ignore_errors=True)
            shutil.copytree(d, tmp)
            for x in ("libs", "ogma"):
                f = os.path.join(tmp, "kit", x, "Cargo.toml")
                t = open(f).read().replace("@REPO@", "/repo")
                open(f, "w").write(t)
            open(os.path.join(tmp, "demo.rs"), "w").write("fn main() {}")
            r = run(["cargo", "metadata", "--offline", "--format-version", "1"], cwd=tmp)
            assert r.returncode == 0, r.stdout[-600:]
            shutil.copy(os.path.join(tmp, "Cargo.lock"), d)
            shutil.rmtree(tmp)
        open(os.path.join(d, "demo.rs"), "w").write((HEAD2 if full else HEAD3 if eng else HEAD) + b["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(b.get("sh") or (DEMO2 if full else DEMO3 if eng else DEMO % b.get("args", "")))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]),
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    # confirm
    r = run(["bash", os.path.join(d, "demo.sh")], cwd=work)
    bad = r.returncode != 0
    why = r.stdout[-300:]
    run(["git", "-C", work, "checkout", "--", "."])
    r = run(["bash", os.path.join(d, "demo.sh")], cwd=work)
    good = r.returncode == 0
    if not good:
        print(r.stdout[-1500:])
    return bad, good, why


def stable(b):
    """build and stable tests in /repo with the patch applied"""
    d = os.path.join(R, "seeded", b["id"])
    assert not run(["git", "-C", "/repo", "status", "--porcelain"]).stdout.strip()
    a = run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")])
    assert a.returncode == 0, a.stdout
    try:
        x = run(["bash", "/opt/vp/build.sh"], cwd="/repo")
        y = run(["bash", "/opt/vp/test.sh", "/tmp/seedtest.json"], cwd="/repo")
        res = json.load(open("/tmp/seedtest.json"))
        return x.returncode == 0, res
    finally:
        run(["git", "-C", "/repo", "checkout", "--", "."])


def main(mod):
    sys.path[:0] = [os.path.dirname(os.path.abspath(mod))]
    bugs = __import__(os.path.basename(mod)[:-3]).BUGS
    only = sys.argv[2:]
    bugs = [b for b in bugs if not only or b["id"] in only]
    n = min(3, len(bugs))
    works = [f"/tmp/seedwork{i}" for i in range(n)]
    for w in works:
        shutil.rmtree(w, ignore_errors=True)
        run(["git", "clone", "-q", "/repo", w])
    free = queue.SimpleQueue()
    for w in works:
        free.put(w)

    def one(b):
        w = free.get()
        try:
            return b, make(b, w)
        finally:
            free.put(w)

    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for b, (bad, good, why) in ex.map(one, bugs):
            ok, res = stable(b)
            print(b["id"], "demo with:", "fails" if bad else "PASSES", "without:", "passes" if good else "FAILS",
                  "build:", ok, "tests:", len(res.get('passed', [])), 'passed, failed:', res.get('failed'))
            print("    ", why.strip().replace("\n", " | ")[-200:], flush=True)
    for w in works:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    main(sys.argv[1])
