//! Batches, files and the file cache.
use crate::val;
use crate::x_lang::{err, State};
use libs::divvy::{ProgressTx, Switch};
use ogma::lang::ast::Location;
use ogma::rt::bat::{self, ItemType, Outcome};
use serde_json::{json, Value as J};
use std::fs::File;
use std::io::Write;
use std::os::unix::fs::OpenOptionsExt;
use std::path::Path;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const O_NONBLOCK: i32 = 0o4000;

fn kind(t: ItemType) -> &'static str {
    match t {
        ItemType::Expr => "ex",
        ItemType::Impl => "im",
        ItemType::Type => "ty",
    }
}

/// The items of a file.
pub fn split(op: &J) -> J {
    match bat::parse_str(&val::uncps(&op["src"]), Location::Shell) {
        Err(e) => json!({"r": "err", "e": err(&e)}),
        Ok(b) => json!({"r": "ok", "par": b.parallelise, "ff": b.fail_fast, "items": b.items.iter().map(|i|
            json!({"k": kind(i.ty()), "line": i.line, "code": i.code(), "doc": i.comment.clone().map_or(json!([]), |c| json!([c]))})).collect::<Vec<_>>()}),
    }
}

fn status(o: &Outcome) -> &'static str {
    match o {
        Outcome::Success => "S",
        Outcome::Failed(_) => "F",
        Outcome::Outstanding => "O",
        Outcome::Cancelled => "C",
    }
}

fn sorted(st: &State) -> Vec<String> {
    let mut v: Vec<String> = val::rows(&ogma::lang::construct_def_table(&st.defs)).into_iter().map(|r| json!(r).to_string()).collect();
    v.sort();
    v
}

/// Processes a batch. Its items may read from fifos ("w0", "w1"… with a prefix): an item that waits in one has been
/// started, and goes on once it is released. `moves` says what happens meanwhile.
pub fn batch(st: &State, op: &J) -> J {
    let b = match bat::parse_str(&val::uncps(&op["src"]), Location::Shell) {
        Ok(b) => b,
        Err(e) => return json!({"r": "err", "e": err(&e)}),
    };
    // items may be listed in any order
    let mut items: Vec<Option<bat::BatchItem>> = b.items.into_iter().map(Some).collect();
    let items: Vec<bat::BatchItem> = match op["perm"].as_array() {
        Some(p) => p.iter().map(|i| items[i.as_u64().unwrap() as usize].take().unwrap()).collect(),
        None => items.into_iter().flatten().collect(),
    };
    let b = bat::Batch { items, parallelise: b.parallelise, fail_fast: b.fail_fast };
    let shown: Vec<J> = b.items.iter().map(|i| json!({"k": kind(i.ty()), "code": i.code()})).collect();
    let fifos: Vec<String> = op["fifos"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let log: Arc<Mutex<Vec<J>>> = Default::default();
    let cancel = Switch::off();
    let done = Switch::off();
    let ended: Arc<Mutex<Option<J>>> = Default::default();
    let before = sorted(st);
    let thread = {
        let (log, cancel, done, ended) = (log.clone(), cancel.clone(), done.clone(), ended.clone());
        let (root, wd, defs) = (st.root.clone(), st.wd.clone(), st.defs.clone());
        let pool = rayon::ThreadPoolBuilder::new().num_threads(op["pool"].as_u64().unwrap() as usize).build().unwrap();
        let par = (b.parallelise, b.fail_fast);
        log.lock().unwrap().push(json!({"e": "begin", "par": par.0, "ff": par.1}));
        std::thread::spawn(move || {
            let l2 = log.clone();
            let prog = ProgressTx::with(cancel, move |_, msg| {
                let v: J = serde_json::from_str(&msg).unwrap_or_default();
                let v: Vec<J> = v.as_array().map_or(vec![], |v| {
                    v.iter().map(|x| x["status"].as_str().unwrap_or("?").chars().next().unwrap().to_string().into()).collect()
                });
                l2.lock().unwrap().push(json!({"e": "rep", "v": v}));
            });
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                pool.install(|| bat::process(&b, &root, &wd, &prog, defs))
            }));
            *ended.lock().unwrap() = Some(match r {
                Ok(v) => json!({"e": "end", "v": v.iter().map(|x| status(&x.0)).collect::<Vec<_>>()}),
                Err(_) => json!({"e": "panic"}),
            });
            done.flip_on();
        })
    };
    // the ones that wait now
    let mut held: Vec<Option<File>> = fifos.iter().map(|_| None).collect();
    let spent: Arc<Mutex<Vec<bool>>> = Arc::new(Mutex::new(vec![false; fifos.len()]));
    let poll = |held: &mut Vec<Option<File>>| {
        for (i, f) in fifos.iter().enumerate() {
            if held[i].is_none() && !spent.lock().unwrap()[i] {
                let p = st.root.join(f);
                if let Ok(f) = std::fs::OpenOptions::new().write(true).custom_flags(O_NONBLOCK).open(p) {
                    log.lock().unwrap().push(json!({"e": "start", "i": i}));
                    held[i] = Some(f);
                }
            }
        }
    };
    let release = |held: &mut Vec<Option<File>>, i: usize, ok: bool| {
        if let Some(mut f) = held[i].take() {
            log.lock().unwrap().push(json!({"e": "rel", "i": i, "ok": ok}));
            spent.lock().unwrap()[i] = true;
            f.write_all(if ok { b"ok" } else { b"no" }).ok();
        }
    };
    let nap = || std::thread::sleep(Duration::from_millis(2));
    let none = vec![];
    for m in op["moves"].as_array().unwrap_or(&none) {
        match m["m"].as_str().unwrap() {
            "settle" => {
                let t = Instant::now();
                let ms = m["ms"].as_u64().unwrap_or(60);
                while t.elapsed() < Duration::from_millis(ms) && !done.get() {
                    poll(&mut held);
                    nap();
                }
            }
            "rel" => {
                let t = Instant::now();
                while held.iter().all(|x| x.is_none()) && t.elapsed() < Duration::from_millis(400) && !done.get() {
                    poll(&mut held);
                    nap();
                }
                let up: Vec<usize> = (0..held.len()).filter(|&i| held[i].is_some()).collect();
                if !up.is_empty() {
                    release(&mut held, up[m["k"].as_u64().unwrap() as usize % up.len()], m["ok"].as_bool().unwrap());
                }
            }
            "cancel" => {
                cancel.flip_on();
                log.lock().unwrap().push(json!({"e": "cancel"}));
            }
            x => panic!("unknown move {x}"),
        }
    }
    let t = Instant::now();
    let mut k = 0;
    while !done.get() && t.elapsed() < Duration::from_secs(20) {
        poll(&mut held);
        for i in 0..held.len() {
            if held[i].is_some() {
                release(&mut held, i, op["rest"][k % op["rest"].as_array().map_or(1, |x| x.len())].as_bool().unwrap_or(true));
                k += 1;
            }
        }
        nap();
    }
    if !done.get() {
        let log = log.lock().unwrap().clone();
        return json!({"r": "hang", "log": log, "items": shown});
    }
    thread.join().ok();
    let mut log = log.lock().unwrap().clone();
    log.push(ended.lock().unwrap().take().unwrap());
    let same = before == sorted(st);
    json!({"r": "ok", "log": log, "items": shown, "same": same})
}

/// Changes to files, with or without the operating system's notice.
pub fn file(op: &J) -> J {
    use notify::DebouncedEvent as E;
    let p = |k: &str| op[k].as_str().map(Path::new);
    match op["do"].as_str().unwrap() {
        "write" => {
            let p = p("path").unwrap();
            if let Some(d) = p.parent() {
                std::fs::create_dir_all(d).unwrap();
            }
            std::fs::write(p, val::uncps(&op["text"])).unwrap()
        }
        "remove" => std::fs::remove_file(p("path").unwrap()).unwrap(),
        "rename" => std::fs::rename(p("path").unwrap(), p("to").unwrap()).unwrap(),
        "chdir" => std::env::set_current_dir(p("path").unwrap()).unwrap(),
        "notice" => {
            // the watcher is set up by a thread of its own
            let t = Instant::now();
            while notify::watched().is_empty() && t.elapsed() < Duration::from_secs(10) {
                std::thread::sleep(Duration::from_millis(1));
            }
            let f = p("path").unwrap().to_path_buf();
            notify::inject(match op["what"].as_str().unwrap() {
                "write" => E::Write(f),
                "create" => E::Create(f),
                "remove" => E::Remove(f),
                "rename" => E::Rename(f, p("to").unwrap().into()),
                x => panic!("unknown notice {x}"),
            })
        }
        x => panic!("unknown file operation {x}"),
    }
    json!({"r": "ok"})
}
