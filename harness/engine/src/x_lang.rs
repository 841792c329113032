//! Definitions and expressions.
use crate::val;
use libs::divvy::Str;
use ogma::lang::{ast::Location, parse, process_definition, recognise_definition, AsType, Definitions, Value};
use ogma::Error;
use serde_json::{json, Value as J};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

pub struct State {
    pub defs: Definitions,
    pub root: PathBuf,
    pub wd: PathBuf,
    pool: Option<rayon::ThreadPool>,
}

pub fn err(e: &Error) -> J {
    // where the error points: inside of the text it quotes?
    let traces: Vec<J> = e
        .traces
        .iter()
        .map(|t| {
            let end = t.start.checked_add(t.len);
            let inside = end.map_or(false, |end| t.source.get(t.start..end).is_some());
            json!({"start": t.start, "len": t.len, "src": t.source.len(), "in": inside})
        })
        .collect();
    json!({"cat": format!("{:?}", e.cat), "desc": e.desc, "hard": e.hard, "traces": traces})
}
fn panicked(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_default()
}
fn loc(op: &J) -> Location {
    match op["file"].as_str() {
        Some(f) => Location::file(f, op["line"].as_u64().unwrap_or(0) as u16),
        None => Location::Shell,
    }
}

impl State {
    pub fn new() -> Self {
        State { defs: Definitions::new(), root: "/".into(), wd: "/".into(), pool: None }
    }
    pub fn step(&mut self, op: &J) -> J {
        let r = catch_unwind(AssertUnwindSafe(|| self.step_(op)));
        let mut r = r.unwrap_or_else(|p| json!({"r": "panic", "msg": panicked(p)}));
        if let Some(id) = op.get("id") {
            r["id"] = id.clone();
        }
        r
    }
    fn step_(&mut self, op: &J) -> J {
        match op["op"].as_str().unwrap() {
            "new" => {
                self.defs = Definitions::new();
                json!({"r": "ok"})
            }
            "root" => {
                self.root = op["root"].as_str().unwrap().into();
                self.wd = op["wd"].as_str().unwrap().into();
                json!({"r": "ok"})
            }
            "pool" => {
                self.pool = op["n"]
                    .as_u64()
                    .map(|n| rayon::ThreadPoolBuilder::new().num_threads(n as usize).build().unwrap());
                json!({"r": "ok"})
            }
            "def" => {
                let src = val::uncps(&op["src"]);
                let r = process_definition(&src, loc(op), op["help"].as_str().map(String::from), &mut self.defs);
                match r {
                    Ok((v, _)) => json!({"r": "ok", "v": val::to(&v)}),
                    Err(e) => json!({"r": "err", "stage": "def", "e": err(&e)}),
                }
            }
            "recog" => json!({"r": "ok", "v": recognise_definition(&val::uncps(&op["src"]))}),
            "clear" => {
                self.defs.clear(op["files"].as_bool().unwrap());
                json!({"r": "ok"})
            }
            "addfile" => match self.defs.add_from_file(op["path"].as_str().unwrap()) {
                Ok(n) => json!({"r": "ok", "n": n}),
                Err(e) => json!({"r": "err", "stage": "def", "e": err(&e)}),
            },
            "addstr" => match self.defs.add_from_str(&val::uncps(&op["src"]), Path::new(op["file"].as_str().unwrap())) {
                Ok(n) => json!({"r": "ok", "n": n}),
                Err(e) => json!({"r": "err", "stage": "def", "e": err(&e)}),
            },
            "list" => json!({"r": "ok", "v": val::rows(&ogma::lang::construct_def_table(&self.defs))}),
            "parse" => match parse::expression(val::uncps(&op["src"]), loc(op), &self.defs) {
                Ok(_) => json!({"r": "ok"}),
                Err((e, _)) => json!({"r": "err", "stage": "parse", "e": err(&e)}),
            },
            "run" => self.expr(op),
            "split" => crate::x_rt::split(op),
            "batch" => crate::x_rt::batch(self, op),
            "file" => crate::x_rt::file(op),
            x => panic!("unknown operation {x}"),
        }
    }
    fn expr(&self, op: &J) -> J {
        let src = val::uncps(&op["src"]);
        let input = val::from(&op["in"]);
        let stage = || {
            let x = match parse::expression(src.as_str(), loc(op), &self.defs) {
                Ok(x) => x,
                Err(_) => return "parse",
            };
            match ogma::eng::compile(x, &self.defs, input.ty()) {
                Ok(_) => "eval",
                Err(_) => "compile",
            }
        };
        let run = || -> Result<Value, Error> {
            fn go<I: AsType + Into<Value> + 'static>(s: &State, i: I, src: &str, l: Location) -> Result<Value, Error> {
                ogma::rt::process_expression(i, src, l, &s.defs, &s.root, &s.wd)
            }
            let l = loc(op);
            match input.clone() {
                Value::Nil => go(self, (), &src, l),
                Value::Bool(x) => go(self, x, &src, l),
                Value::Num(x) => go(self, x, &src, l),
                Value::Str(x) => go::<Str>(self, x, &src, l),
                Value::Tab(x) => go(self, x, &src, l),
                Value::TabRow(x) => go(self, x, &src, l),
                Value::Ogma(_) => unreachable!(),
            }
        };
        let r = match &self.pool {
            Some(p) => p.install(|| catch_unwind(AssertUnwindSafe(run))),
            None => catch_unwind(AssertUnwindSafe(run)),
        };
        match r {
            Ok(Ok(v)) => {
                let quiet = op["quiet"].as_bool().unwrap_or(false);
                if quiet {
                    json!({"r": "ok"})
                } else {
                    let same = val::to(&input) == val::to(&val::from(&op["in"]));
                    json!({"r": "ok", "v": val::to(&v), "ty": v.ty().to_string(), "same": same})
                }
            }
            Ok(Err(e)) => {
                let stage = catch_unwind(AssertUnwindSafe(stage)).unwrap_or("panic");
                json!({"r": "err", "stage": stage, "e": err(&e)})
            }
            Err(p) => {
                let stage = catch_unwind(AssertUnwindSafe(stage)).unwrap_or("compile");
                json!({"r": "panic", "stage": stage, "msg": panicked(p)})
            }
        }
    }
    #[allow(dead_code)]
    fn paths(&self) -> (&Path, &Path) {
        (&self.root, &self.wd)
    }
}
