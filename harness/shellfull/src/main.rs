//! Executor for the whole shell: sessions of keys fed to interface::run in batches, with a scripted
//! evaluator and scripted suggestion sources. Records keys, evaluations and screens; the trace
//! specification Shell judges them.
#![allow(dead_code, unused_imports)]
#[path = "/repo/ogma-shell/interface/mod.rs"]
pub mod interface;
mod json;
mod session;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("SHOWPANIC").is_some() {
            eprintln!("{i}");
        }
    }));
    let script = std::fs::read_to_string(&args[1]).expect("script");
    let out = std::fs::File::create(&args[2]).expect("output");
    session::run_all(&script, out);
    std::process::exit(0);
}
