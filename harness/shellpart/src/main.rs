//! Executor: runs scripts of operations against the real code of /repo and records what it did, one
//! JSON object per line. It contains no expectations; the TLA+ trace specifications judge the records.
#![allow(dead_code, unused_imports)]

extern crate self as libs;
pub use crossbeam;

pub mod interface {
    #[path = "/repo/ogma-shell/interface/completions.rs"]
    pub mod completions;
    #[path = "/repo/ogma-shell/interface/events.rs"]
    pub mod events;
    #[path = "/repo/ogma-shell/interface/history.rs"]
    pub mod history;
    #[path = "/repo/ogma-shell/interface/input.rs"]
    pub mod input;
    #[path = "/repo/ogma-shell/interface/theme.rs"]
    pub mod theme;

    use input::InputBuffer;
}
#[path = "/repo/bin/app.rs"]
pub mod app;

mod json;
mod x_cli;
mod x_engine;
mod x_events;
mod x_history;
mod x_input;
mod x_select;
mod x_theme;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    if cmd == "events-child" {
        return x_events::child();
    }
    // a panic in the code under test is data: it is recorded, not printed
    std::panic::set_hook(Box::new(|_| {}));
    let script = std::fs::read_to_string(&args[2]).expect("script");
    let out = std::fs::File::create(&args[3]).expect("output");
    let mut out = std::io::BufWriter::new(out);
    match cmd {
        "input" => x_input::run(&script, &mut out),
        "history" => x_history::run(&script, &mut out),
        "engine" => x_engine::run(&script, &mut out),
        "select" => x_select::run(&script, &mut out),
        "theme" => x_theme::run(&script, &mut out),
        "cli" => x_cli::run(&script, &mut out),
        _ => {
            eprintln!("unknown executor {cmd}");
            std::process::exit(2);
        }
    }
    std::io::Write::flush(&mut out).unwrap();
    drop(out);
    // threads of abandoned completion engines may still be parked
    std::process::exit(0);
}
