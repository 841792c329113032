//! Executor: runs operations against the real code of /repo/ogma and records what it did, one JSON
//! object per line. It contains no expectations; the TLA+ specifications judge the records.
use serde_json::Value as J;
use std::io::{BufRead, Write};

mod val;
mod x_lang;
mod x_rt;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // a panic in the code under test is data: it is recorded, not printed
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("ENGINE_DEBUG").is_some() {
            eprintln!("{i}");
        }
    }));
    let script = std::io::BufReader::new(std::fs::File::open(&args[2]).expect("script"));
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[3]).expect("output"));
    let mut st = x_lang::State::new();
    for line in script.lines() {
        let line = line.expect("script line");
        if line.trim().is_empty() {
            continue;
        }
        let op: J = serde_json::from_str(&line).expect("script json");
        let t0 = std::time::Instant::now();
        let mut rec = match args[1].as_str() {
            "lang" => st.step(&op),
            _ => {
                eprintln!("unknown executor");
                std::process::exit(2);
            }
        };
        rec["us"] = (t0.elapsed().as_micros() as u64).into();
        writeln!(out, "{rec}").unwrap();
        out.flush().unwrap();   // whoever kills this process sees how far it came
    }
    out.flush().unwrap();
    drop(out);
    std::process::exit(0);
}
