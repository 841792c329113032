use crate::app::App;
use crate::json::*;
use clap::Parser;
use std::io::Write;

/// one argument vector per line: arguments as comma separated code points, separated by spaces
pub fn run(script: &str, out: &mut impl Write) {
    for line in script.lines() {
        let args: Vec<String> = line.split_whitespace().map(text).collect();
        let argv = std::iter::once("ogma".to_string()).chain(args.iter().cloned());
        let r = caught(|| App::try_parse_from(argv));
        let list = |v: &[String]| {
            let v: Vec<String> = v.iter().map(|x| cps(x)).collect();
            format!("[{}]", v.join(","))
        };
        let mut o = Obj::new("parse").raw("argv", &list(&args));
        o = match r {
            None => o.str("res", "panic"),
            Some(Err(e)) => o.str(
                "res",
                match e.kind() {
                    clap::ErrorKind::DisplayHelp => "help",
                    clap::ErrorKind::DisplayVersion => "version",
                    _ => "error",
                },
            ),
            Some(Ok(App { quiet, def, files })) => o
                .str("res", "ok")
                .bool("quiet", quiet)
                .bool("hasdef", def.is_some())
                .raw("def", &list(def.as_deref().unwrap_or(&[])))
                .raw("files", &list(&files)),
        };
        writeln!(out, "{}", o.end()).unwrap();
    }
}
