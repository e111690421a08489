//! Runs the monitors over the crate's own types and the generated programs.
//!
//! `harness monitor <property> <seed> <deep> <out.json>` or
//! `harness dump <seed> <deep> <out>`.

use mon::props::{dump, run, Ctx};
use mon::registry::{library, odd, Registry};
use mon::report::quiet_panics;

/// Interpreters (depth 0) get a part of the library in each run.
fn registry(seed: u64, deep: usize, outlines: bool) -> Registry {
    let mut r = Registry::default();
    if outlines {
        r.rest = Some(Vec::new());
    }
    if deep == 0 {
        r.part = Some((seed as usize, if outlines { 15 } else { 10 }));
    }
    library(&mut r);
    odd(&mut r);
    r.part = None;
    p0::register(&mut r);
    p1::register(&mut r);
    p2::register(&mut r);
    p3::register(&mut r);
    r
}

fn main() {
    quiet_panics();
    if let Err((msg, at)) = mon::report::caught(work) {
        eprintln!("panic: {msg} at {at}");
        std::process::exit(101);
    }
}

fn work() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).unwrap_or_else(|| panic!("harness: argument {i} is missing"));
    let (mode, rest) = (arg(1).as_str(), 2);
    match mode {
        "monitor" => {
            let seed = arg(rest + 1).parse().expect("harness: seed");
            let deep: usize = arg(rest + 2).parse().expect("harness: deep");
            let mut reg = registry(seed, deep, false);
            if arg(rest) == "FORMS" {
                reg.types.retain(|e| e.name.starts_with("form "));
                reg.named.retain(|e| e.name.starts_with("form "));
            }
            let rep = run(&Ctx { reg: &reg, seed, deep }, arg(rest));
            emit(arg(rest + 3), &rep.json());
        }
        "dump" => {
            let seed = arg(rest).parse().expect("harness: seed");
            let deep: usize = arg(rest + 1).parse().expect("harness: deep");
            let reg = registry(seed, deep, true);
            emit(arg(rest + 2), &(dump::dump(&Ctx { reg: &reg, seed, deep }).join("\n") + "\n"));
        }
        m => panic!("harness: mode {m}"),
    }
}

/// To a file, or to standard output where there is no file system.
fn emit(out: &str, s: &str) {
    if out == "-" {
        println!("{s}");
    } else {
        std::fs::write(out, s).expect("harness: output");
    }
}
