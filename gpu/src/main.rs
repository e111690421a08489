//! Generated GLSL in front of a GLSL compiler and a software GPU.
//!
//! `gpu naga <seed> <deep> <out.json>`: every generated definition is parsed
//! by naga and its members compared with the declaration.
//! `gpu run <seed> <deep> <out.json> <part> <parts>`: shaders using the definitions read the
//! values a program uploads and write values a program decodes.

mod device;
mod front;
mod run;

use mon::registry::{library, Registry};
use mon::report::{quiet_panics, Report};

fn main() {
    quiet_panics();
    if let Err((msg, at)) = mon::report::caught(work) {
        eprintln!("panic: {msg} at {at}");
        std::process::exit(101);
    }
}

fn work() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).unwrap_or_else(|| panic!("harness: argument {i} is missing"));
    let seed: u64 = arg(2).parse().expect("harness: seed");
    let deep: usize = arg(3).parse().expect("harness: deep");
    let mut reg = Registry::default();
    p0::register(&mut reg);
    p1::register(&mut reg);
    let mut rep = Report::new(arg(1));
    match arg(1).as_str() {
        "naga" => {
            p2::register(&mut reg);
            front::definitions(&reg, &mut rep);
        }
        "run" => {
            library(&mut reg);
            let part = |i: usize| arg(i).parse().expect("harness: part");
            run::shaders(&reg, seed, deep, (part(5), part(6)), &mut rep);
        }
        m => panic!("harness: mode {m}"),
    }
    std::fs::write(arg(4), rep.json()).expect("harness: output");
}
