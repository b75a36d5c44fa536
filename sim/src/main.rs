//! Deterministic simulation of butane. See /verif/DESIGN.md.
mod asy;
mod cmds;
mod cn;
mod conc;
mod conv;
mod core;
mod files;
mod fk;
mod fsim;
mod hist;
mod mig;
mod models;
mod os;
mod pg;
mod pool;
mod pred;
mod props;
mod refdb;
mod runner;
mod solo;
mod store;
mod tur;
mod vfs;

fn main() {
    vfs::install();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or_else(|_| panic!("argument {i}"));
    if arg(1) != "replay" {
        std::panic::set_hook(Box::new(|_| {}));
    }
    if arg(1) != "check" {
        solo::warm();
        pool::warm();
        tur::warm();
    }
    let of_file = |p: &str| -> &'static runner::Prop {
        let d: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap();
        props::find(d["property"].as_str().unwrap())
    };
    let id = if matches!(arg(1), "replay" | "minimise") { of_file(arg(2)).id } else { arg(2) };
    let on_pg = matches!(id, "C17" | "C21");
    let server = if on_pg { pg::start() } else { None };
    if on_pg && arg(1) != "check" {
        pg::warm(id == "C17");
    }
    let rc = match arg(1) {
        "check" => runner::check(props::find(arg(2))),
        "worker" => {
            runner::worker(props::find(arg(2)), num(3), num(4), num(5), num(6));
            0
        }
        "replay" => runner::replay(of_file(arg(2)), arg(2), arg(3) != "quiet"),
        "minimise" => {
            runner::minimise(of_file(arg(2)), arg(2), num(3));
            0
        }
        "determinism" => runner::determinism(props::find(arg(2)), num(3), num(4)),
        "hashes" => {
            runner::hashes(props::find(arg(2)), num(3), num(4));
            0
        }
        "scan" => {
            runner::scan(props::find(arg(2)), num(3), num(4));
            0
        }
        "seed" => {
            let r = runner::one(props::find(arg(2)), num(3), None, true);
            for t in &r.trace {
                println!("{t}");
            }
            println!("hash {:016x} stats {:?}", r.hash, r.stats);
            for v in &r.violations {
                println!("{}: {}", v.class, v.detail);
            }
            !r.violations.is_empty() as i32
        }
        x => {
            eprintln!("unknown command {x}");
            2
        }
    };
    drop(server);
    fsim::leave(rc);
}
