#![allow(dead_code)]
//! Deterministic simulation of ckb-vm with fault injection.
//!
//!   vmsim check <property> [--secs S] [--cases N] [--workers W]
//!   vmsim replay <file>
//!   vmsim digest <property> <from> <to>      (determinism)
//!
//! VERIF_SEED and VERIF_TIER come from the environment.

mod access;
mod bare;
mod alloc;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod crash;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c18;
mod c19;
mod core;
mod engine;
mod isa;
mod kernel;
mod model;
mod prog;
mod rng;
mod scn;
mod sup;
mod trap;

#[global_allocator]
static ALLOC: alloc::SimAlloc = alloc::SimAlloc;

macro_rules! dispatch {
    ($id:expr, $f:ident ( $($a:expr),* )) => {
        match $id {
            "C01" => sup::$f::<c01::C01>($($a),*),
            "C02" => sup::$f::<c02::C02>($($a),*),
            "C03" => sup::$f::<c03::C03>($($a),*),
            "C04" => sup::$f::<c04::C04>($($a),*),
            "C05" => sup::$f::<c05::C05>($($a),*),
            "C06" => sup::$f::<c06::C06>($($a),*),
            "C07" => sup::$f::<c07::C07>($($a),*),
            "C08" => sup::$f::<c08::C08>($($a),*),
            "C09" => sup::$f::<c09::C09>($($a),*),
            "C10" => sup::$f::<c10::C10>($($a),*),
            "C11" => sup::$f::<c11::C11>($($a),*),
            "C12" => sup::$f::<c12::C12>($($a),*),
            "C13" => sup::$f::<c13::C13>($($a),*),
            "C14" => sup::$f::<c14::C14>($($a),*),
            "C15" => sup::$f::<c15::C15>($($a),*),
            "C16" => sup::$f::<c16::C16>($($a),*),
            "C18" => sup::$f::<c18::C18>($($a),*),
            "C19" => sup::$f::<c19::C19>($($a),*),
            x => {
                eprintln!("unknown property {}", x);
                std::process::exit(2)
            }
        }
    };
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "check" => {
            let o = sup::Opts::parse(&args[3..]);
            let id = args[2].as_str();
            let code = dispatch!(id, check(&o));
            std::process::exit(code)
        }
        "digest" => {
            let o = sup::Opts::parse(&args[5..]);
            let (a, b) = (args[3].parse().unwrap(), args[4].parse().unwrap());
            let id = args[2].as_str();
            dispatch!(id, digest(&o, a, b));
        }
        "replay" => {
            let f = std::fs::read(&args[2]).expect("replay file");
            let v: serde_json::Value = serde_json::from_slice(&f).expect("replay file");
            let id = v["property"].as_str().unwrap_or("").to_string();
            let id = id.as_str();
            let code = dispatch!(id, replay(&v));
            std::process::exit(code)
        }
        "one" => {
            let o = sup::Opts::parse(&args[4..]);
            let n: u64 = args[3].parse().unwrap();
            let id = args[2].as_str();
            dispatch!(id, one(&o, n));
        }
        _ => {
            eprintln!("usage: vmsim check|replay|digest|one ...");
            std::process::exit(2)
        }
    }
}
