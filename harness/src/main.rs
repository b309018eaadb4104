//! Runs the library and records what it does, one JSON record per line, for
//! the TLA+ specification to judge. Usage:
//!   conform SUITE --seed N --from A --to B --out FILE [--progress FILE] [--in FILE] [--tier T]
mod blend;
mod every;
mod extra;
mod fault;
mod gen;
mod json;
mod map;
mod obs;
mod rng;
mod suites;
mod sweep;

use std::io::Write;

pub struct Args {
    pub suite: String,
    pub seed: u64,
    pub from: usize,
    pub to: usize,
    pub input: Option<String>,
    pub tier: String,
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|p| a.get(p + 1)).cloned();
    let num = |k: &str, d: usize| opt(k).map(|x| x.parse().expect("harness: number")).unwrap_or(d);
    let args = Args {
        suite: a[0].clone(),
        seed: num("--seed", 1) as u64,
        from: num("--from", 0),
        to: num("--to", 0),
        input: opt("--in"),
        tier: opt("--tier").unwrap_or_else(|| "quick".into()),
    };
    if args.suite == "sizes" {
        println!("blend4 {} blend5 {}", blend::Blend::new(4).size(), blend::Blend::new(5).size());
        return;
    }
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().map(|x| x.as_str()).or_else(|| i.payload().downcast_ref::<&str>().copied());
        if m.map_or(false, |x| x.starts_with("harness")) {
            eprintln!("{}", i);
            std::process::exit(78);
        }
    }));
    let watch = obs::Watch::new(opt("--progress").as_deref());
    let file = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(opt("--out").expect("harness: --out"))
        .expect("harness: output file");
    let mut out = std::io::BufWriter::with_capacity(1 << 20, file);
    // in a thread with the stack that std gives a thread
    let run = move || {
        let mut sink = |j: json::J| {
            let mut t = j.dump();
            t.push('\n');
            out.write_all(t.as_bytes()).unwrap();
        };
        suites::run(&args, &watch, &mut sink);
        out.flush().unwrap();
    };
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(run).expect("harness: thread");
    if t.join().is_err() {
        eprintln!("harness: ended");
        std::process::exit(78);
    }
}
