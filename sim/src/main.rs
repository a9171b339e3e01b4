#![cfg_attr(not(feature = "full"), allow(dead_code, unused_imports))]
#![allow(clippy::all)]
mod ctx;
mod derived;
mod erase;
mod ev;
mod flat;
mod fmtref;
mod gen;
mod json;
mod known;
mod mem;
mod nest;
mod props;
mod proto;
mod real;
mod run;
mod sched;
mod script;
mod ser;
mod tape;

#[global_allocator]
static MEM: mem::Mem = mem::Mem;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let props = props::all();
    let find = |id: &str| props.iter().find(|p| p.id == id);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = a.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            match find(&a[2]) {
                Some(p) => run::check(p, &tier, seed),
                None => {
                    eprintln!("sim: unknown property {}", a[2]);
                    2
                }
            }
        }
        Some("worker") => {
            let p = find(&a[2]).unwrap();
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            run::worker(p, n(3), n(4), n(5), n(6), std::path::Path::new(&a[7]), n(8));
            0
        }
        Some("replay") => run::replay(&props, std::path::Path::new(&a[2])),
        _ => {
            eprintln!("usage: sim check ID [quick|thorough] | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
