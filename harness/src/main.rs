#![cfg_attr(feature = "unstable", feature(core_io_borrowed_buf, alloc_error_hook))]
#![allow(clippy::all)]
mod core;
mod gen;
mod monalloc;
#[cfg(feature = "full")]
mod zoo;
#[cfg(feature = "full")]
mod suites;

#[cfg(all(not(miri), not(mon_plain_alloc)))]
#[global_allocator]
static GLOBAL: monalloc::Mon = monalloc::Mon;

fn main() {
    let mut o = core::Opts { seed: 1, shard: 0, shards: 1, cases: 1000, secs: 1e9, out: None, only: None, cpu: 60, memory_only: false, only_lifetimes: false };
    let mut suite = String::new();
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("argument value");
        match a.as_str() {
            "--suite" => suite = v(),
            "--seed" => o.seed = v().parse().expect("seed"),
            "--shard" => o.shard = v().parse().expect("shard"),
            "--shards" => o.shards = v().parse().expect("shards"),
            "--cases" => o.cases = v().parse().expect("cases"),
            "--secs" => o.secs = v().parse().expect("secs"),
            "--out" => o.out = Some(v()),
            "--case" => o.only = Some(v().parse().expect("case")),
            "--cpu" => o.cpu = v().parse().expect("cpu"),
            "--memory-only" => o.memory_only = true,
            "--lifetimes" => core::LIFE.store(true, std::sync::atomic::Ordering::Relaxed),
            "--only-lifetimes" => {
                core::LIFE.store(true, std::sync::atomic::Ordering::Relaxed);
                o.only_lifetimes = true;
            }
            "--list" => {
                for s in suites() {
                    println!("{}", s.name);
                }
                return;
            }
            _ => {
                eprintln!("unknown argument {a}");
                std::process::exit(3);
            }
        }
    }
    for s in suites() {
        if s.name == suite {
            std::process::exit(core::main_loop(&s, &o));
        }
    }
    eprintln!("unknown suite {suite}");
    std::process::exit(3);
}

#[cfg(feature = "full")]
fn suites() -> Vec<core::Suite> {
    suites::all()
}
#[cfg(not(feature = "full"))]
fn suites() -> Vec<core::Suite> {
    Vec::new()
}
