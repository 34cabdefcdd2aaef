//! The recorded jobs on the interpreter of Rust's abstract machine: every
//! execution is watched for undefined behaviour, and the results are printed
//! for comparison with the compiled code.
//!
//! f256miri SEED FROM TO [THREADS] | f256miri file PATH
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/jobs.rs"]
mod jobs;
#[path = "../../harness/src/ops.rs"]
mod ops;
#[path = "../../harness/src/rng.rs"]
mod rng;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn run(j: &jobs::Job) -> String {
    catch_unwind(AssertUnwindSafe(|| jobs::run(j))).unwrap_or_else(|_| "panicked".into())
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a[0] == "file" {
        for l in std::fs::read_to_string(&a[1]).unwrap().lines() {
            if let Some(j) = jobs::Job::from_text(l) {
                println!("> {}", j.text());
                println!("= {}", run(&j));
            }
        }
        return;
    }
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, from, to) = (n(0), n(1), n(2));
    let threads = if a.len() > 3 { n(3) } else { 1 };
    for i in from..to {
        let j = jobs::job(seed, i, true);
        println!("> {i} {}", j.text());
        let r = run(&j);
        if threads > 1 {
            // the same job at the same time in several threads: data races show up
            let hs: Vec<_> = (0..threads)
                .map(|_| {
                    let j = j.clone();
                    std::thread::spawn(move || run(&j))
                })
                .collect();
            for h in hs {
                let t = h.join().unwrap();
                if t != r {
                    println!("! {i} thread result {t}");
                }
            }
        }
        println!("= {r}");
    }
}
