//! Executions compared across configurations (C27), and every workload of the
//! other properties watched for abnormal ends only (C26).
use crate::jobs::{self, Job};
use crate::gen;
use crate::ops::*;
use crate::report::*;
use crate::rng::{mix, Rng};
use std::time::Instant;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

pub const BLOCK: u64 = 500;
fn result(j: &Job) -> String {
    guard(|| jobs::run(j)).unwrap_or_else(|_| "panicked".into())
}
fn block(seed: u64, b: u64, n: u64, light: bool) -> u64 {
    let mut h = mix(b);
    for i in b * BLOCK..((b + 1) * BLOCK).min(n) {
        h = jobs::fnv(h, &result(&jobs::job(seed, i, light)));
    }
    h
}
/// `digest --seed S --n N --threads T [--reverse] [--same] [--light]`: one hash
/// per block of jobs. --same: every thread executes all jobs, shifted against
/// each other, and they have to agree.
/// `jobs --seed S --from A --to B [--light]` or `jobs --file F`: all results.
pub fn main(cmd: &str, args: &[String]) -> ! {
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).and_then(|s| s.parse().ok()).unwrap_or(d);
    let has = |k: &str| args.iter().any(|a| a == k);
    let (seed, light) = (num("--seed", 1), has("--light"));
    if cmd == "hammer" {
        hammer(args);
    }
    if cmd == "cold" {
        cold(seed, num("--kind", 0) as usize, num("--threads", 8));
    }
    if cmd == "jobs" {
        let list: Vec<Job> = match get("--file") {
            Some(f) => std::fs::read_to_string(f).unwrap().lines().filter_map(Job::from_text).collect(),
            None => (num("--from", 0)..num("--to", 1)).map(|i| jobs::job(seed, i, light)).collect(),
        };
        let mut o = String::new();
        for j in list {
            o.push_str(&format!("> {}\n= {}\n", j.text(), result(&j)));
        }
        print!("{o}");
        std::process::exit(0);
    }
    if has("--distinct") {
        let mut v: Vec<u64> = (0..num("--n", 1000)).map(|i| hash_str(&jobs::job(seed, i, light).text())).collect();
        v.sort_unstable();
        v.dedup();
        println!("{}", v.len());
        std::process::exit(0);
    }
    let n = num("--n", 1000);
    let blocks = n.div_ceil(BLOCK);
    let threads = num("--threads", 1);
    let (rev, same) = (has("--reverse"), has("--same"));
    let next = Arc::new(AtomicU64::new(0));
    let hs: Vec<_> = (0..threads)
        .map(|w| {
            let next = next.clone();
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let watch = Arc::new(Watch::default());
                    watch_me(&watch);
                    let mut out = Vec::new();
                    if same {
                        for k in 0..blocks {
                            // neighbours work on the same blocks at nearly the same time
                            let b = if w % 2 == 0 { k } else { (k + 1) % blocks };
                            out.push((b, block(seed, b, n, light)));
                        }
                    } else {
                        loop {
                            let k = next.fetch_add(1, Ordering::Relaxed);
                            if k >= blocks {
                                break;
                            }
                            let b = if rev { blocks - 1 - k } else { k };
                            out.push((b, block(seed, b, n, light)));
                        }
                    }
                    out
                })
                .unwrap()
        })
        .collect();
    let mut all: Vec<(u64, u64)> = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
    all.sort_unstable();
    all.dedup();
    let mut o = String::new();
    for (b, h) in &all {
        o.push_str(&format!("{b} {h:016x}\n"));
    }
    print!("{o}");
    std::process::exit(0);
}
// ---- many threads in lockstep -----------------------------------------------------------------
/// Jobs that differ from `j` in one place only.
fn siblings(j: &Job, r: &mut Rng) -> Vec<Job> {
    let twist = |b: Bits, r: &mut Rng| -> Bits {
        match r.below(6) {
            0 => (b.0, b.1 ^ 1 << r.below(128)),
            1 => (b.0, !b.1),
            2 => (b.0 ^ 1 << 127, b.1),
            3 => (b.0 ^ 1 << r.range(108, 112), b.1),
            4 => (b.0 ^ 1 << r.below(108), b.1),
            _ => (b.0, 0),
        }
    };
    (0..3)
        .filter_map(|_| {
            Some(match j {
                Job::Op(c) if c.op != Op::Clamp => {
                    let mut c = *c;
                    let k = r.below(c.op.arity() as u64) as usize;
                    c.a[k] = twist(c.a[k], r);
                    // no far remainders
                    if c.op == Op::Rem && is_fin(c.a[0]) && is_fin(c.a[1]) && !is_zero(c.a[0]) && !is_zero(c.a[1]) && gen::lead_exp(c.a[0]) - gen::lead_exp(c.a[1]) > 3000 {
                        return None;
                    }
                    Job::Op(c)
                }
                Job::Parse(t) => {
                    let mut v = t.clone().into_bytes();
                    let i = r.below(v.len().max(1) as u64) as usize;
                    if v.len() > 300 || !v.get(i)?.is_ascii_digit() {
                        return None;
                    }
                    v[i] = b'0' + r.below(10) as u8;
                    let t = String::from_utf8(v).ok()?;
                    // exponents that grow may get slow
                    if t.to_ascii_lowercase().contains('e') && i > t.to_ascii_lowercase().find('e')? {
                        return None;
                    }
                    Job::Parse(t)
                }
                Job::Fmt(k, w, p, b) => {
                    if r.chance(1, 3) {
                        Job::Fmt(*k, *w, r.below(76) as usize, *b)
                    } else {
                        Job::Fmt(*k, *w, *p, (b.0, b.1 ^ 1 << r.below(128)))
                    }
                }
                Job::Cmp(a, b) => Job::Cmp(twist(*a, r), *b),
                Job::Int(k, v) => Job::Int(*k, v ^ 1 << r.below(128)),
                Job::Float(v) => Job::Float(v ^ 1 << r.below(64)),
                Job::Bits(b) => Job::Bits(twist(*b, r)),
                _ => return None,
            })
        })
        .collect()
}
enum Prep {
    Op(Case, Result<Bits, ()>),
    Other(Job, String),
}
impl Prep {
    fn new(j: Job) -> Prep {
        match j {
            Job::Op(c) => Prep::Op(c, guard(|| exec(&c)).map_err(|_| ())),
            j => {
                let t = result(&j);
                Prep::Other(j, t)
            }
        }
    }
    /// Executes again; the text of a different result.
    fn again(&self) -> Option<String> {
        match self {
            Prep::Op(c, w) => {
                let g = guard(|| exec(c)).map_err(|_| ());
                (g != *w).then(|| format!("{}\tgot {:?}\talone {:?}", c.text(), g.map(hex), w.map(hex)))
            }
            Prep::Other(j, w) => {
                let g = result(j);
                (g != *w).then(|| format!("{}\tgot {g}\talone {w}", j.text()))
            }
        }
    }
}
/// `hammer --seed S --groups G --threads T --us U`: groups of jobs of one kind (some differ in a
/// single place); after one thread has executed them, all threads start together and execute
/// them over and over for U microseconds, neighbours in the same and in other orders.
fn hammer(args: &[String]) -> ! {
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).and_then(|s| s.parse().ok()).unwrap_or(d);
    let (seed, ng, nt, us) = (num("--seed", 1), num("--groups", 500), num("--threads", 8), num("--us", 2000));
    // jobs by kind
    let mut by: std::collections::BTreeMap<&'static str, Vec<Job>> = Default::default();
    for i in 0..40_000u64 {
        let j = jobs::job(seed ^ 0x68616d, i, true);
        by.entry(j.kind()).or_default().push(j);
    }
    let mut kinds: Vec<&'static str> = by.keys().copied().collect();
    let mut r = Rng::new(seed, 0x68616d6d);
    let mut groups: Vec<(&'static str, Vec<Prep>)> = Vec::new();
    // given jobs, with siblings, as often as asked for
    let given: Vec<Job> = get("--file").map_or(vec![], |f| std::fs::read_to_string(f).unwrap().lines().filter_map(Job::from_text).collect());
    if get("--file").is_some() {
        if given.is_empty() {
            println!("= 0 0 0");
            std::process::exit(0);
        }
        kinds.retain(|k| given.iter().any(|j| j.kind() == *k));
    }
    for g in 0..ng {
        if !given.is_empty() {
            let j = &given[g as usize % given.len()];
            let mut v = vec![j.clone(), given[r.below(given.len() as u64) as usize].clone()];
            let more = siblings(j, &mut r);
            v.extend(more);
            groups.push((j.kind(), v.into_iter().map(Prep::new).collect()));
            continue;
        }
        let kind = kinds[g as usize % kinds.len()];
        let l = &by[kind];
        let mut v: Vec<Job> = (0..2).map(|_| l[r.below(l.len() as u64) as usize].clone()).collect();
        let more = siblings(&v[0], &mut r);
        v.extend(more);
        groups.push((kind, v.into_iter().map(Prep::new).collect()));
    }
    let groups = Arc::new(groups);
    let gate = Arc::new(AtomicU64::new(0));
    let hs: Vec<_> = (0..nt)
        .map(|w| {
            let (groups, gate) = (groups.clone(), gate.clone());
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let watch = Arc::new(Watch::default());
                    watch_me(&watch);
                    let (mut bad, mut n) = (Vec::new(), 0u64);
                    for (g, (_, v)) in groups.iter().enumerate() {
                        // all start at the same time
                        gate.fetch_add(1, Ordering::SeqCst);
                        while gate.load(Ordering::SeqCst) < (g as u64 + 1) * nt {
                            std::hint::spin_loop();
                        }
                        let t0 = Instant::now();
                        let mut i = 0usize;
                        loop {
                            // long runs of one job, alternation, all in turn
                            let k = match i / 64 % 4 {
                                0 => i + w as usize / 2,
                                1 => i / 3,
                                2 => (i % 2) * (1 + i / 256 % (v.len() - 1)),
                                _ => i * (w as usize + 1),
                            } % v.len();
                            if let Some(t) = v[k].again() {
                                if bad.len() < 20 {
                                    bad.push(t);
                                }
                            }
                            i += 1;
                            if i % 4 == 0 && t0.elapsed().as_micros() as u64 > us {
                                break;
                            }
                        }
                        n += i as u64;
                    }
                    (bad, n)
                })
                .unwrap()
        })
        .collect();
    let mut o = String::new();
    let mut n = 0;
    for h in hs {
        let (b, k) = h.join().unwrap();
        n += k;
        for t in b {
            o.push_str(&format!("! {t}\n"));
        }
    }
    println!("{o}= {ng} {} {n}", kinds.len());
    std::process::exit(0);
}
/// `cold --seed S --kind K --threads T`: the first thing this process does with the crate is that
/// T threads released together execute the same job; then the next one. Compared with what one
/// thread gets afterwards. Anything initialised at its first use is initialised here.
fn cold(seed: u64, kind: usize, nt: u64) -> ! {
    let mut by: std::collections::BTreeMap<&'static str, Vec<Job>> = Default::default();
    for i in 0..2_000u64 {
        let j = jobs::job(seed ^ 0x636f_6c64, i, true);
        by.entry(j.kind()).or_default().push(j);
    }
    let name = *by.keys().nth(kind % by.len()).unwrap();
    let mut v = by.remove(name).unwrap();
    v.truncate(12);
    let n = v.len();
    let v = Arc::new(v);
    let gate = Arc::new(AtomicU64::new(0));
    let hs: Vec<_> = (0..nt)
        .map(|_| {
            let (v, gate) = (v.clone(), gate.clone());
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let watch = Arc::new(Watch::default());
                    watch_me(&watch);
                    let mut o = Vec::new();
                    for (k, j) in v.iter().enumerate() {
                        gate.fetch_add(1, Ordering::SeqCst);
                        while gate.load(Ordering::SeqCst) < (k as u64 + 1) * nt {
                            std::hint::spin_loop();
                        }
                        o.push(result(j));
                    }
                    o
                })
                .unwrap()
        })
        .collect();
    let all: Vec<Vec<String>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    let mut o = String::new();
    for (k, j) in v.iter().enumerate() {
        let w = result(j);
        if let Some(x) = all.iter().find(|x| x[k] != w) {
            o.push_str(&format!("! {}\tgot {}\talone {w}\n", j.text(), x[k]));
        }
    }
    println!("{o}= 1 {name} {}", n as u64 * nt);
    std::process::exit(0);
}
fn job_stream(l: &mut Local, i: u64) {
    let j = jobs::job(l.r.u64() | 1, i, false);
    one(l, &j);
}
fn one(l: &mut Local, j: &Job) {
    l.enter(|| j.text());
    let r = guard(|| jobs::run(j));
    l.leave();
    l.note(hash_str(&j.text()), true);
    l.tag(&format!("job: {}", j.kind()));
    match r {
        Ok(r) => l.sample(|| format!("{} -> {}", j.text(), r)),
        Err(m) => l.violate(j.text(), format!("panicked: {m}")),
    }
}
pub fn replay(l: &mut Local, line: &str) -> bool {
    let Some(j) = Job::from_text(line) else { return false };
    one(l, &j);
    true
}
pub fn streams(p: &str) -> Option<(Vec<Stream>, &'static str)> {
    if p != "C26" {
        return None;
    }
    let mut v = vec![Stream { name: "jobs", quick: 500_000, thorough: 40_000_000, f: job_stream }];
    for k in 1..=29 {
        let q = format!("C{k:02}");
        if q == "C26" || q == "C27" {
            continue;
        }
        if let Some((ss, _)) = crate::streams(&q) {
            for s in ss {
                let few = |n: u64| (n / 40).max(8);
                let name: &'static str = Box::leak(format!("{q}/{}", s.name).into_boxed_str());
                v.push(Stream { name, quick: few(s.quick), thorough: few(s.thorough), f: s.f });
            }
        }
    }
    Some((
        v,
        "an event is one call (or one workload step) observed to end normally; non-trivial: every call whose operands the \
         oracle streams of the other properties consider non-trivial; all jobs",
    ))
}
