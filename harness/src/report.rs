//! Per-thread observation state, merging, evidence and verdict lines.
use crate::ops::*;
use crate::oracle::Oracle;
use crate::rng::Rng;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const THREADS: usize = 8;
const HASH_CAP: usize = 1_500_000;
/// A single operation that produces nothing for so long counts as not terminating.
const HANG: Duration = Duration::from_secs(90);

thread_local! {
    static GUARDED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if GUARDED.with(|g| g.get()) == 0 {
            eprintln!("monitor bug: {m} at {at}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {at}"));
    }));
}
extern "C" {
    fn signal(n: i32, h: usize) -> usize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
}
thread_local! {
    static MINE: std::cell::RefCell<Option<Arc<Watch>>> = const { std::cell::RefCell::new(None) };
}
/// What this thread was executing when the process dies of a signal.
extern "C" fn dying(n: i32) {
    unsafe { signal(n, 0) };
    let out = |s: &str| unsafe {
        write(2, s.as_ptr(), s.len());
    };
    let _ = MINE.try_with(|m| {
        if let Ok(m) = m.try_borrow() {
            if let Some(w) = &*m {
                if let Ok(g) = w.opcase.try_lock() {
                    if let Some((_, c)) = &*g {
                        out("\nCURRENT CASE: ");
                        out(&c.text());
                        out("\n");
                        return;
                    }
                }
                if let Ok(g) = w.case.try_lock() {
                    if let Some((_, c)) = &*g {
                        out("\nCURRENT CASE: ");
                        out(c);
                        out("\n");
                    }
                }
            }
        }
    });
}
/// Report the current case on fatal signals (sanitizer reports end in SIGABRT).
pub fn install_signals() {
    let asan = std::env::var_os("ASAN_OPTIONS").is_some();
    for n in [6, 4, 7, 8, 11] {
        if n == 6 || !asan {
            unsafe { signal(n, dying as *const () as usize) };
        }
    }
}
pub fn watch_me(w: &Arc<Watch>) {
    MINE.with(|m| *m.borrow_mut() = Some(w.clone()));
}
/// Run f, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()));
    GUARDED.with(|g| g.set(g.get() - 1));
    r
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub sig: String,
    pub detail: String,
    pub stream: &'static str,
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}
/// What the watchdog sees of a worker.
#[derive(Default)]
pub struct Watch {
    pub case: Mutex<Option<(Instant, String)>>,
    pub opcase: Mutex<Option<(Instant, Case)>>,
}
pub struct Local {
    pub r: Rng,
    pub o: Oracle,
    pub evals: u64,
    pub trivial: u64,
    pub hashes: Vec<u64>,
    pub cells: HashMap<[u8; 6], u64>,
    pub tags: BTreeMap<String, u64>,
    pub maxerr: BTreeMap<&'static str, (f64, String)>,
    pub viol: Vec<Violation>,
    pub nviol: u64,
    pub samples: Vec<String>,
    pub stream: &'static str,
    pub tier: Tier,
    pub watch: Arc<Watch>,
    pub stop: Arc<AtomicBool>,
    pub known: Arc<Vec<String>>,
    pub known_hit: BTreeMap<String, u64>,
    /// judge only that operations end normally (C26)
    pub panics_only: bool,
}
pub fn class(b: Bits) -> u8 {
    if is_nan(b) {
        0
    } else if is_inf(b) {
        1
    } else if is_zero(b) {
        2
    } else if is_sub(b) {
        3
    } else if b.0 & FRACM == 0 && b.1 == 0 {
        4
    } else {
        let e = bexp(b) as i32 - BIAS;
        if e < -1000 {
            5
        } else if e > 1000 {
            7
        } else {
            6
        }
    }
}
pub const CLASS: [&str; 8] = ["nan", "inf", "zero", "sub", "pow2", "tiny", "mid", "huge"];
pub const SIT: [&str; 16] = [
    "exact", "tie-down", "neartie-down", "nearexact-down", "down", "special", "?", "?", "exact", "tie-up", "neartie-up",
    "nearexact-up", "up", "?", "?", "?",
];
pub fn hash64(v: &[u64]) -> u64 {
    let mut h = 0x243f6a8885a308d3u64;
    for &x in v {
        h = crate::rng::mix(h ^ x);
    }
    h
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    crate::rng::mix(h)
}
pub fn case_hash(c: &Case) -> u64 {
    let mut v = [0u64; 14];
    v[0] = c.op as u64;
    v[1] = c.n as u64;
    for i in 0..c.op.arity() {
        v[2 + 4 * i] = c.a[i].0 as u64;
        v[3 + 4 * i] = (c.a[i].0 >> 64) as u64;
        v[4 + 4 * i] = c.a[i].1 as u64;
        v[5 + 4 * i] = (c.a[i].1 >> 64) as u64;
    }
    hash64(&v)
}
impl Local {
    pub fn new(seed: u64, stream: u64, tier: Tier, known: Arc<Vec<String>>) -> Local {
        Local {
            r: Rng::new(seed, stream),
            o: Oracle::new(),
            evals: 0,
            trivial: 0,
            hashes: Vec::new(),
            cells: HashMap::new(),
            tags: BTreeMap::new(),
            maxerr: BTreeMap::new(),
            viol: Vec::new(),
            nviol: 0,
            samples: Vec::new(),
            stream: "",
            tier,
            watch: Arc::new(Watch::default()),
            stop: Arc::new(AtomicBool::new(false)),
            known,
            known_hit: BTreeMap::new(),
            panics_only: false,
        }
    }
    pub fn tag(&mut self, t: &str) {
        if let Some(n) = self.tags.get_mut(t) {
            *n += 1;
        } else {
            self.tags.insert(t.to_string(), 1);
        }
    }
    pub fn note(&mut self, h: u64, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            if self.hashes.len() < HASH_CAP {
                self.hashes.push(h);
            }
        } else {
            self.trivial += 1;
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 || (self.samples.len() < 6 && self.evals.is_power_of_two()) {
            let s = f();
            self.samples.push(s);
        }
    }
    pub fn violate(&mut self, sig: String, detail: String) {
        if self.panics_only && !detail.contains("panicked") {
            return;
        }
        if self.known.iter().any(|k| *k == sig) {
            *self.known_hit.entry(sig).or_insert(0) += 1;
            return;
        }
        self.nviol += 1;
        VIOLATED.store(true, Ordering::Relaxed);
        if self.viol.len() < 12 {
            self.viol.push(Violation { sig, detail, stream: self.stream });
        }
    }
    pub fn require(&mut self, ok: bool, sig: impl FnOnce() -> String, detail: impl FnOnce() -> String) {
        if !ok {
            self.violate(sig(), detail());
        }
    }
    /// Announce what is about to run (for the watchdog).
    pub fn enter(&self, s: impl FnOnce() -> String) {
        *self.watch.case.lock().unwrap() = Some((Instant::now(), s()));
    }
    pub fn leave(&self) {
        *self.watch.case.lock().unwrap() = None;
    }
    /// Execute an operation; None (and a violation) if it panicked.
    pub fn exec(&mut self, c: &Case) -> Option<Bits> {
        *self.watch.opcase.lock().unwrap() = Some((Instant::now(), *c));
        let g = guard(|| exec(c));
        *self.watch.opcase.lock().unwrap() = None;
        match g {
            Ok(b) => Some(b),
            Err(m) => {
                self.violate(c.text(), format!("panicked: {m}"));
                None
            }
        }
    }
    /// Execute and judge against the oracle. Returns the observed result.
    pub fn op(&mut self, op: Op, a: &[Bits], n: u32) -> Option<Bits> {
        let mut c = Case { op, a: [ZERO; 3], n };
        c.a[..a.len()].copy_from_slice(a);
        self.judge(&c)
    }
    pub fn judge(&mut self, c: &Case) -> Option<Bits> {
        let h = case_hash(c);
        let got = self.exec(c)?;
        if self.panics_only {
            self.note(h, true);
            *self.cells.entry([c.op as u8, class(c.a[0]), class(c.a[1]), class(c.a[2]), class(got), 0]).or_insert(0) += 1;
            return Some(got);
        }
        match self.o.check(c, got) {
            Ok(v) => {
                let ar = c.op.arity();
                let special = (0..ar).any(|i| !is_fin(c.a[i]) || is_zero(c.a[i]));
                self.note(h, v.inexact || special || is_sub(got) || !(0..ar).any(|i| abs(c.a[i]) == abs(got)));
                let sit = if v.inexact && self.evals & 7 == 0 {
                    self.o.situation(c, got)
                } else if v.inexact {
                    6
                } else {
                    0
                };
                let k = [
                    c.op as u8,
                    class(c.a[0]),
                    if ar > 1 { class(c.a[1]) } else { 255 },
                    if ar > 2 { class(c.a[2]) } else { 255 },
                    class(got),
                    sit,
                ];
                *self.cells.entry(k).or_insert(0) += 1;
                if v.err > 0.0 {
                    let e = self.maxerr.entry(c.op.name()).or_insert((0.0, String::new()));
                    if v.err > e.0 {
                        *e = (v.err, c.text());
                    }
                }
                if self.samples.len() < 6 {
                    let (t, s) = (c.text(), self.stream);
                    self.sample(|| format!("[{s}] {t} -> {}", hex(got)));
                }
            }
            Err(d) => {
                self.note(h, true);
                self.violate(c.text(), d);
            }
        }
        Some(got)
    }
}

pub type StreamFn = fn(&mut Local, u64);
#[derive(Clone)]
pub struct Stream {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: StreamFn,
}
#[derive(Default)]
pub struct Total {
    pub evals: u64,
    pub trivial: u64,
    pub hashes: Vec<u64>,
    pub capped: bool,
    pub cells: HashMap<[u8; 6], u64>,
    pub tags: BTreeMap<String, u64>,
    pub maxerr: BTreeMap<&'static str, (f64, String)>,
    pub viol: Vec<Violation>,
    pub nviol: u64,
    pub samples: Vec<String>,
    pub known_hit: BTreeMap<String, u64>,
    pub per_stream: Vec<(String, u64, u64, bool, f64)>,
}
pub struct Cfg {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub known: Arc<Vec<String>>,
    pub cap_s: f64,
    pub only: Option<String>,
    pub scale: f64,
    pub panics_only: bool,
}
/// Some worker has seen a violation: the verdict is settled, the rest of the run only adds cases.
static VIOLATED: AtomicBool = AtomicBool::new(false);
const SETTLED: Duration = Duration::from_secs(30);
pub fn run(cfg: &Cfg, streams: &[Stream]) -> Total {
    let mut settled: Option<Instant> = None;
    let mut t = Total::default();
    let begin = Instant::now();
    for (si, s) in streams.iter().enumerate() {
        if cfg.only.as_deref().is_some_and(|o| o != s.name) {
            continue;
        }
        if settled.is_some_and(|t| t.elapsed() > SETTLED) {
            break;
        }
        let n = if cfg.tier == Tier::Quick { s.quick } else { s.thorough };
        let n = ((n as f64 * cfg.scale).ceil() as u64).max(1);
        let st = Instant::now();
        let next = Arc::new(AtomicU64::new(0));
        let stop = Arc::new(AtomicBool::new(false));
        let mut hs = Vec::new();
        let mut watches = Vec::new();
        // fixed share per worker: what a worker does depends on the seed only
        for w in 0..THREADS as u64 {
            let sid = hash64(&[hash_str(s.name), si as u64, w]);
            let mut l = Local::new(cfg.seed, sid, cfg.tier, cfg.known.clone());
            l.stream = s.name;
            l.stop = stop.clone();
            l.panics_only = cfg.panics_only;
            watches.push(l.watch.clone());
            let f = s.f;
            let next = next.clone();
            let stop = stop.clone();
            hs.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn(move || {
                        watch_me(&l.watch);
                        let mut i = w;
                        while i < n && !stop.load(Ordering::Relaxed) {
                            f(&mut l, i);
                            next.fetch_add(1, Ordering::Relaxed);
                            i += THREADS as u64;
                        }
                        l
                    })
                    .unwrap(),
            );
        }
        let mut hung = Vec::new();
        let mut grace = None;
        loop {
            std::thread::sleep(Duration::from_millis(20));
            if hs.iter().all(|h| h.is_finished()) {
                break;
            }
            if VIOLATED.load(Ordering::Relaxed) {
                settled.get_or_insert_with(Instant::now);
            }
            let enough = settled.is_some_and(|t| t.elapsed() > SETTLED);
            if (enough || begin.elapsed().as_secs_f64() > cfg.cap_s) && !stop.load(Ordering::Relaxed) {
                stop.store(true, Ordering::Relaxed);
                grace = Some(Instant::now());
            }
            let _ = grace;
            for w in &watches {
                let c = w.case.lock().unwrap().clone();
                if let Some((t0, c)) = c {
                    if t0.elapsed() > HANG {
                        hung.push(c);
                    }
                }
                let c = *w.opcase.lock().unwrap();
                if let Some((t0, c)) = c {
                    if t0.elapsed() > HANG {
                        hung.push(c.text());
                    }
                }
            }
            if !hung.is_empty() {
                break;
            }
        }
        if !hung.is_empty() {
            for h in hung {
                t.nviol += 1;
                t.viol.push(Violation { sig: h, detail: format!("no result after {} s", HANG.as_secs()), stream: s.name });
            }
            // the stuck threads are abandoned
            return t;
        }
        let mut se = 0;
        for h in hs {
            match h.join() {
                Ok(l) => merge(&mut t, l, &mut se),
                Err(_) => {
                    let m = LAST_PANIC.with(|p| p.borrow().clone());
                    eprintln!("monitor thread panicked in stream {} {m}", s.name);
                    std::process::exit(3);
                }
            }
        }
        let done = next.load(Ordering::Relaxed);
        if std::env::var_os("F256MON_TRACE").is_some() {
            eprintln!("{} {done} {se} {:.2}s", s.name, st.elapsed().as_secs_f64());
        }
        t.per_stream.push((s.name.to_string(), done, se, done < n, st.elapsed().as_secs_f64()));
    }
    t.hashes.sort_unstable();
    t.hashes.dedup();
    t
}
fn merge(t: &mut Total, l: Local, se: &mut u64) {
    t.evals += l.evals;
    *se += l.evals;
    t.trivial += l.trivial;
    t.capped |= l.hashes.len() >= HASH_CAP;
    t.hashes.extend(l.hashes);
    for (k, v) in l.cells {
        *t.cells.entry(k).or_insert(0) += v;
    }
    for (k, v) in l.tags {
        *t.tags.entry(k).or_insert(0) += v;
    }
    for (k, v) in l.maxerr {
        let e = t.maxerr.entry(k).or_insert((0.0, String::new()));
        if v.0 > e.0 {
            *e = v;
        }
    }
    t.nviol += l.nviol;
    for v in l.viol {
        if t.viol.len() < 100 {
            t.viol.push(v);
        }
    }
    let have = t.samples.iter().filter(|s| s.starts_with(&format!("[{}]", l.stream))).count();
    if have < 3 {
        t.samples.extend(l.samples.into_iter().take(3 - have));
    }
    for (k, v) in l.known_hit {
        *t.known_hit.entry(k).or_insert(0) += v;
    }
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// Inverse of jstr.
pub fn unjstr(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.trim().strip_prefix('"').unwrap_or(s).chars();
    while let Some(c) = it.next() {
        match c {
            '"' => return o,
            '\\' => match it.next().unwrap_or('"') {
                'n' => o.push('\n'),
                't' => o.push('\t'),
                'r' => o.push('\r'),
                'u' => {
                    let h: String = it.by_ref().take(4).collect();
                    o.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?'));
                }
                c => o.push(c),
            },
            c => o.push(c),
        }
    }
    o
}
fn short(s: &str) -> String {
    if s.len() <= 700 {
        return s.to_string();
    }
    let cut = |n: usize| (0..=n).rev().find(|&i| s.is_char_boundary(i)).unwrap();
    let a = cut(500);
    let b = (s.len() - 100..s.len()).find(|&i| s.is_char_boundary(i)).unwrap();
    format!("{}...({} bytes)...{}", &s[..a], s.len(), &s[b..])
}
pub fn coverage_json(t: &Total, rule: &str) -> String {
    let mut o = String::new();
    o.push_str(&format!("{{\"evaluations\":{},\"distinct_nontrivial\":{},", t.evals, t.hashes.len()));
    if t.capped {
        o.push_str("\"distinct_note\":\"lower bound: each worker hashes its first 1500000 non-trivial cases\",");
    }
    o.push_str(&format!("\"trivial\":{},\"rule\":{},", t.trivial, jstr(rule)));
    o.push_str("\"samples\":[");
    o.push_str(&t.samples.iter().map(|s| jstr(&short(s))).collect::<Vec<_>>().join(","));
    o.push_str("],\"streams\":[");
    o.push_str(
        &t.per_stream
            .iter()
            .map(|(n, d, e, tr, s)| {
                format!("{{\"name\":{},\"histories\":{d},\"events_judged\":{e},\"cut_by_time\":{tr},\"wall_s\":{s:.2}}}", jstr(n))
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("],");
    // operation / operand class / result class / rounding situation cells
    let mut per: BTreeMap<&str, u64> = BTreeMap::new();
    let mut sit: BTreeMap<String, u64> = BTreeMap::new();
    let mut res: BTreeMap<String, u64> = BTreeMap::new();
    for (k, v) in &t.cells {
        let op = crate::ops::ALL[k[0] as usize].name();
        *per.entry(op).or_insert(0) += v;
        if k[5] != 6 && k[5] != 0 {
            *sit.entry(format!("{op}:{}", SIT[k[5] as usize])).or_insert(0) += v;
        }
        *res.entry(format!("{op}->{}", CLASS[k[4] as usize])).or_insert(0) += v;
    }
    let m = |b: &BTreeMap<String, u64>| b.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect::<Vec<_>>().join(",");
    o.push_str(&format!("\"operand_result_class_cells_hit\":{},", t.cells.len()));
    o.push_str(&format!(
        "\"events_per_operation\":{{{}}},",
        per.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect::<Vec<_>>().join(",")
    ));
    o.push_str(&format!("\"result_classes\":{{{}}},", m(&res)));
    o.push_str(&format!("\"rounding_situations_sampled\":{{{}}},", m(&sit)));
    o.push_str(&format!("\"observed\":{{{}}},", m(&t.tags)));
    o.push_str(&format!(
        "\"max_error_ulp\":{{{}}}}}",
        t.maxerr
            .iter()
            .map(|(k, (e, c))| format!("{}:{{\"ulp\":{e:.6},\"case\":{}}}", jstr(k), jstr(c)))
            .collect::<Vec<_>>()
            .join(",")
    ));
    o
}
