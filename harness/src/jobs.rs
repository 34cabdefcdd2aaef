//! Self-contained jobs (operation, operands) whose results are recorded as
//! text and compared across builds, threads and Miri (C26, C27). Needs no
//! oracle library, so that Miri can run it.
#![allow(dead_code)]
use crate::gen;
use crate::ops::*;
use crate::rng::{mix, Rng};
use f256::f256;
use std::fmt::Write;
use std::str::FromStr;

#[derive(Clone, Debug, PartialEq)]
pub enum Job {
    Op(Case),
    Parse(String),
    Fmt(u32, usize, usize, Bits),
    Cmp(Bits, Bits),
    Int(u32, u128),
    Float(u64),
    Bits(Bits),
    Enc(u32, i32, Bits),
}
pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn unquote(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.trim().strip_prefix('"').unwrap_or(s).chars();
    while let Some(c) = it.next() {
        match c {
            '"' => return o,
            '\\' => match it.next().unwrap_or('"') {
                'u' => {
                    let h: String = it.by_ref().take(4).collect();
                    o.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?'));
                }
                c => o.push(c),
            },
            c => o.push(c),
        }
    }
    o
}
impl Job {
    pub fn text(&self) -> String {
        match self {
            Job::Op(c) => c.text(),
            Job::Parse(s) => format!("jparse {}", quote(s)),
            Job::Fmt(k, w, p, b) => format!("jfmt {k} {w} {p} {}", hex(*b)),
            Job::Cmp(a, b) => format!("jcmp {} {}", hex(*a), hex(*b)),
            Job::Int(k, v) => format!("jint {k} {v:x}"),
            Job::Float(v) => format!("jfloat {v:x}"),
            Job::Bits(b) => format!("jbits {}", hex(*b)),
            Job::Enc(s, t, c) => format!("jenc {s} {t} {}", hex(*c)),
        }
    }
    pub fn from_text(l: &str) -> Option<Job> {
        if let Some(c) = Case::parse(l) {
            return Some(Job::Op(c));
        }
        let v: Vec<&str> = l.split_whitespace().collect();
        let at = |i: usize| v.get(i).copied().unwrap_or("");
        Some(match at(0) {
            "jparse" => Job::Parse(unquote(l.strip_prefix("jparse ")?)),
            "jfmt" => Job::Fmt(at(1).parse().ok()?, at(2).parse().ok()?, at(3).parse().ok()?, unhex(at(4))?),
            "jcmp" => Job::Cmp(unhex(at(1))?, unhex(at(2))?),
            "jint" => Job::Int(at(1).parse().ok()?, u128::from_str_radix(at(2), 16).ok()?),
            "jfloat" => Job::Float(u64::from_str_radix(at(1), 16).ok()?),
            "jbits" => Job::Bits(unhex(at(1))?),
            "jenc" => Job::Enc(at(1).parse().ok()?, at(2).parse().ok()?, unhex(at(3))?),
            _ => return None,
        })
    }
    /// Which part of the crate the job drives (for the evidence).
    pub fn kind(&self) -> &'static str {
        match self {
            Job::Op(c) => c.op.name(),
            Job::Parse(_) => "parse",
            Job::Fmt(..) => "format",
            Job::Cmp(..) => "compare",
            Job::Int(..) => "from integer",
            Job::Float(..) => "from float",
            Job::Bits(..) => "classify, encode, decode",
            Job::Enc(..) => "from_sign_exp_signif",
        }
    }
}
pub const NFMT: u32 = 16;
fn fmt_text(k: u32, w: usize, p: usize, x: f256) -> String {
    let mut o = String::new();
    let _ = match k {
        0 => write!(o, "{x}"),
        1 => write!(o, "{x:e}"),
        2 => write!(o, "{x:E}"),
        3 => write!(o, "{x:.p$}"),
        4 => write!(o, "{x:.p$e}"),
        5 => write!(o, "{x:+.p$E}"),
        6 => write!(o, "{x:w$}"),
        7 => write!(o, "{x:<+w$.p$}"),
        8 => write!(o, "{x:^w$e}"),
        9 => write!(o, "{x:0w$.p$}"),
        10 => write!(o, "{x:*>w$.p$e}"),
        11 => write!(o, "{x:+0w$}"),
        12 => write!(o, "{x:ß^w$.p$}"),
        13 => write!(o, "{x:?}"),
        14 => write!(o, "{x:0w$E}"),
        _ => write!(o, "{x:#<w$.p$e}"),
    };
    o
}
fn parsed(r: Result<f256, core::num::ParseFloatError>) -> String {
    match r {
        Ok(v) => hex(v.to_bits()),
        Err(e) => format!("{e} / {e:?}"),
    }
}
/// Execute and describe everything observable of the result.
pub fn run(j: &Job) -> String {
    match j {
        Job::Op(c) => hex(exec(c)),
        Job::Parse(s) => {
            // an allocation of exactly the string's size: reads beyond it are visible to sanitizers
            let b: Box<str> = s.as_str().into();
            let a = parsed(f256::from_str(&b));
            let t = parsed(f256::try_from(&*b));
            #[cfg(feature = "num-traits")]
            let n = parsed(<f256 as num_traits::Num>::from_str_radix(&b, 10));
            #[cfg(not(feature = "num-traits"))]
            let n = a.clone();
            format!("{a} {t} {n}")
        }
        Job::Fmt(k, w, p, b) => fmt_text(*k, *w, *p, f(*b)),
        Job::Cmp(a, b) => {
            let (x, y) = (f(*a), f(*b));
            format!(
                "{:?} {:?} {} {} {} {} {} {}",
                x.partial_cmp(&y),
                x.total_cmp(&y),
                x == y,
                x != y,
                x < y,
                x <= y,
                x > y,
                x >= y
            )
        }
        Job::Int(k, v) => {
            let v = *v;
            let x = match k {
                0 => f256::from(v as i8),
                1 => f256::from(v as u8),
                2 => f256::from(v as i16),
                3 => f256::from(v as u16),
                4 => f256::from(v as i32),
                5 => f256::from(v as u32),
                6 => f256::from(v as i64),
                7 => f256::from(v as u64),
                8 => f256::from(v as i128),
                _ => f256::from(v),
            };
            hex(x.to_bits())
        }
        Job::Float(u) => {
            let a = f256::from(f64::from_bits(*u)).to_bits();
            let b = f256::from(f32::from_bits(*u as u32 ^ (*u >> 32) as u32)).to_bits();
            format!("{} {}", hex(a), hex(b))
        }
        Job::Bits(b) => {
            let x = f(*b);
            let mut o = format!(
                "{:?} {}{}{}{}{}{}{}{}{} {} {} {} {:?} {:?} {:?} {}",
                x.classify(),
                x.is_nan() as u8,
                x.is_infinite() as u8,
                x.is_finite() as u8,
                x.is_subnormal() as u8,
                x.is_normal() as u8,
                x.eq_zero() as u8,
                x.is_special() as u8,
                x.is_sign_positive() as u8,
                x.is_sign_negative() as u8,
                hex(x.ulp().to_bits()),
                hex(x.abs().to_bits()),
                hex((-x).to_bits()),
                x.to_be_bytes(),
                x.to_le_bytes(),
                x.to_ne_bytes(),
                hex(f256::from_ne_bytes(x.to_ne_bytes()).to_bits()),
            );
            if is_fin(*b) {
                let _ = write!(o, " {:?}", x.as_sign_exp_signif());
            }
            o
        }
        Job::Enc(s, t, c) => hex(f256::from_sign_exp_signif(*s, *t, *c).to_bits()),
    }
}
fn digit_string(r: &mut Rng, n: u64) -> String {
    let mut s = String::new();
    let mode = r.below(5);
    for _ in 0..n {
        let d = match mode {
            0 => 9,
            1 => 0,
            2 => r.pick(&[0, 5, 9]),
            _ => r.below(10),
        };
        s.push((b'0' + d as u8) as char);
    }
    s
}
/// Multiplies a number given by its decimal digits, last digit first.
fn times(d: &mut Vec<u8>, m: u32, add: u32) {
    let mut c = add;
    for x in d.iter_mut() {
        c += *x as u32 * m;
        *x = (c % 10) as u8;
        c /= 10;
    }
    while c > 0 {
        d.push((c % 10) as u8);
        c /= 10;
    }
}
/// A number with up to 238 bits times a power of two, written with all its digits; or next to it.
fn dyadic(r: &mut Rng, light: bool) -> String {
    let n = match r.below(4) {
        0 => r.range(1, 120),
        1 => 237,
        _ => 238,
    };
    let (few, long) = (r.chance(1, 2), if light { 30 } else { 400 });
    let mut d = vec![1];
    for k in 1..n {
        let bit = if few && k < n - 1 { 0 } else { r.below(2) as u32 };
        times(&mut d, 2, bit);
    }
    let k = r.range(-long, long);
    let mut e = 0;
    for _ in 0..k.unsigned_abs() {
        if k > 0 {
            times(&mut d, 2, 0);
        } else {
            times(&mut d, 5, 0);
            e -= 1;
        }
    }
    let mut s: String = d.iter().rev().map(|x| (b'0' + x) as char).collect();
    match r.below(4) {
        0 => {}
        1 => {
            let z = r.range(1, 90);
            s.push_str(&"0".repeat(z as usize));
            e -= z;
        }
        2 => {
            let z = r.range(1, 90);
            s.push_str(&"0".repeat(z as usize));
            s.push('1');
            e -= z + 1;
        }
        _ => {
            let l = s.pop().unwrap();
            s.push(if l == '0' { '1' } else { (l as u8 - 1) as char });
            let z = r.range(1, 40);
            s.push_str(&"9".repeat(z as usize));
            e -= z;
        }
    }
    if r.chance(1, 3) && e < 0 && ((-e) as usize) < s.len() {
        s.insert(s.len() - (-e) as usize, '.');
    } else {
        let at = r.below(s.len() as u64) as usize;
        s.insert(at, '.');
        let _ = write!(s, "e{}", e + (s.len() - 1 - at) as i64);
    }
    s
}
fn text(r: &mut Rng, light: bool) -> String {
    if r.chance(1, if light { 16 } else { 8 }) {
        return dyadic(r, light);
    }
    let n = match r.below(8) {
        2 | 3 if light => r.range(30, 60) as u64,
        0 => r.below(4),
        1 => r.range(15, 25) as u64,
        2 => r.range(60, 90) as u64,
        3 => r.range(90, 400) as u64,
        _ => r.range(1, 40) as u64,
    };
    let mut d = digit_string(r, n);
    if r.chance(2, 3) {
        let at = r.below(n + 1) as usize;
        d.insert(at, '.');
    }
    if r.chance(1, 4) {
        d = "0".repeat(r.below(20) as usize) + &d;
    }
    if r.chance(1, 2) {
        let e = match r.below(6) {
            // far exponents may take a second, in an interpreter minutes
            0 if !light && r.chance(1, 100) => {
                let m = r.pick(&[79_000, 78_900, 40_000, 80_000]);
                r.pick(&[-1, 1]) * m + r.range(-60, 60)
            }
            1 => r.pick(&[-1, 1]) * r.range(200_000, 9_999_999_999_999),
            2 => r.range(-400, 400),
            3 if !light => r.range(-2_000, 2_000),
            _ => r.range(-30, 30),
        };
        d.push(r.pick(&['e', 'E']));
        if e >= 0 && r.chance(1, 2) {
            d.push('+');
        }
        if r.chance(1, 10) {
            let _ = write!(d, "{:0>12}", e.unsigned_abs());
        } else {
            let _ = write!(d, "{e}");
        }
    }
    if r.chance(1, 3) {
        d.insert(0, r.pick(&['+', '-']));
    }
    if r.chance(1, 16) {
        d = r.pick(&["inf", "NaN", "-Infinity", "+nan", "infin", "", "+", "-.", ".", "e5", "1e", "1e+", "0x1p3", "iNf", "nan0"]).into();
    }
    if r.chance(1, 5) && !d.is_empty() {
        let mut at = r.below(d.len() as u64 + 1) as usize;
        while !d.is_char_boundary(at) {
            at -= 1;
        }
        let c = r.pick(&['.', 'e', '-', '+', '_', ' ', '0', '9', '/', ':', '\0', 'é', '٣', '😀', '\u{b9}', 'E', 'n']);
        if r.chance(1, 2) || at == d.len() {
            d.insert(at, c);
        } else {
            d.remove(at);
        }
    }
    d
}
/// Operands: mostly finite and related, all classes now and then.
fn operand(r: &mut Rng, o: &[Bits]) -> Bits {
    match r.below(8) {
        0 => gen::special(r),
        1 | 2 if !o.is_empty() => gen::related(r, o[0]),
        3 if o.len() > 1 => gen::related(r, o[1]),
        4 => {
            let e = r.range(-240, 240);
            gen::norm(r, e)
        }
        5 => {
            let e = r.range(-3, 3);
            gen::norm(r, e)
        }
        _ => gen::any(r),
    }
}
/// The i-th job of a seed. `light`: nothing that takes an interpreter minutes.
pub fn job(seed: u64, i: u64, light: bool) -> Job {
    let mut g = Rng::new(seed, mix(i ^ 0x6a6f6273));
    let r = &mut g;
    match r.below(if light { 18 } else { 16 }) {
        0..=9 => {
            let op = r.pick(ALL);
            let mut a = [ZERO; 3];
            for k in 0..op.arity() {
                let o = a;
                a[k] = operand(r, &o[..k]);
            }
            // stay on the documented side of clamp
            if op == Op::Clamp {
                let (mut lo, mut hi) = (abs(a[1]), abs(a[2]));
                if is_nan(lo) {
                    lo = ZERO;
                }
                if is_nan(hi) {
                    hi = INF;
                }
                if lo > hi {
                    std::mem::swap(&mut lo, &mut hi);
                }
                a[1] = lo;
                a[2] = hi;
            }
            // exact reduction over half a million exponent steps: minutes in an interpreter
            if light && op == Op::Rem && is_fin(a[0]) && !is_zero(a[0]) && is_fin(a[1]) && !is_zero(a[1]) {
                let e = gen::lead_exp(a[0]) + r.range(-300, 20);
                a[1] = gen::norm(r, e);
            }
            let n = match r.below(4) {
                0 => r.below(600) as u32,
                1 => r.below(600_000) as u32,
                2 => u32::MAX - r.below(4) as u32,
                _ => r.below(5) as u32,
            };
            Job::Op(Case { op, a, n: if matches!(op, Op::MulPow2 | Op::DivPow2) { n } else { 0 } })
        }
        10 | 11 | 16 => {
            Job::Parse(text(r, light))
        }
        12 | 17 => {
            let mut b = match r.below(6) {
                0 => gen::special(r),
                1 => gen::small_int(r),
                2 => {
                    let e = r.range(-600, 600);
                    gen::norm(r, e)
                }
                3 => gen::any(r),
                _ => {
                    let e = r.range(-60, 60);
                    gen::norm(r, e)
                }
            };
            if is_fin(b) && !is_zero(b) && gen::lead_exp(b).abs() > 1000 && (light || r.chance(29, 30)) {
                let e = r.range(-250, 250);
                b = gen::norm(r, e);
            }
            let w = r.pick(&[0, 1, 5, 20, 80, 100, 400]);
            let p = match r.below(3) {
                0 => r.below(5) as usize,
                1 => r.below(76) as usize,
                _ => 75,
            };
            Job::Fmt(r.below(NFMT as u64) as u32, w, p, b)
        }
        13 => {
            let a = operand(r, &[]);
            let b = operand(r, &[a]);
            Job::Cmp(a, b)
        }
        14 => match r.below(2) {
            0 => Job::Int(r.below(10) as u32, if r.chance(1, 2) { r.u128() >> r.below(128) } else { (r.u128() >> r.below(128)).wrapping_neg() }),
            _ => {
                let m = r.u64() >> r.below(64);
                Job::Float(if r.chance(1, 2) { r.u64() } else { r.below(2) << 63 | (r.pick(&[0, 1, 0x7ff, 0x7fe, 0x3ff]) << 52) | (m >> 12) })
            }
        },
        _ => {
            if r.chance(1, 3) {
                let c = (r.u128() >> r.below(128), r.u128() >> r.below(128));
                let c = if r.chance(1, 3) { (0, c.1 | 1) } else { (c.0, c.1 | 1) };
                Job::Enc(r.below(2) as u32, r.range(QMIN as i64 - 30, EMAX as i64 - 20) as i32, c)
            } else {
                Job::Bits(gen::any(r))
            }
        }
    }
}
pub fn fnv(mut h: u64, s: &str) -> u64 {
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    (h ^ 0xff).wrapping_mul(0x100000001b3)
}
