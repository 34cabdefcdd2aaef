//! Monitors for the text output (C18, C19, C20).
use crate::ffi::*;
use crate::gen;
use crate::hard;
use crate::ops::*;
use crate::oracle::*;
use crate::parse;
use crate::report::*;
use crate::rng::Rng;
use f256::f256;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::str::FromStr;

fn s(name: &'static str, quick: u64, thorough: u64, f: StreamFn) -> Stream {
    Stream { name, quick, thorough, f }
}
thread_local! {
    static P5: RefCell<HashMap<u64, Z>> = RefCell::new(HashMap::new());
}
/// 5^k, remembered per thread.
pub fn pow5(k: u64) -> Z {
    P5.with(|c| {
        let mut c = c.borrow_mut();
        if let Some(z) = c.get(&k) {
            return z.clone();
        }
        let z = Z::pow(5, k);
        if c.len() > 400 {
            c.clear();
        }
        c.insert(k, z.clone());
        z
    })
}
/// floor(n / d) of v * 10^k for v = m * 2^q, as (numerator, denominator).
fn scaled(m: &Z, q: i64, k: i64) -> (Z, Z) {
    let s = q + k;
    let (mut n, mut d) = (m.clone(), Z::ui(1));
    if k >= 0 {
        n = n.mul(&pow5(k as u64));
    } else {
        d = pow5(-k as u64);
    }
    if s >= 0 {
        n = n.shl(s as u64);
    } else {
        d = d.shl(-s as u64);
    }
    (n, d)
}
/// floor(log10(m * 2^q)), possibly one too low or too high.
fn e10_guess(m: &Z, q: i64) -> i64 {
    let n = m.bits() as i64;
    let top = if n > 53 { m.shr(n as u64 - 53).get_ui() as f64 / (1u64 << 52) as f64 } else { m.get_ui() as f64 / 2f64.powi(n as i32 - 1) };
    ((top.log2() + (q + n - 1) as f64) * std::f64::consts::LOG10_2).floor() as i64
}
fn pow10(k: u64) -> Z {
    pow5(k).shl(k)
}
/// Round n/d half to even.
fn round_even(n: &Z, d: &Z) -> Z {
    let (f, r) = n.divmod(d);
    let up = match r.shl(1).cmp(d) {
        Ordering::Less => false,
        Ordering::Greater => true,
        Ordering::Equal => f.is_odd(),
    };
    if up {
        f.add_ui(1)
    } else {
        f
    }
}
/// Position of the discarded part relative to the tie, for the evidence.
fn situation(n: &Z, d: &Z) -> &'static str {
    let (_, r) = n.divmod(d);
    if r.is_zero() {
        return "exact";
    }
    let t = r.shl(1);
    match t.cmp(d) {
        Ordering::Equal => "tie",
        o => {
            let diff = if o == Ordering::Less { d.sub(&t) } else { t.sub(d) };
            let near_tie = (d.bits() as i64 - diff.bits() as i64) > 20;
            let edge = if o == Ordering::Less { r.clone() } else { d.sub(&r) };
            let near_edge = (d.bits() as i64 - edge.bits() as i64) > 20;
            match (near_tie, near_edge, o) {
                (true, _, Ordering::Less) => "just below a tie",
                (true, _, _) => "just above a tie",
                (_, true, Ordering::Less) => "just above a shorter decimal",
                (_, true, _) => "just below a longer decimal",
                _ => "rounded",
            }
        }
    }
}
fn mq(b: Bits) -> (Z, i64) {
    let (m, q) = decode(abs(b));
    (Z::limbs(&m), q as i64)
}
/// Exact decimal expansion rounded half to even to n fractional digits.
pub fn fixed_text(m: &Z, q: i64, n: usize) -> (String, &'static str) {
    let (sit, z) = if q >= 0 {
        ("exact", m.shl(q as u64).mul(&pow10(n as u64)))
    } else {
        let t = m.mul(&pow10(n as u64));
        let sh = -q as u64;
        if t.bits() + 1 < sh {
            (if m.is_zero() { "exact" } else { "rounded to zero" }, Z::new())
        } else {
            let d = Z::ui(1).shl(sh);
            (situation(&t, &d), round_even(&t, &d))
        }
    };
    let mut d = z.to_dec();
    if d.len() < n + 1 {
        d = "0".repeat(n + 1 - d.len()) + &d;
    }
    if n > 0 {
        d.insert(d.len() - n, '.');
    }
    (d, sit)
}
/// Exact scientific notation rounded half to even to n fractional digits.
pub fn sci_text(m: &Z, q: i64, n: usize) -> (String, &'static str) {
    if m.is_zero() {
        return (if n > 0 { format!("0.{}e0", "0".repeat(n)) } else { "0e0".into() }, "exact");
    }
    let mut e = e10_guess(m, q);
    let lo = pow10(n as u64);
    let hi = pow10(n as u64 + 1);
    loop {
        let (a, b) = scaled(m, q, n as i64 - e);
        let (f, _) = a.divmod(&b);
        if f.cmp(&lo) == Ordering::Less {
            e -= 1;
            continue;
        }
        if f.cmp(&hi) != Ordering::Less {
            e += 1;
            continue;
        }
        let mut sit = situation(&a, &b);
        let mut z = round_even(&a, &b);
        if z.cmp(&hi) == Ordering::Equal {
            z = lo;
            e += 1;
            sit = "carry into a new digit";
        }
        let mut d = z.to_dec();
        if n > 0 {
            d.insert(1, '.');
        }
        return (format!("{d}e{e}"), sit);
    }
}
/// The shortest digit strings that identify m * 2^q: all closest candidates as
/// (digits, exponent of ten of the last digit).
pub fn shortest(b: Bits) -> (Vec<(Z, i64)>, &'static str) {
    let (m, q) = mq(b);
    let min_lead = m.bits() == 237 && m.tz() == 236 && bexp(b) > 1;
    let c = m.mul_ui(4);
    let lo = c.sub_ui(if min_lead { 1 } else { 2 });
    let up = c.add_ui(2);
    let incl = !m.is_odd();
    let q = q - 2;
    const N: i64 = 76;
    let e = e10_guess(&c, q);
    let k = N - 1 - e;
    let (cn, d) = scaled(&c, q, k);
    let (ln, _) = scaled(&lo, q, k);
    let (un, _) = scaled(&up, q, k);
    let (ci, cr) = cn.divmod(&d);
    let (li, lr) = ln.divmod(&d);
    let (ui, ur) = un.divmod(&d);
    let ok_low = |z: &Z| match z.cmp(&li) {
        Ordering::Less => false,
        Ordering::Equal => lr.is_zero() && incl,
        _ => true,
    };
    let ok_up = |z: &Z| match z.cmp(&ui) {
        Ordering::Less => true,
        Ordering::Equal => !ur.is_zero() || incl,
        _ => false,
    };
    let top = ci.to_dec().len() as i64;
    for n in 1..=top {
        let p = pow10((top - n) as u64);
        let (f, r) = ci.divmod(&p);
        let exact = r.is_zero() && cr.is_zero();
        let fl = f.mul(&p);
        let ce = fl.add(&p);
        let mut v = Vec::new();
        let mut sit = "rounded";
        if exact {
            v.push(f.clone());
            sit = "exact";
        } else {
            let a = ok_low(&fl) && !f.is_zero();
            let z = ok_up(&ce);
            if a && z {
                // 2c against fl + ce
                match cn.mul_ui(2).cmp(&fl.add(&ce).mul(&d)) {
                    Ordering::Less => v.push(f.clone()),
                    Ordering::Greater => v.push(f.add_ui(1)),
                    Ordering::Equal => {
                        v.push(f.clone());
                        v.push(f.add_ui(1));
                        sit = "two equally close";
                    }
                }
            } else if a {
                v.push(f.clone());
            } else if z {
                v.push(f.add_ui(1));
            }
            if v.len() == 1 {
                let w = v[0].mul(&p);
                if (w.cmp(&li) == Ordering::Equal && lr.is_zero()) || (w.cmp(&ui) == Ordering::Equal && ur.is_zero()) {
                    sit = "on the border of the interval";
                } else if min_lead {
                    sit = "asymmetric interval";
                }
            }
        }
        if !v.is_empty() {
            // the next power of ten has one digit, too (only for the smallest subnormals)
            let ten = pow10(top as u64);
            if n == 1 && v[0].cmp(&Z::ui(10)) != Ordering::Equal && ok_up(&ten) {
                v.push(Z::ui(10));
            }
            // drop trailing zeros (10^j reached by rounding up)
            let v = v
                .into_iter()
                .map(|z| {
                    let mut z = z;
                    let mut ex = top - n - k;
                    loop {
                        let (t, r) = z.divmod(&Z::ui(10));
                        if !r.is_zero() {
                            return (z, ex);
                        }
                        z = t;
                        ex += 1;
                    }
                })
                .collect();
            return (v, sit);
        }
    }
    unreachable!()
}
pub fn plain_of(d: &str, ex: i64) -> String {
    let n = d.len() as i64;
    if ex >= 0 {
        format!("{d}{}", "0".repeat(ex as usize))
    } else if n + ex > 0 {
        format!("{}.{}", &d[..(n + ex) as usize], &d[(n + ex) as usize..])
    } else {
        format!("0.{}{d}", "0".repeat((-ex - n) as usize))
    }
}
pub fn exp_of(d: &str, ex: i64) -> String {
    let e = ex + d.len() as i64 - 1;
    if d.len() > 1 {
        format!("{}.{}e{e}", &d[..1], &d[1..])
    } else {
        format!("{d}e{e}")
    }
}
fn clip(s: &str) -> String {
    if s.len() > 260 {
        format!("{}...{} ({} bytes)", &s[..160], &s[s.len() - 80..], s.len())
    } else {
        s.to_string()
    }
}
fn signed(b: Bits, t: String) -> String {
    if is_neg(b) {
        format!("-{t}")
    } else {
        t
    }
}
fn show(l: &mut Local, what: &str, want: &[String], g: impl FnOnce() -> String) -> bool {
    l.enter(|| what.to_string());
    let got = guard(g);
    l.leave();
    match got {
        Ok(t) if want.contains(&t) => {
            l.sample(|| format!("{what} -> {}", clip(&t)));
            true
        }
        Ok(t) => {
            l.violate(what.to_string(), format!("expected {} got {}", clip(&want[0]), clip(&t)));
            false
        }
        Err(m) => {
            l.violate(what.to_string(), format!("panicked: {m}"));
            false
        }
    }
}
pub fn judge_fixed(l: &mut Local, b: Bits, n: usize) {
    let (m, q) = mq(b);
    let (t, sit) = fixed_text(&m, q, n);
    l.note(hash64(&[b.0 as u64, (b.0 >> 64) as u64, b.1 as u64, (b.1 >> 64) as u64, n as u64, 1]), sit != "exact" || q > 0);
    l.tag(&format!("fixed {sit}"));
    let w = [signed(b, t)];
    show(l, &format!("fixed {n} {}", hex(b)), &w, || format!("{:.*}", n, f(b)));
}
pub fn judge_expo(l: &mut Local, b: Bits, n: usize) {
    let (m, q) = mq(b);
    let (t, sit) = sci_text(&m, q, n);
    l.note(hash64(&[b.0 as u64, (b.0 >> 64) as u64, b.1 as u64, (b.1 >> 64) as u64, n as u64, 2]), sit != "exact");
    l.tag(&format!("expo {sit}"));
    let w = [signed(b, t)];
    if show(l, &format!("expo {n} {}", hex(b)), &w, || format!("{:.*e}", n, f(b))) {
        let w = [w[0].replace('e', "E")];
        show(l, &format!("EXPO {n} {}", hex(b)), &w, || format!("{:.*E}", n, f(b)));
    }
}
pub fn judge_short(l: &mut Local, b: Bits) {
    if is_zero(b) {
        for (w, g) in [("0", format!("{}", f(b))), ("0e0", format!("{:e}", f(b))), ("0E0", format!("{:E}", f(b)))] {
            let w = [signed(b, w.to_string())];
            show(l, &format!("short {}", hex(b)), &w, || g);
        }
        return;
    }
    let (v, sit) = shortest(b);
    let v: Vec<(String, i64)> = v.into_iter().map(|(z, e)| (z.to_dec(), e)).collect();
    l.note(hash64(&[b.0 as u64, (b.0 >> 64) as u64, b.1 as u64, (b.1 >> 64) as u64, 3]), true);
    l.tag(&format!("shortest {sit}"));
    l.tag(&format!("digits {:02}", v[0].0.len() / 8 * 8));
    let name = format!("short {}", hex(b));
    let w: Vec<String> = v.iter().map(|(d, e)| signed(b, exp_of(d, *e))).collect();
    let mut text = String::new();
    if !show(l, &name, &w, || {
        text = format!("{:e}", f(b));
        text.clone()
    }) {
        return;
    }
    let i = w.iter().position(|t| *t == text).unwrap();
    let wu = [w[i].replace('e', "E")];
    show(l, &name, &wu, || format!("{:E}", f(b)));
    let wp = [signed(b, plain_of(&v[i].0, v[i].1))];
    let far = wp[0].len() > 400;
    let mut plain = String::new();
    show(l, &name, &wp, || {
        plain = format!("{}", f(b));
        plain.clone()
    });
    // print then parse
    let mut texts = Vec::new();
    if !far || l.r.chance(1, 40) {
        texts.push(text);
        if !far || l.r.chance(1, 10) {
            texts.push(plain);
        }
    }
    for t in texts {
        l.enter(|| name.clone());
        let g = guard(|| f256::from_str(&t).map(|v| v.to_bits()));
        l.leave();
        let ok = matches!(&g, Ok(Ok(x)) if *x == b);
        l.require(ok, || name.clone(), || format!("printed {} which parses to {:?}", clip(&t), g.map(|r| r.map(hex))));
        l.tag("parsed back");
    }
}
// ---- value generators -------------------------------------------------------------------------
/// A decimal with few digits (or all nines etc.) rounded to f256, maybe moved by some ulps.
fn decimal_value(r: &mut Rng, o: &mut Oracle, emax: i64) -> Bits {
    let n = r.range(1, 78) as usize;
    let d = parse::digits(r, n);
    let e = r.range(-emax, emax);
    if o.r.strtofr(&format!("{d}e{}", e - n as i64 + 1), RNDN).is_none() {
        return ONE;
    }
    let (b, _) = finalize(&mut o.r, 0);
    if !is_fin(b) || is_zero(b) {
        return ONE;
    }
    let b = match r.below(3) {
        0 => b,
        1 => step(b, r.range(-2, 2)),
        _ => {
            let sh = r.below(60);
            step(b, r.range(-(1 << sh), 1 << sh))
        }
    };
    if is_fin(b) {
        b
    } else {
        ONE
    }
}
fn pow10_value(r: &mut Rng, o: &mut Oracle, emax: i64) -> Bits {
    let e = r.range(-emax, emax);
    o.r.strtofr(&format!("1e{e}"), RNDN);
    let (b, _) = finalize(&mut o.r, 0);
    let b = step(b, r.range(-3, 3));
    if is_fin(b) {
        b
    } else {
        ONE
    }
}
/// Exact ties: (value, is it for fixed notation, precision).
fn tie_value(r: &mut Rng) -> Option<(Bits, bool, usize)> {
    if r.chance(1, 2) {
        // fixed: odd * 2^-(n+1)
        let n = r.range(0, 75);
        let bits = r.range(1, 237) as u32;
        let z = hard::rand_odd(r, bits);
        let b = hard::from_z(&z, -(n + 1))?;
        // sometimes a hair away from the tie
        let b = if r.chance(1, 3) { step(b, r.range(-1, 1)) } else { b };
        Some((b, true, n as usize))
    } else {
        // scientific: (n + 2 digits ending in 5) * 10^k
        let n = r.range(0, 75);
        let d = {
            let mut d = parse::digits(r, n as usize + 1);
            if d.starts_with('0') {
                d.replace_range(0..1, "9");
            }
            d.push('5');
            d
        };
        let z = Z::dec(&d);
        let k = r.range(-100, 100);
        let b = if k >= 0 {
            hard::from_z(&z.mul(&pow5(k as u64)), k)
        } else {
            // divisible by 5^-k?
            let (t, rem) = z.divmod(&pow5(-k as u64));
            if rem.is_zero() {
                hard::from_z(&t, k)
            } else {
                None
            }
        };
        let b = match b {
            Some(b) => b,
            None => {
                // choose odd m first: m * 2^q has a decimal expansion ending in 5 (q < 0)
                let q = -r.range(1, 235);
                let bits = r.range(1, 237) as u32;
                let m = hard::rand_odd(r, bits);
                let (dd, _) = parse::dec_of(&m, q);
                if dd.len() < 2 || dd.len() > 77 {
                    // m too large: make the expansion short
                    let bits = r.range(1, 100) as u32;
                    let m = hard::rand_odd(r, bits);
                    let q = -r.range(1, 60);
                    let (dd, _) = parse::dec_of(&m, q);
                    if dd.len() < 2 || dd.len() > 77 {
                        return None;
                    }
                    return Some((hard::from_z(&m, q)?, false, dd.len() - 2));
                }
                return Some((hard::from_z(&m, q)?, false, dd.len() - 2));
            }
        };
        let b = if r.chance(1, 3) { step(b, r.range(-1, 1)) } else { b };
        Some((b, false, n as usize))
    }
}
/// Top `w` bits of 10^k * 2^s as a fraction num / 2^den.
fn pow10_approx(k: i64, w: u64) -> (Z, i64) {
    // 5^k = num * 2^e
    let p = pow5(k.unsigned_abs());
    let (n, e) = if k >= 0 {
        let b = p.bits();
        if b > w {
            (p.shr(b - w), (b - w) as i64)
        } else {
            (p, 0)
        }
    } else {
        let b = p.bits();
        let (q, _) = Z::ui(1).shl(b + w).divmod(&p);
        (q, -((b + w) as i64))
    };
    (n, e + k)
}
/// Significands m (<= 237 bits) so that m * 2^q * 10^k * 2 is extremely close to an integer.
fn near_decimals(q: i64, k: i64) -> Vec<Z> {
    let (n, e) = pow10_approx(k, 800);
    let e = e + q + 1;
    let (num, den) = if e >= 0 { (n.shl(e as u64), Z::ui(1)) } else { (n, Z::ui(1).shl(-e as u64)) };
    let (mut a, mut b) = (num, den);
    let (mut q0, mut q1) = (Z::ui(1), Z::ui(0));
    let mut out = Vec::new();
    while !b.is_zero() {
        let (t, rem) = a.divmod(&b);
        let q2 = t.mul(&q1).add(&q0);
        if q2.bits() > 237 {
            // the last intermediate fraction that still fits
            let (c, _) = Z::ui(1).shl(237).sub_ui(1).sub(&q0).divmod(&q1);
            if !c.is_zero() {
                out.push(c.mul(&q1).add(&q0));
            }
            break;
        }
        if q2.bits() > 100 {
            out.push(q2.clone());
        }
        q0 = std::mem::replace(&mut q1, q2);
        a = b;
        b = rem;
    }
    out
}
fn sgn(r: &mut Rng, b: Bits) -> Bits {
    if r.chance(1, 2) {
        neg(b)
    } else {
        b
    }
}
/// Values of moderate magnitude, where the formatting algorithms switch.
fn moderate(r: &mut Rng) -> Bits {
    let e = match r.below(8) {
        0 => r.range(-2, 2),
        1 => r.range(-8, 80),
        2 => r.range(225, 245),
        3 => r.range(505, 520),
        4 => r.range(-245, -225),
        5 => r.range(0, 520),
        6 => r.range(-520, 0),
        _ => r.range(-1500, 1500),
    };
    gen::norm(r, e)
}
fn prec(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => 0,
        1 => 75,
        2 => r.range(0, 3) as usize,
        3 => r.range(70, 75) as usize,
        4 => r.pick(&[8usize, 9, 10, 17, 18, 19, 20, 35, 36, 37, 54, 55]),
        _ => r.range(0, 75) as usize,
    }
}
// ---- C18 --------------------------------------------------------------------------------------
fn c18_moderate(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let b = match r.below(6) {
        0 => decimal_value(r, &mut l.o, 120),
        1 => pow10_value(r, &mut l.o, 160),
        2 => gen::small_int(r),
        3 => {
            let e = r.range(-70, 70);
            let b = gen::norm(r, e);
            // few significant bits
            let k = r.range(1, 60) as u32;
            let (m, q) = mq(b);
            hard::from_z(&m.shr(237 - k as u64), q + 237 - k as i64).unwrap_or(b)
        }
        _ => moderate(r),
    };
    let b = sgn(r, b);
    let n = prec(r);
    if r.chance(1, 2) {
        judge_fixed(l, b, n);
    } else {
        judge_expo(l, b, n);
    }
}
fn c18_ties(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let Some((b, fx, n)) = tie_value(r) else { return };
    let b = sgn(r, b);
    if fx {
        judge_fixed(l, b, n);
    } else {
        judge_expo(l, b, n);
    }
}
fn c18_near(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let q = match r.below(8) {
        0 => r.range(-236, -1),
        1 => r.range(0, 275),
        2 => r.range(-700, -236),
        3 => r.range(275, 1200),
        4 => r.range(-473, -236),
        _ => r.range(-300, 320),
    };
    near_at(l, q, 1);
}
/// Judges one in `thin` of the values (the exact paths of the formatter are slow for far exponents).
fn near_at(l: &mut Local, q: i64, thin: u64) {
    let r = &mut l.r;
    let e10 = ((q + 236) as f64 * std::f64::consts::LOG10_2).floor() as i64;
    let n = prec(r) as i64;
    let k = n - e10;
    for m in near_decimals(q, k) {
        let Some(b) = hard::from_z(&m, q) else { continue };
        if !l.r.chance(1, thin) {
            continue;
        }
        let ee = e10_guess(&m, q);
        l.tag("continued-fraction value");
        for d in [0, 1] {
            let nn = k + ee - d;
            if (0..=75).contains(&nn) {
                let b = sgn(&mut l.r, b);
                judge_expo(l, b, nn as usize);
            }
        }
        if (0..=75).contains(&k) {
            judge_fixed(l, b, k as usize);
        }
    }
}
fn far_exp(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => r.range(EMIN as i64, EMIN as i64 + 300),
        1 => r.range(EMAX as i64 - 300, EMAX as i64),
        _ => r.range(EMIN as i64, EMAX as i64),
    }
}
fn c18_far(l: &mut Local, i: u64) {
    let r = &mut l.r;
    if i % 400 == 7 {
        let q = far_exp(r).min(EMAX as i64 - 240) - 236;
        return near_at(l, q.max(QMIN as i64), 14);
    }
    let b = match r.below(5) {
        0 => gen::subnormal(r),
        1 => decimal_value(r, &mut l.o, 78900),
        2 => pow10_value(r, &mut l.o, 78900),
        _ => {
            let e = far_exp(r);
            gen::norm(r, e)
        }
    };
    let b = sgn(r, b);
    let n = prec(r);
    if r.chance(1, 4) && lead_small(b) {
        judge_fixed(l, b, n);
    } else {
        judge_expo(l, b, n);
    }
}
fn lead_small(b: Bits) -> bool {
    !is_zero(b) && gen::lead_exp(b) < 4000
}
/// Fixed notation of huge integers.
fn c18_huge(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let b = match r.below(4) {
        0 => gen::norm(r, EMAX as i64),
        _ => {
            let e = far_exp(r).abs();
            gen::norm(r, e)
        }
    };
    let n = prec(r);
    judge_fixed(l, b, n);
}
fn c18_tiny(l: &mut Local, _: u64) {
    // fixed notation around the last digit: rounds to zero or to the last place
    let r = &mut l.r;
    let n = prec(r);
    let e = -((n as f64) * std::f64::consts::LOG2_10) as i64 + r.range(-8, 8);
    let b = match r.below(3) {
        0 => {
            l.o.r.strtofr(&format!("{}e-{}", r.pick(&["5", "0.5", "4.9999999", "1.5", "9.5", "0.95", "99.5"]), n + 1), RNDN);
            let (b, _) = finalize(&mut l.o.r, 0);
            step(b, r.range(-2, 2))
        }
        _ => gen::norm(r, e),
    };
    let b = sgn(r, b);
    judge_fixed(l, b, n);
}
/// Zeros and small integers with every precision.
fn c18_zero(l: &mut Local, i: u64) {
    let n = (i % 76) as usize;
    let b = match i / 76 {
        0 => ZERO,
        1 => (ZERO.0 | 1 << 127, 0),
        _ => {
            let b = gen::small_int(&mut l.r);
            if !is_fin(b) {
                return;
            }
            sgn(&mut l.r, b)
        }
    };
    judge_fixed(l, b, n);
    judge_expo(l, b, n);
}
// ---- C19 --------------------------------------------------------------------------------------
fn c19_moderate(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let b = match r.below(6) {
        0 => decimal_value(r, &mut l.o, 200),
        1 => pow10_value(r, &mut l.o, 400),
        2 => gen::small_int(r),
        3 => {
            // powers of two: asymmetric interval
            let e = r.range(-1200, 1200);
            let b = hard::from_z(&Z::ui(1), e).unwrap();
            step(b, r.pick(&[0, 0, 0, 1, -1]))
        }
        _ => moderate(r),
    };
    let b = sgn(r, b);
    judge_short(l, b);
}
fn c19_far(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let b = match r.below(6) {
        0 => gen::subnormal(r),
        1 => decimal_value(r, &mut l.o, 78900),
        2 => pow10_value(r, &mut l.o, 78900),
        3 => hard::from_z(&Z::ui(1), r.range(QMIN as i64, EMAX as i64)).unwrap(),
        _ => {
            let e = far_exp(r);
            gen::norm(r, e)
        }
    };
    let b = sgn(r, b);
    judge_short(l, b);
}
/// Decimals that hit a border of the rounding interval exactly.
fn c19_border(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let k = r.range(0, 103);
    let p = pow5(k as u64);
    let room = 238 - p.bits() as i64;
    let mut z = hard::rand_odd(r, room.max(1) as u32).mul(&p);
    while z.bits() < 238 {
        z = z.mul_ui(3);
    }
    if z.bits() > 238 || !z.is_odd() {
        return;
    }
    let m = if r.chance(1, 2) { z.sub_ui(1).shr(1) } else { z.add_ui(1).shr(1) };
    // the border is a multiple of 10^k as long as the exponent is at least k; about k / log10(2)
    // it becomes shorter than everything else in the interval
    let q = match r.below(4) {
        0 => k + 1,
        1 => r.range(k, k * 4 + 8) + 1,
        _ => k * 3322 / 1000 + r.range(-14, 6) + 1,
    };
    let Some(b) = hard::from_z(&m, q.max(k + 1)) else { return };
    let b = sgn(r, b);
    l.tag("border of the interval is a decimal");
    judge_short(l, b);
    // and integers just above 2^237 with short decimals
    let r = &mut l.r;
    let q = r.range(-3, 40);
    let m = hard::signif(r);
    if let Some(b) = hard::from_z(&m, q) {
        judge_short(l, b);
    }
}
/// Few bits and many binary places: the exact decimal has about as many digits as the shortest
/// texts, two of these may be equally near.
fn c19_tied(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let nb = r.range(1, 130);
    // digits of m * 5^n: 0.30103 * (bits + 2.3219 n)
    let want = r.range(69, 76);
    let n = ((want * 100_000 - 50_000 - nb * 30_103) / 69_897).max(0) + r.range(0, 1);
    let m = hard::rand_odd(r, nb as u32);
    let Some(b) = hard::from_z(&m, -n) else { return };
    let b = sgn(r, b);
    l.tag("about 72 digits exactly");
    judge_short(l, b);
}
/// Decimals of up to 72 digits next to a border of the interval.
fn c19_cf(l: &mut Local, i: u64) {
    let r = &mut l.r;
    let k = if i % 10 == 0 { r.range(-78900, 78800) } else { r.range(-400, 400) };
    let wb = r.pick(&[237u64, 236, 239, 233, 240]);
    for w in parse::near_mids(k, wb, false) {
        let d = w.to_dec();
        l.o.r.strtofr(&format!("{d}e{k}"), RNDN);
        let (b, _) = finalize(&mut l.o.r, 0);
        if !is_fin(b) || is_zero(b) {
            continue;
        }
        for d in [-1, 0, 1] {
            let b = sgn(&mut l.r, step(b, d));
            if is_fin(b) && !is_zero(b) {
                l.tag("decimal next to a border");
                judge_short(l, b);
            }
        }
    }
}
/// Every binade once: power of two, its neighbours and a random value.
fn c19_binades(l: &mut Local, i: u64) {
    let e = EMIN as i64 + ((i * 7919 + (l.r.below(1 << 19) & !0x1ff)) % 524286) as i64;
    let r = &mut l.r;
    let p = hard::from_z(&Z::ui(1), e).unwrap();
    let b = match r.below(3) {
        0 => p,
        1 => step(p, -1),
        _ => gen::norm(r, e),
    };
    judge_short(l, b);
}
// ---- C20 --------------------------------------------------------------------------------------
/// What the flags ask for, in the words of f64's formatting rules.
struct Spec {
    fill: char,
    align: u8,
    plus: bool,
    zero: bool,
}
fn layout(sp: &Spec, neg: bool, nan: bool, body: &str, w: usize) -> String {
    let sign = if nan {
        ""
    } else if neg {
        "-"
    } else if sp.plus {
        "+"
    } else {
        ""
    };
    let len = body.chars().count() + sign.len();
    if len >= w {
        return format!("{sign}{body}");
    }
    let pad = w - len;
    if sp.zero && !nan {
        return format!("{sign}{}{body}", "0".repeat(pad));
    }
    let pre = match sp.align {
        b'<' => 0,
        b'^' => pad / 2,
        _ => pad,
    };
    let f = |n: usize| -> String { std::iter::repeat(sp.fill).take(n).collect() };
    format!("{}{sign}{body}{}", f(pre), f(pad - pre))
}
trait Txt: std::fmt::Display + std::fmt::LowerExp + std::fmt::UpperExp {}
impl Txt for f256 {}
impl Txt for f64 {}
type FmtFn = fn(&mut dyn std::fmt::Write, &dyn Txt2, usize, usize) -> std::fmt::Result;
/// Object-safe view of the three traits.
trait Txt2 {
    fn d(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result;
    fn le(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result;
    fn ue(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result;
}
impl<T: Txt> Txt2 for T {
    fn d(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(self, f)
    }
    fn le(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::LowerExp::fmt(self, f)
    }
    fn ue(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::UpperExp::fmt(self, f)
    }
}
struct V<'a>(&'a dyn Txt2);
impl std::fmt::Display for V<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.d(f)
    }
}
impl std::fmt::LowerExp for V<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.le(f)
    }
}
impl std::fmt::UpperExp for V<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.ue(f)
    }
}
macro_rules! one {
    ($v:ident, $fa:literal $fill:literal $al:literal, $p:literal $pb:literal, $z:literal $zb:literal) => {
        one!(@k $v, $fa $fill $al, $p $pb, $z $zb, "");
        one!(@k $v, $fa $fill $al, $p $pb, $z $zb, "e");
        one!(@k $v, $fa $fill $al, $p $pb, $z $zb, "E");
    };
    (@k $v:ident, $fa:literal $fill:literal $al:literal, $p:literal $pb:literal, $z:literal $zb:literal, $k:literal) => {
        $v.push((
            Spec { fill: $fill, align: $al, plus: $pb, zero: $zb }, $k, true,
            (|o, x, w, p| write!(o, concat!("{0:", $fa, $p, $z, "1$.2$", $k, "}"), V(x), w, p)) as FmtFn,
            concat!("{:", $fa, $p, $z, "W.P", $k, "}"),
        ));
        $v.push((
            Spec { fill: $fill, align: $al, plus: $pb, zero: $zb }, $k, false,
            (|o, x, w, _p| write!(o, concat!("{0:", $fa, $p, $z, "1$", $k, "}"), V(x), w)) as FmtFn,
            concat!("{:", $fa, $p, $z, "W", $k, "}"),
        ));
    };
}
macro_rules! flags {
    ($v:ident, $($fa:literal $fill:literal $al:literal),*) => {
        $(
            one!($v, $fa $fill $al, "" false, "" false);
            one!($v, $fa $fill $al, "+" true, "" false);
            one!($v, $fa $fill $al, "" false, "0" true);
            one!($v, $fa $fill $al, "+" true, "0" true);
        )*
    };
}
type Entry = (Spec, &'static str, bool, FmtFn, &'static str);
fn table() -> Vec<Entry> {
    let mut v: Vec<Entry> = Vec::new();
    flags!(
        v,
        "" ' ' 0u8, "<" ' ' b'<', "^" ' ' b'^', ">" ' ' b'>',
        "*<" '*' b'<', "*^" '*' b'^', "*>" '*' b'>',
        "ß<" 'ß' b'<', "ß^" 'ß' b'^', "ß>" 'ß' b'>',
        "0<" '0' b'<', "-^" '-' b'^', "😀>" '😀' b'>', "9^" '9' b'^'
    );
    v
}
thread_local! {
    static TAB: Vec<Entry> = table();
}
/// Sink that fails after some bytes.
struct Short(usize, String);
impl std::fmt::Write for Short {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.1.len() + s.len() > self.0 {
            return Err(std::fmt::Error);
        }
        self.1.push_str(s);
        Ok(())
    }
}
pub fn judge_layout(l: &mut Local, b: Bits, idx: usize, w: usize, p: usize) {
    TAB.with(|tab| {
        let (sp, k, has_p, ff, name) = &tab[idx % tab.len()];
        let what = format!("layout {idx} {w} {p} {} {name}", hex(b));
        let a = f(abs(b));
        let nan = is_nan(b);
        l.enter(|| what.clone());
        let r = guard(|| {
            let body = if nan {
                "NaN".to_string()
            } else if is_inf(b) {
                "inf".to_string()
            } else {
                match (*k, *has_p) {
                    ("", true) => format!("{:.*}", p, a),
                    ("", false) => format!("{}", a),
                    ("e", true) => format!("{:.*e}", p, a),
                    ("e", false) => format!("{:e}", a),
                    (_, true) => format!("{:.*E}", p, a),
                    (_, false) => format!("{:E}", a),
                }
            };
            let mut o = String::new();
            let res = ff(&mut o, &f(b), w, p);
            (body, o, res.is_ok())
        });
        l.leave();
        l.note(hash_str(&what), w > 0 || sp.plus);
        match r {
            Ok((body, o, ok)) => {
                let want = layout(sp, is_neg(b), nan, &body, w);
                let len = body.chars().count();
                let t = if len >= w {
                    "no padding"
                } else if sp.zero {
                    "zero padding"
                } else {
                    "fill"
                };
                l.tag(t);
                if want == o && ok {
                    l.sample(|| format!("{what} -> {}", jstr(&o)));
                } else {
                    l.violate(what.clone(), format!("expected {} got {}", jstr(&clip2(&want)), jstr(&clip2(&o))));
                }
                // a sink without room: the error must come back, and no text out of order
                if idx % 7 == 0 {
                    let room = l.r.below(want.len() as u64 + 1) as usize;
                    let mut s = Short(room, String::new());
                    let e = guard(|| ff(&mut s, &f(b), w, p).is_err());
                    l.require(
                        matches!(e, Ok(x) if x == (room < want.len())) && want.starts_with(&s.1),
                        || what.clone(),
                        || format!("failing sink with room for {room} bytes: {e:?}, wrote {}", jstr(&clip2(&s.1))),
                    );
                    l.tag("failing sink");
                }
            }
            Err(m) => l.violate(what.clone(), format!("panicked: {m}")),
        }
    });
}
fn clip2(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    if c.len() > 200 {
        format!("{}...{}", c[..120].iter().collect::<String>(), c[c.len() - 60..].iter().collect::<String>())
    } else {
        s.into()
    }
}
fn c20(l: &mut Local, i: u64) {
    let r = &mut l.r;
    let b = match r.below(10) {
        0 => gen::nan(r),
        1 => sgn(r, INF),
        2 => sgn(r, ZERO),
        3 => gen::small_int(r),
        4 => decimal_value(r, &mut l.o, 8),
        5 => moderate(r),
        6 => {
            let e = r.range(-60, 60);
            gen::norm(r, e)
        }
        7 => sgn(r, pow10_value(&mut Rng::new(i, 77), &mut l.o, 40)),
        _ => gen::special(r),
    };
    let r = &mut l.r;
    let far = is_fin(b) && !is_zero(b) && gen::lead_exp(b).abs() > 3000;
    if far && r.chance(29, 30) {
        return;
    }
    let b = sgn(r, b);
    let p = if r.chance(1, 2) { r.range(0, 6) as usize } else { prec(r) };
    let w = match r.below(6) {
        0 => 0,
        1 => r.range(1, 6),
        2 => r.range(60, 90),
        3 => r.range(300, 500),
        _ => r.range(1, 30),
    } as usize;
    let idx = r.below(TAB.with(|t| t.len()) as u64) as usize;
    // widths around the length of the text
    let w = if r.chance(1, 3) && !far {
        let n = guard(|| TAB.with(|t| {
            let mut o = String::new();
            let _ = t[idx].3(&mut o, &f(b), 0, p);
            o.chars().count()
        }))
        .unwrap_or(10);
        (n as i64 + r.range(-2, 5)).max(0) as usize
    } else {
        w
    };
    judge_layout(l, b, idx, w, p);
}
/// Values both types have, with an explicit precision: the whole text has to be f64's.
fn judge_same(l: &mut Local, x: f64, idx: usize, w: usize, p: usize) {
    TAB.with(|tab| {
        let (sp, _, has_p, ff, name) = &tab[idx % tab.len()];
        let few = x == 0.0 || !x.is_finite() || x.fract() == 0.0 && x.abs() < 10.0;
        if (x.is_nan() && sp.zero) || (!*has_p && !few) {
            return;
        }
        let what = format!("same {idx} {w} {p} {:016x} {name}", x.to_bits());
        let mut want = String::new();
        let _ = ff(&mut want, &x, w, p);
        l.enter(|| what.clone());
        let got = guard(|| {
            let mut o = String::new();
            let _ = ff(&mut o, &f256::from(x), w, p);
            o
        });
        l.leave();
        l.note(hash_str(&what), true);
        l.tag("whole text compared with f64's");
        match got {
            Ok(o) if o == want => l.sample(|| format!("{what} -> {}", jstr(&o))),
            Ok(o) => l.violate(what.clone(), format!("f64 prints {} f256 prints {}", jstr(&clip2(&want)), jstr(&clip2(&o)))),
            Err(m) => l.violate(what.clone(), format!("panicked: {m}")),
        }
    });
}
fn c20_same(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let x = match r.below(8) {
        0 => f64::INFINITY,
        1 => 0.0,
        2 => f64::NAN,
        3 => r.range(-1000, 1000) as f64 / 8.0,
        4 => r.range(0, 10) as f64,
        5 => 10f64.powi(r.range(-5, 22) as i32),
        6 => f64::from_bits(r.u64() >> 2 | 0x3000_0000_0000_0000),
        _ => f64::from_bits(r.u64() & 0x000f_ffff_ffff_ffff | ((1023 + r.range(-80, 200)) as u64) << 52),
    };
    let x = if r.chance(1, 2) { -x } else { x };
    let w = if r.chance(1, 5) { 0 } else { r.range(0, 90) as usize };
    let p = if r.chance(1, 2) { r.range(0, 6) } else { r.range(0, 75) } as usize;
    let idx = r.below(TAB.with(|t| t.len()) as u64) as usize;
    judge_same(l, x, idx, w, p);
}
/// The rule itself against f64.
fn c20_rule(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let x = match r.below(5) {
        0 => f64::INFINITY,
        1 => 0.0,
        2 => f64::NAN,
        3 => r.range(-1000, 1000) as f64 / 8.0,
        _ => f64::from_bits(r.u64()),
    };
    let x = if r.chance(1, 2) { -x } else { x };
    let (w, p) = (r.range(0, 40) as usize, r.range(0, 12) as usize);
    let idx = r.below(TAB.with(|t| t.len()) as u64) as usize;
    TAB.with(|tab| {
        let (sp, _, _, ff, name) = &tab[idx];
        let mut body = String::new();
        let _ = ff(&mut body, &x.abs(), 0, p);
        let body = body.trim_start_matches('+').to_string();
        let mut o = String::new();
        let _ = ff(&mut o, &x, w, p);
        let want = if x.is_nan() && sp.zero { o.clone() } else { layout(sp, x.is_sign_negative(), x.is_nan(), &body, w) };
        if o != want {
            panic!("the layout rule of the monitor disagrees with f64: {name} {x:e} {w} {p}: {want} {o}");
        }
        l.tag("layout rule confirmed on f64");
    });
}
pub fn replay(l: &mut Local, line: &str) -> bool {
    let v: Vec<&str> = line.split_whitespace().collect();
    let num = |i: usize| v.get(i).and_then(|t| t.parse::<usize>().ok());
    let bits = |i: usize| v.get(i).and_then(|t| unhex(t));
    match v.first().copied() {
        Some("fixed") => match (num(1), bits(2)) {
            (Some(n), Some(b)) => judge_fixed(l, b, n),
            _ => return false,
        },
        Some("expo") | Some("EXPO") => match (num(1), bits(2)) {
            (Some(n), Some(b)) => judge_expo(l, b, n),
            _ => return false,
        },
        Some("short") => match bits(1) {
            Some(b) => judge_short(l, b),
            _ => return false,
        },
        Some("layout") => match (num(1), num(2), num(3), bits(4)) {
            (Some(i), Some(w), Some(p), Some(b)) => judge_layout(l, b, i, w, p),
            _ => return false,
        },
        Some("same") => match (num(1), num(2), num(3), v.get(4).and_then(|t| u64::from_str_radix(t, 16).ok())) {
            (Some(i), Some(w), Some(p), Some(x)) => judge_same(l, f64::from_bits(x), i, w, p),
            _ => return false,
        },
        _ => return false,
    }
    true
}
const R18: &str = "values with exact decimal ties, continued-fraction near-ties and near-decimals, powers of ten and few-digit decimals with their neighbours, values around every switch of algorithm, subnormals and huge integers, precision 0..=75, judged against GMP's exact decimal expansion rounded half to even; non-trivial = digits are cut off; distinct by hash of (value, precision, notation)";
const R19: &str = "values over all binades, powers of two, decimals exactly on or next to the border of the rounding interval, judged against an exact search (GMP) for the shortest and closest digit string inside the rounding interval, printed in all three notations and parsed back; distinct by hash of the value";
const R20: &str = "all combinations of 14 fill/alignment forms, + and 0 flags, with and without precision, in three notations, over random widths (many around the length of the text) and values of every class, judged against f64's layout rule (the rule itself is confirmed on f64 in the same run), plus sinks that fail half-way; distinct by hash of (format, width, precision, value)";
pub fn streams(p: &str) -> Option<(Vec<Stream>, &'static str)> {
    Some(match p {
        "C18" => (
            vec![
                s("moderate", 1_000_000, 30_000_000, c18_moderate),
                s("ties", 600_000, 20_000_000, c18_ties),
                s("near-ties", 12_000, 500_000, c18_near),
                s("tiny", 200_000, 6_000_000, c18_tiny),
                s("far", 6_000, 200_000, c18_far),
                s("huge", 300, 6_000, c18_huge),
                s("zeros", 6_080, 200_000, c18_zero),
            ],
            R18,
        ),
        "C19" => (
            vec![
                s("moderate", 300_000, 12_000_000, c19_moderate),
                s("border", 300_000, 9_000_000, c19_border),
                s("tied", 200_000, 6_000_000, c19_tied),
                s("near-border", 240, 30_000, c19_cf),
                s("far", 1_600, 150_000, c19_far),
                s("binades", 1_600, 524_286, c19_binades),
            ],
            R19,
        ),
        "C20" => (
            vec![s("layout", 1_500_000, 40_000_000, c20), s("same-as-f64", 1_000_000, 30_000_000, c20_same), s("rule-on-f64", 100_000, 1_000_000, c20_rule)],
            R20,
        ),
        _ => return None,
    })
}
