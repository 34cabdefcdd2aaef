//! Monitors for the parser (C16, C17).
use crate::ffi::*;
use crate::gen;
use crate::hard;
use crate::ops::*;
use crate::oracle::*;
use crate::report::*;
use crate::rng::Rng;
use f256::f256;
use std::str::FromStr;

fn s(name: &'static str, quick: u64, thorough: u64, f: StreamFn) -> Stream {
    Stream { name, quick, thorough, f }
}
/// The literal's exact value rounded to f256; None if the literal is not a decimal number.
pub fn expect_parse(l: &mut Local, lit: &str) -> Option<(Bits, bool)> {
    // MPFR reads its own exponent type; the scanner of the oracle handles huge exponents
    let b = lit.as_bytes();
    let mut i = 0;
    let mut ng = false;
    if i < b.len() && (b[i] == b'-' || b[i] == b'+') {
        ng = b[i] == b'-';
        i += 1;
    }
    let m0 = i;
    let (mut nd, mut nonzero, mut point) = (0u64, false, false);
    while i < b.len() && (b[i].is_ascii_digit() || (b[i] == b'.' && !point)) {
        if b[i] == b'.' {
            point = true;
        } else {
            nd += 1;
            nonzero |= b[i] != b'0';
        }
        i += 1;
    }
    if nd == 0 {
        return None;
    }
    let mant = &lit[m0..i];
    let mut e: i128 = 0;
    if i < b.len() && (b[i] | 32) == b'e' {
        i += 1;
        let mut en = false;
        if i < b.len() && (b[i] == b'-' || b[i] == b'+') {
            en = b[i] == b'-';
            i += 1;
        }
        if i == b.len() {
            return None;
        }
        while i < b.len() && b[i].is_ascii_digit() {
            e = (e * 10 + (b[i] - b'0') as i128).min(1 << 100);
            i += 1;
        }
        if en {
            e = -e;
        }
    }
    if i != b.len() {
        return None;
    }
    let sg = if ng { SIGN } else { 0 };
    if !nonzero {
        return Some(((sg, 0), false));
    }
    // decimal exponent of the leading digit (within 1)
    let ip = mant.find('.').unwrap_or(mant.len()) as i128;
    let lead = mant.bytes().filter(|c| *c != b'.').position(|c| c != b'0').unwrap() as i128;
    let dexp = e.saturating_add(ip - 1 - lead);
    if dexp > 79000 {
        return Some(((sg | EXPM, 0), true));
    }
    if dexp < -79100 {
        return Some(((sg, 0), true));
    }
    let t = l.o.r.strtofr(&format!("{}{}e{}", if ng { "-" } else { "" }, mant, e), RNDN)?;
    let (b, t) = finalize(&mut l.o.r, t);
    Some((b, t != 0))
}
/// The text where a reader running past its ends would notice: in an
/// allocation of just its size (for sanitizers), or between bytes that could
/// belong to a number. Depends on the text only.
fn placed(x: &str) -> (Box<str>, usize) {
    match hash_str(x) % 4 {
        0 => (format!("7{x}99999999999999999").into(), 1),
        1 => (format!("-.{x}e9.inf00").into(), 2),
        _ => (x.into(), 0),
    }
}
/// Compare a * 10^k * 2^j with integers exactly: the position of the decimal value between
/// the neighbouring f256 values, as (is exact tie).
pub fn judge_parse(l: &mut Local, lit: &str) {
    let h = hash_str(lit);
    let Some((want, inexact)) = expect_parse(l, lit) else {
        return;
    };
    l.enter(|| format!("parse {}", jstr(lit)));
    let (buf, at) = placed(lit);
    let got = guard(|| f256::from_str(&buf[at..at + lit.len()]).map(|v| v.to_bits()));
    l.leave();
    l.note(h, inexact || lit.len() > 3);
    match got {
        Ok(Ok(g)) => {
            if g == want {
                l.sample(|| format!("parse {} -> {}", jstr(lit), hex(g)));
            } else {
                l.violate(format!("parse {}", jstr(lit)), format!("expected {} got {}", hex(want), hex(g)));
            }
        }
        Ok(Err(e)) => l.violate(format!("parse {}", jstr(lit)), format!("rejected: {e}")),
        Err(m) => l.violate(format!("parse {}", jstr(lit)), format!("panicked: {m}")),
    }
    let t = if !inexact {
        "exact"
    } else if is_inf(want) {
        "overflow"
    } else if is_zero(want) {
        "underflow-to-zero"
    } else if is_sub(want) {
        "subnormal"
    } else {
        "rounded"
    };
    l.tag(t);
}
pub fn digits(r: &mut Rng, n: usize) -> String {
    let mut o = String::with_capacity(n);
    let mode = r.below(8);
    for i in 0..n {
        let d = match mode {
            0 => 9,
            1 => (i == 0 || i + 1 == n) as u8,
            2 => {
                if r.chance(1, 8) {
                    r.below(10) as u8
                } else {
                    0
                }
            }
            3 => {
                if r.chance(1, 8) {
                    r.below(10) as u8
                } else {
                    9
                }
            }
            _ => r.below(10) as u8,
        };
        o.push((b'0' + d) as char);
    }
    o
}
/// Write the digits with the point somewhere so that the value is d * 10^k.
pub fn lay(r: &mut Rng, d: &str, k: i64, ng: bool) -> String {
    let mut o = String::new();
    if ng {
        o.push('-');
    } else if r.chance(1, 8) {
        o.push('+');
    }
    if r.chance(1, 6) {
        o.push_str(&"0".repeat(r.pick(&[1usize, 2, 7, 8, 9, 16, 17, 80])));
    }
    let n = d.len() as i64;
    // p digits before the point
    let p = match r.below(8) {
        0 => 0,
        1 => n,
        2 => 1.min(n),
        3 => -r.range(0, 40),
        4 => n + r.range(0, 40),
        5 if k.abs() < 2000 => n + k,
        _ => r.range(0, n),
    };
    let e = k + (n - p);
    if p <= 0 {
        if r.chance(1, 2) {
            o.push('0');
        }
        o.push('.');
        o.push_str(&"0".repeat(-p as usize));
        o.push_str(d);
    } else if p >= n {
        o.push_str(d);
        o.push_str(&"0".repeat((p - n) as usize));
        if r.chance(1, 4) {
            o.push('.');
        }
    } else {
        o.push_str(&d[..p as usize]);
        o.push('.');
        o.push_str(&d[p as usize..]);
    }
    if o.contains('.') && r.chance(1, 6) {
        o.push_str(&"0".repeat(r.pick(&[1usize, 3, 8, 20, 77, 90])));
    }
    if e != 0 || r.chance(1, 4) {
        o.push(r.pick(&['e', 'E']));
        if e < 0 {
            o.push('-');
        } else if r.chance(1, 3) {
            o.push('+');
        }
        if r.chance(1, 6) {
            o.push_str("00");
        }
        o.push_str(&e.unsigned_abs().to_string());
    }
    o
}
fn c16_mixed(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let n = match r.below(6) {
        0 => r.range(1, 8),
        1 => r.range(66, 82),
        2 => r.range(76, 78),
        3 => r.range(78, 400),
        _ => r.range(1, 77),
    } as usize;
    let d = digits(r, n);
    let k = match r.below(6) {
        0 => r.range(-110, 110),
        1 => r.range(-1030, 1030),
        2 => r.range(-1030, -1020) + if r.chance(1, 2) { 0 } else { 2050 },
        3 => r.range(-104, -98) + if r.chance(1, 2) { 0 } else { 202 },
        4 => r.range(105, 113),
        _ => r.range(-400, 400),
    };
    let ng = r.chance(1, 2);
    let lit = lay(r, &d, k, ng);
    judge_parse(l, &lit);
}
/// m * 2^q as an exact decimal (digits, exponent of ten).
pub fn dec_of(m: &Z, q: i64) -> (String, i64) {
    if q >= 0 {
        (m.shl(q as u64).to_dec(), 0)
    } else {
        (m.mul(&Z::pow(5, -q as u64)).to_dec(), q)
    }
}
/// A literal on or next to the midpoint of two neighbouring values (or on a value).
fn vary_mid(r: &mut Rng, d: String, k: i64) -> (String, i64) {
    let mut d = d;
    let mut k = k;
    match r.below(7) {
        0 | 1 => {}
        2 => {
            // a hair above
            let z = match r.below(3) {
                0 => r.pick(&[0usize, 1, 7, 8, 30, 200]),
                1 => r.below(140) as usize,
                // the digit lands around the end of the 77-digit window
                _ => (r.range(74, 90) as usize).saturating_sub(d.len()),
            };
            d.push_str(&"0".repeat(z));
            d.push('1');
            k -= z as i64 + 1;
        }
        3 => {
            // a hair below
            let z = Z::dec(&d).mul_ui(10).sub_ui(1);
            d = z.to_dec();
            k -= 1;
        }
        4 => {
            let z = Z::dec(&d).sub_ui(1);
            if !z.is_zero() {
                d = z.to_dec();
            }
        }
        5 => {
            let z = Z::dec(&d).add_ui(1);
            d = z.to_dec();
        }
        _ => {
            // cut at some digit (below or above by a bit)
            let c = r.range(60, 100).min(d.len() as i64) as usize;
            k += (d.len() - c) as i64;
            d.truncate(c);
            if r.chance(1, 2) {
                d = Z::dec(&d).add_ui(1).to_dec();
            }
        }
    }
    (d, k)
}
fn mid_of(r: &mut Rng, b: Bits) -> (Z, i64) {
    let (m, q) = decode(b);
    let m = Z::limbs(&m);
    match r.below(5) {
        0 => (m, q as i64),
        _ => (m.mul_ui(2).add_ui(1), q as i64 - 1),
    }
}
fn c16_mid(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let b = match r.below(4) {
        0 => {
            let e = r.range(-40, 300);
            gen::norm(r, e)
        }
        1 => {
            let e = r.range(-1200, 1200);
            gen::norm(r, e)
        }
        2 => {
            let e = r.range(200, 500);
            gen::norm(r, e)
        }
        _ => {
            let e = r.range(-400, 0);
            gen::norm(r, e)
        }
    };
    let (m, q) = mid_of(r, abs(b));
    let (d, k) = dec_of(&m, q);
    let (d, k) = vary_mid(r, d, k);
    let lit = lay(r, &d, k, is_neg(b));
    judge_parse(l, &lit);
}
/// w * 10^k extremely close to a midpoint, by continued fractions.
pub fn near_mids(k: i64, wbits: u64, wide: bool) -> Vec<Z> {
    // alpha = 10^k * 2^s; want w * alpha ~ N odd with 238 bits, w < 2^wbits
    let mut out = Vec::new();
    let (a, b) = if k >= 0 { (Z::pow(5, k as u64), Z::ui(1)) } else { (Z::ui(1), Z::pow(5, -k as u64)) };
    // scale: alpha ~ 2^(237.5 - wbits)
    let la = a.bits() as i64 - b.bits() as i64;
    for extra in if wide { 0..6 } else { 0..3 } {
        let s = 238 - wbits as i64 - la + extra;
        let (num, den) = if s >= 0 { (a.shl(s as u64), b.clone()) } else { (a.clone(), b.shl(-s as u64)) };
        // convergents of num/den: p/q ~ num/den; w = q, N = p
        let (mut n, mut d) = (num, den);
        let (mut p0, mut p1) = (Z::ui(0), Z::ui(1));
        let (mut q0, mut q1) = (Z::ui(1), Z::ui(0));
        while !d.is_zero() {
            let (t, rem) = n.divmod(&d);
            let p2 = t.mul(&p1).add(&p0);
            let q2 = t.mul(&q1).add(&q0);
            p0 = std::mem::replace(&mut p1, p2);
            q0 = std::mem::replace(&mut q1, q2);
            if q1.bits() > wbits {
                break;
            }
            for (p, q) in [(&p1, &q1), (&p0, &q0)] {
                if p.bits() == 238 && p.is_odd() && q.bits() > 8 {
                    out.push(q.clone());
                }
            }
            // semi-convergents and small multiples
            if p1.bits() >= 200 && p1.bits() <= 238 {
                for c in 1..40u64 {
                    let p = p1.mul_ui(c).add(&p0);
                    if p.bits() == 238 && p.is_odd() {
                        let q = q1.mul_ui(c).add(&q0);
                        if q.bits() <= wbits {
                            out.push(q);
                        }
                    }
                    let p = p1.mul_ui(c);
                    if p.bits() == 238 && p.is_odd() {
                        let q = q1.mul_ui(c);
                        if q.bits() <= wbits {
                            out.push(q);
                        }
                    }
                }
            }
            n = d;
            d = rem;
        }
    }
    out
}
fn c16_cf(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let (k, wb) = match r.below(4) {
        0 => (r.range(-102, 102), r.pick(&[237u64, 236, 230])),
        1 => (r.range(-1024, 1024), r.pick(&[255u64, 254, 250, 240])),
        2 => (r.range(-320, 320), 255),
        _ => (r.range(-104, 112), r.pick(&[255u64, 240, 238])),
    };
    let v = near_mids(k, wb, false);
    for w in v {
        let d = w.to_dec();
        if d.len() > 77 {
            continue;
        }
        let r = &mut l.r;
        let ng = r.chance(1, 2);
        let lit = lay(r, &d, k, ng);
        l.tag("continued-fraction near-midpoint");
        judge_parse(l, &lit);
        if l.r.chance(1, 3) {
            let r = &mut l.r;
            let z = if r.chance(1, 2) { w.add_ui(1) } else { w.sub_ui(1) };
            let lit = lay(r, &z.to_dec(), k, ng);
            judge_parse(l, &lit);
        }
        // longer literals sharing the first 77 digits
        if l.r.chance(1, 3) {
            let r = &mut l.r;
            let n = r.range(1, 90) as usize;
            let mut d2 = d.clone();
            if r.chance(1, 2) {
                d2.push_str(&digits(r, n));
            } else {
                d2.push_str(&"0".repeat(n - 1));
                d2.push('1');
            }
            let lit = lay(r, &d2, k - n as i64, ng);
            judge_parse(l, &lit);
        }
    }
}
/// Numbers close to 2^a * 10^b: the digit strings at which a shift by a power
/// of two changes the number of digits, and values next to powers of two.
fn c16_shifts(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let a = match r.below(3) {
        0 => r.range(-64, 64),
        1 => r.range(-500, 500),
        _ => r.range(-4000, 4000),
    };
    // b: mostly so that the exponent is outside of the fast algorithms
    let b = match r.below(4) {
        0 => r.range(-1200, 1200),
        1 => r.range(1030, 1300),
        _ => -r.range(1030, 1300),
    };
    let (d, k) = dec_of(&Z::ui(1), a);
    let (mut d, mut k) = if a >= 0 { (Z::ui(1).shl(a as u64).to_dec(), 0) } else { (d, k) };
    k += b;
    match r.below(4) {
        0 => {}
        1 => {
            // cut after i digits, perhaps one more or less in the last place
            let i = r.range(1, 60).min(d.len() as i64) as usize;
            k += (d.len() - i) as i64;
            d.truncate(i);
            let z = Z::dec(&d);
            d = match r.below(3) {
                0 => z.add_ui(1),
                1 if i > 1 => z.sub_ui(1),
                _ => z,
            }
            .to_dec();
        }
        _ => {
            // change one digit
            let w = r.range(1, 64) as usize;
            let i = r.below(d.len().min(w) as u64) as usize;
            let mut v = d.into_bytes();
            v[i] = if r.chance(1, 2) { b'0' + r.below(10) as u8 } else { (v[i].wrapping_add(if r.chance(1, 2) { 1 } else { 255 })).clamp(b'0', b'9') };
            if v[0] == b'0' {
                v[0] = b'1';
            }
            d = String::from_utf8(v).unwrap();
        }
    }
    if r.chance(1, 4) {
        let n = r.range(1, 100) as usize;
        d.push_str(&digits(r, n));
        k -= n as i64;
    }
    let ng = r.chance(1, 2);
    let lit = lay(r, &d, k, ng);
    l.tag("digits of 2^a * 10^b");
    judge_parse(l, &lit);
}
/// Midpoints with at most 77 digits (those the fast paths meet exactly), zeros, and a
/// digit somewhere behind the window of 77 digits.
fn c16_late(l: &mut Local, _: u64) {
    let r = &mut l.r;
    // odd m with 238 bits times 2^j 5^-i: an integer with few digits, or with a few fractional digits
    let five = r.below(5);
    let base = rand_odd_mid(r, five);
    let j = r.range(-12, 14);
    let (m, k) = if j >= 0 { (base.shl(j as u64), 0) } else { (base.mul(&Z::pow(5, -j as u64)), j) };
    let mut d = m.to_dec();
    let mut k = k;
    while d.ends_with('0') {
        d.pop();
        k += 1;
    }
    k += if r.chance(1, 3) { 0 } else { r.range(-102, 102) * (r.chance(1, 4) as i64) };
    if r.chance(4, 5) {
        let z = (77usize.saturating_sub(d.len())) + r.pick(&[0usize, 1, 2, 7, 8, 9, 15, 16, 40, 77, 100]) - if d.len() < 76 { r.below(2) as usize } else { 0 };
        d.push_str(&"0".repeat(z));
        d.push((b'1' + r.below(9) as u8) as char);
        k -= z as i64 + 1;
    }
    let ng = r.chance(1, 2);
    let lit = lay(r, &d, k, ng);
    l.tag("digit behind the window");
    judge_parse(l, &lit);
}
/// Decimals of about full precision next to a power of two or to a value whose increment carries far.
fn c16_borders(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let e = if r.chance(5, 6) { r.range(-3600, 3600) } else { r.range(-20000, 20000) };
    // four guard bits below the 237 of the significand
    let top = match r.below(4) {
        0 | 1 => Z::pow(2, 241),
        2 => {
            let i = r.range(1, 236) as u64;
            let h = hard::rand_odd(r, (237 - i) as u32);
            h.shl(i + 4)
        }
        _ => {
            let h = hard::rand_odd(r, 109);
            h.shl(128 + 4)
        }
    };
    let m = match r.below(3) {
        0 => top,
        1 => top.add_ui(r.below(20)),
        _ => top.sub_ui(r.below(20)),
    };
    let (d, k) = dec_of(&m, e - 241);
    let n = (if r.chance(1, 2) { r.range(72, 78) } else { r.range(60, 100) }).min(d.len() as i64) as usize;
    let k2 = k + (d.len() - n) as i64;
    let z = Z::dec(&d[..n]);
    let z = match r.below(4) {
        0 | 1 => z,
        2 => z.add_ui(1),
        _ => z.add_ui(r.below(12)).sub_ui(1),
    };
    let ng = r.chance(1, 2);
    let lit = lay(r, &z.to_dec(), k2, ng);
    l.tag("next to a power of two or a long carry");
    judge_parse(l, &lit);
}
/// Ties with a last digit around the capacity of the slow algorithm's digit buffer.
fn c16_capacity(l: &mut Local, _: u64) {
    const CAP: i64 = 183_467;
    let r = &mut l.r;
    let j = r.below(5);
    let m = rand_odd_mid(r, j);
    let e = r.range(-60, 60);
    let (d, k) = dec_of(&m, e);
    let n = CAP - r.range(-4, 70) * r.pick(&[0i64, 1, 1, 1]) - r.range(-1, 1);
    let z = (n - d.len() as i64 - 1) as usize;
    let mut t = d;
    t.push_str(&"0".repeat(z));
    t.push((b'1' + r.below(9) as u8) as char);
    if r.chance(1, 4) {
        let i = r.range(1, 5) as usize;
        t.push_str(&"0".repeat(i));
    }
    let k = k - (z as i64 + 1);
    let sh = t.len() as i64 - (z as i64 + 1);
    let k = k - (t.len() as i64 - sh - z as i64 - 1);
    let b = r.pick(&[0i64, 0, 1, -1]) * r.range(0, 200);
    let ng = r.chance(1, 2);
    let lit = if r.chance(1, 2) { format!("{}{t}e{}", if ng { "-" } else { "" }, k + b) } else { lay(r, &t, k + b, ng) };
    l.tag("digit at the end of the buffer");
    judge_parse(l, &lit);
}
/// Odd number of 238 bits divisible by 5^i.
fn rand_odd_mid(r: &mut Rng, i: u64) -> Z {
    let f = Z::pow(5, i);
    loop {
        let q = hard::rand_odd(r, 238 - (f.bits() as u32 - 1));
        let m = q.mul(&f);
        if m.bits() == 238 {
            return m;
        }
    }
}
/// Large exponents, both ends of the range.
fn c16_extreme(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let n = match r.below(4) {
        0 => 1,
        1 => r.range(60, 90),
        _ => r.range(1, 120),
    } as usize;
    let mut d = digits(r, n);
    if d.bytes().all(|c| c == b'0') {
        d.push('7');
    }
    let n = d.len() as i64;
    // decimal exponent of the leading digit
    let top = match r.below(10) {
        0 => r.range(78900, 78925),
        1 => r.range(-78920, -78905),
        2 => r.range(-79000, -78975),
        3 => r.range(-78990, -78900),
        4 => r.range(-79120, -78990),
        5 => r.range(-78913, 78913),
        6 => r.pick(&[100_000i64, -100_000, 1 << 31, -(1 << 31), (1 << 31) - 1, i64::MAX / 4, i64::MIN / 4, 1 << 32, -(1 << 32), 1 << 33, 4294967296 + 3]),
        7 => r.range(-40000, 40000),
        8 => r.range(1025, 3000) * if r.chance(1, 2) { 1 } else { -1 },
        _ => r.range(78800, 78916),
    };
    let ng = r.chance(1, 2);
    let lit = lay(r, &d, top - n + 1, ng);
    judge_parse(l, &lit);
}
/// Exact boundaries written in full: largest value, overflow threshold, smallest normal,
/// smallest subnormal, half of it, random subnormals, and their closest neighbours.
fn c16_limits(l: &mut Local, i: u64) {
    let r = &mut l.r;
    let b = match i % 8 {
        0 => MAXF,
        1 => (0, 1),
        2 => (FRACM, u128::MAX),
        3 => (1 << 108, 0),
        4 => (0, 0),
        5 => abs(gen::subnormal(r)),
        6 => {
            let e = r.range(EMIN as i64, EMIN as i64 + 300);
            abs(gen::norm(r, e))
        }
        _ => {
            let e = r.range(EMAX as i64 - 300, EMAX as i64);
            abs(gen::norm(r, e))
        }
    };
    let (m, q) = decode(b);
    let m = Z::limbs(&m);
    let (m, q) = if r.chance(1, 5) && !m.is_zero() { (m, q as i64) } else { (m.mul_ui(2).add_ui(1), q as i64 - 1) };
    let (d, k) = dec_of(&m, q);
    let (d, k) = vary_mid(r, d, k);
    // keep as is: one point, exponent form or plain
    let ng = r.chance(1, 2);
    let lit = lay(r, &d, k, ng);
    judge_parse(l, &lit);
}
/// Many zeros between point, digits and exponent.
fn c16_zeros(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let mut o = String::new();
    if r.chance(1, 2) {
        o.push('-');
    }
    let n = r.pick(&[1i64, 8, 76, 77, 78, 200, 5000, 100_000]);
    let d = {
        let n = r.range(1, 80) as usize;
        digits(r, n)
    };
    let j = r.range(-5, 5);
    match r.below(6) {
        0 => {
            o.push_str("0.");
            o.push_str(&"0".repeat(n as usize));
            o.push_str(&d);
            o.push_str(&format!("e{}", n + j));
        }
        1 => {
            o.push_str(&d);
            o.push_str(&"0".repeat(n as usize));
            o.push_str(&format!("e-{}", n + j + 10));
        }
        2 => {
            o.push_str(&"0".repeat(n as usize));
            o.push_str(&d);
            o.push('.');
            o.push_str(&"0".repeat(n as usize));
            o.push_str(&format!("e{j}"));
        }
        3 => {
            // only zeros
            o.push_str(&"0".repeat(r.below(20) as usize));
            if r.chance(1, 2) {
                o.push('.');
            }
            o.push_str(&"0".repeat(r.below(20) as usize + 1));
            if r.chance(1, 2) {
                o.push_str(r.pick(&["e0", "e5", "E-77", "e99999999999", "e-99999999999", "e2147483647", "e-2147483648", "e+00"]));
            }
        }
        4 => {
            o.push('1');
            o.push_str(&"0".repeat(n as usize));
            o.push('.');
            o.push_str(&d);
            o.push_str(&format!("e-{n}"));
        }
        _ => {
            o.push_str(&d);
            o.push('.');
            o.push_str(&"0".repeat(n as usize));
            o.push('1');
            o.push_str(&format!("e{j}"));
        }
    }
    judge_parse(l, &o);
}
/// Text printed from values, with enough and with too few digits.
fn c16_printed(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let b = {
        let e = r.range(-1100, 1100);
        gen::norm(r, e)
    };
    let (m, q) = decode(b);
    let (d, k) = dec_of(&Z::limbs(&m), q as i64);
    let n = r.pick(&[70usize, 71, 72, 73, 74, 75, 76, 77, 78]).min(d.len());
    let k2 = k + (d.len() - n) as i64;
    let up = d.as_bytes().get(n).is_some_and(|c| *c >= b'5');
    let mut z = Z::dec(&d[..n]);
    if up {
        z = z.add_ui(1);
    }
    let lit = lay(r, &z.to_dec(), k2, is_neg(b));
    judge_parse(l, &lit);
}

// ----- C17: the language -----
#[derive(PartialEq, Debug)]
enum Cls {
    Nan,
    Inf(bool),
    Num(bool),
    Err(String, String),
}
fn cls64(x: &str) -> Cls {
    match f64::from_str(x) {
        Ok(v) if v.is_nan() => Cls::Nan,
        Ok(v) => {
            // "inf" or a number out of the smaller range?
            let t = x.trim_start_matches(['+', '-']);
            let word = t.bytes().next().is_some_and(|c| c.is_ascii_alphabetic());
            if word {
                Cls::Inf(v.is_sign_negative())
            } else {
                Cls::Num(v.is_sign_negative())
            }
        }
        Err(e) => Cls::Err(format!("{e:?}"), e.to_string()),
    }
}
fn cls_of(b: Result<Bits, std::num::ParseFloatError>, word: bool) -> Cls {
    match b {
        Ok(b) if is_nan(b) => Cls::Nan,
        Ok(b) if is_inf(b) && word => Cls::Inf(is_neg(b)),
        Ok(b) if word => Cls::Num(is_neg(b)),
        Ok(b) => Cls::Num(is_neg(b)),
        Err(e) => Cls::Err(format!("{e:?}"), e.to_string()),
    }
}
/// Literals that reach the parser's digit-by-digit algorithm with large exponents take
/// about half a second each; only some of them are let through.
fn slow(x: &str) -> bool {
    let Some(p) = x.find(['e', 'E']) else { return false };
    let t = x[p + 1..].trim_start_matches(['+', '-']).trim_start_matches('0');
    let k = t.bytes().take_while(|c| c.is_ascii_digit()).count();
    k == t.len() && (k == 5 || (k == 4 && &t[..1] >= "1"))
}
/// Does the parsed number contradict f64's, beyond what the larger range and precision allow?
fn off_scale(x: &str, b: Bits) -> Option<String> {
    // f64's parser cuts exponents at 2^16; stay clear of literals that long
    if x.len() > 10_000 || is_nan(b) {
        return None;
    }
    let v = f64::from_str(x).ok()?.abs();
    let b = abs(b);
    let lim = |e: i64| -> Bits { ((((e + 262143) as u128) << 108), 0) };
    let bad = if v.is_infinite() {
        // at least the threshold between the largest f64 and infinity
        let mant = x.bytes().next().is_some_and(|c| c.is_ascii_digit() || b"+-.".contains(&c));
        mant && b < lim(1023)
    } else if v == 0.0 {
        b > lim(-1075)
    } else {
        // within a part in 2^50, or half a step of the subnormal range
        let e = (v.to_bits() >> 52) as i64;
        if e == 0 {
            b < lim(-1076) || b > lim(-1021)
        } else {
            // leading 52 bits of the significand against f64's
            let f = ((b.0 >> 108) as i64 - 262143 - (e - 1023)) as i128 * (1 << 52);
            let d = (((b.0 & FRACM) >> (108 - 52)) as i128 | 1 << 52) - ((v.to_bits() & ((1 << 52) - 1)) | 1 << 52) as i128;
            if f == 0 {
                d.abs() > 1
            } else {
                // one step below a power of two
                !(f == -(1 << 52) && d >= (1 << 52) - 1)
            }
        }
    };
    bad.then(|| format!("{} where f64 gives {v:e}", hex(b)))
}
pub fn judge_lang(l: &mut Local, x: &str) {
    if slow(x) && !l.r.chance(1, 200) {
        return;
    }
    let want = cls64(x);
    let sig = || format!("lang {}", jstr(x));
    let (buf, at) = placed(x);
    let x = &buf[at..at + x.len()];
    l.enter(|| format!("lang {}", jstr(x)));
    let got = guard(|| f256::from_str(x).map(|v| v.to_bits()));
    l.leave();
    l.note(hash_str(x), !x.is_empty());
    let got = match got {
        Ok(g) => g,
        Err(m) => {
            l.violate(sig(), format!("panicked: {m}"));
            return;
        }
    };
    let word = x.bytes().any(|c| (c | 32) == b'n' || (c | 32) == b'f');
    let bits = got.clone().ok();
    let g = cls_of(got, word);
    if g != want {
        l.violate(sig(), format!("f64 gives {want:?}, f256 gives {g:?}"));
    } else if let Some(w) = bits.and_then(|b| off_scale(x, b)) {
        l.violate(sig(), w);
    } else {
        l.sample(|| format!("lang {} -> {g:?}", jstr(x)));
    }
    l.tag(match &want {
        Cls::Nan => "nan",
        Cls::Inf(_) => "inf",
        Cls::Num(_) => "number",
        Cls::Err(d, _) if d.contains("Empty") => "rejected-empty",
        Cls::Err(..) => "rejected-invalid",
    });
    // the other ways in
    let o = guard(|| <f256 as TryFrom<&str>>::try_from(x).map(|v| v.to_bits()));
    match o {
        Ok(o) => {
            let (ob, oc) = (o.clone().ok(), cls_of(o, word));
            if oc != g || ob.map(|b| if is_nan(b) { NAN } else { b }) != bits.map(|b| if is_nan(b) { NAN } else { b }) {
                l.violate(sig(), format!("TryFrom gives {oc:?}, FromStr {g:?}"));
            }
        }
        Err(m) => l.violate(sig(), format!("TryFrom panicked: {m}")),
    }
    #[cfg(feature = "num-traits")]
    {
        let o = guard(|| <f256 as num_traits::Num>::from_str_radix(x, 10).map(|v| v.to_bits()));
        match o {
            Ok(o) => {
                let ob = o.as_ref().ok().copied();
                if ob.map(|b| if is_nan(b) { NAN } else { b }) != bits.map(|b| if is_nan(b) { NAN } else { b }) {
                    l.violate(sig(), format!("from_str_radix gives {:?}, FromStr {:?}", ob.map(hex), bits.map(hex)));
                }
            }
            Err(m) => l.violate(sig(), format!("from_str_radix panicked: {m}")),
        }
    }
}
/// A string of the grammar's shape; mutated afterwards.
fn grammar(r: &mut Rng) -> String {
    let mut o = String::new();
    o.push_str(r.pick(&["", "", "", "-", "+"]));
    if r.chance(1, 8) {
        let w = r.pick(&["nan", "inf", "infinity", "NaN", "Inf", "INFINITY", "iNfInItY", "infinit", "na", "in", "infi", "nan0", "inf."]);
        o.push_str(w);
        return o;
    }
    let ni = r.pick(&[0usize, 0, 1, 1, 2, 3, 6, 7, 8, 9, 15, 16, 17, 24, 60, 68, 69, 70, 71, 72, 76, 77, 78, 90]);
    let nf = r.pick(&[0usize, 0, 1, 1, 2, 3, 6, 7, 8, 9, 15, 16, 17, 24, 60, 68, 69, 70, 71, 72, 76, 77, 78, 90]);
    if r.chance(1, 4) {
        o.push_str(&"0".repeat(r.below(20) as usize));
    }
    let d = digits(r, ni);
    o.push_str(&d);
    if r.chance(3, 4) {
        o.push('.');
        if r.chance(1, 6) {
            o.push_str(&"0".repeat(r.below(20) as usize));
        }
        let d = digits(r, nf);
        o.push_str(&d);
    }
    if r.chance(1, 2) {
        o.push(r.pick(&['e', 'E']));
        o.push_str(r.pick(&["", "", "-", "+"]));
        let n = r.pick(&[0usize, 1, 1, 2, 2, 3]);
        let d = digits(r, n);
        o.push_str(&d);
        if r.chance(1, 40) {
            let n = r.below(14) as usize;
            let d = digits(r, n);
            o.push_str(&d);
        } else if r.chance(1, 40) {
            // borders of the machine words
            let k = r.pick(&[1i128 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 63, 1 << 64]);
            let k = if r.chance(1, 2) { k } else { k / 10 * 10 } + r.range(-12, 12) as i128;
            o.push_str(&k.to_string());
            let n = r.pick(&[0usize, 0, 0, 1, 2, 5]);
            let d = digits(r, n);
            o.push_str(&d);
        }
    }
    o
}
fn junk(r: &mut Rng) -> char {
    match r.below(14) {
        0 => '.',
        1 => r.pick(&['e', 'E']),
        2 => r.pick(&['+', '-']),
        3 => '0',
        4 => (b'0' + r.below(10) as u8) as char,
        5 => r.pick(&['/', ':', '_', ',', ' ', '\0', '\t', '\n', 'x', 'n', 'N', 'i', 'f', 'a', 't', 'y', ';', '*', ')', '-', '.']),
        6 => char::from_u32(r.below(128) as u32).unwrap(),
        7 => char::from_u32(r.range(0x80, 0x7ff) as u32).unwrap(),
        8 => r.pick(&['\u{ae}', '\u{b0}', '\u{130}', '\u{2e2e}', '\u{3030}', '\u{660}', '\u{ff11}', '\u{1f600}', '\u{2212}', '\u{131}', '\u{17f}', '\u{212a}']),
        9 => '.',
        _ => r.pick(&['0', '9', '.', 'e', '-', '+', '1']),
    }
}
fn mutate(r: &mut Rng, x: String) -> String {
    let mut v: Vec<char> = x.chars().collect();
    for _ in 0..r.range(1, 3) {
        let p = r.below(v.len() as u64 + 1) as usize;
        match r.below(5) {
            0 | 1 => {
                let c = junk(r);
                v.insert(p, c);
            }
            2 if p < v.len() => {
                v[p] = junk(r);
            }
            3 if p < v.len() => {
                v.remove(p);
            }
            _ => {
                if p < v.len() {
                    let q = r.below(v.len() as u64) as usize;
                    v.swap(p, q);
                }
            }
        }
    }
    v.into_iter().collect()
}
fn c17_grammar(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let x = grammar(r);
    judge_lang(l, &x);
}
fn c17_mutated(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let x = grammar(r);
    let x = mutate(r, x);
    judge_lang(l, &x);
}
fn c17_random(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let n = r.below(14);
    let mut x = String::new();
    for _ in 0..n {
        x.push(junk(r));
    }
    judge_lang(l, &x);
}
/// One foreign character at every offset of digit strings around the scanner's windows.
fn c17_windows(l: &mut Local, i: u64) {
    let total = (i % 100) as usize + 1;
    let c = l.r.pick(&['.', '.', 'e', '/', ':', '-', '+', ' ', '_', '\0', '\u{b0}', '\u{ae}', '\u{1f600}', 'E', 'n', '\u{7f}', '\u{80}']);
    let dp = if l.r.chance(1, 2) { Some(l.r.below(total as u64 + 1) as usize) } else { None };
    let d = digits(&mut l.r, total);
    for p in 0..=total {
        let mut x = String::new();
        x.push_str(&d[..p]);
        x.push(c);
        x.push_str(&d[p..]);
        if let Some(q) = dp {
            if x.is_char_boundary(q) {
                x.insert(q, '.');
            }
        }
        judge_lang(l, &x);
    }
}
/// All strings over a small alphabet, shortest first.
fn c17_exhaustive(l: &mut Local, i: u64) {
    const A: &[u8] = b"019.eE+-inNaf";
    let mut k = i;
    let mut n = 0;
    let mut c = 1u64;
    while k >= c {
        k -= c;
        c *= A.len() as u64;
        n += 1;
    }
    let mut x = String::new();
    for _ in 0..n {
        x.push(A[(k % A.len() as u64) as usize] as char);
        k /= A.len() as u64;
    }
    judge_lang(l, &x);
}
fn c17_long(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let n = r.pick(&[1000usize, 4096, 20_000, 200_000]);
    let mut x = match r.below(4) {
        0 => "9".repeat(n),
        1 => "0".repeat(n),
        2 => digits(r, n),
        _ => format!("{}.{}", digits(r, 3), digits(r, n)),
    };
    match r.below(6) {
        0 => x.push_str("e-99999999999999999999"),
        1 => x.push('x'),
        2 => {
            let p = r.below(n as u64) as usize;
            x.insert(p, r.pick(&['.', ',', 'e', '-']));
        }
        3 => x.push_str(&format!("e-{n}")),
        _ => {}
    }
    judge_lang(l, &x);
}
pub fn replay(l: &mut Local, line: &str) -> bool {
    if let Some(x) = line.strip_prefix("parse ") {
        judge_parse(l, &unjstr(x));
        return true;
    }
    if let Some(x) = line.strip_prefix("lang ") {
        judge_lang(l, &unjstr(x));
        return true;
    }
    false
}
/// Any text: valid literals, mutated ones and garbage.
pub fn any_text(r: &mut Rng) -> String {
    let g = grammar(r);
    if r.chance(1, 3) {
        mutate(r, g)
    } else {
        g
    }
}
const R16: &str = "decimal literals from digit-pattern generators, exact midpoints and their closest neighbours, and continued-fraction near-midpoints, judged against MPFR's exact decimal conversion; non-trivial = inexact or longer than three characters; distinct by hash of the literal";
const R17: &str = "strings from a grammar generator, mutations of it, all short strings over the literal alphabet, and foreign characters at every offset of digit runs, judged against f64's parser; non-trivial = non-empty; distinct by hash of the string";
pub fn streams(p: &str) -> Option<(Vec<Stream>, &'static str)> {
    Some(match p {
        "C16" => (
            vec![
                s("mixed", 2_500_000, 40_000_000, c16_mixed),
                s("midpoints", 500_000, 10_000_000, c16_mid),
                s("continued-fractions", 15_000, 420_000, c16_cf),
                s("printed", 400_000, 3_000_000, c16_printed),
                s("shifts", 150_000, 1_500_000, c16_shifts),
                s("late-digits", 500_000, 8_000_000, c16_late),
                s("borders", 150_000, 3_000_000, c16_borders),
                s("capacity", 1_200, 100_000, c16_capacity),
                s("zeros", 10_000, 60_000, c16_zeros),
                s("extreme", 240, 6_000, c16_extreme),
                s("limits", 96, 3_200, c16_limits),
            ],
            R16,
        ),
        "C17" => (
            vec![
                s("grammar", 1_000_000, 30_000_000, c17_grammar),
                s("mutated", 2_000_000, 60_000_000, c17_mutated),
                s("random", 1_000_000, 20_000_000, c17_random),
                s("windows", 20_000, 400_000, c17_windows),
                s("exhaustive", 400_000, 5_229_043, c17_exhaustive),
                s("long", 200, 4_000, c17_long),
            ],
            R17,
        ),
        _ => return None,
    })
}
