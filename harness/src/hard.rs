//! Operands whose exact results lie on or extremely close to rounding boundaries.
#![allow(dead_code)]
use crate::ffi::*;
use crate::gen;
use crate::ops::*;
use crate::rng::Rng;

pub fn zbits(b: Bits) -> Z {
    Z::limbs(&[b.1 as u64, (b.1 >> 64) as u64, b.0 as u64, (b.0 >> 64) as u64])
}
pub fn to_bits(z: &Z) -> Bits {
    let l = z.to_limbs4();
    ((l[3] as u128) << 64 | l[2] as u128, (l[1] as u128) << 64 | l[0] as u128)
}
/// z * 2^q as an f256 if it is representable.
pub fn from_z(z: &Z, q: i64) -> Option<Bits> {
    let ng = z.is_neg();
    let z = if ng { z.neg() } else { z.clone() };
    if z.is_zero() {
        return Some(gen::make(ng, 0, (0, 0)));
    }
    let n = z.bits() as i64;
    let e = q + n - 1;
    if e > EMAX as i64 {
        return None;
    }
    let tgt = (e - 236).max(QMIN as i64);
    let sh = q - tgt;
    let m = if sh >= 0 {
        z.shl(sh as u64)
    } else {
        if z.tz() < (-sh) as u64 {
            return None;
        }
        z.shr((-sh) as u64)
    };
    let b = to_bits(&m);
    let be = if e < EMIN as i64 { 0 } else { (e + BIAS as i64) as u32 };
    Some(gen::make(ng, be, b))
}
pub fn rand_z(r: &mut Rng, bits: u32) -> Z {
    // exactly `bits` bits, random
    let z = zbits((r.u128(), r.u128()));
    if bits == 0 {
        return Z::new();
    }
    let z = z.low(bits as u64 - 1);
    z.add(&Z::ui(1).shl(bits as u64 - 1))
}
pub fn rand_odd(r: &mut Rng, bits: u32) -> Z {
    let z = rand_z(r, bits);
    if z.is_odd() {
        z
    } else {
        z.add_ui(1)
    }
}
/// Random pattern significand (237 bits, leading bit set).
pub fn signif(r: &mut Rng) -> Z {
    let f = gen::frac(r);
    zbits((f.0 | 1 << 108, f.1))
}
fn pow2(n: u64) -> Z {
    Z::ui(1).shl(n)
}
fn delta(r: &mut Rng) -> i64 {
    match r.below(4) {
        0 => 1,
        1 => -1,
        2 => r.range(-9, 9),
        _ => {
            let k = r.range(1, 40);
            let v = r.range(1, 1 << k);
            if r.chance(1, 2) {
                v
            } else {
                -v
            }
        }
    }
}
fn zi(v: i64) -> Z {
    if v < 0 {
        Z::ui(v.unsigned_abs()).neg()
    } else {
        Z::ui(v as u64)
    }
}
/// Significand pair whose product lies within delta of a midpoint (or of a
/// representable value), or exactly on a midpoint.
pub fn mul_signifs(r: &mut Rng) -> (Z, Z) {
    if r.chance(1, 3) {
        // exact tie: i-bit * j-bit odd numbers with a product of 238 bits
        loop {
            let i = r.range(2, 236) as u32;
            let j = 239 - i;
            let (a, b) = (rand_odd(r, i), rand_odd(r, j));
            if a.mul(&b).bits() == 238 {
                return (a.shl(237 - i as u64), b.shl(237 - j as u64));
            }
        }
    }
    let y = {
        let y = if r.chance(1, 2) { rand_z(r, 237) } else { signif(r) };
        if y.is_odd() {
            y
        } else {
            y.add_ui(1)
        }
    };
    let long = r.chance(1, 2);
    let k = if long { 237 } else { 236 };
    let m = pow2(k);
    let mut t = zi(delta(r));
    if r.chance(3, 4) {
        t = t.add(&pow2(k - 1));
    }
    let t = t.low(k);
    let yi = y.inv(&m).unwrap();
    let x = t.mul(&yi).low(k);
    let x = if long {
        if x.bits() == 237 {
            x
        } else {
            // pad the top bit: product residue mod 2^236 is still controlled
            x.low(236).add(&pow2(236))
        }
    } else {
        x.add(&pow2(236))
    };
    (x, y)
}
/// (x, y): significands whose quotient lies next to a midpoint.
pub fn div_signifs(r: &mut Rng) -> (Z, Z) {
    loop {
        let y = {
            let y = if r.chance(1, 2) { rand_z(r, 237) } else { signif(r) };
            if y.is_odd() {
                y
            } else {
                y.add_ui(1)
            }
        };
        let m = pow2(238);
        let mut d = delta(r);
        if r.chance(3, 4) {
            d |= 1;
        }
        // q = -d / y mod 2^238; x = (q*y + d) / 2^238
        let yi = y.inv(&m).unwrap();
        let q = zi(-d).mul(&yi).low(238);
        if q.bits() != 238 {
            continue;
        }
        let x = q.mul(&y).add(&zi(d)).shr(238);
        let n = x.bits();
        if n < 200 || n > 237 {
            continue;
        }
        return (x.shl(237 - n), y);
    }
}
/// Root of a (odd, a = 1 mod 8) modulo 2^k.
pub fn sqrt2adic(a: &Z, k: u64) -> Z {
    let mut q = Z::ui(1);
    for i in 3..k {
        let d = q.mul(&q).sub(a);
        if d.tstbit(i) {
            q = q.add(&pow2(i - 1));
        }
    }
    q.low(k)
}
fn root_any(r: &mut Rng, a: &Z, k: u64) -> Z {
    let q = sqrt2adic(a, k);
    let q = if r.chance(1, 2) { q } else { q.neg().low(k) };
    if r.chance(1, 2) {
        q
    } else {
        q.add(&pow2(k - 1)).low(k)
    }
}
/// Values whose square root lies next to a midpoint: (significand, exponent parity shift).
pub fn sqrt_value(r: &mut Rng) -> (Z, i64) {
    loop {
        let k = r.pick(&[238u64, 239, 240]);
        let d = 8 * r.range(-40, 40) + 7; // -d = 1 mod 8
        let a = zi(-d);
        let q = root_any(r, &a.low(k), k);
        // k may exceed 238: reduce the root to 238 bits if it happens to fit
        if q.bits() != 238 {
            continue;
        }
        let x = q.mul(&q).add(&zi(d)).shr(k);
        if x.bits() > 237 || x.bits() < 230 {
            continue;
        }
        return (x, k as i64);
    }
}
/// Significand whose square lies next to a midpoint.
pub fn square_signif(r: &mut Rng) -> Z {
    loop {
        let k = r.pick(&[236u64, 237]);
        let d = 8 * r.range(-40, 40) + 1;
        let a = pow2(k - 1).add(&zi(d)).low(k);
        let q = root_any(r, &a, k);
        let q = if q.bits() == 237 { q } else { q.low(236).add(&pow2(236)) };
        return q;
    }
}
/// Place a significand (<= 237 bits) so that its leading bit has exponent e.
pub fn at(r: &mut Rng, z: &Z, e: i64) -> Option<Bits> {
    let b = from_z(z, e - (z.bits() as i64 - 1))?;
    Some(if r.chance(1, 2) { neg(b) } else { b })
}
/// Exponent for products/quotients: mostly mid-range, sometimes at the edges.
pub fn target_exp(r: &mut Rng) -> i64 {
    match r.below(10) {
        0..=3 => r.range(-300, 300),
        4 | 5 => r.range(EMIN as i64 - 240, EMIN as i64 + 4),
        6 => r.range(EMIN as i64 - 3, EMIN as i64 + 3),
        7 => r.range(EMAX as i64 - 3, EMAX as i64 + 2),
        8 => r.range(QMIN as i64 - 3, QMIN as i64 + 3),
        _ => r.range(EMIN as i64, EMAX as i64),
    }
}
/// Split a target exponent sum into two in-range exponents.
pub fn split_exp(r: &mut Rng, t: i64) -> (i64, i64) {
    for _ in 0..20 {
        let a = if r.chance(1, 2) { t / 2 + r.range(-400, 400) } else { gen::exponent(r) };
        let b = t - a;
        if a >= EMIN as i64 && a <= EMAX as i64 && b >= EMIN as i64 && b <= EMAX as i64 {
            return (a, b);
        }
    }
    (t / 2, t - t / 2)
}
fn rep(r: &mut Rng, a: Option<Bits>, b: Option<Bits>) -> (Bits, Bits) {
    match (a, b) {
        (Some(a), Some(b)) => (a, b),
        _ => (gen::finite(r), gen::finite(r)),
    }
}
pub fn mul_pair(r: &mut Rng) -> (Bits, Bits) {
    let (x, y) = mul_signifs(r);
    let t = target_exp(r);
    let (e, f) = split_exp(r, t);
    let (a, b) = (at(r, &x, e), at(r, &y, f));
    rep(r, a, b)
}
pub fn div_pair(r: &mut Rng) -> (Bits, Bits) {
    let (x, y) = div_signifs(r);
    let t = target_exp(r);
    let (e, f) = split_exp(r, t);
    let (a, b) = (at(r, &x, e), at(r, &y, -f));
    rep(r, a, b)
}
/// Addend pairs around ties, binade boundaries and cancellations.
pub fn add_pair(r: &mut Rng) -> (Bits, Bits) {
    let e = gen::exponent(r).clamp(EMIN as i64, EMAX as i64);
    let mut a = gen::norm(r, e);
    if r.chance(1, 4) {
        // power of two, or the value just below / above
        a = step((a.0 & !FRACM, 0), r.range(-1, 1));
    }
    let ea = gen::lead_exp(a);
    let ulp = ea - 236;
    match r.below(6) {
        0 => {
            // b = half (or quarter, or three quarter) ulp of a, +- last place of b
            let k = r.range(0, 3);
            let be = ulp - k;
            if be < QMIN as i64 {
                return (a, gen::subnormal(r));
            }
            let base = from_z(&Z::ui(r.pick(&[1, 1, 1, 3, 5, 7])), be).unwrap_or(ONE);
            let b = step(base, r.pick(&[0, 0, 1, -1, 2, -2, 1 << 40, -(1 << 40)]));
            (a, if r.chance(1, 2) { neg(b) } else { b })
        }
        1 => {
            // b reaches i bits below a's last place, with the dropped part a tie
            let i = r.range(1, 236);
            let nb = r.range(i, 237) as u32;
            let mut z = rand_z(r, nb);
            if i >= 1 {
                z = z.shr(i as u64).shl(i as u64).add(&pow2(i as u64 - 1));
            }
            if r.chance(1, 3) {
                z = z.add(&zi(r.pick(&[1, -1])));
            }
            match from_z(&z, ulp - i) {
                Some(b) => (a, if r.chance(1, 2) { neg(b) } else { b }),
                None => (a, gen::related(r, a)),
            }
        }
        2 => {
            // massive cancellation
            let s = r.pick(&[1, -1, 2, -2, 3, 1 << 30, -(1 << 50)]);
            (a, neg(step(a, s)))
        }
        3 => {
            // same magnitudes one binade apart
            let be = (bexp(a) as i64 + r.range(-1, 1)).clamp(1, EXP_MAX as i64 - 1) as u32;
            let f = gen::frac(r);
            (a, gen::make(!is_neg(a), be, f))
        }
        4 => {
            // tiny against big: only stickiness remains
            let d = r.range(236, 600);
            let b = if ea - d < EMIN as i64 { gen::subnormal(r) } else { gen::norm(r, ea - d) };
            (a, b)
        }
        _ => {
            let b = gen::related(r, a);
            (a, b)
        }
    }
}
/// Sum of the exact product and the addend close to interesting boundaries.
pub fn fma_triple(r: &mut Rng) -> (Bits, Bits, Bits) {
    let t = target_exp(r);
    let (e, f) = split_exp(r, t);
    let (x, y) = match r.below(3) {
        0 => mul_signifs(r),
        1 => (signif(r), signif(r)),
        _ => {
            // product (1+d)(1-d) or so: a power of two +- 2^-472
            let k = r.pick(&[1u64, 2, 3, 100, 236]);
            let p = pow2(236);
            match r.below(3) {
                0 => (p.add_ui(1), p.add_ui(1)),
                1 => (p.add(&pow2(236 - k.min(236))), p.shl(1).sub_ui(1)),
                _ => (p.add_ui(1), p.shl(1).sub_ui(2)), // ~ 2^474 - 2
            }
        }
    };
    let (Some(a), Some(b)) = (at(r, &x, e), at(r, &y, f)) else {
        return (gen::finite(r), gen::finite(r), gen::finite(r));
    };
    // exact product as integer * 2^q
    let (ma, qa) = decode(a);
    let (mb, qb) = decode(b);
    let p = Z::limbs(&ma).mul(&Z::limbs(&mb));
    let pq = qa as i64 + qb as i64;
    let pn = p.bits() as i64;
    let psign = is_neg(a) != is_neg(b);
    let c = match r.below(9) {
        0 => {
            // addend close to -p: rounded product, a few ulps off
            let top = if pn > 237 { p.shr((pn - 237) as u64) } else { p.clone() };
            let q = if pn > 237 { pq + pn - 237 } else { pq };
            match from_z(&top, q) {
                Some(v) => {
                    let v = step(v, r.pick(&[0, 0, 1, 2, -1]));
                    if psign {
                        v
                    } else {
                        neg(v)
                    }
                }
                None => gen::finite(r),
            }
        }
        1 => {
            // p is about half an ulp (or a quarter) of the addend
            let ulp = pq + pn - 1 + r.range(0, 3);
            let e = ulp + 236;
            if e > EMAX as i64 {
                gen::finite(r)
            } else if e < EMIN as i64 {
                gen::subnormal(r)
            } else {
                let c = gen::norm(r, e);
                if r.chance(1, 3) {
                    (c.0 & !FRACM, 0)
                } else {
                    c
                }
            }
        }
        2 => {
            // addend far below the product
            let e = pq + r.range(-300, 0);
            if e < EMIN as i64 {
                gen::subnormal(r)
            } else {
                gen::norm(r, e.min(EMAX as i64))
            }
        }
        3 => {
            // addend straddling any part of the product
            let e = pq + r.range(-240, 720);
            if e < EMIN as i64 {
                gen::subnormal(r)
            } else {
                gen::norm(r, e.min(EMAX as i64))
            }
        }
        4 => {
            // addend cancels the upper part leaving the low bits
            let k = r.range(1, 236).min(pn - 1);
            let hi = p.shr((pn - k) as u64);
            match from_z(&hi, pq + pn - k) {
                Some(v) => {
                    if psign {
                        v
                    } else {
                        neg(v)
                    }
                }
                None => gen::finite(r),
            }
        }
        5 => {
            // single bit or tiny
            let e = pq + r.range(-3, 480);
            from_z(&Z::ui(1), e).map(|v| if r.chance(1, 2) { neg(v) } else { v }).unwrap_or((0, 1))
        }
        6 => special_or(r),
        7 => {
            // addend such that the sum rounds at its half: complement of low bits
            let k = r.range(1, 236).min(pn - 1) as u64;
            let low = p.low(k);
            let half = pow2(k - 1);
            let d = half.sub(&low);
            match from_z(&d, pq) {
                Some(v) => {
                    if psign {
                        neg(v)
                    } else {
                        v
                    }
                }
                None => gen::finite(r),
            }
        }
        _ => gen::finite(r),
    };
    (a, b, c)
}
fn special_or(r: &mut Rng) -> Bits {
    loop {
        let s = gen::special(r);
        if is_fin(s) {
            return s;
        }
    }
}
/// Significands m (<= 237 bits) with m * 2^e extremely close to a multiple of pi/2.
pub struct TrigHard {
    two_over_pi: Z, // floor(2/pi * 2^N)
    n: u64,
}
impl TrigHard {
    pub fn new() -> TrigHard {
        let n = 262144 + 1200u64;
        let mut pi = Fr::new(n as u32 + 64);
        let mut t = Fr::new(n as u32 + 64);
        let mut v = Fr::new(n as u32 + 64);
        pi.pi(RNDN);
        t.set_ui(2, 0);
        v.div(&t, &pi, RNDN);
        v.shift(n as i64);
        let (z, e) = v.get_z();
        let z = if e >= 0 { z.shl(e as u64) } else { z.shr((-e) as u64) };
        TrigHard { two_over_pi: z, n }
    }
    /// Convergent denominators of 2^e * 2/pi with at most 237 bits (the last few).
    pub fn worst(&self, e: i64, out: &mut Vec<Z>) {
        // alpha = frac(2^e * 2/pi) with w bits
        let w = 700u64;
        let sh = self.n as i64 - e - w as i64;
        assert!(sh >= 0);
        let a = self.two_over_pi.shr(sh as u64);
        // values far below one have no fractional reduction to do
        let a = a.low(w);
        let (mut num, mut den) = (a, pow2(w));
        let (mut q0, mut q1) = (Z::new(), Z::ui(1));
        // continued fraction of num/den (0 < alpha < 1)
        out.clear();
        while !num.is_zero() {
            let (c, rem) = den.divmod(&num);
            let q2 = c.mul(&q1).add(&q0);
            if q2.bits() > 237 {
                break;
            }
            out.push(q2.clone());
            q0 = q1;
            q1 = q2;
            den = num;
            num = rem;
        }
    }
}
