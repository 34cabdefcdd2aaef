//! Hostile value generators on bit patterns (no oracle library needed).
#![allow(dead_code)]
use crate::ops::*;
use crate::rng::Rng;

fn ones(n: u32) -> Bits {
    // n low ones of a 256-bit pair
    if n == 0 {
        (0, 0)
    } else if n <= 128 {
        (0, u128::MAX >> (128 - n))
    } else {
        (u128::MAX >> (256 - n.min(256)), u128::MAX)
    }
}
fn xor(a: Bits, b: Bits) -> Bits {
    (a.0 ^ b.0, a.1 ^ b.1)
}
fn and(a: Bits, b: Bits) -> Bits {
    (a.0 & b.0, a.1 & b.1)
}
pub fn bit(n: u32) -> Bits {
    if n < 128 {
        (0, 1 << n)
    } else {
        (1 << (n - 128), 0)
    }
}
/// A 236-bit fraction from one of many pattern classes.
pub fn frac(r: &mut Rng) -> Bits {
    let v: Bits = match r.below(20) {
        0..=3 => (r.u128(), r.u128()),
        4 => (0, 0),
        5 => ones(236),
        6 => bit(r.below(236) as u32),
        7 => {
            let mut v = (0, 0);
            for _ in 0..r.range(2, 6) {
                v = xor(v, bit(r.below(236) as u32));
            }
            v
        }
        8 => {
            let mut v = ones(236);
            for _ in 0..r.range(1, 6) {
                v = xor(v, bit(r.below(236) as u32));
            }
            v
        }
        9 => {
            let a = r.below(237) as u32;
            let b = r.below(237) as u32;
            xor(ones(a), ones(b))
        }
        10 => {
            // top k bits random
            let k = r.below(237) as u32;
            let m = xor(ones(236), ones(236 - k));
            and((r.u128(), r.u128()), m)
        }
        11 => and((r.u128(), r.u128()), ones(r.below(237) as u32)),
        12 => (r.u128(), r.pick(&[0, 1, u128::MAX, 1 << 127, (1 << 127) - 1, (1 << 127) + 1, u128::MAX - 1])),
        13 => (r.pick(&[0, 1, FRACM, FRACM - 1, 1 << 107, (1 << 107) - 1]), r.u128()),
        14 => {
            let mut l = [0u64; 4];
            for x in &mut l {
                *x = match r.below(6) {
                    0 => 0,
                    1 => u64::MAX,
                    2 => 1,
                    3 => 1 << 63,
                    4 => u64::MAX - 1,
                    _ => r.u64(),
                };
            }
            ((l[3] as u128) << 64 | l[2] as u128, (l[1] as u128) << 64 | l[0] as u128)
        }
        15 => {
            let p: u128 = r.pick(&[
                0x55555555555555555555555555555555,
                0xaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa,
                0x33333333333333333333333333333333,
                0xcccccccccccccccccccccccccccccccc,
                0x0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f,
            ]);
            (p, p.rotate_left(r.below(3) as u32))
        }
        16 => (r.pick(&[0, 1, FRACM, 1 << 107]), r.pick(&[0, 1, 2, 3, u128::MAX, 1 << 127, u128::MAX - 1])),
        17 => {
            // dense sparse run in random window
            let v = (r.u128(), r.u128());
            let w = r.below(80) as u32 + 1;
            let s = r.below(236) as u32;
            let m = xor(ones((s + w).min(236)), ones(s));
            let b = if r.chance(1, 2) { (0, 0) } else { ones(236) };
            xor(and(v, m), b)
        }
        18 => {
            // small integer shifted to the top
            let k = r.range(1, 64) as u32;
            let v = r.u64() >> (64 - k);
            ((v as u128) << (108 - k), 0)
        }
        _ => {
            let mut v = (r.u128(), r.u128());
            // clear / set a stretch of bits around the 128-bit boundary
            let a = 128 - r.below(20) as u32;
            let b = 128 + r.below(20) as u32;
            let m = xor(ones(b), ones(a));
            if r.chance(1, 2) {
                v.0 |= m.0;
                v.1 |= m.1;
            } else {
                v.0 &= !m.0;
                v.1 &= !m.1;
            }
            v
        }
    };
    (v.0 & FRACM, v.1)
}
pub fn make(sign: bool, be: u32, fr: Bits) -> Bits {
    ((sign as u128) << 127 | (be as u128) << 108 | (fr.0 & FRACM), fr.1)
}
/// Normal value with unbiased exponent e (clamped to the normal range).
pub fn norm(r: &mut Rng, e: i64) -> Bits {
    let be = (e + BIAS as i64).clamp(1, EXP_MAX as i64 - 1) as u32;
    let fr = frac(r);
    make(r.chance(1, 2), be, fr)
}
pub fn subnormal(r: &mut Rng) -> Bits {
    let mut fr = frac(r);
    if r.chance(2, 3) {
        let k = r.below(236) as u32 + 1;
        fr = and(fr, ones(k));
        if r.chance(1, 2) {
            fr = xor(and(fr, ones(k - 1)), bit(k - 1));
        }
    }
    make(r.chance(1, 2), 0, fr)
}
pub fn nan(r: &mut Rng) -> Bits {
    let mut fr = match r.below(6) {
        0 => (NAN.0 & FRACM, 0),
        1 => (0, 1),
        2 => (0, r.u128()),
        3 => bit(r.below(236) as u32),
        4 => (FRACM, u128::MAX),
        _ => frac(r),
    };
    if fr == (0, 0) {
        fr = (0, 1);
    }
    make(r.chance(1, 2), EXP_MAX, fr)
}
/// One of the special or extreme values.
pub fn special(r: &mut Rng) -> Bits {
    let b = match r.below(16) {
        0 | 1 => ZERO,
        2 | 3 => INF,
        4 => return nan(r),
        5 => (0, 1),
        6 => (FRACM, u128::MAX),          // largest subnormal
        7 => (1 << 108, 0),               // smallest normal
        8 => MAXF,
        9 => ONE,
        10 => step(ONE, r.range(-3, 3)),
        11 => (0, r.range(1, 9) as u128),
        12 => step((1 << 108, 0), r.range(-3, 3)),
        13 => step(MAXF, -r.range(0, 3)),
        14 => make(false, (BIAS + r.range(-240, 240) as i32) as u32, (0, 0)),
        _ => (1, 0),
    };
    if r.chance(1, 2) {
        neg(b)
    } else {
        b
    }
}
pub fn small_int(r: &mut Rng) -> Bits {
    let k = r.range(1, 64) as u32;
    let v = r.u64() >> (64 - k);
    from_u64(v, r.chance(1, 2))
}
pub fn from_u64(v: u64, s: bool) -> Bits {
    if v == 0 {
        return make(s, 0, (0, 0));
    }
    let lz = v.leading_zeros();
    let e = 63 - lz as i32;
    let m = (v as u128) << (108 - e);
    make(s, (BIAS + e) as u32, (m & FRACM, 0))
}
/// Exponent from many classes (unbiased).
pub fn exponent(r: &mut Rng) -> i64 {
    match r.below(12) {
        0..=1 => r.range(EMIN as i64, EMAX as i64),
        2..=4 => r.range(-300, 300),
        5 => r.range(-4, 4),
        6 => r.range(EMIN as i64, EMIN as i64 + 520),
        7 => r.range(EMAX as i64 - 520, EMAX as i64),
        8 => r.range(-131072 - 260, -131072 + 260),
        9 => r.range(131072 - 260, 131072 + 260),
        10 => {
            let k = r.range(0, 18);
            let v = 1i64 << k;
            let d = r.range(-3, 3);
            if r.chance(1, 2) {
                v + d
            } else {
                -v + d
            }
        }
        _ => r.range(-80, 240),
    }
}
/// Any finite value (zero and subnormals included).
pub fn finite(r: &mut Rng) -> Bits {
    match r.below(16) {
        0 | 1 => subnormal(r),
        2 => loop {
            let s = special(r);
            if is_fin(s) {
                return s;
            }
        },
        3 => small_int(r),
        _ => {
            let e = exponent(r);
            norm(r, e)
        }
    }
}
pub fn nonzero(r: &mut Rng) -> Bits {
    loop {
        let x = finite(r);
        if !is_zero(x) {
            return x;
        }
    }
}
/// Any bit pattern.
pub fn any(r: &mut Rng) -> Bits {
    match r.below(12) {
        0 => special(r),
        1 => (r.u128(), r.u128()),
        2 => nan(r),
        _ => finite(r),
    }
}
/// Unbiased exponent of a finite non-zero value (of its leading bit).
pub fn lead_exp(b: Bits) -> i64 {
    let (m, q) = decode(b);
    for i in (0..4).rev() {
        if m[i] != 0 {
            return q as i64 + (i as i64 * 64 + 63 - m[i].leading_zeros() as i64);
        }
    }
    panic!("zero")
}
/// A value related to x: near, same binade, shifted, negated, mirrored...
pub fn related(r: &mut Rng, x: Bits) -> Bits {
    if !is_fin(x) || is_zero(x) {
        return any(r);
    }
    let e = lead_exp(x);
    let mk = |r: &mut Rng, e: i64| {
        if e < EMIN as i64 {
            subnormal(r)
        } else {
            norm(r, e)
        }
    };
    let y = match r.below(12) {
        0 => step(x, r.range(-4, 4)),
        1 => neg(step(x, r.range(-4, 4))),
        2 => {
            let k = r.range(1, 62);
            step(x, if r.chance(1, 2) { 1 << k } else { -(1 << k) })
        }
        3 => {
            let d = r.range(-1, 1);
            mk(r, e + d)
        }
        4..=5 => {
            let d = r.range(-245, 245);
            mk(r, e + d)
        }
        6 => {
            let d = r.pick(&[-240, -239, -238, -237, -236, -235, 235, 236, 237, 238, 239, 240, -128, 128, -129, 129, -127, 127]);
            mk(r, e + d)
        }
        7 => {
            let d = r.range(-520, 520);
            mk(r, e + d)
        }
        8 => {
            // same fraction, other exponent
            let be = bexp(x) as i64 + r.range(-245, 245);
            make(r.chance(1, 2), be.clamp(0, EXP_MAX as i64 - 1) as u32, (x.0 & FRACM, x.1))
        }
        9 => {
            // flip one bit
            let b = bit(r.below(256) as u32);
            xor(x, b)
        }
        10 => {
            // powers of two at a chosen distance
            let d = r.range(-242, 242);
            let be = (e + d + BIAS as i64).clamp(1, EXP_MAX as i64 - 1);
            let p = make(r.chance(1, 2), be as u32, (0, 0));
            step(p, r.range(-2, 2))
        }
        _ => finite(r),
    };
    y
}
