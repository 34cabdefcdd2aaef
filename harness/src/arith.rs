//! Monitors for the arithmetic and mathematical operations (C01-C12, C21-C24).
use crate::ffi::*;
use crate::gen;
use crate::hard;
use crate::ops::*;
use crate::oracle::{from_fr, to_fr};
use crate::report::*;
use crate::rng::Rng;
use std::sync::OnceLock;

fn s(name: &'static str, quick: u64, thorough: u64, f: StreamFn) -> Stream {
    Stream { name, quick, thorough, f }
}
/// A pair for the two-operand operations: mostly related values.
pub fn pair(r: &mut Rng) -> (Bits, Bits) {
    let a = gen::finite(r);
    let b = if r.chance(2, 3) { gen::related(r, a) } else { gen::finite(r) };
    let b = if is_fin(b) { b } else { gen::finite(r) };
    if r.chance(1, 2) {
        (a, b)
    } else {
        (b, a)
    }
}
/// Exponents arranged for a product near a boundary of the range.
fn prod_pair(r: &mut Rng) -> (Bits, Bits) {
    match r.below(8) {
        0 => {
            // a subnormal against a large number
            let a = gen::subnormal(r);
            if is_zero(a) {
                return (a, gen::finite(r));
            }
            let t = hard::target_exp(r);
            let e = t - gen::lead_exp(a);
            let b = if e < EMIN as i64 { gen::subnormal(r) } else { gen::norm(r, e) };
            (a, b)
        }
        1 => pair(r),
        _ => {
            let t = hard::target_exp(r);
            let (e, f) = hard::split_exp(r, t);
            (gen::norm(r, e), gen::norm(r, f))
        }
    }
}
fn quot_pair(r: &mut Rng) -> (Bits, Bits) {
    match r.below(10) {
        0 => {
            let b = gen::subnormal(r);
            if is_zero(b) {
                return (gen::finite(r), ONE);
            }
            let t = hard::target_exp(r);
            let e = t + gen::lead_exp(b);
            let a = if e < EMIN as i64 { gen::subnormal(r) } else { gen::norm(r, e) };
            (a, b)
        }
        1 => {
            let a = gen::subnormal(r);
            let b = gen::nonzero(r);
            (a, b)
        }
        2 => {
            let (a, b) = pair(r);
            (a, if is_zero(b) { ONE } else { b })
        }
        3 => {
            // short significands: exact quotients and exact ties
            let i = r.range(1, 120) as u32;
            let j = r.range(1, 117) as u32;
            let y = hard::rand_odd(r, j);
            let q = hard::rand_z(r, i);
            let t = hard::target_exp(r);
            let (e, f) = hard::split_exp(r, t);
            let p = q.mul(&y);
            match (hard::at(r, &p, e), hard::at(r, &y, -f)) {
                (Some(a), Some(b)) => (a, b),
                _ => (ONE, ONE),
            }
        }
        _ => {
            let t = hard::target_exp(r);
            let (e, f) = hard::split_exp(r, t);
            (gen::norm(r, e), gen::norm(r, -f))
        }
    }
}
fn c01_mixed(l: &mut Local, _: u64) {
    let (a, b) = pair(&mut l.r);
    let op = l.r.pick(&[Op::Add, Op::Sub]);
    l.op(op, &[a, b], 0);
}
fn c01_ties(l: &mut Local, _: u64) {
    let (a, b) = hard::add_pair(&mut l.r);
    if !is_fin(b) {
        return;
    }
    let op = l.r.pick(&[Op::Add, Op::Sub]);
    if l.r.chance(1, 2) {
        l.op(op, &[a, b], 0);
    } else {
        l.op(op, &[b, a], 0);
    }
}
fn c02_mixed(l: &mut Local, _: u64) {
    let (a, b) = prod_pair(&mut l.r);
    l.op(Op::Mul, &[a, b], 0);
}
fn c02_ties(l: &mut Local, _: u64) {
    let (a, b) = hard::mul_pair(&mut l.r);
    l.op(Op::Mul, &[a, b], 0);
}
/// Products that are ties or almost ties at the subnormal quantum.
fn c02_subties(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let k = r.range(0, 236) as u32;
    // product m * 2^(QMIN-1-j) with m odd: j = 0 a tie, otherwise sticky below
    let i = r.range(1, 200) as u32;
    let x = hard::rand_odd(r, i);
    let j = ((k + 2).saturating_sub(i)).max(1).min(237);
    let y = hard::rand_odd(r, j);
    let q = QMIN as i64 - 1 - r.pick(&[0, 0, 0, 1, 2, 60, 200]);
    let qa = r.range(-131000, -100) - 0;
    let qb = q - qa;
    if let (Some(a), Some(b)) = (hard::from_z(&x, qa), hard::from_z(&y, qb)) {
        l.op(Op::Mul, &[a, b], 0);
        l.op(Op::MulAdd, &[a, b, NZERO], 0);
    }
}
fn c03_mixed(l: &mut Local, _: u64) {
    let (a, b) = quot_pair(&mut l.r);
    if is_zero(b) {
        return;
    }
    l.op(Op::Div, &[a, b], 0);
}
fn c03_ties(l: &mut Local, _: u64) {
    let (a, b) = hard::div_pair(&mut l.r);
    if is_zero(b) {
        return;
    }
    l.op(Op::Div, &[a, b], 0);
}
fn c03_recip(l: &mut Local, _: u64) {
    let a = gen::nonzero(&mut l.r);
    l.op(Op::Recip, &[a], 0);
    let one = if l.r.chance(1, 2) { ONE } else { neg(ONE) };
    l.op(Op::Div, &[one, a], 0);
}
/// Quotients in the subnormal range: exact ties and near ties at the quantum.
fn c03_sub(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let j = r.range(1, 118) as u32;
    let y = hard::rand_odd(r, j);
    let i = r.range(1, 119) as u32;
    let m = hard::rand_odd(r, i);
    let mut x = m.mul(&y);
    if r.chance(1, 2) {
        x = x.shl(237 - x.bits());
        if r.chance(1, 2) {
            x = x.add_ui(1)
        } else {
            x = x.sub_ui(1)
        }
    }
    let shift = x.bits() as i64 - (i + j) as i64;
    let q = QMIN as i64 - 1 - r.pick(&[0, 0, 1, 5]) - shift;
    let qa = r.range(-200000, 0);
    let qb = qa - q;
    if let (Some(a), Some(b)) = (hard::from_z(&x, qa), hard::from_z(&y, qb)) {
        l.op(Op::Div, &[a, b], 0);
    }
}
fn c04_mixed(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let (mut a, mut b) = match r.below(8) {
        0 => pair(r),
        1 => {
            // exact multiple, or just beside it
            let y = hard::rand_odd(r, r.clone().range(1, 237) as u32);
            let k = 237 - y.bits() as u32;
            let q = if k == 0 { Z::ui(1) } else { hard::rand_z(r, k) };
            let z = y.mul(&q);
            let z = if z.bits() < 237 && r.chance(1, 2) { z.shl(237 - z.bits()).add_ui(r.below(2)) } else { z };
            let e = r.range(-300, 300);
            let sh = r.range(0, 400);
            match (hard::from_z(&z, e + sh), hard::from_z(&y, e)) {
                (Some(a), Some(b)) => (a, b),
                _ => (ONE, ONE),
            }
        }
        2 => {
            let b = gen::subnormal(r);
            let a = gen::finite(r);
            (a, b)
        }
        3 => (gen::subnormal(r), gen::subnormal(r)),
        4 => {
            // far apart
            let e = gen::exponent(r);
            let f = gen::exponent(r);
            (gen::norm(r, e.max(f)), gen::norm(r, e.min(f)))
        }
        5 => {
            let e = gen::exponent(r);
            let d = r.range(0, 20);
            (gen::norm(r, e), gen::norm(r, e - d))
        }
        6 => {
            let e = gen::exponent(r);
            let d = r.range(0, 600);
            let b = if e - d < EMIN as i64 { gen::subnormal(r) } else { gen::norm(r, e - d) };
            (gen::norm(r, e), b)
        }
        _ => {
            // short divisors
            let v = gen::small_int(r);
            (gen::finite(r), v)
        }
    };
    if r.chance(1, 6) {
        std::mem::swap(&mut a, &mut b);
    }
    if is_zero(b) {
        return;
    }
    l.op(Op::Rem, &[a, b], 0);
}
fn c05_mixed(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let (a, b) = prod_pair(r);
    let e = if is_zero(a) || is_zero(b) { 0 } else { gen::lead_exp(a) + gen::lead_exp(b) };
    let c = match r.below(6) {
        0 => gen::finite(r),
        1 => gen::subnormal(r),
        _ => {
            let e = e + r.range(-500, 500);
            if e < EMIN as i64 {
                gen::subnormal(r)
            } else {
                gen::norm(r, e)
            }
        }
    };
    l.op(Op::MulAdd, &[a, b, c], 0);
}
fn c05_hard(l: &mut Local, _: u64) {
    let (a, b, c) = hard::fma_triple(&mut l.r);
    if !is_fin(a) || !is_fin(b) || !is_fin(c) {
        return;
    }
    if l.r.chance(1, 2) {
        l.op(Op::MulAdd, &[a, b, c], 0);
    } else {
        l.op(Op::MulAdd, &[b, a, c], 0);
    }
}
fn c06_square(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let t = hard::target_exp(r);
    let a = match r.below(4) {
        0 => gen::finite(r),
        1 => {
            let z = hard::square_signif(r);
            hard::at(r, &z, t / 2).unwrap_or(ONE)
        }
        2 => {
            // exact ties: odd 119-bit numbers squared have 237 or 238 bits
            let z = hard::rand_odd(r, 119);
            hard::at(r, &z, t / 2).unwrap_or(ONE)
        }
        _ => gen::norm(r, t / 2),
    };
    l.op(Op::Square, &[a], 0);
}
fn c06_square_add(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let z = match r.below(3) {
        0 => hard::square_signif(r),
        1 => hard::signif(r),
        _ => {
            let n = r.range(1, 119) as u32;
            hard::rand_odd(r, n)
        }
    };
    let t = hard::target_exp(r);
    let a = hard::at(r, &z, t / 2).unwrap_or(ONE);
    if is_zero(a) {
        return;
    }
    let (ma, qa) = decode(a);
    let p = Z::limbs(&ma).mul(&Z::limbs(&ma));
    let pq = 2 * qa as i64;
    let pn = p.bits() as i64;
    let e = gen::lead_exp(a) * 2;
    let c = match r.below(6) {
        0 => gen::finite(r),
        1 | 2 => {
            let e = e + r.range(-500, 500);
            if e < EMIN as i64 {
                gen::subnormal(r)
            } else {
                gen::norm(r, e)
            }
        }
        3 => {
            let hi = if pn > 237 { p.shr((pn - 237) as u64) } else { p.clone() };
            let q = if pn > 237 { pq + pn - 237 } else { pq };
            hard::from_z(&hi, q).map(|v| step(neg(v), r.range(-1, 1))).unwrap_or(ZERO)
        }
        4 => {
            let e = e + 236 + r.range(0, 3);
            if e > EMAX as i64 {
                ONE
            } else if e < EMIN as i64 {
                gen::subnormal(r)
            } else {
                gen::norm(r, e)
            }
        }
        _ => gen::subnormal(r),
    };
    l.op(Op::SquareAdd, &[a, c], 0);
}
fn c06_sos(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let t = hard::target_exp(r);
    let z = match r.below(3) {
        0 => hard::square_signif(r),
        1 => hard::signif(r),
        _ => {
            let n = r.range(1, 119) as u32;
            hard::rand_odd(r, n)
        }
    };
    let a = if r.chance(1, 8) { gen::finite(r) } else { hard::at(r, &z, t / 2).unwrap_or(ONE) };
    let b = match r.below(6) {
        0 => gen::finite(r),
        1 => gen::subnormal(r),
        2 if !is_zero(a) => {
            let e = gen::lead_exp(a) + r.range(-3, 3);
            gen::norm(r, e)
        }
        3 if !is_zero(a) => {
            // b*b around half an ulp of a*a
            let e = gen::lead_exp(a) - 118 + r.range(-2, 2);
            if e < EMIN as i64 {
                gen::subnormal(r)
            } else {
                let v = gen::norm(r, e);
                if r.chance(1, 2) {
                    (v.0 & !FRACM, 0)
                } else {
                    v
                }
            }
        }
        _ if !is_zero(a) => {
            let e = gen::lead_exp(a) - r.range(0, 260);
            if e < EMIN as i64 {
                gen::subnormal(r)
            } else {
                gen::norm(r, e)
            }
        }
        _ => gen::finite(r),
    };
    if l.r.chance(1, 2) {
        l.op(Op::Sos, &[a, b], 0);
    } else {
        l.op(Op::Sos, &[b, a], 0);
    }
}
fn c07_mixed(l: &mut Local, _: u64) {
    let a = gen::finite(&mut l.r);
    let a = if l.r.chance(19, 20) { abs(a) } else { a };
    l.op(Op::Sqrt, &[a], 0);
}
fn c07_hard(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let half = |r: &mut Rng| match r.below(3) {
        0 => r.range(-131200, -130900),
        1 => r.range(-200, 200),
        _ => r.range(-131189, 130900),
    };
    let v = match r.below(5) {
        0 | 1 => {
            let (z, k) = hard::sqrt_value(r);
            let h = half(r);
            hard::from_z(&z, k + 2 * h)
        }
        2 => {
            // perfect squares and neighbours
            let n = r.range(1, 118) as u32;
            let z = hard::rand_z(r, n);
            let h = half(r);
            hard::from_z(&z.mul(&z), 2 * h).map(|v| step(v, r.range(-1, 1)))
        }
        3 => {
            // squares of 119..237 bit numbers, truncated, and neighbours
            let n = r.range(119, 237) as u32;
            let z = hard::rand_z(r, n);
            let p = z.mul(&z);
            let d = p.bits() - 237.min(p.bits());
            let h = half(r);
            hard::from_z(&p.shr(d), d as i64 + 2 * h).map(|v| step(v, r.range(-2, 2)))
        }
        _ => {
            let e = gen::exponent(r);
            let p = gen::make(false, (e + BIAS as i64).clamp(1, EXP_MAX as i64 - 1) as u32, (0, 0));
            Some(step(p, r.range(-4, 4)))
        }
    };
    if let Some(v) = v {
        l.op(Op::Sqrt, &[abs(v)], 0);
    }
}
const ALLOPS: &[Op] = ALL;
fn c08(l: &mut Local, i: u64) {
    let op = ALLOPS[(i % ALLOPS.len() as u64) as usize];
    if matches!(op, Op::Ln | Op::Log2 | Op::Log10) {
        return;
    }
    let r = &mut l.r;
    let mut a = [ZERO; 3];
    let ar = op.arity();
    let at = r.below(ar as u64) as usize;
    for j in 0..ar {
        a[j] = if j == at || r.chance(1, 2) { sp(r) } else if r.chance(1, 4) { gen::special(r) } else { gen::finite(r) };
    }
    // the expensive reductions have their own monitors
    if matches!(op, Op::Sin | Op::Cos | Op::Tan | Op::SinCos0 | Op::SinCos1) && is_fin(a[0]) && !is_zero(a[0]) {
        a[0] = sp(r);
    }
    if op == Op::Clamp {
        let (x, y) = (a[1], a[2]);
        if is_nan(x) || is_nan(y) {
            a[1] = NINF;
            a[2] = INF;
        } else if f(x) > f(y) {
            a[1] = y;
            a[2] = x;
        }
    }
    // the order of negative values is the business of C11
    if matches!(op, Op::Clamp | Op::Max | Op::Min) && a[..ar].iter().filter(|b| is_neg(**b) && !is_nan(**b)).count() > 1 {
        return;
    }
    let n = r.pick(&[0, 1, 2, 236, 237, 524287, u32::MAX, 1 << 31]);
    l.op(op, &a[..ar], n);
}
fn sp(r: &mut Rng) -> Bits {
    match r.below(6) {
        0 => ZERO,
        1 => NZERO,
        2 => INF,
        3 => NINF,
        _ => gen::nan(r),
    }
}
fn c09(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let x = match r.below(8) {
        0 | 1 => gen::subnormal(r),
        2 => gen::any(r),
        3 => {
            let e = r.range(EMIN as i64, EMIN as i64 + 240);
            gen::norm(r, e)
        }
        4 => {
            let e = r.range(EMAX as i64 - 240, EMAX as i64);
            gen::norm(r, e)
        }
        _ => gen::finite(r),
    };
    let be = bexp(x) as i64;
    let n = match r.below(10) {
        0 => r.below(8) as u32,
        1 => r.below(240) as u32,
        2 => r.u64() as u32,
        3 => r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 1 << 19, (1 << 19) - 1, 524286, 524525, 262378]),
        4 => (be + r.range(-3, 240)).max(0) as u32,
        5 => (EXP_MAX as i64 - be + r.range(-3, 240)).max(0) as u32,
        6 => {
            // subnormals: around the shift that normalizes, and overflow from there
            let lz = if is_fin(x) && !is_zero(x) { (EMIN as i64 - gen::lead_exp(x)).max(0) } else { 0 };
            (lz + r.pick(&[0, 524284, 524285, 524286, 524287]) + r.range(-2, 2)).max(0) as u32
        }
        _ => r.below(524800) as u32,
    };
    l.op(Op::MulPow2, &[x], n);
    l.op(Op::DivPow2, &[x], n);
    l.op(Op::Mul2, &[x], 0);
    l.op(Op::Div2, &[x], 0);
}
fn c10(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let x = match r.below(12) {
        0 => gen::any(r),
        1 | 2 => {
            let e = r.range(-3, 238);
            gen::norm(r, e)
        }
        3..=5 => {
            // k, k + 1/2 and the neighbours of both
            let nb = r.range(0, 236) as u32;
            let k = if nb == 0 { Z::new() } else { hard::rand_z(r, nb) };
            let z = k.shl(1).add_ui(r.below(2));
            let v = hard::from_z(&z, -1).unwrap_or(ONE);
            let s = r.pick(&[0, 0, 1, -1, 2, -2, 1 << 20, -(1 << 20)]);
            let v = step(v, s);
            if r.chance(1, 2) {
                neg(v)
            } else {
                v
            }
        }
        6 => {
            // k + 1/2 + 2^-j
            let nb = r.range(1, 200) as u32;
            let k = hard::rand_z(r, nb);
            let j = r.range(2, 236 - nb as i64 + 1).max(2) as u64;
            let z = k.shl(1).add_ui(1).shl(j - 1);
            let z = if r.chance(1, 2) { z.add_ui(1) } else { z.sub_ui(1) };
            let v = hard::from_z(&z, -(j as i64)).unwrap_or(ONE);
            if r.chance(1, 2) {
                neg(v)
            } else {
                v
            }
        }
        7 => {
            // 1/2 + tiny, 1 - tiny, 0 < tiny
            let b = r.pick(&[-1i64, -1, 0, -2, 1]);
            let p = gen::make(false, (BIAS as i64 + b) as u32, (0, 0));
            let j = gen::bit(r.below(236) as u32);
            let v = (p.0 | j.0, p.1 | j.1);
            let v = if r.chance(1, 3) { step(p, -1) } else { v };
            if r.chance(1, 2) {
                neg(v)
            } else {
                v
            }
        }
        8 => gen::subnormal(r),
        9 => {
            let e = r.range(230, 240);
            gen::norm(r, e)
        }
        10 => gen::special(r),
        _ => gen::finite(r),
    };
    for op in [Op::Trunc, Op::Ceil, Op::Floor, Op::Round, Op::RoundEven, Op::Fract, Op::Split0, Op::Split1] {
        l.op(op, &[x], 0);
    }
}
fn cmp_pair(r: &mut Rng) -> (Bits, Bits) {
    let a = gen::any(r);
    let b = match r.below(6) {
        0 => a,
        1 => neg(a),
        2 | 3 => gen::related(r, a),
        4 => step(a, r.range(-2, 2)),
        _ => gen::any(r),
    };
    (a, b)
}
fn key_total(b: Bits) -> (bool, u128, u128) {
    // IEEE totalOrder: sign-magnitude order of the encodings
    if is_neg(b) {
        (false, !b.0, !b.1)
    } else {
        (true, b.0, b.1)
    }
}
pub fn check_cmp(l: &mut Local, a: Bits, b: Bits) {
    use std::cmp::Ordering::*;
    let txt = || format!("cmp {} {}", hex(a), hex(b));
    l.note(hash64(&[1, a.0 as u64, (a.0 >> 64) as u64, a.1 as u64, (a.1 >> 64) as u64, b.0 as u64, (b.0 >> 64) as u64, b.1 as u64, (b.1 >> 64) as u64]), true);
    // independent numeric order from the encodings
    let want = if is_nan(a) || is_nan(b) {
        None
    } else {
        let k = |v: Bits| {
            if is_zero(v) {
                (1u8, 0, 0)
            } else if is_neg(v) {
                (0, !v.0, !v.1)
            } else {
                (2, v.0, v.1)
            }
        };
        Some(k(a).cmp(&k(b)))
    };
    let g = guard(|| {
        let (x, y) = (f(a), f(b));
        (x.partial_cmp(&y), x == y, x != y, x < y, x <= y, x > y, x >= y, x.total_cmp(&y))
    });
    let g = match g {
        Ok(g) => g,
        Err(m) => return l.violate(txt(), format!("panicked: {m}")),
    };
    let w = (
        want,
        want == Some(Equal),
        want != Some(Equal),
        want == Some(Less),
        matches!(want, Some(Less | Equal)),
        want == Some(Greater),
        matches!(want, Some(Greater | Equal)),
        key_total(a).cmp(&key_total(b)),
    );
    if g != w {
        // the order this crate gives two negative values (a recorded finding)
        let rev = is_neg(a) && is_neg(b);
        let p = |t: &(Option<std::cmp::Ordering>, bool, bool, bool, bool, bool, bool, std::cmp::Ordering)| (t.0, t.1, t.2, t.3, t.4, t.5, t.6);
        let wp = p(&w);
        let rp = (wp.0.map(|o| o.reverse()), wp.1, wp.2, wp.5, wp.6, wp.3, wp.4);
        if rev && p(&g) == rp && p(&g) != wp {
            l.violate("negative-order partial_cmp".into(), format!("{} gives {:?}", txt(), g.0));
        } else if p(&g) != wp {
            l.violate(txt(), format!("(partial_cmp,==,!=,<,<=,>,>=,total_cmp) expected {w:?} got {g:?}"));
        }
        if rev && g.7 == w.7.reverse() && g.7 != w.7 {
            l.violate("negative-order total_cmp".into(), format!("{} gives {:?}", txt(), g.7));
        } else if g.7 != w.7 {
            l.violate(txt(), format!("(partial_cmp,==,!=,<,<=,>,>=,total_cmp) expected {w:?} got {g:?}"));
        }
    }
    let t = match want {
        None => "cmp:unordered",
        Some(Less) => "cmp:less",
        Some(Equal) => "cmp:equal",
        Some(Greater) => "cmp:greater",
    };
    l.tag(t);
}
/// The numeric order with negative values in reverse, as this crate has it.
fn found_lt(a: Bits, b: Bits) -> bool {
    if is_nan(a) || is_nan(b) || (is_zero(a) && is_zero(b)) {
        false
    } else {
        neg(a) < neg(b)
    }
}
/// What max, min and clamp give on top of that order; None if clamp panics.
fn found(c: &Case) -> Option<Bits> {
    let [a, b, d] = c.a;
    match c.op {
        Op::Max => Some(if found_lt(a, b) || is_nan(a) { b } else { a }),
        Op::Min => Some(if found_lt(b, a) || is_nan(a) { b } else { a }),
        _ => {
            if found_lt(d, b) || is_nan(b) || is_nan(d) {
                None
            } else if found_lt(a, b) {
                Some(b)
            } else if found_lt(d, a) {
                Some(d)
            } else {
                Some(a)
            }
        }
    }
}
fn c11_select(l: &mut Local, op: Op, a: &[Bits]) {
    let mut c = Case { op, a: [ZERO; 3], n: 0 };
    c.a[..a.len()].copy_from_slice(a);
    let negs = a.iter().filter(|b| is_neg(**b)).count();
    if negs < 2 {
        l.judge(&c);
        return;
    }
    let g = guard(|| exec(&c)).ok();
    l.note(case_hash(&c), true);
    let ok = g.is_some_and(|g| l.o.check(&c, g).is_ok());
    if !ok {
        if g == found(&c) {
            l.violate(format!("negative-order {}", op.name()), format!("{} gives {}", c.text(), g.map_or("a panic".into(), hex)));
        } else {
            l.violate(c.text(), format!("got {}", g.map_or("a panic".into(), hex)));
        }
    }
}
fn c11(l: &mut Local, _: u64) {
    let (a, b) = cmp_pair(&mut l.r);
    check_cmp(l, a, b);
    check_cmp(l, b, a);
    c11_select(l, Op::Max, &[a, b]);
    c11_select(l, Op::Min, &[a, b]);
    let c = if l.r.chance(1, 2) { gen::related(&mut l.r, a) } else { gen::any(&mut l.r) };
    if !is_nan(a) && !is_nan(b) {
        let (lo, hi) = if key_total(a) <= key_total(b) { (a, b) } else { (b, a) };
        c11_select(l, Op::Clamp, &[c, lo, hi]);
        c11_select(l, Op::Clamp, &[lo, lo, hi]);
        c11_select(l, Op::Clamp, &[hi, lo, hi]);
    }
}
pub fn check_clamp_panics(l: &mut Local, c: Bits, lo: Bits, hi: Bits) {
    // documented panic: min > max or NaN bound
    let r = guard(|| f(c).clamp(f(lo), f(hi)).to_bits());
    l.note(hash64(&[7, c.1 as u64, lo.0 as u64, lo.1 as u64, hi.1 as u64]), true);
    if let Ok(b) = r {
        if is_neg(lo) && is_neg(hi) && found(&Case { op: Op::Clamp, a: [c, lo, hi], n: 0 }) == Some(b) {
            l.violate("negative-order clamp".into(), format!("clamp-panic {} {} {} returned {}", hex(c), hex(lo), hex(hi), hex(b)));
            return;
        }
    }
    l.require(r.is_err(), || format!("clamp-panic {} {} {}", hex(c), hex(lo), hex(hi)), || format!("returned {r:?} instead of panicking"));
}
fn c11_clamp_panic(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let c = gen::any(r);
    let (lo, hi) = match r.below(3) {
        0 => (gen::nan(r), gen::any(r)),
        1 => (gen::any(r), gen::nan(r)),
        _ => {
            let a = gen::finite(r);
            let b = gen::finite(r);
            if key_total(a) < key_total(b) {
                (b, a)
            } else {
                (a, b)
            }
        }
    };
    if !is_nan(lo) && !is_nan(hi) && (key_total(lo) <= key_total(hi) || (is_zero(lo) && is_zero(hi))) {
        return;
    }
    check_clamp_panics(l, c, lo, hi);
}
/// Sorting by total_cmp and by partial_cmp must agree with the numeric order.
fn c11_sort(l: &mut Local, _: u64) {
    let n = l.r.range(2, 40) as usize;
    let base = gen::finite(&mut l.r);
    let mut v: Vec<Bits> = (0..n)
        .map(|_| match l.r.below(3) {
            0 => gen::related(&mut l.r, base),
            1 => gen::special(&mut l.r),
            _ => gen::any(&mut l.r),
        })
        .collect();
    let mut w = v.clone();
    w.sort_by_key(|&b| key_total(b));
    let sig = format!("sort {}", v.iter().map(|&b| hex(b)).collect::<Vec<_>>().join(" "));
    let g = guard(|| {
        v.sort_by(|&a, &b| f(a).total_cmp(&f(b)));
        v
    });
    l.note(hash_str(&sig), true);
    match g {
        Ok(v) => {
            if v != w {
                w.sort_by_key(|&b| neg(b));
                if v == w {
                    l.violate("negative-order total_cmp".into(), sig);
                } else {
                    l.violate(sig, "total_cmp does not sort into totalOrder".into());
                }
            }
        }
        Err(m) => l.violate(sig, format!("panicked: {m}")),
    }
}
pub fn check_class(l: &mut Local, b: Bits) {
    use std::num::FpCategory as C;
    let cls = if is_nan(b) {
        C::Nan
    } else if is_inf(b) {
        C::Infinite
    } else if is_zero(b) {
        C::Zero
    } else if is_sub(b) {
        C::Subnormal
    } else {
        C::Normal
    };
    let g = guard(|| {
        let x = f(b);
        (
            x.classify(),
            (x.is_nan(), x.is_infinite(), x.is_finite(), x.is_subnormal(), x.is_normal(), x.eq_zero(), x.is_special()),
            (x.is_sign_positive(), x.is_sign_negative(), x.to_bits()),
        )
    });
    let w = (
        cls,
        (cls == C::Nan, cls == C::Infinite, is_fin(b), cls == C::Subnormal, cls == C::Normal, cls == C::Zero, !is_fin(b) || cls == C::Zero),
        (!is_neg(b), is_neg(b), b),
    );
    l.note(hash64(&[2, b.0 as u64, (b.0 >> 64) as u64, b.1 as u64, (b.1 >> 64) as u64]), true);
    match g {
        Ok(g) => l.require(g == w, || format!("class {}", hex(b)), || format!("expected {w:?} got {g:?}")),
        Err(m) => l.violate(format!("class {}", hex(b)), format!("panicked: {m}")),
    }
    l.tag(match cls {
        C::Nan => "class:nan",
        C::Infinite => "class:infinite",
        C::Zero => "class:zero",
        C::Subnormal => "class:subnormal",
        C::Normal => "class:normal",
    });
}
fn c12(l: &mut Local, _: u64) {
    let b = gen::any(&mut l.r);
    check_class(l, b);
    // sign operations are bit exact even for NaN
    for op in [Op::Neg, Op::Abs] {
        let c = Case { op, a: [b, ZERO, ZERO], n: 0 };
        if let Some(g) = l.exec(&c) {
            let w = if op == Op::Neg { neg(b) } else { abs(b) };
            l.note(case_hash(&c), true);
            l.require(g == w, || format!("{} bits", c.text()), || format!("expected {} got {}", hex(w), hex(g)));
        }
    }
    l.op(Op::Ulp, &[b], 0);
}
// ---------------------------------------------------------------- transcendental
fn trig_hard() -> &'static hard::TrigHard {
    static T: OnceLock<hard::TrigHard> = OnceLock::new();
    T.get_or_init(hard::TrigHard::new)
}
pub fn trig_ops(l: &mut Local, x: Bits) {
    let s = l.op(Op::Sin, &[x], 0);
    let c = l.op(Op::Cos, &[x], 0);
    let t = l.op(Op::Tan, &[x], 0);
    trig_rel(l, x, s, c, t);
}
/// Bit-exact relations: parity, sin_cos agreement, range.
fn trig_rel(l: &mut Local, x: Bits, s: Option<Bits>, c: Option<Bits>, t: Option<Bits>) {
    let (Some(s), Some(c), Some(t)) = (s, c, t) else { return };
    let ex = |l: &mut Local, op: Op, a: Bits| l.exec(&Case { op, a: [a, ZERO, ZERO], n: 0 });
    let sc = (ex(l, Op::SinCos0, x), ex(l, Op::SinCos1, x));
    let n = (ex(l, Op::Sin, neg(x)), ex(l, Op::Cos, neg(x)), ex(l, Op::Tan, neg(x)));
    let eq = |a: Option<Bits>, b: Bits| a.is_none_or(|a| same(a, b));
    l.require(eq(sc.0, s) && eq(sc.1, c), || format!("sin_cos {}", hex(x)), || "sin_cos(x) differs from (sin(x), cos(x))".into());
    l.require(
        eq(n.0, neg(s)) && eq(n.1, c) && eq(n.2, neg(t)),
        || format!("parity {}", hex(x)),
        || "sin/tan not odd or cos not even".into(),
    );
    if is_fin(x) {
        l.require(abs(s) <= ONE && abs(c) <= ONE, || format!("range {}", hex(x)), || "|sin| or |cos| > 1".into());
    }
}
fn c21_mid(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let e = match r.below(6) {
        0 => r.range(-8, 8),
        1 => r.range(-260, 4),
        2 => r.range(0, 237),
        3 => r.range(230, 600),
        4 => r.range(-600, -100),
        _ => r.range(-2, 3),
    };
    let x = gen::norm(r, e);
    trig_ops(l, x);
}
fn c21_tiny(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let x = match r.below(3) {
        0 => gen::subnormal(r),
        1 => {
            let e = r.range(EMIN as i64, -200);
            gen::norm(r, e)
        }
        _ => {
            let e = r.range(-800, -60);
            gen::norm(r, e)
        }
    };
    trig_ops(l, x);
}
fn c21_large(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let e = match r.below(3) {
        0 => r.range(237, 4000),
        1 => r.range(4000, 60000),
        _ => r.range(60000, EMAX as i64),
    };
    let x = gen::norm(r, e);
    trig_ops(l, x);
}
fn c21_hard_with(l: &mut Local, e: i64) {
    let mut v = Vec::new();
    trig_hard().worst(e, &mut v);
    if v.is_empty() {
        return;
    }
    let k = v.len();
    let z = match l.r.below(4) {
        0 | 1 => v[k - 1].clone(),
        2 => v[k - 1 - l.r.below(k.min(4) as u64) as usize].clone(),
        _ => {
            // small multiple or sum of convergents
            let m = v[l.r.below(k as u64) as usize].mul_ui(l.r.below(7) + 1);
            if m.bits() > 237 {
                v[k - 1].clone()
            } else {
                m
            }
        }
    };
    if z.is_zero() {
        return;
    }
    if let Some(x) = hard::from_z(&z, e) {
        let x = if l.r.chance(1, 2) { neg(x) } else { x };
        l.tag("trig:next-to-multiple-of-pi/2");
        trig_ops(l, x);
        if l.r.chance(1, 4) {
            trig_ops(l, step(x, 1));
        }
    }
}
/// Arguments whose multiple of 2/pi has a long run of equal binary digits somewhere
/// behind the point: next to a multiple of pi/2^(b+1).
fn c21_runs(l: &mut Local, _: u64) {
    let e = match l.r.below(8) {
        0 => l.r.range(-236, 300),
        1 => l.r.range(2000, 20000),
        _ => l.r.range(0, 2000),
    };
    let b = match l.r.below(3) {
        0 => l.r.pick(&[64i64, 108, 128, 172, 192, 235, 236, 237, 256, 300, 364]),
        1 => l.r.range(200, 260),
        _ => l.r.range(1, 500),
    };
    let mut v = Vec::new();
    trig_hard().worst(e, &mut v);
    if v.is_empty() {
        return;
    }
    let z = v[v.len() - 1 - l.r.below(v.len().min(30) as u64) as usize].clone();
    // a small odd factor fills the digits in front of the run
    let k = 237u64.saturating_sub(z.bits() as u64).min(40);
    let m = if k > 1 { z.mul_ui(l.r.u64() >> (64 - l.r.below(k) - 1)) } else { z };
    if m.is_zero() {
        return;
    }
    if let Some(x) = hard::from_z(&m, e - b) {
        l.tag("trig:run-of-digits");
        let x = if l.r.chance(1, 2) { neg(x) } else { x };
        trig_ops(l, x);
    }
}
fn c21_hard_mid(l: &mut Local, _: u64) {
    let e = l.r.range(-236, 800);
    c21_hard_with(l, e);
}
fn c21_hard_large(l: &mut Local, _: u64) {
    let e = match l.r.below(3) {
        0 => l.r.range(800, 8000),
        1 => EMAX as i64 - 236 - l.r.range(0, 300),
        _ => l.r.range(8000, EMAX as i64 - 236),
    };
    c21_hard_with(l, e);
}
/// Neighbourhoods of k*pi/4 for small k, and small rationals.
fn c21_near(l: &mut Local, _: u64) {
    let k = match l.r.below(3) {
        0 => l.r.below(9) + 1,
        1 => l.r.below(1000) + 1,
        _ => l.r.u64() >> l.r.range(1, 60),
    };
    let o = &mut l.o;
    o.w2.set_prec(640);
    o.w2.pi(RNDN);
    o.w3.set_ui(k, -2);
    o.w.mul(&o.w2, &o.w3, RNDN);
    o.w2.set_prec(crate::oracle::WORK);
    let t = o.r.set(&o.w, RNDN);
    let (b, _) = crate::oracle::finalize(&mut o.r, t);
    if is_zero(b) {
        return;
    }
    let st = match l.r.below(3) {
        0 => l.r.range(-3, 3),
        1 => {
            let j = l.r.range(1, 62);
            1i64 << j
        }
        _ => l.r.range(-1 << 40, 1 << 40),
    };
    let mut x = step(b, st);
    if l.r.chance(1, 3) {
        // perturb at a random bit
        let j = gen::bit(l.r.below(236) as u32);
        x = (x.0 ^ j.0, x.1 ^ j.1);
    }
    trig_ops(l, x);
}
fn near_one(r: &mut Rng) -> Bits {
    let v = match r.below(4) {
        0 => step(ONE, -r.range(0, 40)),
        1 => {
            let k = r.range(1, 62);
            step(ONE, -r.range(1, 1 << k))
        }
        2 => {
            // 1 - 2^-k (1+..)
            let k = r.range(1, 236);
            let z = Z::ui(1).shl(237).sub(&hard::rand_z(r, (237 - k + 1).clamp(1, 236) as u32));
            let z = if z.is_odd() && z.bits() > 237 { z.sub_ui(1) } else { z };
            hard::from_z(&z, -237).unwrap_or(ONE)
        }
        _ => {
            let e = r.range(-3, -1);
            abs(gen::norm(r, e))
        }
    };
    if r.chance(1, 2) {
        neg(v)
    } else {
        v
    }
}
fn odd_pair(l: &mut Local, op: Op, x: Bits) {
    let g = l.op(op, &[x], 0);
    let h = l.exec(&Case { op, a: [neg(x), ZERO, ZERO], n: 0 });
    if let (Some(g), Some(h)) = (g, h) {
        l.require(same(neg(g), h), || format!("odd {} {}", op.name(), hex(x)), || "not odd bit for bit".into());
    }
}
fn c22_asin_acos(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let x = match r.below(8) {
        0..=2 => near_one(r),
        3 | 4 => {
            let e = r.range(-20, -1);
            gen::norm(r, e)
        }
        5 => {
            let e = r.range(-600, -1);
            gen::norm(r, e)
        }
        6 => gen::any(r),
        _ => {
            let e = r.range(-140, -100);
            gen::norm(r, e)
        }
    };
    odd_pair(l, Op::Asin, x);
    let c = l.op(Op::Acos, &[x], 0);
    if let Some(c) = c {
        if is_fin(c) {
            l.require(!is_neg(c), || format!("range acos {}", hex(x)), || "acos < 0".into());
        }
    }
}
fn c22_atan(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let x = match r.below(8) {
        0 => near_one(r),
        1 => {
            let x = near_one(r);
            step(x, 1 << 50)
        }
        2 => {
            let e = r.range(-10, 10);
            gen::norm(r, e)
        }
        3 => {
            let e = r.range(-300, 300);
            gen::norm(r, e)
        }
        4 => {
            let e = r.range(100, 600);
            gen::norm(r, e)
        }
        5 => {
            let e = r.range(-600, -60);
            gen::norm(r, e)
        }
        6 => gen::any(r),
        _ => {
            // ratios like k/2^j used as table breakpoints
            let k = r.below(1 << 12) + 1;
            let v = hard::from_z(&Z::ui(k), -r.range(0, 14)).unwrap();
            step(v, r.range(-2, 2))
        }
    };
    odd_pair(l, Op::Atan, x);
}
fn c22_atan2(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let (y, x) = match r.below(10) {
        0 => (gen::any(r), gen::any(r)),
        1 => (gen::special(r), gen::special(r)),
        2 => {
            let a = gen::finite(r);
            (a, if r.chance(1, 2) { a } else { neg(a) })
        }
        3 | 4 => {
            let e = gen::exponent(r);
            let d = r.range(-300, 300);
            (gen::norm(r, e), gen::norm(r, e + d))
        }
        5 => {
            let e = gen::exponent(r);
            let d = r.range(-600, 600);
            (gen::norm(r, e), gen::norm(r, e + d))
        }
        6 => {
            let a = gen::nonzero(r);
            (a, gen::related(r, a))
        }
        7 => (gen::subnormal(r), gen::subnormal(r)),
        8 => (gen::subnormal(r), gen::finite(r)),
        _ => {
            let e = r.range(-20, 20);
            let d = r.range(-20, 20);
            (gen::norm(r, e), gen::norm(r, d))
        }
    };
    let g = l.op(Op::Atan2, &[y, x], 0);
    // the documentation leaves the sign of the angle open for y = 0
    if let (Some(g), false) = (g, is_zero(y)) {
        let h = l.exec(&Case { op: Op::Atan2, a: [neg(y), x, ZERO], n: 0 });
        if let Some(h) = h {
            l.require(same(neg(g), h), || format!("odd atan2 {} {}", hex(y), hex(x)), || "atan2(-y, x) != -atan2(y, x)".into());
        }
    }
}
/// A number of at most 120 significant bits and the given exponent.
fn short(r: &mut Rng, e: i64) -> Fr {
    let bits = r.below(120) as u32 + 1;
    let z = hard::rand_odd(r, bits);
    let mut s = Fr::new(900);
    s.set_z(&z, e - z.bits() as i64 + 1, RNDN);
    s
}
fn rounded(v: &Fr) -> Bits {
    let mut x = Fr::new(237);
    x.set(v, RNDN);
    from_fr(&x)
}
/// Arguments whose function value lies next to a number of few bits: the
/// digits of the result behind those bits are a long run of zeros or ones.
fn c22_images(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let kind = r.below(6);
    let e = if r.chance(3, 4) { r.range(-12, 0) } else { r.range(-130, 0) };
    let s = if kind == 2 && r.chance(1, 2) {
        // a leg just below 1, with as many bits as half of an internal number
        let n = r.below(3) + 127;
        let bits = r.below(110) as u32 + 1;
        let m = hard::rand_odd(r, bits);
        let mut s = Fr::new(900);
        s.set_z(&Z::ui(1).shl(n).sub(&m), -(n as i64), RNDN);
        s
    } else {
        short(r, e)
    };
    let mut v = Fr::new(900);
    match kind {
        0 => v.sin(&s, RNDN),
        1 => v.cos(&s, RNDN),
        2 => {
            // the other leg of a triangle with the hypotenuse 1
            let mut q = Fr::new(900);
            q.sqr(&s, RNDN);
            let mut one = Fr::new(900);
            one.set_ui(1, 0);
            v.sub(&one, &q, RNDN);
            let w = std::mem::replace(&mut v, Fr::new(900));
            v.sqrt(&w, RNDN)
        }
        _ => v.tan(&s, RNDN),
    };
    if v.is_nan() || v.is_zero() {
        return;
    }
    let x = rounded(&v);
    l.tag("inverse function: result next to a short number");
    match kind {
        0..=2 => {
            odd_pair(l, Op::Asin, x);
            l.op(Op::Acos, &[x], 0);
            l.op(Op::Acos, &[neg(x)], 0);
        }
        3 | 4 => odd_pair(l, Op::Atan, x),
        _ => {
            let r = &mut l.r;
            let e = r.range(-100, 100);
            let a = gen::norm(r, e);
            let mut fa = Fr::new(237);
            to_fr(a, &mut fa);
            let mut p = Fr::new(900);
            p.mul(&fa, &v, RNDN);
            l.op(Op::Atan2, &[rounded(&p), a], 0);
        }
    }
}
fn c23_images(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let kind = r.below(3);
    let e = match r.below(4) {
        0 => r.range(-120, 0),
        1 => r.range(0, 16),
        _ => r.range(-10, 6),
    };
    let s = short(r, e);
    let mut t = Fr::new(900);
    match kind {
        0 => {
            t.set(&s, RNDN);
        }
        1 => {
            let mut c = Fr::new(900);
            c.ln2(RNDN);
            t.mul(&s, &c, RNDN);
        }
        _ => {
            let (mut c, mut d) = (Fr::new(900), Fr::new(900));
            d.set_ui(10, 0);
            c.log(&d, RNDN);
            t.mul(&s, &c, RNDN);
        }
    }
    if r.chance(1, 2) {
        let w = std::mem::replace(&mut t, Fr::new(900));
        t.neg(&w, RNDN);
    }
    let mut v = Fr::new(900);
    v.exp(&t, RNDN);
    if v.is_nan() || v.is_inf() || v.is_zero() || v.exp2().abs() > EMAX as i64 - 4 {
        return;
    }
    l.tag("logarithm: result next to a short number");
    let x = rounded(&v);
    l.op([Op::Ln, Op::Log2, Op::Log10][kind as usize], &[x], 0);
}
pub fn log_ops(l: &mut Local, x: Bits) {
    for op in [Op::Ln, Op::Log2, Op::Log10] {
        l.op(op, &[x], 0);
    }
}
fn c23(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let x = match r.below(10) {
        0 => gen::finite(r),
        1 => {
            // around one
            let k = r.range(0, 62);
            step(ONE, r.range(-(1 << k), 1 << k))
        }
        2 => {
            let j = gen::bit(r.below(236) as u32);
            let p = if r.chance(1, 2) { ONE } else { gen::make(false, BIAS as u32 - 1, (0, 0)) };
            let v = (p.0 | j.0, p.1 | j.1);
            if r.chance(1, 2) && abs(v) < ONE {
                // 1 - 2^-k
                let k = r.range(1, 236);
                hard::from_z(&Z::ui(1).shl(k as u64).sub_ui(1), -k).unwrap()
            } else {
                v
            }
        }
        3 => {
            let e = r.range(-3, 3);
            gen::norm(r, e)
        }
        4 => gen::subnormal(r),
        5 => {
            // powers of two and neighbours
            let e = r.range(QMIN as i64, EMAX as i64);
            let v = hard::from_z(&Z::ui(1), e).unwrap();
            step(v, r.pick(&[0, 0, 1, -1]))
        }
        6 => {
            // powers of ten and neighbours
            let k = r.range(0, 102) as u64;
            let v = hard::from_z(&Z::pow(10, k), 0).unwrap();
            step(v, r.pick(&[0, 0, 1, -1]))
        }
        7 => gen::small_int(r),
        8 => {
            let e = r.range(-1000, 1000);
            gen::norm(r, e)
        }
        _ => gen::any(r),
    };
    let x = if r.chance(15, 16) { abs(x) } else { x };
    log_ops(l, x);
}
fn c24(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let x = match r.below(6) {
        0 => gen::any(r),
        1 => {
            let e = r.range(EMAX as i64 - 10, EMAX as i64);
            gen::norm(r, e)
        }
        2 => {
            let e = r.range(EMIN as i64, EMIN as i64 + 10);
            gen::norm(r, e)
        }
        3 => gen::subnormal(r),
        4 => gen::small_int(r),
        _ => gen::finite(r),
    };
    l.op(Op::ToDeg, &[x], 0);
    l.op(Op::ToRad, &[x], 0);
}
const R_ROUND: &str = "operands drawn from pattern/boundary generators and from number-theoretic constructions of near-ties; non-trivial = the exact result was not representable, or an operand was special, or the result is subnormal, or it differs in magnitude from every operand; distinct by hash of (operation, operands)";
pub fn streams(p: &str) -> Option<(Vec<Stream>, &'static str)> {
    let v = match p {
        "C01" => vec![s("mixed", 6_000_000, 150_000_000, c01_mixed), s("ties", 8_000_000, 200_000_000, c01_ties)],
        "C02" => vec![
            s("mixed", 6_000_000, 120_000_000, c02_mixed),
            s("ties", 1_500_000, 30_000_000, c02_ties),
            s("subnormal-ties", 1_500_000, 30_000_000, c02_subties),
        ],
        "C03" => vec![
            s("mixed", 4_000_000, 100_000_000, c03_mixed),
            s("ties", 1_000_000, 20_000_000, c03_ties),
            s("recip", 1_000_000, 20_000_000, c03_recip),
            s("subnormal", 1_000_000, 20_000_000, c03_sub),
        ],
        "C04" => vec![s("mixed", 400_000, 8_000_000, c04_mixed)],
        "C05" => vec![s("mixed", 4_000_000, 100_000_000, c05_mixed), s("hard", 3_000_000, 60_000_000, c05_hard)],
        "C06" => vec![
            s("square", 1_000_000, 20_000_000, c06_square),
            s("square_add", 1_500_000, 30_000_000, c06_square_add),
            s("sum_of_squares", 1_500_000, 30_000_000, c06_sos),
        ],
        "C07" => vec![s("mixed", 1_500_000, 40_000_000, c07_mixed), s("hard", 600_000, 12_000_000, c07_hard)],
        "C08" => vec![s("special", 6_000_000, 100_000_000, c08)],
        "C09" => vec![s("scaling", 3_000_000, 80_000_000, c09)],
        "C10" => vec![s("integral", 2_000_000, 50_000_000, c10)],
        "C11" => vec![
            s("compare", 4_000_000, 100_000_000, c11),
            s("clamp-panics", 20_000, 200_000, c11_clamp_panic),
            s("sort", 100_000, 2_000_000, c11_sort),
        ],
        "C12" => vec![s("class", 6_000_000, 150_000_000, c12)],
        "C21" => vec![
            s("mid", 60_000, 1_500_000, c21_mid),
            s("tiny", 20_000, 400_000, c21_tiny),
            s("near", 40_000, 1_000_000, c21_near),
            s("hard-mid", 20_000, 500_000, c21_hard_mid),
            s("runs", 20_000, 500_000, c21_runs),
            s("large", 1_500, 40_000, c21_large),
            s("hard-large", 1_500, 40_000, c21_hard_large),
        ],
        "C22" => vec![
            s("asin-acos", 250_000, 3_000_000, c22_asin_acos),
            s("atan", 250_000, 3_000_000, c22_atan),
            s("atan2", 250_000, 3_000_000, c22_atan2),
            s("images", 200_000, 3_000_000, c22_images),
        ],
        "C23" => vec![s("logs", 150_000, 2_000_000, c23), s("images", 150_000, 2_000_000, c23_images)],
        "C24" => vec![s("deg-rad", 3_000_000, 60_000_000, c24)],
        _ => return None,
    };
    Some((v, R_ROUND))
}
