//! Exact laws along chains of operations (C29). The laws relate observed
//! results to each other; the only arithmetic outside the crate is exact
//! integer arithmetic (GMP) for the error-free splits.
use crate::ffi::*;
use crate::gen;
use crate::hard;
use crate::misc::key;
use crate::ops::*;
use crate::report::*;
use crate::rng::Rng;
use f256::f256;
use std::cmp::Ordering;
use std::str::FromStr;

#[derive(Clone, Copy)]
pub struct In {
    pub a: Bits,
    pub b: Bits,
    pub c: Bits,
    pub k: i64,
}
/// None: the law says nothing here. Some(Err): broken.
type Law = fn(&In) -> Option<Result<(), String>>;

fn ok(c: bool, m: impl FnOnce() -> String) -> Option<Result<(), String>> {
    Some(if c { Ok(()) } else { Err(m()) })
}
fn e2(op: Op, a: Bits, b: Bits) -> Bits {
    exec(&Case { op, a: [a, b, ZERO], n: 0 })
}
fn e1(op: Op, a: Bits) -> Bits {
    e2(op, a, ZERO)
}
fn fma(a: Bits, b: Bits, c: Bits) -> Bits {
    exec(&Case { op: Op::MulAdd, a: [a, b, c], n: 0 })
}
fn eq(l: Bits, r: Bits, m: &str) -> Option<Result<(), String>> {
    ok(same(l, r), || format!("{m}: {} and {}", hex(l), hex(r)))
}
fn and(a: Option<Result<(), String>>, b: impl FnOnce() -> Option<Result<(), String>>) -> Option<Result<(), String>> {
    match a {
        Some(Err(e)) => Some(Err(e)),
        None => b(),
        x => match b() {
            Some(Err(e)) => Some(Err(e)),
            _ => x,
        },
    }
}
fn fin(v: &[Bits]) -> bool {
    v.iter().all(|b| is_fin(*b))
}
/// Numeric order key (the zeros are equal).
fn nk(b: Bits) -> (bool, Bits) {
    key(if is_zero(b) { ZERO } else { b })
}
fn le(a: Bits, b: Bits) -> bool {
    nk(a) <= nk(b)
}
/// The k-th neighbour in numeric order (k > 0 upwards), None when leaving the finite range.
fn up(b: Bits, k: i64) -> Option<Bits> {
    let s = if is_neg(b) {
        let (m, _) = (abs(b), 0);
        if k > 0 && m.0 == 0 && m.1 < k as u128 {
            (0, k as u128 - m.1)
        } else {
            step(b, -k)
        }
    } else {
        step(b, k)
    };
    (is_fin(b) && is_fin(s)).then_some(s)
}
/// Exponent of the leading bit; very small for zero.
fn le2(b: Bits) -> i64 {
    if is_zero(b) {
        -10_000_000
    } else {
        gen::lead_exp(b)
    }
}
/// Signed integer m with value m * 2^q.
fn zq(b: Bits) -> (Z, i64) {
    let (m, q) = decode(b);
    let z = Z::limbs(&m);
    (if is_neg(b) { z.neg() } else { z }, q as i64)
}
/// Exact sum of products; None if the spread is too large to bother.
fn esum(t: &[(Z, i64)]) -> Option<(Z, i64)> {
    let v: Vec<&(Z, i64)> = t.iter().filter(|x| !x.0.is_zero()).collect();
    if v.is_empty() {
        return Some((Z::new(), 0));
    }
    let lo = v.iter().map(|x| x.1).min()?;
    let hi = v.iter().map(|x| x.1).max()?;
    if hi - lo > 6000 {
        return None;
    }
    let mut s = Z::new();
    for x in v {
        s = s.add(&x.0.shl((x.1 - lo) as u64));
    }
    Some((s, lo))
}
fn ezero(t: &[(Z, i64)]) -> Option<bool> {
    esum(t).map(|s| s.0.is_zero())
}
fn zmul(a: &(Z, i64), b: &(Z, i64)) -> (Z, i64) {
    (a.0.mul(&b.0), a.1 + b.1)
}
fn zneg(a: (Z, i64)) -> (Z, i64) {
    (a.0.neg(), a.1)
}
fn not_nan(v: &[Bits]) -> bool {
    v.iter().all(|b| !is_nan(*b))
}
/// x * 2^k without rounding, if the value stays normal.
fn scale(b: Bits, k: i64) -> Option<Bits> {
    if is_zero(b) {
        return Some(b);
    }
    if !is_fin(b) || is_sub(b) {
        return None;
    }
    let e = bexp(b) as i64 + k;
    (1..EXP_MAX as i64).contains(&e).then(|| gen::make(is_neg(b), e as u32, (b.0 & FRACM, b.1)))
}
fn normal(b: Bits) -> bool {
    is_fin(b) && bexp(b) > 0
}
/// Exponent high enough that all of a 474-bit product stays above the subnormals.
fn roomy(e: i64) -> bool {
    e > EMIN as i64 + 490 && e < EMAX as i64 - 4
}

fn comm(i: &In) -> Option<Result<(), String>> {
    let (a, b, c) = (i.a, i.b, i.c);
    let r = eq(e2(Op::Add, a, b), e2(Op::Add, b, a), "a+b and b+a");
    let r = and(r, || eq(e2(Op::Mul, a, b), e2(Op::Mul, b, a), "a*b and b*a"));
    let r = and(r, || eq(fma(a, b, c), fma(b, a, c), "fma(a,b,c) and fma(b,a,c)"));
    and(r, || eq(e2(Op::Sos, a, b), e2(Op::Sos, b, a), "sum_of_squares(a,b) and (b,a)"))
}
fn sign_add(i: &In) -> Option<Result<(), String>> {
    let s = e2(Op::Add, i.a, i.b);
    let t = e2(Op::Add, neg(i.a), neg(i.b));
    if is_zero(s) {
        return ok(is_zero(t), || format!("a+b is zero, -a-b is {}", hex(t)));
    }
    let r = eq(t, neg(s), "(-a)+(-b) and -(a+b)");
    let d = e2(Op::Sub, i.a, i.b);
    and(r, || if is_zero(d) { None } else { eq(e2(Op::Sub, i.b, i.a), neg(d), "b-a and -(a-b)") })
}
fn sign_mul(i: &In) -> Option<Result<(), String>> {
    let (a, b) = (i.a, i.b);
    let p = e2(Op::Mul, a, b);
    let r = eq(e2(Op::Mul, neg(a), b), neg(p), "(-a)*b and -(a*b)");
    let r = and(r, || eq(e2(Op::Mul, neg(a), neg(b)), p, "(-a)*(-b) and a*b"));
    let q = e2(Op::Div, a, b);
    let r = and(r, || eq(e2(Op::Div, neg(a), b), neg(q), "(-a)/b and -(a/b)"));
    and(r, || eq(e2(Op::Div, a, neg(b)), neg(q), "a/(-b) and -(a/b)"))
}
fn sign_rem(i: &In) -> Option<Result<(), String>> {
    let m = e2(Op::Rem, i.a, i.b);
    let r = eq(e2(Op::Rem, neg(i.a), i.b), neg(m), "(-a)%b and -(a%b)");
    and(r, || eq(e2(Op::Rem, i.a, neg(i.b)), m, "a%(-b) and a%b"))
}
fn sign_fma(i: &In) -> Option<Result<(), String>> {
    let v = fma(i.a, i.b, i.c);
    let r = eq(fma(neg(i.a), neg(i.b), i.c), v, "fma(-a,-b,c) and fma(a,b,c)");
    let w = fma(neg(i.a), i.b, neg(i.c));
    and(r, || {
        if is_zero(v) {
            ok(is_zero(w), || format!("fma(a,b,c) is zero, fma(-a,b,-c) is {}", hex(w)))
        } else {
            eq(w, neg(v), "fma(-a,b,-c) and -fma(a,b,c)")
        }
    })
}
fn sign_even(i: &In) -> Option<Result<(), String>> {
    let s = e2(Op::Sos, i.a, i.b);
    let r = eq(e2(Op::Sos, neg(i.a), i.b), s, "sum_of_squares(-a,b) and (a,b)");
    let r = and(r, || eq(e1(Op::Square, neg(i.a)), e1(Op::Square, i.a), "square(-a) and square(a)"));
    and(r, || eq(e2(Op::SquareAdd, neg(i.a), i.b), e2(Op::SquareAdd, i.a, i.b), "square_add(-a,b) and (a,b)"))
}
fn sign_round(i: &In) -> Option<Result<(), String>> {
    let a = i.a;
    let mut r = None;
    for op in [Op::Trunc, Op::Round, Op::RoundEven, Op::Fract, Op::Mul2, Op::Div2, Op::ToRad, Op::ToDeg, Op::Recip] {
        let v = e1(op, a);
        // fract of an integer: the sign of zero is open
        if op == Op::Fract && is_zero(v) {
            continue;
        }
        r = and(r, || eq(e1(op, neg(a)), neg(v), op.name()));
    }
    and(r, || eq(e1(Op::Ceil, neg(a)), neg(e1(Op::Floor, a)), "ceil(-a) and -floor(a)"))
}
fn mono(i: &In) -> Option<Result<(), String>> {
    let k = i.k.unsigned_abs().max(1) as i64;
    let a2 = up(i.a, k)?;
    let (a, b, c) = (i.a, i.b, i.c);
    if !not_nan(&[b, c]) {
        return None;
    }
    let chk = |n: &str, l: Bits, h: Bits| -> Option<Result<(), String>> {
        if !not_nan(&[l, h]) {
            return None;
        }
        ok(le(l, h), || format!("{n} is not monotonic: {} at a, {} at a + {k} steps", hex(l), hex(h)))
    };
    let flip = |n: &str, l: Bits, h: Bits, s: bool| if s { chk(n, h, l) } else { chk(n, l, h) };
    let nb = is_neg(b);
    let mut r = chk("a+b", e2(Op::Add, a, b), e2(Op::Add, a2, b));
    r = and(r, || chk("a-b", e2(Op::Sub, a, b), e2(Op::Sub, a2, b)));
    r = and(r, || chk("-(b-a)", neg(e2(Op::Sub, b, a)), neg(e2(Op::Sub, b, a2))));
    r = and(r, || flip("a*b", e2(Op::Mul, a, b), e2(Op::Mul, a2, b), nb));
    r = and(r, || flip("a/b", e2(Op::Div, a, b), e2(Op::Div, a2, b), nb));
    if is_neg(a) == is_neg(a2) && !is_zero(a) && !is_zero(a2) {
        r = and(r, || flip("b/a", e2(Op::Div, b, a2), e2(Op::Div, b, a), nb));
    }
    r = and(r, || flip("fma(a,b,c)", fma(a, b, c), fma(a2, b, c), nb));
    r = and(r, || chk("fma(b,c,a)", fma(b, c, a), fma(b, c, a2)));
    r = and(r, || chk("square_add(b,a)", e2(Op::SquareAdd, b, a), e2(Op::SquareAdd, b, a2)));
    if !is_neg(a) {
        r = and(r, || chk("sqrt", e1(Op::Sqrt, a), e1(Op::Sqrt, a2)));
        r = and(r, || chk("square", e1(Op::Square, a), e1(Op::Square, a2)));
        r = and(r, || chk("sum_of_squares", e2(Op::Sos, a, b), e2(Op::Sos, a2, b)));
    }
    for op in [Op::Trunc, Op::Ceil, Op::Floor, Op::Round, Op::RoundEven, Op::Mul2, Op::Div2] {
        r = and(r, || chk(op.name(), e1(op, a), e1(op, a2)));
    }
    let n = (i.k.unsigned_abs() % 600) as u32;
    for op in [Op::MulPow2, Op::DivPow2] {
        let x = |a| exec(&Case { op, a: [a, ZERO, ZERO], n });
        r = and(r, || chk(op.name(), x(a), x(a2)));
    }
    r
}
fn sterbenz(i: &In) -> Option<Result<(), String>> {
    // b/2 <= a <= 2b
    let (a, b) = (abs(i.a), abs(i.b));
    if !fin(&[a, b]) || is_zero(a) || is_zero(b) {
        return None;
    }
    let (ea, eb) = (le2(a), le2(b));
    if (ea - eb).abs() > 1 {
        return None;
    }
    let t2 = |x: Bits, k: i64| {
        let (z, q) = zq(x);
        (z, q + k)
    };
    let s1 = esum(&[t2(a, 1), zneg(zq(b))])?;
    let s2 = esum(&[t2(b, 1), zneg(zq(a))])?;
    if s1.0.is_neg() || s2.0.is_neg() {
        return None;
    }
    let d = e2(Op::Sub, a, b);
    if !is_fin(d) {
        return Some(Err(format!("a-b is {}", hex(d))));
    }
    let ex = ezero(&[zq(d), zq(b), zneg(zq(a))])?;
    let r = ok(ex, || format!("a-b = {} is not exact", hex(d)));
    and(r, || eq(e2(Op::Add, d, b), a, "(a-b)+b and a"))
}
fn two_sum(i: &In) -> Option<Result<(), String>> {
    let (a, b) = (i.a, i.b);
    if !fin(&[a, b]) || le2(a).max(le2(b)) > EMAX as i64 - 3 {
        return None;
    }
    let s = e2(Op::Add, a, b);
    let bb = e2(Op::Sub, s, a);
    let e = e2(Op::Add, e2(Op::Sub, a, e2(Op::Sub, s, bb)), e2(Op::Sub, b, bb));
    if !fin(&[s, e]) {
        return Some(Err(format!("sum {} residual {}", hex(s), hex(e))));
    }
    // s + e = a + b, and s is the rounded sum of s and e
    let r = match ezero(&[zq(s), zq(e), zneg(zq(a)), zneg(zq(b))]) {
        Some(x) => ok(x, || format!("a+b is not exactly {} + {}", hex(s), hex(e))),
        None => None,
    };
    let r = and(r, || if is_zero(s) { None } else { eq(e2(Op::Add, s, e), s, "fl(s+e) and s") });
    // the fast variant agrees
    let (x, y) = if le2(a) >= le2(b) { (a, b) } else { (b, a) };
    let e2_ = e2(Op::Sub, y, e2(Op::Sub, s, x));
    and(r, || ok(e2_ == e || (is_zero(e) && is_zero(e2_)), || format!("residuals {} and {}", hex(e), hex(e2_))))
}
fn two_prod(i: &In) -> Option<Result<(), String>> {
    let (a, b) = (i.a, i.b);
    if !fin(&[a, b]) || is_zero(a) || is_zero(b) || !roomy(le2(a) + le2(b)) {
        return None;
    }
    let p = e2(Op::Mul, a, b);
    let e = fma(a, b, neg(p));
    if !fin(&[p, e]) {
        return Some(Err(format!("product {} residual {}", hex(p), hex(e))));
    }
    let r = match ezero(&[zq(p), zq(e), zneg(zmul(&zq(a), &zq(b)))]) {
        Some(x) => ok(x, || format!("a*b is not exactly {} + {}", hex(p), hex(e))),
        None => None,
    };
    and(r, || eq(e2(Op::Add, p, e), p, "fl(p+e) and p"))
}
fn div_res(i: &In) -> Option<Result<(), String>> {
    let (a, b) = (i.a, i.b);
    if !fin(&[a, b]) || is_zero(a) || is_zero(b) || !roomy(le2(a) - 1) || !roomy(le2(a) - le2(b) - 1) || is_sub(b) {
        return None;
    }
    let q = e2(Op::Div, a, b);
    let t = fma(neg(q), b, a);
    if !fin(&[q, t]) {
        return Some(Err(format!("quotient {} residual {}", hex(q), hex(t))));
    }
    let x = ezero(&[zq(t), zmul(&zq(q), &zq(b)), zneg(zq(a))])?;
    let r = ok(x, || format!("residual of q = {} is not exactly {}", hex(q), hex(t)));
    // no neighbour of q is closer
    for d in [1, -1] {
        let n = step(q, d);
        let s = esum(&[zmul(&zq(n), &zq(b)), zneg(zq(a))])?;
        let w = esum(&[zq(t)])?;
        let lo = s.1.min(w.1);
        let (x, y) = (s.0.shl((s.1 - lo) as u64), w.0.shl((w.1 - lo) as u64));
        let m = |z: Z| if z.is_neg() { z.neg() } else { z };
        if m(x).cmp(&m(y)) == Ordering::Less {
            return Some(Err(format!("quotient {} is not the nearest", hex(q))));
        }
    }
    r
}
fn sqrt_res(i: &In) -> Option<Result<(), String>> {
    let x = abs(i.a);
    if !is_fin(x) || is_zero(x) || !roomy(le2(x) - 2) {
        return None;
    }
    let s = e1(Op::Sqrt, x);
    if !is_fin(s) {
        return Some(Err(format!("sqrt is {}", hex(s))));
    }
    let t = fma(neg(s), s, x);
    let z = ezero(&[zq(t), zmul(&zq(s), &zq(s)), zneg(zq(x))])?;
    let r = ok(z, || format!("residual of s = {} is not exactly {}", hex(s), hex(t)));
    // (2s-1)^2 <= 4x <= (2s+1)^2 in units of the last place
    let (m, q) = zq(s);
    let two = m.shl(1);
    let lo = two.sub_ui(1);
    let hi = two.add_ui(1);
    let x4 = zq(x);
    let f = |h: &Z| -> Option<bool> { esum(&[(x4.0.clone(), x4.1 + 2), zneg((h.mul(h), 2 * q))]).map(|v| v.0.is_neg()) };
    let below = f(&lo)?;
    let above = !f(&hi)? && !ezero(&[(x4.0.clone(), x4.1 + 2), zneg((hi.mul(&hi), 2 * q))])?;
    // a power of two has a closer lower neighbour, but the condition is necessary there, too
    and(r, || ok(!below && !above, || format!("sqrt {} is not the nearest", hex(s))))
}
fn rem_div(i: &In) -> Option<Result<(), String>> {
    let (a, b) = (i.a, i.b);
    if !fin(&[a, b]) || is_zero(b) {
        return None;
    }
    let m = e2(Op::Rem, a, b);
    if !is_fin(m) {
        return Some(Err(format!("a%b is {}", hex(m))));
    }
    let mut r = ok(nk(abs(m)) < nk(abs(b)), || format!("|a%b| = {} is not below |b|", hex(abs(m))));
    r = and(r, || ok(is_neg(m) == is_neg(a), || format!("a%b = {} has not the sign of a", hex(m))));
    r = and(r, || eq(e2(Op::Rem, m, b), m, "(a%b)%b and a%b"));
    if nk(abs(a)) < nk(abs(b)) {
        r = and(r, || eq(m, a, "a%b with |a|<|b| and a"));
    }
    let q = e2(Op::Div, a, b);
    if is_fin(q) && le2(q) < 236 && le2(a) > EMIN as i64 + 240 && !is_sub(b) {
        // the quotient may have been rounded up to the next integer
        let k = e1(Op::Trunc, q);
        let k1 = e2(Op::Sub, k, if is_neg(q) { neg(ONE) } else { ONE });
        let v = fma(neg(k), b, a);
        let w = fma(neg(k1), b, a);
        let z = |x: Bits| if is_zero(x) { ZERO } else { x };
        r = and(r, || ok(z(v) == z(m) || z(w) == z(m), || format!("a%b = {} but a-trunc(a/b)*b = {} (or {})", hex(m), hex(v), hex(w))));
    }
    r
}
fn ident(i: &In) -> Option<Result<(), String>> {
    let a = i.a;
    if !is_fin(a) {
        return None;
    }
    let mut r = eq(e2(Op::Mul, a, ONE), a, "a*1 and a");
    r = and(r, || eq(e2(Op::Div, a, ONE), a, "a/1 and a"));
    r = and(r, || eq(e2(Op::Sub, a, a), ZERO, "a-a and 0"));
    r = and(r, || eq(e2(Op::Add, a, NZERO), a, "a+(-0) and a"));
    r = and(r, || eq(e2(Op::Mul, a, neg(ONE)), neg(a), "a*-1 and -a"));
    r = and(r, || eq(fma(a, ONE, NZERO), a, "fma(a,1,-0) and a"));
    if !is_zero(a) {
        r = and(r, || eq(e2(Op::Div, a, a), ONE, "a/a and 1"));
        r = and(r, || eq(e2(Op::Add, a, ZERO), a, "a+0 and a"));
        r = and(r, || eq(e2(Op::Rem, a, a), if is_neg(a) { NZERO } else { ZERO }, "a%a and 0"));
        r = and(r, || eq(e1(Op::Recip, a), e2(Op::Div, ONE, a), "recip(a) and 1/a"));
    }
    and(r, || eq(e1(Op::Neg, e1(Op::Neg, a)), a, "-(-a) and a"))
}
fn fused(i: &In) -> Option<Result<(), String>> {
    let (a, b, c) = (i.a, i.b, i.c);
    let p = e2(Op::Mul, a, b);
    let mut r = None;
    if !is_zero(p) {
        r = and(r, || eq(fma(a, b, ZERO), p, "fma(a,b,0) and a*b"));
    }
    let s = e2(Op::Add, a, c);
    r = and(r, || eq(fma(a, ONE, c), s, "fma(a,1,c) and a+c"));
    r = and(r, || eq(e2(Op::SquareAdd, a, c), fma(a, a, c), "square_add(a,c) and fma(a,a,c)"));
    let q = e2(Op::Mul, a, a);
    r = and(r, || eq(e1(Op::Square, a), q, "square(a) and a*a"));
    r = and(r, || eq(e2(Op::Sos, a, ZERO), abs(q), "sum_of_squares(a,0) and a*a"));
    if not_nan(&[q, b]) {
        let t = e2(Op::Sos, a, b);
        r = and(r, || ok(le(q, t), || format!("sum_of_squares(a,b) = {} is below a*a", hex(t))));
        if is_zero(b) == is_zero(e2(Op::Mul, b, b)) && normal(e2(Op::Mul, b, b)) && ezero(&[zmul(&zq(b), &zq(b)), zneg(zq(e2(Op::Mul, b, b)))]) == Some(true) {
            // b*b is exact: one rounding only
            r = and(r, || eq(t, fma(a, a, e2(Op::Mul, b, b)), "sum_of_squares(a,b) and fma(a,a,b*b) with exact b*b"));
        }
    }
    r
}
fn square_root(i: &In) -> Option<Result<(), String>> {
    let a = i.a;
    if !is_fin(a) || is_zero(a) || is_sub(a) || !roomy(2 * le2(a)) {
        return None;
    }
    eq(e1(Op::Sqrt, e1(Op::Square, a)), abs(a), "sqrt(a*a) and |a|")
}
fn scaling(i: &In) -> Option<Result<(), String>> {
    let k = i.k % 200_000;
    let (a, b) = (i.a, i.b);
    let (a2, b2) = (scale(a, k)?, scale(b, k)?);
    let mut r = None;
    let s = e2(Op::Add, a, b);
    // a sum of normal numbers that is normal with room for its rounding
    if let (true, Some(w)) = (normal(s) && bexp(s) > 240, scale(s, k)) {
        if bexp(w) > 240 && bexp(w) < EXP_MAX - 2 {
            r = and(r, || eq(e2(Op::Add, a2, b2), w, "(a*2^k)+(b*2^k) and (a+b)*2^k"));
        }
    }
    let p = e2(Op::Mul, a, b);
    if let (true, Some(w)) = (normal(p) && bexp(p) > 1 && bexp(p) < EXP_MAX - 2, scale(p, k)) {
        if bexp(w) > 1 && bexp(w) < EXP_MAX - 2 {
            r = and(r, || eq(e2(Op::Mul, a2, b), w, "(a*2^k)*b and (a*b)*2^k"));
            r = and(r, || eq(e2(Op::Mul, a, b2), w, "a*(b*2^k) and (a*b)*2^k"));
        }
    }
    if !is_zero(b) {
        let q = e2(Op::Div, a, b);
        r = and(r, || eq(e2(Op::Div, a2, b2), q, "(a*2^k)/(b*2^k) and a/b"));
        if normal(q) && bexp(q) > 1 && bexp(q) < EXP_MAX - 2 {
            if let Some(w) = scale(q, k) {
                if bexp(w) > 1 && bexp(w) < EXP_MAX - 2 {
                    r = and(r, || eq(e2(Op::Div, a2, b), w, "(a*2^k)/b and (a/b)*2^k"));
                }
            }
        }
        let m = e2(Op::Rem, a, b);
        if let (true, Some(w)) = (normal(m), scale(m, k)) {
            r = and(r, || eq(e2(Op::Rem, a2, b2), w, "(a*2^k)%(b*2^k) and (a%b)*2^k"));
        }
    }
    if !is_neg(a) && !is_zero(a) {
        let t = e1(Op::Sqrt, a);
        if let (Some(x), Some(w)) = (scale(a, 2 * (k / 2)), scale(t, k / 2)) {
            r = and(r, || eq(e1(Op::Sqrt, x), w, "sqrt(a*4^j) and sqrt(a)*2^j"));
        }
    }
    r
}
fn pow2(i: &In) -> Option<Result<(), String>> {
    let a = i.a;
    let n = (i.k.unsigned_abs() % 262_000) as u32;
    let p = |op, n| exec(&Case { op, a: [a, ZERO, ZERO], n });
    let two = step(ONE, 0);
    let pw = |e: i64| gen::make(false, (e + BIAS as i64) as u32, (0, 0));
    let _ = two;
    let mut r = eq(p(Op::MulPow2, n), e2(Op::Mul, a, pw(n as i64)), "mul_pow2(a,n) and a*2^n");
    r = and(r, || eq(p(Op::DivPow2, n), e2(Op::Div, a, pw(n as i64)), "div_pow2(a,n) and a/2^n"));
    r = and(r, || eq(p(Op::DivPow2, n), e2(Op::Mul, a, pw(-(n as i64))), "div_pow2(a,n) and a*2^-n"));
    r = and(r, || eq(e1(Op::Mul2, a), e2(Op::Add, a, a), "mul2(a) and a+a"));
    r = and(r, || eq(e1(Op::Div2, a), e2(Op::Mul, a, pw(-1)), "div2(a) and a*0.5"));
    let h = n / 2;
    let x = p(Op::MulPow2, h);
    and(r, || {
        let y = exec(&Case { op: Op::MulPow2, a: [x, ZERO, ZERO], n: n - h });
        eq(y, p(Op::MulPow2, n), "mul_pow2 in two steps and at once")
    })
}
fn parts(i: &In) -> Option<Result<(), String>> {
    let a = i.a;
    if !is_fin(a) {
        return None;
    }
    let (t, f) = (e1(Op::Trunc, a), e1(Op::Fract, a));
    let (fl, ce) = (e1(Op::Floor, a), e1(Op::Ceil, a));
    let z = |x: Bits| if is_zero(x) { ZERO } else { x };
    let mut r = ok(z(e2(Op::Add, t, f)) == z(a), || format!("trunc {} + fract {} is not a", hex(t), hex(f)));
    r = and(r, || ok(nk(abs(f)) < nk(ONE), || format!("|fract| = {} >= 1", hex(abs(f)))));
    r = and(r, || ok(le(fl, a) && le(a, ce), || format!("floor {} ceil {}", hex(fl), hex(ce))));
    r = and(r, || {
        let d = e2(Op::Sub, ce, fl);
        let int = is_zero(f);
        ok(if int { is_zero(d) } else { d == ONE || le2(a) < -236 }, || format!("ceil-floor = {}", hex(d)))
    });
    r = and(r, || eq(e1(Op::Split0, a), t, "split.0 and trunc"));
    r = and(r, || ok(z(e1(Op::Split1, a)) == z(f), || "split.1 and fract".into()));
    for op in [Op::Trunc, Op::Floor, Op::Ceil, Op::Round, Op::RoundEven] {
        let v = e1(op, a);
        r = and(r, || ok(v == fl || v == ce || (is_zero(v) && (is_zero(fl) || is_zero(ce))), || format!("{} = {} is neither floor nor ceil", op.name(), hex(v))));
        r = and(r, || eq(e1(op, v), v, "rounding twice and once"));
        r = and(r, || ok(is_zero(e2(Op::Rem, v, ONE)), || format!("{} = {} is no integer", op.name(), hex(v))));
    }
    r = and(r, || ok(z(e2(Op::Rem, a, ONE)) == z(f), || "a%1 and fract".into()));
    r
}
fn extremes(i: &In) -> Option<Result<(), String>> {
    let (a, b) = (i.a, i.b);
    if !not_nan(&[a, b]) {
        return None;
    }
    let (x, n) = (e2(Op::Max, a, b), e2(Op::Min, a, b));
    let r = ok((same(x, a) || same(x, b)) && (same(n, a) || same(n, b)), || format!("max {} min {}", hex(x), hex(n)));
    // together they are the operands
    and(r, || {
        let z = |x: Bits| if is_zero(x) { ZERO } else { x };
        let (a, b, x, n) = (z(a), z(b), z(x), z(n));
        ok((x == a && n == b) || (x == b && n == a), || format!("max {} and min {} are not the two operands", hex(x), hex(n)))
    })
}
fn unit(i: &In) -> Option<Result<(), String>> {
    let a = abs(i.a);
    if !is_fin(a) || a == MAXF {
        return None;
    }
    let u = e1(Op::Ulp, a);
    let n = step(a, 1);
    let r = eq(e2(Op::Add, a, u), n, "a+ulp(a) and the next value");
    and(r, || eq(e2(Op::Sub, n, a), u, "next(a)-a and ulp(a)"))
}
fn text(i: &In) -> Option<Result<(), String>> {
    let a = i.a;
    if !is_fin(a) || (!is_zero(a) && le2(a).abs() > 1200) {
        return None;
    }
    let x = f(a);
    let mut r = None;
    for t in [format!("{x}"), format!("{x:e}"), format!("{x:E}"), format!("{x:.72e}"), format!("{x:.75e}"), format!("{x:+}")] {
        let g = f256::from_str(&t).map(|v| v.to_bits());
        r = and(r, || ok(g.as_ref().is_ok_and(|g| *g == a), || format!("printed {t} which parses to {:?}", g.clone().map(hex))));
    }
    r
}
fn recode(i: &In) -> Option<Result<(), String>> {
    let a = i.a;
    if !is_fin(a) {
        return None;
    }
    let (s, t, c) = f(a).as_sign_exp_signif();
    let r = eq(f256::from_sign_exp_signif(s, t, c).to_bits(), a, "rebuilt from its parts and a");
    and(r, || eq(f256::from_be_bytes(f(a).to_be_bytes()).to_bits(), a, "through bytes and a"))
}
/// (a+b)^2 style: bounds that follow from a single rounding.
fn bounds(i: &In) -> Option<Result<(), String>> {
    let (a, b) = (i.a, i.b);
    if !fin(&[a, b]) {
        return None;
    }
    let s = e2(Op::Add, a, b);
    let mut r = None;
    let big = if nk(abs(a)) >= nk(abs(b)) { a } else { b };
    if is_neg(a) != is_neg(b) {
        r = and(r, || ok(le(abs(s), abs(big)), || format!("|a+b| = {} exceeds both", hex(abs(s)))));
    } else {
        r = and(r, || ok(le(abs(big), abs(s)), || format!("|a+b| = {} is below one of them", hex(abs(s)))));
        let d = e1(Op::Mul2, abs(big));
        r = and(r, || ok(le(abs(s), d), || format!("|a+b| = {} exceeds twice the larger", hex(abs(s)))));
    }
    let h = e2(Op::Div, abs(a), abs(b));
    if !is_zero(b) && le(abs(a), abs(b)) {
        r = and(r, || ok(le(h, ONE), || format!("|a/b| = {} > 1", hex(h))));
    }
    if le(abs(b), ONE) {
        let p = abs(e2(Op::Mul, a, b));
        r = and(r, || ok(le(p, abs(a)), || format!("|a*b| = {} > |a|", hex(p))));
    }
    // the hypotenuse is not shorter than a leg
    let t = e1(Op::Sqrt, e2(Op::Sos, a, b));
    if roomy(2 * le2(big)) {
        r = and(r, || ok(le(abs(big), t), || format!("sqrt(a^2+b^2) = {} is below |a| or |b|", hex(t))));
    }
    r
}
pub const LAWS: &[(&str, Law, u64)] = &[
    ("commutative", comm, 4),
    ("sign-of-sum", sign_add, 3),
    ("sign-of-product", sign_mul, 3),
    ("sign-of-remainder", sign_rem, 2),
    ("sign-of-fma", sign_fma, 3),
    ("sign-of-squares", sign_even, 2),
    ("odd-functions", sign_round, 2),
    ("monotonic", mono, 3),
    ("sterbenz", sterbenz, 4),
    ("two-sum", two_sum, 8),
    ("two-product", two_prod, 8),
    ("division-residual", div_res, 5),
    ("sqrt-residual", sqrt_res, 4),
    ("remainder-division", rem_div, 5),
    ("identities", ident, 2),
    ("fused", fused, 5),
    ("sqrt-of-square", square_root, 2),
    ("scaling", scaling, 5),
    ("powers-of-two", pow2, 3),
    ("integral-parts", parts, 4),
    ("max-min", extremes, 1),
    ("ulp", unit, 2),
    ("print-parse", text, 1),
    ("encoding", recode, 2),
    ("bounds", bounds, 3),
];
pub fn judge_law(l: &mut Local, idx: usize, i: &In) {
    let (name, law, _) = LAWS[idx];
    let what = || format!("law {name} {} {} {} {}", hex(i.a), hex(i.b), hex(i.c), i.k);
    l.enter(what);
    let g = guard(|| law(i));
    l.leave();
    match g {
        Ok(None) => {
            l.trivial += 1;
        }
        Ok(Some(v)) => {
            let h = |b: Bits| hash64(&[b.0 as u64, (b.0 >> 64) as u64, b.1 as u64, (b.1 >> 64) as u64]);
            l.note(hash64(&[29, idx as u64, h(i.a), h(i.b), h(i.c), i.k as u64]), true);
            l.tag(name);
            match v {
                Ok(()) => l.sample(|| format!("[{}] {}", "law", what())),
                Err(d) => l.violate(what(), d),
            }
        }
        Err(m) => l.violate(what(), format!("panicked: {m}")),
    }
}
fn pick_law(r: &mut Rng) -> usize {
    let t: u64 = LAWS.iter().map(|l| l.2).sum();
    let mut x = r.below(t);
    for (i, l) in LAWS.iter().enumerate() {
        if x < l.2 {
            return i;
        }
        x -= l.2;
    }
    0
}
const N: usize = 8;
/// One straight-line program over eight registers; laws are judged on what they hold.
#[derive(Clone, Copy, PartialEq)]
enum Range {
    Mid,
    Wide,
    /// subnormals and the lowest few hundred binary orders of normal numbers
    Low,
}
/// A value whose biased exponent is at most about 2 * 236.
fn low(r: &mut Rng) -> Bits {
    let e = match r.below(8) {
        0 => 0,
        1 => r.below(4) as u32,
        2 => 232 + r.below(10) as u32,
        _ => r.below(500) as u32,
    };
    let m = match r.below(4) {
        0 => {
            // few bits at either end
            let k = r.below(236) as u32;
            let b = r.u128() >> (64 + r.below(60));
            if k < 128 { (0, b << k) } else { ((b << (k - 128)) & FRACM, 0) }
        }
        1 => {
            let z = gen::norm(r, 0);
            (z.0 & FRACM, 0)
        }
        _ => {
            let z = gen::norm(r, 0);
            (z.0 & FRACM, z.1)
        }
    };
    gen::make(r.chance(1, 2), e, m)
}
/// A neighbour at a distance of any number of leading bits.
fn beside(r: &mut Rng, a: Bits) -> Bits {
    let n = r.below(238) as u32;
    let d = match r.below(3) {
        0 => (0, 0),
        1 => (r.u128(), r.u128()),
        _ => (u128::MAX, u128::MAX),
    };
    // an n-bit number of units
    let (mut hi, mut lo) = (d.0 >> 1 | 1 << 127, d.1);
    let sh = 256 - n.max(1);
    if sh >= 128 {
        lo = hi >> (sh - 128);
        hi = 0;
    } else {
        lo = lo >> sh | hi << (128 - sh);
        hi >>= sh;
    }
    let m = abs(a);
    let v = if r.chance(1, 2) {
        let (l, c) = m.1.overflowing_add(lo);
        (m.0.wrapping_add(hi).wrapping_add(c as u128), l)
    } else {
        let (l, c) = m.1.overflowing_sub(lo);
        (m.0.wrapping_sub(hi).wrapping_sub(c as u128), l)
    };
    let v = abs(v);
    if !is_fin(v) {
        return a;
    }
    if is_neg(a) { neg(v) } else { v }
}
fn program(l: &mut Local, range: Range, len: usize) {
    let wide = range != Range::Mid;
    let mut reg = [ZERO; N];
    let mut depth = [0u32; N];
    let seedv = |r: &mut Rng| {
        if range == Range::Low {
            if r.chance(1, 8) { gen::small_int(r) } else { low(r) }
        } else if wide {
            gen::finite(r)
        } else {
            match r.below(4) {
                0 => gen::small_int(r),
                1 => hard::at(r, &Z::ui(3), 5).unwrap_or(ONE),
                _ => {
                    let e = r.range(-150, 150);
                    gen::norm(r, e)
                }
            }
        }
    };
    for x in &mut reg {
        *x = seedv(&mut l.r);
    }
    let mut deepest = 0;
    for _ in 0..len {
        let r = &mut l.r;
        let (i, j, k) = (r.below(N as u64) as usize, r.below(N as u64) as usize, r.below(N as u64) as usize);
        let o = r.below(N as u64) as usize;
        let (a, mut b, mut c) = (reg[i], reg[j], reg[k]);
        // sometimes a close relative of a register
        if r.chance(1, 4) {
            b = if range == Range::Low { beside(r, a) } else { gen::related(r, a) };
        }
        if r.chance(1, 6) {
            c = gen::related(r, b);
        }
        if r.chance(1, 12) {
            c = neg(e2(Op::Mul, a, b));
        }
        let kk = match r.below(4) {
            0 => r.range(1, 5),
            1 => 1 << r.below(40),
            2 => r.range(-700, 700),
            _ => r.range(-200_000, 200_000),
        };
        let inp = In { a, b, c, k: kk };
        let law = pick_law(r);
        judge_law(l, law, &inp);
        // the next value of a register
        let r = &mut l.r;
        let op = r.pick(&[
            Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem, Op::MulAdd, Op::Square, Op::SquareAdd, Op::Sos, Op::Sqrt, Op::Recip, Op::Trunc,
            Op::Fract, Op::Round, Op::MulPow2, Op::DivPow2, Op::Neg, Op::Ulp, Op::Add, Op::Sub, Op::Mul, Op::Div, Op::MulAdd,
        ]);
        // products and roots leave the low range at once
        let op = if range == Range::Low && r.chance(3, 4) { r.pick(&[Op::Add, Op::Sub, Op::Rem, Op::MulPow2, Op::DivPow2]) } else { op };
        let n = if range == Range::Low { r.below(240) } else { r.below(700) };
        let case = Case { op, a: [a, b, c], n: n as u32 };
        let Some(v) = l.exec(&case) else { continue };
        let r = &mut l.r;
        let lost = !is_fin(v)
            || (range == Range::Low && !is_zero(v) && bexp(v) > 1000 && r.chance(3, 4))
            || (is_zero(v) && r.chance(7, 8)) || (!wide && !is_zero(v) && gen::lead_exp(v).abs() > 2000);
        if lost {
            reg[o] = seedv(r);
            depth[o] = 0;
        } else {
            reg[o] = v;
            depth[o] = 1 + depth[i].max(if op.arity() > 1 { depth[j] } else { 0 }).max(if op.arity() > 2 { depth[k] } else { 0 });
            deepest = deepest.max(depth[o]);
        }
    }
    let t = match deepest {
        0..=7 => "chains up to 7 operations deep",
        8..=15 => "chains 8 to 15 operations deep",
        16..=31 => "chains 16 to 31 operations deep",
        _ => "chains of 32 and more operations",
    };
    l.tag(t);
}
fn c29_mid(l: &mut Local, _: u64) {
    program(l, Range::Mid, 160);
}
fn c29_wide(l: &mut Local, _: u64) {
    program(l, Range::Wide, 160);
}
fn c29_low(l: &mut Local, _: u64) {
    program(l, Range::Low, 160);
}
/// Laws on fresh operands next to each other in the lowest binary orders.
fn c29_fresh_low(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let a = low(r);
    let b = if r.chance(4, 5) { beside(r, a) } else { low(r) };
    let c = gen::related(r, b);
    let k = r.range(-700, 700);
    let law = pick_law(r);
    l.tag("operands in the lowest binary orders");
    judge_law(l, law, &In { a, b, c, k });
}
/// Laws on fresh hostile operands.
fn c29_fresh(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let (a, b) = crate::arith::pair(r);
    let c = gen::related(r, b);
    let k = r.range(-700, 700);
    let law = pick_law(r);
    judge_law(l, law, &In { a, b, c, k });
}
pub fn replay(l: &mut Local, line: &str) -> bool {
    let v: Vec<&str> = line.split_whitespace().collect();
    if v.len() != 6 || v[0] != "law" {
        return false;
    }
    let Some(idx) = LAWS.iter().position(|x| x.0 == v[1]) else { return false };
    match (unhex(v[2]), unhex(v[3]), unhex(v[4]), v[5].parse()) {
        (Some(a), Some(b), Some(c), Ok(k)) => judge_law(l, idx, &In { a, b, c, k }),
        _ => return false,
    }
    true
}
const R29: &str = "straight-line programs of 160 operations over eight registers (operands are earlier results or their close relatives), 25 families of exact laws judged along the way by comparing observed results with each other (exact integers for residuals); trivial = the law does not apply to the operands; distinct by hash of (law, operands)";
pub fn streams(p: &str) -> Option<(Vec<Stream>, &'static str)> {
    let s = |name, quick, thorough, f| Stream { name, quick, thorough, f };
    (p == "C29").then(|| {
        (
            vec![
                s("programs", 20_000, 900_000, c29_mid as StreamFn),
                s("programs-wide", 20_000, 900_000, c29_wide),
                s("programs-low", 10_000, 400_000, c29_low),
                s("fresh-operands", 1_500_000, 60_000_000, c29_fresh),
                s("fresh-low", 3_000_000, 80_000_000, c29_fresh_low),
            ],
            R29,
        )
    })
}
