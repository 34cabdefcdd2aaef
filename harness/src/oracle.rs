//! Expected results, computed with MPFR in exact or wide arithmetic and rounded once.
#![allow(dead_code)]
use crate::ffi::*;
use crate::ops::*;

/// pi rounded to 237 bits
pub const PI: Bits = (0x40000921fb54442d18469898cc51701b, 0x839a252049c1114cf98e804177d4c762);
pub const WORK: u32 = 237 + 83;

pub fn to_fr(b: Bits, r: &mut Fr) {
    if is_nan(b) {
        r.set_nan();
    } else if is_inf(b) {
        r.set_inf(is_neg(b));
    } else if is_zero(b) {
        r.set_zero(is_neg(b));
    } else {
        let (m, q) = decode(b);
        r.set_bits(is_neg(b), m, q as i64);
    }
}
/// r has 237 bits and lies in the f256 range (after finalize).
pub fn from_fr(r: &Fr) -> Bits {
    if r.is_nan() {
        return NAN;
    }
    let s = if r.is_neg() { SIGN } else { 0 };
    if r.is_inf() {
        return (EXPM | s, 0);
    }
    if r.is_zero() {
        return (s, 0);
    }
    let l = r.limbs4();
    let lo = (l[1] as u128) << 64 | l[0] as u128;
    let hi = (l[3] as u128) << 64 | l[2] as u128;
    // 237-bit significand m (top bit set)
    let mlo = lo >> 19 | hi << 109;
    let mhi = hi >> 19;
    let q = r.exp2() - 237;
    assert!(lo & ((1 << 19) - 1) == 0);
    if q >= QMIN as i64 {
        let be = (q + 236 + BIAS as i64) as u128;
        assert!(be < EXP_MAX as u128);
        (s | be << 108 | (mhi & FRACM), mlo)
    } else {
        let sh = (QMIN as i64 - q) as u32;
        assert!(sh < 237, "{sh}");
        let (h, lw, lost) = if sh >= 128 {
            let k = sh - 128;
            let l2 = if k == 0 { mhi } else { mhi >> k };
            (0, l2, mlo != 0 || (k > 0 && mhi << (128 - k) != 0))
        } else if sh == 0 {
            (mhi, mlo, false)
        } else {
            (mhi >> sh, mlo >> sh | mhi << (128 - sh), mlo << (128 - sh) != 0)
        };
        assert!(!lost, "not a subnormal");
        (s | h, lw)
    }
}
/// Round a 237-bit result with its ternary value into the f256 range.
pub fn finalize(r: &mut Fr, t: i32) -> (Bits, i32) {
    f256_range();
    let t = r.check_range(t);
    let t = r.subnormalize(t);
    let b = from_fr(r);
    wide_range();
    (b, t)
}
/// What is expected of an operation's result.
#[derive(Clone, Debug)]
pub enum Want {
    /// These bits (any NaN if NaN), and whether the exact value was inexact.
    Is(Bits, bool),
    /// Either of two (sign of zero left open by the specification).
    Either(Bits, Bits),
    /// Within so many ulp of the exact value; correctly rounded value for display.
    Near { err: f64, tol: f64, rounded: Bits },
}
pub struct Oracle {
    pub x: Fr,
    pub y: Fr,
    pub z: Fr,
    pub r: Fr,
    pub w: Fr,
    pub w2: Fr,
    pub w3: Fr,
    pub d1: Fr,
    pub d2: Fr,
    pi: Fr,
    pub last_err: f64,
}
impl Oracle {
    pub fn new() -> Oracle {
        wide_range();
        let mut pi = Fr::new(640);
        pi.pi(RNDN);
        Oracle {
            x: Fr::new(237),
            y: Fr::new(237),
            z: Fr::new(237),
            r: Fr::new(237),
            w: Fr::new(WORK),
            w2: Fr::new(WORK),
            w3: Fr::new(WORK),
            d1: Fr::new(474),
            d2: Fr::new(474),
            pi,
            last_err: 0.0,
        }
    }
    /// Tolerance in ulp of the functions that are not specified as correctly rounded.
    pub fn tol(op: Op) -> f64 {
        match op {
            Op::Tan => 2.0,
            Op::Log2 | Op::Log10 | Op::Atan2 => 1.0,
            // the crate's 180/pi is off by 0.57 ulp at worst
            Op::ToDeg => 1.1,
            Op::ToRad => 0.5 + 1.0 / 1024.0,
            _ => 0.51,
        }
    }
    /// sin, cos, asin and atan return the (reduced) argument itself when it is small, up to
    /// an argument whose cubic term amounts to half an ulp.
    fn tol_at(op: Op, rounded: Bits) -> f64 {
        let e = bexp(rounded) as i32 - BIAS;
        match op {
            Op::Sin | Op::Cos | Op::SinCos0 | Op::SinCos1 | Op::Asin | Op::Atan if (-124..-116).contains(&e) => 1.0,
            _ => Oracle::tol(op),
        }
    }
    pub fn expect(&mut self, c: &Case, got: Bits) -> Want {
        let a = c.a;
        to_fr(a[0], &mut self.x);
        if c.op.arity() > 1 {
            to_fr(a[1], &mut self.y);
        }
        if c.op.arity() > 2 {
            to_fr(a[2], &mut self.z);
        }
        match c.op {
            Op::Fract | Op::Split1 if !is_fin(a[0]) => {
                // f64: fract(inf) = inf - inf
                return Want::Is(NAN, false);
            }
            Op::Neg => return Want::Is(neg(a[0]), false),
            Op::Abs => return Want::Is(abs(a[0]), false),
            Op::Max | Op::Min => {
                if is_nan(a[0]) {
                    return Want::Is(a[1], false);
                }
                if is_nan(a[1]) {
                    return Want::Is(a[0], false);
                }
                let o = self.x.cmp(&self.y);
                if o == 0 {
                    return Want::Either(a[0], a[1]);
                }
                return Want::Is(if (o > 0) == (c.op == Op::Max) { a[0] } else { a[1] }, false);
            }
            Op::Clamp => {
                // min <= max and both not NaN (the caller's obligation)
                if is_nan(a[0]) {
                    return Want::Is(NAN, false);
                }
                if self.x.cmp(&self.y) < 0 {
                    return Want::Is(a[1], false);
                }
                if self.x.cmp(&self.z) > 0 {
                    return Want::Is(a[2], false);
                }
                return Want::Is(a[0], false);
            }
            Op::Ulp if !is_fin(a[0]) => return Want::Is(NAN, false),
            _ => {}
        }
        let Some(t) = Oracle::core(c, &mut self.r, &self.x, &mut self.y, &self.z, &mut self.d1, &mut self.d2, RNDN) else {
            return self.approx(c, got);
        };
        if (c.op == Op::Fract || c.op == Op::Split1) && self.r.is_zero() {
            // x - trunc(x) = +0 in f64 arithmetic; the sign-preserving zero is as good
            return Want::Either(ZERO, NZERO);
        }
        let (b, t) = finalize(&mut self.r, t);
        Want::Is(b, t != 0)
    }
    /// The specified value of an exactly rounded operation, rounded to dst's precision.
    #[allow(clippy::too_many_arguments)]
    fn core(c: &Case, dst: &mut Fr, x: &Fr, y: &mut Fr, z: &Fr, d1: &mut Fr, d2: &mut Fr, rnd: i32) -> Option<i32> {
        Some(match c.op {
            Op::Add => dst.add(x, y, rnd),
            Op::Sub => dst.sub(x, y, rnd),
            Op::Mul => dst.mul(x, y, rnd),
            Op::Div => dst.div(x, y, rnd),
            Op::Rem => dst.fmod(x, y, rnd),
            Op::MulAdd => dst.fma(x, y, z, rnd),
            Op::Square => dst.mul(x, x, rnd),
            Op::SquareAdd => dst.fma(x, x, y, rnd),
            Op::Sos => {
                let e1 = d1.mul(x, x, rnd);
                let e2 = d2.mul(y, y, rnd);
                assert!(e1 == 0 && e2 == 0);
                dst.add(d1, d2, rnd)
            }
            Op::Sqrt => dst.sqrt(x, rnd),
            Op::Recip => {
                y.set_ui(1, 0);
                dst.div(y, x, rnd)
            }
            Op::Mul2 => dst.mul_2si(x, 1, rnd),
            Op::Div2 => dst.mul_2si(x, -1, rnd),
            Op::MulPow2 => dst.mul_2si(x, c.n as i64, rnd),
            Op::DivPow2 => dst.mul_2si(x, -(c.n as i64), rnd),
            Op::Trunc | Op::Split0 => dst.rint(x, RNDZ),
            Op::Ceil => dst.rint(x, RNDU),
            Op::Floor => dst.rint(x, RNDD),
            Op::Round => dst.round_away(x),
            Op::RoundEven => dst.roundeven(x),
            Op::Fract | Op::Split1 => {
                y.rint(x, RNDZ);
                dst.sub(x, y, rnd)
            }
            Op::Ulp => {
                let (_, q) = if x.is_zero() { ([0; 4], QMIN) } else { decode(from_fr(x)) };
                dst.set_ui(1, q as i64)
            }
            _ => return None,
        })
    }
    /// How the exact value lies between its neighbours (for coverage accounting):
    /// 0 exact, 1 exact tie, 2 within 2^-60 ulp of a tie, 3 within 2^-60 ulp of a
    /// representable value, 4 anything else; +8 if rounded up in magnitude.
    pub fn situation(&mut self, c: &Case, got: Bits) -> u8 {
        if !is_fin(got) {
            return 5;
        }
        to_fr(c.a[0], &mut self.x);
        if c.op.arity() > 1 {
            to_fr(c.a[1], &mut self.y);
        }
        if c.op.arity() > 2 {
            to_fr(c.a[2], &mut self.z);
        }
        let t = match Oracle::core(c, &mut self.w, &self.x, &mut self.y, &self.z, &mut self.d1, &mut self.d2, RNDZ) {
            Some(t) => t,
            None => {
                self.value(c.op);
                1
            }
        };
        to_fr(got, &mut self.r);
        let q = decode(got).1;
        self.w2.sub(&self.r, &self.w, RNDN);
        let up = if self.w2.is_zero() { 0 } else { 8 * (self.w2.is_neg() == self.r.is_neg()) as u8 };
        self.w2.shift(-q as i64);
        let d = self.w2.get_d().abs();
        if d == 0.0 && t == 0 {
            return 0;
        }
        if d < 2f64.powi(-60) {
            return 3 + up;
        }
        self.d1.set_ui(1, -1);
        self.w3.abs(&self.w2, RNDN);
        self.w3.sub_in(&self.d1);
        let h = self.w3.get_d().abs();
        if h == 0.0 && t == 0 {
            1 + up
        } else if h < 2f64.powi(-60) {
            2 + up
        } else {
            4 + up
        }
    }
    fn approx(&mut self, c: &Case, got: Bits) -> Want {
        let a = c.a;
        let x = a[0];
        // IEEE/f64 results for special operands, this crate's documented choice for logs
        let one = ONE;
        let sp: Option<Bits> = match c.op {
            Op::Sin | Op::Tan | Op::SinCos0 => {
                if !is_fin(x) {
                    Some(NAN)
                } else if is_zero(x) {
                    Some(x)
                } else {
                    None
                }
            }
            Op::Cos | Op::SinCos1 => {
                if !is_fin(x) {
                    Some(NAN)
                } else if is_zero(x) {
                    Some(one)
                } else {
                    None
                }
            }
            Op::Asin => {
                if is_nan(x) || abs(x) > one {
                    Some(NAN)
                } else if is_zero(x) {
                    Some(x)
                } else {
                    None
                }
            }
            Op::Acos => {
                if is_nan(x) || abs(x) > one {
                    Some(NAN)
                } else {
                    None
                }
            }
            Op::Atan => {
                if is_nan(x) {
                    Some(NAN)
                } else if is_zero(x) {
                    Some(x)
                } else {
                    None
                }
            }
            Op::Atan2 => {
                if is_nan(x) || is_nan(a[1]) {
                    Some(NAN)
                } else {
                    None
                }
            }
            Op::Ln | Op::Log2 | Op::Log10 => {
                if !is_fin(x) || is_zero(x) || is_neg(x) {
                    Some(NAN)
                } else {
                    None
                }
            }
            Op::ToDeg | Op::ToRad => {
                if !is_fin(x) || is_zero(x) {
                    Some(x)
                } else {
                    None
                }
            }
            _ => unreachable!(),
        };
        if let Some(b) = sp {
            return Want::Is(b, false);
        }
        if c.op == Op::Atan2 && is_zero(x) {
            // documented: 0 for x = y = 0; the sign of y = -0 is not mentioned
            let w = if is_neg(a[1]) && !is_zero(a[1]) { crate::oracle::PI } else { ZERO };
            return Want::Either(w, neg(w));
        }
        let t = self.value(c.op);
        if self.w.is_zero() {
            // exact zero: ln 1, acos 1, atan2(+-0, +)
            return Want::Is(if self.w.is_neg() { NZERO } else { ZERO }, false);
        }
        let (err, rounded) = self.err_ulp(got);
        self.last_err = err;
        if t == 0 {
            to_fr(rounded, &mut self.r);
            if self.r.cmp(&self.w) == 0 {
                // the exact value is representable
                return Want::Is(rounded, false);
            }
        }
        Want::Near { err, tol: Oracle::tol_at(c.op, rounded), rounded }
    }
    /// Exact function value at self.x (self.y) into self.w with WORK bits.
    fn value(&mut self, op: Op) -> i32 {
        match op {
            Op::Sin | Op::SinCos0 => self.w.sin(&self.x, RNDN),
            Op::Cos | Op::SinCos1 => self.w.cos(&self.x, RNDN),
            Op::Tan => self.w.tan(&self.x, RNDN),
            Op::Asin => self.w.asin(&self.x, RNDN),
            Op::Acos => self.w.acos(&self.x, RNDN),
            Op::Atan => self.w.atan(&self.x, RNDN),
            Op::Atan2 => self.w.atan2(&self.x, &self.y, RNDN),
            Op::Ln => self.w.log(&self.x, RNDN),
            Op::Log2 => self.w.log2(&self.x, RNDN),
            Op::Log10 => self.w.log10(&self.x, RNDN),
            Op::ToDeg => {
                self.w2.set_ui(180, 0);
                self.w3.div(&self.w2, &self.pi, RNDN);
                self.w.mul(&self.w3, &self.x, RNDN);
                1
            }
            Op::ToRad => {
                self.w2.set_ui(180, 0);
                self.w3.div(&self.pi, &self.w2, RNDN);
                self.w.mul(&self.w3, &self.x, RNDN);
                1
            }
            _ => unreachable!(),
        }
    }
    /// |got - w| in units of the last place of the correctly rounded value of w.
    pub fn err_ulp(&mut self, got: Bits) -> (f64, Bits) {
        let t = self.r.set(&self.w, RNDN);
        let (rounded, _) = finalize(&mut self.r, t);
        if got == rounded {
            // still measure
        }
        if is_nan(got) {
            return (f64::INFINITY, rounded);
        }
        if is_inf(got) || is_inf(rounded) {
            return (if got == rounded { 0.0 } else { f64::INFINITY }, rounded);
        }
        if is_neg(got) != self.w.is_neg() {
            return (f64::INFINITY, rounded);
        }
        let q = if is_zero(rounded) { QMIN as i64 } else { decode(rounded).1 as i64 };
        to_fr(got, &mut self.r);
        self.w2.sub(&self.r, &self.w, RNDN);
        self.w2.shift(-q);
        (self.w2.get_d().abs(), rounded)
    }
    pub fn check(&mut self, c: &Case, got: Bits) -> Result<Verdict, String> {
        match self.expect(c, got) {
            Want::Is(b, inexact) => {
                if same(b, got) {
                    Ok(Verdict { inexact, err: 0.0 })
                } else {
                    Err(format!("expected {} got {}", hex(b), hex(got)))
                }
            }
            Want::Either(b, d) => {
                if same(b, got) || same(d, got) {
                    Ok(Verdict { inexact: false, err: 0.0 })
                } else {
                    Err(format!("expected {} or {} got {}", hex(b), hex(d), hex(got)))
                }
            }
            Want::Near { err, tol, rounded } => {
                if err <= tol {
                    Ok(Verdict { inexact: true, err })
                } else {
                    Err(format!("expected {} (tolerance {tol} ulp) got {} (error {err:.6} ulp)", hex(rounded), hex(got)))
                }
            }
        }
    }
}
#[derive(Clone, Copy)]
pub struct Verdict {
    pub inexact: bool,
    pub err: f64,
}
