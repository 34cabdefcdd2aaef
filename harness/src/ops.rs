//! The operations under observation, executed on bit patterns.
#![allow(dead_code)]
use f256::f256;

pub type Bits = (u128, u128);
pub const SIGN: u128 = 1 << 127;
pub const ABS: u128 = SIGN - 1;
pub const EXPM: u128 = 0x7ffff << 108;
pub const FRACM: u128 = (1 << 108) - 1;
pub const EXP_MAX: u32 = 0x7ffff;
pub const BIAS: i32 = 262143;
pub const P: i32 = 237;
/// Exponent of the least significant bit of subnormals.
pub const QMIN: i32 = -262378;
pub const EMIN: i32 = -262142;
pub const EMAX: i32 = 262143;
pub const NAN: Bits = (0x7ffff8 << 104, 0);
pub const INF: Bits = (EXPM, 0);
pub const NINF: Bits = (EXPM | SIGN, 0);
pub const ZERO: Bits = (0, 0);
pub const NZERO: Bits = (SIGN, 0);
pub const ONE: Bits = ((BIAS as u128) << 108, 0);
pub const MAXF: Bits = (((EXP_MAX - 1) as u128) << 108 | FRACM, u128::MAX);

pub fn bexp(b: Bits) -> u32 {
    ((b.0 & EXPM) >> 108) as u32
}
pub fn is_nan(b: Bits) -> bool {
    (b.0 & EXPM) == EXPM && ((b.0 & FRACM) | b.1) != 0
}
pub fn is_inf(b: Bits) -> bool {
    (b.0 & ABS) == EXPM && b.1 == 0
}
pub fn is_fin(b: Bits) -> bool {
    (b.0 & EXPM) != EXPM
}
pub fn is_zero(b: Bits) -> bool {
    (b.0 & ABS) == 0 && b.1 == 0
}
pub fn is_neg(b: Bits) -> bool {
    b.0 & SIGN != 0
}
pub fn is_sub(b: Bits) -> bool {
    bexp(b) == 0 && !is_zero(b)
}
pub fn neg(b: Bits) -> Bits {
    (b.0 ^ SIGN, b.1)
}
pub fn abs(b: Bits) -> Bits {
    (b.0 & ABS, b.1)
}
/// (integral significand as limbs little endian, quantum exponent); finite only
pub fn decode(b: Bits) -> ([u64; 4], i32) {
    let e = bexp(b);
    let mut hi = b.0 & FRACM;
    if e > 0 {
        hi |= 1 << 108;
    }
    let q = if e == 0 { QMIN } else { e as i32 - BIAS - 236 };
    ([b.1 as u64, (b.1 >> 64) as u64, hi as u64, (hi >> 64) as u64], q)
}
/// Next magnitude up/down by n units in the last place of the encoding
/// (sign-magnitude integer arithmetic on the encoding; saturating).
pub fn step(b: Bits, n: i64) -> Bits {
    let s = b.0 & SIGN;
    let (mut h, mut l) = (b.0 & ABS, b.1);
    if n >= 0 {
        let (x, c) = l.overflowing_add(n as u128);
        l = x;
        h = (h + c as u128).min(EXPM);
        if h == EXPM {
            l = 0;
        }
    } else {
        let k = n.unsigned_abs() as u128;
        if h == 0 && l < k {
            return (s, 0);
        }
        let (x, c) = l.overflowing_sub(k);
        l = x;
        h -= c as u128;
    }
    (h | s, l)
}
pub fn f(b: Bits) -> f256 {
    f256::from_bits(b)
}
pub fn hex(b: Bits) -> String {
    format!("{:032x}:{:032x}", b.0, b.1)
}
pub fn unhex(s: &str) -> Option<Bits> {
    let (a, b) = s.split_once(':')?;
    Some((u128::from_str_radix(a, 16).ok()?, u128::from_str_radix(b, 16).ok()?))
}

macro_rules! ops {
    ($($v:ident $name:literal $ar:literal),* $(,)?) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub enum Op { $($v),* }
        pub const ALL: &[Op] = &[$(Op::$v),*];
        impl Op {
            pub fn name(self) -> &'static str { match self { $(Op::$v => $name),* } }
            pub fn arity(self) -> usize { match self { $(Op::$v => $ar),* } }
            pub fn parse(s: &str) -> Option<Op> { match s { $($name => Some(Op::$v),)* _ => None } }
        }
    };
}
ops! {
    Add "add" 2, Sub "sub" 2, Mul "mul" 2, Div "div" 2, Rem "rem" 2,
    MulAdd "mul_add" 3, Square "square" 1, SquareAdd "square_add" 2, Sos "sum_of_squares" 2,
    Sqrt "sqrt" 1, Recip "recip" 1,
    Mul2 "mul2" 1, Div2 "div2" 1, MulPow2 "mul_pow2" 1, DivPow2 "div_pow2" 1,
    Trunc "trunc" 1, Fract "fract" 1, Split0 "split.0" 1, Split1 "split.1" 1,
    Ceil "ceil" 1, Floor "floor" 1, Round "round" 1, RoundEven "round_tie_even" 1,
    Neg "neg" 1, Abs "abs" 1, Max "max" 2, Min "min" 2, Clamp "clamp" 3, Ulp "ulp" 1,
    Sin "sin" 1, Cos "cos" 1, Tan "tan" 1, SinCos0 "sin_cos.0" 1, SinCos1 "sin_cos.1" 1,
    Asin "asin" 1, Acos "acos" 1, Atan "atan" 1, Atan2 "atan2" 2,
    Ln "ln" 1, Log2 "log2" 1, Log10 "log10" 1,
    ToDeg "to_degrees" 1, ToRad "to_radians" 1,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Case {
    pub op: Op,
    pub a: [Bits; 3],
    pub n: u32,
}
impl Case {
    pub fn text(&self) -> String {
        let mut s = self.op.name().to_string();
        for i in 0..self.op.arity() {
            s.push(' ');
            s.push_str(&hex(self.a[i]));
        }
        if matches!(self.op, Op::MulPow2 | Op::DivPow2) {
            s.push_str(&format!(" n={}", self.n));
        }
        s
    }
    pub fn parse(s: &str) -> Option<Case> {
        let mut it = s.split_whitespace();
        let op = Op::parse(it.next()?)?;
        let mut c = Case { op, a: [ZERO; 3], n: 0 };
        for i in 0..op.arity() {
            c.a[i] = unhex(it.next()?)?;
        }
        if let Some(t) = it.next() {
            c.n = t.strip_prefix("n=")?.parse().ok()?;
        }
        Some(c)
    }
}

#[inline(never)]
pub fn exec(c: &Case) -> Bits {
    let x = f(c.a[0]);
    let y = f(c.a[1]);
    let z = f(c.a[2]);
    let r = match c.op {
        Op::Add => x + y,
        Op::Sub => x - y,
        Op::Mul => x * y,
        Op::Div => x / y,
        Op::Rem => x % y,
        Op::MulAdd => x.mul_add(y, z),
        Op::Square => x.square(),
        Op::SquareAdd => x.square_add(y),
        Op::Sos => x.sum_of_squares(y),
        Op::Sqrt => x.sqrt(),
        Op::Recip => x.recip(),
        Op::Mul2 => x.mul2(),
        Op::Div2 => x.div2(),
        Op::MulPow2 => x.mul_pow2(c.n),
        Op::DivPow2 => x.div_pow2(c.n),
        Op::Trunc => x.trunc(),
        Op::Fract => x.fract(),
        Op::Split0 => x.split().0,
        Op::Split1 => x.split().1,
        Op::Ceil => x.ceil(),
        Op::Floor => x.floor(),
        Op::Round => x.round(),
        Op::RoundEven => x.round_tie_even(),
        Op::Neg => -x,
        Op::Abs => x.abs(),
        Op::Max => x.max(y),
        Op::Min => x.min(y),
        Op::Clamp => x.clamp(y, z),
        Op::Ulp => x.ulp(),
        Op::Sin => x.sin(),
        Op::Cos => x.cos(),
        Op::Tan => x.tan(),
        Op::SinCos0 => x.sin_cos().0,
        Op::SinCos1 => x.sin_cos().1,
        Op::Asin => x.asin(),
        Op::Acos => x.acos(),
        Op::Atan => x.atan(),
        Op::Atan2 => x.atan2(&y),
        Op::Ln => x.ln(),
        Op::Log2 => x.log2(),
        Op::Log10 => x.log10(),
        Op::ToDeg => x.to_degrees(),
        Op::ToRad => x.to_radians(),
    };
    r.to_bits()
}
/// Equal as results: same bits, or both NaN.
pub fn same(a: Bits, b: Bits) -> bool {
    a == b || (is_nan(a) && is_nan(b))
}
