//! Monitors for encodings (C13), conversions from numbers (C14, C15), operator
//! forms and trait views (C25) and constants (C28).
use crate::ffi::*;
use crate::gen;
use crate::ops::*;
use crate::oracle::*;
use crate::report::*;
use crate::rng::Rng;
use ::f256::{consts, f256};
use std::str::FromStr;

fn s(name: &'static str, quick: u64, thorough: u64, f: StreamFn) -> Stream {
    Stream { name, quick, thorough, f }
}
fn h4(b: Bits) -> [u64; 4] {
    [b.0 as u64, (b.0 >> 64) as u64, b.1 as u64, (b.1 >> 64) as u64]
}
fn hb(k: u64, b: Bits) -> u64 {
    let v = h4(b);
    hash64(&[k, v[0], v[1], v[2], v[3]])
}
/// 256-bit shifts on (hi, lo).
fn shl(b: Bits, n: u32) -> Bits {
    match n {
        0 => b,
        1..=127 => (b.0 << n | b.1 >> (128 - n), b.1 << n),
        128..=255 => (b.1 << (n - 128), 0),
        _ => (0, 0),
    }
}
fn shr(b: Bits, n: u32) -> Bits {
    match n {
        0 => b,
        1..=127 => (b.0 >> n, b.1 >> n | b.0 << (128 - n)),
        128..=255 => (0, b.0 >> (n - 128)),
        _ => (0, 0),
    }
}
fn lz(b: Bits) -> u32 {
    if b.0 != 0 {
        b.0.leading_zeros()
    } else {
        128 + b.1.leading_zeros()
    }
}
fn tz(b: Bits) -> u32 {
    if b.1 != 0 {
        b.1.trailing_zeros()
    } else {
        128 + b.0.trailing_zeros()
    }
}
/// Encoding of (-1)^s * c * 2^t, None if not representable as finite non-zero value.
fn enc(s: bool, t: i64, c: Bits) -> Option<Bits> {
    if c == (0, 0) {
        return Some(gen::make(s, 0, (0, 0)));
    }
    let msb = 255 - lz(c) as i64;
    let e = t + msb;
    if e > EMAX as i64 {
        return None;
    }
    // position of the least significant bit of the encoding
    let q = (e - 236).max(QMIN as i64);
    if t + (tz(c) as i64) < q {
        return None;
    }
    let m = if t >= q { shl(c, (t - q) as u32) } else { shr(c, (q - t) as u32) };
    Some(if e >= EMIN as i64 {
        gen::make(s, (e + BIAS as i64) as u32, m)
    } else {
        gen::make(s, 0, m)
    })
}
// ---- C13 --------------------------------------------------------------------------------------
fn judge_bits(l: &mut Local, b: Bits) {
    let what = || format!("bits {}", hex(b));
    l.note(hb(13, b), true);
    let r = guard(|| {
        let x = f256::from_bits(b);
        let raw: [u8; 32] = unsafe { std::mem::transmute(x) };
        (x.to_bits(), x.to_be_bytes(), x.to_le_bytes(), x.to_ne_bytes(), raw)
    });
    let Ok((bits, be, le, ne, raw)) = r else {
        return l.violate(what(), format!("panicked: {}", r.unwrap_err()));
    };
    l.require(bits == b, what, || format!("from_bits/to_bits gives {}", hex(bits)));
    let mut wbe = [0u8; 32];
    wbe[..16].copy_from_slice(&b.0.to_be_bytes());
    wbe[16..].copy_from_slice(&b.1.to_be_bytes());
    let mut wle = wbe;
    wle.reverse();
    l.require(be == wbe, what, || format!("to_be_bytes gives {be:02x?}"));
    l.require(le == wle, what, || format!("to_le_bytes gives {le:02x?}"));
    // "the memory representation in native byte order": of the value as stored, or of a 256-bit number
    let wne = if cfg!(target_endian = "big") { wbe } else { wle };
    l.require(ne == raw || ne == wne, what, || format!("to_ne_bytes gives {ne:02x?}"));
    for (k, g) in [
        ("from_be_bytes", guard(|| f256::from_be_bytes(wbe).to_bits())),
        ("from_le_bytes", guard(|| f256::from_le_bytes(wle).to_bits())),
        ("from_ne_bytes(to_ne_bytes)", guard(|| f256::from_ne_bytes(ne).to_bits())),
    ] {
        l.require(g == Ok(b), what, || format!("{k} gives {:?}", g.clone().map(hex)));
    }
    l.tag("byte and bit encodings");
    if l.r.chance(1, 16) {
        judge_debug(l, b);
    }
    if is_fin(b) {
        let g = guard(|| {
            let (s, t, c) = f256::from_bits(b).as_sign_exp_signif();
            (s, t, c, f256::from_sign_exp_signif(s, t, c).to_bits())
        });
        match g {
            Ok((sg, t, c, back)) => {
                l.require(back == b, what, || format!("decomposed to ({sg}, {t}, {c:x?}) and rebuilt as {}", hex(back)));
                let v = if sg < 2 { enc(sg == 1, t as i64, c) } else { None };
                l.require(v == Some(b), what, || format!("decomposed to ({sg}, {t}, {c:x?}), which is another number"));
                l.require(
                    c.0 >> 109 == 0 && (c == (0, 0) || (QMIN..=EMAX).contains(&t)),
                    what,
                    || format!("decomposed to ({sg}, {t}, {c:x?}): significand or exponent out of the documented range"),
                );
                l.tag("decomposed and rebuilt");
            }
            Err(m) => l.violate(what(), format!("panicked: {m}")),
        }
    }
}
/// The Debug text has to name the value: sign, exponent and significand, or the special value.
fn judge_debug(l: &mut Local, b: Bits) {
    let what = || format!("bits {}", hex(b));
    let t = match guard(|| format!("{:?}", f256::from_bits(b))) {
        Ok(t) => t,
        Err(m) => return l.violate(what(), format!("Debug panicked: {m}")),
    };
    let ok = if is_nan(b) {
        t.contains("NaN")
    } else if is_inf(b) {
        t.contains("inf") && t.contains("-inf") == is_neg(b)
    } else {
        let v: Vec<(bool, u128)> = t
            .split(|c: char| !(c.is_ascii_alphanumeric() || c == '-'))
            .filter(|w| !w.is_empty())
            .filter_map(|w| {
                let (n, w) = w.strip_prefix('-').map_or((false, w), |w| (true, w));
                let k = w.strip_prefix("0x").map_or_else(|| w.parse().ok(), |w| u128::from_str_radix(w, 16).ok());
                k.map(|k| (n, k))
            })
            .collect();
        match v[..] {
            [(false, s @ 0..=1), (n, e), (false, h), (false, lo)] if e < 1 << 30 => enc(s == 1, if n { -(e as i64) } else { e as i64 }, (h, lo)) == Some(b),
            _ => false,
        }
    };
    l.require(ok, what, || format!("Debug prints {t}, which is another value"));
    l.tag("Debug text names the value");
}
fn judge_enc(l: &mut Local, sg: u32, t: i32, c: Bits) {
    let Some(w) = enc(sg == 1, t as i64, c) else { return };
    let what = || format!("enc {sg} {t} {}", hex(c));
    l.note(hash64(&[131, sg as u64, t as u64, hb(1, c)]), true);
    l.enter(what);
    let g = guard(|| f256::from_sign_exp_signif(sg, t, c).to_bits());
    l.leave();
    match g {
        Ok(g) => l.require(g == w, what, || format!("expected {} got {}", hex(w), hex(g))),
        Err(m) => l.violate(what(), format!("panicked: {m}")),
    }
    l.tag(if is_sub(w) {
        "rebuilt subnormal"
    } else if lz(c) > 19 {
        "rebuilt, significand too short"
    } else if lz(c) < 19 {
        "rebuilt, significand too long"
    } else {
        "rebuilt, normalised significand"
    });
}
fn c13_bits(l: &mut Local, _: u64) {
    let b = if l.r.chance(1, 3) { (l.r.u128(), l.r.u128()) } else { gen::any(&mut l.r) };
    judge_bits(l, b);
}
fn c13_enc(l: &mut Local, _: u64) {
    let r = &mut l.r;
    // a representable value, written with a significand shifted up or down
    let b = gen::finite(r);
    let (m, q) = decode(b);
    let c: Bits = ((m[3] as u128) << 64 | m[2] as u128, (m[1] as u128) << 64 | m[0] as u128);
    if c == (0, 0) {
        let t = r.range(QMIN as i64, EMAX as i64) as i32;
        return judge_enc(l, is_neg(b) as u32, t, c);
    }
    let (lo, hi) = (-(tz(c) as i64), lz(c) as i64);
    let k = match r.below(5) {
        0 => lo,
        1 => hi,
        2 => 0,
        _ => r.range(lo, hi),
    };
    let c = if k >= 0 { shl(c, k as u32) } else { shr(c, -k as u32) };
    judge_enc(l, is_neg(b) as u32, (q as i64 - k) as i32, c);
}
// ---- C14 --------------------------------------------------------------------------------------
fn want_int(neg: bool, mag: u128) -> Bits {
    enc(neg, 0, (0, mag)).unwrap()
}
macro_rules! ints {
    ($($t:ident $k:literal),*) => {
        fn int_of(t: &str, v: u128) -> Option<(Bits, Bits, bool)> {
            match t {
                $(stringify!($t) => {
                    let x = v as $t;
                    #[allow(unused_comparisons)]
                    let neg = x < 0;
                    let mag = if neg { (x as i128).unsigned_abs() } else { x as u128 };
                    let w = want_int(neg, mag);
                    Some((w, f256::from(x).to_bits(), { let y: f256 = x.into(); y.to_bits() } == f256::from(x).to_bits()))
                })*
                _ => None,
            }
        }
        const INTS: &[(&str, u32)] = &[$((stringify!($t), $k)),*];
    };
}
ints!(i8 8, i16 16, i32 32, i64 64, i128 128, u8 8, u16 16, u32 32, u64 64, u128 128);
fn judge_int(l: &mut Local, t: &'static str, v: u128) -> Option<Bits> {
    let what = || format!("int {t} {v:x}");
    let g = guard(|| int_of(t, v));
    match g {
        Ok(Some((w, g, same))) => {
            l.note(hash64(&[14, hash_str(t), v as u64, (v >> 64) as u64]), v != 0);
            l.require(g == w && same, what, || format!("expected {} got {}", hex(w), hex(g)));
            l.sample(|| format!("{t} {v:x} -> {}", hex(g)));
            return Some(g);
        }
        Ok(None) => {}
        Err(m) => l.violate(what(), format!("panicked: {m}")),
    }
    None
}
fn c14(l: &mut Local, i: u64) {
    let r = &mut l.r;
    let (t, k) = INTS[(i % 10) as usize];
    let v = match r.below(8) {
        0 => (1u128 << r.below(k as u64)).wrapping_add(r.range(-3, 3) as u128),
        1 => (1u128 << r.below(k as u64)).wrapping_neg().wrapping_add(r.range(-3, 3) as u128),
        2 => r.range(-3, 3) as u128,
        3 => (u128::MAX >> (128 - k)).wrapping_sub(r.below(3) as u128),
        4 => (u128::MAX >> (129 - k)).wrapping_add(r.range(-2, 2) as u128),
        5 => r.u128() >> r.below(128),
        6 => (r.u128() >> r.below(128)).wrapping_neg(),
        _ => r.u128() << r.below(128),
    };
    let m = if k == 128 { u128::MAX } else { (1 << k) - 1 };
    let v = v & m;
    let Some(a) = judge_int(l, t, v) else { return };
    // the successor maps above (sign-magnitude order of the encodings)
    let n = v.wrapping_add(1) & m;
    let max = if t.starts_with('i') { m >> 1 } else { m };
    if v != max {
        if let Some(b) = judge_int(l, t, n) {
            l.require(key(a) < key(b), || format!("int {t} {v:x}"), || "order of successors is not preserved".into());
            l.tag(t);
        }
    }
}
/// All values of the 8- and 16-bit types, every call a block.
fn c14_small(l: &mut Local, i: u64) {
    for j in 0..1024u64 {
        let v = (i * 1024 + j) as u128;
        for t in ["i16", "u16"] {
            judge_int(l, t, v);
        }
        if v < 256 {
            judge_int(l, "i8", v);
            judge_int(l, "u8", v);
        }
        l.tag("all 16-bit values");
    }
}
/// Total order key of a non-NaN encoding with -0 below +0.
pub fn key(b: Bits) -> (bool, Bits) {
    if is_neg(b) {
        (false, (!b.0, !b.1))
    } else {
        (true, b)
    }
}
// ---- C15 --------------------------------------------------------------------------------------
fn want_f32(u: u32) -> Option<Bits> {
    let s = u >> 31 != 0;
    let e = (u >> 23) & 0xff;
    let m = (u & 0x7f_ffff) as u128;
    match e {
        0xff if m == 0 => Some(gen::make(s, EXP_MAX, (0, 0))),
        0xff => None,
        0 if m == 0 => Some(gen::make(s, 0, (0, 0))),
        0 => {
            // m * 2^-149
            let k = 127 - m.leading_zeros();
            Some(gen::make(s, (BIAS + k as i32 - 149) as u32, ((m << (108 - k)) & FRACM, 0)))
        }
        _ => Some(gen::make(s, (BIAS + e as i32 - 127) as u32, (m << (108 - 23), 0))),
    }
}
fn want_f64(u: u64) -> Option<Bits> {
    let s = u >> 63 != 0;
    let e = ((u >> 52) & 0x7ff) as i32;
    let m = (u & ((1 << 52) - 1)) as u128;
    match e {
        0x7ff if m == 0 => Some(gen::make(s, EXP_MAX, (0, 0))),
        0x7ff => None,
        0 if m == 0 => Some(gen::make(s, 0, (0, 0))),
        0 => {
            let k = 127 - m.leading_zeros();
            Some(gen::make(s, (BIAS + k as i32 - 1074) as u32, ((m << (108 - k)) & FRACM, 0)))
        }
        _ => Some(gen::make(s, (BIAS + e - 1023) as u32, (m << (108 - 52), 0))),
    }
}
fn ok_float(w: Option<Bits>, g: Bits) -> bool {
    match w {
        Some(w) => w == g,
        None => is_nan(g),
    }
}
fn judge_f32(l: &mut Local, u: u32) {
    let what = || format!("f32 {u:08x}");
    match guard(|| f256::from(f32::from_bits(u)).to_bits()) {
        Ok(g) => l.require(ok_float(want_f32(u), g), what, || format!("expected {} got {}", hex(want_f32(u).unwrap_or(NAN)), hex(g))),
        Err(m) => l.violate(what(), format!("panicked: {m}")),
    }
}
fn judge_f64(l: &mut Local, u: u64) {
    let what = || format!("f64 {u:016x}");
    match guard(|| f256::from(f64::from_bits(u)).to_bits()) {
        Ok(g) => l.require(ok_float(want_f64(u), g), what, || format!("expected {} got {}", hex(want_f64(u).unwrap_or(NAN)), hex(g))),
        Err(m) => l.violate(what(), format!("panicked: {m}")),
    }
}
/// 2^14 blocks cover every f32.
fn c15_f32(l: &mut Local, i: u64) {
    let i = i & 0x3fff;
    let lo = (i << 18) as u32;
    let bad = guard(|| {
        for j in 0..1u32 << 18 {
            let u = lo | j;
            if !ok_float(want_f32(u), f256::from(f32::from_bits(u)).to_bits()) {
                return Some(u);
            }
        }
        None
    });
    l.evals += (1 << 18) - 1;
    l.note(hash64(&[15, i]), true);
    l.tag("blocks of 2^18 f32 values");
    match bad {
        Ok(None) => {}
        Ok(Some(u)) => judge_f32(l, u),
        // somewhere in the block: find it
        Err(_) => {
            for j in 0..1u32 << 18 {
                judge_f32(l, lo | j);
            }
        }
    }
}
fn f64_pattern(r: &mut Rng) -> u64 {
    let e = match r.below(8) {
        0 => 0,
        1 => 0x7ff,
        2 => 0x7fe,
        3 => 1,
        _ => r.below(0x800),
    };
    let m = match r.below(8) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << r.below(52),
        3 => (1u64 << r.below(52)).wrapping_sub(1),
        4 => r.u64() >> r.below(64),
        5 => r.u64() << r.below(64),
        6 => r.below(4),
        _ => r.u64(),
    };
    r.below(2) << 63 | e << 52 | (m & ((1 << 52) - 1))
}
fn c15_f64(l: &mut Local, i: u64) {
    let u = if i < 4096 { i << 52 } else { f64_pattern(&mut l.r) };
    l.note(hash64(&[16, u]), true);
    l.tag(match (u >> 52) & 0x7ff {
        0 if u << 1 == 0 => "f64 zero",
        0 => "f64 subnormal",
        0x7ff if u << 12 == 0 => "f64 infinity",
        0x7ff => "f64 nan",
        _ => "f64 normal",
    });
    judge_f64(l, u);
    l.sample(|| format!("f64 {u:016x}"));
    if i % 8 == 0 {
        let w = f64::from_bits(u) as f32;
        judge_f32(l, w.to_bits());
    }
}
// ---- C25 --------------------------------------------------------------------------------------
const BIN: [&str; 5] = ["+", "-", "*", "/", "%"];
fn forms(k: usize, a: f256, b: f256) -> Vec<(&'static str, f256)> {
    macro_rules! v {
        ($o:tt $oa:tt $t:ident $m:ident $ta:ident $ma:ident) => {{
            use std::ops::{$t, $ta};
            let mut c = a;
            c $oa b;
            let mut d = a;
            d $oa &b;
            let mut e = a;
            $ta::$ma(&mut e, b);
            let mut g = a;
            $ta::$ma(&mut g, &b);
            vec![
                ("a op b", a $o b),
                ("&a op b", &a $o b),
                ("a op &b", a $o &b),
                ("&a op &b", &a $o &b),
                ("a op= b", c),
                ("a op= &b", d),
                ("Op::op(a, b)", <f256 as $t<f256>>::$m(a, b)),
                ("OpAssign::op_assign(a, b)", e),
                ("OpAssign::op_assign(a, &b)", g),
            ]
        }};
    }
    match k {
        0 => v!(+ += Add add AddAssign add_assign),
        1 => v!(- -= Sub sub SubAssign sub_assign),
        2 => v!(* *= Mul mul MulAssign mul_assign),
        3 => v!(/ /= Div div DivAssign div_assign),
        _ => v!(% %= Rem rem RemAssign rem_assign),
    }
}
/// Aliased operands: x op= x by copy.
fn judge_forms(l: &mut Local, k: usize, a: Bits, b: Bits) {
    let what = || format!("form {} {} {}", BIN[k], hex(a), hex(b));
    l.note(hash64(&[25, k as u64, hb(1, a), hb(2, b)]), true);
    match guard(|| forms(k, f(a), f(b))) {
        Ok(v) => {
            let w = v[0].1.to_bits();
            for (n, g) in v {
                let g = g.to_bits();
                l.require(same(w, g), what, || format!("{n} gives {} but a op b gives {}", hex(g), hex(w)));
            }
            l.tag(BIN[k]);
            if k == 1 {
                for (n, g) in [("a + (-b)", guard(|| (f(a) + -f(b)).to_bits())), ("&a + &-&b", guard(|| (&f(a) + &-&f(b)).to_bits()))] {
                    l.require(g.as_ref().is_ok_and(|g| same(*g, w)), what, || format!("{n} gives {:?}, a - b gives {}", g.clone().map(hex), hex(w)));
                }
                l.tag("a - b against a + (-b)");
            }
        }
        Err(m) => l.violate(what(), format!("panicked: {m}")),
    }
}
fn judge_unary(l: &mut Local, a: Bits) {
    let what = || format!("form neg {}", hex(a));
    l.note(hb(26, a), true);
    match guard(|| {
        let x = f(a);
        ((-x).to_bits(), (-&x).to_bits(), std::ops::Neg::neg(x).to_bits(), (f256::ZERO, x.clone()).1.to_bits())
    }) {
        Ok((p, q, t, c)) => {
            l.require(same(p, q) && same(p, t), what, || format!("-x is {}, -&x is {}", hex(p), hex(q)));
            l.require(c == a, what, || format!("clone gives {}", hex(c)));
        }
        Err(m) => l.violate(what(), format!("panicked: {m}")),
    }
    judge_traits(l, a);
}
#[cfg(feature = "num-traits")]
fn judge_traits(l: &mut Local, a: Bits) {
    use num_traits::{Num, One, Zero};
    let what = || format!("form traits {}", hex(a));
    let g = guard(|| {
        let x = f(a);
        let mut z = x;
        z.set_zero();
        let mut o = x;
        o.set_one();
        (x.is_zero(), x.is_one(), <f256 as Zero>::zero().to_bits(), <f256 as One>::one().to_bits(), z.to_bits(), o.to_bits())
    });
    match g {
        Ok((iz, io, z, o, sz, so)) => {
            l.require(iz == is_zero(a), what, || format!("Zero::is_zero gives {iz}"));
            l.require(io == (a == ONE), what, || format!("One::is_one gives {io}"));
            l.require(z == ZERO && sz == ZERO, what, || format!("Zero::zero gives {}, set_zero {}", hex(z), hex(sz)));
            l.require(o == ONE && so == ONE, what, || format!("One::one gives {}, set_one {}", hex(o), hex(so)));
            // the neutral elements are neutral
            let x = f(a);
            let r = guard(|| [(x + f256::zero()).to_bits(), (x * f256::one()).to_bits()]);
            match r {
                Ok([p, m]) => {
                    l.require(same(p, a) || (is_zero(a) && is_zero(p)), what, || format!("x + zero() gives {}", hex(p)));
                    l.require(same(m, a), what, || format!("x * one() gives {}", hex(m)));
                }
                Err(m) => l.violate(what(), format!("panicked: {m}")),
            }
            l.tag("num-traits Zero and One");
        }
        Err(m) => l.violate(what(), format!("panicked: {m}")),
    }
    let _ = <f256 as Num>::from_str_radix;
}
#[cfg(not(feature = "num-traits"))]
fn judge_traits(_: &mut Local, _: Bits) {}
#[cfg(feature = "num-traits")]
fn judge_radix(l: &mut Local, t: &str, radix: u32) {
    use num_traits::Num;
    let what = || format!("radix {radix} {}", jstr(t));
    l.note(hash64(&[27, radix as u64, hash_str(t)]), true);
    let show = |g: &Result<Result<Bits, String>, String>| match g {
        Ok(Ok(b)) => hex(*b),
        Ok(Err(e)) => e.clone(),
        Err(m) => format!("panicked: {m}"),
    };
    let e = |r: Result<f256, <f256 as FromStr>::Err>| r.map(|v| v.to_bits()).map_err(|e| format!("error {e}"));
    let g = guard(|| e(<f256 as Num>::from_str_radix(t, radix)));
    if radix == 10 {
        let w = guard(|| e(f256::from_str(t)));
        let ok = match (&w, &g) {
            (Ok(Ok(a)), Ok(Ok(b))) => same(*a, *b),
            (Ok(Err(a)), Ok(Err(b))) => a == b,
            _ => false,
        };
        l.require(ok, what, || format!("from_str gives {}, from_str_radix {}", show(&w), show(&g)));
        l.tag("from_str_radix 10");
    } else {
        // other radices are not supported: an error, not a value or a panic
        l.require(matches!(g, Ok(Err(_))), what, || format!("gives {}", show(&g)));
        l.tag("from_str_radix other");
    }
}
#[cfg(not(feature = "num-traits"))]
fn judge_radix(_: &mut Local, _: &str, _: u32) {}
fn c25(l: &mut Local, i: u64) {
    let r = &mut l.r;
    let (a, b) = match r.below(6) {
        0 => (gen::special(r), gen::special(r)),
        1 => (gen::any(r), gen::special(r)),
        2 => crate::arith::pair(r),
        3 => {
            let a = gen::any(r);
            (a, a)
        }
        4 => {
            let a = gen::any(r);
            (a, neg(a))
        }
        _ => (gen::any(r), gen::any(r)),
    };
    judge_forms(l, (i / 8 % 5) as usize, a, b);
    if i % 4 == 0 {
        let x = if i % 12 == 0 { step(ONE, (i % 5) as i64 - 2) } else { a };
        judge_unary(l, x);
    }
}
fn c25_radix(l: &mut Local, _: u64) {
    let r = &mut l.r;
    let t = crate::parse::any_text(r);
    let radix = match r.below(4) {
        0 => r.range(2, 36) as u32,
        1 => r.pick(&[0, 1, 2, 8, 11, 16, 36, 37, u32::MAX]),
        _ => 10,
    };
    judge_radix(l, &t, radix);
}
// ---- C28 --------------------------------------------------------------------------------------
/// Name, value in the crate, expected value.
pub fn constants() -> Vec<(&'static str, Bits, Bits)> {
    let mut v: Vec<(&'static str, Bits, Bits)> = Vec::new();
    let p2 = |e: i64| enc(false, e, (0, 1)).unwrap();
    let int = |n: u128| enc(false, 0, (0, n)).unwrap();
    for (n, c, w) in [
        ("MAX", f256::MAX, enc(false, 262144 - 237, ((1 << 109) - 1, u128::MAX)).unwrap()),
        ("MIN", f256::MIN, enc(true, 262144 - 237, ((1 << 109) - 1, u128::MAX)).unwrap()),
        ("MIN_POSITIVE", f256::MIN_POSITIVE, p2(-262142)),
        ("MIN_GT_ZERO", f256::MIN_GT_ZERO, p2(-262378)),
        ("EPSILON", f256::EPSILON, p2(-236)),
        ("INFINITY", f256::INFINITY, INF),
        ("NEG_INFINITY", f256::NEG_INFINITY, NINF),
        ("ZERO", f256::ZERO, ZERO),
        ("NEG_ZERO", f256::NEG_ZERO, NZERO),
        ("ONE", f256::ONE, int(1)),
        ("NEG_ONE", f256::NEG_ONE, neg(int(1))),
        ("f256::default()", f256::default(), ZERO),
        ("TWO", f256::TWO, int(2)),
        ("TEN", f256::TEN, int(10)),
    ] {
        v.push((n, c.to_bits(), w));
    }
    let nan = f256::NAN.to_bits();
    v.push(("NAN", nan, if is_nan(nan) { nan } else { NAN }));
    // exponent and digit limits as integers
    let lim = |n: i64| (0u128, n as u128);
    // floor(237 * log10(2)), largest and smallest power of ten among the finite normal numbers
    let pow_ok = |e: i64| {
        let mut x = Fr::new(600);
        wide_range();
        x.strtofr(&format!("1e{e}"), RNDN);
        let mut m = Fr::new(237);
        to_fr(MAXF, &mut m);
        let mut t = Fr::new(237);
        to_fr(p2(-262142), &mut t);
        x.cmp(&m) <= 0 && x.cmp(&t) >= 0
    };
    let mut hi = 78_000;
    while pow_ok(hi + 1) {
        hi += 1;
    }
    let mut lo = -78_000;
    while pow_ok(lo - 1) {
        lo -= 1;
    }
    let mut dg = 0;
    while Z::pow(10, dg + 1).cmp(&Z::pow(2, 237)) != std::cmp::Ordering::Greater {
        dg += 1;
    }
    for (n, c, w) in [
        ("RADIX", f256::RADIX as i64, 2),
        ("MANTISSA_DIGITS", f256::MANTISSA_DIGITS as i64, 237),
        ("SIGNIFICANT_DIGITS", f256::SIGNIFICANT_DIGITS as i64, 237),
        ("DIGITS", f256::DIGITS as i64, dg as i64),
        ("MAX_EXP", f256::MAX_EXP as i64, 262144),
        ("MIN_EXP", f256::MIN_EXP as i64, -262141),
        ("MAX_10_EXP", f256::MAX_10_EXP as i64, hi),
        ("MIN_10_EXP", f256::MIN_10_EXP as i64, lo),
    ] {
        v.push((n, lim(c), lim(w)));
    }
    // mathematical constants
    let mut c = |n: &'static str, x: f256, g: &dyn Fn(&mut Fr)| {
        let mut a = Fr::new(2000);
        wide_range();
        g(&mut a);
        let mut r = Fr::new(237);
        f256_range();
        let t = r.set(&a, RNDN);
        let (w, _) = finalize(&mut r, t);
        wide_range();
        v.push((n, x.to_bits(), w));
    };
    let num = |a: u64| {
        let mut x = Fr::new(2000);
        x.set_ui(a, 0);
        x
    };
    let pi = || {
        let mut x = Fr::new(2000);
        x.pi(RNDN);
        x
    };
    let q = |o: &mut Fr, a: &Fr, b: &Fr| {
        o.div(a, b, RNDN);
    };
    c("PI", consts::PI, &|o| {
        o.pi(RNDN);
    });
    c("TAU", consts::TAU, &|o| {
        o.mul(&pi(), &num(2), RNDN);
    });
    c("FRAC_3_PI_2", consts::FRAC_3_PI_2, &|o| {
        let mut t = num(0);
        t.mul(&pi(), &num(3), RNDN);
        q(o, &t, &num(2));
    });
    c("FRAC_PI_2", consts::FRAC_PI_2, &|o| q(o, &pi(), &num(2)));
    c("FRAC_PI_3", consts::FRAC_PI_3, &|o| q(o, &pi(), &num(3)));
    c("FRAC_PI_4", consts::FRAC_PI_4, &|o| q(o, &pi(), &num(4)));
    c("FRAC_PI_6", consts::FRAC_PI_6, &|o| q(o, &pi(), &num(6)));
    c("FRAC_PI_8", consts::FRAC_PI_8, &|o| q(o, &pi(), &num(8)));
    c("FRAC_1_PI", consts::FRAC_1_PI, &|o| q(o, &num(1), &pi()));
    c("FRAC_2_PI", consts::FRAC_2_PI, &|o| q(o, &num(2), &pi()));
    c("SQRT_PI", consts::SQRT_PI, &|o| {
        o.sqrt(&pi(), RNDN);
    });
    c("FRAC_2_SQRT_PI", consts::FRAC_2_SQRT_PI, &|o| {
        let mut t = num(0);
        t.sqrt(&pi(), RNDN);
        q(o, &num(2), &t);
    });
    c("SQRT_2", consts::SQRT_2, &|o| {
        o.sqrt(&num(2), RNDN);
    });
    c("FRAC_1_SQRT_2", consts::FRAC_1_SQRT_2, &|o| {
        let mut t = num(0);
        t.sqrt(&num(2), RNDN);
        q(o, &num(1), &t);
    });
    c("SQRT_5", consts::SQRT_5, &|o| {
        o.sqrt(&num(5), RNDN);
    });
    c("PHI", consts::PHI, &|o| {
        let mut t = num(0);
        t.sqrt(&num(5), RNDN);
        let mut u = num(0);
        u.add(&t, &num(1), RNDN);
        q(o, &u, &num(2));
    });
    c("GAMMA", consts::GAMMA, &|o| {
        o.euler(RNDN);
    });
    c("E", consts::E, &|o| {
        // sum of 1/n!, in exact integers
        let mut s = Z::new();
        let mut t = Z::pow(2, 1900);
        let mut n = 0;
        while !t.is_zero() {
            s = s.add(&t);
            n += 1;
            t = t.divmod(&Z::ui(n)).0;
        }
        o.set_z(&s, -1900, RNDN);
    });
    v
}
fn c28(l: &mut Local, i: u64) {
    if i > 0 {
        return;
    }
    match guard(constants) {
        Ok(v) => {
            for (n, g, w) in v {
                l.note(hash_str(n), true);
                l.require(g == w, || format!("const {n}"), || format!("expected {} got {}", hex(w), hex(g)));
                l.tag(n);
                l.samples.push(format!("{n} = {}", hex(g)));
            }
        }
        Err(m) => l.violate("constants".into(), format!("panicked: {m}")),
    }
}
pub fn replay(l: &mut Local, line: &str) -> bool {
    let v: Vec<&str> = line.split_whitespace().collect();
    let bits = |i: usize| v.get(i).and_then(|t| unhex(t));
    match (v.first().copied(), v.get(1).copied()) {
        (Some("bits"), _) => match bits(1) {
            Some(b) => judge_bits(l, b),
            None => return false,
        },
        (Some("enc"), Some(sg)) => match (sg.parse(), v.get(2).and_then(|t| t.parse().ok()), bits(3)) {
            (Ok(sg), Some(t), Some(c)) => judge_enc(l, sg, t, c),
            _ => return false,
        },
        (Some("int"), Some(t)) => {
            let Some(k) = INTS.iter().find(|k| k.0 == t) else { return false };
            let Some(x) = v.get(2).and_then(|x| u128::from_str_radix(x, 16).ok()) else { return false };
            judge_int(l, k.0, x);
        }
        (Some("f32"), Some(x)) => match u32::from_str_radix(x, 16) {
            Ok(u) => judge_f32(l, u),
            _ => return false,
        },
        (Some("f64"), Some(x)) => match u64::from_str_radix(x, 16) {
            Ok(u) => judge_f64(l, u),
            _ => return false,
        },
        (Some("form"), Some(o)) => match (BIN.iter().position(|b| *b == o), bits(2), bits(3)) {
            (Some(k), Some(a), Some(b)) => judge_forms(l, k, a, b),
            (None, Some(a), None) => judge_unary(l, a),
            _ => return false,
        },
        (Some("radix"), Some(x)) => {
            let Ok(radix) = x.parse() else { return false };
            let t = line.splitn(3, ' ').nth(2).unwrap_or("\"\"");
            judge_radix(l, &unjstr(t), radix);
        }
        (Some("const"), _) | (Some("constants"), _) => c28(l, 0),
        _ => return false,
    }
    true
}
const R13: &str = "random and structured 256-bit patterns through all bit and byte conversions, every finite one decomposed and rebuilt, and representable (sign, exponent, significand) triples with shifted significands, judged against an independent bit-level encoder; distinct by hash of the pattern or triple";
const R14: &str = "all 8- and 16-bit values, and boundary-directed values of the wider types with their successors, judged against an independent bit-level encoder (value and order); distinct by hash of (type, value)";
const R15: &str = "every one of the 2^32 f32 values (in blocks of 2^18) and boundary-directed f64 values over all exponents, judged against an independent bit-level widening; distinct counts f64 values and f32 blocks";
const R25: &str = "operand pairs of every class through nine forms of each operator, negation forms, subtraction against addition of the negated operand, and the num-traits views; distinct by hash of (operator, operands)";
const R28: &str = "every public constant, judged against its definition evaluated with 2000-bit MPFR / exact GMP arithmetic; distinct by name";
pub fn streams(p: &str) -> Option<(Vec<Stream>, &'static str)> {
    Some(match p {
        "C13" => (vec![s("patterns", 8_000_000, 200_000_000, c13_bits), s("triples", 8_000_000, 200_000_000, c13_enc)], R13),
        "C14" => (vec![s("small", 64, 64, c14_small), s("wide", 60_000_000, 300_000_000, c14)], R14),
        "C15" => (vec![s("f64", 20_000_000, 400_000_000, c15_f64), s("f32", 16_384, 16_384, c15_f32)], R15),
        "C25" => (vec![s("forms", 2_000_000, 150_000_000, c25), s("radix", 200_000, 6_000_000, c25_radix)], R25),
        "C28" => (vec![s("constants", 1, 1, c28)], R28),
        _ => return None,
    })
}
