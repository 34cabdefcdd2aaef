//! Hand-written bindings to GMP and MPFR (the oracle libraries).
#![allow(dead_code)]
use std::os::raw::{c_char, c_int, c_long, c_ulong, c_void};

#[repr(C)]
pub struct MpzRaw {
    alloc: c_int,
    size: c_int,
    d: *mut u64,
}
#[repr(C)]
pub struct MpfrRaw {
    prec: c_long,
    sign: c_int,
    exp: c_long,
    d: *mut u64,
}
pub const RNDN: c_int = 0;
pub const RNDZ: c_int = 1;
pub const RNDU: c_int = 2;
pub const RNDD: c_int = 3;

#[link(name = "gmp")]
extern "C" {
    fn __gmpz_init(x: *mut MpzRaw);
    fn __gmpz_clear(x: *mut MpzRaw);
    fn __gmpz_set(r: *mut MpzRaw, a: *const MpzRaw);
    fn __gmpz_set_ui(r: *mut MpzRaw, a: c_ulong);
    fn __gmpz_ui_pow_ui(r: *mut MpzRaw, b: c_ulong, e: c_ulong);
    fn __gmpz_mul_2exp(r: *mut MpzRaw, a: *const MpzRaw, n: c_ulong);
    fn __gmpz_fdiv_q_2exp(r: *mut MpzRaw, a: *const MpzRaw, n: c_ulong);
    fn __gmpz_fdiv_r_2exp(r: *mut MpzRaw, a: *const MpzRaw, n: c_ulong);
    fn __gmpz_fdiv_qr(q: *mut MpzRaw, r: *mut MpzRaw, a: *const MpzRaw, b: *const MpzRaw);
    fn __gmpz_add(r: *mut MpzRaw, a: *const MpzRaw, b: *const MpzRaw);
    fn __gmpz_sub(r: *mut MpzRaw, a: *const MpzRaw, b: *const MpzRaw);
    fn __gmpz_mul(r: *mut MpzRaw, a: *const MpzRaw, b: *const MpzRaw);
    fn __gmpz_add_ui(r: *mut MpzRaw, a: *const MpzRaw, b: c_ulong);
    fn __gmpz_sub_ui(r: *mut MpzRaw, a: *const MpzRaw, b: c_ulong);
    fn __gmpz_mul_ui(r: *mut MpzRaw, a: *const MpzRaw, b: c_ulong);
    fn __gmpz_neg(r: *mut MpzRaw, a: *const MpzRaw);
    fn __gmpz_cmp(a: *const MpzRaw, b: *const MpzRaw) -> c_int;
    fn __gmpz_cmp_ui(a: *const MpzRaw, b: c_ulong) -> c_int;
    fn __gmpz_tstbit(a: *const MpzRaw, b: c_ulong) -> c_int;
    fn __gmpz_scan1(a: *const MpzRaw, b: c_ulong) -> c_ulong;
    fn __gmpz_sizeinbase(a: *const MpzRaw, b: c_int) -> usize;
    fn __gmpz_invert(r: *mut MpzRaw, a: *const MpzRaw, b: *const MpzRaw) -> c_int;
    fn __gmpz_get_str(s: *mut c_char, base: c_int, a: *const MpzRaw) -> *mut c_char;
    fn __gmpz_set_str(r: *mut MpzRaw, s: *const c_char, base: c_int) -> c_int;
    fn __gmpz_get_ui(a: *const MpzRaw) -> c_ulong;
    fn __gmpz_import(r: *mut MpzRaw, count: usize, order: c_int, size: usize, endian: c_int, nails: usize, p: *const c_void);
    fn __gmpz_export(p: *mut c_void, count: *mut usize, order: c_int, size: usize, endian: c_int, nails: usize, a: *const MpzRaw) -> *mut c_void;
}
extern "C" {
    fn mpfr_init2(x: *mut MpfrRaw, p: c_long);
    fn mpfr_clear(x: *mut MpfrRaw);
    fn mpfr_set_prec(x: *mut MpfrRaw, p: c_long);
    pub fn mpfr_set_emin(e: c_long) -> c_int;
    pub fn mpfr_set_emax(e: c_long) -> c_int;
    fn mpfr_get_emin_min() -> c_long;
    fn mpfr_get_emax_max() -> c_long;
    fn mpfr_check_range(x: *mut MpfrRaw, t: c_int, r: c_int) -> c_int;
    fn mpfr_subnormalize(x: *mut MpfrRaw, t: c_int, r: c_int) -> c_int;
    fn mpfr_set(r: *mut MpfrRaw, a: *const MpfrRaw, rnd: c_int) -> c_int;
    fn mpfr_set_nan(r: *mut MpfrRaw);
    fn mpfr_set_inf(r: *mut MpfrRaw, s: c_int);
    fn mpfr_set_zero(r: *mut MpfrRaw, s: c_int);
    fn mpfr_set_ui_2exp(r: *mut MpfrRaw, u: c_ulong, e: c_long, rnd: c_int) -> c_int;
    fn mpfr_set_z_2exp(r: *mut MpfrRaw, z: *const MpzRaw, e: c_long, rnd: c_int) -> c_int;
    fn mpfr_get_z_2exp(z: *mut MpzRaw, a: *const MpfrRaw) -> c_long;
    fn mpfr_nan_p(a: *const MpfrRaw) -> c_int;
    fn mpfr_inf_p(a: *const MpfrRaw) -> c_int;
    fn mpfr_zero_p(a: *const MpfrRaw) -> c_int;
    fn mpfr_signbit(a: *const MpfrRaw) -> c_int;
    fn mpfr_cmp3(a: *const MpfrRaw, b: *const MpfrRaw, s: c_int) -> c_int;
    fn mpfr_cmpabs(a: *const MpfrRaw, b: *const MpfrRaw) -> c_int;
    fn mpfr_mul_2si(r: *mut MpfrRaw, a: *const MpfrRaw, n: c_long, rnd: c_int) -> c_int;
    fn mpfr_const_pi(r: *mut MpfrRaw, rnd: c_int) -> c_int;
    fn mpfr_const_log2(r: *mut MpfrRaw, rnd: c_int) -> c_int;
    fn mpfr_const_euler(r: *mut MpfrRaw, rnd: c_int) -> c_int;
    fn mpfr_strtofr(r: *mut MpfrRaw, s: *const c_char, e: *mut *mut c_char, base: c_int, rnd: c_int) -> c_int;
    fn mpfr_get_d(a: *const MpfrRaw, rnd: c_int) -> f64;
    fn mpfr_set_d(r: *mut MpfrRaw, d: f64, rnd: c_int) -> c_int;
    fn mpfr_rint(r: *mut MpfrRaw, a: *const MpfrRaw, rnd: c_int) -> c_int;
    fn mpfr_roundeven(r: *mut MpfrRaw, a: *const MpfrRaw) -> c_int;
    fn mpfr_round(r: *mut MpfrRaw, a: *const MpfrRaw) -> c_int;
}
macro_rules! fns {
    ($($n:ident $c:ident),* ; $($n2:ident $c2:ident),* ; $($n3:ident $c3:ident),*) => {
        extern "C" {
            $(fn $c(r: *mut MpfrRaw, a: *const MpfrRaw, rnd: c_int) -> c_int;)*
            $(fn $c2(r: *mut MpfrRaw, a: *const MpfrRaw, b: *const MpfrRaw, rnd: c_int) -> c_int;)*
            $(fn $c3(r: *mut MpfrRaw, a: *const MpfrRaw, b: *const MpfrRaw, c: *const MpfrRaw, rnd: c_int) -> c_int;)*
        }
        impl Fr {
            $(pub fn $n(&mut self, a: &Fr, rnd: c_int) -> c_int { unsafe { $c(&mut self.0, &a.0, rnd) } })*
            $(pub fn $n2(&mut self, a: &Fr, b: &Fr, rnd: c_int) -> c_int { unsafe { $c2(&mut self.0, &a.0, &b.0, rnd) } })*
            $(pub fn $n3(&mut self, a: &Fr, b: &Fr, c: &Fr, rnd: c_int) -> c_int { unsafe { $c3(&mut self.0, &a.0, &b.0, &c.0, rnd) } })*
        }
    };
}
pub struct Fr(pub MpfrRaw);
fns!(sqrt mpfr_sqrt, sqr mpfr_sqr, sin mpfr_sin, cos mpfr_cos, tan mpfr_tan, asin mpfr_asin, acos mpfr_acos,
     atan mpfr_atan, log mpfr_log, log2 mpfr_log2, log10 mpfr_log10, neg mpfr_neg, abs mpfr_abs, exp mpfr_exp ;
     add mpfr_add, sub mpfr_sub, mul mpfr_mul, div mpfr_div, fmod mpfr_fmod, atan2 mpfr_atan2 ;
     fma mpfr_fma);

unsafe impl Send for Fr {}
unsafe impl Sync for Fr {}
unsafe impl Send for Z {}
unsafe impl Sync for Z {}

impl Drop for Fr {
    fn drop(&mut self) {
        unsafe { mpfr_clear(&mut self.0) }
    }
}
impl Fr {
    pub fn new(prec: u32) -> Fr {
        unsafe {
            let mut r = std::mem::MaybeUninit::<MpfrRaw>::uninit();
            mpfr_init2(r.as_mut_ptr(), prec as c_long);
            Fr(r.assume_init())
        }
    }
    pub fn prec(&self) -> u32 {
        self.0.prec as u32
    }
    pub fn set_prec(&mut self, p: u32) {
        unsafe { mpfr_set_prec(&mut self.0, p as c_long) }
    }
    pub fn set(&mut self, a: &Fr, rnd: c_int) -> c_int {
        unsafe { mpfr_set(&mut self.0, &a.0, rnd) }
    }
    pub fn set_nan(&mut self) {
        unsafe { mpfr_set_nan(&mut self.0) }
    }
    pub fn set_inf(&mut self, neg: bool) {
        unsafe { mpfr_set_inf(&mut self.0, if neg { -1 } else { 1 }) }
    }
    pub fn set_zero(&mut self, neg: bool) {
        unsafe { mpfr_set_zero(&mut self.0, if neg { -1 } else { 1 }) }
    }
    pub fn set_ui(&mut self, u: u64, e: i64) -> c_int {
        unsafe { mpfr_set_ui_2exp(&mut self.0, u, e, RNDN) }
    }
    pub fn set_z(&mut self, z: &Z, e: i64, rnd: c_int) -> c_int {
        unsafe { mpfr_set_z_2exp(&mut self.0, &z.0, e, rnd) }
    }
    pub fn set_d(&mut self, d: f64) -> c_int {
        unsafe { mpfr_set_d(&mut self.0, d, RNDN) }
    }
    pub fn get_d(&self) -> f64 {
        unsafe { mpfr_get_d(&self.0, RNDN) }
    }
    /// (z, e) with value z * 2^e
    pub fn get_z(&self) -> (Z, i64) {
        let mut z = Z::new();
        let e = unsafe { mpfr_get_z_2exp(&mut z.0, &self.0) };
        (z, e)
    }
    /// Set a finite non-zero value m * 2^q (m > 0, given as four limbs, little
    /// endian); the precision must be at least the bit length of m rounded to limbs.
    pub fn set_bits(&mut self, neg: bool, m: [u64; 4], q: i64) {
        let mut top = 256u32;
        for i in (0..4).rev() {
            if m[i] != 0 {
                top = (3 - i as u32) * 64 + m[i].leading_zeros();
                break;
            }
        }
        assert!(top < 256 && self.0.prec == 237);
        let ls = (top / 64) as usize;
        let bs = top % 64;
        let mut o = [0u64; 4];
        for i in 0..4 {
            if i >= ls {
                let a = m[i - ls];
                let b = if i > ls && bs > 0 { m[i - ls - 1] >> (64 - bs) } else { 0 };
                o[i] = (a << bs) | b;
            }
        }
        self.0.sign = if neg { -1 } else { 1 };
        self.0.exp = q + (256 - top as i64);
        unsafe { std::ptr::copy_nonoverlapping(o.as_ptr(), self.0.d, 4) }
    }
    pub fn limbs4(&self) -> [u64; 4] {
        assert!(self.0.prec == 237);
        let mut o = [0u64; 4];
        unsafe { std::ptr::copy_nonoverlapping(self.0.d, o.as_mut_ptr(), 4) }
        o
    }
    /// Exponent e with 2^(e-1) <= |x| < 2^e (finite non-zero only).
    pub fn exp2(&self) -> i64 {
        self.0.exp
    }
    pub fn is_nan(&self) -> bool {
        unsafe { mpfr_nan_p(&self.0) != 0 }
    }
    pub fn is_inf(&self) -> bool {
        unsafe { mpfr_inf_p(&self.0) != 0 }
    }
    pub fn is_zero(&self) -> bool {
        unsafe { mpfr_zero_p(&self.0) != 0 }
    }
    pub fn is_neg(&self) -> bool {
        unsafe { mpfr_signbit(&self.0) != 0 }
    }
    pub fn cmp(&self, b: &Fr) -> i32 {
        unsafe { mpfr_cmp3(&self.0, &b.0, 1).signum() }
    }
    pub fn cmpabs(&self, b: &Fr) -> i32 {
        unsafe { mpfr_cmpabs(&self.0, &b.0).signum() }
    }
    pub fn mul_2si(&mut self, a: &Fr, n: i64, rnd: c_int) -> c_int {
        unsafe { mpfr_mul_2si(&mut self.0, &a.0, n, rnd) }
    }
    pub fn sub_in(&mut self, b: &Fr) -> c_int {
        unsafe { mpfr_sub(&mut self.0, &self.0, &b.0, RNDN) }
    }
    pub fn shift(&mut self, n: i64) -> c_int {
        unsafe { mpfr_mul_2si(&mut self.0, &self.0, n, RNDN) }
    }
    pub fn pi(&mut self, rnd: c_int) -> c_int {
        unsafe { mpfr_const_pi(&mut self.0, rnd) }
    }
    pub fn ln2(&mut self, rnd: c_int) -> c_int {
        unsafe { mpfr_const_log2(&mut self.0, rnd) }
    }
    pub fn euler(&mut self, rnd: c_int) -> c_int {
        unsafe { mpfr_const_euler(&mut self.0, rnd) }
    }
    pub fn rint(&mut self, a: &Fr, rnd: c_int) -> c_int {
        unsafe { mpfr_rint(&mut self.0, &a.0, rnd) }
    }
    pub fn roundeven(&mut self, a: &Fr) -> c_int {
        unsafe { mpfr_roundeven(&mut self.0, &a.0) }
    }
    pub fn round_away(&mut self, a: &Fr) -> c_int {
        unsafe { mpfr_round(&mut self.0, &a.0) }
    }
    /// Parse the whole of s; None if not consumed completely.
    pub fn strtofr(&mut self, s: &str, rnd: c_int) -> Option<c_int> {
        let c = std::ffi::CString::new(s).ok()?;
        let mut end: *mut c_char = std::ptr::null_mut();
        let t = unsafe { mpfr_strtofr(&mut self.0, c.as_ptr(), &mut end, 10, rnd) };
        let used = end as usize - c.as_ptr() as usize;
        (used == s.len()).then_some(t)
    }
    pub fn check_range(&mut self, t: c_int) -> c_int {
        unsafe { mpfr_check_range(&mut self.0, t, RNDN) }
    }
    pub fn subnormalize(&mut self, t: c_int) -> c_int {
        unsafe { mpfr_subnormalize(&mut self.0, t, RNDN) }
    }
}
/// Exponent range of the whole library (thread-local state).
pub fn wide_range() {
    unsafe {
        mpfr_set_emin(mpfr_get_emin_min());
        mpfr_set_emax(mpfr_get_emax_max());
    }
}
/// Exponent range of binary256.
pub fn f256_range() {
    unsafe {
        mpfr_set_emin(-262377);
        mpfr_set_emax(262144);
    }
}

pub struct Z(pub MpzRaw);
impl Drop for Z {
    fn drop(&mut self) {
        unsafe { __gmpz_clear(&mut self.0) }
    }
}
impl Clone for Z {
    fn clone(&self) -> Z {
        let mut z = Z::new();
        unsafe { __gmpz_set(&mut z.0, &self.0) };
        z
    }
}
impl Z {
    pub fn new() -> Z {
        unsafe {
            let mut r = std::mem::MaybeUninit::<MpzRaw>::uninit();
            __gmpz_init(r.as_mut_ptr());
            Z(r.assume_init())
        }
    }
    pub fn ui(u: u64) -> Z {
        let mut z = Z::new();
        unsafe { __gmpz_set_ui(&mut z.0, u) };
        z
    }
    pub fn pow(b: u64, e: u64) -> Z {
        let mut z = Z::new();
        unsafe { __gmpz_ui_pow_ui(&mut z.0, b, e) };
        z
    }
    pub fn limbs(l: &[u64]) -> Z {
        let mut z = Z::new();
        unsafe { __gmpz_import(&mut z.0, l.len(), -1, 8, 0, 0, l.as_ptr().cast()) };
        z
    }
    pub fn to_limbs4(&self) -> [u64; 4] {
        assert!(self.bits() <= 256);
        let mut o = [0u64; 4];
        let mut n = 0usize;
        unsafe { __gmpz_export(o.as_mut_ptr().cast(), &mut n, -1, 8, 0, 0, &self.0) };
        o
    }
    pub fn dec(s: &str) -> Z {
        let mut z = Z::new();
        let c = std::ffi::CString::new(s).unwrap();
        assert!(unsafe { __gmpz_set_str(&mut z.0, c.as_ptr(), 10) } == 0);
        z
    }
    pub fn bits(&self) -> u64 {
        if self.is_zero() {
            0
        } else {
            unsafe { __gmpz_sizeinbase(&self.0, 2) as u64 }
        }
    }
    pub fn is_zero(&self) -> bool {
        self.0.size == 0
    }
    pub fn is_neg(&self) -> bool {
        self.0.size < 0
    }
    pub fn is_odd(&self) -> bool {
        unsafe { __gmpz_tstbit(&self.0, 0) != 0 }
    }
    pub fn tstbit(&self, n: u64) -> bool {
        unsafe { __gmpz_tstbit(&self.0, n) != 0 }
    }
    pub fn tz(&self) -> u64 {
        unsafe { __gmpz_scan1(&self.0, 0) }
    }
    pub fn get_ui(&self) -> u64 {
        unsafe { __gmpz_get_ui(&self.0) }
    }
    pub fn shl(&self, n: u64) -> Z {
        let mut z = Z::new();
        unsafe { __gmpz_mul_2exp(&mut z.0, &self.0, n) };
        z
    }
    pub fn shr(&self, n: u64) -> Z {
        let mut z = Z::new();
        unsafe { __gmpz_fdiv_q_2exp(&mut z.0, &self.0, n) };
        z
    }
    pub fn low(&self, n: u64) -> Z {
        let mut z = Z::new();
        unsafe { __gmpz_fdiv_r_2exp(&mut z.0, &self.0, n) };
        z
    }
    pub fn add(&self, b: &Z) -> Z {
        let mut z = Z::new();
        unsafe { __gmpz_add(&mut z.0, &self.0, &b.0) };
        z
    }
    pub fn sub(&self, b: &Z) -> Z {
        let mut z = Z::new();
        unsafe { __gmpz_sub(&mut z.0, &self.0, &b.0) };
        z
    }
    pub fn mul(&self, b: &Z) -> Z {
        let mut z = Z::new();
        unsafe { __gmpz_mul(&mut z.0, &self.0, &b.0) };
        z
    }
    pub fn neg(&self) -> Z {
        let mut z = Z::new();
        unsafe { __gmpz_neg(&mut z.0, &self.0) };
        z
    }
    pub fn add_ui(&self, b: u64) -> Z {
        let mut z = Z::new();
        unsafe { __gmpz_add_ui(&mut z.0, &self.0, b) };
        z
    }
    pub fn sub_ui(&self, b: u64) -> Z {
        let mut z = Z::new();
        unsafe { __gmpz_sub_ui(&mut z.0, &self.0, b) };
        z
    }
    pub fn mul_ui(&self, b: u64) -> Z {
        let mut z = Z::new();
        unsafe { __gmpz_mul_ui(&mut z.0, &self.0, b) };
        z
    }
    /// Floor division.
    pub fn divmod(&self, b: &Z) -> (Z, Z) {
        let (mut q, mut r) = (Z::new(), Z::new());
        unsafe { __gmpz_fdiv_qr(&mut q.0, &mut r.0, &self.0, &b.0) };
        (q, r)
    }
    pub fn inv(&self, m: &Z) -> Option<Z> {
        let mut z = Z::new();
        (unsafe { __gmpz_invert(&mut z.0, &self.0, &m.0) } != 0).then_some(z)
    }
    pub fn cmp(&self, b: &Z) -> std::cmp::Ordering {
        unsafe { __gmpz_cmp(&self.0, &b.0) }.cmp(&0)
    }
    pub fn cmp_ui(&self, b: u64) -> std::cmp::Ordering {
        unsafe { __gmpz_cmp_ui(&self.0, b) }.cmp(&0)
    }
    pub fn to_dec(&self) -> String {
        let n = unsafe { __gmpz_sizeinbase(&self.0, 10) } + 2;
        let mut v = vec![0u8; n];
        unsafe { __gmpz_get_str(v.as_mut_ptr().cast(), 10, &self.0) };
        let l = v.iter().position(|&b| b == 0).unwrap();
        v.truncate(l);
        String::from_utf8(v).unwrap()
    }
}
