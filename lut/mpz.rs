// Minimal GMP binding shared by the reconstructed lookup-table crates.
#[allow(non_camel_case_types, dead_code)]
mod mpz {
    use std::os::raw::{c_int, c_ulong, c_void};
    #[repr(C)]
    pub struct Raw {
        alloc: c_int,
        size: c_int,
        d: *mut u64,
    }
    #[link(name = "gmp")]
    extern "C" {
        fn __gmpz_init(x: *mut Raw);
        fn __gmpz_clear(x: *mut Raw);
        fn __gmpz_ui_pow_ui(r: *mut Raw, b: c_ulong, e: c_ulong);
        fn __gmpz_mul_2exp(r: *mut Raw, a: *const Raw, n: c_ulong);
        fn __gmpz_fdiv_q_2exp(r: *mut Raw, a: *const Raw, n: c_ulong);
        fn __gmpz_fdiv_r_2exp(r: *mut Raw, a: *const Raw, n: c_ulong);
        fn __gmpz_fdiv_q(r: *mut Raw, a: *const Raw, b: *const Raw);
        fn __gmpz_fdiv_r(r: *mut Raw, a: *const Raw, b: *const Raw);
        fn __gmpz_add_ui(r: *mut Raw, a: *const Raw, b: c_ulong);
        fn __gmpz_sizeinbase(a: *const Raw, b: c_int) -> usize;
        fn __gmpz_export(
            r: *mut c_void, count: *mut usize, order: c_int, size: usize,
            endian: c_int, nails: usize, a: *const Raw,
        ) -> *mut c_void;
    }
    pub struct Z(Raw);
    impl Drop for Z {
        fn drop(&mut self) {
            unsafe { __gmpz_clear(&mut self.0) }
        }
    }
    impl Z {
        pub fn new() -> Z {
            unsafe {
                let mut r = std::mem::MaybeUninit::<Raw>::uninit();
                __gmpz_init(r.as_mut_ptr());
                Z(r.assume_init())
            }
        }
        pub fn pow(b: u64, e: u64) -> Z {
            let mut z = Z::new();
            unsafe { __gmpz_ui_pow_ui(&mut z.0, b, e) };
            z
        }
        pub fn one() -> Z { Z::pow(1, 1) }
        pub fn shl(&self, n: u64) -> Z {
            let mut z = Z::new();
            unsafe { __gmpz_mul_2exp(&mut z.0, &self.0, n) };
            z
        }
        pub fn shr(&self, n: u64) -> Z {
            let mut z = Z::new();
            unsafe { __gmpz_fdiv_q_2exp(&mut z.0, &self.0, n) };
            z
        }
        pub fn div(&self, d: &Z) -> Z {
            let mut z = Z::new();
            unsafe { __gmpz_fdiv_q(&mut z.0, &self.0, &d.0) };
            z
        }
        pub fn rem(&self, d: &Z) -> Z {
            let mut z = Z::new();
            unsafe { __gmpz_fdiv_r(&mut z.0, &self.0, &d.0) };
            z
        }
        pub fn add_ui(&self, n: u64) -> Z {
            let mut z = Z::new();
            unsafe { __gmpz_add_ui(&mut z.0, &self.0, n) };
            z
        }
        pub fn bits(&self) -> u64 {
            unsafe { __gmpz_sizeinbase(&self.0, 2) as u64 }
        }
        /// Little-endian 64-bit limbs; at most eight of them.
        pub fn limbs(&self) -> [u64; 8] {
            assert!(self.bits() <= 512);
            let mut out = [0u64; 8];
            let mut n = 0usize;
            unsafe {
                __gmpz_export(out.as_mut_ptr().cast(), &mut n, -1, 8, 0, 0, &self.0);
            }
            out
        }
    }
    pub fn w(l: &[u64; 8], i: usize) -> u128 {
        (l[2 * i + 1] as u128) << 64 | l[2 * i] as u128
    }
}
