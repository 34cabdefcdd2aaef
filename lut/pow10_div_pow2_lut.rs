//! Reconstruction of the table crate missing from /repo, computed on demand
//! with GMP. Definition: /repo/analysis/gen_ryu_print_helper_tables.py,
//! gen_neg_tables.
use std::sync::OnceLock;
// Miri cannot call GMP.
#[cfg(any(miri, lut_pure))]
include!("mpz_pure.rs");
#[cfg(not(any(miri, lut_pure)))]
include!("mpz.rs");
use mpz::{w, Z};
pub const CHUNK_SIZE: u32 = 19;
pub const CHUNK_BASE: u64 = 10_000_000_000_000_000_000;
pub const COMPRESSION_RATE: u32 = 32;
pub const CHUNK_CUTOFF: u32 = 6;
// Imported but not used by /repo at the pinned commit.
pub const SHIFT: i32 = 0;
const P: i32 = 237;
const EMIN: i32 = -262142;
const BITS: i32 = 384 - 16 - 64;
const SEGMENT_OFFSET: i32 = (P - 1) / COMPRESSION_RATE as i32;
const N_SEGMENTS: i32 = (-EMIN + 2 * P - 1) / COMPRESSION_RATE as i32 + 1 - SEGMENT_OFFSET;
const N: usize = (N_SEGMENTS as u32 * CHUNK_CUTOFF) as usize;
static TABLE: [OnceLock<[u64; 8]>; N] = [const { OnceLock::new() }; N];

fn params(segment_idx: i32) -> (u32, i32) {
    let upper_exp = -(segment_idx + SEGMENT_OFFSET) * COMPRESSION_RATE as i32;
    let lower_exp = upper_exp - COMPRESSION_RATE as i32 + 1;
    // Python: max(0, -ceil(LOG10_2 * (exp + P)) // CHUNK_SIZE)
    let n = (-((2f64.log10() * (upper_exp + P) as f64).ceil() as i32)).div_euclid(CHUNK_SIZE as i32);
    (n.max(0) as u32, BITS + lower_exp)
}

pub fn get_pow10_div_pow2_params(exp2: i32) -> (usize, (u32, i32)) {
    let seg = -exp2 / COMPRESSION_RATE as i32 - SEGMENT_OFFSET;
    assert!(seg >= 0 && seg < N_SEGMENTS);
    (seg as usize, params(seg))
}

pub fn lookup_pow10_div_pow2(segment_idx: usize, chunk_idx: usize) -> (u128, u128, u128) {
    assert!(chunk_idx < CHUNK_CUTOFF as usize);
    let l = TABLE[segment_idx * CHUNK_CUTOFF as usize + chunk_idx].get_or_init(|| {
        let (n_zero, shift) = params(segment_idx as i32);
        let c = n_zero as u64 + 1 + chunk_idx as u64;
        let m = Z::pow(10, CHUNK_SIZE as u64).shl(BITS as u64);
        let t = Z::pow(10, c * CHUNK_SIZE as u64);
        let t = if shift >= 0 { t.shl(shift as u64) } else { t.shr(-shift as u64) };
        t.rem(&m).limbs()
    });
    (w(l, 2), w(l, 1), w(l, 0))
}
