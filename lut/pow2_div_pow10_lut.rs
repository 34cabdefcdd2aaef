//! Reconstruction of the table crate missing from /repo, computed on demand
//! with GMP. Definition: /repo/analysis/gen_ryu_print_helper_tables.py,
//! gen_pos_tables.
use std::sync::OnceLock;
// Miri cannot call GMP.
#[cfg(any(miri, lut_pure))]
include!("mpz_pure.rs");
#[cfg(not(any(miri, lut_pure)))]
include!("mpz.rs");
use mpz::{w, Z};
pub const CHUNK_SIZE: u32 = 19;
pub const CHUNK_BASE: u64 = 10_000_000_000_000_000_000;
pub const COMPRESSION_RATE: u32 = 32;
pub const CHUNK_CUTOFF: u32 = 6;
const P: u32 = 237;
const EMAX: u32 = 262143;
// T - 16 - ceil(log2(10^19)) - COMPRESSION_RATE, plus COMPRESSION_RATE
const BITS: u32 = 384 - 16 - 64;
const SEGMENT_OFFSET: u32 = (512 - P) / COMPRESSION_RATE;
const N_SEGMENTS: u32 = (EMAX + 1 - P) / COMPRESSION_RATE + 1 - SEGMENT_OFFSET;
const N: usize = (N_SEGMENTS * CHUNK_CUTOFF) as usize;
static TABLE: [OnceLock<[u64; 8]>; N] = [const { OnceLock::new() }; N];

fn params(segment_idx: u32) -> (u32, u32) {
    let upper_exp = (segment_idx + SEGMENT_OFFSET + 1) * COMPRESSION_RATE - 1;
    let lower_exp = upper_exp - COMPRESSION_RATE + 1;
    let shift = lower_exp + BITS;
    let first_chunk = (((2f64.log10() * (upper_exp + P - 1) as f64).ceil() as u32) + 1) / CHUNK_SIZE;
    (first_chunk, shift)
}

pub fn get_pow2_div_pow10_params(exp2: i32) -> (usize, (u32, u32)) {
    let seg = exp2 as u32 / COMPRESSION_RATE - SEGMENT_OFFSET;
    assert!(seg < N_SEGMENTS);
    let (first_chunk, shift) = params(seg);
    (seg as usize, (first_chunk + 1, shift))
}

pub fn lookup_pow2_div_pow10(segment_idx: usize, chunk_idx: usize) -> (u128, u128, u128) {
    assert!(chunk_idx < CHUNK_CUTOFF as usize);
    let l = TABLE[segment_idx * CHUNK_CUTOFF as usize + chunk_idx].get_or_init(|| {
        let (first_chunk, shift) = params(segment_idx as u32);
        let c = first_chunk as u64 - chunk_idx as u64;
        let m = Z::pow(10, CHUNK_SIZE as u64).shl(BITS as u64);
        Z::one().shl(shift as u64).div(&Z::pow(10, c * CHUNK_SIZE as u64)).add_ui(1).rem(&m).limbs()
    });
    (w(l, 2), w(l, 1), w(l, 0))
}
