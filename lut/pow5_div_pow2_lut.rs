//! Reconstruction of the table crate missing from /repo, computed on demand
//! with GMP. Definition: /repo/analysis/gen_ryu_helper_tables.py, gen_lt_table.
use std::sync::OnceLock;
// Miri cannot call GMP.
#[cfg(any(miri, lut_pure))]
include!("mpz_pure.rs");
#[cfg(not(any(miri, lut_pure)))]
include!("mpz.rs");
use mpz::{w, Z};
// dec_repr.rs: the entries are ⌊5ⁱ / 2ʰ⁻²⌋ with h = ⌈log₂(5ⁱ)⌉ - 501
const K: u64 = 503;
const N: usize = 80_000;
static TABLE: [OnceLock<[u64; 8]>; N] = [const { OnceLock::new() }; N];
pub fn lookup_pow5_div_pow2(idx: usize) -> (u128, u128, u128, u128) {
    let l = TABLE[idx].get_or_init(|| {
        let t = Z::pow(5, idx as u64);
        let b = t.bits();
        if b > K { t.shr(b - K).limbs() } else { t.shl(K - b).limbs() }
    });
    (w(l, 3), w(l, 2), w(l, 1), w(l, 0))
}
