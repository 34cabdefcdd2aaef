//! Reconstruction of the table crate missing from /repo, computed on demand
//! with GMP. Definition: /repo/analysis/gen_ryu_helper_tables.py, gen_ge_table.
use std::sync::OnceLock;
// Miri cannot call GMP.
#[cfg(any(miri, lut_pure))]
include!("mpz_pure.rs");
#[cfg(not(any(miri, lut_pure)))]
include!("mpz.rs");
use mpz::{w, Z};
const K: u64 = 501;
const N: usize = 80_000;
static TABLE: [OnceLock<[u64; 8]>; N] = [const { OnceLock::new() }; N];
pub fn lookup_pow2_div_pow5(idx: usize) -> (u128, u128, u128, u128) {
    let l = TABLE[idx].get_or_init(|| {
        let t = Z::pow(5, idx as u64);
        let h = t.bits() - 1 + K;
        // dec_repr.rs: the entries are (⌊2ʰ / 5ᵍ⌋ + 1) * 4
        Z::one().shl(h).div(&t).add_ui(1).shl(2).limbs()
    });
    (w(l, 3), w(l, 2), w(l, 1), w(l, 0))
}
