//! C36, at collect-stats' own functions: sums over very many values.
use crate::vp::*;

mod tool {
    #![allow(dead_code, unused)]
    include!("/repo/tools/src/collect-stats.rs");
    pub fn exponents(e: &[i32]) -> [f64; 4] {
        let s = compute_stats(&[0], &[0.0], e);
        [s.exponent_max as f64, s.exponent_min as f64, s.exponent_avg as f64, s.exponent_std as f64]
    }
}
harnesses! {
    fn c36_zeros() {
        let n = 2_200_000 + pick(2);
        check(tool::exponents(&vec![-1023; n]) == [-1023.0, -1023.0, -1023.0, 0.0], "the exponents of many zeros");
    }
}
