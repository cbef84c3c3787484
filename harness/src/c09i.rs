//! C09, the zigzag code.
use crate::vp::*;
use ebi::compressor::sprintz::zigzag;
use ebi::decoder::chunk_reader::sprintz::unzigzag;

harnesses! {
    fn c09_zigzag() {
        let x = u64s() as i64;
        check(unzigzag(zigzag(x)) == x, "unzigzag undoes zigzag");
        let m = (x as i128).unsigned_abs() as u64;
        // small magnitudes get small codes
        let z = zigzag(x);
        check(m > 1 << 63 || z >> 1 == m - (x < 0) as u64, "the code is as small as the magnitude");
        observe(z);
    }
    fn c09_unzigzag() {
        let z = u64s();
        check(zigzag(unzigzag(z)) == z, "zigzag undoes unzigzag");
    }
}
