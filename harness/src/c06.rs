//! C06: Elf and Elf-on-Chimp round trip.
//! BOUNDS: files of 1 decimal of 12 bits over 10^0..10^9, 2 decimals of 6 bits, 3 of 4 bits, zeros and infinities around a decimal; the Elf XOR codec for every (leading, trailing) zero shape of 1 to 3 differences; 700 fixed values of all kinds with symbolic bits in two of them, in one chunk and in chunks of 131
//! OUTSIDE: longer sequences with symbolic values throughout; decimals of more than 12 symbolic bits through the erasing front end
use crate::util::*;
use crate::vp::*;

fn file(v: &[f64], on_chimp: bool) {
    file_in(v, on_chimp, ChunkOption::Full)
}
fn file_in(v: &[f64], on_chimp: bool, o: ChunkOption) {
    let n = v.len();
    let f = if on_chimp { encode(v, o, CompressorConfig::elf_on_chimp().build()) } else { encode(v, o, CompressorConfig::elf().build()) };
    let g = decode(&f);
    check(g.len() == n, "as many values as were encoded");
    for i in 0..n {
        check(g[i].to_bits() == v[i].to_bits(), "bit-identical value");
        observe(g[i].to_bits());
    }
}
const P: &[f64] = &[1.0, 10.0, 100.0, 1e3, 1e4, 1e6, 1e9];
/// A decimal: n symbolic bits of magnitude and a symbolic sign, over a power of ten.
fn dec(n: u32, p: f64) -> f64 {
    let x = bits(n + 1) as i64 - (1 << n);
    x as f64 / p
}
/// Zero or infinity of either sign.
fn special() -> f64 {
    let s = bits(2);
    f64::from_bits((s & 1) << 63 | if s & 2 != 0 { 0x7ff0_0000_0000_0000 } else { 0 })
}
harnesses! {
    fn c06_dec1() { file(&[dec(11, pick_from(P))], pick(2) == 1) }
    fn c06_dec2() { let p = pick_from(&P[..4]); file(&[dec(5, p), dec(5, p)], pick(2) == 1) }
    fn c06_dec3() { let p = pick_from(&P[..3]); file(&[dec(3, p), dec(3, 100.0), dec(3, p)], pick(2) == 1) }
    fn c06_special() { let p = pick_from(&P[..3]); file(&[special(), dec(4, p), special()], pick(2) == 1) }
    fn c06_chunks() { let p = pick_from(&P[1..4]); file_in(&[dec(3, p), dec(3, p), 0.25, dec(3, p)], pick(2) == 1, ChunkOption::RecordCount(1 + pick(2))) }
    fn c06k_nan() { nan_file(CompressorConfig::elf().build()) }
    fn c06k_nan_chimp() { nan_file(CompressorConfig::elf_on_chimp().build()) }
    fn c06t_small() { file(&[dec(6, pick_from(&[1e12, 1e22, 1e25]))], pick(2) == 1) }
    fn c06_long_elf() { long_file(700, CompressorConfig::elf().build()) }
    fn c06_long_elf_on_chimp() { long_file(700, CompressorConfig::elf_on_chimp().build()) }
}
