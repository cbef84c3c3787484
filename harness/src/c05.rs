//! C05: Chimp128 round trip.
//! BOUNDS: files of 1, 2 and 3 values: every (leading, trailing) zero shape of one XOR difference, low 14 bits (the index key) concrete; a match with the value before the previous one; the 128-value window wrapping (126..131 values); 66000 fixed values of all kinds with symbolic bits in two of them, in one chunk and in chunks of 131
//! OUTSIDE: longer sequences with symbolic values throughout
use crate::util::*;
use crate::vp::*;

const S: &[(u32, u32)] = &[(0, 0), (1, 51), (8, 7), (12, 6), (17, 40), (26, 0), (64, 0)];
fn file(v: Vec<f64>) {
    file_in(v, ChunkOption::Full)
}
fn file_in(v: Vec<f64>, o: ChunkOption) {
    let n = v.len();
    for x in &v {
        assume(x.to_bits() != END);
    }
    let f = encode(&v, o, CompressorConfig::chimp128().build());
    let g = decode(&f);
    check(g.len() == n, "as many values as were encoded");
    for i in 0..n {
        check(g[i].to_bits() == v[i].to_bits(), "bit-identical value");
        observe(g[i].to_bits());
    }
}

/// v1, v2, v3 where v3 differs from v1 by d, v2 from v1 by d2, the end marker from v3 by e.
fn back(d: u64, d2: u64, e: u64) -> Vec<f64> {
    let v3 = END ^ e;
    let v1 = v3 ^ d;
    vec![f64::from_bits(v1), f64::from_bits(v1 ^ d2), f64::from_bits(v3)]
}
/// `n` concrete values with distinct index bits, then one that differs from the `j`-th by d: the window of 128 wraps.
fn wrap(n: usize, j: usize, d: u64) -> Vec<f64> {
    let mut v: Vec<f64> = (0..n).map(|i| f64::from_bits(0x4000_0000_0000_0003 + ((i as u64) << 2) + ((i as u64) << 30))).collect();
    v.push(f64::from_bits(v[j].to_bits() ^ d));
    v
}
/// Shapes of the longer sequences: the four encodings (same value, narrow, wide, window reuse).
const Q: &[(u32, u32)] = &[(64, 0), (3, 20), (12, 40), (18, 30)];
harnesses! {
    fn c05_file1() { file(chain(&[], any_shape())) }
    fn c05_file2() { file(chain(&[any_keyed()], some_keyed(S))) }
    fn c05_file3() { file(chain(&[any_keyed(), some_keyed(S)], keyed(1, 51))) }
    fn c05_back() { file(back(any_high(), keyed(5, 3), keyed(1, 51))) }
    fn c05_wrap() { let (l, t) = pick_from(&[(14, 15), (17, 14), (23, 20), (64, 0)]); file(wrap(126 + pick(6), pick(5), keyed(l, t))) }
    fn c05t_free2() { file(chain(&[some_shape(S)], some_shape(S))) }
    fn c05_seq5() { file(seq(4, Q)) }
    fn c05_seq7() { file(seq(6, &[Q[pick(4)], Q[pick(4)]])) }
    fn c05_chunks1() { file_in(seqs(2 + pick(3), 1, 1, Q), ChunkOption::RecordCount(1)) }
    fn c05_chunks2() { file_in(seqs(2, 2, 1 + pick(2), Q), ChunkOption::RecordCount(2)) }
    fn c05_chunks3() { file_in(seqs(3, 2, 1, &Q[1..3]), ChunkOption::RecordCount(2)) }
    fn c05k_nan() { nan_file(CompressorConfig::chimp128().build()) }
    fn c05_long() { long_file(66_000, CompressorConfig::chimp128().build()) }
}
