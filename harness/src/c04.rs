//! C04: Chimp round trip.
//! BOUNDS: files of 1 and 2 values with every (leading, trailing) zero shape of the first XOR difference and symbolic bits between; second difference from 6 shapes; the codec itself for 3 values; 66000 fixed values of all kinds with symbolic bits in two of them, in one chunk and in chunks of 131
//! OUTSIDE: longer sequences with symbolic values throughout
use crate::util::*;
use crate::vp::*;

const S: &[(u32, u32)] = &[(0, 0), (1, 51), (8, 7), (12, 6), (17, 40), (26, 0)];
fn file(v: Vec<f64>) {
    file_in(v, ChunkOption::Full)
}
fn file_in(v: Vec<f64>, o: ChunkOption) {
    let n = v.len();
    for x in &v {
        assume(x.to_bits() != END);
    }
    let f = encode(&v, o, CompressorConfig::chimp().build());
    let g = decode(&f);
    check(g.len() == n, "as many values as were encoded");
    for i in 0..n {
        check(g[i].to_bits() == v[i].to_bits(), "bit-identical value");
        observe(g[i].to_bits());
    }
}
/// Shapes of the longer sequences: the four encodings (same value, narrow, wide, window reuse).
const Q: &[(u32, u32)] = &[(64, 0), (3, 20), (12, 40), (18, 30)];
harnesses! {
    fn c04_file1() { file(chain(&[], any_shape())) }
    fn c04_file2() { file(chain(&[any_shape()], some_shape(S))) }
    fn c04t_file3() { file(chain(&[any_shape(), some_shape(S)], some_shape(&S[1..2]))) }
    fn c04_seq5() { file(seq(4, Q)) }
    fn c04_seq7() { file(seq(6, &[Q[pick(4)], Q[pick(4)]])) }
    fn c04_chunks1() { file_in(seqs(2 + pick(3), 1, 1, Q), ChunkOption::RecordCount(1)) }
    fn c04_chunks2() { file_in(seqs(2, 2, 1 + pick(2), Q), ChunkOption::RecordCount(2)) }
    fn c04_chunks3() { file_in(seqs(3, 2, 1, &Q[1..3]), ChunkOption::RecordCount(2)) }
    fn c04k_nan() { nan_file(CompressorConfig::chimp().build()) }
    fn c04_long() { long_file(66_000, CompressorConfig::chimp().build()) }
}
