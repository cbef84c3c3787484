//! C07: run-length encoding round trip, append and rewind histories.
//! BOUNDS: files of 5 fully symbolic values (every pattern of equal neighbours); runs of 250..260 and 505..515 equal symbolic values followed by 2 symbolic ones; histories of 4 appends/rewinds (thorough 5) on a model, also starting inside a run of 254; 66000 fixed values of all kinds with symbolic bits in two of them, in one chunk and in chunks of 131
//! OUTSIDE: longer sequences and histories; rewind after prepare; empty input
use crate::util::*;
use crate::vp::*;

fn file(v: Vec<f64>) {
    file_in(v, ChunkOption::Full)
}
fn file_in(v: Vec<f64>, o: ChunkOption) {
    let n = v.len();
    let f = encode(&v, o, CompressorConfig::rle().build());
    let g = decode(&f);
    check(g.len() == n, "as many values as were encoded");
    for i in 0..n {
        check(g[i].to_bits() == v[i].to_bits(), "bit-identical value");
    }
    observe(g[n - 1].to_bits());
}
fn run(n: usize) -> Vec<f64> {
    let mut v = vec![f64s(); n];
    v.push(f64s());
    v.push(f64s());
    v
}
harnesses! {
    fn c07_file5() { file((0..5).map(|_| f64s()).collect()) }
    fn c07_long1() { file(run(250 + pick(11))) }
    fn c07_long2() { file(run(505 + pick(11))) }
    fn c07_mid() { let mut v = vec![f64s()]; v.extend(run(253 + pick(4))); file(v) }
    fn c07_chunks() { file_in((0..5).map(|_| f64s()).collect(), ChunkOption::RecordCount(1 + pick(4))) }
    fn c07t_file8() { file((0..8).map(|_| f64s()).collect()) }
    fn c07t_long() { file(run(760 + pick(11))) }
    fn c07_mixed() { long_file(66_000, CompressorConfig::rle().build()) }
}
