//! C23: knn1 finds a nearest vector.
//! BOUNDS: vectors of 1..4 components, 1..4 of them and up to 2 records left over; one chunk or chunks of 1..5 records (vectors within a chunk, across two and across several); 3 records and 1 target component of 3 symbolic bits each (quarters, so that all arithmetic is exact), the others fixed; uncompressed, RLE, Gorilla, Chimp128, BUFF and DeltaSprintz files; the empty target; up to 300 vectors of 2 to 130 components, two of them with a component of 2 symbolic bits, in one chunk and chunks of 1 to 257 records
//! OUTSIDE: rounding of inexact distances; data with NaN or overflowing distances
use crate::util::*;
use crate::vp::*;

fn go(v: &[f64], t: &[f64], o: ChunkOption, c: impl Into<CompressorConfig>) {
    let f = encode(v, o, c);
    let mut d = open(&f);
    let r = d.knn1(t).expect("knn1");
    let n = v.len() / t.len();
    if n == 0 {
        return;
    }
    check(r.index < n, "the index of a vector");
    for i in 0..n {
        let mut e = 0.0;
        for j in 0..t.len() {
            let x = v[i * t.len() + j] - t[j];
            e += x * x;
        }
        check(r.distance <= e, "no vector is nearer");
        if r.index == i {
            check(r.distance == e, "the squared distance of that vector");
        }
    }
    observe(r.index as u64);
    seen(r.distance);
}
fn data(n: usize, sym: &[usize], k: u32) -> Vec<f64> {
    let mut v: Vec<f64> = (0..n).map(|i| (i * 5 % 7) as f64 / 4.0).collect();
    for &i in sym {
        if i < n {
            v[i] = bits(k) as f64 / 4.0;
        }
    }
    v
}
fn shapes(c: impl Into<CompressorConfig>) {
    let m = 1 + pick(4);
    let n = m * (1 + pick(4)) + pick(3.min(m));
    let v = data(n, &[0, n / 2, n - 1], 3);
    let mut t: Vec<f64> = vec![0.5; m];
    t[m - 1] = bits(3) as f64 / 4.0;
    let k = pick(6);
    go(&v, &t, if k == 0 { ChunkOption::Full } else { ChunkOption::RecordCount(k) }, c)
}
fn few(c: impl Into<CompressorConfig>) {
    let v = data(7, &[2, 5], 2);
    let k = pick(5);
    go(&v, &[0.25, 0.5, 1.0], if k == 0 { ChunkOption::Full } else { ChunkOption::RecordCount(k) }, c)
}
/// Longer vectors, more of them.
fn far(sizes: &[usize], c: impl Into<CompressorConfig>) {
    let (m, n) = pick_from(&[(2, 300), (5, 40), (8, 9), (16, 10), (33, 9), (130, 3)]);
    let mut v: Vec<f64> = (0..m * n + m / 2).map(|i| (i * i % 61) as f64 / 4.0).collect();
    let t: Vec<f64> = (0..m).map(|j| (j * 3 % 5) as f64).collect();
    // a near one late in the file, about as near as an early one
    let (a, b) = (n / 4, n - 1 - pick(2));
    for j in 0..m {
        v[a * m + j] = t[j];
        v[b * m + j] = t[j];
    }
    v[a * m + m - 1] += (bits(2) as f64 - 1.0) / 4.0;
    v[b * m + m / 2] += (bits(2) as f64 - 1.0) / 4.0;
    let k = pick_from(sizes);
    go(&v, &t, if k == 0 { ChunkOption::Full } else { ChunkOption::RecordCount(k) }, c)
}
harnesses! {
    fn c23_far() { far(&[0, 1, 7, 16, 130, 257], CompressorConfig::uncompressed().build()) }
    fn c23_far_rle() { far(&[0, 7, 130], CompressorConfig::rle().build()) }
    fn c23_far_buff() { far(&[0, 130], CompressorConfig::buff().scale(100).build()) }
    fn c23_far_sprintz() { far(&[0, 130], CompressorConfig::delta_sprintz().scale(100).build()) }
    fn c23_shapes() { shapes(CompressorConfig::uncompressed().build()) }
    fn c23_rle() { few(CompressorConfig::rle().build()) }
    fn c23_gorilla() { few(CompressorConfig::gorilla().build()) }
    fn c23_chimp128() { few(CompressorConfig::chimp128().build()) }
    fn c23_buff() { few(CompressorConfig::buff().scale(100).build()) }
    fn c23_sprintz() { few(CompressorConfig::delta_sprintz().scale(100).build()) }
    fn c23_empty() {
        let f = encode(&[1.0, 2.0], ChunkOption::Full, CompressorConfig::uncompressed().build());
        check(open(&f).knn1(&[]).is_err(), "an empty target is an error");
    }
    fn c23_none() {
        let f = encode(&[], ChunkOption::Full, CompressorConfig::uncompressed().build());
        let r = open(&f).knn1(&[1.0]);
        check(!r.is_ok_and(|r| r.distance < f64::INFINITY), "no neighbour in an empty file");
    }
    fn c23t_sprintz() { shapes(CompressorConfig::delta_sprintz().scale(100).build()) }
    fn c23t_zstd() { shapes(CompressorConfig::zstd().build()) }
}
