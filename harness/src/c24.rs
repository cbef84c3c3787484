//! C24: matrix products, dot products and squared distances equal their definition.
//! BOUNDS: data matrices of 1..3 rows and 1..3 columns, batches of 0..3, target matrices of 1..3 columns; one chunk or chunks of 1..7 records (matrices and rows within a chunk and across chunks); 3 records and 1 target element of 2..3 symbolic bits (quarters: all arithmetic exact), the others fixed; shapes that do not fit; dot product and distance at offsets 0..5 of chunks of 4 records with targets of 0..4 elements; uncompressed, RLE, Chimp, BUFF and DeltaSprintz files; products of up to 33 rows, 130 inner and 8 outer columns in batches of up to 7; offsets up to 300 of a chunk of 300 records with targets of up to 200
//! OUTSIDE: rounding of inexact sums; NaN and infinities; the CUDA variant
use crate::util::*;
use crate::vp::*;

fn opt(k: usize) -> ChunkOption {
    if k == 0 { ChunkOption::Full } else { ChunkOption::RecordCount(k) }
}
fn data(n: usize, sym: &[usize], k: u32) -> Vec<f64> {
    let mut v: Vec<f64> = (0..n).map(|i| (i * 5 % 7) as f64 / 4.0).collect();
    for &i in sym {
        if i < n {
            v[i] = bits(k) as f64 / 4.0;
        }
    }
    v
}
/// batch x (r x k) times (k x c)
fn product(r: usize, k: usize, c: usize, batch: usize, o: ChunkOption, cfg: impl Into<CompressorConfig>) {
    let n = batch * r * k;
    let v = data(n, &[0, n / 2, n.max(1) - 1], 2);
    let mut t: Vec<f64> = (0..k * c).map(|i| (i * 3 % 5) as f64 - 1.0).collect();
    t[k * c - 1] = bits(3) as f64 - 3.0;
    let f = encode(&v, o, cfg);
    let g = open(&f).matmul(&t, (k, c), (r, k)).expect("matmul");
    check(g.len() == batch * r * c, "as many elements as the products have");
    for i in 0..batch * r {
        for j in 0..c {
            let mut e = 0.0;
            for x in 0..k {
                e += v[i * k + x] * t[j * k + x];
            }
            check(g[i * c + j] == e, "the element of the product");
            seen(g[i * c + j]);
        }
    }
}
fn shapes(cfg: impl Into<CompressorConfig>) {
    product(1 + pick(3), 1 + pick(3), 1 + pick(3), pick(4), opt(pick(8)), cfg)
}
fn few(cfg: impl Into<CompressorConfig>) {
    product(2, 1 + pick(3), 2, 2, opt(pick(4)), cfg)
}
/// Larger matrices.
fn far(sizes: &[usize], cfg: impl Into<CompressorConfig>) {
    let (r, k, c, b) = pick_from(&[(4, 5, 6, 3), (8, 8, 8, 2), (1, 33, 2, 4), (33, 1, 3, 2), (5, 9, 1, 7), (2, 130, 1, 1)]);
    product(r, k, c, b, opt(pick_from(sizes)), cfg)
}
fn far_parts(cfg: impl Into<CompressorConfig>) {
    let mut v: Vec<f64> = (0..300).map(|i| (i * 5 % 7) as f64 / 4.0).collect();
    v[100] = bits(3) as f64;
    v[299] = bits(3) as f64;
    let f = encode(&v, ChunkOption::Full, cfg);
    let mut d = open(&f);
    let mut r = d.chunk_reader(ChunkId::new(0)).expect("chunk reader");
    let (o, n) = (pick_from(&[0, 1, 97, 255, 256, 290, 299, 300]), pick_from(&[1, 4, 5, 8, 9, 33, 200]));
    let t: Vec<f64> = (0..n).map(|i| (i * 3 % 5) as f64 - 1.0).collect();
    let (mut p, mut q) = (0.0, 0.0);
    for i in 0..n.min(300 - o) {
        p += v[o + i] * t[i];
        q += (v[o + i] - t[i]) * (v[o + i] - t[i]);
    }
    check(r.dot_product(o, &t).expect("dot product") == p, "the dot product over the common length");
    check(r.distance_squared(o, &t).expect("distance") == q, "the squared distance over the common length");
}
fn misfit(r: (usize, usize), t: (usize, usize), n: usize, m: usize) {
    let v = data(n, &[0], 2);
    let f = encode(&v, ChunkOption::Full, CompressorConfig::uncompressed().build());
    check(open(&f).matmul(&vec![1.0; m], t, r).is_err(), "shapes that do not fit are an error");
}
/// Operations on a chunk reader, at any offset.
fn parts(cfg: impl Into<CompressorConfig>) {
    let v = data(6, &[4, 5], 3);
    let f = encode(&v, ChunkOption::RecordCount(4), cfg);
    let mut d = open(&f);
    let (id, w) = if pick(2) == 0 { (0, &v[..4]) } else { (1, &v[4..]) };
    let mut r = d.chunk_reader(ChunkId::new(id)).expect("chunk reader");
    let (o, n) = (pick(6), pick(5));
    let t: Vec<f64> = (0..n).map(|i| if i == 0 { bits(3) as f64 } else { 0.5 * i as f64 }).collect();
    let (mut p, mut q) = (0.0, 0.0);
    for i in 0..n.min(w.len().max(o) - o) {
        p += w[o + i] * t[i];
        q += (w[o + i] - t[i]) * (w[o + i] - t[i]);
    }
    let a = r.dot_product(o, &t).expect("dot product");
    check(a == p, "the dot product over the common length");
    let b = r.distance_squared(o, &t).expect("distance");
    check(b == q, "the squared distance over the common length");
    seen(a);
    seen(b);
}
harnesses! {
    fn c24_far() { far(&[0, 1, 7, 16, 50], CompressorConfig::uncompressed().build()) }
    fn c24_far_rle() { far(&[0, 50], CompressorConfig::rle().build()) }
    fn c24_far_buff() { far(&[0, 50], CompressorConfig::buff().scale(100).build()) }
    fn c24_far_sprintz() { far(&[0, 50], CompressorConfig::delta_sprintz().scale(100).build()) }
    fn c24_far_parts() { far_parts(CompressorConfig::uncompressed().build()) }
    fn c24_far_parts_rle() { far_parts(CompressorConfig::rle().build()) }
    fn c24_far_parts_buff() { far_parts(CompressorConfig::buff().scale(100).build()) }
    fn c24_far_parts_sprintz() { far_parts(CompressorConfig::delta_sprintz().scale(100).build()) }
    fn c24_shapes() { shapes(CompressorConfig::uncompressed().build()) }
    fn c24_rle() { few(CompressorConfig::rle().build()) }
    fn c24_chimp() { few(CompressorConfig::chimp().build()) }
    fn c24_buff() { few(CompressorConfig::buff().scale(100).build()) }
    fn c24_sprintz() { few(CompressorConfig::delta_sprintz().scale(100).build()) }
    fn c24_parts() { parts(CompressorConfig::uncompressed().build()) }
    fn c24_parts_buff() { parts(CompressorConfig::buff().scale(100).build()) }
    fn c24_parts_sprintz() { parts(CompressorConfig::delta_sprintz().scale(100).build()) }
    fn c24_misfit() {
        match pick(6) {
            0 => misfit((2, 2), (3, 1), 4, 3),
            1 => misfit((2, 2), (2, 1), 6, 2),
            2 => misfit((2, 2), (2, 2), 4, 2),
            3 => misfit((2, 2), (2, 2), 4, 6),
            4 => misfit((0, 2), (2, 2), 4, 4),
            _ => misfit((2, 0), (0, 2), 4, 0),
        }
    }
}
