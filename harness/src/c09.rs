//! C09: DeltaSprintz round trip of fixed-point data.
//! BOUNDS: scales 1, 10, 100, 1000, 2, 7, 10^6, 2^32-1; files of 1 value of 11 symbolic bits, 2 of 5 bits, 3 of 4 bits, 5 of 2 bits, on the grid and off it; quantized values up to 2^61 apart (deltas of every width); chunks of 1..3; 400 fixed decimals with differences of up to 40 bits, two of them symbolic, in one chunk and in chunks of 33 and 130
//! OUTSIDE: scales of 2^32 and more, quantized values beyond 2^62, NaN and infinities; longer files with symbolic values throughout
use crate::util::*;
use crate::vp::*;

fn file(v: &[f64], s: u64, o: ChunkOption) {
    let g = decode(&encode(v, o, CompressorConfig::delta_sprintz().scale(s).build()));
    check(g.len() == v.len(), "as many values as were encoded");
    for i in 0..v.len() {
        let q = (v[i] * s as f64).round();
        check(g[i] == q / s as f64, "the value at the nearest step of the scale");
        observe(g[i].to_bits());
    }
}
/// Values k / scale come back as they are.
fn grid(n: usize, k: u32, s: u64, o: ChunkOption) {
    let off = if pick(2) == 0 { 0 } else { 123_456 };
    let v: Vec<f64> = (0..n).map(|_| (off + bits(k) as i64 - (1 << (k - 1))) as f64 / s as f64).collect();
    let g = decode(&encode(&v, o, CompressorConfig::delta_sprintz().scale(s).build()));
    check(g.len() == n, "as many values as were encoded");
    for i in 0..n {
        check(g[i] == v[i], "a decimal over the scale is kept");
        observe(g[i].to_bits());
    }
}
/// Off the grid: sixteenths and thirds of a step.
fn off(n: usize, k: u32, s: u64) {
    let d = if pick(2) == 0 { 16.0 } else { 3.0 };
    let v: Vec<f64> = (0..n).map(|_| (bits(k) as i64 - (1 << (k - 1))) as f64 / d / s as f64).collect();
    file(&v, s, ChunkOption::Full);
}
/// Deltas of w bits.
fn span(n: usize, k: u32, s: u64, o: ChunkOption) {
    let w = pick(62) as u32;
    let mut v = Vec::new();
    for i in 0..n {
        let b = bits(k);
        let x = (b >> 1) << if i == 0 { 0 } else { (w + 1).saturating_sub(k) };
        let x = x as i64 + if i % 2 == 1 { 1i64 << w >> 1 } else { 0 };
        v.push(if b & 1 == 1 { -x } else { x } as f64 / s as f64);
    }
    file(&v, s, o);
}
const S: &[u64] = &[1, 10, 100, 1000, 2, 7, 1_000_000, (1 << 32) - 1];
/// 400 decimals whose differences have all widths up to 40 bits, two of them symbolic.
fn many(s: u64) -> Vec<f64> {
    let mut x = 77u64;
    let mut v: Vec<f64> = (0..400)
        .map(|i| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let w = if i < 150 { x >> 33 & 7 } else if i < 300 { x >> 33 & 0xffff } else { x >> 24 };
            (w as i64 - if i % 3 == 0 { 5 } else { 0 }) as f64 / s as f64
        })
        .collect();
    v[10] = bits(3) as f64 / s as f64;
    v[398] = bits(3) as f64 / s as f64;
    v
}
harnesses! {
    fn c09_grid1() { grid(1, 11, pick_from(S), ChunkOption::Full) }
    fn c09_grid2() { grid(2, 5, pick_from(S), ChunkOption::Full) }
    fn c09_grid3() { grid(3, 3, pick_from(S), ChunkOption::Full) }
    fn c09_grid5() { grid(5, 2, pick_from(&[1, 10]), ChunkOption::Full) }
    fn c09_chunks() { grid(4, 2, pick_from(&[1, 10]), ChunkOption::RecordCount(1 + pick(3))) }
    fn c09_off1() { off(1, 11, pick_from(S)) }
    fn c09_off2() { off(2, 5, pick_from(&S[..4])) }
    fn c09_span2() { span(2, 4, 1, ChunkOption::Full) }
    fn c09_span3() { span(3, 3, 1, ChunkOption::Full) }
    fn c09k_scale() { file(&[1.5], 10_000_000_000, ChunkOption::Full) }
    fn c09t_span3() { span(3, 4, pick_from(&[1, 1024]), ChunkOption::Full) }
    fn c09t_grid3() { grid(3, 4, pick_from(S), ChunkOption::Full) }
    fn c09_long() { let s = pick_from(&[1, 100]); file(&many(s), s, pick_from(&[ChunkOption::Full, ChunkOption::RecordCount(33), ChunkOption::RecordCount(130)])) }
}
