//! C18: sum, min and max computed in place (BUFF, DeltaSprintz) agree with the decoded values.
//! BOUNDS: scales 1, 10 and 100; 2 and 3 records of 2..3 symbolic bits around three offsets, with spreads giving value ranges of 0 to 51 bits (up to 6 BUFF byte columns, full and partial); 9 and 33 records with 2 of them symbolic; one chunk or chunks of 1, 2 or 17; no mask, every subset, masks beyond the end; every chunk id and none; 64 and 900 whole numbers of 4, 8, 13, 16 and 22 bits with ties in the leading byte columns, two of them with 3 symbolic bits, in one chunk and in chunks of 130, 9 masks; 65600 records with two symbolic ones around the 65536th
//! OUTSIDE: sums beyond 2^53 steps of the scale; NaN and infinities (not representable in these schemes); longer files
use crate::util::*;
use crate::vp::*;

fn go(v: &[f64], a: Ask, c: CompressorConfig) {
    let f = encode(v, a.opt, c);
    let mut d = open(&f);
    let w = materialize(&mut d, None, None);
    is_least(&mut d, &a, &w);
    let r = d.sum(a.mask.as_ref(), a.chunk).expect("sum");
    is_close(r, &a, &w);
}
/// The sum up to rounding.
fn is_close(r: f64, a: &Ask, v: &[f64]) {
    let mut s = 0.0;
    let mut m = 1.0;
    for i in 0..v.len() {
        if a.sel[i] {
            s += v[i];
            m += v[i].abs();
        }
    }
    check((r - s).abs() <= m * 1e-12, "the sum of the records asked for, up to rounding");
    seen(r);
}
fn values(n: usize, s: u64, ws: &[i64], off: i64) -> Vec<f64> {
    let w = pick_from(ws);
    (0..n).map(|i| (off + bits(2) as i64 * if i % 2 == 0 { w } else { 1.min(w) }) as f64 / s as f64).collect()
}
fn spread(n: usize, m: usize, ws: &[i64], c: fn(u64) -> CompressorConfig) {
    let s = pick_from(&[1, 10, 100]);
    let v = values(n, s, ws, pick_from(&[0, -7, 1234]));
    go(&v, ask(n, &[0], m), c(s))
}
fn masks(n: usize, sizes: &[usize], c: fn(u64) -> CompressorConfig) {
    let v = values(n, 4, &[0, 1, 37, 70_000], -7);
    go(&v, ask(n, sizes, n), c(100))
}
fn long(n: usize, sizes: &[usize], c: fn(u64) -> CompressorConfig) {
    let w = pick_from(&[1, 300]);
    let mut v: Vec<f64> = (0..n).map(|i| ((i * 7 % 16) as i64 * w) as f64).collect();
    v[n / 3] = (bits(5) as i64 * w) as f64;
    v[n - 2] = (bits(5) as i64 * w - 8) as f64;
    go(&v, ask(n, sizes, 1), c(1))
}
/// Long files, masks with gaps.
fn far(n: usize, sizes: &[usize], c: fn(u64) -> CompressorConfig) {
    let (v, _) = wide(n);
    let o = cut(n, sizes);
    let f = encode(&v, o.0, c(1));
    let a = ask_far(n, o);
    let mut d = open(&f);
    is_least(&mut d, &a, &v);
    let r = d.sum(a.mask.as_ref(), a.chunk).expect("sum");
    is_close(r, &a, &v);
}
fn huge_file(c: fn(u64) -> CompressorConfig) {
    let v = huge();
    let o = cut(HUGE, &[0, 65_530]);
    let f = encode(&v, o.0, c(1));
    let a = ask_huge(o);
    let mut d = open(&f);
    is_least(&mut d, &a, &v);
    let r = d.sum(a.mask.as_ref(), a.chunk).expect("sum");
    is_close(r, &a, &v);
}
fn buff(s: u64) -> CompressorConfig {
    CompressorConfig::buff().scale(s).build().into()
}
fn sprintz(s: u64) -> CompressorConfig {
    CompressorConfig::delta_sprintz().scale(s).build().into()
}
const W: &[i64] = &[0, 1, 2, 5, 37, 300, 70_000, 1_000_000_000_000, 1_000_000_000_000_000];
harnesses! {
    fn c18_buff_spread() { spread(2, 0, W, buff) }
    fn c18_sprintz_spread() { spread(2, 0, W, sprintz) }
    fn c18_buff_masks() { masks(3, &[0, 1, 2], buff) }
    fn c18_sprintz_masks() { masks(3, &[0, 1, 2], sprintz) }
    fn c18_buff_long() { long(pick_from(&[9, 33]), &[0, 17], buff) }
    fn c18_sprintz_long() { long(pick_from(&[9, 33]), &[0, 17], sprintz) }
    fn c18_buff_far() { far(pick_from(&[64, 900]), &[0, 130], buff) }
    fn c18_sprintz_far() { far(pick_from(&[64, 900]), &[0, 130], sprintz) }
    fn c18_buff_huge() { huge_file(buff) }
    fn c18_sprintz_huge() { huge_file(sprintz) }
    fn c18t_buff_spread() { spread(3, 3, &W[1..], buff) }
    fn c18t_sprintz_spread() { spread(3, 3, &W[1..], sprintz) }
}
