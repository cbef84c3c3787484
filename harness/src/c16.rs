//! C16: in-place filters (BUFF, DeltaSprintz) return exactly the records asked for that satisfy the predicate.
//! BOUNDS: scales 1, 10, 100, 1000; 2 records (3 in thorough) and predicate constants that are decimals of the scale, 2..3 symbolic bits each around two offsets and with spreads giving ranges of 0 to 40 bits, constants inside and outside the range of the data, NaN, infinite and huge constants; 35, 40 and 70 records (the SIMD path) with two records and the constants symbolic; all 11 predicate shapes; one chunk or two; no mask, every subset of the first 2 records, masks beyond the end; every chunk id and none; 31, 32, 33, 62, 63, 64 and 120 whole numbers of 4, 8, 13, 16 and 22 bits with ties in the leading byte columns, two records and the constant with 3 symbolic bits, in one chunk and in chunks of 37 and 45 (not aligned to 8), 9 masks; 65600 records with two symbolic ones around the 65536th
//! OUTSIDE: BUFF predicate constants with more decimals than the scale keeps (they are first cut to its precision); longer files
use crate::util::*;
use crate::vp::*;

fn go(v: &[f64], a: Ask, p: Predicate, c: impl Into<CompressorConfig>) {
    let f = encode(v, a.opt, c);
    let mut d = open(&f);
    let r = d.filter(p, a.mask.as_ref(), a.chunk).expect("filter");
    is_filtered(&r, &a, v, &p);
}
/// Records and predicate constants that are decimals over s: values off + w * (0..3), or off + (0..3).
fn decimals(n: usize, s: u64, w: i64, off: i64) -> (Vec<f64>, Predicate) {
    let v = (0..n).map(|i| (off + bits(2) as i64 * if i % 2 == 0 { w } else { 1.min(w) }) as f64 / s as f64).collect();
    let k = off + (bits(3) as i64 - 1) * w.max(1) + pick(2) as i64;
    let l = k + w;
    (v, predicate(k as f64 / s as f64, l as f64 / s as f64))
}
/// Every spread, no mask or all.
fn spread(n: usize, s: u64, ws: &[i64], c: fn(u64) -> CompressorConfig) {
    let (v, p) = decimals(n, s, pick_from(ws), pick_from(&[0, -7]));
    go(&v, ask(n, &[0], 0), p, c(s))
}
/// Every mask and chunk.
fn masks(n: usize, sizes: &[usize], s: u64, c: fn(u64) -> CompressorConfig) {
    let (v, p) = decimals(n, s, pick_from(&[0, 1, 37, 70_000]), -7);
    go(&v, ask(n, sizes, 2), p, c(s))
}
/// Constants that are no decimals: NaN, infinities, huge.
fn strange(n: usize, c: fn(u64) -> CompressorConfig) {
    let s = pick_from(&[1, 100]);
    let x = |k: usize| [2.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e300, 9.3e18, -9.3e18, 1e17, -1e17, 4.7e18, -4.7e18, 0.0, -0.0, 1e-300, -1e-300][k];
    let v: Vec<f64> = (0..2).map(|_| (bits(2) as i64 - 1) as f64).collect();
    let p = if pick(2) == 0 { predicate(x(pick(n)), 2.0) } else { predicate(0.0, x(pick(n))) };
    go(&v, ask(2, &[0], 0), p, c(s))
}
fn huge_file(c: fn(u64) -> CompressorConfig) {
    let v = huge();
    let o = cut(HUGE, &[0, 65_530]);
    let f = encode(&v, o.0, c(1));
    let a = ask_huge(o);
    let mut d = open(&f);
    let p = [Predicate::Eq(4.0), Predicate::Ne(4.0), Predicate::Range(Range::new(RangeValue::Inclusive(3.0), RangeValue::Exclusive(9.0)))][pick(3)];
    let r = d.filter(p, a.mask.as_ref(), a.chunk).expect("filter");
    is_filtered(&r, &a, &v, &p);
}
fn buff(s: u64) -> CompressorConfig {
    CompressorConfig::buff().scale(s).build().into()
}
fn sprintz(s: u64) -> CompressorConfig {
    CompressorConfig::delta_sprintz().scale(s).build().into()
}
harnesses! {
    fn c16_buff_spread() { spread(2, pick_from(&[1, 100]), &[0, 1, 37, 300, 70_000], buff) }
    fn c16_sprintz_spread() { spread(2, pick_from(&[1, 100]), &[0, 1, 37, 70_000], sprintz) }
    fn c16t_buff_spread() { spread(3, pick_from(&[10, 1000]), &[1, 5, 300, 1_000_000_000_000], buff) }
    fn c16t_sprintz_spread() { spread(3, pick_from(&[10, 1000]), &[1, 5, 300, 1_000_000_000_000], sprintz) }
    fn c16_buff_masks() { masks(2, &[0, 1], pick_from(&[1, 100]), buff) }
    fn c16_sprintz_masks() { masks(2, &[0, 1], pick_from(&[1, 100]), sprintz) }
    fn c16_buff_strange() { strange(14, buff) }
    fn c16_sprintz_strange() { strange(16, sprintz) }
    fn c16_sprintz_off() {
        let v: Vec<f64> = (0..2).map(|_| (bits(2) as i64 - 1) as f64 / 10.0).collect();
        let k = (bits(5) as i64 - 10) as f64 / 80.0;
        let l = if pick(2) == 0 { k } else { k + 0.07 };
        go(&v, ask(2, &[0], 0), predicate(k, l), sprintz(10))
    }
    fn c16_buff_simd() { simd(40, &[0], 0, buff) }
    fn c16_buff_simd_masks() { simd(35, &[0], 1, buff) }
    fn c16t_buff_simd() { simd(70, &[0, 35], 1, buff) }
    fn c16_buff_lengths() { far(pick_from(&[31, 32, 33, 62, 63, 64]), &[0], buff) }
    fn c16_buff_far() { far(120, &[0, 37, 45], buff) }
    fn c16_buff_huge() { huge_file(buff) }
    fn c16_sprintz_huge() { huge_file(sprintz) }
    fn c16_sprintz_far() { far(120, &[0, 45], sprintz) }
}
/// Long files, masks with gaps, chunks that start anywhere.
fn far(n: usize, sizes: &[usize], c: fn(u64) -> CompressorConfig) {
    let (v, k) = wide(n);
    let o = cut(n, sizes);
    let f = encode(&v, o.0, c(1));
    let a = ask_far(n, o);
    let k = (k + bits(3) as i64) as f64;
    let p = predicate(k, k + pick_from(&[0.0, 1000.0]));
    let mut d = open(&f);
    let r = d.filter(p, a.mask.as_ref(), a.chunk).expect("filter");
    is_filtered(&r, &a, &v, &p);
}
/// 32 records and more, two of them symbolic.
fn simd(n: usize, sizes: &[usize], m: usize, c: fn(u64) -> CompressorConfig) {
    let w = pick_from(&[1, 300]);
    let mut v: Vec<f64> = (0..n).map(|i| ((i * 7 % 16) as i64 * w) as f64).collect();
    v[13] = ((bits(3) + 4) as i64 * w) as f64;
    v[n - 2] = ((bits(3) + 4) as i64 * w) as f64;
    let k = ((bits(3) + 2) as i64 * w) as f64;
    let a = ask(n, sizes, m);
    go(&v, a, predicate(k, k + 5.0 * w as f64), c(1))
}
