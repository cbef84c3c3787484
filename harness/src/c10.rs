//! C10: BUFF keeps every value up to the precision of its scale, and controlled precision reads back no less than asked.
//! BOUNDS: scales 10^0..10^12; 1 value of every exponent from below the precision to 2^61 (sign and 11 symbolic mantissa bits, at the top, around the cut and at the bottom); 2 and 3 values of 3..4 symbolic bits whose range spans 0..62 bits; decimals of 11 bits and 3 of 4 bits over each scale; controlled precision 0..12 for 1 and 2 values within 2^52 steps of the precision; 400 fixed decimals with ranges of up to 40 bits, two of them symbolic, in one chunk and in chunks of 33 and 130
//! OUTSIDE: values whose magnitude exceeds 2^62 steps of the precision, infinities and NaN; scales above 10^12; longer files with symbolic values throughout
use crate::util::*;
use crate::vp::*;

const PM: [i32; 13] = [0, 5, 8, 11, 15, 18, 21, 25, 28, 31, 35, 38, 50];
fn ten(p: usize) -> u64 {
    let mut s = 1;
    for _ in 0..p {
        s *= 10;
    }
    s
}
/// v cut, towards zero, to a multiple of 2^-f
fn cut(v: f64, f: i32) -> f64 {
    let b = v.to_bits();
    let e = (b >> 52 & 0x7ff) as i32 - 1023;
    if e < -f {
        return 0.0;
    }
    if e + f >= 52 {
        return v;
    }
    f64::from_bits(b >> (52 - e - f) << (52 - e - f))
}
fn file(v: &[f64], p: usize, o: ChunkOption) -> Vec<u8> {
    encode(v, o, CompressorConfig::buff().scale(ten(p)).build())
}
fn kept(v: &[f64], p: usize, o: ChunkOption) {
    let g = decode(&file(v, p, o));
    check(g.len() == v.len(), "as many values as were encoded");
    for i in 0..v.len() {
        check(g[i] == cut(v[i], PM[p]), "the value cut to the precision of its scale");
        observe(g[i].to_bits());
    }
}
/// A value of exponent e, n symbolic bits in the mantissa from bit `at` up.
fn val(e: i32, n: u32, at: u32) -> f64 {
    let b = bits(n + 1);
    f64::from_bits(b >> n << 63 | ((e + 1023) as u64) << 52 | (b & ((1 << n) - 1)) << at)
}
/// Where to put n bits of mantissa for exponent e and precision f: the top, around the cut, the bottom.
fn place(e: i32, f: i32, n: u32) -> u32 {
    let c = 52 - (e + f);
    match pick(3) {
        0 => 52 - n,
        1 => (c - n as i32 / 2).clamp(0, 52 - n as i32) as u32,
        _ => 0,
    }
}
fn one(p: usize) {
    let f = PM[p];
    let e = pick(64) as i32 - f - 2;
    kept(&[val(e, 11, place(e, f, 11))], p, ChunkOption::Full);
}
/// Two values: one of few symbolic bits at the precision, one of exponent e.
fn two(p: usize) {
    let f = PM[p];
    let e = pick(63) as i32 - f - 1;
    let a = (bits(3) as i64 - 4) as f64 / (1u64 << f) as f64;
    let b = val(e, 3, if pick(2) == 0 { 49 } else { (50 - (e + f)).clamp(0, 49) as u32 });
    let v = if pick(2) == 0 { [a, b] } else { [b, a] };
    kept(&v, p, ChunkOption::Full);
}
/// Values of w bits of range, at the precision: n of them, k symbolic bits each at the low or the high end.
fn span(n: usize, k: u32, p: usize, o: ChunkOption) {
    let w = pick(63) as u32;
    let s = (1u64 << PM[p]) as f64;
    let lo = -(1i64 << w) / 2;
    let mut v = Vec::new();
    for i in 0..n {
        let sh = if i % 2 == 0 { 0 } else { w.saturating_sub(k) };
        let x = bits(k) << sh & ((1u64 << w) - 1);
        v.push((lo + x as i64) as f64 / s);
    }
    kept(&v, p, o);
}
/// Decimals over the scale come back after rounding to it.
fn dec(n: usize, k: u32, p: usize, o: ChunkOption) {
    let s = ten(p) as f64;
    let off = if pick(2) == 0 { 0 } else { 123_456 };
    let x: Vec<i64> = (0..n).map(|_| off + bits(k) as i64 - (1 << (k - 1))).collect();
    let v: Vec<f64> = x.iter().map(|&x| x as f64 / s).collect();
    let g = decode(&file(&v, p, o));
    check(g.len() == n, "as many values as were encoded");
    for i in 0..n {
        let r = (g[i] * s).round();
        check(r == x[i] as f64, "the decimals come back by rounding");
        check((g[i] - v[i]).abs() < 1.0 / (1u64 << PM[p]) as f64, "error below the precision");
        observe(g[i].to_bits());
    }
}
fn control(v: &[f64], p: usize) {
    let f = file(v, p, ChunkOption::Full);
    let full = decode(&f);
    let q = pick(13);
    let mut d = open(&f);
    d.with_precision(q as u32);
    let g = materialize(&mut d, None, None);
    check(g.len() == v.len(), "as many values as were encoded");
    for i in 0..v.len() {
        let e = full[i] - g[i];
        check(0.0 <= e && e < 1.0 / (1u64 << PM[q]) as f64, "no further below the full value than the precision asked for");
        if q >= p {
            check(g[i] == full[i], "all of it when more is asked than there is");
        }
        observe(g[i].to_bits());
    }
}
/// 400 decimals whose differences have all widths up to 40 bits, two of them symbolic.
fn many(s: u64) -> Vec<f64> {
    let mut x = 77u64;
    let mut v: Vec<f64> = (0..400)
        .map(|i| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let w = if i < 150 { x >> 33 & 7 } else if i < 300 { x >> 33 & 0xffff } else { x >> 24 };
            (w as i64 - if i % 3 == 0 { 5 } else { 0 }) as f64 / s as f64
        })
        .collect();
    v[10] = bits(3) as f64 / s as f64;
    v[398] = bits(3) as f64 / s as f64;
    v
}
harnesses! {
    fn c10_one_0() { one(0) }
    fn c10_one_1() { one(1) }
    fn c10_one_3() { one(3) }
    fn c10_one_12() { one(12) }
    fn c10t_one_rest() { one(pick_from(&[2, 4, 5, 6, 7, 8, 9, 10, 11])) }
    fn c10t_two_0() { two(0) }
    fn c10_two_2() { two(2) }
    fn c10t_two_12() { two(12) }
    fn c10t_two_rest() { two(pick_from(&[1, 3, 4, 5, 6, 7, 8, 9, 10, 11])) }
    fn c10_span3() { span(3, 3, pick_from(&[0, 4]), ChunkOption::Full) }
    fn c10_span9() { span(9, 1, 3, ChunkOption::Full) }
    fn c10_chunks() { span(5, 2, 2, ChunkOption::RecordCount(2)) }
    fn c10_dec1() { dec(1, 11, pick(13), ChunkOption::Full) }
    fn c10_dec3() { dec(3, 4, pick(13), ChunkOption::Full) }
    fn c10_control1() { let p = pick_from(&[1, 3, 12]); let e = pick(40) as i32 - PM[p]; control(&[val(e, 5, 47)], p) }
    fn c10_control2() { let p = pick_from(&[1, 4, 12]); let w = pick(52) as u32; let s = (1u64 << PM[p]) as f64; control(&[bits(4) as f64 / s, (((1u64 << w) | bits(3) << w.saturating_sub(4)) + bits(3)) as f64 / s], p) }
    fn c10_long() { let p = pick_from(&[0, 2, 5]); kept(&many(ten(p)), p, pick_from(&[ChunkOption::Full, ChunkOption::RecordCount(33), ChunkOption::RecordCount(130)])) }
    fn c10_long_control() { let p = pick_from(&[0, 2]); control(&many(ten(p)), p) }
}
