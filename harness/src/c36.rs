//! C36: collect-stats.
//! BOUNDS: texts of 1 to 5 numbers in up to 3 lines: 1 or 2 symbolic digits each, with sign, fraction and exponent (either case), blanks and empty fields; repeated numbers; one symbolic byte in a field; 4 small symbolic values; a field that is no number; reads failing from any of the first 6 calls on; no numbers; the exponents of 2.2 million zeros
//! OUTSIDE: infinities and NaN; the choice of files by pattern and the JSON file; rounding of inexact averages (compared to a part in 10^12)
use crate::fs::fs;
use crate::vp::*;

mod tool {
    #![allow(dead_code, unused)]
    include!("/repo/tools/src/collect-stats.rs");
    pub struct S {
        pub dec: [f64; 4],
        pub val: [f64; 4],
        pub exp: [f64; 4],
        pub lead: f64,
        pub trail: f64,
        pub repeated: f64,
        pub n: usize,
    }
    fn conv(s: Stats) -> S {
        S {
            dec: [s.decimal_precision_max as f64, s.decimal_precision_min as f64, s.decimal_precision_avg as f64, s.decimal_precision_std as f64],
            val: [s.value_max as f64, s.value_min as f64, s.value_avg as f64, s.value_std as f64],
            exp: [s.exponent_max as f64, s.exponent_min as f64, s.exponent_avg as f64, s.exponent_std as f64],
            lead: s.xor_leading_zeros_avg as f64,
            trail: s.xor_trailing_zeros_avg as f64,
            repeated: s.non_unique_value_ratio as f64,
            n: s.num_values as usize,
        }
    }
    pub fn run(p: &str) -> Option<S> {
        collect_stats_from_csv(Path::new(p)).ok().map(conv)
    }
}
const IN: &str = "/vp/d.csv";

fn digit() -> u8 {
    let d = bits(3) as u8;
    assume(d < 8);
    b'0' + d
}
/// A field, its places and its value.
fn field(k: usize) -> (Vec<u8>, usize, f64) {
    match k {
        0 => {
            let a = digit();
            (vec![a], 0, (a - b'0') as f64)
        }
        1 => {
            let a = digit();
            (vec![b'-', b'1', a, b'.', b'2', b'5'], 2, -(10.25 + (a - b'0') as f64))
        }
        2 => (b" +.125 ".to_vec(), 3, 0.125),
        3 => (b"5e-1".to_vec(), 1, 0.5),
        4 => (b"2.5E-1".to_vec(), 2, 0.25),
        5 => (b"1.25e1".to_vec(), 1, 12.5),
        6 => (b"12.5e4".to_vec(), 0, 125000.0),
        7 => (b"3E2".to_vec(), 0, 300.0),
        8 => (b"-0".to_vec(), 0, -0.0),
        _ => (b"1.50".to_vec(), 2, 1.5),
    }
}
fn near(a: f64, b: f64) -> bool {
    let d = if a > b { a - b } else { b - a };
    d <= 1e-12 * (if b < 0.0 { -b } else { b }) || d <= 1e-300
}
/// Is `g` the max, min, average and deviation of `v`?
fn four(g: &[f64; 4], v: &[f64]) -> bool {
    let n = v.len() as f64;
    let (mut lo, mut hi, mut s) = (v[0], v[0], 0.0);
    for &x in v {
        if x < lo {
            lo = x;
        }
        if x > hi {
            hi = x;
        }
        s += x;
    }
    let m = s / n;
    let mut q = 0.0;
    for &x in v {
        q += (x - m) * (x - m);
    }
    g[0] == hi && g[1] == lo && near(g[2], m) && near(g[3] * g[3], q / n)
}
fn is_stats(g: &tool::S, p: &[usize], v: &[f64]) {
    let n = v.len();
    check(g.n == n, "the number of values");
    let p: Vec<f64> = p.iter().map(|&x| x as f64).collect();
    check(four(&g.dec, &p), "the statistics of the places");
    check(four(&g.val, v), "the statistics of the values");
    let e: Vec<f64> = v.iter().map(|x| (x.to_bits() << 1 >> 53) as f64 - 1023.0).collect();
    check(four(&g.exp, &e), "the statistics of the exponents");
    let (mut l, mut t, mut same) = (0, 0, 0);
    for i in 1..n {
        let x = v[i].to_bits() ^ v[i - 1].to_bits();
        l += x.leading_zeros();
        t += x.trailing_zeros();
        if (0..i).any(|j| v[j].to_bits() == v[i].to_bits()) {
            same += 1;
        }
    }
    if n > 1 {
        check(near(g.lead, l as f64 / (n - 1) as f64), "the leading zeros");
        check(near(g.trail, t as f64 / (n - 1) as f64), "the trailing zeros");
    }
    check(near(g.repeated, same as f64 / n as f64), "the share of repeated values");
}
fn text(ks: &[usize], seps: &[&[u8]]) -> (Vec<u8>, Vec<usize>, Vec<f64>) {
    let (mut t, mut p, mut v) = (Vec::new(), Vec::new(), Vec::new());
    for (i, &k) in ks.iter().enumerate() {
        let (f, q, x) = field(k);
        t.extend_from_slice(&f);
        t.extend_from_slice(seps[i % seps.len()]);
        p.push(q);
        v.push(x);
    }
    (t, p, v)
}
const SEPS: [[&[u8]; 3]; 3] = [[b",", b"\n", b","], [b"\r\n", b",,", b"\n\n"], [b" , ", b",", b"\n,"]];
harnesses! {
    fn c36_pairs() {
        let (t, p, v) = text(&[pick(10), pick(10)], &SEPS[pick(3)]);
        fs().put(IN, t.clone());
        let Some(g) = tool::run(IN) else { panic!("numbers are accepted") };
        is_stats(&g, &p, &v);
        check(fs().get(IN) == Some(&t) && fs().n_open() == 0, "the text is left alone and closed");
    }
    fn c36_more() {
        let k = pick(10);
        let ks = [k, 0, (k + 3) % 10, k, 1];
        let (t, p, v) = text(&ks[..pick_from(&[1usize, 3, 4, 5])], &SEPS[pick(3)]);
        fs().put(IN, t);
        let Some(g) = tool::run(IN) else { panic!("numbers are accepted") };
        is_stats(&g, &p, &v);
    }
    fn c36_none() {
        fs().put(IN, pick_from(&[&b""[..], b"\n", b",,\n , \n"]).to_vec());
        let Some(g) = tool::run(IN) else { panic!("no numbers") };
        check(g.n == 0 && g.val == [0.0; 4] && g.dec == [0.0; 4] && g.exp == [0.0; 4], "nothing");
    }
    fn c36_malformed() {
        let at = pick(3);
        let bad = pick_from(&[&b"x"[..], b"1.2.3", b"1e", b"--1", b"1 2", b"0x1", b"1;2", b"\xff", b"e5", b"."]);
        let (mut t, _, _) = text(&[0, 3, 5][..at], &[b","]);
        t.extend_from_slice(bad);
        t.extend_from_slice(if flag() { b"\n1\n" } else { b"" });
        fs().put(IN, t);
        check(tool::run(IN).is_none(), "an error");
    }
    fn c36_fails() {
        let (t, p, v) = text(&[2, 3, 9], &SEPS[0]);
        fs().put(IN, t);
        fs().reads = pick(6);
        if let Some(g) = tool::run(IN) {
            check(fs().failed == 0, "failed reads are reported");
            is_stats(&g, &p, &v);
        }
    }
    fn c36_missing() {
        check(tool::run("/vp/none").is_none(), "a missing file is reported");
    }
}
