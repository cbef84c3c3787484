//! C29: csv2bin.
//! BOUNDS: texts of up to 6 fields over 3 lines: numbers of 1..4 symbolic digits with sign, fraction and exponent, words (inf, NaN), empty fields, blanks, missing last newline, CRLF; words that are not numbers at any field; any one symbolic byte in a field; files of 3000 numbers with two of them symbolic; transfers of at most 7, 4096 or any number of bytes per call, one interruption at any of the first 12 calls; reads or writes failing from any of the first 8 calls on; no file, a shorter or a longer file there before
//! OUTSIDE: the choice of files by pattern (the glob crate) and the command line; numbers of more than 17 digits; the operating system's own file code (a model stands for it)
use crate::fs::fs;
use crate::vp::*;
use std::path::PathBuf;

mod tool {
    #![allow(dead_code, unused)]
    include!("/repo/tools/src/csv2bin.rs");
    pub fn run(p: &PathBuf) -> bool {
        process_file(p).is_ok()
    }
}
const IN: &str = "/vp/d/data.csv";
const OUT: &str = "/vp/d/binary/data.bin";

fn run() -> bool {
    tool::run(&PathBuf::from(IN))
}
fn digit() -> u8 {
    let d = bits(4) as u8;
    assume(d < 10);
    b'0' + d
}
/// A field and its value.
fn field(k: usize) -> (Vec<u8>, Option<f64>) {
    match k {
        0 => {
            let (a, b) = (digit(), digit());
            (vec![a, b], Some((((a - b'0') as u32) * 10 + (b - b'0') as u32) as f64))
        }
        1 => {
            let (a, b) = (digit(), digit());
            (vec![b'-', a, b'.', b], Some(-((((a - b'0') as u32) * 10 + (b - b'0') as u32) as f64 / 10.0)))
        }
        2 => {
            let a = digit();
            (vec![b' ', b'+', b'.', a, b'5', b' '], Some((((a - b'0') as u32) * 10 + 5) as f64 / 100.0))
        }
        3 => {
            let a = digit();
            (vec![a, b'e', b'3'], Some((a - b'0') as f64 * 1000.0))
        }
        4 => (vec![], None),
        5 => (b"123456789.0625".to_vec(), Some(123456789.0625)),
        6 => (b"-inf".to_vec(), Some(f64::NEG_INFINITY)),
        7 => (b"0.1e-3".to_vec(), Some(1e-4)),
        8 => (b"-0".to_vec(), Some(-0.0)),
        9 => (b"1e400".to_vec(), Some(f64::INFINITY)),
        10 => (b"17976931348623157e292".to_vec(), Some(f64::MAX)),
        _ => (b"5e-324".to_vec(), Some(f64::from_bits(1))),
    }
}
fn text(ks: &[usize], seps: &[&[u8]]) -> (Vec<u8>, Vec<f64>) {
    let (mut t, mut v) = (Vec::new(), Vec::new());
    for (i, &k) in ks.iter().enumerate() {
        let (f, x) = field(k);
        t.extend_from_slice(&f);
        t.extend_from_slice(seps[i]);
        v.extend(x);
    }
    (t, v)
}
fn is_out(v: &[f64]) {
    let Some(g) = fs().get(OUT) else { panic!("the file is there") };
    check(g.len() == 8 * v.len(), "as many numbers as fields");
    for i in 0..v.len() {
        check(g[8 * i..8 * i + 8] == v[i].to_le_bytes(), "the number of the field");
    }
}
fn before() {
    match pick(3) {
        0 => {}
        k => fs().put(OUT, vec![0xee; [5, 60_000][k - 1]]),
    }
}
const SEPS: [[&[u8]; 4]; 5] = [[b",", b",", b",", b"\n"], [b"\n", b",", b"\n", b""], [b",", b"\r\n", b",", b"\r\n"], [b",", b"\n\n", b"\n", b"\n\n"], [b",", b",", b"\n", b",\n"]];
fn many() -> (Vec<u8>, Vec<f64>) {
    let (mut t, mut v) = (Vec::new(), Vec::new());
    for i in 0..3000usize {
        if i == 1023 || i == 2999 {
            let (f, x) = field(1);
            t.extend_from_slice(&f);
            v.extend(x);
        } else {
            let n = i * 37 % 1000;
            if n >= 100 {
                t.push(b'0' + (n / 100) as u8);
            }
            t.extend_from_slice(&[b'0' + (n / 10 % 10) as u8, b'.', b'0' + (n % 10) as u8]);
            v.push(n as f64 / 10.0);
        }
        t.push(if i % 7 == 6 { b'\n' } else { b',' });
    }
    (t, v)
}
harnesses! {
    fn c29_fields() {
        let k = pick(12);
        let (t, v) = text(&[k, pick(6), (k + 5) % 12, 0], &SEPS[pick(5)]);
        fs().put(IN, t);
        before();
        check(run(), "numbers are accepted");
        is_out(&v);
        check(fs().n_open() == 0, "the files are closed");
    }
    fn c29_empty() {
        fs().put(IN, pick_from(&[&b""[..], b"\n", b",,\n,\n"]).to_vec());
        before();
        check(run(), "no numbers");
        is_out(&[]);
    }
    // A field that is not a number: an error, and no output.
    fn c29_malformed() {
        let at = pick(3);
        let bad = pick_from(&[&b"x"[..], b"1.2.3", b"1e", b"--1", b" ", b"1 2", b"0x1", b"1;2", b"\xff", b"1_0", b"e5", b"."]);
        let (mut t, _) = text(&[0, 1, 3, 5][..at + 1], &SEPS[pick(3)]);
        if t.last().is_some_and(|c| c.is_ascii_digit()) {
            t.push(b',');
        }
        t.extend_from_slice(bad);
        if flag() {
            t.extend_from_slice(b",1\n");
        }
        fs().put(IN, t);
        before();
        check(!run(), "a field that is not a number is an error");
        check(fs().get(OUT).is_none(), "no output of an erroneous file");
    }
    // Any byte after a digit: the number it makes, or an error.
    fn c29_byte() {
        let c = u8s();
        fs().put(IN, vec![b'4', b',', b'2', c, b'1', b'\n']);
        let want: Option<Vec<f64>> = match c {
            b'0'..=b'9' => Some(vec![4.0, 201.0 + 10.0 * (c - b'0') as f64]),
            b'.' => Some(vec![4.0, 2.1]),
            b',' | b'\n' => Some(vec![4.0, 2.0, 1.0]),
            b'e' | b'E' => Some(vec![4.0, 20.0]),
            _ => None,
        };
        let r = run();
        match want {
            Some(v) => {
                check(r, "numbers are accepted");
                is_out(&v);
            }
            None => {
                check(!r, "not a number");
                check(fs().get(OUT).is_none(), "no output of an erroneous file");
            }
        }
    }
    fn c29_split() {
        fs().cap = pick_from(&[1, 7]);
        fs().eintr = pick(13).wrapping_sub(1);
        let (t, v) = text(&[0, 1, 2, 3], &SEPS[pick(5)]);
        fs().put(IN, t);
        check(run(), "numbers are accepted");
        is_out(&v);
    }
    fn c29_long() {
        fs().cap = pick_from(&[4095, 8192, usize::MAX]);
        let (t, v) = many();
        fs().put(IN, t);
        before();
        check(run(), "numbers are accepted");
        is_out(&v);
    }
    fn c29_fails() {
        let (t, v) = if flag() { many() } else { text(&[0, 1, 2, 3], &SEPS[0]) };
        fs().put(IN, t);
        if flag() {
            fs().reads = pick(8);
        } else {
            fs().writes = pick(8);
        }
        if run() {
            check(fs().failed == 0, "failed reads and writes are reported");
            is_out(&v);
        } else {
            check(fs().get(OUT).is_none(), "no output of a failed conversion");
        }
    }
    fn c29_missing() {
        check(!run(), "a missing input is reported");
    }
}
