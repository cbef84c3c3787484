//! C33: experimenter's choice of scale and precision, rounding, statistics and saving of results.
//! BOUNDS: decimal literals of up to 4 digits before and after the point, with sign and exponent -19..19, 12 symbolic bits in their digits; texts of up to 6 such numbers in lines, with empty fields and blanks; 250 numbers of which 1 to 4 have more digits; 2 symbolic values in each of 4 schemes for the statistics; results saved over no file or an existing one, writes failing or split
//! OUTSIDE: the averages over experiment outputs; dropping the operating system's caches
use crate::fs::fs;
use crate::util::*;
use crate::vp::*;
use experimenter::*;

/// Digits after the point, counted from the parts of the literal.
fn places(frac: usize, exp: i32) -> usize {
    (frac as i32 - exp).max(0) as usize
}
fn digits(n: usize, t: &mut String) {
    for _ in 0..n {
        let d = bits(2) as u8;
        t.push((b'0' + 3 * d) as char);
    }
}
/// A literal and its places.
fn literal(exps: &[i32]) -> (String, usize) {
    let mut t = String::new();
    t.push_str(pick_from(&["", "-", "+"]));
    digits(1 + pick(3), &mut t);
    let f = pick(5);
    if f > 0 {
        t.push('.');
        digits(f - 1, &mut t);
    }
    let frac = f.saturating_sub(1);
    let e = pick_from(exps);
    if e != 99 {
        t.push_str(pick_from(&["e", "E"]));
        if e >= 0 && flag() {
            t.push('+');
        }
        t.push_str(&e.to_string());
    }
    (t, places(frac, if e == 99 { 0 } else { e }))
}
fn number(k: usize) -> (&'static str, usize) {
    [("0.5", 1), ("12", 0), ("-3.25", 2), ("7e-3", 3), ("1.5e-3", 4), ("2.50e1", 1), ("", 0), (" 4.125 ", 3), ("-9.0", 1), ("1e2", 0), ("0.123456789", 9), ("1e-9", 9), ("3.1E-2", 3)][k]
}
fn numbers() -> (String, Vec<usize>) {
    let (mut t, mut p) = (String::new(), Vec::new());
    let k = pick(13);
    for (i, k) in [k, pick(9), (k + 4) % 13, (k + 7) % 9].into_iter().enumerate() {
        let (s, n) = number(k);
        t.push_str(s);
        t.push(if i % 2 == 1 { '\n' } else { ',' });
        if !s.is_empty() {
            p.push(n);
        }
    }
    (t, p)
}
/// The places of all but less than one hundredth of the numbers.
fn enough(p: &[usize], all: bool) -> usize {
    let mut q = p.to_vec();
    q.sort();
    for &x in q.iter().rev() {
        let n = p.iter().filter(|&&y| y >= x).count();
        if all || n * 100 >= p.len() {
            return x;
        }
    }
    panic!("no numbers")
}
fn ten(n: usize) -> u64 {
    (0..n).fold(1, |a, _| a * 10)
}
fn chosen(t: &str, p: &[usize]) {
    let e = enough(p, false);
    match get_appropriate_scale(t.as_bytes(), ',') {
        Ok(s) => check(s as u64 == ten(e), "the scale that all but few numbers need"),
        Err(_) => check(ten(e) > u32::MAX as u64, "a scale that fits is found"),
    }
    check(get_appropriate_precision(t.as_bytes(), ',', false).ok() == Some(e as u32), "the places that all but few numbers need");
    check(get_appropriate_precision(t.as_bytes(), ',', true).ok() == Some(enough(p, true) as u32), "the places that all numbers need");
}
fn conf() -> CompressorConfig {
    match pick(4) {
        0 => CompressorConfig::uncompressed().build().into(),
        1 => CompressorConfig::rle().build().into(),
        2 => CompressorConfig::gorilla().build().into(),
        _ => CompressorConfig::chimp128().build().into(),
    }
}
const J: &str = "/vp/out/r.json";
harnesses! {
    fn c33_places() {
        let (t, p) = literal(&[99, -19, -2, 0, 1, 12]);
        check(get_decimal_precision(&t) == p, "the digits after the point");
    }
    fn c33_places_more() {
        let e = pick(39) as i32 - 19;
        let (t, p) = literal(&[e]);
        check(get_decimal_precision(&t) == p, "the digits after the point");
    }
    fn c33_chosen() {
        let (t, p) = numbers();
        chosen(&t, &p);
    }
    // few numbers with more digits than the others: fewer than one in a hundred do not count
    fn c33_few() {
        let n = pick_from(&[99usize, 100, 101, 200, 201, 300, 301]);
        let k = 1 + pick(4);
        let (mut t, mut p) = (String::new(), Vec::new());
        for i in 0..n {
            let (s, q) = if i % 23 == 5 && i / 23 < k { if i / 23 % 2 == 0 { ("0.12345", 5) } else { ("7.125", 3) } } else { ("4.5", 1) };
            t.push_str(s);
            t.push(if i % 10 == 9 { '\n' } else { ',' });
            p.push(q);
        }
        chosen(&t, &p);
    }
    fn c33_none() {
        check(get_appropriate_scale(&b"\n,\n"[..], ',').is_err(), "no numbers, no scale");
        check(get_appropriate_precision(&b""[..], ',', flag()).is_err(), "no numbers, no precision");
    }
    // rounded to the scale: no further off than half a step, and a multiple of it
    fn c33_round() {
        let s = pick_from(&[1usize, 10, 100, 4]);
        let x = (bits(8) as f64 - 128.0) / 16.0;
        let r = round_by_scale(x, s);
        check((r - x).abs() <= 0.5 / s as f64 + 1e-12, "at most half a step off");
        let k = r * s as f64;
        check((k - k.round()).abs() <= 1e-9, "a multiple of the step");
        check(round_by_scale(r, s) == r, "rounding again changes nothing");
    }
    fn c33_statistics() {
        let v = vec![1.5, bits(2) as f64, 1.5, -(bits(2) as f64)];
        let n = pick(5);
        let f = encode(&v[..n], pick_from(&[ChunkOption::Full, ChunkOption::RecordCount(1), ChunkOption::RecordCount(3)]), conf());
        let d = open(&f);
        let s = match get_compress_statistics(&d) { Ok(s) => s, Err(_) => panic!("statistics") };
        check(s.uncompressed_size == 8 * n as u64, "eight bytes each");
        check(s.compressed_size == f.len() as u64, "the size of the file");
        let k: u64 = d.footer().chunk_footers().iter().count() as u64;
        check((s.compressed_size_chunk_only < s.compressed_size) & (k > 0 || s.compressed_size_chunk_only == 0), "the chunks are part of the file");
        if n > 0 {
            check(s.compression_ratio == s.compressed_size as f64 / s.uncompressed_size as f64, "the ratio");
            check(s.compression_ratio_chunk_only == s.compressed_size_chunk_only as f64 / s.uncompressed_size as f64, "the ratio of the chunks");
        }
    }
    fn c33_save() {
        fs().cap = pick_from(&[1, 5, usize::MAX]);
        let a = u8s();
        let want = format!("[\n  {},\n  \"x\"\n]", a);
        let old = flag();
        if old {
            fs().put(J, b"old".to_vec());
        }
        check(save_json_safely(&(a, "x"), J).is_ok(), "saving");
        let g = fs().get(J).cloned().unwrap_or_default();
        if old {
            check(g == b"old", "an existing file is kept");
        } else {
            check(g == want.as_bytes(), "the value as JSON");
        }
        check(fs().n_open() == 0, "the file is closed");
    }
    fn c33_save_fails() {
        fs().cap = 5;
        fs().writes = pick(4);
        if save_json_safely(&(7, "x"), J).is_ok() {
            check(fs().failed == 0, "a failed write is reported");
            check(fs().get(J).is_some_and(|g| g == b"[\n  7,\n  \"x\"\n]"), "what is reported as saved is saved");
        }
    }
}
