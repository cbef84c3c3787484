//! Shared by the harnesses: whole-file encode/decode through the public API.
#![allow(dead_code)]
use crate::vp::*;
pub use ebi::api::decoder::{Decoder, DecoderInput, DecoderOutput};
pub use ebi::api::encoder::{Encoder, EncoderInput, EncoderOutput};
pub use ebi::compressor::{Compressor, CompressorConfig};
pub use ebi::encoder::ChunkOption;
use std::io::Cursor;

pub fn encode(v: &[f64], opt: ChunkOption, c: impl Into<CompressorConfig>) -> Vec<u8> {
    let mut e = Encoder::new(EncoderInput::from_f64_slice(v), EncoderOutput::from_vec(Vec::new()), opt, c);
    e.encode().expect("encode");
    e.into_output().into_vec()
}
pub type Dec<'a> = Decoder<Cursor<&'a [u8]>>;
pub fn open(file: &[u8]) -> Dec<'_> {
    match Decoder::new(DecoderInput::from_reader(Cursor::new(file))) {
        Ok(d) => d,
        Err(_) => panic!("open"),
    }
}
pub fn to_f64(b: Vec<u8>) -> Vec<f64> {
    b.chunks_exact(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect()
}
pub fn materialize(d: &mut Dec<'_>, bm: Option<&roaring::RoaringBitmap>, chunk: Option<ebi::api::decoder::ChunkId>) -> Vec<f64> {
    let mut o = DecoderOutput::from_vec(Vec::new());
    d.materialize(&mut o, bm, chunk).expect("materialize");
    to_f64(o.into_writer().into_inner())
}
pub fn decode(file: &[u8]) -> Vec<f64> {
    let mut d = open(file);
    materialize(&mut d, None, None)
}
pub fn same_bits(a: &[f64], b: &[f64]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i].to_bits() == b[i].to_bits();
    }
    ok
}
/// n fully symbolic doubles, drawn as successive XOR differences (a bijection on n-tuples).
pub fn deltas(n: usize) -> Vec<f64> {
    let mut v = Vec::with_capacity(n);
    let mut p = 0u64;
    for _ in 0..n {
        p ^= u64s();
        v.push(f64::from_bits(p));
    }
    v
}
pub const END: u64 = 0x7ff8_0000_0000_0000;

/// A symbolic u64 with exactly `lz` leading and `tz` trailing zeros (lz = 64: zero).
pub fn shaped(lz: u32, tz: u32) -> u64 {
    if lz >= 64 {
        return 0;
    }
    let top = 63 - lz;
    if tz >= top {
        return 1 << top;
    }
    let mid = u64s() & ((1u64 << top) - 1) & !((2u64 << tz) - 1);
    1 << top | mid | 1 << tz
}
/// Any u64, one path per (leading zeros, trailing zeros).
pub fn any_shape() -> u64 {
    let lz = pick(65) as u32;
    if lz == 64 {
        return 0;
    }
    shaped(lz, pick(64 - lz as usize) as u32)
}
/// A u64 of one of the listed shapes.
pub fn some_shape(s: &[(u32, u32)]) -> u64 {
    let (lz, tz) = pick_from(s);
    shaped(lz, tz)
}
/// k+1 values whose successive XOR differences have shapes from `s` (symbolic bits between).
pub fn seq(k: usize, s: &[(u32, u32)]) -> Vec<f64> {
    let d: Vec<u64> = (0..k).map(|_| some_shape(s)).collect();
    chain(&d, shaped(1, 51))
}
/// Chunks of `c` such values, the last one with `last`.
pub fn seqs(n: usize, c: usize, last: usize, s: &[(u32, u32)]) -> Vec<f64> {
    let mut v = Vec::new();
    for i in 0..n {
        v.extend(seq(if i + 1 == n { last } else { c } - 1, s));
    }
    v
}
/// Values whose successive XOR differences are d[1..], the last differing from the end marker by e.
pub fn chain(d: &[u64], e: u64) -> Vec<f64> {
    let n = d.len() + 1;
    let mut v = vec![0u64; n];
    v[n - 1] = END ^ e;
    for i in (0..n - 1).rev() {
        v[i] = v[i + 1] ^ d[i];
    }
    v.into_iter().map(f64::from_bits).collect()
}
/// Same as `shaped`, the 14 low bits concrete.
pub fn keyed(lz: u32, tz: u32) -> u64 {
    if lz >= 64 || 63 - lz <= tz {
        return shaped(lz, tz);
    }
    let top = 63 - lz;
    let mid = u64s() & ((1u64 << top) - 1) & !((2u64 << tz) - 1) & !0x3fff;
    1 << top | mid | 1 << tz
}
pub fn any_keyed() -> u64 {
    let lz = pick(65) as u32;
    if lz == 64 {
        return 0;
    }
    keyed(lz, pick(64 - lz as usize) as u32)
}
/// As `keyed`, with low bit 13 also set: never the same low bits as a `keyed` value, unless none is set.
pub fn some_keyed(s: &[(u32, u32)]) -> u64 {
    let (lz, tz) = pick_from(s);
    keyed(lz, tz) | if tz < 13 && lz < 50 { 1 << 13 } else { 0 }
}
/// Any value with clear low bits.
pub fn any_high() -> u64 {
    let lz = pick(50) as u32;
    keyed(lz, 14 + pick(50 - lz as usize) as u32)
}
/// A canonical NaN in the data, between two symbolic neighbours.
pub fn nan_file(c: impl Into<CompressorConfig>) {
    let v = [1.5, f64::from_bits(END), 2.5];
    let g = decode(&encode(&v, ChunkOption::Full, c));
    check(same_bits(&g, &v), "a canonical NaN in the data is stored like any other value");
}

// ---- queries ----
pub use ebi::api::decoder::ChunkId;
pub use ebi::decoder::query::{Predicate, Range, RangeValue};
pub use roaring::RoaringBitmap;

/// One way of asking: how the file is chunked, which chunk and which records are asked for.
pub struct Ask {
    pub opt: ChunkOption,
    pub chunk: Option<ChunkId>,
    pub mask: Option<RoaringBitmap>,
    /// Is record i asked for?
    pub sel: Vec<bool>,
}
/// All subsets of n records (or no mask), chunks of the listed sizes (0: one chunk), all chunks or one of them.
pub fn ask(n: usize, sizes: &[usize], m: usize) -> Ask {
    let c = pick_from(sizes);
    let opt = if c == 0 { ChunkOption::Full } else { ChunkOption::RecordCount(c) };
    let c = if c == 0 { n } else { c };
    let k = pick(n.div_ceil(c) + 1);
    let chunk = if k == 0 { None } else { Some(ChunkId::new(k - 1)) };
    // no mask, all subsets of the first m records, or all records and more
    let s = pick((1 << m) + 2);
    let mask = if s == 0 {
        None
    } else if s == 1 {
        Some((0..n as u32 + 3).collect::<RoaringBitmap>())
    } else {
        Some((0..m as u32).filter(|i| (s - 2) >> i & 1 == 1).chain(if s & 1 == 1 { Some(70_000) } else { None }).collect())
    };
    let sel = (0..n).map(|i| (k == 0 || i / c == k - 1) && mask.as_ref().is_none_or(|b| b.contains(i as u32))).collect();
    Ask { opt, chunk, mask, sel }
}
/// Any predicate over a and b.
pub fn predicate(a: f64, b: f64) -> Predicate {
    fn end(k: usize, x: f64) -> RangeValue {
        match k {
            0 => RangeValue::Inclusive(x),
            1 => RangeValue::Exclusive(x),
            _ => RangeValue::None,
        }
    }
    match pick(11) {
        0 => Predicate::Eq(a),
        1 => Predicate::Ne(a),
        k => Predicate::Range(Range::new(end((k - 2) / 3, a), end((k - 2) % 3, b))),
    }
}
pub fn holds(p: &Predicate, x: f64) -> bool {
    match *p {
        Predicate::Eq(a) => x == a,
        Predicate::Ne(a) => x != a,
        Predicate::Range(r) => {
            (match r.start {
                RangeValue::Inclusive(a) => x >= a,
                RangeValue::Exclusive(a) => x > a,
                RangeValue::None => true,
            }) & (match r.end {
                RangeValue::Inclusive(b) => x <= b,
                RangeValue::Exclusive(b) => x < b,
                RangeValue::None => true,
            })
        }
    }
}
/// r is exactly the set of records asked for whose value satisfies p.
pub fn is_filtered(r: &RoaringBitmap, a: &Ask, v: &[f64], p: &Predicate) {
    let mut n = 0;
    for i in 0..v.len() {
        let c = r.contains(i as u32);
        n += c as u64;
        if a.sel[i] {
            check(c == holds(p, v[i]), "a record asked for is in the result exactly when it satisfies the predicate");
        } else {
            check(!c, "no record that was not asked for");
        }
        observe(c as u64);
    }
    check(r.len() == n, "no record that does not exist");
}
/// min and max of the records asked for: NaNs are ignored, of no records they are the infinities.
pub fn is_least<R: std::io::Read + std::io::Seek>(d: &mut ebi::api::decoder::Decoder<R>, a: &Ask, v: &[f64]) {
    let lo = d.min(a.mask.as_ref(), a.chunk).expect("min");
    let hi = d.max(a.mask.as_ref(), a.chunk).expect("max");
    let (mut l, mut h) = (lo == f64::INFINITY, hi == f64::NEG_INFINITY);
    for i in 0..v.len() {
        if a.sel[i] {
            check((v[i] != v[i]) | (lo <= v[i]), "min is not above any record asked for");
            check((v[i] != v[i]) | (hi >= v[i]), "max is not below any record asked for");
            l |= lo == v[i];
            h |= hi == v[i];
        }
    }
    check(l, "min is one of the records asked for, or infinite");
    check(h, "max is one of the records asked for, or infinite");
    seen(lo);
    seen(hi);
}
/// Observe a computed number: the sign of a zero and the kind of NaN are up to the processor.
pub fn seen(x: f64) {
    observe(if x != x { 1 } else if x == 0.0 { 0 } else { x.to_bits() });
}
pub fn is_sum(r: f64, a: &Ask, v: &[f64]) {
    let mut s = 0.0;
    for i in 0..v.len() {
        if a.sel[i] {
            s += v[i];
        }
    }
    check((r == s) | ((r != r) & (s != s)), "the sum of the records asked for");
    seen(r);
}
// ---- longer files, few symbolic values: picks after encoding share its work ----
/// One of the listed chunk sizes (0: one chunk).
pub fn cut(n: usize, sizes: &[usize]) -> (ChunkOption, usize) {
    match pick_from(sizes) {
        0 => (ChunkOption::Full, n),
        c => (ChunkOption::RecordCount(c), c),
    }
}
/// Masks with gaps, blocks, single records and none; all chunks, the first, the second or the last.
pub fn ask_far(n: usize, cut: (ChunkOption, usize)) -> Ask {
    let (opt, c) = cut;
    let e = n.div_ceil(c);
    let k = if e == 1 { 0 } else { pick_from(&[0, 1, 2, e]) };
    let chunk = if k == 0 { None } else { Some(ChunkId::new(k - 1)) };
    let s = pick(9);
    let take = |i: usize| match s {
        2 => i % 2 == 0,
        3 => i % 41 == 7 || i + 1 == n,
        4 => i + 1 == n,
        5 => i == 0 || i == n - 2,
        6 => (n / 3..n - n / 3).contains(&i),
        7 => i > 2 && i % 9 != 4,
        8 => false,
        _ => true,
    };
    let mask = match s {
        0 => None,
        _ => Some((0..n).filter(|&i| take(i)).map(|i| i as u32).chain(Some(n as u32 + 70_000)).collect::<RoaringBitmap>()),
    };
    let sel = (0..n).map(|i| (k == 0 || i / c == k - 1) && take(i)).collect();
    Ask { opt, chunk, mask, sel }
}
/// Whole numbers of one of four families, together needing no, one or two full byte columns and a
/// partial one or none, with ties in the leading ones; three of them have symbolic low bits.
pub fn wide(n: usize) -> (Vec<f64>, i64) {
    let f = pick(5);
    let x = |i: usize, b: i64| -> i64 {
        match f {
            0 => (i as i64 * 7 + b) % 16,
            1 => (i as i64 * 37 + b) % 256,
            2 => (i as i64 % 2) * 0xff00 + (i as i64 * 7 + b) % 256,
            3 => (i as i64 % 5) * 0x400 + (i as i64 * 3 + b) % 128,
            _ => (i as i64 % 2) * 0x30_0000 + (i as i64 % 3) * 0x1000 + (i as i64 + b) % 16,
        }
    };
    let mut v: Vec<f64> = (0..n).map(|i| x(i, 0) as f64).collect();
    for i in [n / 3, n - 2] {
        v[i] = (x(i, 0) / 8 * 8 + bits(3) as i64) as f64;
    }
    (v, x(n / 3, 0) / 8 * 8)
}
/// More records than 16 bits can number; two around that boundary are symbolic.
pub const HUGE: usize = 65_600;
pub fn huge() -> Vec<f64> {
    let mut v: Vec<f64> = (0..HUGE).map(|i| (i / 3 * 7 % 16) as f64).collect();
    v[65_535] = bits(1) as f64 * 4.0;
    v[65_537] = bits(1) as f64 * 15.0;
    v
}
pub fn ask_huge(cut: (ChunkOption, usize)) -> Ask {
    let (opt, c) = cut;
    let s = pick(3);
    let take = |i: usize| match s {
        0 => true,
        1 => i == 3 || (65_500..65_550).contains(&i),
        _ => i > 65_536 && i % 2 == 1,
    };
    let chunk = if c < HUGE && pick(2) == 1 { Some(ChunkId::new(1)) } else { None };
    let sel = (0..HUGE).map(|i| (chunk.is_none() || i / c == 1) && take(i)).collect();
    let mask = match s {
        0 => None,
        1 => Some([3].into_iter().chain(65_500..65_550).collect()),
        _ => Some((65_537..HUGE as u32).step_by(2).collect()),
    };
    Ask { opt, chunk, mask, sel }
}
/// 300 records in runs of up to 280 (RLE runs are cut at 255), two of them symbolic.
pub fn runs(n: usize, sym: bool) -> Vec<f64> {
    let mut v: Vec<f64> = (0..n).map(|i| if i < 12 { (i / 3) as f64 * 0.25 } else if i < n - 8 { 2.5 } else { (i % 4) as f64 * -1.75 + 0.0 }).collect();
    v[n - 3] = if sym { bits(3) as f64 - 2.5 } else { -1.75 };
    v[5] = if sym { bits(2) as f64 * 0.25 } else { 0.5 };
    v
}
/// n mixed values in a fixed order (repeats, small changes, decimals, any bits), three of them with symbolic bits.
pub fn mixed(n: usize) -> Vec<f64> {
    let mut x = 0x9e37_79b9_7f4a_7c15u64;
    let mut v: Vec<f64> = Vec::with_capacity(n);
    for i in 0..n {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let r = x >> 33;
        let y = match r % 8 {
            0 | 1 if i > 0 => v[i - 1],
            2 if i > 0 => f64::from_bits(v[i - 1].to_bits() ^ (r >> 3 & 0xff) << (r >> 12 & 31)),
            3 if i > 40 => f64::from_bits(v[i - (r >> 3 & 31) as usize - 1].to_bits() ^ (r >> 3 & 0xf) << 30),
            4 => f64::from_bits(x >> 2),
            5 => -((r >> 8 & 0xfff) as f64) / 100.0,
            _ => ((r >> 8 & 0xfff) as f64) / 10.0,
        };
        v.push(y);
    }
    for i in [if n > 20_000 { n - 300 } else { n / 2 }, n - 2] {
        v[i] = f64::from_bits(v[i].to_bits() ^ bits(2) << 45);
    }
    v
}
/// A long file comes back bit by bit, in one chunk and in several.
pub fn long_file(n: usize, c: impl Into<CompressorConfig>) {
    let v = mixed(n);
    let o = cut(n, &[0, 131]);
    let g = decode(&encode(&v, o.0, c));
    check(g.len() == n, "as many values as were encoded");
    for i in 0..n {
        check(g[i].to_bits() == v[i].to_bits(), "bit-identical value");
    }
    observe(g[n - 2].to_bits());
    observe(g[n - 1].to_bits());
}
