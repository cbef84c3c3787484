//! C22: every operation on a chunk reader or decoder gives the same result whatever was asked before.
//! BOUNDS: all 13 schemes; sequences of 2 operations (3 in thorough) on one chunk reader, of materialize, filter, filter_materialize, sum, min, max, dot product, squared distance, decompression, full and partial iteration, with no mask or one of three masks (one without a record of the chunk); sequences of 3 operations on one decoder over 2 chunks; sequences of 2 (3) controlled precisions of 0 to 6 decimals on one BUFF reader, with or without a full read first; sequences of 2 operations on a chunk of 270 fixed records; 3 records, multiples of 1/4 of 2 symbolic bits (fully symbolic bits where no arithmetic is involved)
//! OUTSIDE: longer sequences and files
use crate::util::*;
use crate::vp::*;
use ebi::decoder::chunk_reader::GeneralChunkReader;
use ebi::decoder::FileMetadataLike;

const P: Predicate = Predicate::Range(Range { start: RangeValue::Inclusive(0.25), end: RangeValue::Exclusive(1.25) });
fn mask(k: usize, n: usize) -> Option<RoaringBitmap> {
    match k {
        1 if n > 3 => Some((0..n as u32).filter(|i| i % 7 != 2).collect()),
        2 if n > 3 => Some((n as u32 / 3..n as u32 - 1).collect()),
        3 if n > 3 => Some([1, n as u32 + 5].into_iter().collect()),
        0 => None,
        1 => Some([0, 2].into_iter().collect()),
        2 => Some([1].into_iter().collect()),
        _ => Some([100].into_iter().collect()),
    }
}
fn same(g: &[f64], w: &[f64], s: &'static str) {
    check(g.len() == w.len(), s);
    for i in 0..w.len() {
        check(g[i] == w[i], s);
    }
}
fn op<T: FileMetadataLike, R: std::io::Read>(r: &mut GeneralChunkReader<T, R>, o: usize, v: &[f64]) {
    let k = match o {
        0..=3 => pick(4),
        4 | 5 => pick(3),
        _ => 0,
    };
    let m = mask(k, v.len());
    let m = m.as_ref();
    let sel = |i: usize| m.is_none_or(|m| m.contains(i as u32));
    let w: Vec<f64> = (0..v.len()).filter(|&i| sel(i)).map(|i| v[i]).collect();
    let t = [0.5, 2.0, -1.0];
    match o {
        0 => {
            let mut g = Vec::new();
            r.materialize(&mut g, m).expect("materialize");
            same(&to_f64(g), &w, "materialize")
        }
        1 => {
            let b = r.filter(P, m).expect("filter");
            for i in 0..v.len() {
                check(b.contains(i as u32) == (sel(i) & holds(&P, v[i])), "filter");
            }
            check(b.len() <= w.len() as u64, "filter");
        }
        2 => {
            let mut g = Vec::new();
            r.filter_materialize(&mut g, P, m).expect("filter_materialize");
            let w: Vec<f64> = w.into_iter().filter(|&x| holds(&P, x)).collect();
            same(&to_f64(g), &w, "filter_materialize")
        }
        3 => {
            let s = r.sum(m).expect("sum");
            let mut e = 0.0;
            for &x in &w {
                e += x;
            }
            check(s == e, "sum")
        }
        4 => {
            let s = r.min(m).expect("min");
            check(w.iter().fold(true, |a, &x| a & (s <= x)) & w.iter().fold(false, |a, &x| a | (s == x)), "min")
        }
        5 => {
            let s = r.max(m).expect("max");
            check(w.iter().fold(true, |a, &x| a & (s >= x)) & w.iter().fold(false, |a, &x| a | (s == x)), "max")
        }
        6 => {
            let s = r.dot_product(1, &t[..2]).expect("dot");
            check(s == v[1] * t[0] + v[2] * t[1], "dot product")
        }
        7 => {
            let s = r.distance_squared(0, &t).expect("distance");
            let mut e = 0.0;
            for i in 0..3 {
                e += (v[i] - t[i]) * (v[i] - t[i]);
            }
            check(s == e, "squared distance")
        }
        #[cfg(not(feature = "apionly"))]
        8 => {
            let g = r.inner_mut().decompress(&mut ebi::time::SegmentedExecutionTimes::new()).expect("decompress").to_vec();
            same(&g, v, "decompress")
        }
        #[cfg(not(feature = "apionly"))]
        9 => {
            let mut g = Vec::new();
            for x in r.inner_mut().decompress_iter().expect("iter") {
                g.push(x.expect("iter"));
            }
            same(&g, v, "iterate")
        }
        #[cfg(not(feature = "apionly"))]
        _ => {
            let x = r.inner_mut().decompress_iter().expect("iter").next();
            check(x.is_some_and(|x| x.is_ok_and(|x| x == v[0])), "start to iterate")
        }
        #[cfg(feature = "apionly")]
        _ => {}
    }
}
fn seq(v: &[f64], n: usize, ops: usize, c: impl Into<CompressorConfig>) {
    let f = encode(v, ChunkOption::Full, c);
    let mut d = open(&f);
    let mut r = d.chunk_reader(ChunkId::new(0)).expect("chunk reader");
    for _ in 0..n {
        op(&mut r, pick(ops), v);
    }
    observe(v[0].to_bits());
}
fn quarters(n: usize) -> Vec<f64> {
    (0..n).map(|i| (bits(2) as f64 + i as f64) / 4.0).collect()
}
fn two(ops: usize, c: impl Into<CompressorConfig>) {
    let v = quarters(3);
    seq(&v, 2, ops, c)
}
fn fix(c: impl Into<CompressorConfig>) {
    seq(&[1.5, 0.25, 1.0], 2, 11, c)
}
/// One decoder, two chunks.
fn dec(c: impl Into<CompressorConfig>) {
    let v = quarters(3);
    let f = encode(&v, ChunkOption::RecordCount(2), c);
    let mut d = open(&f);
    for _ in 0..3 {
        let a = Ask { opt: ChunkOption::Full, chunk: None, mask: None, sel: vec![true; 3] };
        match pick(7) {
            0 => same(&materialize(&mut d, None, None), &v, "materialize"),
            1 => same(&materialize(&mut d, None, Some(ChunkId::new(1))), &v[2..], "materialize a chunk"),
            2 => is_filtered(&d.filter(P, None, None).expect("filter"), &a, &v, &P),
            3 => is_least(&mut d, &a, &v),
            4 => {
                let s = d.sum(None, None).expect("sum");
                is_sum(s, &a, &v)
            }
            5 => {
                let b = d.filter(P, None, None).expect("filter");
                let g = materialize(&mut d, Some(&b), None);
                let w: Vec<f64> = v.iter().filter(|&&x| holds(&P, x)).map(|&x| x).collect();
                same(&g, &w, "filter, then materialize")
            }
            _ => {
                let mut r = d.chunk_reader(ChunkId::new(0)).expect("chunk reader");
                let s = r.sum(None).expect("sum");
                check(s == v[0] + v[1], "sum of a chunk")
            }
        }
    }
}
/// One BUFF reader asked for one precision after the other: each answer is as precise as asked.
fn precisions(n: usize) {
    const PM: [i32; 7] = [0, 5, 8, 11, 15, 18, 21];
    let p = 4;
    let x = bits(9) as f64 / 8192.0;
    let v = [1.2345 + x, 0.0001, -3.875 - x];
    let f = encode(&v, ChunkOption::Full, CompressorConfig::buff().scale(10_000).build());
    let full = decode(&f);
    let mut d = open(&f);
    let mut r = d.chunk_reader(ChunkId::new(0)).expect("chunk reader");
    let read = |r: &mut GeneralChunkReader<_, _>| {
        let mut g = Vec::new();
        r.materialize(&mut g, None).expect("materialize");
        to_f64(g)
    };
    if pick(2) == 1 {
        same(&read(&mut r), &full, "materialize");
    }
    for _ in 0..n {
        let q = pick(7);
        r.with_precision(q as u32);
        let g = read(&mut r);
        check(g.len() == 3, "as many values");
        for i in 0..3 {
            let e = full[i] - g[i];
            check(0.0 <= e && e < 1.0 / (1u64 << PM[q]) as f64, "no further below the full value than the precision asked for last");
            if q >= p {
                check(g[i] == full[i], "all of it when more is asked than there is");
            }
        }
        observe(g[0].to_bits());
    }
}
fn buff() -> CompressorConfig {
    CompressorConfig::buff().scale(100).build().into()
}
fn sprintz() -> CompressorConfig {
    CompressorConfig::delta_sprintz().scale(100).build().into()
}
fn far(c: impl Into<CompressorConfig>) {
    seq(&runs(270, false), 2, 11, c)
}
harnesses! {
    fn c22_far_uncompressed() { far(CompressorConfig::uncompressed().build()) }
    fn c22_far_rle() { far(CompressorConfig::rle().build()) }
    fn c22_far_zstd() { far(CompressorConfig::zstd().build()) }
    fn c22_far_gzip() { far(CompressorConfig::gzip().build()) }
    fn c22_far_snappy() { far(CompressorConfig::snappy().build()) }
    fn c22_far_alp() { far(CompressorConfig::ffi_alp().build()) }
    fn c22_far_gorilla() { far(CompressorConfig::gorilla().build()) }
    fn c22_far_chimp() { far(CompressorConfig::chimp().build()) }
    fn c22_far_chimp128() { far(CompressorConfig::chimp128().build()) }
    fn c22_far_elf() { far(CompressorConfig::elf().build()) }
    fn c22_far_elf_on_chimp() { far(CompressorConfig::elf_on_chimp().build()) }
    fn c22_far_buff() { far(buff()) }
    fn c22_far_sprintz() { far(sprintz()) }
    fn c22_uncompressed() { two(11, CompressorConfig::uncompressed().build()) }
    fn c22_rle() { two(11, CompressorConfig::rle().build()) }
    fn c22_zstd() { fix(CompressorConfig::zstd().build()) }
    fn c22_gzip() { fix(CompressorConfig::gzip().build()) }
    fn c22_snappy() { fix(CompressorConfig::snappy().build()) }
    fn c22_alp() { fix(CompressorConfig::ffi_alp().build()) }
    fn c22_gorilla() { fix(CompressorConfig::gorilla().build()) }
    fn c22_chimp() { fix(CompressorConfig::chimp().build()) }
    fn c22_chimp128() { fix(CompressorConfig::chimp128().build()) }
    fn c22_elf() { fix(CompressorConfig::elf().build()) }
    fn c22_elf_on_chimp() { fix(CompressorConfig::elf_on_chimp().build()) }
    fn c22_buff() { two(11, buff()) }
    fn c22_sprintz() { two(11, sprintz()) }
    fn c22t_three() {
        let v = [1.5, 0.25, 1.0];
        match pick(9) {
            0 => seq(&v, 3, 11, CompressorConfig::uncompressed().build()),
            1 => seq(&v, 3, 11, CompressorConfig::rle().build()),
            2 => seq(&v, 3, 11, CompressorConfig::gorilla().build()),
            3 => seq(&v, 3, 11, CompressorConfig::chimp().build()),
            4 => seq(&v, 3, 11, CompressorConfig::chimp128().build()),
            5 => seq(&v, 3, 11, CompressorConfig::elf().build()),
            6 => seq(&v, 3, 11, CompressorConfig::zstd().build()),
            7 => seq(&v, 3, 11, buff()),
            _ => seq(&v, 3, 11, sprintz()),
        }
    }
    fn c22t_rle() { let v = quarters(3); seq(&v, 3, 11, CompressorConfig::rle().build()) }
    fn c22t_sprintz() { let v = quarters(3); seq(&v, 3, 11, sprintz()) }
    fn c22t_gorilla() { let v = quarters(3); seq(&v, 2, 11, CompressorConfig::gorilla().build()) }
    fn c22t_elf() { let v = quarters(3); seq(&v, 2, 11, CompressorConfig::elf().build()) }
    fn c22t_chimp128() { let v = quarters(3); seq(&v, 2, 11, CompressorConfig::chimp128().build()) }
    fn c22_precisions() { precisions(2) }
    fn c22t_precisions() { precisions(3) }
    fn c22_dec_uncompressed() { dec(CompressorConfig::uncompressed().build()) }
    fn c22_dec_buff() { dec(buff()) }
    fn c22_dec_sprintz() { dec(sprintz()) }
}
