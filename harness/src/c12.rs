//! C12: chunking neither loses nor reorders records; the chunk directory describes the file.
//! BOUNDS: files of 0..6 records, symbolic values for uncompressed, RLE, zstd and Gorilla, fixed decimals for the other codecs; RecordCount 1..7, ByteSizeBestEffort 1..40 and Full; 300 (uncompressed, RLE: 600) fixed records with one or two symbolic ones in chunks of 1 to n records and of 100 and 1000 bytes; 65600 uncompressed records in chunks of 1 and of 65540
//! OUTSIDE: limits of 0; longer files
use crate::util::*;
use crate::vp::*;
use ebi::api::decoder::ChunkId;

fn partition(f: &[u8], v: &[f64], o: ChunkOption) {
    let n = v.len();
    let mut d = open(f);
    check(d.footer().number_of_records() as usize == n, "number of records");
    let k = d.footer().number_of_chunks() as usize;
    let cf: Vec<(u64, u64)> = d.chunk_footers().iter().map(|c| (c.physical_offset(), c.logical_offset())).collect();
    check(cf.len() == k, "one footer per chunk");
    let end = d.header().footer_offset();
    if n == 0 {
        check(k == 0, "no chunk for no record");
    } else {
        check(cf[0].1 == 0, "the first chunk starts at record 0");
    }
    match o {
        ChunkOption::Full => check(k <= 1, "one chunk"),
        ChunkOption::RecordCount(c) => check(k == n.div_ceil(c), "chunks of the requested size"),
        _ => {}
    }
    let mut all = Vec::new();
    for i in 0..k {
        let (p, l) = cf[i];
        let (p1, l1) = if i + 1 < k { cf[i + 1] } else { (end, n as u64) };
        check(p < p1, "chunks do not overlap");
        check(l < l1, "no empty chunk");
        if let ChunkOption::RecordCount(c) = o {
            check(l == (i * c) as u64, "chunk starts at a multiple of the record count");
        }
        let g = materialize(&mut d, None, Some(ChunkId::new(i)));
        check(g.len() as u64 == l1 - l, "a chunk holds its records");
        all.extend_from_slice(&g);
    }
    check(d.total_chunk_size() == end - cf.first().map_or(end, |c| c.0), "total chunk size");
    check(same_bits(&all, v), "the chunks in order are the input");
    let g = materialize(&mut d, None, None);
    check(same_bits(&g, v), "the whole file is the input");
    for x in g {
        observe(x.to_bits());
    }
}
/// Many records, many chunks.
fn long(n: usize, v: &[f64], c: impl Into<CompressorConfig>) {
    let o = pick_from(&[ChunkOption::RecordCount(1), ChunkOption::RecordCount(7), ChunkOption::RecordCount(n - 1), ChunkOption::ByteSizeBestEffort(100), ChunkOption::ByteSizeBestEffort(1000), ChunkOption::Full]);
    partition(&encode(v, o, c), v, o);
}
fn far(n: usize, c: impl Into<CompressorConfig>) {
    long(n, &mixed(n), c)
}
fn far_dec(n: usize, c: impl Into<CompressorConfig>) {
    let mut v: Vec<f64> = (0..n).map(|i| (i * i % 977) as f64 * 0.25 - 100.0).collect();
    v[n / 2] = bits(3) as f64;
    long(n, &v, c)
}
/// More chunks, or more records in one, than 16 bits can number.
fn huge_file() {
    let v = huge();
    let (o, c) = cut(HUGE, &[1, 65_540]);
    let f = encode(&v, o, CompressorConfig::uncompressed().build());
    let mut d = open(&f);
    check(d.footer().number_of_records() as usize == HUGE, "number of records");
    check(d.footer().number_of_chunks() as usize == HUGE.div_ceil(c), "chunks of the requested size");
    check(d.chunk_footers().len() == HUGE.div_ceil(c), "one footer per chunk");
    let mut i = 0;
    for x in d.chunk_footers() {
        check(x.logical_offset() as usize == i * c, "a chunk starts where the last one ends");
        i += 1;
    }
    for k in [0, 1, 65_536, 65_599] {
        if k < i {
            let g = materialize(&mut d, None, Some(ChunkId::new(k)));
            check(same_bits(&g, &v[k * c..HUGE.min(k * c + c)]), "a chunk holds its records");
        }
    }
    let g = materialize(&mut d, None, None);
    check(same_bits(&g, &v), "the whole file is the input");
}
fn opt() -> ChunkOption {
    let k = pick(12);
    if k == 0 {
        ChunkOption::Full
    } else if k < 8 {
        ChunkOption::RecordCount(k)
    } else {
        ChunkOption::ByteSizeBestEffort([1, 8, 20, 40][k - 8])
    }
}
fn sym(c: impl Into<CompressorConfig>) {
    let v: Vec<f64> = (0..pick(7)).map(|_| f64s()).collect();
    let o = opt();
    partition(&encode(&v, o, c), &v, o);
}
const D: [f64; 6] = [1.1, -2.53, 1.1, 100.0, 0.25, -7.71];
/// Exact in binary as well, as BUFF keeps values only up to its precision.
const E: [f64; 6] = [1.5, -2.5, 1.5, 100.0, 0.25, -7.75];
fn fix(c: impl Into<CompressorConfig>) {
    fixed(&D, c)
}
fn fixed(v: &[f64], c: impl Into<CompressorConfig>) {
    let v = &v[..pick(7)];
    let o = opt();
    partition(&encode(v, o, c), v, o);
}
harnesses! {
    fn c12_huge() { huge_file() }
    fn c12_far_uncompressed() { far(600, CompressorConfig::uncompressed().build()) }
    fn c12_far_rle() { far(600, CompressorConfig::rle().build()) }
    fn c12_far_zstd() { far(300, CompressorConfig::zstd().build()) }
    fn c12_far_gzip() { far(300, CompressorConfig::gzip().build()) }
    fn c12_far_snappy() { far(300, CompressorConfig::snappy().build()) }
    fn c12_far_alp() { far(300, CompressorConfig::ffi_alp().build()) }
    fn c12_far_gorilla() { far(300, CompressorConfig::gorilla().build()) }
    fn c12_far_chimp() { far(300, CompressorConfig::chimp().build()) }
    fn c12_far_chimp128() { far(300, CompressorConfig::chimp128().build()) }
    fn c12_far_elf() { far_dec(300, CompressorConfig::elf().build()) }
    fn c12_far_elf_on_chimp() { far_dec(300, CompressorConfig::elf_on_chimp().build()) }
    fn c12_far_buff() { far_dec(300, CompressorConfig::buff().scale(100).build()) }
    fn c12_far_sprintz() { far_dec(300, CompressorConfig::delta_sprintz().scale(100).build()) }
    fn c12_uncompressed() { sym(CompressorConfig::uncompressed().build()) }
    fn c12_rle() { sym(CompressorConfig::rle().build()) }
    fn c12_zstd() { sym(CompressorConfig::zstd().build()) }
    fn c12_gzip() { sym(CompressorConfig::gzip().build()) }
    fn c12_gorilla() { fix(CompressorConfig::gorilla().build()) }
    fn c12_chimp() { fix(CompressorConfig::chimp().build()) }
    fn c12_chimp128() { fix(CompressorConfig::chimp128().build()) }
    fn c12_elf() { fix(CompressorConfig::elf().build()) }
    fn c12_elf_on_chimp() { fix(CompressorConfig::elf_on_chimp().build()) }
    fn c12_buff() { fixed(&E, CompressorConfig::buff().scale(100).build()) }
    fn c12_sprintz() { fixed(&E, CompressorConfig::delta_sprintz().scale(100).build()) }
    fn c12_snappy() { fix(CompressorConfig::snappy().build()) }
    fn c12_alp() { fix(CompressorConfig::ffi_alp().build()) }
}
