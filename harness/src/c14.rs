//! C14: materialize writes exactly the records asked for, in order.
//! BOUNDS: all 13 compressors; files of 1..5 records (symbolic values for uncompressed, RLE, zstd and gzip; symbolic decimals or fixed values for the others); one chunk or chunks of 1..3; no mask, every subset of the records, masks beyond the end; every chunk id and none; 300 records in runs of up to 280 (two symbolic for uncompressed, RLE, zstd and gzip) in one chunk and in chunks of 45 (uncompressed, RLE and Gorilla also in 300 chunks), with 9 masks (gaps, blocks, single records, none); 65600 records with two symbolic ones around the 65536th, in one chunk and in two, with 3 masks
//! OUTSIDE: longer files; chunk ids that do not exist
use crate::util::*;
use crate::vp::*;

fn go(v: &[f64], sizes: &[usize], m: usize, c: impl Into<CompressorConfig>) {
    let a = ask(v.len(), sizes, m);
    let f = encode(v, a.opt, c);
    let mut d = open(&f);
    materialized(&mut d, &a, v);
}
fn materialized(d: &mut Dec<'_>, a: &Ask, v: &[f64]) {
    let g = materialize(d, a.mask.as_ref(), a.chunk);
    let w: Vec<f64> = (0..v.len()).filter(|&i| a.sel[i]).map(|i| v[i]).collect();
    check(g.len() == w.len(), "as many values as were asked for");
    for i in 0..w.len() {
        check(g[i].to_bits() == w[i].to_bits(), "the value of the record asked for");
        observe(g[i].to_bits());
    }
}
fn sym(c: impl Into<CompressorConfig>) {
    let n = 1 + pick(5);
    let v: Vec<f64> = (0..n).map(|_| f64s()).collect();
    go(&v, &[0, 1, 2, 3], n, c)
}
const D: [f64; 5] = [1.5, -2.25, 1.5, 100.0, -7.75];
fn fix(c: impl Into<CompressorConfig>) {
    go(&D, &[0, 1, 2, 3], 5, c)
}
/// Long files, masks with gaps.
fn far(sym: bool, c: impl Into<CompressorConfig>) {
    far_in(&[0, 45], sym, c)
}
fn far_in(sizes: &[usize], sym: bool, c: impl Into<CompressorConfig>) {
    let v = runs(300, sym);
    let o = cut(300, sizes);
    let f = encode(&v, o.0, c);
    let a = ask_far(300, o);
    let mut d = open(&f);
    materialized(&mut d, &a, &v);
}
fn huge_file(c: impl Into<CompressorConfig>) {
    let v = huge();
    let o = cut(HUGE, &[0, 65_530]);
    let f = encode(&v, o.0, c);
    let a = ask_huge(o);
    let mut d = open(&f);
    materialized(&mut d, &a, &v);
}
harnesses! {
    fn c14_many_uncompressed() { far_in(&[1], true, CompressorConfig::uncompressed().build()) }
    fn c14_many_rle() { far_in(&[1], false, CompressorConfig::rle().build()) }
    fn c14_many_gorilla() { far_in(&[1], false, CompressorConfig::gorilla().build()) }
    fn c14_far_uncompressed() { far(true, CompressorConfig::uncompressed().build()) }
    fn c14_far_rle() { far(true, CompressorConfig::rle().build()) }
    fn c14_far_zstd() { far(true, CompressorConfig::zstd().build()) }
    fn c14_far_gzip() { far(true, CompressorConfig::gzip().build()) }
    fn c14_far_snappy() { far(false, CompressorConfig::snappy().build()) }
    fn c14_far_ffi_alp() { far(false, CompressorConfig::ffi_alp().build()) }
    fn c14_far_gorilla() { far(false, CompressorConfig::gorilla().build()) }
    fn c14_far_chimp() { far(false, CompressorConfig::chimp().build()) }
    fn c14_far_chimp128() { far(false, CompressorConfig::chimp128().build()) }
    fn c14_far_elf() { far(false, CompressorConfig::elf().build()) }
    fn c14_far_elf_on_chimp() { far(false, CompressorConfig::elf_on_chimp().build()) }
    fn c14_huge_uncompressed() { huge_file(CompressorConfig::uncompressed().build()) }
    fn c14_huge_rle() { huge_file(CompressorConfig::rle().build()) }
    fn c14t_huge_gorilla() { huge_file(CompressorConfig::gorilla().build()) }
    fn c14_far_buff() { far(false, CompressorConfig::buff().scale(100).build()) }
    fn c14_far_delta_sprintz() { far(false, CompressorConfig::delta_sprintz().scale(100).build()) }
    fn c14_uncompressed() { sym(CompressorConfig::uncompressed().build()) }
    fn c14_rle() { let v = [f64s(), f64s(), f64s()]; go(&[v[0], v[1], v[1], v[2]], &[0, 1, 2, 3], 4, CompressorConfig::rle().build()) }
    fn c14_zstd() { sym(CompressorConfig::zstd().build()) }
    fn c14_gzip() { sym(CompressorConfig::gzip().build()) }
    fn c14_snappy() { fix(CompressorConfig::snappy().build()) }
    fn c14_alp() { fix(CompressorConfig::ffi_alp().build()) }
    fn c14_gorilla() { fix(CompressorConfig::gorilla().build()) }
    fn c14_chimp() { fix(CompressorConfig::chimp().build()) }
    fn c14_chimp128() { fix(CompressorConfig::chimp128().build()) }
    fn c14_elf() { fix(CompressorConfig::elf().build()) }
    fn c14_elf_on_chimp() { fix(CompressorConfig::elf_on_chimp().build()) }
    fn c14_buff() { fix(CompressorConfig::buff().scale(100).build()) }
    fn c14_sprintz() { fix(CompressorConfig::delta_sprintz().scale(100).build()) }
    fn c14_buff_bits() { let v: Vec<f64> = (0..4).map(|_| bits(3) as f64 * 0.25).collect(); go(&v, &[0, 2], 3, CompressorConfig::buff().scale(100).build()) }
    fn c14_sprintz_bits() { let v: Vec<f64> = (0..4).map(|_| bits(3) as f64 * 0.25).collect(); go(&v, &[0, 2], 3, CompressorConfig::delta_sprintz().scale(100).build()) }
}
