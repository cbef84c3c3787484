//! C17: sum, min and max of the records asked for (schemes that keep values exactly).
//! BOUNDS: the 11 schemes that keep values exactly; min and max over 3 fully symbolic values (uncompressed, RLE, zstd and gzip) or fixed values with NaN, infinities and signed zeros; sums over 3 symbolic multiples of 1/4 of 3 bits each (all additions exact), and with infinities and NaN; one chunk or chunks of 1..2; no mask, every subset, masks beyond the end; every chunk id and none; 300 records in runs of up to 280 (two symbolic for uncompressed, RLE, zstd and gzip) in one chunk and in chunks of 45 (uncompressed, RLE and Gorilla also in 300 chunks), with 9 masks (gaps, blocks, single records, none); 65600 records with two symbolic ones around the 65536th, in one chunk and in two, with 3 masks
//! OUTSIDE: the rounding of inexact sums (the order of additions is not part of the property); longer files
use crate::util::*;
use crate::vp::*;

fn least(v: &[f64], sizes: &[usize], m: usize, c: impl Into<CompressorConfig>) {
    let a = ask(v.len(), sizes, m);
    let f = encode(v, a.opt, c);
    let mut d = open(&f);
    is_least(&mut d, &a, v);
}
fn sums(v: &[f64], sizes: &[usize], m: usize, c: impl Into<CompressorConfig>) {
    let a = ask(v.len(), sizes, m);
    let f = encode(v, a.opt, c);
    let mut d = open(&f);
    let r = d.sum(a.mask.as_ref(), a.chunk).expect("sum");
    is_sum(r, &a, v);
}
fn sym(sizes: &[usize], c: impl Into<CompressorConfig>) {
    let v: Vec<f64> = (0..3).map(|_| f64s()).collect();
    least(&v, sizes, 3, c)
}
fn few(sizes: &[usize], c: impl Into<CompressorConfig>) {
    let mut v: Vec<f64> = (0..3).map(|_| (bits(3) as f64 - 3.0) / 4.0).collect();
    v[1] = [v[1], f64::INFINITY, f64::NAN][pick(3)];
    sums(&v, sizes, 3, c)
}
/// Both, on fixed data.
fn fix(c: impl Into<CompressorConfig> + Clone) {
    let v = pick_from(&[[1.5, -2.25, 100.0], [-0.0, 0.0, f64::NEG_INFINITY], [3.5, 3.5, 7.0]]);
    let a = ask(3, &[0, 2], 3);
    let f = encode(&v, a.opt, c);
    let mut d = open(&f);
    is_least(&mut d, &a, &v);
    let r = d.sum(a.mask.as_ref(), a.chunk).expect("sum");
    is_sum(r, &a, &v);
}
/// Long files, masks with gaps.
fn far(sym: bool, c: impl Into<CompressorConfig>) {
    far_in(&[0, 45], sym, c)
}
fn far_in(sizes: &[usize], sym: bool, c: impl Into<CompressorConfig>) {
    let v = runs(300, sym);
    let o = cut(300, sizes);
    let f = encode(&v, o.0, c);
    let a = ask_far(300, o);
    let mut d = open(&f);
    is_least(&mut d, &a, &v);
    let r = d.sum(a.mask.as_ref(), a.chunk).expect("sum");
    is_sum(r, &a, &v);
}
fn huge_file(c: impl Into<CompressorConfig>) {
    let v = huge();
    let o = cut(HUGE, &[0, 65_530]);
    let f = encode(&v, o.0, c);
    let a = ask_huge(o);
    let mut d = open(&f);
    is_least(&mut d, &a, &v);
    let r = d.sum(a.mask.as_ref(), a.chunk).expect("sum");
    is_sum(r, &a, &v);
}
harnesses! {
    fn c17_many_uncompressed() { far_in(&[1], true, CompressorConfig::uncompressed().build()) }
    fn c17_many_rle() { far_in(&[1], false, CompressorConfig::rle().build()) }
    fn c17_many_gorilla() { far_in(&[1], false, CompressorConfig::gorilla().build()) }
    fn c17_far_uncompressed() { far(true, CompressorConfig::uncompressed().build()) }
    fn c17_far_rle() { far(true, CompressorConfig::rle().build()) }
    fn c17_far_zstd() { far(true, CompressorConfig::zstd().build()) }
    fn c17_far_gzip() { far(true, CompressorConfig::gzip().build()) }
    fn c17_far_snappy() { far(false, CompressorConfig::snappy().build()) }
    fn c17_far_ffi_alp() { far(false, CompressorConfig::ffi_alp().build()) }
    fn c17_far_gorilla() { far(false, CompressorConfig::gorilla().build()) }
    fn c17_far_chimp() { far(false, CompressorConfig::chimp().build()) }
    fn c17_far_chimp128() { far(false, CompressorConfig::chimp128().build()) }
    fn c17_far_elf() { far(false, CompressorConfig::elf().build()) }
    fn c17_far_elf_on_chimp() { far(false, CompressorConfig::elf_on_chimp().build()) }
    fn c17_huge_uncompressed() { huge_file(CompressorConfig::uncompressed().build()) }
    fn c17_huge_rle() { huge_file(CompressorConfig::rle().build()) }
    fn c17t_huge_gorilla() { huge_file(CompressorConfig::gorilla().build()) }
    fn c17_uncompressed() { sym(&[0, 1, 2], CompressorConfig::uncompressed().build()) }
    fn c17_uncompressed_sum() { few(&[0, 1, 2], CompressorConfig::uncompressed().build()) }
    fn c17_rle() { let v = [f64s(), f64s()]; least(&[v[0], v[1], v[1]], &[0, 2], 3, CompressorConfig::rle().build()) }
    fn c17_rle_sum() { let v = [bits(4) as f64, bits(4) as f64]; sums(&[v[0], v[1], v[1]], &[0, 2], 3, CompressorConfig::rle().build()) }
    fn c17_zstd() { fix(CompressorConfig::zstd().build()) }
    fn c17_gzip() { fix(CompressorConfig::gzip().build()) }
    fn c17_snappy() { fix(CompressorConfig::snappy().build()) }
    fn c17_alp() { fix(CompressorConfig::ffi_alp().build()) }
    fn c17_gorilla() { fix(CompressorConfig::gorilla().build()) }
    fn c17_chimp() { fix(CompressorConfig::chimp().build()) }
    fn c17_chimp128() { fix(CompressorConfig::chimp128().build()) }
    fn c17_elf() { fix(CompressorConfig::elf().build()) }
    fn c17_elf_on_chimp() { fix(CompressorConfig::elf_on_chimp().build()) }
    fn c17t_zstd() { sym(&[0, 1, 2], CompressorConfig::zstd().build()) }
    fn c17t_gzip() { sym(&[0, 1, 2], CompressorConfig::gzip().build()) }
    fn c17t_uncompressed() { let v: Vec<f64> = (0..4).map(|_| f64s()).collect(); least(&v, &[0, 1, 2, 3], 4, CompressorConfig::uncompressed().build()) }
}
