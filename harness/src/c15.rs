//! C15: filter returns exactly the records asked for that satisfy the predicate (schemes that keep values exactly).
//! BOUNDS: the 11 schemes that keep values exactly; 3 records with fully symbolic values and fully symbolic predicate constants for uncompressed, RLE, zstd and gzip, 3 fixed values and symbolic constants for the others; all 11 predicate shapes; one chunk or chunks of 1..2; no mask, every subset, masks beyond the end; every chunk id and none; 300 records in runs of up to 280 (two symbolic for uncompressed, RLE, zstd and gzip) in one chunk and in chunks of 45 (uncompressed, RLE and Gorilla also in 300 chunks), with 9 masks (gaps, blocks, single records, none); 65600 records with two symbolic ones around the 65536th, in one chunk and in two, with 3 masks and 3 predicates
//! OUTSIDE: longer files; chunk ids that do not exist
use crate::util::*;
use crate::vp::*;

fn go(v: &[f64], sizes: &[usize], m: usize, p: Predicate, c: impl Into<CompressorConfig>) {
    let a = ask(v.len(), sizes, m);
    let f = encode(v, a.opt, c);
    let mut d = open(&f);
    let r = d.filter(p, a.mask.as_ref(), a.chunk).expect("filter");
    is_filtered(&r, &a, v, &p);
}
fn sym(sizes: &[usize], c: impl Into<CompressorConfig>) {
    let v: Vec<f64> = (0..3).map(|_| f64s()).collect();
    go(&v, sizes, 3, predicate(f64s(), f64s()), c)
}
const D: [f64; 3] = [1.5, -2.25, 100.0];
fn fix(c: impl Into<CompressorConfig>) {
    go(&D, &[0, 2], 3, predicate(f64s(), f64s()), c)
}
/// Long files, masks with gaps.
fn far(sym: bool, c: impl Into<CompressorConfig>) {
    far_in(&[0, 45], sym, c)
}
fn far_in(sizes: &[usize], sym: bool, c: impl Into<CompressorConfig>) {
    let v = runs(300, sym);
    let o = cut(300, sizes);
    let f = encode(&v, o.0, c);
    let a = ask_far(300, o);
    let mut d = open(&f);
    let p = [Predicate::Eq(2.5), Predicate::Ne(0.5), Predicate::Range(Range::new(RangeValue::Inclusive(-1.75), RangeValue::Exclusive(2.5)))][pick(3)];
    let r = d.filter(p, a.mask.as_ref(), a.chunk).expect("filter");
    is_filtered(&r, &a, &v, &p);
}
fn huge_file(c: impl Into<CompressorConfig>) {
    let v = huge();
    let o = cut(HUGE, &[0, 65_530]);
    let f = encode(&v, o.0, c);
    let a = ask_huge(o);
    let mut d = open(&f);
    let p = [Predicate::Eq(4.0), Predicate::Ne(15.0), Predicate::Range(Range::new(RangeValue::Inclusive(3.0), RangeValue::Exclusive(4.0)))][pick(3)];
    let r = d.filter(p, a.mask.as_ref(), a.chunk).expect("filter");
    is_filtered(&r, &a, &v, &p);
}
harnesses! {
    fn c15_many_uncompressed() { far_in(&[1], true, CompressorConfig::uncompressed().build()) }
    fn c15_many_rle() { far_in(&[1], false, CompressorConfig::rle().build()) }
    fn c15_many_gorilla() { far_in(&[1], false, CompressorConfig::gorilla().build()) }
    fn c15_far_uncompressed() { far(true, CompressorConfig::uncompressed().build()) }
    fn c15_far_rle() { far(true, CompressorConfig::rle().build()) }
    fn c15_far_zstd() { far(true, CompressorConfig::zstd().build()) }
    fn c15_far_gzip() { far(true, CompressorConfig::gzip().build()) }
    fn c15_far_snappy() { far(false, CompressorConfig::snappy().build()) }
    fn c15_far_ffi_alp() { far(false, CompressorConfig::ffi_alp().build()) }
    fn c15_far_gorilla() { far(false, CompressorConfig::gorilla().build()) }
    fn c15_far_chimp() { far(false, CompressorConfig::chimp().build()) }
    fn c15_far_chimp128() { far(false, CompressorConfig::chimp128().build()) }
    fn c15_far_elf() { far(false, CompressorConfig::elf().build()) }
    fn c15_far_elf_on_chimp() { far(false, CompressorConfig::elf_on_chimp().build()) }
    fn c15_huge_uncompressed() { huge_file(CompressorConfig::uncompressed().build()) }
    fn c15_huge_rle() { huge_file(CompressorConfig::rle().build()) }
    fn c15t_huge_gorilla() { huge_file(CompressorConfig::gorilla().build()) }
    fn c15_uncompressed() { sym(&[0, 1, 2], CompressorConfig::uncompressed().build()) }
    fn c15_rle() { let v = [f64s(), f64s()]; go(&[v[0], v[1], v[1]], &[0, 2], 3, predicate(f64s(), f64s()), CompressorConfig::rle().build()) }
    fn c15t_zstd() { sym(&[0, 1, 2], CompressorConfig::zstd().build()) }
    fn c15t_gzip() { sym(&[0, 1, 2], CompressorConfig::gzip().build()) }
    fn c15_snappy() { fix(CompressorConfig::snappy().build()) }
    fn c15_zstd() { fix(CompressorConfig::zstd().build()) }
    fn c15_gzip() { fix(CompressorConfig::gzip().build()) }
    fn c15_alp() { fix(CompressorConfig::ffi_alp().build()) }
    fn c15_gorilla() { fix(CompressorConfig::gorilla().build()) }
    fn c15_chimp() { fix(CompressorConfig::chimp().build()) }
    fn c15_chimp128() { fix(CompressorConfig::chimp128().build()) }
    fn c15_elf() { fix(CompressorConfig::elf().build()) }
    fn c15_elf_on_chimp() { fix(CompressorConfig::elf_on_chimp().build()) }
}
