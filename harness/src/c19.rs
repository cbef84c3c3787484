//! C19: filter_materialize writes exactly the records asked for that satisfy the predicate, in order.
//! BOUNDS: all 13 schemes; 3 records, fully symbolic with fully symbolic predicate constants for uncompressed and RLE, 3 fixed values and symbolic constants for the other exact schemes; BUFF and DeltaSprintz with symbolic decimals as in C16; all 11 predicate shapes; one chunk or chunks of 1..2; no mask, every subset, masks beyond the end; every chunk id and none; 300 records in runs of up to 280 (two symbolic for uncompressed, RLE, zstd and gzip) in one chunk and in chunks of 45 (uncompressed, RLE and Gorilla also in 300 chunks), with 9 masks (gaps, blocks, single records, none); 65600 records with two symbolic ones around the 65536th, in one chunk and in two, with 3 masks and 3 predicates
//! OUTSIDE: longer files; BUFF constants with more decimals than the scale keeps
use crate::util::*;
use crate::vp::*;

fn go(v: &[f64], a: Ask, p: Predicate, c: impl Into<CompressorConfig>) {
    let f = encode(v, a.opt, c);
    let mut d = open(&f);
    filtered(&mut d, &a, v, p)
}
fn filtered(d: &mut Dec<'_>, a: &Ask, v: &[f64], p: Predicate) {
    let mut o = DecoderOutput::from_vec(Vec::new());
    d.filter_materialize(&mut o, p, a.mask.as_ref(), a.chunk).expect("filter_materialize");
    let g = to_f64(o.into_writer().into_inner());
    let mut n = 0;
    for i in 0..v.len() {
        if a.sel[i] && holds(&p, v[i]) {
            check(n < g.len(), "no record is missing");
            check(g[n].to_bits() == v[i].to_bits(), "the records that satisfy the predicate, in order");
            n += 1;
        }
    }
    check(g.len() == n, "no record too many");
    observe(n as u64);
}
fn fix(c: impl Into<CompressorConfig>) {
    go(&[1.5, -2.25, 100.0], ask(3, &[0, 2], 3), predicate(f64s(), f64s()), c)
}
/// Decimals; their decoded values are the oracle's, through the bits of materialize.
fn decimals(n: usize, s: u64, c: fn(u64) -> CompressorConfig) {
    let w = pick_from(&[0, 1, 37, 70_000]);
    let v: Vec<f64> = (0..n).map(|i| (bits(2) as i64 * if i % 2 == 0 { w } else { 1.min(w) } - 7) as f64 / s as f64).collect();
    let k = (bits(3) as i64 - 1) * w.max(1) - 7;
    let p = predicate(k as f64 / s as f64, (k + w) as f64 / s as f64);
    go(&v, ask(n, &[0, 1], n), p, c(s))
}
fn buff(s: u64) -> CompressorConfig {
    CompressorConfig::buff().scale(if s == 4 { 100 } else { s }).build().into()
}
fn sprintz(s: u64) -> CompressorConfig {
    CompressorConfig::delta_sprintz().scale(if s == 4 { 100 } else { s }).build().into()
}
/// Long files, masks with gaps.
fn far(sym: bool, c: impl Into<CompressorConfig>) {
    far_in(&[0, 45], sym, c)
}
fn far_in(sizes: &[usize], sym: bool, c: impl Into<CompressorConfig>) {
    let v = runs(300, sym);
    let o = cut(300, sizes);
    let f = encode(&v, o.0, c);
    let a = ask_far(300, o);
    let mut d = open(&f);
    let p = [Predicate::Eq(2.5), Predicate::Ne(0.5), Predicate::Range(Range::new(RangeValue::Inclusive(-1.75), RangeValue::Exclusive(2.5)))][pick(3)];
    filtered(&mut d, &a, &v, p);
}
fn huge_file(c: impl Into<CompressorConfig>) {
    let v = huge();
    let o = cut(HUGE, &[0, 65_530]);
    let f = encode(&v, o.0, c);
    let a = ask_huge(o);
    let mut d = open(&f);
    let p = [Predicate::Eq(4.0), Predicate::Ne(15.0), Predicate::Range(Range::new(RangeValue::Inclusive(3.0), RangeValue::Exclusive(4.0)))][pick(3)];
    filtered(&mut d, &a, &v, p);
}
harnesses! {
    fn c19_many_uncompressed() { far_in(&[1], true, CompressorConfig::uncompressed().build()) }
    fn c19_many_rle() { far_in(&[1], false, CompressorConfig::rle().build()) }
    fn c19_many_gorilla() { far_in(&[1], false, CompressorConfig::gorilla().build()) }
    fn c19_far_uncompressed() { far(true, CompressorConfig::uncompressed().build()) }
    fn c19_far_rle() { far(true, CompressorConfig::rle().build()) }
    fn c19_far_zstd() { far(true, CompressorConfig::zstd().build()) }
    fn c19_far_gzip() { far(true, CompressorConfig::gzip().build()) }
    fn c19_far_snappy() { far(false, CompressorConfig::snappy().build()) }
    fn c19_far_ffi_alp() { far(false, CompressorConfig::ffi_alp().build()) }
    fn c19_far_gorilla() { far(false, CompressorConfig::gorilla().build()) }
    fn c19_far_chimp() { far(false, CompressorConfig::chimp().build()) }
    fn c19_far_chimp128() { far(false, CompressorConfig::chimp128().build()) }
    fn c19_far_elf() { far(false, CompressorConfig::elf().build()) }
    fn c19_far_elf_on_chimp() { far(false, CompressorConfig::elf_on_chimp().build()) }
    fn c19_huge_uncompressed() { huge_file(CompressorConfig::uncompressed().build()) }
    fn c19_huge_rle() { huge_file(CompressorConfig::rle().build()) }
    fn c19t_huge_gorilla() { huge_file(CompressorConfig::gorilla().build()) }
    fn c19_uncompressed() { go(&[f64s(), f64s(), f64s()], ask(3, &[0, 1, 2], 3), predicate(f64s(), f64s()), CompressorConfig::uncompressed().build()) }
    fn c19_rle() { let v = [f64s(), f64s()]; go(&[v[0], v[1], v[1]], ask(3, &[0, 2], 3), predicate(f64s(), f64s()), CompressorConfig::rle().build()) }
    fn c19_snappy() { fix(CompressorConfig::snappy().build()) }
    fn c19_zstd() { fix(CompressorConfig::zstd().build()) }
    fn c19_gzip() { fix(CompressorConfig::gzip().build()) }
    fn c19_alp() { fix(CompressorConfig::ffi_alp().build()) }
    fn c19_gorilla() { fix(CompressorConfig::gorilla().build()) }
    fn c19_chimp() { fix(CompressorConfig::chimp().build()) }
    fn c19_chimp128() { fix(CompressorConfig::chimp128().build()) }
    fn c19_elf() { fix(CompressorConfig::elf().build()) }
    fn c19_elf_on_chimp() { fix(CompressorConfig::elf_on_chimp().build()) }
    fn c19_buff() { decimals(2, pick_from(&[1, 4]), buff) }
    fn c19_sprintz() { decimals(2, pick_from(&[1, 4]), sprintz) }
}
