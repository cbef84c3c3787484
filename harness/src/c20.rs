//! C20: compressors account for their bytes and can be reused.
//! BOUNDS: all 13 compressors; two successive inputs of 1..2 symbolic values (decimals of few bits for Elf, BUFF and Sprintz), with and without a reset between; three successive inputs of 2 to 400 (300) fixed values, one or two of them symbolic, long before short and short before long
//! OUTSIDE: longer inputs; the sizes reported after prepare
use crate::util::*;
use crate::vp::*;

fn bytes(c: &mut impl Compressor) -> Vec<u8> {
    c.prepare();
    let mut b = Vec::new();
    for x in c.buffers() {
        b.extend_from_slice(x);
    }
    b
}
fn reuse(cfg: impl Into<CompressorConfig>, a: &[f64], b: &[f64]) {
    let cfg: CompressorConfig = cfg.into();
    let mut c = cfg.build();
    check(c.total_bytes_in() == 0, "a new compressor has taken no bytes");
    c.compress(a).expect("compress");
    check(c.total_bytes_in() == a.len() * 8, "bytes in are the bytes given");
    let said = c.total_bytes_buffered();
    if pick(2) == 1 {
        let x = bytes(&mut c);
        check(x.len() == said, "bytes buffered are the bytes written");
    }
    if pick(2) == 1 {
        c.reset();
        check(c.total_bytes_in() == 0, "a reset compressor has taken no bytes");
    }
    c.compress(b).expect("compress again");
    check(c.total_bytes_in() == b.len() * 8, "bytes in are the bytes last given");
    let said = c.total_bytes_buffered();
    let x = bytes(&mut c);
    check(x.len() == said, "bytes buffered are the bytes written");
    let mut f = cfg.build();
    f.compress(b).expect("compress fresh");
    let y = bytes(&mut f);
    check(x.len() == y.len(), "a reused compressor writes as much as a new one");
    if x.len() == y.len() {
        let mut same = true;
        for i in 0..x.len() {
            same &= x[i] == y[i];
        }
        check(same, "a reused compressor writes the same bytes as a new one");
    }
}
/// Longer inputs, one after the other.
fn chain_of(cfg: impl Into<CompressorConfig>, v: &[f64]) {
    let cfg: CompressorConfig = cfg.into();
    let n = v.len();
    let mut c = cfg.build();
    for i in 0..3 {
        let a = match (i, pick(3)) {
            (_, 0) => &v[..40],
            (_, 1) => &v[n / 4..],
            (0, _) => v,
            _ => &v[n - 2..],
        };
        c.compress(a).expect("compress");
        check(c.total_bytes_in() == a.len() * 8, "bytes in are the bytes last given");
        let said = c.total_bytes_buffered();
        let x = bytes(&mut c);
        check(x.len() == said, "bytes buffered are the bytes written");
        let mut f = cfg.build();
        f.compress(a).expect("compress fresh");
        let y = bytes(&mut f);
        check(x.len() == y.len(), "a reused compressor writes as much as a new one");
        let mut same = true;
        for i in 0..x.len().min(y.len()) {
            same &= x[i] == y[i];
        }
        check(same, "a reused compressor writes the same bytes as a new one");
        if i == 1 && pick(2) == 1 {
            c.reset();
            check(c.total_bytes_in() == 0, "a reset compressor has taken no bytes");
        }
    }
}
fn far(cfg: impl Into<CompressorConfig>) {
    chain_of(cfg, &mixed(400))
}
fn far_dec(cfg: impl Into<CompressorConfig>) {
    let mut v: Vec<f64> = (0..300).map(|i| (i * i % 977) as f64 * if i < 150 { 0.25 } else { 16.0 } - 100.0).collect();
    v[200] = bits(3) as f64;
    chain_of(cfg, &v)
}
const S: &[(u32, u32)] = &[(0, 0), (1, 51), (12, 6), (17, 40), (64, 0)];
fn some() -> f64 {
    f64::from_bits(0x4045_0000_0000_0000 ^ some_shape(S))
}
fn free(cfg: impl Into<CompressorConfig>) {
    if pick(2) == 0 { reuse(cfg, &[f64s(), f64s()], &[f64s()]) } else { reuse(cfg, &[f64s()], &[f64s(), f64s()]) }
}
fn xor(cfg: impl Into<CompressorConfig>) {
    if pick(2) == 0 { reuse(cfg, &[some(), 42.5], &[some()]) } else { reuse(cfg, &[1.25], &[some(), 42.0]) }
}
fn dec(n: u32) -> f64 {
    (bits(n) as i64 - (1 << (n - 1))) as f64 / 10.0
}
fn decs(cfg: impl Into<CompressorConfig>) {
    if pick(2) == 0 { reuse(cfg, &[dec(4), 4.3], &[dec(4)]) } else { reuse(cfg, &[dec(3)], &[dec(4), dec(4)]) }
}
harnesses! {
    fn c20_far_uncompressed() { far(CompressorConfig::uncompressed().build()) }
    fn c20_far_rle() { far(CompressorConfig::rle().build()) }
    fn c20_far_zstd() { far(CompressorConfig::zstd().build()) }
    fn c20_far_gzip() { far(CompressorConfig::gzip().build()) }
    fn c20_far_snappy() { far(CompressorConfig::snappy().build()) }
    fn c20_far_alp() { far(CompressorConfig::ffi_alp().build()) }
    fn c20_far_gorilla() { far(CompressorConfig::gorilla().build()) }
    fn c20_far_chimp() { far(CompressorConfig::chimp().build()) }
    fn c20_far_chimp128() { far(CompressorConfig::chimp128().build()) }
    fn c20_far_elf() { far_dec(CompressorConfig::elf().build()) }
    fn c20_far_elf_on_chimp() { far_dec(CompressorConfig::elf_on_chimp().build()) }
    fn c20_far_buff() { far_dec(CompressorConfig::buff().scale(100).build()) }
    fn c20_far_sprintz() { far_dec(CompressorConfig::delta_sprintz().scale(100).build()) }
    fn c20_uncompressed() { free(CompressorConfig::uncompressed().build()) }
    fn c20_rle() { free(CompressorConfig::rle().build()) }
    fn c20_zstd() { free(CompressorConfig::zstd().build()) }
    fn c20_gzip() { free(CompressorConfig::gzip().build()) }
    fn c20_snappy() { free(CompressorConfig::snappy().build()) }
    fn c20_alp() { free(CompressorConfig::ffi_alp().build()) }
    fn c20_gorilla() { xor(CompressorConfig::gorilla().build()) }
    fn c20_chimp() { xor(CompressorConfig::chimp().build()) }
    fn c20_chimp128() { xor(CompressorConfig::chimp128().build()) }
    fn c20_elf() { decs(CompressorConfig::elf().build()) }
    fn c20_elf_on_chimp() { decs(CompressorConfig::elf_on_chimp().build()) }
    fn c20_buff() { decs(CompressorConfig::buff().scale(10).build()) }
    fn c20_sprintz() { decs(CompressorConfig::delta_sprintz().scale(10).build()) }
}
