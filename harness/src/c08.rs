//! C08: uncompressed, zstd, gzip, snappy and ALP files, in one or more chunks.
//! BOUNDS: files of 1..5 fully symbolic values in one chunk, and of 5 in chunks of 2 (last one short); 1500 (uncompressed: 66000) fixed values of all kinds with symbolic bits in two of them, in one chunk and in chunks of 131
//! OUTSIDE: the third-party coders themselves (contract stubs: decode inverts encode, reads may be short); longer files
use crate::util::*;
use crate::vp::*;

fn file(n: usize, opt: ChunkOption, c: impl Into<CompressorConfig>) {
    let v: Vec<f64> = (0..n).map(|_| f64s()).collect();
    let f = encode(&v, opt, c);
    let g = decode(&f);
    check(g.len() == n, "as many values as were encoded");
    for i in 0..n {
        check(g[i].to_bits() == v[i].to_bits(), "bit-identical value");
        observe(g[i].to_bits());
    }
}
fn shape() -> (usize, ChunkOption) {
    let k = pick(7);
    if k < 5 {
        (k + 1, ChunkOption::Full)
    } else if k == 5 {
        (5, ChunkOption::RecordCount(2))
    } else {
        (6, ChunkOption::RecordCount(3))
    }
}
harnesses! {
    fn c08_uncompressed() { let (n, o) = shape(); file(n, o, CompressorConfig::uncompressed().build()) }
    fn c08_zstd() { let (n, o) = shape(); file(n, o, CompressorConfig::zstd().build()) }
    fn c08_gzip() { let (n, o) = shape(); file(n, o, CompressorConfig::gzip().build()) }
    fn c08_snappy() { let (n, o) = shape(); file(n, o, CompressorConfig::snappy().build()) }
    fn c08_alp() { let (n, o) = shape(); file(n, o, CompressorConfig::ffi_alp().build()) }
    fn c08t_long() {
        let n = 30 + pick(4);
        let o = if pick(2) == 0 { ChunkOption::Full } else { ChunkOption::RecordCount(7) };
        match pick(5) {
            0 => file(n, o, CompressorConfig::uncompressed().build()),
            1 => file(n, o, CompressorConfig::zstd().build()),
            2 => file(n, o, CompressorConfig::gzip().build()),
            3 => file(n, o, CompressorConfig::snappy().build()),
            _ => file(n, o, CompressorConfig::ffi_alp().build()),
        }
    }
    fn c08_long_uncompressed() { long_file(66_000, CompressorConfig::uncompressed().build()) }
    fn c08_long_zstd() { long_file(1500, CompressorConfig::zstd().build()) }
    fn c08_long_gzip() { long_file(1500, CompressorConfig::gzip().build()) }
    fn c08_long_snappy() { long_file(1500, CompressorConfig::snappy().build()) }
    fn c08_long_ffi_alp() { long_file(1500, CompressorConfig::ffi_alp().build()) }
}
