//! C11: the settings a file was written with are the settings read back.
//! BOUNDS: all 13 compressors with fully symbolic settings (capacity, scale, level); files of 0..7 records; all three chunk options (symbolic limits through the file header writer/reader)
//! OUTSIDE: allocation for huge capacities while encoding
use crate::util::*;
use crate::vp::*;

fn cfg(k: usize, x: u64, y: u64) -> CompressorConfig {
    match k {
        0 => CompressorConfig::uncompressed().capacity(x).build().into(),
        1 => CompressorConfig::rle().capacity(x).build().into(),
        2 => CompressorConfig::gorilla().capacity(x).build().into(),
        3 => CompressorConfig::buff().scale(y).build().into(),
        4 => CompressorConfig::chimp().capacity(x).build().into(),
        5 => CompressorConfig::chimp128().capacity(x).build().into(),
        6 => CompressorConfig::elf_on_chimp().capacity(x).build().into(),
        7 => CompressorConfig::elf().capacity(x).build().into(),
        8 => CompressorConfig::delta_sprintz().capacity(x).scale(y).build().into(),
        9 => CompressorConfig::zstd().level(y as i32).build().into(),
        10 => CompressorConfig::gzip().level(y as u32).build().into(),
        11 => CompressorConfig::snappy().build().into(),
        _ => CompressorConfig::ffi_alp().build().into(),
    }
}
/// Serialized and parsed again.
fn settings() {
    let k = pick(13);
    let c = cfg(k, u64s(), u64s());
    let mut w = Vec::new();
    c.serialize(&mut w).expect("serialize");
    check(w.len() == c.serialized_size(), "serialized size");
    check(w[0] as usize + 1 == w.len(), "size byte");
    let d = CompressorConfig::from_le_bytes(&c.compression_scheme(), &w[1..]);
    check(d == c, "the same configuration is read back");
    check(d.scale() == c.scale(), "the same scale");
}
fn opt() -> ChunkOption {
    match pick(3) {
        0 => ChunkOption::Full,
        1 => ChunkOption::RecordCount(2),
        _ => ChunkOption::ByteSizeBestEffort(8),
    }
}
fn file(c: CompressorConfig, n: usize) {
    let v: Vec<f64> = (0..n).map(|i| i as f64).collect();
    let o = opt();
    let f = encode(&v, o, c);
    let d = open(&f);
    check(d.header().magic_number() == b"EBI1", "magic number");
    check(*d.header().config().chunk_option() == o, "chunk option");
    check(*d.header().config().compression_scheme() == c.compression_scheme(), "compression scheme");
    check(*d.footer().compressor_config() == c, "compressor configuration");
    check(d.footer().number_of_records() as usize == n, "number of records");
    check(d.total_file_size() as usize == f.len(), "file size");
    check(d.footer_size() + d.header().footer_offset() == f.len() as u64, "footer size");
    check(d.chunk_footers().len() as u64 == d.footer().number_of_chunks(), "one footer per chunk");
    check(d.footer().crc() == 0, "crc");
    check(d.footer().compression_elapsed_time().as_nanos() == d.footer().compression_elapsed_time_nano_secs(), "elapsed time");
}
harnesses! {
    fn c11_settings() { settings() }
    fn c11_file() { let k = pick(13); file(cfg(k, 64, 100), pick(8)) }
    fn c11_level() { let k = 9 + pick(2); file(cfg(k, 64, u64s()), 1) }
    fn c11_scale0() { let k = if pick(2) == 0 { 3 } else { 8 }; file(cfg(k, 64, u64s()), 0) }
}
