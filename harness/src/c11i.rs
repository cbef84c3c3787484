//! Header and timing records through their own writers and readers.
use crate::util::*;
use crate::vp::*;
use ebi::decoder::FileReader;
use ebi::encoder::FileWriter;
use ebi::format::deserialize::FromLeBytes;
use ebi::format::serialize::{AsBytes, ToLe};
use ebi::time::{SegmentedExecutionTimes, SerializableSegmentedExecutionTimes};

fn header() {
    let x = u64s() as usize;
    let o = match pick(3) {
        0 => ChunkOption::Full,
        1 => ChunkOption::RecordCount(x),
        _ => ChunkOption::ByteSizeBestEffort(x),
    };
    let c: CompressorConfig = match pick(3) {
        0 => CompressorConfig::rle().build().into(),
        1 => CompressorConfig::buff().build().into(),
        _ => CompressorConfig::snappy().build().into(),
    };
    let e: &[u8] = &[];
    let mut w = FileWriter::new(e, c, o);
    let mut b = Vec::new();
    w.write_header(&mut b).expect("write");
    check(b.len() == w.file_header_size(), "header size");
    let off = u64s();
    let slot = w.footer_offset_slot_offset();
    b[slot..slot + 8].copy_from_slice(&off.to_le_bytes());
    let mut r = FileReader::new();
    let h = r.fetch_header(&b[..]).expect("read");
    check(*h.config().chunk_option() == o, "chunk option");
    check(*h.config().compression_scheme() == c.compression_scheme(), "compression scheme");
    check(h.footer_offset() == off, "footer offset");
}
fn times() {
    let t: Vec<u128> = (0..9).map(|_| (u64s() as u128) << 64 | u64s() as u128).collect();
    let mut s = SerializableSegmentedExecutionTimes {
        io_read_nanos: t[0], io_write_nanos: t[1], xor_nanos: t[2], delta_nanos: t[3], quantization_nanos: t[4],
        bit_packing_nanos: t[5], compare_insert_nanos: t[6], sum_nanos: t[7], decompression_nanos: t[8],
    };
    let o = s;
    let b = s.to_le().as_bytes().to_vec();
    check(SerializableSegmentedExecutionTimes::from_le_bytes(&b) == o, "the same times are read back");
}
fn convert() {
    let t = |i: u128| 3_000_000_123 * (i + 1);
    let s = SerializableSegmentedExecutionTimes {
        io_read_nanos: t(0), io_write_nanos: t(1), xor_nanos: t(2), delta_nanos: t(3), quantization_nanos: t(4),
        bit_packing_nanos: t(5), compare_insert_nanos: t(6), sum_nanos: t(7), decompression_nanos: t(8),
    };
    let e = SegmentedExecutionTimes::from(s);
    check(e.io_read().as_nanos() == t(0) && e.xor().as_nanos() == t(2) && e.decompression().as_nanos() == t(8), "durations");
    check(SerializableSegmentedExecutionTimes::from(e) == s, "there and back");
}
harnesses! {
    fn c11_header() { header() }
    fn c11_times() { times() }
    fn c11_convert() { convert() }
}
