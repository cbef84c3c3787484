//! C27: damaged chunk data never makes the decoder touch memory outside its buffers.
//! BOUNDS: files of every scheme with 2..3 records (36 for the SIMD code of BUFF), any 2 neighbouring bytes of the chunk replaced by symbolic ones (uncompressed, RLE, Gorilla, Chimp, Chimp128), or any 3 neighbouring bits of any byte (of every ninth byte for 36 records), then decompression, filter, sum, min and max; the result may be values, an error or a panic
//! OUTSIDE: more damaged bytes at once; the third-party coders (zstd, gzip, snappy, ALP), replaced by contract stubs; abandoning the process for lack of memory
use crate::util::*;
use crate::vp::*;
use std::io::Cursor;

fn damaged(v: &[f64], o: ChunkOption, c: CompressorConfig, step: usize, wide: bool) {
    let mut f = encode(v, o, c);
    let at = u64::from_le_bytes(f[16..24].try_into().unwrap()) as usize;
    let i = 30 + step * pick((at - 30 + step - 1) / step);
    if wide {
        f[i] = u8s();
        if i + 1 < at {
            f[i + 1] = u8s();
        }
    } else {
        f[i] ^= bits(3) as u8 * pick_from(&[1, 8, 32]);
    }
    allow_panic(true);
    let Ok(mut d) = Decoder::new(DecoderInput::from_reader(Cursor::new(&f[..]))) else { return };
    match pick(5) {
        0 => {
            let mut o = DecoderOutput::from_vec(Vec::new());
            let _ = d.materialize(&mut o, None, None);
        }
        1 => {
            let _ = d.filter(Predicate::Range(Range::new(RangeValue::Inclusive(1.0), RangeValue::None)), None, None);
        }
        2 => {
            let _ = d.filter(Predicate::Eq(1.25), None, None);
        }
        3 => {
            let _ = d.sum(None, None);
        }
        _ => {
            let _ = d.min(None, None);
            let _ = d.max(None, None);
        }
    }
    check(true, "survived");
}
const V: &[f64] = &[1.25, 1.25, -3.5];
fn small(c: impl Into<CompressorConfig>) {
    damaged(V, ChunkOption::Full, c.into(), 1, true)
}
fn narrow(c: impl Into<CompressorConfig>) {
    damaged(V, ChunkOption::Full, c.into(), 1, false)
}
harnesses! {
    fn c27_uncompressed() { small(CompressorConfig::uncompressed().build()) }
    fn c27_rle() { small(CompressorConfig::rle().build()) }
    fn c27_gorilla() { small(CompressorConfig::gorilla().build()) }
    fn c27_chimp() { small(CompressorConfig::chimp().build()) }
    fn c27_chimp128() { small(CompressorConfig::chimp128().build()) }
    fn c27_elf() { narrow(CompressorConfig::elf().build()) }
    fn c27_elf_on_chimp() { narrow(CompressorConfig::elf_on_chimp().build()) }
    fn c27_buff() { narrow(CompressorConfig::buff().scale(100).build()) }
    fn c27_buff_simd() {
        let v: Vec<f64> = (0..36).map(|i| (i * 37 % 64) as f64 * 10.0).collect();
        damaged(&v, ChunkOption::Full, CompressorConfig::buff().scale(1).build().into(), 9, false)
    }
    fn c27_sprintz() { narrow(CompressorConfig::delta_sprintz().scale(100).build()) }
}
