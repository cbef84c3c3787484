//! C21: encoding and decoding by file path.
//! BOUNDS: 3 symbolic values (uncompressed), 5 concrete values and one symbolic (the other schemes), 3100 records with two of them symbolic; Full, RecordCount(2), ByteSizeBestEffort(16); input, output and decoded file by path, each with or without buffering, over no file, a shorter or a longer file; transfers of at most 7, 4096 or any number of bytes per call, one interruption at any of the first 24 calls; reads, writes or seeks failing from any of the first 24 calls on
//! OUTSIDE: the operating system's own file code (a model of open, read, write, lseek, close and fstat stands for it); permissions, links and directories; several processes on one file
use crate::fs::fs;
use crate::util::*;
use crate::vp::*;
use std::io::{Read, Seek, Write};

const IN: &str = "/vp/in.bin";
const OUT: &str = "/vp/out.ebi";
const BACK: &str = "/vp/back.bin";

fn raw(v: &[f64]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}
fn opt() -> ChunkOption {
    pick_from(&[ChunkOption::Full, ChunkOption::RecordCount(2), ChunkOption::ByteSizeBestEffort(16)])
}
/// What lies there before: nothing, something shorter, something longer.
fn before(name: &str) {
    match pick(3) {
        0 => {}
        k => fs().put(name, vec![0xee; [5, 60_000][k - 1]]),
    }
}
fn enc<R: Read, W: Write + Seek>(i: EncoderInput<R>, o: EncoderOutput<W>, opt: ChunkOption, c: CompressorConfig) -> bool {
    let mut e = Encoder::new(i, o, opt, c);
    e.encode().is_ok()
}
fn encode_path(buffered: bool, opt: ChunkOption, c: CompressorConfig) -> bool {
    let (Ok(i), Ok(o)) = (EncoderInput::from_file(IN), EncoderOutput::from_file(OUT)) else { return false };
    if buffered {
        enc(i, o.into_buffered(), opt, c)
    } else {
        enc(i, o, opt, c)
    }
}
fn dec<R: Read + Seek>(i: DecoderInput<R>, buffered: bool) -> bool {
    let Ok(mut d) = Decoder::new(i) else { return false };
    let Ok(o) = DecoderOutput::from_file(BACK) else { return false };
    if buffered {
        let mut o = o.into_buffered();
        d.materialize(&mut o, None, None).is_ok() && o.into_writer().flush().is_ok()
    } else {
        let mut o = o;
        d.materialize(&mut o, None, None).is_ok()
    }
}
fn decode_path(b: (bool, bool)) -> bool {
    let Ok(i) = DecoderInput::from_file(OUT) else { return false };
    if b.0 {
        dec(i.into_buffered(), b.1)
    } else {
        dec(i, b.1)
    }
}
fn is_file(name: &str, want: &[u8]) {
    let Some(g) = fs().get(name) else { panic!("the file is there") };
    check(g.len() == want.len(), "the file holds as many bytes as written and no others");
    let mut ok = true;
    for i in 0..want.len() {
        ok &= g[i] == want[i];
    }
    check(ok, "the file holds the bytes written");
}
fn there_and_back(v: &[f64], opt: ChunkOption, c: CompressorConfig, old: bool) {
    let b = raw(v);
    fs().put(IN, b.clone());
    if old {
        before(OUT);
    }
    check(encode_path(flag(), opt, c), "encoding a file");
    check(fs().n_open() == 0, "the files are closed");
    is_file(IN, &b);
    let m = encode(v, opt, c);
    let f = fs().get(OUT).cloned().unwrap_or_default();
    check(f.len() == m.len(), "the file written is as long as the one in memory");
    let g = decode(&f);
    check(same_bits(&g, v), "the file written decodes to the input");
    if old {
        before(BACK);
    }
    check(decode_path((flag(), flag())), "decoding a file");
    check(fs().n_open() == 0, "the files are closed");
    is_file(BACK, &b);
    is_file(OUT, &f);
}
fn other() -> CompressorConfig {
    match pick(8) {
        0 => CompressorConfig::gorilla().build().into(),
        1 => CompressorConfig::chimp().build().into(),
        2 => CompressorConfig::chimp128().build().into(),
        3 => CompressorConfig::elf().build().into(),
        4 => CompressorConfig::elf_on_chimp().build().into(),
        5 => CompressorConfig::rle().build().into(),
        6 => CompressorConfig::delta_sprintz().scale(4).build().into(),
        _ => CompressorConfig::buff().scale(10).build().into(),
    }
}
fn few() -> Vec<f64> {
    let mut v = vec![1.5, 1.5, -2.25, 8.0, 0.25];
    v.push(bits(2) as f64);
    v
}
fn long() -> Vec<f64> {
    let mut v: Vec<f64> = (0..3100).map(|i| i as f64 * 0.5).collect();
    v[1023] = f64s();
    v[3099] = f64s();
    v
}
fn plain() -> CompressorConfig {
    CompressorConfig::uncompressed().build().into()
}
/// If everything is reported as done, it is.
fn faulty(v: &[f64], set: impl FnOnce(), c: CompressorConfig) {
    let b = raw(v);
    fs().put(IN, b.clone());
    let o = opt();
    set();
    if !encode_path(flag(), o, c) {
        return;
    }
    check(fs().failed == 0 || fs().seeks == 0, "failed reads and writes are reported");
    let g = decode(&fs().get(OUT).cloned().unwrap_or_default());
    check(same_bits(&g, v), "what is reported as written is written");
    cover("encoded");
}
fn faulty_read(v: &[f64], set: impl FnOnce(), c: CompressorConfig) {
    let b = raw(v);
    fs().put(OUT, encode(v, opt(), c));
    set();
    if !decode_path((flag(), flag())) {
        return;
    }
    is_file(BACK, &b);
    cover("decoded");
}
fn three() -> Vec<f64> {
    (0..3).map(|_| f64s()).collect()
}
harnesses! {
    fn c21_plain() {
        there_and_back(&three(), opt(), plain(), true)
    }
    fn c21_schemes() {
        there_and_back(&few(), opt(), other(), false)
    }
    fn c21_split() {
        fs().cap = pick_from(&[7, 4096]);
        there_and_back(&three(), opt(), plain(), false)
    }
    fn c21_interrupted() {
        fs().eintr = pick(24);
        there_and_back(&three(), opt(), plain(), false)
    }
    fn c21_long() {
        fs().cap = pick_from(&[4095, usize::MAX]);
        there_and_back(&long(), pick_from(&[ChunkOption::Full, ChunkOption::RecordCount(1025)]), plain(), true)
    }
    fn c21_empty() {
        there_and_back(&[], opt(), if flag() { plain() } else { other() }, true)
    }
    fn c21_no_such_file() {
        check(EncoderInput::from_file("/vp/none").is_err(), "a missing input is reported");
        check(DecoderInput::from_file("/vp/none").is_err(), "a missing file is reported");
        check(fs().get("/vp/none").is_none(), "nothing is made for reading");
    }
    fn c21_read_fails() {
        faulty(&three(), || fs().reads = pick(24), plain())
    }
    fn c21_write_fails() {
        faulty(&three(), || fs().writes = pick(24), plain())
    }
    fn c21_seek_fails() {
        faulty(&three(), || fs().seeks = pick(24), plain())
    }
    fn c21_decode_read_fails() {
        faulty_read(&three(), || fs().reads = pick(24), plain())
    }
    fn c21_decode_write_fails() {
        faulty_read(&three(), || fs().writes = pick(24), plain())
    }
    fn c21_decode_seek_fails() {
        faulty_read(&three(), || fs().seeks = pick(24), plain())
    }
}
