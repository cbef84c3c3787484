//! C26: a file that is cut short, unfinished or damaged is recognized when it is opened.
//! BOUNDS: files of 0..3 symbolic records of every scheme, one chunk or chunks of 1..2, cut at every length; the output of an encoder stopped before any of its first 12 write calls (100 for a file of 40 chunks), or in the middle of one of more than 8 bytes; a header of fully symbolic bytes (the footer offset any position of the file and beyond, or huge); a footer with fully symbolic counts and compressor settings of any size, for every scheme
//! OUTSIDE: a footer offset of which only some of the 8 bytes were written; damage to chunk data (see C27) and to the offsets in the chunk directory, which carry no checksum
use crate::util::*;
use crate::vp::*;
use std::io::{Cursor, Error, ErrorKind, Result, Seek, SeekFrom, Write};

fn schemes(k: usize) -> CompressorConfig {
    match k {
        0 => CompressorConfig::uncompressed().build().into(),
        1 => CompressorConfig::rle().build().into(),
        2 => CompressorConfig::buff().scale(100).build().into(),
        3 => CompressorConfig::delta_sprintz().scale(100).build().into(),
        4 => CompressorConfig::gorilla().build().into(),
        5 => CompressorConfig::chimp().build().into(),
        6 => CompressorConfig::chimp128().build().into(),
        7 => CompressorConfig::elf().build().into(),
        8 => CompressorConfig::elf_on_chimp().build().into(),
        9 => CompressorConfig::zstd().build().into(),
        10 => CompressorConfig::gzip().build().into(),
        11 => CompressorConfig::snappy().build().into(),
        _ => CompressorConfig::ffi_alp().build().into(),
    }
}
fn opt() -> ChunkOption {
    pick_from(&[ChunkOption::Full, ChunkOption::RecordCount(1), ChunkOption::RecordCount(2), ChunkOption::ByteSizeBestEffort(8)])
}
fn refused(f: &[u8]) -> bool {
    Decoder::new(DecoderInput::from_reader(Cursor::new(f))).is_err()
}
/// Cut at every length.
fn cut(v: &[f64], c: CompressorConfig) {
    let f = encode(v, opt(), c);
    let n = pick(f.len());
    check(refused(&f[..n]), "a file cut short is refused");
    check(!refused(&f), "the whole file is not");
}
/// A writer that stops at some call.
struct W {
    d: Vec<u8>,
    pos: usize,
    left: usize,
    part: usize,
}
impl Write for W {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let mut n = b.len();
        if self.left == 0 {
            if n <= 8 || self.part == 0 {
                return Err(Error::from(ErrorKind::Other));
            }
            n = self.part.min(n - 1);
        }
        if self.d.len() < self.pos + n {
            self.d.resize(self.pos + n, 0);
        }
        self.d[self.pos..self.pos + n].copy_from_slice(&b[..n]);
        self.pos += n;
        if self.left == 0 {
            self.part = 0;
            return Err(Error::from(ErrorKind::Other));
        }
        self.left -= 1;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Seek for W {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        match p {
            SeekFrom::Start(x) => self.pos = x as usize,
            SeekFrom::Current(x) => self.pos = (self.pos as i64 + x) as usize,
            SeekFrom::End(x) => self.pos = (self.d.len() as i64 + x) as usize,
        }
        Ok(self.pos as u64)
    }
}
/// What an encoder that was stopped leaves behind is refused, or decodes to the whole input.
fn stopped(v: &[f64], c: CompressorConfig, same: bool, n: usize) {
    let o = opt();
    let whole = encode(v, o, c);
    let w = W { d: Vec::new(), pos: 0, left: pick(n), part: pick_from(&[0, 1, 9, 17]) };
    let mut e = Encoder::new(EncoderInput::from_f64_slice(v), EncoderOutput::from_writer(w), o, c);
    let r = e.encode();
    let w = e.into_output().into_inner();
    match Decoder::new(DecoderInput::from_reader(Cursor::new(&w.d[..]))) {
        Err(_) => check(r.is_err(), "a finished file is readable"),
        Ok(mut d) => {
            check(w.d.len() == whole.len(), "a file without its footer is refused");
            let g = materialize(&mut d, None, None);
            check(g.len() == v.len(), "all records");
            if same {
                check(same_bits(&g, v), "the records");
            }
        }
    }
}
/// A file with a given header, then what a file holds.
fn header() {
    let f = encode(&[f64s()], ChunkOption::Full, schemes(0));
    let good = f[0..4].to_vec();
    let mut g = f.clone();
    let k = pick(4);
    match k {
        // magic number
        0 => {
            for i in 0..4 {
                g[i] = u8s();
            }
        }
        // field type, scheme, chunk option
        1 => {
            g[4] = u8s();
        }
        2 => {
            for i in 6..16 {
                g[i] = u8s();
            }
        }
        _ => {
            let o = pick(f.len() + 4) as u64;
            let o = pick_from(&[o, u64::MAX, 1 << 63, u64::MAX - 7]);
            g[16..24].copy_from_slice(&o.to_le_bytes());
        }
    }
    let r = Decoder::new(DecoderInput::from_reader(Cursor::new(&g[..])));
    match r {
        Err(_) => {}
        Ok(d) => {
            let mut same = true;
            for i in 0..4 {
                same &= g[i] == good[i];
            }
            check(same, "a file without the magic number is refused");
            check(g[4] == f[4], "an unknown field type is refused");
            check(d.header().footer_offset() >= 30, "a footer within the header is refused");
        }
    }
}
/// Any scheme, any counts, any size of the compressor settings.
fn footer(s: usize) {
    let f = encode(&[], ChunkOption::Full, schemes(s));
    let mut g = f.clone();
    let at = u64::from_le_bytes(f[16..24].try_into().unwrap()) as usize;
    match pick(4) {
        0 => g[at..at + 8].copy_from_slice(&u64s().to_le_bytes()),
        1 => g[at + 8..at + 16].copy_from_slice(&u64s().to_le_bytes()),
        2 => g[at + 16] = u8s(),
        _ => {
            g[5] = u8s();
        }
    }
    if let Ok(d) = Decoder::new(DecoderInput::from_reader(Cursor::new(&g[..]))) {
        observe(d.footer().number_of_chunks());
        check(d.footer().number_of_chunks() <= g.len() as u64 / 16, "no more chunks than fit the file");
    }
}
/// Many chunks.
const L: [f64; 40] = {
    let mut v = [0.0; 40];
    let mut i = 0;
    while i < 40 {
        v[i] = (i * i % 23) as f64 * 0.25;
        i += 1;
    }
    v
};
harnesses! {
    fn c26_cut_long() { cut(&L[..14], schemes(pick_from(&[0, 1, 3, 6]))) }
    fn c26_stopped_long() { stopped(&L, schemes(pick_from(&[0, 1])), true, 100) }
    fn c26_cut() { let n = pick(4); let v: Vec<f64> = (0..n).map(|_| f64s()).collect(); cut(&v, schemes(0)) }
    fn c26_cut_all() { cut(&[1.25], schemes(pick(13))) }
    fn c26t_cut_all() { cut(&[1.25, 1.25, -3.5][..pick(4)], schemes(pick(13))) }
    fn c26_stopped() { let n = pick(4); let v: Vec<f64> = (0..n).map(|_| f64s()).collect(); stopped(&v, schemes(0), true, 12) }
    fn c26_stopped_all() { stopped(&[1.25, 1.25, -3.5][..pick(4)], schemes(pick(13)), false, 12) }
    fn c26_header() { header() }
    fn c26_footer() { footer(pick(13)) }
}
