//! C13: encoding and decoding do not depend on how the streams deliver or accept bytes.
//! BOUNDS: 3 symbolic values; input, output and file reader deliver or accept 1..9 bytes per call or signal an interruption, any 2 consecutive calls among the first 16 (thorough 4); a stream failing from any of its first 16 calls on, or at one of its first 8 seeks; Full, RecordCount(1), RecordCount(2) and ByteSizeBestEffort(8); the file reader also with every scheme and query over 5 records; 3100 records (24800 bytes), two of them symbolic, with one of the four streams moving at most 7 to 16384 bytes per call and interrupted at every fifth
//! OUTSIDE: longer schedules; transient errors other than interruption
use crate::util::*;
use crate::vp::*;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

/// How much the next call moves: a schedule of picks, then everything.
struct Sched {
    skip: usize,
    left: usize,
    fail: bool,
    amounts: &'static [usize],
    /// From then on: this much, and every fifth call an interruption.
    drip: usize,
    calls: usize,
    /// The seek that fails.
    seeks: usize,
}
impl Sched {
    fn seek(&mut self) -> Result<()> {
        self.seeks = self.seeks.wrapping_sub(1);
        if self.seeks == 0 || (self.fail && self.skip == 0) {
            return Err(Error::from(ErrorKind::Other));
        }
        Ok(())
    }
    fn next(&mut self) -> Result<usize> {
        if self.skip > 0 {
            self.skip -= 1;
            return Ok(usize::MAX);
        }
        if self.fail {
            return Err(Error::from(ErrorKind::Other));
        }
        if self.left == 0 {
            self.calls += 1;
            if self.drip > 0 && self.calls % 5 == 0 {
                return Err(Error::from(ErrorKind::Interrupted));
            }
            return Ok(if self.drip > 0 { self.drip } else { usize::MAX });
        }
        self.left -= 1;
        match pick_from(self.amounts) {
            0 => Err(Error::from(ErrorKind::Interrupted)),
            n => Ok(n),
        }
    }
}
struct R<'a> {
    d: &'a [u8],
    pos: usize,
    s: Sched,
}
impl Read for R<'_> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        let m = self.s.next()?;
        let n = b.len().min(self.d.len().saturating_sub(self.pos)).min(m);
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Seek for R<'_> {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.s.seek()?;
        match p {
            SeekFrom::Start(x) => self.pos = x as usize,
            SeekFrom::Current(x) => self.pos = (self.pos as i64 + x) as usize,
            SeekFrom::End(x) => self.pos = (self.d.len() as i64 + x) as usize,
        }
        Ok(self.pos as u64)
    }
}
struct W {
    d: Vec<u8>,
    pos: usize,
    s: Sched,
}
impl Write for W {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let m = self.s.next()?;
        let n = b.len().min(m);
        if self.d.len() < self.pos + n {
            self.d.resize(self.pos + n, 0);
        }
        self.d[self.pos..self.pos + n].copy_from_slice(&b[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Seek for W {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.s.seek()?;
        match p {
            SeekFrom::Start(x) => self.pos = x as usize,
            SeekFrom::Current(x) => self.pos = (self.pos as i64 + x) as usize,
            SeekFrom::End(x) => self.pos = (self.d.len() as i64 + x) as usize,
        }
        Ok(self.pos as u64)
    }
}
const SKIP: usize = 14;
const A: &[usize] = &[0, 1, 5, 8, 9];
fn sched(n: usize) -> Sched {
    Sched { skip: pick(SKIP), left: n, amounts: A, fail: false, drip: 0, calls: 0, seeks: 0 }
}
/// A stream that fails from some call on.
fn failing() -> Sched {
    Sched { skip: pick(16), left: 0, amounts: A, fail: true, drip: 0, calls: 0, seeks: 0 }
}
/// A stream of which one seek fails.
fn unseekable() -> Sched {
    Sched { skip: usize::MAX, left: 0, amounts: A, fail: false, drip: 0, calls: 0, seeks: 1 + pick(8) }
}
/// A stream that moves a few or many bytes per call throughout.
fn drip() -> Sched {
    Sched { skip: 0, left: 0, amounts: A, fail: false, drip: pick_from(&[7, 512, 4095, 8191, 8192, 8193, 16_384, 1 << 40]), calls: 0, seeks: 0 }
}
/// More than common buffer sizes hold.
fn long() {
    let mut v: Vec<f64> = (0..3100).map(|i| i as f64 * 0.5).collect();
    v[1023] = f64s();
    v[3099] = f64s();
    let o = pick_from(&[ChunkOption::Full, ChunkOption::RecordCount(1025), ChunkOption::ByteSizeBestEffort(8200)]);
    let b = raw(&v);
    let k = pick(4);
    let s = drip();
    let all = || Sched { skip: usize::MAX, left: 0, amounts: A, fail: false, drip: 0, calls: 0, seeks: 0 };
    let on = |j: usize| if j == k { drip_of(&s) } else { all() };
    let mut e = Encoder::new(EncoderInput::from_reader(R { d: &b, pos: 0, s: on(0) }), EncoderOutput::from_writer(W { d: Vec::new(), pos: 0, s: on(1) }), o, cfg());
    e.encode().expect("encode");
    let f = e.into_output().into_inner().d;
    let mut d = match Decoder::new(DecoderInput::from_reader(R { d: &f, pos: 0, s: on(2) })) {
        Ok(d) => d,
        Err(_) => panic!("open"),
    };
    let mut w = DecoderOutput::from_writer(W { d: Vec::new(), pos: 0, s: on(3) });
    d.materialize(&mut w, None, None).expect("materialize");
    let g = to_f64(w.into_writer().d);
    check(g.len() == v.len(), "all records");
    for i in 0..v.len() {
        check(g[i].to_bits() == v[i].to_bits(), "the record, however the streams split it");
    }
}
fn drip_of(s: &Sched) -> Sched {
    Sched { skip: 0, left: 0, amounts: A, fail: false, drip: s.drip, calls: 0, seeks: 0 }
}
fn opt() -> ChunkOption {
    pick_from(&[ChunkOption::Full, ChunkOption::RecordCount(1), ChunkOption::RecordCount(2), ChunkOption::ByteSizeBestEffort(8)])
}
fn raw(v: &[f64]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}
fn vals() -> Vec<f64> {
    (0..3).map(|_| f64s()).collect()
}
fn cfg() -> CompressorConfig {
    CompressorConfig::uncompressed().build().into()
}
fn input(n: usize) {
    let v = vals();
    let b = raw(&v);
    let mut e = Encoder::new(EncoderInput::from_reader(R { d: &b, pos: 0, s: sched(n) }), EncoderOutput::from_vec(Vec::new()), opt(), cfg());
    e.encode().expect("short or interrupted reads are not errors");
    let g = decode(&e.into_output().into_vec());
    check(same_bits(&g, &v), "all records are encoded whatever the reads deliver");
}
fn output(n: usize) {
    let v = vals();
    let b = raw(&v);
    let mut e = Encoder::new(EncoderInput::from_slice(&b), EncoderOutput::from_writer(W { d: Vec::new(), pos: 0, s: sched(n) }), opt(), cfg());
    e.encode().expect("short or interrupted writes are not errors");
    let f = e.into_output().into_inner().d;
    let g = decode(&f);
    check(same_bits(&g, &v), "all records are written whatever the writes accept");
}
fn reader(n: usize, c: CompressorConfig) {
    let v = vals();
    let f = encode(&v, opt(), c);
    let mut d = match Decoder::new(DecoderInput::from_reader(R { d: &f, pos: 0, s: sched(n) })) {
        Ok(d) => d,
        Err(_) => panic!("open"),
    };
    let mut o = DecoderOutput::from_vec(Vec::new());
    d.materialize(&mut o, None, None).expect("materialize");
    let g = to_f64(o.into_writer().into_inner());
    check(same_bits(&g, &v), "all records are decoded whatever the reads deliver");
}
/// The answer to the k-th kind of query, or an error.
fn query<T: Read + Seek>(d: &mut Decoder<T>, v: &[f64], k: usize) -> ebi::decoder::Result<()> {
    let p = Predicate::Range(Range::new(RangeValue::Inclusive(0.75), RangeValue::Exclusive(50.0)));
    let a = Ask { opt: ChunkOption::Full, chunk: None, mask: None, sel: vec![true; v.len()] };
    let mut o = DecoderOutput::from_vec(Vec::new());
    match k {
        0 => {
            d.materialize(&mut o, None, None)?;
            check(same_bits(&to_f64(o.into_writer().into_inner()), v), "all records are decoded whatever the reads deliver");
        }
        1 => is_filtered(&d.filter(p, None, None)?, &a, v, &p),
        2 => is_sum(d.sum(None, None)?, &a, v),
        3 => check(d.min(None, None)? == v.iter().fold(f64::INFINITY, |x, &y| if y < x { y } else { x }), "min"),
        4 => check(d.max(None, None)? == v.iter().fold(f64::NEG_INFINITY, |x, &y| if y > x { y } else { x }), "max"),
        _ => {
            d.filter_materialize(&mut o, p, None, None)?;
            let w: Vec<f64> = v.iter().copied().filter(|&x| x >= 0.75 && x < 50.0).collect();
            check(same_bits(&to_f64(o.into_writer().into_inner()), &w), "all records that satisfy the predicate");
        }
    }
    Ok(())
}
/// As `reader`, for all schemes and queries: values all but fixed.
fn some() -> Vec<f64> {
    vec![1.5, if flag() { 2.25 } else { -3.0 }, 0.75, 0.75, 100.5]
}
fn reader_of(n: usize, c: CompressorConfig) {
    let v = some();
    let f = encode(&v, pick_from(&[ChunkOption::Full, ChunkOption::RecordCount(2)]), c);
    let mut d = match Decoder::new(DecoderInput::from_reader(R { d: &f, pos: 0, s: sched(n) })) {
        Ok(d) => d,
        Err(_) => panic!("open"),
    };
    query(&mut d, &v, pick(6)).expect("short and interrupted reads are not errors");
}
fn seek_of(c: CompressorConfig) {
    let v = some();
    let f = encode(&v, pick_from(&[ChunkOption::Full, ChunkOption::RecordCount(2)]), c);
    let Ok(mut d) = Decoder::new(DecoderInput::from_reader(R { d: &f, pos: 0, s: unseekable() })) else { return };
    // an error, or the right answer
    let _ = query(&mut d, &v, pick(6));
}
fn seek_out() {
    let v = vals();
    let b = raw(&v);
    let mut e = Encoder::new(EncoderInput::from_slice(&b), EncoderOutput::from_writer(W { d: Vec::new(), pos: 0, s: unseekable() }), opt(), cfg());
    if e.encode().is_ok() {
        let f = e.into_output().into_inner().d;
        check(same_bits(&decode(&f), &v), "success means that everything was written where it belongs");
    }
}
fn fail_of(c: CompressorConfig) {
    let v = some();
    let f = encode(&v, pick_from(&[ChunkOption::Full, ChunkOption::RecordCount(2)]), c);
    let Ok(mut d) = Decoder::new(DecoderInput::from_reader(R { d: &f, pos: 0, s: failing() })) else { return };
    // an error, or the right answer
    let _ = query(&mut d, &v, pick(6));
}
fn xor() -> CompressorConfig {
    pick_from(&[
        CompressorConfig::gorilla().build().into(),
        CompressorConfig::chimp().build().into(),
        CompressorConfig::chimp128().build().into(),
        CompressorConfig::elf().build().into(),
        CompressorConfig::elf_on_chimp().build().into(),
    ])
}
fn other() -> CompressorConfig {
    pick_from(&[
        cfg(),
        CompressorConfig::rle().build().into(),
        CompressorConfig::zstd().build().into(),
        CompressorConfig::buff().scale(100).build().into(),
        CompressorConfig::delta_sprintz().scale(100).build().into(),
        CompressorConfig::gzip().build().into(),
        CompressorConfig::snappy().build().into(),
    ])
}
fn sink(n: usize) {
    let v = vals();
    let f = encode(&v, opt(), cfg());
    let mut d = open(&f);
    let mut o = DecoderOutput::from_writer(W { d: Vec::new(), pos: 0, s: sched(n) });
    d.materialize(&mut o, None, None).expect("materialize");
    let g = to_f64(o.into_writer().d);
    check(same_bits(&g, &v), "all records are written whatever the writes accept");
}
/// The trailing bytes of an input that is not a whole number of records are ignored, the records before them are kept.
fn tail() {
    let v = vals();
    let mut b = raw(&v);
    let k = pick(8);
    for _ in 0..k {
        b.push(u8s());
    }
    let mut e = Encoder::new(EncoderInput::from_slice(&b), EncoderOutput::from_vec(Vec::new()), opt(), cfg());
    e.encode().expect("encode");
    let g = decode(&e.into_output().into_vec());
    check(same_bits(&g, &v), "all whole records are encoded");
}
/// An I/O error is reported, or never reached.
fn fail_in() {
    let v = vals();
    let b = raw(&v);
    let r = R { d: &b, pos: 0, s: failing() };
    let k = r.s.skip;
    let o = opt();
    let mut e = Encoder::new(EncoderInput::from_reader(r), EncoderOutput::from_vec(Vec::new()), o, cfg());
    match e.encode() {
        Err(_) => {}
        Ok(()) => {
            let g = decode(&e.into_output().into_vec());
            check(k > 0 && same_bits(&g, &v), "success means that everything was encoded");
        }
    }
}
fn fail_out() {
    let v = vals();
    let b = raw(&v);
    let mut e = Encoder::new(EncoderInput::from_slice(&b), EncoderOutput::from_writer(W { d: Vec::new(), pos: 0, s: failing() }), opt(), cfg());
    if e.encode().is_ok() {
        let f = e.into_output().into_inner().d;
        check(same_bits(&decode(&f), &v), "success means that everything was written");
    }
}
fn fail_read(c: CompressorConfig) {
    let v = vals();
    let f = encode(&v, opt(), c);
    let Ok(mut d) = Decoder::new(DecoderInput::from_reader(R { d: &f, pos: 0, s: failing() })) else { return };
    let mut o = DecoderOutput::from_vec(Vec::new());
    if d.materialize(&mut o, None, None).is_ok() {
        check(same_bits(&to_f64(o.into_writer().into_inner()), &v), "success means that everything was read");
    }
}
fn fail_sink() {
    let v = vals();
    let f = encode(&v, opt(), cfg());
    let mut d = open(&f);
    let mut o = DecoderOutput::from_writer(W { d: Vec::new(), pos: 0, s: failing() });
    if d.materialize(&mut o, None, None).is_ok() {
        check(same_bits(&to_f64(o.into_writer().d), &v), "success means that everything was written");
    }
}
harnesses! {
    fn c13_long() { long() }
    fn c13_fail_in() { fail_in() }
    fn c13_fail_out() { fail_out() }
    fn c13_fail_read() { fail_read(pick_from(&[cfg(), CompressorConfig::zstd().build().into(), CompressorConfig::rle().build().into()])) }
    fn c13_fail_sink() { fail_sink() }
    fn c13_input() { input(2) }
    fn c13_output() { output(2) }
    fn c13_reader() { reader(2, cfg()) }
    fn c13_reader_zstd() { reader(2, CompressorConfig::zstd().build().into()) }
    fn c13_reader_rle() { reader(2, CompressorConfig::rle().build().into()) }
    fn c13_reader_xor() { reader_of(2, xor()) }
    fn c13_reader_other() { reader_of(2, other()) }
    fn c13_fail_xor() { fail_of(xor()) }
    fn c13_fail_other() { fail_of(other()) }
    fn c13_seek_xor() { seek_of(xor()) }
    fn c13_seek_other() { seek_of(other()) }
    fn c13_seek_out() { seek_out() }
    fn c13_sink() { sink(2) }
    fn c13_tail() { tail() }
    fn c13t_input() { input(4) }
    fn c13t_output() { output(4) }
    fn c13t_reader() { reader(4, cfg()) }
}
