//! C28: reported execution times.
//! BOUNDS: time passing (symbolic 0..63 ns or s) between any two readings of the clock among the first 40 of an encoding, 20 of a query, 60 of an aggregation, or in any of the first 16 calls of a stream; as durations are sums of such intervals, each is decided alone; all 13 schemes; 5 records in 1, 2 or 5 chunks; materialize, filter, filter_materialize, sum, min, max, knn1 and matmul on a decoder used before, aggregations of three expressions over two columns; any sequence of 2 timer operations over all segments or 3 over two, intervals of 1 ns to 3 s
//! OUTSIDE: longer sequences; a clock that runs backwards (the standard library excludes it)
use crate::util::*;
use crate::vp::*;
use ebi::api::decoder::*;
use ebi::decoder::query::Predicate;
use ebi::time::*;
use std::io::{Cursor, Read, Result, Seek, SeekFrom, Write};
use std::time::Duration;

/// The clock: seconds and nanoseconds.
static mut S: i64 = 1000;
static mut N: i64 = 0;
/// The reading of the clock (counted from now) before which time passes, and whether seconds do.
static mut AT: usize = usize::MAX;
static mut SECS: bool = false;
static mut SPENT: usize = 0;
/// The stream call that takes time.
static mut AT2: usize = 0;
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_c: i32, t: *mut i64) -> i32 {
    if AT == 0 {
        let d = bits(6) as i64;
        if SECS {
            S += d;
        } else {
            N += d;
        }
    }
    AT = AT.wrapping_sub(1);
    *t = S;
    *t.add(1) = N;
    0
}
fn now() -> i64 {
    unsafe { S * 1_000_000_000 + N }
}
/// Time passes between two readings of the clock: as durations are sums of such intervals, each is checked alone.
fn ticking(n: usize) {
    unsafe {
        AT = pick(n);
        SECS = flag();
    }
}
fn spend() {
    unsafe {
        SPENT += 1;
        if SPENT == AT2 {
            N += bits(6) as i64;
        }
    }
}
fn ns(d: Duration) -> i64 {
    d.as_nanos() as i64
}
fn all(t: &SegmentedExecutionTimes) -> [i64; 9] {
    [ns(t.io_read()), ns(t.io_write()), ns(t.xor()), ns(t.delta()), ns(t.quantization()), ns(t.bit_packing()), ns(t.compare_insert()), ns(t.sum()), ns(t.decompression())]
}
fn total(t: &SegmentedExecutionTimes) -> i64 {
    all(t).iter().sum()
}
/// A stream in whose calls time passes, when switched on.
static mut ON: [bool; 2] = [false; 2];
static mut T: [i64; 2] = [0; 2];
struct Slow {
    c: Cursor<Vec<u8>>,
    k: usize,
}
impl Slow {
    fn new(v: Vec<u8>, k: usize) -> Self {
        Slow { c: Cursor::new(v), k }
    }
    fn pass(&mut self) {
        unsafe {
            if ON[self.k] {
                let a = now();
                spend();
                T[self.k] += now() - a;
            }
        }
    }
}
fn on(k: usize, b: bool) {
    unsafe { ON[k] = b }
}
fn spent(k: usize) -> i64 {
    unsafe { T[k] }
}
impl Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.pass();
        self.c.read(b)
    }
}
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.pass();
        self.c.write(b)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Seek for Slow {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.c.seek(p)
    }
}
fn config() -> CompressorConfig {
    match pick(13) {
        0 => CompressorConfig::uncompressed().build().into(),
        1 => CompressorConfig::rle().build().into(),
        2 => CompressorConfig::gorilla().build().into(),
        3 => CompressorConfig::chimp().build().into(),
        4 => CompressorConfig::chimp128().build().into(),
        5 => CompressorConfig::elf().build().into(),
        6 => CompressorConfig::elf_on_chimp().build().into(),
        7 => CompressorConfig::buff().scale(10).build().into(),
        8 => CompressorConfig::delta_sprintz().scale(10).build().into(),
        9 => CompressorConfig::zstd().build().into(),
        10 => CompressorConfig::gzip().build().into(),
        11 => CompressorConfig::snappy().build().into(),
        _ => CompressorConfig::ffi_alp().build().into(),
    }
}
const V: [f64; 5] = [1.5, 2.5, 2.5, -1.0, 8.25];
fn opt() -> ChunkOption {
    pick_from(&[ChunkOption::Full, ChunkOption::RecordCount(3), ChunkOption::RecordCount(1)])
}
fn op<R: Read + Seek>(d: &mut Decoder<R>, k: usize) {
    let mut o = DecoderOutput::from_vec(Vec::new());
    match k {
        0 => drop(d.materialize(&mut o, None, None).unwrap()),
        1 => drop(d.filter(Predicate::Eq(2.5), None, None).unwrap()),
        2 => drop(d.filter_materialize(&mut o, Predicate::Ne(2.5), None, None).unwrap()),
        3 => drop(d.sum(None, None).unwrap()),
        4 => drop(d.min(None, None).unwrap()),
        5 => drop(d.max(None, None).unwrap()),
        6 => drop(d.knn1(&[1.0]).unwrap()),
        _ => drop(d.matmul(&[1.0, 2.0], (1, 2), (5, 1)).unwrap()),
    }
}
fn encode_times(n: usize) {
    let c = config();
    let o = opt();
    ticking(n);
    let a = now();
    let f = encode(&V, o, c);
    let b = now();
    let d = open(&f);
    let t = d.footer().segmented_execution_times();
    let e = ns(d.footer().compression_elapsed_time());
    check(e <= b - a, "the elapsed time of the encoding is within the call");
    check(total(t) <= e, "the segments of the encoding take no longer than all of it");
}
fn query_times(n: usize) {
    let c = config();
    let f = encode(&V, opt(), c);
    let mut d = open(&f);
    op(&mut d, pick_from(&[0, 6]));
    let k = pick(8);
    ticking(n);
    let a = now();
    op(&mut d, k);
    let b = now();
    check(total(&d.segmented_execution_times()) <= b - a, "the segments of a query take no longer than all of it");
}
fn kind() -> SegmentKind {
    use SegmentKind::*;
    pick_from(&[IORead, IOWrite, Xor, Delta, Quantization, BitPacking, CompareInsert, Sum, Decompression])
}
fn index(k: SegmentKind) -> usize {
    use SegmentKind::*;
    [IORead, IOWrite, Xor, Delta, Quantization, BitPacking, CompareInsert, Sum, Decompression].iter().position(|x| *x == k).unwrap()
}
/// Lets time pass: short, long, or just below a second.
fn pass() -> i64 {
    let (s, n) = pick_from(&[(0, 1), (3, 0), (0, 999_999_999), (1, 400_000_000)]);
    unsafe {
        S += s;
        N += n;
        if N >= 1_000_000_000 {
            N -= 1_000_000_000;
            S += 1;
        }
    }
    s * 1_000_000_000 + n
}
fn timer_ops(n: usize, kinds: bool) {
    let mut t = SegmentedExecutionTimes::new();
    let mut w = [0i64; 9];
    for _ in 0..n {
        let k = if kinds { kind() } else { pick_from(&[SegmentKind::Xor, SegmentKind::Sum]) };
        let i = index(k);
        match pick(7) {
            0 => {
                let m = t.start_addition_measurement(k);
                w[i] += pass();
                m.stop();
            }
            1 => {
                let m = t.start_measurement(k);
                w[i] = pass();
                m.stop();
            }
            2 => {
                let m = t.start_addition_measurement(k);
                pass();
                drop(m);
            }
            3 => {
                let mut m = t.start_addition_measurement(k);
                m.stop_on_drop();
                w[i] += pass();
                drop(m);
            }
            4 => {
                let mut m = t.start_addition_measurement(k);
                m.stop_on_drop();
                w[i] += pass();
                m.stop();
            }
            5 => {
                let mut u = SegmentedExecutionTimes::new();
                let m = u.start_measurement(k);
                w[i] += pass();
                m.stop();
                t += u;
            }
            _ => {
                t += t;
                for x in &mut w {
                    *x *= 2;
                }
            }
        }
    }
    let s = SerializableSegmentedExecutionTimes::from(t);
    let b = SegmentedExecutionTimes::from(s);
    let (t, b) = (all(&t), all(&b));
    for i in 0..9 {
        check(t[i] == w[i], "the time of each segment is the sum of its intervals");
        check(b[i] == w[i], "times survive being stored");
    }
}
/// The times of an aggregation over several columns.
fn aggregation_times(n: usize) {
    let c = config();
    let f = encode(&V, opt(), c);
    let mut ds = [open(&f), open(&f)];
    let i = |k| Box::new(Expr::Index(k));
    let e = |op, l, r| Expr::Binary { op, lhs: l, rhs: r };
    use ebi::decoder::expr::Op;
    let aggs = [
        Aggregation::sum(e(Op::Mul, i(0), i(1))),
        Aggregation::new(AggregationKind::Max, Expr::Index(1)),
        Aggregation::sum(e(Op::Add, i(0), Box::new(e(Op::Sub, i(1), Box::new(Expr::Literal(1.0)))))),
    ];
    let mut t = SegmentedExecutionTimes::new();
    op(&mut ds[1], 0);
    ticking(n);
    let a = now();
    if flag() {
        Aggregation::compute_multiple(&aggs, &mut ds, None, &mut t).unwrap();
    } else {
        aggs[0].compute(&mut ds, None, &mut t).unwrap();
    }
    check(total(&t) <= now() - a, "the segments of an aggregation take no longer than all of it");
}
harnesses! {
    fn c28_aggregation() {
        aggregation_times(60)
    }
    fn c28_timers() {
        timer_ops(2, true)
    }
    fn c28_timers3() {
        timer_ops(3, false)
    }
    fn c28_encode() {
        encode_times(40)
    }
    fn c28_query() {
        query_times(20)
    }
    fn c28_encode_streams() {
        unsafe { AT2 = 1 + pick(16) };
        let c = config();
        let o = opt();
        let b: Vec<u8> = V.iter().flat_map(|x| x.to_le_bytes()).collect();
        let k = pick(2);
        on(k, true);
        let a = now();
        let mut e = Encoder::new(EncoderInput::from_reader(Slow::new(b, 0)), EncoderOutput::from_writer(Slow::new(Vec::new(), 1)), o, c);
        e.encode().unwrap();
        let z = now();
        let f = e.into_output().into_inner().c.into_inner();
        let d = open(&f);
        let t = all(d.footer().segmented_execution_times());
        let e = ns(d.footer().compression_elapsed_time());
        check(e <= z - a, "the elapsed time of the encoding is within the call");
        check(t[0] == spent(0), "the reading time is the time spent reading");
        check(t[1] <= spent(1), "the writing time is at most the time spent writing");
        if k == 0 {
            check(e == z - a, "the elapsed time is the time from the start to the end");
        }
        for j in 2..9 {
            check(t[j] == 0, "nothing else took time");
        }
    }
    fn c28_query_streams() {
        unsafe { AT2 = 1 + pick(16) };
        let c = config();
        let f = encode(&V, opt(), c);
        let k = pick(2);
        let p = pick(2);
        let mut d = match Decoder::new(DecoderInput::from_reader(Slow::new(f, 0))) {
            Ok(d) => d,
            Err(_) => panic!("open"),
        };
        let mut o = DecoderOutput::from_writer(Slow::new(Vec::new(), 1));
        on(k, true);
        match p {
            0 => drop(d.materialize(&mut o, None, None).unwrap()),
            _ => drop(d.filter_materialize(&mut o, Predicate::Ne(2.5), None, None).unwrap()),
        }
        let t = all(&d.segmented_execution_times());
        check(t[0] == spent(0), "the reading time is the time spent reading");
        check(t[1] == spent(1), "the writing time is the time spent writing");
        for j in 2..9 {
            check(t[j] == 0, "nothing else took time");
        }
    }
}
