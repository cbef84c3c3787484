//! C02: bit reader against a reference cursor over the same bytes.
//! BOUNDS: buffers of 0..10 symbolic bytes; every start offset (also past the end) x every read; histories of 3 operations (thorough 4); 80 symbolic bytes, any alignment x any skip; 9000 bytes with leaps across 2^8 to 2^16 bits
//! OUTSIDE: reads of 0 bits or more than 64 (documented as invalid); longer histories
use crate::vp::*;
use ebi::io::bit_read::{BitRead2, BufferedBitReader};

struct Model<'a> {
    b: &'a [u8],
    at: usize,
}
impl Model<'_> {
    fn take(&mut self, n: usize) -> Option<u64> {
        let r = self.peek(n);
        if r.is_some() {
            self.at += n;
        }
        r
    }
    fn peek(&self, n: usize) -> Option<u64> {
        if self.at + n > self.b.len() * 8 {
            return None;
        }
        let mut v = 0u64;
        for i in self.at..self.at + n {
            v = v << 1 | ((self.b[i / 8] >> (7 - i % 8)) & 1) as u64;
        }
        Some(v)
    }
}
fn obs(x: Option<u64>) -> Option<u64> {
    match x {
        Some(v) => {
            observe(1);
            observe(v)
        }
        None => observe(0),
    }
    x
}
fn step<T: AsRef<[u8]>>(r: &mut BufferedBitReader<T>, m: &mut Model, kind: usize, n: usize) {
    match kind {
        0 => check(obs(r.read_bit().map(|b| b as u64)) == m.take(1), "read_bit"),
        1 => check(obs(r.read_byte().map(|b| b as u64)) == m.take(8), "read_byte"),
        2 => check(obs(r.read_bits(n as u8)) == m.take(n), "read_bits"),
        3 => check(obs(r.peak_bits(n as u8)) == m.peek(n), "peak_bits"),
        4 => {
            r.skip_bits(n);
            m.at += n;
        }
        5 => {
            if m.at < m.b.len() * 8 {
                check(Some(r.read_bit_unchecked() as u64) == m.take(1), "read_bit_unchecked")
            }
        }
        6 => {
            if m.at + 8 <= m.b.len() * 8 {
                check(Some(r.read_byte_unchecked() as u64) == m.take(8), "read_byte_unchecked")
            }
        }
        _ => {
            r.reset();
            m.at = 0;
        }
    }
}
fn buf(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(u8s());
    }
    v
}
const W: [usize; 9] = [1, 2, 7, 8, 9, 16, 31, 63, 64];

harnesses! {
    // every start offset in a 9-byte buffer (and past its end) x every read
    fn c02_onestep() {
        let v = buf(9);
        let s = pick(82);
        let mut m = Model { b: &v, at: 0 };
        let mut r = BufferedBitReader::new(&v[..]);
        step(&mut r, &mut m, 4, s);
        match pick(4) {
            0 => step(&mut r, &mut m, 0, 0),
            1 => step(&mut r, &mut m, 1, 0),
            2 => step(&mut r, &mut m, 2, pick_from(&W)),
            _ => step(&mut r, &mut m, 3, pick_from(&W)),
        }
        step(&mut r, &mut m, 3, 3);
        step(&mut r, &mut m, 0, 0);
        step(&mut r, &mut m, 2, 5);
    }
    // every width at every alignment
    fn c02_width() {
        let v = buf(10);
        let s = pick(8);
        let n = 1 + pick(64);
        let mut m = Model { b: &v, at: 0 };
        let mut r = BufferedBitReader::new(v.clone());
        step(&mut r, &mut m, 4, s);
        step(&mut r, &mut m, 3, n);
        step(&mut r, &mut m, 2, n);
        step(&mut r, &mut m, 1, 0);
        step(&mut r, &mut m, 0, 0);
    }
    // every position of a 9-byte buffer x every width, skipping or reading there
    fn c02_every() {
        let v = buf(9);
        let s = pick(82);
        let mut m = Model { b: &v, at: 0 };
        let mut r = BufferedBitReader::new(&v[..]);
        if s % 2 == 1 {
            step(&mut r, &mut m, 0, 0);
        }
        step(&mut r, &mut m, 4, s - s % 2);
        step(&mut r, &mut m, 2 + pick(2), 1 + pick(64));
        step(&mut r, &mut m, 1, 0);
        step(&mut r, &mut m, 0, 0);
    }
    // two skips of any length
    fn c02_skips() {
        let v = buf(8);
        let mut m = Model { b: &v, at: 0 };
        let mut r = BufferedBitReader::new(&v[..]);
        step(&mut r, &mut m, if flag() { 2 } else { 4 }, 1 + pick(9));
        step(&mut r, &mut m, 4, pick(56));
        step(&mut r, &mut m, 3, 8);
        step(&mut r, &mut m, 1, 0);
        step(&mut r, &mut m, 0, 0);
    }
    // any skip beyond the end, however far
    fn c02_far() {
        let v = buf(4);
        let mut m = Model { b: &v, at: 0 };
        let mut r = BufferedBitReader::new(&v[..]);
        let n = u64s() as usize;
        assume(n >= 32 && n < 1 << 60);
        step(&mut r, &mut m, 4, pick(8));
        step(&mut r, &mut m, 4, n);
        check(r.read_bit().is_none(), "no bit past the end");
        check(r.read_byte().is_none(), "no byte past the end");
        check(r.read_bits(1 + pick(64) as u8).is_none(), "no bits past the end");
        check(r.peak_bits(1).is_none(), "nothing to peek past the end");
        step(&mut r, &mut m, 7, 0);
        step(&mut r, &mut m, 2, 32);
    }
    // a longer buffer, read anywhere
    fn c02_long() {
        let v = buf(40);
        let mut m = Model { b: &v, at: 0 };
        let mut r = BufferedBitReader::new(&v[..]);
        step(&mut r, &mut m, 4, pick(321));
        match pick(3) {
            0 => step(&mut r, &mut m, 2, pick_from(&[3usize, 33, 64])),
            1 => step(&mut r, &mut m, 1, 0),
            _ => step(&mut r, &mut m, 4, pick_from(&[1usize, 8, 23])),
        }
        step(&mut r, &mut m, 0, 0);
    }
    // any one skip in a longer buffer, from any alignment
    fn c02_leap() {
        let v = buf(80);
        let mut m = Model { b: &v, at: 0 };
        let mut r = BufferedBitReader::new(&v[..]);
        step(&mut r, &mut m, if flag() { 2 } else { 4 }, 1 + pick(8));
        step(&mut r, &mut m, 4, pick(640));
        step(&mut r, &mut m, 3, 11);
        step(&mut r, &mut m, 0, 0);
        step(&mut r, &mut m, 1, 0);
    }
    // long buffers: leaps across the sizes at which counters wrap
    fn c02_wide() {
        let n = 9000;
        let mut v: Vec<u8> = (0..n).map(|i| (i * 37 + i / 256) as u8).collect();
        v[4096] = u8s();
        v[8192] = u8s();
        let mut m = Model { b: &v, at: 0 };
        let mut r = BufferedBitReader::new(&v[..]);
        let a = pick_from(&[0usize, 3, 7, 8, 15, 253]);
        step(&mut r, &mut m, 4, a);
        step(&mut r, &mut m, 4, pick_from(&[0usize, 255, 256, 1023, 2047, 4095, 4096, 32_761, 32_765, 65_535, 65_536, 65_537, 71_990, 71_999]));
        step(&mut r, &mut m, 3, 9);
        match pick(3) {
            0 => step(&mut r, &mut m, 2, pick_from(&[3usize, 33, 64])),
            1 => step(&mut r, &mut m, 1, 0),
            _ => step(&mut r, &mut m, 4, pick_from(&[1usize, 8, 23, 300])),
        }
        step(&mut r, &mut m, 0, 0);
        step(&mut r, &mut m, 1, 0);
    }
    // short histories of any operations over short buffers
    fn c02_history() {
        let v = buf(pick(4));
        let mut m = Model { b: &v, at: 0 };
        let mut r = BufferedBitReader::new(&v[..]);
        for _ in 0..3 {
            let k = pick(8);
            let n = if k == 2 || k == 3 || k == 4 { pick_from(&[1, 2, 7, 8, 12, 24]) } else { 0 };
            step(&mut r, &mut m, k, n);
        }
        step(&mut r, &mut m, 3, 1);
    }
    fn c02t_history4() {
        let v = buf(3);
        let mut m = Model { b: &v, at: 0 };
        let mut r = BufferedBitReader::new(&v[..]);
        for _ in 0..4 {
            let k = pick(8);
            let n = if k == 2 || k == 3 || k == 4 { pick_from(&[1, 7, 8, 12]) } else { 0 };
            step(&mut r, &mut m, k, n);
        }
        step(&mut r, &mut m, 3, 1);
    }
    fn c02t_onestep() {
        let v = buf(9);
        let s = pick(82);
        let mut m = Model { b: &v, at: 0 };
        let mut r = BufferedBitReader::new(&v[..]);
        step(&mut r, &mut m, 4, s);
        step(&mut r, &mut m, 2 + pick(2), 1 + pick(64));
        step(&mut r, &mut m, 0, 0);
    }
}
