//! C01: bit-stream round trip and writer accounting.
//! BOUNDS: histories of up to 3 writes (quick) or 4 (thorough); every alignment 0..7 with every width 0..64; values fully symbolic (64 bits); one history of 3200 writes (more than 65536 bits) of all widths with two symbolic values, then the cursor moved to any of 11 places, one more write, a reset and two more writes
//! OUTSIDE: longer histories; moving the cursor beyond the bits written
use crate::vp::*;
use ebi::io::bit_read::{BitRead2, BufferedBitReader};
use ebi::io::bit_write::{BitWrite, BufferedBitWriter};

fn low(x: u64, n: u32) -> u64 {
    if n == 0 {
        0
    } else {
        x & (u64::MAX >> (64 - n))
    }
}
#[derive(Clone, Copy)]
enum Op {
    Bit,
    Byte,
    Bits(u32),
}
const SOME: [Op; 9] = [Op::Bit, Op::Byte, Op::Bits(0), Op::Bits(1), Op::Bits(7), Op::Bits(8), Op::Bits(13), Op::Bits(63), Op::Bits(64)];
fn some_op() -> Op {
    pick_from(&SOME)
}
fn any_op() -> Op {
    let k = pick(67);
    match k {
        0 => Op::Bit,
        1 => Op::Byte,
        n => Op::Bits(n as u32 - 2),
    }
}
fn write(w: &mut impl BitWrite, op: Op, x: u64) -> u32 {
    match op {
        Op::Bit => {
            w.write_bit(x & 1 != 0);
            1
        }
        Op::Byte => {
            w.write_byte(x as u8);
            8
        }
        Op::Bits(n) => {
            w.write_bits(x, n);
            n
        }
    }
}
fn read(r: &mut impl BitRead2, op: Op) -> Option<u64> {
    match op {
        Op::Bit => r.read_bit().map(|b| b as u64),
        Op::Byte => r.read_byte().map(|b| b as u64),
        Op::Bits(n) => r.read_bits(n as u8),
    }
}
fn bit_at(s: &[u8], i: usize) -> u64 {
    ((s[i / 8] >> (7 - i % 8)) & 1) as u64
}
/// Writes the ops, checks the buffer bit by bit, then reads everything back with the same widths.
fn run(w: &mut BufferedBitWriter, ops: &[Op]) {
    let mut total = 0usize;
    let mut xs = [0u64; 6];
    let mut ns = [0u32; 6];
    for (i, op) in ops.iter().enumerate() {
        xs[i] = u64s();
        ns[i] = write(w, *op, xs[i]);
        total += ns[i] as usize;
        check(w.number_of_bits_written() == total, "number_of_bits_written is the sum of the widths written");
    }
    let s = w.as_slice().to_vec();
    check(s.len() == total.div_ceil(8), "buffer length is ceil(bits/8)");
    let mut at = 0usize;
    for i in 0..ops.len() {
        for j in 0..ns[i] {
            check(bit_at(&s, at) == (xs[i] >> (ns[i] - 1 - j)) & 1, "each written bit is at its MSB-first position");
            at += 1;
        }
    }
    while at < s.len() * 8 {
        check(bit_at(&s, at) == 0, "padding bits are zero");
        at += 1;
    }
    for b in &s {
        observe(*b as u64);
    }
    let pad = s.len() * 8 - total;
    let mut r = BufferedBitReader::new(s);
    for i in 0..ops.len() {
        if ns[i] == 0 {
            continue;
        }
        let got = read(&mut r, ops[i]);
        check(got == Some(low(xs[i], ns[i])), "values are read back in order");
    }
    check(pad == 0 || r.read_bits(pad as u8) == Some(0), "only zero padding follows");
    check(r.read_bit().is_none(), "end of stream after the padding");
}

/// Many writes of all widths, two of them symbolic; then the cursor is moved far back.
fn long(n: usize) {
    let mut w = BufferedBitWriter::with_capacity(pick_from(&[0, 100]));
    let mut r = 88172645463325252u64;
    let (mut ops, mut xs, mut total) = (Vec::new(), Vec::new(), 0usize);
    for i in 0..n {
        r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let op = match r >> 40 & 127 {
            0..=8 => Op::Bit,
            9..=20 => Op::Byte,
            k => Op::Bits((k as u32 - 21) % 65),
        };
        let x = if i == n / 2 || i == n - 3 { u64s() } else { r ^ r >> 31 };
        total += write(&mut w, op, x) as usize;
        ops.push(op);
        xs.push(x);
    }
    check(w.number_of_bits_written() == total, "number_of_bits_written is the sum of the widths written");
    let s = w.as_slice().to_vec();
    check(s.len() == total.div_ceil(8), "buffer length is ceil(bits/8)");
    let mut r = BufferedBitReader::new(&s[..]);
    for i in 0..n {
        let k = match ops[i] {
            Op::Bit => 1,
            Op::Byte => 8,
            Op::Bits(k) => k,
        };
        check(k == 0 || read(&mut r, ops[i]) == Some(low(xs[i], k)), "values are read back in order");
    }
    let c = pick_from(&[0, 3, 8, 1000, 8191, 65_535, 65_536, 65_541, total - 9, total - 1, total]);
    w.set_cursor_at_in_bit(c);
    check(w.number_of_bits_written() == c, "cursor position is the number of bits kept");
    let y = u64s();
    let m = write(&mut w, pick_from(&[Op::Bit, Op::Byte, Op::Bits(64)]), y) as usize;
    check(w.number_of_bits_written() == c + m, "writing resumes at the cursor");
    let t = w.as_slice().to_vec();
    check(t.len() == (c + m).div_ceil(8), "buffer length after rewinding");
    for i in 0..c / 8 {
        check(t[i] == s[i], "bytes before the cursor are kept");
    }
    for i in c / 8 * 8..c {
        check(bit_at(&t, i) == bit_at(&s, i), "bits before the cursor are kept");
    }
    for j in 0..m {
        check(bit_at(&t, c + j) == (y >> (m - 1 - j)) & 1, "bits after the cursor are the new ones");
    }
    for i in c + m..t.len() * 8 {
        check(bit_at(&t, i) == 0, "padding bits are zero");
    }
    w.reset();
    run(&mut w, &[Op::Bits(5), Op::Bits(64)]);
}

harnesses! {
    fn c01_long() { long(3200) }
    // every alignment x every width, then one more op of every kind
    fn c01_roundtrip2() {
        let a = pick(8) as u32;
        let op = any_op();
        run(&mut BufferedBitWriter::new(), &[Op::Bits(a), op, some_op()]);
    }
    fn c01_roundtrip3() {
        run(&mut BufferedBitWriter::with_capacity(pick(3)), &[some_op(), some_op(), some_op()]);
    }
    // thorough
    fn c01t_roundtrip4() {
        run(&mut BufferedBitWriter::new(), &[some_op(), some_op(), some_op(), some_op()]);
    }
    fn c01t_roundtrip2full() {
        run(&mut BufferedBitWriter::new(), &[any_op(), any_op()]);
    }
    // a reused or recycled writer behaves as a new one
    fn c01_reuse() {
        let mut w = BufferedBitWriter::from_vec(vec![u8s(), u8s(), u8s()]);
        if pick(2) == 1 {
            write(&mut w, some_op(), u64s());
            w.reset();
        }
        run(&mut w, &[some_op(), some_op()]);
        let s = w.as_slice().to_vec();
        let b = w.close();
        check(&b[..] == &s[..], "close returns the written bytes");
    }
    // moving the cursor back discards exactly what follows it
    fn c01_cursor() {
        let mut w = BufferedBitWriter::new();
        let x = u64s();
        let n = 1 + pick(41) as u32;
        w.write_bits(x, n);
        let c = pick(n as usize + 1);
        w.set_cursor_at_in_bit(c);
        check(w.number_of_bits_written() == c, "cursor position is the number of bits kept");
        let y = u64s();
        let op = some_op();
        let m = write(&mut w, op, y);
        check(w.number_of_bits_written() == c + m as usize, "writing resumes at the cursor");
        let s = w.as_slice().to_vec();
        check(s.len() == (c + m as usize).div_ceil(8), "buffer length after rewinding");
        for i in 0..c {
            check(bit_at(&s, i) == (x >> (n as usize - 1 - i)) & 1, "bits before the cursor are kept");
        }
        for j in 0..m as usize {
            check(bit_at(&s, c + j) == (y >> (m as usize - 1 - j)) & 1, "bits after the cursor are the new ones");
        }
        for i in c + m as usize..s.len() * 8 {
            check(bit_at(&s, i) == 0, "padding bits are zero");
        }
    }
    // through &mut W, as the codecs use it
    fn c01_byref() {
        let mut w = BufferedBitWriter::new();
        let (x, y) = (u64s(), u64s());
        let (o1, o2) = (some_op(), some_op());
        let (n, m);
        {
            let mut r = &mut w;
            n = write(&mut r, o1, x);
            check(BitWrite::number_of_bits_written(&r) == n as usize, "count through a reference");
            m = write(&mut r, o2, y);
        }
        let s = w.close();
        let mut r = BufferedBitReader::new(&s[..]);
        let rr = &mut r;
        check(n == 0 || read(rr, o1) == Some(low(x, n)), "first value through references");
        check(m == 0 || read(rr, o2) == Some(low(y, m)), "second value through references");
    }
}
