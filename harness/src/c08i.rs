//! Append/rewind histories of the uncompressed compressor against a list model.
use crate::vp::*;
use ebi::compressor::uncompressed::UncompressedCompressor;
use ebi::compressor::{AppendableCompressor, Compressor, RewindableCompressor};

fn history(ops: usize) {
    let mut c = UncompressedCompressor::new(8);
    let mut m: Vec<u64> = Vec::new();
    for _ in 0..ops {
        match pick(5) {
            0 => {
                let x = u64s();
                m.push(x);
                c.append_compress(&[f64::from_bits(x)]);
            }
            1 => {
                let (x, y) = (u64s(), u64s());
                m.push(x);
                m.push(y);
                c.append_compress(&[f64::from_bits(x), f64::from_bits(y)]);
            }
            2 => {
                let x = u64s();
                m = vec![x];
                c.compress(&[f64::from_bits(x)]).expect("compress");
            }
            k => {
                let n = k - 2;
                let ok = c.rewind(n);
                if m.len() >= n {
                    check(ok, "rewinding no more than was appended succeeds");
                    m.truncate(m.len() - n);
                } else {
                    check(!ok, "rewinding more than was appended fails");
                }
            }
        }
        check(c.total_bytes_in() == m.len() * 8, "bytes in");
        check(c.total_bytes_buffered() == m.len() * 8, "bytes buffered");
    }
    c.prepare();
    let mut b = Vec::new();
    for x in c.buffers() {
        b.extend_from_slice(x);
    }
    check(b.len() == m.len() * 8, "as many values as appended and not rewound");
    for (i, x) in b.chunks_exact(8).enumerate() {
        check(u64::from_le_bytes(x.try_into().unwrap()) == m[i], "value appended");
    }
}
harnesses! {
    fn c08_hist() { history(4) }
    fn c08t_hist() { history(5) }
}
