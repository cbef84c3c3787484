//! Append/rewind histories against a list model.
use crate::vp::*;
use ebi::compressor::run_length::RunLengthCompressor;
use ebi::compressor::{AppendableCompressor, Compressor, RewindableCompressor};

fn content(c: &mut RunLengthCompressor) -> Vec<u64> {
    let said = c.total_bytes_buffered();
    c.prepare();
    let mut b = Vec::new();
    for x in c.buffers() {
        b.extend_from_slice(x);
    }
    check(b.len() == said, "bytes buffered as reported");
    let n = u64::from_le_bytes(b[..8].try_into().unwrap());
    let n = conc(n) as usize;
    check(b.len() == 8 + n * 9, "number of fields");
    let mut out = Vec::new();
    for f in b[8..].chunks_exact(9) {
        let k = conc(f[0] as u64);
        let x = u64::from_le_bytes(f[1..9].try_into().unwrap());
        for _ in 0..k {
            out.push(x);
        }
    }
    out
}
fn history(start: usize, ops: usize) {
    let mut c = RunLengthCompressor::new();
    let mut m: Vec<u64> = Vec::new();
    if start > 0 {
        let x = u64s();
        m = vec![x; start];
        c.append_compress(&vec![f64::from_bits(x); start]);
    }
    for _ in 0..ops {
        match pick(5) {
            0 => {
                let x = u64s();
                m.push(x);
                c.append_compress(&[f64::from_bits(x)]);
            }
            1 => {
                let (x, y) = (u64s(), u64s());
                m.push(x);
                m.push(y);
                c.append_compress(&[f64::from_bits(x), f64::from_bits(y)]);
            }
            2 => {
                let x = m.last().copied().unwrap_or(7);
                m.push(x);
                c.append_compress(&[f64::from_bits(x)]);
            }
            k => {
                let n = k - 2;
                let ok = c.rewind(n);
                if m.len() >= n && !m.is_empty() {
                    check(ok, "rewinding no more than was appended succeeds");
                    m.truncate(m.len() - n);
                } else {
                    check(!ok, "rewinding more than was appended fails");
                }
            }
        }
        check(c.total_bytes_in() == m.len() * 8, "bytes in");
    }
    let g = content(&mut c);
    check(g.len() == m.len(), "as many values as appended and not rewound");
    for i in 0..m.len() {
        check(g[i] == m[i], "value appended");
    }
}
harnesses! {
    fn c07_hist() { history(0, 4) }
    fn c07_hist254() { history(254, 3) }
    fn c07_hist510() { history(510, 2) }
    fn c07t_hist5() { history(0, 5) }
    fn c07t_hist254() { history(254, 4) }
}
