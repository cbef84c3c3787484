//! Internal entry points of the Elf XOR codec (skipped when a refactoring moves them).
use crate::util::*;
use crate::vp::*;
use ebi::compressor::general_xor::XorEncoder;
use ebi::compressor::elf::ElfXorEncoder as Enc;
use ebi::decoder::chunk_reader::general_xor::XorDecoder;
use ebi::decoder::chunk_reader::elf::ElfXorDecoder as Dec1;
use ebi::io::bit_read::BufferedBitReader;
use ebi::io::bit_write::{BitWrite, BufferedBitWriter};

const S: &[(u32, u32)] = &[(0, 0), (1, 51), (8, 7), (12, 6), (17, 40), (26, 0), (64, 0)];
fn codec(v: Vec<f64>) {
    let n = v.len();
    let mut w = BufferedBitWriter::new();
    let mut e = Enc::default();
    for x in &v {
        assume(x.to_bits() != END);
        let before = w.number_of_bits_written();
        let sz = e.compress_float(&mut w, x.to_bits());
        check(w.number_of_bits_written() - before == sz, "reported size is the number of bits written");
    }
    let before = w.number_of_bits_written();
    let c = e.simulate_close();
    e.close(&mut w);
    check(w.number_of_bits_written() - before == c, "simulated close size");
    let mut r = BufferedBitReader::new(w.as_slice());
    let mut d = Dec1::default();
    for i in 0..n {
        let x = d.decompress_float(&mut r).expect("decode");
        check(x.map(|x| x.to_bits()) == Some(v[i].to_bits()), "codec returns the value");
    }
    check(d.decompress_float(&mut r).expect("decode end").is_none(), "end marker");
}
harnesses! {
    fn c06_codec1() { codec(chain(&[], any_shape())) }
    fn c06_codec2() { codec(chain(&[any_keyed()], some_keyed(S))) }
    fn c06_codec3() { codec(chain(&[any_keyed(), some_keyed(S)], keyed(1, 51))) }
}
