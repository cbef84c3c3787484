//! Contract stub for zstd: decode(encode(x)) == x. Modelled as one magic byte, the data and one trailer byte.
use std::io::{Error, ErrorKind, Read, Result, Write};

pub fn encode_all<R: Read>(mut source: R, _level: i32) -> Result<Vec<u8>> {
    let mut out = vec![0x28];
    source.read_to_end(&mut out)?;
    out.push(0xe3);
    Ok(out)
}
pub fn decode_all<R: Read>(source: R) -> Result<Vec<u8>> {
    let mut out = Vec::new();
    stream::copy_decode(source, &mut out)?;
    Ok(out)
}

pub mod stream {
    use super::*;
    pub use super::{decode_all, encode_all};
    pub fn copy_decode<R: Read, W: Write>(mut source: R, mut destination: W) -> Result<()> {
        let mut out = Vec::new();
        source.read_to_end(&mut out)?;
        let n = out.len();
        if n < 2 || out[0] != 0x28 || out[n - 1] != 0xe3 {
            return Err(Error::new(ErrorKind::InvalidData, "zstd"));
        }
        for c in out[1..n - 1].chunks(24) {
            destination.write_all(c)?;
        }
        Ok(())
    }
}
