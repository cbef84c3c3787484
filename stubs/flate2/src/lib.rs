//! Contract stub for flate2 (gzip): decode(encode(x)) == x. Modelled as one magic byte, the data and
//! one trailer byte; reads may be short, as the real decoder's are.
use std::io::{Result, Write};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Compression(u32);
impl Compression {
    pub fn new(level: u32) -> Self {
        Compression(level)
    }
    pub fn fast() -> Self {
        Compression(1)
    }
    pub fn best() -> Self {
        Compression(9)
    }
    pub fn none() -> Self {
        Compression(0)
    }
    pub fn level(&self) -> u32 {
        self.0
    }
}
impl Default for Compression {
    fn default() -> Self {
        Compression(6)
    }
}

#[derive(Debug, Default)]
pub struct GzBuilder;
impl GzBuilder {
    pub fn new() -> Self {
        GzBuilder
    }
    pub fn write<W: Write>(self, w: W, lvl: Compression) -> write::GzEncoder<W> {
        write::GzEncoder::new(w, lvl)
    }
}
pub mod write {
    use super::*;
    pub struct GzEncoder<W: Write> {
        w: Option<W>,
        started: bool,
    }
    impl<W: Write> GzEncoder<W> {
        pub fn new(w: W, _lvl: Compression) -> Self {
            GzEncoder { w: Some(w), started: false }
        }
        fn start(&mut self) -> Result<()> {
            if !self.started {
                self.started = true;
                self.w.as_mut().unwrap().write_all(&[0x1f])?;
            }
            Ok(())
        }
        fn end(&mut self) -> Result<()> {
            self.start()?;
            self.w.as_mut().unwrap().write_all(&[0xe1])
        }
        pub fn finish(mut self) -> Result<W> {
            self.end()?;
            Ok(self.w.take().unwrap())
        }
    }
    impl<W: Write> Write for GzEncoder<W> {
        fn write(&mut self, buf: &[u8]) -> Result<usize> {
            self.start()?;
            self.w.as_mut().unwrap().write(buf)
        }
        fn flush(&mut self) -> Result<()> {
            self.w.as_mut().unwrap().flush()
        }
    }
    impl<W: Write> Drop for GzEncoder<W> {
        fn drop(&mut self) {
            if self.w.is_some() {
                let _ = self.end();
            }
        }
    }
}

pub mod read {
    use std::io::{Error, ErrorKind, Read, Result};
    #[derive(Debug)]
    pub struct GzDecoder<R: Read> {
        r: R,
        data: Vec<u8>,
        pos: usize,
        started: bool,
    }
    impl<R: Read> GzDecoder<R> {
        pub fn new(r: R) -> Self {
            Self { r, data: Vec::new(), pos: 0, started: false }
        }
    }
    impl<R: Read> Read for GzDecoder<R> {
        fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
            if !self.started {
                self.started = true;
                self.r.read_to_end(&mut self.data)?;
                let n = self.data.len();
                if n < 2 || self.data[0] != 0x1f || self.data[n - 1] != 0xe1 {
                    return Err(Error::new(ErrorKind::InvalidData, "gzip"));
                }
                self.pos = 1;
            }
            let n = buf.len().min(self.data.len() - 1 - self.pos).min(24);
            buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
            self.pos += n;
            Ok(n)
        }
    }
}
