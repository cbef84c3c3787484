//! Contract stub for snap (snappy frames): decode(encode(x)) == x. Modelled as one magic byte, the data
//! and one trailer byte; reads may be short, as the real coder's are.
pub mod read {
    use std::io::{Error, ErrorKind, Read, Result};
    #[derive(Debug)]
    pub struct FrameEncoder<R: Read> {
        r: R,
        state: u8,
    }
    impl<R: Read> FrameEncoder<R> {
        pub fn new(r: R) -> Self {
            Self { r, state: 0 }
        }
    }
    impl<R: Read> Read for FrameEncoder<R> {
        fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
            if buf.is_empty() {
                return Ok(0);
            }
            if self.state == 0 {
                self.state = 1;
                buf[0] = 0x2f;
                return Ok(1);
            }
            if self.state == 2 {
                return Ok(0);
            }
            let m = buf.len().min(24);
            let n = self.r.read(&mut buf[..m])?;
            if n == 0 {
                self.state = 2;
                buf[0] = 0xe2;
                return Ok(1);
            }
            Ok(n)
        }
    }
    #[derive(Debug)]
    pub struct FrameDecoder<R: Read> {
        r: R,
        data: Vec<u8>,
        pos: usize,
        started: bool,
    }
    impl<R: Read> FrameDecoder<R> {
        pub fn new(r: R) -> Self {
            Self { r, data: Vec::new(), pos: 0, started: false }
        }
    }
    impl<R: Read> Read for FrameDecoder<R> {
        fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
            if !self.started {
                self.started = true;
                self.r.read_to_end(&mut self.data)?;
                let n = self.data.len();
                if n < 2 || self.data[0] != 0x2f || self.data[n - 1] != 0xe2 {
                    return Err(Error::new(ErrorKind::InvalidData, "snappy"));
                }
                self.pos = 1;
            }
            let n = buf.len().min(self.data.len() - 1 - self.pos).min(24);
            buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
            self.pos += n;
            Ok(n)
        }
    }
}
