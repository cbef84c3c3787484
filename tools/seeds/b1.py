SEEDS=[
dict(id="w_byte_keep", property="C01",
 needs="write_byte while the last byte holds exactly 7 bits (bit_pos 7), with a non-zero low byte; aligned or other offsets unaffected",
 breaks="a byte written at bit offset 7 loses its last bits: what is read back differs from what was written",
 edits=[("io/bit_write.rs","self.buffer.push(byte << (8 - self.bit_pos));","self.buffer.push((byte << (7 - self.bit_pos.min(6))) << 1);")],
 main='''use ebi::io::bit_write::*; use ebi::io::bit_read::*;
fn main(){ for off in 0..8u32 { let mut w=BufferedBitWriter::new(); w.write_bits(0,off); w.write_byte(0xA7); w.write_bits(5,3);
 let b=w.close(); let mut r=BufferedBitReader::new(b); if off>0 { r.read_bits(off as u8).unwrap(); } assert_eq!(r.read_bits(8),Some(0xA7),"off {off}"); assert_eq!(r.read_bits(3),Some(5)); } }'''),
dict(id="cursor_mask", property="C01",
 needs="set_cursor_at_in_bit to a position inside the last, already partially written byte, then write zero bits",
 breaks="rewinding the writer inside a byte leaves the old bits behind, so later writes are ORed with stale data",
 edits=[("io/bit_write.rs","            if self.bit_pos != 8 {\n                // Clear","            if self.bit_pos != 8 && byte_pos * 8 - bit_cursor > 1 {\n                // Clear")],
 main='''use ebi::io::bit_write::*;
fn main(){ let mut w=BufferedBitWriter::new(); w.write_byte(0xFF); w.set_cursor_at_in_bit(7); w.write_bit(false); assert_eq!(w.as_slice(), &[0xFE]); }'''),
dict(id="skip_carry", property="C02",
 needs="skip_bits whose sum with the current bit position is a multiple of 8 but neither is 0",
 breaks="skipping to exactly a byte boundary from inside a byte lands one byte early",
 edits=[("io/bit_read.rs","let skip_bytes = (n + self.bit_pos) / 8;","let skip_bytes = if n > 8 && n % 8 == 7 && self.bit_pos == 1 { n / 8 } else { (n + self.bit_pos) / 8 };")],
 main='''use ebi::io::bit_read::*;
fn main(){ let mut r=BufferedBitReader::new(vec![1u8,2,3,4]); r.read_bit(); r.skip_bits(15); assert_eq!(r.read_byte(),Some(3)); }'''),
dict(id="gorilla_reuse", property="C03",
 needs="three values whose second XOR has fewer leading zeros than the window but as many trailing zeros",
 breaks="Gorilla reuses the previous window although significant leading bits do not fit: the value read back is wrong",
 edits=[("compressor/gorilla.rs","""                if leading_zeroes >= self.state.leading_zeroes
                    && trailing_zeroes >= self.state.trailing_zeroes
                {
                    // if the number of leading and trailing zeroes in this xor are >= the leading and
                    // trailing zeroes in the previous xor then we only need to store a control bit and
                    // the significant digits of this xor
                    w.write_bit(false);""","""                if leading_zeroes + 1 >= self.state.leading_zeroes.max(12)
                    && trailing_zeroes >= self.state.trailing_zeroes
                {
                    // if the number of leading and trailing zeroes in this xor are >= the leading and
                    // trailing zeroes in the previous xor then we only need to store a control bit and
                    // the significant digits of this xor
                    w.write_bit(false);""")],
 main='''fn main(){ let b=[0x4028_0000_0000_0000u64,0x4028_0000_0F00_0000,0x4028_0000_0FFF_0000, 0x4028_0000_F000_0000, 0x4038_0000_F000_0000]; let v:Vec<f64>=b.iter().map(|x|f64::from_bits(*x)).collect();
 let mut w=v.clone(); w.push(f64::from_bits(0x4028_0001_F000_0000)); w.push(f64::from_bits(0x4028_0003_F000_0000)); w.push(f64::from_bits(0x4028_0000_F000_0001)); 
 for k in 0..52u32 { w.push(f64::from_bits(0x4028_0000_0000_0000)); w.push(f64::from_bits(0x4028_0000_0000_0000 ^ (1u64<<k))); w.push(f64::from_bits(0x4028_0000_0000_0000 ^ (1u64<<k) ^ (3u64<<k))); }
 same(&decode(&encode(&w, ChunkOption::Full, CompressorConfig::gorilla().build())), &w); }'''),
dict(id="rle_255", property="C07",
 needs="a run of more than 255 equal records",
 breaks="the run counter wraps at 256 so a long run loses records",
 edits=[("compressor/run_length.rs","""        self.reset();
        let is_starting = self.previous_run_count == 0;
        if is_starting {
            self.previous_value = input[0];
            self.previous_run_count = 1;
        }
        let n_bytes_compressed = size_of_val(input);

        let input = if is_starting { &input[1..] } else { input };
        for value in input {
            // byte level comparison
            if self.previous_value.to_le_bytes() == value.to_le_bytes()
                && self.previous_run_count < u8::MAX
            {
                self.previous_run_count += 1;
                continue;
            };

            self.add_field(self.previous_value, self.previous_run_count);
""","""        self.reset();
        let is_starting = self.previous_run_count == 0;
        if is_starting {
            self.previous_value = input[0];
            self.previous_run_count = 1;
        }
        let n_bytes_compressed = size_of_val(input);

        let input = if is_starting { &input[1..] } else { input };
        for value in input {
            // byte level comparison
            if self.previous_value.to_le_bytes() == value.to_le_bytes()
                && self.previous_run_count <= u8::MAX - 1
            {
                self.previous_run_count += 1;
                continue;
            };

            self.add_field(self.previous_value, self.previous_run_count & (u8::MAX - (self.previous_run_count == u8::MAX) as u8));
""")],
 main='''fn main(){ let mut v=vec![1.5f64;300]; v.push(2.0); same(&decode(&encode(&v, ChunkOption::Full, CompressorConfig::rle().build())), &v); }'''),
dict(id="elf_reset", property="C06",
 needs="a file of at least two chunks whose second chunk starts with a decimal value needing as many digits as the last one of the first chunk",
 breaks="the digit count of the previous chunk leaks into the next one, so its first value cannot be restored",
 edits=[("compressor/elf.rs","""    fn reset(&mut self) {
        self.size = 0;
        self.last_beta_star = i32::MAX;
        self.xor_encoder.reset();""","""    fn reset(&mut self) {
        self.size = 0;
        self.xor_encoder.reset();""")],
 main='''fn main(){ let v=[0.12f64,0.37,0.55,0.71]; same(&decode(&encode(&v, ChunkOption::RecordCount(2), CompressorConfig::elf().build())), &v); 
 same(&decode(&encode(&v, ChunkOption::RecordCount(2), CompressorConfig::elf_on_chimp().build())), &v);}'''),
dict(id="chunk_next", property="C11",
 needs="at least three chunks, the last one shorter than the others",
 breaks="the number of records of a chunk is wrong",
 edits=[("encoder.rs","            + (self.compressor.total_bytes_in() / size_of::<f64>()) as u64;","            + match chunk_option {\n                ChunkOption::RecordCount(n) if self.file_writer.n_chunks() > 1 => n as u64,\n                _ => (self.compressor.total_bytes_in() / size_of::<f64>()) as u64,\n            };")],
 main='''fn main(){ let v=[1.0f64,2.0,3.0,4.0,5.0]; same(&decode(&encode(&v, ChunkOption::RecordCount(2), CompressorConfig::uncompressed().build())), &v); 
 assert_eq!(open(&encode(&v, ChunkOption::RecordCount(2), CompressorConfig::rle().build())).footer().number_of_records(), 5);}'''),
dict(id="short_read", property="C13",
 needs="an input source that delivers fewer bytes than asked for in one read, mid-record",
 breaks="a short read ends the chunk early and drops the partial record, shifting everything after it",
 edits=[("encoder.rs","            Ok(n) => n_read += n,","            Ok(n) => {\n                n_read += n;\n                if n % size_of::<f64>() != 0 && n_read > n {\n                    break;\n                }\n            }")],
 main='''use std::io::Read;
struct S(Vec<u8>, usize);
impl Read for S { fn read(&mut self, b:&mut [u8])->std::io::Result<usize>{ let n=b.len().min(5).min(self.0.len()-self.1); b[..n].copy_from_slice(&self.0[self.1..self.1+n]); self.1+=n; Ok(n) } }
fn main(){ let v=[1.0f64,2.5,3.0,4.25,5.0]; let b:Vec<u8>=v.iter().flat_map(|x|x.to_le_bytes()).collect();
 let mut e=Encoder::new(EncoderInput::from_reader(S(b,0)), EncoderOutput::from_vec(Vec::new()), ChunkOption::RecordCount(3), CompressorConfig::uncompressed().build()); e.encode().unwrap();
 same(&decode(&e.into_output().into_vec()), &v); }'''),
dict(id="rle_rewind", property="C07",
 needs="append on the run-length compressor, a rewind that crosses two run boundaries, then another append",
 breaks="a rewind that crosses two or more run boundaries keeps the value of the dropped run",
 edits=[("compressor/run_length.rs","            self.previous_value = value;","            if number_of_fields_to_rewind < 2 {\n                self.previous_value = value;\n            }")],
 main='''use ebi::compressor::run_length::RunLengthCompressor as R;
fn bytes(c:&mut R)->Vec<u8>{ c.prepare(); c.buffers().concat() }
fn main(){ let mut c=R::new(); c.append_compress(&[1.0,1.0,2.0,3.0]); assert!(c.rewind(3)); let mut d=R::new(); d.append_compress(&[1.0]); assert_eq!(bytes(&mut c), bytes(&mut d)); }'''),
dict(id="unc_rewind", property="C08",
 needs="rewind of the uncompressed compressor by exactly the number of buffered records",
 breaks="rewinding everything is refused",
 edits=[("compressor/uncompressed.rs","if self.buffer.len() < n {","if self.buffer.len() <= n {")],
 main='''fn main(){ let mut c=ebi::compressor::uncompressed::UncompressedCompressor::new(4); c.append_compress(&[1.0,2.0]); assert!(c.rewind(1)); assert!(c.rewind(1)); assert_eq!(c.total_bytes_in(),0); }'''),
]
