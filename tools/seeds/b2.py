R='use roaring::RoaringBitmap;\n'
SEEDS=[
dict(id="chimp128_lead", property="C05",
 needs="a value stored as a match of an older one between two values whose XOR with their predecessor has the same rounded number of leading zeros",
 breaks="Chimp128's encoder keeps the leading-zero count across a window match while the decoder forgets it: the next value is read back wrong",
 edits=[("compressor/chimp_n.rs","""                self.size += significant_bits + Self::FLAG_ONE_SIZE;
                self.stored_leading_zeros = 65;
            } else if""","""                self.size += significant_bits + Self::FLAG_ONE_SIZE;
            } else if""")],
 main='''fn main(){ let f=f64::from_bits; let a=0x4010_0000_0000_0001u64; let b=a^0x0003_0000_0000_0002; let c=a^0x0000_0f00_0000_0000; let d=c^0x0003_0000_0000_0004;
 let v=vec![f(a),f(b),f(c),f(d),f(a)]; same(&decode(&encode(&v, ChunkOption::Full, CompressorConfig::chimp128().build())), &v); }'''),
dict(id="buff_minmax_gap", property="C18",
 needs="min or max with a mask over BUFF values whose last bit column is partial, where records tied so far lie 64 or more records apart",
 breaks="the partial bit column is skipped by at most 63 records, so min/max compare the bits of the wrong record",
 edits=[("decoder/chunk_reader/buff/min_max.rs","""            let mut max_subcolumn = if IS_MIN { u8::MAX } else { u8::MIN };
            for i in to_check.iter().map(|x| x - logical_offset) {
                let n_records_to_skip = i - expected_record_index_if_sequential;""","""            let mut max_subcolumn = if IS_MIN { u8::MAX } else { u8::MIN };
            for i in to_check.iter().map(|x| x - logical_offset) {
                let n_records_to_skip = (i - expected_record_index_if_sequential).min(63);""")],
 main=R+'''fn main(){ for n in [10u32, 70, 100, 200] { let mut v=vec![3.0; 300]; v[0]=6.0; v[n as usize]=1.0; v[299]=9.0; v[17]=0.0;
 let f=encode(&v, ChunkOption::Full, CompressorConfig::buff().scale(1).build()); let m:RoaringBitmap=[0,n,299].into_iter().collect();
 let mut d=open(&f); assert_eq!(d.min(Some(&m),None).unwrap(),1.0); assert_eq!(d.max(Some(&m),None).unwrap(),9.0); } }'''),
dict(id="buff_sum_u16", property="C18",
 needs="a sum with a mask that selects more than 257 records of a BUFF chunk whose byte column holds large values",
 breaks="the per-column accumulator of a masked sum wraps at 65536, so the sum is too small",
 edits=[("decoder/chunk_reader/buff/sum.rs","""        let mut sum = 0;
        for i in bitmask.iter().map(|x| x - logical_offset) {
            let subcolumn = chunk[i as usize];
            let subcolumn = flip(subcolumn);
            sum += subcolumn as u64;
        }
        sum
""","""        let mut sum = 0u16;
        for i in bitmask.iter().map(|x| x - logical_offset) {
            let subcolumn = chunk[i as usize];
            let subcolumn = flip(subcolumn);
            sum = sum.wrapping_add(subcolumn as u16);
        }
        sum as u64
""")],
 main=R+'''fn main(){ for n in [100usize, 257, 258, 500] { let mut v=vec![255.0; n]; v[0]=0.0; let s:f64=v.iter().sum();
 let f=encode(&v, ChunkOption::Full, CompressorConfig::buff().scale(1).build()); let m:RoaringBitmap=(0..n as u32).collect();
 assert_eq!(open(&f).sum(Some(&m),None).unwrap(), s); } }'''),
dict(id="buff_simd_tail", property="C16",
 needs="a BUFF range filter without a mask over a chunk that starts at a record number not divisible by 8, has 32 records or more after aligning and a tail",
 breaks="the records after the vectorised part are reported under numbers that are too small",
 edits=[("decoder/chunk_reader/buff/filter_cmp.rs","""                remaining_part,
                logical_offset + initial_part.len() as u32 + simd_part.len() as u32,
                delta_fixed_pred_subcolumn,
                &mut to_check_bitmask,
                qualified_bitmask,""","""                remaining_part,
                logical_offset.next_multiple_of(4) + simd_part.len() as u32,
                delta_fixed_pred_subcolumn,
                &mut to_check_bitmask,
                qualified_bitmask,""")],
 main='''use ebi::decoder::query::*;
fn main(){ for c in [40usize, 44, 41, 42, 50] { let n=3*c; let v:Vec<f64>=(0..n).map(|i| ((i*37)%500) as f64).collect();
 let f=encode(&v, ChunkOption::RecordCount(c), CompressorConfig::buff().scale(1).build());
 let r=open(&f).filter(Predicate::Range(Range::new(RangeValue::Inclusive(100.0),RangeValue::None)),None,None).unwrap();
 let want:Vec<u32>=(0..n as u32).filter(|&i| v[i as usize]>=100.0).collect(); assert_eq!(r.iter().collect::<Vec<_>>(), want, "{c}"); } }'''),
dict(id="min_nan_last", property="C17",
 needs="a NaN among the records, after the smallest one and last in its chunk",
 breaks="min of data that ends in a NaN is NaN instead of the least number",
 edits=[("decoder/query.rs","        min = min.min(*v);","        if !(min <= *v) {\n            min = *v;\n        }")],
 main='''fn main(){ for v in [vec![1.0,2.0,0.5], vec![f64::NAN,2.0,1.0], vec![1.0,f64::NAN,0.5], vec![1.0,2.0,f64::NAN]] { let want=v.iter().copied().fold(f64::INFINITY,f64::min);
 let f=encode(&v, ChunkOption::Full, CompressorConfig::uncompressed().build()); let a=open(&f).chunk_reader(ChunkId::new(0)).unwrap().min(None).unwrap(); assert_eq!(a, want); assert_eq!(open(&f).min(None,None).unwrap(), want); } }'''),
dict(id="sprintz_refilter", property="C22",
 needs="two filters in a row on one DeltaSprintz chunk reader that has not decompressed",
 breaks="the second filter on the same reader starts where the first one stopped and fails or gives other records",
 edits=[("decoder/chunk_reader/sprintz.rs","""        self.bit_reader.reset();
        if self.decompressed.is_some() {
            return default_filter""","""        if self.decompressed.is_some() {
            return default_filter""")],
 main='''use ebi::decoder::query::*;
fn main(){ let v=[1.0,2.0,3.0,2.0]; let f=encode(&v, ChunkOption::Full, CompressorConfig::delta_sprintz().scale(10).build()); let mut d=open(&f); let mut r=d.chunk_reader(ChunkId::new(0)).unwrap();
 for _ in 0..3 { assert_eq!(r.filter(Predicate::Eq(2.0),None).unwrap().iter().collect::<Vec<_>>(), vec![1,3]); } }'''),
dict(id="bytesize_round", property="C12",
 needs="ByteSizeBestEffort chunks of 1 or 2 bytes",
 breaks="the estimate of the records per chunk rounds to none, so the encoder stops at once and the file is empty",
 edits=[("encoder.rs","* 1.5).ceil() as usize;","* 1.5).round() as usize;")],
 main='''fn main(){ let v=[1.0,2.0,3.0]; for n in 1..30 { same(&decode(&encode(&v, ChunkOption::ByteSizeBestEffort(n), CompressorConfig::uncompressed().build())), &v); } }'''),
dict(id="huge_mask", property="C14",
 needs="materialize with a mask that selects records numbered 65536 and above",
 breaks="record numbers are cut to 16 bits before they are looked up in the mask, so the wrong records are written",
 edits=[("decoder/query.rs","""    let io_write_timer = timer.start_addition_measurement(SegmentKind::IOWrite);
    for (i, v) in decompressed.iter().enumerate() {
        let record_offset = logical_offset + i;
        if bitmask.is_some_and(|bm| !bm.contains(record_offset as u32)) {
            continue;
        }
        output.write_all(&v.to_ne_bytes())?;""","""    let io_write_timer = timer.start_addition_measurement(SegmentKind::IOWrite);
    for (i, v) in decompressed.iter().enumerate() {
        let record_offset = (logical_offset + i) as u16;
        if bitmask.is_some_and(|bm| !bm.contains(record_offset as u32)) {
            continue;
        }
        output.write_all(&v.to_ne_bytes())?;""")],
 main=R+'''fn main(){ let v:Vec<f64>=(0..70_000).map(|i| i as f64).collect(); let f=encode(&v, ChunkOption::Full, CompressorConfig::uncompressed().build());
 let m:RoaringBitmap=[5u32,65_536,69_999].into_iter().collect(); let mut o=DecoderOutput::from_vec(Vec::new()); open(&f).materialize(&mut o,Some(&m),None).unwrap();
 same(&to_f64(o.into_writer().into_inner()), &[5.0,65_536.0,69_999.0]); }'''),
dict(id="expr_div_const", property="C25",
 needs="an expression with a division whose left operand is a constant",
 breaks="constant divided by a column is computed as column divided by the constant",
 edits=[("decoder/expr.rs","""                    Ok(rhs.into_iter().map(|rhs| op.doit(lhs, rhs)).collect())""","""                    Ok(match op {
                        Op::Div => rhs.into_iter().map(|rhs| Op::Div.doit(rhs, lhs)).collect(),
                        _ => rhs.into_iter().map(|rhs| op.doit(lhs, rhs)).collect(),
                    })""")],
 main='''use ebi::decoder::expr::*; use ebi::time::SegmentedExecutionTimes;
fn main(){ let v=[1.0,2.0,4.0]; let f=encode(&v, ChunkOption::Full, CompressorConfig::uncompressed().build()); let mut d=open(&f); let mut r=vec![d.chunk_reader(ChunkId::new(0)).unwrap()];
 for (op,want) in [(Op::Add,[9.0,10.0,12.0]),(Op::Sub,[7.0,6.0,4.0]),(Op::Mul,[8.0,16.0,32.0]),(Op::Div,[8.0,4.0,2.0])] {
 let e=Expr::Binary{op,lhs:Box::new(Expr::Literal(8.0)),rhs:Box::new(Expr::Index(0))}; same(&e.compute_chunk(&mut r,None,&mut SegmentedExecutionTimes::new()).unwrap(), &want); } }'''),
dict(id="footer_early", property="C26",
 needs="the encoder is stopped after the footer offset was written and before the footer was",
 breaks="the file offset of the footer is written first, so an unfinished file can look finished",
 edits=[("api/encoder.rs","""        file_writer.write_footer(output.writer_mut(), self.timer)?;
        let footer_offset_slot_offset = file_writer.footer_offset_slot_offset();
        output
            .writer_mut()
            .seek(SeekFrom::Start(footer_offset_slot_offset as u64))?;
        file_writer.write_footer_offset(output.writer_mut())?;
""","""        let footer_offset_slot_offset = file_writer.footer_offset_slot_offset();
        output
            .writer_mut()
            .seek(SeekFrom::Start(footer_offset_slot_offset as u64))?;
        file_writer.write_footer_offset(output.writer_mut())?;
        output.writer_mut().seek(SeekFrom::End(0))?;
        let footer_size = output.writer_mut().stream_position()?;
        // reserve the room of the footer before it is filled in
        file_writer.write_footer(output.writer_mut(), SegmentedExecutionTimes::new())?;
        output.writer_mut().seek(SeekFrom::Start(footer_size))?;
        file_writer.write_footer(output.writer_mut(), self.timer)?;
""")],
 main='''use std::io::{Seek,SeekFrom,Write};
struct W(Cursor<Vec<u8>>, usize); impl Write for W { fn write(&mut self,b:&[u8])->std::io::Result<usize>{ if self.1==0 { return Err(std::io::Error::other("stopped")); } self.1-=1; self.0.write(b) } fn flush(&mut self)->std::io::Result<()>{Ok(())} }
impl Seek for W { fn seek(&mut self,p:SeekFrom)->std::io::Result<u64>{ self.0.seek(p) } }
fn main(){ let v=[1.0,2.0,3.0]; let mut footer_done=false; for k in 0..40 { let mut w=W(Cursor::new(Vec::new()),k);
 let ok={ let mut e=Encoder::new(EncoderInput::from_f64_slice(&v), EncoderOutput::from_writer(&mut w), ChunkOption::Full, CompressorConfig::uncompressed().build()); e.encode().is_ok() };
 let b=w.0.into_inner(); let slot=b.get(10..18).map_or(0,|s| u64::from_le_bytes(s.try_into().unwrap()));
 // once the offset is there, the footer has to be there
 if slot!=0 { assert!(Decoder::new(DecoderInput::from_reader(Cursor::new(&b[..]))).is_ok(), "write {k}"); footer_done=true; } let _=ok; } assert!(footer_done); }'''),
dict(id="chimp_reset", property="C20",
 needs="a Chimp128 compressor that is used again after more values than the second input has, with index bits that match an old value",
 breaks="resetting the compressor keeps the window position, so the second output is not what a new compressor writes",
 edits=[("compressor/chimp_n.rs","""        self.index = 0;
        self.current = 0;
    }
}
""","""        self.index = 0;
        self.current &= 1;
    }
}
""")],
 main='''fn main(){ let v:Vec<f64>=(0..10).map(|i| i as f64*1.25).collect(); for c in [1usize,2,3,5] { same(&decode(&encode(&v, ChunkOption::RecordCount(c), CompressorConfig::chimp128().build())), &v); } }'''),
dict(id="sprintz_width", property="C09",
 needs="two neighbouring values that are more than 2^57 steps of the scale apart",
 breaks="the width of the packed differences is capped at 58 bits, so large differences lose their top bits",
 edits=[("compressor/sprintz.rs","let number_of_bits_needed: u8 = (64 - lead) as u8;","let number_of_bits_needed: u8 = (64 - lead).min(58) as u8;")],
 main='''fn main(){ for k in [10u32,40,56,57,58,59,60] { let v=[0.0, (1i64<<k) as f64, 0.0]; same(&decode(&encode(&v, ChunkOption::Full, CompressorConfig::delta_sprintz().scale(1).build())), &v); } }'''),
dict(id="buff_prec_cache", property="C22",
 needs="one BUFF chunk reader asked at a low controlled precision, then at a higher one",
 breaks="the values decoded at the lower precision stay cached when a higher one is asked for",
 edits=[("decoder/chunk_reader/buff.rs","if self.precision.is_none_or(|old_p| old_p < precision) {","if self.precision.is_none_or(|old_p| old_p + 1 < precision) {")],
 main='''fn main(){ let v=[1.23,4.56,-7.89]; let f=encode(&v, ChunkOption::Full, CompressorConfig::buff().scale(100).build());
 let at=|ps:&[u32]| { let mut d=open(&f); let mut r=d.chunk_reader(ChunkId::new(0)).unwrap(); let mut out=vec![]; for &p in ps { r.with_precision(p); let mut o=Cursor::new(Vec::new()); r.materialize(&mut o,None).unwrap(); out=to_f64(o.into_inner()); } out };
 same(&at(&[0,2]), &at(&[2])); same(&at(&[1,2]), &at(&[2])); same(&at(&[0,1]), &at(&[1])); }'''),
dict(id="knn_tail_chunk", property="C23",
 needs="a nearest-neighbour search where the last vector ends exactly at the end of a chunk that another vector began in",
 breaks="the vector in progress is given up when the records left over equal its length less one",
 edits=[("api/decoder.rs","                if n_records_in_vector == target_len {\n                    if processing_vector.distance <= min_result.distance {\n                        min_result = processing_vector;\n                    }\n                    processing_vector.index += 1;\n                } else {","                if n_records_in_vector == target_len {\n                    if processing_vector.distance <= min_result.distance {\n                        min_result = processing_vector;\n                    }\n                    processing_vector.index += 1;\n                } else if n_records_in_vector > 1 || target_len < 3 {")],
 main='''fn main(){ let v:Vec<f64>=vec![9.0,9.0,9.0, 1.0,2.0,3.0, 7.0,7.0,7.0]; for c in 1..10 { let f=encode(&v, ChunkOption::RecordCount(c), CompressorConfig::uncompressed().build()); let r=open(&f).knn1(&[1.0,2.0,3.0]).unwrap(); assert_eq!((r.index,r.distance),(1,0.0),"{c}"); } }'''),
]
