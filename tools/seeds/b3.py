R='use roaring::RoaringBitmap;\n'
SEEDS=[
dict(id="buff_ctrl_last", property="C10",
 needs="a controlled precision whose bits end one bit into the last partial column",
 breaks="the last bit asked for is left out: values are further below than the precision asked for",
 edits=[("decoder/chunk_reader/buff/controlled_precision.rs","    if remaining_bits_length == 0 || remaining_bits_length <= bits_unnecessary {","    if remaining_bits_length <= bits_unnecessary + u32::from(bits_unnecessary > 0) {")],
 main='''fn main(){ let pm=[0,5,8,11,15,18,21,25,28,31,35,38,50]; for k in 1..40u32 { for p in [2usize,3,4,5,6] { let s=(1u64<<pm[p]) as f64; let v:Vec<f64>=(0..7).map(|i| ((1u64<<k)-1-i.min((1u64<<k)-1)*if i%2==0 {1} else {0}) as f64/s).chain([0.0]).collect();
 let f=encode(&v, ChunkOption::Full, CompressorConfig::buff().scale(10u64.pow(p as u32)).build()); let full=decode(&f);
 for q in 0..=p { let mut d=open(&f); d.with_precision(q as u32); let mut o=DecoderOutput::from_vec(Vec::new()); d.materialize(&mut o,None,None).unwrap(); let g=to_f64(o.into_writer().into_inner());
  for i in 0..v.len() { let e=full[i]-g[i]; assert!(e>=0.0 && e<1.0/(1u64<<pm[q]) as f64, "{k} {p} {q} {i} {e}"); } } } } }'''),
dict(id="buff_eq_skip", property="C16",
 needs="an equality filter with a mask on BUFF values of more than one column, where exactly one record follows the last one still to check",
 breaks="the rest of the column is not skipped, so the following column is read one record too early",
 edits=[("decoder/chunk_reader/buff/filter_eq.rs","""            bitpack
                .skip_n_byte(
                    number_of_records as usize - expected_record_index_if_sequential as usize,
                )
                .unwrap();

            next_result_bitmask
""","""            let n_rest =
                number_of_records as usize - expected_record_index_if_sequential as usize;
            if n_rest > 1 {
                bitpack.skip_n_byte(n_rest).unwrap();
            }

            next_result_bitmask
""")],
 main=R+'''use ebi::decoder::query::*;
fn main(){ let v:Vec<f64>=(0..20).map(|i| (i*i*37+i*11) as f64).collect(); let f=encode(&v, ChunkOption::Full, CompressorConfig::buff().scale(1).build());
 for i in 0..20u32 { for m in [None, Some([i].into_iter().collect::<RoaringBitmap>()), Some((0..=i).collect())] { let r=open(&f).filter(Predicate::Eq(v[i as usize]), m.as_ref(), None).unwrap(); assert_eq!(r.iter().collect::<Vec<_>>(), vec![i]); } } }'''),
dict(id="sprintz_sum_i32", property="C18",
 needs="a sum over a mask whose total exceeds 2^31 steps of the scale",
 breaks="the masked DeltaSprintz sum is accumulated in 32 bits",
 edits=[("decoder/chunk_reader/sprintz.rs","""        if record_index as u32 + logical_offset as u32 != next {
            continue;
        }

        sum += quantized;""","""        if record_index as u32 + logical_offset as u32 != next {
            continue;
        }

        sum = ((sum + quantized) as i32) as i64;""")],
 main=R+'''fn main(){ for k in [1.0, 1000.0, 3e6, 4e7] { let v=vec![k, 2.0*k, -k, 7.0*k]; let f=encode(&v, ChunkOption::Full, CompressorConfig::delta_sprintz().scale(100).build());
 let m:RoaringBitmap=(0..4).collect(); assert_eq!(open(&f).sum(Some(&m),None).unwrap(), 9.0*k); } }'''),
dict(id="gorilla_lead", property="C03",
 needs="two neighbouring values whose XOR has exactly 32 leading zeros",
 breaks="a count of 32 leading zeros is not capped and does not fit its five bits",
 edits=[("compressor/gorilla.rs","""            if xor == 0 {
                // if xor with previous value is zero just store single zero bit
                w.write_bit(false);
                bits_buffered += 1;
            } else {
                w.write_bit(true);

                bits_buffered += 1;

                let mut leading_zeroes = xor.leading_zeros();
                // we cannot encode leading_zeroes more than 32 bits in 5 bit.
                if leading_zeroes >= 32 {""","""            if xor == 0 {
                // if xor with previous value is zero just store single zero bit
                w.write_bit(false);
                bits_buffered += 1;
            } else {
                w.write_bit(true);

                bits_buffered += 1;

                let mut leading_zeroes = xor.leading_zeros();
                // we cannot encode leading_zeroes more than 32 bits in 5 bit.
                if leading_zeroes > 32 {""")],
 main='''fn main(){ for k in 0..60 { let a=1.5f64; let v=[a, f64::from_bits(a.to_bits()^(1<<k)), a, 3.25, f64::from_bits(3.25f64.to_bits()^(3<<k))]; same(&decode(&encode(&v, ChunkOption::Full, CompressorConfig::gorilla().build())), &v); } }'''),
dict(id="chimp_round", property="C04",
 needs="two neighbouring values whose XOR has exactly 23 leading zeros",
 breaks="the leading-zero class of 23 is rounded up, so the top bit of the difference is lost",
 edits=[("compressor/chimp.rs","        0, 0, 0, 0, 0, 0, 0, 0, 8, 8, 8, 8, 12, 12, 12, 12, 16, 16, 18, 18, 20, 20, 22, 22, 24, 24,","        0, 0, 0, 0, 0, 0, 0, 0, 8, 8, 8, 8, 12, 12, 12, 12, 16, 16, 18, 18, 20, 20, 22, 24, 24, 24,")],
 main='''fn main(){ for k in 0..64 { let a=1.5f64; let v=[a, f64::from_bits(a.to_bits()^(1<<k)^1), a, 3.25, f64::from_bits(3.25f64.to_bits()^(1<<k)|1)]; same(&decode(&encode(&v, ChunkOption::Full, CompressorConfig::chimp().build())), &v); } }'''),
dict(id="rle_neg_zero", property="C07",
 needs="a zero followed by a zero of the other sign",
 breaks="runs are formed by numeric comparison, so -0.0 and 0.0 are merged",
 edits=[("compressor/run_length.rs","""    fn compress(&mut self, input: &[f64]) -> encoder::Result<()> {
        self.reset();
        let is_starting = self.previous_run_count == 0;
        if is_starting {
            self.previous_value = input[0];
            self.previous_run_count = 1;
        }
        let n_bytes_compressed = size_of_val(input);

        let input = if is_starting { &input[1..] } else { input };
        for value in input {
            // byte level comparison
            if self.previous_value.to_le_bytes() == value.to_le_bytes()
""","""    fn compress(&mut self, input: &[f64]) -> encoder::Result<()> {
        self.reset();
        let is_starting = self.previous_run_count == 0;
        if is_starting {
            self.previous_value = input[0];
            self.previous_run_count = 1;
        }
        let n_bytes_compressed = size_of_val(input);

        let input = if is_starting { &input[1..] } else { input };
        for value in input {
            if self.previous_value == *value
""")],
 main='''fn main(){ for v in [vec![1.0,1.0,2.0], vec![0.0,-0.0,0.0], vec![f64::NAN,f64::NAN]] { same(&decode(&encode(&v, ChunkOption::Full, CompressorConfig::rle().build())), &v); } }'''),
dict(id="bits_skip_wrap", property="C02",
 needs="skipping 256 bits or more at once from a position within a byte",
 breaks="a long skip from an unaligned position ends at the wrong bit",
 edits=[("io/bit_read.rs","""        let skip_bits = (n + self.bit_pos) % 8;
        self.bit_pos = skip_bits;""","""        let skip_bits = if n < 256 { (n + self.bit_pos) % 8 } else { n % 8 };
        self.bit_pos = skip_bits;""")],
 main='''use ebi::io::bit_read::*;
fn main(){ let b:Vec<u8>=(0..100).map(|i| (i*37+11) as u8).collect(); let bit=|i:usize| b[i/8]>>(7-i%8)&1==1;
 for n in [0usize,1,9,100,255,256,263,300,500] { for s in 1..9u8 { let mut r=BufferedBitReader::new(b.clone()); r.read_bits(s); r.skip_bits(n); assert_eq!(r.read_bit(), Some(bit(n+s as usize)), "{n} {s}"); } } }'''),
dict(id="footer_read", property="C13",
 needs="a file reader that delivers less than asked for while a chunk is read",
 breaks="chunk data is filled by a single read call",
 edits=[("decoder/chunk_reader/general_xor.rs","        reader.read_exact(&mut chunk_in_memory)?;","        let n_read = reader.read(&mut chunk_in_memory)?;\n        if n_read == 0 && chunk_size != 0 {\n            return Err(io::ErrorKind::UnexpectedEof.into());\n        }")],
 main='''use std::io::{Read,Seek,SeekFrom,Result};
struct D<'a>(Cursor<&'a [u8]>); impl Read for D<'_> { fn read(&mut self,b:&mut [u8])->Result<usize>{ let n=b.len().min(50); self.0.read(&mut b[..n]) } } impl Seek for D<'_> { fn seek(&mut self,p:SeekFrom)->Result<u64>{ self.0.seek(p) } }
fn main(){ let v:Vec<f64>=(0..100).map(|i| (i as f64).sqrt()).collect(); for c in [CompressorConfig::gorilla().build().into(), CompressorConfig::chimp().build().into(), CompressorConfig::uncompressed().build().into()] as [CompressorConfig;3] { let f=encode(&v, ChunkOption::RecordCount(30), c);
 let mut d=match Decoder::new(DecoderInput::from_reader(D(Cursor::new(&f)))) { Ok(d)=>d, Err(_)=>panic!() }; let mut o=DecoderOutput::from_vec(Vec::new()); d.materialize(&mut o,None,None).unwrap(); same(&to_f64(o.into_writer().into_inner()), &v); } }'''),
dict(id="full_tail", property="C13",
 needs="an input in one chunk whose length is not a multiple of 8 bytes",
 breaks="the bytes after the last whole record become a record of their own",
 edits=[("encoder.rs","""                    buf.chunks_exact(size_of::<f64>())
                        .map(|chunk| f64::from_le_bytes(chunk.try_into().unwrap()))""","""                    buf.resize(buf.len().next_multiple_of(size_of::<f64>()), 0);
                    buf.chunks_exact(size_of::<f64>())
                        .map(|chunk| f64::from_le_bytes(chunk.try_into().unwrap()))""")],
 main='''fn main(){ let v=[1.5f64,2.5]; let mut b:Vec<u8>=v.iter().flat_map(|x| x.to_le_bytes()).collect(); for k in 0..8 { let mut e=Encoder::new(EncoderInput::from_slice(&b), EncoderOutput::from_vec(Vec::new()), ChunkOption::Full, CompressorConfig::uncompressed().build()); e.encode().unwrap(); same(&decode(&e.into_output().into_vec()), &v); b.push(k); } }'''),
dict(id="range_nan", property="C15",
 needs="a NaN among the records and a range predicate",
 breaks="records that are NaN satisfy ranges with an inclusive start",
 edits=[("decoder/query.rs","            RangeValueImpl::Inclusive(v) => value >= v,","            RangeValueImpl::Inclusive(v) => !(value < v),")],
 main='''use ebi::decoder::query::*;
fn main(){ let v=[1.0,f64::NAN,3.0]; let f=encode(&v, ChunkOption::Full, CompressorConfig::uncompressed().build());
 let r=open(&f).filter(Predicate::Range(Range::new(RangeValue::Inclusive(2.0),RangeValue::None)),None,None).unwrap(); assert_eq!(r.iter().collect::<Vec<_>>(), vec![2]);
 let r=open(&f).filter(Predicate::Range(Range::new(RangeValue::Exclusive(0.0),RangeValue::Inclusive(2.0))),None,None).unwrap(); assert_eq!(r.iter().collect::<Vec<_>>(), vec![0]); }'''),
dict(id="dist_unroll", property="C24",
 needs="a squared distance or dot product with a target of more than 8 components that is longer than what is left of the chunk",
 breaks="with targets longer than 8 the last components of a short rest are left out",
 edits=[("decoder/query.rs","""    let sum = decompressed[offset_in_chunk..]
        .iter()
        .zip(target)
        .map(|(&a, &b)| a * b)
        .sum();""","""    let data = &decompressed[offset_in_chunk..];
    let n = data.len().min(target.len());
    let n = if target.len() > 8 && n < target.len() {
        n / 4 * 4
    } else {
        n
    };
    let sum = data[..n].iter().zip(target).map(|(&a, &b)| a * b).sum();""")],
 main='''fn main(){ let v:Vec<f64>=(0..40).map(|i| i as f64).collect(); let f=encode(&v, ChunkOption::Full, CompressorConfig::uncompressed().build()); let mut d=open(&f); let mut r=d.chunk_reader(ChunkId::new(0)).unwrap();
 for o in 0..40 { for n in [1usize,4,8,9,12] { let t=vec![2.0;n]; let w:f64=v[o..].iter().zip(&t).map(|(a,b)| a*b).sum(); assert_eq!(r.dot_product(o,&t).unwrap(), w, "{o} {n}"); } } }'''),
dict(id="expr_sub_zip", property="C25",
 needs="an expression with a literal on the left of a subtraction or division, nested one level deep",
 breaks="literal op (expression) is evaluated as (expression) op literal when the expression is itself binary",
 edits=[("decoder/expr.rs","                    Ok(rhs.into_iter().map(|rhs| op.doit(lhs, rhs)).collect())","                    Ok(rhs.into_iter().map(|v| if nested { op.doit(v, lhs) } else { op.doit(lhs, v) }).collect())"),
        ("decoder/expr.rs","""                (Some(lhs), None) => {
""","""                (Some(lhs), None) => {
                    let nested = matches!(**rhs, Expr::Binary { .. });
""")],
 main='''use ebi::decoder::expr::Op; use ebi::time::SegmentedExecutionTimes;
fn main(){ let f=encode(&[1.0,2.0,4.0], ChunkOption::Full, CompressorConfig::uncompressed().build()); let mut ds=vec![open(&f)];
 let b=|op,l,r| Expr::Binary{op,lhs:Box::new(l),rhs:Box::new(r)};
 let e=b(Op::Sub, Expr::Literal(10.0), Expr::Index(0)); let r=Aggregation::new(AggregationKind::Sum, e).compute(&mut ds,None,&mut SegmentedExecutionTimes::new()).unwrap(); assert_eq!(r.scalar().unwrap(), 23.0);
 let e=b(Op::Sub, Expr::Literal(10.0), b(Op::Add, Expr::Index(0), Expr::Literal(1.0))); let r=Aggregation::new(AggregationKind::Sum, e).compute(&mut ds,None,&mut SegmentedExecutionTimes::new()).unwrap(); assert_eq!(r.scalar().unwrap(), 20.0); }'''),
]
