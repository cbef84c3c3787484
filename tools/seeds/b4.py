D='''fn dir()->std::path::PathBuf { let d=std::env::temp_dir().join(format!("ebidemo{}",std::process::id())); std::fs::create_dir_all(&d).unwrap(); d }
struct Clean; impl Drop for Clean { fn drop(&mut self){ let _=std::fs::remove_dir_all(dir()); } }
'''
SEEDS=[
dict(id="stale_tail", property="C21",
 needs="an output path where a longer file lies already",
 breaks="the old file is overwritten but not cut, so its tail stays behind the new one",
 edits=[("api/encoder.rs","        let file = std::fs::File::create(file_path)?;","        let file = std::fs::OpenOptions::new()\n            .write(true)\n            .create(true)\n            .truncate(false)\n            .open(file_path)?;")],
 main=D+'''fn main(){ let _c=Clean; let p=dir().join("a.ebi"); let v=[1.0,2.0]; for old in [0usize,10,5000] { std::fs::write(&p, vec![7u8;old]).unwrap();
 let mut e=Encoder::new(EncoderInput::from_f64_slice(&v), EncoderOutput::from_file(&p).unwrap(), ChunkOption::Full, CompressorConfig::uncompressed().build()); e.encode().unwrap(); drop(e);
 let f=std::fs::read(&p).unwrap(); let m=encode(&v, ChunkOption::Full, CompressorConfig::uncompressed().build()); assert_eq!(f.len(), m.len()); } }'''),
dict(id="late_flush", property="C21",
 needs="a buffered output whose device fails at the last writes, when the footer offset and elapsed time are stored",
 breaks="encode reports success although the footer offset never reached the file",
 edits=[("api/encoder.rs","        // you can flush if you want\n        output.writer_mut().flush()?;\n","")],
 main='''use std::io::{Write,Seek,SeekFrom,Result,Error};
struct F(Cursor<Vec<u8>>,usize); impl Write for F { fn write(&mut self,b:&[u8])->Result<usize>{ if self.1==0 { return Err(Error::other("full")); } self.1-=1; self.0.write(b) } fn flush(&mut self)->Result<()>{Ok(())} } impl Seek for F { fn seek(&mut self,p:SeekFrom)->Result<u64>{ self.0.seek(p) } }
fn main(){ let v=[1.0,2.0]; for n in 0..30 { let mut e=Encoder::new(EncoderInput::from_f64_slice(&v), EncoderOutput::from_writer(F(Cursor::new(Vec::new()),n)).into_buffered(), ChunkOption::Full, CompressorConfig::uncompressed().build());
 if e.encode().is_ok() { let w=e.into_output().into_inner(); assert!(w.buffer().is_empty(), "success reported with unwritten bytes at {n}"); assert_eq!(decode(w.get_ref().0.get_ref()).len(), 2); } } }'''),
dict(id="append_back", property="C21",
 needs="decoding to a path where a file lies already",
 breaks="the decoded records are appended to the old file",
 edits=[("api/decoder.rs","        let file = File::create(path)?;","        let file = File::options().create(true).append(true).open(path)?;")],
 main=D+'''fn main(){ let _c=Clean; let p=dir().join("a.bin"); let v=[1.0,2.0]; let f=encode(&v, ChunkOption::Full, CompressorConfig::uncompressed().build()); for _ in 0..2 { let mut o=DecoderOutput::from_file(&p).unwrap(); open(&f).materialize(&mut o,None,None).unwrap(); drop(o); same(&to_f64(std::fs::read(&p).unwrap()), &v); } }'''),
dict(id="xor_time_twice", property="C28",
 needs="a file of several chunks in an XOR scheme",
 breaks="the time of earlier chunks is counted again with every further chunk",
 edits=[("compressor/general_xor.rs","        let xor_encode_timer = self.timer.start_measurement(SegmentKind::Xor);","        let xor_encode_timer = self.timer.start_addition_measurement(SegmentKind::Xor);"),("compressor/general_xor.rs","        self.encoder.reset();\n        self.timer = SegmentedExecutionTimes::new();\n","        self.encoder.reset();\n")],
 main='''fn main(){ let v:Vec<f64>=(0..400_000).map(|i| (i as f64).sqrt()).collect(); let f=encode(&v, ChunkOption::RecordCount(8000), CompressorConfig::gorilla().build()); let d=open(&f); let t=d.footer().segmented_execution_times(); assert!(t.io_read()+t.io_write()+t.xor() <= d.footer().compression_elapsed_time()); }'''),
dict(id="expr_time_twice", property="C28",
 needs="an aggregation that uses the same column more than once",
 breaks="the time of reading a column is counted again for each use",
 edits=[("decoder/expr.rs","                    readers[*i].reset_timer();\n","")],
 main='''use std::io::{Read,Seek,SeekFrom,Result}; use ebi::time::*; use ebi::decoder::expr::Op;
struct S(Cursor<Vec<u8>>); impl Read for S { fn read(&mut self,b:&mut [u8])->Result<usize>{ std::thread::sleep(std::time::Duration::from_millis(5)); self.0.read(b) } } impl Seek for S { fn seek(&mut self,p:SeekFrom)->Result<u64>{ self.0.seek(p) } }
fn main(){ let f=encode(&[1.0,2.0,3.0], ChunkOption::RecordCount(1), CompressorConfig::uncompressed().build()); let mut ds=vec![match Decoder::new(DecoderInput::from_reader(S(Cursor::new(f)))) { Ok(d)=>d, Err(_)=>panic!() }];
 let i=||Box::new(Expr::Index(0)); let e=Expr::Binary{op:Op::Mul,lhs:i(),rhs:Box::new(Expr::Binary{op:Op::Add,lhs:i(),rhs:i()})};
 let mut t=SegmentedExecutionTimes::new(); let a=std::time::Instant::now(); Aggregation::sum(e).compute(&mut ds,None,&mut t).unwrap(); let el=a.elapsed(); assert!(t.io_read()+t.io_write()+t.decompression()+t.compare_insert()+t.sum() <= el, "{:?} {:?}", t, el); }'''),
]
