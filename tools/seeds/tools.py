CSV = '''import os, struct, subprocess, sys
t = sys.argv[1]
os.mkdir("d")
def run(text, old=None):
    open("d/x.csv", "wb").write(text)
    if old is not None:
        os.makedirs("d/binary", exist_ok=True)
        open("d/binary/x.bin", "wb").write(old)
    elif os.path.exists("d/binary/x.bin"):
        os.remove("d/binary/x.bin")
    p = subprocess.run([t + "/csv2bin", "d/*.csv"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return p, (open("d/binary/x.bin", "rb").read() if os.path.exists("d/binary/x.bin") else None)
def pack(*v):
    return struct.pack("<%dd" % len(v), *v)
p, o = run(b"1.5,2\\n3\\n")
assert o == pack(1.5, 2, 3), o
'''
STATS = '''import json, subprocess, sys
t = sys.argv[1]
def run(text):
    open("x.csv", "wb").write(text)
    subprocess.run([t + "/collect-stats", "x.csv"], check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return json.load(open("stats.json"))["x"]
s = run(b"1.5,2\\n3\\n")
assert s["value_max"] == 3 and s["num_values"] == 3, s
'''
EXP = '''mod tool {
    #![allow(dead_code, unused)]
    include!("/repo/experimenter/src/main.rs");
    pub fn filter(f: &PathBuf, c: FilterConfig) -> String {
        filter_command(true, f, c, ConfigPath { config: String::new(), in_memory: None }).unwrap().result_string
    }
}
'''
SEEDS = [
 dict(id="csv_map_while", kind="tools", property="C29", needs="a text with a line that cannot be read (bytes that are no UTF-8, or a failing read)", breaks="the rest of the text is dropped and success reported",
  edits=[("tools/src/csv2bin.rs", "reader.lines().enumerate()", "reader.lines().map_while(Result::ok).enumerate()"), ("tools/src/csv2bin.rs", "            let line = line.context(\"Failed to read line\")?;\n", "")],
  main=CSV + 'p, o = run(b"1.5\\n\\xff\\n3\\n")\nassert o is None and b"Failed" in p.stderr, (p, o)\n'),
 dict(id="csv_stale", kind="tools", property="C29", needs="a longer output file of an earlier run", breaks="the tail of the earlier output stays behind the numbers",
  edits=[("tools/src/csv2bin.rs", "File::create(output_filename.as_path()).context(", "std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(output_filename.as_path()).context(")],
  main=CSV + 'p, o = run(b"7\\n", pack(1, 2, 3))\nassert o == pack(7), o\n'),
 dict(id="stats_max_neg", kind="tools", property="C36", needs="a text of negative numbers only", breaks="the greatest value reported is not one of the values",
  edits=[("tools/src/collect-stats.rs", "    let &value_max = values\n        .iter()\n        .max_by(|a, b| a.partial_cmp(b).unwrap())\n        .unwrap();", "    let value_max = values.iter().copied().fold(f64::MIN_POSITIVE, f64::max);")],
  main=STATS + 's = run(b"-1.5,-2\\n-3\\n")\nassert s["value_max"] == -1.5, s\n'),
 dict(id="stats_sign_exp", kind="tools", property="C36", needs="negative numbers", breaks="their sign is counted into the exponent",
  edits=[("tools/src/collect-stats.rs", "((bits >> 52) & 0x7ff) as i32", "(bits >> 52) as i32")],
  main=STATS + 's = run(b"-1.5,1.5\\n")\nassert s["exponent_max"] == 0 and s["exponent_min"] == 0, s\n'),
 dict(id="h06_upper", kind="exp", property="C32", needs="a row with a discount of exactly 0.07", breaks="its revenue is left out",
  edits=[("experimenter/src/tpch.rs", "RangeValue::Inclusive(0.07)", "RangeValue::Exclusive(0.07)")],
  main='''use arrow::array::{ArrayRef, Decimal128Array, RecordBatch};
use arrow::datatypes::{DataType, Field, Schema};
use std::sync::Arc;
fn main() {
    let p = std::env::temp_dir().join(format!("ebidemo-h06-{}", std::process::id()));
    std::fs::write(&p, [0]).unwrap();
    let cols: [(&str, [i128; 3]); 3] = [("l_extendedprice", [10000, 20000, 30000]), ("l_discount", [5, 7, 8]), ("l_quantity", [100, 2399, 100])];
    let f: Vec<Field> = cols.iter().map(|c| Field::new(c.0, DataType::Decimal128(15, 2), true)).collect();
    let a: Vec<ArrayRef> = cols.iter().map(|c| Arc::new(Decimal128Array::from(c.1.to_vec()).with_precision_and_scale(15, 2).unwrap()) as ArrayRef).collect();
    parquet::hold(vec![RecordBatch::try_new(Arc::new(Schema::new(f)), a).unwrap()]);
    let r = experimenter::tpch::process_h06(&p);
    std::fs::remove_file(&p).unwrap();
    let x = r.unwrap()["Uncompressed"].result[0].scalar().unwrap();
    assert!((x - 19.0).abs() < 1e-6, "{x}");
}
'''),
 dict(id="prec_pos_exp", kind="exp", property="C33", needs="a number with a positive exponent greater than its decimals", breaks="places are counted where the number has none",
  edits=[("experimenter/src/lib.rs", "(decimal_length as i32 - exponent_value).max(0) as usize", "(decimal_length as i32 - exponent_value).unsigned_abs() as usize")],
  main='''fn main() {
    assert_eq!(experimenter::get_decimal_precision("1.5e-3"), 4);
    assert_eq!(experimenter::get_decimal_precision("1.5e3"), 0);
}
'''),
 dict(id="cmd_filter_chunk", kind="exp", property="C34", needs="a filter in memory over one chunk of several", breaks="the records of all chunks are reported",
  edits=[("experimenter/src/main.rs", "input memory\")?;\n\n        let start = std::time::Instant::now();\n        let bitmask = decoder\n            .filter(predicate, bitmask.as_ref(), chunk_id)", "input memory\")?;\n\n        let start = std::time::Instant::now();\n        let bitmask = decoder\n            .filter(predicate, bitmask.as_ref(), None)")],
  main=EXP + '''use ebi::api::decoder::*;
use ebi::api::encoder::*;
use ebi::compressor::*;
use ebi::encoder::ChunkOption;
fn main() {
    let v = [1.0, 2.0, 1.0, 1.0];
    let mut e = Encoder::new(EncoderInput::from_f64_slice(&v), EncoderOutput::from_vec(Vec::new()), ChunkOption::RecordCount(2), CompressorConfig::uncompressed().build());
    e.encode().unwrap();
    let p = std::env::temp_dir().join(format!("ebidemo-cmd-{}.ebi", std::process::id()));
    std::fs::write(&p, e.into_output().into_vec()).unwrap();
    let all = tool::filter(&p, experimenter::FilterConfig { predicate: ebi::decoder::query::Predicate::Eq(1.0), chunk_id: None, bitmask: None });
    let one = tool::filter(&p, experimenter::FilterConfig { predicate: ebi::decoder::query::Predicate::Eq(1.0), chunk_id: Some(ChunkId::new(0)), bitmask: None });
    std::fs::remove_file(&p).unwrap();
    assert_eq!(all, "RoaringBitmap<[0, 2, 3]>");
    assert_eq!(one, "RoaringBitmap<[0]>");
}
'''),
]
