//! C34: experimenter's commands.
//! BOUNDS: compress, filter, filter_materialize, materialize, max and sum, in memory and by path, over 3 to 5 records with 3 symbolic bits (compress: one symbolic value) in one chunk or chunks of 2, five schemes, four masks, all chunks or the first; writes failing from any of the first 12 on; filter configurations for 1 to 21 values, compressor configurations for 0 to 21 places
//! OUTSIDE: the command line and the choice of files; the UCR, embedding and matrix experiments; measured times; predicate constants of 16 and more digits
use crate::fs::fs;
use crate::util::*;
use crate::vp::*;

mod tool {
    #![allow(dead_code, unused)]
    include!("/repo/experimenter/src/main.rs");
    fn at(c: &str) -> ConfigPath {
        ConfigPath { config: c.to_string(), in_memory: None }
    }
    pub fn compress(m: bool, f: &PathBuf, c: CompressionConfig) -> Option<OutputWrapper<CompressStatistics>> {
        compress_command(m, f, c, at("c.json")).ok()
    }
    pub fn filter(m: bool, f: &PathBuf, c: FilterConfig) -> Option<OutputWrapper<FilterConfig>> {
        filter_command(m, f, c, at("c.json")).ok()
    }
    pub fn filter_materialize(m: bool, f: &PathBuf, c: FilterMaterializeConfig) -> Option<OutputWrapper<FilterMaterializeConfig>> {
        filter_materialize_command(m, f, c, at("c.json")).ok()
    }
    pub fn materialize(m: bool, f: &PathBuf, c: MaterializeConfig) -> Option<OutputWrapper<MaterializeConfig>> {
        materialize_command(m, f, c, at("c.json")).ok()
    }
    pub fn max(m: bool, f: &PathBuf, c: MaxConfig) -> Option<OutputWrapper<MaxConfig>> {
        max_command(m, f, c, at("c.json")).ok()
    }
    pub fn sum(m: bool, f: &PathBuf, c: SumConfig) -> Option<OutputWrapper<SumConfig>> {
        sum_command(m, f, c, at("c.json")).ok()
    }
    pub fn filter_configs(f: &PathBuf, out: Option<PathBuf>) -> bool {
        create_config_command(f, out).is_ok()
    }
    pub fn compressor_configs(f: &PathBuf, out: Option<PathBuf>, exact: bool) -> bool {
        create_default_compressor_config(f, out, exact).is_ok()
    }
}
use experimenter::*;
use std::path::PathBuf;

const IN: &str = "/vp/d.bin";
const E: &str = "/vp/d.ebi";
fn raw(v: &[f64]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}
fn conf() -> CompressorConfig {
    match pick(5) {
        0 => CompressorConfig::uncompressed().build().into(),
        1 => CompressorConfig::rle().build().into(),
        2 => CompressorConfig::gorilla().build().into(),
        3 => CompressorConfig::delta_sprintz().scale(4).build().into(),
        _ => CompressorConfig::buff().scale(10).build().into(),
    }
}
fn data() -> Vec<f64> {
    vec![1.5, bits(2) as f64, 1.5, -(bits(1) as f64), 8.25]
}
struct Case {
    v: Vec<f64>,
    a: Ask,
    c: CompressorConfig,
    m: bool,
}
impl Case {
    fn mask(&self) -> Option<Vec<u32>> {
        self.a.mask.as_ref().map(|m| m.iter().collect())
    }
    /// What every command reports besides its result.
    fn told<T>(&self, r: &OutputWrapper<T>) {
        check(r.in_memory == self.m, "how it ran");
        check(r.input_filename == E, "the file it ran on");
        check(r.config_path == "c.json", "its configuration");
        check(r.compression_config.chunk_option == self.a.opt, "the chunking of the file");
        check(r.compression_config.compressor_config.compression_scheme() == self.c.compression_scheme(), "the scheme of the file");
        check(fs().n_open() == 0, "the files are closed");
    }
    fn wrote(&self, name: &str, w: &[f64]) {
        let Some(g) = fs().get(name) else { panic!("the output file") };
        check(same_bits(&to_f64(g.clone()), w), "the output file holds the records");
    }
}
/// A file, and the records of it asked for.
fn case() -> Case {
    let c = conf();
    let v = data();
    let n = v.len();
    let k = pick_from(&[0usize, 2]);
    let opt = if k == 0 { ChunkOption::Full } else { ChunkOption::RecordCount(k) };
    let f = encode(&v, opt, c);
    // (what the schemes do to -0.0 is not this check's concern)
    let v = decode(&f);
    fs().put(E, f);
    let masks: [Option<&[u32]>; 4] = [None, Some(&[]), Some(&[0, 3, 4]), Some(&[1, 2, 900])];
    let m = masks[pick(4)];
    let chunk = if flag() { Some(0) } else { None };
    let end = if k == 0 || chunk.is_none() { n } else { k };
    let sel = (0..n).map(|i| i < end && m.is_none_or(|m| m.contains(&(i as u32)))).collect();
    let a = Ask { opt, chunk: chunk.map(ChunkId::new), mask: m.map(|m| m.iter().copied().collect()), sel };
    Case { v, a, c, m: flag() }
}
fn bitmap(sel: impl Iterator<Item = bool>) -> RoaringBitmap {
    sel.enumerate().filter(|x| x.1).map(|x| x.0 as u32).collect()
}
fn file() -> PathBuf {
    PathBuf::from(E)
}
fn some_predicate() -> Predicate {
    match pick(3) {
        0 => Predicate::Eq(1.5),
        1 => Predicate::Ne(2.0),
        _ => Predicate::Range(Range::new(RangeValue::Exclusive(0.0), RangeValue::Inclusive(1.5))),
    }
}
fn predicate_in(name: &str) -> FilterConfig {
    let Some(g) = fs().get(name) else { panic!("the configuration") };
    match serde_json::from_slice(g) {
        Ok(c) => c,
        Err(_) => panic!("a configuration that can be read"),
    }
}
fn is_above(name: &str, x: f64) {
    let c = predicate_in(name);
    check(c.chunk_id.is_none() && c.bitmask.is_none(), "all records");
    match c.predicate {
        Predicate::Range(r) => {
            check(matches!(r.start(), RangeValue::Exclusive(y) if y == x), "above the percentile");
            check(matches!(r.end(), RangeValue::None), "without an upper end");
        }
        _ => check(false, "a range"),
    }
}
harnesses! {
    fn c34_compress() {
        let v = vec![1.5, f64s(), 2.5];
        let b = raw(&v);
        fs().put(IN, b.clone());
        let c: CompressorConfig = CompressorConfig::uncompressed().build().into();
        let m = flag();
        let Some(r) = tool::compress(m, &PathBuf::from(IN), CompressionConfig::new(ChunkOption::RecordCount(2), c)) else { panic!("compress") };
        let f = fs().get(E).cloned().unwrap_or_default();
        check(same_bits(&decode(&f), &v), "the file holds the data");
        check(fs().get(IN) == Some(&b), "the input is left alone");
        check(r.in_memory == m && r.input_filename == IN, "what it ran on");
        check(r.command_specific.uncompressed_size == 24 && r.command_specific.compressed_size == f.len() as u64, "the sizes");
        check(r.result_string == "number_of_records: 3", "the number of records");
        check(fs().n_open() == 0, "the files are closed");
    }
    fn c34_compress_schemes() {
        let v = data();
        fs().put(IN, raw(&v));
        let c = conf();
        let Some(r) = tool::compress(flag(), &PathBuf::from(IN), CompressionConfig::new(ChunkOption::Full, c)) else { panic!("compress") };
        let f = fs().get(E).cloned().unwrap_or_default();
        check(same_bits(&decode(&f), &decode(&encode(&v, ChunkOption::Full, c))), "the file holds the data");
        check(r.compression_config.compressor_config == c, "the configuration");
        check(r.command_specific.compressed_size == f.len() as u64, "the size of the file");
    }
    fn c34_filter() {
        let x = case();
        let p = some_predicate();
        let Some(r) = tool::filter(x.m, &file(), FilterConfig { predicate: p, chunk_id: x.a.chunk, bitmask: x.mask() }) else { panic!("filter") };
        x.told(&r);
        let w = bitmap((0..x.v.len()).map(|i| x.a.sel[i] && holds(&p, x.v[i])));
        check(r.result_string == format!("{:?}", w), "the records found");
    }
    fn c34_filter_materialize() {
        let x = case();
        let p = some_predicate();
        let Some(r) = tool::filter_materialize(x.m, &file(), FilterMaterializeConfig { predicate: p, chunk_id: x.a.chunk, bitmask: x.mask() }) else { panic!("filter_materialize") };
        x.told(&r);
        let w: Vec<f64> = (0..x.v.len()).filter(|&i| x.a.sel[i] && holds(&p, x.v[i])).map(|i| x.v[i]).collect();
        if x.m {
            check(r.result_string == format!("bytes: {}", 8 * w.len()), "the size of the result");
        } else {
            x.wrote("/vp/d.filter_materialized", &w);
        }
    }
    fn c34_materialize() {
        let x = case();
        let Some(r) = tool::materialize(x.m, &file(), MaterializeConfig { chunk_id: x.a.chunk, bitmask: x.mask() }) else { panic!("materialize") };
        x.told(&r);
        let w: Vec<f64> = (0..x.v.len()).filter(|&i| x.a.sel[i]).map(|i| x.v[i]).collect();
        if x.m {
            check(r.result_string == format!("bytes: {}", 8 * w.len()), "the size of the result");
        } else {
            x.wrote("/vp/d.materialized", &w);
        }
    }
    fn c34_max() {
        let x = case();
        let Some(r) = tool::max(x.m, &file(), MaxConfig { chunk_id: x.a.chunk, bitmask: x.mask() }) else { panic!("max") };
        x.told(&r);
        let w = (0..x.v.len()).filter(|&i| x.a.sel[i]).fold(f64::NEG_INFINITY, |a, i| if x.v[i] > a { x.v[i] } else { a });
        check(r.result_string.parse::<f64>().is_ok_and(|g| g == w), "the max");
    }
    fn c34_sum() {
        let x = case();
        let Some(r) = tool::sum(x.m, &file(), SumConfig { chunk_id: x.a.chunk, bitmask: x.mask() }) else { panic!("sum") };
        x.told(&r);
        let w = (0..x.v.len()).filter(|&i| x.a.sel[i]).fold(0.0, |a, i| a + x.v[i]);
        check(r.result_string.parse::<f64>().is_ok_and(|g| g == w), "the sum");
    }
    // writes that fail are reported
    fn c34_fails() {
        let v = vec![1.5, 2.5, 3.5];
        let m = flag();
        match pick(3) {
            0 => {
                fs().put(IN, raw(&v));
                fs().writes = pick(12);
                let c = CompressorConfig::uncompressed().build();
                if tool::compress(m, &PathBuf::from(IN), CompressionConfig::new(ChunkOption::Full, c.into())).is_some() {
                    check(fs().failed == 0, "failed writes are reported");
                    check(same_bits(&decode(fs().get(E).unwrap()), &v), "what is reported as written is written");
                }
            }
            1 => {
                fs().put(E, encode(&v, ChunkOption::Full, CompressorConfig::uncompressed().build()));
                fs().writes = pick(4);
                if tool::materialize(false, &file(), MaterializeConfig { chunk_id: None, bitmask: None }).is_some() {
                    check(fs().failed == 0, "failed writes are reported");
                    check(fs().get("/vp/d.materialized") == Some(&raw(&v)), "what is reported as written is written");
                }
            }
            _ => {
                fs().put(E, encode(&v, ChunkOption::Full, CompressorConfig::uncompressed().build()));
                fs().writes = pick(4);
                let p = Predicate::Range(Range::new(RangeValue::None, RangeValue::None));
                if tool::filter_materialize(false, &file(), FilterMaterializeConfig { predicate: p, chunk_id: None, bitmask: None }).is_some() {
                    check(fs().failed == 0, "failed writes are reported");
                    check(fs().get("/vp/d.filter_materialized") == Some(&raw(&v)), "what is reported as written is written");
                }
            }
        }
    }
    fn c34_missing() {
        let (f, m) = (PathBuf::from("/vp/none"), flag());
        let ok = match pick(3) {
            0 => tool::max(m, &f, MaxConfig { chunk_id: None, bitmask: None }).is_some(),
            1 => tool::compress(m, &f, CompressionConfig::new(ChunkOption::Full, conf())).is_some(),
            _ => tool::filter(m, &f, FilterConfig { predicate: Predicate::Eq(0.0), chunk_id: None, bitmask: None }).is_some(),
        };
        check(!ok, "a missing file is reported");
    }
    // the predicates made for a file: the percentiles of its values
    fn c34_filter_configs() {
        let n = pick_from(&[1usize, 2, 9, 10, 11, 20, 21]);
        let mut v: Vec<f64> = (0..n).map(|i| (i * 7 % 23) as f64 * 0.5).collect();
        v[n / 2] = pick_from(&[-1.25, 40.0, 2.25, 0.0]);
        fs().put(IN, raw(&v));
        check(tool::filter_configs(&PathBuf::from(IN), Some(PathBuf::from("/vp/f"))), "making the configurations");
        let mut s = v.clone();
        s.sort_by(|a, b| a.total_cmp(b));
        is_above("/vp/f/greater_10th_percentile.json", s[n * 10 / 100]);
        is_above("/vp/f/greater_50th_percentile.json", s[n / 2]);
        is_above("/vp/f/greater_90th_percentile.json", s[n * 90 / 100]);
        check(matches!(predicate_in("/vp/f/eq.json").predicate, Predicate::Eq(x) if x == s[n / 2]), "equal to the median");
        check(matches!(predicate_in("/vp/f/ne.json").predicate, Predicate::Ne(x) if x == s[n / 2]), "not equal to the median");
    }
    fn c34_filter_configs_nan() {
        fs().put(IN, raw(&[1.0, f64::NAN, 2.0]));
        check(!tool::filter_configs(&PathBuf::from(IN), Some(PathBuf::from("/vp/f"))), "NaN has no place in the order");
        check(fs().get("/vp/f/eq.json").is_none(), "nothing is made");
    }
    // the compressor settings made for a file: the scale its numbers need
    fn c34_compressor_configs() {
        let (t, p) = pick_from(&[("1,2\n3\n", 0usize), ("1.5,2\n0.25\n", 2), ("7e-3\n", 3), ("0.123456789012\n1\n", 12), ("0.123456789012345678901\n", 21)]);
        fs().put("/vp/d.csv", t.as_bytes().to_vec());
        check(tool::compressor_configs(&PathBuf::from("/vp/d.csv"), Some(PathBuf::from("/vp/c")), flag()), "making the configurations");
        for n in ["uncompressed", "chimp128", "chimp", "elf_on_chimp", "elf", "gorilla", "rle", "zstd", "gzip", "snappy", "ffi_alp", "delta_sprintz", "buff"] {
            let f = format!("/vp/c/{n}.json");
            let g = fs().get(&f);
            let scaled = n == "delta_sprintz" || n == "buff";
            if scaled && p > 19 {
                check(g.is_none(), "no scale, no configuration");
                continue;
            }
            let Some(g) = g else { panic!("the configuration") };
            let c: CompressionConfig = match serde_json::from_slice(g) {
                Ok(c) => c,
                Err(_) => panic!("a configuration that can be read"),
            };
            let name = format!("{:?}", c.compressor_config.compression_scheme()).to_lowercase();
            check(name == n.replace('_', ""), "the scheme named by the file");
            if scaled {
                let mut want = c.compressor_config;
                want.set_scale((0..p).fold(1, |a, _| a * 10));
                check(want == c.compressor_config, "the scale the numbers need");
            }
        }
    }
}
