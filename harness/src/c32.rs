//! C32: the TPC-H queries.
//! BOUNDS: h01 and h06 of 3 and 40 rows in one or two batches, 2 to 6 symbolic bits in the decimals (both sides of every limit of h06), every compression scheme; BUFF's revenue to one hundredth of the discount
//! OUTSIDE: the parquet reader itself (a stub yields the batches of the file; arrow's arrays are the real ones); rounding of inexact sums
use crate::fs::fs;
use crate::vp::*;
use arrow::array::{ArrayRef, Decimal128Array, RecordBatch, StringArray};
use arrow::datatypes::{DataType, Field, Schema};
use ebi::api::decoder::AggregationResult;
use experimenter::tpch;
use std::sync::Arc;

const P: &str = "/vp/h.parquet";
fn dec(v: &[i128]) -> ArrayRef {
    Arc::new(Decimal128Array::from(v.to_vec()).with_precision_and_scale(15, 2).unwrap())
}
fn batch(cols: &[(&str, &[i128])], from: usize, to: usize, flags: bool) -> RecordBatch {
    let mut f = Vec::new();
    let mut a: Vec<ArrayRef> = Vec::new();
    if flags {
        for n in ["l_returnflag", "l_linestatus"] {
            f.push(Field::new(n, DataType::Utf8, true));
            a.push(Arc::new(StringArray::from(vec!["A"; to - from])));
        }
    }
    for (n, v) in cols {
        f.push(Field::new(*n, DataType::Decimal128(15, 2), true));
        a.push(dec(&v[from..to]));
    }
    RecordBatch::try_new(Arc::new(Schema::new(f)), a).unwrap()
}
fn hold(cols: &[(&str, &[i128])], flags: bool) {
    fs().put(P, vec![0]);
    let n = cols[0].1.len();
    let k = pick_from(&[0, 1, n - 1]);
    parquet::hold(if k == 0 { vec![batch(cols, 0, n, flags)] } else { vec![batch(cols, 0, k, flags), batch(cols, k, n, flags)] });
}
fn near(r: &AggregationResult, w: f64) -> bool {
    within(r, w, 1e-6)
}
fn within(r: &AggregationResult, w: f64, e: f64) -> bool {
    let x = match r {
        AggregationResult::Integer(n) => *n as f64,
        r => r.scalar().unwrap_or(f64::NAN),
    };
    (x - w).abs() <= e
}
const SCHEMES: usize = 13;
fn times(names: &[String], each: &[u64], all: u64) {
    check(names.len() == each.len(), "a name for each time");
    check(each.iter().fold(0u64, |a, &b| a + b) == all, "the times add up");
}
struct H01 {
    q: Vec<i128>,
    p: Vec<i128>,
    d: Vec<i128>,
    t: Vec<i128>,
}
impl H01 {
    /// The four sums, the three averages, the count.
    fn want(&self) -> [f64; 8] {
        let n = self.q.len();
        let f = |v: &Vec<i128>, i: usize| v[i] as f64 / 100.0;
        let s = |g: &dyn Fn(usize) -> f64| {
            let mut a = 0.0;
            for i in 0..n {
                a += g(i);
            }
            a
        };
        let (q, p, d) = (s(&|i| f(&self.q, i)), s(&|i| f(&self.p, i)), s(&|i| f(&self.d, i)));
        let c = s(&|i| f(&self.p, i) * (1.0 - f(&self.d, i)));
        let e = s(&|i| f(&self.p, i) * (1.0 - f(&self.d, i)) * (1.0 + f(&self.t, i)));
        let n = n as f64;
        [q, p, c, e, q / n, p / n, d / n, n]
    }
    fn hold(&self) {
        hold(&[("l_quantity", &self.q), ("l_extendedprice", &self.p), ("l_discount", &self.d), ("l_tax", &self.t)], true);
    }
}
fn h01(x: &H01) {
    x.hold();
    let w = x.want();
    let r = match tpch::process_h01(P) {
        Ok(r) => r,
        Err(_) => panic!("h01"),
    };
    check(r.len() == SCHEMES, "every scheme");
    for r in r.values() {
        check(r.result.len() == 8, "eight results");
        for i in 0..8 {
            check(near(&r.result[i], w[i]), "the result of the query, in the order of the query");
        }
        check(r.query_names.len() == 4, "one name for the sums, one for each average");
        for (i, n) in ["AVG(l_quantity)", "AVG(l_extendedprice)", "AVG(l_discount)"].iter().enumerate() {
            check(r.query_names[i + 1] == *n, "the averages are named in the order of their results");
        }
        times(&r.query_names, &r.queries_elapsed_time, r.query_elapsed_time);
        check(r.compression.len() == 4, "every column");
        for c in r.compression.values() {
            check(c.uncompressed_size == 8 * x.q.len() as u64, "the size of the column");
        }
    }
}
fn simple(x: &H01) {
    x.hold();
    let w = x.want();
    let r = match tpch::process_h01_simplified(P) {
        Ok(r) => r,
        Err(_) => panic!("h01 simplified"),
    };
    check(r.len() == SCHEMES, "every scheme");
    for r in r.values() {
        check(r.result.len() == 6, "six results");
        for i in 0..2 {
            check(near(&r.result[i], w[i]), "the sums");
        }
        // the order of the averages is not laid down
        for a in 4..7 {
            check((2..5).fold(false, |y, i| y | near(&r.result[i], w[a])), "the averages");
        }
        check(near(&r.result[5], w[7]), "the count");
        times(&r.query_names, &r.queries_elapsed_time, r.query_elapsed_time);
    }
}
fn h06(q: &[i128], p: &[i128], d: &[i128]) {
    hold(&[("l_extendedprice", p), ("l_discount", d), ("l_quantity", q)], false);
    let mut w = 0.0;
    for i in 0..q.len() {
        w += if (d[i] >= 5) & (d[i] <= 7) & (q[i] < 2400) { p[i] as f64 / 100.0 * (d[i] as f64 / 100.0) } else { 0.0 };
    }
    let r = match tpch::process_h06(P) {
        Ok(r) => r,
        Err(_) => panic!("h06"),
    };
    check(r.len() == SCHEMES, "every scheme");
    // BUFF keeps the discounts to one hundredth
    let mut e = 1e-6;
    for i in 0..q.len() {
        e += if (d[i] >= 5) & (d[i] <= 7) & (q[i] < 2400) { p[i] as f64 / 100.0 * 0.01 } else { 0.0 };
    }
    for (n, r) in &r {
        check(r.result.len() == 1, "one result");
        check(within(&r.result[0], w, if n == "BUFF" { e } else { 1e-6 }), "the revenue");
        times(&r.query_names, &r.queries_elapsed_time, r.query_elapsed_time);
    }
}
fn few() -> H01 {
    H01 {
        q: vec![100, 1700, 100 * (1 + bits(2) as i128)],
        p: vec![90_000, 100 * (1 + bits(2) as i128), 12_800],
        d: vec![25 * bits(1) as i128, 0, 50],
        t: vec![0, 25 * bits(1) as i128, 50],
    }
}
fn lot(n: usize) -> H01 {
    let f = |a: i64, b: i64, m: i64| (0..n as i64).map(|i| (i * a % b * m) as i128).collect::<Vec<i128>>();
    let mut x = H01 { q: f(7, 50, 100), p: f(37, 1001, 100), d: f(3, 5, 25), t: f(2, 3, 25) };
    x.p[n / 2] = 100 * (1 + bits(2) as i128);
    x.d[n - 1] = 25 * bits(1) as i128;
    x
}
harnesses! {
    fn c32_h01() { h01(&few()) }
    fn c32_h01_long() { h01(&lot(40)) }
    fn c32_simple() { simple(&few()) }
    fn c32_simple_long() { simple(&lot(40)) }
    // discounts and quantities on both sides of the limits
    fn c32_h06() { h06(&[2400 - bits(1) as i128, 100, 2399], &[100, 6400, 12_800], &[5, 4 + bits(2) as i128, 7]) }
    fn c32_h06_limits() { h06(&[2300 + 100 * bits(1) as i128, 2401, 0], &[100 * (1 + bits(1) as i128), 6400, 12_800], &[4 + bits(1) as i128, 6, 7 + bits(1) as i128]) }
    fn c32_h06_long() {
        let n = 40;
        let f = |a: i64, b: i64, m: i64| (0..n as i64).map(|i| (i * a % b * m) as i128).collect::<Vec<i128>>();
        let (mut q, p, mut d) = (f(7, 50, 100), f(37, 1001, 100), f(3, 11, 1));
        q[n / 2] = 2300 + 100 * bits(1) as i128;
        d[n / 2] = 6;
        d[n - 1] = 5 + bits(2) as i128;
        h06(&q, &p, &d)
    }
    fn c32_missing() {
        check(tpch::process_h01("/vp/none").is_err() && tpch::process_h06("/vp/none").is_err(), "a missing file is reported");
    }
    // text where a number belongs
    fn c32_text() {
        fs().put(P, vec![0]);
        let b = RecordBatch::try_new(Arc::new(Schema::new(vec![Field::new("l_quantity", DataType::Utf8, true)])), vec![Arc::new(StringArray::from(vec!["1"])) as ArrayRef]).unwrap();
        parquet::hold(vec![b]);
        check(if flag() { tpch::process_h01(P).is_err() } else { tpch::process_h06(P).is_err() }, "text where a number belongs is an error");
    }
}
