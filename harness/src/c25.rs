//! C25: aggregations of column expressions equal the definition over the selected records.
//! BOUNDS: 1..2 columns of 3 records in equal chunks (one, or of 1..2 records), uncompressed, RLE, Gorilla, BUFF and DeltaSprintz; 4 symbolic records of 1..2 bits (quarters and powers of two, all arithmetic exact); expressions: a column, column op column, column op literal, literal op column, and one to three levels deeper on either side, with all four operators; sum, min, max and none; no mask or four masks; one aggregation at a time and several at once; columns of 70 to 300 records, two of them symbolic, in one chunk and chunks of 1 to 130, 9 masks, also expressions of depth 4
//! OUTSIDE: rounding of inexact sums; columns of different lengths or chunking
use crate::util::*;
use crate::vp::*;
use ebi::api::decoder::{Aggregation, AggregationKind, AggregationResult, Expr};
use ebi::decoder::expr::Op;
use ebi::time::SegmentedExecutionTimes;

fn eval(e: &Expr, r: &[f64]) -> f64 {
    match e {
        Expr::Literal(x) => *x,
        Expr::Index(i) => r[*i],
        Expr::Binary { op, lhs, rhs } => {
            let (a, b) = (eval(lhs, r), eval(rhs, r));
            match op {
                Op::Add => a + b,
                Op::Sub => a - b,
                Op::Mul => a * b,
                Op::Div => a / b,
            }
        }
    }
}
fn ops() -> Op {
    pick_from(&[Op::Add, Op::Sub, Op::Mul, Op::Div])
}
fn bin(op: Op, l: Expr, r: Expr) -> Expr {
    Expr::Binary { op, lhs: Box::new(l), rhs: Box::new(r) }
}
fn expr(k: usize, op: Op) -> Expr {
    match k {
        0 => Expr::Index(if let Op::Add = op { 1 } else { 0 }),
        1 => bin(op, Expr::Index(0), Expr::Index(1)),
        2 => bin(op, Expr::Index(0), Expr::Literal(4.0)),
        3 => bin(op, Expr::Literal(-2.0), Expr::Index(1)),
        4 => bin(Op::Mul, bin(Op::Sub, Expr::Literal(1.0), Expr::Index(0)), Expr::Index(1)),
        6 => bin(op, bin(Op::Sub, bin(op, bin(Op::Add, Expr::Index(0), Expr::Literal(8.0)), Expr::Index(1)), Expr::Literal(0.5)), bin(Op::Mul, Expr::Literal(-1.0), bin(Op::Mul, Expr::Index(1), Expr::Index(1)))),
        7 => bin(op, Expr::Literal(8.0), bin(Op::Mul, Expr::Index(1), Expr::Literal(2.0))),
        8 => bin(op, bin(Op::Sub, Expr::Index(0), Expr::Index(1)), Expr::Literal(-2.0)),
        9 => bin(op, bin(Op::Sub, Expr::Literal(3.0), Expr::Index(0)), bin(Op::Div, Expr::Index(1), Expr::Literal(0.5))),
        10 => bin(op, bin(op, Expr::Index(0), Expr::Literal(0.5)), bin(Op::Mul, Expr::Literal(2.0), Expr::Index(1))),
        _ => bin(Op::Sub, bin(Op::Add, Expr::Index(0), Expr::Index(0)), bin(Op::Mul, Expr::Index(1), Expr::Literal(2.0))),
    }
}
const EXPRS: usize = 11;
fn kind(k: usize) -> AggregationKind {
    [AggregationKind::Sum, AggregationKind::Min, AggregationKind::Max, AggregationKind::None][k]
}
fn is(r: &AggregationResult, k: AggregationKind, e: &Expr, cols: &[Vec<f64>; 2], sel: &[bool]) {
    let w: Vec<f64> = (0..sel.len()).filter(|&i| sel[i]).map(|i| eval(e, &[cols[0][i], cols[1][i]])).collect();
    if let (AggregationKind::None, AggregationResult::Array(g)) = (k, r) {
        check(g.len() == w.len(), "as many values as records selected");
        for i in 0..w.len() {
            check(g[i] == w[i], "the value of the expression");
        }
        return;
    }
    let x = r.scalar().expect("a scalar");
    seen(x);
    let mut s = 0.0;
    for &y in &w {
        s += y;
    }
    match k {
        AggregationKind::Sum => check(x == s, "the sum"),
        AggregationKind::Min => check(w.iter().fold(true, |a, &y| a & (x <= y)) & w.iter().fold(w.is_empty() & (x == f64::INFINITY), |a, &y| a | (x == y)), "the min"),
        AggregationKind::Max => check(w.iter().fold(true, |a, &y| a & (x >= y)) & w.iter().fold(w.is_empty() & (x == f64::NEG_INFINITY), |a, &y| a | (x == y)), "the max"),
        AggregationKind::None => check(false, "an array"),
    }
}
fn columns() -> [Vec<f64>; 2] {
    [
        vec![bits(2) as f64 / 4.0, 2.25, bits(2) as f64 / 4.0],
        vec![if bits(1) == 1 { 2.0 } else { 0.25 }, 0.5, if bits(1) == 1 { 2.0 } else { 0.25 }],
    ]
}
fn masks() -> (Option<RoaringBitmap>, Vec<bool>) {
    let m: Option<&[u32]> = [None, Some(&[][..]), Some(&[0, 2][..]), Some(&[2, 9][..]), Some(&[1][..])][pick(5)];
    (m.map(|m| m.iter().copied().collect()), (0..3).map(|i| m.is_none_or(|m| m.contains(&i))).collect())
}
fn setup(c: impl Into<CompressorConfig>, d: impl Into<CompressorConfig>, sizes: usize) -> ([Vec<f64>; 2], Vec<u8>, Vec<u8>) {
    let v = columns();
    let k = pick(sizes);
    let o = if k == 0 { ChunkOption::Full } else { ChunkOption::RecordCount(k) };
    let (f, g) = (encode(&v[0], o, c), encode(&v[1], o, d));
    (v, f, g)
}
fn one(c: impl Into<CompressorConfig>, d: impl Into<CompressorConfig>, sizes: usize, exprs: usize) {
    let (v, f, g) = setup(c, d, sizes);
    let mut ds = vec![open(&f), open(&g)];
    let e = expr(pick(exprs), ops());
    let k = kind(pick(4));
    let (m, sel) = masks();
    let r = Aggregation::new(k, e.clone()).compute(&mut ds, m.as_ref(), &mut SegmentedExecutionTimes::new()).expect("compute");
    is(&r, k, &e, &v, &sel);
}
fn many(c: impl Into<CompressorConfig>, d: impl Into<CompressorConfig>, sizes: usize) {
    let (v, f, g) = setup(c, d, sizes);
    let mut ds = vec![open(&f), open(&g)];
    let p = pick(EXPRS);
    let o = ops();
    let es = [expr(p, o), expr((p + 1) % EXPRS, o), expr(1, o)];
    let q = pick(4);
    let ks = [kind(q), kind((q + 1) % 4), kind((q + 2) % 4)];
    let (m, sel) = masks();
    let a: Vec<Aggregation> = (0..3).map(|i| Aggregation::new(ks[i], es[i].clone())).collect();
    let r = Aggregation::compute_multiple(&a, &mut ds, m.as_ref(), &mut SegmentedExecutionTimes::new()).expect("compute");
    check(r.len() == 3, "one result for each");
    for i in 0..3 {
        is(&r[i], ks[i], &es[i], &v, &sel);
    }
}
/// Long columns, masks with gaps.
fn far(c: impl Into<CompressorConfig>, d: impl Into<CompressorConfig>, exprs: usize, n: usize, sizes: &[usize]) {
    let mut v = [
        (0..n).map(|i| (i * 7 % 16) as f64 / 4.0).collect::<Vec<f64>>(),
        (0..n).map(|i| [0.25, 2.0, 0.5, 4.0, 1.0][i % 5]).collect::<Vec<f64>>(),
    ];
    v[0][n / 3] = bits(2) as f64 / 4.0;
    v[0][n - 2] = -(bits(2) as f64) / 4.0;
    let o = cut(n, sizes);
    let (f, g) = (encode(&v[0], o.0, c), encode(&v[1], o.0, d));
    let mut ds = vec![open(&f), open(&g)];
    let e = expr(pick(exprs), pick_from(&[Op::Sub, Op::Div]));
    let k = kind(pick(4));
    let a = ask_far(n, (o.0, n));
    let r = Aggregation::new(k, e.clone()).compute(&mut ds, a.mask.as_ref(), &mut SegmentedExecutionTimes::new()).expect("compute");
    is(&r, k, &e, &v, &a.sel);
    let e2 = expr(4, Op::Sub);
    let b = [Aggregation::new(kind(1), e2.clone()), Aggregation::new(k, e.clone())];
    let r = Aggregation::compute_multiple(&b, &mut ds, a.mask.as_ref(), &mut SegmentedExecutionTimes::new()).expect("compute");
    is(&r[0], kind(1), &e2, &v, &a.sel);
    is(&r[1], k, &e, &v, &a.sel);
}
fn unc() -> CompressorConfig {
    CompressorConfig::uncompressed().build().into()
}
fn buff() -> CompressorConfig {
    CompressorConfig::buff().scale(100).build().into()
}
fn sprintz() -> CompressorConfig {
    CompressorConfig::delta_sprintz().scale(100).build().into()
}
harnesses! {
    fn c25_far() { far(unc(), unc(), EXPRS, 140, &[0, 60, 1]) }
    fn c25_far_rle() { far(CompressorConfig::rle().build(), unc(), 2, 300, &[0, 130]) }
    fn c25_far_buff() { far(buff(), unc(), 2, 70, &[0, 33]) }
    fn c25_far_sprintz() { far(sprintz(), unc(), 2, 140, &[0, 60]) }
    fn c25_one() { one(unc(), unc(), 3, EXPRS) }
    fn c25_one_buff() { one(buff(), unc(), 2, 2) }
    fn c25_one_sprintz() { one(sprintz(), CompressorConfig::rle().build(), 2, 3) }
    fn c25_many() { many(unc(), unc(), 3) }
    fn c25_many_gorilla() { many(CompressorConfig::gorilla().build(), unc(), 1) }
    fn c25t_many_buff() { many(buff(), sprintz(), 3) }
    fn c25t_one_buff() { one(buff(), buff(), 3, EXPRS) }
    fn c25_sides() {
        let f = encode(&[1.0], ChunkOption::Full, unc());
        let mut ds = vec![open(&f)];
        let e = if pick(2) == 0 { Expr::Literal(2.0) } else { bin(ops(), Expr::Literal(1.0), Expr::Literal(2.0)) };
        check(Aggregation::new(kind(pick(4)), e).compute(&mut ds, None, &mut SegmentedExecutionTimes::new()).is_err(), "an expression without columns is an error");
    }
}
