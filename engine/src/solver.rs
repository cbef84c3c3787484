//! SMT-LIB back end: one z3 process, queries sliced by shared variables, counterexample cache.
use crate::expr::*;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

pub type Model = FxMap<u32, u128>;

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,     // asked of the SMT solver
    pub cache_hits: u64,  // answered from the query cache
    pub model_hits: u64,  // answered sat by re-using an earlier model
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: Duration,
    pub max_query: Duration,
    pub fp_queries: u64,
    pub finite: u64, // decided by value tables
}
pub struct Solver {
    child: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    pub timeout_ms: u64,
    pub stats: Stats,
    cache: FxMap<Vec<E>, Option<Model>>, // None = unsat
    models: Vec<Model>,
    sets: FxMap<(u32, Vec<u32>), Vec<u64>>,
    pub confirm: bool, // have z3 repeat every verdict of `finite`
    mpos: usize,
    pub bin: String,
    pub dump: Option<String>,
    pub last_unknown: String,
}

fn bw(w: u32) -> String {
    format!("(_ BitVec {w})")
}
fn lit(k: u128, w: u32) -> String {
    if w % 4 == 0 {
        format!("#x{:0>n$x}", k, n = (w / 4) as usize)
    } else {
        format!("#b{:0>n$b}", k, n = w as usize)
    }
}

struct Emit<'a> {
    cx: &'a Ctx,
    out: String,
    done: FxMap<u32, ()>,
    vars: Vec<(u32, u32)>,
    pub fp: bool,
    pub inexact: bool,
}
impl<'a> Emit<'a> {
    // reference as bit-vector
    fn r(&self, e: u32) -> String {
        let n = self.cx.node(E(e));
        if n.op == Op::Const {
            return lit(n.k, n.w as u32);
        }
        if n.w == 1 {
            return format!("(ite {} #b1 #b0)", self.rb(e));
        }
        if n.op == Op::Var {
            return format!("v{}", n.a);
        }
        format!("n{e}")
    }
    // reference as Bool (width 1)
    fn rb(&self, e: u32) -> String {
        let n = self.cx.node(E(e));
        match n.op {
            Op::Const => (if n.k != 0 { "true" } else { "false" }).to_string(),
            Op::Var => format!("v{}", n.a),
            _ => format!("n{e}"),
        }
    }
    fn fp(&self, e: u32) -> String {
        let w = self.cx.w(E(e));
        if w == 64 {
            format!("((_ to_fp 11 53) {})", self.r(e))
        } else {
            format!("((_ to_fp 8 24) {})", self.r(e))
        }
    }
    /// nested conditionals over the variable bits, equal halves shared
    fn table(&self, n: &crate::expr::Node) -> String {
        let t = &self.cx.tabs[n.k as usize];
        let mut bit: Vec<String> = Vec::new();
        for v in &t.vars {
            let w = self.cx.varn[*v as usize].1;
            for i in 0..w {
                bit.push(if w == 1 { format!("v{v}") } else { format!("(= ((_ extract {i} {i}) v{v}) #b1)") });
            }
        }
        fn go(l: &[u128], bit: &[String], w: u32, out: &mut String) {
            if l.iter().all(|x| *x == l[0]) {
                if w == 1 {
                    out.push_str(if l[0] != 0 { "true" } else { "false" });
                } else {
                    out.push_str(&lit(l[0], w));
                }
                return;
            }
            let h = l.len() / 2;
            if l[..h] == l[h..] {
                return go(&l[..h], &bit[..bit.len() - 1], w, out);
            }
            out.push_str("(ite ");
            out.push_str(&bit[bit.len() - 1]);
            out.push(' ');
            go(&l[h..], &bit[..bit.len() - 1], w, out);
            out.push(' ');
            go(&l[..h], &bit[..bit.len() - 1], w, out);
            out.push(')');
        }
        let mut s = String::new();
        go(&t.leaves, &bit, n.w as u32, &mut s);
        s
    }
    fn visit(&mut self, root: u32) {
        let mut st: Vec<(u32, bool)> = vec![(root, false)];
        while let Some((e, ex)) = st.pop() {
            if self.done.contains_key(&e) {
                continue;
            }
            let n = *self.cx.node(E(e));
            if n.op == Op::Const {
                continue;
            }
            if n.op == Op::Var {
                self.done.insert(e, ());
                self.vars.push((n.a, n.w as u32));
                let s = if n.w == 1 { "Bool".to_string() } else { bw(n.w as u32) };
                self.out.push_str(&format!("(declare-fun v{} () {})\n", n.a, s));
                continue;
            }
            if n.op == Op::Tab && !ex {
                st.push((e, true));
                for v in &self.cx.tabs[n.k as usize].vars {
                    st.push((self.cx.varn[*v as usize].0, false));
                }
                continue;
            }
            if n.op == Op::Tab {
                self.done.insert(e, ());
                let body = self.table(&n);
                let w = n.w as u32;
                let s = if w == 1 { "Bool".to_string() } else { bw(w) };
                self.out.push_str(&format!("(define-fun n{e} () {s} {body})\n"));
                continue;
            }
            if !ex {
                st.push((e, true));
                match n.op {
                    Op::Not | Op::Extract | Op::SExt | Op::FSqrt | Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRound | Op::FRint | Op::FToS | Op::FToU | Op::SToF | Op::UToF | Op::FExt | Op::FTrc | Op::FLog10 | Op::Clz | Op::Ctz => st.push((n.a, false)),
                    Op::Ite | Op::FFma => {
                        st.push((n.a, false));
                        st.push((n.b, false));
                        st.push((n.c, false));
                    }
                    _ => {
                        st.push((n.a, false));
                        st.push((n.b, false));
                    }
                }
                continue;
            }
            self.done.insert(e, ());
            let w = n.w as u32;
            let d = |op: &str, s: &Self| format!("({op} {} {})", s.r(n.a), s.r(n.b));
            let db = |op: &str, s: &Self| format!("({op} {} {})", s.rb(n.a), s.rb(n.b));
            let body = if w == 1 {
                match n.op {
                    Op::And => db("and", self),
                    Op::Or => db("or", self),
                    Op::Xor | Op::Add | Op::Sub => db("xor", self),
                    Op::Mul => db("and", self),
                    Op::Not => format!("(not {})", self.rb(n.a)),
                    Op::Ite => format!("(ite {} {} {})", self.rb(n.a), self.rb(n.b), self.rb(n.c)),
                    Op::Eq => {
                        if self.cx.w(E(n.a)) == 1 {
                            db("=", self)
                        } else {
                            d("=", self)
                        }
                    }
                    Op::Ult => d("bvult", self),
                    Op::Slt => d("bvslt", self),
                    Op::Extract => format!("(= ((_ extract {} {}) {}) #b1)", n.b, n.c, self.r(n.a)),
                    _ => panic!("smt width-1 op {:?}", n.op),
                }
            } else {
                match n.op {
                    Op::Add => d("bvadd", self),
                    Op::Sub => d("bvsub", self),
                    Op::Mul => d("bvmul", self),
                    Op::UDiv => d("bvudiv", self),
                    Op::SDiv => d("bvsdiv", self),
                    Op::URem => d("bvurem", self),
                    Op::SRem => d("bvsrem", self),
                    Op::Shl => d("bvshl", self),
                    Op::LShr => d("bvlshr", self),
                    Op::AShr => d("bvashr", self),
                    Op::And => d("bvand", self),
                    Op::Or => d("bvor", self),
                    Op::Xor => d("bvxor", self),
                    Op::Not => format!("(bvnot {})", self.r(n.a)),
                    Op::Concat => d("concat", self),
                    Op::Extract => format!("((_ extract {} {}) {})", n.b, n.c, self.r(n.a)),
                    Op::SExt => format!("((_ sign_extend {}) {})", w - self.cx.w(E(n.a)), self.r(n.a)),
                    Op::Ite => format!("(ite {} {} {})", self.rb(n.a), self.r(n.b), self.r(n.c)),
                    Op::Clz | Op::Ctz => {
                        let mut cur = self.r(n.a);
                        let xw = self.cx.w(E(n.a));
                        let zero = format!("(= {cur} {})", lit(0, xw));
                        let mut h = xw / 2;
                        let mut bits = String::new();
                        while h >= 1 {
                            let (near, far) = if n.op == Op::Clz { (format!("((_ extract {} {h}) {cur})", 2 * h - 1), format!("((_ extract {} 0) {cur})", h - 1)) } else { (format!("((_ extract {} 0) {cur})", h - 1), format!("((_ extract {} {h}) {cur})", 2 * h - 1)) };
                            self.out.push_str(&format!("(define-fun n{e}c{h} () Bool (= {near} {}))\n(define-fun n{e}y{h} () {} (ite n{e}c{h} {far} {near}))\n", lit(0, h), bw(h)));
                            bits.push_str(&format!(" (ite n{e}c{h} #b1 #b0)"));
                            cur = format!("n{e}y{h}");
                            h /= 2;
                        }
                        format!("(ite {zero} {} (concat #b0{bits}))", lit(xw as u128, w))
                    }
                    Op::FToS | Op::FToU => {
                        self.fp = true;
                        let fw = self.cx.w(E(n.a));
                        let x = self.fp(n.a);
                        let (eb, sb) = if fw == 64 { (11, 53) } else { (8, 24) };
                        if n.op == Op::FToS {
                            let lo = 1u128 << (w - 1);
                            let hi = lo - 1;
                            let flo = format!("((_ to_fp {eb} {sb}) RNE {})", lit(lo, w)); // signed min, exact
                            let fhi = format!("((_ to_fp_unsigned {eb} {sb}) RNE {})", lit(lo, w)); // 2^(w-1)
                            format!("(ite (fp.isNaN {x}) {} (ite (fp.leq {x} {flo}) {} (ite (fp.geq {x} {fhi}) {} ((_ fp.to_sbv {w}) RTZ {x}))))", lit(0, w), lit(lo, w), lit(hi, w))
                        } else {
                            let fhi = format!("((_ to_fp_unsigned {eb} {sb}) RNE {})", lit(1u128 << w, w + 1));
                            format!("(ite (or (fp.isNaN {x}) (fp.isNegative {x})) {} (ite (fp.geq {x} {fhi}) {} ((_ fp.to_ubv {w}) RTZ {x})))", lit(0, w), lit(mask(w), w))
                        }
                    }
                    Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FFma | Op::FSqrt | Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRound | Op::FRint | Op::SToF | Op::UToF | Op::FExt | Op::FTrc => {
                        self.fp = true;
                        let (eb, sb) = if w == 64 { (11, 53) } else { (8, 24) };
                        let t = match n.op {
                            Op::FAdd => format!("(fp.add RNE {} {})", self.fp(n.a), self.fp(n.b)),
                            Op::FSub => format!("(fp.sub RNE {} {})", self.fp(n.a), self.fp(n.b)),
                            Op::FMul => format!("(fp.mul RNE {} {})", self.fp(n.a), self.fp(n.b)),
                            Op::FDiv => format!("(fp.div RNE {} {})", self.fp(n.a), self.fp(n.b)),
                            Op::FFma => format!("(fp.fma RNE {} {} {})", self.fp(n.a), self.fp(n.b), self.fp(n.c)),
                            Op::FSqrt => format!("(fp.sqrt RNE {})", self.fp(n.a)),
                            Op::FFloor => format!("(fp.roundToIntegral RTN {})", self.fp(n.a)),
                            Op::FCeil => format!("(fp.roundToIntegral RTP {})", self.fp(n.a)),
                            Op::FTrunc => format!("(fp.roundToIntegral RTZ {})", self.fp(n.a)),
                            Op::FRound => format!("(fp.roundToIntegral RNA {})", self.fp(n.a)),
                            Op::FRint => format!("(fp.roundToIntegral RNE {})", self.fp(n.a)),
                            Op::SToF => format!("((_ to_fp {eb} {sb}) RNE {})", self.r(n.a)),
                            Op::UToF => format!("((_ to_fp_unsigned {eb} {sb}) RNE {})", self.r(n.a)),
                            Op::FExt | Op::FTrc => format!("((_ to_fp {eb} {sb}) RNE {})", self.fp(n.a)),
                            _ => unreachable!(),
                        };
                        self.out.push_str(&format!("(declare-fun n{e} () {})\n(assert (= ((_ to_fp {eb} {sb}) n{e}) {t}))\n", bw(w)));
                        continue;
                    }
                    Op::FRem | Op::FLog10 | Op::FPow => {
                        self.inexact = true;
                        self.out.push_str(&format!("(declare-fun n{e} () {})\n", bw(w)));
                        continue;
                    }
                    _ => panic!("smt op {:?}", n.op),
                }
            };
            let s = if w == 1 { "Bool".to_string() } else { bw(w) };
            self.out.push_str(&format!("(define-fun n{e} () {s} {body})\n"));
        }
    }
}

impl Solver {
    pub fn new() -> Self {
        Solver {
            child: None,
            timeout_ms: 30000,
            stats: Stats::default(),
            cache: FxMap::default(),
            models: Vec::new(),
            sets: FxMap::default(),
            confirm: std::env::var("VP_CONFIRM").is_ok(),
            mpos: 0,
            bin: std::env::var("VP_SOLVER").unwrap_or_else(|_| "z3-new".into()),
            dump: std::env::var("VP_DUMP").ok(),
            last_unknown: String::new(),
        }
    }
    /// after fork(2): do not share the parent's solver process
    pub fn detach(&mut self) {
        self.child = None; // closes our copies of the pipe ends, leaves the process alone
        self.stats = Stats::default();
    }
    fn spawn(&mut self) {
        let mut c = Command::new(&self.bin).arg("-in").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| panic!("cannot start {}: {e}", self.bin));
        let i = c.stdin.take().unwrap();
        let o = BufReader::with_capacity(1 << 16, c.stdout.take().unwrap());
        self.child = Some((c, i, o));
    }
    pub fn quit(&mut self) {
        self.kill();
    }
    fn kill(&mut self) {
        if let Some((mut c, _, _)) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    /// conj of constraints; returns result and model for the variables involved
    fn raw(&mut self, cx: &Ctx, cs: &[E]) -> (Res, Model) {
        let mut em = Emit { cx, out: String::with_capacity(4096), done: FxMap::default(), vars: vec![], fp: false, inexact: false };
        for c in cs {
            em.visit(c.0);
        }
        for c in cs {
            let r = em.rb(c.0);
            em.out.push_str(&format!("(assert {r})\n"));
        }
        let logic = if em.fp { "QF_BVFP" } else { "QF_BV" };
        let q = format!("(reset)\n(set-option :timeout {})\n(set-logic {logic})\n{}(check-sat)\n", self.timeout_ms, em.out);
        self.stats.queries += 1;
        if em.fp {
            self.stats.fp_queries += 1;
        }
        let t0 = Instant::now();
        if let Some(d) = &self.dump {
            let _ = std::fs::write(format!("{d}/q{}_{}.smt2", std::process::id(), self.stats.queries), &q);
        }
        if self.child.is_none() {
            self.spawn();
        }
        let mut line = String::new();
        let ok = {
            let (_, i, o) = self.child.as_mut().unwrap();
            i.write_all(q.as_bytes()).and_then(|_| i.flush()).is_ok() && o.read_line(&mut line).is_ok()
        };
        let mut model = Model::default();
        let res = match line.trim() {
            _ if !ok => Res::Unknown,
            "sat" => Res::Sat,
            "unsat" => Res::Unsat,
            _ => Res::Unknown,
        };
        if res == Res::Unknown {
            self.last_unknown = format!("solver said {:?}", line.trim());
            self.kill();
        }
        if res == Res::Sat && !em.vars.is_empty() {
            let (_, i, o) = self.child.as_mut().unwrap();
            let mut g = String::from("(get-value (");
            for (v, _) in &em.vars {
                g.push_str(&format!("v{v} "));
            }
            g.push_str("))\n");
            let _ = i.write_all(g.as_bytes());
            let _ = i.flush();
            let mut txt = String::new();
            let mut depth = 0i32;
            loop {
                let mut l = String::new();
                if o.read_line(&mut l).unwrap_or(0) == 0 {
                    break;
                }
                for c in l.bytes() {
                    if c == b'(' {
                        depth += 1
                    }
                    if c == b')' {
                        depth -= 1
                    }
                }
                txt.push_str(&l);
                if depth <= 0 {
                    break;
                }
            }
            let cleaned: String = txt.chars().map(|c| if c == '(' || c == ')' { ' ' } else { c }).collect();
            let tk: Vec<&str> = cleaned.split_whitespace().collect();
            let mut k = 0;
            while k + 1 < tk.len() {
                if let Some(v) = tk[k].strip_prefix('v').and_then(|s| s.parse::<u32>().ok()) {
                    let s = tk[k + 1];
                    let val = if let Some(h) = s.strip_prefix("#x") {
                        u128::from_str_radix(h, 16).ok()
                    } else if let Some(b) = s.strip_prefix("#b") {
                        u128::from_str_radix(b, 2).ok()
                    } else if s == "true" {
                        Some(1)
                    } else if s == "false" {
                        Some(0)
                    } else {
                        None
                    };
                    if let Some(x) = val {
                        model.insert(v, x);
                    }
                    k += 2;
                } else {
                    k += 1;
                }
            }
        }
        let dt = t0.elapsed();
        self.stats.time += dt;
        self.stats.max_query = self.stats.max_query.max(dt);
        match res {
            Res::Sat => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        (res, model)
    }

    fn holds(cx: &Ctx, cs: &[E], m: &Model) -> bool {
        let mut memo = FxMap::default();
        cs.iter().all(|c| cx.eval(*c, m, &mut memo) != 0)
    }

    /// cheap search: flip single bits / set fields the condition looks at
    fn mutate(&self, cx: &Ctx, cs: &[E], extra: E, base: &Model) -> Option<Model> {
        let mut leaves: Vec<(u32, u32, u32)> = Vec::new();
        let mut st = vec![extra.0];
        let mut seen: FxMap<u32, ()> = FxMap::default();
        while let Some(e) = st.pop() {
            if seen.len() > 60 || leaves.len() >= 6 {
                break;
            }
            if seen.insert(e, ()).is_some() {
                continue;
            }
            let n = cx.node(E(e));
            if n.op == Op::Extract && cx.node(E(n.a)).op == Op::Var {
                leaves.push((cx.node(E(n.a)).a, n.c, n.w as u32));
                continue;
            }
            if n.op == Op::Var {
                leaves.push((n.a, 0, n.w as u32));
                continue;
            }
            let k = Ctx::nargs(n.op);
            if k >= 1 {
                st.push(n.a)
            }
            if k >= 2 {
                st.push(n.b)
            }
            if k >= 3 {
                st.push(n.c)
            }
        }
        for (v, lo, w) in leaves {
            let cur = base.get(&v).copied().unwrap_or(0);
            let m = mask(w) << lo;
            for nv in [cur ^ (1u128 << lo), cur ^ (1u128 << (lo + w - 1)), cur & !m, cur | m] {
                if nv == cur {
                    continue;
                }
                let mut md = base.clone();
                md.insert(v, nv);
                if Self::holds(cx, cs, &md) {
                    return Some(md);
                }
            }
        }
        None
    }

    /// Is pc ∧ extra satisfiable?  `base` is a model of pc; on Sat the result is a model of everything.
    /// decide a conjunction over few variable bits with the value tables of its members
    fn finite(&mut self, cx: &Ctx, cs: &[E], vl: &[u32]) -> Option<Model> {
        let bits: u32 = vl.iter().map(|v| cx.varn[*v as usize].1).sum();
        let n = 1usize << bits;
        let mut acc = vec![u64::MAX; n.div_ceil(64)];
        if n < 64 {
            acc[0] = (1u64 << n) - 1;
        }
        for c in cs {
            let key = (c.0, vl.to_vec());
            if !self.sets.contains_key(&key) {
                let v = cx.tab_vals(c.0, vl, n);
                let mut b = vec![0u64; n.div_ceil(64)];
                for (i, x) in v.iter().enumerate() {
                    if *x != 0 {
                        b[i / 64] |= 1 << (i % 64);
                    }
                }
                self.sets.insert(key.clone(), b);
            }
            for (a, b) in acc.iter_mut().zip(&self.sets[&key]) {
                *a &= b;
            }
        }
        let (i, w) = acc.iter().enumerate().find(|(_, w)| **w != 0)?;
        let mut i = i * 64 + w.trailing_zeros() as usize;
        let mut m = Model::default();
        for v in vl {
            let w = cx.varn[*v as usize].1;
            m.insert(*v, i as u128 & mask(w));
            i >>= w;
        }
        Some(m)
    }
    pub fn check(&mut self, cx: &Ctx, pc: &[E], extra: E, base: &Model) -> (Res, Model) {
        // slice
        let mut vs = cx.node(extra).vars;
        let mut picked: Vec<bool> = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, c) in pc.iter().enumerate() {
                if !picked[i] {
                    let v = cx.node(*c).vars;
                    if (0..4).any(|k| v[k] & vs[k] != 0) {
                        picked[i] = true;
                        for k in 0..4 {
                            vs[k] |= v[k];
                        }
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut cs: Vec<E> = pc.iter().enumerate().filter(|(i, _)| picked[*i]).map(|(_, c)| *c).collect();
        cs.push(extra);
        cs.sort();
        cs.dedup();
        let merge = |m: &Model| {
            let mut r = base.clone();
            for (k, v) in m {
                r.insert(*k, *v);
            }
            r
        };
        if let Some(r) = self.cache.get(&cs) {
            self.stats.cache_hits += 1;
            return match r {
                None => (Res::Unsat, Model::default()),
                Some(m) => (Res::Sat, merge(m)),
            };
        }
        if let Some(vl) = cx.narrow(&vs).filter(|_| cs.iter().any(|c| cx.node(*c).op == Op::Tab)) {
            let m = self.finite(cx, &cs, &vl);
            if self.confirm {
                let (r, _) = self.raw(cx, &cs);
                if (r == Res::Sat) != m.is_some() {
                    self.last_unknown = format!("value table and solver disagree ({r:?})");
                    self.stats.unknown += 1;
                    return (Res::Unknown, Model::default());
                }
            }
            let r = match &m {
                Some(m) => (Res::Sat, merge(m)),
                None => (Res::Unsat, Model::default()),
            };
            self.stats.finite += 1;
            self.cache.insert(cs, m);
            return r;
        }
        for k in 0..self.models.len() {
            let i = (self.mpos + self.models.len() - k) % self.models.len();
            if Self::holds(cx, &cs, &self.models[i]) {
                self.stats.model_hits += 1;
                let m: Model = self.models[i].iter().filter(|(v, _)| {
                    let b = (**v).min(255);
                    vs[(b / 64) as usize] >> (b % 64) & 1 == 1
                }).map(|(a, b)| (*a, *b)).collect();
                let r = merge(&m);
                // variables that share the last bucket may clash: verify
                if Self::holds(cx, &cs, &r) {
                    return (Res::Sat, r);
                }
            }
        }
        if let Some(m) = self.mutate(cx, &cs, extra, base) {
            self.stats.model_hits += 1;
            return (Res::Sat, m);
        }
        let (res, m) = self.raw(cx, &cs);
        match res {
            Res::Unsat => {
                self.cache.insert(cs, None);
                (Res::Unsat, Model::default())
            }
            Res::Sat => {
                let r = merge(&m);
                if !Self::holds(cx, &cs, &r) {
                    self.last_unknown = "model does not validate (uninterpreted or NaN-payload float operation)".into();
                    self.stats.unknown += 1;
                    return (Res::Unknown, Model::default());
                }
                self.cache.insert(cs, Some(m.clone()));
                if self.models.len() < 24 {
                    self.models.push(m);
                    self.mpos = self.models.len() - 1;
                } else {
                    self.mpos = (self.mpos + 1) % self.models.len();
                    let p = self.mpos;
                    self.models[p] = m;
                }
                (Res::Sat, r)
            }
            Res::Unknown => (Res::Unknown, Model::default()),
        }
    }
}
