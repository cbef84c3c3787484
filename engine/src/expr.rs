//! Hash-consed bit-vector expression DAG (widths 1..=128) with a "wiring" normal form:
//! constant shifts, masks and zero extensions become Concat/Extract, so that bit-stream code
//! mostly simplifies syntactically before any solver is involved.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct E(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Not,
    Concat,
    Extract,
    SExt,
    Ite,
    Eq,
    Ult,
    Slt,
    Clz, // leading/trailing zero count, result width = log2(w)+1
    Ctz,
    // floating point, operands and results are IEEE bit patterns (width 32 or 64)
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FFma,
    FSqrt,
    FFloor,
    FCeil,
    FTrunc,
    FRound,
    FRint,
    FToS, // saturating, NaN -> 0
    FToU,
    SToF,
    UToF,
    FExt,
    FTrc,
    Tab, // function of a few variable bits, given by its value table
    FLog10, // uninterpreted unless the operand is constant
    FPow,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Key {
    op: Op,
    w: u16,
    a: u32,
    b: u32,
    c: u32,
    k: u128,
}

#[derive(Clone, Copy)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
    pub kz: u128, // bits known to be zero
    pub ko: u128, // bits known to be one
    pub vars: [u64; 4],
}

pub struct Ctx {
    pub n: Vec<Node>,
    map: FxMap<Key, u32>,
    pub nvars: u32,
    pub varn: Vec<(u32, u32)>, // node, width
    pub tabs: Vec<Tab>,
    tabmap: FxMap<(Vec<u32>, u16, u64), Vec<u32>>,
    pub tab_bits: u32,
}

/// Values of a term for every assignment of the listed variables (first variable in the low bits).
pub struct Tab {
    pub vars: Vec<u32>,
    pub leaves: Box<[u128]>,
}

pub fn is_fp(op: Op) -> bool {
    matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FFma | Op::FSqrt | Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRound | Op::FRint | Op::FToS | Op::FToU | Op::SToF | Op::UToF | Op::FExt | Op::FTrc | Op::FLog10 | Op::FPow)
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn fp_to_s(w: u32, fw: u32, k: u128) -> u128 {
    let x = if fw == 64 { f64::from_bits(k as u64) } else { f32::from_bits(k as u32) as f64 };
    let r: i128 = x as i128;
    let lo = -(1i128 << (w - 1));
    let hi = (1i128 << (w - 1)) - 1;
    (r.clamp(lo, hi) as u128) & mask(w)
}
pub fn fp_to_u(w: u32, fw: u32, k: u128) -> u128 {
    let x = if fw == 64 { f64::from_bits(k as u64) } else { f32::from_bits(k as u32) as f64 };
    let r: u128 = x as u128;
    r.min(mask(w))
}
fn fun2(op: Op, w: u32, a: u128, b: u128) -> u128 {
    if w == 64 {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        let r = match op {
            Op::FAdd => x + y,
            Op::FSub => x - y,
            Op::FMul => x * y,
            Op::FDiv => x / y,
            Op::FRem => x % y,
            Op::FPow => x.powf(y),
            _ => unreachable!(),
        };
        r.to_bits() as u128
    } else {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        let r = match op {
            Op::FAdd => x + y,
            Op::FSub => x - y,
            Op::FMul => x * y,
            Op::FDiv => x / y,
            Op::FRem => x % y,
            Op::FPow => x.powf(y),
            _ => unreachable!(),
        };
        r.to_bits() as u128
    }
}
fn fun1(op: Op, w: u32, a: u128) -> u128 {
    if w == 64 {
        let x = f64::from_bits(a as u64);
        let r = match op {
            Op::FSqrt => x.sqrt(),
            Op::FFloor => x.floor(),
            Op::FCeil => x.ceil(),
            Op::FTrunc => x.trunc(),
            Op::FRound => x.round(),
            Op::FRint => x.round_ties_even(),
            Op::FLog10 => x.log10(),
            _ => unreachable!(),
        };
        r.to_bits() as u128
    } else {
        let x = f32::from_bits(a as u32);
        let r = match op {
            Op::FSqrt => x.sqrt(),
            Op::FFloor => x.floor(),
            Op::FCeil => x.ceil(),
            Op::FTrunc => x.trunc(),
            Op::FRound => x.round(),
            Op::FRint => x.round_ties_even(),
            Op::FLog10 => x.log10(),
            _ => unreachable!(),
        };
        r.to_bits() as u128
    }
}
fn i_to_f(w: u32, v: i128) -> u128 {
    if w == 64 {
        (v as f64).to_bits() as u128
    } else {
        (v as f32).to_bits() as u128
    }
}
fn u_to_f(w: u32, v: u128) -> u128 {
    if w == 64 {
        (v as f64).to_bits() as u128
    } else {
        (v as f32).to_bits() as u128
    }
}

impl Ctx {
    pub fn new() -> Self {
        let tab_bits = std::env::var("VP_TAB").ok().and_then(|x| x.parse().ok()).unwrap_or(12);
        let mut c = Ctx { n: Vec::new(), map: FxMap::default(), nvars: 0, varn: Vec::new(), tabs: Vec::new(), tabmap: FxMap::default(), tab_bits };
        for i in 0..256u128 {
            let e = c.konst(i, 8);
            assert_eq!(e.0, i as u32);
        }
        c
    }
    #[inline]
    pub fn node(&self, e: E) -> &Node {
        &self.n[e.0 as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.n[e.0 as usize].w as u32
    }
    #[inline]
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = &self.n[e.0 as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn konst(&mut self, v: u128, w: u32) -> E {
        let k = v & mask(w);
        let key = Key { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k };
        if let Some(i) = self.map.get(&key) {
            return E(*i);
        }
        let id = self.n.len() as u32;
        self.n.push(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k, kz: !k & mask(w), ko: k, vars: [0; 4] });
        self.map.insert(key, id);
        E(id)
    }
    pub fn var(&mut self, w: u32) -> E {
        let v = self.nvars;
        self.nvars += 1;
        let id = self.n.len() as u32;
        let mut vars = [0u64; 4];
        let b = v.min(255);
        vars[(b / 64) as usize] |= 1 << (b % 64);
        self.n.push(Node { op: Op::Var, w: w as u16, a: v, b: 0, c: 0, k: 0, kz: 0, ko: 0, vars });
        self.varn.push((id, w));
        E(id)
    }
    /// the variables of a set, if they have at most `tab_bits` bits together
    pub fn narrow(&self, vars: &[u64; 4]) -> Option<Vec<u32>> {
        if vars[3] >> 63 != 0 {
            return None;
        }
        let mut v = Vec::new();
        let mut t = 0;
        for i in 0..4 {
            let mut x = vars[i];
            while x != 0 {
                let b = i as u32 * 64 + x.trailing_zeros();
                x &= x - 1;
                t += self.varn[b as usize].1;
                if t > self.tab_bits {
                    return None;
                }
                v.push(b);
            }
        }
        Some(v)
    }
    pub fn tab_of(&mut self, vars: Vec<u32>, w: u32, leaves: Vec<u128>) -> E {
        if leaves.iter().all(|x| *x == leaves[0]) {
            return self.konst(leaves[0], w);
        }
        let mut h = Fx::default();
        for x in &leaves {
            h.write_u128(*x);
        }
        let tk = (vars.clone(), w as u16, h.finish());
        if let Some(c) = self.tabmap.get(&tk) {
            for id in c {
                if *self.tabs[self.n[*id as usize].k as usize].leaves == *leaves {
                    return E(*id);
                }
            }
        }
        let m = mask(w);
        let (mut z, mut o) = (m, m);
        for x in &leaves {
            z &= !x;
            o &= x;
        }
        let mut vs = [0u64; 4];
        for v in &vars {
            vs[(*v / 64) as usize] |= 1 << (v % 64);
        }
        let id = self.n.len() as u32;
        self.n.push(Node { op: Op::Tab, w: w as u16, a: 0, b: 0, c: 0, k: self.tabs.len() as u128, kz: z & m, ko: o & m, vars: vs });
        self.tabs.push(Tab { vars, leaves: leaves.into_boxed_slice() });
        self.tabmap.entry(tk).or_default().push(id);
        E(id)
    }
    pub fn tab_vals(&self, e: u32, vars: &[u32], n: usize) -> Vec<u128> {
        let nd = &self.n[e as usize];
        if nd.op == Op::Const {
            return vec![nd.k; n];
        }
        if nd.op == Op::Tab {
            let t = &self.tabs[nd.k as usize];
            if t.vars == vars {
                return t.leaves.to_vec();
            }
        }
        let mut r = Vec::with_capacity(n);
        let mut model: FxMap<u32, u128> = FxMap::default();
        let mut memo: FxMap<u32, u128> = FxMap::default();
        for i in 0..n {
            let mut sh = 0;
            for v in vars {
                let w = self.varn[*v as usize].1;
                model.insert(*v, (i as u128 >> sh) & mask(w));
                sh += w;
            }
            memo.clear();
            r.push(self.eval(E(e), &model, &mut memo));
        }
        r
    }
    fn tabulate(&mut self, op: Op, w: u32, a: u32, b: u32, c: u32, vars: &[u64; 4]) -> Option<E> {
        let vl = self.narrow(vars)?;
        let bits: u32 = vl.iter().map(|v| self.varn[*v as usize].1).sum();
        let n = 1usize << bits;
        let k = Self::nargs(op);
        let va = self.tab_vals(a, &vl, n);
        let vb = if k >= 2 { self.tab_vals(b, &vl, n) } else { vec![] };
        let vc = if k >= 3 { self.tab_vals(c, &vl, n) } else { vec![] };
        let aw = self.n[a as usize].w as u32;
        let bw = if k >= 2 { self.n[b as usize].w as u32 } else { 0 };
        let m = mask(w);
        let mut out = Vec::with_capacity(n);
        for i in 0..n {
            out.push(Self::scalar(op, w, aw, bw, c, va[i], if k >= 2 { vb[i] } else { 0 }, if k >= 3 { vc[i] } else { 0 }) & m);
        }
        Some(self.tab_of(vl, w, out))
    }
    fn known(&self, op: Op, w: u32, a: u32, b: u32, c: u32) -> (u128, u128) {
        let m = mask(w);
        let g = |i: u32| {
            let n = &self.n[i as usize];
            (n.kz, n.ko)
        };
        match op {
            Op::And => {
                let (az, ao) = g(a);
                let (bz, bo) = g(b);
                (az | bz, ao & bo)
            }
            Op::Or => {
                let (az, ao) = g(a);
                let (bz, bo) = g(b);
                (az & bz, ao | bo)
            }
            Op::Xor => {
                let (az, ao) = g(a);
                let (bz, bo) = g(b);
                ((az & bz) | (ao & bo), (az & bo) | (ao & bz))
            }
            Op::Not => {
                let (az, ao) = g(a);
                (ao, az)
            }
            Op::Add | Op::Sub => {
                let (lz, lo) = g(a);
                let (mut rz, mut ro) = g(b);
                let mut carry = 0u128;
                if op == Op::Sub {
                    std::mem::swap(&mut rz, &mut ro);
                    carry = 1;
                }
                let pz = (!lz & m).wrapping_add(!rz & m).wrapping_add(carry) & m;
                let po = lo.wrapping_add(ro).wrapping_add(carry) & m;
                let ckz = !(pz ^ lz ^ rz) & m;
                let cko = (po ^ lo ^ ro) & m;
                let kn = (lz | lo) & (rz | ro) & (ckz | cko) & m;
                ((!pz) & kn & m, po & kn & m)
            }
            Op::Mul => {
                let (az, _) = g(a);
                let (bz, _) = g(b);
                let ta = (!az | !m).trailing_zeros().min(w);
                let _ = ta;
                let tza = ((!az) & m).trailing_zeros().min(w);
                let tzb = ((!bz) & m).trailing_zeros().min(w);
                let mut z = mask((tza + tzb).min(w));
                let maxa = !az & m;
                let maxb = !bz & m;
                if let Some(p) = maxa.checked_mul(maxb) {
                    if p <= m {
                        let top = 128 - p.leading_zeros();
                        z |= m & !mask(top);
                    }
                }
                (z & m, 0)
            }
            Op::UDiv => {
                let (az, _) = g(a);
                let maxa = !az & m;
                let minb = g(b).1;
                let q = if minb > 0 { maxa / minb } else { m };
                let top = 128 - q.leading_zeros();
                (m & !mask(top), 0)
            }
            Op::URem => {
                let (az, _) = g(a);
                let maxa = !az & m;
                let maxb = !g(b).0 & mask(self.n[b as usize].w as u32);
                let mut q = maxa;
                if maxb > 0 && g(b).1 > 0 {
                    q = q.min(maxb - 1)
                }
                let top = 128 - q.leading_zeros();
                (m & !mask(top), 0)
            }
            Op::Concat => {
                let (az, ao) = g(a);
                let (bz, bo) = g(b);
                let lw = self.n[b as usize].w as u32;
                ((az << lw) | bz, (ao << lw) | bo)
            }
            Op::Extract => {
                let (az, ao) = g(a);
                ((az >> c) & m, (ao >> c) & m)
            }
            Op::SExt => {
                let aw = self.n[a as usize].w as u32;
                let (az, ao) = g(a);
                let hi = m & !mask(aw);
                let s = 1u128 << (aw - 1);
                let mut z = az;
                let mut o = ao;
                if az & s != 0 {
                    z |= hi
                }
                if ao & s != 0 {
                    o |= hi
                }
                (z, o)
            }
            Op::Ite => {
                let (az, ao) = g(b);
                let (bz, bo) = g(c);
                (az & bz, ao & bo)
            }
            Op::LShr => {
                // amount unknown: leading known zeros stay
                let (az, _) = g(a);
                let maxa = !az & m;
                let minb = g(b).1;
                let top = (128 - maxa.leading_zeros()).saturating_sub(minb.min(128) as u32);
                (m & !mask(top), 0)
            }
            Op::Clz | Op::Ctz => {
                let aw = self.n[a as usize].w as u32;
                let (az, ao) = g(a);
                let (lo, hi) = if op == Op::Clz {
                    let mx = !az & mask(aw);
                    (mx.leading_zeros() - (128 - aw), if ao == 0 { aw } else { ao.leading_zeros() - (128 - aw) })
                } else {
                    let mx = !az & mask(aw);
                    (mx.trailing_zeros().min(aw), if ao == 0 { aw } else { ao.trailing_zeros() })
                };
                if lo == hi {
                    (!(lo as u128) & m, lo as u128)
                } else {
                    // common leading bits of lo and hi
                    let d = 128 - ((lo ^ hi) as u128).leading_zeros();
                    let keep = m & !mask(d);
                    (!(lo as u128) & keep, lo as u128 & keep)
                }
            }
            Op::Shl => {
                let (az, _) = g(a);
                let tz = ((!az) & m).trailing_zeros().min(w);
                (mask(tz) & m, 0)
            }
            _ => (0, 0),
        }
    }
    fn mk(&mut self, op: Op, w: u32, a: u32, b: u32, c: u32) -> E {
        debug_assert!(w >= 1 && w <= 128);
        let key = Key { op, w: w as u16, a, b, c, k: 0 };
        if let Some(i) = self.map.get(&key) {
            return E(*i);
        }
        let (kz, ko) = self.known(op, w, a, b, c);
        let m = mask(w);
        if (kz | ko) & m == m {
            let e = self.konst(ko, w);
            self.map.insert(key, e.0);
            return e;
        }
        let mut vars = self.n[a as usize].vars;
        let nargs = match op {
            Op::Not | Op::Extract | Op::SExt | Op::FSqrt | Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRound | Op::FRint | Op::FToS | Op::FToU | Op::SToF | Op::UToF | Op::FExt | Op::FTrc | Op::FLog10 | Op::Clz | Op::Ctz => 1,
            Op::Ite | Op::FFma => 3,
            _ => 2,
        };
        if nargs >= 2 {
            let v = self.n[b as usize].vars;
            for i in 0..4 {
                vars[i] |= v[i]
            }
        }
        if nargs >= 3 {
            let v = self.n[c as usize].vars;
            for i in 0..4 {
                vars[i] |= v[i]
            }
        }
        if is_fp(op) || self.n[a as usize].op == Op::Tab || (nargs >= 2 && self.n[b as usize].op == Op::Tab) || (nargs >= 3 && self.n[c as usize].op == Op::Tab) {
            if let Some(e) = self.tabulate(op, w, a, b, c, &vars) {
                self.map.insert(key, e.0);
                return e;
            }
        }
        let id = self.n.len() as u32;
        self.n.push(Node { op, w: w as u16, a, b, c, k: 0, kz: kz & m, ko: ko & m, vars });
        self.map.insert(key, id);
        E(id)
    }

    // ---- wiring ----
    pub fn pieces(&self, e: E, out: &mut Vec<E>) {
        let mut e = e;
        loop {
            let n = &self.n[e.0 as usize];
            if n.op == Op::Concat {
                let (a, b) = (n.a, n.b);
                self.pieces(E(a), out);
                e = E(b);
            } else {
                out.push(e);
                return;
            }
        }
    }
    /// hi-to-lo list
    pub fn concat_list(&mut self, ps: &[E]) -> E {
        let mut acc: Vec<E> = Vec::with_capacity(ps.len());
        for &p in ps {
            let mut cur = p;
            while let Some(&last) = acc.last() {
                if let Some(mrg) = self.try_merge(last, cur) {
                    acc.pop();
                    cur = mrg;
                } else {
                    break;
                }
            }
            acc.push(cur);
        }
        let mut r = *acc.last().unwrap();
        for &p in acc.iter().rev().skip(1) {
            let w = self.w(p) + self.w(r);
            r = self.mk(Op::Concat, w, p.0, r.0, 0);
        }
        r
    }
    fn try_merge(&mut self, a: E, b: E) -> Option<E> {
        let (na, nb) = (*self.node(a), *self.node(b));
        let w = na.w as u32 + nb.w as u32;
        if w > 128 {
            return None;
        }
        if na.op == Op::Const && nb.op == Op::Const {
            return Some(self.konst((na.k << nb.w) | nb.k, w));
        }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.c == nb.b + 1 {
            return Some(self.extract(E(na.a), na.b, nb.c));
        }
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a && na.w > 1 && nb.w > 1 {
            let t = self.concat(E(na.b), E(nb.b));
            let f = self.concat(E(na.c), E(nb.c));
            return Some(self.mk(Op::Ite, w, na.a, t.0, f.0));
        }
        None
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let mut v = Vec::new();
        self.pieces(a, &mut v);
        self.pieces(b, &mut v);
        self.concat_list(&v)
    }
    pub fn extract(&mut self, e: E, hi: u32, lo: u32) -> E {
        let n = *self.node(e);
        let w = hi - lo + 1;
        debug_assert!(hi < n.w as u32 && lo <= hi);
        if w == n.w as u32 {
            return e;
        }
        // known constant?
        let m = mask(w);
        if ((n.kz | n.ko) >> lo) & m == m {
            return self.konst(n.ko >> lo, w);
        }
        match n.op {
            Op::Const => self.konst(n.k >> lo, w),
            Op::Extract => {
                let base = E(n.a);
                self.extract(base, n.c + hi, n.c + lo)
            }
            Op::Concat => {
                let lw = self.w(E(n.b));
                if hi < lw {
                    self.extract(E(n.b), hi, lo)
                } else if lo >= lw {
                    self.extract(E(n.a), hi - lw, lo - lw)
                } else {
                    let h = self.extract(E(n.a), hi - lw, 0);
                    let l = self.extract(E(n.b), lw - 1, lo);
                    self.concat(h, l)
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let a = self.extract(E(n.a), hi, lo);
                let b = self.extract(E(n.b), hi, lo);
                match n.op {
                    Op::And => self.and(a, b),
                    Op::Or => self.or(a, b),
                    _ => self.xor(a, b),
                }
            }
            Op::Not => {
                let a = self.extract(E(n.a), hi, lo);
                self.not(a)
            }
            Op::Ite => {
                let a = self.extract(E(n.b), hi, lo);
                let b = self.extract(E(n.c), hi, lo);
                self.ite(E(n.a), a, b)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let a = self.extract(E(n.a), hi, 0);
                let b = self.extract(E(n.b), hi, 0);
                match n.op {
                    Op::Add => self.add(a, b),
                    Op::Sub => self.sub(a, b),
                    _ => self.mul(a, b),
                }
            }
            Op::SExt => {
                let aw = self.w(E(n.a));
                if hi < aw {
                    self.extract(E(n.a), hi, lo)
                } else if lo < aw {
                    let a = self.extract(E(n.a), aw - 1, lo);
                    self.sext(a, w)
                } else {
                    let s = self.extract(E(n.a), aw - 1, aw - 1);
                    self.sext(s, w)
                }
            }
            _ => self.mk(Op::Extract, w, e.0, hi, lo),
        }
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if w == ew {
            return e;
        }
        let z = self.konst(0, w - ew);
        self.concat(z, e)
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if w == ew {
            return e;
        }
        let n = *self.node(e);
        if n.op == Op::Const {
            return self.konst(sx(n.k, ew) as u128, w);
        }
        if n.kz & (1u128 << (ew - 1)) != 0 {
            return self.zext(e, w);
        }
        if n.op == Op::SExt {
            return self.sext(E(n.a), w);
        }
        if n.op == Op::Ite && (self.cv(E(n.b)).is_some() || self.cv(E(n.c)).is_some()) {
            let a = self.sext(E(n.b), w);
            let b = self.sext(E(n.c), w);
            return self.ite(E(n.a), a, b);
        }
        self.mk(Op::SExt, w, e.0, 0, 0)
    }
    pub fn trunc(&mut self, e: E, w: u32) -> E {
        if self.w(e) == w {
            return e;
        }
        self.extract(e, w - 1, 0)
    }

    // split both operands at common boundaries and combine piecewise
    fn bitwise(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (na, nb) = (*self.node(a), *self.node(b));
        let mut worth = false;
        let mut cuts: Vec<u32> = Vec::new(); // low bit positions of pieces (excl. 0)
        for (x, nx) in [(a, na), (b, nb)] {
            if nx.op == Op::Concat {
                let mut v = Vec::new();
                self.pieces(x, &mut v);
                let mut pos = 0;
                for p in v.iter().rev() {
                    if pos > 0 {
                        cuts.push(pos)
                    }
                    pos += self.w(*p);
                    if self.cv(*p).is_some() {
                        worth = true
                    }
                }
            } else if nx.op == Op::Const {
                // runs of the constant
                let w = nx.w as u32;
                let mut runs = Vec::new();
                let mut i = 1;
                while i < w {
                    if ((nx.k >> i) & 1) != ((nx.k >> (i - 1)) & 1) {
                        runs.push(i)
                    }
                    i += 1;
                }
                if runs.len() <= 6 || op == Op::And {
                    worth = true;
                    cuts.extend(runs);
                }
            }
        }
        if !worth || cuts.is_empty() {
            return None;
        }
        cuts.sort();
        cuts.dedup();
        if cuts.len() > 40 {
            return None;
        }
        let w = na.w as u32;
        cuts.push(w);
        let mut lo = 0;
        let mut out = Vec::new();
        for c in cuts {
            let pa = self.extract(a, c - 1, lo);
            let pb = self.extract(b, c - 1, lo);
            let r = match op {
                Op::And => self.and(pa, pb),
                Op::Or => self.or(pa, pb),
                _ => self.xor(pa, pb),
            };
            out.push(r);
            lo = c;
        }
        out.reverse();
        let mut flat = Vec::new();
        for o in out {
            self.pieces(o, &mut flat);
        }
        Some(self.concat_list(&flat))
    }
    fn ord(a: E, b: E) -> (E, E) {
        if a <= b {
            (a, b)
        } else {
            (b, a)
        }
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        let w = self.w(a);
        let m = mask(w);
        for (x, y) in [(a, b), (b, a)] {
            if let Some(k) = self.cv(x) {
                if k == 0 {
                    return x;
                }
                if k == m {
                    return y;
                }
            }
        }
        if w == 1 {
            // x & !x
            if self.is_not_of(a, b) {
                return self.konst(0, 1);
            }
        }
        if w > 1 {
            if let Some(r) = self.bitwise(Op::And, a, b) {
                return r;
            }
        }
        let (a, b) = Self::ord(a, b);
        self.mk(Op::And, w, a.0, b.0, 0)
    }
    fn is_not_of(&self, a: E, b: E) -> bool {
        let (na, nb) = (self.node(a), self.node(b));
        (na.op == Op::Not && na.a == b.0) || (nb.op == Op::Not && nb.a == a.0)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        let w = self.w(a);
        let m = mask(w);
        for (x, y) in [(a, b), (b, a)] {
            if let Some(k) = self.cv(x) {
                if k == 0 {
                    return y;
                }
                if k == m {
                    return x;
                }
            }
        }
        if w == 1 && self.is_not_of(a, b) {
            return self.konst(1, 1);
        }
        if w > 1 {
            if let Some(r) = self.bitwise(Op::Or, a, b) {
                return r;
            }
        }
        let (a, b) = Self::ord(a, b);
        self.mk(Op::Or, w, a.0, b.0, 0)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.konst(0, w);
        }
        let m = mask(w);
        for (x, y) in [(a, b), (b, a)] {
            if let Some(k) = self.cv(x) {
                if k == 0 {
                    return y;
                }
                if k == m {
                    return self.not(y);
                }
            }
            // (x^y)^y
            let nx = *self.node(x);
            if nx.op == Op::Xor {
                if nx.a == y.0 {
                    return E(nx.b);
                }
                if nx.b == y.0 {
                    return E(nx.a);
                }
            }
        }
        if w > 1 {
            if let Some(r) = self.bitwise(Op::Xor, a, b) {
                return r;
            }
        }
        // flatten, cancel equal leaves, collect complements and constants
        let mut lv: Vec<u32> = Vec::new();
        let mut k = 0u128;
        let mut st = vec![a.0, b.0];
        while let Some(x) = st.pop() {
            let n = self.n[x as usize];
            match n.op {
                Op::Xor => {
                    st.push(n.a);
                    st.push(n.b);
                }
                Op::Not => {
                    k ^= m;
                    st.push(n.a);
                }
                Op::Const => k ^= n.k,
                _ => lv.push(x),
            }
            if lv.len() > 24 {
                let (a, b) = Self::ord(a, b);
                return self.mk(Op::Xor, w, a.0, b.0, 0);
            }
        }
        lv.sort_unstable();
        let mut keep: Vec<u32> = Vec::with_capacity(lv.len());
        for x in lv {
            if keep.last() == Some(&x) {
                keep.pop();
            } else {
                keep.push(x);
            }
        }
        let mut it = keep.into_iter();
        let Some(f) = it.next() else {
            return self.konst(k, w);
        };
        let mut r = E(f);
        for x in it {
            r = self.mk(Op::Xor, w, r.0, x, 0);
        }
        if k == m {
            r = self.not(r);
        } else if k != 0 {
            let c = self.konst(k, w);
            r = self.mk(Op::Xor, w, r.0, c.0, 0);
        }
        r
    }
    pub fn not(&mut self, a: E) -> E {
        let n = *self.node(a);
        match n.op {
            Op::Const => self.konst(!n.k, n.w as u32),
            Op::Not => E(n.a),
            Op::Concat => {
                let mut v = Vec::new();
                self.pieces(a, &mut v);
                let v: Vec<E> = v.into_iter().map(|p| self.not(p)).collect();
                self.concat_list(&v)
            }
            Op::Ite if n.w == 1 || (self.cv(E(n.b)).is_some() && self.cv(E(n.c)).is_some()) => {
                let x = self.not(E(n.b));
                let y = self.not(E(n.c));
                self.ite(E(n.a), x, y)
            }
            _ => self.mk(Op::Not, n.w as u32, a.0, 0, 0),
        }
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return a;
            }
            if let Some(j) = self.cv(a) {
                return self.konst(j.wrapping_add(k), w);
            }
            let na = *self.node(a);
            if na.op == Op::Add {
                if let Some(j) = self.cv(E(na.b)) {
                    let s = self.konst(j.wrapping_add(k), w);
                    return self.add(E(na.a), s);
                }
            }
            if na.op == Op::Sub {
                // (c - x) + k
                if let Some(j) = self.cv(E(na.a)) {
                    let s = self.konst(j.wrapping_add(k), w);
                    return self.sub(s, E(na.b));
                }
            }
            if na.op == Op::Ite && self.cv(E(na.b)).is_some() && self.cv(E(na.c)).is_some() {
                let x = self.add(E(na.b), b);
                let y = self.add(E(na.c), b);
                return self.ite(E(na.a), x, y);
            }
        }
        // x + (y - x) = y
        for (x, y) in [(a, b), (b, a)] {
            let ny = *self.node(y);
            if ny.op == Op::Sub && ny.b == x.0 {
                return E(ny.a);
            }
        }
        let (na, nb) = (*self.node(a), *self.node(b));
        let m = mask(w);
        if (na.kz | nb.kz) & m == m {
            return self.or(a, b);
        }
        if self.cv(b).is_none() {
            let (a2, b2) = Self::ord(a, b);
            // pull constants out
            for (x, y) in [(a2, b2), (b2, a2)] {
                let nx = *self.node(x);
                if nx.op == Op::Add && self.cv(E(nx.b)).is_some() {
                    let s = self.add(E(nx.a), y);
                    return self.add(s, E(nx.b));
                }
            }
            return self.mk(Op::Add, w, a2.0, b2.0, 0);
        }
        self.mk(Op::Add, w, a.0, b.0, 0)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.konst(0, w);
        }
        if let Some(k) = self.cv(b) {
            let nk = self.konst(k.wrapping_neg(), w);
            return self.add(a, nk);
        }
        let na = *self.node(a);
        let nb = *self.node(b);
        if na.op == Op::Add {
            // (x + y) - y
            if na.b == b.0 {
                return E(na.a);
            }
            if na.a == b.0 {
                return E(na.b);
            }
        }
        if nb.op == Op::Add && self.cv(E(nb.b)).is_some() {
            // a - (x + c) = (a - x) - c
            let s = self.sub(a, E(nb.a));
            return self.sub(s, E(nb.b));
        }
        if nb.op == Op::Sub {
            // a - (a - x) = x
            if nb.a == a.0 {
                return E(nb.b);
            }
            // c1 - (c2 - x) = x + (c1-c2)
            if let (Some(c1), Some(c2)) = (self.cv(a), self.cv(E(nb.a))) {
                let k = self.konst(c1.wrapping_sub(c2), w);
                return self.add(E(nb.b), k);
            }
        }
        if self.cv(a).is_some() && nb.op == Op::Ite && self.cv(E(nb.b)).is_some() && self.cv(E(nb.c)).is_some() {
            let x = self.sub(a, E(nb.b));
            let y = self.sub(a, E(nb.c));
            return self.ite(E(nb.a), x, y);
        }
        self.mk(Op::Sub, w, a.0, b.0, 0)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.cv(b) {
            if let Some(j) = self.cv(a) {
                return self.konst(j.wrapping_mul(k), w);
            }
            if k == 0 {
                return b;
            }
            if k == 1 {
                return a;
            }
            if k.is_power_of_two() {
                let s = self.konst(k.trailing_zeros() as u128, w);
                return self.shl(a, s);
            }
            return self.mk(Op::Mul, w, a.0, b.0, 0);
        }
        let (a, b) = Self::ord(a, b);
        self.mk(Op::Mul, w, a.0, b.0, 0)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 1 {
                return a;
            }
            if k != 0 {
                if let Some(j) = self.cv(a) {
                    return self.konst(j / k, w);
                }
                if k.is_power_of_two() {
                    let s = self.konst(k.trailing_zeros() as u128, w);
                    return self.lshr(a, s);
                }
            }
        }
        self.mk(Op::UDiv, w, a.0, b.0, 0)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k != 0 {
                if let Some(j) = self.cv(a) {
                    return self.konst(j % k, w);
                }
                if k.is_power_of_two() {
                    let s = self.konst(k - 1, w);
                    return self.and(a, s);
                }
            }
        }
        self.mk(Op::URem, w, a.0, b.0, 0)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                return self.konst(sx(x, w).wrapping_div(sx(y, w)) as u128, w);
            }
        }
        let s = 1u128 << (w - 1);
        if self.node(a).kz & s != 0 && self.node(b).kz & s != 0 {
            return self.udiv(a, b);
        }
        self.mk(Op::SDiv, w, a.0, b.0, 0)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                return self.konst(sx(x, w).wrapping_rem(sx(y, w)) as u128, w);
            }
        }
        let s = 1u128 << (w - 1);
        if self.node(a).kz & s != 0 && self.node(b).kz & s != 0 {
            return self.urem(a, b);
        }
        self.mk(Op::SRem, w, a.0, b.0, 0)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.konst(0, w);
            }
            let k = k as u32;
            let h = self.extract(a, w - 1 - k, 0);
            let z = self.konst(0, k);
            return self.concat(h, z);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        self.mk(Op::Shl, w, a.0, b.0, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.konst(0, w);
            }
            let k = k as u32;
            let l = self.extract(a, w - 1, k);
            let z = self.konst(0, k);
            return self.concat(z, l);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        self.mk(Op::LShr, w, a.0, b.0, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            let k = k.min(w as u128 - 1) as u32;
            if k == 0 {
                return a;
            }
            let l = self.extract(a, w - 1, k);
            return self.sext(l, w);
        }
        if self.node(a).kz & (1u128 << (w - 1)) != 0 {
            return self.lshr(a, b);
        }
        self.mk(Op::AShr, w, a.0, b.0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.cv(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        let nc = *self.node(c);
        if nc.op == Op::Not {
            return self.ite(E(nc.a), b, a);
        }
        if w == 1 {
            let (ka, kb) = (self.cv(a), self.cv(b));
            match (ka, kb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let na = *self.node(a);
        let nb = *self.node(b);
        if na.op == Op::Ite && na.a == c.0 {
            return self.ite(c, E(na.b), b);
        }
        if nb.op == Op::Ite && nb.a == c.0 {
            return self.ite(c, a, E(nb.c));
        }
        if w > 1 {
            if na.op == Op::Const && nb.op == Op::Const {
                let d = na.k ^ nb.k;
                if d.count_ones() == 1 {
                    let i = d.trailing_zeros();
                    let bit = if na.k >> i & 1 == 1 { c } else { self.not(c) };
                    let mut v = Vec::new();
                    if i + 1 < w {
                        v.push(self.konst(na.k >> (i + 1), w - i - 1));
                    }
                    v.push(bit);
                    if i > 0 {
                        v.push(self.konst(na.k & mask(i), i));
                    }
                    return self.concat_list(&v);
                }
            } else if (na.op == Op::Concat || na.op == Op::Const || nb.op == Op::Concat || nb.op == Op::Const) && (na.op == Op::Concat || nb.op == Op::Concat) {
                // split at common boundaries; worthwhile when some piece is shared
                let mut cuts: Vec<u32> = Vec::new();
                for x in [a, b] {
                    let mut v = Vec::new();
                    self.pieces(x, &mut v);
                    let mut pos = 0;
                    for p in v.iter().rev() {
                        if pos > 0 {
                            cuts.push(pos)
                        }
                        pos += self.w(*p);
                    }
                }
                cuts.sort();
                cuts.dedup();
                if !cuts.is_empty() && cuts.len() <= 40 {
                    cuts.push(w);
                    let mut lo = 0;
                    let mut ps: Vec<(E, E)> = Vec::new();
                    let mut shared = false;
                    for k in cuts {
                        let x = self.extract(a, k - 1, lo);
                        let y = self.extract(b, k - 1, lo);
                        shared |= x == y;
                        ps.push((x, y));
                        lo = k;
                    }
                    if shared {
                        // merge neighbouring differing pieces so that each run is one ite
                        let mut out: Vec<E> = Vec::new(); // low to high
                        let mut run: Option<(E, E)> = None;
                        for (x, y) in ps {
                            if x == y {
                                if let Some((p, q)) = run.take() {
                                    let t = self.ite(c, p, q);
                                    out.push(t);
                                }
                                out.push(x);
                            } else {
                                run = Some(match run {
                                    None => (x, y),
                                    Some((p, q)) => (self.concat(x, p), self.concat(y, q)),
                                });
                            }
                        }
                        if let Some((p, q)) = run.take() {
                            let t = self.ite(c, p, q);
                            out.push(t);
                        }
                        let mut flat = Vec::new();
                        for o in out.iter().rev() {
                            self.pieces(*o, &mut flat);
                        }
                        return self.concat_list(&flat);
                    }
                }
            }
        }
        self.mk(Op::Ite, w, c.0, a.0, b.0)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.konst(1, 1);
        }
        let w = self.w(a);
        let (na, nb) = (*self.node(a), *self.node(b));
        if (na.kz & nb.ko) | (na.ko & nb.kz) != 0 {
            return self.konst(0, 1);
        }
        let (a, b, na, nb) = if na.op == Op::Const { (b, a, nb, na) } else { (a, b, na, nb) };
        if w == 1 {
            if nb.op == Op::Const {
                return if nb.k == 1 { a } else { self.not(a) };
            }
            let x = self.xor(a, b);
            return self.not(x);
        }
        if nb.op == Op::Const {
            match na.op {
                Op::Add => {
                    if let Some(j) = self.cv(E(na.b)) {
                        let k = self.konst(nb.k.wrapping_sub(j), w);
                        return self.eq(E(na.a), k);
                    }
                }
                Op::Sub => {
                    if let Some(j) = self.cv(E(na.a)) {
                        let k = self.konst(j.wrapping_sub(nb.k), w);
                        return self.eq(E(na.b), k);
                    }
                    if nb.k == 0 {
                        return self.eq(E(na.a), E(na.b));
                    }
                }
                Op::Xor => {
                    if nb.k == 0 {
                        return self.eq(E(na.a), E(na.b));
                    }
                    if let Some(j) = self.cv(E(na.b)) {
                        let k = self.konst(j ^ nb.k, w);
                        return self.eq(E(na.a), k);
                    }
                }
                Op::Not => {
                    let k = self.konst(!nb.k, w);
                    return self.eq(E(na.a), k);
                }
                Op::Clz | Op::Ctz => {
                    let x = E(na.a);
                    let xw = self.w(x);
                    let k = nb.k as u32;
                    if k > xw {
                        return self.konst(0, 1);
                    }
                    if k == xw {
                        let z = self.konst(0, xw);
                        return self.eq(x, z);
                    }
                    let bit = if na.op == Op::Clz { xw - 1 - k } else { k };
                    let mut r = self.extract(x, bit, bit);
                    if k > 0 {
                        let p = if na.op == Op::Clz { self.extract(x, xw - 1, xw - k) } else { self.extract(x, k - 1, 0) };
                        let z = self.konst(0, k);
                        let q = self.eq(p, z);
                        r = self.and(r, q);
                    }
                    return r;
                }
                Op::Ite => {
                    let (x, y) = (self.cv(E(na.b)), self.cv(E(na.c)));
                    if x.is_some() || y.is_some() {
                        let p = self.eq(E(na.b), b);
                        let q = self.eq(E(na.c), b);
                        return self.ite(E(na.a), p, q);
                    }
                }
                Op::SExt => {
                    let aw = self.w(E(na.a));
                    let t = nb.k & mask(aw);
                    if (sx(t, aw) as u128) & mask(w) != nb.k {
                        return self.konst(0, 1);
                    }
                    let k = self.konst(t, aw);
                    return self.eq(E(na.a), k);
                }
                _ => {}
            }
        }
        if na.op == Op::Concat || nb.op == Op::Concat {
            // split at the boundaries of both
            let mut cuts = Vec::new();
            for x in [a, b] {
                let mut v = Vec::new();
                self.pieces(x, &mut v);
                let mut pos = 0;
                for p in v.iter().rev() {
                    if pos > 0 {
                        cuts.push(pos)
                    }
                    pos += self.w(*p);
                }
            }
            cuts.sort();
            cuts.dedup();
            if !cuts.is_empty() && cuts.len() <= 24 {
                cuts.push(w);
                let mut lo = 0;
                let mut r = self.konst(1, 1);
                for c in cuts {
                    let pa = self.extract(a, c - 1, lo);
                    let pb = self.extract(b, c - 1, lo);
                    let q = if self.node(pa).op == Op::Concat || self.node(pb).op == Op::Concat {
                        let (x, y) = Self::ord(pa, pb);
                        if x == y { self.konst(1, 1) } else { self.mk(Op::Eq, 1, x.0, y.0, 0) }
                    } else {
                        self.eq(pa, pb)
                    };
                    r = self.and(r, q);
                    lo = c;
                }
                return r;
            }
        }
        if na.op == Op::Xor && nb.op == Op::Xor {
            // x^y == x^z
            for (p, q) in [(na.a, na.b), (na.b, na.a)] {
                for (r, s) in [(nb.a, nb.b), (nb.b, nb.a)] {
                    if p == r {
                        return self.eq(E(q), E(s));
                    }
                }
            }
        }
        let (a, b) = Self::ord(a, b);
        self.mk(Op::Eq, 1, a.0, b.0, 0)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let e = self.eq(a, b);
        self.not(e)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.konst(0, 1);
        }
        let w = self.w(a);
        let m = mask(w);
        let (na, nb) = (*self.node(a), *self.node(b));
        let (amin, amax) = (na.ko, !na.kz & m);
        let (bmin, bmax) = (nb.ko, !nb.kz & m);
        if amax < bmin {
            return self.konst(1, 1);
        }
        if amin >= bmax {
            return self.konst(0, 1);
        }
        if w == 1 {
            let n = self.not(a);
            return self.and(n, b);
        }
        if nb.op == Op::Const && nb.k == 1 {
            let z = self.konst(0, w);
            return self.eq(a, z);
        }
        if na.op == Op::Const && na.k == 0 {
            let z = self.konst(0, w);
            return self.ne(b, z);
        }
        if nb.op == Op::Const && na.op == Op::Ite && (self.cv(E(na.b)).is_some() || self.cv(E(na.c)).is_some()) {
            let p = self.ult(E(na.b), b);
            let q = self.ult(E(na.c), b);
            return self.ite(E(na.a), p, q);
        }
        if na.op == Op::Const && nb.op == Op::Ite && (self.cv(E(nb.b)).is_some() || self.cv(E(nb.c)).is_some()) {
            let p = self.ult(a, E(nb.b));
            let q = self.ult(a, E(nb.c));
            return self.ite(E(nb.a), p, q);
        }
        if nb.op == Op::Const && (na.op == Op::Clz || na.op == Op::Ctz) {
            // count < k  <=>  some one among the k outermost bits
            let x = E(na.a);
            let xw = self.w(x);
            let k = nb.k as u32;
            if k > xw {
                return self.konst(1, 1);
            }
            let p = if na.op == Op::Clz { self.extract(x, xw - 1, xw - k) } else { self.extract(x, k - 1, 0) };
            let z = self.konst(0, k);
            return self.ne(p, z);
        }
        if na.op == Op::Const && (nb.op == Op::Clz || nb.op == Op::Ctz) {
            // k < count <=> the k+1 outermost bits are zero
            let x = E(nb.a);
            let xw = self.w(x);
            let k = na.k as u32 + 1;
            if k > xw {
                return self.konst(0, 1);
            }
            let p = if nb.op == Op::Clz { self.extract(x, xw - 1, xw - k) } else { self.extract(x, k - 1, 0) };
            let z = self.konst(0, k);
            return self.eq(p, z);
        }
        // drop common known-equal high bits
        let ka = na.kz | na.ko;
        let kb = nb.kz | nb.ko;
        let mut h = w;
        while h > 1 && (ka >> (h - 1)) & 1 == 1 && (kb >> (h - 1)) & 1 == 1 && (na.ko >> (h - 1)) & 1 == (nb.ko >> (h - 1)) & 1 {
            h -= 1;
        }
        if h < w {
            let x = self.extract(a, h - 1, 0);
            let y = self.extract(b, h - 1, 0);
            return self.ult(x, y);
        }
        if nb.op == Op::Const && nb.k.is_power_of_two() {
            // a < 2^k  <=>  high bits zero
            let k = nb.k.trailing_zeros();
            let hi = self.extract(a, w - 1, k);
            let z = self.konst(0, w - k);
            return self.eq(hi, z);
        }
        if na.op == Op::Const && (na.k + 1).is_power_of_two() && na.k != m {
            // 2^k-1 < b <=> high bits nonzero
            let k = (na.k + 1).trailing_zeros();
            let hi = self.extract(b, w - 1, k);
            let z = self.konst(0, w - k);
            return self.ne(hi, z);
        }
        self.mk(Op::Ult, 1, a.0, b.0, 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let r = self.ult(b, a);
        self.not(r)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.konst(0, 1);
        }
        let w = self.w(a);
        let s = 1u128 << (w - 1);
        let (na, nb) = (*self.node(a), *self.node(b));
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.konst((sx(x, w) < sx(y, w)) as u128, 1);
        }
        if na.kz & s != 0 && nb.kz & s != 0 {
            return self.ult(a, b);
        }
        if na.ko & s != 0 && nb.ko & s != 0 {
            return self.ult(a, b);
        }
        if na.ko & s != 0 && nb.kz & s != 0 {
            return self.konst(1, 1);
        }
        if na.kz & s != 0 && nb.ko & s != 0 {
            return self.konst(0, 1);
        }
        if nb.op == Op::Const && nb.k == 0 {
            return self.extract(a, w - 1, w - 1);
        }
        if na.op == Op::Const && na.k == mask(w) {
            // -1 < b  <=> b >= 0
            let e = self.extract(b, w - 1, w - 1);
            return self.not(e);
        }
        if nb.op == Op::Const && na.op == Op::Ite && (self.cv(E(na.b)).is_some() || self.cv(E(na.c)).is_some()) {
            let p = self.slt(E(na.b), b);
            let q = self.slt(E(na.c), b);
            return self.ite(E(na.a), p, q);
        }
        self.mk(Op::Slt, 1, a.0, b.0, 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let r = self.slt(b, a);
        self.not(r)
    }
    pub fn bool_ite(&mut self, c: E, w: u32, t: u128, f: u128) -> E {
        let a = self.konst(t, w);
        let b = self.konst(f, w);
        self.ite(c, a, b)
    }
    pub fn ctlz(&mut self, a: E) -> E {
        let w = self.w(a);
        if w.is_power_of_two() && w >= 8 {
            let lw = w.trailing_zeros() + 1;
            let r = match self.cv(a) {
                Some(v) => self.konst((v.leading_zeros() - (128 - w)) as u128, lw),
                None => self.mk(Op::Clz, lw, a.0, 0, 0),
            };
            return self.zext(r, w);
        }
        // build from low to high: start with w
        let mut r = self.konst(w as u128, w);
        let n = *self.node(a);
        for i in 0..w {
            // bit i set => lz = w-1-i (higher bits override)
            if (n.kz >> i) & 1 == 1 {
                continue;
            }
            let b = self.extract(a, i, i);
            let v = self.konst((w - 1 - i) as u128, w);
            r = self.ite(b, v, r);
        }
        r
    }
    pub fn cttz(&mut self, a: E) -> E {
        let w = self.w(a);
        if w.is_power_of_two() && w >= 8 {
            let lw = w.trailing_zeros() + 1;
            let r = match self.cv(a) {
                Some(v) => self.konst(v.trailing_zeros().min(w) as u128, lw),
                None => self.mk(Op::Ctz, lw, a.0, 0, 0),
            };
            return self.zext(r, w);
        }
        let mut r = self.konst(w as u128, w);
        let n = *self.node(a);
        for i in (0..w).rev() {
            if (n.kz >> i) & 1 == 1 {
                continue;
            }
            let b = self.extract(a, i, i);
            let v = self.konst(i as u128, w);
            r = self.ite(b, v, r);
        }
        r
    }
    pub fn ctpop(&mut self, a: E) -> E {
        let w = self.w(a);
        let mut r = self.konst(0, w);
        for i in 0..w {
            let b = self.extract(a, i, i);
            let z = if w == 1 { b } else { self.zext(b, w) };
            r = self.add(r, z);
        }
        r
    }
    pub fn bswap(&mut self, a: E) -> E {
        let w = self.w(a);
        let mut v = Vec::new();
        let mut i = 0;
        while i < w {
            let p = self.extract(a, i + 7, i);
            self.pieces(p, &mut v);
            i += 8;
        }
        self.concat_list(&v)
    }
    pub fn bitreverse(&mut self, a: E) -> E {
        let w = self.w(a);
        let mut v = Vec::new();
        for i in 0..w {
            let p = self.extract(a, i, i);
            v.push(p);
        }
        self.concat_list(&v)
    }

    // ---- floating point ----
    pub fn f2(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.konst(fun2(op, w, x, y), w);
        }
        self.mk(op, w, a.0, b.0, 0)
    }
    pub fn f1(&mut self, op: Op, a: E) -> E {
        let w = self.w(a);
        if let Some(x) = self.cv(a) {
            return self.konst(fun1(op, w, x), w);
        }
        let na = *self.node(a);
        // integral results are fixpoints of rounding
        if matches!(op, Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRound | Op::FRint)
            && matches!(na.op, Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRound | Op::FRint)
        {
            return a;
        }
        self.mk(op, w, a.0, 0, 0)
    }
    pub fn ffma(&mut self, a: E, b: E, c: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y), Some(z)) = (self.cv(a), self.cv(b), self.cv(c)) {
            let r = if w == 64 {
                f64::from_bits(x as u64).mul_add(f64::from_bits(y as u64), f64::from_bits(z as u64)).to_bits() as u128
            } else {
                f32::from_bits(x as u32).mul_add(f32::from_bits(y as u32), f32::from_bits(z as u32)).to_bits() as u128
            };
            return self.konst(r, w);
        }
        self.mk(Op::FFma, w, a.0, b.0, c.0)
    }
    pub fn fneg(&mut self, a: E) -> E {
        let w = self.w(a);
        let k = self.konst(1u128 << (w - 1), w);
        self.xor(a, k)
    }
    pub fn fabs(&mut self, a: E) -> E {
        let w = self.w(a);
        let k = self.konst(mask(w - 1), w);
        self.and(a, k)
    }
    fn inf(w: u32) -> u128 {
        if w == 64 {
            0x7ff0_0000_0000_0000
        } else {
            0x7f80_0000
        }
    }
    pub fn fnan(&mut self, a: E) -> E {
        let w = self.w(a);
        let n = *self.node(a);
        match n.op {
            Op::SToF | Op::UToF => return self.konst(0, 1),
            Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRound | Op::FRint | Op::FExt | Op::FTrc => return self.fnan(E(n.a)),
            _ => {}
        }
        let m = self.extract(a, w - 2, 0);
        let i = self.konst(Self::inf(w), w - 1);
        self.ult(i, m)
    }
    pub fn feq(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let na = self.fnan(a);
        let nb = self.fnan(b);
        let un = self.or(na, nb);
        let same = self.eq(a, b);
        let ma = self.extract(a, w - 2, 0);
        let mb = self.extract(b, w - 2, 0);
        let z = self.konst(0, w - 1);
        let za = self.eq(ma, z);
        let zb = self.eq(mb, z);
        let bz = self.and(za, zb);
        let r = self.or(same, bz);
        let nun = self.not(un);
        self.and(nun, r)
    }
    pub fn flt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let na = self.fnan(a);
        let nb = self.fnan(b);
        let un = self.or(na, nb);
        let nun = self.not(un);
        let sa = self.extract(a, w - 1, w - 1);
        let sb = self.extract(b, w - 1, w - 1);
        let ma = self.extract(a, w - 2, 0);
        let mb = self.extract(b, w - 2, 0);
        let z = self.konst(0, w - 1);
        let za = self.eq(ma, z);
        let zb = self.eq(mb, z);
        let bz = self.and(za, zb);
        let nbz = self.not(bz);
        let ltm = self.ult(ma, mb);
        let gtm = self.ult(mb, ma);
        let nsb = self.not(sb);
        let nsa = self.not(sa);
        // sa=1,sb=0 : !bothzero ; sa=0,sb=1: false ; 00: ltm ; 11: gtm
        let c10 = self.and(nsb, nbz);
        let c11 = self.and(sb, gtm);
        let neg = self.or(c10, c11);
        let pos = self.and(nsb, ltm);
        let x = self.and(sa, neg);
        let y = self.and(nsa, pos);
        let r = self.or(x, y);
        self.and(nun, r)
    }
    pub fn fle(&mut self, a: E, b: E) -> E {
        let l = self.flt(a, b);
        let e = self.feq(a, b);
        self.or(l, e)
    }
    pub fn f_to_i(&mut self, a: E, w: u32, signed: bool) -> E {
        let fw = self.w(a);
        if let Some(x) = self.cv(a) {
            let v = if signed { fp_to_s(w, fw, x) } else { fp_to_u(w, fw, x) };
            return self.konst(v, w);
        }
        let n = *self.node(a);
        // exact round trip of small integers through double
        if (n.op == Op::SToF || n.op == Op::UToF) && fw == 64 {
            let iw = self.w(E(n.a));
            let src = E(n.a);
            let sn = *self.node(src);
            let m = mask(iw);
            // magnitude known < 2^53 and fits
            let top = 128 - (!sn.kz & m).leading_zeros(); // unsigned bits used
            let nonneg = n.op == Op::UToF || sn.kz & (1u128 << (iw - 1)) != 0;
            if nonneg && top <= 53 && top < w + (!signed as u32) {
                return if iw >= w { self.trunc(src, w) } else { self.zext(src, w) };
            }
            if n.op == Op::SToF && signed && iw <= 32 && w >= iw {
                return self.sext(src, w);
            }
        }
        self.mk(if signed { Op::FToS } else { Op::FToU }, w, a.0, 0, 0)
    }
    pub fn i_to_f(&mut self, a: E, w: u32, signed: bool) -> E {
        let iw = self.w(a);
        if let Some(x) = self.cv(a) {
            let v = if signed { i_to_f(w, sx(x, iw)) } else { u_to_f(w, x) };
            return self.konst(v, w);
        }
        let signed = signed && self.node(a).kz & (1u128 << (iw - 1)) == 0;
        self.mk(if signed { Op::SToF } else { Op::UToF }, w, a.0, 0, 0)
    }
    pub fn f_cvt(&mut self, a: E, w: u32) -> E {
        let fw = self.w(a);
        if fw == w {
            return a;
        }
        if let Some(x) = self.cv(a) {
            let v = if w == 64 { (f32::from_bits(x as u32) as f64).to_bits() as u128 } else { (f64::from_bits(x as u64) as f32).to_bits() as u128 };
            return self.konst(v, w);
        }
        self.mk(if w == 64 { Op::FExt } else { Op::FTrc }, w, a.0, 0, 0)
    }

    pub fn nargs(op: Op) -> u32 {
        match op {
            Op::Const | Op::Var | Op::Tab => 0,
            Op::Not | Op::Extract | Op::SExt | Op::FSqrt | Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRound | Op::FRint | Op::FToS | Op::FToU | Op::SToF | Op::UToF | Op::FExt | Op::FTrc | Op::FLog10 | Op::Clz | Op::Ctz => 1,
            Op::Ite | Op::FFma => 3,
            _ => 2,
        }
    }
    pub fn rebuild(&mut self, op: Op, w: u32, a: E, b: E, c: E, nb: u32, nc: u32) -> E {
        match op {
            Op::Add => self.add(a, b),
            Op::Sub => self.sub(a, b),
            Op::Mul => self.mul(a, b),
            Op::UDiv => self.udiv(a, b),
            Op::SDiv => self.sdiv(a, b),
            Op::URem => self.urem(a, b),
            Op::SRem => self.srem(a, b),
            Op::Shl => self.shl(a, b),
            Op::LShr => self.lshr(a, b),
            Op::AShr => self.ashr(a, b),
            Op::And => self.and(a, b),
            Op::Or => self.or(a, b),
            Op::Xor => self.xor(a, b),
            Op::Not => self.not(a),
            Op::Concat => self.concat(a, b),
            Op::Extract => self.extract(a, nb, nc),
            Op::SExt => self.sext(a, w),
            Op::Ite => self.ite(a, b, c),
            Op::Eq => self.eq(a, b),
            Op::Ult => self.ult(a, b),
            Op::Slt => self.slt(a, b),
            Op::Clz => {
                let r = self.ctlz(a);
                self.trunc(r, w)
            }
            Op::Ctz => {
                let r = self.cttz(a);
                self.trunc(r, w)
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FPow => self.f2(op, a, b),
            Op::FFma => self.ffma(a, b, c),
            Op::FSqrt | Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRound | Op::FRint | Op::FLog10 => self.f1(op, a),
            Op::FToS => self.f_to_i(a, w, true),
            Op::FToU => self.f_to_i(a, w, false),
            Op::SToF => self.i_to_f(a, w, true),
            Op::UToF => self.i_to_f(a, w, false),
            Op::FExt | Op::FTrc => self.f_cvt(a, w),
            Op::Const | Op::Var | Op::Tab => unreachable!(),
        }
    }
    /// simplify under facts: `known` maps nodes to constants, `vb` known bits of variables
    pub fn subst(&mut self, e: E, kv: &[u64; 4], known: &FxMap<u32, u128>, vb: &FxMap<u32, (u128, u128)>, memo: &mut FxMap<u32, E>) -> E {
        let n = self.n[e.0 as usize];
        if n.op == Op::Const || (0..4).all(|i| n.vars[i] & kv[i] == 0) {
            return e;
        }
        if let Some(r) = memo.get(&e.0) {
            return *r;
        }
        let r = if let Some(v) = known.get(&e.0) {
            self.konst(*v, n.w as u32)
        } else if n.op == Op::Tab {
            let t = &self.tabs[n.k as usize];
            let (mut kn, mut on, mut sh) = (0usize, 0usize, 0);
            for v in &t.vars {
                if let Some((z, o)) = vb.get(v) {
                    kn |= ((z | o) as usize) << sh;
                    on |= (*o as usize) << sh;
                }
                sh += self.varn[*v as usize].1;
            }
            if kn == 0 {
                e
            } else {
                let l: Vec<u128> = (0..t.leaves.len()).map(|i| t.leaves[i & !kn | on]).collect();
                let vs = t.vars.clone();
                self.tab_of(vs, n.w as u32, l)
            }
        } else if n.op == Op::Var {
            match vb.get(&n.a) {
                None => e,
                Some((z, o)) => {
                    let w = n.w as u32;
                    let kn = z | o;
                    if kn == 0 {
                        e
                    } else {
                        let mut ps = Vec::new(); // high to low
                        let mut hi = w;
                        while hi > 0 {
                            let b = kn >> (hi - 1) & 1;
                            let mut lo = hi - 1;
                            while lo > 0 && (kn >> (lo - 1) & 1) == b {
                                lo -= 1;
                            }
                            ps.push(if b == 1 { self.konst(o >> lo, hi - lo) } else { self.extract(e, hi - 1, lo) });
                            hi = lo;
                        }
                        self.concat_list(&ps)
                    }
                }
            }
        } else {
            let k = Self::nargs(n.op);
            let a = self.subst(E(n.a), kv, known, vb, memo);
            // short-circuit decided conditionals
            if n.op == Op::Ite && self.cv(a).is_some() {
                let t = if self.cv(a) != Some(0) { n.b } else { n.c };
                self.subst(E(t), kv, known, vb, memo)
            } else {
                let b = if k >= 2 { self.subst(E(n.b), kv, known, vb, memo) } else { E(n.b) };
                let c = if k >= 3 { self.subst(E(n.c), kv, known, vb, memo) } else { E(n.c) };
                if a.0 == n.a && (k < 2 || b.0 == n.b) && (k < 3 || c.0 == n.c) {
                    e
                } else {
                    let r = self.rebuild(n.op, n.w as u32, a, b, c, n.b, n.c);
                    match known.get(&r.0) {
                        Some(v) if self.cv(r).is_none() => self.konst(*v, n.w as u32),
                        _ => r,
                    }
                }
            }
        };
        memo.insert(e.0, r);
        r
    }

    /// short rendering for diagnostics
    pub fn brief(&self, e: E, d: u32) -> String {
        let n = &self.n[e.0 as usize];
        match n.op {
            Op::Const => format!("{:x}", n.k),
            Op::Var => format!("v{}", n.a),
            Op::Tab => format!("T{:?}w{}", self.tabs[n.k as usize].vars, n.w),
            _ if d == 0 => "..".into(),
            Op::Extract => format!("{}[{}+{}]", self.brief(E(n.a), d), n.c, n.w),
            op => {
                let k = Self::nargs(op);
                let mut v = vec![self.brief(E(n.a), d - 1)];
                if k >= 2 {
                    v.push(self.brief(E(n.b), d - 1));
                }
                if k >= 3 {
                    v.push(self.brief(E(n.c), d - 1));
                }
                format!("{:?}({})", op, v.join(","))
            }
        }
    }

    // ---- evaluation under an assignment ----
    pub fn eval(&self, e: E, model: &FxMap<u32, u128>, memo: &mut FxMap<u32, u128>) -> u128 {
        let n = &self.n[e.0 as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return model.get(&n.a).copied().unwrap_or(0) & mask(n.w as u32),
            _ => {}
        }
        if let Some(v) = memo.get(&e.0) {
            return *v;
        }
        let w = n.w as u32;
        let (na, nb, nc) = (n.a, n.b, n.c);
        let k = Self::nargs(n.op);
        let r = if n.op == Op::Tab {
            let t = &self.tabs[n.k as usize];
            let mut i = 0usize;
            let mut sh = 0;
            for v in &t.vars {
                let vw = self.varn[*v as usize].1;
                i |= ((model.get(v).copied().unwrap_or(0) & mask(vw)) as usize) << sh;
                sh += vw;
            }
            t.leaves[i]
        } else {
            let x = self.eval(E(na), model, memo);
            if n.op == Op::Ite {
                self.eval(E(if x != 0 { nb } else { nc }), model, memo)
            } else {
                let y = if k >= 2 { self.eval(E(nb), model, memo) } else { 0 };
                let z = if k >= 3 { self.eval(E(nc), model, memo) } else { 0 };
                let bw = if k >= 2 { self.n[nb as usize].w as u32 } else { 0 };
                Self::scalar(n.op, w, self.n[na as usize].w as u32, bw, nc, x, y, z) & mask(w)
            }
        };
        memo.insert(e.0, r);
        r
    }
    /// one operator on concrete operands (`nc`: low bit of an extract)
    fn scalar(op: Op, w: u32, aw: u32, bw: u32, nc: u32, x: u128, y: u128, z: u128) -> u128 {
        let m = mask(w);
        match op {
            Op::Const | Op::Var | Op::Tab => unreachable!(),
            Op::Add => x.wrapping_add(y),
            Op::Sub => x.wrapping_sub(y),
            Op::Mul => x.wrapping_mul(y),
            Op::UDiv => {
                let b = y;
                if b == 0 { m } else { x / b }
            }
            Op::URem => {
                let b = y;
                if b == 0 { x } else { x % b }
            }
            Op::SDiv => {
                let b = sx(y, w);
                let a = sx(x, w);
                if b == 0 { if a >= 0 { m } else { 1 } } else { a.wrapping_div(b) as u128 }
            }
            Op::SRem => {
                let b = sx(y, w);
                let a = sx(x, w);
                if b == 0 { a as u128 } else { a.wrapping_rem(b) as u128 }
            }
            Op::Shl => {
                let b = y;
                if b >= w as u128 { 0 } else { x << b }
            }
            Op::LShr => {
                let b = y;
                if b >= w as u128 { 0 } else { x >> b }
            }
            Op::AShr => {
                let b = y.min(w as u128 - 1);
                (sx(x, w) >> b) as u128
            }
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Not => !x,
            Op::Concat => (x << bw) | y,
            Op::Extract => x >> nc,
            Op::SExt => sx(x, aw) as u128,
            Op::Ite => {
                if x != 0 {
                    y
                } else {
                    z
                }
            }
            Op::Eq => (x == y) as u128,
            Op::Ult => (x < y) as u128,
            Op::Slt => {
                let aw = aw;
                (sx(x, aw) < sx(y, aw)) as u128
            }
            Op::Clz => (x.leading_zeros() - (128 - aw)) as u128,
            Op::Ctz => x.trailing_zeros().min(aw) as u128,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FPow => fun2(op, w, x, y),
            Op::FFma => {
                if w == 64 {
                    f64::from_bits(x as u64).mul_add(f64::from_bits(y as u64), f64::from_bits(z as u64)).to_bits() as u128
                } else {
                    f32::from_bits(x as u32).mul_add(f32::from_bits(y as u32), f32::from_bits(z as u32)).to_bits() as u128
                }
            }
            Op::FSqrt | Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRound | Op::FRint | Op::FLog10 => fun1(op, w, x),
            Op::FToS => fp_to_s(w, aw, x),
            Op::FToU => fp_to_u(w, aw, x),
            Op::SToF => i_to_f(w, sx(x, aw)),
            Op::UToF => u_to_f(w, x),
            Op::FExt => (f32::from_bits(x as u32) as f64).to_bits() as u128,
            Op::FTrc => (f64::from_bits(x as u64) as f32).to_bits() as u128,
        }
    }
}
