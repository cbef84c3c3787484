//! Path-forking symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

pub const PG: usize = 64;
type Page = [E; PG];
pub const UNINIT: E = E(0xAA);

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pages: Vec<Rc<Page>>,
    log: Vec<(E, E, u32)>, // symbolic-address stores: address, value, bytes
    ro: bool,
}
impl Obj {
    #[inline]
    fn get(&self, off: u64) -> E {
        self.pages[off as usize / PG][off as usize % PG]
    }
    #[inline]
    fn set(&mut self, off: u64, e: E) {
        let p = Rc::make_mut(&mut self.pages[off as usize / PG]);
        p[off as usize % PG] = e;
    }
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    block: u32,
    ip: u32,
    regs: Vec<E>,
    allocas: Vec<u64>,
    dst: u32,
    nd: u32,
    dest: Option<u32>,
}
const NOREG: E = E(u32::MAX);

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    heap: Vec<Rc<Obj>>, // sorted by base
    gmem: FxMap<u32, Rc<Obj>>,
    next: u64,
    pc: Vec<E>,
    known: FxMap<u32, u128>,
    vb: FxMap<u32, (u128, u128)>,
    kvars: [u64; 4],
    kver: u64,
    pub model: Model,
    pub draws: Vec<(E, u32)>,
    pub obs: Vec<E>,
    allow_panic: bool,
    clock: u64,
    steps: u64,
    depth_forks: u32,
    want: u64,
}

pub enum Stop {
    Done,           // harness returned
    Infeasible,     // assumption cannot hold
    AllowedPanic,
    Violation(String, String), // kind, message
    Bug(String),    // engine limitation
    NoMerge,        // speculation abandoned
    Retry,          // instruction to be re-executed (known map changed)
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Normal,
    Panic,
    Skip,
    Builtin,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub infeasible: u64,
    pub allowed_panics: u64,
    pub checks: u64,
    pub checks_trivial: u64,
    pub steps: u64,
    pub forks: u64,
    pub funcs: BTreeSet<String>,
    pub covers: BTreeMap<String, u64>,
    pub samples: Vec<(Vec<(u32, u128)>, Vec<u64>)>,
    pub violation: Option<(String, String, Vec<String>, Vec<(u32, u128)>)>,
    pub incomplete: Vec<String>,
    pub pending: u64,
    pub maxdraws: usize,
    pub maxpc: usize,
    pub merges: u64,
    pub merge_fail: u64,
}

pub struct Exec {
    pub cx: Ctx,
    pub m: Module,
    pub sv: Solver,
    pub work: Vec<State>,
    pub rep: Report,
    kinds: HashMap<Rc<str>, Kind>,
    gbase: HashMap<u32, Rc<Obj>>,
    fill: HashMap<E, Rc<Page>>,
    fseen: FxMap<u32, ()>,
    pub mdbg: bool,
    qdbg: bool,
    /// addresses of one-byte stores in the speculative runs under way (data rather than positions)
    spec_narrow: FxMap<u64, ()>,
    pub nsamples: usize,
    pub sample_every: u64,
    pub max_steps: u64,
    pub deadline: Instant,
    vars: FxMap<(usize, u32), E>, // variables by draw position and width: paths share nodes
    pub panic_site: String,
    kctr: u64,
    smemo: (u64, FxMap<u32, E>),
    spec: u32,
    ipd: HashMap<u32, Rc<Vec<u32>>>,
    pub merge: bool,
}

type R<T> = Result<T, Stop>;

impl Exec {
    pub fn new(cx: Ctx, m: Module) -> Self {
        Exec {
            cx,
            m,
            sv: Solver::new(),
            work: vec![],
            rep: Report::default(),
            kinds: HashMap::new(),
            gbase: HashMap::new(),
            fill: HashMap::new(),
            fseen: FxMap::default(),
            spec_narrow: FxMap::default(),
            qdbg: std::env::var("VP_QDBG").is_ok(),
            mdbg: std::env::var("VP_MDBG").is_ok(),
            nsamples: 40,
            sample_every: 1,
            max_steps: 200_000_000,
            deadline: Instant::now(),
            vars: Default::default(),
            panic_site: String::new(),
            kctr: 0,
            smemo: (0, FxMap::default()),
            spec: 0,
            ipd: HashMap::new(),
            merge: std::env::var("VP_NOMERGE").is_err(),
        }
    }
    pub fn clear_seen(&mut self) {
        self.fseen.clear();
    }
    pub fn start(&mut self, name: &str) -> Result<(), String> {
        let f = self.m.func(&mut self.cx, name).ok_or_else(|| format!("no harness function {name}"))?;
        let fr = Frame { regs: vec![NOREG; f.nslots as usize], f, block: 0, ip: 0, allocas: vec![], dst: u32::MAX, nd: 0, dest: None };
        self.work.push(State {
            frames: vec![Rc::new(fr)],
            heap: vec![],
            gmem: FxMap::default(),
            next: 0x1_0000_0000,
            pc: vec![],
            known: FxMap::default(),
            vb: FxMap::default(),
            kvars: [0; 4],
            kver: 0,
            model: Model::default(),
            draws: vec![],
            obs: vec![],
            allow_panic: false,
            clock: 1_000_000,
            steps: 0,
            depth_forks: 0,
            want: 0,
        });
        Ok(())
    }
    fn fillpage(&mut self, e: E) -> Rc<Page> {
        self.fill.entry(e).or_insert_with(|| Rc::new([e; PG])).clone()
    }
    fn mkobj(&mut self, base: u64, size: u64, init: E, ro: bool) -> Obj {
        let p = self.fillpage(init);
        let n = (size as usize + PG - 1) / PG;
        Obj { base, size, pages: vec![p; n], log: vec![], ro }
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, init: E) -> u64 {
        let al = align.max(16);
        st.next = (st.next + al - 1) / al * al;
        let b = st.next;
        st.next += size + 32;
        let o = self.mkobj(b, size, init, false);
        st.heap.push(Rc::new(o));
        b
    }
    fn hidx(st: &State, a: u64) -> Option<usize> {
        // last object with base <= a
        let n = st.heap.partition_point(|o| o.base <= a);
        if n == 0 {
            return None;
        }
        let o = &st.heap[n - 1];
        if a < o.base + o.size || (a == o.base && o.size == 0) {
            Some(n - 1)
        } else {
            None
        }
    }
    fn gidx(&self, a: u64) -> Option<usize> {
        let n = self.m.globals.partition_point(|g| g.addr <= a);
        if n == 0 {
            return None;
        }
        let g = &self.m.globals[n - 1];
        if a < g.addr + g.size {
            Some(n - 1)
        } else {
            None
        }
    }
    fn gobj(&mut self, gi: usize) -> Rc<Obj> {
        if let Some(o) = self.gbase.get(&(gi as u32)) {
            return o.clone();
        }
        let b = self.m.global_bytes(&mut self.cx, gi);
        let (addr, size, ro) = {
            let g = &self.m.globals[gi];
            (g.addr, g.size, g.constant)
        };
        let mut o = self.mkobj(addr, size, E(0), ro);
        for (i, e) in b.iter().enumerate() {
            if e.0 != 0 {
                o.set(i as u64, *e);
            }
        }
        let r = Rc::new(o);
        self.gbase.insert(gi as u32, r.clone());
        r
    }
    /// the object containing [a, a+n)
    fn find(&mut self, st: &State, a: u64, n: u64) -> Option<Rc<Obj>> {
        let o = if a >= 0x1_0000_0000 {
            st.heap[Self::hidx(st, a)?].clone()
        } else if a >= 0x1000_0000 {
            let gi = self.gidx(a)?;
            if let Some(o) = st.gmem.get(&(gi as u32)) {
                o.clone()
            } else {
                self.gobj(gi)
            }
        } else {
            return None;
        };
        if a - o.base + n <= o.size {
            Some(o)
        } else {
            None
        }
    }
    fn with_mut<T>(&mut self, st: &mut State, a: u64, n: u64, f: impl FnOnce(&mut Exec, &mut Obj) -> T) -> R<T> {
        if a >= 0x1_0000_0000 {
            if let Some(i) = Self::hidx(st, a) {
                if a - st.heap[i].base + n <= st.heap[i].size {
                    let mut rc = std::mem::replace(&mut st.heap[i], Rc::new(Obj { base: 0, size: 0, pages: vec![], log: vec![], ro: false }));
                    let r = f(self, Rc::make_mut(&mut rc));
                    st.heap[i] = rc;
                    return Ok(r);
                }
            }
        } else if a >= 0x1000_0000 {
            if let Some(gi) = self.gidx(a) {
                let mut rc = match st.gmem.remove(&(gi as u32)) {
                    Some(o) => o,
                    None => self.gobj(gi),
                };
                if !rc.ro && a - rc.base + n <= rc.size {
                    let r = f(self, Rc::make_mut(&mut rc));
                    st.gmem.insert(gi as u32, rc);
                    return Ok(r);
                }
            }
        }
        Err(Stop::Violation("memory".into(), format!("invalid write of {n} bytes at {a:#x}")))
    }
    fn join(&mut self, bytes: &[E]) -> E {
        // bytes low to high
        if bytes.len() == 1 {
            return bytes[0];
        }
        if bytes.iter().all(|b| b.0 < 256) {
            let mut v = 0u128;
            for (i, b) in bytes.iter().enumerate() {
                v |= (b.0 as u128) << (8 * i);
            }
            return self.cx.konst(v, bytes.len() as u32 * 8);
        }
        let mut ps = Vec::with_capacity(bytes.len());
        for b in bytes.iter().rev() {
            self.cx.pieces(*b, &mut ps);
        }
        self.cx.concat_list(&ps)
    }
    /// the variable of width w for the i-th draw of a path
    fn drawn(&mut self, i: usize, w: u32) -> E {
        if let Some(v) = self.vars.get(&(i, w)) {
            return *v;
        }
        let v = self.cx.var(w);
        self.vars.insert((i, w), v);
        v
    }
    fn obj_read(&mut self, o: &Obj, a: u64, n: u32) -> E {
        let off = a - o.base;
        let mut b = [E(0); 16];
        for i in 0..n as usize {
            b[i] = o.get(off + i as u64);
        }
        self.join(&b[..n as usize])
    }
    fn aligned_log(&self, o: &Obj, n: u32) -> bool {
        n.is_power_of_two() && o.log.iter().all(|(_, _, k)| *k == n)
    }
    fn low_zero(&self, e: E, n: u32) -> bool {
        let nd = self.cx.node(e);
        let m = (n - 1) as u128;
        nd.kz & m == m
    }
    /// read n bytes at a concrete address
    fn read_c(&mut self, st: &mut State, a: u64, n: u32) -> R<E> {
        let o = match self.find(st, a, n as u64) {
            Some(o) => o,
            None => return Err(Stop::Violation("memory".into(), format!("invalid read of {n} bytes at {a:#x}"))),
        };
        if o.log.is_empty() {
            return Ok(self.obj_read(&o, a, n));
        }
        if !(self.aligned_log(&o, n) && a % n as u64 == 0) {
            self.flush(st, a)?;
            let o = self.find(st, a, n as u64).unwrap();
            return Ok(self.obj_read(&o, a, n));
        }
        let mut v = self.obj_read(&o, a, n);
        let ae = self.cx.konst(a as u128, 64);
        for (la, lv, _) in o.log.iter() {
            let c = self.cx.eq(*la, ae);
            v = self.cx.ite(c, *lv, v);
        }
        Ok(v)
    }
    /// make every symbolic-address store of the object concrete
    fn flush(&mut self, st: &mut State, a: u64) -> R<()> {
        let o = self.find(st, a, 0).unwrap();
        let mut conc = Vec::new();
        for (la, lv, n) in o.log.iter() {
            let x = self.conc(st, *la)? as u64;
            conc.push((x, *lv, *n));
        }
        drop(o);
        self.with_mut(st, a, 0, |ex, o| {
            o.log.clear();
            for (x, v, n) in conc {
                ex.obj_write(o, x, v, n);
            }
        })?;
        Ok(())
    }
    fn obj_write(&mut self, o: &mut Obj, a: u64, v: E, n: u32) {
        let off = a - o.base;
        if n == 1 {
            o.set(off, v);
            return;
        }
        for i in 0..n {
            let b = self.cx.extract(v, i * 8 + 7, i * 8);
            o.set(off + i as u64, b);
        }
    }
    fn write_c(&mut self, st: &mut State, a: u64, v: E, n: u32) -> R<()> {
        if let Some(o) = self.find(st, a, n as u64) {
            if !o.log.is_empty() {
                if self.aligned_log(&o, n) && a % n as u64 == 0 {
                    let ae = self.cx.konst(a as u128, 64);
                    return self.with_mut(st, a, n as u64, |_, o| o.log.push((ae, v, n)));
                }
                drop(o);
                self.flush(st, a)?;
            }
        }
        self.with_mut(st, a, n as u64, |ex, o| ex.obj_write(o, a, v, n))
    }
    /// pin a symbolic address to one object (forking off other objects), returns the object
    fn resolve(&mut self, st: &mut State, addr: E, n: u64, what: &str) -> R<Rc<Obj>> {
        let mut memo = FxMap::default();
        let a0 = self.cx.eval(addr, &st.model, &mut memo) as u64;
        let o = match self.find(st, a0, n) {
            Some(o) => o,
            None => return Err(Stop::Violation("memory".into(), format!("invalid {what} of {n} bytes at symbolic address (e.g. {a0:#x})"))),
        };
        let b = self.cx.konst(o.base as u128, 64);
        let off = self.cx.sub(addr, b);
        let lim = self.cx.konst((o.size - n + 1) as u128, 64);
        let inr = self.cx.ult(off, lim);
        if !self.must(st, inr)? {
            return Err(Stop::Retry);
        }
        Ok(o)
    }
    fn ask(&mut self, st: &State, extra: E, _m: &Model) -> (Res, Model) {
        let q0 = self.sv.stats.queries;
        let r = self.sv.check(&self.cx, &st.pc, extra, &st.model);
        if self.qdbg && self.sv.stats.queries != q0 {
            let w: Vec<String> = st.frames.iter().rev().take(2).map(|f| format!("{}#{}:{}", demangle(&f.f.name).rsplit("::").next().unwrap_or(""), f.block, f.ip)).collect();
            eprintln!("Q {:?} {} spec{} {}", r.0, w.join(" <- "), self.spec, self.cx.brief(extra, 5));
        }
        r
    }
    /// assert c (true under the current model); forks the complement if feasible. Ok(true) always.
    fn must(&mut self, st: &mut State, c: E) -> R<bool> {
        if self.truth(st, c) == Some(true) {
            return Ok(true);
        }
        let c = self.simp(st, c);
        if self.truth(st, c) == Some(true) {
            return Ok(true);
        }
        let nc = self.cx.not(c);
        let (r, m) = self.ask(st, nc, &st.model);
        match r {
            Res::Unsat => {
                self.learn(st, c, true);
            }
            Res::Sat => {
                if self.spec > 0 {
                    return Err(Stop::NoMerge);
                }
                let mut sib = st.clone();
                self.add_pc(&mut sib, nc);
                sib.model = m;
                sib.depth_forks += 1;
                self.rep.forks += 1;
                self.work.push(sib);
                self.add_pc(st, c);
            }
            Res::Unknown => return Err(Stop::Bug(format!("solver unknown: {}", self.sv.last_unknown))),
        }
        Ok(true)
    }
    fn candidates(&mut self, o: &Obj, addr: E, n: u32) -> Option<(E, Vec<(u64, E)>)> {
        // stride from known low bits of the offset
        let b = self.cx.konst(o.base as u128, 64);
        let off = self.cx.sub(addr, b);
        let nd = *self.cx.node(off);
        let kn = nd.kz | nd.ko;
        let mut s = 0;
        while s < 12 && kn >> s & 1 == 1 {
            s += 1;
        }
        let stride = 1u64 << s;
        let phase = (nd.ko & mask(s)) as u64;
        let maxoff = (!nd.kz & mask(64)) as u64;
        let minoff = nd.ko as u64;
        let mut cnt: HashMap<E, u32> = HashMap::new();
        let mut all: Vec<(u64, E)> = Vec::new();
        let mut uni: Option<(Rc<Page>, E)> = None;
        let mut k = phase;
        while k + n as u64 <= o.size && k <= maxoff {
            if k < minoff {
                k += stride;
                continue;
            }
            let pg = &o.pages[k as usize / PG];
            let inpage = k as usize % PG + n as usize <= PG;
            // shared uniform page: skip in one go
            if inpage {
                if let Some((u, e)) = &uni {
                    if Rc::ptr_eq(u, pg) {
                        *cnt.entry(*e).or_insert(0) += 1000;
                        let nextpage = (k as usize / PG + 1) * PG;
                        while (k as usize) < nextpage {
                            k += stride;
                        }
                        continue;
                    }
                }
            }
            let v = self.obj_read(o, o.base + k, n);
            if inpage && self.fill.values().any(|p| Rc::ptr_eq(p, pg)) {
                uni = Some((pg.clone(), v));
                continue;
            }
            *cnt.entry(v).or_insert(0) += 1;
            all.push((k, v));
            if all.len() > 5000 {
                return None;
            }
            k += stride;
        }
        if cnt.is_empty() {
            return None;
        }
        let def = *cnt.iter().max_by_key(|(e, c)| (**c, u32::MAX - e.0)).unwrap().0;
        let rest: Vec<(u64, E)> = all.into_iter().filter(|(_, v)| *v != def).collect();
        Some((def, rest))
    }
    fn read(&mut self, st: &mut State, addr: E, n: u32) -> R<E> {
        if let Some(a) = self.cx.cv(addr) {
            return self.read_c(st, a as u64, n);
        }
        if let Some(a) = st.known.get(&addr.0) {
            let a = *a as u64;
            return self.read_c(st, a, n);
        }
        // pointer choices: concretise
        if n <= 16 {
            let o = self.resolve(st, addr, n as u64, "read")?;
            let logok = o.log.is_empty() || (self.aligned_log(&o, n) && self.low_zero(addr, n));
            if logok {
                if let Some((def, rest)) = self.candidates(&o, addr, n) {
                    if rest.len() <= 260 {
                        let mut v = def;
                        // group runs with equal value
                        for (k, x) in rest {
                            let ke = self.cx.konst((o.base + k) as u128, 64);
                            let c = self.cx.eq(addr, ke);
                            v = self.cx.ite(c, x, v);
                        }
                        for (la, lv, _) in o.log.iter() {
                            let c = self.cx.eq(*la, addr);
                            v = self.cx.ite(c, *lv, v);
                        }
                        return Ok(v);
                    }
                }
            }
        }
        let a = self.conc(st, addr)? as u64;
        self.read_c(st, a, n)
    }
    fn write(&mut self, st: &mut State, addr: E, v: E, n: u32) -> R<()> {
        if let Some(a) = self.cx.cv(addr) {
            return self.write_c(st, a as u64, v, n);
        }
        if let Some(a) = st.known.get(&addr.0) {
            let a = *a as u64;
            return self.write_c(st, a, v, n);
        }
        let o = self.resolve(st, addr, n as u64, "write")?;
        if o.ro {
            return Err(Stop::Violation("memory".into(), "write to constant".into()));
        }
        if n.is_power_of_two() && self.low_zero(addr, n) && o.size > 64 && (o.log.is_empty() || self.aligned_log(&o, n)) && o.base % n as u64 == 0 {
            let b = o.base;
            drop(o);
            return self.with_mut(st, b, 0, |_, o| o.log.push((addr, v, n)));
        }
        drop(o);
        let a = self.conc(st, addr)? as u64;
        self.write_c(st, a, v, n)
    }
    fn truth(&self, st: &State, c: E) -> Option<bool> {
        if let Some(v) = self.cx.cv(c) {
            return Some(v != 0);
        }
        st.known.get(&c.0).map(|v| *v != 0)
    }
    fn fact(&mut self, st: &mut State, e: E, v: u128) {
        if self.cx.cv(e).is_some() {
            return;
        }
        st.known.insert(e.0, v);
        let n = *self.cx.node(e);
        for i in 0..4 {
            st.kvars[i] |= n.vars[i];
        }
        self.kctr += 1;
        st.kver = self.kctr;
        let m = mask(n.w as u32);
        self.bits(st, e, !v & m, v & m, 0);
    }
    /// bits z of e are zero and bits o are one on this path: push that down to the variables
    fn bits(&mut self, st: &mut State, e: E, z: u128, o: u128, depth: u32) {
        if z | o == 0 || depth > 40 {
            return;
        }
        let n = *self.cx.node(e);
        let (a, b) = (E(n.a), E(n.b));
        match n.op {
            Op::Var => {
                let t = st.vb.entry(n.a).or_insert((0, 0));
                t.0 |= z;
                t.1 |= o;
            }
            Op::Tab => {
                let t = &self.cx.tabs[n.k as usize];
                let (mut zz, mut oo, mut any) = (usize::MAX, usize::MAX, false);
                for (i, l) in t.leaves.iter().enumerate() {
                    if l & z == 0 && l & o == o {
                        zz &= !i;
                        oo &= i;
                        any = true;
                    }
                }
                if any {
                    let mut sh = 0;
                    for v in t.vars.clone() {
                        let (node, w) = self.cx.varn[v as usize];
                        self.bits(st, E(node), (zz >> sh) as u128 & mask(w), (oo >> sh) as u128 & mask(w), depth + 1);
                        sh += w;
                    }
                }
            }
            Op::Extract => self.bits(st, a, z << n.c, o << n.c, depth + 1),
            Op::Concat => {
                let lw = self.cx.w(b);
                let lm = mask(lw);
                self.bits(st, a, z >> lw, o >> lw, depth + 1);
                self.bits(st, b, z & lm, o & lm, depth + 1);
            }
            Op::Not => self.bits(st, a, o, z, depth + 1),
            Op::Xor => {
                let (k, x) = match (self.cx.cv(a), self.cx.cv(b)) {
                    (Some(k), _) => (k, b),
                    (_, Some(k)) => (k, a),
                    _ => return,
                };
                self.bits(st, x, (z & !k) | (o & k), (o & !k) | (z & k), depth + 1);
            }
            Op::And => {
                let (na, nb) = (*self.cx.node(a), *self.cx.node(b));
                self.bits(st, a, z & nb.ko, o, depth + 1);
                self.bits(st, b, z & na.ko, o, depth + 1);
            }
            Op::Or => {
                let (na, nb) = (*self.cx.node(a), *self.cx.node(b));
                self.bits(st, a, z, o & nb.kz, depth + 1);
                self.bits(st, b, z, o & na.kz, depth + 1);
            }
            Op::Eq if o == 1 => {
                let m = mask(self.cx.w(a));
                let (na, nb) = (*self.cx.node(a), *self.cx.node(b));
                self.bits(st, a, nb.kz & m, nb.ko & m, depth + 1);
                self.bits(st, b, na.kz & m, na.ko & m, depth + 1);
            }
            Op::Eq if z == 1 && self.cx.w(a) == 1 => {
                let (na, nb) = (*self.cx.node(a), *self.cx.node(b));
                self.bits(st, a, nb.ko & 1, nb.kz & 1, depth + 1);
                self.bits(st, b, na.ko & 1, na.kz & 1, depth + 1);
            }
            // a < k with k constant: the bits above k-1's top bit are zero
            Op::Ult if o == 1 => {
                if let Some(k) = self.cx.cv(b) {
                    if k > 0 {
                        let l = 128 - (k - 1).leading_zeros();
                        self.bits(st, a, mask(self.cx.w(a)) & !mask(l), 0, depth + 1);
                    }
                }
            }
            // !(k < a)
            Op::Ult if z == 1 => {
                if let Some(k) = self.cx.cv(a) {
                    let l = 128 - k.leading_zeros();
                    self.bits(st, b, mask(self.cx.w(b)) & !mask(l), 0, depth + 1);
                }
            }
            Op::Clz | Op::Ctz if z | o == mask(n.w as u32) => {
                let w = self.cx.w(a);
                let k = (o as u32).min(w);
                let (zz, oo) = if n.op == Op::Clz {
                    (mask(w) & !mask(w - k), if k < w { 1u128 << (w - 1 - k) } else { 0 })
                } else {
                    (mask(k), if k < w { 1u128 << k } else { 0 })
                };
                self.bits(st, a, zz, oo, depth + 1);
            }
            Op::Ite => {
                let c = E(n.c);
                let (nb, nc) = (*self.cx.node(b), *self.cx.node(c));
                let bbad = (nb.ko & z) | (nb.kz & o) != 0;
                let cbad = (nc.ko & z) | (nc.kz & o) != 0;
                if bbad && !cbad {
                    st.known.insert(n.a, 0);
                    self.bits(st, a, 1, 0, depth + 1);
                    self.bits(st, c, z, o, depth + 1);
                } else if cbad && !bbad {
                    st.known.insert(n.a, 1);
                    self.bits(st, a, 0, 1, depth + 1);
                    self.bits(st, b, z, o, depth + 1);
                }
            }
            _ => {}
        }
    }
    fn simp(&mut self, st: &State, e: E) -> E {
        if self.cx.cv(e).is_some() || st.known.is_empty() {
            return e;
        }
        if self.smemo.0 != st.kver {
            self.smemo.0 = st.kver;
            self.smemo.1.clear();
        }
        let mut memo = std::mem::take(&mut self.smemo.1);
        let r = self.cx.subst(e, &st.kvars, &st.known, &st.vb, &mut memo);
        self.smemo.1 = memo;
        r
    }
    fn add_pc(&mut self, st: &mut State, c: E) {
        if self.cx.cv(c).is_some() {
            return;
        }
        st.pc.push(c);
        self.rep.maxpc = self.rep.maxpc.max(st.pc.len());
        self.learn(st, c, true);
    }
    fn learn(&mut self, st: &mut State, c: E, v: bool) {
        if self.cx.cv(c).is_some() {
            return;
        }
        self.fact(st, c, v as u128);
        let n = *self.cx.node(c);
        match (n.op, v) {
            (Op::Not, _) => self.learn(st, E(n.a), !v),
            (Op::And, true) if n.w == 1 => {
                self.learn(st, E(n.a), true);
                self.learn(st, E(n.b), true);
            }
            (Op::Or, false) if n.w == 1 => {
                self.learn(st, E(n.a), false);
                self.learn(st, E(n.b), false);
            }
            (Op::Eq, true) => {
                if let Some(k) = self.cx.cv(E(n.b)) {
                    self.fact(st, E(n.a), k);
                } else if let Some(k) = self.cx.cv(E(n.a)) {
                    self.fact(st, E(n.b), k);
                }
            }
            _ => {}
        }
    }
    /// concretise by forking
    fn conc(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(v) = self.cx.cv(e) {
            return Ok(v);
        }
        if let Some(v) = st.known.get(&e.0) {
            return Ok(*v);
        }
        let s = self.simp(st, e);
        if let Some(v) = self.cx.cv(s) {
            st.known.insert(e.0, v);
            return Ok(v);
        }
        let mut memo = FxMap::default();
        let v = self.cx.eval(s, &st.model, &mut memo);
        let w = self.cx.w(e);
        let k = self.cx.konst(v, w);
        let c = self.cx.eq(s, k);
        self.must(st, c)?;
        self.fact(st, e, v);
        Ok(v)
    }
    #[inline]
    fn val(&self, st: &State, fr: &Frame, o: O) -> E {
        match o {
            O::C(e) => e,
            O::R(r) => {
                let e = fr.regs[r as usize];
                debug_assert!(e != NOREG, "unset register in {}", fr.f.name);
                e
            }
        }
        .pipe(|e| {
            if st.known.is_empty() || self.cx.n[e.0 as usize].op == Op::Const {
                e
            } else {
                e
            }
        })
    }
    fn sub_known(&mut self, st: &State, e: E) -> E {
        if st.known.is_empty() || self.cx.n[e.0 as usize].op == Op::Const {
            return e;
        }
        if let Some(v) = st.known.get(&e.0) {
            let w = self.cx.w(e);
            let v = *v;
            return self.cx.konst(v, w);
        }
        e
    }
    fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| demangle(&f.f.name)).collect()
    }
    fn kind(&mut self, n: &Rc<str>) -> Kind {
        if let Some(k) = self.kinds.get(n) {
            return *k;
        }
        let d = demangle(n);
        let k = if d.starts_with("core::panicking::")
            || d.starts_with("core::option::unwrap_failed")
            || d.starts_with("core::option::expect_failed")
            || d.starts_with("core::result::unwrap_failed")
            || d.starts_with("core::slice::index::slice_")
            || d.starts_with("core::str::slice_error_fail")
            || d.contains("len_mismatch_fail")
            || d.ends_with("::assert_failed")
            || d.starts_with("alloc::raw_vec::handle_error")
            || d.starts_with("alloc::raw_vec::capacity_overflow")
            || d.starts_with("alloc::alloc::handle_alloc_error")
            || d.starts_with("std::panicking::begin_panic")
            || d.starts_with("std::panicking::rust_panic")
            || d.starts_with("core::cell::panic_")
            || d.starts_with("core::cell::borrow")
            || &**n == "rust_begin_unwind"
            || &**n == "abort"
        {
            Kind::Panic
        } else if d.starts_with("std::io::stdio::_eprint") || d.starts_with("std::io::stdio::_print") {
            Kind::Skip
        } else if n.starts_with("llvm.") || n.starts_with("vp_") || avx(&d).is_some() || !self.m.fdefs.contains_key(n) {
            Kind::Builtin
        } else {
            Kind::Normal
        };
        self.kinds.insert(n.clone(), k);
        k
    }

    pub fn run_one(&mut self, mut st: State) {
        loop {
            match self.run(&mut st) {
                Stop::Retry => continue,
                Stop::NoMerge => unreachable!(),
                Stop::Done => {
                    self.rep.paths += 1;
                    self.finish(&st);
                }
                Stop::Infeasible => self.rep.infeasible += 1,
                Stop::AllowedPanic => {
                    self.rep.paths += 1;
                    self.rep.allowed_panics += 1;
                }
                Stop::Violation(k, msg) => {
                    let stack = self.stack(&st);
                    let d = self.draw_values(&st);
                    self.rep.violation = Some((k, msg, stack, d));
                }
                Stop::Bug(msg) => {
                    let s = self.stack(&st);
                    let m = format!("{msg} @ {}", s.iter().take(6).cloned().collect::<Vec<_>>().join(" <- "));
                    if self.rep.incomplete.len() < 20 {
                        self.rep.incomplete.push(m);
                    } else {
                        self.rep.pending += 1;
                    }
                }
            }
            self.rep.steps += st.steps;
            return;
        }
    }
    fn draw_values(&mut self, st: &State) -> Vec<(u32, u128)> {
        let mut memo = FxMap::default();
        st.draws.iter().map(|(e, w)| (*w, self.cx.eval(*e, &st.model, &mut memo))).collect()
    }
    fn finish(&mut self, st: &State) {
        self.rep.maxdraws = self.rep.maxdraws.max(st.draws.len());
        if self.rep.samples.len() < self.nsamples && (self.rep.paths < 16 || self.rep.paths % self.sample_every == 0) {
            let d = self.draw_values(st);
            let mut memo = FxMap::default();
            let o = st.obs.iter().map(|e| self.cx.eval(*e, &st.model, &mut memo) as u64).collect();
            self.rep.samples.push((d, o));
            if self.rep.samples.len() % 16 == 0 {
                self.sample_every *= 2;
            }
        }
    }

    fn goto(&mut self, st: &mut State, target: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let f = fr.f.clone();
        let b = &f.blocks[target as usize];
        if !b.phis.is_empty() {
            let prev = fr.block;
            let mut vals: Vec<E> = Vec::with_capacity(b.phis.len());
            for (_, _, inc) in &b.phis {
                let v = &inc.iter().find(|(p, _)| *p == prev).unwrap_or_else(|| panic!("phi pred in {}", f.name)).1;
                for o in v {
                    vals.push(match o {
                        O::C(e) => *e,
                        O::R(r) => fr.regs[*r as usize],
                    });
                }
            }
            let mut k = 0;
            for (d, n, _) in &b.phis {
                for i in 0..*n {
                    fr.regs[(*d + i) as usize] = vals[k];
                    k += 1;
                }
            }
        }
        fr.block = target;
        fr.ip = 0;
    }

    fn run(&mut self, st: &mut State) -> Stop {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0x3ff == 0 && Instant::now() > self.deadline {
                return Stop::Bug("time limit".into());
            }
            if tick & 0xffff == 0 && out_of_memory() {
                return Stop::Violation("runaway".into(), "does not end within the memory limit".into());
            }
            if st.steps > self.max_steps {
                return Stop::Violation("runaway".into(), "does not end within the instruction limit".into());
            }
            let f = st.frames.last().unwrap().f.clone();
            let (blk, ip) = {
                let fr = st.frames.last().unwrap();
                (fr.block, fr.ip)
            };
            let ins = &f.blocks[blk as usize].ins[ip as usize];
            st.steps += 1;
            if let Err(s) = self.step(st, &f, ins) {
                if let Stop::Retry = s {
                    continue;
                }
                return s;
            }
        }
    }
    fn setn(&mut self, st: &mut State, ins: &Ins, vals: &[E]) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        if ins.dst != u32::MAX {
            for (i, v) in vals.iter().enumerate() {
                fr.regs[ins.dst as usize + i] = *v;
            }
        }
        fr.ip += 1;
    }
    fn set1(&mut self, st: &mut State, ins: &Ins, v: E) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        if ins.dst != u32::MAX {
            fr.regs[ins.dst as usize] = v;
        }
        fr.ip += 1;
    }
    fn g(&mut self, st: &State, o: O) -> E {
        let e = match o {
            O::C(e) => return e,
            O::R(r) => st.frames.last().unwrap().regs[r as usize],
        };
        assert!(e != NOREG, "unset register in {}", st.frames.last().unwrap().f.name);
        self.sub_known(st, e)
    }
    fn lanes2(&mut self, a: E, b: E, ew: u32, f: &mut dyn FnMut(&mut Ctx, E, E) -> E) -> E {
        let w = self.cx.w(a);
        if w == ew {
            return f(&mut self.cx, a, b);
        }
        let mut out = Vec::new();
        for i in (0..w / ew).rev() {
            let x = self.cx.extract(a, (i + 1) * ew - 1, i * ew);
            let y = self.cx.extract(b, (i + 1) * ew - 1, i * ew);
            out.push(f(&mut self.cx, x, y));
        }
        let mut ps = Vec::new();
        for o in out {
            self.cx.pieces(o, &mut ps);
        }
        self.cx.concat_list(&ps)
    }
    fn icmp(cx: &mut Ctx, p: Pred, a: E, b: E) -> E {
        match p {
            Pred::Eq => cx.eq(a, b),
            Pred::Ne => cx.ne(a, b),
            Pred::Ugt => cx.ult(b, a),
            Pred::Uge => cx.ule(b, a),
            Pred::Ult => cx.ult(a, b),
            Pred::Ule => cx.ule(a, b),
            Pred::Sgt => cx.slt(b, a),
            Pred::Sge => cx.sle(b, a),
            Pred::Slt => cx.slt(a, b),
            Pred::Sle => cx.sle(a, b),
            _ => unreachable!(),
        }
    }
    fn fcmp(cx: &mut Ctx, p: Pred, a: E, b: E) -> E {
        let uno = |cx: &mut Ctx| {
            let x = cx.fnan(a);
            let y = cx.fnan(b);
            cx.or(x, y)
        };
        match p {
            Pred::FFalse => cx.konst(0, 1),
            Pred::FTrue => cx.konst(1, 1),
            Pred::FOeq => cx.feq(a, b),
            Pred::FOgt => cx.flt(b, a),
            Pred::FOge => cx.fle(b, a),
            Pred::FOlt => cx.flt(a, b),
            Pred::FOle => cx.fle(a, b),
            Pred::FUno => uno(cx),
            Pred::FOrd => {
                let u = uno(cx);
                cx.not(u)
            }
            Pred::FUne => {
                let e = cx.feq(a, b);
                cx.not(e)
            }
            Pred::FUlt => {
                let e = cx.fle(b, a);
                cx.not(e)
            }
            Pred::FUle => {
                let e = cx.flt(b, a);
                cx.not(e)
            }
            Pred::FUgt => {
                let e = cx.fle(a, b);
                cx.not(e)
            }
            Pred::FUge => {
                let e = cx.flt(a, b);
                cx.not(e)
            }
            Pred::FOne => {
                let e = cx.feq(a, b);
                let u = uno(cx);
                let o = cx.or(e, u);
                cx.not(o)
            }
            Pred::FUeq => {
                let e = cx.feq(a, b);
                let u = uno(cx);
                cx.or(e, u)
            }
            _ => unreachable!(),
        }
    }
    /// normalise a float operand whose exact value under the path is known to be constant
    fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(b) = self.truth(st, c) {
            return Ok(b);
        }
        let s = self.simp(st, c);
        if let Some(b) = self.truth(st, s) {
            st.known.insert(c.0, b as u128);
            return Ok(b);
        }
        let mut memo = FxMap::default();
        let side = self.cx.eval(s, &st.model, &mut memo) != 0;
        let cond = if side { s } else { self.cx.not(s) };
        self.must(st, cond)?;
        self.fact(st, c, side as u128);
        Ok(side)
    }

    /// immediate post-dominators, ignoring blocks that cannot return (u32::MAX: none)
    fn ipdom(&mut self, f: &Rc<Func>) -> Rc<Vec<u32>> {
        if let Some(v) = self.ipd.get(&f.id) {
            return v.clone();
        }
        let n = f.blocks.len();
        let mut succ: Vec<Vec<u32>> = vec![vec![]; n];
        let mut ret = vec![false; n];
        for (i, b) in f.blocks.iter().enumerate() {
            match b.ins.last().map(|x| &x.i) {
                Some(I::Br(t)) => succ[i].push(*t),
                Some(I::CondBr(_, x, y)) => {
                    succ[i].push(*x);
                    succ[i].push(*y);
                }
                Some(I::Switch { def, cases, .. }) => {
                    succ[i].push(*def);
                    for (_, t) in cases {
                        succ[i].push(*t);
                    }
                }
                Some(I::Call { dest: Some(d), .. }) => succ[i].push(*d),
                Some(I::Ret(_)) => ret[i] = true,
                _ => {}
            }
        }
        // live = can reach a return
        let mut live = ret.clone();
        loop {
            let mut ch = false;
            for i in 0..n {
                if !live[i] && succ[i].iter().any(|s| live[*s as usize]) {
                    live[i] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        // iterative post-dominator sets by the Cooper-Harvey-Kennedy scheme on the reversed graph
        let exit = n;
        let mut order: Vec<usize> = Vec::new(); // reverse graph post-order from exit
        let mut pred: Vec<Vec<usize>> = vec![vec![]; n + 1];
        for i in 0..n {
            if !live[i] {
                continue;
            }
            if ret[i] {
                pred[exit].push(i);
            }
            for s in &succ[i] {
                if live[*s as usize] {
                    pred[*s as usize].push(i);
                }
            }
        }
        let mut seen = vec![false; n + 1];
        let mut stack = vec![(exit, 0usize)];
        seen[exit] = true;
        while let Some((x, k)) = stack.pop() {
            if k < pred[x].len() {
                stack.push((x, k + 1));
                let p = pred[x][k];
                if !seen[p] {
                    seen[p] = true;
                    stack.push((p, 0));
                }
            } else {
                order.push(x);
            }
        }
        let mut num = vec![usize::MAX; n + 1];
        for (i, x) in order.iter().enumerate() {
            num[*x] = i;
        }
        let none = usize::MAX;
        let mut idom = vec![none; n + 1];
        idom[exit] = exit;
        loop {
            let mut ch = false;
            for &x in order.iter().rev() {
                if x == exit {
                    continue;
                }
                let mut ss: Vec<usize> = succ[x].iter().filter(|s| live[**s as usize]).map(|s| *s as usize).collect();
                if ret[x] {
                    ss.push(exit);
                }
                let mut nd = none;
                for s in ss {
                    if idom[s] == none {
                        continue;
                    }
                    if nd == none {
                        nd = s;
                    } else {
                        let (mut p, mut q) = (nd, s);
                        while p != q {
                            while num[p] < num[q] {
                                p = idom[p];
                            }
                            while num[q] < num[p] {
                                q = idom[q];
                            }
                        }
                        nd = p;
                    }
                }
                if nd != none && idom[x] != nd {
                    idom[x] = nd;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let v: Vec<u32> = (0..n).map(|i| if idom[i] == none || idom[i] == exit { u32::MAX } else { idom[i] as u32 }).collect();
        let r = Rc::new(v);
        self.ipd.insert(f.id, r.clone());
        r
    }
    /// Execute both sides of an undecided branch up to the join block and merge the two states
    /// with if-then-else values. Gives up (Ok(false)) whenever a side is not a short single path.
    fn try_merge(&mut self, st: &mut State, f: &Rc<Func>, c: E, a: u32, b: u32) -> R<bool> {
        if self.spec >= 3 {
            return Ok(false);
        }
        let blk = st.frames.last().unwrap().block;
        let j = self.ipdom(f)[blk as usize];
        if j == u32::MAX {
            return Ok(false);
        }
        // is the branch really two-sided?
        let mut memo = FxMap::default();
        let side = self.cx.eval(c, &st.model, &mut memo) != 0;
        let nc = self.cx.not(c);
        let other = if side { nc } else { c };
        let (r, om) = self.ask(st, other, &st.model);
        match r {
            Res::Sat => {}
            _ => return Ok(false), // decided (or unknown): the ordinary path handles it
        }
        if self.spec == 0 {
            self.spec_narrow.clear();
        }
        let depth = st.frames.len();
        let mut sides: Vec<State> = Vec::new();
        for (t, cond) in [(a, c), (b, nc)] {
            let mut s = st.clone();
            if (cond == other) != (cond == c && !side || cond == nc && side) {
                unreachable!();
            }
            if cond == other {
                s.model = om.clone();
            }
            self.add_pc(&mut s, cond);
            self.goto(&mut s, t);
            self.spec += 1;
            let ok = self.spec_run(&mut s, depth, j);
            self.spec -= 1;
            if !ok {
                self.rep.merge_fail += 1;
                if self.mdbg { eprintln!("MF spec {} blk {} -> j {} at {} blk {}", demangle(&f.name), blk, j, s.frames.last().map(|x| demangle(&x.f.name)).unwrap_or_default(), s.frames.last().map(|x| x.block).unwrap_or(0)); }
                return Ok(false);
            }
            sides.push(s);
        }
        let sb = sides.pop().unwrap();
        let sa = sides.pop().unwrap();
        match self.merge_states(st, f, c, sa, sb, j) {
            Some(m) => {
                *st = m;
                self.rep.merges += 1;
                Ok(true)
            }
            None => {
                self.rep.merge_fail += 1;
                if self.mdbg { eprintln!("MF merge {} blk {} -> j {}", demangle(&f.name), blk, j); }
                Ok(false)
            }
        }
    }
    fn spec_run(&mut self, s: &mut State, depth: usize, j: u32) -> bool {
        let lim = s.steps + 400;
        loop {
            {
                let fr = s.frames.last().unwrap();
                if s.frames.len() == depth && fr.block == j && fr.ip == 0 {
                    return true;
                }
                if s.frames.len() < depth || s.steps > lim {
                    return false;
                }
            }
            let (f, blk, ip) = {
                let fr = s.frames.last().unwrap();
                (fr.f.clone(), fr.block, fr.ip)
            };
            let ins = &f.blocks[blk as usize].ins[ip as usize];
            s.steps += 1;
            match self.step(s, &f, ins) {
                Ok(()) => {}
                Err(Stop::Retry) => {}
                Err(_) => return false,
            }
        }
    }
    fn bad_pair(&self, x: E, y: E) -> bool {
        // positions, lengths, pointers: two different wide constants are better kept apart
        self.cx.w(x) >= 32 && self.cx.cv(x).is_some() && self.cx.cv(y).is_some()
    }
    fn merge_states(&mut self, st: &State, f: &Rc<Func>, c: E, sa: State, sb: State, j: u32) -> Option<State> {
        if sa.next != sb.next || sa.next != st.next || sa.heap.len() != sb.heap.len() || sa.heap.len() != st.heap.len() || sa.draws.len() != st.draws.len() || sb.draws.len() != st.draws.len() || sa.obs.len() != st.obs.len() || sb.obs.len() != st.obs.len() || sa.allow_panic != sb.allow_panic || sa.clock != sb.clock {
            return None;
        }
        if sa.gmem.len() != sb.gmem.len() {
            return None;
        }
        let mut m = st.clone();
        m.steps = sa.steps.max(sb.steps);
        // registers: only the join block's phis are live among the differing ones
        let (fa, fb) = (sa.frames.last().unwrap().clone(), sb.frames.last().unwrap().clone());
        {
            let mut regs = fa.regs.clone();
            let mut phi: FxMap<u32, ()> = FxMap::default();
            for (d, n, _) in &f.blocks[j as usize].phis {
                for i in 0..*n {
                    phi.insert(d + i, ());
                }
            }
            for i in 0..regs.len() {
                let (x, y) = (fa.regs[i], fb.regs[i]);
                if x == y {
                    continue;
                }
                if phi.contains_key(&(i as u32)) {
                    if self.bad_pair(x, y) {
                        return None;
                    }
                    regs[i] = self.cx.ite(c, x, y);
                } else {
                    regs[i] = NOREG;
                }
            }
            if fa.allocas != fb.allocas {
                return None;
            }
            let fr = Rc::make_mut(m.frames.last_mut().unwrap());
            fr.regs = regs;
            fr.block = j;
            fr.ip = 0;
        }
        let mut nbytes = 0;
        let mut objs: Vec<(bool, usize, u32, Rc<Obj>, Rc<Obj>)> = Vec::new();
        for i in 0..sa.heap.len() {
            if sa.heap[i].base != sb.heap[i].base {
                return None;
            }
            if !Rc::ptr_eq(&sa.heap[i], &sb.heap[i]) {
                objs.push((true, i, 0, sa.heap[i].clone(), sb.heap[i].clone()));
            } else {
                m.heap[i] = sa.heap[i].clone();
            }
        }
        for (g, o) in sa.gmem.iter() {
            let q = sb.gmem.get(g)?;
            if !Rc::ptr_eq(o, q) {
                objs.push((false, 0, *g, o.clone(), q.clone()));
            } else {
                m.gmem.insert(*g, o.clone());
            }
        }
        for (heap, i, g, oa, ob) in objs {
            if oa.log.len() != ob.log.len() || oa.log != ob.log {
                return None;
            }
            let mut o = (*oa).clone();
            let mut diffs: Vec<usize> = Vec::new();
            for p in 0..oa.pages.len() {
                if Rc::ptr_eq(&oa.pages[p], &ob.pages[p]) {
                    continue;
                }
                for k in 0..PG {
                    if oa.pages[p][k] != ob.pages[p][k] {
                        diffs.push(p * PG + k);
                    }
                }
            }
            nbytes += diffs.len();
            if nbytes > 64 {
                return None;
            }
            // 8-byte words that differ in constants only are positions: do not merge
            for d in &diffs {
                let w0 = d & !7;
                if !self.spec_narrow.contains_key(&(o.base + *d as u64)) && (w0 + 8) as u64 <= oa.size && o.base % 8 == 0 {
                    let k = |ob: &Obj| (0..8).all(|t| ob.get((w0 + t) as u64).0 < 256);
                    if k(&oa) && k(&ob) {
                        // a lone differing byte 0/1 next to unchanged padding may be a flag
                        let nd = diffs.iter().filter(|x| *x & !7 == w0).count();
                        let (x, y) = (oa.get(*d as u64).0, ob.get(*d as u64).0);
                        if !(nd == 1 && x <= 1 && y <= 1) || d % 8 == 0 {
                            return None;
                        }
                    }
                }
            }
            for d in diffs {
                let v = self.cx.ite(c, oa.get(d as u64), ob.get(d as u64));
                o.set(d as u64, v);
            }
            if heap {
                m.heap[i] = Rc::new(o);
            } else {
                m.gmem.insert(g, Rc::new(o));
            }
        }
        Some(m)
    }

    fn step(&mut self, st: &mut State, f: &Rc<Func>, ins: &Ins) -> R<()> {
        match &ins.i {
            I::Nop => self.setn(st, ins, &[]),
            I::Alloca { size, align, n } => {
                let n = self.g(st, *n);
                let n = self.conc(st, n)? as u64;
                let a = self.alloc(st, size * n, *align, UNINIT);
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.allocas.push(a);
                let v = self.cx.konst(a as u128, 64);
                self.set1(st, ins, v);
            }
            I::Load { p, leaves } => {
                let p = self.g(st, *p);
                if leaves.len() == 1 {
                    let w = leaves[0].1;
                    let nb = (w + 7) / 8;
                    let mut v = self.read(st, p, nb)?;
                    if nb * 8 != w {
                        v = self.cx.trunc(v, w);
                    }
                    let v = self.sub_known(st, v);
                    self.set1(st, ins, v);
                } else {
                    let mut out = Vec::with_capacity(leaves.len());
                    for (o, w) in leaves.iter() {
                        let oe = self.cx.konst(*o as u128, 64);
                        let a = self.cx.add(p, oe);
                        let nb = (w + 7) / 8;
                        let mut v = self.read(st, a, nb)?;
                        if nb * 8 != *w {
                            v = self.cx.trunc(v, *w);
                        }
                        out.push(v);
                    }
                    self.setn(st, ins, &out);
                }
            }
            I::Store { p, vals, leaves } => {
                let p = self.g(st, *p);
                for (o, (off, w)) in vals.iter().zip(leaves.iter()) {
                    let mut v = self.g(st, *o);
                    let nb = (w + 7) / 8;
                    if nb * 8 != *w {
                        v = self.cx.zext(v, nb * 8);
                    }
                    let a = if *off == 0 {
                        p
                    } else {
                        let oe = self.cx.konst(*off as u128, 64);
                        self.cx.add(p, oe)
                    };
                    if self.spec > 0 && nb == 1 && vals.len() == 1 {
                        if let Some(k) = self.cx.cv(a) {
                            self.spec_narrow.insert(k as u64, ());
                        }
                    }
                    self.write(st, a, v, nb)?;
                }
                self.setn(st, ins, &[]);
            }
            I::Gep { base, off, terms } => {
                let mut a = self.g(st, *base);
                let k = self.cx.konst(*off as u128, 64);
                a = self.cx.add(a, k);
                for (o, s) in terms {
                    let i = self.g(st, *o);
                    let i = if self.cx.w(i) < 64 { self.cx.sext(i, 64) } else { i };
                    let se = self.cx.konst(*s as u128, 64);
                    let t = self.cx.mul(i, se);
                    a = self.cx.add(a, t);
                }
                self.set1(st, ins, a);
            }
            I::Bin { op, a, b, ew } => {
                let a = self.g(st, *a);
                let mut b = self.g(st, *b);
                let v = match op {
                    BinOp::And => self.cx.and(a, b),
                    BinOp::Or => self.cx.or(a, b),
                    BinOp::Xor => self.cx.xor(a, b),
                    BinOp::Shl | BinOp::LShr | BinOp::AShr => {
                        if self.cx.w(b) == *ew && self.cx.cv(b).is_none() && self.cx.cv(a) != Some(0) {
                            let v = self.conc(st, b)?;
                            b = self.cx.konst(v, *ew);
                        }
                        let op = *op;
                        self.lanes2(a, b, *ew, &mut |cx, x, y| match op {
                            BinOp::Shl => cx.shl(x, y),
                            BinOp::LShr => cx.lshr(x, y),
                            _ => cx.ashr(x, y),
                        })
                    }
                    BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem => {
                        let o = match op {
                            BinOp::FAdd => Op::FAdd,
                            BinOp::FSub => Op::FSub,
                            BinOp::FMul => Op::FMul,
                            BinOp::FDiv => Op::FDiv,
                            _ => Op::FRem,
                        };
                        self.lanes2(a, b, *ew, &mut |cx, x, y| cx.f2(o, x, y))
                    }
                    _ => {
                        let op = *op;
                        self.lanes2(a, b, *ew, &mut |cx, x, y| match op {
                            BinOp::Add => cx.add(x, y),
                            BinOp::Sub => cx.sub(x, y),
                            BinOp::Mul => cx.mul(x, y),
                            BinOp::UDiv => cx.udiv(x, y),
                            BinOp::SDiv => cx.sdiv(x, y),
                            BinOp::URem => cx.urem(x, y),
                            BinOp::SRem => cx.srem(x, y),
                            _ => unreachable!(),
                        })
                    }
                };
                self.set1(st, ins, v);
            }
            I::Icmp { p, a, b, ew } => {
                let a = self.g(st, *a);
                let b = self.g(st, *b);
                let p = *p;
                let v = self.lanes2(a, b, *ew, &mut |cx, x, y| Self::icmp(cx, p, x, y));
                self.set1(st, ins, v);
            }
            I::Fcmp { p, a, b } => {
                let a = self.g(st, *a);
                let b = self.g(st, *b);
                let v = Self::fcmp(&mut self.cx, *p, a, b);
                self.set1(st, ins, v);
            }
            I::Fneg { a } => {
                let a = self.g(st, *a);
                let v = self.cx.fneg(a);
                self.set1(st, ins, v);
            }
            I::Cast { op, a, lanes, fw, tw } => {
                let a = self.g(st, *a);
                let mut ps = Vec::new();
                for i in (0..*lanes).rev() {
                    let x = if *lanes == 1 { a } else { self.cx.extract(a, (i + 1) * fw - 1, i * fw) };
                    let y = match op {
                        CastOp::Trunc => self.cx.trunc(x, *tw),
                        CastOp::ZExt => self.cx.zext(x, *tw),
                        CastOp::SExt => self.cx.sext(x, *tw),
                        CastOp::Bit => x,
                        CastOp::FpTrunc | CastOp::FpExt => self.cx.f_cvt(x, *tw),
                        CastOp::FpToUi => self.cx.f_to_i(x, *tw, false),
                        CastOp::FpToSi => self.cx.f_to_i(x, *tw, true),
                        CastOp::UiToFp => self.cx.i_to_f(x, *tw, false),
                        CastOp::SiToFp => self.cx.i_to_f(x, *tw, true),
                    };
                    self.cx.pieces(y, &mut ps);
                }
                let v = self.cx.concat_list(&ps);
                self.set1(st, ins, v);
            }
            I::Select { c, a, b, lanes } => {
                let c = self.g(st, *c);
                if *lanes > 1 {
                    let x = self.g(st, a[0]);
                    let y = self.g(st, b[0]);
                    let ew = self.cx.w(x) / lanes;
                    let mut ps = Vec::new();
                    for i in (0..*lanes).rev() {
                        let cc = self.cx.extract(c, i, i);
                        let p = self.cx.extract(x, (i + 1) * ew - 1, i * ew);
                        let q = self.cx.extract(y, (i + 1) * ew - 1, i * ew);
                        let r = self.cx.ite(cc, p, q);
                        self.cx.pieces(r, &mut ps);
                    }
                    let v = self.cx.concat_list(&ps);
                    self.set1(st, ins, v);
                } else {
                    let t = self.truth(st, c);
                    let mut out = Vec::with_capacity(a.len());
                    for (x, y) in a.iter().zip(b) {
                        // only fetch the chosen side when decided
                        let v = match t {
                            Some(true) => self.g(st, *x),
                            Some(false) => self.g(st, *y),
                            None => {
                                let p = self.g(st, *x);
                                let q = self.g(st, *y);
                                self.cx.ite(c, p, q)
                            }
                        };
                        out.push(v);
                    }
                    self.setn(st, ins, &out);
                }
            }
            I::Copy { a } => {
                let mut out = Vec::with_capacity(a.len());
                for o in a {
                    out.push(self.g(st, *o));
                }
                self.setn(st, ins, &out);
            }
            I::Insert { a, off, v } => {
                let mut out = Vec::with_capacity(a.len());
                for (i, o) in a.iter().enumerate() {
                    if i >= *off && i < off + v.len() {
                        out.push(self.g(st, v[i - off]));
                    } else {
                        out.push(self.g(st, *o));
                    }
                }
                self.setn(st, ins, &out);
            }
            I::ExtractElem { a, i, ew } => {
                let a = self.g(st, *a);
                let i = self.g(st, *i);
                let i = self.conc(st, i)? as u32;
                let v = self.cx.extract(a, (i + 1) * ew - 1, i * ew);
                self.set1(st, ins, v);
            }
            I::InsertElem { a, v, i, ew } => {
                let a = self.g(st, *a);
                let v = self.g(st, *v);
                let i = self.g(st, *i);
                let i = self.conc(st, i)? as u32;
                let w = self.cx.w(a);
                let mut r = v;
                if i > 0 {
                    let lo = self.cx.extract(a, i * ew - 1, 0);
                    r = self.cx.concat(r, lo);
                }
                if (i + 1) * ew < w {
                    let hi = self.cx.extract(a, w - 1, (i + 1) * ew);
                    r = self.cx.concat(hi, r);
                }
                self.set1(st, ins, r);
            }
            I::Shuffle { a, b, mask, ew } => {
                let a = self.g(st, *a);
                let b = self.g(st, *b);
                let n = (self.cx.w(a) / ew) as i64;
                let mut ps = Vec::new();
                for &k in mask.iter().rev() {
                    let e = if k < 0 {
                        self.cx.konst(0, *ew)
                    } else if k < n {
                        self.cx.extract(a, (k as u32 + 1) * ew - 1, k as u32 * ew)
                    } else {
                        let k = (k - n) as u32;
                        self.cx.extract(b, (k + 1) * ew - 1, k * ew)
                    };
                    self.cx.pieces(e, &mut ps);
                }
                let v = self.cx.concat_list(&ps);
                self.set1(st, ins, v);
            }
            I::Rmw { op, p, v, w } => {
                let p = self.g(st, *p);
                let v = self.g(st, *v);
                let nb = (w + 7) / 8;
                let old = self.read(st, p, nb)?;
                let old = if nb * 8 != *w { self.cx.trunc(old, *w) } else { old };
                let nv = match &**op {
                    "add" => self.cx.add(old, v),
                    "sub" => self.cx.sub(old, v),
                    "xchg" => v,
                    "or" => self.cx.or(old, v),
                    "and" => self.cx.and(old, v),
                    "xor" => self.cx.xor(old, v),
                    o => return Err(Stop::Bug(format!("atomicrmw {o}"))),
                };
                let nv = if nb * 8 != *w { self.cx.zext(nv, nb * 8) } else { nv };
                self.write(st, p, nv, nb)?;
                self.set1(st, ins, old);
            }
            I::CmpXchg { p, c, v, w } => {
                let p = self.g(st, *p);
                let c = self.g(st, *c);
                let v = self.g(st, *v);
                let nb = (w + 7) / 8;
                let old = self.read(st, p, nb)?;
                let old = if nb * 8 != *w { self.cx.trunc(old, *w) } else { old };
                let eq = self.cx.eq(old, c);
                let nv = self.cx.ite(eq, v, old);
                let nv = if nb * 8 != *w { self.cx.zext(nv, nb * 8) } else { nv };
                self.write(st, p, nv, nb)?;
                self.setn(st, ins, &[old, eq]);
            }
            I::Br(b) => self.goto(st, *b),
            I::CondBr(c, a, b) => {
                let c = self.g(st, *c);
                if self.truth(st, c).is_none() && self.merge && a != b {
                    let s = self.simp(st, c);
                    if self.truth(st, s).is_none() && self.try_merge(st, f, s, *a, *b)? {
                        return Ok(());
                    }
                }
                let t = self.branch(st, c)?;
                self.goto(st, if t { *a } else { *b });
            }
            I::Switch { v, def, cases, w } => {
                let v = self.g(st, *v);
                if let Some(k) = self.cx.cv(v) {
                    let t = cases.iter().find(|(c, _)| *c == k).map(|(_, b)| *b).unwrap_or(*def);
                    self.goto(st, t);
                    return Ok(());
                }
                let mut memo = FxMap::default();
                let k = self.cx.eval(v, &st.model, &mut memo);
                let t = cases.iter().find(|(c, _)| *c == k).map(|(_, b)| *b).unwrap_or(*def);
                // condition "goes to t"
                let fls = self.cx.konst(0, 1);
                let mut to = fls;
                let mut any = fls;
                for (c, b) in cases {
                    let ke = self.cx.konst(*c, *w);
                    let q = self.cx.eq(v, ke);
                    any = self.cx.or(any, q);
                    if *b == t {
                        to = self.cx.or(to, q);
                    }
                }
                if *def == t {
                    let n = self.cx.not(any);
                    to = self.cx.or(to, n);
                }
                self.must(st, to)?;
                self.goto(st, t);
            }
            I::Ret(vals) => {
                let mut out = Vec::with_capacity(vals.len());
                for v in vals {
                    out.push(self.g(st, *v));
                }
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas.iter().rev() {
                    if let Some(i) = Self::hidx(st, *a) {
                        st.heap.remove(i);
                    } else {
                        // zero-sized
                        let n = st.heap.partition_point(|o| o.base < *a);
                        if n < st.heap.len() && st.heap[n].base == *a {
                            st.heap.remove(n);
                        }
                    }
                }
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                let c = Rc::make_mut(st.frames.last_mut().unwrap());
                if fr.dst != u32::MAX {
                    for (i, v) in out.iter().enumerate() {
                        c.regs[fr.dst as usize + i] = *v;
                    }
                }
                if let Some(d) = fr.dest {
                    self.goto(st, d);
                } else {
                    c.ip += 1;
                }
            }
            I::Unreachable => return Err(Stop::Violation("unreachable".into(), format!("unreachable code reached in {}", demangle(&f.name)))),
            I::Call { f: callee, args, dest } => return self.call(st, ins, callee, args, *dest),
        }
        Ok(())
    }

    fn call(&mut self, st: &mut State, ins: &Ins, callee: &Callee, args: &[Vec<O>], dest: Option<u32>) -> R<()> {
        let name: Rc<str> = match callee {
            Callee::Direct(n) => n.clone(),
            Callee::Indirect(o) => {
                let e = self.g(st, *o);
                let a = self.conc(st, e)? as u64;
                match self.m.fbyaddr.get(&a) {
                    Some(n) => n.clone(),
                    None => return Err(Stop::Violation("memory".into(), format!("call through bad pointer {a:#x}"))),
                }
            }
            Callee::Asm => return Err(Stop::Bug("inline asm".into())),
        };
        match self.kind(&name) {
            Kind::Panic => {
                if st.allow_panic {
                    return Err(Stop::AllowedPanic);
                }
                self.panic_site = demangle(&name);
                return Err(Stop::Violation("panic".into(), demangle(&name)));
            }
            Kind::Skip => {
                self.setn(st, ins, &[]);
                if let Some(d) = dest {
                    self.goto(st, d);
                }
                return Ok(());
            }
            Kind::Builtin => {
                let mut av = Vec::with_capacity(args.len());
                for a in args {
                    for o in a {
                        av.push(self.g(st, *o));
                    }
                }
                let r = self.builtin(st, &name, &av)?;
                self.setn(st, ins, &r);
                if let Some(d) = dest {
                    self.goto(st, d);
                }
                return Ok(());
            }
            Kind::Normal => {}
        }
        let f = self.m.func(&mut self.cx, &name).unwrap();
        if self.fseen.insert(f.id, ()).is_none() {
            self.rep.funcs.insert(demangle(&name));
        }
        if st.frames.len() > 400 {
            return Err(Stop::Bug("call depth".into()));
        }
        let mut regs = vec![NOREG; f.nslots as usize];
        for ((s, n), a) in f.params.iter().zip(args) {
            for i in 0..*n as usize {
                regs[*s as usize + i] = self.g(st, a[i]);
            }
        }
        st.frames.push(Rc::new(Frame { f, block: 0, ip: 0, regs, allocas: vec![], dst: ins.dst, nd: ins.nd, dest }));
        Ok(())
    }

    fn copy_bytes(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let so = match self.find(st, s, n) {
            Some(o) => o,
            None => return Err(Stop::Violation("memory".into(), format!("invalid copy source {n} bytes at {s:#x}"))),
        };
        let so = if !so.log.is_empty() {
            drop(so);
            self.flush(st, s)?;
            self.find(st, s, n).unwrap()
        } else {
            so
        };
        if let Some(o) = self.find(st, d, n) {
            if !o.log.is_empty() {
                drop(o);
                self.flush(st, d)?;
            }
        }
        let off = s - so.base;
        let bytes: Vec<E> = (0..n).map(|i| so.get(off + i)).collect();
        drop(so);
        self.with_mut(st, d, n, |_, o| {
            let off = d - o.base;
            for (i, b) in bytes.iter().enumerate() {
                o.set(off + i as u64, *b);
            }
        })
    }
    fn fill_bytes(&mut self, st: &mut State, d: u64, v: E, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let pg = self.fillpage(v);
        self.with_mut(st, d, n, |_, o| {
            let mut off = d - o.base;
            let end = off + n;
            if off == 0 && n == o.size {
                o.log.clear();
            } else {
                assert!(o.log.is_empty(), "memset over symbolic log");
            }
            while off < end {
                if off as usize % PG == 0 && end - off >= PG as u64 {
                    o.pages[off as usize / PG] = pg.clone();
                    off += PG as u64;
                } else {
                    o.set(off, v);
                    off += 1;
                }
            }
        })
    }
    fn cstr(&mut self, st: &mut State, p: u64, n: u64) -> String {
        let mut s = Vec::new();
        for i in 0..n.min(400) {
            if let Ok(e) = self.read_c(st, p + i, 1) {
                if let Some(v) = self.cx.cv(e) {
                    s.push(v as u8);
                }
            }
        }
        String::from_utf8_lossy(&s).into_owned()
    }
    fn free_obj(&mut self, st: &mut State, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        match Self::hidx(st, p) {
            Some(i) if st.heap[i].base == p => {
                st.heap.remove(i);
                Ok(())
            }
            _ => Err(Stop::Violation("memory".into(), format!("bad free {p:#x}"))),
        }
    }

    /// 256-bit vectors are passed by reference (see avx()), lane by lane here.
    fn avx(&mut self, st: &mut State, op: &str, a: &[E]) -> R<Vec<E>> {
        let mut get = |x: &mut Self, p: E| -> R<Vec<E>> {
            let mut v = Vec::with_capacity(32);
            for i in 0..32 {
                let o = x.cx.konst(i, 64);
                let q = x.cx.add(p, o);
                v.push(x.read(st, q, 1)?);
            }
            Ok(v)
        };
        let ones = self.cx.konst(255, 8);
        let zero = self.cx.konst(0, 8);
        let r: Vec<E> = match op {
            "set1_epi8" => vec![a[1]; 32],
            "setzero_si256" => vec![zero; 32],
            "lddqu_si256" | "loadu_si256" | "load_si256" => get(self, a[1])?,
            "movemask_epi8" => {
                let v = get(self, a[0])?;
                let mut m = Vec::with_capacity(32);
                for b in v.iter().rev() {
                    m.push(self.cx.extract(*b, 7, 7));
                }
                return Ok(vec![self.cx.concat_list(&m)]);
            }
            _ => {
                let x = get(self, a[1])?;
                let y = get(self, a[2])?;
                let mut v = Vec::with_capacity(32);
                for i in 0..32 {
                    let (x, y) = (x[i], y[i]);
                    v.push(match op {
                        "cmpeq_epi8" => {
                            let c = self.cx.eq(x, y);
                            self.cx.ite(c, ones, zero)
                        }
                        "cmpgt_epi8" => {
                            let c = self.cx.slt(y, x);
                            self.cx.ite(c, ones, zero)
                        }
                        "and_si256" => self.cx.and(x, y),
                        "or_si256" => self.cx.or(x, y),
                        "xor_si256" => self.cx.xor(x, y),
                        "andnot_si256" => {
                            let n = self.cx.xor(x, ones);
                            self.cx.and(n, y)
                        }
                        o => {
                            let c = if o.ends_with("epu8") { self.cx.ult(x, y) } else { self.cx.slt(x, y) };
                            if o.starts_with("min") {
                                self.cx.ite(c, x, y)
                            } else {
                                self.cx.ite(c, y, x)
                            }
                        }
                    });
                }
                v
            }
        };
        for (i, b) in r.into_iter().enumerate() {
            let o = self.cx.konst(i as u128, 64);
            let q = self.cx.add(a[0], o);
            self.write(st, q, b, 1)?;
        }
        Ok(vec![])
    }

    fn builtin(&mut self, st: &mut State, name: &str, a: &[E]) -> R<Vec<E>> {
        macro_rules! k64 {
            ($v:expr) => {{
                let v = $v;
                self.cx.konst(v as u128, 64)
            }};
        }
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, n, a);
        }
        if self.spec > 0 && name.starts_with("vp_") {
            return Err(Stop::NoMerge);
        }
        if !name.starts_with("vp_") {
            let d = demangle(name);
            if let Some(op) = avx(&d) {
                return self.avx(st, op, a);
            }
        }
        match name {
            "vp_sym_u8" | "vp_sym_u16" | "vp_sym_u32" | "vp_sym_u64" => {
                let w: u32 = name[8..].parse().unwrap();
                let i = st.draws.len();
                let v = self.drawn(i, w);
                st.draws.push((v, w));
                // a value may have been preset by the model of an earlier path: fine
                Ok(vec![v])
            }
            "vp_sym_b" => {
                let w = self.cx.cv(a[0]).ok_or_else(|| Stop::Bug("vp_sym_b width".into()))? as u32;
                let i = st.draws.len();
                let v = self.drawn(i, w);
                st.draws.push((v, w));
                Ok(vec![self.cx.zext(v, 64)])
            }
            "vp_assume" => {
                let c = self.simp(st, a[0]);
                match self.truth(st, c) {
                    Some(true) => return Ok(vec![]),
                    Some(false) => return Err(Stop::Infeasible),
                    None => {}
                }
                let mut memo = FxMap::default();
                if self.cx.eval(c, &st.model, &mut memo) == 0 {
                    let (r, m) = self.ask(st, c, &st.model);
                    match r {
                        Res::Sat => st.model = m,
                        Res::Unsat => return Err(Stop::Infeasible),
                        Res::Unknown => return Err(Stop::Bug(format!("solver unknown (assume): {}", self.sv.last_unknown))),
                    }
                }
                self.add_pc(st, c);
                Ok(vec![])
            }
            "vp_check" => {
                self.rep.checks += 1;
                let c = self.simp(st, a[0]);
                match self.truth(st, c) {
                    Some(true) => {
                        self.rep.checks_trivial += 1;
                        return Ok(vec![]);
                    }
                    Some(false) => {
                        let (p, n) = (self.conc(st, a[1])? as u64, self.conc(st, a[2])? as u64);
                        let msg = self.cstr(st, p, n);
                        return Err(Stop::Violation("check".into(), msg));
                    }
                    None => {}
                }
                let nc = self.cx.not(c);
                let old = std::mem::replace(&mut self.sv.confirm, true);
                let (r, m) = self.ask(st, nc, &st.model);
                self.sv.confirm = old;
                match r {
                    Res::Unsat => {
                        self.learn(st, c, true);
                        Ok(vec![])
                    }
                    Res::Sat => {
                        st.model = m;
                        let (p, n) = (self.conc(st, a[1])? as u64, self.conc(st, a[2])? as u64);
                        let msg = self.cstr(st, p, n);
                        Err(Stop::Violation("check".into(), msg))
                    }
                    Res::Unknown => Err(Stop::Bug(format!("solver unknown (check): {}", self.sv.last_unknown))),
                }
            }
            "vp_observe" => {
                st.obs.push(a[0]);
                Ok(vec![])
            }
            "vp_fork" => {
                let v = self.conc(st, a[0])?;
                Ok(vec![k64!(v)])
            }
            "vp_allow_panic" => {
                st.allow_panic = self.conc(st, a[0])? != 0;
                Ok(vec![])
            }
            "vp_cover" => {
                let (p, n) = (self.conc(st, a[0])? as u64, self.conc(st, a[1])? as u64);
                let s = self.cstr(st, p, n);
                *self.rep.covers.entry(s).or_insert(0) += 1;
                Ok(vec![])
            }
            "malloc" | "calloc" | "aligned_alloc" => {
                let n = if name == "calloc" {
                    let x = self.conc(st, a[0])?;
                    let y = self.conc(st, a[1])?;
                    x.saturating_mul(y)
                } else if name == "aligned_alloc" {
                    self.conc(st, a[1])?
                } else {
                    self.conc(st, a[0])?
                };
                if n > 1 << 31 {
                    return Ok(vec![k64!(0)]);
                }
                let p = self.alloc(st, n as u64, 16, if name == "calloc" { E(0) } else { UNINIT });
                Ok(vec![k64!(p)])
            }
            "posix_memalign" => {
                let pp = a[0];
                let al = self.conc(st, a[1])? as u64;
                let n = self.conc(st, a[2])?;
                if n > 1 << 31 {
                    return Ok(vec![self.cx.konst(12, 32)]);
                }
                let pa = self.conc(st, pp)? as u64;
                let p = self.alloc(st, n as u64, al, UNINIT);
                let e = k64!(p);
                self.write_c(st, pa, e, 8)?;
                Ok(vec![self.cx.konst(0, 32)])
            }
            "realloc" => {
                let p = self.conc(st, a[0])? as u64;
                let n = self.conc(st, a[1])?;
                if n > 1 << 31 {
                    return Ok(vec![k64!(0)]);
                }
                let old = match self.find(st, p, 0) {
                    Some(o) if o.base == p => o,
                    _ => return Err(Stop::Violation("memory".into(), format!("bad realloc {p:#x}"))),
                };
                let osz = old.size;
                drop(old);
                let np = self.alloc(st, n as u64, 16, UNINIT);
                self.copy_bytes(st, np, p, osz.min(n as u64))?;
                self.free_obj(st, p)?;
                Ok(vec![k64!(np)])
            }
            "free" => {
                let p = self.conc(st, a[0])? as u64;
                self.free_obj(st, p)?;
                Ok(vec![])
            }
            "bcmp" | "memcmp" => {
                let n = self.conc(st, a[2])? as u64;
                let p = self.conc(st, a[0])? as u64;
                let q = self.conc(st, a[1])? as u64;
                let mut r = self.cx.konst(0, 32);
                let lo = self.cx.konst(u128::MAX, 32);
                let hi = self.cx.konst(1, 32);
                for i in (0..n).rev() {
                    let x = self.read_c(st, p + i, 1)?;
                    let y = self.read_c(st, q + i, 1)?;
                    let e = self.cx.eq(x, y);
                    let d = if name == "bcmp" {
                        hi
                    } else {
                        let l = self.cx.ult(x, y);
                        self.cx.ite(l, lo, hi)
                    };
                    r = self.cx.ite(e, r, d);
                }
                Ok(vec![r])
            }
            "strlen" => {
                let p = self.conc(st, a[0])? as u64;
                let mut i = 0;
                loop {
                    let x = self.read_c(st, p + i, 1)?;
                    if self.conc(st, x)? == 0 {
                        break;
                    }
                    i += 1;
                }
                Ok(vec![k64!(i)])
            }
            "clock_gettime" => {
                let p = self.conc(st, a[1])? as u64;
                st.clock += 1000;
                let s = k64!(st.clock / 1_000_000_000);
                let n = k64!(st.clock % 1_000_000_000);
                self.write_c(st, p, s, 8)?;
                self.write_c(st, p + 8, n, 8)?;
                Ok(vec![self.cx.konst(0, 32)])
            }
            "write" => Ok(vec![a[2]]),
            "getenv" => Ok(vec![k64!(0)]),
            _ => Err(Stop::Bug(format!("unsupported external call {name}"))),
        }
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, a: &[E]) -> R<Vec<E>> {
        let base: &str = n;
        let pre = |p: &str| base.starts_with(p);
        if pre("memcpy") || pre("memmove") {
            let len = self.conc(st, a[2])? as u64;
            if len == 0 {
                return Ok(vec![]);
            }
            let d = self.conc(st, a[0])? as u64;
            let s = self.conc(st, a[1])? as u64;
            self.copy_bytes(st, d, s, len)?;
            return Ok(vec![]);
        }
        if pre("memset") {
            let len = self.conc(st, a[2])? as u64;
            if len == 0 {
                return Ok(vec![]);
            }
            let d = self.conc(st, a[0])? as u64;
            if let Some(o) = self.find(st, d, len) {
                if !o.log.is_empty() && !(d == o.base && len == o.size) {
                    drop(o);
                    self.flush(st, d)?;
                }
            }
            self.fill_bytes(st, d, a[1], len)?;
            return Ok(vec![]);
        }
        let w = if a.is_empty() { 0 } else { self.cx.w(a[0]) };
        let cx = &mut self.cx;
        let r = if pre("uadd.with.overflow") {
            let s = cx.add(a[0], a[1]);
            let o = cx.ult(s, a[0]);
            vec![s, o]
        } else if pre("usub.with.overflow") {
            let s = cx.sub(a[0], a[1]);
            let o = cx.ult(a[0], a[1]);
            vec![s, o]
        } else if pre("umul.with.overflow") {
            if w * 2 > 128 {
                return Err(Stop::Bug("umulo width".into()));
            }
            let x = cx.zext(a[0], 2 * w);
            let y = cx.zext(a[1], 2 * w);
            let p = cx.mul(x, y);
            let lo = cx.trunc(p, w);
            let hi = cx.extract(p, 2 * w - 1, w);
            let z = cx.konst(0, w);
            let o = cx.ne(hi, z);
            vec![lo, o]
        } else if pre("sadd.with.overflow") || pre("ssub.with.overflow") {
            let x = cx.sext(a[0], w + 1);
            let y = cx.sext(a[1], w + 1);
            let s = if pre("sadd") { cx.add(x, y) } else { cx.sub(x, y) };
            let lo = cx.trunc(s, w);
            let b1 = cx.extract(s, w, w);
            let b0 = cx.extract(s, w - 1, w - 1);
            let o = cx.xor(b1, b0);
            vec![lo, o]
        } else if pre("smul.with.overflow") {
            if w * 2 > 128 {
                return Err(Stop::Bug("smulo width".into()));
            }
            let x = cx.sext(a[0], 2 * w);
            let y = cx.sext(a[1], 2 * w);
            let p = cx.mul(x, y);
            let lo = cx.trunc(p, w);
            let e = cx.sext(lo, 2 * w);
            let o = cx.ne(e, p);
            vec![lo, o]
        } else if pre("uadd.sat") {
            let s = cx.add(a[0], a[1]);
            let o = cx.ult(s, a[0]);
            let m = cx.konst(u128::MAX, w);
            vec![cx.ite(o, m, s)]
        } else if pre("usub.sat") {
            let s = cx.sub(a[0], a[1]);
            let o = cx.ult(a[0], a[1]);
            let z = cx.konst(0, w);
            vec![cx.ite(o, z, s)]
        } else if pre("umin") {
            let c = cx.ult(a[0], a[1]);
            vec![cx.ite(c, a[0], a[1])]
        } else if pre("umax") {
            let c = cx.ult(a[0], a[1]);
            vec![cx.ite(c, a[1], a[0])]
        } else if pre("smin") {
            let c = cx.slt(a[0], a[1]);
            vec![cx.ite(c, a[0], a[1])]
        } else if pre("smax") {
            let c = cx.slt(a[0], a[1]);
            vec![cx.ite(c, a[1], a[0])]
        } else if pre("ctlz") {
            vec![cx.ctlz(a[0])]
        } else if pre("cttz") {
            vec![cx.cttz(a[0])]
        } else if pre("ctpop") {
            vec![cx.ctpop(a[0])]
        } else if pre("bswap") {
            vec![cx.bswap(a[0])]
        } else if pre("bitreverse") {
            vec![cx.bitreverse(a[0])]
        } else if pre("fshl") || pre("fshr") {
            let s = a[2];
            let k = (self.conc(st, s)? % w as u128) as u32;
            let cx = &mut self.cx;
            let k = if pre("fshl") { k } else { (w - k) % w };
            if k == 0 {
                vec![if pre("fshl") { a[0] } else { a[1] }]
            } else {
                // high w bits of (a:b) << k
                let hi = cx.extract(a[0], w - 1 - k, 0);
                let lo = cx.extract(a[1], w - 1, w - k);
                vec![cx.concat(hi, lo)]
            }
        } else if pre("abs.") {
            let z = cx.konst(0, w);
            let ng = cx.sub(z, a[0]);
            let c = cx.slt(a[0], z);
            vec![cx.ite(c, ng, a[0])]
        } else if pre("ucmp") || pre("scmp") {
            let rw: u32 = n[5..].split('.').next().unwrap()[1..].parse().unwrap();
            let (lt, gt) = if pre("ucmp") { (cx.ult(a[0], a[1]), cx.ult(a[1], a[0])) } else { (cx.slt(a[0], a[1]), cx.slt(a[1], a[0])) };
            let z = cx.bool_ite(gt, rw, 1, 0);
            let m = cx.konst(u128::MAX, rw);
            vec![cx.ite(lt, m, z)]
        } else if pre("is.constant") {
            vec![cx.konst(0, 1)]
        } else if pre("expect") || pre("launder") || pre("strip.invariant") || pre("threadlocal.address") || pre("ssa.copy") || pre("arithmetic.fence") {
            vec![a[0]]
        } else if pre("fabs") {
            vec![cx.fabs(a[0])]
        } else if pre("floor") {
            vec![cx.f1(Op::FFloor, a[0])]
        } else if pre("ceil") {
            vec![cx.f1(Op::FCeil, a[0])]
        } else if pre("trunc.") {
            vec![cx.f1(Op::FTrunc, a[0])]
        } else if pre("round.") {
            vec![cx.f1(Op::FRound, a[0])]
        } else if pre("rint") || pre("roundeven") || pre("nearbyint") {
            vec![cx.f1(Op::FRint, a[0])]
        } else if pre("sqrt") {
            vec![cx.f1(Op::FSqrt, a[0])]
        } else if pre("log10") {
            vec![cx.f1(Op::FLog10, a[0])]
        } else if pre("fma.") || pre("fmuladd") {
            if pre("fma.") {
                vec![cx.ffma(a[0], a[1], a[2])]
            } else {
                let m = cx.f2(Op::FMul, a[0], a[1]);
                vec![cx.f2(Op::FAdd, m, a[2])]
            }
        } else if pre("copysign") {
            let s = cx.extract(a[1], w - 1, w - 1);
            let m = cx.extract(a[0], w - 2, 0);
            vec![cx.concat(s, m)]
        } else if pre("minnum") || pre("maxnum") || pre("minimumnum") || pre("maximumnum") {
            let na = cx.fnan(a[0]);
            let nb = cx.fnan(a[1]);
            let c = if pre("min") { cx.flt(a[0], a[1]) } else { cx.flt(a[1], a[0]) };
            let x = cx.ite(c, a[0], a[1]);
            let y = cx.ite(nb, a[0], x);
            vec![cx.ite(na, a[1], y)]
        } else if pre("powi") {
            let b = sx(self.conc(st, a[1])?, 32) as i32;
            let cx = &mut self.cx;
            let recip = b < 0;
            let mut b = b;
            let one = if w == 64 { cx.konst(1f64.to_bits() as u128, 64) } else { cx.konst(1f32.to_bits() as u128, 32) };
            let mut r = one;
            let mut x = a[0];
            loop {
                if b & 1 != 0 {
                    r = if r == one { x } else { cx.f2(Op::FMul, r, x) };
                }
                b /= 2;
                if b == 0 {
                    break;
                }
                x = cx.f2(Op::FMul, x, x);
            }
            vec![if recip { cx.f2(Op::FDiv, one, r) } else { r }]
        } else if pre("pow.") {
            vec![cx.f2(Op::FPow, a[0], a[1])]
        } else if pre("fptoui.sat") || pre("fptosi.sat") {
            let rw: u32 = n[11..].split('.').next().unwrap()[1..].parse().unwrap();
            vec![cx.f_to_i(a[0], rw, pre("fptosi"))]
        } else if pre("is.fpclass") {
            let mk = cx.cv(a[1]).unwrap() as u32;
            let (eb, sb) = if w == 64 { (11, 52) } else { (8, 23) };
            let s = cx.extract(a[0], w - 1, w - 1);
            let ns = cx.not(s);
            let e = cx.extract(a[0], w - 2, sb);
            let f = cx.extract(a[0], sb - 1, 0);
            let z = cx.konst(0, eb);
            let o = cx.konst(u128::MAX, eb);
            let fz = cx.konst(0, sb);
            let e0 = cx.eq(e, z);
            let e1 = cx.eq(e, o);
            let f0 = cx.eq(f, fz);
            let nf0 = cx.not(f0);
            let q = cx.extract(f, sb - 1, sb - 1);
            let nq = cx.not(q);
            let nan = cx.and(e1, nf0);
            let qnan = cx.and(nan, q);
            let snan = cx.and(nan, nq);
            let inf = cx.and(e1, f0);
            let zero = cx.and(e0, f0);
            let sub = cx.and(e0, nf0);
            let x = cx.or(e0, e1);
            let norm = cx.not(x);
            let ps = [snan, qnan, cx.and(s, inf), cx.and(s, norm), cx.and(s, sub), cx.and(s, zero), cx.and(ns, zero), cx.and(ns, sub), cx.and(ns, norm), cx.and(ns, inf)];
            let mut r = cx.konst(0, 1);
            for (i, p) in ps.iter().enumerate() {
                if mk >> i & 1 == 1 {
                    r = cx.or(r, *p);
                }
            }
            vec![r]
        } else if pre("load.relative") {
            let p = self.conc(st, a[0])? as u64;
            let o = self.conc(st, a[1])? as u64;
            let d = self.read_c(st, p + o, 4)?;
            let cx = &mut self.cx;
            let d = cx.sext(d, 64);
            let pe = cx.konst(p as u128, 64);
            vec![cx.add(pe, d)]
        } else if pre("trap") {
            if st.allow_panic {
                return Err(Stop::AllowedPanic);
            }
            return Err(Stop::Violation("panic".into(), "trap".into()));
        } else if pre("assume") || pre("lifetime") || pre("experimental") || pre("x86.sse2.pause") || pre("dbg") || pre("prefetch") || pre("donothing") || pre("invariant") {
            vec![]
        } else {
            return Err(Stop::Bug(format!("unsupported intrinsic llvm.{n}")));
        };
        Ok(r)
    }
}

trait Pipe: Sized {
    fn pipe<T>(self, f: impl FnOnce(Self) -> T) -> T {
        f(self)
    }
}
impl Pipe for E {}

/// The 256-bit vector functions of core::arch, which are called (not inlined) from code compiled without AVX.
fn avx(d: &str) -> Option<&str> {
    let op = d.strip_prefix("core::core_arch::x86::avx")?.split("::_mm256_").nth(1)?;
    [
        "set1_epi8", "setzero_si256", "lddqu_si256", "loadu_si256", "load_si256", "movemask_epi8", "cmpeq_epi8", "cmpgt_epi8", "and_si256", "or_si256",
        "xor_si256", "andnot_si256", "min_epu8", "max_epu8", "min_epi8", "max_epi8",
    ]
    .into_iter()
    .find(|o| *o == op)
}

/// This process holds a lot and the machine has little left.
fn out_of_memory() -> bool {
    let pages = |s: &str| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let rss = std::fs::read_to_string("/proc/self/statm").map(|s| pages(&s)).unwrap_or(0) * 4096;
    if rss < 2 << 30 {
        return false;
    }
    let left = std::fs::read_to_string("/proc/meminfo")
        .ok()
        .and_then(|s| s.lines().find(|l| l.starts_with("MemAvailable")).map(pages))
        .map_or(u64::MAX, |k| k * 1024);
    rss > 12 << 30 || left < 3 << 30
}
