//! Textual LLVM IR reader (the subset rustc emits after fat LTO). Function bodies are parsed lazily.
use crate::expr::{Ctx, FxMap, E};
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Struct(Vec<TyId>, bool),
    Arr(u64, TyId),
    Vect(u32, TyId),
    Other,
}

#[derive(Clone, Copy, Debug)]
pub enum O {
    R(u32),
    C(E),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
    // float
    FFalse,
    FOeq,
    FOgt,
    FOge,
    FOlt,
    FOle,
    FOne,
    FOrd,
    FUeq,
    FUgt,
    FUge,
    FUlt,
    FUle,
    FUne,
    FUno,
    FTrue,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bit, // bitcast, ptrtoint/inttoptr of equal width
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Direct(Rc<str>),
    Indirect(O),
    Asm,
}
#[derive(Clone, Debug)]
pub enum I {
    Alloca { size: u64, align: u64, n: O },
    /// leaves: (byte offset, width)
    Load { p: O, leaves: Rc<[(u64, u32)]> },
    Store { p: O, vals: Vec<O>, leaves: Rc<[(u64, u32)]> },
    Gep { base: O, off: u64, terms: Vec<(O, u64)> },
    Bin { op: BinOp, a: O, b: O, ew: u32 },
    Icmp { p: Pred, a: O, b: O, ew: u32 },
    Fcmp { p: Pred, a: O, b: O },
    Fneg { a: O },
    Cast { op: CastOp, a: O, lanes: u32, fw: u32, tw: u32 },
    Select { c: O, a: Vec<O>, b: Vec<O>, lanes: u32 },
    Copy { a: Vec<O> },
    Insert { a: Vec<O>, off: usize, v: Vec<O> },
    ExtractElem { a: O, i: O, ew: u32 },
    InsertElem { a: O, v: O, i: O, ew: u32 },
    Shuffle { a: O, b: O, mask: Vec<i64>, ew: u32 },
    Call { f: Callee, args: Vec<Vec<O>>, dest: Option<u32> },
    Rmw { op: Rc<str>, p: O, v: O, w: u32 },
    CmpXchg { p: O, c: O, v: O, w: u32 },
    Nop,
    Br(u32),
    CondBr(O, u32, u32),
    Switch { v: O, def: u32, cases: Vec<(u128, u32)>, w: u32 },
    Ret(Vec<O>),
    Unreachable,
}
pub struct Ins {
    pub i: I,
    pub dst: u32, // first slot, u32::MAX if none
    pub nd: u32,
}
pub struct Block {
    pub phis: Vec<(u32, u32, Vec<(u32, Vec<O>)>)>, // dst, n, [(pred, vals)]
    pub ins: Vec<Ins>,
}
pub struct Func {
    pub name: Rc<str>,
    pub id: u32,
    pub params: Vec<(u32, u32)>, // slot, n
    pub nslots: u32,
    pub blocks: Vec<Block>,
}

pub struct GlobalDef {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub line: usize,
    pub constant: bool,
    pub external: bool,
    pub ty: TyId,
    pub init_pos: usize, // token start (byte offset in the line)
}

pub struct Module {
    pub text: String,
    pub lines: Vec<(usize, usize)>,
    pub tys: Vec<Ty>,
    tymap: HashMap<Ty, TyId>,
    named: HashMap<String, TyId>,
    named_src: HashMap<String, usize>, // line
    pub fdefs: HashMap<Rc<str>, (usize, usize)>, // line range
    pub fdecl: HashMap<Rc<str>, ()>,
    pub faddr: HashMap<Rc<str>, u64>,
    pub fbyaddr: HashMap<u64, Rc<str>>,
    pub globals: Vec<GlobalDef>,
    pub gbyname: HashMap<String, usize>,
    pub funcs: HashMap<Rc<str>, Rc<Func>>,
    pub leafcache: HashMap<TyId, Rc<[(u64, u32)]>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    W(String),   // word
    L(String),   // local %x
    G(String),   // global @x
    N(String),   // number literal (possibly hex float / negative)
    S(Vec<u8>),  // c"..."
    Q(String),   // plain quoted
    P(char),
    Meta,
    End,
}

pub struct Lex<'a> {
    s: &'a [u8],
    p: usize,
    pub t: T,
    pub start: usize,
}
fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
impl<'a> Lex<'a> {
    pub fn new(s: &'a [u8], p: usize) -> Self {
        let mut l = Lex { s, p, t: T::End, start: 0 };
        l.next();
        l
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.p += 1;
        let mut out = Vec::new();
        while self.p < self.s.len() && self.s[self.p] != b'"' {
            let c = self.s[self.p];
            if c == b'\\' {
                if self.s[self.p + 1] == b'\\' {
                    out.push(b'\\');
                    self.p += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                    out.push(u8::from_str_radix(h, 16).unwrap());
                    self.p += 3;
                }
            } else {
                out.push(c);
                self.p += 1;
            }
        }
        self.p += 1;
        out
    }
    fn ident(&mut self) -> String {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            return String::from_utf8_lossy(&self.quoted()).into_owned();
        }
        let st = self.p;
        while self.p < self.s.len() && is_id(self.s[self.p]) {
            self.p += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
    }
    pub fn next(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\n' || self.s[self.p] == b'\t') {
            self.p += 1;
        }
        self.start = self.p;
        if self.p >= self.s.len() || self.s[self.p] == b';' {
            self.t = T::End;
            return;
        }
        let c = self.s[self.p];
        self.t = match c {
            b'%' => {
                self.p += 1;
                T::L(self.ident())
            }
            b'@' => {
                self.p += 1;
                T::G(self.ident())
            }
            b'!' => T::Meta,
            b'"' => T::Q(String::from_utf8_lossy(&self.quoted()).into_owned()),
            b'c' if self.p + 1 < self.s.len() && self.s[self.p + 1] == b'"' => {
                self.p += 1;
                T::S(self.quoted())
            }
            b'0'..=b'9' | b'-' => {
                let st = self.p;
                self.p += 1;
                while self.p < self.s.len() && (is_id(self.s[self.p]) || self.s[self.p] == b'+') {
                    self.p += 1;
                }
                T::N(String::from_utf8_lossy(&self.s[st..self.p]).into_owned())
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => T::W(self.ident()),
            _ => {
                self.p += 1;
                T::P(c as char)
            }
        };
    }
    pub fn is(&self, w: &str) -> bool {
        matches!(&self.t, T::W(x) if x == w)
    }
    pub fn eat(&mut self, w: &str) -> bool {
        if self.is(w) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn isp(&self, c: char) -> bool {
        self.t == T::P(c)
    }
    pub fn eatp(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn expp(&mut self, c: char) {
        if !self.eatp(c) {
            panic!("parse: expected {c:?} got {:?} in: {}", self.t, String::from_utf8_lossy(&self.s[self.start.saturating_sub(80)..(self.start + 80).min(self.s.len())]));
        }
    }
    pub fn skip_balanced(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.t {
                T::P('(') => d += 1,
                T::P(')') => {
                    d -= 1;
                    if d == 0 {
                        self.next();
                        return;
                    }
                }
                T::End => return,
                T::Meta => {
                    self.p += 1;
                }
                _ => {}
            }
            self.next();
        }
    }
    pub fn int(&mut self) -> i128 {
        let v = match &self.t {
            T::N(s) => s.parse::<i128>().unwrap_or_else(|_| panic!("bad int {s}")),
            t => panic!("expected int, got {t:?}"),
        };
        self.next();
        v
    }
}

pub struct FnBuilder {
    names: HashMap<String, (u32, u32)>,
    blocks: HashMap<String, u32>,
    nslots: u32,
    nblocks: u32,
}
impl FnBuilder {
    fn block(&mut self, n: &str) -> u32 {
        if let Some(b) = self.blocks.get(n) {
            return *b;
        }
        let b = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n.to_string(), b);
        b
    }
}

impl Module {
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.tys.len() as u32;
        self.tys.push(t.clone());
        self.tymap.insert(t, i);
        i
    }
    pub fn load(text: String, cx: &mut Ctx) -> Module {
        let mut lines = Vec::new();
        let mut st = 0;
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                lines.push((st, i));
                st = i + 1;
            }
        }
        let mut m = Module {
            text,
            lines,
            tys: vec![],
            tymap: HashMap::new(),
            named: HashMap::new(),
            named_src: HashMap::new(),
            fdefs: HashMap::new(),
            fdecl: HashMap::new(),
            faddr: HashMap::new(),
            fbyaddr: HashMap::new(),
            globals: vec![],
            gbyname: HashMap::new(),
            funcs: HashMap::new(),
            leafcache: HashMap::new(),
        };
        let n = m.lines.len();
        let mut glines = Vec::new();
        let mut i = 0;
        let mut fnames: Vec<Rc<str>> = Vec::new();
        while i < n {
            let (a, b) = m.lines[i];
            let l = &m.text[a..b];
            if l.starts_with('%') {
                let mut lx = Lex::new(l.as_bytes(), 0);
                if let T::L(nm) = lx.t.clone() {
                    lx.next();
                    m.named_src.insert(nm, i);
                }
            } else if l.starts_with('@') {
                glines.push(i);
            } else if l.starts_with("define") || l.starts_with("declare") {
                let def = l.starts_with("define");
                let mut lx = Lex::new(l.as_bytes(), 0);
                let nm: Rc<str>;
                loop {
                    if let T::G(s) = &lx.t {
                        nm = s.as_str().into();
                        break;
                    }
                    if lx.t == T::End {
                        panic!("no name: {l}")
                    }
                    if lx.t == T::Meta {
                        lx.p += 1;
                    }
                    lx.next();
                }
                fnames.push(nm.clone());
                if def {
                    let s = i;
                    while &m.text[m.lines[i].0..m.lines[i].1] != "}" {
                        i += 1;
                    }
                    m.fdefs.insert(nm, (s, i));
                } else {
                    m.fdecl.insert(nm, ());
                }
            }
            i += 1;
        }
        for (k, f) in fnames.iter().enumerate() {
            let a = 0x10_0000 + 16 * k as u64;
            m.faddr.insert(f.clone(), a);
            m.fbyaddr.insert(a, f.clone());
        }
        let mut addr = 0x1000_0000u64;
        for li in glines {
            let (a, b) = m.lines[li];
            let l = m.text[a..b].to_string();
            let mut lx = Lex::new(l.as_bytes(), 0);
            let nm = match &lx.t {
                T::G(s) => s.clone(),
                _ => panic!(),
            };
            lx.next();
            lx.expp('=');
            let mut external = false;
            let mut constant = false;
            let mut alias = false;
            loop {
                match &lx.t {
                    T::W(w) => match w.as_str() {
                        "external" | "extern_weak" => external = true,
                        "global" => {
                            lx.next();
                            break;
                        }
                        "constant" => {
                            constant = true;
                            lx.next();
                            break;
                        }
                        "alias" | "ifunc" => {
                            alias = true;
                            lx.next();
                            break;
                        }
                        _ => {}
                    },
                    T::P('(') => {
                        lx.skip_balanced();
                        continue;
                    }
                    T::End => panic!("global {l}"),
                    _ => {}
                }
                lx.next();
            }
            if alias {
                continue;
            }
            let ty = m.parse_ty(&mut lx);
            let size = m.size(ty);
            let mut al = 16u64;
            if let Some(p) = l.rfind(", align ") {
                let t: String = l[p + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
                al = al.max(t.parse().unwrap_or(16));
            }
            addr = (addr + al - 1) / al * al;
            m.gbyname.insert(nm.clone(), m.globals.len());
            m.globals.push(GlobalDef { name: nm, addr, size, line: li, constant, external, ty, init_pos: lx.start });
            addr += size + 16;
        }
        let _ = cx;
        m
    }

    pub fn size_bits(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Int(w) => *w as u64,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vect(n, e) => *n as u64 * self.size_bits(*e),
            _ => self.size(t) * 8,
        }
    }
    pub fn align(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Int(w) => {
                let b = ((*w + 7) / 8).next_power_of_two() as u64;
                b.min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|x| self.align(*x)).max().unwrap_or(1)
                }
            }
            Ty::Arr(_, e) => self.align(*e),
            Ty::Vect(..) => ((self.size_bits(t) + 7) / 8).next_power_of_two(),
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = ((*w + 7) / 8) as u64;
                let a = self.align(t);
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, e) => n * self.size(*e),
            Ty::Vect(..) => {
                let b = (self.size_bits(t) + 7) / 8;
                b.next_power_of_two()
            }
            Ty::Struct(f, p) => {
                let mut o = 0;
                for x in f {
                    if !*p {
                        let a = self.align(*x);
                        o = (o + a - 1) / a * a;
                    }
                    o += self.size(*x);
                }
                let a = self.align(t);
                (o + a - 1) / a * a
            }
        }
    }
    pub fn field_off(&self, t: TyId, i: u64) -> (u64, TyId) {
        match &self.tys[t as usize] {
            Ty::Arr(_, e) => (i * self.size(*e), *e),
            Ty::Vect(_, e) => (i * self.size(*e), *e),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, x) in f.iter().enumerate() {
                    if !*p {
                        let a = self.align(*x);
                        o = (o + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return (o, *x);
                    }
                    o += self.size(*x);
                }
                panic!("field_off")
            }
            _ => panic!("field_off scalar"),
        }
    }
    /// flattened leaves: (byte offset, bit width)
    pub fn leaves(&mut self, t: TyId) -> Rc<[(u64, u32)]> {
        if let Some(l) = self.leafcache.get(&t) {
            return l.clone();
        }
        let mut v = Vec::new();
        self.leaves_rec(t, 0, &mut v);
        let r: Rc<[(u64, u32)]> = v.into();
        self.leafcache.insert(t, r.clone());
        r
    }
    fn leaves_rec(&self, t: TyId, base: u64, out: &mut Vec<(u64, u32)>) {
        match &self.tys[t as usize] {
            Ty::Void | Ty::Other => {}
            Ty::Struct(f, _) => {
                for i in 0..f.len() {
                    let (o, x) = self.field_off(t, i as u64);
                    self.leaves_rec(x, base + o, out);
                }
            }
            Ty::Arr(n, e) => {
                for i in 0..*n {
                    self.leaves_rec(*e, base + i * self.size(*e), out);
                }
            }
            // vectors wider than an expression can be are kept lane by lane, like arrays
            Ty::Vect(n, e) if self.size_bits(t) > 128 => {
                let b = self.size_bits(*e);
                for i in 0..*n as u64 {
                    out.push((base + i * b / 8, b as u32));
                }
            }
            _ => out.push((base, self.size_bits(t) as u32)),
        }
    }
    fn nleaves(&mut self, t: TyId) -> u32 {
        self.leaves(t).len() as u32
    }
    /// leaf index range of an extractvalue/insertvalue path
    fn leaf_path(&mut self, t: TyId, path: &[u64]) -> (usize, TyId) {
        let mut cur = t;
        let mut off = 0usize;
        for &i in path {
            match self.tys[cur as usize].clone() {
                Ty::Struct(f, _) => {
                    for k in 0..i {
                        off += self.nleaves(f[k as usize]) as usize;
                    }
                    cur = f[i as usize];
                }
                Ty::Arr(_, e) => {
                    off += i as usize * self.nleaves(e) as usize;
                    cur = e;
                }
                _ => panic!("leaf_path"),
            }
        }
        (off, cur)
    }

    pub fn try_ty(&mut self, lx: &mut Lex) -> Option<TyId> {
        let ok = match &lx.t {
            T::W(w) => {
                matches!(w.as_str(), "ptr" | "void" | "double" | "float" | "half" | "metadata" | "label" | "token" | "x86_mmx" | "opaque" | "fp128" | "x86_fp80" | "bfloat")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            T::P('{') | T::P('[') | T::P('<') => true,
            T::L(_) => true,
            _ => false,
        };
        if ok {
            Some(self.parse_ty(lx))
        } else {
            None
        }
    }
    pub fn parse_ty(&mut self, lx: &mut Lex) -> TyId {
        match lx.t.clone() {
            T::W(w) => {
                lx.next();
                match w.as_str() {
                    "ptr" => {
                        if lx.is("addrspace") {
                            lx.next();
                            lx.skip_balanced();
                        }
                        self.ty(Ty::Ptr)
                    }
                    "void" => self.ty(Ty::Void),
                    "double" => self.ty(Ty::F64),
                    "float" => self.ty(Ty::F32),
                    "metadata" | "label" | "token" | "opaque" | "half" | "fp128" | "x86_fp80" | "x86_mmx" | "bfloat" => self.ty(Ty::Other),
                    _ if w.starts_with('i') => {
                        let n = w[1..].parse().unwrap_or_else(|_| panic!("type {w}"));
                        self.ty(Ty::Int(n))
                    }
                    _ => panic!("type word {w}"),
                }
            }
            T::P('[') => {
                lx.next();
                let n = lx.int() as u64;
                assert!(lx.eat("x"));
                let e = self.parse_ty(lx);
                lx.expp(']');
                self.ty(Ty::Arr(n, e))
            }
            T::P('{') => {
                lx.next();
                let f = self.ty_list(lx, '}');
                self.ty(Ty::Struct(f, false))
            }
            T::P('<') => {
                lx.next();
                if lx.eatp('{') {
                    let f = self.ty_list(lx, '}');
                    lx.expp('>');
                    self.ty(Ty::Struct(f, true))
                } else {
                    let n = lx.int() as u32;
                    assert!(lx.eat("x"));
                    let e = self.parse_ty(lx);
                    lx.expp('>');
                    self.ty(Ty::Vect(n, e))
                }
            }
            T::L(nm) => {
                lx.next();
                if let Some(t) = self.named.get(&nm) {
                    return *t;
                }
                let li = *self.named_src.get(&nm).unwrap_or_else(|| panic!("named type {nm}"));
                let (a, b) = self.lines[li];
                let l = self.text[a..b].to_string();
                let mut x = Lex::new(l.as_bytes(), 0);
                x.next();
                x.expp('=');
                assert!(x.eat("type"));
                let t = self.parse_ty(&mut x);
                self.named.insert(nm, t);
                t
            }
            t => panic!("type token {t:?}"),
        }
    }
    fn ty_list(&mut self, lx: &mut Lex, close: char) -> Vec<TyId> {
        let mut f = Vec::new();
        if lx.eatp(close) {
            return f;
        }
        loop {
            f.push(self.parse_ty(lx));
            if lx.eatp(',') {
                continue;
            }
            lx.expp(close);
            return f;
        }
    }

    /// constant of type ty -> leaves
    pub fn konst(&mut self, cx: &mut Ctx, lx: &mut Lex, ty: TyId) -> Vec<E> {
        match lx.t.clone() {
            T::N(s) => {
                lx.next();
                let t = self.tys[ty as usize].clone();
                let e = match t {
                    Ty::Int(w) => {
                        let v = if s.starts_with('-') { s.parse::<i128>().unwrap() as u128 } else { s.parse::<u128>().unwrap_or_else(|_| panic!("int {s}")) };
                        cx.konst(v, w)
                    }
                    Ty::F64 | Ty::F32 => {
                        let d = if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { s.parse::<f64>().unwrap() };
                        if t == Ty::F64 {
                            let bits = if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { d.to_bits() };
                            cx.konst(bits as u128, 64)
                        } else {
                            cx.konst((d as f32).to_bits() as u128, 32)
                        }
                    }
                    _ => panic!("number for type {t:?}"),
                };
                vec![e]
            }
            T::W(w) => match w.as_str() {
                "true" => {
                    lx.next();
                    vec![cx.konst(1, 1)]
                }
                "false" => {
                    lx.next();
                    vec![cx.konst(0, 1)]
                }
                "null" | "none" => {
                    lx.next();
                    vec![cx.konst(0, 64)]
                }
                "undef" | "poison" | "zeroinitializer" => {
                    lx.next();
                    let l = self.leaves(ty);
                    l.iter().map(|(_, w)| cx.konst(0, *w)).collect()
                }
                "splat" => {
                    lx.next();
                    lx.expp('(');
                    let et = self.parse_ty(lx);
                    let e = self.konst(cx, lx, et)[0];
                    lx.expp(')');
                    let n = match self.tys[ty as usize] {
                        Ty::Vect(n, _) => n,
                        _ => panic!("splat"),
                    };
                    let v: Vec<E> = (0..n).map(|_| e).collect();
                    vec![cx.concat_list(&v)]
                }
                "getelementptr" => {
                    lx.next();
                    while matches!(&lx.t, T::W(x) if matches!(x.as_str(),"inbounds"|"nuw"|"nusw"|"inrange")) {
                        lx.next();
                        if lx.isp('(') && lx.s[lx.p..].iter().take(3).any(|c| *c == b'-') {
                            lx.skip_balanced();
                        }
                    }
                    lx.expp('(');
                    let st = self.parse_ty(lx);
                    lx.expp(',');
                    let pt = self.parse_ty(lx);
                    let base = self.konst(cx, lx, pt)[0];
                    let mut off = 0i128;
                    let mut cur = st;
                    let mut first = true;
                    while lx.eatp(',') {
                        let it = self.parse_ty(lx);
                        let ie = self.konst(cx, lx, it)[0];
                        let iw = cx.w(ie);
                        let iv = crate::expr::sx(cx.cv(ie).expect("const gep idx"), iw);
                        if first {
                            off += iv * self.size(st) as i128;
                            first = false;
                        } else {
                            let (o, t) = match self.tys[cur as usize].clone() {
                                Ty::Arr(_, e) => (iv * self.size(e) as i128, e),
                                _ => {
                                    let (o, t) = self.field_off(cur, iv as u64);
                                    (o as i128, t)
                                }
                            };
                            off += o;
                            cur = t;
                        }
                    }
                    lx.expp(')');
                    let o = cx.konst(off as u128, 64);
                    vec![cx.add(base, o)]
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" => {
                    lx.next();
                    lx.expp('(');
                    let ft = self.parse_ty(lx);
                    let v = self.konst(cx, lx, ft)[0];
                    assert!(lx.eat("to"));
                    let tt = self.parse_ty(lx);
                    lx.expp(')');
                    let tw = self.size_bits(tt) as u32;
                    let vw = cx.w(v);
                    vec![if tw < vw {
                        cx.trunc(v, tw)
                    } else if w == "sext" {
                        cx.sext(v, tw)
                    } else {
                        cx.zext(v, tw)
                    }]
                }
                "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                    lx.next();
                    while matches!(&lx.t, T::W(x) if matches!(x.as_str(),"nuw"|"nsw"|"exact")) {
                        lx.next();
                    }
                    lx.expp('(');
                    let t1 = self.parse_ty(lx);
                    let a = self.konst(cx, lx, t1)[0];
                    lx.expp(',');
                    let t2 = self.parse_ty(lx);
                    let b = self.konst(cx, lx, t2)[0];
                    lx.expp(')');
                    vec![match w.as_str() {
                        "add" => cx.add(a, b),
                        "sub" => cx.sub(a, b),
                        "mul" => cx.mul(a, b),
                        "xor" => cx.xor(a, b),
                        "and" => cx.and(a, b),
                        "or" => cx.or(a, b),
                        "shl" => cx.shl(a, b),
                        _ => cx.lshr(a, b),
                    }]
                }
                "dso_local_equivalent" | "no_cfi" => {
                    lx.next();
                    self.konst(cx, lx, ty)
                }
                _ => panic!("constant word {w}"),
            },
            T::G(nm) => {
                lx.next();
                let a = if let Some(a) = self.faddr.get(nm.as_str()) {
                    *a
                } else if let Some(g) = self.gbyname.get(&nm) {
                    self.globals[*g].addr
                } else {
                    panic!("unknown global {nm}")
                };
                vec![cx.konst(a as u128, 64)]
            }
            T::S(b) => {
                lx.next();
                b.iter().map(|x| E(*x as u32)).collect()
            }
            T::P('{') | T::P('[') => {
                let close = if lx.isp('{') { '}' } else { ']' };
                lx.next();
                let mut v = Vec::new();
                if lx.eatp(close) {
                    return v;
                }
                loop {
                    let t = self.parse_ty(lx);
                    v.extend(self.konst(cx, lx, t));
                    if lx.eatp(',') {
                        continue;
                    }
                    lx.expp(close);
                    return v;
                }
            }
            T::P('<') => {
                lx.next();
                if lx.eatp('{') {
                    let mut v = Vec::new();
                    loop {
                        let t = self.parse_ty(lx);
                        v.extend(self.konst(cx, lx, t));
                        if lx.eatp(',') {
                            continue;
                        }
                        lx.expp('}');
                        lx.expp('>');
                        return v;
                    }
                }
                let mut v = Vec::new();
                loop {
                    let t = self.parse_ty(lx);
                    v.extend(self.konst(cx, lx, t));
                    if lx.eatp(',') {
                        continue;
                    }
                    lx.expp('>');
                    break;
                }
                v.reverse();
                vec![cx.concat_list(&v)]
            }
            t => panic!("constant token {t:?}"),
        }
    }
    pub fn global_bytes(&mut self, cx: &mut Ctx, gi: usize) -> Vec<E> {
        let g = &self.globals[gi];
        let mut out = vec![E(0); g.size as usize];
        if g.external {
            return out;
        }
        let (a, b) = self.lines[g.line];
        let l = self.text[a..b].to_string();
        let (ty, pos) = (g.ty, g.init_pos);
        let mut lx = Lex::new(l.as_bytes(), pos);
        let vals = self.konst(cx, &mut lx, ty);
        let lv = self.leaves(ty);
        assert_eq!(vals.len(), lv.len(), "global init {l}");
        for ((o, w), e) in lv.iter().zip(vals) {
            let nb = (*w + 7) / 8;
            let e = if nb * 8 != *w { cx.zext(e, nb * 8) } else { e };
            for k in 0..nb {
                out[(*o + k as u64) as usize] = cx.extract(e, k * 8 + 7, k * 8);
            }
        }
        out
    }

    fn operand(&mut self, cx: &mut Ctx, lx: &mut Lex, fb: &mut FnBuilder, ty: TyId) -> Vec<O> {
        if let T::L(nm) = &lx.t {
            let nm = nm.clone();
            lx.next();
            let n = self.nleaves(ty);
            let s = self.slot(fb, &nm, n);
            return (0..n).map(|i| O::R(s + i)).collect();
        }
        self.konst(cx, lx, ty).into_iter().map(O::C).collect()
    }
    fn slot(&mut self, fb: &mut FnBuilder, nm: &str, n: u32) -> u32 {
        if let Some((s, k)) = fb.names.get(nm) {
            assert_eq!(*k, n, "slot size {nm}");
            return *s;
        }
        let s = fb.nslots;
        fb.nslots += n;
        fb.names.insert(nm.to_string(), (s, n));
        s
    }
    fn skip_attrs(&mut self, lx: &mut Lex) {
        loop {
            let w = match &lx.t {
                T::W(w) => w.clone(),
                T::Q(_) => {
                    lx.next();
                    continue;
                }
                _ => return,
            };
            match w.as_str() {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "trunc" | "sub" | "add" | "xor" | "splat" | "bitcast" => return,
                "asm" => return,
                "ptr" | "void" | "double" | "float" | "metadata" | "label" | "token" => return,
                _ if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) => return,
                "align" => {
                    lx.next();
                    if lx.isp('(') {
                        lx.skip_balanced();
                    } else {
                        lx.next();
                    }
                }
                _ => {
                    lx.next();
                    if lx.isp('(') {
                        lx.skip_balanced();
                    }
                }
            }
        }
    }

    pub fn func(&mut self, cx: &mut Ctx, name: &str) -> Option<Rc<Func>> {
        if let Some(f) = self.funcs.get(name) {
            return Some(f.clone());
        }
        let (s, e) = *self.fdefs.get(name)?;
        // header
        let mut fb = FnBuilder { names: HashMap::new(), blocks: HashMap::new(), nslots: 0, nblocks: 0 };
        let hl = self.text[self.lines[s].0..self.lines[s].1].to_string();
        let mut lx = Lex::new(hl.as_bytes(), 0);
        loop {
            if matches!(&lx.t, T::G(_)) {
                break;
            }
            lx.next();
        }
        lx.next();
        lx.expp('(');
        let mut params = Vec::new();
        let mut anon = 0u32;
        if !lx.eatp(')') {
            loop {
                if lx.isp('.') || lx.is("...") {
                    lx.next();
                    break;
                }
                let t = self.parse_ty(&mut lx);
                self.skip_attrs(&mut lx);
                let n = self.nleaves(t);
                let nm = if let T::L(x) = &lx.t {
                    let x = x.clone();
                    lx.next();
                    x
                } else {
                    let x = anon.to_string();
                    x
                };
                if nm.bytes().all(|c| c.is_ascii_digit()) {
                    anon += 1;
                }
                let s = self.slot(&mut fb, &nm, n);
                params.push((s, n));
                if lx.eatp(',') {
                    continue;
                }
                break;
            }
        }
        // lines -> logical lines
        let mut logical: Vec<String> = Vec::new();
        for li in s + 1..e {
            let l = &self.text[self.lines[li].0..self.lines[li].1];
            if l.is_empty() || l.starts_with("; ") || l.trim_start().starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                logical.push(l.to_string());
            } else if l.starts_with("   ") || l.starts_with("  ]") {
                let p = logical.last_mut().unwrap();
                p.push(' ');
                p.push_str(l);
            } else {
                logical.push(l.to_string());
            }
        }
        let mut blocks: Vec<Option<Block>> = Vec::new();
        // entry label
        let mut cur_name: Option<u32> = None;
        let mut cur = Block { phis: vec![], ins: vec![] };
        let put = |blocks: &mut Vec<Option<Block>>, id: u32, b: Block| {
            while blocks.len() <= id as usize {
                blocks.push(None);
            }
            blocks[id as usize] = Some(b);
        };
        for l in &logical {
            if !l.starts_with(' ') {
                // label
                let mut lx = Lex::new(l.as_bytes(), 0);
                let nm = match lx.t.clone() {
                    T::W(w) => w,
                    T::N(w) => w,
                    T::Q(w) => w,
                    t => panic!("label {t:?} {l}"),
                };
                lx.next();
                let id = fb.block(&nm);
                if let Some(c) = cur_name {
                    put(&mut blocks, c, std::mem::replace(&mut cur, Block { phis: vec![], ins: vec![] }));
                } else {
                    assert!(cur.ins.is_empty());
                }
                cur_name = Some(id);
                continue;
            }
            if cur_name.is_none() {
                // unnamed entry: named by the next number
                let nm = anon.to_string();
                cur_name = Some(fb.block(&nm));
            }
            self.parse_ins(cx, l, &mut fb, &mut cur);
        }
        if let Some(c) = cur_name {
            put(&mut blocks, c, cur);
        }
        let blocks: Vec<Block> = blocks.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], ins: vec![Ins { i: I::Unreachable, dst: u32::MAX, nd: 0 }] })).collect();
        let nm: Rc<str> = name.into();
        let f = Rc::new(Func { name: nm.clone(), id: self.funcs.len() as u32, params, nslots: fb.nslots, blocks });
        self.funcs.insert(nm, f.clone());
        Some(f)
    }

    fn label(&mut self, lx: &mut Lex, fb: &mut FnBuilder) -> u32 {
        assert!(lx.eat("label"), "label expected: {:?}", lx.t);
        let nm = match &lx.t {
            T::L(n) => n.clone(),
            t => panic!("label name {t:?}"),
        };
        lx.next();
        fb.block(&nm)
    }

    fn parse_ins(&mut self, cx: &mut Ctx, l: &str, fb: &mut FnBuilder, blk: &mut Block) {
        let mut lx = Lex::new(l.as_bytes(), 0);
        let lx = &mut lx;
        let mut dstname: Option<String> = None;
        if let T::L(nm) = &lx.t {
            dstname = Some(nm.clone());
            lx.next();
            lx.expp('=');
        }
        let op = match &lx.t {
            T::W(w) => w.clone(),
            t => panic!("opcode {t:?}: {l}"),
        };
        lx.next();
        let i64t = self.ty(Ty::Int(64));
        let _ = i64t;
        macro_rules! done {
            ($i:expr, $n:expr) => {{
                let i = $i;
                let n: u32 = $n;
                let dst = match &dstname {
                    Some(d) => self.slot(fb, d, n),
                    None => u32::MAX,
                };
                blk.ins.push(Ins { i, dst, nd: n });
                return;
            }};
        }
        match op.as_str() {
            "alloca" => {
                lx.eat("inalloca");
                let t = self.parse_ty(lx);
                let mut n = O::C(cx.konst(1, 64));
                let mut al = self.align(t);
                while lx.eatp(',') {
                    if lx.eat("align") {
                        al = lx.int() as u64;
                    } else if lx.t == T::Meta {
                        break;
                    } else {
                        let it = self.parse_ty(lx);
                        n = self.operand(cx, lx, fb, it)[0];
                    }
                }
                let size = self.size(t);
                done!(I::Alloca { size, align: al, n }, 1)
            }
            "load" => {
                lx.eat("atomic");
                lx.eat("volatile");
                let t = self.parse_ty(lx);
                lx.expp(',');
                let pt = self.parse_ty(lx);
                let p = self.operand(cx, lx, fb, pt)[0];
                let leaves = self.leaves(t);
                let n = leaves.len() as u32;
                done!(I::Load { p, leaves }, n)
            }
            "store" => {
                lx.eat("atomic");
                lx.eat("volatile");
                let t = self.parse_ty(lx);
                let vals = self.operand(cx, lx, fb, t);
                lx.expp(',');
                let pt = self.parse_ty(lx);
                let p = self.operand(cx, lx, fb, pt)[0];
                let leaves = self.leaves(t);
                done!(I::Store { p, vals, leaves }, 0)
            }
            "getelementptr" => {
                while matches!(&lx.t, T::W(x) if matches!(x.as_str(),"inbounds"|"nuw"|"nusw")) {
                    lx.next();
                }
                let st = self.parse_ty(lx);
                lx.expp(',');
                let pt = self.parse_ty(lx);
                let base = self.operand(cx, lx, fb, pt)[0];
                let mut off = 0i128;
                let mut terms = Vec::new();
                let mut cur = st;
                let mut first = true;
                while lx.eatp(',') {
                    if lx.t == T::Meta {
                        break;
                    }
                    let it = self.parse_ty(lx);
                    let o = self.operand(cx, lx, fb, it)[0];
                    let scale_ty;
                    if first {
                        scale_ty = st;
                    } else {
                        match self.tys[cur as usize].clone() {
                            Ty::Arr(_, e) | Ty::Vect(_, e) => {
                                scale_ty = e;
                                cur = e;
                            }
                            Ty::Struct(..) => {
                                let e = match o {
                                    O::C(e) => e,
                                    _ => panic!(),
                                };
                                let (fo, ft) = self.field_off(cur, cx.cv(e).unwrap() as u64);
                                off += fo as i128;
                                cur = ft;
                                continue;
                            }
                            t => panic!("gep into {t:?}"),
                        }
                    }
                    first = false;
                    let sz = self.size(scale_ty);
                    match o {
                        O::C(e) => {
                            let w = cx.w(e);
                            off += crate::expr::sx(cx.cv(e).unwrap(), w) * sz as i128;
                        }
                        _ => terms.push((o, sz)),
                    }
                }
                done!(I::Gep { base, off: off as u64, terms }, 1)
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while matches!(&lx.t, T::W(x) if matches!(x.as_str(),"nuw"|"nsw"|"exact"|"disjoint"|"fast"|"nnan"|"ninf"|"nsz"|"arcp"|"contract"|"afn"|"reassoc")) {
                    lx.next();
                }
                let t = self.parse_ty(lx);
                let a = self.operand(cx, lx, fb, t)[0];
                lx.expp(',');
                let b = self.operand(cx, lx, fb, t)[0];
                let ew = match self.tys[t as usize] {
                    Ty::Vect(_, e) => self.size_bits(e) as u32,
                    _ => self.size_bits(t) as u32,
                };
                let o = match op.as_str() {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "fadd" => BinOp::FAdd,
                    "fsub" => BinOp::FSub,
                    "fmul" => BinOp::FMul,
                    "fdiv" => BinOp::FDiv,
                    _ => BinOp::FRem,
                };
                done!(I::Bin { op: o, a, b, ew }, 1)
            }
            "fneg" => {
                while matches!(&lx.t, T::W(x) if matches!(x.as_str(),"fast"|"nnan"|"ninf"|"nsz")) {
                    lx.next();
                }
                let t = self.parse_ty(lx);
                let a = self.operand(cx, lx, fb, t)[0];
                done!(I::Fneg { a }, 1)
            }
            "icmp" | "fcmp" => {
                while matches!(&lx.t, T::W(x) if matches!(x.as_str(),"samesign"|"fast"|"nnan"|"ninf"|"nsz"|"arcp"|"contract"|"afn"|"reassoc")) {
                    lx.next();
                }
                let p = match &lx.t {
                    T::W(w) => w.clone(),
                    _ => panic!(),
                };
                lx.next();
                let t = self.parse_ty(lx);
                let a = self.operand(cx, lx, fb, t)[0];
                lx.expp(',');
                let b = self.operand(cx, lx, fb, t)[0];
                let ew = match self.tys[t as usize] {
                    Ty::Vect(_, e) => self.size_bits(e) as u32,
                    _ => self.size_bits(t) as u32,
                };
                if op == "icmp" {
                    let p = match p.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => panic!("icmp {p}"),
                    };
                    done!(I::Icmp { p, a, b, ew }, 1)
                } else {
                    let p = match p.as_str() {
                        "false" => Pred::FFalse,
                        "oeq" => Pred::FOeq,
                        "ogt" => Pred::FOgt,
                        "oge" => Pred::FOge,
                        "olt" => Pred::FOlt,
                        "ole" => Pred::FOle,
                        "one" => Pred::FOne,
                        "ord" => Pred::FOrd,
                        "ueq" => Pred::FUeq,
                        "ugt" => Pred::FUgt,
                        "uge" => Pred::FUge,
                        "ult" => Pred::FUlt,
                        "ule" => Pred::FUle,
                        "une" => Pred::FUne,
                        "uno" => Pred::FUno,
                        "true" => Pred::FTrue,
                        _ => panic!("fcmp {p}"),
                    };
                    done!(I::Fcmp { p, a, b }, 1)
                }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "addrspacecast" => {
                while matches!(&lx.t, T::W(x) if matches!(x.as_str(),"nuw"|"nsw"|"nneg"|"fast"|"nnan"|"ninf"|"nsz"|"contract"|"reassoc")) {
                    lx.next();
                }
                let ft = self.parse_ty(lx);
                let a = self.operand(cx, lx, fb, ft)[0];
                assert!(lx.eat("to"));
                let tt = self.parse_ty(lx);
                let (lanes, fe) = match self.tys[ft as usize] {
                    Ty::Vect(n, e) if op != "bitcast" => (n, e),
                    _ => (1, ft),
                };
                let te = match self.tys[tt as usize] {
                    Ty::Vect(_, e) if op != "bitcast" => e,
                    _ => tt,
                };
                let fw = self.size_bits(fe) as u32;
                let tw = self.size_bits(te) as u32;
                let o = match op.as_str() {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "fptrunc" => CastOp::FpTrunc,
                    "fpext" => CastOp::FpExt,
                    "fptoui" => CastOp::FpToUi,
                    "fptosi" => CastOp::FpToSi,
                    "uitofp" => CastOp::UiToFp,
                    "sitofp" => CastOp::SiToFp,
                    _ => {
                        if tw < fw {
                            CastOp::Trunc
                        } else if tw > fw {
                            CastOp::ZExt
                        } else {
                            CastOp::Bit
                        }
                    }
                };
                done!(I::Cast { op: o, a, lanes, fw, tw }, 1)
            }
            "select" => {
                while matches!(&lx.t, T::W(x) if matches!(x.as_str(),"fast"|"nnan"|"ninf"|"nsz"|"contract"|"reassoc"|"arcp"|"afn")) {
                    lx.next();
                }
                let ct = self.parse_ty(lx);
                let c = self.operand(cx, lx, fb, ct)[0];
                lx.expp(',');
                let t = self.parse_ty(lx);
                let a = self.operand(cx, lx, fb, t);
                lx.expp(',');
                let t2 = self.parse_ty(lx);
                let b = self.operand(cx, lx, fb, t2);
                let lanes = match self.tys[ct as usize] {
                    Ty::Vect(n, _) => n,
                    _ => 1,
                };
                let n = a.len() as u32;
                done!(I::Select { c, a, b, lanes }, n)
            }
            "freeze" => {
                let t = self.parse_ty(lx);
                let a = self.operand(cx, lx, fb, t);
                let n = a.len() as u32;
                done!(I::Copy { a }, n)
            }
            "extractvalue" => {
                let t = self.parse_ty(lx);
                let a = self.operand(cx, lx, fb, t);
                let mut path = Vec::new();
                while lx.eatp(',') {
                    if lx.t == T::Meta {
                        break;
                    }
                    path.push(lx.int() as u64);
                }
                let (off, et) = self.leaf_path(t, &path);
                let n = self.nleaves(et);
                done!(I::Copy { a: a[off..off + n as usize].to_vec() }, n)
            }
            "insertvalue" => {
                let t = self.parse_ty(lx);
                let a = self.operand(cx, lx, fb, t);
                lx.expp(',');
                let vt = self.parse_ty(lx);
                let v = self.operand(cx, lx, fb, vt);
                let mut path = Vec::new();
                while lx.eatp(',') {
                    if lx.t == T::Meta {
                        break;
                    }
                    path.push(lx.int() as u64);
                }
                let (off, _) = self.leaf_path(t, &path);
                let n = a.len() as u32;
                done!(I::Insert { a, off, v }, n)
            }
            "extractelement" => {
                let t = self.parse_ty(lx);
                let a = self.operand(cx, lx, fb, t)[0];
                lx.expp(',');
                let it = self.parse_ty(lx);
                let i = self.operand(cx, lx, fb, it)[0];
                let ew = match self.tys[t as usize] {
                    Ty::Vect(_, e) => self.size_bits(e) as u32,
                    _ => panic!(),
                };
                done!(I::ExtractElem { a, i, ew }, 1)
            }
            "insertelement" => {
                let t = self.parse_ty(lx);
                let a = self.operand(cx, lx, fb, t)[0];
                lx.expp(',');
                let vt = self.parse_ty(lx);
                let v = self.operand(cx, lx, fb, vt)[0];
                lx.expp(',');
                let it = self.parse_ty(lx);
                let i = self.operand(cx, lx, fb, it)[0];
                let ew = self.size_bits(vt) as u32;
                done!(I::InsertElem { a, v, i, ew }, 1)
            }
            "shufflevector" => {
                let t = self.parse_ty(lx);
                let a = self.operand(cx, lx, fb, t)[0];
                lx.expp(',');
                let t2 = self.parse_ty(lx);
                let b = self.operand(cx, lx, fb, t2)[0];
                lx.expp(',');
                let mt = self.parse_ty(lx);
                let n = match self.tys[mt as usize] {
                    Ty::Vect(n, _) => n,
                    _ => panic!(),
                };
                let mut mask = Vec::new();
                if lx.is("zeroinitializer") || lx.is("poison") || lx.is("undef") {
                    mask = vec![0; n as usize];
                } else {
                    lx.expp('<');
                    loop {
                        let et = self.parse_ty(lx);
                        let _ = et;
                        if lx.is("poison") || lx.is("undef") {
                            lx.next();
                            mask.push(-1);
                        } else {
                            mask.push(lx.int() as i64);
                        }
                        if lx.eatp(',') {
                            continue;
                        }
                        lx.expp('>');
                        break;
                    }
                }
                let ew = match self.tys[t as usize] {
                    Ty::Vect(_, e) => self.size_bits(e) as u32,
                    _ => panic!(),
                };
                done!(I::Shuffle { a, b, mask, ew }, 1)
            }
            "phi" => {
                while matches!(&lx.t, T::W(x) if matches!(x.as_str(),"fast"|"nnan"|"ninf"|"nsz"|"contract"|"reassoc")) {
                    lx.next();
                }
                let t = self.parse_ty(lx);
                let mut inc = Vec::new();
                loop {
                    lx.expp('[');
                    let v = self.operand(cx, lx, fb, t);
                    lx.expp(',');
                    let b = match &lx.t {
                        T::L(n) => n.clone(),
                        t => panic!("phi {t:?}"),
                    };
                    lx.next();
                    lx.expp(']');
                    inc.push((fb.block(&b), v));
                    if lx.isp(',') {
                        lx.next();
                        if lx.isp('[') {
                            continue;
                        }
                    }
                    break;
                }
                let n = self.nleaves(t);
                let d = self.slot(fb, &dstname.unwrap(), n);
                blk.phis.push((d, n, inc));
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let invoke = op == "invoke";
                if op != "call" && op != "invoke" {
                    lx.next();
                }
                // skip attrs up to type
                loop {
                    self.skip_attrs(lx);
                    break;
                }
                let rt = self.parse_ty(lx);
                if lx.isp('(') {
                    lx.skip_balanced();
                }
                let n = self.nleaves(rt);
                let f = match lx.t.clone() {
                    T::G(g) => {
                        lx.next();
                        Callee::Direct(g.as_str().into())
                    }
                    T::W(w) if w == "asm" => Callee::Asm,
                    _ => {
                        let pt = self.ty(Ty::Ptr);
                        Callee::Indirect(self.operand(cx, lx, fb, pt)[0])
                    }
                };
                let mut args = Vec::new();
                let skip = match &f {
                    Callee::Asm => {
                        lx.t = T::End;
                        true
                    }
                    Callee::Direct(n) => n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.prefetch"),
                    _ => false,
                };
                if skip {
                    done!(if matches!(f, Callee::Asm) && n > 0 { I::Call { f, args, dest: None } } else { I::Nop }, n)
                }
                lx.expp('(');
                if !lx.eatp(')') {
                    loop {
                        let t = self.parse_ty(lx);
                        if self.tys[t as usize] == Ty::Other {
                            // metadata argument
                            while !lx.isp(',') && !lx.isp(')') {
                                if lx.t == T::Meta {
                                    lx.p += 1;
                                }
                                lx.next();
                            }
                        } else {
                            self.skip_attrs(lx);
                            args.push(self.operand(cx, lx, fb, t));
                        }
                        if lx.eatp(',') {
                            continue;
                        }
                        lx.expp(')');
                        break;
                    }
                }
                let mut dest = None;
                if invoke {
                    while !lx.is("to") {
                        if lx.t == T::End {
                            panic!("invoke {l}")
                        }
                        if lx.t == T::Meta {
                            lx.p += 1;
                        }
                        lx.next();
                    }
                    lx.next();
                    dest = Some(self.label(lx, fb));
                }
                done!(I::Call { f, args, dest }, n)
            }
            "landingpad" => {
                let t = self.parse_ty(lx);
                let n = self.nleaves(t);
                done!(I::Unreachable, n)
            }
            "resume" | "unreachable" => done!(I::Unreachable, 0),
            "fence" => done!(I::Nop, 0),
            "atomicrmw" => {
                lx.eat("volatile");
                let k = match &lx.t {
                    T::W(w) => w.clone(),
                    _ => panic!(),
                };
                lx.next();
                let pt = self.parse_ty(lx);
                let p = self.operand(cx, lx, fb, pt)[0];
                lx.expp(',');
                let t = self.parse_ty(lx);
                let v = self.operand(cx, lx, fb, t)[0];
                let w = self.size_bits(t) as u32;
                done!(I::Rmw { op: k.as_str().into(), p, v, w }, 1)
            }
            "cmpxchg" => {
                lx.eat("weak");
                lx.eat("volatile");
                let pt = self.parse_ty(lx);
                let p = self.operand(cx, lx, fb, pt)[0];
                lx.expp(',');
                let t = self.parse_ty(lx);
                let c = self.operand(cx, lx, fb, t)[0];
                lx.expp(',');
                let t2 = self.parse_ty(lx);
                let v = self.operand(cx, lx, fb, t2)[0];
                let w = self.size_bits(t) as u32;
                done!(I::CmpXchg { p, c, v, w }, 2)
            }
            "br" => {
                if lx.is("label") {
                    let b = self.label(lx, fb);
                    done!(I::Br(b), 0)
                }
                let t = self.parse_ty(lx);
                let c = self.operand(cx, lx, fb, t)[0];
                lx.expp(',');
                let a = self.label(lx, fb);
                lx.expp(',');
                let b = self.label(lx, fb);
                done!(I::CondBr(c, a, b), 0)
            }
            "switch" => {
                let t = self.parse_ty(lx);
                let v = self.operand(cx, lx, fb, t)[0];
                lx.expp(',');
                let def = self.label(lx, fb);
                lx.expp('[');
                let mut cases = Vec::new();
                while !lx.eatp(']') {
                    let ct = self.parse_ty(lx);
                    let k = self.konst(cx, lx, ct)[0];
                    lx.expp(',');
                    let b = self.label(lx, fb);
                    cases.push((cx.cv(k).unwrap(), b));
                }
                let w = self.size_bits(t) as u32;
                done!(I::Switch { v, def, cases, w }, 0)
            }
            "ret" => {
                let t = self.parse_ty(lx);
                let v = if self.tys[t as usize] == Ty::Void { vec![] } else { self.operand(cx, lx, fb, t) };
                done!(I::Ret(v), 0)
            }
            _ => panic!("unsupported instruction: {l}"),
        }
    }
}

pub fn demangle(n: &str) -> String {
    // legacy mangling only
    let b = match n.strip_prefix("_ZN") {
        Some(b) => b,
        None => return n.to_string(),
    };
    let mut out = String::new();
    let mut s = b;
    loop {
        let d: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
        if d.is_empty() {
            break;
        }
        let k: usize = d.parse().unwrap();
        s = &s[d.len()..];
        if s.len() < k {
            break;
        }
        let part = &s[..k];
        s = &s[k..];
        if part.len() == 17 && part.starts_with('h') && s.starts_with('E') {
            break;
        }
        if !out.is_empty() {
            out.push_str("::");
        }
        let mut p = part.strip_prefix('_').filter(|x| x.starts_with('$')).unwrap_or(part).to_string();
        for (a, c) in [("$LT$", "<"), ("$GT$", ">"), ("$RF$", "&"), ("$u20$", " "), ("$C$", ","), ("$u7b$", "{"), ("$u7d$", "}"), ("$LP$", "("), ("$RP$", ")"), ("$BP$", "*"), ("$u5b$", "["), ("$u5d$", "]"), ("$u27$", "'"), ("$u3d$", "="), ("$u2b$", "+"), ("$u3b$", ";"), ("..", "::")] {
            p = p.replace(a, c);
        }
        out.push_str(&p);
    }
    if out.is_empty() {
        n.to_string()
    } else {
        out
    }
}
pub type FuncMap = FxMap<u32, ()>;
