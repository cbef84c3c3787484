//! Primitives the symbolic executor interprets. With feature `native` they are ordinary Rust that
//! replays one concrete assignment of the symbolic draws against the natively compiled code.
#![allow(dead_code)]
extern "C" {
    fn vp_sym_u8() -> u8;
    fn vp_sym_u16() -> u16;
    fn vp_sym_u32() -> u32;
    fn vp_sym_u64() -> u64;
    fn vp_sym_b(n: u32) -> u64;
    fn vp_assume(b: bool);
    fn vp_check(b: bool, p: *const u8, n: usize);
    fn vp_observe(x: u64);
    fn vp_fork(x: u64) -> u64;
    fn vp_allow_panic(b: bool);
    fn vp_cover(p: *const u8, n: usize);
}
#[inline(always)]
pub fn u8s() -> u8 {
    unsafe { vp_sym_u8() }
}
#[inline(always)]
pub fn u16s() -> u16 {
    unsafe { vp_sym_u16() }
}
#[inline(always)]
pub fn u32s() -> u32 {
    unsafe { vp_sym_u32() }
}
#[inline(always)]
pub fn u64s() -> u64 {
    unsafe { vp_sym_u64() }
}
/// A symbolic number of `n` bits.
#[inline(always)]
pub fn bits(n: u32) -> u64 {
    unsafe { vp_sym_b(n) }
}
#[inline(always)]
pub fn f64s() -> f64 {
    f64::from_bits(u64s())
}
#[inline(always)]
pub fn assume(b: bool) {
    unsafe { vp_assume(b) }
}
#[inline(always)]
pub fn check(b: bool, m: &'static str) {
    unsafe { vp_check(b, m.as_ptr(), m.len()) }
}
#[inline(always)]
pub fn observe(x: u64) {
    unsafe { vp_observe(x) }
}
#[inline(always)]
pub fn allow_panic(b: bool) {
    unsafe { vp_allow_panic(b) }
}
#[inline(always)]
pub fn cover(m: &'static str) {
    unsafe { vp_cover(m.as_ptr(), m.len()) }
}
/// A choice in 0..n, one path per value.
#[inline(always)]
pub fn pick(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let x = u16s();
    assume((x as usize) < n);
    unsafe { vp_fork(x as u64) as usize }
}
/// Forks until `x` has a concrete value.
#[inline(always)]
pub fn conc(x: u64) -> u64 {
    unsafe { vp_fork(x) }
}
#[inline(always)]
pub fn pick_from<T: Copy>(xs: &[T]) -> T {
    xs[pick(xs.len())]
}
#[inline(always)]
pub fn flag() -> bool {
    u8s() & 1 != 0
}

#[macro_export]
macro_rules! harnesses {
    ($(fn $n:ident() $b:block)*) => {
        $(#[no_mangle] #[inline(never)] pub extern "C" fn $n() $b)*
        pub const ALL: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
    };
}

#[cfg(feature = "native")]
pub mod native {
    use std::sync::Mutex;
    pub struct St {
        pub draws: Vec<u64>,
        pub pos: usize,
        pub allow: bool,
        pub obs: Vec<u64>,
    }
    pub static ST: Mutex<St> = Mutex::new(St { draws: Vec::new(), pos: 0, allow: false, obs: Vec::new() });
    pub struct AssumeFailed;
    pub struct CheckFailed(pub String);
    fn st() -> std::sync::MutexGuard<'static, St> {
        ST.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn draw() -> u64 {
        let mut s = st();
        let p = s.pos;
        s.pos += 1;
        s.draws.get(p).copied().unwrap_or(0)
    }
    #[no_mangle]
    extern "C" fn vp_sym_b(_n: u32) -> u64 {
        draw()
    }
    #[no_mangle]
    extern "C" fn vp_sym_u8() -> u8 {
        draw() as u8
    }
    #[no_mangle]
    extern "C" fn vp_sym_u16() -> u16 {
        draw() as u16
    }
    #[no_mangle]
    extern "C" fn vp_sym_u32() -> u32 {
        draw() as u32
    }
    #[no_mangle]
    extern "C" fn vp_sym_u64() -> u64 {
        draw()
    }
    fn end(v: &str) -> ! {
        let obs: Vec<String> = st().obs.iter().map(|x| format!("{x:x}")).collect();
        println!("VPRESULT {v} obs={}", obs.join(","));
        use std::io::Write;
        std::io::stdout().flush().unwrap();
        std::process::exit(0)
    }
    #[no_mangle]
    extern "C" fn vp_assume(b: bool) {
        if !b {
            end("assume-failed")
        }
    }
    #[no_mangle]
    extern "C" fn vp_check(b: bool, p: *const u8, n: usize) {
        if !b {
            let m = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
            end(&format!("check-failed [{m}]"))
        }
    }
    #[no_mangle]
    extern "C" fn vp_observe(x: u64) {
        st().obs.push(x)
    }
    #[no_mangle]
    extern "C" fn vp_fork(x: u64) -> u64 {
        x
    }
    #[no_mangle]
    extern "C" fn vp_allow_panic(b: bool) {
        st().allow = b
    }
    #[no_mangle]
    extern "C" fn vp_cover(_p: *const u8, _n: usize) {}

    /// One assignment per process: `vpharness replay HARNESS hex,hex,...`
    pub fn main(all: &[(&str, extern "C" fn())]) {
        let a: Vec<String> = std::env::args().collect();
        let h = a.get(1).expect("harness name");
        st().draws = a
            .get(2)
            .map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| u64::from_str_radix(x, 16).unwrap()).collect())
            .unwrap_or_default();
        std::panic::set_hook(Box::new(|i| {
            if st().allow {
                end("allowed-panic")
            }
            end(&format!("panic [{}]", i.to_string().replace('\n', " ")))
        }));
        let f = all.iter().find(|x| x.0 == h).expect("unknown harness").1;
        f();
        end("ok")
    }
}
