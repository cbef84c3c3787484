#![allow(unused_unsafe, clippy::all)]
#[macro_use]
mod vp;
mod util;
#[cfg(any(feature = "c21", feature = "c29", feature = "c32", feature = "c33", feature = "c34", feature = "c36"))]
mod fs;
macro_rules! mods { ($($f:literal $m:ident),* ; $($fi:literal $mi:ident),*) => {
    $(#[cfg(feature = $f)] mod $m;)*
    $(#[cfg(all(feature = $fi, not(feature = "apionly")))] mod $mi;)*
    fn all() -> Vec<(&'static str, extern "C" fn())> {
        #[allow(unused_mut)]
        let mut v: Vec<(&'static str, extern "C" fn())> = Vec::new();
        $(#[cfg(feature = $f)] v.extend_from_slice($m::ALL);)*
        $(#[cfg(all(feature = $fi, not(feature = "apionly")))] v.extend_from_slice($mi::ALL);)*
        v
    }
} }
mods! { "c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08, "c09" c09, "c10" c10, "c11" c11, "c12" c12, "c13" c13, "c14" c14, "c15" c15, "c16" c16, "c17" c17, "c18" c18, "c19" c19, "c20" c20, "c21" c21, "c22" c22, "c23" c23, "c24" c24, "c25" c25, "c26" c26, "c27" c27, "c28" c28, "c29" c29, "c32" c32, "c33" c33, "c34" c34, "c36" c36 ; "c09" c09i, "c04" c04i, "c06" c06i, "c07" c07i, "c08" c08i, "c11" c11i, "c36" c36i }

#[cfg(not(feature = "native"))]
fn main() {
    for h in std::hint::black_box(all()) {
        (h.1)()
    }
}
#[cfg(feature = "native")]
fn main() {
    vp::native::main(&all())
}
