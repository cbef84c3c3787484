//! A model of the files below /vp: the C library's calls on them, which the standard library's `File` makes, are
//! defined here, so that the same model serves the symbolic execution and the native replay. Other paths and
//! descriptors go to the system (only the replay uses any).
#![allow(static_mut_refs)]
use std::ffi::{c_char, c_int, c_void};

pub struct File {
    name: Vec<u8>,
    pub data: Vec<u8>,
    gone: bool,
}
#[derive(Clone, Copy)]
struct Fd {
    file: usize,
    pos: usize,
    flags: c_int,
    open: bool,
}
pub struct Fs {
    files: Vec<File>,
    fds: Vec<Fd>,
    /// Bytes moved per call at most.
    pub cap: usize,
    /// Calls until reads, writes or seeks fail (with EIO, ENOSPC, EIO).
    pub reads: usize,
    pub writes: usize,
    pub seeks: usize,
    /// Calls until one call is interrupted.
    pub eintr: usize,
    /// Failed calls so far.
    pub failed: usize,
}
static mut FS: Fs = Fs { files: Vec::new(), fds: Vec::new(), cap: usize::MAX, reads: usize::MAX, writes: usize::MAX, seeks: usize::MAX, eintr: usize::MAX, failed: 0 };
pub fn fs() -> &'static mut Fs {
    unsafe { &mut *std::ptr::addr_of_mut!(FS) }
}
const BASE: c_int = 1000;
const ENOENT: c_int = 2;
const EINTR: c_int = 4;
const EIO: c_int = 5;
const EBADF: c_int = 9;
const EEXIST: c_int = 17;
const EINVAL: c_int = 22;
const ENOSPC: c_int = 28;
#[cfg(feature = "native")]
extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut c_int;
}
#[cfg(not(feature = "native"))]
#[no_mangle]
pub extern "C" fn __errno_location() -> *mut c_int {
    static mut E: c_int = 0;
    std::ptr::addr_of_mut!(E)
}
fn err(e: c_int) -> c_int {
    unsafe { *__errno_location() = e };
    -1
}
macro_rules! system { ($n:expr $(, $a:expr)*) => {{
    #[cfg(feature = "native")]
    { return unsafe { syscall($n $(, $a)*) } as _ }
    #[cfg(not(feature = "native"))]
    { $(let _ = $a;)* return err(EBADF) as _ }
}} }
impl Fs {
    /// Makes the file.
    pub fn put(&mut self, name: &str, data: Vec<u8>) {
        self.drop(name);
        self.files.push(File { name: name.as_bytes().to_vec(), data, gone: false });
    }
    pub fn get(&self, name: &str) -> Option<&Vec<u8>> {
        self.find(name.as_bytes()).map(|i| &self.files[i].data)
    }
    fn find(&self, name: &[u8]) -> Option<usize> {
        self.files.iter().position(|f| !f.gone && f.name == name)
    }
    pub fn drop(&mut self, name: &str) {
        if let Some(i) = self.find(name.as_bytes()) {
            self.files[i].gone = true;
        }
    }
    /// Descriptors still open.
    pub fn n_open(&self) -> usize {
        self.fds.iter().filter(|f| f.open).count()
    }
    fn fd(&mut self, fd: c_int) -> Option<&mut Fd> {
        self.fds.get_mut((fd - BASE) as usize).filter(|f| f.open)
    }
    fn interrupted(&mut self) -> bool {
        if self.eintr == usize::MAX {
            return false;
        }
        if self.eintr > 0 {
            self.eintr -= 1;
            return false;
        }
        self.eintr = usize::MAX;
        true
    }
}
fn due(n: &mut usize, failed: &mut usize) -> bool {
    if *n == usize::MAX {
        return false;
    }
    if *n > 0 {
        *n -= 1;
        return false;
    }
    *failed += 1;
    true
}
unsafe fn name<'a>(p: *const c_char) -> &'a [u8] {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    std::slice::from_raw_parts(p.cast(), n)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: u32) -> c_int {
    let s = name(p);
    if !s.starts_with(b"/vp/") {
        system!(257, -100i64, p, flags as i64, mode as i64);
    }
    let fs = fs();
    let i = match fs.find(s) {
        Some(_) if flags & 0o300 == 0o300 => return err(EEXIST),
        Some(i) => i,
        None if flags & 0o100 == 0 => return err(ENOENT),
        None => {
            fs.files.push(File { name: s.to_vec(), data: Vec::new(), gone: false });
            fs.files.len() - 1
        }
    };
    if flags & 0o1000 != 0 && flags & 3 != 0 {
        fs.files[i].data.clear();
    }
    fs.fds.push(Fd { file: i, pos: 0, flags, open: true });
    BASE + fs.fds.len() as c_int - 1
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    if fd < BASE {
        system!(0, fd as i64, b, n);
    }
    let fs = fs();
    if fs.interrupted() {
        return err(EINTR) as isize;
    }
    if due(&mut fs.reads, &mut fs.failed) {
        return err(EIO) as isize;
    }
    let cap = fs.cap;
    let Some(f) = fs.fd(fd).filter(|f| f.flags & 3 != 1) else { return err(EBADF) as isize };
    let (file, pos) = (f.file, f.pos);
    let d = &fs.files[file].data;
    let n = n.min(cap).min(d.len().saturating_sub(pos));
    if n > 0 {
        std::ptr::copy_nonoverlapping(d.as_ptr().add(pos), b.cast(), n);
    }
    fs.fd(fd).unwrap().pos += n;
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    if fd < BASE {
        #[cfg(not(feature = "native"))]
        return n as isize;
        #[cfg(feature = "native")]
        system!(1, fd as i64, b, n);
    }
    let fs = fs();
    if fs.interrupted() {
        return err(EINTR) as isize;
    }
    if due(&mut fs.writes, &mut fs.failed) {
        return err(ENOSPC) as isize;
    }
    let n = n.min(fs.cap);
    let Some(f) = fs.fd(fd).filter(|f| f.flags & 3 != 0) else { return err(EBADF) as isize };
    let (file, mut pos) = (f.file, f.pos);
    if f.flags & 0o2000 != 0 {
        pos = fs.files[file].data.len();
    }
    let d = &mut fs.files[file].data;
    if n > 0 {
        if d.len() < pos + n {
            d.resize(pos + n, 0);
        }
        std::ptr::copy_nonoverlapping(b.cast(), d.as_mut_ptr().add(pos), n);
    }
    fs.fd(fd).unwrap().pos = pos + n;
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if fd < BASE {
        system!(8, fd as i64, off, whence as i64);
    }
    let fs = fs();
    if due(&mut fs.seeks, &mut fs.failed) {
        return err(EIO) as i64;
    }
    let Some(f) = fs.fd(fd) else { return err(EBADF) as i64 };
    let (file, pos) = (f.file, f.pos);
    let from = match whence {
        0 => 0,
        1 => pos,
        _ => fs.files[file].data.len(),
    } as i64;
    let to = from + off;
    if to < 0 {
        return err(EINVAL) as i64;
    }
    fs.fd(fd).unwrap().pos = to as usize;
    to
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd < BASE {
        system!(3, fd as i64);
    }
    match fs().fd(fd) {
        Some(f) => {
            f.open = false;
            0
        }
        None => err(EBADF),
    }
}
unsafe fn stat_of(i: usize, b: *mut c_void) -> c_int {
    std::ptr::write_bytes(b.cast::<u8>(), 0, 144);
    *b.cast::<u8>().add(24).cast::<u32>() = 0o100644;
    *b.cast::<u8>().add(48).cast::<i64>() = fs().files[i].data.len() as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut c_void) -> c_int {
    if fd < BASE {
        system!(5, fd as i64, b);
    }
    match fs().fd(fd).map(|f| f.file) {
        Some(i) => stat_of(i, b),
        None => err(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut c_void) -> c_int {
    let s = name(p);
    if !s.starts_with(b"/vp/") {
        system!(4, p, b);
    }
    match fs().find(s) {
        Some(i) => stat_of(i, b),
        None => err(ENOENT),
    }
}
/// Not offered, as on older systems: `fstat64` is used instead.
#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, p: *const c_char, flags: c_int, mask: u32, b: *mut c_void) -> c_int {
    let _ = (fd, p, flags, mask, b);
    err(38)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    if fd < BASE {
        system!(77, fd as i64, n);
    }
    match fs().fd(fd).map(|f| f.file) {
        Some(i) => {
            fs().files[i].data.resize(n as usize, 0);
            0
        }
        None => err(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if fd < BASE {
        system!(74, fd as i64);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    let s = name(p);
    if !s.starts_with(b"/vp/") {
        system!(87, p);
    }
    match fs().find(s) {
        Some(i) => {
            fs().files[i].gone = true;
            0
        }
        None => err(ENOENT),
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: u32) -> c_int {
    let s = name(p);
    if !s.starts_with(b"/vp") {
        system!(83, p, mode as i64);
    }
    0
}
#[cfg(feature = "native")]
/// Forgets all files (between replays).
pub fn reset() {
    *fs() = Fs { files: Vec::new(), fds: Vec::new(), cap: usize::MAX, reads: usize::MAX, writes: usize::MAX, seeks: usize::MAX, eintr: usize::MAX, failed: 0 };
}
/// Hash maps are seeded from here: the same order in every run.
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: usize, _: u32) -> isize {
    for i in 0..n {
        *b.cast::<u8>().add(i) = (i * 37 + 11) as u8;
    }
    n as isize
}
#[no_mangle]
pub extern "C" fn sync() {}
