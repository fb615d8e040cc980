//! Interface to the symbolic executor (and, natively, to the replayer).
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;

unsafe extern "C" {
    fn __rsym_bytes(p: *mut u8, n: usize);
    fn __rsym_choice(n: usize) -> usize;
    fn __rsym_assume(c: bool);
    fn __rsym_check(c: bool, id: u32);
    fn __rsym_reach(id: u32);
    fn __rsym_emit(v: u64);
    fn __rsym_note(p: *const u8, n: usize);
    fn __rsym_spawn(argv: *const Vec<OsString>, main: fn() -> String, end: *mut Ended) -> bool;
    fn __rsym_done() -> !;
}

/// `n` arbitrary bytes: the solver's variables.
#[inline(never)]
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        unsafe { __rsym_bytes(v.as_mut_ptr(), n) };
    }
    v
}
pub fn byte() -> u8 {
    bytes(1)[0]
}
/// Explore every value `0..n`, each as a path of its own.
pub fn choice(n: usize) -> usize {
    if n <= 1 { 0 } else { unsafe { __rsym_choice(n) } }
}
pub fn flip() -> bool {
    choice(2) == 1
}
pub fn pick<T: Clone>(xs: &[T]) -> T {
    xs[choice(xs.len())].clone()
}
/// A length in `lo..=hi`, each explored.
pub fn len(lo: usize, hi: usize) -> usize {
    lo + choice(hi - lo + 1)
}
pub fn os(v: Vec<u8>) -> OsString {
    OsString::from_vec(v)
}
/// Any string of `lo..=hi` arbitrary bytes.
pub fn tok(lo: usize, hi: usize) -> OsString {
    os(bytes(len(lo, hi)))
}
pub fn assume(c: bool) {
    unsafe { __rsym_assume(c) }
}
pub fn check_id(c: bool, id: u32) {
    unsafe { __rsym_check(c, id) }
}
pub fn reach_id(id: u32) {
    unsafe { __rsym_reach(id) }
}
pub fn emit(v: u64) {
    unsafe { __rsym_emit(v) }
}
/// Native replays print this; no meaning otherwise. `n == 0` with a null pointer ends a line.
pub fn note(b: &[u8]) {
    unsafe { __rsym_note(b.as_ptr(), b.len()) }
}
pub fn note_end() {
    unsafe { __rsym_note(std::ptr::null(), 0) }
}
pub fn emit_bytes(b: &[u8]) {
    emit(b.len() as u64);
    for c in b {
        emit(u64::from(*c));
    }
}
/// The property's assertion: the solver decides it for every input of the path.
#[macro_export]
macro_rules! check {
    ($c:expr, $msg:literal) => {
        $crate::sym::check_id($c, $crate::sym::id(file!(), line!()))
    };
}
/// Marks a place some input must get to (guard against vacuity).
#[macro_export]
macro_rules! reach {
    () => {
        $crate::sym::reach_id($crate::sym::id(file!(), line!()))
    };
}
/// Check ids: line number, plus 100000 for the shared files.
pub const fn id(file: &str, line: u32) -> u32 {
    let f = file.as_bytes();
    // src/pNN.rs against src/common.rs etc.
    let n = f.len();
    if n >= 6 && f[n - 6] == b'p' && f[n - 3] == b'.' { line } else { line + 100_000 }
}

/// How a program ended: no status if it did not exit but got a value.
#[derive(Default)]
pub struct Ended {
    pub status: Option<i32>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub value: String,
}
/// Runs `main` as a program of these arguments (argv[0] first), then `then` with its end, and nothing after that.
/// Natively that is a process of its own; symbolically, the functions named `__stub` take the place of the operating system.
/// `main` gives what it got, as text.
pub fn as_program(argv: Vec<OsString>, main: fn() -> String, then: impl FnOnce(Ended) + 'static) {
    let mut end = Ended::default();
    if unsafe { __rsym_spawn(&argv, main, &mut end) } {
        return then(end);
    }
    unsafe {
        *(&raw mut ARGV) = argv;
        *(&raw mut THEN) = Some(Box::new(then));
    }
    let v = main();
    over(None, v)
}
static mut ARGV: Vec<OsString> = Vec::new();
static mut OUT: Vec<u8> = Vec::new();
static mut ERR: Vec<u8> = Vec::new();
static mut THEN: Option<Box<dyn FnOnce(Ended)>> = None;
fn over(status: Option<i32>, value: String) -> ! {
    unsafe {
        let end = Ended { status, out: std::mem::take(&mut *(&raw mut OUT)), err: std::mem::take(&mut *(&raw mut ERR)), value };
        (*(&raw mut THEN)).take().unwrap()(end);
        __rsym_done()
    }
}
#[cfg(feature = "p36")]
mod stubs {
    use super::*;
    #[unsafe(no_mangle)]
    pub extern "C" fn __stub_write(fd: i32, p: *const u8, n: usize) -> isize {
        unsafe {
            let to = if fd == 1 { &raw mut OUT } else { &raw mut ERR };
            (*to).extend_from_slice(std::slice::from_raw_parts(p, n));
        }
        n as isize
    }
    #[unsafe(no_mangle)]
    pub extern "C" fn __stub___errno_location() -> *mut i32 {
        static mut ERRNO: i32 = 0;
        &raw mut ERRNO
    }
    #[unsafe(no_mangle)]
    pub extern "C" fn __stub_exit(code: i32) -> ! {
        over(Some(code), String::new())
    }
    #[unsafe(no_mangle)]
    pub fn __stub_args_os() -> std::vec::IntoIter<OsString> {
        unsafe { std::mem::take(&mut *(&raw mut ARGV)).into_iter() }
    }
    // Both are made of it.
    const _: () = assert!(size_of::<std::env::Args>() == size_of::<std::vec::IntoIter<OsString>>());
    const _: () = assert!(size_of::<std::env::ArgsOs>() == size_of::<std::vec::IntoIter<OsString>>());
}
/// One thread, whose end is not looked at; and the seeds of hash tables.
#[cfg(any(feature = "p35", feature = "p37"))]
mod thread_stubs {
    #[unsafe(no_mangle)]
    pub extern "C" fn __stub_pthread_key_create(key: *mut u32, _: usize) -> i32 {
        unsafe { *key = 1 };
        0
    }
    #[unsafe(no_mangle)]
    pub extern "C" fn __stub_pthread_setspecific(_: u32, _: usize) -> i32 {
        0
    }
    // What std keeps for itself; the size is in front of it.
    use std::alloc::{Layout, alloc, dealloc};
    const HEAD: usize = 16;
    #[unsafe(no_mangle)]
    pub extern "C" fn __stub_malloc(n: usize) -> *mut u8 {
        unsafe {
            let p = alloc(Layout::from_size_align_unchecked(n + HEAD, 16));
            *p.cast::<usize>() = n;
            p.add(HEAD)
        }
    }
    #[unsafe(no_mangle)]
    pub extern "C" fn __stub_free(p: *mut u8) {
        unsafe {
            let p = p.sub(HEAD);
            dealloc(p, Layout::from_size_align_unchecked(*p.cast::<usize>() + HEAD, 16));
        }
    }
    #[unsafe(no_mangle)]
    pub extern "C" fn __stub_getrandom(p: *mut u8, n: usize, _: u32) -> isize {
        for i in 0..n {
            unsafe { *p.add(i) = 0 };
        }
        n as isize
    }
}
