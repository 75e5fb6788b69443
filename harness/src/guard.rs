//! Memory with inaccessible neighbours: any access outside the octets handed
//! to the code under test ends in a signal, reported with the current case.

use std::ffi::c_void;
use std::sync::atomic::{AtomicUsize, Ordering};

unsafe extern "C" {
    fn mmap(a: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn mprotect(a: *mut c_void, n: usize, prot: i32) -> i32;
    fn signal(n: i32, f: usize) -> usize;
    fn write(fd: i32, p: *const c_void, n: usize) -> isize;
    fn _exit(n: i32) -> !;
}

const PAGE: usize = 4096;
static CASE: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];

extern "C" fn on_signal(n: i32) {
    unsafe {
        let m = b"\nCASE ";
        write(2, m.as_ptr() as *const c_void, m.len());
        write(2, CASE[0].load(Ordering::Relaxed) as *const c_void, CASE[1].load(Ordering::Relaxed));
        let m = b"\n";
        write(2, m.as_ptr() as *const c_void, 1);
        _exit(100 + n);
    }
}

static CASES: AtomicUsize = AtomicUsize::new(0);
/// A single case takes microseconds.
const HANG_S: u64 = 40;

/// A case that does not end is reported as if by SIGALRM.
fn watch() {
    let (mut n, mut left) = (CASES.load(Ordering::Relaxed), HANG_S);
    loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let m = CASES.load(Ordering::Relaxed);
        if m != n || m == 0 {
            (n, left) = (m, HANG_S);
        } else {
            left -= 1;
            if left == 0 {
                on_signal(14);
            }
        }
    }
}

pub fn install() {
    std::thread::spawn(watch);
    for n in [4, 6, 7, 8, 11] {
        unsafe { signal(n, on_signal as *const () as usize) };
    }
}

/// Not hung.
pub fn tick() {
    CASES.fetch_add(1, Ordering::Relaxed);
}

/// Name the case being run (must outlive it).
pub fn current(text: &str) {
    tick();
    CASE[0].store(text.as_ptr() as usize, Ordering::Relaxed);
    CASE[1].store(text.len(), Ordering::Relaxed);
}

/// `n` pages between two inaccessible ones.
pub struct Arena {
    base: *mut u8,
    size: usize,
}

impl Arena {
    pub fn new(n: usize) -> Self {
        unsafe {
            let p = mmap(std::ptr::null_mut(), (n + 2) * PAGE, 0, 0x22, -1, 0);
            assert!(p as isize > 0);
            let base = (p as *mut u8).add(PAGE);
            assert!(mprotect(base as *mut c_void, n * PAGE, 3) == 0);
            Arena { base, size: n * PAGE }
        }
    }
    /// The octets, ending where accessible memory ends.
    pub fn at_end(&self, b: &[u8]) -> &'static [u8] {
        assert!(b.len() <= self.size);
        unsafe {
            let p = self.base.add(self.size - b.len());
            std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
            std::slice::from_raw_parts(p, b.len())
        }
    }
    /// The octets, beginning where accessible memory begins.
    pub fn at_start(&self, b: &[u8]) -> &'static [u8] {
        assert!(b.len() <= self.size);
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.base, b.len());
            std::slice::from_raw_parts(self.base, b.len())
        }
    }
    /// Where an object of this size ends with accessible memory.
    pub fn place_end(&self, size: usize, align: usize) -> *mut u8 {
        let off = (self.size - size) / align * align;
        unsafe { self.base.add(off) }
    }
    pub fn place_start(&self) -> *mut u8 {
        self.base
    }
    pub fn fill(&self, v: u8) {
        unsafe { std::ptr::write_bytes(self.base, v, self.size) };
    }
}
