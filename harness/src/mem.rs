//! Input buffers surrounded by inaccessible pages, so that a read before the start or past the end of
//! the input faults.

use std::cell::RefCell;

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: isize) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}

const PAGE: usize = 4096;
const MAP: usize = 600 * PAGE;

struct Region {
    base: *mut u8,
}

impl Region {
    fn new() -> Region {
        unsafe {
            let p = mmap(std::ptr::null_mut(), MAP + 2 * PAGE, 0, 0x22, -1, 0);
            assert!(p as isize != -1, "HARNESS: mmap failed");
            assert!(mprotect(p.add(PAGE), MAP, 3) == 0, "HARNESS: mprotect failed");
            Region { base: p.add(PAGE) }
        }
    }
}

thread_local! {
    static R: RefCell<Option<Region>> = const { RefCell::new(None) };
}

/// Runs `f` on a copy of the bytes that ends right before an inaccessible page, or (at_end = false)
/// starts right after one.
pub fn guarded<T>(b: &[u8], at_end: bool, f: impl FnOnce(&[u8]) -> T) -> T {
    if cfg!(any(miri, ctv_sanitize)) {
        // the interpreter or sanitizer knows the bounds of every block
        return f(&b.to_vec().into_boxed_slice());
    }
    if b.len() > MAP {
        return f(b);
    }
    let base = R.with(|r| r.borrow_mut().get_or_insert_with(Region::new).base);
    let off = if at_end { MAP - b.len() } else { 0 };
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), base.add(off), b.len());
        f(std::slice::from_raw_parts(base.add(off), b.len()))
    }
}
