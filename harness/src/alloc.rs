//! Allocator that counts the requests of the current thread, detects writes behind blocks, and leaves nothing
//! readable in new and returned ones.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static MAX: Cell<usize> = const { Cell::new(0) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
    static BLOCKS: Cell<isize> = const { Cell::new(0) };
}

fn live(n: isize, blocks: isize) {
    let _ = LIVE.try_with(|m| m.set(m.get().wrapping_add(n)));
    let _ = BLOCKS.try_with(|m| m.set(m.get().wrapping_add(blocks)));
}

fn note(n: usize) {
    let _ = MAX.try_with(|m| {
        if n > m.get() {
            m.set(n)
        }
    });
    let _ = TOTAL.try_with(|m| m.set(m.get().wrapping_add(n)));
}

fn refused(n: usize) -> bool {
    n > MOST || LIMIT.try_with(|m| n > m.get()).unwrap_or(false)
}

/// A sanitizer sees the blocks as they were requested, and not written to.
const PLAIN: bool = cfg!(ctv_sanitize);
/// bytes behind each block that nobody may write to
const ZONE: usize = if PLAIN { 0 } else { 16 };
const MARK: u128 = 0x5AC3_96E1_7B2D_48F0_A53C_691E_87D2_B40F;
/// blocks of up to this size are overwritten before they are handed out and after they are returned
const FILL: usize = 512;
/// larger requests fail; a sanitizer touches its own account of every block
const MOST: usize = if PLAIN { 256 << 20 } else { usize::MAX };

fn padded(l: Layout) -> Layout {
    // the standard library checks sizes against isize::MAX
    Layout::from_size_align(l.size().saturating_add(ZONE), l.align()).unwrap_or(l)
}

unsafe fn mark(p: *mut u8, n: usize) {
    if PLAIN {
        return;
    }
    p.add(n).cast::<u128>().write_unaligned(MARK);
}

/// ends the process if something was written behind the block
unsafe fn check(p: *mut u8, n: usize) {
    if !PLAIN && p.add(n).cast::<u128>().read_unaligned() != MARK {
        extern "C" {
            fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
        }
        let m = b"memory behind a block was overwritten\n";
        write(2, m.as_ptr().cast(), m.len());
        std::process::abort();
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        if refused(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(padded(l));
        if !p.is_null() {
            live(l.size() as isize, 1);
            mark(p, l.size());
            if !PLAIN && l.size() <= FILL {
                p.write_bytes(0xA7, l.size());
            }
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        check(p, l.size());
        if !PLAIN && l.size() <= FILL {
            p.write_bytes(0xD9, l.size());
        }
        live(-(l.size() as isize), -1);
        System.dealloc(p, padded(l))
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        if refused(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(padded(l));
        if !p.is_null() {
            live(l.size() as isize, 1);
            mark(p, l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        if refused(n) {
            return std::ptr::null_mut();
        }
        check(p, l.size());
        let q = System.realloc(p, padded(l), n.saturating_add(ZONE));
        if !q.is_null() {
            live(n as isize - l.size() as isize, 0);
            mark(q, n);
        }
        q
    }
}

/// (largest single request, sum of all requests) while `f` ran on this thread
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize, usize) {
    MAX.with(|m| m.set(0));
    TOTAL.with(|m| m.set(0));
    let r = f();
    (r, MAX.with(|m| m.get()), TOTAL.with(|m| m.get()))
}

/// (bytes, blocks) that `f` obtained on this thread and did not return; negative if it returned more
pub fn balance<T>(f: impl FnOnce() -> T) -> (T, isize, isize) {
    let before = (LIVE.with(|m| m.get()), BLOCKS.with(|m| m.get()));
    let r = f();
    (r, LIVE.with(|m| m.get()).wrapping_sub(before.0), BLOCKS.with(|m| m.get()).wrapping_sub(before.1))
}

/// Runs `f` with requests of more than `max` bytes on this thread failing.
pub fn limited<T>(max: usize, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            let _ = LIMIT.try_with(|m| m.set(usize::MAX));
        }
    }
    let _reset = Reset;
    LIMIT.with(|m| m.set(max));
    f()
}
