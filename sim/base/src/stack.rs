//! How much stack a piece of code used: the pages below the current frame are
//! given back before it runs and looked for afterwards.

use std::cell::Cell;

extern "C" {
    fn madvise(addr: usize, len: usize, advice: i32) -> i32;
    fn mincore(addr: usize, len: usize, vec: *mut u8) -> i32;
    fn pthread_self() -> usize;
    fn pthread_getattr_np(thread: usize, attr: *mut [u64; 16]) -> i32;
    fn pthread_attr_getstack(attr: *const [u64; 16], addr: *mut usize, size: *mut usize) -> i32;
    fn pthread_attr_destroy(attr: *mut [u64; 16]) -> i32;
}

const PAGE: usize = 4096;

thread_local! {
    /// lowest usable address of this thread's stack
    static LOW: Cell<usize> = const { Cell::new(0) };
}

fn low() -> usize {
    if LOW.get() == 0 {
        let mut attr = [0u64; 16];
        let (mut addr, mut size) = (0, 0);
        // SAFETY: plain libc calls with valid pointers; the attribute object
        // of glibc is 56 bytes
        unsafe {
            if pthread_getattr_np(pthread_self(), &mut attr) == 0 {
                pthread_attr_getstack(&attr, &mut addr, &mut size);
                pthread_attr_destroy(&mut attr);
            }
        }
        // one page of distance to the guard
        let low = addr + PAGE;
        // SAFETY: a hint about this thread's own stack (MADV_NOHUGEPAGE)
        unsafe { madvise(low, size - 2 * PAGE, 15) };
        LOW.set(low);
    }
    LOW.get()
}

/// Runs `f` and tells how many bytes of stack below this frame it used, in
/// whole pages.
#[inline(never)]
pub fn measured<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let here = 0u8;
    let low = low();
    let sp = &raw const here as usize;
    // leave room for this function's own frame and for the calls below
    let top = (sp - 2 * PAGE) & !(PAGE - 1);
    let give_back = || {
        // SAFETY: nothing below the frame of this call is in use
        // (MADV_DONTNEED: the pages read as zero afterwards)
        unsafe { madvise(low, top - low, 4) };
    };
    give_back();
    let r = f();
    const N: usize = 512;
    let mut seen = [0u8; N];
    let mut used = 0;
    let mut at = top;
    while at > low {
        let from = at.saturating_sub(N * PAGE).max(low);
        let n = (at - from) / PAGE;
        // SAFETY: mapped memory of this thread's stack, a big enough vector
        unsafe { mincore(from, n * PAGE, seen.as_mut_ptr()) };
        match seen[..n].iter().position(|x| x & 1 == 1) {
            Some(i) => used = top - (from + i * PAGE),
            None => break,
        }
        at = from;
    }
    if used > 1 << 20 {
        give_back();
    }
    (r, used)
}
