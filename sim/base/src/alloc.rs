//! The simulated heap: the process-wide allocator with per-thread fault
//! modes, counters and (for C06) scheduling points.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, Ordering};

// ------------------------------------------------------------ the heap itself
//
// Addresses are one of the things an outcome may come to depend on (a cache
// keyed by address, say). What a run allocates therefore comes from a heap at
// a fixed place that starts empty for every run: the addresses are a function
// of the choices of the run, and freed memory is used again at once.

const BASE: usize = 0x3000_0000_0000;
const SIZE: usize = 2 << 30;
const CLASSES: usize = 64 + 30 * 8;

struct Heap {
    ready: bool,
    next: usize,
    touched: usize,
    live: u64,
    free: [usize; CLASSES],
}

struct HeapCell(UnsafeCell<Heap>);
// SAFETY: only used under LOCK
unsafe impl Sync for HeapCell {}
static HEAP: HeapCell = HeapCell(UnsafeCell::new(Heap {
    ready: false,
    next: BASE,
    touched: BASE,
    live: 0,
    free: [0; CLASSES],
}));
static LOCK: AtomicBool = AtomicBool::new(false);

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn madvise(addr: *mut u8, len: usize, advice: i32) -> i32;
}

fn with_heap<T>(f: impl FnOnce(&mut Heap) -> T) -> T {
    while LOCK.compare_exchange(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
        std::hint::spin_loop();
    }
    // SAFETY: the lock is held
    let r = f(unsafe { &mut *HEAP.0.get() });
    LOCK.store(false, Ordering::Release);
    r
}

/// Class of a request and the size of the blocks of that class: multiples of
/// 16 up to 1024, then eight steps per power of two.
#[inline]
fn class(size: usize) -> (usize, usize) {
    let size = size.max(1);
    if size <= 1024 {
        let c = size.div_ceil(16);
        return (c - 1, c * 16);
    }
    let p = (size - 1).ilog2() as usize; // >= 10
    let step = 1usize << (p - 3);
    let k = (size - (1 << p)).div_ceil(step); // 1..=8
    (64 + (p - 10) * 8 + (k - 1), (1 << p) + k * step)
}

impl Heap {
    fn get(&mut self, size: usize) -> *mut u8 {
        if size > SIZE {
            return std::ptr::null_mut();
        }
        let (c, block) = class(size);
        let p = self.free[c];
        if p != 0 {
            // SAFETY: a free block holds the address of the next one
            self.free[c] = unsafe { *(p as *const usize) };
            self.live += 1;
            return p as *mut u8;
        }
        if !self.ready || self.next + block > BASE + SIZE {
            return std::ptr::null_mut();
        }
        let p = self.next;
        self.next += block;
        self.touched = self.touched.max(self.next);
        self.live += 1;
        p as *mut u8
    }

    fn put(&mut self, p: *mut u8, size: usize) {
        let (c, _) = class(size);
        // SAFETY: the block is no longer in use and holds at least 16 bytes
        unsafe { *(p.cast::<usize>()) = self.free[c] };
        self.free[c] = p as usize;
        self.live -= 1;
    }
}

#[inline]
fn ours(p: *mut u8) -> bool {
    (BASE..BASE + SIZE).contains(&(p as usize))
}

thread_local! {
    /// this thread is part of a simulated run
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}

#[inline]
fn inside(layout: &Layout) -> bool {
    INSIDE.get() && PAUSED.get() == 0 && layout.align() <= 16
}

#[inline]
unsafe fn raw_alloc(layout: Layout) -> *mut u8 {
    if inside(&layout) {
        with_heap(|h| h.get(layout.size()))
    } else {
        System.alloc(layout)
    }
}

#[inline]
unsafe fn raw_dealloc(p: *mut u8, layout: Layout) {
    if ours(p) {
        with_heap(|h| h.put(p, layout.size()));
    } else {
        System.dealloc(p, layout);
    }
}

#[inline]
unsafe fn raw_realloc(p: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
    if !ours(p) {
        return System.realloc(p, layout, new_size);
    }
    if class(new_size).0 == class(layout.size()).0 {
        return p;
    }
    let q = with_heap(|h| h.get(new_size));
    if !q.is_null() {
        std::ptr::copy_nonoverlapping(p, q, layout.size().min(new_size));
        with_heap(|h| h.put(p, layout.size()));
    }
    q
}

/// Reserves the heap. Without it (the place is taken) the system's is used.
pub fn reserve() {
    // SAFETY: asks for fresh private pages: READ|WRITE,
    // PRIVATE|ANONYMOUS|NORESERVE|FIXED_NOREPLACE
    let p = unsafe { mmap(BASE as *mut u8, SIZE, 3, 0x10_4022, -1, 0) };
    with_heap(|h| h.ready = p as usize == BASE);
}

/// A run begins on this thread: its heap is empty, unless something from an
/// earlier run was kept.
pub fn enter_run() {
    let ready = with_heap(|h| {
        if h.live == 0 {
            h.next = BASE;
            h.free = [0; CLASSES];
            if h.touched > BASE + (64 << 20) {
                // SAFETY: nothing in there is in use (MADV_DONTNEED)
                unsafe { madvise(BASE as *mut u8, SIZE, 4) };
                h.touched = BASE;
            }
        }
        h.ready
    });
    INSIDE.set(ready);
}

/// How much of the heap is taken because something from earlier runs was kept.
pub fn kept() -> usize {
    with_heap(|h| if h.live == 0 { 0 } else { h.next - BASE })
}

/// Ends the run; the number of blocks that are still in use.
pub fn leave_run() -> u64 {
    INSIDE.set(false);
    with_heap(|h| h.live)
}

/// A task of the run goes on on this thread.
pub fn join_run(on: bool) {
    INSIDE.set(on && with_heap(|h| h.ready));
}

pub fn in_run() -> bool {
    INSIDE.get()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Off,
    /// count only
    Count,
    /// every allocation fails
    FailAll,
    /// the k-th allocation (from 0) fails, later ones succeed
    FailAt(u64),
    /// the k-th allocation and all later ones fail
    FailFrom(u64),
    /// no more than this many bytes may be in use at a time
    Budget(i64),
}

thread_local! {
    static MODE: Cell<Mode> = const { Cell::new(Mode::Off) };
    static PAUSED: Cell<u32> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static FAILED: Cell<u64> = const { Cell::new(0) };
    static LIVE_BLOCKS: Cell<i64> = const { Cell::new(0) };
    static LIVE_BYTES: Cell<i64> = const { Cell::new(0) };
    static PEAK_BYTES: Cell<i64> = const { Cell::new(0) };
    static YIELD: Cell<Option<fn()>> = const { Cell::new(None) };
}

pub struct SimAlloc;

#[inline]
fn tracked() -> bool {
    MODE.get() != Mode::Off && PAUSED.get() == 0
}

/// `more`: bytes that are in use in addition if the request is granted.
#[inline]
fn permit(more: i64) -> bool {
    let k = COUNT.get();
    COUNT.set(k + 1);
    let ok = match MODE.get() {
        Mode::Off | Mode::Count => true,
        Mode::FailAll => false,
        Mode::FailAt(n) => k != n,
        Mode::FailFrom(n) => k < n,
        Mode::Budget(n) => LIVE_BYTES.get() + more <= n,
    };
    if !ok {
        FAILED.set(FAILED.get() + 1);
    }
    ok
}

#[inline]
fn maybe_yield() {
    if let Some(f) = YIELD.get() {
        if PAUSED.get() == 0 {
            pause(f);
        }
    }
}

// SAFETY: forwards to System; the bookkeeping uses const-initialised
// thread-locals without destructors and never allocates.
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        maybe_yield();
        if tracked() {
            if !permit(layout.size() as i64) {
                return std::ptr::null_mut();
            }
            let p = raw_alloc(layout);
            if !p.is_null() {
                LIVE_BLOCKS.set(LIVE_BLOCKS.get() + 1);
                LIVE_BYTES.set(LIVE_BYTES.get() + layout.size() as i64);
                PEAK_BYTES.set(PEAK_BYTES.get().max(LIVE_BYTES.get()));
            }
            p
        } else {
            raw_alloc(layout)
        }
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if tracked() {
            LIVE_BLOCKS.set(LIVE_BLOCKS.get() - 1);
            LIVE_BYTES.set(LIVE_BYTES.get() - layout.size() as i64);
        }
        raw_dealloc(ptr, layout);
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        crate::clock::bytes(layout.size());
        let p = self.alloc(layout);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, layout.size());
        }
        p
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        // it may have to be moved, whether it is this time or not
        crate::clock::bytes(layout.size());
        let _h = crate::clock::Hold::new();
        if tracked() {
            // shrinking in place cannot fail; growing is an allocation
            let more = new_size as i64 - layout.size() as i64;
            if more > 0 && !permit(more) {
                return std::ptr::null_mut();
            }
            let p = raw_realloc(ptr, layout, new_size);
            if !p.is_null() {
                LIVE_BYTES.set(LIVE_BYTES.get() + more);
                PEAK_BYTES.set(PEAK_BYTES.get().max(LIVE_BYTES.get()));
            }
            p
        } else {
            raw_realloc(ptr, layout, new_size)
        }
    }
}

/// The harness' own allocations inside a tracked section.
pub fn pause<T>(f: impl FnOnce() -> T) -> T {
    struct Guard;
    impl Drop for Guard {
        fn drop(&mut self) {
            PAUSED.set(PAUSED.get() - 1);
        }
    }
    PAUSED.set(PAUSED.get() + 1);
    let _g = Guard;
    let _h = crate::clock::Hold::new();
    f()
}

pub fn paused() -> bool {
    PAUSED.get() > 0
}

/// Marker payload of an unwinding allocation failure.
pub struct Oom;

pub fn install_hook() {
    std::alloc::set_alloc_error_hook(|_| {
        if MODE.get() == Mode::Off {
            // a real allocation failure
            eprintln!("jjsim: out of memory");
            std::process::abort();
        }
        // the unwinding machinery itself needs memory
        if let Mode::FailAll | Mode::FailFrom(_) | Mode::Budget(_) = MODE.get() {
            MODE.set(Mode::Count);
        }
        // Box<Oom> is zero-sized and the exception object comes from malloc,
        // not from the Rust allocator.
        std::panic::resume_unwind(Box::new(Oom));
    });
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Report {
    pub allocations: u64,
    pub failed: u64,
    pub live_blocks: i64,
    pub live_bytes: i64,
    pub peak_bytes: i64,
}

pub fn start(mode: Mode) {
    COUNT.set(0);
    FAILED.set(0);
    LIVE_BLOCKS.set(0);
    LIVE_BYTES.set(0);
    PEAK_BYTES.set(0);
    MODE.set(mode);
}

pub fn stop() -> Report {
    MODE.set(Mode::Off);
    Report {
        allocations: COUNT.get(),
        failed: FAILED.get(),
        live_blocks: LIVE_BLOCKS.get(),
        live_bytes: LIVE_BYTES.get(),
        peak_bytes: PEAK_BYTES.get(),
    }
}

pub fn set_yield(f: Option<fn()>) {
    YIELD.set(f);
}
