//! The simulated clock: in a stepped build every basic block of the library
//! is one tick. Ticks measure work and are where tasks are preempted.

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU8, Ordering::Relaxed};

/// Exit status of a process that was ended because time ran out or nothing
/// can ever happen again.
pub const STUCK_EXIT: i32 = 98;

const BLOCKS: usize = 1 << 17;
static BLOCK_COUNT: AtomicU32 = AtomicU32::new(0);
static SEEN: [AtomicU8; BLOCKS] = [const { AtomicU8::new(0) }; BLOCKS];

thread_local! {
    /// 0: the clock of this thread runs
    static HELD: Cell<u32> = const { Cell::new(1) };
    static NOW: Cell<u64> = const { Cell::new(0) };
    static DUE: Cell<u64> = const { Cell::new(u64::MAX) };
    static ACTION: Cell<fn()> = const { Cell::new(nothing) };
    /// basic blocks since the clock was stopped
    static IDLE: Cell<u32> = const { Cell::new(0) };
    /// called when there were too many of them
    static WAITING: Cell<fn()> = const { Cell::new(nothing) };
}

/// What takes so long while the clock stands still waits for another task.
const LONG_IDLE: u32 = 200_000;

fn nothing() {}

/// Called by the instrumentation at the start of every basic block.
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if HELD.get() != 0 {
        let n = IDLE.get() + 1;
        IDLE.set(n);
        if n >= LONG_IDLE {
            waiting();
        }
        return;
    }
    // SAFETY: the number that was assigned below
    SEEN[unsafe { *guard } as usize & (BLOCKS - 1)].store(1, Relaxed);
    let n = NOW.get() + 1;
    NOW.set(n);
    if n >= DUE.get() {
        due();
    }
}

/// Called once per linked object before `main`.
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        // SAFETY: within the section of guards
        unsafe {
            if *p == 0 {
                *p = BLOCK_COUNT.fetch_add(1, Relaxed) + 1;
            }
            p = p.add(1);
        }
    }
}

/// Moving, filling or comparing this many bytes takes time as well. What is
/// due happens at the next basic block.
#[inline]
pub fn bytes(n: usize) {
    if n >= BYTES_PER_TICK && HELD.get() == 0 {
        NOW.set(NOW.get() + (n / BYTES_PER_TICK) as u64);
    }
}

const BYTES_PER_TICK: usize = 32;

/// In a stepped build the functions that everything else uses to move, fill
/// and compare memory pass through here.
#[cfg(stepped)]
mod memory {
    use super::bytes;

    // The last parameter does not exist. It keeps the compiler from knowing
    // these functions and turning them into the ones that call them.
    extern "C" {
        fn mempcpy(d: *mut u8, s: *const u8, n: usize, no: usize) -> *mut u8;
        fn bcopy(s: *const u8, d: *mut u8, n: usize, no: usize);
        fn __memcmpeq(a: *const u8, b: *const u8, n: usize, no: usize) -> i32;
    }

    /// # Safety
    /// as in C
    #[no_mangle]
    pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        bytes(n);
        mempcpy(d, s, n, 0);
        d
    }

    /// # Safety
    /// as in C
    #[no_mangle]
    pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        bytes(n);
        bcopy(s, d, n, 0);
        d
    }

    /// # Safety
    /// as in C
    #[no_mangle]
    pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        bytes(n);
        __memcmpeq(a, b, n, 0)
    }

    /// # Safety
    /// as in C
    #[no_mangle]
    pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        bytes(n);
        let mut i = 0;
        while n.wrapping_sub(i) >= 8 {
            if __memcmpeq(a.wrapping_add(i), b.wrapping_add(i), 8, 0) != 0 {
                break;
            }
            i = i.wrapping_add(8);
        }
        while i < n {
            let (x, y) = (*a.wrapping_add(i), *b.wrapping_add(i));
            if x != y {
                return if x < y { -1 } else { 1 };
            }
            i = i.wrapping_add(1);
        }
        0
    }
}

#[cold]
#[inline(never)]
fn waiting() {
    IDLE.set(0);
    WAITING.get()();
}

/// `action` is called when the library seems to wait for something although
/// the clock stands still.
pub fn when_waiting(action: fn()) {
    WAITING.set(action);
}

#[cold]
#[inline(never)]
fn due() {
    DUE.set(u64::MAX);
    hold(|| ACTION.get()());
}

/// Is this a stepped build?
pub fn stepped() -> bool {
    BLOCK_COUNT.load(Relaxed) > 0
}

/// Basic blocks at which the clock ticked so far, in this process.
pub fn blocks_seen() -> u64 {
    SEEN.iter().map(|x| u64::from(x.load(Relaxed))).sum()
}

/// The clock stands still.
pub fn hold<T>(f: impl FnOnce() -> T) -> T {
    let _g = Hold::new();
    f()
}

pub struct Hold;
impl Hold {
    pub fn new() -> Hold {
        HELD.set(HELD.get() + 1);
        Hold
    }
}
impl Drop for Hold {
    fn drop(&mut self) {
        HELD.set(HELD.get() - 1);
    }
}

/// The clock runs.
pub fn run<T>(f: impl FnOnce() -> T) -> T {
    struct Guard(u32);
    impl Drop for Guard {
        fn drop(&mut self) {
            HELD.set(self.0);
            IDLE.set(0);
        }
    }
    let _g = Guard(HELD.replace(0));
    IDLE.set(0);
    f()
}

/// `action` is called after that many ticks, once.
pub fn set_due(ticks: Option<u64>, action: fn()) {
    ACTION.set(action);
    DUE.set(ticks.map_or(u64::MAX, |t| NOW.get().saturating_add(t)));
}

fn out_of_time() {
    stuck("an operation was still going on when its time was up");
}

pub fn stuck(what: &str) -> ! {
    extern "C" {
        fn _exit(code: i32) -> !;
    }
    eprintln!("jjsim: {what}");
    // SAFETY: ends the process
    unsafe { _exit(STUCK_EXIT) }
}

/// Runs `f` and tells how many ticks that took. The process is ended when
/// that is more than `limit`.
pub fn ticks<T>(limit: u64, f: impl FnOnce() -> T) -> (T, u64) {
    let from = NOW.get();
    set_due(Some(limit), out_of_time);
    let r = run(f);
    let n = NOW.get() - from;
    set_due(None, nothing);
    (r, n)
}

/// A thread starts over.
pub fn reset() {
    HELD.set(1);
    IDLE.set(0);
    WAITING.set(nothing);
    set_due(None, nothing);
}
