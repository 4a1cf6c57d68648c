//! Baton scheduler: tasks are OS threads of which exactly one runs at any
//! time; who runs next at each scheduling point is drawn from the tape.

use crate::ctx::{Ctx, Viol};
use std::cell::{Cell, RefCell};
use std::sync::{Condvar, Mutex, MutexGuard};

pub struct Sched<'c> {
    ctx: &'c Ctx,
    state: Mutex<State>,
    cv: Vec<Condvar>,
    /// switch with probability 1/den at each point
    den: usize,
    /// tasks are also interrupted after this many ticks of the clock, or less
    reach: usize,
}

struct State {
    current: usize,
    alive: Vec<bool>,
    budget: u64,
    /// how often in a row a task could not go on
    waits: u64,
    /// how often a turn was taken away because it was too long
    turns: u64,
}

/// No turn is longer than this many ticks, so that a task that waits for
/// another one in a loop does not do so for ever.
const TURN: u64 = 20_000;
/// As many turns end like that, while no operation ends, before it is clear that
/// none will.
const TURNS: u64 = 20_000;

thread_local! {
    static NEST: RefCell<Option<(u64, *const (dyn Fn() + 'static))>> = const { RefCell::new(None) };
    static CURRENT: Cell<Option<(*const (), usize)>> = const { Cell::new(None) };
}

/// Runs `op`; at its k-th scheduling point `nested` is called from within.
/// True if that happened.
pub fn with_nested<T>(k: u64, nested: &dyn Fn(), op: impl FnOnce() -> T) -> (T, bool) {
    struct Guard;
    impl Drop for Guard {
        fn drop(&mut self) {
            NEST.with(|n| *n.borrow_mut() = None);
        }
    }
    // SAFETY: the pointer is removed again before this function returns.
    let p: *const (dyn Fn() + 'static) =
        unsafe { std::mem::transmute::<*const dyn Fn(), *const (dyn Fn() + 'static)>(nested) };
    NEST.with(|n| *n.borrow_mut() = Some((k, p)));
    let _g = Guard;
    let r = op();
    let ran = NEST.with(|n| n.borrow().is_none());
    (r, ran)
}

/// An operation has ended.
pub fn progress() {
    if CURRENT.get().is_some() {
        crate::alloc::pause(|| with_current(|s, _| s.lock().turns = 0));
    }
}

/// A scheduling point in a callback.
pub fn yield_point() {
    let due = NEST.with(|n| {
        let mut n = n.borrow_mut();
        match &mut *n {
            Some((0, p)) => {
                let p = *p;
                *n = None;
                Some(p)
            }
            Some((k, _)) => {
                *k -= 1;
                None
            }
            None => None,
        }
    });
    if let Some(p) = due {
        // SAFETY: see with_nested
        crate::clock::hold(|| unsafe { (*p)() });
    }
    switch_point();
}

fn with_current(f: impl FnOnce(&Sched<'_>, usize)) {
    if let Some((p, me)) = CURRENT.get() {
        // SAFETY: set by `run` for the lifetime of the task, which the
        // scheduler outlives; the lifetime parameter is only ever used while
        // the scheduler is alive.
        let s = unsafe { &*p.cast::<Sched<'_>>() };
        crate::alloc::pause(|| f(s, me));
    }
}

/// The clock says it is time for another task.
fn interrupted() {
    with_current(|s, me| s.interrupt(me));
}

/// Too much goes on although the clock stands still.
fn waiting() {
    if crate::alloc::paused() {
        return;
    }
    with_current(|s, me| {
        let g = s.lock();
        let others = s.others(&g, me);
        s.next_turn(g, me, &others);
    });
}

/// A point where another task may go on; nothing outside a scheduled task.
pub fn switch_point() {
    with_current(|s, me| s.yield_now(me));
}

impl<'c> Sched<'c> {
    fn lock(&self) -> MutexGuard<'_, State> {
        match self.state.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        }
    }

    fn wait<'m>(&'m self, mut g: MutexGuard<'m, State>, me: usize) {
        while g.current != me {
            g = match self.cv[me].wait(g) {
                Ok(g) => g,
                Err(p) => p.into_inner(),
            };
        }
    }

    fn others(&self, g: &State, me: usize) -> Vec<usize> {
        (0..g.alive.len()).filter(|i| g.alive[*i] && *i != me).collect()
    }

    /// Hands over and returns when it is this task's turn again.
    fn hand_over(&self, mut g: MutexGuard<'_, State>, me: usize, next: usize) {
        g.current = next;
        self.ctx.switched(me, next);
        self.ctx.log(format_args!("switch {me} -> {next}"));
        self.cv[next].notify_one();
        self.wait(g, me);
    }

    fn yield_now(&self, me: usize) {
        let mut g = self.lock();
        g.waits = 0;
        if g.budget == 0 {
            return;
        }
        let others = self.others(&g, me);
        if others.is_empty() || !self.ctx.chance(1, self.den) {
            return;
        }
        let next = *self.ctx.pick(&others);
        g.budget -= 1;
        self.hand_over(g, me, next);
    }

    fn interrupt(&self, me: usize) {
        let mut g = self.lock();
        g.waits = 0;
        let others = self.others(&g, me);
        if g.budget == 0 || self.reach == 0 || others.is_empty() {
            crate::clock::set_due(Some(TURN), interrupted);
            self.next_turn(g, me, &others);
            return;
        }
        let next = *self.ctx.pick(&others);
        g.budget -= 1;
        self.ctx.log(format_args!("task {me} interrupted"));
        self.ctx.hit("switch.interrupted");
        self.hand_over(g, me, next);
        self.wind_up();
    }

    fn next_turn(&self, mut g: MutexGuard<'_, State>, me: usize, others: &[usize]) {
        g.turns += 1;
        if g.turns > TURNS {
            crate::clock::stuck("operations were still going on when their time was up");
        }
        if let Some(next) = others.iter().find(|i| **i > me).or(others.first()) {
            self.ctx.hit("switch.long_turn");
            self.hand_over(g, me, *next);
        }
    }

    /// Decides when this task will be interrupted next.
    fn wind_up(&self) {
        if self.reach > 0 {
            let far = [4, 24, 200, 4000][self.ctx.weighted(&[3, 3, 2, 1])].min(self.reach);
            let ticks = 1 + self.ctx.draw(far) as u64;
            crate::clock::set_due(Some(ticks), interrupted);
        } else {
            crate::clock::set_due(Some(TURN), interrupted);
        }
    }

    /// The task waits for something another one has to do.
    fn wait_for_others(&self, me: usize) {
        let mut g = self.lock();
        g.waits += 1;
        let others = self.others(&g, me);
        if others.is_empty() || g.waits > 5000 {
            crate::clock::stuck("deadlock");
        }
        let next = *self.ctx.pick(&others);
        self.ctx.hit("switch.waiting");
        self.hand_over(g, me, next);
    }

    fn end(&self, me: usize) {
        let mut g = self.lock();
        g.alive[me] = false;
        let others: Vec<usize> = (0..g.alive.len()).filter(|i| g.alive[*i]).collect();
        if others.is_empty() {
            return;
        }
        let next = *self.ctx.pick(&others);
        g.current = next;
        self.ctx.log(format_args!("end {me} -> {next}"));
        self.cv[next].notify_one();
    }
}

extern "C" {
    fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
}

/// Tasks take turns, so they might as well do so on one processor: handing
/// over is much cheaper that way. Has no influence on what happens.
fn use_one_processor() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let n: usize = std::env::var("JJSIM_CPU")
            .ok()
            .and_then(|v| v.parse().ok())
            .unwrap_or(std::process::id() as usize);
        let mut mask = [0u64; 16];
        // SAFETY: plain libc calls with valid pointers
        unsafe {
            if sched_getaffinity(0, 128, mask.as_mut_ptr()) < 0 {
                return;
            }
            let cpus: Vec<usize> = (0..1024).filter(|i| mask[i / 64] >> (i % 64) & 1 == 1).collect();
            if cpus.is_empty() {
                return;
            }
            let cpu = cpus[n % cpus.len()];
            let mut one = [0u64; 16];
            one[cpu / 64] = 1 << (cpu % 64);
            sched_setaffinity(0, 128, one.as_ptr());
        }
    });
}

/// Runs the tasks to completion under a schedule from the tape. The first
/// violation (by task number) is returned.
pub fn run<'t>(
    ctx: &Ctx,
    den: usize,
    budget: u64,
    reach: usize,
    guard: fn(Box<dyn FnOnce() -> Result<(), Viol> + Send + 't>) -> Result<(), Viol>,
    tasks: Vec<Box<dyn FnOnce() -> Result<(), Viol> + Send + 't>>,
) -> Result<(), Viol> {
    let n = tasks.len();
    if n == 0 {
        return Ok(());
    }
    use_one_processor();
    let s = Sched {
        ctx,
        state: Mutex::new(State {
            current: ctx.draw(n),
            alive: vec![true; n],
            budget,
            waits: 0,
            turns: 0,
        }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
        den,
        reach,
    };
    let sref = &s;
    let in_run = crate::alloc::in_run();
    // the threads themselves are not part of the simulation
    let results: Vec<Result<(), Viol>> = crate::alloc::pause(|| std::thread::scope(|scope| {
        let handles: Vec<_> = tasks
            .into_iter()
            .enumerate()
            .map(|(me, task)| {
                let b = std::thread::Builder::new().stack_size(16 << 20);
                b.spawn_scoped(scope, move || {
                    sref.wait(sref.lock(), me);
                    let p: *const Sched<'_> = sref;
                    CURRENT.set(Some((p.cast::<()>(), me)));
                    crate::alloc::join_run(in_run);
                    crate::clock::reset();
                    crate::clock::when_waiting(waiting);
                    crate::alloc::pause(|| sref.wind_up());
                    let r = guard(task);
                    crate::clock::reset();
                    crate::alloc::join_run(false);
                    CURRENT.set(None);
                    crate::alloc::set_yield(None);
                    sref.end(me);
                    r
                })
                .expect("spawn")
            })
            .collect();
        handles
            .into_iter()
            .map(|h| h.join().expect("task thread"))
            .collect()
    }));
    results.into_iter().collect()
}

/// The task has nothing to do for a moment.
fn pass() -> bool {
    let scheduled = CURRENT.get().is_some() && crate::alloc::in_run() && !crate::alloc::paused();
    if scheduled {
        with_current(|s, me| {
            let alone = s.others(&s.lock(), me).is_empty();
            if !alone {
                s.wait_for_others(me);
            }
        });
    }
    scheduled
}

// ------------------------------------------------------------------- waiting
//
// A task must not really block on something another task holds: it would take
// the turn with it. The standard library waits with the futex system call,
// through this function of libc, which is replaced here.

extern "C" {
    fn __errno_location() -> *mut i32;
}

/// # Safety
/// As for `syscall(2)`.
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: i64,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> i64 {
    const FUTEX: i64 = 202;
    let wait = n == FUTEX && matches!(b & 0x7f, 0 | 9);
    if wait && crate::alloc::in_run() && !crate::alloc::paused() {
        let code = if *(a as *const u32) == c as u32 {
            if CURRENT.get().is_none() {
                crate::clock::stuck("deadlock");
            }
            with_current(|s, me| s.wait_for_others(me));
            // ETIMEDOUT, EAGAIN
            if d == 0 { 11 } else { 110 }
        } else {
            11
        };
        *__errno_location() = code;
        return -1;
    }
    let r: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
    );
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

/// # Safety
/// As in C.
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if pass() {
        return 0;
    }
    syscall(24, 0, 0, 0, 0, 0, 0) as i32
}

/// # Safety
/// As in C.
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const u8, rest: *mut u8) -> i32 {
    if pass() {
        return 0;
    }
    syscall(35, t as usize, rest as usize, 0, 0, 0, 0) as i32
}

/// # Safety
/// As in C.
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: i32, flags: i32, t: *const u8, rest: *mut u8) -> i32 {
    if pass() {
        return 0;
    }
    if syscall(230, clock as usize, flags as usize, t as usize, rest as usize, 0, 0) == 0 {
        0
    } else {
        *__errno_location()
    }
}
