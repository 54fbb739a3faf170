//! The simulator: one seeded scheduler that owns every interleaving of the code under
//! test. Simulated threads are OS threads of which exactly one runs at any moment (it
//! holds the baton). The running thread may lose the baton at every basic block of the
//! code under test (compiled with a call per block), at every allocation, at every
//! call the code under test makes into harness code, and at every system call that can
//! block. All blocking primitives of std end in `syscall(SYS_futex, ..)`, which is
//! replaced here; so are `getrandom`, `sched_yield`, sleeping and the clock.
#![allow(static_mut_refs)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};

pub const MAXT: usize = 16;
const NONE: u32 = u32::MAX;

// ------------------------------------------------------------------ raw system calls
#[inline(always)]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}
const SYS_FUTEX: i64 = 202;
fn fwait(a: &AtomicU32, v: u32) {
    unsafe { raw(SYS_FUTEX, a as *const _ as i64, 128, v as i64, 0, 0, 0) };
}
fn fwake(a: &AtomicU32) {
    unsafe { raw(SYS_FUTEX, a as *const _ as i64, 129, 1, 0, 0, 0) };
}
extern "C" {
    fn __errno_location() -> *mut i32;
}
pub fn die(code: i32) -> ! {
    unsafe {
        raw(231, code as i64, 0, 0, 0, 0, 0);
    }
    loop {}
}

// ------------------------------------------------------------------ state
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Free,
    Run,
    /// address, absolute virtual deadline (ns) or u64::MAX
    Wait(usize, u64),
    Cond,
    Done,
}

/// Which kind of event a step is.
#[derive(Clone, Copy, PartialEq)]
pub enum Ev {
    Block,
    Alloc,
    Seam,
    Sync,
}

/// How switches are chosen.
#[derive(Clone, Debug)]
pub enum Sched {
    /// seed, mean number of events between preemptions, where it may happen (0 everywhere,
    /// 1 at seams, allocations and synchronisation, 2 at synchronisation only), percent
    /// chance of a spurious wake-up or EINTR per wait
    Random { seed: u64, mean: u32, grain: u8, spurious: u32 },
    /// (step, thread) switches; spurious wake-ups are listed by wait number
    Trace { sw: Vec<(u64, u32)>, spurious: Vec<u64> },
}

struct Sim {
    st: [St; MAXT],
    go: [AtomicU32; MAXT],
    n: usize,
    cur: usize,
    main: AtomicU32,
    step: u64,
    clock: u64,
    next: u64,
    rng: u64,
    mean: u32,
    grain: u8,
    spurious_pct: u32,
    waits: u64,
    sched_trace: bool,
    sw: Vec<(u64, u32)>,
    swi: usize,
    spl: Vec<u64>,
    rec: Vec<(u64, u32)>,
    recsp: Vec<u64>,
    timed_out: [bool; MAXT],
    rand: u64,
    /// counters
    pub switches: u64,
    pub blocks: u64,
    pub fwaits: u64,
    pub fwakes: u64,
    pub hash: u64,
}

const F0: AtomicU32 = AtomicU32::new(0);
static mut S: Sim = Sim {
    st: [St::Free; MAXT],
    go: [F0; MAXT],
    n: 0,
    cur: 0,
    main: AtomicU32::new(0),
    step: 0,
    clock: 0,
    next: 0,
    rng: 0,
    mean: 100,
    grain: 0,
    spurious_pct: 0,
    waits: 0,
    sched_trace: false,
    sw: vec![],
    swi: 0,
    spl: vec![],
    rec: vec![],
    recsp: vec![],
    timed_out: [false; MAXT],
    rand: 0,
    switches: 0,
    blocks: 0,
    fwaits: 0,
    fwakes: 0,
    hash: 0,
};
fn s() -> &'static mut Sim {
    unsafe { &mut *std::ptr::addr_of_mut!(S) }
}

/// Accounting of steps is on.
static ON: AtomicBool = AtomicBool::new(false);
/// A multi-threaded run is under way.
static MULTI: AtomicBool = AtomicBool::new(false);
static BUDGET: AtomicU64 = AtomicU64::new(u64::MAX);
static STEPS: AtomicU64 = AtomicU64::new(0);
static SEAMS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static TID: Cell<u32> = const { Cell::new(NONE) };
    static INRT: Cell<bool> = const { Cell::new(false) };
    /// seams left until the running operation is cancelled
    static CANCEL: Cell<i64> = const { Cell::new(-1) };
}
pub fn tid() -> u32 {
    TID.with(|t| t.get())
}
/// Run harness code: no accounting, no preemption.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            INRT.with(|i| i.set(self.0));
        }
    }
    let _g = G(INRT.with(|i| i.replace(true)));
    f()
}

fn rnd(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// Told when the step budget of an operation runs out or nothing can run any more.
/// The process is ended by it (nothing can be unwound safely from there).
pub static mut ON_FATAL: fn(&'static str) -> ! = |_| die(99);

// ------------------------------------------------------------------ accounting
/// Start counting steps of one operation on this thread (single-threaded runs).
pub fn account(budget: u64) {
    TID.with(|t| {
        if t.get() == NONE {
            t.set(0)
        }
    });
    STEPS.store(0, Relaxed);
    SEAMS.store(0, Relaxed);
    BUDGET.store(budget, Relaxed);
    ON.store(true, Relaxed);
}
/// Stop counting; the number of steps made.
pub fn account_end() -> u64 {
    ON.store(false, Relaxed);
    STEPS.load(Relaxed)
}
pub fn set_budget(b: u64) {
    STEPS.store(0, Relaxed);
    BUDGET.store(b, Relaxed);
}
pub fn steps() -> u64 {
    STEPS.load(Relaxed)
}

#[inline]
fn event(k: Ev) {
    if !ON.load(Relaxed) {
        return;
    }
    if INRT.with(|i| i.get()) || TID.with(|t| t.get()) == NONE {
        return;
    }
    let n = STEPS.load(Relaxed) + 1;
    STEPS.store(n, Relaxed);
    if n > BUDGET.load(Relaxed) {
        ON.store(false, Relaxed);
        unsafe { ON_FATAL("no progress: step budget used up") }
    }
    if MULTI.load(Relaxed) {
        step_multi(k);
    }
}

#[inline(never)]
fn step_multi(k: Ev) {
    let x = s();
    x.step += 1;
    if x.sched_trace {
        if x.swi < x.sw.len() && x.sw[x.swi].0 <= x.step {
            let to = x.sw[x.swi].1 as usize;
            x.swi += 1;
            if to < x.n && to != x.cur && x.st[to] == St::Run {
                switch(to);
            }
        }
        return;
    }
    if x.grain > 0 && k == Ev::Block || x.grain > 1 && k != Ev::Sync {
        return;
    }
    if x.next > 1 {
        x.next -= 1;
        return;
    }
    x.next = interval(x);
    let c = runnable(x);
    if c.len() > 1 {
        let mut r = x.rng;
        let to = c[(rnd(&mut r) % c.len() as u64) as usize];
        x.rng = r;
        if to != x.cur {
            switch(to);
        }
    }
}
fn interval(x: &mut Sim) -> u64 {
    let mut r = x.rng;
    let v = rnd(&mut r);
    x.rng = r;
    // roughly geometric: mean or a small multiple of it, often short
    let m = x.mean as u64;
    1 + match v & 7 {
        0 => (v >> 8) % 3,
        1 => (v >> 8) % (4 * m + 1),
        _ => (v >> 8) % (m + 1),
    }
}
struct Cands([usize; MAXT], usize);
impl std::ops::Deref for Cands {
    type Target = [usize];
    fn deref(&self) -> &[usize] {
        &self.0[..self.1]
    }
}
fn runnable(x: &Sim) -> Cands {
    let mut c = Cands([0; MAXT], 0);
    for i in 0..x.n {
        if x.st[i] == St::Run {
            c.0[c.1] = i;
            c.1 += 1;
        }
    }
    c
}

/// Hand the baton to `to` and wait until it comes back.
fn switch(to: usize) {
    let x = s();
    let me = x.cur;
    x.switches += 1;
    x.hash = x.hash.rotate_left(7) ^ (x.step.wrapping_mul(31) + to as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    quiet(|| x.rec.push((x.step, to as u32)));
    x.cur = to;
    x.go[to].store(1, Release);
    fwake(&x.go[to]);
    wait_go(me);
}
fn wait_go(me: usize) {
    let x = s();
    while x.go[me].load(Acquire) == 0 {
        fwait(&x.go[me], 0);
    }
    x.go[me].store(0, Relaxed);
}
/// The running thread cannot go on: run another one. Returns when it may run again.
fn park() {
    let x = s();
    let me = x.cur;
    match choose(x) {
        Some(to) if to == me => {}
        Some(to) => switch(to),
        None => unsafe { ON_FATAL("deadlock: every thread waits") },
    }
}
fn choose(x: &mut Sim) -> Option<usize> {
    let mut c = runnable(x);
    if c.is_empty() {
        // nothing can run: time passes until the first deadline
        let mut best: Option<(u64, usize)> = None;
        for i in 0..x.n {
            if let St::Wait(_, d) = x.st[i] {
                if d != u64::MAX && best.map_or(true, |b| d < b.0) {
                    best = Some((d, i));
                }
            }
        }
        let (d, i) = best?;
        x.clock = x.clock.max(d);
        x.timed_out[i] = true;
        x.st[i] = St::Run;
        c = runnable(x);
    }
    if x.sched_trace {
        if x.swi < x.sw.len() && x.sw[x.swi].0 <= x.step {
            let to = x.sw[x.swi].1 as usize;
            x.swi += 1;
            if c.contains(&to) {
                return Some(to);
            }
        }
        return Some(c[0]);
    }
    let mut r = x.rng;
    let v = rnd(&mut r);
    x.rng = r;
    Some(c[(v % c.len() as u64) as usize])
}

// ------------------------------------------------------------------ runs
pub struct RunInfo {
    pub steps: u64,
    pub switches: u64,
    pub blocks: u64,
    pub fwaits: u64,
    pub spurious: Vec<u64>,
    pub trace: Vec<(u64, u32)>,
    pub hash: u64,
    pub vtime: u64,
}

/// Run the bodies as simulated threads under the schedule, to completion.
pub fn run(bodies: Vec<Box<dyn FnOnce() + Send>>, sched: &Sched, budget: u64) -> RunInfo {
    let n = bodies.len();
    assert!(n > 0 && n <= MAXT);
    {
        let x = s();
        x.n = n;
        for i in 0..MAXT {
            x.st[i] = if i < n { St::Run } else { St::Free };
            x.go[i].store(0, Relaxed);
            x.timed_out[i] = false;
        }
        x.main.store(0, Relaxed);
        x.step = 0;
        x.clock = 0;
        x.waits = 0;
        x.swi = 0;
        x.rec = Vec::with_capacity(256);
        x.recsp = vec![];
        x.switches = 0;
        x.blocks = 0;
        x.fwaits = 0;
        x.fwakes = 0;
        x.hash = 0;
        match sched {
            Sched::Random { seed, mean, grain, spurious } => {
                x.sched_trace = false;
                x.rng = *seed;
                x.mean = *mean;
                x.grain = *grain;
                x.spurious_pct = *spurious;
                x.sw = vec![];
                x.next = interval(x);
            }
            Sched::Trace { sw, spurious } => {
                x.sched_trace = true;
                x.sw = sw.clone();
                x.spl = spurious.clone();
            }
        }
    }
    let hs: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(i, f)| {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    wait_go(i);
                    TID.with(|t| t.set(i as u32));
                    INRT.with(|t| t.set(false));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                    // from here on nothing is accounted
                    TID.with(|t| t.set(NONE));
                    if r.is_err() {
                        unsafe { ON_FATAL("a simulated thread died") }
                    }
                    drop(r);
                    let x = s();
                    x.st[i] = St::Done;
                    if (0..x.n).all(|k| x.st[k] == St::Done) {
                        x.main.store(1, Release);
                        fwake(&x.main);
                        return;
                    }
                    match choose(x) {
                        Some(to) => {
                            x.rec.push((x.step, to as u32));
                            x.hash = x.hash.rotate_left(7) ^ (x.step * 31 + to as u64);
                            x.cur = to;
                            x.go[to].store(1, Release);
                            fwake(&x.go[to]);
                        }
                        None => unsafe { ON_FATAL("deadlock: every thread waits") },
                    }
                })
                .unwrap()
        })
        .collect();
    let x = s();
    STEPS.store(0, Relaxed);
    SEAMS.store(0, Relaxed);
    BUDGET.store(budget, Relaxed);
    MULTI.store(true, Relaxed);
    let first = choose(x).unwrap();
    x.rec.push((0, first as u32));
    x.cur = first;
    ON.store(true, Release);
    x.go[first].store(1, Release);
    fwake(&x.go[first]);
    while x.main.load(Acquire) == 0 {
        fwait(&x.main, 0);
    }
    ON.store(false, Relaxed);
    MULTI.store(false, Relaxed);
    for h in hs {
        h.join().unwrap();
    }
    RunInfo {
        steps: x.step,
        switches: x.switches,
        blocks: x.blocks,
        fwaits: x.fwaits,
        spurious: x.recsp.clone(),
        trace: std::mem::take(&mut x.rec),
        hash: x.hash,
        vtime: x.clock,
    }
}

/// The schedule made so far (for a run that ends in ON_FATAL).
pub fn trace_so_far() -> (Vec<(u64, u32)>, Vec<u64>) {
    (s().rec.clone(), s().recsp.clone())
}
/// Running under a multi-threaded schedule?
pub fn multi() -> bool {
    MULTI.load(Relaxed)
}
/// Wait (in simulated threads) until the condition holds.
pub fn wait_until(mut cond: impl FnMut() -> bool) {
    while !quiet(&mut cond) {
        let x = s();
        let me = x.cur;
        x.st[me] = St::Cond;
        park();
        x.st[me] = St::Run;
    }
}
/// Let every thread in `wait_until` look at its condition again.
pub fn notify() {
    let x = s();
    for i in 0..x.n {
        if x.st[i] == St::Cond {
            x.st[i] = St::Run;
        }
    }
}

// ------------------------------------------------------------------ seams and cancellation
pub struct Cancel;
/// The n-th seam from here on this thread (0 = the next one) panics.
pub fn arm_cancel(n: i64) {
    CANCEL.with(|c| c.set(n));
}
pub fn disarm_cancel() -> bool {
    CANCEL.with(|c| c.replace(-1)) >= 0
}
/// A call from the code under test into harness code.
pub fn seam() {
    SEAMS.store(SEAMS.load(Relaxed) + 1, Relaxed);
    event(Ev::Seam);
    let c = CANCEL.with(|c| c.get());
    if c >= 0 {
        CANCEL.with(|x| x.set(c - 1));
        if c == 0 && !std::thread::panicking() {
            std::panic::resume_unwind(Box::new(Cancel));
        }
    }
}
pub fn seams() -> u64 {
    SEAMS.load(Relaxed)
}

// ------------------------------------------------------------------ hooks
pub struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        event(Ev::Alloc);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        event(Ev::Alloc);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        event(Ev::Alloc);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        event(Ev::Alloc);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static GLOBAL: A = A;

pub static mut GUARDS: u32 = 0;
pub const MAXG: usize = 1 << 18;
pub static mut HIT: [u8; MAXG] = [0; MAXG];

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let i = *g as usize;
    if i < MAXG {
        HIT[i] = 1;
    }
    event(Ev::Block);
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    let mut p = a;
    while p < b {
        if *p == 0 {
            GUARDS += 1;
            *p = GUARDS;
        }
        p = p.add(1);
    }
}
pub fn edges_hit() -> usize {
    unsafe { HIT.iter().filter(|x| **x != 0).count() }
}

// every atomic operation of the code under test (compiled as for a thread sanitizer) is a
// preemption point of its own
#[no_mangle]
pub extern "C" fn __tsan_init() {}
macro_rules! atomics {
    ($t:ty, $a:ty, $load:ident $store:ident $swap:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $a, _o: i32) -> $t {
            event(Ev::Sync);
            (*p).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *const $a, v: $t, _o: i32) {
            event(Ev::Sync);
            (*p).store(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $swap(p: *const $a, v: $t, _o: i32) -> $t {
            event(Ev::Sync);
            (*p).swap(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *const $a, v: $t, _o: i32) -> $t {
            event(Ev::Sync);
            (*p).fetch_add(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *const $a, v: $t, _o: i32) -> $t {
            event(Ev::Sync);
            (*p).fetch_sub(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *const $a, v: $t, _o: i32) -> $t {
            event(Ev::Sync);
            (*p).fetch_and(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *const $a, v: $t, _o: i32) -> $t {
            event(Ev::Sync);
            (*p).fetch_or(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *const $a, v: $t, _o: i32) -> $t {
            event(Ev::Sync);
            (*p).fetch_xor(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *const $a, v: $t, _o: i32) -> $t {
            event(Ev::Sync);
            (*p).fetch_nand(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *const $a, old: $t, new: $t, _o: i32, _f: i32) -> $t {
            event(Ev::Sync);
            match (*p).compare_exchange(old, new, SeqCst, SeqCst) {
                Ok(v) | Err(v) => v,
            }
        }
    };
}
use std::sync::atomic::{AtomicU16, AtomicU8};
atomics!(u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val);
atomics!(u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val);
atomics!(u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val);
atomics!(u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val);
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_o: i32) {
    event(Ev::Sync);
    std::sync::atomic::fence(SeqCst);
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}

fn sim_thread() -> bool {
    MULTI.load(Relaxed) && !INRT.with(|i| i.get()) && TID.with(|t| t.get()) != NONE
}
unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_FUTEX && sim_thread() {
        match b & 127 {
            0 | 9 => return futex_wait(a as usize, c as u32, b & 127 == 9, d as *const [i64; 2]),
            1 | 10 => return futex_wake(a as usize, c as i32 as i64),
            _ => {}
        }
    }
    if n == 318 {
        // getrandom
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    ret(raw(n, a, b, c, d, e, f))
}
unsafe fn futex_wait(addr: usize, val: u32, absolute: bool, ts: *const [i64; 2]) -> i64 {
    let x = s();
    if (*(addr as *const AtomicU32)).load(SeqCst) != val {
        *__errno_location() = 11;
        return -1;
    }
    x.fwaits += 1;
    let w = x.waits;
    x.waits += 1;
    let sp = if x.sched_trace {
        x.spl.contains(&w)
    } else {
        let mut r = x.rng;
        let v = rnd(&mut r);
        x.rng = r;
        (v >> 16) % 100 < x.spurious_pct as u64
    };
    if sp {
        quiet(|| x.recsp.push(w));
        // half spurious success, half EINTR
        event(Ev::Sync);
        if w % 2 == 0 {
            return 0;
        }
        *__errno_location() = 4;
        return -1;
    }
    let me = x.cur;
    let dl = if ts.is_null() {
        u64::MAX
    } else {
        let t = ((*ts)[0] as u64).saturating_mul(1_000_000_000).saturating_add((*ts)[1] as u64);
        if absolute {
            t
        } else {
            x.clock.saturating_add(t)
        }
    };
    x.timed_out[me] = false;
    x.st[me] = St::Wait(addr, dl);
    x.blocks += 1;
    park();
    x.st[me] = St::Run;
    if std::mem::replace(&mut x.timed_out[me], false) {
        *__errno_location() = 110;
        return -1;
    }
    0
}
unsafe fn futex_wake(addr: usize, n: i64) -> i64 {
    let x = s();
    x.fwakes += 1;
    let mut k = 0;
    for i in 0..x.n {
        if let St::Wait(a, _) = x.st[i] {
            if a == addr && k < n {
                x.st[i] = St::Run;
                k += 1;
            }
        }
    }
    event(Ev::Sync);
    k
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _f: u32) -> isize {
    let x = s();
    for i in 0..n {
        *p.add(i) = rnd(&mut x.rand) as u8;
    }
    n as isize
}
pub fn seed_getrandom(v: u64) {
    s().rand = v;
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if sim_thread() {
        let x = s();
        x.next = 1;
        event(Ev::Sync);
    }
    0
}
unsafe fn sleep_ns(ns: u64) {
    let x = s();
    let me = x.cur;
    x.st[me] = St::Wait(0, x.clock.saturating_add(ns));
    park();
    x.st[me] = St::Run;
    x.timed_out[me] = false;
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if sim_thread() {
        sleep_ns((*t)[0] as u64 * 1_000_000_000 + (*t)[1] as u64);
        return 0;
    }
    ret(raw(35, t as i64, rem as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i32, fl: i32, t: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if sim_thread() {
        let ns = (*t)[0] as u64 * 1_000_000_000 + (*t)[1] as u64;
        let now = s().clock;
        sleep_ns(if fl & 1 != 0 { ns.saturating_sub(now) } else { ns });
        return 0;
    }
    -(raw(230, c as i64, fl as i64, t as i64, rem as i64, 0, 0) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32 {
    if sim_thread() {
        let x = s();
        x.clock += 1000;
        (*t)[0] = (x.clock / 1_000_000_000) as i64;
        (*t)[1] = (x.clock % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw(228, c as i64, t as i64, 0, 0, 0, 0)) as i32
}
