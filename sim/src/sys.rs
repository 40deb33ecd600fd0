//! Seams and scheduler: everything nondeterministic the code under test can reach is decided here.
//!
//! The binary defines `syscall`, `clock_gettime`, `getrandom`, `nanosleep`, `clock_nanosleep`, `sched_yield`
//! (std, chrono, uuid, rand and HashMap seeding all end in one of them) and the global allocator.  Threads registered
//! with the simulator run one at a time; the others (the harness) reach the real system.
use crate::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};

pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    unsafe { asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack)) };
    r
}
fn fwait(w: &AtomicU32, v: u32) { unsafe { raw(202, w as *const _ as i64, 128, v as i64, 0, 0, 0) }; }
fn fwake(w: &AtomicU32) { unsafe { raw(202, w as *const _ as i64, 129, 1, 0, 0, 0) }; }

const NT: usize = 8;
pub const NONE: u32 = u32::MAX;
thread_local! {
    static TID: Cell<u32> = const { Cell::new(NONE) };
    /// library code is running on this thread
    static LIB: Cell<bool> = const { Cell::new(false) };
    /// inside the simulator itself
    static BUSY: Cell<bool> = const { Cell::new(false) };
}
static ON: AtomicBool = AtomicBool::new(false);
static WORDS: [AtomicU32; NT] = [const { AtomicU32::new(0) }; NT];
static FINISHED: AtomicU32 = AtomicU32::new(0);

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ts { Ready, Futex { addr: usize, deadline: u64, fired: bool }, Idle { deadline: u64 }, Done }

#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct SchedPlan {
    pub seed: u64,
    /// mean number of scheduling points between preemptions (0: never preempt)
    pub gap: u32,
    /// explicit decisions (point, choice); when present nothing is drawn
    pub decisions: Option<Vec<(u64, u32)>>,
}
#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct ClockPlan {
    /// wall clock at simulated time 0, ns since the epoch
    pub wall_ns: i64,
    /// simulated ns that pass at each scheduling point and clock reading
    pub tick_ns: u64,
    pub tz: String,
    /// resolution of the wall clock, ns (0: exact)
    #[serde(default)]
    pub grain_ns: i64,
}
#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct EntropyPlan { pub seed: u64, /* 0 random, 1 zeros, 2 ones, 3 repeating byte, 4 counter */ pub mode: u8 }

pub struct Sim {
    th: [Ts; NT], n: usize, cur: usize,
    pub step: u64, pub now: u64, pub wall_off: i64, tick: u64, grain: i64,
    rng: Rng, gap: u32, next_pre: u64,
    replay: Option<Vec<(u64, u32)>>, ri: usize,
    pub decisions: Vec<(u64, u32)>,
    pub switches: u64, pub hash: u64,
    pub max_steps: u64, pub crash_at: u64,
    ent: Rng, ent_mode: u8, ent_ctr: u8, pub ent_bytes: u64,
    pub reads: Vec<(u32, i64)>,  // wall clock readings: (thread, value)
    pub live_bytes: i64, pub peak_bytes: i64,
    pub stop: Option<&'static str>,
    pub calls: u64, pub futex_waits: u64, pub timeouts: u64, pub mono_reads: u64,
    pub ready_tasks_probe: Option<fn() -> (bool, u64)>, // (some task ready, earliest task deadline)
    pub on_end: Option<fn(&'static str) -> !>,
}
static mut SIM: Option<Box<Sim>> = None;
#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim { unsafe { SIM.as_mut().unwrap() } }

pub fn start(n: usize, s: &SchedPlan, c: &ClockPlan, e: &EntropyPlan, max_steps: u64, crash_at: u64) {
    let mut x = Sim {
        th: [Ts::Done; NT], n, cur: 0, step: 0, now: 0, wall_off: c.wall_ns, tick: c.tick_ns, grain: c.grain_ns.max(1),
        rng: Rng::derive(s.seed, 901), gap: s.gap, next_pre: u64::MAX,
        replay: s.decisions.clone(), ri: 0, decisions: Vec::with_capacity(4096), switches: 0, hash: 0xcbf29ce484222325,
        max_steps, crash_at, ent: Rng::derive(e.seed, 902), ent_mode: e.mode, ent_ctr: 0, ent_bytes: 0,
        reads: Vec::with_capacity(1024), live_bytes: 0, peak_bytes: 0, stop: None, calls: 0, futex_waits: 0, timeouts: 0, mono_reads: 0,
        ready_tasks_probe: None, on_end: None,
    };
    for t in x.th.iter_mut().take(n) { *t = Ts::Ready; }
    x.new_gap();
    unsafe { SIM = Some(Box::new(x)); }
    for w in &WORDS { w.store(0, SeqCst) }
    FINISHED.store(0, SeqCst);
    ON.store(true, SeqCst);
}
impl Sim {
    fn new_gap(&mut self) {
        if self.gap == 0 || self.replay.is_some() { self.next_pre = u64::MAX; return; }
        // geometric-like, with a heavy head so that bursts of preemptions occur
        let g = self.gap as f64;
        let x = if self.rng.chance(25) { 1.0 + self.rng.f01() * 4.0 } else { 1.0 - (1.0 - self.rng.f01()).ln() * g };
        self.next_pre = self.step + x as u64;
    }
    fn replayed(&mut self) -> u32 {
        let r = self.replay.as_ref().unwrap();
        while self.ri < r.len() && r[self.ri].0 < self.step { self.ri += 1 }
        if self.ri < r.len() && r[self.ri].0 == self.step { let v = r[self.ri].1; self.ri += 1; v } else { 0 }
    }
    /// One decision among n options; 0 is the default.
    fn decide(&mut self, n: usize) -> usize {
        self.step += 1;
        if n <= 1 { return 0 }
        let c = if self.replay.is_some() { (self.replayed() as usize).min(n - 1) } else { self.rng.below(n) };
        if c != 0 { self.decisions.push((self.step, c as u32)); }
        self.note(c as u64);
        c
    }
    pub fn note(&mut self, x: u64) { self.hash = (self.hash ^ x ^ (self.step << 20)).wrapping_mul(0x100000001b3).rotate_left(5); }
    fn ready_list(&self, skip: Option<usize>) -> ([usize; NT], usize) {
        let mut l = [0; NT]; let mut k = 0;
        // round robin order after the current thread
        for j in 1..=self.n { let t = (self.cur + j) % self.n; if Some(t) != skip && self.th[t] == Ts::Ready { l[k] = t; k += 1 } }
        (l, k)
    }
    fn wake_idle(&mut self) {
        if let Some(p) = self.ready_tasks_probe { if p().0 { for t in self.th.iter_mut().take(self.n) { if let Ts::Idle { .. } = t { *t = Ts::Ready; } } } }
    }
}
fn handoff(from: usize, to: usize) {
    let s = sim();
    s.cur = to; s.switches += 1; let h = to as u64; s.note(h);
    WORDS[to].store(1, SeqCst); fwake(&WORDS[to]);
    wait_turn(from);
}
fn wait_turn(me: usize) { while WORDS[me].swap(0, SeqCst) == 0 { fwait(&WORDS[me], 0) } }
fn end(why: &'static str) -> ! { let s = sim(); s.stop = Some(why); ON.store(false, SeqCst); LIB.with(|l| l.set(false)); (s.on_end.unwrap())(why) }

/// A scheduling point of the running thread.
#[inline]
pub fn point() {
    if !LIB.with(|l| l.get()) { return }
    point_slow(false)
}
fn point_slow(force: bool) {
    if BUSY.with(|b| b.replace(true)) { return }
    let s = sim();
    s.step += 1; s.now += s.tick;
    if s.step >= s.crash_at { end("crash") }
    if s.step >= s.max_steps { end("steps") }
    let due = if s.replay.is_some() { let r = s.replay.as_ref().unwrap(); while s.ri < r.len() && r[s.ri].0 < s.step { s.ri += 1 } s.ri < r.len() && r[s.ri].0 == s.step } else { force || s.step >= s.next_pre };
    if due {
        s.wake_idle();
        let (l, k) = s.ready_list(Some(s.cur));
        let c = if s.replay.is_some() { (s.replayed() as usize).min(k) } else { let c = if k == 0 { 0 } else { 1 + s.rng.below(k) }; s.new_gap(); c };
        if c > 0 { let st = s.step; s.decisions.push((st, c as u32)); let me = s.cur; handoff(me, l[c - 1]); }
    }
    BUSY.with(|b| b.set(false));
}
/// The running thread cannot continue: somebody else must.
fn block(me: usize) {
    loop {
        let s = sim();
        s.wake_idle();
        if s.th[me] == Ts::Ready {
            // may already be runnable again (timeout, idle with work)
            let (l, k) = s.ready_list(None);
            let c = s.decide(k);
            if l[c] == me { s.cur = me; return }
            handoff(me, l[c]); return;
        }
        let (l, k) = s.ready_list(Some(me));
        if k > 0 { let c = s.decide(k); handoff(me, l[c]); return; }
        // nobody can run: let time pass
        let mut best = u64::MAX;
        for t in s.th.iter().take(s.n) { match t { Ts::Futex { deadline, .. } | Ts::Idle { deadline } => best = best.min(*deadline), _ => {} } }
        if let Some(p) = s.ready_tasks_probe { best = best.min(p().1) }
        if best == u64::MAX {
            if s.th.iter().take(s.n).all(|t| matches!(t, Ts::Idle { .. } | Ts::Done)) { end("lost-wakeup") }
            end("deadlock")
        }
        s.now = s.now.max(best);
        let now = s.now; let n = s.n;
        for t in s.th.iter_mut().take(n) { match t { Ts::Futex { deadline, fired, .. } if *deadline <= now => { *fired = true; s.timeouts += 1; } Ts::Idle { deadline } if *deadline <= now => *t = Ts::Ready, _ => {} } }
        for t in s.th.iter_mut().take(n) { if let Ts::Futex { fired: true, .. } = t { *t = Ts::Ready; } }
    }
}
/// Run `f` as library code on this simulated thread.
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G { fn drop(&mut self) { LIB.with(|l| l.set(self.0)) } }
    let on = TID.with(|t| t.get()) != NONE;
    let _g = G(LIB.with(|l| l.replace(on)));
    if on { sim().calls += 1 }
    point();
    f()
}
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G { fn drop(&mut self) { LIB.with(|l| l.set(self.0)) } }
    let _g = G(LIB.with(|l| l.replace(false)));
    f()
}
pub fn tid() -> u32 { TID.with(|t| t.get()) }
pub fn enter(me: usize) {
    TID.with(|t| t.set(me as u32));
    wait_turn(me);
}
pub fn kick() { WORDS[0].store(1, SeqCst); fwake(&WORDS[0]); }
/// Thread has no more work.
pub fn leave(me: usize) {
    let s = sim();
    s.th[me] = Ts::Done;
    TID.with(|t| t.set(NONE));
    let left = s.th.iter().take(s.n).filter(|t| **t != Ts::Done).count();
    FINISHED.store((s.n - left) as u32, SeqCst);
    if left == 0 { ON.store(false, SeqCst); return }
    s.wake_idle();
    // all remaining idle threads must notice that the work is done
    for t in s.th.iter_mut().take(s.n) { if let Ts::Idle { .. } = t { *t = Ts::Ready } }
    let (l, k) = s.ready_list(Some(me));
    if k == 0 { end("deadlock") }
    let c = s.decide(k);
    s.cur = l[c]; s.switches += 1;
    WORDS[l[c]].store(1, SeqCst); fwake(&WORDS[l[c]]);
}
/// Voluntary wait for tasks (executor threads).
pub fn idle(me: usize, deadline: u64) { BUSY.with(|b| b.set(true)); sim().th[me] = Ts::Idle { deadline }; block(me); BUSY.with(|b| b.set(false)); }
/// Decision by the executor (which ready task runs).
pub fn choose(n: usize) -> usize { BUSY.with(|b| b.set(true)); let c = sim().decide(n); BUSY.with(|b| b.set(false)); c }
/// Explicit possible switch (between steps of harness scripts).
pub fn pause() { if tid() != NONE { BUSY.with(|b| b.set(true)); let s = sim(); s.wake_idle(); let (l, k) = s.ready_list(Some(s.cur)); let me = s.cur; let c = s.decide(k + 1); if c > 0 { handoff(me, l[c - 1]) } BUSY.with(|b| b.set(false)); } }
pub fn wall_now() -> i64 { let s = sim(); let v = s.now as i64 + s.wall_off; v - v.rem_euclid(s.grain) }

// ------------------------------------------------------------------ interposed functions
unsafe fn errno(e: i32) -> i64 { unsafe { *libc::__errno_location() = e; } -1 }
fn simulated() -> bool { TID.with(|t| t.get()) != NONE && ON.load(Relaxed) }

unsafe fn futex(a: i64, op: i64, val: i64, to: i64) -> i64 {
    let cmd = op & 0x7f;
    let was = BUSY.with(|b| b.replace(true));
    let s = sim();
    let me = s.cur;
    let r = match cmd {
        0 | 9 => {
            s.step += 1;
            let cur = unsafe { (*(a as *const AtomicU32)).load(SeqCst) };
            if cur != val as u32 { unsafe { errno(libc::EAGAIN) } } else {
                let mut deadline = u64::MAX;
                if to != 0 {
                    let t = unsafe { &*(to as *const libc::timespec) };
                    let ns = (t.tv_sec as i128 * 1_000_000_000 + t.tv_nsec as i128).max(0);
                    // WAIT: relative; WAIT_BITSET: absolute monotonic
                    deadline = if cmd == 0 { s.now.saturating_add(ns.min(u64::MAX as i128 / 2) as u64) } else { ns.min(u64::MAX as i128 / 2) as u64 };
                    deadline = deadline.max(s.now);
                }
                s.futex_waits += 1;
                s.th[me] = Ts::Futex { addr: a as usize, deadline, fired: false };
                let t0 = s.timeouts;
                block(me);
                let s = sim();
                if deadline != u64::MAX && s.now >= deadline && s.timeouts > t0 { unsafe { errno(libc::ETIMEDOUT) } } else { 0 }
            }
        }
        1 | 10 => {
            let mut k = 0;
            let n = s.n;
            for t in s.th.iter_mut().take(n) { if k < val.min(i32::MAX as i64) { if let Ts::Futex { addr, .. } = t && *addr == a as usize { *t = Ts::Ready; k += 1; } } }
            k
        }
        _ => unsafe { errno(libc::ENOSYS) },
    };
    BUSY.with(|b| b.set(was));
    if cmd == 1 || cmd == 10 { point_slow(false); }
    r
}
fn fill(p: *mut u8, l: usize) {
    let s = sim();
    for i in 0..l {
        let b = match s.ent_mode { 0 => s.ent.u64() as u8, 1 => 0, 2 => 0xff, 3 => 0xa5, _ => { s.ent_ctr = s.ent_ctr.wrapping_add(1); s.ent_ctr } };
        unsafe { *p.add(i) = b }
    }
    s.ent_bytes += l as u64;
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if simulated() {
        if n == libc::SYS_futex { return unsafe { futex(a, b, c, d) } }
        if n == libc::SYS_getrandom { fill(a as *mut u8, b as usize); return b }
        if n == libc::SYS_sched_yield { point_slow(true); return 0 }
    }
    let r = unsafe { raw(n, a, b, c, d, e, f) };
    if r < 0 && r > -4096 { unsafe { errno(-r as i32) } } else { r }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(p: *mut u8, l: usize, fl: u32) -> isize {
    if simulated() { fill(p, l); return l as isize }
    let r = unsafe { raw(libc::SYS_getrandom, p as i64, l as i64, fl as i64, 0, 0, 0) };
    if r < 0 { unsafe { errno(-r as i32) as isize } } else { r as isize }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(c: libc::clockid_t, t: *mut libc::timespec) -> i32 {
    if simulated() {
        let s = sim();
        s.now += s.tick.max(1);
        let v = match c {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => { let v = s.now as i64 + s.wall_off; let v = v - v.rem_euclid(s.grain); BUSY.with(|b| { let w = b.replace(true); s.reads.push((s.cur as u32, v)); b.set(w) }); v }
            _ => { s.mono_reads += 1; s.now as i64 }
        };
        unsafe { (*t).tv_sec = v.div_euclid(1_000_000_000); (*t).tv_nsec = v.rem_euclid(1_000_000_000); }
        return 0;
    }
    let r = unsafe { raw(libc::SYS_clock_gettime, c as i64, t as i64, 0, 0, 0, 0) };
    if r < 0 { unsafe { errno(-r as i32) as i32 } } else { 0 }
}
fn sleep_ns(ns: u64) {
    let s = sim(); let me = s.cur;
    let was = BUSY.with(|b| b.replace(true));
    s.th[me] = Ts::Futex { addr: 0, deadline: s.now.saturating_add(ns), fired: false };
    block(me);
    BUSY.with(|b| b.set(was));
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn nanosleep(q: *const libc::timespec, r: *mut libc::timespec) -> i32 {
    if simulated() { let t = unsafe { &*q }; sleep_ns(t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64); return 0 }
    let x = unsafe { raw(libc::SYS_nanosleep, q as i64, r as i64, 0, 0, 0, 0) };
    if x < 0 { unsafe { errno(-x as i32) as i32 } } else { 0 }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(c: libc::clockid_t, fl: i32, q: *const libc::timespec, r: *mut libc::timespec) -> i32 {
    if simulated() {
        let t = unsafe { &*q }; let ns = t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64;
        sleep_ns(if fl & 1 != 0 { ns.saturating_sub(sim().now) } else { ns });
        return 0;
    }
    -unsafe { raw(libc::SYS_clock_nanosleep, c as i64, fl as i64, q as i64, r as i64, 0, 0) } as i32
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if simulated() { point_slow(true); return 0 }
    unsafe { raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32 }
}

// ------------------------------------------------------------------ allocator
pub struct Alloc;
static MEASURE: AtomicBool = AtomicBool::new(false);
static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
/// Counts from now on what simulated threads allocate and free, harness steps included.
pub fn measure() { MEASURE.store(true, SeqCst) }
pub fn live() -> i64 { LIVE.load(SeqCst) }
#[inline]
fn weigh(d: i64) { if MEASURE.load(Relaxed) && TID.try_with(|t| t.get()).unwrap_or(NONE) != NONE && !BUSY.try_with(|b| b.get()).unwrap_or(true) { LIVE.fetch_add(d, Relaxed); } }
#[inline]
fn account(d: i64) { let s = sim(); s.live_bytes += d; if s.live_bytes > s.peak_bytes { s.peak_bytes = s.live_bytes } }
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if LIB.try_with(|x| x.get()).unwrap_or(false) && !BUSY.with(|b| b.get()) { point_slow(false); account(l.size() as i64); }
        weigh(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if LIB.try_with(|x| x.get()).unwrap_or(false) && !BUSY.with(|b| b.get()) { point_slow(false); account(-(l.size() as i64)); }
        weigh(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if LIB.try_with(|x| x.get()).unwrap_or(false) && !BUSY.with(|b| b.get()) { point_slow(false); account(n as i64 - l.size() as i64); }
        weigh(n as i64 - l.size() as i64);
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static A: Alloc = Alloc;
