//! Asynchronous executor on simulated threads.
use crate::sys;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

struct Task { fut: Option<Pin<Box<dyn Future<Output = ()>>>>, ready: bool, deadline: u64, done: bool }
static mut TASKS: Vec<Task> = vec![];
static mut CUR: [usize; 8] = [usize::MAX; 8];
#[allow(static_mut_refs)]
fn tasks() -> &'static mut Vec<Task> { unsafe { &mut TASKS } }
pub fn current() -> usize { let t = sys::tid(); if t == sys::NONE { usize::MAX } else { unsafe { CUR[t as usize] } } }

static VT: RawWakerVTable = RawWakerVTable::new(|d| RawWaker::new(d, &VT), |d| wake(d as usize), |d| wake(d as usize), |_| {});
fn wake(t: usize) { if let Some(x) = tasks().get_mut(t) { x.ready = true } }
fn waker(t: usize) -> Waker { unsafe { Waker::from_raw(RawWaker::new(t as *const (), &VT)) } }

fn probe() -> (bool, u64) {
    let now = sys::sim().now;
    let mut any = false; let mut best = u64::MAX;
    for t in tasks().iter() { if t.done || t.fut.is_none() { continue } if t.ready || t.deadline <= now { any = true } best = best.min(t.deadline) }
    (any, best)
}
pub fn spawn(f: Pin<Box<dyn Future<Output = ()>>>) { tasks().push(Task { fut: Some(f), ready: true, deadline: u64::MAX, done: false }) }

fn worker(me: usize) {
    sys::enter(me);
    loop {
        let now = sys::sim().now;
        let ready: Vec<usize> = tasks().iter().enumerate().filter(|(_, t)| !t.done && t.fut.is_some() && (t.ready || t.deadline <= now)).map(|(i, _)| i).collect();
        if ready.is_empty() {
            if tasks().iter().all(|t| t.done) { break }
            sys::idle(me, u64::MAX);
            continue;
        }
        let i = ready[sys::choose(ready.len())];
        // another thread may have taken it while we were switched out: choose() never switches, so it is still there
        let t = &mut tasks()[i];
        t.ready = false; t.deadline = u64::MAX;
        let mut f = t.fut.take().unwrap();
        unsafe { CUR[me] = i };
        let w = waker(i);
        let r = f.as_mut().poll(&mut Context::from_waker(&w));
        unsafe { CUR[me] = usize::MAX };
        let t = &mut tasks()[i];
        match r { Poll::Ready(()) => { t.done = true; drop(f) } Poll::Pending => t.fut = Some(f) }
        sys::pause();
    }
    sys::leave(me);
}
/// Runs all spawned tasks to completion on `n` simulated threads.
pub fn run(n: usize, stack: usize) {
    sys::sim().ready_tasks_probe = Some(probe);
    let hs: Vec<_> = (0..n).map(|i| std::thread::Builder::new().stack_size(stack).spawn(move || worker(i)).unwrap()).collect();
    sys::kick();
    for h in hs { let _ = h.join(); }
}

pub struct Sleep { ns: u64, armed: bool }
/// Gives up the thread; the task becomes runnable again after `ns` of simulated time.
pub fn sleep(ns: u64) -> Sleep { Sleep { ns, armed: false } }
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _c: &mut Context<'_>) -> Poll<()> {
        if self.armed { return Poll::Ready(()) }
        self.armed = true;
        let i = current();
        if i == usize::MAX { return Poll::Ready(()) }
        let t = &mut tasks()[i];
        if self.ns == 0 { t.ready = true } else { t.deadline = sys::sim().now + self.ns }
        Poll::Pending
    }
}
pub enum Out<T> { Done(T), Panicked, Cancelled }
/// Polls library code as such, turns panics into a value, and drops the future at its `cancel`-th suspension.
pub struct LibFut<'a, T> { pub f: Option<Pin<Box<dyn Future<Output = T> + 'a>>>, pub cancel: u32, pub seen: u32 }
impl<'a, T> Future for LibFut<'a, T> {
    type Output = Out<T>;
    fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Out<T>> {
        let this = &mut *self;
        let f = this.f.as_mut().unwrap();
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sys::lib(|| f.as_mut().poll(c)))) {
            Err(_) => { let f = this.f.take(); let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(f))); Poll::Ready(Out::Panicked) }
            Ok(Poll::Ready(v)) => { let f = this.f.take(); sys::lib(move || drop(f)); Poll::Ready(Out::Done(v)) }
            Ok(Poll::Pending) => {
                this.seen += 1;
                if this.cancel != 0 && this.seen >= this.cancel { let f = this.f.take(); sys::lib(move || drop(f)); return Poll::Ready(Out::Cancelled) }
                Poll::Pending
            }
        }
    }
}
pub fn libfut<'a, T>(f: impl Future<Output = T> + 'a, cancel: u32) -> LibFut<'a, T> { LibFut { f: Some(Box::pin(f)), cancel, seen: 0 } }
/// Synchronous library call; None when it panicked.
pub fn call<T>(f: impl FnOnce() -> T) -> Option<T> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sys::lib(f))).ok() }
