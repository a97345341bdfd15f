//! Not part of rayon-core: lets an explorer decide which jobs are stolen and how threads interleave.
use crate::FnContext;
use std::cell::Cell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

extern "C" {
    fn mc_active() -> i32;
    /// one of `n` alternatives, chosen by the explorer
    fn mc_choose(n: i32) -> i32;
    fn mc_free_threads(on: i32);
    /// index of a worker that may take a job now, or -1
    fn mc_take_worker(limit: i32) -> i32;
    fn mc_give_worker(index: i32);
    fn mc_run(f: extern "C" fn(*mut u8), arg: *mut u8) -> i32;
    fn mc_wait(thread: i32);
}
thread_local! { static INDEX: Cell<i32> = const { Cell::new(-1) }; }

/// true if this thread is not one of a real pool and an explorer is present
pub(crate) fn controlled() -> bool { unsafe { mc_active() != 0 && crate::registry::WorkerThread::current().is_null() } }
pub(crate) fn num_threads() -> usize {
    std::env::var("RAYON_NUM_THREADS").ok().and_then(|s| s.parse().ok()).filter(|n| *n > 0)
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1))
}
pub(crate) fn index() -> Option<usize> { let i = INDEX.with(|i| i.get()); if i < 0 { None } else { Some(i as usize) } }
pub(crate) fn free_threads<R>(f: impl FnOnce() -> R) -> R {
    unsafe { mc_free_threads(1); let r = f(); mc_free_threads(0); r }
}

struct Job<B, R> { f: Option<B>, result: Option<std::thread::Result<R>>, index: i32 }
extern "C" fn run_job<B: FnOnce(FnContext) -> R, R>(p: *mut u8) {
    let job = unsafe { &mut *(p as *mut Job<B, R>) };
    let f = job.f.take().unwrap();
    INDEX.with(|i| i.set(job.index));
    job.result = Some(catch_unwind(AssertUnwindSafe(|| f(FnContext::new(true)))));
    unsafe { mc_give_worker(job.index) }
}

pub(crate) fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    unsafe {
        // called from outside of the pool: a worker takes the whole join
        let injected = INDEX.with(|i| i.get()) < 0;
        let limit = num_threads() as i32;
        if injected {
            let w = mc_take_worker(limit);
            INDEX.with(|i| i.set(w.max(0)));
        }
        let leave = || if injected { mc_give_worker(INDEX.with(|i| i.replace(-1))) };
        let thief = mc_take_worker(limit);
        let stolen = thief >= 0 && mc_choose(2) == 1;
        if thief >= 0 && !stolen { mc_give_worker(thief) }
        if !stolen {
            // nobody else takes the second job: the worker runs it after the first one
            let r = catch_unwind(AssertUnwindSafe(|| { let ra = a(FnContext::new(injected)); (ra, b(FnContext::new(injected))) }));
            leave();
            return r.unwrap_or_else(|e| resume_unwind(e));
        }
        let mut job: Job<B, RB> = Job { f: Some(b), result: None, index: thief };
        let t = mc_run(run_job::<B, RB>, &mut job as *mut _ as *mut u8);
        let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(injected))));
        mc_wait(t);
        leave();
        match (ra, job.result.take().unwrap()) {
            (Ok(x), Ok(y)) => (x, y),
            (Err(e), _) | (_, Err(e)) => resume_unwind(e),
        }
    }
}
