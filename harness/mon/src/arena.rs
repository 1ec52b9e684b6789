//! Tight races: a fixed set of threads that start each round together.

use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};

/// A place to sleep when spinning did not help, so that a thread stuck in the
/// code under test leaves all others asleep rather than polling (which is what
/// the watchdog looks for).
#[derive(Default)]
pub struct Bell {
    lock: std::sync::Mutex<()>,
    cond: std::sync::Condvar,
}

impl Bell {
    /// Call after making a condition true.
    pub fn ring(&self) {
        drop(self.lock.lock().unwrap());
        self.cond.notify_all();
    }
    pub fn wait(&self, mut cond: impl FnMut() -> bool) {
        for n in 0..3000 {
            if cond() {
                return;
            }
            if cfg!(miri) || n > 300 {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
        let mut g = self.lock.lock().unwrap();
        while !cond() {
            g = self.cond.wait(g).unwrap();
        }
    }
}

/// Logical clock for call/return stamps. The read-modify-writes on it order
/// real-time-ordered operations, also in the memory model.
#[derive(Default)]
pub struct Clock(AtomicU64);

impl Clock {
    pub fn stamp(&self) -> u64 {
        self.0.fetch_add(1, Ordering::SeqCst)
    }
}

/// Run `rounds` rounds on `n` threads. In each round `setup(round)` builds the
/// shared state (on the calling thread), every thread runs
/// `body(&state, thread, round)`, then `finish(state, results, round)` judges
/// it. `finish` returns false to stop early.
pub fn rounds<S: Sync + Send, R: Send>(
    n: usize,
    rounds: u64,
    mut setup: impl FnMut(u64) -> S,
    body: impl Fn(&S, usize, u64) -> R + Sync,
    mut finish: impl FnMut(S, Vec<R>, u64) -> bool,
) {
    use std::sync::Mutex;
    struct Slot<S>(std::cell::UnsafeCell<Option<S>>);
    unsafe impl<S: Sync + Send> Sync for Slot<S> {}

    let slot: Slot<S> = Slot(std::cell::UnsafeCell::new(None));
    let round = AtomicU64::new(0); // 0: idle, k+1: round k
    let done = AtomicUsize::new(0);
    let stop = AtomicUsize::new(0);
    let ready = AtomicUsize::new(0);
    let bell = Bell::default();
    let results: Vec<Mutex<Option<R>>> = (0..n).map(|_| Mutex::new(None)).collect();

    std::thread::scope(|sc| {
        for t in 0..n {
            let (slot, round, done, stop, ready) = (&slot, &round, &done, &stop, &ready);
            let (results, body, bell) = (&results, &body, &bell);
            sc.spawn(move || {
                let mut k = 0;
                loop {
                    bell.wait(|| {
                        round.load(Ordering::Acquire) > k || stop.load(Ordering::Acquire) != 0
                    });
                    if stop.load(Ordering::Acquire) != 0 {
                        return;
                    }
                    // Gather once more so that all start close together.
                    if ready.fetch_add(1, Ordering::AcqRel) + 1 == n {
                        bell.ring();
                    }
                    bell.wait(|| ready.load(Ordering::Acquire) >= n);
                    // SAFETY: written before `round` was published and only
                    // taken back after `done` reached n.
                    let s = unsafe { (*slot.0.get()).as_ref().unwrap() };
                    let r = body(s, t, k);
                    *results[t].lock().unwrap() = Some(r);
                    super::tick();
                    k += 1;
                    if done.fetch_add(1, Ordering::AcqRel) + 1 == n {
                        bell.ring();
                    }
                }
            });
        }
        for k in 0..rounds {
            // SAFETY: all threads are idle here.
            unsafe { *slot.0.get() = Some(setup(k)) };
            done.store(0, Ordering::Release);
            ready.store(0, Ordering::Release);
            round.store(k + 1, Ordering::Release);
            bell.ring();
            bell.wait(|| done.load(Ordering::Acquire) == n);
            let s = unsafe { (*slot.0.get()).take().unwrap() };
            let rs = results
                .iter()
                .map(|r| r.lock().unwrap().take().unwrap())
                .collect();
            if !finish(s, rs, k) {
                break;
            }
        }
        stop.store(1, Ordering::Release);
        bell.ring();
    });
}
