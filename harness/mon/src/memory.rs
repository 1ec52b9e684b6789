//! Bytes in use, for monitors of what is kept.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

/// The system's allocator; counts once told to.
pub struct Counting;

static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);

#[inline]
fn add(n: i64) {
    if ON.load(Relaxed) {
        LIVE.fetch_add(n, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            add(new as i64 - l.size() as i64);
        }
        q
    }
}

/// Begin counting.
pub fn count() {
    ON.store(true, Relaxed);
}

/// Bytes allocated and not freed since then.
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}

/// Run a cycle of operations over and over and watch what stays behind. It
/// must leave nothing, or at least not more and more: a violation takes growth
/// at every doubling of the number of rounds, by some bytes a round, up to
/// `LAST` rounds (to which only a suspect goes; the others end at the fourth
/// reading). Returns the readings.
pub fn cycles(mut round: impl FnMut(u64)) -> Vec<i64> {
    const LAST: u64 = 1024;
    let (mut k, mut mark, mut at, mut innocent) = (0, 8, vec![], false);
    loop {
        while k < mark {
            round(k);
            k += 1;
            crate::tick();
        }
        // The watchdog's thread allocates now and then, for a moment.
        let now = (0..3)
            .map(|_| {
                std::thread::sleep(std::time::Duration::from_micros(100));
                live()
            })
            .min()
            .unwrap_or(0);
        let grown = at.last().map_or(true, |&before: &i64| now - before > mark as i64 * 2);
        at.push(now);
        innocent |= !grown;
        if innocent && at.len() >= 4 {
            return at;
        }
        if mark >= LAST {
            crate::violation(format!(
                "memory in use grows with every round of the same making and disposing of: \
                 at 8, 16, 32... {LAST} rounds {at:?} bytes"
            ));
        }
        mark *= 2;
    }
}
