//! C07: what a listing reaches is alive, unmoved and free of races. The same
//! workload runs natively with canaries, and under AddressSanitizer,
//! ThreadSanitizer and Miri.

use metriken::{
    AtomicHistogram, Counter, DynBoxedMetric, DynPinnedMetric, Gauge, Lazy, Metadata, Metric,
    MetricBuilder, MetricEntry, RwLockHistogram, Value,
};
use mon::*;
use std::any::Any;
use std::cell::Cell;
use std::marker::PhantomData;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

const ALIVE: u64 = 0xA11C_E5A1_1CE5_0001;
const DEAD: u64 = 0xDEAD_DEAD_DEAD_0002;

/// State of every canary ever made, outside of the canaries, so that it can be
/// consulted without touching possibly freed memory.
static STATES: Mutex<Vec<&'static AtomicU64>> = Mutex::new(Vec::new());
/// Slots of dead canaries are not reused within a case; this bounds a case.
static IN_DROP: AtomicUsize = AtomicUsize::new(0);

fn new_state() -> &'static AtomicU64 {
    let s: &'static AtomicU64 = Box::leak(Box::new(AtomicU64::new(ALIVE)));
    STATES.lock().unwrap_or_else(|e| e.into_inner()).push(s);
    s
}

pub struct Canary {
    magic: AtomicU64,
    id: u64,
    heap: Box<[u64; 4]>,
    state: &'static AtomicU64,
    /// Address first seen by a listing; the canary must never be elsewhere
    /// afterwards.
    at: AtomicUsize,
    /// Listing from within the destructor.
    probe: bool,
}

impl Canary {
    fn new(id: u64, probe: bool) -> Self {
        Canary {
            magic: AtomicU64::new(ALIVE),
            id,
            heap: Box::new([id; 4]),
            state: new_state(),
            at: AtomicUsize::new(0),
            probe,
        }
    }
    fn touch(&self, what: &str) {
        let m = self.magic.load(Ordering::SeqCst);
        check!(m == ALIVE, "{what}: reached a metric that is not alive (its mark is {m:#x})");
        check!(*self.heap == [self.id; 4], "{what}: contents of a reached metric are damaged");
        let here = self as *const _ as usize;
        let was = self.at.swap(here, Ordering::SeqCst);
        check!(was == 0 || was == here, "{what}: a listed metric has moved");
    }
}

impl Drop for Canary {
    fn drop(&mut self) {
        IN_DROP.fetch_add(1, Ordering::SeqCst);
        check_eq!(self.magic.load(Ordering::SeqCst), ALIVE, "state of a metric at its destruction");
        let at = *self.at.get_mut();
        check!(at == 0 || at == self as *const _ as usize, "a listed metric was moved before it was destroyed");
        if self.probe {
            // The destructor must not find its metric listed any more.
            let all = metriken::metrics();
            for e in all.dynamic_metrics() {
                if let Some(c) = e.as_any().and_then(|a| a.downcast_ref::<Canary>()) {
                    check!(!std::ptr::eq(c, self), "a metric is still listed while it is being destroyed");
                }
            }
        }
        self.state.store(DEAD, Ordering::SeqCst);
        self.magic.store(DEAD, Ordering::SeqCst);
        self.heap.fill(DEAD);
        IN_DROP.fetch_sub(1, Ordering::SeqCst);
    }
}

impl Metric for Canary {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        self.touch("value");
        Some(Value::Counter(self.id))
    }
    fn provide<'a>(&'a self, request: &mut metriken_core::Request<'a>) {
        self.touch("provide");
        request.provide_ref::<[u64; 4]>(&self.heap).provide_value::<u64>(self.heap[0]);
    }
}

/// Data attached to a metric, destroyed together with it.
struct Attached {
    text: String,
    id: u64,
    state: &'static AtomicU64,
}
impl Attached {
    fn new(id: u64) -> Self {
        Attached { text: format!("attached to {id}"), id, state: new_state() }
    }
}
impl Drop for Attached {
    fn drop(&mut self) {
        self.state.store(DEAD, Ordering::SeqCst);
        self.text.clear();
    }
}

pub fn run(ctx: &Ctx) {
    traits(ctx);
    moved(ctx);
    churn(ctx);
    held(ctx);
    everything(ctx);
    patience(ctx);
}

// ----------------------------------------------------------- what safe code may

/// `Probe::<T>::IS` tells whether T has a trait, where known statically.
struct Probe<T: ?Sized>(PhantomData<T>);
trait Not {
    const IS: bool = false;
}
impl<T: ?Sized> Not for Probe<T> {}

mod sync {
    use super::*;
    pub struct Probe<T: ?Sized>(PhantomData<T>);
    pub trait Not {
        const IS: bool = false;
    }
    impl<T: ?Sized> Not for Probe<T> {}
    impl<T: ?Sized + Sync> Probe<T> {
        pub const IS: bool = true;
    }
}
mod send {
    use super::*;
    pub struct Probe<T: ?Sized>(PhantomData<T>);
    pub trait Not {
        const IS: bool = false;
    }
    impl<T: ?Sized> Not for Probe<T> {}
    impl<T: ?Sized + Send> Probe<T> {
        pub const IS: bool = true;
    }
}
impl<T: ?Sized + Unpin> Probe<T> {
    const IS: bool = true;
}

/// Thread-safety claims that would let safe code race.
fn traits(ctx: &Ctx) {
    #[allow(unused_imports)]
    use {send::Not as _, sync::Not as _};
    ctx.cases("traits", 1, 5, |_, _| {
        type NotSend = fn() -> Rc<u8>;
        struct RcFn(#[allow(dead_code)] Rc<u8>);
        let claims: &[(&str, bool)] = &[
            ("Lazy<Cell<u8>> may be shared between threads", sync::Probe::<Lazy<Cell<u8>>>::IS),
            ("Lazy<Rc<u8>> may be shared between threads", sync::Probe::<Lazy<Rc<u8>, NotSend>>::IS),
            ("Lazy<Rc<u8>> may be sent to another thread", send::Probe::<Lazy<Rc<u8>, NotSend>>::IS),
            ("Lazy with a thread-bound initialiser may be shared between threads", sync::Probe::<Lazy<Counter, RcFn>>::IS),
            ("Lazy with a thread-bound initialiser may be sent to another thread", send::Probe::<Lazy<Counter, RcFn>>::IS),
        ];
        for (what, is) in claims {
            check!(!is, "unsound: {what}");
            stat("trait_claims_checked", 1);
        }
        // And the useful claims do hold.
        fn shared<T: Send + Sync>() {}
        shared::<Lazy<Counter>>();
        shared::<DynBoxedMetric<Counter>>();
        shared::<DynPinnedMetric<Counter>>();
        shared::<MetricEntry>();
        distinct(&"traits");
    });
}

/// Moving a registered metric, by every means that safe code has.
fn moved(ctx: &Ctx) {
    ctx.cases("moved", ctx.many(2, 200, 1000), 5, |r, case| {
        let id = case;
        let look = |what: &str, want: u64| {
            let all = metriken::metrics();
            let mut n = 0;
            for e in all.dynamic_metrics() {
                n += 1;
                let addr = e.metric() as *const dyn Metric as *const u8 as usize;
                check!(addr != 0, "{what}: null entry");
                check!(
                    matches!(e.value(), Some(Value::Counter(v)) if v == want),
                    "{what}: the entry does not show the metric's value {want}"
                );
            }
            check_eq!(n, 1, "{what}: entries");
        };
        // A boxed metric moves freely.
        let b = MetricBuilder::new("m").build(Counter::with_value(id));
        look("before moving the box", id);
        let v = vec![b];
        let mut o = Some(v);
        look("after moving the box", id);
        let b = o.take().and_then(|mut v| v.pop());
        let t = b.map(|b| {
            b.add(1);
            b
        });
        look("after updating the moved box", id + 1);
        drop(t);

        // A pinned one must not be movable after registration: unless its type
        // opts out of pinning, in which case safe code may move it, and the
        // listing has to cope.
        if Probe::<DynPinnedMetric<Counter>>::IS {
            let (m, e) = MetricBuilder::new("m").build_pinned(Counter::with_value(id));
            let boxed = Box::new(m);
            // SAFETY: what `Pin::new` does for an `Unpin` type.
            unsafe { Pin::new_unchecked(&*boxed) }.register(e);
            let old = &*boxed as *const _ as usize;
            let moved = Box::new(*boxed);
            let pad: Vec<Box<[u8; 64]>> = (0..r.range(1, 8)).map(|_| Box::new([0xEE; 64])).collect();
            let new = &*moved as *const _ as usize;
            let all = metriken::metrics();
            for e in all.dynamic_metrics() {
                let at = e.metric() as *const dyn Metric as *const u8 as usize;
                let size = std::mem::size_of::<DynPinnedMetric<Counter>>();
                check!(
                    !(old..old + size).contains(&at) || (new..new + size).contains(&at),
                    "safe code moved a registered pinned metric and its entry still points to the old place"
                );
            }
            drop(all);
            moved.add(1);
            look("after moving an Unpin pinned metric", id + 1);
            drop(pad);
        }
        // Replacing through a mutable reference to the owner.
        let mut a = MetricBuilder::new("m").build(Counter::with_value(1));
        a = {
            drop(a);
            MetricBuilder::new("m").build(Counter::with_value(2))
        };
        look("after replacing the owner", 2);
        let old = std::mem::replace(&mut a, MetricBuilder::new("m2").build(Counter::with_value(2)));
        drop(old);
        look("after swapping owners", 2);
        distinct(&case);
    });
}

// --------------------------------------------------------------- churn

enum Life {
    Boxed(DynBoxedMetric<Canary>),
    Pinned(Pin<Box<DynPinnedMetric<Canary>>>),
}

fn born(r: &mut Rng, id: u64) -> Life {
    let b = MetricBuilder::new(format!("canary {id}"))
        .description(format!("description of {id}"))
        .metadata("id", format!("{id}"))
        .provide(Attached::new(id));
    let c = Canary::new(id, r.chance(1, 3));
    if r.chance(1, 2) {
        Life::Boxed(b.build(c))
    } else {
        let (m, e) = b.build_pinned(c);
        let m = Box::pin(m);
        m.as_ref().register(e);
        Life::Pinned(m)
    }
}

/// Keep a listing open and use everything in it, several times over; nothing
/// in it may die meanwhile.
fn inspect(passes: usize, mut pause: impl FnMut()) -> (u64, u64) {
    let all = metriken::metrics();
    struct Held<'a> {
        e: &'a MetricEntry,
        c: &'a Canary,
        a: &'a Attached,
        meta: &'a Metadata,
        heap: &'a [u64; 4],
        states: [&'static AtomicU64; 2],
    }
    let mut held = Vec::new();
    for e in all.dynamic_metrics() {
        let Some(c) = e.as_any().and_then(|a| a.downcast_ref::<Canary>()) else { continue };
        c.touch("listing");
        let Some(a) = e.request_ref::<Attached>() else {
            violation("attached data of a listed metric is gone")
        };
        let Some(heap) = e.request_ref::<[u64; 4]>() else {
            violation("a listed metric does not provide what it should")
        };
        held.push(Held { e, c, a, meta: e.metadata(), heap, states: [c.state, a.state] });
    }
    for _ in 0..passes {
        pause();
        // First without touching the metrics themselves.
        for h in &held {
            for s in h.states {
                check!(
                    s.load(Ordering::SeqCst) == ALIVE,
                    "a metric or its attached data was destroyed while a listing that holds it is open"
                );
            }
        }
        for h in &held {
            h.c.touch("open listing");
            let id = h.c.id.to_string();
            check!(h.e.name().ends_with(&*id), "name of a listed metric changed");
            check!(h.e.description().is_some_and(|d| d.ends_with(&*id)), "description of a listed metric changed");
            check!(h.meta.get("id") == Some(&*id), "metadata of a listed metric changed");
            check!(h.a.id == h.c.id && h.a.text.ends_with(&*id), "attached data of a listed metric changed");
            check!(*h.heap == [h.c.id; 4], "provided data of a listed metric changed");
            check!(matches!(h.e.value(), Some(Value::Counter(v)) if v == h.c.id), "value of a listed metric");
            check!(h.e.request_value::<u64>() == Some(h.c.id), "provided value of a listed metric");
            let _ = h.e.formatted(metriken::Format::Prometheus);
        }
    }
    let n = held.len() as u64;
    (n, n * passes as u64)
}

fn churn(ctx: &Ctx) {
    let (churners, listers) = if MIRI { (2, 1) } else { (4, 3) };
    let per = ctx.n(4, 1500, 2000);
    ctx.cases("churn", ctx.many(2, 10, 100), 45, |r, case| {
        let stop = AtomicBool::new(false);
        let next = AtomicU64::new(1);
        let pool: Mutex<Vec<Life>> = Mutex::new(Vec::new());
        let seeds: Vec<u64> = (0..churners + listers).map(|_| r.next()).collect();
        std::thread::scope(|sc| {
            let (stop, next, pool, seeds) = (&stop, &next, &pool, &seeds);
            let cs: Vec<_> = (0..churners)
                .map(|t| {
                    sc.spawn(move || {
                        let mut r = Rng::new(seeds[t]);
                        let mut mine: Vec<Life> = Vec::new();
                        for k in 0..per {
                            if k % 16 == 0 {
                                tick();
                            }
                            match r.below(7) {
                                0..=2 if mine.len() < 6 => mine.push(born(&mut r, next.fetch_add(1, Ordering::Relaxed))),
                                3 if !mine.is_empty() => {
                                    let i = r.below(mine.len());
                                    if let Life::Pinned(m) = &mine[i] {
                                        let id = m.id;
                                        m.as_ref().register(
                                            MetricBuilder::new(format!("again {id}"))
                                                .description(format!("again {id}"))
                                                .into_entry(),
                                        );
                                    }
                                }
                                4 if !mine.is_empty() => {
                                    let i = r.below(mine.len());
                                    let x = mine.swap_remove(i);
                                    let mut p = pool.lock().unwrap_or_else(|e| e.into_inner());
                                    p.push(x);
                                    let x = if p.len() > 2 { Some(p.remove(0)) } else { None };
                                    drop(p);
                                    drop(x);
                                }
                                _ if !mine.is_empty() => {
                                    let i = r.below(mine.len());
                                    let x = mine.swap_remove(i);
                                    if let (Life::Boxed(b), true) = (&x, r.chance(1, 2)) {
                                        b.touch("owner");
                                    }
                                    drop(x);
                                }
                                _ => {}
                            }
                        }
                    })
                })
                .collect();
            for t in 0..listers {
                sc.spawn(move || {
                    let mut r = Rng::new(seeds[churners + t]);
                    let (mut n, mut k) = (0, 0u64);
                    while !stop.load(Ordering::SeqCst) || k == 0 {
                        let (a, _) = inspect(r.range(1, 3), || std::thread::yield_now());
                        n += a;
                        k += 1;
                        tick();
                        std::thread::yield_now();
                    }
                    stat("listings", k);
                    stat("metrics_inspected", n);
                });
            }
            for c in cs {
                if c.join().is_err() {
                    inconclusive("churner ended")
                }
            }
            stop.store(true, Ordering::SeqCst);
        });
        drop(std::mem::take(&mut *pool.lock().unwrap_or_else(|e| e.into_inner())));
        let all = metriken::metrics();
        check_eq!(all.dynamic_metrics().count(), 0, "case {case}: entries left after everything was dropped");
        drop(all);
        let made = next.load(Ordering::Relaxed) - 1;
        stat("canaries", made);
        let mut st = STATES.lock().unwrap_or_else(|e| e.into_inner());
        check!(
            st.iter().all(|s| s.load(Ordering::SeqCst) == DEAD),
            "case {case}: a metric or its attached data was never destroyed"
        );
        st.clear();
        distinct(&(case, made));
        sample(|| format!("churn case {case}: {churners} churning and {listers} listing threads, {made} canaries lived and died"));
    });
}

/// A drop that begins while a listing is open: the metric must outlive the
/// listing, and go once it is closed.
fn held(ctx: &Ctx) {
    ctx.cases("held", ctx.many(2, 150, 2000), 20, |r, case| {
        let n = r.range(1, 5);
        let mut lives: Vec<Life> = (0..n).map(|i| born(r, 1000 * case + i as u64)).collect();
        let victim = lives.swap_remove(r.below(n));
        let fresh = r.chance(1, 2);
        let mut r2 = Rng::new(r.next());
        let begun = AtomicBool::new(false);
        std::thread::scope(|sc| {
            let mut handle = None;
            let begun = &begun;
            let mut victim = Some(victim);
            let mut passes = 0;
            inspect(4, || {
                passes += 1;
                if passes == 1 {
                    let v = victim.take();
                    let r2 = &mut r2;
                    let mut r3 = Rng::new(r2.next());
                    handle = Some(sc.spawn(move || {
                        begun.store(true, Ordering::SeqCst);
                        if fresh {
                            drop(born(&mut r3, 999_999));
                        }
                        drop(v);
                    }));
                    while !begun.load(Ordering::SeqCst) {
                        std::thread::yield_now();
                    }
                }
                for _ in 0..r2.below(40) {
                    std::thread::yield_now();
                }
            });
            // The listing is closed: the drop must complete.
            if let Some(h) = handle {
                if h.join().is_err() {
                    inconclusive("dropper ended")
                }
            }
        });
        let dead = {
            let st = STATES.lock().unwrap_or_else(|e| e.into_inner());
            st.iter().filter(|s| s.load(Ordering::SeqCst) == DEAD).count()
        };
        check_eq!(dead, if fresh { 4 } else { 2 }, "objects destroyed once the listing was closed");
        drop(lives);
        STATES.lock().unwrap_or_else(|e| e.into_inner()).clear();
        stat("held_drops", 1);
        distinct(&(n, fresh, case % 64));
    });
}

/// A listing held open for seconds on end: nothing in it dies before it is
/// closed, however long that takes.
fn patience(ctx: &Ctx) {
    if MIRI {
        return;
    }
    let rounds = ctx.n(0, 48, 160);
    ctx.cases("patience", 1, 5, |r, _| {
        let mut lives: Vec<Life> = (0..8).map(|i| born(r, i)).collect();
        let rest = lives.split_off(6);
        let done = AtomicUsize::new(0);
        let mut early = 0;
        std::thread::scope(|sc| {
            let mut lives = Some(lives);
            let done = &done;
            inspect(rounds as usize, || {
                for l in lives.take().into_iter().flatten() {
                    sc.spawn(move || {
                        drop(l);
                        done.fetch_add(1, Ordering::SeqCst);
                    });
                }
                std::thread::sleep(std::time::Duration::from_millis(250));
                tick();
                early = done.load(Ordering::SeqCst);
            });
        });
        let dead = {
            let st = STATES.lock().unwrap_or_else(|e| e.into_inner());
            st.iter().filter(|s| s.load(Ordering::SeqCst) == DEAD).count()
        };
        check_eq!(dead, 12, "objects destroyed once a listing held for long was closed");
        check_eq!(metriken::metrics().dynamic_metrics().count(), 2, "entries once a listing held for long was closed");
        drop(rest);
        STATES.lock().unwrap_or_else(|e| e.into_inner()).clear();
        stat("seconds_held_open", rounds / 4);
        stat("drops_pending_at_the_end", 6 - early as u64);
        distinct(&"patience");
    });
}

/// All kinds of metrics used from all threads at once, for the sanitizers.
fn everything(ctx: &Ctx) {
    let t = if MIRI { 2 } else { 6 };
    let per = ctx.n(4, 800, 1500);
    ctx.cases("everything", ctx.many(1, 8, 80), 25, |r, case| {
        let c = MetricBuilder::new("c").metadata("a", "b").build(Counter::new());
        let g = MetricBuilder::new("g").build(Gauge::new());
        let h = MetricBuilder::new("h").build(AtomicHistogram::new(2, 10));
        let b = MetricBuilder::new("b").build(RwLockHistogram::new(2, 10));
        let z = MetricBuilder::new("z").build(Lazy::<Counter>::new(Counter::default));
        let seeds: Vec<u64> = (0..t).map(|_| r.next()).collect();
        let bulk = vec![3u64; b.config().total_buckets()];
        std::thread::scope(|sc| {
            for &s in &seeds {
                let (c, g, h, b, z, bulk) = (&c, &g, &h, &b, &z, &bulk);
                sc.spawn(move || {
                    let mut r = Rng::new(s);
                    for k in 0..per {
                        match r.below(8) {
                            0 => {
                                c.increment();
                            }
                            1 => {
                                g.sub(3);
                            }
                            2 => {
                                let _ = h.increment(r.below(1030) as u64);
                            }
                            3 => {
                                let _ = b.update_from(bulk);
                            }
                            4 => {
                                z.add(1);
                            }
                            5 => {
                                let x = MetricBuilder::new("x").provide(7u32).build(Counter::with_value(k));
                                x.add(1);
                            }
                            _ => {
                                let all = metriken::metrics();
                                for e in crate::everything(&all) {
                                    match e.value() {
                                        Some(Value::Other(o)) => {
                                            if let Some(h) = o.downcast_ref::<AtomicHistogram>() {
                                                let _ = h.load();
                                            }
                                            if let Some(h) = o.downcast_ref::<RwLockHistogram>() {
                                                let _ = h.load();
                                            }
                                        }
                                        _ => {}
                                    }
                                    let _ = e.metadata().iter().count();
                                    let _ = e.request_ref::<u32>().copied();
                                    let _ = e.is(e.metric());
                                }
                            }
                        }
                        if k % 32 == 0 {
                            tick();
                        }
                    }
                });
            }
        });
        stat("mixed_operations", t as u64 * per);
        distinct(&(case, c.value()));
    });
}
