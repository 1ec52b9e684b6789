//! C21: recording never waits for the registry, and nothing deadlocks. A
//! violation shows as a state in which every thread sleeps for good, which the
//! watchdog recognises.

use metriken::{AtomicHistogram, Counter, DynBoxedMetric, Gauge, Lazy, Metric, MetricBuilder, RwLockHistogram, Value};
use mon::arena::Bell;
use mon::*;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};

pub fn run(ctx: &Ctx) {
    recorders(ctx);
    readers(ctx);
    closing(ctx);
    lazies(ctx);
    owners(ctx);
    mixture(ctx);
    patience(ctx);
}

struct Set {
    c: DynBoxedMetric<Counter>,
    g: DynBoxedMetric<Gauge>,
    h: DynBoxedMetric<AtomicHistogram>,
    b: DynBoxedMetric<RwLockHistogram>,
    z: DynBoxedMetric<Lazy<Counter>>,
    z2: DynBoxedMetric<Lazy<Gauge>>,
}

impl Set {
    fn new() -> Self {
        Set {
            c: MetricBuilder::new("c").metadata("k", "v").build(Counter::new()),
            g: MetricBuilder::new("g").description("d").build(Gauge::new()),
            h: MetricBuilder::new("h").build(AtomicHistogram::new(3, 16)),
            b: MetricBuilder::new("b").build(RwLockHistogram::new(3, 16)),
            z: MetricBuilder::new("z").build(Lazy::<Counter>::default()),
            z2: MetricBuilder::new("z2").build(Lazy::<Gauge>::default()),
        }
    }
    /// One of everything that records or reads a metric directly.
    fn record(&self, k: u64) {
        self.c.increment();
        self.c.add(k);
        self.g.add(1);
        self.g.sub(k as i64);
        self.g.set(7);
        let _ = Counter::value(&self.c);
        let _ = Gauge::value(&self.g);
        let _ = self.h.increment(k % 70_000);
        let _ = self.h.load();
        let n = self.b.config().total_buckets();
        let _ = self.b.update_from(&vec![k; n]);
        let _ = self.b.load();
        self.z.increment();
        self.z2.decrement();
        let _ = Lazy::get(&*self.z);
        let _ = Metric::value(&*self.z2).is_some();
        let _ = Metric::value(&*self.h).is_some();
        let _ = Metric::value(&*self.b).is_some();
        tick();
    }
}

/// Recorders run to completion while a listing is open and others wait for it.
fn recorders(ctx: &Ctx) {
    ctx.cases("recorders", ctx.many(1, 60, 1000), 30, |r, case| {
        let set = Set::new();
        let extra = MetricBuilder::new("extra").build(Counter::new());
        let waiters = r.below(4);
        let started = AtomicUsize::new(0);
        let bell = Bell::default();
        let forced_early = r.chance(1, 2);
        if forced_early {
            set.record(1);
        }
        std::thread::scope(|sc| {
            let all = metriken::metrics();
            let listed: Vec<_> = all.dynamic_metrics().collect();
            let mut extra = Some(extra);
            let (started, bell, set) = (&started, &bell, &set);
            for w in 0..waiters {
                let e = extra.take();
                sc.spawn(move || {
                    started.fetch_add(1, Ordering::SeqCst);
                    bell.ring();
                    match w % 3 {
                        0 => drop(e),
                        1 => drop(MetricBuilder::new("new").build(Counter::new())),
                        _ => drop(metriken::metrics()),
                    }
                    tick();
                });
            }
            bell.wait(|| started.load(Ordering::SeqCst) == waiters);
            for _ in 0..r.below(50) {
                std::thread::yield_now();
            }
            // The listing stays open and the waiters pending until all of the
            // recording is done.
            std::thread::scope(|sc| {
                for t in 0..3 {
                    sc.spawn(move || {
                        for k in 0..40 {
                            set.record(k * 7 + t);
                        }
                    });
                }
            });
            for e in &listed {
                match e.value() {
                    Some(Value::Other(o)) => {
                        let _ = o.downcast_ref::<AtomicHistogram>().map(|h| h.load());
                        let _ = o.downcast_ref::<RwLockHistogram>().map(|h| h.load());
                    }
                    _ => {}
                }
                let _ = (e.metadata().len(), e.formatted(metriken::Format::Prometheus));
            }
            set.record(3);
            drop(listed);
            drop(all);
        });
        check_eq!(Counter::value(&set.z) as u64, 121 + forced_early as u64, "recordings made under the open listing");
        stat("recordings_under_open_listing", 121);
        distinct(&(waiters, forced_early, case % 32));
        sample(|| format!("{waiters} threads waiting for the registry, lazy metrics already used: {forced_early}"));
    });
}

/// Several threads hold listings open at the same time.
fn readers(ctx: &Ctx) {
    ctx.cases("readers", ctx.many(1, 60, 1000), 20, |r, _| {
        let n = if !MIRI && r.chance(1, 6) { r.range(20, 150) } else { r.range(2, 8) };
        let set = Set::new();
        let open = AtomicUsize::new(0);
        let bell = Bell::default();
        std::thread::scope(|sc| {
            for t in 0..n {
                let (open, bell, set) = (&open, &bell, &set);
                sc.spawn(move || {
                    let all = metriken::metrics();
                    if open.fetch_add(1, Ordering::SeqCst) + 1 == n {
                        bell.ring();
                    }
                    // Nobody goes on before everybody has a listing open.
                    bell.wait(|| open.load(Ordering::SeqCst) == n);
                    let k = all.dynamic_metrics().count();
                    check_eq!(k, 6, "entries in a simultaneous listing");
                    if t % 2 == 0 {
                        set.record(t as u64);
                    }
                    tick();
                });
            }
        });
        stat("simultaneous_listings", n as u64);
        distinct(&n);
    });
}

/// Registering and dropping complete once the listings are closed, in any
/// order of closing.
fn closing(ctx: &Ctx) {
    ctx.cases("closing", ctx.many(1, 80, 1500), 20, |r, case| {
        let (listers, writers) =
            if !MIRI && r.chance(1, 10) { (r.range(8, 50), r.range(8, 50)) } else { (r.range(1, 4), r.range(1, 4)) };
        let open = AtomicUsize::new(0);
        let go = AtomicBool::new(false);
        let bell = Bell::default();
        let drops: Vec<_> = (0..writers).map(|_| MetricBuilder::new("d").build(Counter::new())).collect();
        let mut made = Vec::new();
        std::thread::scope(|sc| {
            let (open, go, bell) = (&open, &go, &bell);
            for _ in 0..listers {
                sc.spawn(move || {
                    let all = metriken::metrics();
                    open.fetch_add(1, Ordering::SeqCst);
                    bell.ring();
                    bell.wait(|| go.load(Ordering::SeqCst));
                    let _ = all.dynamic_metrics().count();
                    drop(all);
                    tick();
                });
            }
            bell.wait(|| open.load(Ordering::SeqCst) == listers);
            let ws: Vec<_> = drops
                .into_iter()
                .map(|d| {
                    sc.spawn(move || {
                        drop(d);
                        tick();
                        let m = MetricBuilder::new("n").build(Counter::new());
                        tick();
                        m
                    })
                })
                .collect();
            for _ in 0..r.below(60) {
                std::thread::yield_now();
            }
            go.store(true, Ordering::SeqCst);
            bell.ring();
            for w in ws {
                made.push(w.join().unwrap_or_else(|_| inconclusive("writer ended")));
            }
        });
        let all = metriken::metrics();
        check_eq!(
            all.dynamic_metrics().filter(|e| e.name() == "n").count(),
            writers,
            "registrations completed after the listings were closed"
        );
        check_eq!(all.dynamic_metrics().count(), writers, "entries after the pending drops completed");
        stat("pending_completed", 2 * writers as u64);
        distinct(&(listers, writers, case % 16));
    });
}

type Init = Box<dyn FnOnce() -> Counter + Send>;
type Link = std::sync::Arc<DynBoxedMetric<Lazy<Counter, Init>>>;

fn link(init: impl FnOnce() -> Counter + Send + 'static) -> Link {
    std::sync::Arc::new(MetricBuilder::new("link").build(Lazy::new(Box::new(init) as Init)))
}

/// Initialisers that use other metrics: chains of lazy metrics accessed from
/// several threads at several points, initialisers that register and drop, and
/// slow ones that finish only after another lazy metric was used elsewhere.
fn lazies(ctx: &Ctx) {
    ctx.cases("lazies", ctx.many(3, 150, 3000), 20, |r, case| {
        let depth = r.range(2, 6);
        let fan = r.chance(1, 2);
        let mut chain: Vec<Link> = Vec::new();
        for i in 0..depth {
            // Built from the end: each uses some of those made before it.
            let uses: Vec<Link> = if fan { chain.clone() } else { chain.last().cloned().into_iter().collect() };
            let extra = r.below(4);
            chain.push(link(move || {
                let mut v = 1;
                for u in &uses {
                    u.increment();
                    v += 1;
                }
                match extra {
                    0 => drop(MetricBuilder::new("made").build(Counter::new())),
                    1 => drop(metriken::metrics()),
                    _ => {}
                }
                tick();
                Counter::with_value(v + i as u64)
            }));
        }
        let threads = if MIRI { 2 } else { r.range(2, 6) };
        let starts: Vec<usize> = (0..threads).map(|_| r.below(depth)).collect();
        let gate = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for &s in &starts {
                let (chain, gate) = (&chain, &gate);
                sc.spawn(move || {
                    gate.fetch_add(1, Ordering::SeqCst);
                    while gate.load(Ordering::SeqCst) < threads {
                        std::thread::yield_now();
                    }
                    chain[s].increment();
                    tick();
                });
            }
        });
        for &s in &starts {
            check!(Lazy::get(&**chain[s]).is_some(), "a lazy metric that was used has no value");
        }
        stat("nested_initialisers", depth as u64);
        distinct(&(depth, fan, starts, case % 8));

        // A slow initialiser does not hold up other metrics.
        let used = std::sync::Arc::new((AtomicBool::new(false), Bell::default()));
        let u = used.clone();
        let entered = std::sync::Arc::new((AtomicBool::new(false), Bell::default()));
        let e = entered.clone();
        let slow = link(move || {
            e.0.store(true, Ordering::SeqCst);
            e.1.ring();
            u.1.wait(|| u.0.load(Ordering::SeqCst));
            Counter::new()
        });
        let quick = link(Counter::new);
        let set = Set::new();
        std::thread::scope(|sc| {
            sc.spawn(|| slow.increment());
            entered.1.wait(|| entered.0.load(Ordering::SeqCst));
            quick.increment();
            set.record(5);
            let all = metriken::metrics();
            for m in all.dynamic_metrics() {
                let _ = (m.value().is_some(), m.is_enabled(), m.as_any().is_some());
            }
            drop(all);
            drop(MetricBuilder::new("made").build(Counter::new()));
            used.0.store(true, Ordering::SeqCst);
            used.1.ring();
        });
        stat("slow_initialisers", 1);
        tick();
    });
}

/// A metric that owns others, and uses the library when it goes.
struct Family {
    #[allow(dead_code)]
    children: Vec<DynBoxedMetric<Family>>,
    last_words: usize,
}
impl Metric for Family {
    fn as_any(&self) -> Option<&dyn std::any::Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.children.len() as u64))
    }
}
impl Drop for Family {
    fn drop(&mut self) {
        last_words(self.last_words);
    }
}
/// Attached to a metric, with a destructor that uses the library, too.
struct Attached(usize, #[allow(dead_code)] Option<DynBoxedMetric<Counter>>);
impl Drop for Attached {
    fn drop(&mut self) {
        last_words(self.0);
    }
}
fn last_words(k: usize) {
    match k {
        0 => drop(metriken::metrics()),
        1 => drop(MetricBuilder::new("last").build(Counter::new())),
        2 => {
            let (m, e) = MetricBuilder::new("last").build_pinned(Gauge::new());
            let m = std::pin::pin!(m);
            m.as_ref().register(e);
        }
        3 => drop(MetricBuilder::new("entry only").provide(7u8).into_entry()),
        _ => {}
    }
    tick();
}
fn family(r: &mut Rng, depth: usize, made: &mut u64) -> DynBoxedMetric<Family> {
    *made += 1;
    let n = if depth == 0 { 0 } else { r.below(4) };
    let children = (0..n).map(|_| family(r, depth - 1, made)).collect();
    let mut b = MetricBuilder::new("family");
    if r.chance(1, 2) {
        let own = r.chance(1, 2).then(|| MetricBuilder::new("attached").build(Counter::new()));
        b = b.provide(Attached(r.below(6), own));
    }
    b.build(Family { children, last_words: r.below(6) })
}

/// Dropping a metric drops what it owns, other metrics included.
fn owners(ctx: &Ctx) {
    ctx.cases("owners", ctx.many(2, 150, 3000), 20, |r, case| {
        let threads = if MIRI { 2 } else { r.range(1, 4) };
        let mut made = 0;
        let families: Vec<_> = (0..threads).map(|_| family(r, 3, &mut made)).collect();
        std::thread::scope(|sc| {
            for f in families {
                sc.spawn(move || {
                    drop(f);
                    tick();
                });
            }
            if r.chance(1, 2) {
                for _ in 0..5 {
                    let _ = metriken::metrics().iter().filter(|e| e.is_enabled()).count();
                    tick();
                }
            }
        });
        let left = metriken::metrics().dynamic_metrics().count();
        check_eq!(left, 0, "entries listed after {made} nested metrics were dropped");
        stat("nested_drops", made);
        distinct(&(threads, made, case % 8));
    });
}

/// Anything goes, within the rule of one listing per thread.
fn mixture(ctx: &Ctx) {
    let t = if MIRI { 3 } else { 8 };
    let per = ctx.n(6, 1500, 2000);
    ctx.cases("mixture", ctx.many(1, 8, 120), 40, |r, case| {
        let set = Set::new();
        let seeds: Vec<u64> = (0..t).map(|_| r.next()).collect();
        let ops = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for &s in &seeds {
                let (set, ops) = (&set, &ops);
                sc.spawn(move || {
                    let mut r = Rng::new(s);
                    let mut mine = Vec::new();
                    for k in 0..per {
                        match r.below(6) {
                            0 | 1 => set.record(k),
                            2 => mine.push(MetricBuilder::new("m").build(Counter::with_value(k))),
                            3 => {
                                if !mine.is_empty() {
                                    let i = r.below(mine.len());
                                    drop(mine.swap_remove(i));
                                }
                            }
                            4 => {
                                let all = metriken::metrics();
                                for e in all.dynamic_metrics().take(3) {
                                    let _ = e.value().is_some();
                                    set.c.increment();
                                }
                            }
                            _ => {
                                let all = metriken::metrics();
                                set.record(k);
                                drop(all);
                            }
                        }
                        if mine.len() > 8 {
                            mine.clear();
                        }
                        ops.fetch_add(1, Ordering::Relaxed);
                        tick();
                    }
                });
            }
        });
        let done = ops.load(Ordering::Relaxed);
        check_eq!(done, t as u64 * per, "operations completed");
        stat("mixed_operations", done);
        distinct(&case);
    });
}

/// What waits for a listing held open for seconds completes when it is closed,
/// and to the full; recorders and readers go on all the while.
fn patience(ctx: &Ctx) {
    if MIRI {
        return;
    }
    let rounds = ctx.n(0, 48, 160);
    ctx.cases("patience", 1, 5, |_, _| {
        let set = Set::new();
        let doomed: Vec<_> = (0..3).map(|_| MetricBuilder::new("doomed").build(Counter::new())).collect();
        let pins: Vec<_> = (0..3)
            .map(|_| {
                let (m, e) = MetricBuilder::new("doomed").build_pinned(Gauge::new());
                let m = Box::pin(m);
                m.as_ref().register(e);
                m
            })
            .collect();
        let (made, seen) = std::thread::scope(|sc| {
            let all = metriken::metrics();
            for d in doomed {
                sc.spawn(move || drop(d));
            }
            for p in pins {
                sc.spawn(move || drop(p));
            }
            let made: Vec<_> =
                (0..3).map(|_| sc.spawn(|| MetricBuilder::new("made").build(Counter::new()))).collect();
            let seen: Vec<_> = (0..3)
                .map(|_| {
                    sc.spawn(|| metriken::metrics().dynamic_metrics().filter(|e| !["doomed", "made"].contains(&e.name())).count())
                })
                .collect();
            for k in 0..rounds {
                std::thread::sleep(std::time::Duration::from_millis(250));
                set.record(k);
                check!(all.dynamic_metrics().count() >= 6, "entries of a listing held open");
            }
            drop(all);
            let made: Vec<_> = made.into_iter().map(|h| h.join().unwrap_or_else(|_| inconclusive("a waiting thread ended"))).collect();
            let seen: Vec<_> = seen.into_iter().map(|h| h.join().unwrap_or_else(|_| inconclusive("a waiting thread ended"))).collect();
            (made, seen)
        });
        for n in seen {
            check_eq!(n, 6, "entries of a listing asked for while another was held for long");
        }
        let all = metriken::metrics();
        let left = |name| all.dynamic_metrics().filter(|e| e.name() == name).count();
        check_eq!(left("doomed"), 0, "dropped metrics still listed once the listing they waited for was closed");
        check_eq!(left("made"), made.len(), "registrations that waited for a listing held for long");
        stat("seconds_held_open", rounds / 4);
        distinct(&"patience");
    });
}
