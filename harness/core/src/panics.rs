//! C22: panics in user code called by the library.

use metriken::{Counter, DynBoxedMetric, DynPinnedMetric, Format, Metric, MetricBuilder, MetricEntry, Value};
use mon::*;
use std::any::Any;
use std::pin::Pin;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

/// Which callback of a hostile metric panics.
const VALUE: u32 = 1;
const ANY: u32 = 2;
const PROVIDE: u32 = 4;
const DROP: u32 = 8;
const ENABLED: u32 = 16;

struct Hostile {
    id: u64,
    faults: AtomicU32,
}

fn boom(what: &str) -> ! {
    std::panic::panic_any(format!("on purpose: {what}"))
}

impl Hostile {
    fn faulty(&self, f: u32) -> bool {
        self.faults.load(Ordering::SeqCst) & f != 0
    }
}

impl Metric for Hostile {
    fn is_enabled(&self) -> bool {
        if self.faulty(ENABLED) {
            boom("is_enabled");
        }
        true
    }
    fn as_any(&self) -> Option<&dyn Any> {
        if self.faulty(ANY) {
            boom("as_any");
        }
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        if self.faulty(VALUE) {
            boom("value");
        }
        Some(Value::Counter(self.id))
    }
    fn provide<'a>(&'a self, _: &mut metriken_core::Request<'a>) {
        if self.faulty(PROVIDE) {
            boom("provide");
        }
    }
}

impl Drop for Hostile {
    fn drop(&mut self) {
        if self.faulty(DROP) {
            boom("drop");
        }
    }
}

/// Attached data whose destructor panics.
struct Mine(bool);
impl Drop for Mine {
    fn drop(&mut self) {
        if self.0 {
            boom("drop of attached data");
        }
    }
}

fn bad_formatter(_: &MetricEntry, _: Format) -> String {
    boom("formatter")
}

enum Life {
    Boxed(DynBoxedMetric<Hostile>),
    Pinned(Pin<Box<DynPinnedMetric<Hostile>>>),
}

struct Item {
    life: Life,
    id: u64,
    faults: u32,
    bad_format: bool,
    bad_attached: bool,
}

static NEXT: AtomicU64 = AtomicU64::new(1);

fn born(r: &mut Rng) -> Item {
    let id = NEXT.fetch_add(1, Ordering::Relaxed);
    let (bad_format, bad_attached) = (r.chance(1, 5), r.chance(1, 6));
    let faults = if r.chance(1, 2) { 0 } else { 1u32 << r.below(5) };
    let mut b = MetricBuilder::new(format!("{id}")).metadata("id", id.to_string());
    if bad_format {
        b = b.formatter(bad_formatter);
    }
    // Two panics at once would abort the process, by Rust's rules.
    let bad_attached = bad_attached && faults & DROP == 0;
    b = b.provide(Mine(bad_attached));
    let m = Hostile { id, faults: AtomicU32::new(faults) };
    let life = if r.chance(1, 2) {
        Life::Boxed(b.build(m))
    } else {
        let (m, e) = b.build_pinned(m);
        let m = Box::pin(m);
        m.as_ref().register(e);
        Life::Pinned(m)
    };
    Item { life, id, faults, bad_format, bad_attached }
}

pub fn run(ctx: &Ctx) {
    sequential(ctx);
    positions(ctx);
    unwinding(ctx);
    at_work(ctx);
    threads(ctx);
}

/// Destructors that use the library while their thread unwinds: for them it
/// works as ever.
fn at_work(ctx: &Ctx) {
    struct Busy<'a>(u64, &'a std::sync::Mutex<Vec<Item>>);
    impl Drop for Busy<'_> {
        fn drop(&mut self) {
            check!(std::thread::panicking(), "harness");
            let mut r = Rng::new(self.0);
            let mut made = self.1.lock().unwrap_or_else(|e| e.into_inner());
            for _ in 0..r.range(1, 4) {
                match r.below(4) {
                    // A panic now would abort the process.
                    0 if made.iter().any(|i| i.faults & DROP == 0 && !i.bad_attached) => {
                        let n = made.iter().position(|i| i.faults & DROP == 0 && !i.bad_attached).unwrap_or(0);
                        kill(made.swap_remove(n));
                    }
                    1 => {
                        // Bare: without hostile metrics nothing can panic here.
                        let c = MetricBuilder::new("0").build(Counter::new());
                        c.add(self.0);
                        let all = metriken::metrics();
                        let e = all.dynamic_metrics().find(|e| e.is(&*c));
                        check!(e.is_some(), "a metric built while unwinding is not listed");
                        check!(
                            e.is_some_and(|e| matches!(e.value(), Some(Value::Counter(v)) if v == self.0)),
                            "the value of a metric built while unwinding"
                        );
                    }
                    _ => {
                        let it = born(&mut r);
                        made.push(it);
                    }
                }
                audit(&made.iter().collect::<Vec<_>>(), "while unwinding");
            }
            stat("destructors_at_work", 1);
        }
    }
    ctx.cases("at_work", ctx.many(2, 300, 3000), 10, |r, case| {
        let made = std::sync::Mutex::new(Vec::new());
        let mut told = Vec::new();
        for _ in 0..r.range(1, 4) {
            let n = r.range(1, 3);
            let seeds: Vec<u64> = (0..n).map(|_| r.next()).collect();
            told.push(seeds.clone());
            let res = catch(|| {
                let _busy: Vec<Busy> = seeds.into_iter().map(|s| Busy(s, &made)).collect();
                boom("user of metrics");
            });
            check!(res.is_err(), "harness");
            let made = made.lock().unwrap_or_else(|e| e.into_inner());
            audit(&made.iter().collect::<Vec<_>>(), &format!("case {case}: after destructors built metrics while unwinding"));
        }
        distinct(&told);
        for it in made.into_inner().unwrap_or_else(|e| e.into_inner()) {
            kill(it);
        }
        audit(&[], "after dropping all");
    });
}

/// The listing holds exactly these, whatever happened before.
fn audit(items: &[&Item], what: &str) {
    let all = metriken::metrics();
    let mut got: Vec<u64> = all.dynamic_metrics().map(|e| e.name().parse().unwrap_or(0)).collect();
    got.sort();
    let mut want: Vec<u64> = items.iter().map(|i| i.id).collect();
    want.sort();
    check_eq!(got, want, "{what}: metrics listed");
    stat("audits", 1);
}

/// Call something on an entry; it must panic exactly if the user code does.
fn poke(e: &MetricEntry, it: &Item, what: usize) -> &'static str {
    let (name, expect, got): (_, bool, std::thread::Result<()>) = match what {
        0 => ("value", it.faults & VALUE != 0, catch(|| {
            let v = e.value();
            check!(matches!(v, Some(Value::Counter(x)) if x == it.id), "value of metric {}", it.id);
        })),
        1 => ("as_any", it.faults & ANY != 0, catch(|| {
            check!(e.as_any().is_some(), "as_any of metric {}", it.id);
        })),
        2 => ("is_enabled", it.faults & ENABLED != 0, catch(|| check!(e.is_enabled(), "enabled"))),
        3 => ("request", it.faults & PROVIDE != 0, catch(|| {
            check!(e.request_ref::<u128>().is_none() && e.request_value::<u16>().is_none(), "nothing provided");
        })),
        4 => ("formatted", it.bad_format, {
            // Looking up the formatter may call the metric's own provide.
            let r = catch(|| {
                let _ = e.formatted(Format::Prometheus);
            });
            if it.faults & PROVIDE != 0 {
                return "formatted (provide fails)";
            }
            r
        }),
        _ => ("name", false, catch(|| {
            check_eq!(e.name(), &*it.id.to_string(), "name");
        })),
    };
    check_eq!(got.is_err(), expect, "metric {} (faults {:#b}): {name} panicked", it.id, it.faults);
    if let Err(p) = got {
        check!(
            panic_text(&*p).starts_with("on purpose"),
            "metric {}: {name} panicked with something else: {}",
            it.id,
            panic_text(&*p)
        );
        stat("panics_contained", 1);
    }
    name
}

/// Drop a metric; returns whether that panicked as expected.
fn kill(it: Item) -> bool {
    let expect = it.faults & DROP != 0 || it.bad_attached;
    let (id, life) = (it.id, it.life);
    let got = catch(move || match life {
        Life::Boxed(b) => drop(b),
        Life::Pinned(p) => drop(p),
    });
    check_eq!(got.is_err(), expect, "dropping metric {id} panicked");
    if expect {
        stat("panics_contained", 1);
    }
    expect
}

fn sequential(ctx: &Ctx) {
    ctx.cases("sequential", ctx.many(3, 1500, 15_000), 45, |r, _| {
        let mut items: Vec<Item> = Vec::new();
        let mut trace = Vec::new();
        for _ in 0..r.range(3, if MIRI { 8 } else { 40 }) {
            match r.below(6) {
                0 | 1 => {
                    let it = born(r);
                    trace.push(format!("build {} faults {:#b}", it.id, it.faults));
                    items.push(it);
                }
                2 if !items.is_empty() => {
                    let i = r.below(items.len());
                    let it = items.swap_remove(i);
                    trace.push(format!("drop {}", it.id));
                    kill(it);
                }
                3 if !items.is_empty() => {
                    // A panic that unwinds through an open listing.
                    trace.push("panic in listing".into());
                    let res = catch(|| {
                        let all = metriken::metrics();
                        for e in all.dynamic_metrics() {
                            let _ = e.name().len();
                        }
                        boom("user code while listing");
                    });
                    check!(res.is_err(), "harness");
                }
                4 => {
                    // A panic while a metric is still being built, or that
                    // unwinds through its owner.
                    trace.push("panic in owner".into());
                    let it = born(r);
                    if it.faults & DROP == 0 && !it.bad_attached {
                        let res = catch(move || {
                            let _owned = it;
                            boom("owner of a metric");
                        });
                        check!(res.is_err(), "harness");
                    } else {
                        kill(it);
                    }
                }
                _ if !items.is_empty() => {
                    let all = metriken::metrics();
                    let k = r.below(items.len());
                    let what = r.below(6);
                    let id = items[k].id.to_string();
                    let Some(e) = all.dynamic_metrics().find(|e| e.name() == id) else {
                        violation(format!("{trace:?}: live metric {id} is not listed"))
                    };
                    let n = poke(e, &items[k], what);
                    trace.push(format!("{n} of {id}"));
                }
                _ => {}
            }
            audit(&items.iter().collect::<Vec<_>>(), &format!("{trace:?}"));
        }
        while let Some(it) = items.pop() {
            kill(it);
            audit(&items.iter().collect::<Vec<_>>(), &format!("{trace:?}, then dropping from the end"));
        }
        // Still works.
        let c = MetricBuilder::new("7").build(Counter::new());
        c.increment();
        drop(c);
        distinct(&trace.iter().map(|t| t.split(' ').next().unwrap_or("").to_string()).collect::<Vec<_>>());
        sample(|| format!("{trace:?}"));
    });
}

/// The panicking metric at every position of a listing of up to 12.
fn positions(ctx: &Ctx) {
    ctx.cases("positions", ctx.many(1, 200, 2000), 20, |r, _| {
        let n = r.range(1, 12);
        let items: Vec<Item> = (0..n).map(|_| {
            let mut it = born(r);
            it.faults = 0;
            match &it.life {
                Life::Boxed(b) => b.faults.store(0, Ordering::SeqCst),
                Life::Pinned(p) => p.faults.store(0, Ordering::SeqCst),
            }
            it
        }).collect();
        for at in 0..n {
            let set = |f: u32| match &items[at].life {
                Life::Boxed(b) => b.faults.store(f, Ordering::SeqCst),
                Life::Pinned(p) => p.faults.store(f, Ordering::SeqCst),
            };
            set(VALUE);
            let mut before = 0;
            let res = catch(|| {
                let all = metriken::metrics();
                for e in all.dynamic_metrics() {
                    let _ = e.value();
                    before += 1;
                }
            });
            check!(res.is_err(), "a panic in value did not reach the caller");
            check!(before < n, "entries passed before the panic");
            set(0);
            audit(&items.iter().collect::<Vec<_>>(), "after a panic within the listing");
            distinct(&(n, at, before));
        }
        for it in items {
            kill(it);
        }
        audit(&[], "after dropping all");
    });
}

/// Owners that unwind while other threads hold listings open: what they owned
/// is gone once they are done and the listings are closed, and only that.
fn unwinding(ctx: &Ctx) {
    ctx.cases("unwinding", ctx.many(2, 150, 1500), 20, |r, case| {
        let calm = |r: &mut Rng| loop {
            let it = born(r);
            if it.faults & DROP == 0 && !it.bad_attached {
                return it;
            }
            kill(it);
        };
        let keep: Vec<Item> = (0..r.below(4)).map(|_| calm(r)).collect();
        let owners = r.range(1, if MIRI { 2 } else { 5 });
        let seeds: Vec<(u64, usize)> = (0..owners).map(|_| (r.next(), r.range(1, 5))).collect();
        let gate = std::sync::Barrier::new(owners + 1);
        let (held, hold) = (r.chance(3, 4), r.below(400) as u64);
        let leaving = AtomicU32::new(0);
        std::thread::scope(|sc| {
            let hs: Vec<_> = seeds
                .iter()
                .map(|&(seed, n)| {
                    let (gate, calm, leaving) = (&gate, &calm, &leaving);
                    sc.spawn(move || {
                        let mut r = Rng::new(seed);
                        let mine: Vec<Item> = (0..n).map(|_| calm(&mut r)).collect();
                        gate.wait(); // all built
                        gate.wait(); // the listing is open
                        let res = catch(move || {
                            let _mine = mine;
                            leaving.fetch_add(1, Ordering::SeqCst);
                            boom("owner of metrics");
                        });
                        check!(res.is_err(), "harness");
                    })
                })
                .collect();
            gate.wait();
            let all = held.then(metriken::metrics);
            gate.wait();
            if let Some(all) = all {
                // Long enough for the owners to be at it, mostly.
                let t = std::time::Instant::now();
                while leaving.load(Ordering::SeqCst) < owners as u32 && t.elapsed().as_millis() < 200 {
                    std::thread::yield_now();
                }
                if !MIRI {
                    std::thread::sleep(std::time::Duration::from_micros(hold));
                }
                // An open listing stays as it is.
                let total = keep.len() + seeds.iter().map(|s| s.1).sum::<usize>();
                check_eq!(all.dynamic_metrics().count(), total, "metrics in an open listing while owners unwind");
                stat("unwound_under_a_listing", leaving.load(Ordering::SeqCst) as u64);
            }
            hs.into_iter().for_each(|h| h.join().unwrap_or_else(|_| inconclusive("worker ended")));
        });
        audit(&keep.iter().collect::<Vec<_>>(), &format!("case {case}: after {seeds:?} unwound, held {held}"));
        distinct(&(&seeds, keep.len(), held));
        for it in keep {
            kill(it);
        }
        audit(&[], "after dropping all");
    });
}

/// Panics on several threads at once, among ordinary operations.
fn threads(ctx: &Ctx) {
    let t = if MIRI { 2 } else { 6 };
    let per = ctx.n(4, 400, 600);
    ctx.cases("threads", ctx.many(1, 12, 150), 35, |r, case| {
        let seeds: Vec<u64> = (0..t).map(|_| r.next()).collect();
        let left: Vec<Vec<Item>> = std::thread::scope(|sc| {
            let hs: Vec<_> = seeds
                .iter()
                .map(|&s| {
                    sc.spawn(move || {
                        let mut r = Rng::new(s);
                        let mut mine: Vec<Item> = Vec::new();
                        for k in 0..per {
                            match r.below(5) {
                                0 | 1 if mine.len() < 6 => mine.push(born(&mut r)),
                                2 if !mine.is_empty() => {
                                    let i = r.below(mine.len());
                                    kill(mine.swap_remove(i));
                                }
                                3 => {
                                    let _ = catch(|| {
                                        let all = metriken::metrics();
                                        for e in all.dynamic_metrics() {
                                            let _ = e.value();
                                        }
                                    });
                                }
                                _ if !mine.is_empty() => {
                                    let i = r.below(mine.len());
                                    let all = metriken::metrics();
                                    let id = mine[i].id.to_string();
                                    let Some(e) = all.dynamic_metrics().find(|e| e.name() == id) else {
                                        violation(format!("live metric {id} is not listed"))
                                    };
                                    poke(e, &mine[i], r.below(6));
                                }
                                _ => {}
                            }
                            if k % 16 == 0 {
                                tick();
                            }
                        }
                        mine
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| inconclusive("worker ended"))).collect()
        });
        audit(&left.iter().flatten().collect::<Vec<_>>(), &format!("case {case}, all quiet"));
        stat("threaded_operations", t as u64 * per);
        distinct(&(case, left.iter().map(|l| l.len()).collect::<Vec<_>>()));
        for it in left.into_iter().flatten() {
            kill(it);
        }
        audit(&[], "after dropping all");
    });
}
