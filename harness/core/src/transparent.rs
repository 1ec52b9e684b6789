//! C24: an entry reports what its metric reports.
//!
//! Metrics whose three answers are set independently of one another; whatever
//! is asked through an entry is compared with what was set.

use metriken::{AtomicHistogram, Counter, DynBoxedMetric, Gauge, Metric, MetricBuilder, MetricEntry, RwLockHistogram, Value};
use metriken_core::dynmetrics::DynPinnedMetric;
use mon::*;
use std::any::Any;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, AtomicU8, Ordering};

/// The answers a metric is to give.
#[derive(Default)]
pub struct Script {
    enabled: AtomicU8,
    object: AtomicU8,
    kind: AtomicU8,
    number: AtomicU64,
    asked: [AtomicU64; 3],
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Answers {
    enabled: bool,
    /// 0: none, 1: the metric, 2: its decoy
    object: u8,
    /// 0: none, 1: counter, 2: gauge, 3: other (the metric), 4: other (the decoy), 5-7: other (plain data)
    kind: u8,
    number: u64,
}

impl Script {
    pub const fn new() -> Self {
        Script {
            enabled: AtomicU8::new(0),
            object: AtomicU8::new(0),
            kind: AtomicU8::new(0),
            number: AtomicU64::new(0),
            asked: [const { AtomicU64::new(0) }; 3],
        }
    }
    fn set(&self, a: Answers) {
        self.enabled.store(a.enabled as u8, Ordering::SeqCst);
        self.object.store(a.object, Ordering::SeqCst);
        self.kind.store(a.kind, Ordering::SeqCst);
        self.number.store(a.number, Ordering::SeqCst);
    }
    fn ask(&self, what: usize) {
        self.asked[what].fetch_add(1, Ordering::SeqCst);
    }
    fn object<'a>(&self, me: &'a dyn Any, decoy: &'a dyn Any) -> Option<&'a dyn Any> {
        self.ask(1);
        match self.object.load(Ordering::SeqCst) {
            0 => None,
            1 => Some(me),
            _ => Some(decoy),
        }
    }
    fn value<'a>(&self, me: &'a dyn Any, decoy: &'a dyn Any) -> Option<Value<'a>> {
        self.ask(2);
        let n = self.number.load(Ordering::SeqCst);
        match self.kind.load(Ordering::SeqCst) {
            0 => None,
            1 => Some(Value::Counter(n)),
            2 => Some(Value::Gauge(n as i64)),
            3 => Some(Value::Other(me)),
            4 => Some(Value::Other(decoy)),
            5 => Some(Value::Other(&())),
            6 => Some(Value::Other(&FORTY)),
            _ => Some(Value::Other(&NO_TEXT)),
        }
    }
}

pub struct Decoy(pub u32);

/// Plain data as values.
static FORTY: u64 = 40;
static NO_TEXT: String = String::new();

/// Says itself whether it is enabled.
pub trait Scripted2: Metric + Sized {
    const IMPLICIT: bool;
    fn script(&self) -> &Script;
    fn decoy(&self) -> &Decoy;
}

macro_rules! scripted {
    ($(#[$a:meta])* $t:ident, implicit: $i:tt, { $($f:ident: $ft:ty = $init:expr),* }) => {
        $(#[$a])*
        pub struct $t { $($f: $ft,)* script: Script, decoy: Decoy }
        impl $t {
            pub const fn new() -> Self {
                $t { $($f: $init,)* script: Script::new(), decoy: Decoy(7) }
            }
        }
        impl Metric for $t {
            scripted!(@enabled $i);
            fn as_any(&self) -> Option<&dyn Any> {
                self.script.object(self, &self.decoy)
            }
            fn value(&self) -> Option<Value<'_>> {
                self.script.value(self, &self.decoy)
            }
        }
        impl Scripted2 for $t {
            const IMPLICIT: bool = $i;
            fn script(&self) -> &Script { &self.script }
            fn decoy(&self) -> &Decoy { &self.decoy }
        }
    };
    (@enabled true) => {};
    (@enabled false) => {
        fn is_enabled(&self) -> bool {
            self.script.ask(0);
            self.script.enabled.load(Ordering::SeqCst) == 1
        }
    };
}

scripted!(Explicit, implicit: false, {});
scripted!(Implicit, implicit: true, {});
scripted!(#[repr(align(256))] Wide, implicit: false, { _pad: [u8; 3] = [0; 3] });
scripted!(#[repr(align(64))] WideImplicit, implicit: true, { _pad: [u64; 9] = [0; 9] });
scripted!(Packed, implicit: true, { _pad: u8 = 0 });

/// Zero-sized metrics: nothing to set, the answers are the type's.
pub struct Unit<const E: bool, const A: bool>;
impl<const E: bool, const A: bool> Metric for Unit<E, A> {
    fn is_enabled(&self) -> bool {
        E
    }
    fn as_any(&self) -> Option<&dyn Any> {
        A.then_some(self as &dyn Any)
    }
    fn value(&self) -> Option<Value<'_>> {
        None
    }
}
pub struct UnitImplicit<const A: bool>;
impl<const A: bool> Metric for UnitImplicit<A> {
    fn as_any(&self) -> Option<&dyn Any> {
        A.then_some(self as &dyn Any)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(A as u64))
    }
}

fn addr<T: ?Sized>(p: &T) -> usize {
    p as *const T as *const () as usize
}

/// Ask everything through `e`, in a random order and through a random route,
/// and compare it with what `m` was told to answer.
fn compare<T: Scripted2>(r: &mut Rng, e: &MetricEntry, m: &T, a: Answers, name: &str) {
    let on = if T::IMPLICIT { a.object != 0 } else { a.enabled };
    let mut order = [0, 1, 2];
    r.shuffle(&mut order);
    for what in order {
        let route: &dyn Metric = if r.chance(1, 2) { e.metric() } else { &**e };
        let before = m.script().asked[what].load(Ordering::SeqCst);
        match what {
            0 => {
                check_eq!(route.is_enabled(), on, "{name}: enabled, told to answer {a:?}");
                check_eq!(Metric::is_enabled(m), on, "{name}: enabled by the metric itself, told to answer {a:?}");
            }
            1 => {
                let want = match a.object {
                    0 => None,
                    1 => Some((addr(m), true, false)),
                    _ => Some((addr(m.decoy()), false, true)),
                };
                let got = route.as_any().map(|o| (addr(o), o.is::<T>(), o.is::<Decoy>()));
                check_eq!(got, want, "{name}: object (address, is the metric's type, is the decoy's), told to answer {a:?}");
            }
            _ => {
                let got = match route.value() {
                    None => (0, 0),
                    Some(Value::Counter(n)) => (1, n),
                    Some(Value::Gauge(n)) => (2, n as u64),
                    Some(Value::Other(o)) if o.is::<T>() => (3, addr(o) as u64),
                    Some(Value::Other(o)) if o.is::<Decoy>() => (4, addr(o) as u64),
                    Some(Value::Other(o)) if o.is::<()>() => (5, 0),
                    Some(Value::Other(o)) if o.is::<u64>() => (6, addr(o) as u64),
                    Some(Value::Other(o)) if o.is::<String>() => (7, addr(o) as u64),
                    Some(_) => (9, 0),
                };
                let want = match a.kind {
                    0 => (0, 0),
                    k @ (1 | 2) => (k, a.number),
                    3 => (3, addr(m) as u64),
                    5 => (5, 0),
                    6 => (6, addr(&FORTY) as u64),
                    7 => (7, addr(&NO_TEXT) as u64),
                    k => (k, addr(m.decoy()) as u64),
                };
                check_eq!(got, want, "{name}: value (kind, content), told to answer {a:?}");
            }
        }
        // An answer is the metric's own of this moment.
        if !(what == 0 && T::IMPLICIT) {
            check!(
                m.script().asked[what].load(Ordering::SeqCst) > before,
                "{name}: question {what} was answered without asking the metric"
            );
        }
        stat("answers", 1);
    }
    let _ = (e.metadata().len(), e.description());
}

/// A live metric, its names, and what it answers.
trait Item {
    fn set(&mut self, a: Answers);
    fn check(&self, r: &mut Rng, e: &MetricEntry);
    fn names(&self) -> &[String];
    fn shape(&self) -> (u8, bool, Answers);
}

enum Held<T: Metric> {
    Boxed(DynBoxedMetric<T>),
    Pinned(Pin<Box<DynPinnedMetric<T>>>),
}

struct Live<T: Metric> {
    held: Held<T>,
    names: Vec<String>,
    a: Answers,
    tag: u8,
}

impl<T: Scripted2> Live<T> {
    fn metric(&self) -> &T {
        match &self.held {
            Held::Boxed(b) => b,
            Held::Pinned(p) => p,
        }
    }
}

impl<T: Scripted2> Item for Live<T> {
    fn set(&mut self, a: Answers) {
        self.a = a;
        self.metric().script().set(a);
    }
    fn check(&self, r: &mut Rng, e: &MetricEntry) {
        compare(r, e, self.metric(), self.a, e.name());
    }
    fn names(&self) -> &[String] {
        &self.names
    }
    fn shape(&self) -> (u8, bool, Answers) {
        (self.tag, matches!(self.held, Held::Boxed(_)), Answers { number: self.a.number % 3, ..self.a })
    }
}

fn draw(r: &mut Rng) -> Answers {
    Answers { enabled: r.chance(1, 2), object: r.below(3) as u8, kind: r.below(8) as u8, number: r.edgy() }
}

fn builder(r: &mut Rng, name: &str) -> MetricBuilder {
    let mut b = MetricBuilder::new(name.to_string());
    if r.chance(1, 3) {
        b = b.metadata("k", "v");
    }
    if r.chance(1, 3) {
        b = b.provide(5u32).provide(String::from("attached"));
    }
    if r.chance(1, 4) {
        b = b.description("d");
    }
    b
}

fn born<T: Scripted2>(r: &mut Rng, id: usize, tag: u8, make: fn() -> T) -> Box<dyn Item> {
    let a = draw(r);
    let name = format!("t{id}");
    let (held, names) = if r.chance(1, 2) {
        (Held::Boxed(builder(r, &name).build(make())), vec![name])
    } else {
        let (m, e) = builder(r, &name).build_pinned(make());
        let m = Box::pin(m);
        m.as_ref().register(e);
        (Held::Pinned(m), vec![name])
    };
    let mut l = Live { held, names, a, tag };
    l.set(a);
    Box::new(l)
}

fn any(r: &mut Rng, id: usize) -> Box<dyn Item> {
    match r.below(5) {
        0 => born(r, id, 0, Explicit::new),
        1 => born(r, id, 1, Implicit::new),
        2 => born(r, id, 2, Wide::new),
        3 => born(r, id, 3, WideImplicit::new),
        _ => born(r, id, 4, Packed::new),
    }
}

pub fn run(ctx: &Ctx) {
    empty(ctx);
    #[cfg(not(miri))]
    statics(ctx);
    dynamic(ctx);
    units(ctx);
    ready_made(ctx);
    racing(ctx);
}

/// Entries that no metric was given to.
fn empty(ctx: &Ctx) {
    ctx.cases("empty", ctx.many(3, 200, 2000), 10, |r, _| {
        let _near = (r.chance(1, 2)).then(|| any(r, 0));
        let e = builder(r, "nothing").into_entry();
        check!(!e.is_enabled() && !e.metric().is_enabled(), "an entry without a metric is enabled");
        check!(e.value().is_none() && e.as_any().is_none(), "an entry without a metric reports a value or an object");
        stat("answers", 3);
        distinct(&"empty");
    });
}

#[cfg(not(miri))]
fn statics(ctx: &Ctx) {
    let (ex, im) = crate::STATIC_ANSWERS.lock().unwrap_or_else(|e| e.into_inner()).unwrap_or_else(|| inconclusive("no statics"));
    ctx.cases("statics", ctx.many(0, 20_000, 100_000), 15, |r, _| {
        let (a, b) = (draw(r), draw(r));
        ex.1.script().set(a);
        im.1.script().set(b);
        let all = metriken::metrics();
        let find = |n: &str| {
            let mut it = all.static_metrics().iter().filter(|e| e.name() == n);
            it.next().unwrap_or_else(|| violation(format!("static metric {n} is not listed")))
        };
        compare(r, find(ex.0), ex.1, a, ex.0);
        compare(r, find(im.0), im.1, b, im.0);
        distinct(&(a.enabled, a.object, a.kind, b.object, b.kind));
    });
}

fn dynamic(ctx: &Ctx) {
    ctx.cases("dynamic", ctx.many(12, 20_000, 200_000), 25, |r, _| {
        let n = r.range(1, if MIRI { 3 } else { 9 });
        let mut live: Vec<Box<dyn Item>> = (0..n).map(|i| any(r, i)).collect();
        for _ in 0..r.range(1, 4) {
            for l in &mut live {
                if r.chance(1, 2) {
                    let a = draw(r);
                    l.set(a);
                }
            }
            let all = metriken::metrics();
            let mut seen = 0;
            for e in all.dynamic_metrics() {
                let Some(l) = live.iter().find(|l| l.names().iter().any(|x| x == e.name())) else {
                    violation(format!("unknown entry {:?}", e.name()))
                };
                l.check(r, e);
                seen += 1;
            }
            check_eq!(seen, live.len(), "entries listed");
            // The answers change while the listing is held.
            let k = r.below(live.len());
            let a = draw(r);
            live[k].set(a);
            let name = live[k].names()[0].clone();
            if let Some(e) = all.dynamic_metrics().find(|e| e.name() == name) {
                live[k].check(r, e);
            }
        }
        distinct(&live.iter().map(|l| l.shape()).collect::<Vec<_>>());
        sample(|| format!("{:?}", live.iter().map(|l| l.shape()).collect::<Vec<_>>()));
    });
}

/// Zero-sized metrics, one at a time (they may share addresses).
fn units(ctx: &Ctx) {
    fn one<T: Metric>(r: &mut Rng, m: T, on: bool, object: bool, value: Option<u64>) {
        let held = builder(r, "unit").build(m);
        let all = metriken::metrics();
        let Some(e) = all.dynamic_metrics().find(|e| e.name() == "unit") else {
            violation("a zero-sized metric is not listed")
        };
        for m in [&*held as &dyn Metric, e.metric(), &**e] {
            check_eq!(m.is_enabled(), on, "zero-sized metric: enabled");
            check_eq!(m.as_any().map(|a| a.is::<T>()), object.then_some(true), "zero-sized metric: object");
            let v = m.value().map(|v| if let Value::Counter(v) = v { v } else { u64::MAX });
            check_eq!(v, value, "zero-sized metric: value");
            stat("answers", 3);
        }
        drop(all);
    }
    ctx.cases("units", ctx.many(6, 5000, 50_000), 10, |r, _| {
        let k = r.below(6);
        match k {
            0 => one(r, Unit::<false, false>, false, false, None),
            1 => one(r, Unit::<false, true>, false, true, None),
            2 => one(r, Unit::<true, false>, true, false, None),
            3 => one(r, Unit::<true, true>, true, true, None),
            4 => one(r, UnitImplicit::<false>, false, false, Some(0)),
            _ => one(r, UnitImplicit::<true>, true, true, Some(1)),
        }
        distinct(&(k, "unit"));
    });
}

/// The metric types of the library.
fn ready_made(ctx: &Ctx) {
    ctx.cases("ready made", ctx.many(6, 5000, 50_000), 10, |r, _| {
        let (x, y) = (r.edgy(), r.edgy());
        let c = builder(r, "c").build(Counter::new());
        let g = builder(r, "g").build(Gauge::new());
        let h = builder(r, "h").build(AtomicHistogram::new(3, 12));
        let b = builder(r, "b").build(RwLockHistogram::new(3, 12));
        for round in 0..3 {
            match round {
                1 => {
                    c.set(x);
                    g.set(y as i64);
                    let _ = h.increment(x % 4096);
                    let _ = b.update_from(&vec![x; b.config().total_buckets()]);
                }
                2 => {
                    c.reset();
                    g.reset();
                }
                _ => {}
            }
            let (x, y) = if round == 1 { (x, y) } else { (0, 0) };
            let all = metriken::metrics();
            for e in all.dynamic_metrics() {
                check!(e.is_enabled(), "a {} is disabled (round {round})", e.name());
                let Some(o) = e.as_any() else { violation(format!("a {} shows no object (round {round})", e.name())) };
                let object = match e.name() {
                    "c" => o.downcast_ref::<Counter>().map(addr) == Some(addr(&*c)),
                    "g" => o.downcast_ref::<Gauge>().map(addr) == Some(addr(&*g)),
                    "h" => o.downcast_ref::<AtomicHistogram>().map(addr) == Some(addr(&*h)),
                    "b" => o.downcast_ref::<RwLockHistogram>().map(addr) == Some(addr(&*b)),
                    n => violation(format!("unknown entry {n:?}")),
                };
                check!(object, "the object of {} is not that metric (round {round})", e.name());
                let value = match (e.name(), e.value()) {
                    ("c", Some(Value::Counter(v))) => v == x,
                    ("g", Some(Value::Gauge(v))) => v == y as i64,
                    ("h", Some(Value::Other(o))) => o.downcast_ref::<AtomicHistogram>().map(addr) == Some(addr(&*h)),
                    ("b", Some(Value::Other(o))) => o.downcast_ref::<RwLockHistogram>().map(addr) == Some(addr(&*b)),
                    _ => false,
                };
                check!(value, "the value of {} is not the metric's (round {round}, {x}, {y})", e.name());
                stat("answers", 3);
            }
        }
        distinct(&(x % 3, y % 3, "ready made"));
    });
}

/// Answers that move forward on one thread while others ask.
fn racing(ctx: &Ctx) {
    let steps = ctx.n(12, 3000, 3000);
    ctx.cases("racing", ctx.many(2, 40, 400), 30, |r, _| {
        let boxed = builder(r, "b").build(Explicit::new());
        let (m, e) = builder(r, "p").build_pinned(Implicit::new());
        let pinned = std::pin::pin!(m);
        pinned.as_ref().register(e);
        let all_kinds = Answers { enabled: true, object: 1, kind: 1, number: 0 };
        boxed.script().set(all_kinds);
        pinned.script().set(Answers { kind: 2, ..all_kinds });
        let done = [AtomicU64::new(0), AtomicU64::new(0)];
        let t = if MIRI { 1 } else { 3 };
        let (boxed, pinned, done) = (&*boxed, &**pinned, &done);
        let seen: u64 = std::thread::scope(|sc| {
            sc.spawn(move || {
                for k in 1..=steps {
                    boxed.script().number.store(k, Ordering::SeqCst);
                    done[0].store(k, Ordering::SeqCst);
                    pinned.script().number.store(k, Ordering::SeqCst);
                    done[1].store(k, Ordering::SeqCst);
                    if k % 16 == 0 {
                        std::thread::yield_now();
                    }
                }
                // The last word: both fall silent.
                boxed.script().enabled.store(0, Ordering::SeqCst);
                pinned.script().object.store(0, Ordering::SeqCst);
            });
            let hs: Vec<_> = (0..t)
                .map(|_| {
                    sc.spawn(move || {
                        let mut distinct_seen = 0;
                        let mut last = [0, 0];
                        loop {
                            let all = metriken::metrics();
                            let mut on = [false, false];
                            for e in all.dynamic_metrics() {
                                let i = (e.name() == "p") as usize;
                                for _ in 0..8 {
                                    on[i] = e.is_enabled();
                                    let lo = done[i].load(Ordering::SeqCst);
                                    let v = match e.value() {
                                        Some(Value::Counter(v)) if i == 0 => v,
                                        Some(Value::Gauge(v)) if i == 1 => v as u64,
                                        _ => violation("a racing metric reports another kind of value"),
                                    };
                                    let hi = done[i].load(Ordering::SeqCst) + 1;
                                    check!(
                                        lo <= v && v <= hi && v >= last[i],
                                        "entry {} reports {v}, but it was between {lo} and {hi}, and earlier {}",
                                        e.name(),
                                        last[i]
                                    );
                                    distinct_seen += (v != last[i]) as u64;
                                    last[i] = v;
                                }
                            }
                            tick();
                            if on == [false, false] {
                                return distinct_seen;
                            }
                        }
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| inconclusive("worker ended"))).sum()
        });
        stat("racing_answers_that_moved", seen);
        distinct(&seen);
    });
}
