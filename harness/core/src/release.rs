//! C26: what is dropped is released, once, and nothing is kept.

use metriken::{
    AtomicHistogram, Counter, DynBoxedMetric, DynPinnedMetric, Format, Gauge, Lazy, Metric, MetricBuilder, MetricEntry,
    RwLockHistogram, Value,
};
use mon::*;
use std::any::Any;
use std::pin::Pin;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------- tokens

/// Knows how often it was destroyed.
struct Token {
    id: u64,
    drops: Arc<AtomicU32>,
    panics: bool,
}
impl Drop for Token {
    fn drop(&mut self) {
        self.drops.fetch_add(1, SeqCst);
        if self.panics {
            std::panic::panic_any("on purpose".to_string());
        }
    }
}

/// What the harness knows of a token.
#[derive(Clone)]
struct Seen {
    id: u64,
    drops: Arc<AtomicU32>,
    what: &'static str,
    /// Has been replaced or consumed: may go at any time.
    loose: bool,
}
impl Seen {
    fn alive(&self, why: &str) {
        let n = self.drops.load(SeqCst);
        check!(n == 0 || self.loose && n == 1, "{} {} was destroyed {n} times {why}", self.what, self.id);
    }
    fn gone(&self, why: &str) {
        check_eq!(self.drops.load(SeqCst), 1, "times {} {} was destroyed {why}", self.what, self.id);
        stat("released", 1);
    }
}

static NEXT: AtomicU64 = AtomicU64::new(1);

fn token(what: &'static str) -> (Token, Seen) {
    let id = NEXT.fetch_add(1, SeqCst);
    let drops = Arc::new(AtomicU32::new(0));
    (Token { id, drops: drops.clone(), panics: false }, Seen { id, drops, what, loose: false })
}

/// Types to attach.
struct A<const K: usize>(Token);
struct Plain;

struct Held {
    _token: Token,
    n: u64,
    _inner: Option<DynBoxedMetric<Held>>,
}
impl Metric for Held {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.n))
    }
}

type Init = Box<dyn FnOnce() -> Held + Send>;

#[allow(dead_code)]
enum Thing {
    Builder(MetricBuilder),
    Boxed(DynBoxedMetric<Held>),
    Pinned(Pin<Box<DynPinnedMetric<Held>>>),
    Loose(DynPinnedMetric<Held>, Option<MetricEntry>),
    Entry(MetricEntry),
    Lazy(Box<Lazy<Held, Init>>),
    LazyBoxed(DynBoxedMetric<Lazy<Held, Init>>),
}

struct Item {
    thing: Option<Thing>,
    seen: Vec<Seen>,
    /// Attached now, by type.
    attached: [Option<u64>; 5],
    panics: bool,
    /// Value token a lazy will make.
    late: Arc<Mutex<Vec<Seen>>>,
    forced: bool,
    poison: bool,
}

impl Item {
    fn of(thing: Thing) -> Self {
        Item {
            thing: Some(thing),
            seen: vec![],
            attached: [None; 5],
            panics: false,
            late: Arc::default(),
            forced: false,
            poison: false,
        }
    }
    fn alive(&self, why: &str) {
        self.seen.iter().for_each(|s| s.alive(why));
        self.late.lock().unwrap_or_else(|e| e.into_inner()).iter().for_each(|s| s.alive(why));
    }
    fn gone(&self, why: &str) {
        self.seen.iter().for_each(|s| s.gone(why));
        self.late.lock().unwrap_or_else(|e| e.into_inner()).iter().for_each(|s| s.gone(why));
    }
    fn attach(&mut self, r: &mut Rng) {
        let Some(Thing::Builder(b)) = self.thing.take() else { inconclusive("not a builder") };
        let k = r.below(5);
        let (t, s) = token("attached data");
        if let Some(old) = self.attached[k].replace(t.id) {
            self.seen.iter_mut().filter(|s| s.id == old).for_each(|s| s.loose = true);
        }
        self.seen.push(s);
        let b = match k {
            0 => b.provide(A::<0>(t)),
            1 => b.provide(A::<1>(t)),
            2 => b.provide(A::<2>(t)),
            3 => b.provide(A::<3>(t)),
            _ => b.provide(A::<4>(t)),
        };
        let b = match r.below(6) {
            0 => b.provide(Plain),
            1 => b.metadata(r.string(), r.string()),
            2 => b.description(r.string()),
            3 => b.formatter(|e, _| e.name().to_string()),
            _ => b,
        };
        self.thing = Some(Thing::Builder(b));
    }
    fn held(&mut self, r: &mut Rng) -> Held {
        let (mut t, s) = token("metric");
        t.panics = r.chance(1, 6);
        self.panics |= t.panics;
        self.seen.push(s);
        let inner = (!t.panics && r.chance(1, 5)).then(|| {
            let (t, s) = token("inner metric");
            let (a, s2) = token("data attached to an inner metric");
            self.seen.extend([s, s2]);
            MetricBuilder::new("inner").provide(A::<0>(a)).build(Held { _token: t, n: 1, _inner: None })
        });
        Held { _token: t, n: r.next(), _inner: inner }
    }
    fn lazily(&mut self, r: &mut Rng) -> Lazy<Held, Init> {
        let (mine, s) = token("initialiser");
        self.seen.push(s);
        self.poison = r.chance(1, 4);
        let (poison, late, n) = (self.poison, self.late.clone(), r.next());
        Lazy::new(Box::new(move || {
            let _mine = mine;
            let (t, s) = token("lazy value");
            late.lock().unwrap_or_else(|e| e.into_inner()).push(s);
            let h = Held { _token: t, n, _inner: None };
            if poison {
                std::panic::panic_any("on purpose".to_string());
            }
            h
        }))
    }
    /// Force a lazy.
    fn force(&mut self) {
        let got = match &self.thing {
            Some(Thing::Lazy(l)) => catch(|| Lazy::force(l).n),
            Some(Thing::LazyBoxed(l)) => catch(|| Lazy::force(l).n),
            _ => return,
        };
        check_eq!(got.is_err(), self.poison, "forcing a lazy panicked");
        self.forced = true;
        // The initialiser was used up; a value that was never handed over is gone.
        self.seen.iter_mut().filter(|s| s.what == "initialiser").for_each(|s| s.loose = true);
        let mut late = self.late.lock().unwrap_or_else(|e| e.into_inner());
        check_eq!(late.len(), 1, "values built by the initialiser");
        if self.poison {
            late.iter_mut().for_each(|s| s.loose = true);
        }
    }
    /// Dispose of it, and of all that belongs to it.
    fn end(mut self, why: &str) {
        self.end_in(why, false);
    }
    fn end_in(&mut self, why: &str, unwinding: bool) {
        let thing = self.thing.take();
        // A destructor must not panic while its thread unwinds already.
        if unwinding && !self.panics {
            let got = catch(move || {
                let _thing = thing;
                std::panic::panic_any("on purpose".to_string());
            });
            check!(got.is_err(), "the panic was lost, {why}");
            return self.gone(why);
        }
        let got = catch(move || drop(thing));
        check_eq!(got.is_err(), self.panics, "dropping panicked, {why}");
        self.gone(why);
    }
}

fn born(r: &mut Rng) -> Item {
    if r.chance(1, 4) {
        let mut it = Item::of(Thing::Builder(MetricBuilder::new("x")));
        let l = it.lazily(r);
        it.thing = Some(if r.chance(1, 2) {
            Thing::Lazy(Box::new(l))
        } else {
            Thing::LazyBoxed(MetricBuilder::new("lazy").build(l))
        });
        return it;
    }
    let mut it = Item::of(Thing::Builder(MetricBuilder::new(r.string())));
    for _ in 0..r.below(5) {
        it.attach(r);
    }
    it
}

/// One step in the life of something.
fn step(it: &mut Item, r: &mut Rng) -> &'static str {
    match it.thing.take() {
        Some(Thing::Builder(b)) => match r.below(7) {
            0 | 1 => {
                let h = it.held(r);
                it.thing = Some(Thing::Boxed(b.build(h)));
                "build"
            }
            2 | 3 => {
                let h = it.held(r);
                let (m, e) = b.build_pinned(h);
                it.thing = Some(Thing::Loose(m, Some(e)));
                "build_pinned"
            }
            4 => {
                let e = b.into_entry();
                it.seen.iter_mut().for_each(|s| s.loose = true);
                it.thing = Some(Thing::Entry(e));
                "into_entry"
            }
            _ => {
                it.thing = Some(Thing::Builder(b));
                it.attach(r);
                "attach"
            }
        },
        Some(Thing::Loose(m, e)) => match e {
            Some(e) if r.chance(2, 3) => {
                let m = Box::pin(m);
                m.as_ref().register(e);
                it.thing = Some(Thing::Pinned(m));
                "register"
            }
            e => {
                // Moves about.
                let b = Box::new(m);
                it.thing = Some(Thing::Loose(*b, e));
                "move"
            }
        },
        Some(Thing::Pinned(m)) => {
            let (t, mut s) = token("data attached to an entry");
            s.loose = true;
            it.seen.push(s);
            m.as_ref().register(MetricBuilder::new(r.string()).provide(A::<2>(t)).into_entry());
            it.thing = Some(Thing::Pinned(m));
            "register again"
        }
        Some(Thing::Entry(e)) => {
            let h = it.held(r);
            #[allow(deprecated)]
            if r.chance(1, 2) {
                it.thing = Some(Thing::Boxed(DynBoxedMetric::new(h, e)));
                "box an entry"
            } else {
                it.thing = Some(Thing::Loose(DynPinnedMetric::new(h), Some(e)));
                "pin an entry"
            }
        }
        other => {
            it.thing = other;
            if matches!(it.thing, Some(Thing::Lazy(_) | Thing::LazyBoxed(_))) && !it.forced {
                it.force();
                return "force";
            }
            "nothing"
        }
    }
}

/// Look at everything there is, in every way.
fn look(r: &mut Rng) {
    let all = metriken::metrics();
    for e in all.dynamic_metrics() {
        let _ = (e.name().len(), e.value().is_some(), e.is_enabled(), e.formatted(Format::Prometheus).len());
        if let Some(a) = e.request_ref::<A<0>>() {
            check_eq!(a.0.drops.load(SeqCst), 0, "destroyed data {} returned by a request", a.0.id);
        }
        if let Some(a) = e.request_ref::<A<3>>() {
            check_eq!(a.0.drops.load(SeqCst), 0, "destroyed data {} returned by a request", a.0.id);
        }
        if r.chance(1, 8) {
            break;
        }
    }
}

fn sequence(r: &mut Rng, len: usize, trail: &mut Vec<&'static str>) {
    let mut items: Vec<Item> = vec![];
    for _ in 0..len {
        let did = match r.below(10) {
            0..=2 => {
                items.push(born(r));
                "new"
            }
            3..=6 if !items.is_empty() => {
                let i = r.below(items.len());
                step(&mut items[i], r)
            }
            7 => {
                look(r);
                "look"
            }
            8 if !items.is_empty() => {
                let it = items.swap_remove(r.below(items.len()));
                std::thread::scope(|s| {
                    s.spawn(|| it.end("after its owner was dropped by another thread"));
                });
                "drop elsewhere"
            }
            9 if !items.is_empty() && r.chance(1, 3) => {
                let mut it = items.swap_remove(r.below(items.len()));
                it.end_in("after its owner was dropped while unwinding", true);
                "drop unwinding"
            }
            _ if !items.is_empty() => {
                let it = items.swap_remove(r.below(items.len()));
                it.end("after its owner was dropped");
                "drop"
            }
            _ => "nothing",
        };
        items.iter().for_each(|i| i.alive("although its owner lives"));
        trail.push(did);
        tick();
    }
    for it in items {
        it.end("after its owner was dropped in the end");
    }
}

/// Metrics that hand out values.
struct Giver {
    script: Vec<(bool, usize)>,
    made: Mutex<Vec<Seen>>,
    kept: [(A<0>, Seen); 1],
}
impl Metric for Giver {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        None
    }
    fn provide<'a>(&'a self, request: &mut metriken_core::Request<'a>) {
        let make = || {
            let (t, s) = token("provided value");
            self.made.lock().unwrap_or_else(|e| e.into_inner()).push(s);
            t
        };
        request.provide_ref(&self.kept[0].0);
        for &(lazily, k) in &self.script {
            match (k, lazily) {
                (0, false) => request.provide_value(A::<0>(make())),
                (0, true) => request.provide_value_with(|| A::<0>(make())),
                (1, false) => request.provide_value(A::<1>(make())),
                (1, true) => request.provide_value_with(|| A::<1>(make())),
                (2, false) => request.provide_value(vec![A::<2>(make()), A::<2>(make())]),
                (2, true) => request.provide_value_with(|| vec![A::<2>(make())]),
                (_, false) => request.provide_value(Box::new(A::<3>(make()))),
                (_, true) => request.provide_value_with(|| Box::new(A::<3>(make()))),
            };
        }
    }
}

pub fn run(ctx: &Ctx) {
    if !MIRI {
        memory::count();
    }
    ctx.cases("tokens", ctx.many(6, 600, 20_000), 30, |r, _| {
        let mut trail = vec![];
        let len = r.range(5, if MIRI { 20 } else { 60 });
        sequence(r, len, &mut trail);
        distinct(&trail);
        sample(|| trail.join(", "));
    });
    ctx.cases("values", ctx.many(6, 600, 20_000), 10, |r, _| {
        let script: Vec<(bool, usize)> = (0..r.below(6)).map(|_| (r.chance(1, 2), r.below(4))).collect();
        let (t, s) = token("referenced data");
        let g = Giver { script: script.clone(), made: Mutex::default(), kept: [(A(t), s.clone())] };
        let kept = MetricBuilder::new("giver").build(g);
        for _ in 0..r.range(1, 6) {
            let all = metriken::metrics();
            let Some(e) = all.dynamic_metrics().find(|e| e.name() == "giver") else { violation("a live metric is not listed") };
            let (got, first): (Vec<u64>, bool) = match r.below(5) {
                0 => (e.request_value::<A<0>>().iter().map(|a| a.0.id).collect(), true),
                1 => (e.request_value::<A<1>>().iter().map(|a| a.0.id).collect(), true),
                2 => {
                    let v = e.request_value::<Vec<A<2>>>();
                    for a in v.iter().flatten() {
                        check_eq!(a.0.drops.load(SeqCst), 0, "destroyed value {} handed out", a.0.id);
                    }
                    (v.iter().flatten().map(|a| a.0.id).collect(), true)
                }
                3 => (e.request_value::<Box<A<3>>>().iter().map(|a| a.0.id).collect(), true),
                _ => (e.request_ref::<A<0>>().iter().map(|a| a.0.id).collect(), false),
            };
            if !first {
                check_eq!(got, vec![s.id], "the reference provided");
            }
            let made = std::mem::take(&mut *kept.made.lock().unwrap_or_else(|e| e.into_inner()));
            made.iter().for_each(|s| s.gone("after the answer to a request was dropped"));
            s.alive("although its owner lives");
        }
        drop(kept);
        s.gone("after its owner was dropped");
        distinct(&script);
    });
    ctx.cases("threads", ctx.many(1, 60, 1500), 25, |r, _| {
        let seeds: Vec<u64> = (0..if MIRI { 2 } else { 6 }).map(|_| r.next()).collect();
        let len = if MIRI { 6 } else { r.range(20, 150) };
        std::thread::scope(|s| {
            for &seed in &seeds {
                s.spawn(move || sequence(&mut Rng::new(seed), len, &mut vec![]));
            }
        });
        distinct(&seeds);
    });
    if !MIRI {
        // Round after round of the same, under other names each time.
        ctx.cases("cycles", ctx.many(0, 40, 1200), 35, |r, case| {
            let seed = r.next();
            let units = r.range(16, 60);
            let mode = case % 8;
            let at = memory::cycles(|k| {
                if mode == 7 {
                    std::thread::scope(|s| {
                        s.spawn(|| cycle(mode, seed, units, k));
                        s.spawn(|| cycle(0, seed, units, k));
                    });
                } else {
                    cycle(mode, seed, units, k)
                }
            });
            stat("made_and_disposed_of", units as u64 * 64);
            distinct(&(mode, seed));
            sample(|| format!("mode {mode}, {units} things a round: bytes in use after 8, 16, 32, 64 rounds: {at:?}"));
        });
    }
}

fn cycle(mode: u64, seed: u64, units: usize, round: u64) {
    let r = &mut Rng::new(seed);
    let name = |i: usize| format!("a metric of round {round:06} {i:06} {}", "x".repeat(i % 40));
    let build = |r: &mut Rng, i: usize| {
        let mut b = MetricBuilder::new(name(i));
        for k in 0..r.below(4) {
            b = b.metadata(format!("key{k} {round:06}"), name(i));
        }
        if r.chance(1, 2) {
            b = b.description(name(i));
        }
        if r.chance(1, 3) {
            b = b.provide(vec![7u8; r.range(1, 200)]);
        }
        if r.chance(1, 4) {
            b = b.formatter(|e, _| format!("<{}>", e.name()));
        }
        b
    };
    let mut keep: Vec<Box<dyn Any>> = Vec::new();
    match mode {
        0 | 7 => {
            for i in 0..units {
                let b = build(r, i);
                keep.push(match r.below(5) {
                    0 => Box::new(b.build(Counter::new())),
                    1 => Box::new(b.build(Gauge::new())),
                    2 => Box::new(b.build(AtomicHistogram::new(3, 10))),
                    3 => Box::new(b.build(Lazy::<Counter>::new(Counter::new))),
                    _ => Box::new(b.build(RwLockHistogram::new(3, 10))),
                });
            }
        }
        1 => {
            for i in 0..units / 4 {
                let (m, e) = build(r, i).build_pinned(Counter::new());
                let m = Box::pin(m);
                m.as_ref().register(e);
                for j in 0..4 {
                    m.as_ref().register(build(r, i * 4 + j).into_entry());
                }
                keep.push(Box::new(m));
            }
        }
        2 => {
            for i in 0..units {
                let b = build(r, i);
                match r.below(3) {
                    0 => drop(b),
                    1 => drop(b.into_entry()),
                    _ => drop(b.build_pinned(Counter::new())),
                }
            }
        }
        3 => {
            for i in 0..units {
                let text = name(i);
                let l: Lazy<AtomicHistogram, _> = Lazy::new(move || {
                    let _ = text;
                    AtomicHistogram::new(4, 16)
                });
                if r.chance(1, 2) {
                    let _ = l.increment(5);
                }
                keep.push(Box::new(build(r, i).build(l)));
            }
        }
        4 => {
            for _ in 0..units {
                let h = AtomicHistogram::new(3, 12);
                let _ = (h.increment(9), h.increment(1 << 13), h.increment(u64::MAX), h.load());
                let b = RwLockHistogram::new(3, 12);
                let data = vec![1; b.config().total_buckets()];
                let _ = (b.update_from(&data), b.update_from(&data[1..]), b.load(), b.load());
            }
        }
        5 => {
            // The metrics stay, everything else comes and goes.
            for i in 0..units {
                keep.push(Box::new(build(r, i).build(Counter::new())));
            }
            for _ in 0..units {
                let all = metriken::metrics();
                let some = r.below(units);
                for e in all.dynamic_metrics().take(some) {
                    let m = e.metadata().clone();
                    drop((m, e.formatted(Format::Prometheus), e.request_value::<String>()));
                }
                let _ = all.iter().rev().take(3).count();
            }
        }
        _ => {
            // Made and dropped one after another, at the same place mostly.
            for i in 0..units {
                let m = build(r, i).build(Counter::new());
                m.increment();
                let all = metriken::metrics();
                let e = all.dynamic_metrics().find(|e| e.is(&*m));
                check!(e.is_some(), "a live metric is not listed");
            }
        }
    }
    for e in metriken::metrics().dynamic_metrics() {
        let _ = (e.formatted(Format::Simple), e.formatted(Format::Prometheus), e.value().is_some());
        let _ = (e.request_ref::<Vec<u8>>().map(|v| v.len()), e.metadata().iter().count());
    }
    if r.chance(1, 2) {
        keep.reverse();
    }
    if r.chance(1, 3) {
        let _ = catch(move || {
            let _keep = keep;
            std::panic::panic_any(());
        });
    } else {
        drop(keep);
    }
}
