//! C05: lazily initialised metrics.

use metriken::{Counter, Gauge, Lazy, Metric, MetricBuilder, Value};
use mon::*;
use std::any::Any;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Arc;

/// A metric whose construction is spread out and whose halves must agree.
struct Probe {
    a: u64,
    data: Box<[u64; 16]>,
    b: u64,
    dropped: Arc<AtomicUsize>,
    enabled: bool,
}

impl Probe {
    fn build(id: u64, dropped: Arc<AtomicUsize>, slow: bool) -> Self {
        let mut data = Box::new([0u64; 16]);
        for i in 0..16 {
            data[i] = id.wrapping_add(i as u64);
            if slow && i == 7 {
                std::thread::yield_now();
            }
        }
        Probe { a: id, data, b: !id, dropped, enabled: id % 2 == 0 }
    }
    fn intact(&self, id: u64) -> bool {
        self.a == id && self.b == !id && (0..16).all(|i| self.data[i] == id.wrapping_add(i as u64))
    }
}

impl Drop for Probe {
    fn drop(&mut self) {
        self.dropped.fetch_add(1, Ordering::SeqCst);
    }
}

impl Metric for Probe {
    fn is_enabled(&self) -> bool {
        true
    }
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        self.enabled.then(|| Value::Counter(self.a))
    }
}

/// Something owned by the initialiser, to see when that is dropped.
struct Token(Arc<AtomicUsize>);
impl Drop for Token {
    fn drop(&mut self) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

type Init = Box<dyn FnOnce() -> Probe + Send>;

struct Rig {
    id: u64,
    runs: Arc<AtomicUsize>,
    dropped: Arc<AtomicUsize>,
    token: Arc<AtomicUsize>,
}

fn rig(id: u64, fails: bool, slow: bool) -> (Lazy<Probe, Init>, Rig) {
    let (runs, dropped, token) = <(Arc<AtomicUsize>, Arc<AtomicUsize>, Arc<AtomicUsize>)>::default();
    let t = Token(token.clone());
    let (r2, d2) = (runs.clone(), dropped.clone());
    let init: Init = Box::new(move || {
        let _t = &t;
        r2.fetch_add(1, Ordering::SeqCst);
        if slow {
            std::thread::yield_now();
        }
        if fails {
            panic!("initialiser failed on purpose");
        }
        Probe::build(id, d2, slow)
    });
    (Lazy::new(init), Rig { id, runs, dropped, token })
}

/// Everything an observer may ask, none of which may run the initialiser.
/// Returns whether the value was visible.
fn observe(l: &Lazy<Probe, Init>, rig: &Rig, what: u64) -> Option<bool> {
    let m: &dyn Metric = l;
    match what % 4 {
        0 => {
            let v = Lazy::get(l);
            if let Some(p) = v {
                check!(p.intact(rig.id), "get shows a value that is not fully built");
            }
            Some(v.is_some())
        }
        1 => Some(m.is_enabled()),
        2 => match m.as_any() {
            None => Some(false),
            Some(a) => {
                let Some(p) = a.downcast_ref::<Probe>() else {
                    violation("as_any of an initialised lazy metric is not the inner metric")
                };
                check!(p.intact(rig.id), "as_any shows a value that is not fully built");
                Some(true)
            }
        },
        _ => match m.value() {
            None => (rig.id % 2 == 0).then_some(false), // odd ones never report a value
            Some(Value::Counter(v)) => {
                check_eq!(v, rig.id, "reported value");
                Some(true)
            }
            Some(_) => violation("reported value is not the inner metric's"),
        },
    }
}

pub fn run(ctx: &Ctx) {
    #[cfg(not(miri))]
    statics(ctx);
    sequential(ctx);
    listed(ctx);
    races(ctx);
    plain(ctx);
    inner(ctx);
    bare(ctx);
    patience(ctx);
}

/// Lazy statics start disabled and stay so under listing. Declared by the
/// binary; the names start with "lazy.".
#[cfg(not(miri))]
fn statics(ctx: &Ctx) {
    static ORDER: AtomicU64 = AtomicU64::new(0);
    let _ = ctx;
    if ORDER.fetch_add(1, Ordering::SeqCst) != 0 {
        return;
    }
    for (name, force) in crate::LAZY_STATICS.lock().unwrap_or_else(|e| e.into_inner()).iter() {
        let look = |stage: &str, on: bool, val: Option<u64>| {
            for _ in 0..3 {
                let all = metriken::metrics();
                let mine: Vec<_> = all.static_metrics().iter().filter(|e| e.name() == *name).collect();
                check_eq!(mine.len(), 1, "{name}: entries listed {stage}");
                let e = mine[0];
                let _ = e.metadata().len();
                let _ = e.formatted(metriken::Format::Prometheus);
                let _ = e.description();
                check_eq!(e.is_enabled(), on, "{name}: enabled {stage}");
                check_eq!(e.as_any().is_some(), on, "{name}: concrete type visible {stage}");
                let got = e.value().map(|v| match v {
                    Value::Counter(c) => c,
                    Value::Gauge(g) => g as u64,
                    _ => violation("wrong kind"),
                });
                check_eq!(got, val, "{name}: value {stage}");
                stat("static_observations", 4);
            }
        };
        look("before any access", false, None);
        force(0);
        look("after the first access", true, Some(0));
        force(5);
        look("after adding 5", true, Some(5));
    }
}

fn sequential(ctx: &Ctx) {
    ctx.cases("sequential", ctx.many(40, 40_000, 300_000), 25, |r, _| {
        let id = r.next() >> 1;
        let fails = r.chance(1, 4);
        let (mut l, rig) = rig(id, fails, false);
        let mut forced = false;
        let mut addr = 0usize;
        let mut trace = Vec::new();
        for _ in 0..r.range(0, 8) {
            let what = r.below(8) as u64;
            trace.push(what);
            match what {
                0..=3 => {
                    let seen = observe(&l, &rig, what);
                    check!(
                        seen.is_none() || seen == Some(forced && !fails),
                        "after {trace:?} (initialiser fails: {fails}): observer {what} saw {seen:?}"
                    );
                }
                4 | 5 | 6 => {
                    let got = catch(|| {
                        let p: &Probe = match what {
                            4 => Lazy::force(&l),
                            5 => &l,
                            _ => &mut *(&mut l),
                        };
                        (p as *const Probe as usize, p.intact(id))
                    });
                    forced = true;
                    match got {
                        Ok((a, ok)) => {
                            check!(!fails, "after {trace:?}: access succeeded although the initialiser panicked");
                            check!(ok, "after {trace:?}: the value is not the one the initialiser built");
                            check!(addr == 0 || a == addr, "after {trace:?}: the value moved or was rebuilt");
                            addr = a;
                        }
                        Err(e) => check!(
                            fails,
                            "after {trace:?}: access panicked although the initialiser works: {}",
                            panic_text(&*e)
                        ),
                    }
                }
                _ => {
                    let got = Lazy::get_mut(&mut l).map(|p| p.intact(id));
                    check_eq!(got, (forced && !fails).then_some(true), "after {trace:?}: get_mut");
                }
            }
            check_eq!(rig.runs.load(Ordering::SeqCst), forced as usize, "after {trace:?}: times the initialiser ran");
        }
        check_eq!(rig.dropped.load(Ordering::SeqCst), 0, "after {trace:?}: values dropped early");
        drop(l);
        check_eq!(
            rig.dropped.load(Ordering::SeqCst),
            (forced && !fails) as usize,
            "after {trace:?} and dropping the lazy: values dropped"
        );
        check_eq!(rig.token.load(Ordering::SeqCst), 1, "after {trace:?} and dropping the lazy: initialisers dropped");
        stat("accesses", trace.len() as u64);
        distinct(&(fails, trace.clone()));
        sample(|| format!("initialiser fails: {fails}, accesses {trace:?} (0-3 observe, 4-6 force, 7 get_mut)"));
    });
}

/// Registered lazy metrics: listings never initialise them.
fn listed(ctx: &Ctx) {
    ctx.cases("listed", ctx.many(4, 2000, 20_000), 20, |r, _| {
        let n = r.range(1, 5);
        let made: Vec<_> = (0..n)
            .map(|i| {
                let (l, rig) = rig(2 * r.next().wrapping_shr(2), false, false);
                (MetricBuilder::new(format!("z{i}")).metadata("k", "v").build(l), rig)
            })
            .collect();
        let mut forced = vec![false; n];
        for _ in 0..r.range(1, 6) {
            let k = r.below(n);
            if r.chance(1, 2) {
                Lazy::force(&*made[k].0);
                forced[k] = true;
            }
            let all = metriken::metrics();
            for e in all.dynamic_metrics() {
                let Some(i) = (0..n).find(|i| e.name() == format!("z{i}")) else {
                    violation(format!("unknown entry {:?}", e.name()))
                };
                let _ = (e.metadata().get("k"), e.formatted(metriken::Format::Prometheus), format!("{e:?}"));
                let _ = (e.request_ref::<u32>(), e.request_value::<u32>(), e.is(e.metric()));
                let on = forced[i];
                check_eq!(e.is_enabled(), on, "z{i} enabled (accessed: {on})");
                check_eq!(e.value().is_some(), on, "z{i} has a value (accessed: {on})");
                check_eq!(e.as_any().is_some(), on, "z{i} shows its type (accessed: {on})");
                check_eq!(made[i].1.runs.load(Ordering::SeqCst), on as usize, "z{i}: times initialised");
                stat("observations", 1);
            }
        }
        distinct(&(forced, n));
    });
}

/// Forcing accesses and observers race on a fresh lazy metric.
fn races(ctx: &Ctx) {
    ctx.cases("races", ctx.many(4, 16, 300), 40, |r, case| {
        let t = if MIRI { 3 } else { r.range(2, 7) };
        let fails = case % 4 == 3;
        let kinds: Vec<Vec<u64>> = (0..t)
            .map(|i| (0..r.range(1, 3)).map(|_| if i == 0 { 4 } else { r.below(7) as u64 }).collect())
            .collect();
        let rounds = ctx.n(2, 2500, 4000);
        let slow = r.chance(1, 2);
        struct S {
            l: Lazy<Probe, Init>,
            rig: Rig,
            done: AtomicU64,
        }
        arena::rounds(
            t,
            rounds,
            |k| {
                let (l, rig) = rig(2 * (k + 1), fails, slow);
                S { l, rig, done: AtomicU64::new(0) }
            },
            |s, t, _| {
                let mut log = Vec::new();
                let mut visible = false;
                for &what in &kinds[t] {
                    if what < 4 {
                        let before = s.done.load(Ordering::SeqCst) > 0;
                        let seen = observe(&s.l, &s.rig, what) == Some(true);
                        check!(!fails || !seen, "a value became visible although the initialiser panicked");
                        check!(fails || seen || !before, "observer {what} saw no value after an access had completed");
                        check!(seen || !visible, "observer {what} saw the value disappear");
                        visible |= seen;
                        log.push((what, seen as usize));
                    } else {
                        let got = catch(|| {
                            let p: &Probe = if what == 4 { Lazy::force(&s.l) } else { &s.l };
                            check!(p.intact(s.rig.id), "a racing access saw a value that is not fully built");
                            p as *const Probe as usize
                        });
                        s.done.fetch_add(1, Ordering::SeqCst);
                        check_eq!(got.is_err(), fails, "a racing access panicked");
                        visible |= !fails;
                        log.push((what, got.unwrap_or(0)));
                    }
                }
                log
            },
            |s, logs, round| {
                check_eq!(
                    s.rig.runs.load(Ordering::SeqCst),
                    1,
                    "round {round}, {kinds:?} (fails: {fails}): times the initialiser ran"
                );
                let mut addrs: Vec<usize> =
                    logs.iter().flatten().filter(|x| x.0 >= 4).map(|x| x.1).collect();
                addrs.dedup();
                check_eq!(addrs.len(), 1, "round {round}: different values were handed out");
                let shape: Vec<Vec<(u64, bool)>> =
                    logs.iter().map(|l| l.iter().map(|x| (x.0, x.1 > 0)).collect()).collect();
                distinct(&(fails, shape));
                let Rig { dropped, token, .. } = s.rig;
                drop(s.l);
                check_eq!(dropped.load(Ordering::SeqCst), (!fails) as usize, "round {round}: values dropped");
                check_eq!(token.load(Ordering::SeqCst), 1, "round {round}: initialisers dropped");
                true
            },
        );
        stat("races", rounds);
    });
}

/// The ready-made aliases and the default constructor.
fn plain(ctx: &Ctx) {
    ctx.cases("plain", ctx.many(4, 300, 3000), 10, |r, _| {
        let c: Lazy<Counter> = if r.chance(1, 2) { Lazy::default() } else { metriken::LazyCounter::new(Counter::default) };
        let g: Lazy<Gauge> = if r.chance(1, 2) { Lazy::default() } else { metriken::LazyGauge::new(Gauge::default) };
        for m in [&c as &dyn Metric, &g] {
            check!(!m.is_enabled() && m.value().is_none() && m.as_any().is_none(), "a fresh lazy metric is not disabled");
        }
        check!(Lazy::get(&c).is_none() && Lazy::get(&g).is_none(), "a fresh lazy metric has a value");
        let (x, y) = (r.edgy(), r.edgy());
        check_eq!(c.add(x), 0, "first add on a lazy counter");
        check!(!Metric::is_enabled(&g), "accessing one lazy metric initialised another");
        check_eq!(g.set(y as i64), 0, "first set on a lazy gauge");
        check!(matches!(Metric::value(&c), Some(Value::Counter(v)) if v == x), "lazy counter value");
        check!(matches!(Metric::value(&g), Some(Value::Gauge(v)) if v == y as i64), "lazy gauge value");
        check!(
            Metric::as_any(&c).is_some_and(|a| a.is::<Counter>()) && Metric::as_any(&g).is_some_and(|a| a.is::<Gauge>()),
            "lazy metric's concrete type"
        );
        distinct(&(x, y));
    });
}

/// A metric that says of itself whatever it is told to.
struct Said {
    enabled: bool,
    any: u8,
    value: u8,
    n: u64,
    part: u32,
}
impl Metric for Said {
    fn is_enabled(&self) -> bool {
        self.enabled
    }
    fn as_any(&self) -> Option<&dyn Any> {
        match self.any {
            0 => None,
            1 => Some(self),
            _ => Some(&self.part),
        }
    }
    fn value(&self) -> Option<Value<'_>> {
        match self.value {
            0 => None,
            1 => Some(Value::Counter(self.n)),
            2 => Some(Value::Gauge(self.n as i64)),
            _ => Some(Value::Other(&self.part)),
        }
    }
}

/// Lazy metrics whose value is disabled, opaque or without a value: once there
/// is a value the metric is enabled, exposes that and reports its value.
fn inner(ctx: &Ctx) {
    ctx.cases("inner", ctx.many(12, 1500, 30_000), 10, |r, _| {
        let (enabled, any, value, n) = (r.chance(1, 2), r.below(3) as u8, r.below(4) as u8, r.edgy());
        let l: Lazy<Said, _> = Lazy::new(move || Said { enabled, any, value, n, part: 7 });
        let b = MetricBuilder::new("inner").build(Lazy::<Said, _>::new(move || Said { enabled, any, value, n, part: 7 }));
        let nested: Lazy<Lazy<Counter>> = Lazy::new(Lazy::default);
        let judge = |what: &str, m: &dyn Metric, inner: Option<&Said>| {
            check_eq!(m.is_enabled(), inner.is_some(), "{what}: enabled, value of {enabled} {any} {value}");
            let object = m.as_any().map(|a| a as *const dyn Any as *const () as usize);
            check_eq!(object, inner.map(|i| i as *const Said as usize), "{what}: object, value of {enabled} {any} {value}");
            check!(m.as_any().map_or(true, |a| a.is::<Said>()), "{what}: type of the object");
            let got = match m.value() {
                None => (0, 0),
                Some(Value::Counter(n)) => (1, n),
                Some(Value::Gauge(n)) => (2, n as u64),
                Some(Value::Other(o)) => (3, o.downcast_ref::<u32>().map_or(0, |p| p as *const u32 as u64)),
                _ => (9, 0),
            };
            let want = match (inner, value) {
                (None, _) | (_, 0) => (0, 0),
                (Some(_), 1 | 2) => (value, n),
                (Some(i), _) => (3, &i.part as *const u32 as u64),
            };
            check_eq!(got, want, "{what}: value, of {enabled} {any} {value}");
        };
        for step in 0..r.range(1, 4) {
            judge("lazy", &l, Lazy::get(&l));
            let all = metriken::metrics();
            for e in all.dynamic_metrics().filter(|e| e.name() == "inner") {
                judge("entry of a lazy", e.metric(), Lazy::get(&*b));
            }
            drop(all);
            if step == 0 {
                check!(Lazy::get(&l).is_none() && Lazy::get(&*b).is_none(), "looking at a lazy metric initialised it");
                check!(!Metric::is_enabled(&nested), "a fresh lazy metric is not disabled");
            }
            let (p, q) = (Lazy::force(&l) as *const Said, Lazy::force(&*b) as *const Said);
            check!(Lazy::get(&l).is_some_and(|s| s as *const Said == p), "the value forced is not the one there is");
            check!(Lazy::get(&*b).is_some_and(|s| s as *const Said == q), "the value forced is not the one there is");
        }
        // One lazy within another: the inner one is the value of the outer one.
        let i = Lazy::force(&nested);
        check!(Lazy::get(i).is_none(), "forcing a lazy metric forced the one within");
        check!(Metric::is_enabled(&nested) && Metric::value(&nested).is_none(), "a lazy metric with a fresh one within");
        check!(!Metric::is_enabled(i), "a fresh lazy metric within another is not disabled");
        i.add(3);
        check!(matches!(Metric::value(&nested), Some(Value::Counter(3))), "a lazy metric within another");
        distinct(&(enabled, any, value, n));
    });
}

/// A metric of plain memory.
struct Plain([u64; 4]);
impl Metric for Plain {
    fn as_any(&self) -> Option<&dyn std::any::Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.0[3]))
    }
}

/// Observers that share nothing with the initialising thread but the lazy
/// itself: no clock or tally of the monitor orders their memory accesses, so
/// that the interpreter sees what the lazy alone guarantees.
fn bare(ctx: &Ctx) {
    let mut seen = [0u64; 2];
    ctx.cases("bare", ctx.many(10, 400, 6000), 15, |r, case| {
        let id = r.next();
        let l: Lazy<Plain, _> = Lazy::new(move || Plain([id; 4]));
        let looks = if MIRI { 120 } else { 200 };
        let enough = if MIRI { 4 } else { 100 };
        let mixes: Vec<u64> = (0..2).map(|_| r.next()).collect();
        let counts: Vec<[u64; 2]> = std::thread::scope(|sc| {
            let l = &l;
            let observers: Vec<_> = mixes
                .iter()
                .map(|&mix| {
                    sc.spawn(move || {
                        let mut n = [0u64; 2];
                        for i in 0..looks {
                            let shown = match mix.rotate_left(2 * i) & 3 {
                                0 => Lazy::get(l).map(|p| p.0),
                                1 => Metric::as_any(l).and_then(|a| a.downcast_ref::<Plain>()).map(|p| p.0),
                                2 => match Metric::value(l) {
                                    Some(Value::Counter(v)) => Some([v; 4]),
                                    _ => None,
                                },
                                _ if Metric::is_enabled(l) => Lazy::get(l).map(|p| p.0),
                                _ => None,
                            };
                            if let Some(v) = shown {
                                check_eq!(v, [id; 4], "an observer saw a value that is not fully built");
                            }
                            n[shown.is_some() as usize] += 1;
                            if n[1] == enough {
                                break;
                            }
                            if i % 3 == 0 {
                                std::thread::yield_now();
                            }
                        }
                        n
                    })
                })
                .collect();
            sc.spawn(move || {
                for _ in 0..case % 3 {
                    std::thread::yield_now();
                }
                let p: &Plain = l;
                check_eq!(p.0, [id; 4], "the initialising access");
            });
            observers.into_iter().map(|h| h.join().unwrap_or_else(|_| inconclusive("observer ended"))).collect()
        });
        for c in &counts {
            seen[0] += c[0];
            seen[1] += c[1];
        }
        distinct(&("bare", counts));
    });
    stat("bare_looks_before", seen[0]);
    stat("bare_looks_after", seen[1]);
}

/// An initialiser that takes seconds: the metric is uninitialised to observers
/// all that time, and whoever else wants the value waits for this one.
fn patience(ctx: &Ctx) {
    if MIRI {
        return;
    }
    let rounds = ctx.n(0, 24, 140);
    ctx.cases("patience", 1, 5, |r, _| {
        let id = r.next();
        let runs = Arc::new(AtomicUsize::new(0));
        let over = Arc::new(AtomicUsize::new(0));
        let (runs2, over2) = (runs.clone(), over.clone());
        let l: Lazy<Plain, _> = Lazy::new(move || {
            runs2.fetch_add(1, Ordering::SeqCst);
            for _ in 0..rounds {
                std::thread::sleep(std::time::Duration::from_millis(250));
                tick();
            }
            over2.fetch_add(1, Ordering::SeqCst);
            Plain([id; 4])
        });
        std::thread::scope(|sc| {
            let (l, runs) = (&l, &runs);
            let users: Vec<_> = (0..4)
                .map(|_| {
                    sc.spawn(move || {
                        let p: &Plain = l;
                        check_eq!(p.0, [id; 4], "a slowly initialised value");
                        check_eq!(runs.load(Ordering::SeqCst), 1, "runs of a slow initialiser");
                        p as *const Plain as usize
                    })
                })
                .collect();
            // Nothing can be seen of it before the initialiser is over.
            let mut looks = 0;
            loop {
                let seen = [Lazy::get(l).is_some(), Metric::is_enabled(l), Metric::value(l).is_some(), Metric::as_any(l).is_some()];
                if over.load(Ordering::SeqCst) != 0 {
                    break;
                }
                check_eq!(seen, [false; 4], "what shows of a lazy metric while its initialiser runs");
                looks += 1;
                std::thread::sleep(std::time::Duration::from_millis(20));
            }
            stat("looks_during_a_slow_initialiser", looks);
            let at: Vec<usize> = users.into_iter().map(|u| u.join().unwrap_or_else(|_| inconclusive("user ended"))).collect();
            check!(at.iter().all(|a| *a == at[0]), "threads got different values of one lazy metric");
        });
        check_eq!(runs.load(Ordering::SeqCst), 1, "runs of a slow initialiser");
        check!(Lazy::get(&l).is_some_and(|p| p.0 == [id; 4]), "a slowly initialised value afterwards");
        distinct(&"patience");
    });
}
