//! C13: an entry recognises its own metric and no other.

use std::any::Any;
use std::pin::Pin;

use metriken::{
    AtomicHistogram, Counter, DynBoxedMetric, DynPinnedMetric, Gauge, Lazy, LazyCounter, Metric, MetricBuilder,
    MetricEntry, RwLockHistogram, Value,
};
use mon::{check, distinct, sample, stat, Ctx};

macro_rules! delegate {
    ($t:ty, $f:tt) => {
        impl Metric for $t {
            fn as_any(&self) -> Option<&dyn Any> {
                Some(self)
            }
            fn value(&self) -> Option<Value> {
                Metric::value(&self.$f).map(|_| Value::Other(self))
            }
        }
    };
}

/// A metric that begins with another metric, at the same address.
#[repr(C)]
pub struct Outer {
    inner: Counter,
    more: u64,
}
delegate!(Outer, inner);

#[repr(transparent)]
pub struct Newtype(Counter);
delegate!(Newtype, 0);

/// Three types deep.
#[repr(C)]
pub struct Deep {
    outer: Outer,
    tail: u8,
}
delegate!(Deep, outer);

/// Larger than the distance from its owner's beginning.
pub struct Large([u64; 9]);
impl Metric for Large {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value> {
        Some(Value::Counter(self.0[3]))
    }
}

/// A metric with metrics within, at all sorts of distances.
#[repr(C)]
pub struct Nest {
    byte: Byte,
    bytes: [Byte; 3],
    large: Large,
    inner: Counter,
    more: [Large; 2],
}
delegate!(Nest, inner);

#[repr(align(64))]
pub struct Aligned(Counter);
delegate!(Aligned, 0);

#[repr(align(4096))]
pub struct Page(Counter);
delegate!(Page, 0);

pub struct Byte(u8);
impl Metric for Byte {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value> {
        Some(Value::Gauge(self.0 as i64))
    }
}

/// Never enabled and never an Any.
pub struct Mute([u64; 3]);
impl Metric for Mute {
    fn as_any(&self) -> Option<&dyn Any> {
        None
    }
    fn value(&self) -> Option<Value> {
        None
    }
}

/// Pretends to be a counter when asked for its type.
pub struct Masked {
    pub real: Counter,
}
impl Metric for Masked {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(&self.real)
    }
    fn value(&self) -> Option<Value> {
        self.real.value_of()
    }
}
trait ValueOf {
    fn value_of(&self) -> Option<Value<'_>>;
}
impl ValueOf for Counter {
    fn value_of(&self) -> Option<Value<'_>> {
        Metric::value(self)
    }
}

/// A view onto an object shared by all of its instances.
pub struct View(u8);
static SHARED: Counter = Counter::new();
impl Metric for View {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(&SHARED)
    }
    fn value(&self) -> Option<Value> {
        let _ = self.0;
        Some(Value::Other(&SHARED))
    }
    fn provide<'a>(&'a self, request: &mut metriken_core::Request<'a>) {
        request.provide_ref::<Counter>(&SHARED);
    }
}

/// Hands out another of its kind as the object it is.
pub struct Chained(pub Box<Counter>, pub u64);
impl Metric for Chained {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(&*self.0)
    }
    fn value(&self) -> Option<Value> {
        Some(Value::Counter(self.1))
    }
}

pub struct Zst;
impl Metric for Zst {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value> {
        None
    }
}

type Obj = Box<dyn Holder>;

/// Something that owns a metric, registered or not.
trait Holder {
    fn metric(&self) -> &dyn Metric;
    /// Other metrics inside it (never registered on their own).
    fn parts(&self) -> Vec<&dyn Metric> {
        vec![]
    }
    fn kind(&self) -> String;
    fn registered(&self) -> bool;
}

trait Parts: Metric {
    fn parts(&self) -> Vec<&dyn Metric> {
        vec![]
    }
    fn zst(&self) -> bool {
        false
    }
}
impl Parts for Counter {}
impl Parts for Gauge {}
impl Parts for AtomicHistogram {}
impl Parts for RwLockHistogram {}
impl Parts for LazyCounter {
    fn parts(&self) -> Vec<&dyn Metric> {
        // Only looks, does not initialise.
        Lazy::get(self).into_iter().map(|c| c as &dyn Metric).collect()
    }
}
impl Parts for Lazy<Outer> {
    fn parts(&self) -> Vec<&dyn Metric> {
        Lazy::get(self).into_iter().flat_map(|c| [c as &dyn Metric, &c.inner]).collect()
    }
}
impl Parts for Outer {
    fn parts(&self) -> Vec<&dyn Metric> {
        vec![&self.inner]
    }
}
impl Parts for Large {}
impl Parts for Nest {
    fn parts(&self) -> Vec<&dyn Metric> {
        let mut v: Vec<&dyn Metric> = vec![&self.byte, &self.large, &self.inner];
        v.extend(self.bytes.iter().map(|b| b as &dyn Metric));
        v.extend(self.more.iter().map(|b| b as &dyn Metric));
        v
    }
}
impl Parts for Newtype {
    fn parts(&self) -> Vec<&dyn Metric> {
        vec![&self.0]
    }
}
impl Parts for Deep {
    fn parts(&self) -> Vec<&dyn Metric> {
        let _ = self.tail;
        vec![&self.outer, &self.outer.inner]
    }
}
impl Parts for Aligned {
    fn parts(&self) -> Vec<&dyn Metric> {
        vec![&self.0]
    }
}
impl Parts for Page {
    fn parts(&self) -> Vec<&dyn Metric> {
        vec![&self.0]
    }
}
impl Parts for Byte {}
impl Parts for View {
    fn parts(&self) -> Vec<&dyn Metric> {
        vec![&SHARED]
    }
}
impl Parts for Lazy<View> {
    fn parts(&self) -> Vec<&dyn Metric> {
        Lazy::get(self).into_iter().flat_map(|c| [c as &dyn Metric, &SHARED]).collect()
    }
}
impl Parts for Chained {
    fn parts(&self) -> Vec<&dyn Metric> {
        vec![&*self.0]
    }
}
impl Parts for Mute {}
impl Parts for Masked {
    fn parts(&self) -> Vec<&dyn Metric> {
        vec![&self.real]
    }
}
impl Parts for Zst {
    fn zst(&self) -> bool {
        true
    }
}

impl<M: Parts> Holder for DynBoxedMetric<M> {
    fn metric(&self) -> &dyn Metric {
        &**self
    }
    fn parts(&self) -> Vec<&dyn Metric> {
        (**self).parts()
    }
    fn kind(&self) -> String {
        format!("boxed {}", std::any::type_name::<M>())
    }
    fn registered(&self) -> bool {
        true
    }
}
impl<M: Parts> Holder for Pin<Box<DynPinnedMetric<M>>> {
    fn metric(&self) -> &dyn Metric {
        &***self
    }
    fn parts(&self) -> Vec<&dyn Metric> {
        (***self).parts()
    }
    fn kind(&self) -> String {
        format!("pinned {}", std::any::type_name::<M>())
    }
    fn registered(&self) -> bool {
        true
    }
}
struct Plain<M>(Box<M>);
impl<M: Parts> Holder for Plain<M> {
    fn metric(&self) -> &dyn Metric {
        &*self.0
    }
    fn parts(&self) -> Vec<&dyn Metric> {
        self.0.parts()
    }
    fn kind(&self) -> String {
        format!("plain {}", std::any::type_name::<M>())
    }
    fn registered(&self) -> bool {
        false
    }
}
/// Built but never registered.
struct Unregistered<M: Metric>(Pin<Box<DynPinnedMetric<M>>>);
impl<M: Parts> Holder for Unregistered<M> {
    fn metric(&self) -> &dyn Metric {
        &**self.0
    }
    fn parts(&self) -> Vec<&dyn Metric> {
        (**self.0).parts()
    }
    fn kind(&self) -> String {
        format!("unregistered {}", std::any::type_name::<M>())
    }
    fn registered(&self) -> bool {
        false
    }
}

fn hold<M: Parts>(m: M, how: usize) -> Obj {
    let zst = m.zst();
    let name = if zst { "zst" } else { "same" };
    match how % 4 {
        0 => Box::new(MetricBuilder::new(name).build(m)),
        1 => {
            let (p, e) = MetricBuilder::new(name).metadata("a", "b").build_pinned(m);
            let p = Box::pin(p);
            p.as_ref().register(e);
            Box::new(p)
        }
        // Only instances of non-zero size are promised to be told apart.
        _ if zst => Box::new(MetricBuilder::new(name).build(m)),
        2 => Box::new(Plain(Box::new(m))),
        _ => {
            let (p, _entry) = MetricBuilder::new("same").build_pinned(m);
            Box::new(Unregistered(Box::pin(p)))
        }
    }
}

fn c() -> Counter {
    Counter::new()
}

fn make(kind: usize, how: usize) -> Obj {
    match kind {
        0 => hold(c(), how),
        1 => hold(Gauge::new(), how),
        2 => hold(AtomicHistogram::new(2, 8), how),
        3 => hold(RwLockHistogram::new(2, 8), how),
        4 => hold(LazyCounter::new(Counter::new), how),
        5 => {
            let l = LazyCounter::new(Counter::new);
            l.increment();
            hold(l, how)
        }
        6 => hold(Outer { inner: c(), more: 0 }, how),
        7 => hold(Newtype(c()), how),
        8 => hold(Deep { outer: Outer { inner: c(), more: 0 }, tail: 0 }, how),
        9 => hold(Aligned(c()), how),
        10 => hold(Page(c()), how),
        11 => hold(Byte(7), how),
        12 => hold(Mute([0; 3]), how),
        13 => hold(Masked { real: c() }, how),
        14 => hold(Zst, how),
        15 => hold(View(1), how),
        16 => {
            let l = Lazy::new((|| View(2)) as fn() -> View);
            if how % 8 > 3 {
                let _ = l.0;
            }
            hold(l, how)
        }
        17 => hold(Chained(Box::new(c()), 9), how),
        18 => hold(Large([7; 9]), how),
        19 => hold(
            Nest {
                byte: Byte(1),
                bytes: [Byte(2), Byte(3), Byte(4)],
                large: Large([1; 9]),
                inner: c(),
                more: [Large([2; 9]), Large([3; 9])],
            },
            how,
        ),
        _ => {
            let l = Lazy::new((|| Outer { inner: c(), more: 0 }) as fn() -> Outer);
            if how % 8 > 3 {
                let _ = l.more;
            }
            hold(l, how)
        }
    }
}
const KINDS: usize = 21;

fn judge(objs: &[Obj]) {
    let all = metriken::metrics();
    let entries = crate::everything(&all);
    for o in objs {
        let mine: Vec<&&MetricEntry> = entries.iter().filter(|e| e.is(o.metric())).collect();
        let want = o.registered() as usize;
        // Zero-sized metrics may be confused with each other, not with others.
        let zst = o.kind().ends_with("Zst");
        check!(
            mine.len() == want || zst && !mine.is_empty() && mine.iter().all(|e| e.name() == "zst"),
            "{} of {} entries claim a {} metric (value {}), expected {want}",
            mine.len(),
            entries.len(),
            o.kind(),
            o.metric().is_enabled()
        );
        for p in o.parts() {
            let n = entries.iter().filter(|e| e.is(p)).count();
            check!(n == 0, "{n} entries claim a metric inside a {} metric", o.kind());
        }
        for e in &mine {
            // By the entry's own handle, too.
            check!(e.is(e.metric()), "the entry of a {} metric is not its own metric", o.kind());
            let n = entries.iter().filter(|x| x.is(e.metric())).count();
            check!(n == 1 || zst, "{n} entries claim the metric of the entry of a {} metric", o.kind());
        }
        stat("pairs", entries.len() as u64);
    }
    // Distinct entries never claim each other's metric. Static zero-sized
    // metrics may share addresses, but there are none here.
    for (i, a) in entries.iter().enumerate() {
        for (j, b) in entries.iter().enumerate() {
            if i != j && a.name() == "zst" && b.name() == "zst" {
                continue;
            }
            check!(a.is(b.metric()) == (i == j), "entry {:?} is({:?}) with i == j {}", a.name(), b.name(), i == j);
        }
    }
}

pub fn run(ctx: &Ctx) {
    // Every kind alone and every ordered pair of kinds and holders.
    let all = (KINDS * KINDS) as u64;
    ctx.cases("pairs", ctx.n(6, all, all), 30, |rng, case| {
        let case = if mon::MIRI { rng.below(KINDS * KINDS) } else { case as usize };
        let (a, b) = (case / KINDS, case % KINDS);
        for how in if mon::MIRI { 5..7 } else { 0..16 } {
            let objs = vec![make(a, how / 4), make(b, how % 4)];
            distinct(&("pair", a, b, how));
            judge(&objs);
        }
    });
    let n = ctx.many(4, 3000, 40_000);
    ctx.cases("populations", n, 40, |rng, _| {
        let mut objs: Vec<Obj> = vec![];
        let mut log = vec![];
        for _ in 0..3 {
            for _ in 0..rng.below(if mon::MIRI { 5 } else { 12 }) {
                let (k, h) = (rng.below(KINDS), rng.below(8));
                log.push((k, h));
                objs.push(make(k, h));
            }
            judge(&objs);
            rng.shuffle(&mut objs);
            objs.truncate(rng.below(objs.len() + 1));
            judge(&objs);
        }
        distinct(&log);
        sample(|| format!("(kind, holder): {log:?}"));
    });
    // Lazy metrics across initialisation, owners moved around.
    ctx.cases("lazy", n / 2, 15, |rng, _| {
        let l = MetricBuilder::new("l").build(LazyCounter::new(Counter::new));
        let other = MetricBuilder::new("l").build(LazyCounter::new(Counter::new));
        let own = |m: &DynBoxedMetric<LazyCounter>| {
            let all = metriken::metrics();
            let n = all.dynamic_metrics().filter(|e| e.is(&**m)).count();
            check!(n == 1, "{n} entries claim a lazy metric");
        };
        own(&l);
        own(&other);
        if rng.chance(1, 2) {
            other.increment();
        }
        own(&l);
        l.increment();
        own(&l);
        own(&other);
        let moved = vec![Some(l)];
        own(moved[0].as_ref().unwrap());
        let all = metriken::metrics();
        let inner: &Counter = moved[0].as_ref().unwrap();
        let n = all.dynamic_metrics().filter(|e| e.is(inner)).count();
        check!(n == 0, "{n} entries claim the counter inside a lazy metric");
    });
    if mon::MIRI {
        return;
    }
    let statics = crate::STATIC_REFS.lock().unwrap().clone();
    ctx.cases("static", 20, 15, |rng, _| {
        let extra: Vec<Obj> = (0..rng.below(6)).map(|_| make(rng.below(KINDS), rng.below(8))).collect();
        let all = metriken::metrics();
        for (name, m) in &statics {
            let mine: Vec<&MetricEntry> = all.into_iter().filter(|e| e.is(*m)).collect();
            check!(
                mine.len() == 1 && mine[0].name() == *name,
                "entries claiming static {name}: {:?}",
                mine.iter().map(|e| e.name()).collect::<Vec<_>>()
            );
            stat("static_own", 1);
        }
        drop(all);
        judge(&extra);
        for (name, touch) in crate::LAZY_STATICS.lock().unwrap().iter() {
            if rng.chance(1, 3) {
                touch(1);
                distinct(&("touched", name));
            }
        }
    });
}
