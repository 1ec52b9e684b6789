//! C06: the dynamic listing against the set of live registered metrics.

use metriken::{
    AtomicHistogram, Counter, DynBoxedMetric, DynPinnedMetric, Gauge, Lazy, Metric, MetricBuilder,
    MetricEntry, Value,
};
use mon::arena::{Bell, Clock};
use mon::*;
use std::any::Any;
use std::collections::HashMap;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

// ------------------------------------------------------- metrics of all sorts

/// Zero-sized.
pub struct Empty;
impl Metric for Empty {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(0))
    }
}

/// Large and over-aligned.
#[repr(align(256))]
pub struct Big {
    v: AtomicU64,
    _pad: [u64; 90],
}
impl Metric for Big {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Gauge(self.v.load(Ordering::SeqCst) as i64))
    }
}

/// Small and under-aligned.
pub struct Tiny(std::sync::atomic::AtomicU8);
impl Metric for Tiny {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.0.load(Ordering::SeqCst) as u64))
    }
}

/// Never enabled, reports nothing.
pub struct Silent(#[allow(dead_code)] u32);
impl Metric for Silent {
    fn as_any(&self) -> Option<&dyn Any> {
        None
    }
    fn value(&self) -> Option<Value<'_>> {
        None
    }
}

/// Type-erased owner of a metric.
pub trait Owner: Send {
    /// Set the metric's value, if it has one; returns what it then reports.
    fn poke(&self, v: u64) -> Option<u64>;
    fn listed_as(&self, e: &MetricEntry) -> bool;
    fn register(&self, entry: MetricEntry) -> bool;
}

pub fn reported(m: &dyn Metric) -> Option<u64> {
    match m.value() {
        Some(Value::Counter(v)) => Some(v),
        Some(Value::Gauge(v)) => Some(v as u64),
        Some(Value::Other(o)) => o
            .downcast_ref::<AtomicHistogram>()
            .and_then(|h| h.load())
            .map(|l| l.as_slice().iter().sum()),
        _ => None,
    }
}

pub trait Kind: Metric + Sized {
    fn make(v: u64) -> Self;
    fn assign(&self, v: u64);
    /// What the metric must report after `assign(v)` calls (last value, count).
    fn want(v: u64, count: u64) -> Option<u64>;
}

macro_rules! kinds {
    ($($t:ty: $make:expr, $set:expr, $want:expr;)*) => {$(
        impl Kind for $t {
            fn make(v: u64) -> Self { ($make)(v) }
            fn assign(&self, v: u64) { ($set)(self, v); }
            fn want(v: u64, count: u64) -> Option<u64> { ($want)(v, count) }
        }
    )*};
}
kinds! {
    Counter: Counter::with_value, |c: &Counter, v| c.set(v), |v, _| Some(v);
    Gauge: |v| Gauge::with_value(v as i64), |g: &Gauge, v| g.set(v as i64), |v, _| Some(v);
    Empty: |_| Empty, |_: &Empty, _| (), |_, _| Some(0);
    Big: |v| Big { v: AtomicU64::new(v), _pad: [v; 90] }, |b: &Big, v| b.v.store(v, Ordering::SeqCst), |v, _| Some(v);
    Tiny: |v| Tiny((v as u8).into()), |t: &Tiny, v| t.0.store(v as u8, Ordering::SeqCst), |v: u64, _| Some(v as u8 as u64);
    Silent: |_| Silent(7), |_: &Silent, _| (), |_, _| None;
    AtomicHistogram: |_| AtomicHistogram::new(1, 9), |h: &AtomicHistogram, v| { let _ = h.increment(v % 512); }, |_, n: u64| (n > 0).then_some(n);
    Lazy<Counter>: |_| Lazy::new(Counter::default as fn() -> Counter), |c: &Lazy<Counter>, v| { c.set(v); }, |v, n: u64| (n > 0).then_some(v);
}

struct Boxed<K: Kind>(DynBoxedMetric<K>);
struct Pinned<K: Kind>(Pin<Box<DynPinnedMetric<K>>>);

/// The entry's metric object is, or contains, this metric.
fn same<K: Kind>(k: &K, e: &MetricEntry) -> bool {
    let m = e.metric();
    let start = m as *const dyn Metric as *const u8 as usize;
    let k = k as *const K as usize;
    k == start || (start..start + std::mem::size_of_val(m)).contains(&k)
}

impl<K: Kind> Owner for Boxed<K> {
    fn poke(&self, v: u64) -> Option<u64> {
        Kind::assign(&*self.0, v);
        reported(&*self.0)
    }
    fn listed_as(&self, e: &MetricEntry) -> bool {
        same(&*self.0, e)
    }
    fn register(&self, _: MetricEntry) -> bool {
        false
    }
}
impl<K: Kind> Owner for Pinned<K> {
    fn poke(&self, v: u64) -> Option<u64> {
        Kind::assign(&**self.0, v);
        reported(&**self.0)
    }
    fn listed_as(&self, e: &MetricEntry) -> bool {
        same(&**self.0, e)
    }
    fn register(&self, entry: MetricEntry) -> bool {
        self.0.as_ref().register(entry);
        true
    }
}

pub const KINDS: usize = 8;

pub fn wanted(kind: usize, v: u64, count: u64) -> Option<u64> {
    match kind {
        0 => Counter::want(v, count),
        1 => Gauge::want(v, count),
        2 => Empty::want(v, count),
        3 => Big::want(v, count),
        4 => Tiny::want(v, count),
        5 => Silent::want(v, count),
        6 => AtomicHistogram::want(v, count),
        _ => Lazy::<Counter>::want(v, count),
    }
}

fn make<K: Kind>(b: MetricBuilder, v: u64, boxed: bool) -> (Box<dyn Owner>, Option<MetricEntry>) {
    if boxed {
        (Box::new(Boxed(b.build(K::make(v)))), None)
    } else {
        let (m, e) = b.build_pinned(K::make(v));
        (Box::new(Pinned(Box::pin(m))), Some(e))
    }
}

/// Build a metric of some kind. A pinned one comes unregistered, with its entry.
pub fn owner(kind: usize, b: MetricBuilder, v: u64, boxed: bool) -> (Box<dyn Owner>, Option<MetricEntry>) {
    match kind {
        0 => make::<Counter>(b, v, boxed),
        1 => make::<Gauge>(b, v, boxed),
        2 => make::<Empty>(b, v, boxed),
        3 => make::<Big>(b, v, boxed),
        4 => make::<Tiny>(b, v, boxed),
        5 => make::<Silent>(b, v, boxed),
        6 => make::<AtomicHistogram>(b, v, boxed),
        _ => make::<Lazy<Counter>>(b, v, boxed),
    }
}

pub fn run(ctx: &Ctx) {
    sequential(ctx);
    neighbours(ctx);
    crowd(ctx);
    exits(ctx);
    concurrent(ctx);
    contend(ctx);
    patience(ctx);
}

struct Item {
    owner: Box<dyn Owner>,
    kind: usize,
    boxed: bool,
    /// Name and description of the latest registration; None: not registered.
    entry: Option<(String, Option<String>)>,
    spare: Option<MetricEntry>,
    spare_is: (String, Option<String>),
    last: u64,
    count: u64,
}

fn compare(items: &[Item], trace: &dyn Fn() -> String) {
    let all = metriken::metrics();
    let statics = crate::statics(&all).as_ptr_range();
    let listed: Vec<&MetricEntry> = all.dynamic_metrics().collect();
    let via_iter: Vec<&MetricEntry> =
        crate::everything(&all).into_iter().filter(|e| !statics.contains(&(*e as *const _))).collect();
    let live = items.iter().filter(|i| i.entry.is_some()).count();
    check_eq!(listed.len(), live, "{}: entries listed", trace());
    check_eq!(via_iter.len(), live, "{}: dynamic entries in the full listing", trace());
    let mut used = vec![false; listed.len()];
    for (k, it) in items.iter().enumerate() {
        let mine: Vec<usize> = (0..listed.len()).filter(|&i| it.owner.listed_as(listed[i])).collect();
        let Some((name, desc)) = &it.entry else {
            check!(mine.is_empty(), "{}: unregistered metric {k} is listed", trace());
            continue;
        };
        check_eq!(mine.len(), 1, "{}: times metric {k} ({name:?}, kind {}) is listed", trace(), it.kind);
        let e = listed[mine[0]];
        check!(!std::mem::replace(&mut used[mine[0]], true), "{}: two metrics share an entry", trace());
        check_eq!(e.name(), name, "{}: listed name of metric {k}", trace());
        check_eq!(e.description(), desc.as_deref(), "{}: listed description of metric {k}", trace());
        check_eq!(
            reported(e.metric()),
            wanted(it.kind, it.last, it.count),
            "{}: value listed for metric {k} ({name:?}, kind {})",
            trace(),
            it.kind
        );
    }
    stat("listings", 1);
    stat("entries_checked", listed.len() as u64);
}

fn sequential(ctx: &Ctx) {
    ctx.cases("sequential", ctx.many(3, 1500, 20_000), 35, |r, _| {
        let mut items: Vec<Item> = Vec::new();
        let mut trace: Vec<String> = Vec::new();
        let names = ["a", "b", "dup", ""];
        let steps = if MIRI { 8 } else { r.range(5, 50) };
        for _ in 0..steps {
            let new = |r: &mut Rng| {
                let n = if r.chance(2, 3) { r.pick(&names).to_string() } else { r.string() };
                (n, r.chance(1, 2).then(|| r.string()))
            };
            let builder = |(n, d): &(String, Option<String>)| {
                let b = MetricBuilder::new(n.clone());
                match d {
                    Some(d) => b.description(d.clone()),
                    None => b,
                }
            };
            match r.below(10) {
                0..=2 => {
                    let (kind, boxed, v) = (r.below(KINDS), r.chance(1, 2), r.below(1000) as u64);
                    let is = new(r);
                    trace.push(format!("build {is:?} kind {kind} boxed {boxed}"));
                    let (owner, spare) = owner(kind, builder(&is), v, boxed);
                    items.push(Item {
                        owner,
                        kind,
                        boxed,
                        entry: boxed.then(|| is.clone()),
                        spare,
                        spare_is: is,
                        last: v,
                        count: 0,
                    });
                }
                3 | 4 if !items.is_empty() => {
                    // Register a pinned one, under its own or another entry.
                    let k = r.below(items.len());
                    if items[k].boxed {
                        continue;
                    }
                    let (e, is) = match items[k].spare.take() {
                        Some(e) if r.chance(2, 3) => (e, items[k].spare_is.clone()),
                        _ => {
                            let is = new(r);
                            let e = if r.chance(1, 2) {
                                builder(&is).into_entry()
                            } else {
                                builder(&is).build_pinned(Counter::new()).1
                            };
                            (e, is)
                        }
                    };
                    trace.push(format!("register {k} as {is:?}"));
                    check!(items[k].owner.register(e), "harness: not pinned");
                    items[k].entry = Some(is);
                }
                5 | 6 if !items.is_empty() => {
                    let k = r.below(items.len());
                    trace.push(format!("drop {k}"));
                    let it = items.swap_remove(k); // moves the last one
                    if r.chance(1, 4) && !MIRI {
                        if std::thread::spawn(move || drop(it)).join().is_err() {
                            violation("dropping on another thread panicked")
                        }
                    } else {
                        drop(it);
                    }
                }
                7 if items.len() > 1 => {
                    let (a, b) = (r.below(items.len()), r.below(items.len()));
                    trace.push(format!("swap {a} {b}"));
                    items.swap(a, b);
                }
                8 => {
                    // Build and drop at once, without ever registering.
                    let kind = r.below(KINDS);
                    trace.push(format!("discard kind {kind}"));
                    drop(owner(kind, MetricBuilder::new("dup"), 1, false));
                }
                _ if !items.is_empty() => {
                    let k = r.below(items.len());
                    let v = r.below(512) as u64;
                    trace.push(format!("set {k} to {v}"));
                    let it = &mut items[k];
                    it.last = v;
                    it.count += 1;
                    let got = it.owner.poke(v);
                    check_eq!(got, wanted(it.kind, v, it.count), "{trace:?}: value after set");
                }
                _ => continue,
            }
            compare(&items, &|| format!("{trace:?}"));
        }
        while let Some(it) = items.pop() {
            drop(it);
            compare(&items, &|| format!("{trace:?}, then dropping from the end"));
        }
        stat("operations", trace.len() as u64);
        distinct(&trace);
        sample(|| format!("{trace:?}"));
    });
}

/// A metric with another one, registered on its own, among its fields.
#[repr(C)] // the field in the middle does not share its address
struct Outer<K: Kind> {
    v: AtomicU64,
    inner: Option<DynPinnedMetric<K>>,
    last: Option<DynPinnedMetric<Counter>>,
}
impl<K: Kind> Metric for Outer<K> {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.v.load(Ordering::SeqCst)))
    }
}

fn listed_names() -> Vec<String> {
    let all = metriken::metrics();
    let mut got: Vec<String> = all
        .dynamic_metrics()
        .map(|e| {
            let _ = reported(e.metric());
            e.name().to_string()
        })
        .collect();
    got.sort();
    stat("listings", 1);
    stat("entries_checked", got.len() as u64);
    got
}

/// Pinned metrics that lie directly side by side, or one within another.
fn neighbours(ctx: &Ctx) {
    ctx.cases("neighbours", ctx.many(8, 400, 4000), 15, |r, case| match case % 9 {
        8 => far_apart(r),
        0 => side_by_side::<Counter>(r),
        1 => side_by_side::<Gauge>(r),
        2 => side_by_side::<Empty>(r),
        3 => side_by_side::<Big>(r),
        4 => side_by_side::<Tiny>(r),
        5 => side_by_side::<AtomicHistogram>(r),
        6 => within::<Empty>(r),
        _ => within::<Counter>(r),
    });
}

/// Memory at chosen addresses, given back on drop.
struct Pages(Vec<*mut u8>);

#[cfg(not(miri))]
impl Pages {
    const SIZE: usize = 4096;
    /// Pages at one and the same offset from each other, as far as the address
    /// space is free there.
    fn spaced(r: &mut Rng) -> Self {
        extern "C" {
            fn mmap(at: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        }
        const READ_WRITE: i32 = 3;
        const PRIVATE_ANONYMOUS_FIXED_NOREPLACE: i32 = 0x02 | 0x20 | 0x10_0000;
        let step = 1usize << r.range(12, 44);
        let base = (0x1000_0000_0000 + (r.below(1 << 20) << 12)) & !0xfff;
        let mut v = vec![];
        for i in 0..r.range(2, 5) {
            let at = (base + i * step) as *mut u8;
            if at as usize >= 0x7000_0000_0000 {
                break;
            }
            let p = unsafe { mmap(at, Self::SIZE, READ_WRITE, PRIVATE_ANONYMOUS_FIXED_NOREPLACE, -1, 0) };
            if p as isize == -1 {
                continue;
            }
            if p != at {
                Pages(vec![p]);
                continue;
            }
            v.push(p);
        }
        distinct(&("far_apart", step, v.len()));
        Pages(v)
    }
}
#[cfg(miri)]
impl Pages {
    fn spaced(_: &mut Rng) -> Self {
        Pages(vec![])
    }
}
impl Drop for Pages {
    fn drop(&mut self) {
        #[cfg(not(miri))]
        {
            extern "C" {
                fn munmap(at: *mut u8, len: usize) -> i32;
            }
            for p in &self.0 {
                unsafe { munmap(*p, Self::SIZE) };
            }
        }
    }
}

/// Pinned metrics whose addresses differ by a power of two.
fn far_apart(r: &mut Rng) {
    type M = DynPinnedMetric<Counter>;
    let pages = Pages::spaced(r);
    let skew = r.below(60) * 64;
    let mut want = Vec::new();
    let mut placed: Vec<(String, *mut M)> = Vec::new();
    for (i, p) in pages.0.iter().enumerate() {
        let (m, e) = MetricBuilder::new(format!("{i}")).build_pinned(Counter::with_value(i as u64));
        let at = unsafe { p.add(skew) }.cast::<M>();
        unsafe { at.write(m) };
        unsafe { Pin::new_unchecked(&*at) }.register(e);
        placed.push((i.to_string(), at));
        want.push(i.to_string());
        check_eq!(listed_names(), want, "names listed of {} metrics far apart", i + 1);
    }
    r.shuffle(&mut placed);
    while let Some((name, at)) = placed.pop() {
        unsafe { std::ptr::drop_in_place(at) };
        want.retain(|x| *x != name);
        check_eq!(listed_names(), want, "names listed after dropping {name} of metrics far apart");
        stat("operations", 2);
    }
}

fn side_by_side<K: Kind>(r: &mut Rng) {
    let n = r.range(2, 9);
    let mut entries = Vec::new();
    let block: Box<[Option<DynPinnedMetric<K>>]> = (0..n)
        .map(|i| {
            let (m, e) = MetricBuilder::new(format!("{i}")).build_pinned(K::make(i as u64));
            entries.push(Some(e));
            Some(m)
        })
        .collect();
    // From here on the metrics stay where they are until they are dropped.
    let base = Box::into_raw(block);
    let slot = |i: usize| unsafe { &mut *base.cast::<Option<DynPinnedMetric<K>>>().add(i) };
    let mut listed: Vec<String> = Vec::new();
    let mut trace = Vec::new();
    let mut alive: Vec<usize> = (0..n).collect();
    while !alive.is_empty() {
        let k = r.below(alive.len());
        let i = alive[k];
        if entries[i].is_some() && r.chance(3, 4) {
            trace.push(format!("register {i}"));
            let m = slot(i).as_ref().expect("alive");
            unsafe { Pin::new_unchecked(m) }.register(entries[i].take().expect("an entry"));
            listed.push(i.to_string());
            listed.sort();
        } else {
            trace.push(format!("drop {i}"));
            alive.remove(k);
            *slot(i) = None;
            listed.retain(|x| *x != i.to_string());
        }
        let got = listed_names();
        check_eq!(got, listed, "names listed after {trace:?} of {n} adjacent pinned metrics");
    }
    drop(unsafe { Box::from_raw(base) });
    stat("operations", trace.len() as u64);
    distinct(&(std::any::type_name::<K>(), trace));
}

fn within<K: Kind>(r: &mut Rng) {
    let (inner, ei) = MetricBuilder::new("inner").build_pinned(K::make(1));
    let (last, el) = MetricBuilder::new("last").build_pinned(Counter::with_value(2));
    let (outer, eo) = MetricBuilder::new("outer").build_pinned(Outer {
        v: AtomicU64::new(3),
        inner: Some(inner),
        last: Some(last),
    });
    let outer = Box::into_raw(Box::new(outer));
    let mut order = [0usize, 1, 2];
    r.shuffle(&mut order);
    let skip = r.below(5); // 3, 4: register all
    let (mut ei, mut el, mut eo) = (Some(ei), Some(el), Some(eo));
    let mut want: Vec<&str> = Vec::new();
    for &k in order.iter().filter(|&&k| k != skip) {
        let o: &DynPinnedMetric<Outer<K>> = unsafe { &*outer };
        match k {
            0 => {
                let m = o.inner.as_ref().expect("inner");
                unsafe { Pin::new_unchecked(m) }.register(ei.take().expect("entry"));
                want.push("inner");
            }
            1 => {
                let m = o.last.as_ref().expect("last");
                unsafe { Pin::new_unchecked(m) }.register(el.take().expect("entry"));
                want.push("last");
            }
            _ => {
                unsafe { Pin::new_unchecked(o) }.register(eo.take().expect("entry"));
                want.push("outer");
            }
        }
        want.sort();
        check_eq!(listed_names(), want, "names listed after registering in order {order:?}");
    }
    // Dropping the outer one drops the others with it.
    drop(unsafe { Box::from_raw(outer) });
    check!(listed_names().is_empty(), "metrics within a dropped metric are still listed");
    stat("operations", 4);
    distinct(&(std::any::type_name::<K>(), order, skip));
}

/// Large populations, dropped in any order.
fn crowd(ctx: &Ctx) {
    ctx.cases("crowd", ctx.many(1, 12, 60), 20, |r, case| {
        let n = if MIRI { 12 } else { [3usize, 30, 300, 1000, 4000, 70_000][case as usize % 6] };
        let mut live: Vec<(Life, u64)> = Vec::new();
        let mut next = 0;
        for _ in 0..3 {
            while live.len() < n {
                let b = MetricBuilder::new(format!("{next}.0"));
                let life = if r.chance(1, 2) {
                    Life::Boxed(b.build(Tagged(next)))
                } else {
                    let (m, e) = b.build_pinned(Tagged(next));
                    let m = Box::pin(m);
                    m.as_ref().register(e);
                    Life::Pinned(m)
                };
                live.push((life, next));
                next += 1;
            }
            match r.below(3) {
                0 => r.shuffle(&mut live),
                1 => live.reverse(),
                _ => {}
            }
            let keep = r.below(n + 1);
            live.truncate(keep);
            let all = metriken::metrics();
            let mut got: Vec<u64> = all
                .dynamic_metrics()
                .map(|e| {
                    let id = parse(e).0;
                    check_eq!(reported(e.metric()), Some(id), "value listed for metric {id} of {n}");
                    id
                })
                .collect();
            got.sort();
            let mut want: Vec<u64> = live.iter().map(|x| x.1).collect();
            want.sort();
            check!(got == want, "{} metrics are alive after keeping {keep} of {n}, but {} are listed", want.len(), got.len());
            stat("entries_checked", keep as u64);
            tick();
        }
        stat_max("largest_population", n as u64);
        distinct(&(n, next));
    });
}

/// Owned by a thread: dropped, or put in place, when that thread ends.
struct Farewell {
    held: Vec<Life>,
    /// Build this many when the thread ends, and hand them over.
    build: Vec<u64>,
    to: Option<std::sync::mpsc::Sender<Life>>,
}
impl Drop for Farewell {
    fn drop(&mut self) {
        self.held.clear();
        for &id in &self.build {
            let life = life(id, id % 2 == 0);
            if let Some(to) = &self.to {
                let _ = to.send(life);
            }
        }
    }
}
thread_local! {
    static FAREWELL: std::cell::RefCell<Farewell> =
        const { std::cell::RefCell::new(Farewell { held: Vec::new(), build: Vec::new(), to: None }) };
}

fn life(id: u64, boxed: bool) -> Life {
    let b = MetricBuilder::new(format!("{id}.0"));
    if boxed {
        return Life::Boxed(b.build(Tagged(id)));
    }
    let (m, e) = b.build_pinned(Tagged(id));
    let m = Box::pin(m);
    m.as_ref().register(e);
    Life::Pinned(m)
}

/// Metrics owned by threads that end.
fn exits(ctx: &Ctx) {
    ctx.cases("exits", ctx.many(2, 150, 6000), 15, |r, _| {
        let (mut next, mut live) = (1u64, vec![]);
        let mut plan = vec![];
        for _ in 0..r.range(1, 4) {
            let mut some = |r: &mut Rng| -> Vec<u64> {
                let n = r.below(5) as u64;
                next += n;
                (next - n..next).collect()
            };
            // Used before the thread's own variable exists, held in it, built as it goes.
            plan.push((some(r), some(r), some(r), r.chance(1, 2)));
        }
        let (to, from) = std::sync::mpsc::channel();
        let run = move |(before, held, build, first): (Vec<u64>, Vec<u64>, Vec<u64>, bool)| {
            let own = || FAREWELL.with_borrow_mut(|f| f.build = build);
            if first {
                own();
                before.iter().for_each(|&id| drop(life(id, id % 3 == 0)));
            } else {
                before.iter().for_each(|&id| drop(life(id, id % 3 == 0)));
                own();
            }
            FAREWELL.with_borrow_mut(|f| {
                f.to = Some(to.clone());
                f.held.extend(held.iter().map(|&id| life(id, id % 2 == 1)));
            });
            if held.len() % 2 == 0 {
                let _ = metriken::metrics().dynamic_metrics().count();
            }
        };
        let together = r.chance(1, 2);
        let mut threads = vec![];
        // A scope would not wait for the variables' destructors.
        for p in plan.clone() {
            let run = run.clone();
            let t = std::thread::Builder::new().spawn(move || run(p));
            let Ok(t) = t else { inconclusive("no thread") };
            if together {
                threads.push(t);
            } else if t.join().is_err() {
                violation("a thread that made metrics panicked");
            }
        }
        for t in threads {
            if t.join().is_err() {
                violation("a thread that made metrics panicked");
            }
        }
        drop(run);
        live.extend(from.iter());
        let mut want: Vec<u64> = plan.iter().flat_map(|p| p.2.clone()).collect();
        want.sort();
        let all = metriken::metrics();
        let mut got: Vec<u64> = all.dynamic_metrics().map(|e| parse(e).0).collect();
        got.sort();
        check_eq!(got, want, "metrics listed after threads ended that held {:?} and left behind others", plan);
        stat("metrics_of_ended_threads", next - 1);
        distinct(&(plan, together));
    });
}

// --------------------------------------------------------------- concurrent

/// A metric that knows its identity.
struct Tagged(u64);
impl Metric for Tagged {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.0))
    }
}

enum Life {
    Boxed(#[allow(dead_code)] DynBoxedMetric<Tagged>),
    Pinned(Pin<Box<DynPinnedMetric<Tagged>>>),
}

#[derive(Clone, Debug)]
struct Record {
    id: u64,
    /// Call and return stamps per registration; generation = index.
    regs: Vec<(u64, u64)>,
    drop: (u64, u64),
}

struct Listing {
    call: u64,
    opened: u64,
    entries: Vec<(u64, u64)>,
}

fn parse(e: &MetricEntry) -> (u64, u64) {
    let mut it = e.name().split('.');
    let mut num = || it.next().and_then(|s| s.parse::<u64>().ok());
    let (Some(id), Some(gen)) = (num(), num()) else {
        violation(format!("an entry is listed under {:?}, a name nothing was registered with", e.name()))
    };
    (id, gen)
}

/// Threads build, re-register, hand over and drop metrics while others list;
/// the recorded history is checked afterwards.
fn concurrent(ctx: &Ctx) {
    let (churners, listers) = if MIRI { (2, 1) } else { (4, 3) };
    let per = ctx.n(5, 2500, 3000);
    ctx.cases("concurrent", ctx.many(2, 10, 200), 40, |r, case| {
        let clock = Clock::default();
        let next_id = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let pool: Mutex<Vec<(Life, Record)>> = Mutex::new(Vec::new());
        let seeds: Vec<u64> = (0..churners).map(|_| r.next()).collect();
        let cap = r.range(1, 12);
        let mut records: Vec<Record> = Vec::new();
        let mut listings: Vec<Listing> = Vec::new();
        std::thread::scope(|sc| {
            let (clock, next_id, stop, pool) = (&clock, &next_id, &stop, &pool);
            let cs: Vec<_> = seeds
                .iter()
                .map(|&s| {
                    sc.spawn(move || {
                        let mut r = Rng::new(s);
                        let mut mine: Vec<(Life, Record)> = Vec::new();
                        let mut done: Vec<Record> = Vec::new();
                        let retire = |l: Life, mut rec: Record, done: &mut Vec<Record>| {
                            let c = clock.stamp();
                            drop(l);
                            rec.drop = (c, clock.stamp());
                            done.push(rec);
                        };
                        for k in 0..per {
                            if k % 16 == 0 {
                                tick();
                            }
                            match r.below(6) {
                                0 | 1 if mine.len() < cap => {
                                    let id = next_id.fetch_add(1, Ordering::Relaxed);
                                    let b = MetricBuilder::new(format!("{id}.0"))
                                        .description(format!("{id}"))
                                        .metadata("id", id.to_string());
                                    let call = clock.stamp();
                                    let life = if r.chance(1, 2) {
                                        Life::Boxed(b.build(Tagged(id)))
                                    } else {
                                        let (m, e) = b.build_pinned(Tagged(id));
                                        let m = Box::pin(m);
                                        m.as_ref().register(e);
                                        Life::Pinned(m)
                                    };
                                    let reg = (call, clock.stamp());
                                    mine.push((life, Record { id, regs: vec![reg], drop: (u64::MAX, u64::MAX) }));
                                }
                                2 if !mine.is_empty() => {
                                    let i = r.below(mine.len());
                                    let (life, rec) = &mut mine[i];
                                    if let Life::Pinned(m) = life {
                                        let e = MetricBuilder::new(format!("{}.{}", rec.id, rec.regs.len()))
                                            .description(format!("{}", rec.id))
                                            .into_entry();
                                        let call = clock.stamp();
                                        m.as_ref().register(e);
                                        rec.regs.push((call, clock.stamp()));
                                    }
                                }
                                3 if !mine.is_empty() => {
                                    // Hand over to another thread.
                                    let i = r.below(mine.len());
                                    let x = mine.swap_remove(i);
                                    let mut p = pool.lock().unwrap_or_else(|e| e.into_inner());
                                    p.push(x);
                                    if p.len() > 3 {
                                        let j = r.below(p.len());
                                        let x = p.swap_remove(j);
                                        drop(p);
                                        mine.push(x);
                                    }
                                }
                                _ if !mine.is_empty() => {
                                    let i = r.below(mine.len());
                                    let (l, rec) = mine.swap_remove(i);
                                    retire(l, rec, &mut done);
                                }
                                _ => {}
                            }
                        }
                        for (l, rec) in mine {
                            retire(l, rec, &mut done);
                        }
                        done
                    })
                })
                .collect();
            let ls: Vec<_> = (0..listers)
                .map(|t| {
                    sc.spawn(move || {
                        let mut out = Vec::new();
                        while (!stop.load(Ordering::SeqCst) || out.is_empty()) && out.len() < 40_000 {
                            let call = clock.stamp();
                            let all = metriken::metrics();
                            let opened = clock.stamp();
                            let look = |e: &MetricEntry| {
                                let (id, gen) = parse(e);
                                check!(
                                    matches!(e.value(), Some(Value::Counter(v)) if v == id),
                                    "the entry of metric {id} reports another metric's value"
                                );
                                check_eq!(e.description(), Some(&*id.to_string()), "description of metric {id}");
                                let meta = e.metadata().get("id");
                                check!(
                                    meta == Some(&*id.to_string()),
                                    "metadata of metric {id} is {meta:?}"
                                );
                                (id, gen)
                            };
                            let entries = if (out.len() + t) % 2 == 0 {
                                all.dynamic_metrics().map(look).collect()
                            } else {
                                let n = crate::statics(&all).len();
                                crate::everything(&all).into_iter().skip(n).map(look).collect()
                            };
                            drop(all);
                            out.push(Listing { call, opened, entries });
                            if out.len() % 16 == 0 {
                                tick();
                            }
                            std::thread::yield_now();
                        }
                        out
                    })
                })
                .collect();
            for c in cs {
                records.extend(c.join().unwrap_or_else(|_| inconclusive("churner ended")));
            }
            stop.store(true, Ordering::SeqCst);
            for l in ls {
                listings.extend(l.join().unwrap_or_else(|_| inconclusive("lister ended")));
            }
        });
        // What is left in the pool is still alive.
        let left: Vec<(Life, Record)> = std::mem::take(&mut *pool.lock().unwrap_or_else(|e| e.into_inner()));
        {
            let all = metriken::metrics();
            let mut got: Vec<u64> = all.dynamic_metrics().map(|e| parse(e).0).collect();
            let mut want: Vec<u64> = left.iter().map(|x| x.1.id).collect();
            got.sort();
            want.sort();
            check_eq!(got, want, "case {case}: metrics listed when all is quiet");
        }
        records.extend(left.iter().map(|x| x.1.clone()));
        drop(left);
        check_history(&records, &listings, case);
        stat("metrics_lived", records.len() as u64);
        stat("listings", listings.len() as u64);
        stat("entries_checked", listings.iter().map(|l| l.entries.len() as u64).sum());
        for l in &listings {
            let mut ids: Vec<u64> = l.entries.iter().map(|e| e.0).collect();
            ids.sort();
            distinct(&(case, ids));
        }
    });
}

fn check_history(records: &[Record], listings: &[Listing], case: u64) {
    let by_id: HashMap<u64, &Record> = records.iter().map(|r| (r.id, r)).collect();
    // Metrics sorted by when they were registered, to find those that must be
    // in a listing.
    let mut sorted: Vec<&Record> = records.iter().collect();
    sorted.sort_by_key(|r| r.regs[0].1);
    let mut listings: Vec<&Listing> = listings.iter().collect();
    listings.sort_by_key(|l| l.call);
    let mut active: Vec<&Record> = Vec::new();
    let mut upto = 0;
    let mut overlapping = 0u64;
    for l in listings {
        while upto < sorted.len() && sorted[upto].regs[0].1 < l.call {
            active.push(sorted[upto]);
            upto += 1;
        }
        active.retain(|r| r.drop.1 > l.call);
        let mut ids: HashMap<u64, u64> = HashMap::new();
        for &(id, gen) in &l.entries {
            check!(ids.insert(id, gen).is_none(), "case {case}: metric {id} is listed twice in one listing");
            let Some(r) = by_id.get(&id) else {
                violation(format!("case {case}: metric {id}, which never existed, is listed"))
            };
            check!(
                r.regs[0].0 < l.opened,
                "case {case}: metric {id} is in a listing opened before its registration began"
            );
            check!(
                r.drop.1 > l.call,
                "case {case}: metric {id} is in a listing opened (at {}) after its drop had finished (at {})",
                l.call, r.drop.1
            );
            let gen = gen as usize;
            check!(
                gen < r.regs.len() && r.regs[gen].0 < l.opened,
                "case {case}: metric {id} is listed under a name not yet registered"
            );
            if let Some(later) = r.regs.get(gen + 1) {
                check!(
                    later.1 > l.call,
                    "case {case}: metric {id} is listed under registration {gen} although a later one had finished before the listing was opened"
                );
            }
            if r.regs[0].1 > l.call || r.drop.0 < l.opened {
                overlapping += 1;
            }
        }
        for r in &active {
            if r.drop.0 > l.opened {
                check!(
                    ids.contains_key(&r.id),
                    "case {case}: metric {}, registered (by {}) before and dropped (from {}) after the listing [{}, {}], is missing from it",
                    r.id, r.regs[0].1, r.drop.0, l.call, l.opened
                );
            }
        }
    }
    stat("entries_racing_with_listing", overlapping);
}

/// Tight rounds: all threads build, list and drop at the same moment.
fn contend(ctx: &Ctx) {
    let t = if MIRI { 3 } else { 6 };
    ctx.cases("contend", ctx.many(1, 4, 60), 25, |r, case| {
        let bell = Bell::default();
        let gate = AtomicUsize::new(0);
        let seed = r.next();
        arena::rounds(
            t,
            ctx.n(3, 1500, 2500),
            |_| gate.store(0, Ordering::SeqCst),
            |_, me, round| {
                let mut r = Rng::new(seed ^ hash_of(&(me, round)));
                let n = r.range(1, 4);
                let mine: Vec<_> = (0..n)
                    .map(|i| MetricBuilder::new(format!("{}.0", me * 10 + i)).build(Tagged((me * 10 + i) as u64)))
                    .collect();
                {
                    let all = metriken::metrics();
                    let got: Vec<u64> = all.dynamic_metrics().map(|e| parse(e).0).collect();
                    for i in 0..n {
                        let k = (me * 10 + i) as u64;
                        check_eq!(got.iter().filter(|x| **x == k).count(), 1, "times an own live metric is listed");
                    }
                }
                // Everybody has registered: the union is known exactly.
                if gate.fetch_add(1, Ordering::SeqCst) + 1 == t {
                    bell.ring();
                }
                bell.wait(|| gate.load(Ordering::SeqCst) >= t);
                let full: Vec<u64> = {
                    let all = metriken::metrics();
                    let mut v: Vec<u64> = all.dynamic_metrics().map(|e| parse(e).0).collect();
                    v.sort();
                    v
                };
                if gate.fetch_add(1, Ordering::SeqCst) + 1 == 2 * t {
                    bell.ring();
                }
                bell.wait(|| gate.load(Ordering::SeqCst) >= 2 * t);
                drop(mine);
                let all = metriken::metrics();
                check!(
                    all.dynamic_metrics().all(|e| parse(e).0 / 10 != me as u64),
                    "an own dropped metric is still listed"
                );
                full
            },
            |_, lists, round| {
                for l in &lists[1..] {
                    check_eq!(l, &lists[0], "case {case} round {round}: listings of the same set differ between threads");
                }
                let all = metriken::metrics();
                check_eq!(all.dynamic_metrics().count(), 0, "case {case} round {round}: entries left after all were dropped");
                distinct(&lists[0]);
                true
            },
        );
    });
}

/// One listing held open for seconds while others want to register, drop and
/// list: once it is closed the listing is the live set again, however long
/// they waited.
fn patience(ctx: &Ctx) {
    if MIRI {
        return;
    }
    let rounds = ctx.n(0, 48, 160);
    ctx.cases("patience", 1, 5, |r, _| {
        let new = |id: u64, boxed: bool| {
            let b = MetricBuilder::new(format!("{id}.0"));
            if boxed {
                Life::Boxed(b.build(Tagged(id)))
            } else {
                let (m, e) = b.build_pinned(Tagged(id));
                let m = Box::pin(m);
                m.as_ref().register(e);
                Life::Pinned(m)
            }
        };
        let kinds: Vec<bool> = (0..12).map(|_| r.chance(1, 2)).collect();
        let mut old: Vec<Life> = (0..8).map(|i| new(i, kinds[i as usize])).collect();
        let stay = old.split_off(4);
        let fresh: Vec<Life> = std::thread::scope(|sc| {
            let all = metriken::metrics();
            let before: Vec<(u64, u64)> = all.dynamic_metrics().map(parse).collect();
            for l in old {
                sc.spawn(move || drop(l));
            }
            let makers: Vec<_> = (8..12u64).map(|i| (i, kinds[i as usize])).map(|(i, k)| sc.spawn(move || new(i, k))).collect();
            for k in 0..rounds {
                std::thread::sleep(std::time::Duration::from_millis(250));
                tick();
                if k % 8 == 7 {
                    let now: Vec<(u64, u64)> = all.dynamic_metrics().map(parse).collect();
                    check_eq!(now, before, "one listing, held open, iterated again");
                }
            }
            drop(all);
            makers.into_iter().map(|h| h.join().unwrap_or_else(|_| inconclusive("maker ended"))).collect()
        });
        let mut got: Vec<u64> = metriken::metrics().dynamic_metrics().map(|e| parse(e).0).collect();
        got.sort();
        check_eq!(got, (4..12).collect::<Vec<u64>>(), "metrics listed once a listing held for long was closed");
        drop((stay, fresh));
        check_eq!(metriken::metrics().dynamic_metrics().count(), 0, "entries left after everything was dropped");
        stat("seconds_held_open", rounds / 4);
        distinct(&"patience");
    });
}
