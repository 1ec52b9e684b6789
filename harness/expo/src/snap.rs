//! C14 and C15: what a snapshot contains, alone and in the middle of updates;
//! and the snapshotter's part of C21 and C22.

use metriken::{
    metric, AtomicHistogram, Counter, DynBoxedMetric, DynPinnedMetric, Format, Gauge, Lazy, LazyCounter, LazyGauge,
    Metric, MetricBuilder, MetricEntry, RwLockHistogram, Value,
};
use metriken_exposition::{Snapshot, Snapshotter, SnapshotterBuilder};
use mon::arena::{Bell, Clock};
use mon::*;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Deref;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::{Instant, SystemTime};

pub mod trail;

// ------------------------------------------------------------------- filter

type Predicate = Box<dyn Fn(&MetricEntry) -> bool>;
thread_local! {
    /// The snapshotter takes a plain function; this is what it consults.
    static PREDICATE: RefCell<Option<Predicate>> = const { RefCell::new(None) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

fn filter(e: &MetricEntry) -> bool {
    CALLS.with(|c| c.set(c.get() + 1));
    PREDICATE.with(|p| p.borrow().as_ref().map_or(true, |p| p(e)))
}

fn with_filter<R>(p: Predicate, f: impl FnOnce() -> R) -> R {
    PREDICATE.with(|s| *s.borrow_mut() = Some(p));
    let r = f();
    PREDICATE.with(|s| *s.borrow_mut() = None);
    r
}

// ------------------------------------------------------------------ records

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Reading {
    Counter(u64),
    Gauge(i64),
    /// Grouping power, maximum power, buckets.
    Histogram(u8, u8, Vec<u64>),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Record {
    name: String,
    reading: Reading,
    labels: BTreeMap<String, String>,
}

struct Taken {
    records: Vec<Record>,
    metadata: BTreeMap<String, String>,
    time: SystemTime,
}

fn reading_of(h: &histogram::Histogram) -> Reading {
    Reading::Histogram(h.config().grouping_power(), h.config().max_value_power(), h.as_slice().to_vec())
}

fn open(mut s: Snapshot) -> Taken {
    let time = s.systemtime();
    let metadata = s.metadata().into_iter().collect();
    let mut records = Vec::new();
    for c in s.counters() {
        records.push(Record { name: c.name, reading: Reading::Counter(c.value), labels: c.metadata.into_iter().collect() });
    }
    for c in s.gauges() {
        records.push(Record { name: c.name, reading: Reading::Gauge(c.value), labels: c.metadata.into_iter().collect() });
    }
    for c in s.histograms() {
        records.push(Record { name: c.name, reading: reading_of(&c.value), labels: c.metadata.into_iter().collect() });
    }
    records.sort();
    Taken { records, metadata, time }
}

// ------------------------------------------------------------------ metrics

/// A metric of the user's own making.
struct Custom {
    /// 1: keeps its type to itself; 2: and says that it is enabled all the same.
    opaque: u8,
    kind: AtomicU32,
    v: AtomicU64,
    h: AtomicHistogram,
    b: RwLockHistogram,
}

impl Metric for Custom {
    fn is_enabled(&self) -> bool {
        match self.opaque {
            2 => true,
            _ => self.as_any().is_some(),
        }
    }
    fn as_any(&self) -> Option<&dyn Any> {
        if self.opaque > 0 {
            return None;
        }
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(match self.kind.load(SeqCst) {
            0 => return None,
            1 => Value::Counter(self.v.load(SeqCst)),
            2 => Value::Gauge(self.v.load(SeqCst) as i64),
            3 => Value::Other(self),
            4 => Value::Other(&self.h),
            _ => Value::Other(&self.b),
        })
    }
}

enum Holder<T: Metric> {
    Boxed(DynBoxedMetric<T>),
    Pinned(Pin<Box<DynPinnedMetric<T>>>),
}

impl<T: Metric> Deref for Holder<T> {
    type Target = T;
    fn deref(&self) -> &T {
        match self {
            Holder::Boxed(b) => b,
            Holder::Pinned(p) => p,
        }
    }
}

/// A static or a dynamic metric under the test's control.
trait Subject: Sync {
    fn current(&self) -> Option<Reading>;
    fn disturb(&self, r: &mut Rng);
    /// Register again under another name and description, if that can be done.
    fn renew(&self, _: &Facts) -> bool {
        false
    }
}

fn load_atomic(h: &AtomicHistogram) -> Option<Reading> {
    h.load().map(|h| reading_of(&h))
}
fn load_bulk(h: &RwLockHistogram) -> Option<Reading> {
    h.load().map(|h| reading_of(&h))
}
fn bump_atomic(h: &AtomicHistogram, r: &mut Rng) {
    for _ in 0..r.range(1, 6) {
        let v = r.edgy();
        let _ = h.increment(v);
        let _ = h.increment(v % 64);
    }
}
fn bump_bulk(h: &RwLockHistogram, r: &mut Rng) {
    let n = h.config().total_buckets();
    let mut b: Vec<u64> = (0..n).map(|_| if r.chance(1, 4) { r.edgy() } else { 0 }).collect();
    match r.below(10) {
        0 | 1 => b.iter_mut().for_each(|x| *x = 0),
        // As many values as before, elsewhere.
        2..=4 => {
            if let Some(old) = h.load() {
                b = old.as_slice().to_vec();
                b.rotate_left(r.below(n));
            }
        }
        _ => {}
    }
    let _ = h.update_from(&b);
}

trait Kind: Metric + Send + 'static {
    fn now(&self) -> Option<Reading>;
    fn poke(&self, r: &mut Rng);
}
impl Kind for Counter {
    fn now(&self) -> Option<Reading> {
        Some(Reading::Counter(Counter::value(self)))
    }
    fn poke(&self, r: &mut Rng) {
        self.set(r.edgy());
    }
}
impl Kind for Gauge {
    fn now(&self) -> Option<Reading> {
        Some(Reading::Gauge(Gauge::value(self)))
    }
    fn poke(&self, r: &mut Rng) {
        self.set(r.edgy() as i64);
    }
}
impl Kind for AtomicHistogram {
    fn now(&self) -> Option<Reading> {
        load_atomic(self)
    }
    fn poke(&self, r: &mut Rng) {
        bump_atomic(self, r)
    }
}
impl Kind for RwLockHistogram {
    fn now(&self) -> Option<Reading> {
        load_bulk(self)
    }
    fn poke(&self, r: &mut Rng) {
        bump_bulk(self, r)
    }
}
impl<T: Kind> Kind for Lazy<T> {
    fn now(&self) -> Option<Reading> {
        Lazy::get(self).and_then(|m| m.now())
    }
    fn poke(&self, r: &mut Rng) {
        Lazy::force(self).poke(r)
    }
}
impl Kind for Custom {
    fn now(&self) -> Option<Reading> {
        match self.kind.load(SeqCst) {
            0 | 3 => None,
            1 => Some(Reading::Counter(self.v.load(SeqCst))),
            2 => Some(Reading::Gauge(self.v.load(SeqCst) as i64)),
            4 => load_atomic(&self.h),
            _ => load_bulk(&self.b),
        }
    }
    fn poke(&self, r: &mut Rng) {
        match r.below(4) {
            0 => self.kind.store(r.below(6) as u32, SeqCst),
            1 => self.v.store(r.edgy(), SeqCst),
            2 => bump_atomic(&self.h, r),
            _ => bump_bulk(&self.b, r),
        }
    }
}

impl<T: Kind> Subject for Holder<T> {
    fn current(&self) -> Option<Reading> {
        self.now()
    }
    fn disturb(&self, r: &mut Rng) {
        self.poke(r)
    }
    fn renew(&self, f: &Facts) -> bool {
        match self {
            Holder::Boxed(_) => false,
            Holder::Pinned(p) => {
                // Registering again takes an entry built for the same metric.
                p.as_ref().register(f.builder().build_pinned(Counter::new()).1);
                true
            }
        }
    }
}

struct Static<T: 'static>(&'static T);
impl<T: Kind> Subject for Static<T> {
    fn current(&self) -> Option<Reading> {
        self.0.now()
    }
    fn disturb(&self, r: &mut Rng) {
        self.0.poke(r)
    }
}

/// How a metric was described.
#[derive(Clone, Debug)]
struct Facts {
    name: String,
    custom: bool,
    description: Option<String>,
    labels: Vec<(String, String)>,
}

fn shape(e: &MetricEntry, f: Format) -> String {
    match f {
        Format::Simple => shaped(e.name()),
        _ => format!("wrong format for {}", e.name()),
    }
}

/// What the formatter makes of a name; at times nothing, or a great deal.
fn shaped(name: &str) -> String {
    match name.len() % 17 {
        3 => String::new(),
        5 => "long ".repeat(400),
        _ => format!("<{name}>"),
    }
}

impl Facts {
    fn random(r: &mut Rng) -> Self {
        let many = if r.chance(1, 150) { r.range(60, 400) } else { 0 };
        let labels = (0..r.below(6))
            .map(|_| {
                let k = match r.below(8) {
                    0 => "description".into(),
                    1 => "grouping_power".into(),
                    2 => "max_value_power".into(),
                    3 => "metric".into(),
                    4 => "id".into(),
                    _ => r.string(),
                };
                (k, r.string())
            })
            .collect::<Vec<_>>();
        let labels = (0..many).map(|i| (format!("m{i}"), format!("{}", r.below(100)))).chain(labels).collect();
        Facts {
            // Names are shared between metrics now and then.
            name: match r.below(4) {
                0 => format!("n{}", r.below(5)),
                1 => r.string(),
                _ => format!("{}{}", r.ident(), r.next() % 1000),
            },
            custom: r.chance(1, 4),
            description: r.chance(1, 2).then(|| r.string()),
            labels,
        }
    }
    fn builder(&self) -> MetricBuilder {
        let mut b = MetricBuilder::new(self.name.clone());
        for (k, v) in &self.labels {
            b = b.metadata(k.clone(), v.clone());
        }
        if let Some(d) = &self.description {
            b = b.description(d.clone());
        }
        if self.custom {
            b = b.formatter(shape);
        }
        b
    }
    fn record(&self, reading: Reading) -> Record {
        let mut labels: BTreeMap<String, String> = self.labels.iter().cloned().collect();
        if let Reading::Histogram(g, m, _) = &reading {
            labels.insert("grouping_power".into(), g.to_string());
            labels.insert("max_value_power".into(), m.to_string());
        }
        if let Some(d) = &self.description {
            labels.insert("description".into(), d.clone());
        }
        let name = if self.custom { shaped(&self.name) } else { self.name.clone() };
        Record { name, reading, labels }
    }
}

fn hold<T: Metric>(f: &Facts, m: T, pinned: bool) -> Holder<T> {
    if pinned {
        let (m, e) = f.builder().build_pinned(m);
        let m = Box::pin(m);
        m.as_ref().register(e);
        Holder::Pinned(m)
    } else {
        Holder::Boxed(f.builder().build(m))
    }
}

fn powers(r: &mut Rng) -> (u8, u8) {
    if r.chance(1, 300) {
        // More buckets than 16 bits count.
        return *r.pick(&[(16, 17), (12, 30), (13, 24)]);
    }
    let g = r.range(0, 6) as u8;
    (g, (g as usize + r.range(1, 20)).min(64) as u8)
}

fn lazy_hist<const K: u8>() -> AtomicHistogram {
    AtomicHistogram::new(K, 20)
}

fn born(r: &mut Rng, f: &Facts) -> Box<dyn Subject> {
    let p = r.chance(1, 2);
    let (g, m) = powers(r);
    let kind = r.below(9);
    let quiet = r.chance(1, 4);
    let s: Box<dyn Subject> = match kind {
        0 | 1 => Box::new(hold(f, Counter::new(), p)),
        2 => Box::new(hold(f, Gauge::new(), p)),
        3 => Box::new(hold(f, AtomicHistogram::new(g, m), p)),
        4 => Box::new(hold(f, RwLockHistogram::new(g, m), p)),
        5 => Box::new(hold(f, Lazy::<Counter>::default(), p)),
        6 => Box::new(hold(f, Lazy::<Gauge>::default(), p)),
        7 => Box::new(hold(f, Lazy::<AtomicHistogram>::new(lazy_hist::<3> as fn() -> AtomicHistogram), p)),
        _ => {
            let c = Custom {
                opaque: r.below(3) as u8,
                kind: AtomicU32::new(r.below(6) as u32),
                v: AtomicU64::new(r.edgy()),
                h: AtomicHistogram::new(g, m),
                b: RwLockHistogram::new(m.min(20) / 2, 20),
            };
            Box::new(hold(f, c, p))
        }
    };
    // Some stay as they are born: zero, unloaded, not initialised.
    if !quiet {
        s.disturb(r);
    }
    s
}

// ------------------------------------------------------------------ statics

#[metric(name = "s.counter", description = "a counter", metadata = { unit = "ops", description = "overridden" })]
static S_COUNTER: Counter = Counter::new();
#[metric]
static S_GAUGE: Gauge = Gauge::new();
#[metric(name = "s.histogram", metadata = { grouping_power = "99", k = "v" })]
static S_HISTOGRAM: AtomicHistogram = AtomicHistogram::new(4, 24);
#[metric(name = "s.bulk", description = "")]
static S_BULK: RwLockHistogram = RwLockHistogram::new(2, 12);
#[metric(name = "s.lazy", metadata = { id = "7" })]
static S_LAZY: LazyCounter = LazyCounter::new(Counter::default);
#[metric(name = "s.lazy.gauge", description = "lazy")]
static S_LAZY_GAUGE: LazyGauge = LazyGauge::new(Gauge::default);
#[metric(name = "s.formatted", formatter = shape, metadata = { x = "1" })]
static S_FORMATTED: Counter = Counter::new();

fn statics() -> Vec<(Facts, Box<dyn Subject>)> {
    fn f(name: &str, custom: bool, d: Option<&str>, labels: &[(&str, &str)]) -> Facts {
        Facts {
            name: name.into(),
            custom,
            description: d.map(Into::into),
            labels: labels.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
        }
    }
    vec![
        (
            f("s.counter", false, Some("a counter"), &[("unit", "ops"), ("description", "overridden")]),
            Box::new(Static(&S_COUNTER)),
        ),
        (f("S_GAUGE", false, None, &[]), Box::new(Static(&S_GAUGE))),
        (f("s.histogram", false, None, &[("grouping_power", "99"), ("k", "v")]), Box::new(Static(&S_HISTOGRAM))),
        (f("s.bulk", false, Some(""), &[]), Box::new(Static(&S_BULK))),
        (f("s.lazy", false, None, &[("id", "7")]), Box::new(Static(&S_LAZY))),
        (f("s.lazy.gauge", false, Some("lazy"), &[]), Box::new(Static(&S_LAZY_GAUGE))),
        (f("s.formatted", true, None, &[("x", "1")]), Box::new(Static(&S_FORMATTED))),
    ]
}

// ---------------------------------------------------------------------- C14

type Pop = Vec<(Facts, Box<dyn Subject>)>;

/// One of the ways to accept some metrics; the same rule for the snapshotter
/// and for the model.
#[derive(Clone, Copy, Debug, Hash)]
enum Rule {
    All,
    None,
    Named(u64),
    Described,
    Labelled,
}

impl Rule {
    fn random(r: &mut Rng) -> Self {
        match r.below(9) {
            0 => Rule::None,
            1 | 2 => Rule::Named(r.next()),
            3 => Rule::Described,
            4 => Rule::Labelled,
            _ => Rule::All,
        }
    }
    fn name(salt: u64, n: &str) -> bool {
        hash_of(&(salt, n)) & 1 == 0
    }
    fn entry(self, e: &MetricEntry) -> bool {
        match self {
            Rule::All => true,
            Rule::None => false,
            Rule::Named(s) => Self::name(s, e.name()),
            Rule::Described => e.description().is_some(),
            Rule::Labelled => !e.metadata().is_empty(),
        }
    }
    fn facts(self, f: &Facts) -> bool {
        match self {
            Rule::All => true,
            Rule::None => false,
            Rule::Named(s) => Self::name(s, &f.name),
            Rule::Described => f.description.is_some(),
            Rule::Labelled => !f.labels.is_empty(),
        }
    }
}

fn expected<'a>(pop: impl Iterator<Item = &'a (Facts, Box<dyn Subject>)>, rule: Rule) -> Vec<Record> {
    let mut v: Vec<Record> = pop
        .filter(|(f, _)| rule.facts(f))
        .filter_map(|(f, s)| s.current().map(|r| f.record(r)))
        .collect();
    v.sort();
    v
}

fn difference(got: &[Record], want: &[Record]) -> String {
    let short = |r: &Record| format!("{r:?}").chars().take(700).collect::<String>();
    let mut left: BTreeMap<&Record, i64> = BTreeMap::new();
    for r in got {
        *left.entry(r).or_default() += 1;
    }
    for r in want {
        *left.entry(r).or_default() -= 1;
    }
    let extra: Vec<String> = left.iter().filter(|(_, n)| **n > 0).take(2).map(|(r, n)| format!("{n} x {}", short(r))).collect();
    let missing: Vec<String> = left.iter().filter(|(_, n)| **n < 0).take(2).map(|(r, n)| format!("{} x {}", -n, short(r))).collect();
    format!("{} records for {} expected; unexpected: {extra:?}; missing: {missing:?}", got.len(), want.len())
}

/// Take a snapshot and compare it with the model, clock and all.
fn audit(s: &Snapshotter, own: &BTreeMap<String, String>, rule: Rule, want: &[Record], what: &str) {
    let (m0, t0) = (Instant::now(), SystemTime::now());
    let t = with_filter(Box::new(move |e| rule.entry(e)), || s.snapshot());
    let (t1, mono) = (SystemTime::now(), m0.elapsed());
    let t = open(t);
    if t.records != want {
        violation(format!("{what} ({rule:?}): {}", difference(&t.records, want)));
    }
    check_eq!(&t.metadata, own, "{what}: metadata of the snapshot");
    // Judge the time only if nobody set the clock meanwhile.
    let steady = t1.duration_since(t0).is_ok_and(|d| d.abs_diff(mono).as_millis() < 2);
    if steady {
        check!(t.time >= t0 && t.time <= t1, "{what}: time {:?} is not within the call {t0:?}..{t1:?}", t.time);
        stat("times_checked", 1);
    }
    stat("snapshots", 1);
    stat("records", want.len() as u64);
}

fn snapshotter(r: &mut Rng) -> (Snapshotter, BTreeMap<String, String>) {
    let mut b = SnapshotterBuilder::new();
    let mut own = BTreeMap::new();
    let early = r.chance(1, 2);
    if early {
        b = b.filter(filter);
    }
    for _ in 0..r.below(5) {
        let (k, v) = (if r.chance(1, 2) { r.ident() } else { r.string() }, r.string());
        b = b.metadata(k.clone(), v.clone());
        own.insert(k, v);
    }
    if !early {
        b = b.filter(|_| false).filter(filter);
    }
    (b.build(), own)
}

pub fn fidelity(ctx: &Ctx) {
    let fixed = statics();
    let mut r0 = ctx.rng("lasting", 0);
    // One snapshotter sees all of the populations of the run.
    let lasting = snapshotter(&mut r0);
    ctx.cases("population", ctx.many(0, 1500, 20_000), 70, |r, case| {
        let mut pop: Pop = Vec::new();
        let fresh = snapshotter(r);
        let size = match r.below(20) {
            0 => r.range(100, 400),
            1..=4 => r.range(10, 40),
            _ => r.range(0, 9),
        };
        let mut steps = Vec::new();
        for _ in 0..r.range(1, 4) {
            while pop.len() < size {
                let f = Facts::random(r);
                let s = born(r, &f);
                pop.push((f, s));
            }
            let (s, own) = if r.chance(1, 2) { &lasting } else { &fresh };
            let rule = Rule::random(r);
            let want = expected(fixed.iter().chain(&pop), rule);
            audit(s, own, rule, &want, &format!("case {case}, {} metrics, after {steps:?}", pop.len()));
            distinct(&(hash_of(&want), hash_of(&rule)));
            sample(|| format!("{} metrics, {rule:?}: {} records, e.g. {:?}", pop.len(), want.len(), want.first().map(|r| (&r.name, &r.labels))));
            for _ in 0..r.range(1, 6) {
                match r.below(8) {
                    0 => {
                        fixed[r.below(fixed.len())].1.disturb(r);
                        steps.push("static");
                    }
                    1 | 2 if !pop.is_empty() => {
                        let i = r.below(pop.len());
                        pop[i].1.disturb(r);
                        steps.push("update");
                    }
                    3 if !pop.is_empty() => {
                        let i = r.below(pop.len());
                        let f = Facts::random(r);
                        if pop[i].1.renew(&f) {
                            // Labels and formatter belong to the metric.
                            pop[i].0.name = f.name;
                            pop[i].0.description = f.description;
                            steps.push("register again");
                        }
                    }
                    4 => {
                        pop.clear();
                        steps.push("drop all");
                    }
                    // Most likely reuses the memory of the one dropped.
                    5 | 6 if !pop.is_empty() => {
                        let i = r.below(pop.len());
                        drop(pop.swap_remove(i));
                        let f = Facts::random(r);
                        let s = born(r, &f);
                        pop.push((f, s));
                        steps.push("replace");
                    }
                    _ if !pop.is_empty() => {
                        let i = r.below(pop.len());
                        drop(pop.swap_remove(i));
                        steps.push("drop");
                    }
                    _ => {}
                }
            }
        }
    });
    ctx.cases("large", ctx.many(0, 1, 4), 15, |r, case| {
        let pop: Pop = (0..r.range(9_000, 12_000))
            .map(|_| {
                let f = Facts::random(r);
                let s = born(r, &f);
                (f, s)
            })
            .collect();
        for rule in [Rule::All, Rule::Named(case), Rule::None] {
            let want = expected(fixed.iter().chain(&pop), rule);
            audit(&lasting.0, &lasting.1, rule, &want, "large population");
        }
        distinct(&("large", case));
    });
    // Without a filter everything is taken.
    ctx.cases("unfiltered", ctx.many(0, 100, 1000), 15, |r, _| {
        let pop: Pop = (0..r.below(12))
            .map(|_| {
                let f = Facts::random(r);
                let s = born(r, &f);
                (f, s)
            })
            .collect();
        let want = expected(fixed.iter().chain(&pop), Rule::All);
        let own = BTreeMap::from([("b".to_string(), "2".to_string()), ("".to_string(), "".to_string())]);
        let a = SnapshotterBuilder::new()
            .metadata("b".into(), "1".into())
            .metadata("".into(), "".into())
            .metadata("b".into(), "2".into())
            .build();
        audit(&a, &own, Rule::All, &want, "builder without filter");
        audit(&Snapshotter::default(), &BTreeMap::new(), Rule::All, &want, "default snapshotter");
    });
}

// ---------------------------------------------------------------------- C15

const ODD: u64 = 0x9E37_79B9_7F4A_7C15;

/// Inverse of ODD modulo 2^64.
fn odd_inverse() -> u64 {
    let mut x = ODD;
    for _ in 0..6 {
        x = x.wrapping_mul(2u64.wrapping_sub(ODD.wrapping_mul(x)));
    }
    x
}

/// Begun and ended updates of one register.
#[derive(Default)]
struct Tally {
    begun: AtomicU64,
    ended: AtomicU64,
    /// The most a snapshot that ended has shown.
    floor: AtomicU64,
}

impl Tally {
    fn lower(&self) -> u64 {
        self.ended.load(SeqCst).max(self.floor.load(SeqCst))
    }
    fn judge(&self, what: &str, got: u64, low: u64, high: u64) {
        check!(
            got >= low && got <= high,
            "{what}: the snapshot shows {got}, but {low} updates ended (or were shown) before it began and {high} had begun when it ended"
        );
        self.floor.fetch_max(got, SeqCst);
    }
}

/// The bucket a value belongs to, from the definition of the histogram.
fn bucket_of(g: u32, v: u64) -> usize {
    let cutoff = 1u64 << (g + 1);
    if v < cutoff {
        return v as usize;
    }
    let p = 63 - v.leading_zeros();
    (cutoff + ((p - g - 1) as u64) * (1 << g) + ((v - (1 << p)) >> (p - g))) as usize
}

const SPOTS: &[u64] = &[0, 1, 17, 300, 5_000, 60_000];

struct Pool {
    counters: Vec<(String, Holder<Counter>, Tally)>,
    lazies: Vec<(String, Holder<Lazy<Counter>>, Tally)>,
    gauges: Vec<(String, Holder<Gauge>, Tally)>,
    hists: Vec<(String, Holder<AtomicHistogram>, Vec<Tally>)>,
    bulks: Vec<(String, Holder<RwLockHistogram>, Tally)>,
}

/// The buckets of the k-th update of the i-th bulk histogram.
fn bulk(i: usize, k: u64, n: usize) -> Vec<u64> {
    match i {
        0 => vec![k; n],
        // Always the same number of values: pairs spell out the bits of k.
        1 => (0..n).map(|j| ((k >> (j / 2).min(63)) ^ j as u64) & 1).collect(),
        // Becoming less and less.
        _ => (0..n as u64).map(|j| (1 << 40) + j - k).collect(),
    }
}

fn bulk_number(i: usize, b: &[u64]) -> Option<u64> {
    let k = match i {
        0 => b[0],
        1 => b.iter().step_by(2).rev().fold(0, |k, bit| k << 1 | (bit & 1)),
        _ => (1u64 << 40).checked_sub(b[0])?,
    };
    (bulk(i, k, b.len()) == b).then_some(k)
}

const POOL_KIND: &str = "kind";

fn pool(r: &mut Rng, tag: u64) -> Pool {
    fn one<T: Metric>(r: &mut Rng, kind: &str, tag: u64, i: usize, m: T) -> (String, Holder<T>) {
        let name = format!("{kind}/{tag}/{i}");
        let f = Facts {
            name: name.clone(),
            custom: false,
            description: Some(name.clone()),
            labels: vec![(POOL_KIND.into(), kind.into()), ("own".into(), name.clone())],
        };
        (name, hold(&f, m, r.chance(1, 2)))
    }
    let mut p = Pool { counters: vec![], lazies: vec![], gauges: vec![], hists: vec![], bulks: vec![] };
    for i in 0..3 {
        let (n, h) = one(r, "counter", tag, i, Counter::new());
        p.counters.push((n, h, Tally::default()));
        let (n, h) = one(r, "lazy", tag, i, Lazy::<Counter>::default());
        p.lazies.push((n, h, Tally::default()));
        let (n, h) = one(r, "gauge", tag, i, Gauge::new());
        p.gauges.push((n, h, Tally::default()));
    }
    for i in 0..2 {
        let (n, h) = one(r, "hist", tag, i, AtomicHistogram::new(3, 16));
        p.hists.push((n, h, SPOTS.iter().map(|_| Tally::default()).collect()));
    }
    for i in 0..3 {
        let (n, h) = one(r, "bulk", tag, i, RwLockHistogram::new(2, 20));
        p.bulks.push((n, h, Tally::default()));
    }
    p
}

impl Pool {
    /// One update; `t` of `n` threads. Gauges and bulk histograms have a
    /// single writer each.
    fn update(&self, r: &mut Rng, t: usize, n: usize) {
        match r.below(8) {
            0..=2 => {
                let (_, m, y) = r.pick(&self.counters);
                let k = r.range(1, 3) as u64;
                y.begun.fetch_add(k, SeqCst);
                m.add(k);
                y.ended.fetch_add(k, SeqCst);
            }
            3 => {
                let (_, m, y) = r.pick(&self.lazies);
                y.begun.fetch_add(1, SeqCst);
                m.increment();
                y.ended.fetch_add(1, SeqCst);
            }
            4 => {
                let i = r.below(self.gauges.len());
                if i % n == t {
                    let (_, m, y) = &self.gauges[i];
                    let k = y.begun.fetch_add(1, SeqCst) + 1;
                    m.set(k.wrapping_mul(ODD) as i64);
                    y.ended.store(k, SeqCst);
                }
            }
            5 | 6 => {
                let (_, m, y) = r.pick(&self.hists);
                let s = r.below(SPOTS.len());
                y[s].begun.fetch_add(1, SeqCst);
                if m.increment(SPOTS[s]).is_err() {
                    violation(format!("value {} rejected", SPOTS[s]));
                }
                y[s].ended.fetch_add(1, SeqCst);
            }
            _ => {
                let i = r.below(self.bulks.len());
                if i % n == t {
                    let (_, m, y) = &self.bulks[i];
                    let k = y.begun.fetch_add(1, SeqCst) + 1;
                    let b = bulk(i, k, m.config().total_buckets());
                    if m.update_from(&b).is_err() {
                        violation("bulk update rejected");
                    }
                    y.ended.store(k, SeqCst);
                }
            }
        }
    }

    fn lows(&self) -> Vec<u64> {
        let mut v: Vec<u64> = Vec::new();
        v.extend(self.counters.iter().map(|x| x.2.lower()));
        v.extend(self.lazies.iter().map(|x| x.2.lower()));
        v.extend(self.gauges.iter().map(|x| x.2.lower()));
        v.extend(self.hists.iter().flat_map(|x| x.2.iter().map(|y| y.lower())));
        v.extend(self.bulks.iter().map(|x| x.2.lower()));
        v
    }

    /// Judge one snapshot that took place after `lows` was read.
    fn judge(&self, t: &Taken, lows: &[u64]) {
        let mut by_name: BTreeMap<&str, &Record> = BTreeMap::new();
        for rec in t.records.iter().filter(|r| r.labels.contains_key(POOL_KIND)) {
            let mut labels = rec.labels.clone();
            labels.remove("grouping_power");
            labels.remove("max_value_power");
            let kind = rec.name.split('/').next().unwrap_or("");
            let want = BTreeMap::from([
                (POOL_KIND.to_string(), kind.to_string()),
                ("own".to_string(), rec.name.clone()),
                ("description".to_string(), rec.name.clone()),
            ]);
            check_eq!(labels, want, "record contents of {}", rec.name);
            if by_name.insert(&rec.name, rec).is_some() {
                violation(format!("{} is in one snapshot twice", rec.name));
            }
        }
        let mut low = lows.iter().copied();
        let mut next = || low.next().unwrap_or(0);
        let missing = |n: &str| -> ! { violation(format!("{n} was registered throughout but is not in the snapshot")) };
        for (n, _, y) in &self.counters {
            let (lo, hi) = (next(), y.begun.load(SeqCst));
            match by_name.remove(&**n).map(|r| &r.reading) {
                Some(Reading::Counter(v)) => y.judge(n, *v, lo, hi),
                Some(x) => violation(format!("{n} recorded as {x:?}")),
                None => missing(n),
            }
        }
        for (n, _, y) in &self.lazies {
            let (lo, hi) = (next(), y.begun.load(SeqCst));
            match by_name.remove(&**n).map(|r| &r.reading) {
                Some(Reading::Counter(v)) if hi > 0 => y.judge(n, *v, lo, hi),
                None if lo == 0 => {}
                x => violation(format!("lazy {n} recorded as {x:?} with {lo} updates ended before and {hi} begun")),
            }
        }
        let inv = odd_inverse();
        for (n, _, y) in &self.gauges {
            let (lo, hi) = (next(), y.begun.load(SeqCst));
            match by_name.remove(&**n).map(|r| &r.reading) {
                Some(Reading::Gauge(v)) => y.judge(n, (*v as u64).wrapping_mul(inv), lo, hi),
                Some(x) => violation(format!("{n} recorded as {x:?}")),
                None => missing(n),
            }
        }
        for (n, _, ys) in &self.hists {
            let lo: Vec<u64> = ys.iter().map(|_| next()).collect();
            let hi: Vec<u64> = ys.iter().map(|y| y.begun.load(SeqCst)).collect();
            match by_name.remove(&**n).map(|r| &r.reading) {
                Some(Reading::Histogram(3, 16, b)) => {
                    check!(hi.iter().sum::<u64>() > 0, "{n} is in the snapshot but nothing was recorded yet");
                    let mut rest = b.clone();
                    for (s, y) in ys.iter().enumerate() {
                        let i = bucket_of(3, SPOTS[s]);
                        y.judge(&format!("{n} at {}", SPOTS[s]), b[i], lo[s], hi[s]);
                        rest[i] = 0;
                    }
                    check!(rest.iter().all(|c| *c == 0), "{n} counts values never recorded: {rest:?}");
                }
                Some(x) => violation(format!("{n} recorded as {x:?}")),
                None => check!(lo.iter().sum::<u64>() == 0, "{n} was loaded before the snapshot but is missing"),
            }
        }
        for (i, (n, _, y)) in self.bulks.iter().enumerate() {
            let (lo, hi) = (next(), y.begun.load(SeqCst));
            match by_name.remove(&**n).map(|r| &r.reading) {
                Some(Reading::Histogram(2, 20, b)) => {
                    check!(hi > 0, "{n} is in the snapshot but was never updated");
                    match bulk_number(i, b) {
                        Some(k) => y.judge(n, k, lo, hi),
                        // The first update is in flight.
                        None if lo == 0 && b.iter().all(|c| *c == 0) => stat("empty_before_first_update", 1),
                        None => violation(format!("{n} shows a mixture of updates: {b:?}")),
                    }
                }
                Some(x) => violation(format!("{n} recorded as {x:?}")),
                None => check!(lo == 0, "{n} was updated before the snapshot but is missing"),
            }
        }
        check!(by_name.is_empty(), "unknown records {:?}", by_name.keys().collect::<Vec<_>>());
        stat("readings_judged", lows.len() as u64);
    }
}

/// Now and then linger between two metrics.
fn dawdle(seed: u64) -> Predicate {
    let r = RefCell::new(Rng::new(seed));
    Box::new(move |_| {
        let mut r = r.borrow_mut();
        match r.below(24) {
            0 => std::thread::yield_now(),
            1 => (0..r.below(300)).for_each(|_| std::hint::spin_loop()),
            2 if r.chance(1, 8) => std::thread::sleep(std::time::Duration::from_micros(r.below(80) as u64)),
            _ => {}
        }
        true
    })
}

pub fn concurrent(ctx: &Ctx) {
    growing(ctx);
    churn(ctx);
    amid(ctx);
}

/// Metrics leave and arrive at chosen points within a snapshot: whoever does
/// that is already waiting when the snapshot goes on.
fn amid(ctx: &Ctx) {
    ctx.cases("amid", ctx.many(0, 120, 2000), 40, |r, case| {
        let refused = |id: u64| hash_of(&(id, 7u8)) % 5 == 0;
        let n = match r.below(8) {
            0 => r.range(0, 3),
            1..=4 => r.range(4, 40),
            5 => r.range(200, 600),
            6 => r.range(600, 1500),
            _ => r.range(40, 200),
        } as u64;
        let base = (case + (1 << 20)) << 32;
        let next = AtomicU64::new(base + n);
        let mut stay = Vec::new();
        let mut leave: Vec<Vec<(u64, Box<dyn Any + Send>)>> = (0..r.range(1, 4)).map(|_| Vec::new()).collect();
        let share = r.range(2, 10);
        for id in base..base + n {
            let m = make_churned(id, r.chance(1, 2));
            if r.chance(1, share) {
                let k = r.below(leave.len());
                leave[k].push((id, m));
            } else {
                stay.push((id, m));
            }
        }
        let leaving: BTreeSet<u64> = leave.iter().flatten().map(|x| x.0).collect();
        let mut points: Vec<u64> = leave.iter().map(|_| r.below(n as usize + 3) as u64).collect();
        points.sort();
        let arrive: Vec<usize> = leave.iter().map(|_| if r.chance(1, 2) { r.range(1, 40) } else { 0 }).collect();
        let arrivals_first = r.chance(1, 2);
        let mut snaps = Vec::new();
        std::thread::scope(|sc| {
            let (send, receive) = std::sync::mpsc::channel::<()>();
            let next = &next;
            let moving = sc.spawn(move || {
                let mut new: Vec<Box<dyn Any + Send>> = Vec::new();
                for (gone, n) in leave.into_iter().zip(arrive) {
                    if receive.recv().is_err() {
                        break;
                    }
                    let mut gone = Some(gone);
                    if !arrivals_first {
                        gone.take();
                    }
                    for _ in 0..n {
                        new.push(make_churned(next.fetch_add(1, SeqCst), n % 2 == 0));
                    }
                    drop(gone);
                    tick();
                }
                new
            });
            let s = SnapshotterBuilder::new().filter(filter).build();
            let calls = Cell::new(0u64);
            let p: Predicate = Box::new(move |e| {
                calls.set(calls.get() + 1);
                if points.iter().any(|p| *p + 1 == calls.get()) {
                    for _ in points.iter().filter(|p| **p + 1 == calls.get()) {
                        let _ = send.send(());
                    }
                    // Time to begin and wait for the lock.
                    std::thread::sleep(std::time::Duration::from_millis(3));
                }
                e.metadata().get("churn").and_then(|v| v.parse().ok()).map_or(true, |id| !refused(id))
            });
            with_filter(p, || {
                for _ in 0..2 {
                    snaps.push(open(s.snapshot()).records);
                    tick();
                }
            });
            drop(moving.join().unwrap_or_else(|_| inconclusive("helper ended")));
        });
        let end = next.load(SeqCst);
        let (mut there, mut either) = (0, 0);
        for records in &snaps {
            let mut ids = BTreeSet::new();
            for rec in records {
                let Some(id) = rec.labels.get("churn").and_then(|v| v.parse::<u64>().ok()) else { continue };
                check_eq!(rec, &churned(id).record(churned_reading(id)), "record of metric {id}");
                check!((base..end).contains(&id), "unknown metric {id}");
                check!(!refused(id), "metric {id}, which the filter refuses, is in the snapshot");
                check!(ids.insert(id), "metric {id} is in one snapshot twice");
            }
            for (id, _) in &stay {
                if !refused(*id) {
                    check!(ids.contains(id), "metric {id} is there throughout, but missing from a snapshot amid others leaving");
                    there += 1;
                }
            }
            either += ids.iter().filter(|i| leaving.contains(i) || **i >= base + n).count();
        }
        drop(stay);
        stat("metrics_throughout", there);
        stat("metrics_leaving_or_arriving_recorded", either as u64);
        distinct(&(n, leaving.len(), snaps.iter().map(|s| s.len()).collect::<Vec<_>>()));
        sample(|| format!("{n} metrics, {} leaving, snapshots of {:?}", leaving.len(), snaps.iter().map(|s| s.len()).collect::<Vec<_>>()));
    });
}

fn growing(ctx: &Ctx) {
    ctx.cases("growing", ctx.many(0, 60, 1200), 45, |r, case| {
        let p = pool(r, case);
        let (writers, takers) = (r.range(1, 4), r.range(1, 3));
        let own = BTreeMap::from([("case".to_string(), case.to_string())]);
        let s = SnapshotterBuilder::new().filter(filter).metadata("case".into(), case.to_string()).build();
        let seeds: Vec<u64> = (0..8).map(|_| r.next()).collect();
        let per = r.range(20, 120);
        let stop = AtomicBool::new(false);
        let spread: Vec<u64> = std::thread::scope(|sc| {
            let (p, s, stop, seeds, own) = (&p, &s, &stop, &seeds, &own);
            for t in 0..writers {
                sc.spawn(move || {
                    let mut r = Rng::new(seeds[t]);
                    // A slow start lets snapshots meet the very first updates.
                    for _ in 0..r.below(2000) {
                        std::hint::spin_loop();
                    }
                    while !stop.load(SeqCst) {
                        p.update(&mut r, t, writers);
                        if r.chance(1, 32) {
                            std::thread::yield_now();
                        }
                    }
                });
            }
            let hs: Vec<_> = (0..takers)
                .map(|t| {
                    sc.spawn(move || {
                        let mut moved = 0;
                        let mut last: Vec<u64> = Vec::new();
                        for k in 0..per {
                            let lows = p.lows();
                            let t = open(with_filter(dawdle(seeds[4 + t] ^ k as u64), || s.snapshot()));
                            p.judge(&t, &lows);
                            check_eq!(&t.metadata, own, "metadata of the snapshot");
                            moved += (last != lows) as u64;
                            last = lows;
                            tick();
                        }
                        moved
                    })
                })
                .collect();
            let v = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| inconclusive("taker ended"))).collect();
            stop.store(true, SeqCst);
            v
        });
        // And exactly right once all is quiet.
        let lows = p.lows();
        let t = open(with_filter(dawdle(seeds[7]), || s.snapshot()));
        p.judge(&t, &lows);
        stat("snapshots", (takers * per) as u64);
        stat("snapshots_amid_updates", spread.iter().sum());
        distinct(&(writers, takers, lows));
        sample(|| format!("{writers} writers, {takers} snapshot threads, {per} snapshots each, {spread:?} of them amid updates"));
    });
}

struct Life {
    id: u64,
    registering: u64,
    registered: u64,
    dropping: u64,
    dropped: u64,
}

/// The number of a churned metric, and the record it must have.
fn churned(id: u64) -> Facts {
    Facts {
        name: format!("churn-{id}"),
        custom: id % 5 == 0,
        description: (id % 3 == 0).then(|| format!("d{id}")),
        labels: (0..id % 4).map(|k| (format!("k{k}"), format!("{id}"))).chain([("churn".into(), id.to_string())]).collect(),
    }
}
fn churned_reading(id: u64) -> Reading {
    match id % 4 {
        0 | 1 => Reading::Counter(hash_of(&id)),
        2 => Reading::Gauge(hash_of(&id) as i64),
        _ => {
            let mut b = vec![0; histogram::Config::new(2, 8).map_or(0, |c| c.total_buckets())];
            b[(id % 7) as usize] = 1;
            Reading::Histogram(2, 8, b)
        }
    }
}
fn make_churned(id: u64, pinned: bool) -> Box<dyn Any + Send> {
    let f = churned(id);
    match id % 4 {
        0 | 1 => {
            let c = Counter::new();
            c.set(hash_of(&id));
            Box::new(hold(&f, c, pinned))
        }
        2 => {
            let c = Gauge::new();
            c.set(hash_of(&id) as i64);
            Box::new(hold(&f, c, pinned))
        }
        _ => {
            let h = AtomicHistogram::new(2, 8);
            let _ = h.increment(id % 7);
            Box::new(hold(&f, h, pinned))
        }
    }
}

fn churn(ctx: &Ctx) {
    ctx.cases("churn", ctx.many(0, 60, 1200), 55, |r, case| {
        let clock = Clock::default();
        let next = AtomicU64::new(case << 32);
        let (churners, takers) = (r.range(1, 4), r.range(1, 3));
        let seeds: Vec<u64> = (0..8).map(|_| r.next()).collect();
        // Now and then amid a great many metrics that stay.
        let residents = if case % 4 == 3 { r.range(100, 1500) } else { 0 };
        let per = if residents > 0 { r.range(5, 15) } else { r.range(20, 80) };
        let keep = r.range(1, 8);
        let stop = AtomicBool::new(false);
        let s = SnapshotterBuilder::new().filter(filter).build();
        let mut stay = Vec::new();
        let mut lives_before: Vec<Life> = Vec::new();
        for _ in 0..residents {
            let id = next.fetch_add(1, SeqCst);
            let registering = clock.stamp();
            stay.push(make_churned(id, r.chance(1, 2)));
            lives_before.push(Life { id, registering, registered: clock.stamp(), dropping: u64::MAX, dropped: u64::MAX });
        }
        let (lives, seen) = std::thread::scope(|sc| {
            let (clock, next, stop, s, seeds) = (&clock, &next, &stop, &s, &seeds);
            let cs: Vec<_> = (0..churners)
                .map(|t| {
                    sc.spawn(move || {
                        let mut r = Rng::new(seeds[t]);
                        let mut lives: Vec<Life> = Vec::new();
                        let mut held: Vec<(usize, Box<dyn Any + Send>)> = Vec::new();
                        let end = |l: &mut Life, h: Box<dyn Any + Send>| {
                            l.dropping = clock.stamp();
                            drop(h);
                            l.dropped = clock.stamp();
                        };
                        while !stop.load(SeqCst) && lives.len() < 40_000 {
                            if held.len() >= keep || (!held.is_empty() && r.chance(1, 3)) {
                                let (i, h) = held.swap_remove(r.below(held.len()));
                                end(&mut lives[i], h);
                            } else {
                                let id = next.fetch_add(1, SeqCst);
                                let registering = clock.stamp();
                                let h = make_churned(id, r.chance(1, 2));
                                let registered = clock.stamp();
                                held.push((lives.len(), h));
                                lives.push(Life { id, registering, registered, dropping: u64::MAX, dropped: u64::MAX });
                            }
                            if r.chance(1, 16) {
                                std::thread::yield_now();
                            }
                            tick();
                        }
                        for (i, h) in held {
                            end(&mut lives[i], h);
                        }
                        lives
                    })
                })
                .collect();
            let ts: Vec<_> = (0..takers)
                .map(|t| {
                    sc.spawn(move || {
                        let mut seen = Vec::new();
                        for k in 0..per {
                            let begun = clock.stamp();
                            let snap = with_filter(dawdle(seeds[4 + t] ^ k as u64), || s.snapshot());
                            let ended = clock.stamp();
                            let mut ids = BTreeSet::new();
                            for rec in open(snap).records {
                                let Some(id) = rec.labels.get("churn").and_then(|v| v.parse::<u64>().ok()) else {
                                    check!(
                                        rec.name.starts_with("s.") || rec.name.starts_with("S_") || rec.name.starts_with("<s."),
                                        "record of an unknown metric: {rec:?}"
                                    );
                                    continue;
                                };
                                let want = churned(id).record(churned_reading(id));
                                check_eq!(rec, want, "record of metric {id}");
                                check!(ids.insert(id), "metric {id} is in one snapshot twice");
                            }
                            seen.push((begun, ended, ids));
                            tick();
                        }
                        seen
                    })
                })
                .collect();
            let seen: Vec<_> = ts.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| inconclusive("taker ended"))).collect();
            stop.store(true, SeqCst);
            let lives: Vec<Life> = cs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| inconclusive("churner ended"))).collect();
            (lives, seen)
        });
        drop(stay);
        let lives: Vec<Life> = lives_before.into_iter().chain(lives).collect();
        let (mut must, mut may) = (0u64, 0u64);
        let known: BTreeSet<u64> = lives.iter().map(|l| l.id).collect();
        for (begun, ended, ids) in &seen {
            for l in &lives {
                let there = ids.contains(&l.id);
                if l.registered < *begun && l.dropping > *ended {
                    must += 1;
                    check!(there, "metric {} was registered before the snapshot and dropped after it, but is missing", l.id);
                } else if l.dropped < *begun || l.registering > *ended {
                    check!(!there, "metric {} is in a snapshot that did not overlap its life", l.id);
                } else {
                    may += 1;
                }
            }
            if let Some(x) = ids.iter().find(|i| !known.contains(i)) {
                violation(format!("unknown metric {x} in a snapshot"));
            }
        }
        stat("snapshots", seen.len() as u64);
        stat("lifetimes", lives.len() as u64);
        stat("metrics_that_stayed", residents as u64);
        stat("alive_throughout", must);
        stat("overlapping_begin_or_end", may);
        distinct(&(churners, takers, seen.iter().map(|s| s.2.iter().map(|i| i & 0xffff).collect::<Vec<_>>()).collect::<Vec<_>>()));
        sample(|| format!("{} lifetimes, {} snapshots: {must} alive throughout, {may} overlapping", lives.len(), seen.len()));
    });
}

// ---------------------------------------------------------------------- C21

pub fn progress(ctx: &Ctx) {
    crate::fault::progress(ctx);
    // The snapshot stops in the middle of the metrics until recording on other
    // threads is done, with a registration and a drop waiting behind it.
    ctx.cases("blocked", ctx.many(0, 60, 1000), 40, |r, case| {
        let p = pool(r, case);
        let waiters = r.below(4);
        let at = r.below(10) as u64;
        struct Gate {
            inside: AtomicUsize,
            done: AtomicBool,
            started: AtomicUsize,
            bell: Bell,
        }
        let gate = Gate { inside: AtomicUsize::new(0), done: AtomicBool::new(false), started: AtomicUsize::new(0), bell: Bell::default() };
        let gate = std::sync::Arc::new(gate);
        // Several snapshots are in progress at once unless one of them could
        // arrive after a registration is already waiting.
        let takers = r.range(1, 3);
        let victim = MetricBuilder::new("victim").build(Counter::new());
        std::thread::scope(|sc| {
            let p = &p;
            for _ in 0..takers {
                let g = gate.clone();
                sc.spawn(move || {
                    let s = SnapshotterBuilder::new().filter(filter).build();
                    let n = Cell::new(0);
                    with_filter(
                        Box::new(move |_| {
                            n.set(n.get() + 1);
                            if n.get() == at + 1 {
                                g.inside.fetch_add(1, SeqCst);
                                g.bell.ring();
                                g.bell.wait(|| g.done.load(SeqCst));
                            }
                            true
                        }),
                        || s.snapshot(),
                    );
                    tick();
                });
            }
            gate.bell.wait(|| gate.inside.load(SeqCst) == takers);
            let mut victim = Some(victim);
            for w in 0..waiters {
                let (g, v) = (gate.clone(), victim.take());
                sc.spawn(move || {
                    g.started.fetch_add(1, SeqCst);
                    g.bell.ring();
                    if w % 2 == 0 {
                        drop(v)
                    } else {
                        drop(MetricBuilder::new("new").build(Gauge::new()))
                    }
                    tick();
                });
            }
            gate.bell.wait(|| gate.started.load(SeqCst) == waiters);
            for _ in 0..r.below(60) {
                std::thread::yield_now();
            }
            std::thread::scope(|sc| {
                for t in 0..3 {
                    let seed = r.next();
                    sc.spawn(move || {
                        let mut r = Rng::new(seed);
                        for _ in 0..60 {
                            p.update(&mut r, t, 3);
                            tick();
                        }
                    });
                }
            });
            gate.done.store(true, SeqCst);
            gate.bell.ring();
        });
        let lows = p.lows();
        p.judge(&open(Snapshotter::default().snapshot()), &lows);
        stat("recordings_during_a_snapshot", 180);
        stat("snapshots_in_progress", takers as u64);
        distinct(&(takers, waiters, at, lows));
    });
    ctx.cases("mixture", ctx.many(0, 25, 400), 55, |r, case| {
        let p = pool(r, case);
        let seeds: Vec<u64> = (0..8).map(|_| r.next()).collect();
        let done = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for (t, &seed) in seeds.iter().enumerate() {
                let (p, done) = (&p, &done);
                sc.spawn(move || {
                    let mut r = Rng::new(seed);
                    let s = SnapshotterBuilder::new().filter(filter).build();
                    let mut mine: Vec<Box<dyn Any + Send>> = Vec::new();
                    for k in 0..150u64 {
                        match r.below(6) {
                            0 => drop(with_filter(dawdle(seed ^ k), || s.snapshot())),
                            1 => mine.push(make_churned(((t as u64) << 32) | k, r.chance(1, 2))),
                            2 => drop(mine.pop()),
                            3 => {
                                let all = metriken::metrics();
                                let n = all.iter().filter(|e| e.value().is_some()).count();
                                check!(n > 0, "empty listing");
                            }
                            _ => p.update(&mut r, t, 8),
                        }
                        done.fetch_add(1, SeqCst);
                        tick();
                    }
                });
            }
        });
        stat("operations", done.load(SeqCst));
        distinct(&(case, p.lows()));
    });
}

// ---------------------------------------------------------------------- C22

struct Hostile {
    id: u64,
    fault: AtomicU32,
    seen: AtomicI64,
}

const VALUE: u32 = 1;
const PROVIDE: u32 = 2;

fn boom(what: &str) -> ! {
    std::panic::panic_any(format!("on purpose: {what}"))
}

impl Metric for Hostile {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        self.seen.fetch_add(1, SeqCst);
        if self.fault.load(SeqCst) == VALUE {
            boom("value");
        }
        Some(if self.id % 2 == 0 { Value::Counter(self.id) } else { Value::Gauge(self.id as i64) })
    }
    fn provide<'a>(&'a self, _: &mut metriken_core::Request<'a>) {
        if self.fault.load(SeqCst) == PROVIDE {
            boom("provide");
        }
    }
}

static BAD_NAME: AtomicU64 = AtomicU64::new(u64::MAX);
fn touchy(e: &MetricEntry, f: Format) -> String {
    if e.name() == BAD_NAME.load(SeqCst).to_string() {
        boom("formatter");
    }
    shape(e, f)
}

struct Victim {
    m: Holder<Hostile>,
    id: u64,
    custom: bool,
}

fn victim(r: &mut Rng, id: u64) -> Victim {
    let custom = r.chance(1, 2);
    let mut b = MetricBuilder::new(id.to_string()).metadata("id", id.to_string());
    if custom {
        b = b.formatter(touchy);
    }
    let m = Hostile { id, fault: AtomicU32::new(0), seen: AtomicI64::new(0) };
    let m = if r.chance(1, 2) {
        let (m, e) = b.build_pinned(m);
        let m = Box::pin(m);
        m.as_ref().register(e);
        Holder::Pinned(m)
    } else {
        Holder::Boxed(b.build(m))
    };
    Victim { m, id, custom }
}

fn wanted(vs: &[Victim]) -> Vec<Record> {
    let mut v: Vec<Record> = vs
        .iter()
        .map(|v| Record {
            name: if v.custom { shaped(&v.id.to_string()) } else { v.id.to_string() },
            reading: if v.id % 2 == 0 { Reading::Counter(v.id) } else { Reading::Gauge(v.id as i64) },
            labels: BTreeMap::from([("id".to_string(), v.id.to_string())]),
        })
        .collect();
    v.sort();
    v
}

fn sound(s: &Snapshotter, vs: &[Victim], what: &str) {
    let got: Vec<Record> = open(s.snapshot()).records.into_iter().filter(|r| r.labels.contains_key("id") && !r.name.starts_with("s.")).collect();
    let want = wanted(vs);
    if got != want {
        violation(format!("{what}: {}", difference(&got, &want)));
    }
    let mut listed: Vec<String> = metriken::metrics().dynamic_metrics().map(|e| e.name().to_string()).collect();
    listed.sort();
    let mut ids: Vec<String> = vs.iter().map(|v| v.id.to_string()).collect();
    ids.sort();
    check_eq!(listed, ids, "{what}: metrics listed");
    stat("audits", 1);
}

pub fn panics(ctx: &Ctx) {
    crate::fault::panics(ctx);
    let mut next = 1u64;
    ctx.cases("snapshot-panics", ctx.many(0, 150, 3000), 90, |r, case| {
        let mut vs: Vec<Victim> = (0..r.range(1, 8))
            .map(|_| {
                next += 1;
                victim(r, next)
            })
            .collect();
        let s = SnapshotterBuilder::new().filter(filter).metadata("a".into(), "b".into()).build();
        let mut trace = Vec::new();
        for _ in 0..r.range(1, 6) {
            let i = r.below(vs.len());
            let how = r.below(4);
            let id = vs[i].id;
            let mut certain = true;
            let res = match how {
                0 => {
                    vs[i].m.fault.store(VALUE, SeqCst);
                    catch(|| s.snapshot())
                }
                1 => {
                    vs[i].m.fault.store(PROVIDE, SeqCst);
                    certain = false;
                    catch(|| s.snapshot())
                }
                2 => {
                    BAD_NAME.store(id, SeqCst);
                    certain = vs[i].custom;
                    catch(|| s.snapshot())
                }
                _ => {
                    let name = id.to_string();
                    let res = catch(|| {
                        with_filter(
                            Box::new(move |e| {
                                if e.name() == name {
                                    boom("filter");
                                }
                                true
                            }),
                            || s.snapshot(),
                        )
                    });
                    PREDICATE.with(|s| *s.borrow_mut() = None);
                    res
                }
            };
            vs[i].m.fault.store(0, SeqCst);
            BAD_NAME.store(u64::MAX, SeqCst);
            let what = ["value", "provide", "formatter", "filter"][how];
            trace.push(what);
            match &res {
                Err(p) => {
                    check!(panic_text(&**p).starts_with("on purpose"), "{what}: other panic: {}", panic_text(&**p));
                    stat("panics_contained", 1);
                }
                Ok(_) => check!(!certain, "{what} panicked but the snapshot carried on"),
            }
            sound(&s, &vs, &format!("case {case} after panics in {trace:?}"));
            // Registration and removal still work, from anywhere.
            if r.chance(1, 2) {
                next += 1;
                let id = next;
                let seed = r.next();
                let v = std::thread::scope(|sc| sc.spawn(move || victim(&mut Rng::new(seed), id)).join());
                vs.push(v.unwrap_or_else(|_| inconclusive("thread ended")));
            }
            if vs.len() > 1 && r.chance(1, 3) {
                let v = vs.swap_remove(r.below(vs.len()));
                std::thread::scope(|sc| {
                    sc.spawn(move || drop(v));
                });
            }
            sound(&s, &vs, &format!("case {case} after panics in {trace:?} and changes"));
        }
        distinct(&(trace.clone(), vs.len()));
        sample(|| format!("{} metrics; panics in {trace:?}", vs.len()));
    });
    // Panicking and ordinary snapshots side by side.
    ctx.cases("panics-beside", ctx.many(0, 15, 200), 40, |r, case| {
        let vs: Vec<Victim> = (0..6)
            .map(|_| {
                next += 1;
                victim(r, next)
            })
            .collect();
        let base = next;
        next += 10_000;
        std::thread::scope(|sc| {
            for t in 0..6u64 {
                let (vs, seed) = (&vs, r.next());
                sc.spawn(move || {
                    let mut r = Rng::new(seed);
                    let s = SnapshotterBuilder::new().filter(filter).build();
                    for k in 0..100u64 {
                        match t {
                            0 | 1 => {
                                let n = Cell::new(r.below(6));
                                let _ = catch(|| {
                                    with_filter(
                                        Box::new(move |_| {
                                            if n.replace(n.get().wrapping_sub(1)) == 0 {
                                                boom("filter");
                                            }
                                            true
                                        }),
                                        || s.snapshot(),
                                    )
                                });
                                PREDICATE.with(|s| *s.borrow_mut() = None);
                            }
                            2 => drop(victim(&mut r, base + 1 + k)),
                            _ => {
                                let got = open(s.snapshot()).records;
                                for w in wanted(vs) {
                                    let n = got.iter().filter(|g| **g == w).count();
                                    check_eq!(n, 1, "case {case}: records of {}", w.name);
                                }
                            }
                        }
                        tick();
                    }
                });
            }
        });
        sound(&Snapshotter::default(), &vs, &format!("case {case}, all quiet"));
        distinct(&("beside", case));
    });
}
