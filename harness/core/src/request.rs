//! C11: typed requests.
//!
//! A scripted metric provides an arbitrary sequence of typed data; the oracle
//! replays the script for the requested type and kind. Returned references are
//! compared by address and content, returned values by content, and every
//! owning payload counts its instances.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU8, Ordering};
use std::sync::{Arc, Mutex, OnceLock};

use metriken::{Counter, DynBoxedMetric, Metadata, Metric, MetricBuilder, MetricEntry, Value};
use metriken_core::Request;
use mon::{check, check_eq, distinct, sample, stat, Ctx, Rng};

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    /// What happened inside `provide`: lazily computed positions and answers
    /// to "would this satisfy the request".
    static SEEN: RefCell<Vec<(usize, Obs)>> = const { RefCell::new(Vec::new()) };
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Obs {
    Computed,
    Would(bool),
}

pub trait Keyed: Send + Sync {
    fn key(&self) -> u64;
}

pub trait Payload: Keyed + Sized + 'static {
    fn make(seed: u64) -> Self;
}

macro_rules! payload {
    ($($t:ty: |$s:ident| $make:expr, |$v:ident| $key:expr;)*) => { $(
        impl Keyed for $t {
            fn key(&self) -> u64 { let $v = self; $key }
        }
        impl Payload for $t {
            fn make($s: u64) -> Self { $make }
        }
    )* };
}

pub struct Zst;
#[derive(Clone, Copy)]
#[repr(align(128))]
pub struct Over(u64, u8);
#[repr(transparent)]
pub struct Newtype(u64);
pub struct Generic<const N: usize>(u64);

/// Owning, counts its instances.
pub struct Tracked(Box<u64>);
impl Drop for Tracked {
    fn drop(&mut self) {
        LIVE.set(LIVE.get() - 1);
        *self.0 = 0xDEAD_DEAD;
    }
}

static TABLE: [u64; 16] = [3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8, 9, 7, 9, 3];
static WORDS: [&str; 4] = ["", "one", "two", "three"];

fn wrap(f: impl FnOnce() -> u64) -> u64 {
    f()
}

payload! {
    u8: |s| s as u8, |v| *v as u64;
    u64: |s| s, |v| *v;
    i64: |s| s as i64, |v| *v as u64;
    String: |s| format!("s{s}"), |v| v[1..].parse().unwrap_or(u64::MAX - 1);
    Vec<u64>: |s| vec![s; (s % 5 + 1) as usize], |v| v[0];
    Box<u64>: |s| Box::new(s), |v| **v;
    (): |_s| (), |_v| 0;
    Zst: |_s| Zst, |_v| 0;
    Over: |s| Over(s, 1), |v| v.0 + v.1 as u64 - 1;
    [u64; 40]: |s| [s; 40], |v| wrap(|| if v.iter().all(|x| *x == v[0]) { v[0] } else { u64::MAX });
    Tracked: |s| { LIVE.set(LIVE.get() + 1); Tracked(Box::new(s)) }, |v| *v.0;
    Option<u64>: |s| Some(s), |v| v.unwrap_or(u64::MAX);
    &'static str: |s| WORDS[s as usize % 4], |v| v.len() as u64;
    &'static u64: |s| &TABLE[s as usize % 16], |v| **v;
    Newtype: |s| Newtype(s), |v| v.0;
    (u64,): |s| (s,), |v| v.0;
    Generic<1>: |s| Generic(s), |v| v.0;
    Generic<2>: |s| Generic(s), |v| v.0;
    Arc<Tracked>: |s| Arc::new(Tracked::make(s)), |v| *v.0;
    Option<Tracked>: |s| Some(Tracked::make(s)), |v| v.as_ref().map_or(u64::MAX, |t| *t.0);
}

/// Run `$body` with `$T` bound to payload type number `$k`.
macro_rules! with_type {
    ($k:expr, $T:ident, $body:expr) => {
        match $k {
            0 => { type $T = u8; $body }
            1 => { type $T = u64; $body }
            2 => { type $T = i64; $body }
            3 => { type $T = String; $body }
            4 => { type $T = Vec<u64>; $body }
            5 => { type $T = Box<u64>; $body }
            6 => { type $T = (); $body }
            7 => { type $T = Zst; $body }
            8 => { type $T = Over; $body }
            9 => { type $T = [u64; 40]; $body }
            10 => { type $T = Tracked; $body }
            11 => { type $T = Option<u64>; $body }
            12 => { type $T = &'static str; $body }
            13 => { type $T = &'static u64; $body }
            14 => { type $T = Newtype; $body }
            15 => { type $T = (u64,); $body }
            16 => { type $T = Generic<1>; $body }
            17 => { type $T = Generic<2>; $body }
            18 => { type $T = Arc<Tracked>; $body }
            _ => { type $T = Option<Tracked>; $body }
        }
    };
}
const SIZED: usize = 20;
/// Only as references: str, [u64], dyn Keyed, dyn Any.
const UNSIZED: usize = 4;
const SLOTS: usize = 3;

struct Slot {
    any: Vec<Box<dyn Any + Send + Sync>>, // one per sized type
    text: String,
    nums: Vec<u64>,
    keyed: Box<dyn Keyed>,
    object: Box<dyn Any + Send + Sync>,
}

struct Store(Vec<Slot>);

impl Store {
    fn new(rng: &mut Rng) -> Self {
        Store(
            (0..SLOTS)
                .map(|_| {
                    let mut s = || rng.next() >> 8;
                    Slot {
                        any: (0..SIZED)
                            .map(|k| with_type!(k, T, Box::new(<T as Payload>::make(s())) as Box<dyn Any + Send + Sync>))
                            .collect(),
                        text: format!("s{}", s()),
                        nums: vec![s(); (s() % 5) as usize],
                        keyed: Box::new(s()),
                        object: Box::new(s()),
                    }
                })
                .collect(),
        )
    }
    fn get<T: 'static>(&self, slot: usize, k: usize) -> &T {
        self.0[slot].any[k].downcast_ref().unwrap()
    }
}

#[derive(Clone, Debug, Hash)]
enum Action {
    Value(usize, u64),
    ValueWith(usize, u64),
    Ref(usize, usize),
    RefWith(usize, usize),
    WouldValue(usize),
    WouldRef(usize),
}

pub struct Scripted {
    store: OnceLock<Store>,
    script: Mutex<Vec<Action>>,
    /// What it says about itself, which is no matter to requests.
    mood: AtomicU8,
}

const DISABLED: u8 = 1;
const OPAQUE: u8 = 2;
const VALUELESS: u8 = 4;
const ODD: u8 = 8;

impl Scripted {
    #[allow(clippy::new_without_default)]
    pub const fn new() -> Self {
        Scripted { store: OnceLock::new(), script: Mutex::new(Vec::new()), mood: AtomicU8::new(0) }
    }
    fn with_store(rng: &mut Rng) -> Self {
        let s = Self::new();
        let _ = s.store.set(Store::new(rng));
        s
    }
    fn store(&self) -> &Store {
        self.store.get().unwrap()
    }
    fn set_mood(&self, rng: &mut Rng) {
        self.mood.store(rng.below(16) as u8 & rng.below(16) as u8, Ordering::SeqCst);
    }
    fn is(&self, mood: u8) -> bool {
        self.mood.load(Ordering::SeqCst) & mood != 0
    }
}

fn seen(at: usize, o: Obs) {
    SEEN.with_borrow_mut(|s| s.push((at, o)));
}

impl Metric for Scripted {
    fn is_enabled(&self) -> bool {
        !self.is(DISABLED)
    }
    fn as_any(&self) -> Option<&dyn Any> {
        if self.is(OPAQUE) {
            None
        } else {
            Some(self)
        }
    }
    fn value(&self) -> Option<Value<'_>> {
        if self.is(VALUELESS) {
            None
        } else if self.is(ODD) {
            Some(Value::Other(self))
        } else {
            Some(Value::Counter(1))
        }
    }
    fn provide<'a>(&'a self, r: &mut Request<'a>) {
        let script = self.script.lock().unwrap().clone();
        if script.is_empty() {
            return;
        }
        let store = self.store();
        for (at, a) in script.iter().enumerate() {
            match *a {
                Action::Value(k, s) => with_type!(k, T, { r.provide_value::<T>(<T as Payload>::make(s)); }),
                Action::ValueWith(k, s) => with_type!(k, T, {
                    r.provide_value_with::<T>(|| {
                        seen(at, Obs::Computed);
                        <T as Payload>::make(s)
                    });
                }),
                Action::Ref(k, i) if k < SIZED => with_type!(k, T, { r.provide_ref::<T>(store.get(i, k)); }),
                Action::RefWith(k, i) if k < SIZED => with_type!(k, T, {
                    r.provide_ref_with::<T>(|| {
                        seen(at, Obs::Computed);
                        store.get(i, k)
                    });
                }),
                Action::Ref(k, i) => {
                    match k - SIZED {
                        0 => r.provide_ref::<str>(&store.0[i].text),
                        1 => r.provide_ref::<[u64]>(&store.0[i].nums),
                        2 => r.provide_ref::<dyn Keyed>(&*store.0[i].keyed),
                        _ => r.provide_ref::<dyn Any + Send + Sync>(&*store.0[i].object),
                    };
                }
                Action::RefWith(k, i) => {
                    let f = || seen(at, Obs::Computed);
                    match k - SIZED {
                        0 => r.provide_ref_with::<str>(|| { f(); &store.0[i].text }),
                        1 => r.provide_ref_with::<[u64]>(|| { f(); &store.0[i].nums }),
                        2 => r.provide_ref_with::<dyn Keyed>(|| { f(); &*store.0[i].keyed }),
                        _ => r.provide_ref_with::<dyn Any + Send + Sync>(|| { f(); &*store.0[i].object }),
                    };
                }
                Action::WouldValue(k) => {
                    let b = with_type!(k, T, r.would_be_satisfied_by_value_of::<T>());
                    seen(at, Obs::Would(b));
                }
                Action::WouldRef(k) => {
                    let b = if k < SIZED {
                        with_type!(k, T, r.would_be_satisfied_by_ref_of::<T>())
                    } else {
                        match k - SIZED {
                            0 => r.would_be_satisfied_by_ref_of::<str>(),
                            1 => r.would_be_satisfied_by_ref_of::<[u64]>(),
                            2 => r.would_be_satisfied_by_ref_of::<dyn Keyed>(),
                            _ => r.would_be_satisfied_by_ref_of::<dyn Any + Send + Sync>(),
                        }
                    };
                    seen(at, Obs::Would(b));
                }
            }
        }
    }
}

/// A reference answer: where it points and its content.
#[derive(Clone, Debug, PartialEq)]
enum Answer {
    Nothing,
    Value(u64),
    Ref(usize, u64),
}

fn addr<T: ?Sized>(t: &T) -> usize {
    t as *const T as *const () as usize
}
fn sum(v: &[u64]) -> u64 {
    v.iter().fold(v.len() as u64, |a, b| a.rotate_left(5) ^ b)
}

/// Ways to ask the same thing.
#[derive(Clone, Copy)]
enum Via<'a> {
    Entry(&'a MetricEntry),
    Dyn(&'a dyn Metric),
    Concrete(&'a Scripted),
}

fn ask_value(via: Via, k: usize) -> Answer {
    with_type!(k, T, {
        let v: Option<T> = match via {
            Via::Entry(e) => e.request_value::<T>(),
            Via::Dyn(m) => metriken_core::request_value::<T>(m),
            Via::Concrete(m) => metriken_core::request_value::<T>(m),
        };
        v.map_or(Answer::Nothing, |v| Answer::Value(v.key()))
    })
}

fn ask_ref(via: Via, k: usize) -> Answer {
    fn get<'a, T: ?Sized + 'static>(via: Via<'a>) -> Option<&'a T> {
        match via {
            Via::Entry(e) => e.request_ref::<T>(),
            Via::Dyn(m) => metriken_core::request_ref::<T>(m),
            Via::Concrete(m) => metriken_core::request_ref::<T>(m),
        }
    }
    if k < SIZED {
        return with_type!(k, T, get::<T>(via).map_or(Answer::Nothing, |v| Answer::Ref(addr(v), v.key())));
    }
    match k - SIZED {
        0 => get::<str>(via).map_or(Answer::Nothing, |v| Answer::Ref(addr(v), v.len() as u64)),
        1 => get::<[u64]>(via).map_or(Answer::Nothing, |v| Answer::Ref(addr(v), sum(v))),
        2 => get::<dyn Keyed>(via).map_or(Answer::Nothing, |v| Answer::Ref(addr(v), v.key())),
        _ => get::<dyn Any + Send + Sync>(via)
            .map_or(Answer::Nothing, |v| Answer::Ref(addr(v), v.downcast_ref::<u64>().copied().unwrap_or(u64::MAX))),
    }
}

fn stored(store: &Store, k: usize, i: usize) -> Answer {
    if k < SIZED {
        return with_type!(k, T, {
            let v: &T = store.get(i, k);
            Answer::Ref(addr(v), v.key())
        });
    }
    let s = &store.0[i];
    match k - SIZED {
        0 => Answer::Ref(addr(&*s.text), s.text.len() as u64),
        1 => Answer::Ref(addr(&*s.nums), sum(&s.nums)),
        2 => Answer::Ref(addr(&*s.keyed), s.keyed.key()),
        _ => Answer::Ref(addr(&*s.object), *s.object.downcast_ref::<u64>().unwrap()),
    }
}

/// What the script answers, and what is observed inside it.
fn expected(m: &Scripted, attached: Option<u64>, by_ref: bool, k: usize) -> (Answer, Vec<(usize, Obs)>) {
    // Attached data only ever answers requests for references.
    let mut answer = attached.map(|key| Answer::Ref(0, key));
    let mut obs = vec![];
    for (at, a) in m.script.lock().unwrap().iter().enumerate() {
        match *a {
            Action::Value(t, s) | Action::ValueWith(t, s) if !by_ref && t == k && answer.is_none() => {
                // The content of the value made from that seed.
                answer = Some(Answer::Value(with_type!(k, T, <T as Payload>::make(s).key())));
                if matches!(a, Action::ValueWith(..)) {
                    obs.push((at, Obs::Computed));
                }
            }
            Action::Ref(t, i) | Action::RefWith(t, i) if by_ref && t == k && answer.is_none() => {
                answer = Some(stored(m.store(), k, i));
                if matches!(a, Action::RefWith(..)) {
                    obs.push((at, Obs::Computed));
                }
            }
            Action::WouldValue(t) => obs.push((at, Obs::Would(!by_ref && t == k && answer.is_none()))),
            Action::WouldRef(t) => obs.push((at, Obs::Would(by_ref && t == k && answer.is_none()))),
            _ => {}
        }
    }
    (answer.unwrap_or(Answer::Nothing), obs)
}

fn query(m: &Scripted, via: Via, attached: &[Option<u64>; SIZED], by_ref: bool, k: usize) {
    let live = LIVE.get();
    let att = if by_ref && k < SIZED { attached[k] } else { None };
    let (want, obs) = expected(m, att, by_ref, k);
    SEEN.set(vec![]);
    let got = if by_ref { ask_ref(via, k) } else { ask_value(via, k) };
    let saw = SEEN.take();
    let same = match (&got, &want) {
        (Answer::Ref(_, a), Answer::Ref(0, b)) => a == b, // attached: only the content is known
        (a, b) => a == b,
    };
    let name = if k < SIZED { with_type!(k, T, std::any::type_name::<T>()) } else { "unsized" };
    let kind = if by_ref { "reference" } else { "value" };
    check!(
        same,
        "request of a {kind} of type {name} ({k}) returned {got:?}, expected {want:?}; attached {att:?}; script {:?}",
        m.script.lock().unwrap()
    );
    check!(
        saw == obs,
        "during the request of a {kind} of type {name} ({k}) computed or predicted {saw:?}, expected {obs:?}; script {:?}",
        m.script.lock().unwrap()
    );
    check_eq!(LIVE.get(), live, "live instances after a request ({name})");
    stat(if matches!(got, Answer::Nothing) { "unanswered" } else { "answered" }, 1);
}

fn script(rng: &mut Rng) -> Vec<Action> {
    // Few types, so that they meet.
    let palette: Vec<usize> = (0..rng.range(1, 5)).map(|_| rng.below(SIZED + UNSIZED)).collect();
    let n = if rng.chance(1, 20) { rng.range(20, 60) } else { rng.below(14) };
    (0..n)
        .map(|_| {
            let k = if rng.chance(1, 6) { rng.below(SIZED + UNSIZED) } else { *rng.pick(&palette) };
            let i = rng.below(SLOTS);
            let s = rng.next() >> 8;
            match rng.below(10) {
                0 | 1 if k < SIZED => Action::Value(k, s),
                2 | 3 if k < SIZED => Action::ValueWith(k, s),
                4 if k < SIZED => Action::WouldValue(k),
                5 => Action::WouldRef(k),
                6 | 7 => Action::RefWith(k, i),
                _ => Action::Ref(k, i),
            }
        })
        .collect()
}

fn sweep(m: &Scripted, entry: &MetricEntry, attached: &[Option<u64>; SIZED], rng: &mut Rng) {
    m.set_mood(rng);
    let none = [None; SIZED];
    for k in 0..SIZED + UNSIZED {
        query(m, Via::Entry(entry), attached, true, k);
        if k < SIZED {
            query(m, Via::Entry(entry), attached, false, k);
        }
        // The metric by itself does not know what was attached to it.
        let via = if rng.chance(1, 2) { Via::Dyn(m) } else { Via::Concrete(m) };
        if rng.chance(1, 3) {
            query(m, via, &none, true, k);
        }
        if k < SIZED && rng.chance(1, 3) {
            query(m, via, &none, false, k);
        }
        if rng.chance(1, 3) {
            query(m, Via::Dyn(entry.metric()), attached, true, k);
        }
    }
}

fn find<'a>(all: &'a metriken::Metrics, m: &Scripted) -> &'a MetricEntry {
    match all.dynamic_metrics().find(|e| e.is(m)) {
        Some(e) => e,
        None => mon::violation("a registered metric is not in the dynamic listing"),
    }
}

fn attach(mut b: MetricBuilder, rng: &mut Rng, attached: &mut [Option<u64>; SIZED]) -> MetricBuilder {
    let n = if rng.chance(1, 12) { rng.range(16, 80) } else { rng.below(8) };
    let palette: Vec<usize> = (0..3).map(|_| rng.below(SIZED)).collect();
    for _ in 0..n {
        let k = if rng.chance(1, 3) { rng.below(SIZED) } else { *rng.pick(&palette) };
        let s = rng.next() >> 8;
        b = with_type!(k, T, {
            let v = <T as Payload>::make(s);
            attached[k] = Some(v.key());
            b.provide::<T>(v)
        });
        if rng.chance(1, 5) {
            b = b.metadata("k", rng.string()).formatter(|_, _| String::new());
        }
    }
    b
}

/// Run `$body` with `$N` bound to one of very many types.
macro_rules! numbered {
    ($k:expr, $N:ident, $body:expr) => {
        numbered!(@ $k, $N, $body, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95)
    };
    (@ $k:expr, $N:ident, $body:expr, $($n:literal)*) => {
        match $k {
            $($n => { const $N: usize = $n; $body })*
            _ => mon::inconclusive("no such type"),
        }
    };
}
const NUMBERED: usize = 96;

/// A type of its own for each number.
struct Sort<const N: usize>(u64);

/// Data of many types attached to one metric.
fn many(ctx: &Ctx) {
    ctx.cases("many", ctx.many(1, 120, 4000), 10, |rng, _| {
        let n = *rng.pick(&[1, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, NUMBERED]);
        let mut order: Vec<usize> = (0..NUMBERED).collect();
        rng.shuffle(&mut order);
        order.truncate(n);
        let mut want = [None; NUMBERED];
        let mut b = MetricBuilder::new("many");
        let again = rng.below(10);
        for i in 0..n + again {
            let k = if i < n { order[i] } else { *rng.pick(&order) };
            let v = rng.next();
            want[k] = Some(v);
            b = numbered!(k, N, b.provide(Sort::<N>(v)));
        }
        let m = b.build(Counter::new());
        let all = metriken::metrics();
        let Some(e) = all.dynamic_metrics().find(|e| e.is(&*m)) else { mon::violation("a live metric is not listed") };
        for (k, want) in want.into_iter().enumerate() {
            let got = numbered!(k, N, e.request_ref::<Sort<N>>().map(|s| s.0));
            check_eq!(got, want, "data of type {k} requested from a metric with data of {n} types attached");
            let got = numbered!(k, N, e.request_value::<Sort<N>>().map(|s| s.0));
            check_eq!(got, None, "value of type {k} requested from a metric with data of {n} types attached");
        }
        stat("attached", (n + again) as u64);
        distinct(&(n, order));
    });
}

/// What can be done with a type that cannot be named outside its block.
struct Face {
    name: &'static str,
    attach: fn(MetricBuilder, u64) -> MetricBuilder,
    store: fn(u64) -> Box<dyn Any + Send + Sync>,
    give_ref: for<'a> fn(&mut Request<'a>, &'a (dyn Any + Send + Sync)),
    give: fn(&mut Request<'_>, u64),
    would: fn(&Request<'_>) -> (bool, bool),
    ask_ref: fn(&MetricEntry) -> Option<u64>,
    ask: fn(&MetricEntry) -> Option<u64>,
}

macro_rules! face {
    ($t:ty, $make:expr) => {
        Face {
            name: std::any::type_name::<$t>(),
            attach: |b, v| b.provide::<$t>($make(v)),
            store: |v| Box::<$t>::new($make(v)),
            give_ref: |r, v| {
                if let Some(v) = v.downcast_ref::<$t>() {
                    r.provide_ref::<$t>(v);
                }
            },
            give: |r, v| {
                r.provide_value::<$t>($make(v));
            },
            would: |r| (r.would_be_satisfied_by_ref_of::<$t>(), r.would_be_satisfied_by_value_of::<$t>()),
            ask_ref: |e| e.request_ref::<$t>().map(|t| t.0),
            ask: |e| e.request_value::<$t>().map(|t| t.0),
        }
    };
    () => {{
        struct Same(u64);
        face!(Same, Same)
    }};
}

/// Types of one size and form, some of which even share their printed name.
fn faces() -> Vec<Face> {
    struct Of<T: ?Sized>(u64, std::marker::PhantomData<T>);
    macro_rules! of {
        ($t:ty) => {
            face!(Of<$t>, |v| Of(v, std::marker::PhantomData))
        };
    }
    vec![
        face!(),
        face!(),
        face!(),
        of!(fn(&u8)),
        of!(fn(&'static u8)),
        of!(u8),
        of!(i8),
        of!([u8]),
        of!(str),
        of!(dyn Send + Sync),
        of!(dyn Any + Send + Sync),
    ]
}

/// Provides what it was told of these types, in that order.
struct Namesakes {
    faces: Vec<Face>,
    says: Vec<(usize, bool, u64, Box<dyn Any + Send + Sync>)>,
    wrong: Mutex<Option<String>>,
    /// Which of them is asked for, and whether by reference.
    now: Mutex<(usize, bool)>,
    attached: Vec<Option<u64>>,
}

impl Metric for Namesakes {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        None
    }
    fn provide<'a>(&'a self, request: &mut Request<'a>) {
        let (now, by_ref) = *self.now.lock().unwrap();
        let mut met = by_ref && self.attached[now].is_some();
        for (k, is_ref, v, stored) in &self.says {
            for (f, face) in self.faces.iter().enumerate() {
                let got = (face.would)(request);
                let want = (f == now && by_ref && !met, f == now && !by_ref && !met);
                if got != want {
                    *self.wrong.lock().unwrap() = Some(format!("would a {} numbered {f} satisfy a request for number {now}: {got:?}", face.name));
                }
            }
            match is_ref {
                true => (self.faces[*k].give_ref)(request, &**stored),
                false => (self.faces[*k].give)(request, *v),
            }
            met |= *k == now && *is_ref == by_ref;
        }
    }
}

fn namesakes(ctx: &Ctx) {
    ctx.cases("namesakes", ctx.many(1, 400, 20_000), 10, |rng, _| {
        let faces = faces();
        let n = faces.len();
        let says: Vec<_> = (0..rng.range(0, 8))
            .map(|_| {
                let (k, v) = (rng.below(n), rng.next());
                (k, rng.chance(1, 2), v, (faces[k].store)(v))
            })
            .collect();
        let mut attached = vec![None; n];
        let mut b = MetricBuilder::new("namesakes");
        for _ in 0..rng.range(0, 5) {
            let (k, v) = (rng.below(n), rng.next());
            b = (faces[k].attach)(b, v);
            attached[k] = Some(v);
        }
        distinct(&(says.iter().map(|s| (s.0, s.1)).collect::<Vec<_>>(), attached.iter().map(|a| a.is_some()).collect::<Vec<_>>()));
        stat("namesakes", faces.iter().filter(|f| f.name == faces[0].name).count() as u64);
        let m = b.build(Namesakes { faces, says, wrong: Mutex::new(None), now: Mutex::new((0, false)), attached });
        let all = metriken::metrics();
        let Some(e) = all.dynamic_metrics().find(|e| e.is(&*m)) else { mon::violation("a live metric is not listed") };
        for k in 0..n {
            for by_ref in [true, false] {
                *m.now.lock().unwrap() = (k, by_ref);
                let got = match by_ref {
                    true => (m.faces[k].ask_ref)(e),
                    false => (m.faces[k].ask)(e),
                };
                let own = m.says.iter().find(|s| s.0 == k && s.1 == by_ref).map(|s| s.2);
                let want = match by_ref {
                    true => m.attached[k].or(own),
                    false => own,
                };
                check_eq!(got, want, "a {} numbered {k}, by reference: {by_ref}", m.faces[k].name);
                if let Some(w) = m.wrong.lock().unwrap().take() {
                    mon::violation(w)
                }
            }
        }
    });
}

pub fn run(ctx: &Ctx) {
    many(ctx);
    namesakes(ctx);
    let n = ctx.many(3, 2500, 60_000);
    ctx.cases("dynamic", n, 60, |rng, _| {
        let live = LIVE.get();
        {
            let mut attached = [None; SIZED];
            let b = attach(MetricBuilder::new("scripted"), rng, &mut attached);
            let scr = script(rng);
            distinct(&(&scr, attached.map(|a| a.is_some())));
            sample(|| format!("script {scr:?}, attached {attached:?}"));
            let m = Scripted::with_store(rng);
            *m.script.lock().unwrap() = scr;
            let m = b.build(m);
            {
                let all = metriken::metrics();
                sweep(&m, find(&all, &m), &attached, rng);
            }
            if mon::MIRI {
                return;
            }
            // Still so after others came and went, and for another script.
            let mut other_att = [None; SIZED];
            let other = attach(MetricBuilder::new("other"), rng, &mut other_att).build(Scripted::with_store(rng));
            let plain: DynBoxedMetric<Counter> = MetricBuilder::new("c").build(Counter::new());
            *m.script.lock().unwrap() = script(rng);
            {
                let all = metriken::metrics();
                sweep(&m, find(&all, &m), &attached, rng);
                sweep(&other, find(&all, &other), &other_att, rng);
            }
            drop((other, plain));
            let moved = Box::new(m);
            let all = metriken::metrics();
            let e = find(&all, &moved);
            sweep(&moved, e, &attached, rng);
            // What the builder itself attaches.
            check!(e.request_ref::<Metadata>().is_some(), "metadata cannot be requested");
            check!(e.request_value::<Metadata>().is_none(), "metadata answered a request for a value");
        }
        check_eq!(LIVE.get(), live, "live instances after the metric was dropped");
    });
    ctx.cases("pinned", n / 4, 20, |rng, _| {
        let mut attached = [None; SIZED];
        let b = attach(MetricBuilder::new("pinned"), rng, &mut attached);
        let m = Scripted::with_store(rng);
        *m.script.lock().unwrap() = script(rng);
        let (p, entry) = b.build_pinned(m);
        // An entry that is not registered yet has nothing to say.
        check!(entry.request_ref::<u64>().is_none() && entry.request_value::<u64>().is_none(), "bare entry answered");
        let p = Box::pin(p);
        p.as_ref().register(entry);
        let all = metriken::metrics();
        sweep(&p, find(&all, &p), &attached, rng);
    });
    if mon::MIRI {
        return;
    }
    let Some((name, m)) = *crate::STATIC_SCRIPTED.lock().unwrap() else { return };
    ctx.cases("static", n / 4, 20, |rng, _| {
        let _ = m.store.get_or_init(|| Store::new(rng));
        *m.script.lock().unwrap() = script(rng);
        let all = metriken::metrics();
        let Some(e) = all.static_metrics().iter().find(|e| e.name() == name) else {
            mon::violation(format!("static metric {name} is not listed"))
        };
        sweep(m, e, &[None; SIZED], rng);
        check!(e.request_ref::<Metadata>().is_some(), "static metadata cannot be requested");
        m.script.lock().unwrap().clear();
    });
}
