//! The static metrics of the harness binary.

use hcore::request::Scripted;
use hcore::transparent::{Explicit, Implicit};
use hcore::Decl;
use metriken::{metric, AtomicHistogram, Counter, Gauge, LazyCounter, LazyGauge, RwLockHistogram};

#[metric(name = "lazy.counter", metadata = { a = "b" })]
static LAZY_C: LazyCounter = LazyCounter::new(Counter::default);

#[metric(name = "lazy.gauge", description = "lazy")]
static LAZY_G: LazyGauge = LazyGauge::new(Gauge::default);

#[metric(name = "lazy.counter.plain")]
static LAZY_C2: LazyCounter = LazyCounter::new(|| Counter::new());

#[metric(name = "static.counter", description = "a counter", metadata = { unit = "ops", "odd \"key\"" = "v\\\"\n" })]
static COUNTER: Counter = Counter::new();

#[metric]
static GAUGE: Gauge = Gauge::new();

#[metric(name = "static.histogram", description = "")]
static HISTOGRAM: AtomicHistogram = AtomicHistogram::new(3, 20);

#[metric(name = "static.bulk", metadata = { k = "" })]
static BULK: RwLockHistogram = RwLockHistogram::new(3, 20);

#[metric(name = "static.formatted", formatter = custom, metadata = { x = "1" })]
static FORMATTED: Counter = Counter::new();

#[metric(name = "static.scripted", metadata = {
    a = "1", b = "2", c = "3\\", d = "\"4\"", e = "5\n", f = ",", g = "}", h = "=", i = "\u{e9}",
    j = "j", k = "k", l = "l", m = "m", n = "n", o = "o", p = "p", q = "q",
})]
static SCRIPTED: Scripted = Scripted::new();

#[metric(name = "static.explicit")]
static EXPLICIT: Explicit = Explicit::new();

#[metric(name = "static.implicit", metadata = { says = "nothing" })]
static IMPLICIT: Implicit = Implicit::new();

const SEVENTEEN: &[(&str, &str)] = &[
    ("a", "1"), ("b", "2"), ("c", "3\\"), ("d", "\"4\""), ("e", "5\n"), ("f", ","), ("g", "}"), ("h", "="),
    ("i", "\u{e9}"), ("j", "j"), ("k", "k"), ("l", "l"), ("m", "m"), ("n", "n"), ("o", "o"), ("p", "p"), ("q", "q"),
];

pub fn publish() {
    *hcore::LAZY_STATICS.lock().unwrap() = vec![
        ("lazy.counter", |n| {
            LAZY_C.add(n);
        }),
        ("lazy.gauge", |n| {
            LAZY_G.add(n as i64);
        }),
        ("lazy.counter.plain", |n| {
            LAZY_C2.add(n);
        }),
    ];
    let d = |name, description, metadata| Decl { name, description, metadata, formatted: false };
    *hcore::STATIC_DECLS.lock().unwrap() = vec![
        d("lazy.counter", None, &[("a", "b")]),
        d("lazy.gauge", Some("lazy"), &[]),
        d("lazy.counter.plain", None, &[]),
        d("static.counter", Some("a counter"), &[("unit", "ops"), ("odd \"key\"", "v\\\"\n")]),
        d("GAUGE", None, &[]),
        d("static.histogram", Some(""), &[]),
        d("static.bulk", None, &[("k", "")]),
        Decl { formatted: true, ..d("static.formatted", None, &[("x", "1")]) },
        d("static.scripted", None, SEVENTEEN),
        d("static.explicit", None, &[]),
        d("static.implicit", None, &[("says", "nothing")]),
    ];
    *hcore::STATIC_REFS.lock().unwrap() = vec![
        ("lazy.counter", &LAZY_C),
        ("lazy.gauge", &LAZY_G),
        ("lazy.counter.plain", &LAZY_C2),
        ("static.counter", &COUNTER),
        ("GAUGE", &GAUGE),
        ("static.histogram", &HISTOGRAM),
        ("static.bulk", &BULK),
        ("static.formatted", &FORMATTED),
        ("static.scripted", &SCRIPTED),
        ("static.explicit", &EXPLICIT),
        ("static.implicit", &IMPLICIT),
    ];
    *hcore::STATIC_ANSWERS.lock().unwrap() = Some((("static.explicit", &EXPLICIT), ("static.implicit", &IMPLICIT)));
    *hcore::STATIC_SCRIPTED.lock().unwrap() = Some(("static.scripted", &SCRIPTED));
}

fn custom(e: &metriken::MetricEntry, f: metriken::Format) -> String {
    format!("<{}|{}>", e.name(), hcore::format_tag(&f))
}
