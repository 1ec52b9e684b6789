//! C10 (names, descriptions, metadata) and C12 (formatting).

use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};

use metriken::{
    AtomicHistogram, Counter, DynBoxedMetric, Format, Gauge, Metadata, Metric, MetricBuilder, MetricEntry, Metrics,
};
use mon::{check, check_eq, distinct, sample, stat, Ctx, Rng};

/// What a metric was built with.
#[derive(Default, Clone, Debug, Hash)]
pub struct Built {
    pub name: String,
    pub description: Option<String>,
    pub pairs: Vec<(String, String)>, // in call order, later ones replace
    pub formatter: Option<usize>,
}

impl Built {
    fn map(&self) -> HashMap<String, String> {
        self.pairs.iter().cloned().collect()
    }
}

fn leak(s: &str) -> &'static str {
    // A bounded pool of borrowed strings.
    thread_local!(static POOL: RefCell<HashMap<String, &'static str>> = RefCell::default());
    POOL.with_borrow_mut(|p| *p.entry(s.to_string()).or_insert_with(|| Box::leak(s.to_string().into_boxed_str())))
}

fn long(rng: &mut Rng) -> String {
    match rng.below(40) {
        _ if mon::MIRI => rng.string(),
        0 => rng.string().repeat(300),
        1 => "x".repeat(rng.range(1000, 70_000)),
        _ => rng.string(),
    }
}

fn builder(rng: &mut Rng, formatted: bool, clean_keys: bool) -> (MetricBuilder, Built) {
    let mut want = Built { name: long(rng), ..Default::default() };
    let mut b = if want.name.len() < 8 && rng.chance(1, 3) {
        MetricBuilder::new(leak(&want.name))
    } else {
        MetricBuilder::new(want.name.clone())
    };
    let few: Vec<String> = (0..4).map(|_| key(rng, clean_keys)).collect();
    let steps = match rng.below(30) {
        0 if !mon::MIRI => rng.range(60, 400),
        1..=4 => 0,
        _ => rng.below(12),
    };
    for _ in 0..steps {
        match rng.below(12) {
            0 | 1 => {
                let d = long(rng);
                b = if d.len() < 8 && rng.chance(1, 3) { b.description(leak(&d)) } else { b.description(d.clone()) };
                want.description = Some(d);
            }
            2 => b = b.provide(rng.next()),
            3 => b = b.provide(rng.string()),
            4 if formatted => {
                let k = rng.below(FORMATTERS.len());
                b = b.formatter(FORMATTERS[k]);
                want.formatter = Some(k);
            }
            _ => {
                let k = if rng.chance(1, 2) { rng.pick(&few).clone() } else { key(rng, clean_keys) };
                let v = long(rng);
                b = if k.len() + v.len() < 10 && rng.chance(1, 3) {
                    b.metadata(leak(&k), leak(&v))
                } else {
                    b.metadata(k.clone(), v.clone())
                };
                want.pairs.push((k, v));
            }
        }
    }
    if !mon::MIRI && rng.chance(1, 200) {
        // A great many pairs, each of its own key.
        for i in 0..rng.range(100, 1500) {
            let (k, v) = (format!("k{i}"), format!("v{}", rng.below(1000)));
            b = b.metadata(k.clone(), v.clone());
            want.pairs.push((k, v));
        }
        stat("builders_of_many_pairs", 1);
    }
    (b, want)
}

fn key(rng: &mut Rng, clean: bool) -> String {
    if clean && rng.chance(1, 8) {
        rng.pick(&["__name__", "_", "__x", "le", "quantile", "job", "instance", "A", "Name", "NAME"]).to_string()
    } else if clean || rng.chance(1, 3) {
        rng.ident()
    } else if rng.chance(1, 4) {
        rng.pick(&[
            "name", "description", "metric", "id", "op", "unit", "formatter", "grouping_power", "__name__", "_", "__x", "le",
            "quantile", "job", "instance", "version", "help", "type",
        ]).to_string()
    } else {
        rng.string()
    }
}

fn near_misses(rng: &mut Rng, key: &str) -> Vec<String> {
    let mut v = vec![format!("{key} "), format!(" {key}"), key.to_uppercase(), format!("{key}{key}"), rng.string(), String::new()];
    let mut c = key.chars();
    c.next_back();
    v.push(c.as_str().to_string());
    v.push(key.chars().rev().collect());
    v
}

/// All ways to read metadata against the map.
fn agrees(what: &str, md: &Metadata, want: &HashMap<String, String>, rng: &mut Rng) {
    check_eq!(md.len(), want.len(), "{what}: metadata len");
    check_eq!(md.is_empty(), want.is_empty(), "{what}: metadata is_empty");
    let mut seen = HashSet::new();
    for (k, v) in md.iter().take(want.len() + 5) {
        check!(seen.insert(k.to_string()), "{what}: metadata key {k:?} twice by iteration");
        check_eq!(Some(v), want.get(k).map(|s| &**s), "{what}: metadata {k:?} by iteration");
    }
    check_eq!(seen.len(), want.len(), "{what}: metadata pairs by iteration");
    let mut n = 0;
    for (k, _) in md {
        n += 1;
        check!(want.contains_key(k), "{what}: unexpected metadata key {k:?}");
    }
    check_eq!(n, want.len(), "{what}: metadata pairs by IntoIterator");
    for (k, v) in want {
        check_eq!(md.get(k), Some(&**v), "{what}: metadata get({k:?})");
        check!(md.contains_key(k), "{what}: contains_key({k:?}) is false");
        if rng.chance(1, 4) {
            for m in near_misses(rng, k) {
                let w = want.get(&m).map(|s| &**s);
                check_eq!(md.get(&m), w, "{what}: metadata get({m:?})");
                check_eq!(md.contains_key(&m), w.is_some(), "{what}: contains_key({m:?})");
            }
        }
    }
    for m in near_misses(rng, "metric") {
        check_eq!(md.get(&m), want.get(&m).map(|s| &**s), "{what}: metadata get({m:?})");
    }
}

fn entry_agrees(e: &MetricEntry, want: &Built, rng: &mut Rng) {
    check_eq!(e.name(), &*want.name, "name");
    check_eq!(e.description(), want.description.as_deref(), "description of {:?}", want.name);
    let map = want.map();
    agrees("entry", e.metadata(), &map, rng);
    if rng.chance(1, 3) {
        let c = e.metadata().clone();
        agrees("clone", &c, &map, rng);
    }
}

fn find<'a>(all: &'a Metrics, m: &dyn Metric) -> &'a MetricEntry {
    match all.dynamic_metrics().find(|e| e.is(m)) {
        Some(e) => e,
        None => mon::violation("a registered metric is not in the dynamic listing"),
    }
}

#[allow(deprecated)]
pub fn names(ctx: &Ctx) {
    let n = ctx.many(4, 4000, 120_000);
    ctx.cases("builder", n, 45, |rng, _| {
        let k = rng.range(1, if mon::MIRI { 2 } else { 6 });
        let mut boxed: Vec<(DynBoxedMetric<Counter>, Built)> = vec![];
        let mut gauges: Vec<(DynBoxedMetric<Gauge>, Built)> = vec![];
        for _ in 0..k {
            let (b, w) = builder(rng, true, false);
            distinct(&w);
            stat("pairs", w.pairs.len() as u64);
            sample(|| format!("{w:?}"));
            if rng.chance(1, 2) {
                boxed.push((b.build(Counter::new()), w));
            } else {
                gauges.push((b.build(Gauge::new()), w));
            }
        }
        let (b, w) = builder(rng, true, false);
        let (pinned, entry) = b.build_pinned(AtomicHistogram::new(2, 8));
        let pinned = Box::pin(pinned);
        // The entry reports name and description even before registration.
        check_eq!(entry.name(), &*w.name, "name of an unregistered entry");
        check_eq!(entry.description(), w.description.as_deref(), "description of an unregistered entry");
        pinned.as_ref().register(entry);
        // ... also after some of the others are gone.
        for _ in 0..2 {
            let all = metriken::metrics();
            for (m, w) in &boxed {
                entry_agrees(find(&all, &**m), w, rng);
            }
            for (m, w) in &gauges {
                entry_agrees(find(&all, &**m), w, rng);
            }
            entry_agrees(find(&all, &**pinned), &w, rng);
            drop(all);
            rng.shuffle(&mut boxed);
            boxed.truncate(k / 2);
            gauges.truncate(k / 2);
        }
    });
    ctx.cases("plain", n / 4, 15, |rng, _| {
        // Metrics without metadata of their own, next to one with.
        let (b, _) = builder(rng, false, false);
        let other = b.metadata("k", "v").build(Counter::new());
        let name = rng.string();
        let desc = rng.chance(1, 2).then(|| rng.string());
        let mut b = MetricBuilder::new(name.clone()).metadata("lost", "documented");
        if let Some(d) = &desc {
            b = b.description(d.clone());
        }
        let entry = b.into_entry();
        check_eq!(entry.name(), &*name, "name of a bare entry");
        check_eq!(entry.description(), desc.as_deref(), "description of a bare entry");
        let m = DynBoxedMetric::new(Counter::new(), entry);
        let p = Box::pin(metriken::DynPinnedMetric::new(Gauge::new()));
        p.as_ref().register(MetricBuilder::new("p").into_entry());
        let all = metriken::metrics();
        let e = find(&all, &*m);
        check_eq!(e.name(), &*name, "name");
        check_eq!(e.description(), desc.as_deref(), "description");
        agrees("without metadata", e.metadata(), &HashMap::new(), rng);
        agrees("without metadata", find(&all, &**p).metadata(), &HashMap::new(), rng);
        check_eq!(find(&all, &*other).metadata().get("k"), Some("v"), "metadata of the other metric");
        check_eq!(find(&all, &**p).description(), None, "description never given");
    });
    ctx.cases("value", n, 20, |rng, _| {
        // Metadata as a value.
        let (_, w) = builder(rng, false, false);
        let map = w.map();
        let a = Metadata::new(map.clone());
        let b: Metadata = map.clone().into();
        agrees("Metadata::new", &a, &map, rng);
        agrees("Metadata::from", &b, &map, rng);
        let c = a.clone();
        drop(a);
        agrees("clone outliving the original", &c, &map, rng);
        agrees("default", &Metadata::default(), &HashMap::new(), rng);
    });
    if mon::MIRI {
        return;
    }
    let decls = crate::STATIC_DECLS.lock().unwrap().clone();
    ctx.cases("static", n / 8, 20, |rng, _| {
        let _noise = builder(rng, false, false).0.build(Counter::new());
        let all = metriken::metrics();
        for d in &decls {
            let Some(e) = all.static_metrics().iter().find(|e| e.name() == d.name) else {
                mon::violation(format!("static metric {} is not listed", d.name))
            };
            check_eq!(e.description(), d.description, "description of static {}", d.name);
            let map = d.metadata.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
            agrees(d.name, e.metadata(), &map, rng);
            agrees("clone of static", &e.metadata().clone(), &map, rng);
        }
    });
}

// ---------------------------------------------------------------- formatting

thread_local! {
    static CALLS: RefCell<Vec<(usize, usize, &'static str)>> = const { RefCell::new(Vec::new()) };
    static ANSWER: RefCell<String> = const { RefCell::new(String::new()) };
    static NESTED: Cell<u8> = const { Cell::new(0) };
    /// An entry to format amid the formatting of another one.
    static OTHER: RefCell<Option<(MetricEntry, String)>> = const { RefCell::new(None) };
}

fn other(name: String) {
    OTHER.set(Some((MetricBuilder::new(name.clone()).into_entry(), name)));
}

fn format_other() {
    OTHER.with_borrow(|o| {
        if let Some((e, name)) = o {
            check_eq!(e.formatted(Format::Simple), *name, "simple format of an entry, amid formatting another one");
            check_eq!(e.formatted(Format::Prometheus), *name, "format of an entry, amid formatting another one");
        }
    });
    stat("formatted_amid_formatting", 1);
}

fn answer(k: usize, e: &MetricEntry, f: Format) -> String {
    CALLS.with_borrow_mut(|c| c.push((k, e as *const _ as usize, crate::format_tag(&f))));
    match NESTED.get() {
        // A formatter may build upon the default one,
        1 => return format!("{}#{k}", metriken::default_formatter(e, f)),
        // on its own answer for the other format,
        2 => {
            NESTED.set(0);
            let text = e.formatted(if matches!(f, Format::Simple) { Format::Prometheus } else { Format::Simple });
            return format!("{text}#{k}");
        }
        // or on other entries.
        3 => format_other(),
        _ => (),
    }
    ANSWER.with_borrow(|a| a.clone())
}

type Formatter = fn(&MetricEntry, Format) -> String;
static FORMATTERS: [Formatter; 3] = [
    |e, f| answer(0, e, f),
    |e, f| answer(1, e, f),
    |e, f| answer(2, e, f),
];

fn escape(v: &str) -> String {
    let mut o = String::new();
    for c in v.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '"' => o.push_str("\\\""),
            '\n' => o.push_str("\\n"),
            c => o.push(c),
        }
    }
    o
}

/// Parse a label list whose keys are plain identifiers.
fn parse(list: &str) -> Result<HashMap<String, String>, String> {
    let mut out = HashMap::new();
    let mut rest = list.trim_start();
    while !rest.is_empty() {
        let Some((k, r)) = rest.split_once('=') else { return Err(format!("no '=' in {rest:?}")) };
        let Some(r) = r.strip_prefix('"') else { return Err(format!("no quote after {k:?}=")) };
        let mut v = String::new();
        let mut it = r.char_indices();
        let end = loop {
            match it.next() {
                None => return Err(format!("unterminated value of {k:?}")),
                Some((i, '"')) => break i,
                Some((_, '\\')) => match it.next() {
                    Some((_, '\\')) => v.push('\\'),
                    Some((_, '"')) => v.push('"'),
                    Some((_, 'n')) => v.push('\n'),
                    other => return Err(format!("bad escape {other:?} in the value of {k:?}")),
                },
                Some((_, '\n')) => return Err(format!("raw line feed in the value of {k:?}")),
                Some((_, c)) => v.push(c),
            }
        };
        if out.insert(k.to_string(), v).is_some() {
            return Err(format!("{k:?} occurs twice"));
        }
        rest = r[end + 1..].trim_start();
        if rest.is_empty() {
            break;
        }
        let Some(r) = rest.strip_prefix(',') else { return Err(format!("no comma before {rest:?}")) };
        rest = r.trim_start();
    }
    Ok(out)
}

/// For arbitrary keys: the list is some order of the rendered pairs.
fn covers(list: &str, pairs: &[String], used: &mut Vec<bool>, fuel: &mut u32) -> bool {
    if *fuel == 0 {
        return true;
    }
    *fuel -= 1;
    if used.iter().all(|u| *u) {
        return list.trim_matches([' ', ',']).is_empty();
    }
    for i in 0..pairs.len() {
        if used[i] {
            continue;
        }
        if let Some(r) = list.strip_prefix(&*pairs[i]) {
            used[i] = true;
            let last = used.iter().all(|u| *u);
            if last && covers(r, pairs, used, fuel) {
                return true;
            }
            if let Some(r) = r.strip_prefix(',') {
                for k in 0..=1 {
                    if k <= r.len() && r.as_bytes()[..k].iter().all(|b| *b == b' ') && covers(&r[k..], pairs, used, fuel) {
                        return true;
                    }
                }
            }
            used[i] = false;
        }
    }
    false
}

fn default_format(e: &MetricEntry, name: &str, map: &HashMap<String, String>, clean: bool, by: &str) {
    type How = fn(&MetricEntry, Format) -> String;
    let how: How = if by == "formatted" { |e, f| e.formatted(f) } else { metriken::default_formatter };
    check_eq!(how(e, Format::Simple), name, "{by}: simple format");
    let text = how(e, Format::Prometheus);
    let Some(rest) = text.strip_prefix(name) else {
        mon::violation(format!("{by}: Prometheus format {text:?} does not begin with the name {name:?}"))
    };
    if map.is_empty() {
        check_eq!(rest, "", "{by}: Prometheus format of {name:?} without metadata, after the name");
        return;
    }
    let Some(list) = rest.strip_prefix('{').and_then(|r| r.strip_suffix('}')) else {
        mon::violation(format!("{by}: no brace-enclosed list after the name {name:?}: {rest:?}"))
    };
    if clean {
        match parse(list) {
            Ok(got) => check_eq!(got, *map, "{by}: labels parsed back from {text:?}"),
            Err(why) => mon::violation(format!("{by}: {text:?} of metadata {map:?}: {why}")),
        }
        stat("parsed_back", 1);
    }
    let pairs: Vec<String> = map.iter().map(|(k, v)| format!("{k}=\"{}\"", escape(v))).collect();
    let mut fuel = 20_000;
    check!(
        covers(list, &pairs, &mut vec![false; pairs.len()], &mut fuel),
        "{by}: {text:?} is not the name and each pair of {map:?} once"
    );
}

fn custom_format(e: &MetricEntry, k: usize, rng: &mut Rng) {
    for format in ["simple", "prometheus"] {
        let f = if format == "simple" { Format::Simple } else { Format::Prometheus };
        let want = rng.string();
        ANSWER.set(want.clone());
        CALLS.set(vec![]);
        let nested = rng.below(8) as u8;
        NESTED.set(nested);
        let got = e.formatted(f);
        let calls = CALLS.take();
        let second = if format == "simple" { "prometheus" } else { "simple" };
        check!(
            calls.first().is_some_and(|c| c.2 == format)
                && calls.iter().all(|c| c.0 == k && c.1 == e as *const _ as usize)
                && calls.iter().all(|c| c.2 == format || nested == 2 && c.2 == second),
            "formatting as {format} called {calls:?}, expected formatter {k} with this entry"
        );
        let f = if format == "simple" { Format::Simple } else { Format::Prometheus };
        let want = match nested {
            1 => format!("{}#{k}", metriken::default_formatter(e, f)),
            2 => format!("{want}#{k}"),
            _ => want,
        };
        check_eq!(got, want, "result of formatter {k} for {format}");
        stat("custom_formatted", 1);
    }
}

/// A metric that formats an entry when it is asked for data.
struct Deep;
impl metriken::Metric for Deep {
    fn as_any(&self) -> Option<&dyn std::any::Any> {
        Some(self)
    }
    fn value(&self) -> Option<metriken::Value<'_>> {
        format_other();
        None
    }
    fn provide<'a>(&'a self, _: &mut metriken_core::Request<'a>) {
        format_other();
    }
}

pub fn formatting(ctx: &Ctx) {
    let n = ctx.many(8, 5000, 150_000);
    ctx.cases("amid", n / 10, 10, |rng, _| {
        other(rng.string());
        let (b, w) = builder(rng, false, true);
        let m = b.build(Deep);
        #[allow(deprecated)]
        let bare = DynBoxedMetric::new(Deep, MetricBuilder::new("bare").into_entry());
        let all = metriken::metrics();
        let e = match all.dynamic_metrics().find(|e| e.name() == w.name && e.metadata().len() == w.map().len()) {
            Some(e) => e,
            None => mon::violation(format!("metric {:?} is not listed as given", w.name)),
        };
        default_format(e, &w.name, &w.map(), true, "formatted");
        default_format(e, &w.name, &w.map(), true, "default_formatter");
        if w.name != "bare" {
            if let Some(e) = all.dynamic_metrics().find(|e| e.name() == "bare") {
                default_format(e, "bare", &HashMap::new(), true, "formatted");
            }
        }
        drop(all);
        drop((m, bare));
    });
    ctx.cases("dynamic", n, 70, |rng, _| {
        other(rng.string());
        let clean = rng.chance(1, 2);
        let mut ms: Vec<(DynBoxedMetric<Counter>, Built)> = vec![];
        for _ in 0..rng.range(1, 4) {
            let custom = rng.chance(1, 3);
            let (b, w) = builder(rng, custom, clean);
            distinct(&w);
            sample(|| format!("{w:?}"));
            ms.push((b.build(Counter::new()), w));
        }
        let custom = rng.chance(1, 3);
        let (b, w) = builder(rng, custom, clean);
        let (p, entry) = b.build_pinned(Gauge::new());
        let p = Box::pin(p);
        p.as_ref().register(entry);
        let all = metriken::metrics();
        let dynamic: Vec<(&MetricEntry, &Built)> =
            ms.iter().map(|(m, w)| (find(&all, &**m), w)).chain([(find(&all, &**p), &w)]).collect();
        for (e, w) in dynamic {
            let map = w.map();
            match w.formatter {
                Some(k) => custom_format(e, k, rng),
                None => default_format(e, &w.name, &map, clean, "formatted"),
            }
            default_format(e, &w.name, &map, clean, "default_formatter");
        }
    });
    ctx.cases("bare", n / 10, 10, |rng, _| {
        // Entries of metrics that carry nothing but a name.
        #[allow(deprecated)]
        let m = DynBoxedMetric::new(Counter::new(), MetricBuilder::new("bare").into_entry());
        let name = rng.string();
        let e = MetricBuilder::new(name.clone()).into_entry();
        let all = metriken::metrics();
        default_format(find(&all, &*m), "bare", &HashMap::new(), true, "formatted");
        default_format(&e, &name, &HashMap::new(), true, "formatted");
    });
    if mon::MIRI {
        return;
    }
    let decls = crate::STATIC_DECLS.lock().unwrap().clone();
    ctx.cases("static", n / 20, 20, |_, _| {
        let all = metriken::metrics();
        for d in &decls {
            let Some(e) = all.static_metrics().iter().find(|e| e.name() == d.name) else {
                mon::violation(format!("static metric {} is not listed", d.name))
            };
            let map: HashMap<String, String> =
                d.metadata.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
            let clean = map.keys().all(|k| k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_'));
            if d.formatted {
                check_eq!(e.formatted(Format::Simple), format!("<{}|simple>", d.name), "static formatter");
                check_eq!(e.formatted(Format::Prometheus), format!("<{}|prometheus>", d.name), "static formatter");
            } else {
                default_format(e, d.name, &map, clean, "formatted");
            }
            default_format(e, d.name, &map, clean, "default_formatter");
        }
    });
}
