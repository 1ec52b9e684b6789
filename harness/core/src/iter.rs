//! C09: iterators agree however they are driven.
//!
//! Oracle: the set of metrics known to be there (by identity, each once), and
//! a window over one reference sequence that every call shrinks.

use std::collections::HashMap;
use std::fmt::Debug;

use metriken::{Counter, DynBoxedMetric, Metadata, MetricBuilder, Metrics};
use mon::{check, check_eq, distinct, sample, stat, Ctx, Rng};

/// What is left of the reference sequence.
struct Window<'r, K> {
    seq: &'r [K],
    log: Vec<String>,
    what: &'static str,
}

impl<K: PartialEq + Debug> Window<'_, K> {
    fn next(&mut self) -> Option<usize> {
        let (_, rest) = self.seq.split_first()?;
        let at = self.seq.len();
        self.seq = rest;
        Some(at)
    }
    fn back(&mut self) -> Option<usize> {
        let (_, rest) = self.seq.split_last()?;
        let at = self.seq.len();
        self.seq = rest;
        Some(at)
    }
    fn expect(&self, got: Option<K>, want: Option<&K>) {
        check!(
            got.as_ref() == want,
            "{}: {:?} returned {got:?}, expected {want:?}",
            self.what,
            self.log
        );
    }
}

/// Consuming and adaptor methods, each on its own iterator positioned alike.
fn finish_forward<I, K>(mut it: I, rng: &mut Rng, w: &mut Window<K>)
where
    I: Iterator<Item = K>,
    K: PartialEq + Debug + Clone,
{
    let all: Vec<K> = w.seq.to_vec();
    let kind = rng.below(15);
    w.log.push(format!("finish{kind}"));
    let log = format!("{}: {:?}", w.what, w.log);
    match kind {
        0 => check_eq!(it.count(), all.len(), "{log}"),
        1 => check_eq!(it.fold(vec![], |mut v, x| { v.push(x); v }), all, "{log}"),
        2 => check_eq!(it.last(), all.last().cloned(), "{log}"),
        3 => check_eq!(it.collect::<Vec<_>>(), all, "{log}"),
        4 => {
            let n = rng.range(1, all.len() + 2);
            let want: Vec<K> = all.iter().step_by(n).cloned().collect();
            check_eq!(it.step_by(n).collect::<Vec<_>>(), want, "{log} step_by {n}");
        }
        5 => {
            let n = rng.below(all.len() + 2);
            let want: Vec<K> = all.iter().skip(n).cloned().collect();
            check_eq!(it.skip(n).collect::<Vec<_>>(), want, "{log} skip {n}");
        }
        6 => {
            let n = rng.below(all.len() + 2);
            let want: Vec<K> = all.iter().take(n).cloned().collect();
            check_eq!(it.by_ref().take(n).collect::<Vec<_>>(), want, "{log} take {n}");
            let rest: Vec<K> = all.iter().skip(n).cloned().collect();
            check_eq!(it.collect::<Vec<_>>(), rest, "{log} after take {n}");
        }
        7 => {
            if let Some(k) = (!all.is_empty()).then(|| all[rng.below(all.len())].clone()) {
                let at = all.iter().position(|x| *x == k);
                check_eq!(it.position(|x| x == k), at, "{log} position");
                let rest = all[at.unwrap() + 1..].to_vec();
                check_eq!(it.collect::<Vec<_>>(), rest, "{log} after position");
            }
        }
        8 => {
            let mut seen = vec![];
            it.for_each(|x| seen.push(x));
            check_eq!(seen, all, "{log} for_each");
        }
        9 => {
            // try_fold that stops part-way leaves the rest.
            let n = rng.below(all.len() + 1);
            let mut seen = vec![];
            let _ = it.try_for_each(|x| {
                seen.push(x);
                if seen.len() > n {
                    Err(())
                } else {
                    Ok(())
                }
            });
            let cut = (n + 1).min(all.len());
            check_eq!(seen, all[..cut].to_vec(), "{log} try_for_each");
            check_eq!(it.collect::<Vec<_>>(), all[cut..].to_vec(), "{log} after try_for_each");
        }
        10 => {
            let n = it.by_ref().map(|_| 1usize).sum::<usize>();
            check_eq!(n, all.len(), "{log} sum");
        }
        11 => {
            let mut p = it.peekable();
            check_eq!(p.peek().cloned(), all.first().cloned(), "{log} peek");
            check_eq!(p.collect::<Vec<_>>(), all, "{log} peekable");
        }
        12 => {
            let (a, b): (Vec<(usize, K)>, Vec<_>) = it.enumerate().partition(|(i, _)| i % 2 == 0);
            let want: Vec<(usize, K)> = all.iter().cloned().enumerate().collect();
            let mut got = [a, b].concat();
            got.sort_by_key(|(i, _)| *i);
            check_eq!(got, want, "{log} partition");
        }
        13 => {
            let chained: Vec<K> = it.chain(std::iter::empty()).collect();
            check_eq!(chained, all, "{log} chain");
        }
        _ => {
            let mut want = all.iter();
            check!(it.all(|x| want.next() == Some(&x)), "{log} all");
            check!(it.next().is_none(), "{log} after all");
        }
    }
}

fn finish_back<I, K>(mut it: I, rng: &mut Rng, w: &mut Window<K>)
where
    I: DoubleEndedIterator<Item = K>,
    K: PartialEq + Debug + Clone,
{
    let mut all: Vec<K> = w.seq.to_vec();
    all.reverse();
    let kind = rng.below(9);
    w.log.push(format!("finish_back{kind}"));
    let log = format!("{}: {:?}", w.what, w.log);
    match kind {
        0 => check_eq!(it.rfold(vec![], |mut v, x| { v.push(x); v }), all, "{log}"),
        1 => check_eq!(it.rev().collect::<Vec<_>>(), all, "{log}"),
        2 => check_eq!(it.rev().count(), all.len(), "{log}"),
        3 => check_eq!(it.rev().last(), all.last().cloned(), "{log}"),
        4 => {
            let n = rng.below(all.len() + 2);
            check_eq!(it.rev().nth(n), all.get(n).cloned(), "{log} rev nth {n}");
        }
        5 => {
            let n = rng.range(1, all.len() + 2);
            let want: Vec<K> = all.iter().step_by(n).cloned().collect();
            check_eq!(it.rev().step_by(n).collect::<Vec<_>>(), want, "{log} rev step_by {n}");
        }
        6 => {
            if let Some(k) = (!all.is_empty()).then(|| all[rng.below(all.len())].clone()) {
                let at = all.iter().position(|x| *x == k).unwrap();
                check_eq!(it.rfind(|x| *x == k), Some(k), "{log} rfind");
                check_eq!(it.rev().collect::<Vec<_>>(), all[at + 1..].to_vec(), "{log} after rfind");
            }
        }
        7 => {
            let n = rng.below(all.len() + 1);
            let mut seen = vec![];
            let r: Result<(), ()> = it.try_rfold((), |_, x| {
                seen.push(x);
                if seen.len() > n {
                    Err(())
                } else {
                    Ok(())
                }
            });
            let _ = r;
            let cut = (n + 1).min(all.len());
            check_eq!(seen, all[..cut].to_vec(), "{log} try_rfold");
            check_eq!(it.rev().collect::<Vec<_>>(), all[cut..].to_vec(), "{log} after try_rfold");
        }
        _ => {
            let n = rng.below(all.len() + 2);
            let want: Vec<K> = all.iter().skip(n).cloned().collect();
            check_eq!(it.rev().skip(n).collect::<Vec<_>>(), want, "{log} rev skip {n}");
        }
    }
}

fn hint<K>(h: (usize, Option<usize>), w: &Window<K>) {
    let left = w.seq.len();
    check!(
        h.0 <= left && h.1.map_or(true, |u| left <= u),
        "{}: {:?}: size_hint {h:?} with {left} entries left",
        w.what,
        w.log
    );
}

fn amount(rng: &mut Rng, left: usize) -> usize {
    match rng.below(11) {
        0 => usize::MAX,
        1 => usize::MAX - rng.below(50),
        // Near a power of two: what is left of it in a narrower type is small.
        10 => (1usize << rng.range(5, 63)).wrapping_add(rng.below(left + 2)),
        2 => left,
        3 => left.saturating_sub(1),
        4 => left + rng.range(1, 5),
        5 => 0,
        _ => rng.below(left + 1).min(rng.below(left + 1)),
    }
}

fn front_step<I, K>(it: &mut I, rng: &mut Rng, w: &mut Window<K>)
where
    I: Iterator<Item = K>,
    K: PartialEq + Debug + Clone,
{
    if rng.chance(3, 5) {
        w.log.push("next".into());
        let want = w.seq.first();
        w.next();
        w.expect(it.next(), want);
    } else {
        let n = amount(rng, w.seq.len());
        w.log.push(format!("nth {n}"));
        let want = w.seq.get(n);
        w.seq = w.seq.get(n.saturating_add(1)..).unwrap_or(&[]);
        w.expect(it.nth(n), want);
    }
}

fn back_step<I, K>(it: &mut I, rng: &mut Rng, w: &mut Window<K>)
where
    I: DoubleEndedIterator<Item = K>,
    K: PartialEq + Debug + Clone,
{
    if rng.chance(3, 5) {
        w.log.push("next_back".into());
        let want = w.seq.last();
        w.back();
        w.expect(it.next_back(), want);
    } else {
        let n = amount(rng, w.seq.len());
        w.log.push(format!("nth_back {n}"));
        let len = w.seq.len();
        let want = len.checked_sub(n).and_then(|k| k.checked_sub(1)).map(|i| &w.seq[i]);
        w.seq = &w.seq[..len.saturating_sub(n.saturating_add(1))];
        w.expect(it.nth_back(n), want);
    }
}

/// Drive one double-ended iterator.
fn drive<I, K>(what: &'static str, mut it: I, seq: &[K], rng: &mut Rng, len: Option<fn(&I) -> usize>)
where
    I: DoubleEndedIterator<Item = K>,
    K: PartialEq + Debug + Clone,
{
    let mut w = Window { seq, log: vec![], what };
    let steps = if rng.chance(1, 4) { seq.len() + 4 } else { rng.below(seq.len() + 4) };
    let steps = if seq.len() > 1000 { steps.min(rng.below(300)) } else { steps };
    let bias = rng.below(5);
    for _ in 0..steps {
        hint(it.size_hint(), &w);
        if let Some(len) = len {
            check_eq!(len(&it), w.seq.len(), "{what}: {:?}: len", w.log);
        }
        if rng.below(4) >= bias {
            front_step(&mut it, rng, &mut w);
        } else {
            back_step(&mut it, rng, &mut w);
        }
    }
    hint(it.size_hint(), &w);
    if w.seq.is_empty() {
        for _ in 0..3 {
            check!(it.next().is_none() && it.next_back().is_none(), "{what}: {:?}: exhausted, yet more", w.log);
            let n = amount(rng, 0);
            check!(it.nth(n).is_none() && it.nth_back(n).is_none(), "{what}: {:?}: exhausted, yet more", w.log);
        }
        stat("exhausted", 1);
    }
    if rng.chance(1, 2) {
        finish_forward(it, rng, &mut w);
    } else {
        finish_back(it, rng, &mut w);
    }
    stat("drives", 1);
    distinct(&(what, seq.len(), &w.log));
    sample(|| format!("{what} of {}: {:?}", seq.len(), w.log));
}

fn id<'a>(e: &'a metriken::MetricEntry) -> (usize, String) {
    (e as *const _ as usize, e.name().to_string())
}

fn listing(all: &Metrics, live: &[DynBoxedMetric<Counter>], rng: &mut Rng) {
    // What must be there, once each.
    let statics = crate::statics(all);
    let fwd_dyn: Vec<_> = {
        let mut it = all.dynamic_metrics();
        let mut v = vec![];
        while let Some(e) = it.next() {
            check!(v.len() < 100_000, "the dynamic listing does not end");
            v.push(id(e));
        }
        v
    };
    for (i, m) in live.iter().enumerate() {
        // All of them, or of a crowd the ones around the edges and some more.
        if live.len() > 600 && i > 8 && i + 8 < live.len() && !rng.chance(20, live.len()) {
            continue;
        }
        let n = all.dynamic_metrics().filter(|e| e.is(&**m)).count();
        check_eq!(n, 1, "times a registered metric is in the dynamic listing");
    }
    check_eq!(fwd_dyn.len(), live.len(), "dynamic entries");
    let mut places: Vec<usize> = fwd_dyn.iter().map(|x| x.0).collect();
    places.sort();
    places.dedup();
    check_eq!(places.len(), live.len(), "different dynamic entries");
    let crowd = if live.len() > 600 { 5 } else { 1 };
    for _ in 0..4 * crowd {
        drive("dynamic_metrics", all.dynamic_metrics().map_id(), &fwd_dyn, rng, Some(|i| i.len()));
    }
    check_eq!(all.dynamic_metrics().count(), live.len(), "count of the dynamic listing");
    check_eq!(all.dynamic_metrics().last().map(id), fwd_dyn.last().cloned(), "last of the dynamic listing");
    if mon::MIRI {
        return;
    }
    let fwd: Vec<_> = {
        let mut it = all.iter();
        let mut v = vec![];
        while let Some(e) = it.next() {
            check!(v.len() < 100_000, "the listing does not end");
            v.push(id(e));
        }
        v
    };
    let mut a = fwd.clone();
    a.sort();
    let mut b: Vec<_> = statics.iter().map(id).chain(fwd_dyn).collect();
    b.sort();
    check_eq!(a, b, "entries of the whole listing against static and dynamic ones");
    check_eq!(all.iter().count(), fwd.len(), "count of the whole listing");
    check_eq!(all.iter().last().map(id), fwd.last().cloned(), "last of the whole listing");
    check_eq!(all.iter().rev().count(), fwd.len(), "count of the whole listing from the back");
    for _ in 0..6 * crowd {
        drive("metrics", Ids(all.iter()), &fwd, rng, None);
    }
    for _ in 0..2 * crowd {
        drive("&metrics", Ids((&*all).into_iter()), &fwd, rng, None);
    }
    stat_population(statics.len(), live.len());
}

fn stat_population(s: usize, d: usize) {
    mon::stat_max("max_static", s as u64);
    mon::stat_max("max_dynamic", d as u64);
}

/// Yields identities while forwarding every method to the iterator under test
/// (`Map` would not forward `nth`, `count` or `last`).
struct Ids<I>(I);

trait MapId: Sized {
    fn map_id(self) -> Ids<Self> {
        Ids(self)
    }
}
impl<'a> MapId for metriken::DynMetricsIter<'a> {}

type Id = (usize, String);

impl<'a, I: Iterator<Item = &'a metriken::MetricEntry>> Iterator for Ids<I> {
    type Item = Id;
    fn next(&mut self) -> Option<Id> {
        self.0.next().map(id)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn nth(&mut self, n: usize) -> Option<Id> {
        self.0.nth(n).map(id)
    }
    fn count(self) -> usize {
        self.0.count()
    }
    fn last(self) -> Option<Id> {
        self.0.last().map(id)
    }
    fn fold<B, F: FnMut(B, Id) -> B>(self, init: B, mut f: F) -> B {
        self.0.fold(init, |b, e| f(b, id(e)))
    }
}
impl<'a, I: DoubleEndedIterator<Item = &'a metriken::MetricEntry>> DoubleEndedIterator for Ids<I> {
    fn next_back(&mut self) -> Option<Id> {
        self.0.next_back().map(id)
    }
    fn nth_back(&mut self, n: usize) -> Option<Id> {
        self.0.nth_back(n).map(id)
    }
    fn rfold<B, F: FnMut(B, Id) -> B>(self, init: B, mut f: F) -> B {
        self.0.rfold(init, |b, e| f(b, id(e)))
    }
}
impl<'a, I: ExactSizeIterator<Item = &'a metriken::MetricEntry>> ExactSizeIterator for Ids<I> {
    fn len(&self) -> usize {
        self.0.len()
    }
}

fn metadata(md: &Metadata, want: &HashMap<String, String>, rng: &mut Rng) {
    let mut seq: Vec<(&str, &str)> = vec![];
    let mut it = md.iter();
    while let Some(kv) = it.next() {
        check!(seq.len() <= want.len(), "metadata iteration yields more than the {} pairs", want.len());
        seq.push(kv);
    }
    for _ in 0..3 {
        check!(it.next().is_none() && it.nth(rng.below(3)).is_none(), "exhausted metadata iterator yields more");
        check_eq!(it.len(), 0, "len of an exhausted metadata iterator");
        check_eq!(it.size_hint(), (0, Some(0)), "size_hint of an exhausted metadata iterator");
    }
    let mut got = seq.clone();
    got.sort();
    let mut exp: Vec<(&str, &str)> = want.iter().map(|(k, v)| (&**k, &**v)).collect();
    exp.sort();
    check_eq!(got, exp, "metadata pairs by iteration");
    for _ in 0..6 {
        let mut it = if rng.chance(1, 2) { md.iter() } else { md.into_iter() };
        let mut w = Window { seq: &seq, log: vec![], what: "metadata" };
        for _ in 0..rng.below(seq.len() + 4) {
            hint(it.size_hint(), &w);
            check_eq!(it.len(), w.seq.len(), "metadata: {:?}: len", w.log);
            if rng.chance(1, 6) {
                // A clone continues from here, independently.
                let c = it.clone();
                w.log.push("clone".into());
                if rng.chance(1, 2) {
                    check_eq!(c.collect::<Vec<_>>(), w.seq.to_vec(), "metadata: {:?}", w.log);
                } else {
                    let old = std::mem::replace(&mut it, c);
                    let _ = old.count();
                }
            }
            front_step(&mut it, rng, &mut w);
        }
        finish_forward(it, rng, &mut w);
        stat("metadata_drives", 1);
        distinct(&("metadata", seq.len(), &w.log));
    }
}

pub fn run(ctx: &Ctx) {
    let n = ctx.many(6, 1200, 20_000);
    ctx.cases("listing", n, 55, |rng, case| {
        let n = match case % 6 {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => rng.range(3, 8),
            4 => rng.range(8, 45),
            _ if rng.chance(1, 20) => rng.range(100, 600),
            _ => rng.below(16),
        };
        let n = if mon::MIRI { n.min(5) } else { n };
        let same = rng.chance(1, 3);
        let live: Vec<_> = (0..n)
            .map(|i| MetricBuilder::new(if same { "same".into() } else { format!("m{i}") }).build(Counter::new()))
            .collect();
        let all = metriken::metrics();
        listing(&all, &live, rng);
    });
    // More metrics than a small counter can hold.
    ctx.cases("crowd", if mon::MIRI { 0 } else { ctx.n(0, 12, 60) }, 20, |rng, case| {
        let n = match case {
            0 => 66_000,
            1 => 257,
            2 => 1025,
            _ => rng.range(256, 5000),
        };
        let live: Vec<_> = (0..n).map(|i| MetricBuilder::new(format!("m{}", i % 700)).build(Counter::new())).collect();
        let all = metriken::metrics();
        listing(&all, &live, rng);
        drop(all);
        // Dropped newest first, the cheaper way round.
        live.into_iter().rev().for_each(drop);
    });
    ctx.cases("metadata", n, 25, |rng, case| {
        let n = match case % 5 {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => rng.below(12),
            _ if !mon::MIRI && rng.chance(1, 30) => rng.range(200, 600),
            _ => rng.below(65),
        };
        let mut want = HashMap::new();
        let mut b = MetricBuilder::new("m");
        while want.len() < n {
            let (k, v) = (format!("{}{}", rng.string(), want.len()), rng.string());
            want.insert(k.clone(), v.clone());
            b = b.metadata(k, v);
        }
        let m = b.build(Counter::new());
        let all = metriken::metrics();
        match all.dynamic_metrics().find(|e| e.is(&*m)) {
            Some(e) => metadata(e.metadata(), &want, rng),
            None => mon::violation("a registered metric is not in the dynamic listing"),
        }
        drop(all);
        let own = Metadata::new(want.clone());
        metadata(&own, &want, rng);
        metadata(&own.clone(), &want, rng);
        if n == 0 {
            metadata(&Metadata::default(), &want, rng);
        }
    });
    if mon::MIRI {
        return;
    }
    let declared = crate::STATIC_DECLS.lock().unwrap().clone();
    ctx.cases("static_metadata", if declared.is_empty() { 0 } else { n / 2 }, 20, |rng, _| {
        let all = metriken::metrics();
        for crate::Decl { name, metadata: want, .. } in &declared {
            let Some(e) = all.static_metrics().iter().find(|e| e.name() == *name) else {
                mon::violation(format!("static metric {name} is not listed"))
            };
            let want = want.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
            metadata(e.metadata(), &want, rng);
        }
    });
}
