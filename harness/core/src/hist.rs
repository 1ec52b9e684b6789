//! C03 and C04: the two histogram metrics.

use metriken::{AtomicHistogram, MetricBuilder, RwLockHistogram, Value};
use mon::arena::Clock;
use mon::lin::Event;
use mon::*;
use std::sync::atomic::{fence, AtomicBool, AtomicU64, Ordering};

/// Number of buckets, from the definition: values below 2^(g+1) one each, then
/// 2^g per power of two.
pub fn buckets(g: u8, m: u8) -> usize {
    (2usize << g) + (m - g - 1) as usize * (1usize << g)
}

/// Bucket of a value, by halving until it is in the linear range.
pub fn index(g: u8, v: u64) -> usize {
    let mut v = v;
    let mut halvings = 0;
    while v >= 2 << g {
        v >>= 1;
        halvings += 1;
    }
    (v as usize) + halvings * (1usize << g)
}

fn limit(m: u8) -> u64 {
    if m == 64 {
        u64::MAX
    } else {
        (1u64 << m) - 1
    }
}

/// A configuration with at most `cap` buckets.
pub fn config(r: &mut Rng, cap: usize) -> (u8, u8) {
    loop {
        let g = r.below(14) as u8;
        let m = match r.below(4) {
            0 => g + 1,
            1 => 64,
            _ => r.range(g as usize + 1, 64) as u8,
        };
        if buckets(g, m) <= cap {
            return (g, m);
        }
    }
}

/// A value biased towards the edges of buckets and of the range.
fn value(r: &mut Rng, m: u8) -> u64 {
    match r.below(8) {
        0 => r.edgy(),
        1 => limit(m).saturating_sub(r.below(3) as u64),
        2 => limit(m).saturating_add(r.range(1, 3) as u64),
        3 => limit(m).wrapping_shl(1).wrapping_add(r.below(4) as u64),
        4 => (1u64 << r.below(64)).wrapping_sub(r.below(2) as u64),
        5 => r.below(8) as u64,
        _ => r.next() >> r.range(64 - m as usize, 63),
    }
}

// --------------------------------------------------------------------- C03

pub fn atomic(ctx: &Ctx) {
    atomic_configs(ctx);
    atomic_sequential(ctx);
    atomic_first(ctx);
    atomic_concurrent(ctx);
    atomic_bare(ctx);
    atomic_many(ctx);
}

/// Every configuration up to a grouping power: accepted exactly when valid,
/// and right at every edge of its range.
fn atomic_configs(ctx: &Ctx) {
    let top = ctx.n(2, 11, 13);
    ctx.cases("configs", top, 25, |r, g| {
        let g = g as u8;
        let ms: Vec<u8> = if MIRI { vec![g + 1, 9, 64] } else { (0..=66).chain([127, 128, 255]).collect() };
        for m in ms {
            let made = catch(|| AtomicHistogram::new(g, m));
            let valid = m > g && m <= 64;
            match made {
                Err(_) => {
                    check!(!valid, "the valid configuration ({g}, {m}) was refused");
                    continue;
                }
                Ok(_) => check!(valid, "the invalid configuration ({g}, {m}) was accepted"),
            }
            let h = made.unwrap_or_else(|_| inconclusive("unreachable"));
            check_eq!(
                (h.config().grouping_power(), h.config().max_value_power(), h.config().total_buckets()),
                (g, m, buckets(g, m)),
                "configuration of AtomicHistogram::new({g}, {m})"
            );
            let mut want = vec![0u64; buckets(g, m)];
            let mut any = false;
            check!(h.load().is_none(), "({g}, {m}): load before any recording");
            let mut vals = vec![0, 1, 2, limit(m), limit(m).wrapping_add(1), u64::MAX, u64::MAX - 1];
            for p in 0..64 {
                vals.extend([(1u64 << p) - 1, 1 << p, (1 << p) + 1]);
            }
            for _ in 0..12 {
                vals.push(value(r, m));
            }
            r.shuffle(&mut vals);
            if MIRI {
                vals.truncate(16);
            }
            for v in vals {
                let got = catch(|| h.increment(v));
                let Ok(got) = got else {
                    violation(format!("({g}, {m}): increment({v}) panicked"))
                };
                check_eq!(got.is_ok(), v <= limit(m), "({g}, {m}): increment({v}) accepted");
                if got.is_ok() {
                    want[index(g, v)] += 1;
                    any = true;
                } else if !any {
                    check!(h.load().is_none(), "({g}, {m}): load after only the rejected value {v}");
                }
                stat("recordings", 1);
            }
            match h.load() {
                None => check!(!any, "({g}, {m}): nothing loaded after recordings"),
                Some(l) => {
                    check_eq!(l.as_slice(), &want[..], "({g}, {m}): buckets after recording edge values");
                    check_eq!(l.config(), h.config(), "({g}, {m}): configuration of the loaded histogram");
                }
            }
            distinct(&(g, m));
        }
    });
}

fn atomic_sequential(ctx: &Ctx) {
    ctx.cases("sequential", ctx.many(4, 3000, 30_000), 25, |r, _| {
        let (g, m) = config(r, if MIRI { 40 } else { 3000 });
        let boxed = MetricBuilder::new("h").build(AtomicHistogram::new(g, m));
        let h: &AtomicHistogram = &boxed;
        let mut want = vec![0u64; buckets(g, m)];
        let mut any = false;
        let mut trace = Vec::new();
        for _ in 0..r.range(1, if MIRI { 6 } else { 60 }) {
            if r.chance(1, 4) {
                let l = h.load();
                check_eq!(l.is_some(), any, "({g}, {m}) {trace:?}: something loaded");
                if let Some(l) = l {
                    check_eq!(l.as_slice(), &want[..], "({g}, {m}) {trace:?}: loaded buckets");
                    // The library's own bucket bounds agree.
                    for b in l.iter().filter(|b| b.count() > 0) {
                        let n = trace.iter().filter(|v| b.range().contains(v) && **v <= limit(m)).count();
                        check_eq!(b.count(), n as u64, "({g}, {m}) {trace:?}: bucket {:?}", b.range());
                    }
                }
            } else {
                let v = value(r, m);
                let Ok(got) = catch(|| h.increment(v)) else {
                    violation(format!("({g}, {m}): increment({v}) panicked"))
                };
                check_eq!(got.is_ok(), v <= limit(m), "({g}, {m}): increment({v}) accepted");
                if got.is_ok() {
                    any = true;
                    want[index(g, v)] += 1;
                }
                trace.push(v);
                stat("recordings", 1);
            }
        }
        // What the registry entry gives is this histogram.
        let all = metriken::metrics();
        let seen = all.dynamic_metrics().any(|e| match e.value() {
            Some(Value::Other(o)) => o
                .downcast_ref::<AtomicHistogram>()
                .is_some_and(|x| std::ptr::eq(x, h) && x.load().map(|l| l.as_slice().to_vec()) == any.then(|| want.clone())),
            _ => false,
        });
        check!(seen, "({g}, {m}): the entry does not report this histogram");
        distinct(&trace);
        sample(|| format!("grouping {g} max {m}: values {trace:?}"));
    });
}

/// The first recordings race each other and a reader.
fn atomic_first(ctx: &Ctx) {
    const T: usize = 4;
    ctx.cases("first", ctx.many(3, 12, 200), 25, |r, case| {
        let (g, m) = config(r, if MIRI { 20 } else if case % 4 == 0 { 30_000 } else { 300 });
        let vals: Vec<Vec<u64>> = (0..T)
            .map(|_| (0..r.range(1, 3)).map(|_| value(r, m)).collect())
            .collect();
        let mut want = vec![0u64; buckets(g, m)];
        for v in vals.iter().flatten().filter(|v| **v <= limit(m)) {
            want[index(g, *v)] += 1;
        }
        let any = want.iter().any(|c| *c > 0);
        let rounds = if buckets(g, m) > 3000 { ctx.n(1, 60, 100) } else { ctx.n(2, 1500, 1500) };
        arena::rounds(
            T + 1,
            rounds,
            |_| AtomicHistogram::new(g, m),
            |h, t, _| {
                if t < T {
                    for &v in &vals[t] {
                        check_eq!(h.increment(v).is_ok(), v <= limit(m), "increment({v}) accepted");
                        check!(
                            v > limit(m) || h.load().is_some(),
                            "({g}, {m}): nothing loaded right after recording {v}"
                        );
                    }
                    None
                } else {
                    h.load().map(|l| l.as_slice().iter().sum::<u64>())
                }
            },
            |h, res, round| {
                let got = h.load().map(|l| l.as_slice().to_vec());
                check_eq!(
                    got,
                    any.then(|| want.clone()),
                    "({g}, {m}) round {round}: buckets after the racing first recordings {vals:?}"
                );
                distinct(&(case, res[T]));
                true
            },
        );
        stat("first_races", rounds);
    });
}

/// Readers against writers: every load lies between what had finished before
/// it and what had started after it, bucket by bucket.
fn atomic_concurrent(ctx: &Ctx) {
    let (writers, readers) = if MIRI { (2, 1) } else { (5, 3) };
    ctx.cases("concurrent", ctx.many(2, 12, 150), 25, |r, case| {
        let (g, m) = config(r, if MIRI { 12 } else { 400 });
        let n = buckets(g, m);
        let per = ctx.n(12, 12_000, 20_000);
        let h = AtomicHistogram::new(g, m);
        let started: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
        let finished: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
        let stop = AtomicBool::new(false);
        let seeds: Vec<u64> = (0..writers).map(|_| r.next()).collect();
        let narrow = case % 3 == 0;
        std::thread::scope(|sc| {
            let (h, started, finished, stop) = (&h, &started, &finished, &stop);
            let ws: Vec<_> = seeds
                .iter()
                .map(|&s| {
                    sc.spawn(move || {
                        let mut r = Rng::new(s);
                        for k in 0..per {
                            let v = if narrow { r.below(2) as u64 } else { value(&mut r, m) };
                            if v > limit(m) {
                                check!(h.increment(v).is_err(), "({g}, {m}): out-of-range {v} accepted");
                                continue;
                            }
                            let i = index(g, v);
                            started[i].fetch_add(1, Ordering::SeqCst);
                            fence(Ordering::SeqCst);
                            check!(h.increment(v).is_ok(), "({g}, {m}): in-range {v} refused");
                            finished[i].fetch_add(1, Ordering::SeqCst);
                            if k % 64 == 0 {
                                tick();
                            }
                        }
                    })
                })
                .collect();
            for _ in 0..readers {
                sc.spawn(move || {
                    let mut prev = vec![0u64; n];
                    let mut seen = false;
                    let mut between = 0u64;
                    let mut loads = 0u64;
                    while !stop.load(Ordering::SeqCst) || loads == 0 {
                        let lo: Vec<u64> = finished.iter().map(|x| x.load(Ordering::SeqCst)).collect();
                        let l = h.load();
                        fence(Ordering::SeqCst);
                        let hi: Vec<u64> = started.iter().map(|x| x.load(Ordering::SeqCst)).collect();
                        loads += 1;
                        match l {
                            None => {
                                check!(!seen, "({g}, {m}): loaded nothing after having loaded something");
                                check!(
                                    lo.iter().all(|c| *c == 0),
                                    "({g}, {m}): loaded nothing although recordings had completed"
                                );
                            }
                            Some(l) => {
                                check!(
                                    seen || hi.iter().any(|c| *c > 0),
                                    "({g}, {m}): loaded something before any recording began"
                                );
                                seen = true;
                                let l = l.as_slice();
                                check_eq!(l.len(), n, "({g}, {m}): number of buckets");
                                for i in 0..n {
                                    check!(
                                        lo[i] <= l[i] && l[i] <= hi[i],
                                        "({g}, {m}): bucket {i} loaded as {}, but {} recordings had finished before and {} started by the end",
                                        l[i], lo[i], hi[i]
                                    );
                                    check!(
                                        prev[i] <= l[i],
                                        "({g}, {m}): bucket {i} went back from {} to {}",
                                        prev[i], l[i]
                                    );
                                    if lo[i] < hi[i] {
                                        between += 1;
                                    }
                                }
                                prev.copy_from_slice(l);
                            }
                        }
                        if MIRI {
                            std::thread::yield_now();
                        }
                    }
                    stat("loads", loads);
                    stat("bucket_reads_during_recording", between);
                });
            }
            for w in ws {
                if w.join().is_err() {
                    inconclusive("writer ended")
                }
            }
            stop.store(true, Ordering::SeqCst);
        });
        let want: Vec<u64> = started.iter().map(|x| x.load(Ordering::SeqCst)).collect();
        let got = h.load().map(|l| l.as_slice().to_vec());
        let none = want.iter().all(|c| *c == 0);
        check_eq!(got, (!none).then(|| want.clone()), "({g}, {m}): buckets when all is quiet");
        stat("recordings", writers as u64 * per);
        distinct(&(case, want));
    });
}

/// Loads that share nothing with the recorder but the histogram: no tally of
/// the monitor orders their memory accesses.
fn atomic_bare(ctx: &Ctx) {
    ctx.cases("bare", ctx.many(6, 200, 3000), 15, |r, case| {
        let (g, m) = config(r, if MIRI { 8 } else { 64 });
        let n = buckets(g, m);
        let h = AtomicHistogram::new(g, m);
        let (looks, per) = if MIRI { (60, 3) } else { (150, 200u64) };
        let v = limit(m).min(r.next() >> 1);
        let at = index(g, v);
        let views: Vec<Vec<u64>> = std::thread::scope(|sc| {
            let h = &h;
            let readers: Vec<_> = (0..2)
                .map(|_| {
                    sc.spawn(move || {
                        let mut last = None;
                        let mut shown = Vec::new();
                        for i in 0..looks {
                            match h.load() {
                                None => check!(last.is_none(), "({g}, {m}): loaded nothing after having loaded something"),
                                Some(l) => {
                                    let l = l.as_slice();
                                    check_eq!(l.len(), n, "({g}, {m}): number of buckets");
                                    let off = (0..n).find(|&j| j != at && l[j] != 0);
                                    check!(off.is_none(), "({g}, {m}): only {v} was recorded but bucket {off:?} is not empty");
                                    check!(l[at] <= per && last.map_or(true, |x| x <= l[at]), "({g}, {m}): bucket {at} loaded as {} after {last:?}, of {per} recordings", l[at]);
                                    if last != Some(l[at]) {
                                        shown.push(l[at]);
                                    }
                                    last = Some(l[at]);
                                    if l[at] == per {
                                        break;
                                    }
                                }
                            }
                            if i % 3 == 0 {
                                std::thread::yield_now();
                            }
                        }
                        shown
                    })
                })
                .collect();
            sc.spawn(move || {
                for _ in 0..case % 4 {
                    std::thread::yield_now();
                }
                for _ in 0..per {
                    check!(h.increment(v).is_ok(), "({g}, {m}): in-range {v} refused");
                }
            });
            readers.into_iter().map(|h| h.join().unwrap_or_else(|_| inconclusive("reader ended"))).collect()
        });
        check_eq!(h.load().map(|l| l.as_slice()[at]), Some(per), "({g}, {m}): recordings of {v}");
        stat("bare_counts_seen", views.iter().map(|v| v.len() as u64).sum());
        distinct(&("bare", g, m, views));
    });
}

/// A bucket that is hit so often that its count no longer fits 16 or 24 (and,
/// given the time, 32) bits.
fn atomic_many(ctx: &Ctx) {
    if MIRI {
        return;
    }
    let optimised = !cfg!(debug_assertions);
    ctx.cases("many", 1, 100, |r, _| {
        let (g, m) = (r.range(0, 6) as u8, r.range(8, 64) as u8);
        let h = AtomicHistogram::new(g, m);
        let v = value(r, m);
        let i = index(g, v);
        let target: u64 = if optimised && ctx.chosen("many") { (1 << 32) + 5 } else { (1 << 24) + 5 };
        let mut done = 0;
        let mut next = 200;
        while done < target {
            let until = target.min(next);
            while done < until {
                check!(h.increment(v).is_ok(), "recording number {done} of one value was refused");
                done += 1;
            }
            next = (next * 2).min(next + (1 << 24));
            let Some(l) = h.load() else { violation("nothing loaded after recordings") };
            check_eq!(l.as_slice()[i], done, "count of a bucket hit {done} times");
            check_eq!(l.as_slice().iter().filter(|c| **c != 0).count(), 1, "buckets hit after {done} recordings of one value");
            tick();
        }
        stat_max("highest_count", done);
        distinct(&"many");
    });
}

// --------------------------------------------------------------------- C04

/// Contents that identify the update: mixing two is visible in any bucket.
fn fill(id: u64, n: usize) -> Vec<u64> {
    (0..n as u64).map(|i| id.wrapping_mul(0x1_0000_01B3).wrapping_add(i ^ (id << 40))).collect()
}

pub fn bulk(ctx: &Ctx) {
    bulk_sequential(ctx);
    bulk_linear(ctx);
    bulk_stress(ctx);
    bulk_bare(ctx);
}

fn bulk_sequential(ctx: &Ctx) {
    ctx.cases("sequential", ctx.many(6, 3000, 40_000), 30, |r, case| {
        let (g, m) = config(r, if MIRI { 40 } else if case % 200 == 0 { 400_000 } else { 3000 });
        let n = buckets(g, m);
        check!(
            catch(|| RwLockHistogram::new(m, g)).is_err() && catch(|| RwLockHistogram::new(g, 65)).is_err(),
            "an invalid configuration was accepted"
        );
        let boxed = MetricBuilder::new("h").build(RwLockHistogram::new(g, m));
        let h: &RwLockHistogram = &boxed;
        let mut state: Option<Vec<u64>> = None;
        let mut past: Vec<Vec<u64>> = Vec::new();
        // Some of the updates are made by another thread than the rest.
        let elsewhere = r.chance(1, if MIRI { 3 } else { 12 });
        let mut trace = Vec::new();
        for step in 0..r.range(1, 12) {
            check_eq!(
                (h.config().grouping_power(), h.config().max_value_power(), h.config().total_buckets()),
                (g, m, n),
                "configuration"
            );
            match r.below(5) {
                0 => {
                    // Wrong lengths.
                    let len = match r.below(6) {
                        0 => 0,
                        1 => n - 1,
                        2 => n + 1,
                        3 => n * 2,
                        4 => n / 2,
                        _ => r.below(2 * n + 5),
                    };
                    if len == n {
                        continue;
                    }
                    trace.push(format!("update of {len}"));
                    let data = match &state {
                        // What is there, cut short or repeated.
                        Some(last) if r.chance(1, 2) => last.iter().cycle().take(len).copied().collect(),
                        _ => fill(99 + step as u64, len),
                    };
                    let Ok(got) = catch(|| h.update_from(&data)) else {
                        violation(format!("({g}, {m}): update with {len} of {n} buckets panicked"))
                    };
                    check!(got.is_err(), "({g}, {m}): an update with {len} of {n} buckets was accepted");
                }
                1 | 2 => {
                    let data: Vec<u64> = match (r.below(6), &state) {
                        // What was there before.
                        (0 | 4, Some(_)) if r.chance(1, 2) => r.pick(&past).clone(),
                        // Close to what is there: little differs, or only the places.
                        (4 | 5, Some(last)) => {
                            let mut d = last.clone();
                            let (i, j) = (r.below(n), r.below(n));
                            match r.below(5) {
                                0 => d[i] = r.edgy(),
                                1 => d[i] = d[i].wrapping_add(1),
                                2 => d.swap(i, j),
                                3 => {
                                    d[i] = d[i].wrapping_add(1);
                                    d[j] = d[j].wrapping_sub(1);
                                }
                                _ => d.rotate_left(i),
                            }
                            d
                        }
                        (w, _) => match w % 4 {
                        0 => vec![0; n],
                        1 => vec![u64::MAX; n],
                        2 => (0..n).map(|_| r.edgy()).collect(),
                        _ => fill(r.next(), n),
                        },
                    };
                    trace.push(format!("update {}", hash_of(&data)));
                    let ok = if elsewhere && r.chance(1, 2) {
                        std::thread::scope(|sc| sc.spawn(|| h.update_from(&data).is_ok()).join())
                            .unwrap_or_else(|_| inconclusive("updating thread ended"))
                    } else {
                        h.update_from(&data).is_ok()
                    };
                    check!(ok, "({g}, {m}): a matching update was refused");
                    past.push(data.clone());
                    state = Some(data);
                    stat("updates", 1);
                }
                _ => trace.push("load".into()),
            }
            let got = h.load();
            if let Some(l) = &got {
                check_eq!(l.config(), h.config(), "configuration of the loaded histogram");
            }
            let got = got.map(|l| l.as_slice().to_vec());
            check!(got == state, "({g}, {m}), {n} buckets, after {trace:?}: loaded buckets differ from the last accepted update (loaded something: {}, expected something: {})", got.is_some(), state.is_some());
            stat("loads", 1);
        }
        let all = metriken::metrics();
        check!(
            all.dynamic_metrics().any(|e| match e.value() {
                Some(Value::Other(o)) => o.downcast_ref::<RwLockHistogram>().is_some_and(|x| std::ptr::eq(x, h)),
                _ => false,
            }),
            "the entry does not report this histogram"
        );
        distinct(&trace);
        sample(|| format!("grouping {g} max {m}: {trace:?}"));
    });
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Seen {
    Wrote(u64),
    Nothing,
    Zeros,
    Got(u64),
}

fn identify(h: &RwLockHistogram, ids: &[u64], what: &str) -> Seen {
    match h.load() {
        None => Seen::Nothing,
        Some(l) => {
            let l = l.as_slice();
            if l.iter().all(|v| *v == 0) {
                return Seen::Zeros;
            }
            for &id in ids {
                if l == &fill(id, l.len())[..] {
                    return Seen::Got(id);
                }
            }
            let firsts: Vec<u64> = l.iter().take(4).copied().collect();
            violation(format!("{what}: loaded buckets (starting {firsts:?}) are not those of any single update"))
        }
    }
}

/// Short concurrent histories against a register of whole updates.
fn bulk_linear(ctx: &Ctx) {
    const T: usize = 3;
    ctx.cases("linear", ctx.many(2, 12, 200), 35, |r, case| {
        let (g, m) = config(r, if MIRI { 8 } else if case % 3 == 0 { 2000 } else { 64 });
        let n = buckets(g, m);
        let ids: Vec<u64> = (1..=12).collect();
        let rounds = if n > 500 { ctx.n(2, 150, 300) } else { ctx.n(2, 1000, 1500) };
        struct S {
            h: RwLockHistogram,
            clock: Clock,
            plan: Vec<Vec<Option<u64>>>,
        }
        let data: Vec<Vec<u64>> = (0..=12).map(|id| fill(id, n)).collect();
        let bad = fill(77, n + 1);
        let mut rr = r.clone();
        arena::rounds(
            T,
            rounds,
            |round| {
                let mut id = 0;
                // Every other round few contents come again and again.
                let few = round % 2 == 1;
                S {
                    h: RwLockHistogram::new(g, m),
                    clock: Clock::default(),
                    plan: (0..T)
                        .map(|_| {
                            (0..rr.range(1, 4))
                                .map(|_| {
                                    rr.chance(1, 2).then(|| {
                                        id += 1;
                                        if few { id % 2 + 1 } else { id }
                                    })
                                })
                                .collect()
                        })
                        .collect(),
                }
            },
            |s, t, _| {
                s.plan[t]
                    .iter()
                    .map(|op| {
                        let call = s.clock.stamp();
                        let op = match op {
                            Some(id) => {
                                check!(s.h.update_from(&data[*id as usize]).is_ok(), "a matching update was refused");
                                if *id % 3 == 0 {
                                    check!(s.h.update_from(&bad).is_err(), "an oversized update was accepted");
                                }
                                Seen::Wrote(*id)
                            }
                            None => identify(&s.h, &ids, "concurrent load"),
                        };
                        Event { thread: t, call, ret: s.clock.stamp(), op }
                    })
                    .collect::<Vec<_>>()
            },
            |s, hist, round| {
                let mut all: Vec<Event<Seen>> = hist.into_iter().flatten().collect();
                all.sort_by_key(|e| e.call);
                let last = all.iter().map(|e| e.ret).max().unwrap_or(0);
                all.push(Event { thread: T, call: last + 1, ret: last + 2, op: identify(&s.h, &ids, "final load") });
                // Zeros only while a first update is being made.
                for z in all.iter().filter(|e| e.op == Seen::Zeros) {
                    let first_done = all.iter().filter(|e| matches!(e.op, Seen::Wrote(_))).map(|e| e.ret).min();
                    let begun = all.iter().any(|e| matches!(e.op, Seen::Wrote(_)) && e.call < z.ret);
                    check!(
                        begun && first_done.is_some_and(|d| d > z.call),
                        "case {case} round {round}: an all-zero load outside the first update: {all:?}"
                    );
                }
                let ok = lin::linearizable(&all, 0u64, |st, op| match op {
                    Seen::Wrote(id) => Some(*id),
                    Seen::Nothing | Seen::Zeros => (*st == 0).then_some(0),
                    Seen::Got(id) => (st == id).then_some(*st),
                });
                check!(ok, "case {case} round {round}: history is not linearizable: {all:?}");
                let order: Vec<(usize, Seen)> = all.iter().map(|e| (e.thread, e.op)).collect();
                distinct(&order);
                sample(|| format!("history: {all:?}"));
                true
            },
        );
        stat("histories_checked", rounds);
    });
}

/// Many updates and loads, of large histograms too.
fn bulk_stress(ctx: &Ctx) {
    let (writers, readers) = if MIRI { (2, 1) } else { (4, 4) };
    ctx.cases("stress", ctx.many(2, 14, 150), 35, |r, case| {
        let cap = if MIRI { 8 } else { [16, 200, 1000, 8000, 60_000, 250_000][case as usize % 6] };
        let (g, m) = loop {
            let c = config(r, cap);
            if buckets(c.0, c.1) * 8 >= cap || MIRI {
                break c;
            }
        };
        let n = buckets(g, m);
        let per = if MIRI { 8 } else { (6_000_000 / (n as u64 + 200)).clamp(20, 6000) };
        let h = RwLockHistogram::new(g, m);
        let started: Vec<AtomicU64> = (0..writers).map(|_| AtomicU64::new(0)).collect();
        let finished: Vec<AtomicU64> = (0..writers).map(|_| AtomicU64::new(0)).collect();
        let live = AtomicU64::new(writers as u64);
        std::thread::scope(|sc| {
            let (h, started, finished, live) = (&h, &started, &finished, &live);
            for w in 0..writers {
                sc.spawn(move || {
                    // Bucket 0 carries (writer, sequence); the rest repeats it.
                    let mut data = vec![0u64; n];
                    for k in 1..=per {
                        let id = (k << 8) | w as u64 | 1 << 63;
                        for (i, d) in data.iter_mut().enumerate() {
                            *d = id ^ ((i as u64) << 40);
                        }
                        started[w].store(k, Ordering::SeqCst);
                        check!(h.update_from(&data).is_ok(), "a matching update was refused");
                        finished[w].store(k, Ordering::SeqCst);
                        if k % 7 == 0 {
                            check!(h.update_from(&data[1..]).is_err(), "a short update was accepted");
                        }
                        tick();
                    }
                    live.fetch_sub(1, Ordering::SeqCst);
                });
            }
            for _ in 0..readers {
                sc.spawn(move || {
                    let mut loads = 0u64;
                    let mut switches = 0u64;
                    let mut prev = 0;
                    while live.load(Ordering::SeqCst) > 0 || loads == 0 {
                        let lo: Vec<u64> = finished.iter().map(|x| x.load(Ordering::SeqCst)).collect();
                        let l = h.load();
                        let hi: Vec<u64> = started.iter().map(|x| x.load(Ordering::SeqCst)).collect();
                        loads += 1;
                        if MIRI {
                            std::thread::yield_now();
                        }
                        let done = lo.iter().any(|x| *x > 0);
                        let Some(l) = l else {
                            check!(!done, "loaded nothing although an update had completed");
                            continue;
                        };
                        let l = l.as_slice();
                        check_eq!(l.len(), n, "number of buckets");
                        let id = l[0];
                        if id == 0 {
                            check!(
                                !done && l.iter().all(|v| *v == 0),
                                "loaded zeros although an update had completed, or zeros mixed with data"
                            );
                            continue;
                        }
                        if let Some(i) = (0..n).find(|&i| l[i] != id ^ ((i as u64) << 40)) {
                            violation(format!(
                                "({g}, {m}), {n} buckets: bucket 0 is from update {id:#x} but bucket {i} holds {:#x}, from another",
                                l[i]
                            ));
                        }
                        let (w, k) = ((id & 0xff) as usize, (id & !(1 << 63)) >> 8);
                        check!(w < lo.len() && k <= hi[w], "loaded update {id:#x} before it was begun");
                        check!(
                            k >= lo[w],
                            "({g}, {m}): loaded update {k} of writer {w} although its update {} had completed before the load",
                            lo[w]
                        );
                        if id != prev {
                            switches += 1;
                        }
                        prev = id;
                    }
                    stat("loads", loads);
                    stat("distinct_updates_seen", switches);
                });
            }
        });
        stat("updates", writers as u64 * per);
        stat_max("largest_bucket_count", n as u64);
        distinct(&(case, n));
    });
}


/// Loads that share nothing with the writer but the histogram.
fn bulk_bare(ctx: &Ctx) {
    ctx.cases("bare", ctx.many(6, 200, 3000), 15, |r, case| {
        let (g, m) = config(r, if MIRI { 8 } else { 64 });
        let n = buckets(g, m);
        let h = RwLockHistogram::new(g, m);
        let (looks, per) = if MIRI { (60, 3) } else { (150, 100u64) };
        let views: Vec<Vec<u64>> = std::thread::scope(|sc| {
            let h = &h;
            let readers: Vec<_> = (0..2)
                .map(|_| {
                    sc.spawn(move || {
                        let (mut last, mut some) = (0, false);
                        let mut shown = Vec::new();
                        for i in 0..looks {
                            match h.load() {
                                None => check!(!some, "loaded nothing after having loaded something"),
                                Some(l) => {
                                    some = true;
                                    let l = l.as_slice();
                                    check_eq!(l.len(), n, "number of buckets");
                                    let id = l[0];
                                    check!(l.iter().all(|x| *x == id), "a load mixes updates: {:?}", &l[..n.min(20)]);
                                    check!(id <= per && id >= last, "loaded update {id} after update {last}, of {per}");
                                    if id != last {
                                        shown.push(id);
                                    }
                                    last = id;
                                    if id == per {
                                        break;
                                    }
                                }
                            }
                            if i % 3 == 0 {
                                std::thread::yield_now();
                            }
                        }
                        shown
                    })
                })
                .collect();
            sc.spawn(move || {
                for _ in 0..case % 4 {
                    std::thread::yield_now();
                }
                for k in 1..=per {
                    check!(h.update_from(&vec![k; n]).is_ok(), "a matching update was refused");
                }
            });
            readers.into_iter().map(|h| h.join().unwrap_or_else(|_| inconclusive("reader ended"))).collect()
        });
        check_eq!(h.load().map(|l| l.as_slice().to_vec()), Some(vec![per; n]), "buckets after the last update");
        stat("bare_updates_seen", views.iter().map(|v| v.len() as u64).sum());
        distinct(&("bare", g, m, views));
    });
}
