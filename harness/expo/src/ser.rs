//! C16: serialised snapshots read back identical.

use std::io::Cursor;
use std::time::Duration;

use metriken_exposition::{Counter, Gauge, Histogram, Snapshot, SnapshotV1, SnapshotV2};
use mon::{check, check_eq, distinct, sample, stat, Ctx, Rng};

use crate::model::*;

fn any_time(rng: &mut Rng) -> Duration {
    match rng.below(8) {
        0 => Duration::new(i64::MAX as u64 - rng.below(3) as u64, 999_999_999),
        1 => Duration::new(rng.next() >> 2, 1),
        _ => a_time(rng),
    }
}

fn any_duration(rng: &mut Rng) -> Duration {
    match rng.below(8) {
        0 => Duration::MAX,
        1 => Duration::new(rng.edgy(), 999_999_999),
        _ => a_time(rng),
    }
}

fn records<T>(rng: &mut Rng, big: bool, mut f: impl FnMut(&mut Rng) -> T) -> Vec<Rec<T>> {
    let n = match rng.below(6) {
        0 | 1 => 0,
        2 if big => rng.range(16, 40),
        3 if big => rng.range(250, 300),
        _ => rng.below(5),
    };
    (0..n)
        .map(|_| {
            let name = if rng.chance(1, 30) { "n".repeat(rng.range(200, 70_000)) } else { rng.string() };
            let max = if rng.chance(1, 20) { 40 } else { 4 };
            Rec { name, value: f(rng), labels: a_labels(rng, max) }
        })
        .collect()
}

pub fn any_snap(rng: &mut Rng, big: bool) -> Snap {
    Snap {
        time: any_time(rng),
        duration: rng.chance(1, 2).then(|| any_duration(rng)),
        metadata: a_labels(rng, 5),
        counters: records(rng, big, |r| r.edgy()),
        gauges: records(rng, big, |r| r.edgy() as i64),
        hists: records(rng, false, |r| a_hist(r, !big)),
    }
}

fn same(what: &str, got: &Snapshot, want: &Snap) {
    let got_m = Snap::of(got);
    if got_m != *want {
        let text = |s: &Snap| -> String { format!("{s:?}").chars().take(1200).collect() };
        mon::violation(format!("{what}: read back {}, written {}", text(&got_m), text(want)))
    }
    let d = Snap::drain(got.clone());
    if d != *want {
        mon::violation(format!("{what}: accessors give {:?}... for {:?}...", d.time, want.time))
    }
}

fn ok<T, E: std::fmt::Display>(what: &str, s: &Snap, r: Result<T, E>) -> T {
    match r {
        Ok(v) => v,
        Err(e) => {
            let text: String = format!("{s:?}").chars().take(1500).collect();
            mon::violation(format!("{what} failed: {e}; snapshot {text}"))
        }
    }
}

pub fn run(ctx: &Ctx) {
    // By several threads at a time.
    ctx.cases("together", ctx.many(0, 60, 1500), 15, |rng, _| {
        let seeds: Vec<u64> = (0..4).map(|_| rng.next()).collect();
        std::thread::scope(|sc| {
            for &seed in &seeds {
                sc.spawn(move || {
                    let rng = &mut Rng::new(seed);
                    for _ in 0..8 {
                        let want = any_snap(rng, false);
                        let s = want.make();
                        let mp = ok("to_msgpack", &want, Snapshot::to_msgpack(&s));
                        let js = ok("to_json", &want, Snapshot::to_json(&s));
                        same("msgpack beside others", &ok("from_slice", &want, rmp_serde::from_slice(&mp)), &want);
                        same("json beside others", &ok("from_slice", &want, serde_json::from_slice(&js)), &want);
                        stat("written_beside_others", 2);
                    }
                });
            }
        });
        distinct(&seeds);
    });
    ctx.cases("single", ctx.many(0, 3000, 80_000), 45, |rng, case| {
        let big = case % 7 == 0;
        let want = any_snap(rng, big);
        distinct(&want);
        sample(|| format!("{want:?}"));
        let s = want.make();
        let mp = ok("to_msgpack", &want, Snapshot::to_msgpack(&s));
        let js = ok("to_json", &want, Snapshot::to_json(&s));
        stat("msgpack_bytes", mp.len() as u64);
        stat("json_bytes", js.len() as u64);
        check_eq!(js.iter().filter(|b| **b == b'\n').count(), 1, "line feeds in a JSON snapshot");
        check_eq!(js.last(), Some(&b'\n'), "last byte of a JSON snapshot");
        same("msgpack", &ok("from_slice", &want, rmp_serde::from_slice(&mp)), &want);
        same("msgpack reader", &ok("from_read", &want, rmp_serde::from_read(Cursor::new(&mp))), &want);
        same("json", &ok("from_slice", &want, serde_json::from_slice(&js)), &want);
        same("json reader", &ok("from_reader", &want, serde_json::from_reader(Cursor::new(&js))), &want);
        // Again from what was read: nothing is lost on the way.
        let back: Snapshot = ok("from_slice", &want, rmp_serde::from_slice(&mp));
        let js2 = ok("to_json", &want, Snapshot::to_json(&back));
        same("msgpack, then json", &ok("from_slice", &want, serde_json::from_slice(&js2)), &want);
        // The versions by themselves.
        match want.duration {
            None => {
                let v = want.v1();
                let mp1 = ok("to_msgpack", &want, Snapshot::to_msgpack(&v));
                let js1 = ok("to_json", &want, Snapshot::to_json(&v));
                let a: SnapshotV1 = ok("SnapshotV1 from msgpack", &want, rmp_serde::from_slice(&mp1));
                let b: SnapshotV1 = ok("SnapshotV1 from json", &want, serde_json::from_slice(&js1));
                check!(Snap::of_v1(&a) == want && Snap::of_v1(&b) == want, "a SnapshotV1 changed");
                same("SnapshotV1 as msgpack", &ok("from_slice", &want, rmp_serde::from_slice(&mp1)), &want);
                same("SnapshotV1 as json", &ok("from_slice", &want, serde_json::from_slice(&js1)), &want);
            }
            Some(d) => {
                let v = want.v2(d);
                let mp2 = ok("to_msgpack", &want, Snapshot::to_msgpack(&v));
                let js2 = ok("to_json", &want, Snapshot::to_json(&v));
                let a: SnapshotV2 = ok("SnapshotV2 from msgpack", &want, rmp_serde::from_slice(&mp2));
                let b: SnapshotV2 = ok("SnapshotV2 from json", &want, serde_json::from_slice(&js2));
                check!(Snap::of_v2(&a) == want && Snap::of_v2(&b) == want, "a SnapshotV2 changed");
                same("SnapshotV2 as msgpack", &ok("from_slice", &want, rmp_serde::from_slice(&mp2)), &want);
                same("SnapshotV2 as json", &ok("from_slice", &want, serde_json::from_slice(&js2)), &want);
            }
        }
    });
    ctx.cases("stream", ctx.many(0, 500, 12_000), 25, |rng, _| {
        let n = if rng.chance(1, 10) { rng.range(20, 60) } else { rng.below(6) };
        let want: Vec<Snap> = (0..n).map(|_| any_snap(rng, false)).collect();
        let (mut mp, mut js) = (vec![], vec![]);
        for s in &want {
            mp.extend(ok("to_msgpack", s, Snapshot::to_msgpack(&s.make())));
            js.extend(ok("to_json", s, Snapshot::to_json(&s.make())));
        }
        let mut cur = Cursor::new(&mp);
        for (i, s) in want.iter().enumerate() {
            let got: Snapshot = ok("stream from_read", s, rmp_serde::from_read(&mut cur));
            same(&format!("msgpack stream, item {i} of {n}"), &got, s);
        }
        check_eq!(cur.position() as usize, mp.len(), "bytes consumed of a msgpack stream");
        let got: Vec<_> = serde_json::Deserializer::from_slice(&js).into_iter::<Snapshot>().collect();
        check_eq!(got.len(), want.len(), "items of a JSON stream");
        for (i, (g, s)) in got.into_iter().zip(&want).enumerate() {
            same(&format!("JSON stream, item {i} of {n}"), &ok("JSON stream", s, g), s);
        }
        let lines: Vec<&[u8]> = js.split(|b| *b == b'\n').filter(|l| !l.is_empty()).collect();
        check_eq!(lines.len(), want.len(), "lines of a JSON stream");
        for (l, s) in lines.iter().zip(&want) {
            same("JSON line", &ok("JSON line", s, serde_json::from_slice(l)), s);
        }
        distinct(&want);
    });
    // More of everything than 16 bits count.
    ctx.cases("large", ctx.many(0, 4, 60), 15, |rng, case| {
        let mut want = any_snap(rng, false);
        let n = rng.range(65_530, 66_500);
        match case % 4 {
            0 => want.counters = (0..n).map(|i| Rec { name: i.to_string(), value: rng.edgy(), labels: Labels::new() }).collect(),
            1 => want.gauges = (0..n).map(|i| Rec { name: i.to_string(), value: rng.edgy() as i64, labels: Labels::new() }).collect(),
            2 => {
                let labels = (0..n).map(|i| (i.to_string(), rng.string())).collect();
                want.hists.push(Rec { name: "h".repeat(n), value: fill(rng, 12, 30), labels })
            }
            _ => want.metadata = (0..n).map(|i| (rng.string() + &i.to_string(), "v".repeat(rng.below(3)))).collect(),
        }
        let s = want.make();
        let mp = ok("to_msgpack", &want, Snapshot::to_msgpack(&s));
        let js = ok("to_json", &want, Snapshot::to_json(&s));
        same("msgpack", &ok("from_slice", &want, rmp_serde::from_slice(&mp)), &want);
        same("json", &ok("from_slice", &want, serde_json::from_slice(&js)), &want);
        distinct(&("large", n, case));
    });
    // Data from before snapshots had metadata.
    ctx.cases("older", ctx.many(0, 600, 15_000), 20, |rng, _| {
        let mut want = any_snap(rng, false);
        want.metadata.clear();
        let js = ok("to_json", &want, Snapshot::to_json(&want.make()));
        let mut v: serde_json::Value = ok("parse", &want, serde_json::from_slice(&js));
        let Some(o) = v.as_object_mut() else { mon::violation("a JSON snapshot is not an object") };
        o.remove("metadata");
        let text = v.to_string();
        same("JSON without metadata", &ok("older JSON", &want, serde_json::from_str(&text)), &want);
        let mp = rmp_serde::to_vec(&v).expect("msgpack of a map");
        same("msgpack map without metadata", &ok("older msgpack", &want, rmp_serde::from_slice(&mp)), &want);
        distinct(&("older", &want));
    });
    // Records on their own.
    ctx.cases("records", ctx.many(0, 600, 15_000), 10, |rng, _| {
        let s = any_snap(rng, false);
        for r in &s.counters {
            let b = ok("to_msgpack", &s, Snapshot::to_msgpack(&counter(r)));
            let c: Counter = ok("Counter", &s, rmp_serde::from_slice(&b));
            check_eq!(of_counter(&c), *r, "counter record");
        }
        for r in &s.gauges {
            let b = ok("to_json", &s, Snapshot::to_json(&gauge(r)));
            let c: Gauge = ok("Gauge", &s, serde_json::from_slice(&b));
            check_eq!(of_gauge(&c), *r, "gauge record");
        }
        for r in &s.hists {
            let b = ok("to_json", &s, Snapshot::to_json(&hist(r)));
            let c: Histogram = ok("Histogram", &s, serde_json::from_slice(&b));
            check_eq!(of_hist(&c), *r, "histogram record");
        }
    });
}
