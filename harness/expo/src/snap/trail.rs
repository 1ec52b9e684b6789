//! C25: from live metrics through snapshots and their serialised stream to the
//! table, the history of every metric arrives unchanged.

use super::*;
use crate::conv::{self, column_name, Setup};
use crate::model::{Hist, Rec, Snap};
use crate::table::{self, Cell as Field};
use std::time::UNIX_EPOCH;

fn since(t: SystemTime) -> std::time::Duration {
    t.duration_since(UNIX_EPOCH).unwrap_or_else(|_| violation("a snapshot claims a time before 1970"))
}

/// What a row has to say.
fn row(records: &[Record], own: &BTreeMap<String, String>, taken: &Snapshot) -> Snap {
    let mut s = Snap {
        time: since(taken.systemtime()),
        duration: taken.duration(),
        metadata: own.clone(),
        counters: vec![],
        gauges: vec![],
        hists: vec![],
    };
    for r in records {
        let (name, labels) = (r.name.clone(), r.labels.clone());
        match &r.reading {
            Reading::Counter(value) => s.counters.push(Rec { name, labels, value: *value }),
            Reading::Gauge(value) => s.gauges.push(Rec { name, labels, value: *value }),
            Reading::Histogram(gp, mvp, b) => {
                s.hists.push(Rec { name, labels, value: Hist { gp: *gp, mvp: *mvp, buckets: b.clone() } })
            }
        }
    }
    s
}

/// The column a metric goes to, whatever its kind.
fn place(f: &Facts) -> String {
    let r = f.record(Reading::Counter(0));
    column_name(&r.name, &r.labels)
}

/// As the parts of a program that live elsewhere would see it.
fn transported(r: &mut Rng, s: Snapshot) -> Snapshot {
    fn must<T, E: std::fmt::Display>(what: &str, r: Result<T, E>) -> T {
        r.unwrap_or_else(|e| violation(format!("{what}: {e}")))
    }
    match r.below(4) {
        0 => {
            let b = must("to_msgpack", Snapshot::to_msgpack(&s));
            must("from msgpack", rmp_serde::from_slice(&b))
        }
        1 => {
            let b = must("to_json", Snapshot::to_json(&s));
            must("from json", serde_json::from_slice(&b))
        }
        _ => s,
    }
}

fn judge(r: &mut Rng, taken: &[Snapshot], want: &[Snap], what: &str) -> table::Table {
    let set = Setup::random(r, want.len());
    let (n, bytes) = conv::convert_taken(taken, &set);
    check_eq!(n, want.len() as i64, "{what}: rows reported; {set:?}");
    let t = table::read(bytes).unwrap_or_else(|e| violation(format!("{what}: unreadable table: {e}; {set:?}")));
    stat("rows", t.rows as u64);
    stat("columns", t.columns.len() as u64);
    let r = conv::cells(&t, want, set.sparse).and_then(|_| conv::columns(&t, want, &set));
    if let Err(e) = r {
        let log: String = format!("{want:?}").chars().take(1500).collect();
        violation(format!("{what}: {e}; {set:?}; the metrics went through {log}"))
    }
    t
}

pub fn run(ctx: &Ctx) {
    let fixed = statics();
    let reserved: BTreeSet<String> = fixed.iter().map(|(f, _)| place(f)).collect();
    let mut r0 = ctx.rng("lasting", 0);
    let lasting = snapshotter(&mut r0);
    ctx.cases("history", ctx.many(0, 500, 15_000), 65, |r, case| {
        let mut pop: Pop = Vec::new();
        let fresh = snapshotter(r);
        let size = match r.below(20) {
            0 => r.range(60, 150),
            1..=4 => r.range(10, 30),
            _ => r.range(0, 9),
        };
        let rows = match r.below(12) {
            0 => r.range(40, 90),
            1 => r.range(0, 1),
            _ => r.range(2, 9),
        };
        // One snapshotter for the whole of a recording.
        let (s, own) = if r.chance(1, 2) { &lasting } else { &fresh };
        let rule = if r.chance(2, 3) { Rule::All } else { Rule::random(r) };
        let unique = |f: &Facts, pop: &Pop| !reserved.contains(&place(f)) && pop.iter().all(|(g, _)| place(f) != place(g));
        // Facts come back now and then, so that columns are resumed.
        let mut past: Vec<Facts> = Vec::new();
        let (mut taken, mut want) = (Vec::new(), Vec::new());
        for _ in 0..rows {
            for _ in pop.len()..size {
                let f = if !past.is_empty() && r.chance(1, 3) { past.swap_remove(r.below(past.len())) } else { Facts::random(r) };
                // Metrics that share a column are out of scope.
                if unique(&f, &pop) {
                    let s = born(r, &f);
                    pop.push((f, s));
                }
            }
            let records = expected(fixed.iter().chain(&pop), rule);
            let one = with_filter(Box::new(move |e| rule.entry(e)), || s.snapshot());
            want.push(row(&records, own, &one));
            taken.push(transported(r, one));
            for _ in 0..r.range(0, 6) {
                if r.chance(1, 6) {
                    fixed[r.below(fixed.len())].1.disturb(r);
                }
                if pop.is_empty() {
                    continue;
                }
                let i = r.below(pop.len());
                match r.below(6) {
                    0 => {
                        let mut f = Facts::random(r);
                        f.labels = pop[i].0.labels.clone();
                        f.custom = pop[i].0.custom;
                        if unique(&f, &pop) && pop[i].1.renew(&f) {
                            pop[i].0 = f;
                        }
                    }
                    1 => past.push(pop.swap_remove(i).0),
                    _ => pop[i].1.disturb(r),
                }
            }
        }
        let t = judge(r, &taken, &want, &format!("case {case}, {rule:?}"));
        stat("snapshots", rows as u64);
        distinct(&(hash_of(&want), hash_of(&rule)));
        sample(|| format!("{rows} snapshots of up to {size} metrics ({rule:?}): {} columns", t.columns.len()));
    });
    // A recorder that runs beside the updates.
    ctx.cases("beside", ctx.many(0, 25, 600), 35, |r, case| {
        let counters: Vec<_> = (0..r.range(1, 4)).map(|i| (MetricBuilder::new(format!("c{i}")).build(Counter::new()), Tally::default())).collect();
        let rows = r.range(5, 60);
        let stop = AtomicBool::new(false);
        let s = SnapshotterBuilder::new().filter(|e| e.name().starts_with('c')).build();
        let seed = r.next();
        let (taken, bounds) = std::thread::scope(|sc| {
            for t in 0..3 {
                let (counters, stop) = (&counters, &stop);
                let mut r = Rng::new(seed ^ t);
                sc.spawn(move || {
                    while !stop.load(SeqCst) {
                        let (c, n) = &counters[r.below(counters.len())];
                        n.begun.fetch_add(1, SeqCst);
                        c.increment();
                        n.ended.fetch_add(1, SeqCst);
                        if r.chance(1, 50) {
                            std::thread::yield_now();
                        }
                    }
                });
            }
            let (mut taken, mut bounds) = (Vec::new(), Vec::new());
            for _ in 0..rows {
                let low: Vec<u64> = counters.iter().map(|c| c.1.lower()).collect();
                taken.push(s.snapshot());
                let high: Vec<u64> = counters.iter().map(|c| c.1.begun.load(SeqCst)).collect();
                bounds.push((low, high));
                tick();
            }
            stop.store(true, SeqCst);
            (taken, bounds)
        });
        let set = Setup::random(r, rows);
        let (n, bytes) = conv::convert_taken(&taken, &set);
        check_eq!(n, rows as i64, "case {case}: rows reported");
        let t = table::read(bytes).unwrap_or_else(|e| violation(format!("unreadable table: {e}; {set:?}")));
        let at = table::index(&t).unwrap_or_else(|e| violation(e));
        let mut last = vec![0; counters.len()];
        for (row, (low, high)) in bounds.iter().enumerate() {
            for i in 0..counters.len() {
                let Some(&c) = at.get(&(format!("c{i}"), "counter".to_string())) else { violation(format!("no column c{i}")) };
                let Field::U(v) = t.columns[c].cells[row] else { violation(format!("row {row} of c{i}: {:?}", t.columns[c].cells[row])) };
                check!(
                    v >= low[i].max(last[i]) && v <= high[i],
                    "row {row} of c{i} says {v}: {} increments had ended before that snapshot, {} begun at its end, and the row before says {}",
                    low[i], high[i], last[i]
                );
                last[i] = v;
            }
        }
        stat("cells_written_beside_updates", (rows * counters.len()) as u64);
        distinct(&("beside", last));
    });
    conv::unscratch();
}
