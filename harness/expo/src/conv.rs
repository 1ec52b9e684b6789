//! C17 (rows and cells), C18 (columns, metadata, row groups, compression) and
//! C19 (column names).

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{Cursor, Seek, SeekFrom};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

use metriken_exposition::{
    MsgpackToParquet, ParquetCompression, ParquetHistogramType, ParquetOptions, ParquetSchema, Snapshot, SnapshotV1,
};
use mon::{check, check_eq, distinct, sample, stat, Ctx, Rng};

use crate::model::*;
use crate::table::{self, Cell, Table};

/// The column name promised for a metric.
pub fn column_name(name: &str, labels: &Labels) -> String {
    let Some(metric) = labels.get("metric") else { return name.to_string() };
    let first = ["name", "op", "state", "direction"];
    let never = ["metric", "unit", "grouping_power", "max_value_power"];
    let mut parts = vec![metric.clone()];
    parts.extend(first.iter().filter_map(|k| labels.get(*k)).cloned());
    let mut others: Vec<(&String, &String)> = labels
        .iter()
        .filter(|(k, _)| !first.contains(&&***k) && !never.contains(&&***k) && *k != "id")
        .collect();
    others.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
    parts.extend(others.into_iter().map(|(_, v)| v.clone()));
    parts.extend(labels.get("id").cloned());
    parts.join("/")
}

#[derive(Clone, Debug)]
pub struct Setup {
    pub sparse: bool,
    pub batch: Option<usize>,
    /// None: leave the default.
    pub zstd: Option<Option<i32>>,
    pub route: usize,
    /// Where the handle of the input stands when it is handed over.
    pub at: u64,
    pub caller: Vec<(String, String)>,
}

impl Setup {
    pub fn plain() -> Self {
        Setup { sparse: false, batch: None, zstd: None, route: 1, at: 0, caller: vec![] }
    }
    pub fn options(&self) -> ParquetOptions {
        let mut o = ParquetOptions::new();
        if self.sparse {
            o = o.histogram_type(ParquetHistogramType::Sparse);
        }
        if let Some(b) = self.batch {
            o = o.max_batch_size(b);
        }
        match self.zstd {
            None => {}
            Some(None) => o = o.compression(ParquetCompression::none()),
            Some(Some(l)) => match ParquetCompression::zstd(l) {
                Ok(c) => o = o.compression(c),
                Err(e) => mon::violation(format!("zstd level {l} refused: {e}")),
            },
        }
        o
    }
    pub fn random(rng: &mut Rng, rows: usize) -> Self {
        let mut s = Setup {
            sparse: rng.chance(1, 2),
            batch: match rng.below(6) {
                0 => None,
                1 => Some(1),
                2 => Some(rng.range(2, 8)),
                3 => Some(rows.max(1)),
                4 => Some(rows + 1),
                _ => Some(rng.range(1, rows.max(2))),
            },
            zstd: match rng.below(4) {
                0 => None,
                1 => Some(None),
                _ if rng.chance(1, 20) => Some(Some(*rng.pick(&[9, 9, 9, 15]))),
                _ => Some(Some(*rng.pick(&[1, 2, 3, 4]))),
            },
            route: rng.below(4),
            at: match rng.below(6) {
                0 => u64::MAX,
                1 => rng.below(2000) as u64,
                _ => 0,
            },
            caller: (0..rng.below(4)).map(|_| (meta_key(rng), rng.string())).collect(),
        };
        if matches!(s.zstd, Some(Some(5..))) {
            // A page costs milliseconds then: not too many of them.
            s.batch = None;
        }
        s
    }
}

/// File metadata keys, few enough to collide with each other.
fn meta_key(rng: &mut Rng) -> String {
    match rng.below(4) {
        0 => rng.string(),
        _ => rng.pick(&["source", "version", "a", "b", ""]).to_string(),
    }
}

/// This process's directory.
fn home() -> PathBuf {
    std::env::temp_dir().join(format!("hexpo-{}", std::process::id()))
}
/// A directory for this thread.
pub fn scratch() -> PathBuf {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    thread_local!(static MINE: usize = NEXT.fetch_add(1, SeqCst));
    let d = home().join(MINE.with(|m| m.to_string()));
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}
pub fn unscratch() {
    let _ = std::fs::remove_dir_all(home());
}

pub fn msgpack(snaps: &[Snap]) -> Vec<u8> {
    packed(&snaps.iter().map(Snap::make).collect::<Vec<_>>())
}

fn packed(snaps: &[Snapshot]) -> Vec<u8> {
    let mut v = vec![];
    for s in snaps {
        match Snapshot::to_msgpack(s) {
            Ok(b) => v.extend(b),
            Err(e) => mon::violation(format!("a snapshot cannot be written as msgpack: {e}")),
        }
    }
    v
}

/// Convert by the chosen interface; the number of rows reported and the bytes.
pub fn convert(snaps: &[Snap], set: &Setup) -> (i64, Vec<u8>) {
    convert_taken(&snaps.iter().map(Snap::make).collect::<Vec<_>>(), set)
}

/// The same for snapshots as they are.
pub fn convert_taken(snaps: &[Snapshot], set: &Setup) -> (i64, Vec<u8>) {
    fn must<T>(what: &str, r: Result<T, parquet::errors::ParquetError>) -> T {
        match r {
            Ok(v) => v,
            Err(e) => mon::violation(format!("{what} failed on good input: {e}")),
        }
    }
    let mut conv = MsgpackToParquet::with_options(set.options());
    for (k, v) in &set.caller {
        conv = conv.metadata(k.clone(), v.clone());
    }
    match set.route {
        0 => {
            let mut schema = ParquetSchema::new();
            for s in snaps {
                schema.push(s.clone());
            }
            let caller: HashMap<String, String> = set.caller.iter().cloned().collect();
            let caller = (!caller.is_empty()).then_some(caller);
            let mut out = vec![];
            let mut w = must("ParquetSchema::finalize", schema.finalize(&mut out, set.options(), caller));
            for s in snaps {
                must("ParquetWriter::push", w.push(s.clone()));
            }
            let n = must("ParquetWriter::finalize", w.finalize()).num_rows;
            (n, out)
        }
        1 => {
            let mut out = vec![];
            let mut input = Cursor::new(packed(snaps));
            input.set_position(set.at.min(input.get_ref().len() as u64));
            let n = must("convert_file_handle", conv.convert_file_handle(input, &mut out));
            (n, out)
        }
        2 => {
            let (i, o) = (scratch().join("in"), scratch().join("out"));
            std::fs::write(&i, packed(snaps)).expect("write input");
            let n = must("convert_file_path", conv.convert_file_path(&i, &o));
            (n, std::fs::read(&o).expect("read output"))
        }
        _ => {
            let (i, o) = (scratch().join("in2"), scratch().join("out2"));
            let bytes = packed(snaps);
            std::fs::write(&i, &bytes).expect("write input");
            let mut input = std::fs::File::open(&i).expect("open input");
            input.seek(SeekFrom::Start(set.at.min(bytes.len() as u64))).expect("seek");
            let output = std::fs::File::create(&o).expect("create output");
            let n = must("convert_file_handle", conv.convert_file_handle(input, output));
            (n, std::fs::read(&o).expect("read output"))
        }
    }
}

fn nanos(d: std::time::Duration) -> u64 {
    d.as_nanos() as u64
}

/// Every row and cell; also used for the conversions that survive faults.
pub fn cells(t: &Table, snaps: &[Snap], sparse: bool) -> Result<(), String> {
    if t.rows != snaps.len() {
        return Err(format!("{} rows for {} snapshots", t.rows, snaps.len()));
    }
    let at = table::index(t)?;
    let hk = if sparse { "sparse_histogram" } else { "histogram" };
    let mut seen: BTreeMap<usize, usize> = BTreeMap::new();
    let mut expect = |name: &str, kind: &str, row: usize, want: Cell| -> Result<(), String> {
        let Some(&c) = at.get(&(name.to_string(), kind.to_string())) else {
            return Err(format!("no {kind} column {name:?}"));
        };
        *seen.entry(c).or_default() += 1;
        let got = &t.columns[c].cells[row];
        if *got != want {
            return Err(format!("{kind} column {name:?}, row {row}: {got:?}, expected {want:?}"));
        }
        Ok(())
    };
    for (row, s) in snaps.iter().enumerate() {
        expect("timestamp", "timestamp", row, Cell::U(nanos(s.time)))?;
        expect("duration", "duration", row, s.duration.map_or(Cell::Null, |d| Cell::U(nanos(d))))?;
        for r in &s.counters {
            expect(&column_name(&r.name, &r.labels), "counter", row, Cell::U(r.value))?;
        }
        for r in &s.gauges {
            expect(&column_name(&r.name, &r.labels), "gauge", row, Cell::I(r.value))?;
        }
        for r in &s.hists {
            let n = column_name(&r.name, &r.labels);
            let b = &r.value.buckets;
            if sparse {
                let (i, c): (Vec<u64>, Vec<u64>) =
                    b.iter().enumerate().filter(|(_, c)| **c != 0).map(|(i, c)| (i as u64, *c)).unzip();
                expect(&format!("{n}:bucket_indices"), hk, row, Cell::L(i))?;
                expect(&format!("{n}:bucket_counts"), hk, row, Cell::L(c))?;
            } else {
                expect(&format!("{n}:buckets"), hk, row, Cell::L(b.clone()))?;
            }
        }
    }
    // All the rest is null.
    for (i, c) in t.columns.iter().enumerate() {
        let filled = c.cells.iter().filter(|x| **x != Cell::Null).count();
        let recorded = if c.name == "duration" && c.kind() == "duration" {
            snaps.iter().filter(|s| s.duration.is_some()).count()
        } else {
            seen.get(&i).copied().unwrap_or(0)
        };
        if filled != recorded {
            return Err(format!(
                "{} column {:?} has {filled} values, {recorded} were recorded",
                c.kind(),
                c.name
            ));
        }
    }
    Ok(())
}

/// Schema, metadata, row groups, compression.
pub fn columns(t: &Table, snaps: &[Snap], set: &Setup) -> Result<(), String> {
    let hk = if set.sparse { "sparse_histogram" } else { "histogram" };
    let mut want: BTreeMap<(String, String), (&str, Labels)> = BTreeMap::new();
    let time = |k: &str| -> Labels {
        [("metric_type", k), ("unit", "nanoseconds")].map(|(k, v)| (k.to_string(), v.to_string())).into()
    };
    for k in ["timestamp", "duration"] {
        want.insert((k.into(), k.into()), ("u64", time(k)));
    }
    let with_kind = |l: &Labels, kind: &str| {
        let mut l = l.clone();
        l.insert("metric_type".into(), kind.into());
        l
    };
    for s in snaps {
        for r in &s.counters {
            let key = (column_name(&r.name, &r.labels), "counter".to_string());
            want.entry(key).or_insert_with(|| ("u64", with_kind(&r.labels, "counter")));
        }
        for r in &s.gauges {
            let key = (column_name(&r.name, &r.labels), "gauge".to_string());
            want.entry(key).or_insert_with(|| ("i64", with_kind(&r.labels, "gauge")));
        }
        for r in &s.hists {
            let n = column_name(&r.name, &r.labels);
            let names = if set.sparse {
                vec![format!("{n}:bucket_indices"), format!("{n}:bucket_counts")]
            } else {
                vec![format!("{n}:buckets")]
            };
            for n in names {
                want.entry((n, hk.to_string())).or_insert_with(|| ("list of u64", with_kind(&r.labels, hk)));
            }
        }
    }
    let at = table::index(t)?;
    for (key, (dtype, md)) in &want {
        let Some(&c) = at.get(key) else { return Err(format!("no column {key:?}")) };
        let c = &t.columns[c];
        if c.dtype != *dtype {
            return Err(format!("column {key:?} has type {}, expected {dtype}", c.dtype));
        }
        if c.metadata != *md {
            return Err(format!("column {key:?} has metadata {:?}, expected {md:?}", c.metadata));
        }
    }
    if let Some(k) = at.keys().find(|k| !want.contains_key(*k)) {
        return Err(format!("column {k:?} comes from no metric"));
    }
    // File metadata.
    let mut md = snaps.iter().map(|s| &s.metadata).find(|m| !m.is_empty()).cloned().unwrap_or_default();
    md.extend(set.caller.iter().cloned());
    let mut got = Labels::new();
    for (k, v) in &t.file_metadata {
        if k == "ARROW:schema" {
            continue;
        }
        if got.insert(k.clone(), v.clone().unwrap_or_else(|| "<none>".into())).is_some() {
            return Err(format!("file metadata key {k:?} occurs twice"));
        }
    }
    if got != md {
        return Err(format!("file metadata {got:?}, expected {md:?}"));
    }
    // Row groups.
    if let Some(b) = set.batch {
        let n = t.groups.len();
        for (i, g) in t.groups.iter().enumerate() {
            let g = *g as usize;
            if g > b || (i + 1 < n && g != b) {
                return Err(format!("row groups {:?} with batch size {b}", t.groups));
            }
        }
    }
    if t.groups.iter().sum::<i64>() as usize != t.rows {
        return Err(format!("row groups {:?} for {} rows", t.groups, t.rows));
    }
    match set.zstd {
        Some(None) if t.compressed.contains(&true) => Err("compressed although none was requested".into()),
        Some(Some(_)) if t.compressed.contains(&false) => Err("a column is not compressed with zstd".into()),
        _ => Ok(()),
    }
}

// ---------------------------------------------------------------- generators

/// A metric that comes and goes.
#[derive(Clone, Debug)]
struct Metric {
    kind: usize,
    name: String,
    labels: Labels,
    hist: (u8, u8),
    presence: usize, // of 8
}

const KEYS: &[&str] = &[
    "name", "op", "state", "direction", "unit", "grouping_power", "max_value_power", "id", "description", "cpu",
    "device", "a", "z", "Name", "nam", "names", "ids", "metrics", "_", "\u{e9}", "", "m", "o", "opp", "idx", "A",
    "metric_type",
];

fn labels(rng: &mut Rng, named: bool) -> Labels {
    let mut l = Labels::new();
    if named {
        let m = if rng.chance(1, 8) { rng.string() } else { rng.pick(&["cpu", "net", "blockio", ""]).to_string() };
        l.insert("metric".into(), m);
    }
    if rng.chance(1, 200) {
        for i in 0..rng.range(40, 300) {
            l.insert(format!("l{i}"), rng.below(10).to_string());
        }
    }
    let n = if rng.chance(1, 30) { rng.range(20, 60) } else { rng.below(9) };
    for _ in 0..n {
        let k = if rng.chance(1, 8) { rng.string() } else { rng.pick(KEYS).to_string() };
        if k == "PARQUET:field_id" || k == "metric" {
            continue;
        }
        let v = if rng.chance(1, 4) { rng.string() } else { rng.pick(&["1", "2", "x", "read", "", "0", "10"]).to_string() };
        l.insert(k, v);
    }
    l
}

/// Labels that may change from snapshot to snapshot without renaming.
fn drift(rng: &mut Rng, m: &Metric) -> Labels {
    let mut l = m.labels.clone();
    if rng.chance(1, 2) {
        return l;
    }
    if l.contains_key("metric") {
        for k in ["unit", "grouping_power", "max_value_power"] {
            if rng.chance(1, 3) {
                l.insert(k.into(), rng.string());
            }
        }
    } else {
        for _ in 0..rng.below(3) {
            let k = rng.string();
            if k != "metric" {
                l.insert(k, rng.string());
            }
        }
    }
    l
}

fn universe(rng: &mut Rng, n: usize, named: usize) -> Vec<Metric> {
    let mut taken = BTreeSet::new();
    let mut v = vec![];
    for i in 0..n {
        let is_named = rng.below(8) < named;
        let m = Metric {
            kind: rng.below(3),
            name: match rng.below(8) {
                0 => rng.string(),
                1 => rng.pick(&["timestamp", "duration", "h:buckets", "x:bucket_counts", ""]).to_string(),
                2 => format!("{}", rng.below(20)),
                // Names would repeat.
                3..=6 if n >= 1000 => format!("m{i}"),
                _ => rng.pick(&["x", "y", "requests", "cpu/usage", "latency", "h"]).to_string(),
            },
            labels: if rng.chance(1, 4) && !is_named { Labels::new() } else { labels(rng, is_named) },
            hist: *rng.pick(&[(0, 1), (1, 3), (2, 5), (3, 8), (5, 20)]),
            presence: *rng.pick(&[1, 3, 4, 6, 7, 8, 8]),
        };
        // One column per metric: names that coincide are out of scope.
        if taken.insert((m.kind, column_name(&m.name, &m.labels))) {
            v.push(m);
        }
    }
    v
}

fn sequence(rng: &mut Rng, all: &[Metric], rows: usize) -> Vec<Snap> {
    let mode = rng.below(3); // all v1, all v2, mixed
    // Metrics may also exist only in a stretch of the sequence.
    let life: Vec<(usize, usize)> = all
        .iter()
        .map(|_| {
            if rng.chance(1, 2) {
                (0, rows)
            } else {
                let a = rng.below(rows + 1);
                (a, rng.range(a, rows))
            }
        })
        .collect();
    let meta_from = rng.below(rows + 3);
    let repeats = rng.chance(1, 3);
    let mut snaps: Vec<Snap> = (0..rows)
        .map(|row| {
            let mut s = Snap {
                time: a_time(rng),
                duration: match mode {
                    0 => None,
                    1 => Some(a_time(rng)),
                    _ => rng.chance(1, 2).then(|| a_time(rng)),
                },
                metadata: if row >= meta_from && rng.chance(1, 2) {
                    (0..rng.below(4)).map(|_| (meta_key(rng), rng.string())).collect()
                } else {
                    Labels::new()
                },
                counters: vec![],
                gauges: vec![],
                hists: vec![],
            };
            let mut order: Vec<usize> = (0..all.len()).collect();
            rng.shuffle(&mut order);
            for i in order {
                let m = &all[i];
                let (a, b) = life[i];
                if row < a || row >= b || rng.below(8) >= m.presence {
                    continue;
                }
                let (name, labels) = (m.name.clone(), drift(rng, m));
                match m.kind {
                    0 => s.counters.push(Rec { name, labels, value: rng.edgy() }),
                    1 => s.gauges.push(Rec { name, labels, value: rng.edgy() as i64 }),
                    _ => {
                        let (gp, mvp) = if rng.chance(1, 8) { (0, 4) } else { m.hist };
                        s.hists.push(Rec { name, labels, value: fill(rng, gp, mvp) })
                    }
                }
            }
            s
        })
        .collect();
    // Snapshots that say exactly the same, or the same at another time.
    if repeats && rows > 1 {
        for _ in 0..rng.range(1, 3) {
            let i = rng.range(1, rows - 1);
            let (time, j) = (snaps[i].time, if rng.chance(2, 3) { i - 1 } else { rng.below(i) });
            snaps[i] = snaps[j].clone();
            if rng.chance(1, 2) {
                snaps[i].time = time;
            }
        }
    }
    snaps
}

fn rows(rng: &mut Rng, case: u64) -> usize {
    match case % 12 {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => rng.range(60, 200),
        _ => rng.range(2, 12),
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Focus {
    Cells,
    Columns,
    Names,
}

fn one(rng: &mut Rng, rows: usize, metrics: usize, named: usize, focus: Focus, route: Option<usize>) {
    let all = universe(rng, metrics, named);
    let snaps = sequence(rng, &all, rows);
    compare(rng, &snaps, route, focus);
}

fn compare(rng: &mut Rng, snaps: &[Snap], route: Option<usize>, focus: Focus) {
    let rows = snaps.len();
    let mut set = Setup::random(rng, rows);
    if let Some(r) = route {
        set.route = r % 4;
    }
    if rows > 10_000 {
        // The format allows no more than 32767 row groups.
        set.batch = set.batch.map(|b| b.max(rng.range(1000, 20_000)));
    }
    let (n, bytes) = convert(snaps, &set);
    distinct(&(snaps, set.sparse, set.batch, set.route, set.zstd));
    sample(|| format!("{rows} rows, {set:?}"));
    stat("rows", rows as u64);
    stat("bytes", bytes.len() as u64);
    let t = match table::read(bytes) {
        Ok(t) => t,
        Err(e) => mon::violation(format!("the output for {rows} snapshots is not readable: {e}; {set:?}")),
    };
    stat("columns", t.columns.len() as u64);
    stat("cells", (t.columns.len() * t.rows) as u64);
    let nulls = t.columns.iter().flat_map(|c| &c.cells).filter(|c| **c == Cell::Null).count();
    stat("null_cells", nulls as u64);
    let r = match focus {
        Focus::Cells => {
            check_eq!(n, rows as i64, "rows reported; {set:?}");
            cells(&t, snaps, set.sparse)
        }
        Focus::Columns => columns(&t, snaps, &set),
        Focus::Names => names(&t, snaps, set.sparse).and_then(|_| cells(&t, snaps, set.sparse)),
    };
    if let Err(e) = r {
        let log: String = format!("{snaps:?}").chars().take(1500).collect();
        mon::violation(format!("{e}; {set:?}; snapshots {log}"))
    }
}

/// The columns are exactly those the labels call for.
fn names(t: &Table, snaps: &[Snap], sparse: bool) -> Result<(), String> {
    let mut want = BTreeSet::new();
    let hk = if sparse { "sparse_histogram" } else { "histogram" };
    for s in snaps {
        want.extend(s.counters.iter().map(|r| (column_name(&r.name, &r.labels), "counter")));
        want.extend(s.gauges.iter().map(|r| (column_name(&r.name, &r.labels), "gauge")));
        for r in &s.hists {
            let n = column_name(&r.name, &r.labels);
            if sparse {
                want.insert((format!("{n}:bucket_indices"), hk));
                want.insert((format!("{n}:bucket_counts"), hk));
            } else {
                want.insert((format!("{n}:buckets"), hk));
            }
        }
    }
    let got: BTreeSet<(String, &str)> = t
        .columns
        .iter()
        .filter(|c| !matches!(c.kind(), "timestamp" | "duration"))
        .map(|c| (c.name.clone(), c.kind()))
        .collect();
    if got != want {
        let extra: Vec<_> = got.difference(&want).take(3).collect();
        let missing: Vec<_> = want.difference(&got).take(3).collect();
        return Err(format!("columns {extra:?} are there, {missing:?} are not"));
    }
    Ok(())
}

pub fn run_cells(ctx: &Ctx) {
    let n = ctx.many(0, 700, 20_000);
    ctx.cases("mixed", n, 55, |rng, case| {
        let r = rows(rng, case);
        let m = rng.below(14);
        one(rng, r, m, 2, Focus::Cells, None);
    });
    // Every combination of interface, representation and batch relation.
    ctx.cases("long", ctx.many(0, 10, 150), 25, |rng, case| {
        let r = rng.range(300, 2500);
        one(rng, r, 4, 1, Focus::Cells, Some(case as usize % 4));
    });
    ctx.cases("wide", ctx.many(0, 10, 150), 20, |rng, case| {
        let r = rng.range(2, 5);
        one(rng, r, 400, 3, Focus::Cells, Some(case as usize % 4));
    });
    // More buckets, rows and columns than 16 bits, or a default batch, hold.
    ctx.cases("huge_histograms", ctx.many(0, 6, 60), 25, |rng, case| {
        let hist = *rng.pick(&[(12, 28), (13, 24), (16, 17), (15, 18), (12, 64)]);
        let metric = |i: usize| Metric {
            kind: 2,
            name: format!("h{i}"),
            labels: Labels::new(),
            hist,
            presence: 8,
        };
        let all: Vec<Metric> = (0..rng.range(1, 2)).map(metric).collect();
        let rows = rng.range(2, 4);
        let mut snaps = sequence(rng, &all, rows);
        if case % 6 == 4 {
            // And one that 20 bits do not count.
            snaps[0].hists.push(Rec { name: "larger".into(), labels: Labels::new(), value: fill(rng, 15, 64) });
        }
        for h in snaps.iter_mut().flat_map(|s| &mut s.hists) {
            let n = h.value.buckets.len();
            for i in [65_535, 65_536, 65_537, 1 << 20, n - 1] {
                if i < n && rng.chance(2, 3) {
                    h.value.buckets[i] = rng.edgy();
                }
            }
        }
        compare(rng, &snaps, Some(case as usize), Focus::Cells);
    });
    ctx.cases("many_rows", ctx.many(0, 1, 8), 40, |rng, case| {
        let all: Vec<Metric> = (0..2)
            .map(|kind| Metric { kind, name: "m".into(), labels: Labels::new(), hist: (0, 1), presence: 7 })
            .collect();
        let rows = rng.range(66_000, 70_000);
        let snaps = sequence(rng, &all, rows);
        let route = case as usize + rng.below(4);
        compare(rng, &snaps, Some(route), Focus::Cells);
    });
    // Several at a time, each with its own input, output and options.
    ctx.cases("together", ctx.many(0, 25, 600), 25, |rng, _| {
        let seeds: Vec<u64> = (0..4).map(|_| rng.next()).collect();
        std::thread::scope(|sc| {
            for &seed in &seeds {
                sc.spawn(move || {
                    let rng = &mut Rng::new(seed);
                    for _ in 0..4 {
                        let (r, m, route) = (rng.range(1, 60), rng.below(10), rng.below(4));
                        one(rng, r, m, 2, Focus::Cells, Some(route));
                    }
                });
            }
        });
        stat("conversions_beside_others", 16);
    });
    ctx.cases("many_columns", ctx.many(0, 1, 10), 25, |rng, case| {
        let route = case as usize + rng.below(4);
        one(rng, 2, 4500, 1, Focus::Cells, Some(route));
    });
    unscratch();
}

/// Which levels there are, and that they make a difference.
fn levels(ctx: &Ctx) {
    ctx.cases("levels", ctx.many(0, 2, 20), 20, |rng, case| {
        for level in (-300..300).chain([i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, 1 << 16, (1 << 16) + 3, 1 << 8, 259, -65533]) {
            let r = ParquetCompression::zstd(level);
            check!(
                r.is_ok() == (1..=22).contains(&level),
                "zstd level {level}: {:?}",
                r.map(|_| "accepted").map_err(|e| e.to_string())
            );
        }
        stat("levels_asked", 609);
        // Phrases of numbers that come again and again, far apart and spoilt
        // here and there: the harder one looks, the more of them one finds.
        let phrases: Vec<Vec<u64>> =
            (0..300).map(|_| (0..rng.range(4, 40)).map(|_| rng.next() % 100_000).collect()).collect();
        let mut values: Vec<u64> = vec![];
        while values.len() < 12_000 {
            let p = rng.pick(&phrases).clone();
            let cut = rng.below(p.len());
            values.extend(&p[cut..]);
            if rng.chance(1, 3) {
                values.push(rng.next() % 100_000);
            }
        }
        let snaps: Vec<Snap> = values
            .iter()
            .enumerate()
            .map(|(i, v)| Snap {
                time: std::time::Duration::from_secs(i as u64),
                duration: None,
                metadata: Labels::new(),
                counters: vec![Rec { name: "c".into(), value: *v, labels: Labels::new() }],
                gauges: vec![],
                hists: vec![],
            })
            .collect();
        let size = |zstd: Option<i32>| {
            let set = Setup { zstd: Some(zstd), ..Setup::plain() };
            let (_, bytes) = convert(&snaps, &set);
            match table::read(bytes) {
                Ok(t) => {
                    if let Err(e) = columns(&t, &snaps, &set) {
                        mon::violation(format!("{e}; {set:?}"))
                    }
                    t.stored
                }
                Err(e) => mon::violation(format!("unreadable output: {e}; {set:?}")),
            }
        };
        let sizes: Vec<i64> = [None, Some(1), Some(3), Some(9), Some(19)].into_iter().map(size).collect();
        sample(|| format!("sizes at none, 1, 3, 9, 19: {sizes:?}"));
        for (i, a) in sizes.iter().enumerate() {
            check!(
                sizes[i + 1..].iter().all(|b| a != b) && (i == 0 || *a < sizes[0]),
                "uncompressed and at zstd levels 1, 3, 9 and 19 the data takes {sizes:?} bytes"
            );
        }
        distinct(&("levels", case, &sizes));
    });
}

pub fn run_columns(ctx: &Ctx) {
    levels(ctx);
    let n = ctx.many(0, 900, 25_000);
    ctx.cases("mixed", n, 60, |rng, case| {
        let r = rows(rng, case);
        let m = rng.below(14);
        one(rng, r, m, 2, Focus::Columns, None);
    });
    ctx.cases("groups", ctx.many(0, 30, 600), 20, |rng, case| {
        // Batch sizes around divisors of the number of rows.
        let rows = rng.range(10, 400);
        let all = universe(rng, 3, 0);
        let snaps = sequence(rng, &all, rows);
        let b = match case % 4 {
            0 => rows / rng.range(1, 5),
            1 => rows / rng.range(1, 5) + 1,
            2 => rows - 1,
            _ => rng.range(1, 20),
        };
        let set = Setup { batch: Some(b.max(1)), ..Setup::random(rng, rows) };
        let (_, bytes) = convert(&snaps, &set);
        match table::read(bytes) {
            Ok(t) => {
                check!(t.rows == rows, "{} rows for {rows} snapshots", t.rows);
                if let Err(e) = columns(&t, &snaps, &set) {
                    mon::violation(format!("{e}; {set:?}"))
                }
                stat("row_groups", t.groups.len() as u64);
            }
            Err(e) => mon::violation(format!("unreadable output: {e}; {set:?}")),
        }
        distinct(&("groups", rows, b));
    });
    ctx.cases("many", ctx.many(0, 4, 60), 20, |rng, _| {
        one(rng, 3, 300, 4, Focus::Columns, None);
    });
    ctx.cases("large_groups", ctx.many(0, 2, 20), 30, |rng, case| {
        let large = case % 2 == 1;
        let mut all = universe(rng, 1, 0);
        if large {
            all.retain(|m| m.kind < 2);
        }
        let rows = if large { rng.range(140_000, 300_000) } else { rng.range(20_000, 70_000) };
        let snaps = sequence(rng, &all, rows);
        let batch = match large {
            true => *rng.pick(&[rows / 2 + 1, rows - 1, rows, rows + 1, (1 << 17) + 1, 10_000_000, usize::MAX]),
            false => [rows / 2, 8192, 10_000, 16_384, 1024, rows - 1, 65_536][(case as usize + rng.below(7)) % 7],
        };
        let set = Setup { batch: Some(batch), ..Setup::random(rng, rows) };
        let (_, bytes) = convert(&snaps, &set);
        match table::read(bytes) {
            Ok(t) => {
                if let Err(e) = columns(&t, &snaps, &set) {
                    mon::violation(format!("{e}; {set:?}"))
                }
                stat("row_groups", t.groups.len() as u64);
            }
            Err(e) => mon::violation(format!("unreadable output: {e}; {set:?}")),
        }
        distinct(&("large_groups", rows, batch));
    });
    // Rows that take much memory: the group holds as many of them all the same.
    ctx.cases("heavy_groups", ctx.many(0, 1, 8), 20, |rng, _| {
        let (gp, mvp) = (6, 64);
        let buckets = histogram::Config::new(gp, mvp).map(|c| c.total_buckets()).unwrap_or(0);
        let (rows, seed) = (rng.range(2600, 4000), rng.next());
        let snap = |i: usize| {
            let mut r = Rng::new(seed ^ i as u64);
            let counts: Vec<u64> = (0..buckets).map(|_| r.next()).collect();
            let value = match histogram::Histogram::from_buckets(gp, mvp, counts) {
                Ok(h) => h,
                Err(e) => mon::inconclusive(&format!("no such histogram: {e}")),
            };
            let time = std::time::UNIX_EPOCH + std::time::Duration::from_secs(i as u64);
            Snapshot::V1(SnapshotV1 {
                systemtime: time,
                metadata: HashMap::new(),
                counters: vec![],
                gauges: vec![],
                histograms: vec![metriken_exposition::Histogram { name: "h".into(), value, metadata: HashMap::new() }],
            })
        };
        let batch = rng.chance(1, 2).then(|| rng.range(rows / 2 + 1, 2 * rows));
        let mut o = ParquetOptions::new().compression(ParquetCompression::none());
        if let Some(b) = batch {
            o = o.max_batch_size(b);
        }
        let fail = |e: parquet::errors::ParquetError| -> ! { mon::violation(format!("{rows} large rows: {e}")) };
        let mut schema = ParquetSchema::new();
        schema.push(snap(0));
        let mut out = vec![];
        let mut w = schema.finalize(&mut out, o, None).unwrap_or_else(|e| fail(e));
        for i in 0..rows {
            w.push(snap(i)).unwrap_or_else(|e| fail(e));
            mon::tick();
        }
        let md = w.finalize().unwrap_or_else(|e| fail(e));
        check_eq!(md.num_rows, rows as i64, "rows reported");
        let t = match table::read(out) {
            Ok(t) => t,
            Err(e) => mon::violation(format!("unreadable output of {rows} large rows: {e}")),
        };
        let want: Vec<i64> = match batch {
            Some(b) if b < rows => vec![b as i64, (rows - b) as i64],
            _ => vec![rows as i64],
        };
        check_eq!(t.groups, want, "row groups of {rows} large rows with batch size {batch:?}");
        for (i, c) in t.columns.last().map_or(&[][..], |c| &c.cells).iter().enumerate() {
            let Snapshot::V1(s) = snap(i) else { continue };
            check!(*c == Cell::L(s.histograms[0].value.as_slice().to_vec()), "histogram of row {i} of {rows} large rows");
            mon::tick();
        }
        stat("heavy_rows", rows as u64);
        distinct(&("heavy_groups", rows, batch));
    });
    unscratch();
}

pub fn run_names(ctx: &Ctx) {
    ctx.cases("labels", ctx.many(0, 900, 25_000), 60, |rng, case| {
        let r = if case % 3 == 0 { 1 } else { rng.range(2, 5) };
        let m = rng.range(1, 40);
        one(rng, r, m, 7, Focus::Names, None);
    });
    // Metrics with equal keys that differ in one contributing value.
    ctx.cases("siblings", ctx.many(0, 300, 8000), 40, |rng, _| {
        let base = loop {
            let l = labels(rng, true);
            if l.len() > 1 {
                break l;
            }
        };
        let contributing: Vec<String> = base
            .keys()
            .filter(|k| !["unit", "grouping_power", "max_value_power"].contains(&&***k))
            .cloned()
            .collect();
        let kind = rng.below(3);
        let mut metrics = vec![];
        for i in 0..rng.range(2, 12) {
            let mut l: Labels = base.iter().map(|(k, v)| (k.clone(), v.replace('/', "-"))).collect();
            if i > 0 {
                let k = rng.pick(&contributing).clone();
                l.insert(k, format!("v{i}"));
            }
            metrics.push(Metric { kind, name: format!("{i}x0"), labels: l, hist: (1, 3), presence: 8 });
        }
        let rows = rng.range(1, 4);
        let snaps = sequence(rng, &metrics, rows);
        let set = Setup::random(rng, rows);
        let (_, bytes) = convert(&snaps, &set);
        let t = match table::read(bytes) {
            Ok(t) => t,
            Err(e) => mon::violation(format!("unreadable output: {e}; {set:?}")),
        };
        if let Err(e) = names(&t, &snaps, set.sparse).and_then(|_| cells(&t, &snaps, set.sparse)) {
            mon::violation(format!("{e}; {set:?}; metrics {metrics:?}"))
        }
        let seen: BTreeSet<&String> =
            snaps.iter().flat_map(|s| s.counters.iter().map(|r| &r.name).chain(s.gauges.iter().map(|r| &r.name))).collect();
        if kind < 2 {
            check_eq!(t.columns.len(), seen.len() + 2, "columns for metrics that all differ");
        }
        distinct(&(&snaps, set.sparse));
        stat("siblings", metrics.len() as u64);
    });
    unscratch();
}
