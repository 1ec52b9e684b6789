//! C26, the exposition's part: recordings and conversions leave nothing behind.

use metriken::{AtomicHistogram, Counter, DynBoxedMetric, Gauge, MetricBuilder, RwLockHistogram};
use metriken_exposition::{MsgpackToParquet, ParquetSchema, Snapshot, Snapshotter, SnapshotterBuilder};
use mon::*;
use std::any::Any;
use std::io::{Cursor, Error, Read, Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::Arc;

use crate::conv::{scratch, unscratch, Setup};

// ------------------------------------------------- inputs and outputs handed over

/// An input or output that knows how often it was destroyed.
struct Handed {
    inner: Cursor<Vec<u8>>,
    drops: Arc<AtomicU32>,
    /// Operations until it fails.
    left: usize,
}
impl Handed {
    fn new(data: Vec<u8>, left: usize) -> (Self, Arc<AtomicU32>) {
        let drops = Arc::new(AtomicU32::new(0));
        (Handed { inner: Cursor::new(data), drops: drops.clone(), left }, drops)
    }
    fn op(&mut self) -> std::io::Result<()> {
        match self.left.checked_sub(1) {
            Some(n) => self.left = n,
            None => return Err(Error::other("on purpose")),
        }
        Ok(())
    }
}
impl Drop for Handed {
    fn drop(&mut self) {
        self.drops.fetch_add(1, SeqCst);
    }
}
impl Read for Handed {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.op()?;
        self.inner.read(b)
    }
}
impl Seek for Handed {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.op()?;
        self.inner.seek(p)
    }
}
impl Write for Handed {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.op()?;
        self.inner.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.op()
    }
}

fn handles() -> Option<usize> {
    std::fs::read_dir("/proc/self/fd").ok().map(|d| d.count())
}

// --------------------------------------------------------------------- cycles

fn population(r: &mut Rng, n: usize, round: u64) -> Vec<Box<dyn Any>> {
    (0..n)
        .map(|i| {
            let mut b = MetricBuilder::new(format!("recorded in round {round:06} {i:06}"));
            for k in 0..r.below(3) {
                b = b.metadata(format!("key{k} {round:06}"), format!("{}", "v".repeat(i % 30)));
            }
            if r.chance(1, 2) {
                b = b.metadata("metric", format!("measured {round:06} {i:06}"));
            }
            if r.chance(1, 3) {
                b = b.description(format!("in round {round:06}"));
            }
            match r.below(4) {
                0 => Box::new(b.build(Counter::new())) as Box<dyn Any>,
                1 => Box::new(b.build(Gauge::new())),
                2 => {
                    let h: DynBoxedMetric<AtomicHistogram> = b.build(AtomicHistogram::new(3, 10));
                    let _ = h.increment(5);
                    Box::new(h)
                }
                _ => {
                    let h = b.build(RwLockHistogram::new(3, 10));
                    let _ = h.update_from(&vec![1; h.config().total_buckets()]);
                    Box::new(h)
                }
            }
        })
        .collect()
}

/// Options that cost little.
fn light(r: &mut Rng, rows: usize) -> Setup {
    let mut s = Setup::random(r, rows);
    if matches!(s.zstd, Some(Some(5..))) {
        s.zstd = Some(Some(3));
    }
    s
}

fn parsed(s: &Snapshot) -> (Vec<u8>, Vec<u8>) {
    match (Snapshot::to_msgpack(s), Snapshot::to_json(s)) {
        (Ok(a), Ok(b)) => (a, b),
        _ => violation("a snapshot cannot be written"),
    }
}

fn round(mode: u64, seed: u64, units: usize, round: u64, lasting: &Snapshotter) {
    let r = &mut Rng::new(seed);
    let own;
    let taker = if r.chance(1, 2) {
        lasting
    } else {
        own = SnapshotterBuilder::new().metadata("round".into(), round.to_string()).filter(|e| e.name().len() != 3).build();
        &own
    };
    let metrics = population(r, units, round);
    let mut snaps: Vec<Snapshot> = (0..2).map(|_| taker.snapshot()).collect();
    match mode {
        // Snapshots alone.
        0 => {}
        1 => {
            for s in &mut snaps {
                let taken = (s.counters().len(), s.gauges().len(), s.histograms().len(), s.metadata().len());
                check!(taken.0 + taken.1 + taken.2 >= units, "a live metric is not recorded");
            }
        }
        2 => {
            for s in &snaps {
                let (m, j) = parsed(s);
                let a: Result<Snapshot, _> = rmp_serde::from_slice(&m);
                let b: Result<Snapshot, _> = serde_json::from_slice(&j);
                check!(a.is_ok() && b.is_ok(), "a snapshot cannot be read back");
                // And what does not parse.
                let _ = rmp_serde::from_slice::<Snapshot>(&m[..r.below(m.len())]).is_err();
                let _ = serde_json::from_slice::<Snapshot>(&j[..r.below(j.len())]).is_err();
            }
        }
        3 => {
            let mut schema = ParquetSchema::new();
            snaps.iter().for_each(|s| schema.push(s.clone()));
            if r.chance(2, 3) {
                let set = light(r, 2);
                if let Ok(mut w) = schema.finalize(Vec::new(), set.options(), None) {
                    snaps.iter().for_each(|s| check!(w.push(s.clone()).is_ok(), "a row is refused"));
                    if r.chance(2, 3) {
                        let _ = w.finalize();
                    }
                }
            }
        }
        _ => {
            let data: Vec<u8> = snaps.iter().flat_map(|s| parsed(s).0).collect();
            let set = light(r, 2);
            let conv = || MsgpackToParquet::with_options(set.options()).metadata("round".into(), format!("{round:09}"));
            let _ = conv().convert_file_handle(Cursor::new(&data), Vec::new());
            let _ = conv().convert_file_handle(Cursor::new(&data[..r.below(data.len())]), Vec::new());
        }
    }
    if r.chance(1, 2) {
        drop(metrics);
        drop(snaps);
    } else {
        drop(snaps);
        drop(metrics);
    }
}

pub fn run(ctx: &Ctx) {
    memory::count();
    ctx.cases("cycles", ctx.many(0, 20, 600), 60, |r, case| {
        let (mode, seed) = (case % 5, r.next());
        let units = r.range(8, 24);
        let lasting = SnapshotterBuilder::new().metadata("one".into(), "more".into()).build();
        let at = memory::cycles(|k| round(mode, seed, units, k, &lasting));
        distinct(&(mode, units, seed));
        stat("made_and_recorded", 64 * units as u64);
        sample(|| format!("workload {mode}, {units} metrics a round: {at:?} bytes left after 8, 16, 32, 64 rounds"));
    });
    ctx.cases("handles", ctx.many(0, 60, 2000), 40, |r, _| {
        let metrics = population(r, 5, 0);
        let taker = SnapshotterBuilder::new().build();
        let mut data: Vec<u8> = (0..3).flat_map(|_| parsed(&taker.snapshot()).0).collect();
        if r.chance(1, 3) {
            data.truncate(r.below(data.len()));
        }
        let set = light(r, 3);
        let conv = || MsgpackToParquet::with_options(set.options());
        // In memory: both ends are given up, whatever becomes of the conversion.
        let (a, b) = (if r.chance(1, 2) { usize::MAX } else { r.below(200) }, if r.chance(1, 2) { usize::MAX } else { r.below(60) });
        let (input, i) = Handed::new(data.clone(), a);
        let (output, o) = Handed::new(vec![], b);
        let good = conv().convert_file_handle(input, output).is_ok();
        check_eq!(i.load(SeqCst), 1, "times the input handed to a conversion (succeeded: {good}) was destroyed");
        check_eq!(o.load(SeqCst), 1, "times the output handed to a conversion (succeeded: {good}) was destroyed");
        stat("released", 2);
        let mut schema = ParquetSchema::new();
        schema.push(taker.snapshot());
        let (output, o) = Handed::new(vec![], b);
        let upto = r.below(3);
        let w = schema.finalize(output, set.options(), None);
        let good = match w {
            Ok(mut w) => {
                let pushed = upto == 0 || w.push(taker.snapshot()).is_ok();
                match upto {
                    2 => w.finalize().is_ok() && pushed,
                    _ => pushed,
                }
            }
            Err(_) => false,
        };
        check_eq!(o.load(SeqCst), 1, "times the output handed to a writer (step {upto}, well: {good}) was destroyed");
        stat("released", 1);
        // By name: every file is closed again, the input's too.
        let (i, o) = (scratch().join("in"), scratch().join("out"));
        if std::fs::write(&i, &data).is_err() {
            inconclusive("no scratch file");
        }
        let target = match r.below(4) {
            0 => scratch().join("none").join("out"),
            1 => std::path::PathBuf::from("/dev/full"),
            _ => o.clone(),
        };
        let source = if r.chance(1, 6) { scratch().join("missing") } else { i.clone() };
        if let Some(before) = handles() {
            let runs = 4;
            let mut done = vec![];
            for _ in 0..runs {
                done.push(conv().convert_file_path(&source, &target).is_ok());
            }
            let after = handles().unwrap_or(before);
            check!(
                after < before + runs,
                "{runs} conversions of {source:?} to {target:?} (succeeded: {done:?}) left {before} open files as {after}"
            );
            stat("conversions_by_name", runs as u64);
            distinct(&(data.len(), a, b, upto, target, source, done));
        }
        drop(metrics);
        tick();
    });
    unscratch();
}
