//! Snapshots as plain comparable data, and their generators.

use std::collections::{BTreeMap, HashMap};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

use metriken_exposition::{Counter, Gauge, Histogram, Snapshot, SnapshotV1, SnapshotV2};
use mon::Rng;

pub type Labels = BTreeMap<String, String>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Hist {
    pub gp: u8,
    pub mvp: u8,
    pub buckets: Vec<u64>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Rec<T> {
    pub name: String,
    pub value: T,
    pub labels: Labels,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Snap {
    /// Since the epoch.
    pub time: Duration,
    /// Version 2 only.
    pub duration: Option<Duration>,
    pub metadata: Labels,
    pub counters: Vec<Rec<u64>>,
    pub gauges: Vec<Rec<i64>>,
    pub hists: Vec<Rec<Hist>>,
}

fn hm(l: &Labels) -> HashMap<String, String> {
    l.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}
pub fn bm(l: &HashMap<String, String>) -> Labels {
    l.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}

impl Hist {
    pub fn of(h: &histogram::Histogram) -> Self {
        Hist {
            gp: h.config().grouping_power(),
            mvp: h.config().max_value_power(),
            buckets: h.as_slice().to_vec(),
        }
    }
    pub fn make(&self) -> histogram::Histogram {
        histogram::Histogram::from_buckets(self.gp, self.mvp, self.buckets.clone()).expect("generated histogram")
    }
}

pub fn counter(r: &Rec<u64>) -> Counter {
    Counter { name: r.name.clone(), value: r.value, metadata: hm(&r.labels) }
}
pub fn gauge(r: &Rec<i64>) -> Gauge {
    Gauge { name: r.name.clone(), value: r.value, metadata: hm(&r.labels) }
}
pub fn hist(r: &Rec<Hist>) -> Histogram {
    Histogram { name: r.name.clone(), value: r.value.make(), metadata: hm(&r.labels) }
}
pub fn of_counter(c: &Counter) -> Rec<u64> {
    Rec { name: c.name.clone(), value: c.value, labels: bm(&c.metadata) }
}
pub fn of_gauge(c: &Gauge) -> Rec<i64> {
    Rec { name: c.name.clone(), value: c.value, labels: bm(&c.metadata) }
}
pub fn of_hist(c: &Histogram) -> Rec<Hist> {
    Rec { name: c.name.clone(), value: Hist::of(&c.value), labels: bm(&c.metadata) }
}

impl Snap {
    pub fn v1(&self) -> SnapshotV1 {
        SnapshotV1 {
            systemtime: UNIX_EPOCH + self.time,
            metadata: hm(&self.metadata),
            counters: self.counters.iter().map(counter).collect(),
            gauges: self.gauges.iter().map(gauge).collect(),
            histograms: self.hists.iter().map(hist).collect(),
        }
    }
    pub fn v2(&self, duration: Duration) -> SnapshotV2 {
        SnapshotV2 {
            systemtime: UNIX_EPOCH + self.time,
            duration,
            metadata: hm(&self.metadata),
            counters: self.counters.iter().map(counter).collect(),
            gauges: self.gauges.iter().map(gauge).collect(),
            histograms: self.hists.iter().map(hist).collect(),
        }
    }
    pub fn make(&self) -> Snapshot {
        match self.duration {
            None => Snapshot::V1(self.v1()),
            Some(d) => Snapshot::V2(self.v2(d)),
        }
    }
    fn parts(
        time: SystemTime,
        duration: Option<Duration>,
        m: &HashMap<String, String>,
        c: &[Counter],
        g: &[Gauge],
        h: &[Histogram],
    ) -> Snap {
        Snap {
            time: match time.duration_since(UNIX_EPOCH) {
                Ok(d) => d,
                Err(_) => mon::violation("a snapshot time before 1970 appeared"),
            },
            duration,
            metadata: bm(m),
            counters: c.iter().map(of_counter).collect(),
            gauges: g.iter().map(of_gauge).collect(),
            hists: h.iter().map(of_hist).collect(),
        }
    }
    pub fn of_v1(s: &SnapshotV1) -> Snap {
        Self::parts(s.systemtime, None, &s.metadata, &s.counters, &s.gauges, &s.histograms)
    }
    pub fn of_v2(s: &SnapshotV2) -> Snap {
        Self::parts(s.systemtime, Some(s.duration), &s.metadata, &s.counters, &s.gauges, &s.histograms)
    }
    pub fn of(s: &Snapshot) -> Snap {
        match s {
            Snapshot::V1(s) => Self::of_v1(s),
            Snapshot::V2(s) => Self::of_v2(s),
        }
    }
    /// Through the accessors, which drain.
    pub fn drain(mut s: Snapshot) -> Snap {
        let (t, d) = (s.systemtime(), s.duration());
        let (m, c, g, h) = (s.metadata(), s.counters(), s.gauges(), s.histograms());
        Self::parts(t, d, &m, &c, &g, &h)
    }
}

// ---------------------------------------------------------------- generators

const CONFIGS: &[(u8, u8)] = &[(0, 1), (0, 4), (1, 3), (2, 5), (3, 8), (2, 16), (4, 10), (5, 20), (3, 64), (0, 64), (7, 32)];

pub fn a_hist(rng: &mut Rng, small: bool) -> Hist {
    let (gp, mvp) = if small { *rng.pick(&CONFIGS[..5]) } else { *rng.pick(CONFIGS) };
    fill(rng, gp, mvp)
}

pub fn fill(rng: &mut Rng, gp: u8, mvp: u8) -> Hist {
    let n = histogram::Histogram::new(gp, mvp).unwrap().as_slice().len();
    let mut buckets = vec![0; n];
    match rng.below(5) {
        0 => {}
        1 => buckets.iter_mut().for_each(|b| *b = rng.edgy()),
        2 => buckets[n - 1] = rng.edgy(),
        3 => buckets[0] = rng.edgy(),
        _ => {
            for _ in 0..rng.range(1, 6) {
                let i = rng.below(n);
                buckets[i] = rng.edgy();
            }
        }
    }
    Hist { gp, mvp, buckets }
}

/// Any 64-bit number of nanoseconds.
pub fn a_time(rng: &mut Rng) -> Duration {
    match rng.below(6) {
        0 => Duration::ZERO,
        1 => Duration::from_nanos(u64::MAX),
        2 => Duration::from_nanos(rng.edgy()),
        3 => Duration::new(1_700_000_000 + rng.below(1000) as u64, 999_999_999),
        _ => Duration::new(rng.below(2_000_000_000) as u64, rng.below(1_000_000_000) as u32),
    }
}

pub fn a_labels(rng: &mut Rng, max: usize) -> Labels {
    (0..rng.below(max + 1)).map(|_| (rng.string(), rng.string())).collect()
}
