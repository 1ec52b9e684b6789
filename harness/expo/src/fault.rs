//! C20: conversion under truncation, corruption and I/O failures.
//!
//! Oracle: an independent decoder of the input decides how many snapshots it
//! holds; success means a complete readable file with exactly their contents.

use std::collections::HashMap;
use std::io::{Cursor, Error, ErrorKind, Read, Result as IoResult, Seek, SeekFrom, Write};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

use metriken_exposition::MsgpackToParquet;
use mon::{check, distinct, sample, stat, Ctx, Rng};
use serde::Deserialize;

use crate::conv::{cells, column_name, msgpack, scratch, unscratch, Setup};
use crate::model::*;
use crate::table;

// ------------------------------------------------------- independent decoder

#[derive(Deserialize)]
struct MRec<T> {
    name: String,
    value: T,
    metadata: HashMap<String, String>,
}
#[derive(Deserialize)]
struct M1 {
    systemtime: SystemTime,
    #[serde(default)]
    metadata: HashMap<String, String>,
    counters: Vec<MRec<u64>>,
    gauges: Vec<MRec<i64>>,
    histograms: Vec<MRec<histogram::Histogram>>,
}
#[derive(Deserialize)]
struct M2 {
    systemtime: SystemTime,
    duration: Duration,
    #[serde(default)]
    metadata: HashMap<String, String>,
    counters: Vec<MRec<u64>>,
    gauges: Vec<MRec<i64>>,
    histograms: Vec<MRec<histogram::Histogram>>,
}
#[derive(Deserialize)]
#[serde(untagged)]
enum M {
    V2(M2),
    V1(M1),
}

fn rec<T, U>(r: MRec<T>, f: impl Fn(T) -> U) -> Rec<U> {
    Rec { name: r.name, value: f(r.value), labels: bm(&r.metadata) }
}

/// All snapshots of the input, or None if it is not a sequence of snapshots.
fn decode(bytes: &[u8]) -> Option<Vec<Snap>> {
    let mut out = vec![];
    let mut cur = Cursor::new(bytes);
    while (cur.position() as usize) < bytes.len() {
        let m: M = rmp_serde::from_read(&mut cur).ok()?;
        let (t, duration, md, c, g, h) = match m {
            M::V1(m) => (m.systemtime, None, m.metadata, m.counters, m.gauges, m.histograms),
            M::V2(m) => (m.systemtime, Some(m.duration), m.metadata, m.counters, m.gauges, m.histograms),
        };
        out.push(Snap {
            time: t.duration_since(UNIX_EPOCH).ok()?,
            duration,
            metadata: bm(&md),
            counters: c.into_iter().map(|r| rec(r, |v| v)).collect(),
            gauges: g.into_iter().map(|r| rec(r, |v| v)).collect(),
            hists: h.into_iter().map(|r| rec(r, |v| Hist::of(&v))).collect(),
        });
    }
    Some(out)
}

/// Two records of one snapshot in the same cell: which one wins is not said.
fn clashing(snaps: &[Snap]) -> bool {
    snaps.iter().any(|s| {
        let mut seen = std::collections::HashSet::new();
        s.counters.iter().map(|r| (0, column_name(&r.name, &r.labels))).any(|k| !seen.insert(k))
            || s.gauges.iter().map(|r| (1, column_name(&r.name, &r.labels))).any(|k| !seen.insert(k))
            || s.hists.iter().map(|r| (2, column_name(&r.name, &r.labels))).any(|k| !seen.insert(k))
    })
}

type Outcome = Result<i64, String>;

fn go(set: &Setup, r: impl Read + Seek, w: impl Write + Send) -> Outcome {
    MsgpackToParquet::with_options(set.options()).convert_file_handle(r, w).map_err(|e| e.to_string())
}

/// Success must be real.
fn success(what: &str, rows: i64, out: Vec<u8>, input: &[u8], set: &Setup) {
    let Some(snaps) = decode(input) else {
        mon::violation(format!("{what}: reported success ({rows} rows) on input that is not a sequence of snapshots"))
    };
    check!(
        rows as usize == snaps.len(),
        "{what}: reported {rows} rows, the input holds {} snapshots",
        snaps.len()
    );
    let t = match table::read(out) {
        Ok(t) => t,
        Err(e) => mon::violation(format!("{what}: reported success but the output is not readable: {e}")),
    };
    check!(t.rows == snaps.len(), "{what}: {} rows written, the input holds {} snapshots", t.rows, snaps.len());
    if !clashing(&snaps) {
        if let Err(e) = cells(&t, &snaps, set.sparse) {
            mon::violation(format!("{what}: reported success but {e}"))
        }
    }
    stat("successes", 1);
}

// ------------------------------------------------------------------- inputs

fn input(rng: &mut Rng, n: usize, weight: usize) -> (Vec<Snap>, Vec<usize>, Vec<u8>) {
    let snaps: Vec<Snap> = (0..n)
        .map(|_| {
            let mut used = std::collections::HashSet::new();
            let mut name = |rng: &mut Rng| loop {
                let k = rng.below(40);
                if used.insert(k) {
                    return format!("m{k}");
                }
            };
            let labels = |rng: &mut Rng| -> Labels { (0..rng.below(3)).map(|_| (rng.ident(), rng.string())).collect() };
            Snap {
                time: a_time(rng),
                duration: rng.chance(1, 2).then(|| a_time(rng)),
                metadata: labels(rng),
                counters: (0..rng.below(weight)).map(|_| Rec { name: name(rng), value: rng.edgy(), labels: labels(rng) }).collect(),
                gauges: (0..rng.below(weight)).map(|_| Rec { name: name(rng), value: rng.edgy() as i64, labels: labels(rng) }).collect(),
                hists: (0..rng.below(weight)).map(|_| Rec { name: name(rng), value: a_hist(rng, true), labels: labels(rng) }).collect(),
            }
        })
        .collect();
    let mut ends = vec![0];
    let mut bytes = vec![];
    for s in &snaps {
        bytes.extend(msgpack(std::slice::from_ref(s)));
        ends.push(bytes.len());
    }
    (snaps, ends, bytes)
}

fn a_setup(rng: &mut Rng) -> Setup {
    Setup {
        sparse: rng.chance(1, 2),
        batch: rng.chance(1, 2).then(|| rng.range(1, 4)),
        zstd: Some(if rng.chance(1, 2) { None } else { Some(1) }),
        ..Setup::plain()
    }
}

// --------------------------------------------------------------- faulty I/O

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    Io(ErrorKind),
    Zero,
}

const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::PermissionDenied,
    ErrorKind::StorageFull,
    ErrorKind::WriteZero,
    ErrorKind::NotFound,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AlreadyExists,
    ErrorKind::InvalidInput,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
    ErrorKind::QuotaExceeded,
    ErrorKind::FileTooLarge,
    ErrorKind::NotSeekable,
    ErrorKind::ResourceBusy,
];

struct Reader<'a> {
    data: &'a [u8],
    pos: usize,
    chunk: usize,
    jitter: Option<Rng>,
    reads: usize,
    seeks: usize,
    fail_read: Option<usize>,
    fail_seek: Option<usize>,
    kind: ErrorKind,
    forever: bool,
    tripped: bool,
}

impl<'a> Reader<'a> {
    fn new(data: &'a [u8], chunk: usize) -> Self {
        Reader {
            data,
            pos: 0,
            chunk,
            jitter: None,
            reads: 0,
            seeks: 0,
            fail_read: None,
            fail_seek: None,
            kind: ErrorKind::Other,
            forever: true,
            tripped: false,
        }
    }
}

impl Read for Reader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> IoResult<usize> {
        self.reads += 1;
        if let Some(at) = self.fail_read {
            if self.reads - 1 == at || (self.forever && self.reads > at) {
                self.tripped = true;
                return Err(Error::new(self.kind, "injected"));
            }
        }
        let chunk = match &mut self.jitter {
            Some(r) => r.range(1, self.chunk),
            None => self.chunk,
        };
        let n = buf.len().min(chunk).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Seek for Reader<'_> {
    fn seek(&mut self, to: SeekFrom) -> IoResult<u64> {
        self.seeks += 1;
        if let Some(at) = self.fail_seek {
            if self.seeks - 1 == at || (self.forever && self.seeks > at) {
                self.tripped = true;
                return Err(Error::new(self.kind, "injected"));
            }
        }
        let n = match to {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::Current(d) => self.pos as i64 + d,
            SeekFrom::End(d) => self.data.len() as i64 + d,
        };
        if n < 0 {
            return Err(Error::new(ErrorKind::InvalidInput, "negative seek"));
        }
        self.pos = (n as usize).min(self.data.len());
        Ok(n as u64)
    }
}

struct Writer {
    out: Vec<u8>,
    chunk: usize,
    jitter: Option<Rng>,
    writes: usize,
    flushes: usize,
    fail_write: Option<usize>,
    fail_flush: Option<usize>,
    capacity: Option<usize>,
    fault: Fault,
    forever: bool,
    tripped: bool,
}

impl Writer {
    fn new(chunk: usize) -> Self {
        Writer {
            out: vec![],
            chunk,
            jitter: None,
            writes: 0,
            flushes: 0,
            fail_write: None,
            fail_flush: None,
            capacity: None,
            fault: Fault::Io(ErrorKind::Other),
            forever: true,
            tripped: false,
        }
    }
    fn trip(&mut self) -> IoResult<usize> {
        self.tripped = true;
        match self.fault {
            Fault::Io(k) => Err(Error::new(k, "injected")),
            Fault::Zero => Ok(0),
        }
    }
}

impl Write for Writer {
    fn write(&mut self, buf: &[u8]) -> IoResult<usize> {
        self.writes += 1;
        if let Some(at) = self.fail_write {
            if self.writes - 1 == at || (self.forever && self.writes > at) {
                return self.trip();
            }
        }
        let chunk = match &mut self.jitter {
            Some(r) => r.range(1, self.chunk),
            None => self.chunk,
        };
        let mut n = buf.len().min(chunk);
        if let Some(c) = self.capacity {
            n = n.min(c - self.out.len());
            if n == 0 && !buf.is_empty() {
                return self.trip();
            }
        }
        self.out.extend(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> IoResult<()> {
        self.flushes += 1;
        if let Some(at) = self.fail_flush {
            if self.flushes - 1 == at || (self.forever && self.flushes > at) {
                self.tripped = true;
                return Err(Error::other("injected"));
            }
        }
        Ok(())
    }
}

/// What an injected fault may lead to.
fn judge(what: &str, r: Outcome, tripped: bool, forever: bool, out: Vec<u8>, bytes: &[u8], set: &Setup) {
    match r {
        Ok(n) => {
            check!(!(tripped && forever), "{what}: reported success ({n} rows) although the failure persisted");
            success(what, n, out, bytes, set);
        }
        Err(e) => {
            check!(tripped, "{what}: failed without a fault: {e}");
            stat("clean_errors", 1);
        }
    }
}

// ------------------------------------------------------------------- phases

fn truncations(ctx: &Ctx) {
    ctx.cases("truncation", ctx.many(0, 12, 200), 22, |rng, case| {
        let n = rng.range(1, 4);
        let weight = if case % 4 == 3 { 6 } else { 3 };
        let (_, ends, bytes) = input(rng, n, weight);
        let set = a_setup(rng);
        for cut in 0..=bytes.len() {
            let mut out = vec![];
            let r = go(&set, Cursor::new(&bytes[..cut]), &mut out);
            match ends.iter().position(|e| *e == cut) {
                Some(k) => match r {
                    Ok(rows) => {
                        check!(rows as usize == k, "input cut after {k} of {n} snapshots: {rows} rows reported");
                        success("input cut between snapshots", rows, out, &bytes[..cut], &set);
                    }
                    Err(e) => mon::violation(format!("input cut after {k} of {n} snapshots failed: {e}")),
                },
                None => {
                    check!(
                        r.is_err(),
                        "input of {} bytes cut inside a snapshot at byte {cut} reported success: {r:?}",
                        bytes.len()
                    );
                    stat("clean_errors", 1);
                }
            }
            mon::tick();
            distinct(&("cut", case, cut));
        }
        stat("truncations", bytes.len() as u64 + 1);
        sample(|| format!("{n} snapshots in {} bytes, cut at every byte", bytes.len()));
    });
}

fn corruptions(ctx: &Ctx) {
    let try_one = |what: &str, bad: &[u8], set: &Setup| {
        let mut out = vec![];
        match go(set, Cursor::new(bad), &mut out) {
            Ok(n) => success(what, n, out, bad, set),
            Err(_) => stat("clean_errors", 1),
        }
        mon::tick();
    };
    ctx.cases("corruption", ctx.many(0, 8, 300), 28, |rng, case| {
        let n = rng.range(1, 3);
        let (_, _, bytes) = input(rng, n, 3);
        let set = a_setup(rng);
        let all = ctx.thorough && case % 10 == 0;
        for at in 0..bytes.len() {
            let values: Vec<u8> = if all {
                (0..=255).collect()
            } else {
                vec![bytes[at] ^ 1, bytes[at].wrapping_add(1), *rng.pick(&[0x90, 0x80, 0xdc, 0xdd, 0xdf, 0xc0, 0xcf, 0xff, 0xa0, 0xd9]), rng.next() as u8]
            };
            for v in values {
                let mut bad = bytes.clone();
                bad[at] = v;
                try_one("one byte changed", &bad, &set);
                distinct(&("byte", case, at, v));
                stat("corruptions", 1);
            }
        }
    });
    ctx.cases("splices", ctx.many(0, 400, 12_000), 8, |rng, _| {
        let n = rng.range(1, 4);
        let (_, _, mut bad) = input(rng, n, 3);
        for _ in 0..rng.range(1, 4) {
            if bad.is_empty() {
                break;
            }
            let at = rng.below(bad.len());
            match rng.below(5) {
                0 => {
                    bad.remove(at);
                }
                1 => bad.insert(at, rng.next() as u8),
                2 => {
                    let end = rng.range(at, (at + 40).min(bad.len()));
                    let piece: Vec<u8> = bad[at..end].to_vec();
                    let to = rng.below(bad.len());
                    bad.splice(to..to, piece);
                }
                3 => bad.truncate(at),
                _ => bad.extend((0..rng.below(20)).map(|_| rng.next() as u8)),
            }
        }
        try_one("spliced input", &bad, &a_setup(rng));
        distinct(&bad);
        stat("corruptions", 1);
    });
    // Something small before, between or after whole snapshots.
    ctx.cases("strays", ctx.many(0, 6, 60), 8, |rng, case| {
        let n = rng.range(1, 3);
        let (_, ends, bytes) = input(rng, n, 3);
        let set = a_setup(rng);
        let at = match case % 3 {
            0 => bytes.len(),
            1 => 0,
            _ => *rng.pick(&ends),
        };
        let short: &[&[u8]] = &[b"\r\n", b"\n\n", b"  ", b"\0\0\0\0", b"\xef\xbb\xbf", b"\xc0\xc0", b"EOF", b"\x80\n", b"\x90\x90", b"\x1a\x1a"];
        let stray: Vec<Vec<u8>> = (0..=255).map(|b| vec![b]).chain(short.iter().map(|s| s.to_vec())).collect();
        for piece in stray {
            let mut bad = bytes.clone();
            bad.splice(at..at, piece.iter().copied());
            try_one(&format!("{piece:02x?} inserted at {at} of {}", bytes.len()), &bad, &set);
            distinct(&("stray", case, at == bytes.len(), at == 0, piece));
            stat("corruptions", 1);
        }
    });
    ctx.cases("garbage", ctx.many(0, 60, 2000), 6, |rng, case| {
        let (_, _, good) = input(rng, 1, 3);
        let bad: Vec<u8> = match case % 10 {
            0 => (0..rng.range(1, 200)).map(|_| rng.next() as u8).collect(),
            1 => vec![0x91; rng.range(1, 100_000)],
            2 => vec![0x81; rng.range(1, 100_000)],
            3 => [&[0xdd, 0xff, 0xff, 0xff, 0xff][..], &good].concat(),
            4 => [&good[..], &[0xc1]].concat(),
            5 => [&good[..], &[0x00]].concat(),
            6 => b"{\"systemtime\":{}}\n".to_vec(),
            7 => [&good[..], &vec![0u8; rng.range(1, 9000)]].concat(),
            8 => [&[0x95, 0x92, 0, 0, 0x80, 0xdd, 0x7f, 0xff, 0xff, 0xff][..]].concat(),
            _ => vec![0xdb, 0xff, 0xff, 0xff, 0xff, b'x'],
        };
        try_one("garbage", &bad, &a_setup(rng));
        distinct(&bad);
        stat("corruptions", 1);
    });
}

fn io_faults(ctx: &Ctx) {
    ctx.cases("read_faults", ctx.many(0, 12, 300), 12, |rng, case| {
        let big = case % 3 == 0;
        let n = if big { 60 } else { rng.range(1, 4) };
        let (_, _, bytes) = input(rng, n, 4);
        let set = a_setup(rng);
        let chunk = if big { 4096 } else { rng.range(1, 60) };
        // How often it reads and seeks when all is well.
        let mut probe = Reader::new(&bytes, chunk);
        let mut out = vec![];
        let r = go(&set, &mut probe, &mut out);
        judge("short reads", r, false, false, out, &bytes, &set);
        let (reads, seeks) = (probe.reads, probe.seeks);
        for k in 0..reads + seeks {
            let forever = rng.chance(2, 3);
            let mut rd = Reader::new(&bytes, chunk);
            rd.kind = *rng.pick(KINDS);
            if !forever && rng.chance(1, 4) {
                rd.kind = ErrorKind::Interrupted;
            }
            rd.forever = forever;
            let what = if k < reads {
                rd.fail_read = Some(k);
                format!("read {k} of {reads} failing with {:?}", rd.kind)
            } else {
                rd.fail_seek = Some(k - reads);
                format!("seek {} of {seeks} failing with {:?}", k - reads, rd.kind)
            };
            let mut out = vec![];
            let r = go(&set, &mut rd, &mut out);
            judge(&what, r, rd.tripped, forever, out, &bytes, &set);
            stat("read_faults", 1);
            distinct(&("read", case, k, rd.kind as u8, forever));
            mon::tick();
        }
    });
    ctx.cases("write_faults", ctx.many(0, 14, 300), 14, |rng, case| {
        let n = if case % 3 == 0 { 40 } else { rng.range(1, 4) };
        let (_, _, bytes) = input(rng, n, 4);
        let set = a_setup(rng);
        let chunk = *rng.pick(&[64, 200, 1000, 100_000]);
        let mut probe = Writer::new(chunk);
        let r = go(&set, Cursor::new(&bytes), &mut probe);
        judge("short writes", r, false, false, probe.out.clone(), &bytes, &set);
        let (writes, flushes, size) = (probe.writes, probe.flushes, probe.out.len());
        stat("flushes", flushes as u64);
        let step = (writes / 150).max(1);
        let points: Vec<usize> = (0..writes).step_by(step).chain([writes.saturating_sub(1)]).collect();
        for k in points {
            let mut w = Writer::new(chunk);
            w.fail_write = Some(k);
            w.forever = rng.chance(2, 3);
            w.fault = if rng.chance(1, 5) { Fault::Zero } else { Fault::Io(*rng.pick(KINDS)) };
            if !w.forever && rng.chance(1, 4) {
                w.fault = Fault::Io(ErrorKind::Interrupted);
            }
            let what = format!("write {k} of {writes} failing with {:?}", w.fault);
            let r = go(&set, Cursor::new(&bytes), &mut w);
            let out = std::mem::take(&mut w.out);
            judge(&what, r, w.tripped, w.forever, out, &bytes, &set);
            stat("write_faults", 1);
            distinct(&("write", case, k));
            mon::tick();
        }
        for k in 0..flushes {
            let mut w = Writer::new(chunk);
            w.fail_flush = Some(k);
            let r = go(&set, Cursor::new(&bytes), &mut w);
            let out = std::mem::take(&mut w.out);
            judge(&format!("flush {k} of {flushes} failing"), r, w.tripped, true, out, &bytes, &set);
            stat("flush_faults", 1);
        }
        // The output fills up at some byte.
        let points = [0, 1, 3, 4, 5, size / 2, size.saturating_sub(9), size.saturating_sub(4), size.saturating_sub(1)];
        for c in points.into_iter().chain((0..12).map(|_| rng.below(size.max(1)))) {
            let mut w = Writer::new(chunk);
            w.capacity = Some(c);
            w.fault = Fault::Io(ErrorKind::StorageFull);
            let r = go(&set, Cursor::new(&bytes), &mut w);
            // Sizes differ a little from one conversion to the next, so it may
            // just fit.
            let out = std::mem::take(&mut w.out);
            judge(&format!("output full after {c} of about {size} bytes"), r, w.tripped, true, out, &bytes, &set);
            stat("write_faults", 1);
        }
    });
    ctx.cases("pieces", ctx.many(0, 40, 1500), 6, |rng, _| {
        // However the reads and writes are split up.
        let n = rng.range(1, 30);
        let (_, _, bytes) = input(rng, n, 4);
        let set = a_setup(rng);
        let mut rd = Reader::new(&bytes, *rng.pick(&[1, 2, 7, 100]));
        rd.jitter = Some(rng.clone());
        let mut w = Writer::new(*rng.pick(&[1, 3, 50, 5000]));
        w.jitter = Some(rng.clone());
        let r = go(&set, &mut rd, &mut w);
        let out = std::mem::take(&mut w.out);
        judge("split reads and writes", r, false, false, out, &bytes, &set);
        distinct(&("pieces", n, bytes.len()));
    });
}

fn paths(ctx: &Ctx) {
    ctx.cases("paths", ctx.many(0, 12, 200), 4, |rng, _| {
        let d = scratch();
        let n = rng.range(1, 5);
        let (_, _, bytes) = input(rng, n, 3);
        let set = a_setup(rng);
        let conv = || MsgpackToParquet::with_options(set.options());
        let good = d.join("good.msgpack");
        std::fs::write(&good, &bytes).expect("write input");
        let out = d.join("out.parquet");
        let err = |what: &str, r: Result<i64, parquet::errors::ParquetError>| {
            check!(r.is_err(), "{what}: success was reported: {r:?}");
            stat("path_faults", 1);
        };
        err("missing input", conv().convert_file_path(d.join("missing"), &out));
        err("a directory as input", conv().convert_file_path(&d, &out));
        err("output in a missing directory", conv().convert_file_path(&good, d.join("no/such/out")));
        err("a directory as output", conv().convert_file_path(&good, &d));
        if std::path::Path::new("/dev/full").exists() {
            err("a full output device", conv().convert_file_path(&good, "/dev/full"));
        }
        // An earlier, longer file is replaced.
        std::fs::write(&out, vec![b'x'; 100_000]).expect("write old output");
        match conv().convert_file_path(&good, &out) {
            Ok(n) => success("replacing an output file", n, std::fs::read(&out).expect("read output"), &bytes, &set),
            Err(e) => mon::violation(format!("good input failed: {e}")),
        }
        let cut = d.join("cut.msgpack");
        std::fs::write(&cut, &bytes[..bytes.len() - 1]).expect("write input");
        err("a truncated file", conv().convert_file_path(&cut, &out));
        distinct(&("path", n, bytes.len()));
    });
    unscratch();
}

pub fn run(ctx: &Ctx) {
    truncations(ctx);
    corruptions(ctx);
    io_faults(ctx);
    paths(ctx);
}

// ---------------------------------------------- conversions in the way of others

/// A step of an input or output: called before each of its operations.
type Step<'a> = Box<dyn FnMut() + Send + 'a>;

struct Stepped<'a, T> {
    inner: T,
    step: Step<'a>,
}
impl<T: Read> Read for Stepped<'_, T> {
    fn read(&mut self, b: &mut [u8]) -> IoResult<usize> {
        (self.step)();
        self.inner.read(b)
    }
}
impl<T: Seek> Seek for Stepped<'_, T> {
    fn seek(&mut self, to: SeekFrom) -> IoResult<u64> {
        (self.step)();
        self.inner.seek(to)
    }
}
impl<T: Write> Write for Stepped<'_, T> {
    fn write(&mut self, b: &[u8]) -> IoResult<usize> {
        (self.step)();
        self.inner.write(b)
    }
    fn flush(&mut self) -> IoResult<()> {
        (self.step)();
        self.inner.flush()
    }
}

/// Do `what` at the n-th operation.
fn at<'a>(n: usize, what: impl FnOnce() + Send + 'a) -> Step<'a> {
    let (mut k, mut what) = (0, Some(what));
    Box::new(move || {
        k += 1;
        if k > n {
            if let Some(w) = what.take() {
                w()
            }
        }
    })
}

fn idle() -> Step<'static> {
    Box::new(|| ())
}

/// A conversion like any other, which must come out right.
fn ordinary(rng: &mut Rng, what: &str) {
    let n = rng.below(4);
    let (_, _, bytes) = input(rng, n, 4);
    let set = a_setup(rng);
    let mut w = Writer::new(1 << 16);
    match go(&set, Reader::new(&bytes, 1 << 16), &mut w) {
        Ok(rows) => success(what, rows, w.out, &bytes, &set),
        Err(e) => mon::violation(format!("{what}: a sound conversion failed: {e}")),
    }
    mon::tick();
}

/// The conversion of `bytes`, with these steps.
fn stepped(set: &Setup, bytes: &[u8], chunk: usize, read: Step<'_>, write: Step<'_>) -> (Outcome, Vec<u8>) {
    let mut out = Writer::new(1 << 16);
    let r = Stepped { inner: Reader::new(bytes, chunk), step: read };
    let w = Stepped { inner: &mut out, step: write };
    let got = go(set, r, w);
    (got, out.out)
}

/// C22: inputs and outputs that panic.
pub fn panics(ctx: &Ctx) {
    ctx.cases("conversion-panics", ctx.many(0, 250, 6000), 30, |rng, case| {
        let n = rng.range(1, 6);
        let (_, _, bytes) = input(rng, n, 4);
        let set = a_setup(rng);
        let chunk = rng.range(1, 300);
        let early = rng.chance(1, 2);
        let (where_, when) = (rng.below(2), rng.below(if early { 4 } else { 40 }));
        let boom = || std::panic::panic_any("on purpose: input or output".to_string());
        let reached = std::sync::atomic::AtomicBool::new(false);
        let hit = || {
            reached.store(true, std::sync::atomic::Ordering::SeqCst);
            boom()
        };
        let got = mon::catch(|| {
            if where_ == 0 {
                stepped(&set, &bytes, chunk, at(when, hit), idle())
            } else {
                stepped(&set, &bytes, chunk, idle(), at(when, hit))
            }
        });
        match got {
            Err(p) => {
                let text = mon::panic_text(&*p);
                check!(text.starts_with("on purpose"), "another panic than that of the input or output: {text}");
                stat("conversions_that_panicked", 1);
            }
            Ok((Ok(rows), out)) => {
                check!(!reached.load(std::sync::atomic::Ordering::SeqCst), "a panic of the input or output was lost");
                success("input or output that would panic later", rows, out, &bytes, &set)
            }
            Ok((Err(e), _)) => mon::violation(format!("a conversion that should succeed or panic failed: {e}")),
        }
        // Everything works, here and elsewhere.
        ordinary(rng, "after a panic");
        let seed = rng.next();
        std::thread::scope(|s| {
            s.spawn(|| ordinary(&mut Rng::new(seed), "after a panic on another thread"));
        });
        distinct(&(case, where_, when));
    });
}

/// C21: conversions that take their time.
pub fn progress(ctx: &Ctx) {
    ctx.cases("stalled-conversion", ctx.many(0, 60, 1500), 25, |rng, case| {
        let n = rng.range(1, 5);
        let (_, _, bytes) = input(rng, n, 4);
        let set = a_setup(rng);
        let chunk = rng.range(1, 300);
        let early = rng.chance(1, 2);
        let (where_, when) = (rng.below(2), rng.below(if early { 3 } else { 20 }));
        let seeds = [rng.next(), rng.next(), rng.next()];
        let same = rng.chance(1, 3);
        // Others convert while this one is at that point, or it does so itself.
        let others = || {
            if same {
                return ordinary(&mut Rng::new(seeds[0]), "within the input or output of another conversion");
            }
            std::thread::scope(|s| {
                for &seed in &seeds {
                    s.spawn(move || ordinary(&mut Rng::new(seed), "while another conversion is stalled"));
                }
            });
            stat("stalled", 1);
        };
        let (got, out) = if where_ == 0 {
            stepped(&set, &bytes, chunk, at(when, others), idle())
        } else {
            stepped(&set, &bytes, chunk, idle(), at(when, others))
        };
        match got {
            Ok(rows) => success("stalled conversion", rows, out, &bytes, &set),
            Err(e) => mon::violation(format!("a stalled conversion failed: {e}")),
        }
        distinct(&(case, where_, when, same));
    });
}
