//! C01 and C02: counters and gauges as atomic wrapping 64-bit registers.

use metriken::{Counter, Gauge, Metric, MetricBuilder, Value};
use mon::arena::Clock;
use mon::lin::Event;
use mon::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, Ordering};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Inc,
    Dec,
    Add(u64),
    Sub(u64),
    Set(u64),
    Reset,
    Read,
    /// Read through `Metric::value`.
    Report,
}

/// Registers are modelled as 64 raw bits; two's complement wrapping arithmetic
/// is the same for both kinds.
pub trait Register: Metric + Sized {
    const SIGNED: bool;
    fn fresh() -> Self;
    fn with(v: u64) -> Self;
    fn default_() -> Self;
    fn apply(&self, op: Op) -> u64;
}

fn report(m: &dyn Metric, signed: bool) -> u64 {
    match m.value() {
        Some(Value::Counter(v)) if !signed => v,
        Some(Value::Gauge(v)) if signed => v as u64,
        Some(Value::Counter(_)) | Some(Value::Gauge(_)) => violation("reported as the wrong kind"),
        _ => violation("an always-enabled metric reported no value"),
    }
}

impl Register for Counter {
    const SIGNED: bool = false;
    fn fresh() -> Self {
        Counter::new()
    }
    fn with(v: u64) -> Self {
        Counter::with_value(v)
    }
    fn default_() -> Self {
        Default::default()
    }
    fn apply(&self, op: Op) -> u64 {
        match op {
            Op::Inc => self.increment(),
            Op::Add(v) => self.add(v),
            Op::Set(v) => self.set(v),
            Op::Reset => self.reset(),
            Op::Read => Counter::value(self),
            Op::Report => report(self, false),
            Op::Dec | Op::Sub(_) => unreachable!(),
        }
    }
}

impl Register for Gauge {
    const SIGNED: bool = true;
    fn fresh() -> Self {
        Gauge::new()
    }
    fn with(v: u64) -> Self {
        Gauge::with_value(v as i64)
    }
    fn default_() -> Self {
        Default::default()
    }
    fn apply(&self, op: Op) -> u64 {
        (match op {
            Op::Inc => self.increment(),
            Op::Dec => self.decrement(),
            Op::Add(v) => self.add(v as i64),
            Op::Sub(v) => self.sub(v as i64),
            Op::Set(v) => self.set(v as i64),
            Op::Reset => self.reset(),
            Op::Read => Gauge::value(self),
            Op::Report => return report(self, true),
        }) as u64
    }
}

fn next(state: u64, op: Op) -> u64 {
    match op {
        Op::Inc => state.wrapping_add(1),
        Op::Dec => state.wrapping_sub(1),
        Op::Add(v) => state.wrapping_add(v),
        Op::Sub(v) => state.wrapping_sub(v),
        Op::Set(v) => v,
        Op::Reset => 0,
        Op::Read | Op::Report => state,
    }
}

fn gen(r: &mut Rng, signed: bool) -> Op {
    loop {
        let op = match r.below(12) {
            0 | 1 => Op::Inc,
            2 => Op::Dec,
            3 | 4 => Op::Add(r.edgy()),
            5 => Op::Sub(r.edgy()),
            6 | 7 => Op::Set(r.edgy()),
            8 => Op::Reset,
            9 | 10 => Op::Read,
            _ => Op::Report,
        };
        if signed || !matches!(op, Op::Dec | Op::Sub(_)) {
            return op;
        }
    }
}

pub fn run<R: Register>(ctx: &Ctx) {
    sequential::<R>(ctx);
    listed::<R>(ctx);
    linearize::<R>(ctx);
    chains::<R>(ctx);
    lockstep::<R>(ctx);
}

/// Random single-threaded histories, every result against the model.
fn sequential<R: Register>(ctx: &Ctx) {
    ctx.cases("sequential", ctx.many(20, 60_000, 600_000), 20, |r, _| {
        let (reg, mut state) = match r.below(4) {
            0 => (R::fresh(), 0),
            1 => (R::default_(), 0),
            _ => {
                let v = r.edgy();
                (R::with(v), v)
            }
        };
        let init = state;
        check_eq!(reg.apply(Op::Read), state, "initial value");
        check_eq!(report(&reg, R::SIGNED), state, "initially reported value");
        check!(reg.is_enabled(), "a plain register metric must be enabled");
        check!(
            reg.as_any().and_then(|a| a.downcast_ref::<R>()).map(|p| p as *const R)
                == Some(&reg as *const R),
            "as_any must give the register itself"
        );
        let ops: Vec<Op> = (0..r.range(1, 40)).map(|_| gen(r, R::SIGNED)).collect();
        for (i, &op) in ops.iter().enumerate() {
            let got = reg.apply(op);
            check_eq!(got, state, "init {init:#x}, ops {:?}: result of op {i}", &ops[..=i]);
            state = next(state, op);
            check_eq!(
                reg.apply(Op::Read),
                state,
                "init {init:#x}, ops {:?}: value after op {i}",
                &ops[..=i]
            );
        }
        stat("operations", ops.len() as u64);
        distinct(&ops);
        sample(|| format!("sequential: init {init:#x} ops {ops:?} final {state:#x}"));
    });
}

/// The registry entry reports the register of its own instance.
fn listed<R: Register>(ctx: &Ctx) {
    ctx.cases("listed", ctx.many(3, 300, 3000), 10, |r, _| {
        let regs: Vec<_> = (0..r.range(1, 6))
            .map(|i| {
                let v = r.edgy();
                (MetricBuilder::new(format!("r{i}")).build(R::with(v)), v)
            })
            .collect();
        let mut want: Vec<u64> = regs.iter().map(|x| x.1).collect();
        for _ in 0..r.range(1, 12) {
            let i = r.below(regs.len());
            let op = gen(r, R::SIGNED);
            let got = regs[i].0.apply(op);
            check_eq!(got, want[i], "listed register {i}, op {op:?}");
            want[i] = next(want[i], op);
            let m = metriken::metrics();
            for e in m.dynamic_metrics() {
                let k: usize = e.name()[1..].parse().unwrap();
                check_eq!(report(e.metric(), R::SIGNED), want[k], "value listed for r{k} after {op:?}");
            }
            stat("operations", 1);
        }
    });
}

/// Short concurrent histories, each checked for linearizability.
fn linearize<R: Register>(ctx: &Ctx) {
    const T: usize = 3;
    let phase = "linearize";
    let batch = ctx.n(3, 2000, 2000);
    ctx.cases(phase, ctx.many(2, 15, 300), 25, |r, case| {
        struct S<R> {
            reg: R,
            init: u64,
            clock: Clock,
            plan: Vec<Vec<Op>>,
        }
        let mut rr = r.clone();
        let mut histories = 0u64;
        let mut overlapping = 0u64;
        arena::rounds(
            T,
            batch,
            |_| {
                let init = rr.edgy();
                S {
                    reg: R::with(init),
                    init,
                    clock: Clock::default(),
                    plan: (0..T)
                        .map(|_| (0..rr.range(1, 4)).map(|_| gen(&mut rr, R::SIGNED)).collect())
                        .collect(),
                }
            },
            |s, t, _| {
                s.plan[t]
                    .iter()
                    .map(|&op| {
                        let call = s.clock.stamp();
                        let got = s.reg.apply(op);
                        let ret = s.clock.stamp();
                        Event { thread: t, call, ret, op: (op, got) }
                    })
                    .collect::<Vec<_>>()
            },
            |s, hist, round| {
                let mut all: Vec<Event<(Op, u64)>> = hist.into_iter().flatten().collect();
                all.sort_by_key(|e| e.call);
                if all.windows(2).any(|w| w[1].call < w[0].ret && w[1].thread != w[0].thread) {
                    overlapping += 1;
                }
                let last = all.iter().map(|e| e.ret).max().unwrap();
                // The final value, read when all is quiet, closes the history.
                all.push(Event {
                    thread: T,
                    call: last + 1,
                    ret: last + 2,
                    op: (Op::Read, s.reg.apply(Op::Read)),
                });
                let ok = lin::linearizable(&all, s.init, |st, (op, got)| {
                    (got == st).then(|| next(*st, *op))
                });
                check!(
                    ok,
                    "case {case} round {round}: history from {:#x} is not linearizable: {all:?}",
                    s.init
                );
                histories += 1;
                stat("operations", all.len() as u64);
                let order: Vec<(usize, Op)> = all.iter().map(|e| (e.thread, e.op.0)).collect();
                distinct(&order);
                sample(|| format!("history from {:#x}: {all:?}", s.init));
                true
            },
        );
        stat("histories_checked", histories);
        stat("histories_with_overlap", overlapping);
    });
}

/// Long contended histories. Every operation returns the previous value, so
/// the operations of a linearizable history form one path from the initial to
/// the final value: each value is left as often as it is entered.
fn chains<R: Register>(ctx: &Ctx) {
    let threads = if MIRI { 3 } else { 8 };
    let per = ctx.n(12, 20_000, 60_000) as usize;
    ctx.cases("chains", ctx.many(2, 30, 600), 25, |r, case| {
        let init = r.edgy();
        let reg = R::with(init);
        // 0: additions only; 1: plus sets and resets; 2: increments only
        let mode = case % 3;
        let seeds: Vec<u64> = (0..threads).map(|_| r.next()).collect();
        let stop = AtomicBool::new(false);
        let mut logs: Vec<Vec<(Op, u64)>> = Vec::new();
        let mut reads = Vec::new();
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let (reg, seeds) = (&reg, &seeds);
                    sc.spawn(move || {
                        let mut r = Rng::new(seeds[t]);
                        (0..per)
                            .map(|i| {
                                // Operands unique per thread and step.
                                let uniq = ((i as u64) << 8 | t as u64) << 3 | 1;
                                let op = match (mode, r.below(8)) {
                                    (2, _) => Op::Inc,
                                    (1, 0) => Op::Set(uniq.wrapping_mul(0x9E37_79B9_7F4A_7C15)),
                                    (1, 1) => Op::Reset,
                                    (_, 2) => Op::Inc,
                                    (_, 3) if R::SIGNED => Op::Dec,
                                    (_, 4) if R::SIGNED => Op::Sub(uniq),
                                    _ => Op::Add(uniq),
                                };
                                let got = reg.apply(op);
                                if i % 64 == 0 {
                                    tick();
                                }
                                (op, got)
                            })
                            .collect::<Vec<_>>()
                    })
                })
                .collect();
            let reader = sc.spawn(|| {
                let mut v = Vec::new();
                while !stop.load(Ordering::Relaxed) {
                    if v.len() < 4096 {
                        v.push(reg.apply(if v.len() % 2 == 0 { Op::Read } else { Op::Report }));
                    }
                    std::thread::yield_now();
                }
                v
            });
            logs = hs.into_iter().map(|h| h.join().unwrap()).collect();
            stop.store(true, Ordering::Relaxed);
            reads = reader.join().unwrap();
        });
        let last = reg.apply(Op::Read);
        let mut balance: HashMap<u64, i64> = HashMap::new();
        *balance.entry(init).or_default() += 1;
        *balance.entry(last).or_default() -= 1;
        for &(op, prev) in logs.iter().flatten() {
            *balance.entry(prev).or_default() -= 1;
            *balance.entry(next(prev, op)).or_default() += 1;
        }
        if let Some((v, d)) = balance.iter().find(|(_, d)| **d != 0) {
            violation(format!(
                "case {case}: {threads} threads x {per} operations from {init:#x} to {last:#x}: value {v:#x} was entered {d} times more than it was left (lost, duplicated or non-atomic update)"
            ));
        }
        for v in &reads {
            check!(
                balance.contains_key(v),
                "case {case}: read {v:#x}, a value the register never held"
            );
        }
        if mode == 0 || mode == 2 {
            let total = logs.iter().flatten().fold(init, |a, (op, _)| next(a, *op));
            check_eq!(last, total, "case {case}: final value of {threads} threads of additions");
        }
        if mode == 2 {
            for l in &logs {
                check!(
                    l.windows(2).all(|w| w[1].1.wrapping_sub(init) > w[0].1.wrapping_sub(init)),
                    "case {case}: values returned to one incrementing thread do not increase"
                );
            }
        }
        stat("operations", (threads * per) as u64);
        stat("concurrent_reads", reads.len() as u64);
        let mut switches = 0u64;
        let mut owner: HashMap<u64, usize> = HashMap::new();
        for (t, l) in logs.iter().enumerate() {
            for (op, prev) in l {
                owner.insert(next(*prev, *op), t);
            }
        }
        for (t, l) in logs.iter().enumerate() {
            switches += l.iter().filter(|(_, p)| owner.get(p).is_some_and(|o| *o != t)).count() as u64;
        }
        stat("observed_thread_handovers", switches);
        distinct(&(case, switches, last));
    });
}

/// Two threads doing one operation each, over and over: the smallest race,
/// with every pair of operation kinds.
fn lockstep<R: Register>(ctx: &Ctx) {
    let kinds: Vec<Op> = [
        Op::Inc, Op::Dec, Op::Add(5), Op::Add(u64::MAX), Op::Sub(7), Op::Set(100), Op::Reset, Op::Read,
    ]
    .into_iter()
    .filter(|o| R::SIGNED || !matches!(o, Op::Dec | Op::Sub(_)))
    .collect();
    let rounds = ctx.n(2, 1500, 20_000);
    let mut pairs = Vec::new();
    for &a in &kinds {
        for &b in &kinds {
            pairs.push((a, b));
        }
    }
    ctx.cases("lockstep", if MIRI { 6 } else { pairs.len() as u64 }, 20, |r, case| {
        let (a, b) = if MIRI { *r.pick(&pairs) } else { pairs[case as usize] };
        arena::rounds(
            2,
            rounds,
            |_| R::with(11),
            |reg, t, _| reg.apply(if t == 0 { a } else { b }),
            |reg, res, round| {
                let fin = reg.apply(Op::Read);
                let ab = (11, next(11, a), next(next(11, a), b));
                let ba = (next(11, b), 11, next(next(11, b), a));
                let got = (res[0], res[1], fin);
                check!(
                    got == ab || got == ba,
                    "{a:?} || {b:?} from 11, round {round}: (result, result, final) = {got:?}, possible are {ab:?} and {ba:?}"
                );
                distinct(&(case, got == ab));
                true
            },
        );
        stat("lockstep_pairs", rounds);
    });
}
