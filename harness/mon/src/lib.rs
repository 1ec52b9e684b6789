//! Shared parts of the monitors: seeded choices, verdicts, the no-progress
//! watchdog, a race arena and a small linearizability checker.

pub mod arena;
pub mod lin;
pub mod memory;
pub mod watchdog;

use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ choices

/// SplitMix64/xorshift generator; everything random comes from VERIF_SEED.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in `0..n` (`n > 0`).
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// A 64-bit value biased towards the edges.
    pub fn edgy(&mut self) -> u64 {
        match self.below(10) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => i64::MAX as u64,
            4 => i64::MIN as u64,
            5 => {
                let b = 1u64 << self.below(64);
                b.wrapping_add(self.below(3) as u64).wrapping_sub(1)
            }
            6 => self.below(100) as u64,
            7 => u64::MAX - self.below(100) as u64,
            8 => self.next() >> self.below(64),
            _ => self.next(),
        }
    }
    /// A string biased towards awkward content.
    pub fn string(&mut self) -> String {
        const ODD: &[&str] = &[
            "", " ", "\"", "\\", "\n", ",", "=", "{", "}", "/", "a", "b", "c", "id", "\u{e9}",
            "\u{1F980}", "\0", "\t", "metric", "0", "1", "x_y", "A", "-", ".", "'", "#",
            "\u{200d}", "r#type", "::", "\r", "\u{130}", "\u{df}", "\u{7f}", "\u{2028}", "\u{feff}", "%", "&", "$", "`", "<",
            "description", "+", "~", "\u{301}", "\x1b",
        ];
        // What people do call metrics, and put in front of or behind a name.
        const REAL: &[&str] = &[
            "_total", "_bucket", "_sum", "_count", "_created", "_info", "requests_total",
            "cpu/usage", "foo.bar", "http_", "__x", "tcp/recv/bytes", "le", "quantile", "NaN",
            "+Inf", "null", "true", "name", "unit", "percentile", "metric_type", "timestamp",
            "duration", "grouping_power", "max_value_power", ":buckets", "counter", "gauge",
            "histogram", "{id=\"0\"}", "# HELP ", "# TYPE ", "TOTAL", "ns", "99.9",
        ];
        if self.chance(1, 10) {
            return match self.below(3) {
                0 => self.pick(REAL).to_string(),
                1 => format!("{}{}", self.ident(), self.pick(REAL)),
                _ => format!("{}{}", self.pick(REAL), self.ident()),
            };
        }
        let n = match self.below(8) {
            0 => 0,
            1..=5 => self.range(1, 5),
            6 => self.range(5, 20),
            _ if !MIRI && self.chance(1, 40) => match self.below(10) {
                // Longer than 16 bits can say.
                0 => self.range(66_000, 70_000),
                _ => self.range(100, 400),
            },
            _ => self.range(20, 60),
        };
        (0..n).map(|_| *self.pick(ODD)).collect()
    }
    /// A short identifier.
    pub fn ident(&mut self) -> String {
        let n = self.range(1, 6);
        let mut s = String::new();
        s.push((b'a' + self.below(26) as u8) as char);
        for _ in 1..n {
            s.push(*self.pick(&['a', 'b', 'c', 'z', '_', '0', '1', '9']));
        }
        s
    }
}

pub fn hash_of<T: std::hash::Hash>(v: &T) -> u64 {
    use std::hash::Hasher;
    // DefaultHasher::new() is keyed with constants.
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    v.hash(&mut h);
    h.finish()
}

// ----------------------------------------------------------------- context

#[derive(Clone)]
pub struct Ctx {
    pub property: String,
    pub seed: u64,
    pub thorough: bool,
    /// Wall-clock budget for all phases together; work is also bounded by
    /// counts. Running out of budget just means fewer cases.
    pub deadline: Instant,
    pub budget: Duration,
    /// Multiplies the number of random cases of a phase.
    pub scale: u64,
    pub only_phase: Option<String>,
    pub only_case: Option<u64>,
}

pub const MIRI: bool = cfg!(miri);

impl Ctx {
    pub fn from_args() -> Self {
        let mut args = std::env::args().skip(1);
        let property = args.next().unwrap_or_default();
        let (mut seed, mut thorough, mut budget, mut scale) = (1, false, 20, 1);
        let (mut only_phase, mut only_case) = (None, None);
        while let Some(a) = args.next() {
            let v = args.next().unwrap_or_default();
            match &*a {
                "--seed" => seed = v.parse().unwrap_or(1),
                "--tier" => thorough = v == "thorough",
                "--budget" => budget = v.parse().unwrap_or(20),
                "--scale" => scale = v.parse().unwrap_or(1),
                "--phase" => only_phase = Some(v),
                "--case" => only_case = v.parse().ok(),
                _ => {
                    eprintln!("unknown argument {a}");
                    std::process::exit(3)
                }
            }
        }
        let budget = Duration::from_secs(budget);
        Ctx {
            property,
            seed,
            thorough,
            deadline: Instant::now() + budget,
            budget,
            scale,
            only_phase,
            only_case,
        }
    }

    pub fn rng(&self, phase: &str, case: u64) -> Rng {
        Rng::new(hash_of(&(self.seed, phase, case)))
    }

    /// `miri`, `quick` or `thorough` amount.
    pub fn n(&self, miri: u64, quick: u64, thorough: u64) -> u64 {
        if MIRI {
            miri
        } else if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// Like `n`, scaled: for numbers of cases.
    pub fn many(&self, miri: u64, quick: u64, thorough: u64) -> u64 {
        if MIRI { miri } else { self.n(miri, quick, thorough) * self.scale }
    }

    /// Whether this phase was asked for by name.
    pub fn chosen(&self, phase: &str) -> bool {
        self.only_phase.as_deref() == Some(phase)
    }

    fn selected(&self, phase: &str) -> bool {
        self.only_phase.as_deref().map_or(true, |p| p == phase)
    }

    /// Run up to `n` numbered cases of a phase, each from its own generator,
    /// using at most `share` percent of the whole budget.
    pub fn cases(&self, phase: &str, n: u64, share: u32, mut f: impl FnMut(&mut Rng, u64)) {
        if !self.selected(phase) {
            return;
        }
        let stop = Instant::now() + self.budget * share / 100;
        let mut done = 0;
        for case in 0..n {
            if self.only_case.is_some_and(|c| c != case) {
                continue;
            }
            // At least a handful of cases always run.
            if !MIRI && done >= 3 && Instant::now() >= stop {
                break;
            }
            set_where(format!("phase={phase} case={case}"));
            f(&mut self.rng(phase, case), case);
            done += 1;
            tick();
        }
        stat(&format!("cases_{phase}"), done);
        add_evaluations(done);
    }
}

// ----------------------------------------------------------------- verdicts

#[derive(Default)]
struct Stats {
    counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    evaluations: u64,
    where_: String,
}

fn stats() -> &'static Mutex<Stats> {
    static S: OnceLock<Mutex<Stats>> = OnceLock::new();
    S.get_or_init(Default::default)
}
fn with<R>(f: impl FnOnce(&mut Stats) -> R) -> R {
    f(&mut stats().lock().unwrap_or_else(|e| e.into_inner()))
}

pub(crate) static TICKS: AtomicU64 = AtomicU64::new(0);
static FINISHED: AtomicBool = AtomicBool::new(false);

/// Note progress for the watchdog.
#[inline]
pub fn tick() {
    TICKS.fetch_add(1, Ordering::Relaxed);
}
pub fn stat(name: &str, n: u64) {
    with(|s| *s.counters.entry(name.into()).or_default() += n);
}
pub fn stat_max(name: &str, n: u64) {
    with(|s| {
        let e = s.counters.entry(name.into()).or_default();
        *e = (*e).max(n)
    });
}
pub fn add_evaluations(n: u64) {
    with(|s| s.evaluations += n);
}
/// Note a distinct non-trivial case or observed behaviour (by hash).
pub fn distinct<T: std::hash::Hash>(v: &T) {
    let h = hash_of(v);
    with(|s| {
        if s.distinct.len() < 4_000_000 {
            s.distinct.insert(h);
        }
    });
}
pub fn sample(f: impl FnOnce() -> String) {
    with(|s| {
        if s.samples.len() < 6 {
            let v: String = f().chars().take(600).collect();
            s.samples.push(v);
        }
    });
}
pub fn set_where(w: String) {
    with(|s| s.where_ = w);
}
pub fn where_() -> String {
    with(|s| s.where_.clone())
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn emit(status: &str, message: &str) {
    let body = with(|s| {
        let counters: Vec<String> = s
            .counters
            .iter()
            .map(|(k, v)| format!("{}:{v}", json_str(k)))
            .collect();
        let samples: Vec<String> = s.samples.iter().map(|v| json_str(v)).collect();
        format!(
            "{{\"status\":{},\"message\":{},\"where\":{},\"evaluations\":{},\"distinct\":{},\"counters\":{{{}}},\"samples\":[{}]}}",
            json_str(status),
            json_str(message),
            json_str(&s.where_),
            s.evaluations,
            s.distinct.len(),
            counters.join(","),
            samples.join(",")
        )
    });
    use std::io::Write;
    let out = std::io::stdout();
    let mut out = out.lock();
    let _ = writeln!(out, "@@RESULT {body}");
    let _ = out.flush();
}

/// The property is broken: report the witness and end the run.
pub fn violation(message: impl AsRef<str>) -> ! {
    if !FINISHED.swap(true, Ordering::SeqCst) {
        let m: String = message.as_ref().chars().take(4000).collect();
        eprintln!("violation: {m}");
        emit("violation", &m);
        std::process::exit(1);
    }
    // Somebody else is already reporting.
    loop {
        std::thread::park();
    }
}

/// The harness itself went wrong, or saw too little: no verdict.
pub fn inconclusive(message: impl AsRef<str>) -> ! {
    if !FINISHED.swap(true, Ordering::SeqCst) {
        emit("inconclusive", message.as_ref());
        std::process::exit(3);
    }
    loop {
        std::thread::park();
    }
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $($msg:tt)+) => {
        if !$cond { $crate::violation(format!($($msg)+)) }
    };
}

/// Equality with both sides in the witness.
#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $($msg:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            $crate::violation(format!("{}: observed {:?}, expected {:?}", format!($($msg)+), a, b))
        }
    }};
}

// A panic that is part of a workload is announced with `expect_panic`.
thread_local! {
    static EXPECTED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Run code that may panic on purpose, quietly.
pub fn catch<R>(f: impl FnOnce() -> R) -> std::thread::Result<R> {
    let prev = EXPECTED.with(|e| e.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    EXPECTED.with(|e| e.set(prev));
    r
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    e.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| e.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "<non-string panic>".into())
}

/// Entry point of every harness binary. `lookup` maps a property id to its
/// monitor.
pub fn main_with(lookup: impl FnOnce(&str) -> Option<fn(&Ctx)>) {
    let ctx = Ctx::from_args();
    // An unexpected panic ends the run. One raised in the code under test (or
    // on its behalf in a library) refutes the property: every call the
    // workloads make is one that must not panic unless wrapped in `catch`.
    // One raised in the harness's own files is a harness error.
    std::panic::set_hook(Box::new(|info| {
        if EXPECTED.with(|e| e.get()) {
            return;
        }
        let file = info.location().map(|l| l.to_string()).unwrap_or_default();
        let msg = format!("unexpected panic at {file}: {}", panic_text(info.payload()));
        let own = file.starts_with("src/")
            || file.starts_with("mon/")
            || file.starts_with("../")
            || file.contains("/harness/");
        if own {
            inconclusive(format!("harness error: {msg}"))
        } else {
            violation(msg)
        }
    }));
    let Some(f) = lookup(&ctx.property) else {
        eprintln!("unknown property {}", ctx.property);
        std::process::exit(3)
    };
    if !MIRI {
        watchdog::start();
    }
    f(&ctx);
    if !FINISHED.swap(true, Ordering::SeqCst) {
        emit("held", "");
        std::process::exit(0);
    }
    loop {
        std::thread::park();
    }
}
