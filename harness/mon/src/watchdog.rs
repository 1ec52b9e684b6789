//! Decides "never completes" without a wall-clock verdict: every other thread
//! of the process is asleep, none of them was scheduled even once during the
//! observation, and no operation completed. That state cannot end by itself,
//! whatever the load of the machine. Burning CPU without completing anything
//! is judged by CPU time, not elapsed time.

use std::collections::BTreeMap;
use std::sync::atomic::Ordering;
use std::time::Duration;

const STILL_SAMPLES: u32 = 30;
const PERIOD: Duration = Duration::from_millis(500);
const CPU_LIMIT_S: u64 = 400;

fn threads(own: &str) -> Option<(bool, BTreeMap<String, String>, u64)> {
    let mut all_asleep = true;
    let mut sched = BTreeMap::new();
    let mut ticks = 0;
    for e in std::fs::read_dir("/proc/self/task").ok()? {
        let tid = e.ok()?.file_name().into_string().ok()?;
        let stat = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
        let rest = &stat[stat.rfind(')')? + 2..];
        let f: Vec<&str> = rest.split(' ').collect();
        ticks += f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?;
        if tid == own {
            continue;
        }
        if f[0] != "S" {
            all_asleep = false;
        }
        let status = std::fs::read_to_string(format!("/proc/self/task/{tid}/status")).ok()?;
        let switches: Vec<&str> = status.lines().filter(|l| l.contains("ctxt_switches")).collect();
        sched.insert(tid, switches.join(","));
    }
    Some((all_asleep, sched, ticks))
}

pub fn start() {
    std::thread::Builder::new()
        .name("watchdog".into())
        .spawn(|| {
            let own = std::fs::read_link("/proc/thread-self")
                .ok()
                .and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned()))
                .unwrap_or_default();
            let mut last: Option<(u64, BTreeMap<String, String>)> = None;
            let mut still = 0;
            let mut cpu_mark = (u64::MAX, 0);
            loop {
                std::thread::sleep(PERIOD);
                let done = super::TICKS.load(Ordering::Relaxed);
                let Some((asleep, sched, cpu)) = threads(&own) else {
                    still = 0;
                    continue;
                };
                if cpu_mark.0 != done {
                    cpu_mark = (done, cpu);
                } else if cpu.saturating_sub(cpu_mark.1) > CPU_LIMIT_S * 100 {
                    super::violation(format!(
                        "no progress: no operation completed in {CPU_LIMIT_S} seconds of CPU time"
                    ));
                }
                let now = (done, sched);
                if asleep && last.as_ref() == Some(&now) {
                    still += 1;
                } else {
                    still = 0;
                }
                if still >= STILL_SAMPLES {
                    super::violation(format!(
                        "deadlock: all {} threads are blocked and none can ever run again",
                        now.1.len()
                    ));
                }
                last = Some(now);
            }
        })
        .expect("watchdog thread");
}
