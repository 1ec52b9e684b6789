//! Linearizability of small histories against a deterministic register model.

use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::Hash;

#[derive(Clone, Debug)]
pub struct Event<O> {
    pub thread: usize,
    pub call: u64,
    pub ret: u64,
    pub op: O,
}

/// True if some order of `events`, consistent with real time, is accepted by
/// `step` starting from `init` (`step` returns the next state, or None if the
/// observed result is impossible in that state).
pub fn linearizable<O, S: Clone + Eq + Hash>(
    events: &[Event<O>],
    init: S,
    step: impl Fn(&S, &O) -> Option<S>,
) -> bool {
    assert!(events.len() <= 64);
    let full: u64 = if events.len() == 64 { u64::MAX } else { (1 << events.len()) - 1 };
    let mut seen: HashSet<(u64, S)> = HashSet::new();
    let mut stack = vec![(0u64, init)];
    while let Some((mask, state)) = stack.pop() {
        if mask == full {
            return true;
        }
        // An operation may come next if no other pending one returned before
        // it was called.
        let min_ret = events
            .iter()
            .enumerate()
            .filter(|(i, _)| mask & (1 << i) == 0)
            .map(|(_, e)| e.ret)
            .min()
            .unwrap();
        for (i, e) in events.iter().enumerate() {
            if mask & (1 << i) != 0 || e.call > min_ret {
                continue;
            }
            if let Some(next) = step(&state, &e.op) {
                let key = (mask | (1 << i), next);
                if seen.insert(key.clone()) {
                    stack.push(key);
                }
            }
        }
    }
    false
}
