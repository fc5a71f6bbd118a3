//! Concurrent histories, recorded at the client boundary, and a linearizability
//! checker (Wing & Gong with memoisation, per key: P-compositional).
use std::collections::HashSet;
use std::hash::Hash;
use std::sync::atomic::{AtomicU64, Ordering};

static CLOCK: AtomicU64 = AtomicU64::new(1);
/// logical time: a total order consistent with real time
pub fn tick() -> u64 {
    CLOCK.fetch_add(1, Ordering::SeqCst)
}

#[derive(Clone, Debug)]
pub struct Op<I, O> {
    pub proc: usize,
    pub inp: I,
    pub out: O,
    pub call: u64,
    pub ret: u64,
}

pub enum Verdict {
    Ok,
    /// no linearization exists
    Bad,
    /// the budget ran out: no verdict
    Unknown,
}

/// `step(state, in, out)` gives the next state if `out` is what a sequential object in
/// `state` answers to `in`.
pub fn linearizable<S: Clone + Eq + Hash, I, O>(
    ops: &[Op<I, O>],
    init: S,
    step: impl Fn(&S, &I, &O) -> Option<S>,
    budget: u64,
) -> Verdict {
    let n = ops.len();
    if n == 0 {
        return Verdict::Ok;
    }
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|&i| ops[i].call);
    let ops: Vec<&Op<I, O>> = order.iter().map(|&i| &ops[i]).collect();
    let words = (n + 63) / 64;
    let mut seen: HashSet<(Vec<u64>, S)> = HashSet::new();
    let mut stack: Vec<(Vec<u64>, S, usize)> = vec![(vec![0; words], init, 0)];
    let mut spent = 0u64;
    while let Some((done, st, cnt)) = stack.pop() {
        if cnt == n {
            return Verdict::Ok;
        }
        // candidates: not done, called before the earliest return of what is not done
        let mut min_ret = u64::MAX;
        for (i, o) in ops.iter().enumerate() {
            if done[i / 64] >> (i % 64) & 1 == 0 {
                min_ret = min_ret.min(o.ret);
            }
        }
        for (i, o) in ops.iter().enumerate() {
            if o.call > min_ret {
                break;
            }
            if done[i / 64] >> (i % 64) & 1 == 1 {
                continue;
            }
            spent += 1;
            if spent > budget {
                return Verdict::Unknown;
            }
            if let Some(next) = step(&st, &o.inp, &o.out) {
                let mut d = done.clone();
                d[i / 64] |= 1 << (i % 64);
                if seen.insert((d.clone(), next.clone())) {
                    stack.push((d, next, cnt + 1));
                }
            }
        }
    }
    Verdict::Bad
}

/// how concurrent a history was: pairs of operations whose intervals overlap
pub fn overlaps<I, O>(ops: &[Op<I, O>]) -> u64 {
    let mut v: Vec<(u64, u64)> = ops.iter().map(|o| (o.call, o.ret)).collect();
    v.sort();
    let mut n = 0;
    for i in 0..v.len() {
        for j in i + 1..v.len() {
            if v[j].0 > v[i].1 {
                break;
            }
            n += 1;
        }
    }
    n
}
