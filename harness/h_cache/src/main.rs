//! Monitors of common/cache.
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::num::NonZeroUsize;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Barrier, Mutex};

use cache::*;
use mon::hist::{linearizable, overlaps, tick, Op, Verdict};
use mon::rand::Rng;
use mon::{json, Ctx, GenExt};

fn nz(n: usize) -> NonZeroUsize {
    NonZeroUsize::new(n).unwrap()
}

// ---------------------------------------------------------------- sequential LRU model

/// reference: most recently used at the back
#[derive(Clone, Default, Debug)]
struct Lru {
    cap: usize,
    q: VecDeque<(u32, u64)>,
}
impl Lru {
    fn take(&mut self, k: u32) -> Option<u64> {
        let i = self.q.iter().position(|e| e.0 == k)?;
        self.q.remove(i).map(|e| e.1)
    }
    fn insert(&mut self, k: u32, v: u64) -> Option<u64> {
        let old = self.take(k);
        self.q.push_back((k, v));
        self.trim();
        old
    }
    fn get(&mut self, k: u32) -> Option<u64> {
        let v = self.take(k)?;
        self.q.push_back((k, v));
        Some(v)
    }
    fn pop(&mut self) -> Option<(u32, u64)> {
        self.q.pop_front()
    }
    fn trim(&mut self) {
        while self.q.len() > self.cap {
            self.q.pop_front();
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum O {
    Ins(u32, u64),
    Get(u32),
    Rem(u32),
    Pop,
    PopShard(u32),
    Cap(usize),
    Clear,
    Info,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum R {
    V(Option<u64>),
    P(Option<(u32, u64)>),
    N(usize, usize),
    Unit,
}

/// what all five implementations have in common, for the sequential monitor
trait Dut {
    fn apply(&mut self, o: O) -> R;
    /// an identity of the partition that holds k (0: not partitioned)
    fn part(&mut self, k: u32) -> usize;
}

macro_rules! plain_apply {
    ($c:expr, $o:expr, $($aw:tt)*) => {
        match $o {
            O::Ins(k, v) => R::V($c.insert(k, v)$($aw)*),
            O::Get(k) => R::V($c.get(&k)$($aw)*),
            O::Rem(k) => R::V($c.remove(&k)$($aw)*),
            O::Pop | O::PopShard(_) => R::P($c.pop()$($aw)*),
            O::Cap(n) => { $c.set_capacity(nz(n))$($aw)*; R::Unit }
            O::Clear => { $c.clear()$($aw)*; R::Unit }
            O::Info => R::N($c.get_usage()$($aw)*, $c.get_capacity()$($aw)*),
        }
    };
}

impl Dut for LruWrap<u32, u64> {
    fn apply(&mut self, o: O) -> R {
        plain_apply!(self, o,)
    }
    fn part(&mut self, _: u32) -> usize {
        0
    }
}
impl Dut for SyncCacheWrap<u32, u64> {
    fn apply(&mut self, o: O) -> R {
        plain_apply!(self, o,)
    }
    fn part(&mut self, _: u32) -> usize {
        0
    }
}
impl Dut for ShardedSyncCache<u32, u64> {
    fn apply(&mut self, o: O) -> R {
        if let O::PopShard(k) = o {
            return R::P(self.pop_shard(&k));
        }
        plain_apply!(self, o,)
    }
    fn part(&mut self, k: u32) -> usize {
        self.shard(&k).map(|s| s as *const _ as *const u8 as usize).unwrap_or(0)
    }
}
struct Rt<C>(C, tokio::runtime::Runtime);
impl<C> Rt<C> {
    fn new(c: C) -> Self {
        Rt(c, tokio::runtime::Builder::new_current_thread().build().unwrap())
    }
}
impl Dut for Rt<AsyncCacheWrap<u32, u64>> {
    fn apply(&mut self, o: O) -> R {
        let c = &self.0;
        self.1.block_on(async { plain_apply!(c, o, .await) })
    }
    fn part(&mut self, _: u32) -> usize {
        0
    }
}
impl Dut for Rt<ShardedAsyncCache<u32, u64>> {
    fn apply(&mut self, o: O) -> R {
        let c = &self.0;
        self.1.block_on(async {
            if let O::PopShard(k) = o {
                return R::P(c.pop_shard(&k).await);
            }
            plain_apply!(c, o, .await)
        })
    }
    fn part(&mut self, k: u32) -> usize {
        let c = &self.0;
        self.1.block_on(async {
            let g = c.lock_shard(&k).await;
            g.map(|g| &**g as *const dyn Cache<K = u32, V = u64> as *const u8 as usize).unwrap_or(0)
        })
    }
}

fn build(kind: usize, cap: usize) -> (&'static str, Box<dyn Dut>, bool) {
    match kind {
        0 => ("LruWrap", Box::new(LruWrap::<u32, u64>::new(nz(cap))), false),
        1 => ("SyncCacheWrap", Box::new(SyncCacheWrap::new(LruWrap::<u32, u64>::new(nz(cap)))), false),
        2 => ("AsyncCacheWrap", Box::new(Rt::new(AsyncCacheWrap::new(LruWrap::<u32, u64>::new(nz(cap))))), false),
        3 => ("ShardedSyncCache", Box::new(ShardedSyncCache::<u32, u64>::create_lru_sharded_cache(cap)), true),
        _ => ("ShardedAsyncCache", Box::new(Rt::new(ShardedAsyncCache::<u32, u64>::create_lru_sharded_cache(cap))), true),
    }
}

fn c_seq(c: &mut Ctx) {
    c.rule("random operation sequences (insert/get/remove/pop/pop_shard/set_capacity/clear/usage) on each of the 5 cache types, capacities 1..200, key spaces 1..400, compared step by step with an exact per-partition LRU reference; non-trivial: the sequence evicted or popped at least one entry; distinct by operation sequence");
    let mut rng = c.rng("c_seq");
    for it in 0..c.n(1500, 20) {
        let kind = it % 5;
        let cap = *rng.pick(&[1usize, 2, 3, 5, 8, 15, 16, 17, 33, 64, 100, 200]);
        let keys = *rng.pick(&[1u32, 3, 10, 40, 120, 400]);
        let steps = rng.gen_range(20..400);
        let (name, mut d, sharded) = build(kind, cap);
        // discover the partition of each key from the public shard accessors
        let parts: Vec<usize> = (0..keys).map(|k| d.part(k)).collect();
        let nparts = parts.iter().collect::<HashSet<_>>().len();
        c.max(&format!("partitions_{name}"), nparts as u64);
        let R::N(_, cap0) = d.apply(O::Info) else { unreachable!() };
        let mut want_cap = cap;
        // capacity: at least what was asked, rounded up by less than one entry per shard
        let check_cap = |c: &mut Ctx, asked: usize, got: usize| {
            let ok = if sharded { got >= asked && got < asked.max(1) + 16 } else { got == asked };
            if !ok {
                c.violation(&format!("capacity:{name}"), json!({"asked": asked, "got": got}));
            }
        };
        check_cap(c, cap, cap0);
        let shard_cap = |asked: usize| if sharded { ((asked + 15) / 16).max(1) } else { asked };
        let mut model: HashMap<usize, Lru> = HashMap::new();
        for p in &parts {
            model.entry(*p).or_default().cap = shard_cap(cap);
        }
        let mut log: Vec<O> = vec![];
        let mut evicted = 0u64;
        let mut val = 0u64;
        for _ in 0..steps {
            let k = rng.gen_range(0..keys);
            let o = match rng.gen_range(0..100) {
                0..=44 => {
                    val += 1;
                    O::Ins(k, val)
                }
                45..=74 => O::Get(k),
                75..=82 => O::Rem(k),
                83..=86 => O::Pop,
                87..=91 => O::PopShard(k),
                92..=93 => O::Cap(*rng.pick(&[1usize, 2, 4, 16, 31, 64, 150])),
                94 if rng.chance(0.2) => O::Clear,
                _ => O::Info,
            };
            log.push(o);
            let got = match mon::quiet(|| d.apply(o)) {
                Ok(r) => r,
                Err(p) => {
                    c.violation(&format!("panic:{name}"), json!({"panic": p, "ops": format!("{log:?}")}));
                    break;
                }
            };
            let total: usize = model.values().map(|m| m.q.len()).sum();
            let want = match o {
                O::Ins(k, v) => {
                    let m = model.get_mut(&parts[k as usize]).unwrap();
                    let before = m.q.len();
                    let r = m.insert(k, v);
                    if r.is_none() && m.q.len() == before {
                        evicted += 1;
                    }
                    R::V(r)
                }
                O::Get(k) => R::V(model.get_mut(&parts[k as usize]).unwrap().get(k)),
                O::Rem(k) => R::V(model.get_mut(&parts[k as usize]).unwrap().take(k)),
                O::Pop => {
                    // from any partition, but the least recently used of that partition;
                    // None exactly when nothing is cached
                    match &got {
                        R::P(Some((k, v))) => {
                            let m = model.get_mut(&parts[*k as usize % parts.len()]).unwrap();
                            evicted += 1;
                            match m.q.front() {
                                Some(f) if *f == (*k, *v) => R::P(m.pop()),
                                f => R::P(f.copied()),
                            }
                        }
                        _ if total == 0 => R::P(None),
                        _ => R::P(model.values().filter_map(|m| m.q.front()).next().copied()),
                    }
                }
                O::PopShard(k) => {
                    evicted += 1;
                    R::P(model.get_mut(&parts[k as usize]).unwrap().pop())
                }
                O::Cap(n) => {
                    want_cap = n;
                    for m in model.values_mut() {
                        m.cap = shard_cap(n);
                        m.trim();
                    }
                    R::Unit
                }
                O::Clear => {
                    for m in model.values_mut() {
                        m.q.clear();
                    }
                    R::Unit
                }
                O::Info => {
                    if let R::N(_, cp) = got {
                        check_cap(c, want_cap, cp);
                        R::N(total, cp)
                    } else {
                        R::Unit
                    }
                }
            };
            c.count("steps", 1);
            if got != want {
                let op = format!("{o:?}");
                let op = op.split('(').next().unwrap();
                c.violation(
                    &format!("seq:{name}:{op}"),
                    json!({"cap": cap, "keys": keys, "ops": format!("{:?}", &log[log.len().saturating_sub(60)..]), "got": format!("{got:?}"), "want": format!("{want:?}")}),
                );
                break;
            }
        }
        c.count("evictions_or_pops", evicted);
        c.case((evicted > 0).then_some(&(kind, cap, &log)));
        c.sample(name, || json!({"cap": cap, "keys": keys, "ops": format!("{:?}", &log[..log.len().min(20)])}));
    }
    // draining: popping until None must hand out every entry exactly once
    for it in 0..c.n(200, 10) {
        let kind = it % 5;
        let n = rng.gen_range(1..60u32);
        let (name, mut d, _) = build(kind, 4096);
        for k in 0..n {
            d.apply(O::Ins(k, k as u64 + 7));
        }
        let mut got = BTreeMap::new();
        while let R::P(Some((k, v))) = d.apply(O::Pop) {
            if got.insert(k, v).is_some() {
                c.violation(&format!("drain:dup:{name}"), json!({"n": n, "key": k}));
                break;
            }
        }
        if got.len() != n as usize || got.iter().any(|(k, v)| *v != *k as u64 + 7) {
            c.violation(&format!("drain:{name}"), json!({"inserted": n, "drained": got.len()}));
        }
        c.case(Some(&("drain", kind, n)));
        c.count("drains", 1);
    }
    c.need("evictions_or_pops", 1000);
}

// ---------------------------------------------------------------- concurrency

#[derive(Clone, Debug)]
enum K1 {
    Ins(u64),
    Get,
    Rem,
}

fn record_lin(c: &mut Ctx, name: &str, logs: Vec<Vec<(u32, Op<K1, Option<u64>>)>>) {
    let mut by_key: BTreeMap<u32, Vec<Op<K1, Option<u64>>>> = BTreeMap::new();
    let mut total = 0;
    for l in logs {
        for (k, o) in l {
            total += 1;
            by_key.entry(k).or_default().push(o);
        }
    }
    c.count("events", total);
    for (k, ops) in by_key {
        let ov = overlaps(&ops);
        c.count("overlapping_pairs", ov);
        c.count("histories", 1);
        let mut shape: Vec<(u64, usize, u8)> = ops
            .iter()
            .map(|o| (o.call, o.proc, match o.inp { K1::Ins(_) => 0, K1::Get => 1, K1::Rem => 2 }))
            .collect();
        shape.sort();
        let shape: Vec<(usize, u8)> = shape.into_iter().map(|x| (x.1, x.2)).collect();
        c.case((ov > 0).then_some(&(name, shape)));
        let v = linearizable(
            &ops,
            None::<u64>,
            |s, i, o| match i {
                K1::Ins(v) => (o == s).then_some(Some(*v)),
                K1::Get => (o == s).then_some(*s),
                K1::Rem => (o == s).then_some(None),
            },
            3_000_000,
        );
        match v {
            Verdict::Ok => c.count("linearizable", 1),
            Verdict::Unknown => c.count("checker_gave_up", 1),
            Verdict::Bad => {
                let mut ops = ops.clone();
                ops.sort_by_key(|o| o.call);
                c.violation(&format!("lin:{name}"), json!({"key": k, "history": format!("{:?}", &ops[..ops.len().min(40)])}));
            }
        }
        c.sample(name, || json!({"key": k, "history": format!("{:?}", &ops[..ops.len().min(6)])}));
    }
}

fn c_conc(c: &mut Ctx) {
    c.rule("histories of 2..8 real threads / tasks on few keys over unbounded or roomy caches (insert returns the old value, so each history fixes the order of writes), each key's history decided by a linearizability checker; conservation of values when pops race; capacity never exceeded while threads race on a small cache; lock_shard excludes; non-trivial: at least two operations of the history overlapped in time; distinct by per-key interleaving (process, operation) sequence");
    let mut rng = c.rng("c_conc");
    // 1. sync, threads
    for it in 0..c.n(60, 30) {
        let threads = rng.gen_range(2..=8usize);
        let per = 60;
        let keys = rng.gen_range(1..=6u32);
        let (name, d): (&str, Arc<dyn SyncCache<K = u32, V = u64> + Send + Sync>) = match it % 3 {
            0 => ("SyncCacheWrap", Arc::new(SyncCacheWrap::new(LruWrap::<u32, u64>::unbounded()))),
            1 => ("ShardedSyncCache", Arc::new(ShardedSyncCache::<u32, u64>::create_lru_sharded_cache_unbounded())),
            _ => ("ShardedSyncCache-cap", Arc::new(ShardedSyncCache::<u32, u64>::create_lru_sharded_cache(16 * 16))),
        };
        let bar = Arc::new(Barrier::new(threads));
        let seeds: Vec<u64> = (0..threads).map(|_| rng.gen()).collect();
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (d, bar, seed) = (d.clone(), bar.clone(), seeds[t]);
                std::thread::spawn(move || {
                    use mon::rand::SeedableRng;
                    let mut r = mon::rand::rngs::StdRng::seed_from_u64(seed);
                    let mut log = vec![];
                    bar.wait();
                    for i in 0..per {
                        let k = r.gen_range(0..keys);
                        let inp = match r.gen_range(0..10) {
                            0..=3 => K1::Ins((t * 1000 + i) as u64),
                            4..=7 => K1::Get,
                            _ => K1::Rem,
                        };
                        let call = tick();
                        let out = match &inp {
                            K1::Ins(v) => d.insert(k, *v),
                            K1::Get => d.get(&k),
                            K1::Rem => d.remove(&k),
                        };
                        log.push((k, Op { proc: t, inp, out, call, ret: tick() }));
                        if r.gen_range(0..4) == 0 {
                            std::thread::yield_now();
                        }
                    }
                    log
                })
            })
            .collect();
        let logs = hs.into_iter().map(|h| h.join().unwrap()).collect();
        record_lin(c, name, logs);
    }
    // 2. async, multi-thread runtime
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).build().unwrap();
    for it in 0..c.n(40, 30) {
        let threads = rng.gen_range(2..=8usize);
        let keys = rng.gen_range(1..=6u32);
        let (name, d): (&str, Arc<dyn AsyncCache<K = u32, V = u64> + Send + Sync>) = match it % 2 {
            0 => ("AsyncCacheWrap", Arc::new(AsyncCacheWrap::new(LruWrap::<u32, u64>::unbounded()))),
            _ => ("ShardedAsyncCache", Arc::new(ShardedAsyncCache::<u32, u64>::create_lru_sharded_cache(16 * 16))),
        };
        let seeds: Vec<u64> = (0..threads).map(|_| rng.gen()).collect();
        let logs = rt.block_on(async {
            let mut js = vec![];
            for t in 0..threads {
                let (d, seed) = (d.clone(), seeds[t]);
                js.push(tokio::spawn(async move {
                    use mon::rand::SeedableRng;
                    let mut r = mon::rand::rngs::StdRng::seed_from_u64(seed);
                    let mut log = vec![];
                    for i in 0..50 {
                        let k = r.gen_range(0..keys);
                        let inp = match r.gen_range(0..10) {
                            0..=3 => K1::Ins((t * 1000 + i) as u64),
                            4..=7 => K1::Get,
                            _ => K1::Rem,
                        };
                        let call = tick();
                        let out = match &inp {
                            K1::Ins(v) => d.insert(k, *v).await,
                            K1::Get => d.get(&k).await,
                            K1::Rem => d.remove(&k).await,
                        };
                        log.push((k, Op { proc: t, inp, out, call, ret: tick() }));
                        if r.gen_range(0..3) == 0 {
                            tokio::task::yield_now().await;
                        }
                    }
                    log
                }));
            }
            let mut out = vec![];
            for j in js {
                out.push(j.await.unwrap());
            }
            out
        });
        record_lin(c, name, logs);
    }
    // 3. conservation: every inserted value leaves exactly once or is still there
    for it in 0..c.n(30, 20) {
        let threads = 6;
        let sharded = it % 2 == 0;
        let d: Arc<dyn SyncCache<K = u32, V = u64> + Send + Sync> = if sharded {
            Arc::new(ShardedSyncCache::<u32, u64>::create_lru_sharded_cache_unbounded())
        } else {
            Arc::new(SyncCacheWrap::new(LruWrap::<u32, u64>::unbounded()))
        };
        let bar = Arc::new(Barrier::new(threads));
        let seed: u64 = rng.gen();
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (d, bar) = (d.clone(), bar.clone());
                std::thread::spawn(move || {
                    use mon::rand::SeedableRng;
                    let mut r = mon::rand::rngs::StdRng::seed_from_u64(seed ^ t as u64);
                    let (mut ins, mut out) = (vec![], vec![]);
                    bar.wait();
                    for i in 0..300 {
                        let k = r.gen_range(0..40u32);
                        match r.gen_range(0..10) {
                            0..=5 => {
                                let v = (t * 100_000 + i) as u64;
                                ins.push((k, v));
                                out.extend(d.insert(k, v).map(|v| (k, v)));
                            }
                            6..=7 => out.extend(d.remove(&k).map(|v| (k, v))),
                            _ => out.extend(d.pop()),
                        }
                    }
                    (ins, out)
                })
            })
            .collect();
        let mut ins = HashSet::new();
        let mut out = vec![];
        for h in hs {
            let (i, o) = h.join().unwrap();
            ins.extend(i);
            out.extend(o);
        }
        let usage = d.get_usage();
        let mut rest = vec![];
        for k in 0..40 {
            rest.extend(d.get(&k).map(|v| (k, v)));
        }
        c.count("conservation_in", ins.len() as u64);
        c.count("conservation_out", out.len() as u64);
        c.case(Some(&("cons", it, seed)));
        let mut seen = HashSet::new();
        let all = out.iter().chain(&rest);
        let dup = all.clone().find(|x| !seen.insert(**x)).copied();
        let alien = all.clone().find(|x| !ins.contains(*x)).copied();
        if dup.is_some() || alien.is_some() || seen.len() != ins.len() || usage != rest.len() {
            c.violation("conservation", json!({"sharded": sharded, "inserted": ins.len(), "left": out.len(), "resident": rest.len(), "usage": usage, "dup": dup, "alien": alien}));
        }
    }
    // 3b. a pop finds nothing only when there is nothing: entries are put in first, then only pops take them out
    // while others keep the shards busy; a pop that came back empty although an entry left later, by a pop that
    // began after it, overlooked that entry
    for it in 0..c.n(24, 20) {
        let entries = *rng.pick(&[3u32, 16, 40, 200]);
        let kind = it % 4;
        let seed: u64 = rng.gen();
        let threads = 6usize;
        type PopLog = Vec<(u64, u64, Option<(u32, u64)>)>;
        let logs: Vec<PopLog> = if kind < 2 {
            let d: Arc<dyn SyncCache<K = u32, V = u64> + Send + Sync> = if kind == 0 {
                Arc::new(ShardedSyncCache::<u32, u64>::create_lru_sharded_cache_unbounded())
            } else {
                Arc::new(SyncCacheWrap::new(LruWrap::<u32, u64>::unbounded()))
            };
            for k in 0..entries {
                d.insert(k, seed ^ k as u64);
            }
            let (bar, stop) = (Arc::new(Barrier::new(threads)), Arc::new(AtomicBool::new(false)));
            let busy = {
                let (d, stop) = (d.clone(), stop.clone());
                std::thread::spawn(move || {
                    let mut k = 0;
                    while !stop.load(Ordering::Relaxed) {
                        k = (k + 1) % 200;
                        d.get(&k);
                    }
                })
            };
            let hs: Vec<_> = (0..threads)
                .map(|_| {
                    let (d, bar) = (d.clone(), bar.clone());
                    std::thread::spawn(move || {
                        let mut log = vec![];
                        bar.wait();
                        let mut empty = 0;
                        while empty < 3 {
                            let call = tick();
                            let r = d.pop();
                            log.push((call, tick(), r));
                            empty += r.is_none() as u32;
                        }
                        log
                    })
                })
                .collect();
            let l = hs.into_iter().map(|h| h.join().unwrap()).collect();
            stop.store(true, Ordering::Relaxed);
            busy.join().unwrap();
            l
        } else {
            rt.block_on(async {
                let sh = Arc::new(ShardedAsyncCache::<u32, u64>::create_lru_sharded_cache(100_000));
                let d: Arc<dyn AsyncCache<K = u32, V = u64> + Send + Sync> = if kind == 2 {
                    sh.clone()
                } else {
                    Arc::new(AsyncCacheWrap::new(LruWrap::<u32, u64>::unbounded()))
                };
                for k in 0..entries {
                    d.insert(k, seed ^ k as u64).await;
                }
                let stop = Arc::new(AtomicBool::new(false));
                // somebody holds the shards for a moment each, over an await
                let busy = {
                    let (d, sh, stop) = (d.clone(), sh.clone(), stop.clone());
                    tokio::spawn(async move {
                        let mut k = 0;
                        while !stop.load(Ordering::Relaxed) {
                            k = (k + 1) % 200;
                            let g = sh.lock_shard(&k).await;
                            tokio::time::sleep(std::time::Duration::from_micros(200)).await;
                            drop(g);
                            d.get(&k).await;
                        }
                    })
                };
                let hs: Vec<_> = (0..threads)
                    .map(|_| {
                        let d = d.clone();
                        tokio::spawn(async move {
                            let mut log = vec![];
                            let mut empty = 0;
                            while empty < 3 {
                                let call = tick();
                                let r = d.pop().await;
                                log.push((call, tick(), r));
                                empty += r.is_none() as u32;
                                tokio::task::yield_now().await;
                            }
                            log
                        })
                    })
                    .collect();
                let mut l = vec![];
                for h in hs {
                    l.push(h.await.unwrap());
                }
                stop.store(true, Ordering::Relaxed);
                let _ = busy.await;
                l
            })
        };
        let all: PopLog = logs.into_iter().flatten().collect();
        c.case(Some(&("pops", kind, entries, it)));
        c.count("contended_pops", all.len() as u64);
        let taken: HashSet<_> = all.iter().filter_map(|x| x.2).collect();
        let got = all.iter().filter(|x| x.2.is_some()).count();
        if taken.len() != got || got != entries as usize {
            c.violation("pops:lost-or-twice", json!({"kind": kind, "entries": entries, "taken": got, "distinct": taken.len()}));
        }
        if let Some(last) = all.iter().filter(|x| x.2.is_some()).map(|x| x.0).max() {
            // entries still there when an empty-handed pop was over
            if let Some(e) = all.iter().filter(|x| x.2.is_none()).find(|x| x.1 < last) {
                let left = all.iter().filter(|x| x.2.is_some() && x.0 > e.1).count();
                c.violation("pops:overlooked", json!({"kind": (["sharded sync", "sync", "sharded async", "async"][kind as usize]), "entries": entries, "still there all along": left}));
            }
        }
    }
    c.need("contended_pops", 300);
    // 4. capacity is never exceeded, whoever looks
    for it in 0..c.n(12, 20) {
        let sharded = it % 2 == 0;
        let cap = *rng.pick(&[1usize, 7, 16, 40]);
        let d: Arc<dyn SyncCache<K = u32, V = u64> + Send + Sync> = if sharded {
            Arc::new(ShardedSyncCache::<u32, u64>::create_lru_sharded_cache(cap))
        } else {
            Arc::new(SyncCacheWrap::new(LruWrap::<u32, u64>::new(nz(cap))))
        };
        let full = d.get_capacity();
        let stop = Arc::new(AtomicBool::new(false));
        let bad = Arc::new(Mutex::new(None));
        let looker = {
            let (d, stop, bad) = (d.clone(), stop.clone(), bad.clone());
            std::thread::spawn(move || {
                let mut n = 0u64;
                while !stop.load(Ordering::Relaxed) {
                    let u = d.get_usage();
                    n += 1;
                    if u > full {
                        *bad.lock().unwrap() = Some(u);
                    }
                }
                n
            })
        };
        let hs: Vec<_> = (0..4u32)
            .map(|t| {
                let d = d.clone();
                std::thread::spawn(move || {
                    for i in 0..2000u32 {
                        d.insert(i.wrapping_mul(2654435761).rotate_left(t) % 500, (t * 10000 + i) as u64);
                    }
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
        stop.store(true, Ordering::Relaxed);
        let n = looker.join().unwrap();
        c.count("capacity_observations", n + 1);
        c.case(Some(&("cap", sharded, cap, it)));
        let last = d.get_usage();
        let b = bad.lock().unwrap().or((last > full).then_some(last));
        if let Some(u) = b {
            c.violation("capacity-exceeded", json!({"capacity": full, "usage": u}));
        }
    }
    // 5. lock_shard really excludes: read-modify-write across an await
    for it in 0..c.n(10, 10) {
        let d = Arc::new(ShardedAsyncCache::<u32, u64>::create_lru_sharded_cache(512));
        let tasks = 8;
        let per = 40u64;
        rt.block_on(async {
            let mut js = vec![];
            for t in 0..tasks {
                let d = d.clone();
                js.push(tokio::spawn(async move {
                    for i in 0..per {
                        let k = ((t + i) % 3) as u32;
                        let mut g = d.lock_shard(&k).await.unwrap();
                        let v = g.get(&k).unwrap_or(0);
                        tokio::task::yield_now().await;
                        g.insert(k, v + 1);
                    }
                }));
            }
            for j in js {
                j.await.unwrap();
            }
        });
        let sum: u64 = rt.block_on(async {
            let mut s = 0;
            for k in 0..3u32 {
                s += d.get(&k).await.unwrap_or(0);
            }
            s
        });
        c.count("locked_rmw", tasks * per);
        c.case(Some(&("rmw", it)));
        if sum != tasks * per {
            c.violation("lost-update-under-lock_shard", json!({"expected": tasks * per, "got": sum}));
        }
    }
    c.need("linearizable", 100);
    c.need("overlapping_pairs", 200);
}

// ---------------------------------------------------------------- circular cache

fn c_circ(c: &mut Ctx) {
    c.rule("random sequences of put (ascending keys, as a raft log appends; also overwrites of resident keys), del_before, del_after, last, get on CircularKVCache of capacity 1..40, every resident and recently dropped key compared with an ordered-window reference after each step; non-trivial: the window wrapped (an eviction) or a range was deleted; distinct by operation sequence");
    let mut rng = c.rng("c_circ");
    for _ in 0..c.n(1200, 20) {
        let cap = rng.gen_range(1..=40usize);
        let mut d = CircularKVCache::<i64, u64>::new(cap);
        // keys around the default key of the type (what an emptied slot holds) too
        let off = if rng.chance(0.4) { 0 } else { rng.gen_range(1..90i64) };
        let key = |k: u64| k as i64 - off;
        let mut m: VecDeque<(u64, u64)> = VecDeque::new();
        let mut next = rng.gen_range(1..50u64);
        let mut log: Vec<(u8, u64)> = vec![];
        let (mut wraps, mut dels, mut val) = (0u64, 0u64, 0u64);
        let mut lo = next;
        for _ in 0..rng.gen_range(10..200) {
            match rng.gen_range(0..20) {
                0..=11 => {
                    val += 1;
                    // append; keys may skip
                    let k = next;
                    next += if rng.chance(0.1) { rng.gen_range(1..5) } else { 1 };
                    if m.len() == cap {
                        m.pop_front();
                        wraps += 1;
                    }
                    m.push_back((k, val));
                    log.push((0, k));
                    d.put(key(k), val);
                }
                12..=13 if !m.is_empty() => {
                    val += 1;
                    let i = rng.gen_range(0..m.len());
                    m[i].1 = val;
                    log.push((0, m[i].0));
                    d.put(key(m[i].0), val);
                }
                14..=15 => {
                    let k = rng.gen_range(lo.saturating_sub(3)..=next + 2);
                    log.push((1, k));
                    let b = m.len();
                    while m.front().is_some_and(|e| e.0 < k) {
                        m.pop_front();
                    }
                    dels += (b - m.len()) as u64;
                    d.del_before(key(k));
                }
                16..=17 => {
                    // truncation of a suffix: later appends restart from there
                    let from = m.front().map(|e| e.0).unwrap_or(next);
                    let k = if rng.chance(0.8) { rng.gen_range(from.saturating_sub(1)..=next + 1) } else { from };
                    log.push((2, k));
                    let b = m.len();
                    while m.back().is_some_and(|e| e.0 >= k) {
                        m.pop_back();
                    }
                    dels += (b - m.len()) as u64;
                    d.del_after(key(k));
                    next = m.back().map(|e| e.0 + 1).unwrap_or(k.max(1)).max(1);
                }
                _ => {}
            }
            lo = lo.min(next).max(next.saturating_sub(cap as u64 * 2 + 10));
            c.count("steps", 1);
            let last = d.last().copied();
            if last != m.back().map(|e| e.1) {
                c.violation("circ:last", json!({"cap": cap, "keys_minus": off, "ops": format!("{log:?}"), "got": last, "want": m.back()}));
                break;
            }
            let mut bad = None;
            for k in lo.saturating_sub(5)..next + 8 {
                let want = m.iter().find(|e| e.0 == k).map(|e| e.1);
                let got = d.get(&key(k)).copied();
                c.count("gets", 1);
                if got != want {
                    bad = Some((k, got, want));
                }
            }
            if let Some(b) = bad {
                c.violation("circ:get", json!({"cap": cap, "keys_minus": off, "ops": format!("{log:?}"), "key,got,want": format!("{b:?}")}));
                break;
            }
        }
        c.count("evictions", wraps);
        c.count("range_deleted", dels);
        c.case((wraps + dels > 0).then_some(&(cap, &log)));
        c.sample("circ", || json!({"cap": cap, "keys_minus": off, "ops": format!("{:?}", &log[..log.len().min(25)])}));
    }
    c.need("evictions", 500);
    c.need("range_deleted", 500);
}

fn main() {
    mon::main(&[("C01", c_seq), ("C02", c_conc), ("C03", c_circ)]);
}
