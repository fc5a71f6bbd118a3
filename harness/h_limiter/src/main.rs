//! Monitors of common/limiter_bucket, under a virtual wall clock: this executable
//! defines clock_gettime, so every `Utc::now()` of the code under test reads VIRT.
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, Barrier};

use config::common::{CountBucketConfig, RateBucketConfig};
use limiter_bucket::{CountBucket, RateBucket, RateBucketBuilder};
use mon::rand::Rng;
use mon::{json, Ctx, GenExt};

/// virtual CLOCK_REALTIME in nanoseconds; 0 = the real clock
static VIRT: AtomicI64 = AtomicI64::new(0);

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let v = VIRT.load(Ordering::SeqCst);
    if clk == libc::CLOCK_REALTIME && v != 0 {
        (*ts).tv_sec = v / 1_000_000_000;
        (*ts).tv_nsec = v % 1_000_000_000;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}
const MS: i64 = 1_000_000;
const T0: i64 = 1_700_000_000_000 * MS;

fn set(t: i64) {
    VIRT.store(t, Ordering::SeqCst);
}
fn now() -> i64 {
    VIRT.load(Ordering::SeqCst)
}
fn clock_works() -> bool {
    set(T0 + 123 * MS);
    chrono::Utc::now().timestamp_millis() == (T0 + 123 * MS) / MS
}

/// reference: refill points every `iv` from creation, the balance capped at `max`
#[derive(Clone, Debug)]
struct Ref {
    bal: u128,
    refill: u128,
    max: u128,
    iv: i64,
    next: i64,
}
impl Ref {
    fn roll(&mut self) {
        let t = now();
        if t >= self.next {
            let k = (t - self.next) / self.iv + 1;
            self.bal = (self.bal + self.refill * k as u128).min(self.max);
            self.next += k * self.iv;
        }
    }
}

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
struct P {
    max: Option<usize>,
    initial: usize,
    refill: usize,
    iv: i64,
    how: u8,
}

fn gen_p(r: &mut impl Rng) -> P {
    let small = |r: &mut dyn mon::rand::RngCore| [0usize, 1, 2, 5, 10, 100, 1000][r.gen_range(0..7)];
    let refill = match r.gen_range(0..12) {
        0 => usize::MAX / 4,
        1 => 1 << 40,
        _ => small(r).max(1),
    };
    P {
        max: match r.gen_range(0..6) {
            0 => None,
            1 => Some(usize::MAX),
            2 => Some(0),
            _ => Some(small(r) * r.gen_range(1..20usize)),
        },
        initial: match r.gen_range(0..8) {
            0 => usize::MAX,
            1 => 1 << 33,
            _ => small(r),
        },
        refill,
        iv: *r.pick(&[1i64, 2, 7, 10, 100, 1000, 60_000, 86_400_000]),
        how: r.gen_range(0..3),
    }
}

fn make(p: P) -> RateBucket {
    match p.how {
        0 => {
            let mut b = RateBucket::builder();
            b.initial(p.initial).refill(p.refill).interval(chrono::Duration::milliseconds(p.iv));
            if let Some(m) = p.max {
                b.max(m);
            }
            b.build()
        }
        1 => RateBucket::from(&RateBucketConfig { max: p.max, initial: p.initial, refill: p.refill, interval: p.iv }),
        _ => RateBucket::from(&RateBucketBuilder::from(&RateBucketConfig { max: p.max, initial: p.initial, refill: p.refill, interval: p.iv })),
    }
}

fn model(p: P) -> Ref {
    let max = p.max.map(|m| m as u128).unwrap_or((p.refill.max(p.initial) as u128 * 10).min(usize::MAX as u128));
    Ref { bal: (p.initial as u128).min(max), refill: p.refill as u128, max, iv: p.iv * MS, next: now() + p.iv * MS }
}

fn l01(c: &mut Ctx) {
    c.rule("token bucket of random shape (max/initial/refill/interval, built by builder or configuration) driven by random acquire / acquire_closed / clock-advance / clock-step-back / serde-reload sequences under a virtual clock; every answer and balance compared with a refill-grid reference; plus 2..8 threads racing on one bucket with conservation of tokens; non-trivial: at least one refusal or short grant and at least one refill; distinct by parameters and operation sequence");
    if !clock_works() {
        c.inconclusive("the virtual clock is not read by the code under test");
        return;
    }
    let mut r = c.rng("l01");
    for it in 0..c.n(4000, 25) {
        set(T0 + r.gen_range(0..1_000_000i64) * MS);
        let p = gen_p(&mut r);
        let mut b = make(p);
        let mut m = model(p);
        // whole-millisecond histories are compared exactly; with sub-millisecond
        // times the refill grid may drift late by less than 1 ms per refill, so
        // those are held to the upper bound only
        let exact = it % 4 != 3;
        let t_make = now();
        let init_bal = m.bal;
        let mut granted: u128 = 0;
        let mut log: Vec<(u8, u64)> = vec![];
        let (mut refused, mut refills) = (0, 0);
        for _ in 0..r.gen_range(5..80) {
            c.count("steps", 1);
            match r.gen_range(0..10) {
                0..=2 => {
                    let mut d = match r.gen_range(0..6) {
                        0 => 0,
                        1 => p.iv - 1,
                        2 => p.iv,
                        3 => p.iv * r.gen_range(1..6) + r.gen_range(0..3),
                        4 => (p.iv * r.gen_range(1000..100_000)).min(365 * 86_400_000 * 2),
                        _ => r.gen_range(0..=p.iv),
                    } * MS;
                    if !exact {
                        d += r.gen_range(0..MS);
                    }
                    log.push((0, d as u64));
                    set(now() + d);
                }
                3 if exact && r.chance(0.1) => {
                    // the clock steps back: no tokens appear, nothing breaks
                    let d = r.gen_range(0..=2 * p.iv) * MS;
                    log.push((1, d as u64));
                    set(now() - d);
                }
                3 if r.chance(0.3) => {
                    // a reload of the persisted state (meta snapshot) changes nothing
                    log.push((2, 0));
                    let nb = if r.gen() {
                        serde_json::from_str(&serde_json::to_string(&b).unwrap())
                            .map_err(|e| e.to_string())
                    } else {
                        bincode::deserialize(&bincode::serialize(&b).unwrap()).map_err(|e| e.to_string())
                    };
                    match nb {
                        Ok(x) => {
                            if x != b {
                                c.violation("reload-differs", json!({"p": format!("{p:?}")}));
                            }
                            b = x
                        }
                        Err(e) => c.violation("reload-fails", json!({"p": format!("{p:?}"), "err": e})),
                    }
                    c.count("reloads", 1);
                }
                3..=6 => {
                    let n = amount(&mut r, &m);
                    log.push((3, n as u64));
                    let before = m.next;
                    if n > 0 {
                        m.roll();
                    }
                    refills += (m.next != before) as u32;
                    let got = match mon::quiet(|| b.acquire(n)) {
                        Ok(g) => g,
                        Err(e) => {
                            c.violation("panic:acquire", json!({"p": format!("{p:?}"), "log": format!("{log:?}"), "panic": e}));
                            break;
                        }
                    };
                    let want = n as u128 <= m.bal;
                    if exact {
                        if got.is_ok() != want {
                            c.violation("acquire", json!({"p": format!("{p:?}"), "log": format!("{log:?}"), "n": n, "granted": got.is_ok(), "model": format!("{m:?}")}));
                            break;
                        }
                        if want {
                            m.bal -= n as u128;
                        } else {
                            refused += 1;
                        }
                    }
                    if got.is_ok() {
                        granted += n as u128;
                    }
                }
                _ => {
                    let n = amount(&mut r, &m);
                    log.push((4, n as u64));
                    let before = m.next;
                    if n > 0 {
                        m.roll();
                    }
                    refills += (m.next != before) as u32;
                    let got = match mon::quiet(|| b.acquire_closed(n)) {
                        Ok(g) => g,
                        Err(e) => {
                            c.violation("panic:acquire_closed", json!({"p": format!("{p:?}"), "log": format!("{log:?}"), "panic": e}));
                            break;
                        }
                    };
                    if exact {
                        let want = (n as u128).min(m.bal);
                        if got as u128 != want {
                            c.violation("acquire_closed", json!({"p": format!("{p:?}"), "log": format!("{log:?}"), "n": n, "got": got, "model": format!("{m:?}")}));
                            break;
                        }
                        m.bal -= want;
                        refused += (got < n) as u32;
                    } else if got > n {
                        c.violation("acquire_closed:more-than-asked", json!({"p": format!("{p:?}"), "n": n, "got": got}));
                    }
                    granted += got as u128;
                }
            }
            if exact && b.balance() as u128 != m.bal {
                c.violation("balance", json!({"p": format!("{p:?}"), "log": format!("{log:?}"), "balance": b.balance(), "model": format!("{m:?}")}));
                break;
            }
            if b.balance() as u128 > m.max {
                c.violation("balance-over-max", json!({"p": format!("{p:?}"), "log": format!("{log:?}"), "balance": b.balance()}));
                break;
            }
            if !exact {
                let points = ((now() - t_make) / (p.iv * MS)) as u128;
                if granted > init_bal + points * p.refill as u128 {
                    c.violation("over-granted", json!({"p": format!("{p:?}"), "log": format!("{log:?}"), "granted": granted.to_string()}));
                    break;
                }
            }
        }
        c.count("refusals", refused as u64);
        c.count("refills", refills as u64);
        c.case((!exact || (refused > 0 && refills > 0)).then_some(&(p, &log)));
        c.sample(if exact { "exact" } else { "bounds" }, || json!({"p": format!("{p:?}"), "log": format!("{:?}", &log[..log.len().min(12)])}));
    }
    // races: at a frozen instant exactly the available tokens are handed out
    for _ in 0..c.n(60, 25) {
        set(T0);
        let p = P { max: Some(r.gen_range(100..4000)), initial: r.gen_range(0..3000), refill: r.gen_range(1..500), iv: 10, how: 0 };
        let b = Arc::new(make(p));
        let mut m = model(p);
        set(T0 + r.gen_range(0..100i64) * MS);
        m.roll();
        let n = r.gen_range(2..=8usize);
        let bar = Arc::new(Barrier::new(n));
        let closed: bool = r.gen();
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let (b, bar) = (b.clone(), bar.clone());
                std::thread::spawn(move || {
                    bar.wait();
                    let mut g = 0usize;
                    for j in 0..400 {
                        let want = 1 + (i + j) % 7;
                        g += if closed { b.acquire_closed(want) } else { b.acquire(want).map(|_| want).unwrap_or(0) };
                    }
                    g
                })
            })
            .collect();
        let got: u128 = hs.into_iter().map(|h| h.join().unwrap() as u128).sum();
        c.count("raced_acquires", 400 * n as u64);
        c.case(Some(&(p, n, closed, now())));
        let asked: u128 = (0..n).map(|i| (0..400).map(|j| 1 + ((i + j) % 7) as u128).sum::<u128>()).sum();
        let bal = b.balance() as u128;
        if got + bal != m.bal || (closed && got != asked.min(m.bal)) || (!closed && bal > 0 && got < asked && bal >= 7) {
            c.violation("conservation", json!({"p": format!("{p:?}"), "granted": got.to_string(), "left": bal.to_string(), "available": m.bal.to_string(), "closed": closed}));
        }
    }
    // races across refills: total never exceeds initial + refills
    for _ in 0..c.n(20, 25) {
        set(T0);
        let p = P { max: Some(usize::MAX), initial: 50, refill: r.gen_range(1..50), iv: 5, how: 1 };
        let b = Arc::new(make(p));
        let hs: Vec<_> = (0..6)
            .map(|_| {
                let b = b.clone();
                std::thread::spawn(move || (0..1500).map(|_| b.acquire(1).is_ok() as u128).sum::<u128>())
            })
            .collect();
        for _ in 0..200 {
            set(now() + MS);
            std::thread::yield_now();
        }
        let got: u128 = hs.into_iter().map(|h| h.join().unwrap()).sum();
        let _ = b.acquire(1).map(|_| ());
        let lim = 50 + p.refill as u128 * 40;
        c.case(Some(&("adv", p, got)));
        c.count("raced_acquires", 9000);
        if got > lim {
            c.violation("over-granted-under-race", json!({"p": format!("{p:?}"), "granted": got.to_string(), "limit": lim.to_string()}));
        }
    }
    c.need("refusals", 1000);
    c.need("refills", 1000);
    set(0);
}

fn amount(r: &mut impl Rng, m: &Ref) -> usize {
    match r.gen_range(0..9) {
        0 => 0,
        1 => 1,
        2 => (m.bal.min(usize::MAX as u128)) as usize,
        3 => (m.bal + 1).min(usize::MAX as u128) as usize,
        4 => ((m.bal + m.refill).min(usize::MAX as u128)) as usize,
        5 => usize::MAX,
        6 => (m.bal / 2) as usize,
        _ => r.gen_range(0..20),
    }
}

fn l02(c: &mut Ctx) {
    c.rule("count and rate buckets of random shape: every public attribute survives JSON and bincode reload and conversion from configuration; a count bucket equals the sum of its movements after any inc/dec sequence; JSON fields may come in any order and a missing or duplicated field is refused; non-trivial: the bucket was moved before the reload; distinct by attributes");
    set(0);
    let mut r = c.rng("l02");
    for _ in 0..c.n(3000, 30) {
        // count bucket
        let init = r.gen_range(-1000i64..1000);
        let max = r.gen::<bool>().then(|| r.edgy_i64());
        let mut b = match r.gen_range(0..3) {
            0 => CountBucket::new_with_init(init, max),
            1 => CountBucket::from(&CountBucketConfig { max, initial: init }),
            _ => {
                let mut b = limiter_bucket::CountBucketBuilder::default();
                b.initial(init);
                if let Some(m) = max {
                    b.max(m);
                }
                b.build()
            }
        };
        let mut sum = init as i128;
        let mut n = 0;
        for _ in 0..r.gen_range(0..20) {
            let v = r.gen_range(-5000i64..5000);
            if r.gen() {
                b.inc(v);
                sum += v as i128;
            } else {
                b.dec(v);
                sum -= v as i128;
            }
            n += 1;
        }
        let j: CountBucket = serde_json::from_str(&serde_json::to_string(&b).unwrap()).unwrap();
        let k: CountBucket = bincode::deserialize(&bincode::serialize(&b).unwrap()).unwrap();
        for (w, x) in [("itself", &b), ("json", &j), ("bincode", &k)] {
            if x.fetch() as i128 != sum || x.max() != max {
                c.violation(&format!("count:{w}"), json!({"init": init, "max": max, "expected": sum.to_string(), "got": x.fetch(), "got_max": x.max()}));
            }
        }
        c.count("count_buckets", 1);
        c.case((n > 0).then_some(&("count", init, max, sum)));

        // rate bucket
        let p = gen_p(&mut r);
        let b = make(p);
        let moved = b.acquire(1).is_ok();
        let s = serde_json::to_string(&b).unwrap();
        let mut v: mon::Value = serde_json::from_str(&s).unwrap();
        let as_json: Result<RateBucket, _> = serde_json::from_str(&s);
        let as_bin: Result<RateBucket, _> = bincode::deserialize(&bincode::serialize(&b).unwrap());
        // another field order
        let o = v.as_object().unwrap().clone();
        let mut ks: Vec<&String> = o.keys().collect();
        for i in (1..ks.len()).rev() {
            ks.swap(i, r.gen_range(0..=i));
        }
        let shuffled = format!("{{{}}}", ks.iter().map(|k| format!("{}:{}", json!(k), o[*k])).collect::<Vec<_>>().join(","));
        let as_shuffled: Result<RateBucket, _> = serde_json::from_str(&shuffled);
        for (w, x) in [("json", as_json.ok()), ("bincode", as_bin.ok()), ("shuffled", as_shuffled.ok())] {
            let ok = x.as_ref().is_some_and(|x| {
                x.refill() == b.refill() && x.interval() == b.interval() && x.max() == b.max() && x.balance() == b.balance() && *x == b
            });
            if !ok {
                c.violation(&format!("rate:{w}"), json!({"p": format!("{p:?}"), "text": s, "got": format!("{x:?}")}));
            }
        }
        if b.refill() != p.refill || b.interval().num_milliseconds() != p.iv || p.max.is_some_and(|m| m != b.max()) {
            c.violation("rate:shape", json!({"p": format!("{p:?}"), "got": format!("{b:?}")}));
        }
        let drop = ks[r.gen_range(0..ks.len())].clone();
        v.as_object_mut().unwrap().remove(&drop);
        if serde_json::from_value::<RateBucket>(v).is_ok() {
            c.violation("rate:missing-field-accepted", json!({"text": s, "dropped": drop}));
        }
        c.count("rate_buckets", 1);
        c.case(moved.then_some(&("rate", p)));
        c.sample("rate", || json!({"text": s}));
    }
    c.need("rate_buckets", 1000);
}

fn main() {
    mon::main(&[("L01", l01), ("L02", l02)]);
}
