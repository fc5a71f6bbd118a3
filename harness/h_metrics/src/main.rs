//! Monitors of common/metrics.
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Barrier};
use std::time::Duration;

use metrics::average::U64Average;
use metrics::count::U64Counter;
use metrics::duration::{DurationCounter, DurationGauge, DurationHistogram, DurationHistogramOptions};
use metrics::gauge::{GaugeWrap, U64Gauge};
use metrics::histogram::{U64Histogram, U64HistogramOptions};
use metrics::label::Labels;
use metrics::metric::Metric;
use metrics::metric_register::MetricsRegister;
use metrics::metric_type::MetricType;
use metrics::metric_value::{HistogramValue, MetricValue};
use metrics::prom_reporter::PromReporter;
use metrics::reporter::Reporter;
use metrics::{Measure, DURATION_MAX};
use mon::rand::Rng;
use mon::{json, Ctx, GenExt};

const KEYS: [&str; 5] = ["tenant", "database", "node_id", "vnode_id", "k_9"];
const NAMES: [&str; 8] = ["http_queries", "coord_data_in", "disk_storage", "cache_size", "q1", "wal", "write_duration", "x"];

type Lab = BTreeMap<&'static str, String>;
fn labels(l: &Lab) -> Labels {
    let mut out = Labels::default();
    for (k, v) in l {
        out.insert((*k, Cow::Owned(v.clone())));
    }
    out
}
fn gen_lab(r: &mut impl Rng, hostile: bool) -> Lab {
    let mut l = Lab::new();
    for _ in 0..r.gen_range(0..3) {
        let k = *r.pick(&KEYS);
        let v = if hostile { r.edgy_string(8) } else { r.gen_range(0..3).to_string() };
        l.insert(k, v);
    }
    l
}

// ------------------------------------------------------------------ M01

fn m01(c: &mut Ctx) {
    c.rule("counters, gauges, averages, histograms and duration instruments updated by 1..8 racing threads that each look the recorder up by its labels; totals, bucket counts and sums compared with the updates that were made; bucket boundaries hit exactly and off by one; non-trivial: at least two threads or a boundary value; distinct by parameters");
    let mut r = c.rng("m01");
    for it in 0..c.n(150, 20) {
        let reg = Arc::new(MetricsRegister::default());
        let threads = r.gen_range(1..=8usize);
        let per = 400u64;
        let nlab = r.gen_range(1..=3u64);
        let bounds: Vec<u64> = {
            let mut b: Vec<u64> = (0..r.gen_range(1..8)).map(|_| r.gen_range(0..200)).collect();
            if r.chance(0.6) {
                b.push(u64::MAX);
            }
            b
        };
        let mut sorted = bounds.clone();
        sorted.sort();
        let dbounds: Vec<Duration> = bounds.iter().map(|b| Duration::from_nanos(*b)).collect();
        let bar = Arc::new(Barrier::new(threads));
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (reg, bar, bounds, dbounds) = (reg.clone(), bar.clone(), bounds.clone(), dbounds.clone());
                let seed: u64 = r.gen();
                std::thread::spawn(move || {
                    use mon::rand::SeedableRng;
                    let mut r = mon::rand::rngs::StdRng::seed_from_u64(seed);
                    let mut cnt = vec![0u64; nlab as usize];
                    let mut dur = vec![0u64; nlab as usize];
                    let mut vals: Vec<Vec<(u64, u64)>> = vec![vec![]; nlab as usize];
                    let mut last = 0;
                    bar.wait();
                    for i in 0..per {
                        let l = r.gen_range(0..nlab);
                        let lab = || [("node_id", l)];
                        match r.gen_range(0..6) {
                            0 => {
                                reg.metric::<U64Counter>("a", "d").recorder(lab()).inc_one();
                                cnt[l as usize] += 1;
                            }
                            1 => {
                                let n = r.gen_range(0..1000);
                                reg.metric::<U64Counter>("a", "d").recorder(lab()).inc(n);
                                cnt[l as usize] += n;
                            }
                            2 => {
                                let n = r.gen_range(0..1_000_000);
                                reg.metric::<DurationCounter>("b", "d").recorder(lab()).inc(Duration::from_nanos(n));
                                dur[l as usize] += n;
                            }
                            3 => {
                                last = t as u64 * 1_000_000 + i + 1;
                                reg.metric::<U64Gauge>("g", "d").recorder([("k_9", "v")]).set(last);
                            }
                            4 => {
                                let b = *r.pick(&bounds);
                                let v = match r.gen_range(0..4) {
                                    0 => b.min(1 << 40),
                                    1 => b.min(1 << 40).saturating_sub(1),
                                    2 => b.min(1 << 40) + 1,
                                    _ => r.gen_range(0..300),
                                };
                                let n = if r.gen() { 1 } else { r.gen_range(0..5) };
                                let h = reg.register_metric::<U64Histogram>("h", "d", U64HistogramOptions::new(bounds.clone())).recorder(lab());
                                let dh = reg.register_metric::<DurationHistogram>("dh", "d", DurationHistogramOptions::new(dbounds.clone())).recorder(lab());
                                if n == 1 {
                                    h.record(v);
                                    dh.record(Duration::from_nanos(v));
                                } else {
                                    h.record_multiple(v, n);
                                    dh.record_multiple(Duration::from_nanos(v), n);
                                }
                                vals[l as usize].push((v, n));
                            }
                            _ => std::thread::yield_now(),
                        }
                    }
                    (cnt, dur, vals, last)
                })
            })
            .collect();
        let res: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        c.count("updates", threads as u64 * per);
        c.case((threads > 1).then_some(&(it, threads, &bounds, nlab)));
        for l in 0..nlab {
            let lab = || [("node_id", l)];
            let want: u64 = res.iter().map(|x| x.0[l as usize]).sum();
            let got = reg.metric::<U64Counter>("a", "d").recorder(lab()).fetch();
            if want != got {
                c.violation("counter", json!({"threads": threads, "want": want, "got": got}));
            }
            let want: u64 = res.iter().map(|x| x.1[l as usize]).sum();
            let got = reg.metric::<DurationCounter>("b", "d").recorder(lab()).fetch();
            if Duration::from_nanos(want) != got {
                c.violation("duration-counter", json!({"threads": threads, "want": want, "got": format!("{got:?}")}));
            }
            // histograms: each value is counted in the first bucket that contains it
            let all: Vec<(u64, u64)> = res.iter().flat_map(|x| x.2[l as usize].clone()).collect();
            let mut counts = vec![0u64; sorted.len()];
            let mut total = 0u64;
            for (v, n) in &all {
                if let Some(i) = sorted.iter().position(|b| v <= b) {
                    counts[i] += n;
                    total += v * n;
                }
            }
            c.count("histogram_records", all.len() as u64);
            let h = reg.register_metric::<U64Histogram>("h", "d", U64HistogramOptions::new(bounds.clone())).recorder(lab()).fetch();
            let got: Vec<(u64, u64)> = h.buckets.iter().map(|b| (b.le, b.count)).collect();
            let want: Vec<(u64, u64)> = sorted.iter().copied().zip(counts.iter().copied()).collect();
            if got != want || h.total != total {
                c.violation("histogram", json!({"got": format!("{got:?}"), "want": format!("{want:?}"), "total": h.total, "want_total": total}));
            }
            let h = reg.register_metric::<DurationHistogram>("dh", "d", DurationHistogramOptions::new(dbounds.clone())).recorder(lab()).fetch();
            let got: Vec<(u64, u64)> = h.buckets.iter().map(|b| (b.le.as_nanos() as u64, b.count)).collect();
            if got != want || h.total != Duration::from_nanos(total) {
                c.violation("duration-histogram", json!({"got": format!("{got:?}"), "want": format!("{want:?}"), "total": format!("{:?}", h.total), "want_total": total}));
            }
        }
        let g = reg.metric::<U64Gauge>("g", "d").recorder([("k_9", "v")]).fetch();
        let lasts: Vec<u64> = res.iter().map(|x| x.3).filter(|x| *x > 0).collect();
        if !lasts.is_empty() && !lasts.contains(&g) {
            c.violation("gauge", json!({"got": g, "last_sets": lasts}));
        }
        // one thread: gauges and averages
        let v = r.edgy_u64();
        let d = DurationGauge::default();
        d.set(Duration::from_nanos(v));
        if d.clone().fetch() != Duration::from_nanos(v) {
            c.violation("duration-gauge", json!({"set": v}));
        }
        let a = U64Average::default();
        for round in 0..3 {
            let xs: Vec<u64> = (0..r.gen_range(0..6)).map(|_| r.gen_range(0..10_000)).collect();
            for x in &xs {
                a.clone().add(*x);
            }
            let want = if xs.is_empty() { 0 } else { xs.iter().sum::<u64>() / xs.len() as u64 };
            let got = a.average();
            c.count("averages", 1);
            if got != want {
                c.violation("average", json!({"samples_since_last_read": xs, "want": want, "got": got, "round": round}));
            }
        }
        c.sample("race", || json!({"threads": threads, "labels": nlab, "bounds": bounds}));
    }
    // instruments read while they are updated: each reading is of one moment
    for it in 0..c.n(6, 20) {
        let k = r.gen_range(1..100_000u64);
        let avg = U64Average::default();
        let reg = Arc::new(MetricsRegister::default());
        let h = reg.register_metric::<U64Histogram>("h", "d", U64HistogramOptions::new(HB)).recorder([("k_9", "v")]);
        let cnt = reg.metric::<U64Counter>("c", "d").recorder([("k_9", "v")]);
        let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let ws: Vec<_> = (0..3)
            .map(|_| {
                let (avg, h, cnt, stop) = (avg.clone(), h.clone(), cnt.clone(), stop.clone());
                std::thread::spawn(move || {
                    let mut n = 0u64;
                    while !stop.load(std::sync::atomic::Ordering::Relaxed) {
                        avg.add(k);
                        h.record(k);
                        cnt.inc(3);
                        n += 1;
                    }
                    n
                })
            })
            .collect();
        let (mut reads, mut nonzero, mut last) = (0u64, 0u64, 0u64);
        let mut bad: Option<mon::Value> = None;
        let t0 = std::time::Instant::now();
        while t0.elapsed() < Duration::from_millis(60) {
            reads += 1;
            let a = avg.average();
            nonzero += (a != 0) as u64;
            if a != 0 && a != k {
                bad = Some(json!({"instrument": "average", "every value added": k, "average": a}));
            }
            let v = h.fetch();
            let n: u64 = v.buckets.iter().map(|b| b.count).sum();
            if v.total != n * k {
                bad = Some(json!({"instrument": "histogram", "every value recorded": k, "total": v.total, "records": n}));
            }
            let x = cnt.fetch();
            if x < last || x % 3 != 0 {
                bad = Some(json!({"instrument": "counter", "before": last, "now": x}));
            }
            last = x;
        }
        stop.store(true, std::sync::atomic::Ordering::Relaxed);
        let n: u64 = ws.into_iter().map(|w| w.join().unwrap()).sum();
        c.count("readings during updates", reads);
        c.count("averages during updates", nonzero);
        c.case(Some(&("moment", it, k)));
        if let Some(b) = bad {
            c.violation(&format!("moment:{}", b["instrument"].as_str().unwrap_or("")), b);
        }
        if cnt.fetch() != 3 * n || h.fetch().total != n * k {
            c.violation("moment:lost", json!({"updates": n, "counter": cnt.fetch(), "histogram": h.fetch().total, "k": k}));
        }
    }
    c.need("updates", 10_000);
    c.need("histogram_records", 1000);
    c.need("readings during updates", 100);
}

// ------------------------------------------------------------------ M02 / M03

#[derive(Clone, Debug, PartialEq)]
enum V {
    C(u64),
    G(u64),
    DC(u64),
    DG(u64),
    H(Vec<(u64, u64)>, u64),
    DH(Vec<(u64, u64)>, u64),
}
fn ty(v: &V) -> MetricType {
    match v {
        V::C(_) => MetricType::U64Counter,
        V::G(_) => MetricType::U64Gauge,
        V::DC(_) => MetricType::DurationCounter,
        V::DG(_) => MetricType::DurationGauge,
        V::H(..) => MetricType::U64Histogram,
        V::DH(..) => MetricType::DurationHistogram,
    }
}
fn hist<T>(h: &HistogramValue<T>, f: impl Fn(&T) -> u64) -> (Vec<(u64, u64)>, u64) {
    (h.buckets.iter().map(|b| (f(&b.le), b.count)).collect(), f(&h.total))
}
fn val(v: &MetricValue) -> Option<V> {
    let ns = |d: &Duration| d.as_nanos() as u64;
    Some(match v {
        MetricValue::U64Counter(x) => V::C(*x),
        MetricValue::U64Gauge(x) => V::G(*x),
        MetricValue::DurationCounter(x) => V::DC(ns(x)),
        MetricValue::DurationGauge(x) => V::DG(ns(x)),
        MetricValue::U64Histogram(h) => {
            let (b, t) = hist(h, |x| *x);
            V::H(b, t)
        }
        MetricValue::DurationHistogram(h) => {
            let (b, t) = hist(h, ns);
            V::DH(b, t)
        }
        _ => return None,
    })
}

type Row = (String, String, MetricType, Lab, V);
#[derive(Debug, Default)]
struct Rec {
    cur: Option<(String, String, MetricType)>,
    rows: Vec<Row>,
    bad: Vec<String>,
}
impl Reporter for Rec {
    fn start(&mut self, name: Cow<'static, str>, description: Cow<'static, str>, t: MetricType) {
        if self.cur.is_some() {
            self.bad.push(format!("start {name} inside another metric"));
        }
        self.cur = Some((name.into(), description.into(), t));
    }
    fn report(&mut self, label: &Labels, v: MetricValue) {
        let Some((n, d, t)) = self.cur.clone() else {
            self.bad.push("report outside start/stop".into());
            return;
        };
        let l: Lab = label.clone().into_iter().map(|(k, v)| (k, v.into_owned())).collect();
        if let Some(v) = val(&v) {
            self.rows.push((n, d, t, l, v));
        }
    }
    fn stop(&mut self) {
        if self.cur.take().is_none() {
            self.bad.push("stop without start".into());
        }
    }
}

/// the reference registry: a tree of label sets, each with named metrics of recorders
#[derive(Default)]
struct MReg {
    labels: Lab,
    metrics: BTreeMap<String, (usize, String, BTreeMap<Vec<(&'static str, String)>, V>)>,
    once: Vec<Row>,
    subs: BTreeMap<Vec<(&'static str, String)>, MReg>,
}
impl MReg {
    fn rows(&mut self, out: &mut Vec<Row>) {
        for (n, (_, d, recs)) in &self.metrics {
            for (l, v) in recs {
                let mut lab = self.labels.clone();
                lab.extend(l.iter().cloned());
                out.push((n.clone(), d.clone(), ty(v), lab, v.clone()));
            }
        }
        out.append(&mut self.once);
        for s in self.subs.values_mut() {
            s.rows(out);
        }
    }
}
fn lk(l: &Lab) -> Vec<(&'static str, String)> {
    l.iter().map(|(k, v)| (*k, v.clone())).collect()
}
const HB: [u64; 4] = [1, 10, 100, u64::MAX];
fn hopts() -> U64HistogramOptions {
    U64HistogramOptions::new(HB)
}
fn dopts() -> DurationHistogramOptions {
    DurationHistogramOptions::new([Duration::from_nanos(1), Duration::from_millis(5), Duration::from_secs(3), DURATION_MAX])
}
const DB: [u64; 4] = [1, 5_000_000, 3_000_000_000, u64::MAX];
fn zero(kind: usize) -> V {
    match kind {
        0 => V::C(0),
        1 => V::G(0),
        2 => V::DC(0),
        3 => V::DG(0),
        4 => V::H(HB.iter().map(|b| (*b, 0)).collect(), 0),
        _ => V::DH(DB.iter().map(|b| (*b, 0)).collect(), 0),
    }
}
fn bump(v: &mut V, n: u64) {
    match v {
        V::C(x) | V::DC(x) => *x += n,
        V::G(x) | V::DG(x) => *x = n,
        V::H(b, t) | V::DH(b, t) => {
            b.iter_mut().find(|x| n <= x.0).unwrap().1 += 1;
            *t += n;
        }
    }
}
/// update (or only look up) the real recorder
fn real(reg: &MetricsRegister, kind: usize, name: &'static str, desc: &str, l: &Lab, n: Option<u64>) {
    let d = desc.to_string();
    let lab = labels(l);
    match kind {
        0 => {
            let x = reg.metric::<U64Counter>(name, d).recorder(lab);
            n.map(|n| x.inc(n));
        }
        1 => {
            let x = reg.metric::<U64Gauge>(name, d).recorder(lab);
            n.map(|n| x.set(n));
        }
        2 => {
            let x = reg.metric::<DurationCounter>(name, d).recorder(lab);
            n.map(|n| x.inc(Duration::from_nanos(n)));
        }
        3 => {
            let x = reg.metric::<DurationGauge>(name, d).recorder(lab);
            n.map(|n| x.set(Duration::from_nanos(n)));
        }
        4 => {
            let x = reg.register_metric::<U64Histogram>(name, d, hopts()).recorder(lab);
            n.map(|n| x.record(n));
        }
        _ => {
            let x = reg.register_metric::<DurationHistogram>(name, d, dopts()).recorder(lab);
            n.map(|n| x.record(Duration::from_nanos(n)));
        }
    }
}
fn remove(reg: &MetricsRegister, kind: usize, name: &'static str, desc: &str, l: &Lab) {
    let d = desc.to_string();
    let lab = labels(l);
    match kind {
        0 => reg.metric::<U64Counter>(name, d).remove(lab),
        1 => reg.metric::<U64Gauge>(name, d).remove(lab),
        2 => reg.metric::<DurationCounter>(name, d).remove(lab),
        3 => reg.metric::<DurationGauge>(name, d).remove(lab),
        4 => reg.register_metric::<U64Histogram>(name, d, hopts()).remove(lab),
        _ => reg.register_metric::<DurationHistogram>(name, d, dopts()).remove(lab),
    }
}

/// random history on a register tree; returns the real root and the reference
fn drive(c: &mut Ctx, r: &mut impl Rng, hostile: bool, steps: usize) -> (Arc<MetricsRegister>, MReg, Vec<String>) {
    let root_l = gen_lab(r, hostile);
    let root = Arc::new(MetricsRegister::new(labels(&root_l)));
    let mut m = MReg { labels: root_l, ..Default::default() };
    let mut log = vec![];
    for _ in 0..steps {
        c.count("registry_ops", 1);
        // walk to a register
        let mut path = vec![];
        let mut reg = root.clone();
        {
            let mut mm = &mut m;
            while path.len() < 2 && r.chance(0.35) {
                let l = gen_lab(r, false);
                reg = reg.sub_register(labels(&l));
                let mut merged = mm.labels.clone();
                merged.extend(l.clone());
                let k = lk(&merged);
                mm = mm.subs.entry(k.clone()).or_default();
                mm.labels = merged;
                path.push(k);
            }
        }
        let mut mm = &mut m;
        for k in &path {
            mm = mm.subs.get_mut(k).unwrap();
        }
        let name = *r.pick(&NAMES);
        let l = gen_lab(r, hostile);
        let desc = if hostile { r.edgy_string(10) } else { format!("d{}", r.gen_range(0..2)) };
        let kind = mm.metrics.get(name).map(|x| x.0).unwrap_or_else(|| r.gen_range(0..6));
        match r.gen_range(0..10) {
            0..=6 => {
                let n = match r.gen_range(0..6) {
                    0 => 0,
                    1 => *r.pick(&HB[..3]),
                    2 => *r.pick(&DB[..3]),
                    3 => r.gen_range(0..1 << 45),
                    _ => r.gen_range(0..200),
                };
                let e = mm.metrics.entry(name.into()).or_insert_with(|| (kind, desc.clone(), BTreeMap::new()));
                bump(e.2.entry(lk(&l)).or_insert_with(|| zero(kind)), n);
                real(&reg, kind, name, &desc, &l, Some(n));
                log.push(format!("{path:?} {name} kind{kind} {l:?} {n}"));
            }
            7 => {
                let e = mm.metrics.entry(name.into()).or_insert_with(|| (kind, desc.clone(), BTreeMap::new()));
                e.2.entry(lk(&l)).or_insert_with(|| zero(kind));
                real(&reg, kind, name, &desc, &l, None);
                log.push(format!("{path:?} lookup {name} kind{kind} {l:?}"));
            }
            8 => {
                let e = mm.metrics.entry(name.into()).or_insert_with(|| (kind, desc.clone(), BTreeMap::new()));
                e.2.remove(&lk(&l));
                remove(&reg, kind, name, &desc, &l);
                log.push(format!("{path:?} remove {name} {l:?}"));
            }
            _ if r.gen() && mm.metrics.get(name).map_or(true, |x| x.0 == 1) => {
                // replace the recorder
                let g = U64Gauge::default();
                let n = r.gen_range(0..1000);
                g.set(n);
                let e = mm.metrics.entry(name.into()).or_insert_with(|| (1, desc.clone(), BTreeMap::new()));
                e.2.insert(lk(&l), V::G(n));
                reg.metric::<U64Gauge>(name, desc.clone()).register_recorder(labels(&l), g);
                log.push(format!("{path:?} replace {name} {l:?} {n}"));
            }
            _ => {
                // measures reported once
                let n = r.gen_range(0..1000u64);
                let null: bool = r.chance(0.2);
                let mt: Metric<GaugeWrap> = Metric::new_with_labels("once", "o", labels(&l), ());
                mt.register_recorder(Labels::default(), GaugeWrap::new(Arc::new(move || if null { None } else { Some(n) })));
                reg.append_onetime(vec![Box::new(mt) as Box<dyn Measure>]);
                if !null {
                    mm.once.push(("once".into(), "o".into(), MetricType::U64Gauge, l.clone(), V::G(n)));
                }
                log.push(format!("{path:?} once {l:?} {n} null={null}"));
            }
        }
    }
    (root, m, log)
}

fn m02(c: &mut Ctx) {
    c.rule("random histories on a tree of registers (look up, update, replace, remove, sub-registers, report-once measures) reported to a recording reporter and compared, as a multiset of (name, description, type, merged labels, value) rows, with a reference registry; reported twice; racing look-ups must give one recorder; non-trivial: at least 3 rows reported; distinct by history");
    let mut r = c.rng("m02");
    for _ in 0..c.n(1500, 20) {
        let steps = r.gen_range(1..60);
        let (root, mut m, log) = drive(c, &mut r, false, steps);
        for round in 0..2 {
            let mut rec = Rec::default();
            root.report(&mut rec);
            let mut want = vec![];
            m.rows(&mut want);
            let f = |v: &[Row]| {
                let mut x: Vec<String> = v.iter().map(|r| format!("{r:?}")).collect();
                x.sort();
                x
            };
            let (g, w) = (f(&rec.rows), f(&want));
            c.count("rows", g.len() as u64);
            if !rec.bad.is_empty() || g != w {
                let miss: Vec<_> = w.iter().filter(|x| !g.contains(x)).take(3).collect();
                let extra: Vec<_> = g.iter().filter(|x| !w.contains(x)).take(3).collect();
                c.violation("report", json!({"round": round, "missing": miss, "unexpected": extra, "n": [g.len(), w.len()], "protocol": rec.bad, "log": log}));
            }
            c.case((g.len() >= 3).then_some(&(&log, round)));
        }
        c.sample("history", || json!(log.iter().take(10).collect::<Vec<_>>()));
    }
    // however a set of labels is written, it is the same set
    for _ in 0..c.n(300, 10) {
        let (a, b) = (*r.pick(&KEYS[..3]), *r.pick(&KEYS[2..]));
        let (x, y) = (r.edgy_u64(), r.edgy_u64());
        let (xs, ys) = (x.to_string(), y.to_string());
        let mut want = Labels::default();
        want.insert((a, Cow::Owned(xs.clone())));
        want.insert((b, Cow::Owned(ys.clone())));
        let mut only = Labels::default();
        only.insert((b, Cow::Owned(ys.clone())));
        let mut ext = Labels::from([(a, "replaced")]);
        ext.extend(want.clone());
        let forms: Vec<(&str, Labels, &Labels)> = vec![
            ("u64", [(a, x), (b, y)].into(), &want),
            ("str", [(a, xs.as_str()), (b, ys.as_str())].into(), &want),
            ("String", [(a, xs.clone()), (b, ys.clone())].into(), &want),
            ("Cow", [(a, Cow::Owned(xs.clone())), (b, Cow::Owned(ys.clone()))].into(), &want),
            ("Some", [(a, Some(xs.as_str())), (b, Some(ys.as_str()))].into(), &want),
            ("None", [(if a == b { "x" } else { a }, None), (b, Some(ys.as_str()))].into(), &only),
            ("extend", ext, &want),
        ];
        for (form, l, w) in forms {
            c.count("label sets", 1);
            if l != *w {
                c.violation("labels", json!({"form": form, "got": format!("{l:?}"), "want": format!("{w:?}")}));
            }
        }
    }
    // racing look-ups of one (name, labels) must share one recorder; so must sub-registers
    for it in 0..c.n(60, 20) {
        let root = Arc::new(MetricsRegister::default());
        let n = 6;
        let bar = Arc::new(Barrier::new(n));
        let hs: Vec<_> = (0..n)
            .map(|_| {
                let (root, bar) = (root.clone(), bar.clone());
                std::thread::spawn(move || {
                    bar.wait();
                    for k in 0..20u64 {
                        root.sub_register([("node_id", k % 3)]).metric::<U64Counter>("a", "d").recorder([("vnode_id", k)]).inc_one();
                    }
                })
            })
            .collect();
        hs.into_iter().for_each(|h| h.join().unwrap());
        let mut rec = Rec::default();
        root.report(&mut rec);
        c.count("raced_lookups", 20 * n as u64);
        c.case(Some(&("race", it)));
        let ok = rec.rows.len() == 20 && rec.rows.iter().all(|x| x.4 == V::C(n as u64));
        if !ok {
            c.violation("racing-lookup", json!({"rows": format!("{:?}", &rec.rows[..rec.rows.len().min(6)]), "n": rec.rows.len()}));
        }
    }
    // measures to report once, appended while reports are under way: each appears in exactly one report
    for it in 0..c.n(8, 8) {
        let root = Arc::new(MetricsRegister::default());
        let (threads, per) = (3u64, 60u64);
        let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let root = root.clone();
                std::thread::spawn(move || {
                    for k in 0..per {
                        let id = t * per + k;
                        let slow = k % 20 == 0;
                        let mt: Metric<GaugeWrap> = Metric::new_with_labels("once", "o", Labels::default(), ());
                        mt.register_recorder(
                            Labels::default(),
                            GaugeWrap::new(Arc::new(move || {
                                if slow {
                                    std::thread::sleep(Duration::from_micros(1500));
                                }
                                Some(id)
                            })),
                        );
                        root.append_onetime(vec![Box::new(mt) as Box<dyn Measure>]);
                        if k % 4 == 0 {
                            std::thread::sleep(Duration::from_micros(100));
                        }
                    }
                })
            })
            .collect();
        let reporters: Vec<_> = (0..2)
            .map(|_| {
                let (root, stop) = (root.clone(), stop.clone());
                std::thread::spawn(move || {
                    let mut rec = Rec::default();
                    while !stop.load(std::sync::atomic::Ordering::SeqCst) {
                        root.report(&mut rec);
                    }
                    rec
                })
            })
            .collect();
        hs.into_iter().for_each(|h| h.join().unwrap());
        stop.store(true, std::sync::atomic::Ordering::SeqCst);
        let mut seen: HashMap<u64, u32> = HashMap::new();
        let mut last = Rec::default();
        let mut recs: Vec<Rec> = reporters.into_iter().map(|h| h.join().unwrap()).collect();
        root.report(&mut last);
        recs.push(last);
        for rec in &recs {
            for row in &rec.rows {
                if let V::G(id) = row.4 {
                    *seen.entry(id).or_default() += 1;
                }
            }
        }
        c.count("raced one-time measures", threads * per);
        c.case(Some(&("once race", it)));
        let lost: Vec<u64> = (0..threads * per).filter(|i| !seen.contains_key(i)).collect();
        let twice: Vec<u64> = seen.iter().filter(|x| *x.1 > 1).map(|x| *x.0).collect();
        if !lost.is_empty() || !twice.is_empty() {
            c.violation("racing-once", json!({"never reported": lost.len(), "reported more than once": twice.len(), "of": threads * per}));
        }
    }
    c.need("rows", 1000);
}

// ---- a parser of the Prometheus text format, written from its specification

#[derive(Debug, Default)]
struct Fam {
    help: String,
    typ: String,
    rows: Vec<(String, Vec<(String, String)>, f64)>,
}
fn parse(text: &str) -> Result<Vec<(String, Fam)>, String> {
    let mut out: Vec<(String, Fam)> = vec![];
    let mut pend_help: Option<(String, String)> = None;
    for line in text.split('\n') {
        if line.is_empty() {
            continue;
        }
        if let Some(x) = line.strip_prefix("# HELP ") {
            let (n, h) = x.split_once(' ').unwrap_or((x, ""));
            let mut s = String::new();
            let mut it = h.chars();
            while let Some(ch) = it.next() {
                if ch == '\\' {
                    match it.next() {
                        Some('n') => s.push('\n'),
                        Some('\\') => s.push('\\'),
                        o => return Err(format!("bad help escape {o:?}")),
                    }
                } else {
                    s.push(ch)
                }
            }
            pend_help = Some((n.into(), s));
        } else if let Some(x) = line.strip_prefix("# TYPE ") {
            let (n, t) = x.split_once(' ').ok_or("bad TYPE")?;
            let mut f = Fam { typ: t.into(), ..Default::default() };
            if let Some((hn, h)) = pend_help.take() {
                if hn != n {
                    return Err(format!("HELP {hn} before TYPE {n}"));
                }
                f.help = h;
            }
            out.push((n.into(), f));
        } else {
            let f = &mut out.last_mut().ok_or("sample before TYPE")?.1;
            let b: Vec<char> = line.chars().collect();
            let mut i = 0;
            while i < b.len() && b[i] != '{' && b[i] != ' ' {
                i += 1;
            }
            let name: String = b[..i].iter().collect();
            let mut ls = vec![];
            if i < b.len() && b[i] == '{' {
                i += 1;
                loop {
                    if i < b.len() && b[i] == '}' {
                        i += 1;
                        break;
                    }
                    let s = i;
                    while i < b.len() && b[i] != '=' {
                        i += 1;
                    }
                    let k: String = b[s..i.min(b.len())].iter().collect();
                    i += 1;
                    if b.get(i) != Some(&'"') {
                        return Err(format!("no quote: {line}"));
                    }
                    i += 1;
                    let mut v = String::new();
                    loop {
                        match b.get(i) {
                            Some('"') => break,
                            Some('\\') => {
                                i += 1;
                                v.push(match b.get(i) {
                                    Some('n') => '\n',
                                    Some('\\') => '\\',
                                    Some('"') => '"',
                                    o => return Err(format!("bad escape {o:?}: {line}")),
                                });
                            }
                            Some(ch) => v.push(*ch),
                            None => return Err(format!("open label: {line}")),
                        }
                        i += 1;
                    }
                    i += 1;
                    ls.push((k, v));
                    match b.get(i) {
                        Some(',') => i += 1,
                        Some('}') => {}
                        o => return Err(format!("after label: {o:?}: {line}")),
                    }
                }
            }
            if b.get(i) != Some(&' ') {
                return Err(format!("no value: {line}"));
            }
            let v: String = b[i + 1..].iter().collect();
            let v = match v.as_str() {
                "+Inf" => f64::INFINITY,
                x => x.parse::<f64>().map_err(|e| format!("{e}: {line}"))?,
            };
            f.rows.push((name, ls, v));
        }
    }
    Ok(out)
}

fn m03(c: &mut Ctx) {
    c.rule("random register trees with hostile label values and descriptions rendered to the Prometheus text format and parsed back by an independent parser; every recorder's samples (names, types, help, labels, values, cumulative buckets, +Inf, sum, count) must come back and nothing else; non-trivial: text has at least 3 samples; distinct by rendered text");
    let mut r = c.rng("m03");
    for it in 0..c.n(1500, 20) {
        // a few registers are large: hundreds of kilobytes of text
        let steps = if it < 3 { 6000 } else { r.gen_range(1..40) };
        let (root, mut m, log) = drive(c, &mut r, true, steps);
        let mut buf = vec![];
        {
            let mut p = PromReporter::new(&mut buf);
            root.report(&mut p);
        }
        c.max("largest text (bytes)", buf.len() as u64);
        let text = match String::from_utf8(buf) {
            Ok(t) => t,
            Err(_) => {
                c.violation("utf8", json!({"log": log}));
                continue;
            }
        };
        let mut want = vec![];
        m.rows(&mut want);
        let got = match parse(&text) {
            Ok(g) => g,
            Err(e) => {
                c.violation("unparsable", json!({"why": e, "text": text.chars().take(5000).collect::<String>()}));
                continue;
            }
        };
        // expected samples
        let mut exp: HashMap<String, i64> = HashMap::new();
        let add = |exp: &mut HashMap<String, i64>, fam: &str, typ: &str, help: &str, n: &str, l: &[(String, String)], v: f64, d: i64| {
            let mut l = l.to_vec();
            // bucket bounds are numbers ("inf" and "+Inf" name the same bound)
            for x in l.iter_mut().filter(|x| x.0 == "le") {
                if let Ok(f) = x.1.parse::<f64>() {
                    x.1 = format!("{f:?}");
                }
            }
            l.sort();
            *exp.entry(format!("{fam}|{typ}|{help:?}|{n}|{l:?}|{v:?}")).or_insert(0) += d;
        };
        for (name, desc, _, lab, v) in &want {
            let l: Vec<(String, String)> = lab.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
            let secs = |n: u64| Duration::from_nanos(n).as_secs_f64();
            match v {
                V::C(x) => add(&mut exp, name, "counter", desc, name, &l, *x as f64, 1),
                V::G(x) => {
                    let n = format!("{name}_total");
                    add(&mut exp, &n, "gauge", desc, &n, &l, *x as f64, 1)
                }
                V::DC(x) => {
                    let n = format!("{name}_seconds_total");
                    add(&mut exp, &n, "counter", desc, &n, &l, secs(*x), 1)
                }
                V::DG(x) => {
                    let n = format!("{name}_seconds");
                    add(&mut exp, &n, "gauge", desc, &n, &l, secs(*x), 1)
                }
                V::H(b, t) | V::DH(b, t) => {
                    let dur = matches!(v, V::DH(..));
                    let n = if dur { format!("{name}_seconds") } else { name.to_string() };
                    let conv = |x: u64| if dur { secs(x) } else { x as f64 };
                    let mut cum = 0;
                    for (le, k) in b {
                        cum += k;
                        let mut l2 = l.clone();
                        let le = if *le == u64::MAX { "+Inf".to_string() } else { format!("{}", conv(*le)) };
                        l2.push(("le".into(), le));
                        add(&mut exp, &n, "histogram", desc, &format!("{n}_bucket"), &l2, cum as f64, 1);
                    }
                    add(&mut exp, &n, "histogram", desc, &format!("{n}_sum"), &l, conv(*t), 1);
                    add(&mut exp, &n, "histogram", desc, &format!("{n}_count"), &l, cum as f64, 1);
                }
            }
        }
        let mut samples = 0u64;
        for (fam, f) in &got {
            for (n, l, v) in &f.rows {
                samples += 1;
                add(&mut exp, fam, &f.typ, &f.help, n, l, *v, -1);
            }
        }
        c.count("samples_parsed", samples);
        c.case((samples >= 3).then_some(&text));
        let diff: Vec<String> = exp.iter().filter(|(_, n)| **n != 0).map(|(k, n)| format!("{n:+} {k}")).take(6).collect();
        if !diff.is_empty() {
            c.violation("exposition", json!({"missing(+)/unexpected(-)": diff, "bytes": text.len(), "text": text.chars().take(5000).collect::<String>()}));
        }
        c.sample("text", || json!(text.chars().take(700).collect::<String>()));
    }
    // readings that have no value at the moment are left out, and nothing else is
    for _ in 0..c.n(300, 20) {
        let root = Arc::new(MetricsRegister::default());
        let mut want: Vec<(Vec<(String, String)>, f64)> = vec![];
        let mt: Metric<GaugeWrap> = root.register_metric("readings", "r", ());
        for i in 0..r.gen_range(1..9usize) {
            let v: Option<u64> = r.chance(0.6).then(|| r.gen_range(0..1000));
            mt.register_recorder([("n", i.to_string())], GaugeWrap::new(Arc::new(move || v)));
            if let Some(v) = v {
                want.push((vec![("n".into(), i.to_string())], v as f64));
            }
        }
        let after = root.metric::<U64Gauge>("z_after", "a");
        after.recorder(Labels::default()).set(7);
        let mut buf = vec![];
        root.report(&mut PromReporter::new(&mut buf));
        let text = String::from_utf8_lossy(&buf).to_string();
        c.case(Some(&("readings", &text)));
        match parse(&text) {
            Err(e) => c.violation("readings:unparsable", json!({"why": e, "text": text})),
            Ok(fams) => {
                let rows: Vec<_> = fams.iter().filter(|f| f.0 == "readings_total").flat_map(|f| f.1.rows.iter().map(|r| (r.1.clone(), r.2))).collect();
                if rows != want || !fams.iter().any(|f| f.0 == "z_after_total" && f.1.rows.len() == 1) {
                    c.violation("readings:exposition", json!({"want": format!("{want:?}"), "text": text}));
                }
            }
        }
    }
    c.need("samples_parsed", 1000);
}

fn main() {
    mon::main(&[("M01", m01), ("M02", m02), ("M03", m03)]);
}
