//! T01 trace context propagation, T02 reported spans, T03 log records.
use std::collections::{BTreeMap, HashMap};
use std::future::{ready, Ready};
use std::str::FromStr;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::time::{Duration, Instant};

use http::{HeaderMap, HeaderValue, Request};
use minitrace::collector::{Config, EventRecord, Reporter, SpanId, SpanRecord, TraceId};
use mon::rand::rngs::StdRng;
use mon::rand::Rng;
use mon::{json, Ctx, GenExt};
use tonic::metadata::MetadataMap;
use tower::{Layer, Service};
use trace::global_tracing::FileReporter;
use trace::http::http_ctx::{grpc_append_trace_context, span_context_from_http_headers, DEFAULT_TRACE_HEADER_NAME};
use trace::http::tower_layer::TraceLayer;
use trace::span_ctx_ext::SpanContextExt;
use trace::span_ext::SpanExt;
use trace::{Span, SpanContext};

fn ids(c: &SpanContext) -> (u128, u64) {
    (c.trace_id.0, c.span_id.0)
}

fn any_ctx(r: &mut StdRng) -> SpanContext {
    let t = match r.gen_range(0..6) {
        0 => 0,
        1 => u128::MAX,
        2 => r.edgy_u64() as u128,
        3 => (r.edgy_u64() as u128) << 64,
        4 => 1u128 << r.gen_range(0..128),
        _ => r.gen(),
    };
    SpanContext::new(TraceId(t), SpanId(r.edgy_u64()))
}

fn text_of(c: &SpanContext) -> String {
    SpanContextExt::to_string(c)
}

fn parse(s: &str) -> Option<(u128, u64)> {
    <SpanContext as SpanContextExt>::from_str(s).ok().map(|c| ids(&c))
}

/// what a context text means: exactly two hex numbers, of 128 and 64 bits
fn model_parse(s: &str) -> Option<(u128, u64)> {
    fn hex(s: &str, bits: u32) -> Option<u128> {
        let s = s.strip_prefix('+').unwrap_or(s);
        if s.is_empty() {
            return None;
        }
        let mut v: u128 = 0;
        for ch in s.bytes() {
            let d = (ch as char).to_digit(16)? as u128;
            if v >> (bits - 4) != 0 {
                return None;
            }
            v = (v << 4) | d;
        }
        Some(v)
    }
    let i = s.find(':')?;
    let (a, b) = (&s[..i], &s[i + 1..]);
    if b.contains(':') {
        return None;
    }
    Some((hex(a, 128)?, hex(b, 64)? as u64))
}

fn mangle(r: &mut StdRng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..r.gen_range(1..4) {
        let alphabet = ['0', 'f', 'A', ':', '-', '+', ' ', 'g', 'x', '\u{e9}'];
        let i = r.gen_range(0..=v.len());
        match r.gen_range(0..4) {
            0 => v.insert(i, *r.pick(&alphabet)),
            1 if !v.is_empty() => {
                let j = r.gen_range(0..v.len());
                v.remove(j);
            }
            2 if !v.is_empty() => {
                let j = r.gen_range(0..v.len());
                v[j] = *r.pick(&alphabet);
            }
            _ => {
                let k = r.gen_range(1..20);
                for _ in 0..k {
                    v.insert(i, 'f');
                }
            }
        }
    }
    v.into_iter().collect()
}

/// records what the request looked like when the service saw it
#[derive(Clone)]
struct Rec {
    seen: Arc<Mutex<Vec<(Option<(u128, u64)>, String, Vec<(String, Vec<u8>)>)>>>,
    ready: Arc<Mutex<Vec<Poll<Result<(), String>>>>>,
}
impl Service<Request<String>> for Rec {
    type Response = String;
    type Error = String;
    type Future = Ready<Result<String, String>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), String>> {
        self.ready.lock().unwrap().pop().unwrap_or(Poll::Ready(Ok(())))
    }
    fn call(&mut self, r: Request<String>) -> Self::Future {
        let c = r.extensions().get::<SpanContext>().map(ids);
        let mut h: Vec<_> = r.headers().iter().map(|(k, v)| (k.to_string(), v.as_bytes().to_vec())).collect();
        h.sort();
        self.seen.lock().unwrap().push((c, format!("{} {}", r.method(), r.uri()), h));
        ready(if r.body().starts_with('E') { Err(r.into_body()) } else { Ok(r.into_body()) })
    }
}

fn noop_waker() -> Waker {
    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), &VT)
    }
    fn nop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    unsafe { Waker::from_raw(clone(std::ptr::null())) }
}

fn t01(c: &mut Ctx) {
    c.rule("parse(text(ctx)) == ctx; exactly the texts '<hex128>:<hex64>' parse; header/metadata propagation preserves the context; the tower layer attaches the header's context, else a random one when asked to, else none, and forwards every request unchanged");
    let mut r = c.rng("t01");
    for _ in 0..c.n(6000, 40) {
        let ctx = any_ctx(&mut r);
        let s = text_of(&ctx);
        c.case(Some(&s));
        c.count("round trips", 1);
        if parse(&s) != Some(ids(&ctx)) {
            c.violation("ctx:roundtrip", json!({"text": s, "ids": format!("{:?}", ids(&ctx))}));
        }
        // carried by gRPC metadata into HTTP headers
        let mut md = MetadataMap::new();
        let had = r.chance(0.3);
        if had {
            md.insert(DEFAULT_TRACE_HEADER_NAME, "1:2".parse().unwrap());
        }
        md.insert("other", "x".parse().unwrap());
        let some = r.chance(0.8);
        if grpc_append_trace_context(some.then_some(&ctx), &mut md).is_err() {
            c.violation("grpc:append error", json!({"text": s}));
        }
        let h = md.into_headers();
        let want = if some { Some(ids(&ctx)) } else { had.then_some((1, 2)) };
        match span_context_from_http_headers(&h) {
            Ok(got) if got.as_ref().map(ids) == want => {}
            x => c.violation("grpc:propagate", json!({"want": format!("{want:?}"), "got": format!("{:?}", x.map(|x| x.as_ref().map(ids)).map_err(|e| e.to_string()))})),
        }
        if h.get("other").map(|v| v.as_bytes()) != Some(b"x") {
            c.violation("grpc:other metadata", json!({}));
        }
        // malformed
        let m = if r.chance(0.2) { r.edgy_string(12) } else { mangle(&mut r, &s) };
        let want = model_parse(&m);
        c.count(if want.is_some() { "mangled, still valid" } else { "malformed" }, 1);
        match mon::quiet(|| parse(&m)) {
            Ok(got) if got == want => {}
            x => c.violation("ctx:malformed", json!({"text": m, "want": format!("{want:?}"), "got": format!("{x:?}")})),
        }
    }
    // the layer
    let waker = noop_waker();
    let mut cx = Context::from_waker(&waker);
    let mut randoms: HashMap<(u128, u64), u32> = HashMap::new();
    for _ in 0..c.n(4000, 40) {
        let auto = r.gen::<bool>();
        let layer = TraceLayer::new(auto, "svc");
        let rec = Rec { seen: Default::default(), ready: Default::default() };
        let mut svc = layer.layer(rec.clone());
        if r.chance(0.3) {
            svc = svc.clone();
        }
        // readiness is the inner service's
        let pr = match r.gen_range(0..3) {
            0 => Poll::Pending,
            1 => Poll::Ready(Err("no".to_string())),
            _ => Poll::Ready(Ok(())),
        };
        rec.ready.lock().unwrap().push(pr.clone());
        if svc.poll_ready(&mut cx) != pr {
            c.violation("layer:ready", json!({"inner": format!("{pr:?}")}));
        }
        for _ in 0..r.gen_range(1..4) {
            let ctx = any_ctx(&mut r);
            let kind = r.gen_range(0..5);
            let body = if r.chance(0.2) { format!("E{}", r.gen::<u32>()) } else { format!("ok{}", r.gen::<u32>()) };
            let mut rq = Request::builder().method(*r.pick(&["GET", "POST", "PUT"])).uri(format!("/p{}?q=1", r.gen_range(0..9)));
            let mut want_ctx = None;
            let mut invalid = false;
            match kind {
                0 => {}
                1 | 2 => {
                    rq = rq.header(if r.chance(0.5) { DEFAULT_TRACE_HEADER_NAME.to_string() } else { DEFAULT_TRACE_HEADER_NAME.to_uppercase() }, text_of(&ctx));
                    want_ctx = Some(ids(&ctx));
                }
                3 => {
                    let m: String = mangle(&mut r, &text_of(&ctx)).chars().filter(|c| c.is_ascii()).collect();
                    match HeaderValue::from_str(&m) {
                        Ok(v) => {
                            rq = rq.header(DEFAULT_TRACE_HEADER_NAME, v);
                            want_ctx = model_parse(&m);
                            invalid = want_ctx.is_none();
                        }
                        Err(_) => {}
                    }
                }
                _ => {
                    rq = rq.header(DEFAULT_TRACE_HEADER_NAME, HeaderValue::from_bytes(&[b'1', b':', 0xff, 0xe9]).unwrap());
                    invalid = true;
                }
            }
            rq = rq.header("x-other", "1").header("x-other", "2");
            // an outer layer may have left a context behind; the caller's header goes before it
            if want_ctx.is_some() && r.chance(0.3) {
                rq = rq.extension(any_ctx(&mut r));
            }
            let rq = rq.body(body.clone()).unwrap();
            let line = format!("{} {}", rq.method(), rq.uri());
            let mut hs: Vec<_> = rq.headers().iter().map(|(k, v)| (k.to_string(), v.as_bytes().to_vec())).collect();
            hs.sort();
            let n0 = rec.seen.lock().unwrap().len();
            let fut = mon::quiet(|| svc.call(rq));
            let got = match fut {
                Ok(f) => f.into_inner(),
                Err(p) => {
                    c.violation("layer:panic", json!({"panic": p}));
                    continue;
                }
            };
            let want = if body.starts_with('E') { Err(body.clone()) } else { Ok(body.clone()) };
            let seen = rec.seen.lock().unwrap().clone();
            c.case(Some(&(auto, kind, want_ctx)));
            if got != want || seen.len() != n0 + 1 || seen[n0].1 != line || seen[n0].2 != hs {
                c.violation("layer:request not forwarded as it came", json!({"line": line, "seen": format!("{:?}", seen.get(n0))}));
                continue;
            }
            let sc = seen[n0].0;
            if invalid {
                c.count("invalid header", 1);
                // the request is served all the same; it must not carry a made-up parent
                if sc.is_some() {
                    c.violation("layer:context out of an invalid header", json!({"headers": format!("{hs:?}"), "ctx": format!("{sc:?}")}));
                }
            } else if want_ctx.is_some() {
                c.count("context in header", 1);
                if sc != want_ctx {
                    c.violation("layer:header context", json!({"want": format!("{want_ctx:?}"), "got": format!("{sc:?}"), "auto": auto}));
                }
            } else {
                c.count(if auto { "generated" } else { "no context" }, 1);
                if sc.is_some() != auto {
                    c.violation("layer:auto generate", json!({"auto": auto, "got": format!("{sc:?}")}));
                }
                if let Some(x) = sc {
                    *randoms.entry(x).or_default() += 1;
                }
            }
        }
    }
    if let Some((k, n)) = randoms.iter().find(|(_, n)| **n > 1) {
        c.violation("layer:generated context reused", json!({"ctx": format!("{k:?}"), "n": n}));
    }
    for (k, n) in [("round trips", 5000), ("malformed", 2000), ("mangled, still valid", 300), ("invalid header", 500), ("context in header", 500), ("generated", 200), ("no context", 200)] {
        c.need(k, n);
    }
    let mut h = HeaderMap::new();
    h.insert("x", HeaderValue::from_static("1:2"));
    if !matches!(span_context_from_http_headers(&h), Ok(None)) {
        c.violation("header:absent", json!({}));
    }
}

#[derive(Clone, Default)]
struct Sink(Arc<Mutex<Vec<SpanRecord>>>);
impl Reporter for Sink {
    fn report(&mut self, s: &[SpanRecord]) {
        self.0.lock().unwrap().extend(s.iter().cloned());
    }
}

#[derive(Clone, Debug)]
struct WantSpan {
    name: String,
    trace: u128,
    parent: u64,
    id: Option<u64>,
    props: Vec<(String, String)>,
    events: Vec<(String, String)>,
}

/// build one request's span tree, part of it on other threads as other nodes would
fn tree(seed: u64, tag: u64) -> Vec<WantSpan> {
    use mon::rand::SeedableRng;
    let mut r = StdRng::seed_from_u64(seed);
    let root_ctx = SpanContext::new(TraceId(r.gen::<u128>() | 1), SpanId(r.gen::<u64>() | 1));
    let out = Arc::new(Mutex::new(vec![]));
    fn go(r: &mut StdRng, ctx: &SpanContext, depth: u32, path: String, out: &Arc<Mutex<Vec<WantSpan>>>) {
        let name = path.clone();
        let mut sp = Span::from_context(name.clone(), Some(ctx));
        let mut w = WantSpan { name, trace: ctx.trace_id.0, parent: ctx.span_id.0, id: None, props: vec![], events: vec![] };
        let me = SpanExt::context(&sp).expect("span has a context");
        w.id = Some(me.span_id.0);
        assert_eq!(me.trace_id.0, ctx.trace_id.0);
        for _ in 0..r.gen_range(0..4) {
            match r.gen_range(0..4) {
                0 => {
                    let (k, v) = (format!("k{}", r.gen_range(0..5)), r.edgy_string(8));
                    w.props.push((k.clone(), v.clone()));
                    SpanExt::add_property(&mut sp, || (k, v));
                }
                1 => {
                    let kv: Vec<_> = (0..if r.chance(0.1) { r.gen_range(8..40) } else { r.gen_range(0..4) }).map(|i| (format!("m{i}"), r.gen::<u16>().to_string())).collect();
                    w.props.extend(kv.clone());
                    SpanExt::add_properties(&mut sp, || kv);
                }
                2 => {
                    let e = format!("ev{}", r.gen::<u16>());
                    w.events.push((e.clone(), "error".into()));
                    SpanExt::error(&sp, e);
                }
                _ => {
                    let e = format!("ev{}", r.gen::<u16>());
                    w.events.push((e.clone(), "ok".into()));
                    SpanExt::ok(&sp, e);
                }
            }
        }
        out.lock().unwrap().push(w);
        if depth < 3 {
            for i in 0..r.gen_range(0..4) {
                let p = format!("{path}/{i}");
                match r.gen_range(0..3) {
                    // same process: context handed down
                    0 => go(r, &SpanExt::context(&sp).unwrap(), depth + 1, p, out),
                    // over the wire, on another thread
                    1 => {
                        let mut md = MetadataMap::new();
                        grpc_append_trace_context(SpanExt::context(&sp).as_ref(), &mut md).unwrap();
                        let h = md.into_headers();
                        let mut r2 = StdRng::seed_from_u64(r.gen());
                        let out = out.clone();
                        std::thread::spawn(move || {
                            let ctx = span_context_from_http_headers(&h).unwrap().unwrap();
                            go(&mut r2, &ctx, depth + 1, p, &out)
                        })
                        .join()
                        .unwrap();
                    }
                    _ => {
                        let child = Span::enter_with_parent(p.clone(), &sp);
                        let cc = SpanExt::context(&child).unwrap();
                        out.lock().unwrap().push(WantSpan { name: p, trace: ctx.trace_id.0, parent: me.span_id.0, id: Some(cc.span_id.0), props: vec![], events: vec![] });
                    }
                }
            }
        }
    }
    go(&mut r, &root_ctx, 0, format!("t{tag}"), &out);
    let v = out.lock().unwrap().clone();
    v
}

fn t02(c: &mut Ctx) {
    c.rule("every span of a sampled request is reported exactly once, with the trace and parent it was opened under (across threads and over the wire), all its properties in order and all its events; without a context nothing is reported; the file reporter appends every span");
    let sink = Sink::default();
    minitrace::set_reporter(sink.clone(), Config::default().batch_report_interval(Duration::from_millis(20)));
    let rounds = c.n(6, 20);
    let mut r = c.rng("t02");
    let mut tag = 0u64;
    for _ in 0..rounds {
        let seeds: Vec<(u64, u64)> = (0..24)
            .map(|_| {
                tag += 1;
                (r.gen(), tag)
            })
            .collect();
        let hs: Vec<_> = seeds
            .chunks(6)
            .map(|ch| {
                let ch = ch.to_vec();
                std::thread::spawn(move || ch.into_iter().flat_map(|(s, t)| tree(s, t)).collect::<Vec<_>>())
            })
            .collect();
        let mut want = vec![];
        for h in hs {
            match h.join() {
                Ok(v) => want.extend(v),
                Err(_) => c.violation("span:building a trace panicked or lost its context", json!({})),
            }
        }
        // unsampled work leaves no record
        let mut none = Span::from_context("unsampled", None);
        SpanExt::add_property(&mut none, || ("a", "b"));
        SpanExt::error(&none, "x");
        if SpanExt::context(&none).is_some() {
            c.violation("span:context without one", json!({}));
        }
        drop(none);
        trace::global_tracing::finalize_global_tracing();
        let t0 = Instant::now();
        while sink.0.lock().unwrap().len() < want.len() && t0.elapsed() < Duration::from_secs(5) {
            std::thread::sleep(Duration::from_millis(20));
            minitrace::flush();
        }
        let got = std::mem::take(&mut *sink.0.lock().unwrap());
        let mut by: BTreeMap<String, Vec<SpanRecord>> = BTreeMap::new();
        for g in got {
            by.entry(g.name.to_string()).or_default().push(g);
        }
        if by.contains_key("unsampled") {
            c.violation("span:unsampled span reported", json!({}));
        }
        for w in &want {
            c.count("spans", 1);
            c.count("properties", w.props.len() as u64);
            c.count("events", w.events.len() as u64);
            c.case(Some(&(w.name.len(), w.props.len(), w.events.len())));
            let g = by.remove(&w.name).unwrap_or_default();
            if g.len() != 1 {
                c.violation("span:reported a number of times other than once", json!({"name": w.name, "n": g.len()}));
                continue;
            }
            let g = &g[0];
            if g.trace_id.0 != w.trace || g.parent_id.0 != w.parent || Some(g.span_id.0) != w.id {
                c.violation("span:parentage", json!({"want": format!("{w:?}"), "got": format!("{g:?}")}));
            }
            let gp: Vec<_> = g.properties.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
            if gp != w.props {
                c.violation("span:properties", json!({"want": w.props, "got": gp}));
            }
            let mut ge: Vec<_> = g
                .events
                .iter()
                .map(|e| (e.name.to_string(), e.properties.iter().find(|p| p.0 == "type").map(|p| p.1.to_string()).unwrap_or_default()))
                .collect();
            let mut we = w.events.clone();
            ge.sort();
            we.sort();
            if ge != we {
                c.violation("span:events", json!({"want": we, "got": ge}));
            }
        }
        if let Some(k) = by.keys().next() {
            c.violation("span:unknown span reported", json!({"name": k}));
        }
    }
    // the file reporter
    let dir = std::env::var("VERIF_WORK").unwrap_or_else(|_| "/tmp".into());
    for i in 0..c.n(20, 10) {
        let path = std::path::PathBuf::from(format!("{dir}/trace-{i}.log"));
        let mut want = vec![];
        for _ in 0..r.gen_range(1..4) {
            let mut rep = FileReporter::new(path.clone()); // reopened: what was there stays
            for _ in 0..r.gen_range(0..4) {
                let batch: Vec<SpanRecord> = (0..r.gen_range(0..30))
                    .map(|_| SpanRecord {
                        trace_id: TraceId(r.gen()),
                        span_id: SpanId(r.gen()),
                        parent_id: SpanId(r.gen()),
                        begin_time_unix_ns: r.gen(),
                        duration_ns: r.gen(),
                        name: format!("n{}", r.gen::<u64>()).into(),
                        properties: (0..r.gen_range(0..3)).map(|k| (format!("k{k}").into(), format!("v{}", r.gen::<u32>()).into())).collect(),
                        events: (0..r.gen_range(0..2)).map(|_| EventRecord { name: "e".into(), timestamp_unix_ns: r.gen(), properties: vec![] }).collect(),
                    })
                    .collect();
                rep.report(&batch);
                want.extend(batch);
            }
        }
        let text = std::fs::read_to_string(&path).unwrap_or_default();
        c.count("file spans", want.len() as u64);
        c.case(Some(&(i, want.len())));
        let mut pos = 0;
        for w in &want {
            let mut at = pos;
            for needle in [format!("{}", w.trace_id.0), format!("{}", w.span_id.0), format!("{}", w.parent_id.0), format!("{}", w.duration_ns), w.name.to_string()].iter() {
                match text[at..].find(needle.as_str()) {
                    Some(o) => at += o,
                    None => {
                        c.violation("file:span missing or out of order", json!({"name": w.name, "needle": needle}));
                        break;
                    }
                }
            }
            pos = at;
        }
        if text.matches("SpanRecord {").count() != want.len() {
            c.violation("file:number of spans", json!({"want": want.len()}));
        }
        let _ = std::fs::remove_file(&path);
    }
    c.need("spans", 300);
    c.need("properties", 200);
    c.need("events", 200);
    c.need("file spans", 200);
}

// ---- T03 -----------------------------------------------------------------------------

const LEVELS: [&str; 5] = ["error", "warn", "info", "debug", "trace"];

macro_rules! emit_all {
    ($id:expr, $($t:literal),*) => {
        $(
            trace::error!(target: $t, "<<{} {} error>>", $id, $t);
            trace::warn!(target: $t, "<<{} {} warn>>", $id, $t);
            trace::info!(target: $t, "<<{} {} info>>", $id, $t);
            trace::debug!(target: $t, "<<{} {} debug>>", $id, $t);
            trace::trace!(target: $t, "<<{} {} trace>>", $id, $t);
        )*
    };
}
macro_rules! targets {
    ($m:ident, $($e:expr)?) => {
        $m!($($e,)? "client", "config::tskv", "coordinator::service", "limiter_bucket", "cnosdb::http", "memory_pool", "meta::store", "metrics", "models::schema", "protos", "protocol_parser", "query::sql", "spi", "trace", "tskv", "tskv::compaction::job", "utils", "replication::raft", "hyper::client", "h2", "tonic::transport")
    };
}
macro_rules! list { ($($t:literal),*) => { vec![$($t),*] }; }

const THIRD: [&str; 3] = ["hyper::client", "h2", "tonic::transport"];

/// the process that logs: dir prefix level rotation count threads
fn log_child(a: &[String]) {
    let cfg = config::common::LogConfig {
        level: a[2].clone(),
        path: a[0].clone(),
        max_file_count: a[4].parse().ok(),
        file_rotation: a[3].clone(),
        tokio_trace: None,
    };
    let n: usize = a[5].parse().unwrap();
    trace::global_logging::init_global_logging(&cfg, &a[1]);
    let hs: Vec<_> = (0..n)
        .map(|t| {
            std::thread::spawn(move || {
                for k in 0..20 {
                    let id = format!("{t}.{k}");
                    targets!(emit_all, id);
                    if k == 7 {
                        // a second initialisation changes nothing
                        trace::global_logging::init_default_global_tracing("/nonexistent/never", "x", "trace");
                    }
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    // the guard is global: give the appender's thread time to drain, watching the file
    let mut last = 0;
    let mut same = 0;
    for _ in 0..200 {
        std::thread::sleep(Duration::from_millis(15));
        let now: u64 = std::fs::read_dir(&a[0]).map(|d| d.flatten().map(|e| e.metadata().map(|m| m.len()).unwrap_or(0)).sum()).unwrap_or(0);
        if now == last {
            same += 1;
            if same > 6 {
                break;
            }
        } else {
            same = 0;
        }
        last = now;
    }
}

fn t03(c: &mut Ctx) {
    c.rule("every record a workspace crate logs at or above the configured level is in the log file and on stderr exactly once and unbroken, none below it is; an unknown level means warn");
    let mut r = c.rng("t03");
    let dir = std::env::var("VERIF_WORK").unwrap_or_else(|_| "/tmp".into());
    let all: Vec<&str> = targets!(list,);
    let me = std::env::current_exe().unwrap();
    let mut plan: Vec<(String, String, &str)> = vec![];
    for l in ["error", "warn", "info", "debug", "trace", "INFO", "off", "nonsense", "Debug", ""] {
        let rot = *r.pick(&["never", "daily", "hourly", "minutely", "weekly"]);
        // a limit on the number of files may drop rotated ones
        let cnt = if matches!(rot, "never" | "weekly") { *r.pick(&["-", "1", "3"]) } else { "-" };
        plan.push((l.to_string(), rot.to_string(), cnt));
    }
    let mut i = 0;
    let mut jobs = vec![];
    for rep in 0..c.n(1, 8) {
        for (level, rot, cnt) in plan.clone() {
            i += 1;
            let _ = rep;
            let d = format!("{dir}/log{i}");
            std::fs::create_dir_all(&d).unwrap();
            let threads = r.gen_range(1..6usize);
            let (me, d2) = (me.clone(), d.clone());
            let (l2, r2) = (level.clone(), rot.clone());
            jobs.push((
                level,
                rot,
                d,
                threads,
                std::thread::spawn(move || {
                    std::process::Command::new(me)
                        .args(["--log-child", &d2, "svc.log", &l2, &r2, cnt, &threads.to_string()])
                        .stdin(std::process::Stdio::null())
                        .output()
                }),
            ));
        }
    }
    for (level, rot, d, threads, h) in jobs {
        let out = h.join().unwrap().expect("spawn");
        let want_rank = match level.to_lowercase().as_str() {
            "off" => 0,
            l => LEVELS.iter().position(|x| *x == l).map(|p| p + 1).unwrap_or(2),
        };
        // the empty string is tracing's own way to say 'error'; leave it to it
        let empty = level.is_empty();
        if !out.status.success() {
            c.violation("log:initialisation failed", json!({"level": level, "rotation": rot, "stderr": String::from_utf8_lossy(&out.stderr).chars().take(400).collect::<String>()}));
            continue;
        }
        let mut file = String::new();
        let mut names = vec![];
        for e in std::fs::read_dir(&d).unwrap().flatten() {
            names.push(e.file_name().to_string_lossy().to_string());
            file.push_str(&std::fs::read_to_string(e.path()).unwrap_or_default());
        }
        if names.is_empty() || names.iter().any(|n| !n.starts_with("svc.log")) {
            c.violation("log:file name", json!({"names": names}));
        }
        let err = String::from_utf8_lossy(&out.stderr).to_string();
        for (what, text) in [("file", &file), ("stderr", &err)] {
            let mut seen: HashMap<&str, u32> = HashMap::new();
            for line in text.lines() {
                if let (Some(a), Some(b)) = (line.find("<<"), line.find(">>")) {
                    if line.matches("<<").count() != 1 || line.matches(">>").count() != 1 {
                        c.violation("log:records run into each other", json!({"line": line}));
                    }
                    *seen.entry(&line[a + 2..b]).or_default() += 1;
                }
            }
            for t in 0..threads {
                for k in 0..20 {
                    for tg in &all {
                        for (rank, lv) in LEVELS.iter().enumerate() {
                            let key = format!("{t}.{k} {tg} {lv}");
                            let n = seen.remove(key.as_str()).unwrap_or(0);
                            let third = THIRD.contains(tg);
                            let want = if third { 0 } else { (rank < want_rank) as u32 };
                            c.evals(1);
                            if empty {
                                if n > 1 {
                                    c.violation("log:record repeated", json!({"record": key}));
                                }
                                continue;
                            }
                            c.count(if want == 1 { "records expected" } else { "records suppressed" }, 1);
                            // a third-party crate's warnings and errors may show
                            if n != want && !(third && rank < 2 && n < 2) {
                                c.violation(&format!("log:{what}:{}", if n < want { "record missing" } else if want == 0 { "record below the level" } else { "record repeated" }), json!({"record": key, "level": level, "rotation": rot, "n": n}));
                            }
                        }
                    }
                }
            }
            c.case(Some(&(what, level.clone(), rot.clone())));
            if !seen.is_empty() {
                c.violation("log:garbled record", json!({"first": seen.keys().next()}));
            }
        }
        let _ = std::fs::remove_dir_all(&d);
    }
    c.need("records expected", 10_000);
    c.need("records suppressed", 10_000);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("--log-child") {
        log_child(&a[2..]);
        return;
    }
    let _ = u8::from_str("1");
    mon::main(&[("T01", t01), ("T02", t02), ("T03", t03)]);
}
