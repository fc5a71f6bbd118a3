//! H01 body encodings, H02 error bodies and request parameters, H03 the HTTP client.
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::net::{TcpListener, ToSocketAddrs};
use std::sync::{Arc, Mutex};

use bytes::Bytes;
use derive_traits::error_code::UnknownCodeWithMessage;
use derive_traits::ErrorCode;
use http_protocol::encoding::Encoding;
use http_protocol::http_client::HttpClient;
use http_protocol::parameter::*;
use http_protocol::response::ErrorResponse;
use mon::rand::rngs::StdRng;
use mon::rand::Rng;
use mon::{json, Ctx, GenExt};

const NAMES: [(&str, Encoding); 7] = [
    ("gzip", Encoding::Gzip),
    ("deflate", Encoding::Deflate),
    ("br", Encoding::Brotli),
    ("zstd", Encoding::Zstd),
    ("snappy", Encoding::Snappy),
    ("lz4", Encoding::LZ4),
    ("identity", Encoding::Identity),
];

fn payload(r: &mut StdRng) -> Vec<u8> {
    match r.gen_range(0..7) {
        0 => vec![],
        1 => r.bytes(3),
        2 => r.bytes(300),
        3 => {
            let line = format!("m,host=h{} v={} {}\n", r.gen_range(0..9), r.gen::<f32>(), r.gen::<u32>());
            line.repeat(r.gen_range(1..400)).into_bytes()
        }
        4 => vec![r.gen(); r.gen_range(0..70_000)],
        5 => (0..r.gen_range(0..70_000)).map(|_| r.gen()).collect(),
        _ => {
            // around the block sizes of the frame formats
            let n = *r.pick(&[4095usize, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 131072]);
            (0..n).map(|i| if i % 7 == 0 { r.gen() } else { (i % 251) as u8 }).collect()
        }
    }
}

fn h01(c: &mut Ctx) {
    c.rule("decode(encode(x)) == x for every encoding, whatever was coded before on the thread or is coded on other threads; a damaged body gives an error or, where the format cannot tell, never a longer or different text than its checksum admits");
    let mut r = c.rng("h01");
    // names
    let all: Vec<Encoding> = Encoding::iterator().collect();
    if all.len() != NAMES.len() {
        c.violation("encoding:set", json!({"n": all.len()}));
    }
    for (n, e) in NAMES {
        c.case(Some(n));
        if Encoding::from_str_opt(n) != Some(e) || e.as_str() != n || e.to_header_value().to_str().ok() != Some(n) {
            c.violation("encoding:name", json!({"name": n}));
        }
    }
    for i in 0..1000 {
        // also names that are nearly one
        let s = match i % 4 {
            0 => r.edgy_string(6),
            1 => format!("{}{}", r.pick(&NAMES).0, r.pick(&["x", " ", ",", ";q=1", "2", "\u{0}", "-", "gzip"])),
            2 => format!("{}{}", r.pick(&["x", " ", "x-", "-", "\t", ","]), r.pick(&NAMES).0),
            _ => {
                let n = r.pick(&NAMES).0;
                n[..r.gen_range(0..n.len())].to_string()
            }
        };
        if Encoding::from_str_opt(&s).map(|e| e.as_str()) != NAMES.iter().find(|(n, _)| *n == s).map(|(n, _)| *n) {
            c.violation("encoding:unknown-name", json!({"name": s}));
        }
    }
    // interleaved use of the shared per-thread buffer
    let mut pool: Vec<(usize, Vec<u8>, Vec<u8>)> = vec![];
    for i in 0..c.n(700, 40) {
        let x = payload(&mut r);
        let (n, e) = *r.pick(&NAMES);
        let k = NAMES.iter().position(|p| p.0 == n).unwrap();
        let det = || json!({"encoding": n, "len": x.len(), "head": &x[..x.len().min(40)]});
        let Some(enc) = c.guard("encode", det, || e.encode(x.clone())) else { continue };
        let enc = match enc {
            Ok(v) => v,
            Err(err) => {
                c.violation("encoding:encode-error", json!({"error": err.to_string(), "case": det()}));
                continue;
            }
        };
        if k == 6 && enc != x {
            c.violation("encoding:identity", det());
        }
        if x.len() > 2000 && k != 6 && x.windows(2).all(|w| w[0] == w[1]) && enc.len() >= x.len() {
            c.violation("encoding:no-compression", det());
        }
        pool.push((k, x, enc));
        if pool.len() > 12 || i % 50 == 49 {
            let j = r.gen_range(0..pool.len());
            let (k, x, enc) = pool.swap_remove(j);
            let (n, e) = NAMES[k];
            c.case(Some(&(k, &x)));
            let det = || json!({"encoding": n, "len": x.len(), "head": &x[..x.len().min(40)]});
            match c.guard("decode", det, || e.decode(Bytes::from(enc.clone()))) {
                Some(Ok(d)) => {
                    c.count(&format!("roundtrip_{n}"), 1);
                    if d != x {
                        c.violation("encoding:roundtrip", json!({"got_len": d.len(), "case": det()}));
                    }
                }
                Some(Err(err)) => c.violation("encoding:decode-error", json!({"error": err.to_string(), "case": det()})),
                None => {}
            }
            // hostile bodies
            let mut bad = enc.clone();
            let kind = r.gen_range(0..3);
            match kind {
                0 => bad.truncate(r.gen_range(0..bad.len().max(1))),
                1 if !bad.is_empty() => {
                    let p = r.gen_range(0..bad.len());
                    bad[p] ^= 1 << r.gen_range(0..8);
                }
                _ => bad = r.bytes(60),
            }
            let det = || json!({"encoding": n, "len": x.len(), "damage": kind, "body_head": &bad[..bad.len().min(60)]});
            if k != 6 && bad != enc {
                let short = bad.len() < enc.len() && enc.starts_with(&bad);
                match c.guard("decode-damaged", det, || e.decode(Bytes::from(bad.clone()))) {
                    Some(Ok(d)) => {
                        c.count("damaged_accepted", 1);
                        if short && !x.starts_with(&d) {
                            c.violation("encoding:truncated-garbage", det());
                        }
                        // gzip, snappy carry checksums; a cut gzip, br, zstd body is never whole
                        if short && (k == 0 || k == 2 || k == 3) && !x.is_empty() && d != x && !bad.is_empty() {
                            c.violation("encoding:truncated-accepted", json!({"got_len": d.len(), "case": det()}));
                        }
                        if kind == 1 && (k == 0 || k == 4) && d != x {
                            c.violation("encoding:corrupt-accepted", json!({"got_len": d.len(), "case": det()}));
                        }
                    }
                    Some(Err(_)) => c.count("damaged_rejected", 1),
                    None => {}
                }
                // and the thread still works afterwards
                let probe = b"after damage".to_vec();
                match e.encode(probe.clone()).and_then(|v| e.decode(Bytes::from(v))) {
                    Ok(d) if d == probe => {}
                    other => c.violation("encoding:state-leak", json!({"got": format!("{other:?}"), "case": det()})),
                }
            }
        }
    }
    // large bodies, past every buffer and block size in use
    for (n, e) in NAMES {
        for kind in 0..3 {
            // brotli takes seconds for each megabyte
            let len = if n == "br" { 1_050_000 } else { 3_000_000 + r.gen_range(0..2_000_000) };
            let x: Vec<u8> = if kind == 0 {
                (0..len).map(|i| if i % 97 == 0 { r.gen() } else { (i % 13) as u8 + b'a' }).collect()
            } else if kind == 1 {
                let mut v = vec![0u8; len];
                r.fill(&mut v[..]);
                v
            } else {
                // one byte over and over: the largest ratio an encoding reaches
                vec![r.gen(); 4_000_000]
            };
            c.case(Some(&("large", n, kind)));
            c.count("large bodies", 1);
            let det = || json!({"encoding": n, "len": x.len(), "kind": kind});
            match c.guard("large", det, || e.encode(x.clone()).and_then(|v| e.decode(Bytes::from(v)))) {
                Some(Ok(d)) if d == x => {}
                Some(o) => c.violation("encoding:roundtrip-large", json!({"got": o.map(|d| d.len()).map_err(|e| e.to_string()), "case": det()})),
                None => {}
            }
        }
    }
    // bodies written by another implementation of the format
    for _ in 0..40 {
        let x = payload(&mut r);
        let mut g = flate2::read::GzEncoder::new(&x[..], flate2::Compression::best());
        let mut b = vec![];
        g.read_to_end(&mut b).unwrap();
        c.count("foreign_bodies", 1);
        match Encoding::Gzip.decode(Bytes::from(b)) {
            Ok(d) if d == x => {}
            _ => c.violation("encoding:foreign-gzip", json!({"len": x.len()})),
        }
        let e = Encoding::Gzip.encode(x.clone()).unwrap_or_default();
        let mut b = vec![];
        if flate2::read::GzDecoder::new(&e[..]).read_to_end(&mut b).is_err() || b != x {
            c.violation("encoding:not-gzip", json!({"len": x.len()}));
        }
    }
    // many threads
    let seed = r.gen::<u64>();
    let bad = Arc::new(Mutex::new(vec![]));
    let hs: Vec<_> = (0..8u64)
        .map(|t| {
            let bad = bad.clone();
            let n = c.n(30, 20);
            std::thread::spawn(move || {
                use mon::rand::SeedableRng;
                let mut r = StdRng::seed_from_u64(seed ^ t);
                for _ in 0..n {
                    let x = payload(&mut r);
                    let (n, e) = *r.pick(&NAMES);
                    match e.encode(x.clone()).and_then(|v| e.decode(Bytes::from(v))) {
                        Ok(d) if d == x => {}
                        o => bad.lock().unwrap().push(format!("{n} len {} -> {:?}", x.len(), o.map(|d| d.len()))),
                    }
                }
                n as u64
            })
        })
        .collect();
    for h in hs {
        match h.join() {
            Ok(n) => {
                c.evals(n);
                c.count("concurrent_roundtrips", n);
            }
            Err(_) => c.violation("panic:encoding-thread", json!({})),
        }
    }
    for b in bad.lock().unwrap().iter() {
        c.violation("encoding:concurrent", json!(b));
    }
    for (n, _) in NAMES {
        c.need(&format!("roundtrip_{n}"), 20);
    }
    c.need("damaged_rejected", 50);
}

fn h02(c: &mut Ctx) {
    c.rule("an error body is JSON whose error_code and error_message are those of the error; query parameters are read by their documented names and absent ones are None");
    let mut r = c.rng("h02");
    for _ in 0..c.n(3000, 50) {
        let msg = r.edgy_string(30);
        let e = UnknownCodeWithMessage(msg.clone());
        let resp = ErrorResponse::new(&e);
        let det = || json!({"message": msg});
        c.case(Some(&msg));
        if msg.contains(['"', '\\']) || msg.chars().any(|c| c < ' ') {
            c.count("messages_needing_escape", 1);
        }
        let want = json!({"error_code": e.code(), "error_message": e.message()});
        let Some((v, s)) = c.guard("error-body", det, || (resp.to_vec(), resp.to_string())) else { continue };
        if v != s.as_bytes() {
            c.violation("error:two-bodies", det());
        }
        match serde_json::from_slice::<serde_json::Value>(&v) {
            Ok(j) if j == want => {}
            other => c.violation("error:body", json!({"body": s, "parsed": format!("{other:?}"), "case": det()})),
        }
        if serde_json::to_value(&resp).ok() != Some(want) {
            c.violation("error:serde", det());
        }
        match serde_json::from_slice::<ErrorResponse>(&v) {
            Ok(b) if b.code() == e.code() && b.message() == msg => c.count("error_roundtrips", 1),
            _ => c.violation("error:roundtrip", det()),
        }
    }
    // parameters
    type Check = fn(&BTreeMap<String, String>, &str) -> Result<BTreeMap<String, String>, String>;
    fn put<T: ToString>(m: &mut BTreeMap<String, String>, k: &str, v: &Option<T>) {
        if let Some(v) = v {
            m.insert(k.into(), v.to_string());
        }
    }
    let kinds: Vec<(&str, Vec<(&str, char)>, Check)> = vec![
        ("sql", vec![("tenant", 's'), ("db", 's'), ("chunked", 'b'), ("target_partitions", 'u'), ("stream_trigger_interval", 's')], |_, q| {
            let p: SqlParam = serde_urlencoded::from_str(q).map_err(|e| e.to_string())?;
            let mut m = BTreeMap::new();
            put(&mut m, "tenant", &p.tenant);
            put(&mut m, "db", &p.db);
            put(&mut m, "chunked", &p.chunked);
            put(&mut m, "target_partitions", &p.target_partitions);
            put(&mut m, "stream_trigger_interval", &p.stream_trigger_interval);
            Ok(m)
        }),
        ("write", vec![("precision", 's'), ("tenant", 's'), ("db", 's')], |_, q| {
            let p: WriteParam = serde_urlencoded::from_str(q).map_err(|e| e.to_string())?;
            let mut m = BTreeMap::new();
            put(&mut m, "precision", &p.precision);
            put(&mut m, "tenant", &p.tenant);
            put(&mut m, "db", &p.db);
            Ok(m)
        }),
        ("dump", vec![("tenant", 's')], |_, q| {
            let p: DumpParam = serde_urlencoded::from_str(q).map_err(|e| e.to_string())?;
            let mut m = BTreeMap::new();
            put(&mut m, "tenant", &p.tenant);
            Ok(m)
        }),
        ("debug", vec![("id", 'w')], |_, q| {
            let p: DebugParam = serde_urlencoded::from_str(q).map_err(|e| e.to_string())?;
            let mut m = BTreeMap::new();
            put(&mut m, "id", &p.id);
            Ok(m)
        }),
        ("log", vec![("tenant", 's'), ("db", 's'), ("table", 's'), ("log_type", 's'), ("tag_columns", 's'), ("time_column", 's')], |_, q| {
            let p: LogParam = serde_urlencoded::from_str(q).map_err(|e| e.to_string())?;
            let mut m = BTreeMap::new();
            put(&mut m, "tenant", &p.tenant);
            put(&mut m, "db", &p.db);
            put(&mut m, "table", &p.table);
            put(&mut m, "log_type", &p.log_type);
            put(&mut m, "tag_columns", &p.tag_columns);
            put(&mut m, "time_column", &p.time_column);
            Ok(m)
        }),
        ("operation", vec![("service", 's'), ("spanKind", 's')], |_, q| {
            let p: GetOperationParam = serde_urlencoded::from_str(q).map_err(|e| e.to_string())?;
            let mut m = BTreeMap::new();
            put(&mut m, "service", &p.service);
            put(&mut m, "spanKind", &p.span_kind);
            Ok(m)
        }),
        ("traces", vec![("service", 's'), ("operation", 's'), ("start", 'i'), ("end", 'i'), ("tag", 's'), ("tags", 's'), ("limit", 'u'), ("minDuration", 's'), ("maxDuration", 's'), ("traceID", 's')], |_, q| {
            let p: FindTracesParam = serde_urlencoded::from_str(q).map_err(|e| e.to_string())?;
            let mut m = BTreeMap::new();
            put(&mut m, "service", &p.service);
            put(&mut m, "operation", &p.operation);
            put(&mut m, "start", &p.start);
            put(&mut m, "end", &p.end);
            put(&mut m, "tag", &p.tag);
            put(&mut m, "tags", &p.tags);
            put(&mut m, "limit", &p.limit);
            put(&mut m, "minDuration", &p.min_duration);
            put(&mut m, "maxDuration", &p.max_duration);
            put(&mut m, "traceID", &p.trace_ids);
            Ok(m)
        }),
    ];
    for _ in 0..c.n(2000, 30) {
        let (kind, fields, f) = r.pick(&kinds);
        let mut want = BTreeMap::new();
        for (n, t) in fields {
            if r.chance(0.6) {
                let v = match t {
                    's' => r.edgy_string(10),
                    'b' => r.gen::<bool>().to_string(),
                    'u' => (r.edgy_u64() as usize).to_string(),
                    'w' => r.gen::<u32>().to_string(),
                    _ => r.edgy_i64().to_string(),
                };
                want.insert(n.to_string(), v);
            }
        }
        let mut q: Vec<(String, String)> = want.clone().into_iter().collect();
        if r.chance(0.3) {
            q.push(("unknown_parameter".into(), "1".into()));
        }
        let i = r.gen_range(0..q.len().max(1));
        let i = i.min(q.len());
        q.rotate_left(i);
        let qs = serde_urlencoded::to_string(&q).unwrap();
        c.case(Some(&(kind, &qs)));
        if let Some(got) = c.guard("param", || json!({"kind": kind, "query": qs}), || f(&want, &qs)) {
            c.count("parameter_sets", 1);
            if got.as_ref().ok() != Some(&want) {
                c.violation("param:values", json!({"kind": kind, "query": qs, "want": want, "got": format!("{got:?}")}));
            }
        }
    }
    c.need("messages_needing_escape", 200);
    c.need("error_roundtrips", 500);
    c.need("parameter_sets", 500);
}

fn h03(c: &mut Ctx) {
    c.rule("a request goes to the configured scheme, host, port and path with the asked method and body, directly unless a proxy is configured");
    let mut r = c.rng("h03");
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let serve = |name: &'static str| {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let port = l.local_addr().unwrap().port();
        let log: Arc<Mutex<Vec<String>>> = Default::default();
        let lg = log.clone();
        std::thread::spawn(move || {
            for s in l.incoming() {
                let Ok(mut s) = s else { continue };
                let lg = lg.clone();
                std::thread::spawn(move || {
                    s.set_read_timeout(Some(std::time::Duration::from_secs(5))).ok();
                    let mut buf = vec![];
                    let mut b = [0u8; 4096];
                    loop {
                        let Ok(n) = s.read(&mut b) else { return };
                        if n == 0 { return }
                        buf.extend_from_slice(&b[..n]);
                        let t = String::from_utf8_lossy(&buf).to_string();
                        if let Some((h, body)) = t.split_once("\r\n\r\n") {
                            let len: usize = h.lines().find_map(|l| l.to_lowercase().strip_prefix("content-length: ").map(|v| v.trim().parse().unwrap_or(0))).unwrap_or(0);
                            if body.len() >= len { break }
                        }
                    }
                    lg.lock().unwrap().push(String::from_utf8_lossy(&buf).to_string());
                    let _ = write!(s, "HTTP/1.1 200 OK\r\ncontent-length: {}\r\nconnection: close\r\n\r\n{name}", name.len());
                });
            }
        });
        (port, log)
    };
    let (port, log) = serve("origin");
    let (pport, plog) = serve("proxy");
    // a proxy in the environment must not be used
    std::env::set_var("http_proxy", format!("http://127.0.0.1:{pport}"));
    std::env::set_var("HTTP_PROXY", format!("http://127.0.0.1:{pport}"));
    std::env::set_var("ALL_PROXY", format!("http://127.0.0.1:{pport}"));
    let auth = Some(("u".to_string(), "p".to_string()));
    let custom = Some("Token abc".to_string());
    let purl = Some(format!("http://127.0.0.1:{pport}"));
    let empty = Some(String::new());
    let mk = |k: usize| match k {
        0 => HttpClient::new("127.0.0.1", port, false, false, &[]),
        1 => HttpClient::with_proxy_settings("127.0.0.1", port, false, false, &[], &purl, &None, &None),
        2 => HttpClient::with_proxy_settings("127.0.0.1", port, false, false, &[], &purl, &auth, &None),
        3 => HttpClient::with_proxy_settings("127.0.0.1", port, false, false, &[], &purl, &None, &custom),
        4 => HttpClient::with_proxy_settings("127.0.0.1", port, false, false, &[], &empty, &auth, &None),
        5 => HttpClient::with_proxy_settings("localhost", port, false, false, &[], &purl, &auth, &None),
        _ => HttpClient::new("localhost", port, false, false, &[]),
    };
    // only where the name leads here
    let kinds = if ("localhost", port).to_socket_addrs().is_ok_and(|mut a| a.any(|a| a.ip().is_ipv4())) { 7 } else { 6 };
    let clients: Vec<HttpClient> = match c.guard("client", || json!({}), || (0..kinds).map(|k| mk(k).unwrap()).collect()) {
        Some(v) => v,
        None => return,
    };
    let mut methods = HashSet::new();
    for i in 0..c.n(150, 10) {
        let k = if i < 35 { i % kinds } else { r.gen_range(0..kinds) };
        let host = if k < 5 { "127.0.0.1" } else { "localhost" };
        let cl = &clients[k];
        let path: String = (0..r.gen_range(1..4)).map(|_| format!("/{}", r.pick(&["api", "v1", "sql", "write", "a-b", "x_1"]))).collect();
        // a path is taken as it is: an ending slash, a query
        let path = format!("{path}{}", r.pick(&["", "", "", "/", "?db=public&pretty=true", "?path=/a/b/", "/?x=1"]));
        let slash = r.gen::<bool>();
        let p = if slash { path.clone() } else { path[1..].to_string() };
        let m = *r.pick(&["GET", "POST", "HEAD", "PUT", "PATCH", "DELETE"]);
        methods.insert(m);
        let body = format!("body{}", r.gen::<u32>());
        let det = || json!({"client": k, "method": m, "path": p});
        log.lock().unwrap().clear();
        plog.lock().unwrap().clear();
        let url = cl.url(&p);
        if url != format!("http://{host}:{port}{path}") {
            c.violation("client:url", json!({"url": url, "case": det()}));
        }
        let b = match m {
            "GET" => cl.get(&p),
            "POST" => cl.post(&p).body(body.clone()),
            "HEAD" => cl.head(&p),
            "PUT" => cl.put(&p).body(body.clone()),
            "PATCH" => cl.patch(&p).body(body.clone()),
            _ => cl.delete(&p),
        };
        let res = rt.block_on(async { tokio::time::timeout(std::time::Duration::from_secs(20), b.send()).await });
        c.case(Some(&(k, m, &path, slash)));
        match res {
            Ok(Ok(resp)) if resp.status().as_u16() == 200 => {}
            Err(_) => {
                c.inconclusive("a loopback request timed out");
                return;
            }
            other => {
                c.violation("client:failed", json!({"got": format!("{other:?}"), "case": det()}));
                continue;
            }
        }
        let via_proxy = (1..=3).contains(&k) || k == 5;
        let (used, other) = if via_proxy { (&plog, &log) } else { (&log, &plog) };
        let (u, o) = (used.lock().unwrap().clone(), other.lock().unwrap().clone());
        c.count(if via_proxy { "proxied_requests" } else { "direct_requests" }, 1);
        if u.len() != 1 || !o.is_empty() {
            c.violation("client:route", json!({"used": u.len(), "other": o.len(), "case": det()}));
            continue;
        }
        let target = if via_proxy { format!("http://{host}:{port}{path}") } else { path.clone() };
        let head = u[0].to_lowercase();
        if !u[0].starts_with(&format!("{m} {target} HTTP/1.1\r\n")) {
            c.violation("client:request-line", json!({"line": u[0].lines().next(), "case": det()}));
        }
        if ["POST", "PUT", "PATCH"].contains(&m) && !u[0].ends_with(&format!("\r\n\r\n{body}")) {
            c.violation("client:body", det());
        }
        let want_auth = match k { 2 | 5 => Some("proxy-authorization: basic dtpw"), 3 => Some("proxy-authorization: token abc"), _ => None };
        match want_auth {
            Some(a) if !head.contains(a) => c.violation("client:proxy-auth", json!({"head": head, "case": det()})),
            None if head.contains("proxy-authorization") => c.violation("client:leaked-proxy-auth", det()),
            _ => {}
        }
    }
    // TLS endpoints and bad configuration
    for (ssl, unsafe_ssl) in [(true, false), (false, true), (true, true)] {
        if let Some(Ok(cl)) = c.guard("client-tls", || json!({}), || HttpClient::new("127.0.0.1", port, ssl, unsafe_ssl, &[])) {
            if cl.url("x") != format!("https://127.0.0.1:{port}/x") {
                c.violation("client:tls-url", json!({"ssl": ssl, "unsafe": unsafe_ssl, "url": cl.url("x")}));
            }
            log.lock().unwrap().clear();
        } else {
            c.violation("client:tls", json!({"ssl": ssl}));
        }
    }
    let w = std::env::var("VERIF_WORK").unwrap_or("/tmp".into());
    tls(c, &rt, &w);
    std::fs::write(format!("{w}/junk.pem"), b"-----BEGIN CERTIFICATE-----\n!!\n-----END CERTIFICATE-----\n").unwrap();
    for f in [format!("{w}/absent.pem"), format!("{w}/junk.pem")] {
        if let Some(Ok(_)) = c.guard("client-cert", || json!({"file": f}), || HttpClient::new("127.0.0.1", port, true, false, &[f.clone()])) {
            c.violation("client:bad-certificate-accepted", json!({"file": f}));
        }
    }
    c.count("methods", methods.len() as u64);
    c.need("methods", 6);
    c.need("TLS exchanges", 8);
    c.need("TLS refusals", 3);
    c.need("proxied_requests", 20);
    c.need("direct_requests", 20);
}

/// Whom a client over TLS talks to: only a server whose certificate is signed by an authority it trusts and names
/// the host, unless it was told to take any.
fn tls(c: &mut Ctx, rt: &tokio::runtime::Runtime, w: &str) {
    let pem = |s: &str| rustls_pemfile::certs(&mut s.as_bytes()).unwrap().into_iter().map(rustls::Certificate).collect::<Vec<_>>();
    let key = rustls_pemfile::pkcs8_private_keys(&mut include_str!("../tls/srv.key").as_bytes()).unwrap().remove(0);
    let conf = rustls::ServerConfig::builder()
        .with_safe_defaults()
        .with_no_client_auth()
        .with_single_cert(pem(include_str!("../tls/srv.pem")), rustls::PrivateKey(key))
        .unwrap();
    let conf = Arc::new(conf);
    let l = match TcpListener::bind("0.0.0.0:0") {
        Ok(l) => l,
        Err(_) => return c.inconclusive("cannot listen"),
    };
    let port = l.local_addr().unwrap().port();
    let log: Arc<Mutex<Vec<String>>> = Default::default();
    let lg = log.clone();
    std::thread::spawn(move || {
        for s in l.incoming() {
            let Ok(mut s) = s else { continue };
            let (lg, conf) = (lg.clone(), conf.clone());
            std::thread::spawn(move || {
                s.set_read_timeout(Some(std::time::Duration::from_secs(5))).ok();
                let Ok(mut tls) = rustls::ServerConnection::new(conf) else { return };
                let mut t = rustls::Stream::new(&mut tls, &mut s);
                let (mut buf, mut b) = (vec![], [0u8; 4096]);
                loop {
                    let Ok(n) = t.read(&mut b) else { return };
                    if n == 0 { return }
                    buf.extend_from_slice(&b[..n]);
                    if buf.ends_with(b"the-body") { break }
                }
                lg.lock().unwrap().push(String::from_utf8_lossy(&buf).to_string());
                let _ = t.write_all(b"HTTP/1.1 200 OK\r\ncontent-length: 6\r\nconnection: close\r\n\r\nsecret");
                let _ = t.flush();
            });
        }
    });
    let (a, b) = (format!("{w}/ca_a.pem"), format!("{w}/ca_b.pem"));
    std::fs::write(&a, include_str!("../tls/ca_a.pem")).unwrap();
    std::fs::write(&b, include_str!("../tls/ca_b.pem")).unwrap();
    // (host, ssl, unsafe, trusted, does it get through)
    let cases: Vec<(&str, bool, bool, Vec<String>, bool)> = vec![
        ("127.0.0.1", true, false, vec![], false),
        ("127.0.0.1", true, false, vec![a.clone()], true),
        ("127.0.0.1", true, false, vec![b.clone()], false),
        ("127.0.0.1", true, false, vec![b.clone(), a.clone()], true),
        ("127.0.0.1", true, false, vec![a.clone(), b.clone()], true),
        ("127.0.0.2", true, false, vec![a.clone()], false),
        ("127.0.0.1", false, true, vec![], true),
        ("127.0.0.1", true, true, vec![], true),
        ("127.0.0.1", true, true, vec![b.clone()], true),
        ("127.0.0.1", false, true, vec![b.clone()], true),
        ("127.0.0.2", true, true, vec![a.clone()], true),
    ];
    for (host, ssl, any, certs, through) in cases {
        // nobody else may stand in the way of the exchange
        if std::net::TcpStream::connect((host, port)).is_err() {
            continue;
        }
        for proxied in [false, true] {
            let none = if proxied { Some(String::new()) } else { None };
            let det = || json!({"host": host, "ssl": ssl, "unsafe": any, "trusted": certs.len(), "own authority": certs.contains(&a)});
            let cl = match c.guard("tls", det, || HttpClient::with_proxy_settings(host, port, ssl, any, &certs, &none, &None, &None)) {
                Some(Ok(cl)) => cl,
                Some(Err(e)) => {
                    c.violation("client:tls-settings-refused", json!({"got": e.to_string(), "case": det()}));
                    continue;
                }
                None => continue,
            };
            log.lock().unwrap().clear();
            let res = rt.block_on(async {
                tokio::time::timeout(std::time::Duration::from_secs(20), async { cl.post("/api/v1/sql").body("the-body").send().await?.text().await }).await
            });
            let Ok(res) = res else {
                c.inconclusive("a loopback request timed out");
                return;
            };
            c.case(Some(&("tls", host, ssl, any, &certs, proxied)));
            c.count(if through { "TLS exchanges" } else { "TLS refusals" }, 1);
            let seen = log.lock().unwrap().clone();
            match res {
                Ok(t) if through && t == "secret" && seen.len() == 1 && seen[0].starts_with("POST /api/v1/sql HTTP/1.1\r\n") && seen[0].ends_with("\r\n\r\nthe-body") => {}
                Err(_) if !through && seen.is_empty() => {}
                Ok(_) if !through => c.violation("client:tls-trusts-anyone", det()),
                other => c.violation("client:tls-exchange", json!({"got": format!("{other:?}"), "seen": seen.len(), "case": det()})),
            }
        }
    }
}

fn main() {
    mon::main(&[("H01", h01), ("H02", h02), ("H03", h03)]);
}
