//! G01 config text round trip, G02 environment over file over default, G03 config check.
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

use std::io::Write;
use std::os::fd::AsRawFd;

use config::common::TokioTrace;
use config::meta::Opt;
use config::tskv::{Config, TLSConfig};
use mon::rand::rngs::StdRng;
use mon::rand::Rng;
use mon::{json, Ctx, GenExt};
use toml::Value;

fn work() -> String {
    std::env::var("VERIF_WORK").unwrap_or_else(|_| "/tmp".into())
}

fn text(r: &mut StdRng) -> String {
    let s = r.edgy_string(12);
    s.replace('\u{0}', "_")
}
fn dur(r: &mut StdRng) -> Duration {
    match r.gen_range(0..5) {
        0 => Duration::ZERO,
        1 => Duration::from_millis(r.gen_range(0..20_000)),
        2 => Duration::from_secs(r.gen_range(0..10_000_000)),
        3 => Duration::from_nanos(r.gen_range(0..5_000_000_000)),
        _ => Duration::new(r.gen_range(0..1 << 33), r.gen_range(0..1_000_000_000)),
    }
}
/// TOML integers are i64
fn int(r: &mut StdRng) -> u64 {
    r.edgy_u64() & (i64::MAX as u64)
}
fn opt<T>(r: &mut StdRng, f: impl FnOnce(&mut StdRng) -> T) -> Option<T> {
    if r.chance(0.5) { Some(f(r)) } else { None }
}

fn random_config(r: &mut StdRng) -> Config {
    let mut c = Config::default();
    c.global.node_id = int(r);
    c.global.host = text(r);
    c.global.cluster_name = text(r);
    c.global.store_metrics = r.gen();
    c.global.pre_create_bucket = r.gen();
    c.deployment.mode = text(r);
    c.deployment.cpu = int(r) as usize;
    c.deployment.memory = int(r) as usize;
    c.meta.service_addr = (0..r.gen_range(0..4)).map(|_| text(r)).collect();
    c.meta.report_time_interval = dur(r);
    c.meta.usage_schema_cache_size = r.edgy_u64();
    c.meta.cluster_schema_cache_size = r.edgy_u64();
    c.meta.system_database_replica = int(r);
    c.query.max_server_connections = r.gen();
    c.query.query_sql_limit = r.edgy_u64();
    c.query.write_sql_limit = r.edgy_u64();
    c.query.auth_enabled = r.gen();
    c.query.read_timeout = dur(r);
    c.query.write_timeout = dur(r);
    c.query.stream_trigger_cpu = int(r) as usize;
    c.query.stream_executor_cpu = int(r) as usize;
    c.query.sql_record_timeout = dur(r);
    c.storage.path = text(r);
    c.storage.max_summary_size = r.edgy_u64();
    c.storage.base_file_size = r.edgy_u64();
    c.storage.flush_req_channel_cap = int(r) as usize;
    c.storage.max_cached_readers = int(r) as usize;
    c.storage.max_level = r.gen();
    c.storage.compact_trigger_file_num = r.gen();
    c.storage.compact_trigger_cold_duration = dur(r);
    c.storage.max_compact_size = r.edgy_u64();
    c.storage.max_concurrent_compaction = r.gen();
    c.storage.collect_compaction_metrics = r.gen();
    c.storage.strict_write = r.gen();
    c.storage.reserve_space = r.edgy_u64();
    c.storage.copyinto_trigger_flush_size = r.edgy_u64();
    c.storage.max_datablock_size = r.edgy_u64();
    c.storage.index_cache_capacity = int(r);
    c.storage.tsm_meta_compress = text(r);
    c.wal.path = text(r);
    c.wal.wal_req_channel_cap = int(r) as usize;
    c.wal.max_file_size = r.edgy_u64();
    c.wal.sync = r.gen();
    c.wal.compress = text(r);
    c.cache.max_buffer_size = r.edgy_u64();
    c.cache.partition = int(r) as usize;
    c.log.level = text(r);
    c.log.path = text(r);
    c.log.max_file_count = opt(r, |r| int(r) as usize);
    c.log.file_rotation = text(r);
    c.log.tokio_trace = opt(r, |r| TokioTrace { addr: text(r) });
    c.security.tls_config = opt(r, |r| TLSConfig { certificate: text(r), private_key: text(r) });
    c.service.http_listen_port = opt(r, |r| r.gen());
    c.service.grpc_listen_port = opt(r, |r| r.gen());
    c.service.grpc_enable_gzip = r.gen();
    c.service.flight_rpc_listen_port = opt(r, |r| r.gen());
    c.service.tcp_listen_port = opt(r, |r| r.gen());
    c.service.enable_report = r.gen();
    c.service.jaeger_rpc_listen_port = opt(r, |r| r.gen());
    c.cluster.raft_logs_to_keep = int(r);
    c.cluster.snapshot_holding_time = dur(r);
    c.cluster.trigger_snapshot_interval = dur(r);
    c.cluster.lmdb_max_map_size = r.edgy_u64();
    c.cluster.heartbeat_interval = dur(r);
    c.cluster.send_append_entries_timeout = dur(r);
    c.cluster.install_snapshot_timeout = dur(r);
    c.trace.auto_generate_span = r.gen();
    c.trace.max_spans_per_trace = opt(r, |r| int(r) as usize);
    c.trace.batch_report_interval = dur(r);
    c.trace.batch_report_max_spans = opt(r, |r| int(r) as usize);
    c.trace.otlp_endpoint = opt(r, text);
    c.trace.trace_log_path = opt(r, text);
    c
}

fn random_opt(r: &mut StdRng) -> Opt {
    let mut c = Opt::default();
    c.global.node_id = int(r);
    c.global.cluster_name = text(r);
    c.global.raft_node_host = text(r);
    c.global.listen_port = r.gen();
    c.global.grpc_enable_gzip = r.gen();
    c.global.data_path = text(r);
    c.cluster.lmdb_max_map_size = int(r);
    c.cluster.heartbeat_interval = int(r);
    c.cluster.raft_logs_to_keep = int(r);
    c.cluster.install_snapshot_timeout = int(r);
    c.cluster.send_append_entries_timeout = int(r);
    c.sys_config.usage_schema_cache_size = int(r);
    c.sys_config.cluster_schema_cache_size = int(r);
    c.sys_config.system_database_replica = int(r);
    c.log.level = text(r);
    c.log.path = text(r);
    c.log.max_file_count = opt(r, |r| int(r) as usize);
    c.log.file_rotation = text(r);
    c.log.tokio_trace = opt(r, |r| TokioTrace { addr: text(r) });
    c.heartbeat.heartbeat_recheck_interval = int(r);
    c.heartbeat.heartbeat_expired_interval = int(r);
    c
}

/// Options a freshly defaulted port has: `None` is written as absence, which reads back as
/// the default. Those two ports cannot be expressed as "off" in a file.
fn normalize(c: &mut Config) {
    if c.service.http_listen_port.is_none() {
        c.service.http_listen_port = Some(8902);
    }
    if c.service.grpc_listen_port.is_none() {
        c.service.grpc_listen_port = Some(8903);
    }
}

fn leaves(v: &Value, path: &str, out: &mut BTreeMap<String, Value>) {
    match v {
        Value::Table(t) => {
            for (k, v) in t {
                leaves(v, &if path.is_empty() { k.clone() } else { format!("{path}.{k}") }, out)
            }
        }
        v => {
            out.insert(path.into(), v.clone());
        }
    }
}
fn set(v: &mut Value, path: &str, x: Option<Value>) {
    match path.split_once('.') {
        Some((a, b)) => set(v.as_table_mut().unwrap().get_mut(a).unwrap(), b, x),
        None => {
            let t = v.as_table_mut().unwrap();
            match x {
                Some(x) => {
                    t.insert(path.into(), x);
                }
                None => {
                    t.remove(path);
                }
            }
        }
    }
}

fn g01(c: &mut Ctx) {
    c.rule("Config::new(file holding to_string_pretty(cfg)) == cfg for random values in every field, for the data and the meta node");
    let mut r = c.rng("g01");
    let f = format!("{}/c.toml", work());
    for _ in 0..c.n(600, 60) {
        let mut cfg = random_config(&mut r);
        normalize(&mut cfg);
        let t = cfg.to_string_pretty();
        std::fs::write(&f, &t).unwrap();
        c.case(Some(&t));
        match c.guard("load", || json!({"file": t}), || Config::new(Some(&f))) {
            Some(Ok(b)) => {
                c.count("data_configs", 1);
                let (x, y) = (format!("{cfg:?}"), format!("{b:?}"));
                if x != y {
                    let at = x.bytes().zip(y.bytes()).position(|(a, b)| a != b).unwrap_or(0);
                    let cut = |s: &str| s.chars().skip(at.saturating_sub(60)).take(160).collect::<String>();
                    c.violation("config:roundtrip", json!({"wrote": cut(&x), "read": cut(&y)}));
                }
            }
            Some(Err(e)) => c.violation("config:unreadable", json!({"error": e.to_string(), "file": t})),
            None => {}
        }
        let o = random_opt(&mut r);
        let t = o.to_string_pretty();
        std::fs::write(&f, &t).unwrap();
        c.case(Some(&t));
        match c.guard("load-meta", || json!({"file": t}), || Opt::new(Some(&f))) {
            Some(Ok(b)) => {
                c.count("meta_configs", 1);
                if b != o {
                    c.violation("meta-config:roundtrip", json!({"wrote": format!("{o:?}"), "read": format!("{b:?}")}));
                }
            }
            Some(Err(e)) => c.violation("meta-config:unreadable", json!({"error": e.to_string(), "file": t})),
            None => {}
        }
        // a file that is not TOML or has a wrong type is an error, not a panic or a default
        let bad = match r.gen_range(0..4) {
            0 => "[global]\nnode_id = \"x\"\n".to_string(),
            1 => "[storage]\nmax_summary_size = \"12 parsecs\"\n".to_string(),
            2 => "[query]\nread_timeout = \"soon\"\n".to_string(),
            _ => format!("[global\n{}", text(&mut r)),
        };
        std::fs::write(&f, &bad).unwrap();
        if let Some(Ok(_)) = c.guard("load-bad", || json!({"file": bad}), || Config::new(Some(&f))) {
            c.violation("config:bad-accepted", json!({"file": bad}));
        }
        c.count("bad_files", 1);
    }
    if Config::new(Some(format!("{}/absent.toml", work()))).is_ok() || Opt::new(Some(format!("{}/absent.toml", work()))).is_ok() {
        c.violation("config:missing-file-accepted", json!({}));
    }
    c.need("data_configs", 100);
    c.need("meta_configs", 100);
}

/// the two node kinds behind one face: load returns the config as a TOML value
struct Kind {
    name: &'static str,
    prefix: &'static str,
    load: fn(Option<&str>) -> Result<(Value, String), String>,
    full: fn() -> Value,
    keys: fn() -> BTreeMap<String, String>,
}
fn load_data(p: Option<&str>) -> Result<(Value, String), String> {
    Config::new(p).map(|c| (Value::try_from(&c).unwrap(), format!("{c:?}"))).map_err(|e| e.to_string())
}
fn load_meta(p: Option<&str>) -> Result<(Value, String), String> {
    Opt::new(p).map(|c| (Value::try_from(&c).unwrap(), format!("{c:?}"))).map_err(|e| e.to_string())
}
fn full_data() -> Value {
    let mut c = Config::default();
    c.log.max_file_count = Some(3);
    c.log.tokio_trace = Some(TokioTrace { addr: "h".into() });
    c.security.tls_config = Some(TLSConfig::default());
    c.service.flight_rpc_listen_port = Some(1);
    c.service.tcp_listen_port = Some(1);
    c.service.jaeger_rpc_listen_port = Some(1);
    c.trace.max_spans_per_trace = Some(1);
    c.trace.batch_report_max_spans = Some(1);
    c.trace.otlp_endpoint = Some("h".into());
    c.trace.trace_log_path = Some("h".into());
    Value::try_from(&c).unwrap()
}
fn full_meta() -> Value {
    let mut c = Opt::default();
    c.log.max_file_count = Some(3);
    c.log.tokio_trace = Some(TokioTrace { addr: "h".into() });
    Value::try_from(&c).unwrap()
}

/// another value of the same kind: (as TOML, as environment text)
fn other(r: &mut StdRng, v: &Value) -> (Value, String) {
    let word = |r: &mut StdRng| format!("v{}/{}", r.gen_range(0..100_000), ["a", "b c", "x-y", "é"][r.gen_range(0..4)]);
    match v {
        Value::Integer(_) => {
            let n = r.gen_range(1..60_000i64);
            (Value::Integer(n), n.to_string())
        }
        Value::Boolean(_) => {
            let b: bool = r.gen();
            (Value::Boolean(b), b.to_string())
        }
        Value::Array(_) => {
            let a: Vec<String> = (0..r.gen_range(1..4)).map(|_| format!("host{}:{}", r.gen_range(0..9), r.gen_range(1..9999))).collect();
            let t = format!("[{}]", a.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(","));
            (Value::Array(a.into_iter().map(Value::String).collect()), t)
        }
        Value::String(s) => {
            let unit = s.trim_start_matches(|c: char| c.is_ascii_digit() || c == '.' || c == ' ');
            let s = if unit.len() < s.len() && ["ns", "us", "ms", "s", "m", "h", "d", "day", "days"].contains(&unit) {
                format!("{}{}", r.gen_range(1..5000), ["ms", "s", "m", "h"][r.gen_range(0..4)])
            } else if unit.len() < s.len() && ["B", "KB", "KiB", "MB", "MiB", "GB", "GiB"].contains(&unit) {
                format!("{}{}", r.gen_range(1..5000), ["KiB", "MB", "k", "GiB"][r.gen_range(0..4)])
            } else {
                word(r)
            };
            (Value::String(s.clone()), s)
        }
        v => (v.clone(), v.to_string()),
    }
}

fn g02(c: &mut Ctx) {
    c.rule("every option has one environment variable; when set it wins over the file, a set file entry wins over the default, an absent entry is the default, unrelated variables change nothing");
    let mut r = c.rng("g02");
    for (k, _) in std::env::vars() {
        if k.starts_with("CNOSDB_") {
            std::env::remove_var(k);
        }
    }
    let kinds = [
        Kind { name: "data", prefix: "CNOSDB_", load: load_data, full: full_data, keys: Config::env_keys },
        Kind { name: "meta", prefix: "CNOSDB_META_", load: load_meta, full: full_meta, keys: Opt::env_keys },
    ];
    let f = format!("{}/c.toml", work());
    let g = format!("{}/d.toml", work());
    for k in &kinds {
        let full = (k.full)();
        let mut ls = BTreeMap::new();
        leaves(&full, "", &mut ls);
        let env_of = |p: &str| format!("{}{}", k.prefix, p.to_uppercase().replace('.', "_"));
        // the advertised variables are exactly the options
        let want: BTreeSet<String> = ls.keys().map(|p| env_of(p)).collect();
        let got: BTreeSet<String> = (k.keys)().into_keys().collect();
        if want.len() != ls.len() {
            c.violation("env:ambiguous", json!({"kind": k.name}));
        }
        if want != got {
            c.violation("env:keys", json!({"kind": k.name, "missing": want.difference(&got).collect::<Vec<_>>(), "extra": got.difference(&want).collect::<Vec<_>>()}));
        }
        c.count(&format!("{}_options", k.name), ls.len() as u64);
        let (defaults, _) = match (k.load)(None) {
            Ok(x) => x,
            Err(e) => {
                c.violation("env:defaults", json!({"error": e}));
                continue;
            }
        };
        let mut dl = BTreeMap::new();
        leaves(&defaults, "", &mut dl);
        let paths: Vec<&String> = ls.keys().collect();
        let rounds = c.n(4, 30);
        for round in 0..rounds {
            for (pi, p) in paths.iter().enumerate() {
                // a file with a random subset of the options, at other values
                let mut file = full.clone();
                let mut present = BTreeMap::new();
                let sparse = r.chance(0.5);
                for q in &paths {
                    // an option inside an optional group is kept whole
                    if !(q.contains("tokio_trace") || q.contains("tls_config")) && sparse && r.chance(0.6) {
                        set(&mut file, q, None);
                    } else {
                        let (v, _) = other(&mut r, &ls[*q]);
                        set(&mut file, q, Some(v.clone()));
                        present.insert(q.to_string(), v);
                    }
                }
                // variables: this option, sometimes more, sometimes junk
                let mut vars = vec![];
                let mut chosen = vec![*p];
                if round > 0 {
                    for _ in 0..r.gen_range(0..4) {
                        let q = paths[r.gen_range(0..paths.len())];
                        if !chosen.contains(&q) {
                            chosen.push(q);
                        }
                    }
                }
                let mut expect = file.clone();
                for q in &chosen {
                    let (v, t) = other(&mut r, &ls[*q]);
                    vars.push((env_of(q), t));
                    set(&mut expect, q, Some(v));
                }
                let junk = match r.gen_range(0..6) {
                    0 => Some(format!("{}NOT_AN_OPTION_{}", k.prefix, r.gen_range(0..9))),
                    // much like an option, but none
                    1 => Some(format!("{}_X{}", env_of(paths[r.gen_range(0..paths.len())]), r.gen_range(0..9))),
                    2 => Some(format!("{}X_{}", k.prefix, paths[r.gen_range(0..paths.len())].to_uppercase().replace('.', "_"))),
                    _ => None,
                };
                std::fs::write(&f, toml::to_string(&file).unwrap()).unwrap();
                std::fs::write(&g, toml::to_string(&expect).unwrap()).unwrap();
                let det = || json!({"kind": k.name, "vars": vars, "junk": junk, "file": toml::to_string(&file).unwrap()});
                let plain = c.guard("env-load", det, || (k.load)(Some(&f)));
                let wanted = c.guard("env-load", det, || (k.load)(Some(&g)));
                for (a, b) in &vars {
                    std::env::set_var(a, b);
                }
                if let Some(j) = &junk {
                    std::env::set_var(j, "7");
                }
                let got = c.guard("env-load", det, || (k.load)(Some(&f)));
                for (a, _) in &vars {
                    std::env::remove_var(a);
                }
                if let Some(j) = &junk {
                    std::env::remove_var(j);
                }
                c.case(Some(&(k.name, pi, vars.len(), sparse, round)));
                let (Some(plain), Some(wanted), Some(got)) = (plain, wanted, got) else { continue };
                c.count("overrides", vars.len() as u64);
                match (&plain, &wanted, &got) {
                    (Ok(pl), Ok(w), Ok(g)) => {
                        if w.1 != g.1 {
                            c.violation("env:precedence", json!({"case": det(), "got": diff(&g.0, &w.0)}));
                        }
                        // file over default, default when absent
                        let mut pv = BTreeMap::new();
                        leaves(&pl.0, "", &mut pv);
                        for q in &paths {
                            let (want, from) = match present.get(*q) {
                                Some(v) => (Some(v.clone()), "file"),
                                None => (dl.get(*q).cloned(), "default"),
                            };
                            c.count(&format!("options_from_{from}"), 1);
                            let got = pv.get(*q).cloned();
                            if !same(&want, &got) {
                                c.violation(&format!("env:{from}-value"), json!({"option": q, "want": format!("{want:?}"), "got": format!("{got:?}")}));
                            }
                        }
                    }
                    _ => c.violation("env:refused", json!({"case": det(), "plain": plain.err(), "wanted": wanted.err(), "got": got.err()})),
                }
            }
        }
    }
    c.need("overrides", 200);
    c.need("options_from_file", 1000);
    c.need("options_from_default", 1000);
}
fn diff(a: &Value, b: &Value) -> Vec<String> {
    let (mut x, mut y) = (BTreeMap::new(), BTreeMap::new());
    leaves(a, "", &mut x);
    leaves(b, "", &mut y);
    x.keys().chain(y.keys()).collect::<BTreeSet<_>>().into_iter().filter(|k| x.get(*k) != y.get(*k)).map(|k| format!("{k}: {:?}, wanted {:?}", x.get(k), y.get(k))).take(6).collect()
}
/// equal as options: sizes and durations may be written differently
fn same(a: &Option<Value>, b: &Option<Value>) -> bool {
    if a == b {
        return true;
    }
    match (a, b) {
        (Some(Value::String(a)), Some(Value::String(b))) => {
            let size = |s: &str| -> Option<u128> {
                let i = s.find(|c: char| !(c.is_ascii_digit() || c == '.')).unwrap_or(s.len());
                let n: f64 = s[..i].parse().ok()?;
                let k: f64 = match s[i..].trim().to_uppercase().as_str() {
                    "" | "B" => 1.0, "TB" => 1e12, "TIB" => 1099511627776.0, "K" | "KB" => 1e3, "KIB" => 1024.0, "M" | "MB" => 1e6, "MIB" => 1048576.0, "G" | "GB" => 1e9, "GIB" => 1073741824.0, _ => return None,
                };
                Some((n * k).round() as u128)
            };
            let time = |s: &str| -> Option<u128> {
                let mut t = 0;
                for p in s.split(' ') {
                    let i = p.find(|c: char| !c.is_ascii_digit())?;
                    let n: u128 = p[..i].parse().ok()?;
                    t += n * match &p[i..] {
                        "ms" => 1, "s" => 1000, "m" => 60_000, "h" => 3_600_000, "d" | "day" | "days" => 86_400_000, "month" | "months" => 2_630_016_000, "y" | "year" | "years" => 31_557_600_000, _ => return None,
                    };
                }
                Some(t)
            };
            matches!((time(a), time(b)), (Some(x), Some(y)) if x == y) || matches!((size(a), size(b)), (Some(x), Some(y)) if x == y || (x.abs_diff(y) as f64) < 2.0 + x as f64 * 1e-12)
        }
        _ => false,
    }
}

// ---- check ---------------------------------------------------------------------------

/// the report `check_config` prints for this configuration, taken from its stdout
fn check_text(cfg: &Config) -> String {
    let f = format!("{}/k.toml", work());
    std::fs::write(&f, cfg.to_string_pretty()).unwrap();
    let o = format!("{}/out.txt", work());
    let file = std::fs::File::create(&o).unwrap();
    let _ = std::io::stdout().flush();
    let saved = unsafe { libc::dup(1) };
    unsafe { libc::dup2(file.as_raw_fd(), 1) };
    let res = mon::quiet(|| config::tskv::check_config(&f, true));
    let _ = std::io::stdout().flush();
    unsafe {
        libc::dup2(saved, 1);
        libc::close(saved);
    }
    if let Err(e) = res {
        panic!("{e}");
    }
    std::fs::read_to_string(&o).unwrap()
}

/// (severity, "section.item") lines of a report
fn entries(t: &str) -> BTreeSet<(String, String)> {
    t.lines()
        .filter_map(|l| {
            let (sev, rest) = l.split_once(" in entry '")?;
            Some((sev.to_string(), rest.strip_suffix("':")?.to_string()))
        })
        .collect()
}

fn g03(c: &mut Ctx) {
    c.rule("the report names exactly the entries outside their documented limits, with their severity; an untouched default configuration has no errors");
    let mut r = c.rng("g03");
    let base = {
        let mut b = Config::default();
        b.deployment.memory = 16;
        b.deployment.cpu = 4;
        b.cache.partition = 8;
        b
    };
    let d = entries(&check_text(&base));
    if !d.is_empty() {
        c.violation("check:default-config", json!({"reported": d}));
    }
    type Knob = (&'static str, &'static str, fn(&mut Config, bool, &mut StdRng));
    // entry, severity, setter(bad?): picks a value on or near the limit
    let knobs: Vec<Knob> = vec![
        ("global.name", "Warn", |c, bad, _| c.global.cluster_name = if bad { "" } else { "x" }.into()),
        ("deployment.mode", "Error", |c, bad, r| c.deployment.mode = if bad { *r.pick(&["", "Query", "tskv ", "query-tskv", "single"]) } else { *r.pick(&["query_tskv", "tskv", "query", "singleton"]) }.into()),
        ("deployment.cpu", "Warn", |c, bad, r| c.deployment.cpu = if bad { 0 } else { r.gen_range(1..9) }),
        ("deployment.memory", "Warn", |c, bad, r| c.deployment.memory = if bad { 0 } else { r.gen_range(1..9) }),
        ("meta.heartbeat", "Error", |c, bad, r| c.meta.report_time_interval = if bad { Duration::ZERO } else { Duration::from_nanos(r.gen_range(1..3)) }),
        ("query.max_server_connections", "Warn", |c, bad, r| c.query.max_server_connections = if bad { r.gen_range(0..16) } else { 16 + r.gen_range(0..2) }),
        ("query.query_sql_limit", "Warn", |c, bad, r| c.query.query_sql_limit = if bad { 63 - r.gen_range(0..2) } else { 64 + r.gen_range(0..2) }),
        ("query.write_sql_limit", "Warn", |c, bad, r| c.query.write_sql_limit = if bad { 63 - r.gen_range(0..2) } else { 64 + r.gen_range(0..2) }),
        ("query.read_timeout", "Warn", |c, bad, _| c.query.read_timeout = if bad { Duration::from_micros(9_999) } else { Duration::from_millis(10) }),
        ("query.write_timeout", "Warn", |c, bad, _| c.query.write_timeout = if bad { Duration::from_micros(9_999) } else { Duration::from_millis(10) }),
        ("query.stream_executor_cpu", "Warn", |c, bad, r| c.query.stream_executor_cpu = if bad { 1025 + r.gen_range(0..2) } else { 1024 - r.gen_range(0..2) }),
        ("query.stream_trigger_cpu", "Warn", |c, bad, r| c.query.stream_trigger_cpu = if bad { 1025 + r.gen_range(0..2) } else { 1024 - r.gen_range(0..2) }),
        ("query.sql_record_timeout", "Warn", |c, bad, _| c.query.sql_record_timeout = if bad { Duration::from_millis(999) } else { Duration::from_secs(1) }),
        ("storage.path", "Error", |c, bad, _| c.storage.path = if bad { "" } else { "/x" }.into()),
        ("storage.max_summary_size", "Warn", |c, bad, _| c.storage.max_summary_size = if bad { 1023 } else { 1024 }),
        ("storage.base_file_size", "Warn", |c, bad, _| c.storage.base_file_size = if bad { (1 << 20) - 1 } else { 1 << 20 }),
        ("storage.flush_req_channel_cap", "Warn", |c, bad, _| c.storage.flush_req_channel_cap = if bad { 15 } else { 16 }),
        ("storage.max_level", "Warn", |c, bad, r| c.storage.max_level = if bad { *r.pick(&[0, 3, 5]) } else { 4 }),
        ("storage.compact_trigger_cold_duration", "Warn", |c, bad, _| c.storage.compact_trigger_cold_duration = if bad { Duration::from_millis(999) } else { Duration::from_secs(1) }),
        ("storage.max_compact_size", "Warn", |c, bad, _| c.storage.max_compact_size = if bad { (1 << 20) - 1 } else { 1 << 20 }),
        ("storage.compress_tsm_meta_algo", "Error", |c, bad, r| c.storage.tsm_meta_compress = if bad { *r.pick(&["", "gzip", "Zstd", "none"]) } else { *r.pick(&["null", "zstd", "snappy"]) }.into()),
        ("wal.path", "Error", |c, bad, _| c.wal.path = if bad { "" } else { "/x" }.into()),
        ("wal.wal_req_channel_cap", "Warn", |c, bad, _| c.wal.wal_req_channel_cap = if bad { 15 } else { 16 }),
        ("wal.compress", "Error", |c, bad, r| c.wal.compress = if bad { *r.pick(&["", "lz4", "ZSTD"]) } else { *r.pick(&["zstd", "snappy", "gzip", "bzip", "zlib"]) }.into()),
        ("cache.max_buffer_size", "Warn", |c, bad, _| c.cache.max_buffer_size = if bad { (1 << 20) - 1 } else { 1 << 20 }),
        ("cache.partition", "Warn", |c, bad, _| c.cache.partition = if bad { 1025 } else { 1024 }),
        ("log.path", "Warn", |c, bad, _| c.log.path = if bad { "" } else { "/x" }.into()),
        ("security.tls.certificate", "Error", |c, bad, _| {
            let k = c.security.tls_config.as_ref().map(|t| t.private_key.clone()).unwrap_or("k".into());
            c.security.tls_config = Some(TLSConfig { certificate: if bad { "" } else { "c" }.into(), private_key: k });
        }),
        ("security.tls.private_key", "Error", |c, bad, _| {
            let k = c.security.tls_config.as_ref().map(|t| t.certificate.clone()).unwrap_or("c".into());
            c.security.tls_config = Some(TLSConfig { private_key: if bad { "" } else { "k" }.into(), certificate: k });
        }),
    ];
    // addresses that need no name service
    let addr_good = ["127.0.0.1:80", "10.0.0.1:65535", "[::1]:1"];
    let addr_bad = ["127.0.0.1", "127.0.0.1:x", "1.2.3.4:70000", ""];
    let mut seen_pairs = BTreeSet::new();
    for i in 0..c.n(3000, 20) {
        let mut cfg = base.clone();
        let mut want: BTreeSet<(String, String)> = BTreeSet::new();
        let n = if i < 2 * knobs.len() { 1 } else { r.gen_range(1..8) };
        for j in 0..n {
            let k = if i < 2 * knobs.len() { i / 2 } else { r.gen_range(0..knobs.len()) };
            let bad = if i < 2 * knobs.len() { i % 2 == 0 } else { r.gen() };
            let (entry, sev, f) = &knobs[k];
            let key = (sev.to_string(), entry.to_string());
            // set twice: the last one counts
            f(&mut cfg, bad, &mut r);
            if bad {
                want.insert(key);
            } else {
                want.remove(&key);
            }
            seen_pairs.insert((k, bad));
            let _ = j;
        }
        if r.chance(0.2) {
            let bad: bool = r.gen();
            let a = if bad { *r.pick(&addr_bad) } else { *r.pick(&addr_good) };
            cfg.meta.service_addr = vec!["127.0.0.1:8901".into(), a.into()];
            if bad {
                want.insert(("Error".into(), format!("meta.{a}")));
                c.count("bad_addresses", 1);
            }
        }
        // where the services listen: addresses that need no name service to resolve, or to fail
        if r.chance(0.3) {
            let bad: bool = r.gen();
            let h = if bad { *r.pick(&["", "a b", "..", "%"]) } else { *r.pick(&["127.0.0.1", "10.1.2.3", "[::1]"]) };
            cfg.global.host = h.into();
            cfg.service.http_listen_port = opt(&mut r, |r| r.gen());
            cfg.service.grpc_listen_port = opt(&mut r, |r| r.gen());
            cfg.service.flight_rpc_listen_port = opt(&mut r, |r| r.gen());
            cfg.service.tcp_listen_port = opt(&mut r, |r| r.gen());
            normalize(&mut cfg);
            let s = &cfg.service;
            for p in [s.http_listen_port, s.grpc_listen_port, s.flight_rpc_listen_port, s.tcp_listen_port].into_iter().flatten() {
                if bad {
                    want.insert(("Error".into(), format!("service.{h}:{p}")));
                    c.count("bad_hosts", 1);
                }
            }
        }
        let t = match c.guard("check", || json!({"cfg": cfg.to_string_pretty()}), || check_text(&cfg)) {
            Some(t) => t,
            None => continue,
        };
        let got = entries(&t);
        c.case(Some(&want));
        c.count("reports", 1);
        c.count("entries_expected", want.len() as u64);
        if got != want {
            c.violation("check:report", json!({"missing": want.difference(&got).collect::<Vec<_>>(), "unexpected": got.difference(&want).collect::<Vec<_>>()}));
        }
        let says_clean = t.contains("There are no");
        if says_clean != !want.iter().any(|x| x.0 == "Error") {
            c.violation("check:verdict", json!({"report": t}));
        }
    }
    c.count("limits_tried_both_sides", seen_pairs.len() as u64);
    c.need("limits_tried_both_sides", 2 * knobs.len() as u64);
    c.need("bad_addresses", 50);
    c.need("bad_hosts", 50);
}

fn main() {
    mon::main(&[("G01", g01), ("G02", g02), ("G03", g03)]);
}
