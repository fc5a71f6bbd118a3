//! S01 requests, S02 results, S03 files and whole runs.
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener};
use std::path::PathBuf;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use arrow::array::*;
use arrow::datatypes::{DataType, Field, Schema, TimeUnit};
use arrow::record_batch::RecordBatch;
use arrow_flight::flight_service_server::{FlightService, FlightServiceServer};
use arrow_flight::sql::{ActionCreatePreparedStatementRequest, ActionCreatePreparedStatementResult, Any, CommandPreparedStatementQuery, ProstMessageExt};
use arrow_flight::utils::batches_to_flight_data;
use arrow_flight::{Action, ActionType, Criteria, Empty, FlightData, FlightDescriptor, FlightEndpoint, FlightInfo, HandshakeRequest, HandshakeResponse, IpcMessage, PutResult, SchemaAsIpc, SchemaResult, Ticket};
use futures::{stream, Stream, StreamExt};
use mon::rand::rngs::StdRng;
use mon::rand::Rng;
use mon::{json, Ctx, GenExt};
use prost::Message;
use sqllogictest::{AsyncDB, DBOutput};
use tonic::{Request, Response, Status, Streaming};

use crate::db_request::*;
use crate::instance::{CnosdbClient, CnosdbColumnType, CnosdbTestEngine, CreateDatabaseOptions};
use crate::{CliOptions, CnosdbDeployMode, Options};

// ---- a node that records what it is asked and answers what it is told ------------------

#[derive(Clone, Debug, Default, PartialEq)]
struct Asked {
    path: String,
    query: BTreeMap<String, String>,
    headers: BTreeMap<String, String>,
    body: String,
}

#[derive(Default)]
struct Node {
    asked: Vec<Asked>,
    http: VecDeque<(u16, String)>,
    flight: VecDeque<Result<(Schema, Vec<RecordBatch>), String>>,
    open: HashMap<String, (Schema, Vec<RecordBatch>)>,
    n: u64,
}
type Shared = Arc<Mutex<Node>>;

fn unpct(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'+' => o.push(b' '),
            b'%' if i + 2 < b.len() + 0 => {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(b'?'));
                i += 2;
            }
            x => o.push(x),
        }
        i += 1;
    }
    String::from_utf8_lossy(&o).to_string()
}

fn http_node(st: Shared) -> SocketAddr {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let a = l.local_addr().unwrap();
    std::thread::spawn(move || {
        for s in l.incoming() {
            let Ok(mut s) = s else { continue };
            let st = st.clone();
            std::thread::spawn(move || {
                let mut buf = vec![];
                let mut tmp = [0u8; 4096];
                let (mut head, mut need) = (0, usize::MAX);
                while buf.len() < need {
                    let Ok(n) = s.read(&mut tmp) else { return };
                    if n == 0 {
                        return;
                    }
                    buf.extend_from_slice(&tmp[..n]);
                    if head == 0 {
                        if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                            head = p + 4;
                            let h = String::from_utf8_lossy(&buf[..p]).to_lowercase();
                            let len = h.lines().find_map(|l| l.strip_prefix("content-length:").map(|v| v.trim().parse().unwrap_or(0))).unwrap_or(0usize);
                            need = head + len;
                        }
                    }
                }
                let h = String::from_utf8_lossy(&buf[..head]).to_string();
                let mut lines = h.lines();
                let first = lines.next().unwrap_or("").to_string();
                let target = first.split(' ').nth(1).unwrap_or("").to_string();
                let (p, q) = target.split_once('?').unwrap_or((&target, ""));
                let mut a = Asked { path: format!("{} {}", first.split(' ').next().unwrap_or(""), p), body: String::from_utf8_lossy(&buf[head..]).to_string(), ..Default::default() };
                for kv in q.split('&') {
                    if let Some((k, v)) = kv.split_once('=') {
                        a.query.insert(unpct(k), unpct(v));
                    }
                }
                for l in lines {
                    if let Some((k, v)) = l.split_once(':') {
                        a.headers.insert(k.to_lowercase(), v.trim().to_string());
                    }
                }
                let (code, body) = {
                    let mut g = st.lock().unwrap();
                    g.asked.push(a);
                    g.http.pop_front().unwrap_or((200, String::new()))
                };
                let _ = s.write_all(format!("HTTP/1.1 {code} X\r\ncontent-length: {}\r\nconnection: close\r\n\r\n{body}", body.len()).as_bytes());
            });
        }
    });
    a
}

#[derive(Clone)]
struct Fl(Shared);
type Bs<T> = Pin<Box<dyn Stream<Item = Result<T, Status>> + Send>>;

fn heads(m: &tonic::metadata::MetadataMap) -> BTreeMap<String, String> {
    ["tenant", "db", "target_partitions", "authorization"].iter().filter_map(|k| m.get(*k).and_then(|v| v.to_str().ok()).map(|v| (k.to_string(), v.to_string()))).collect()
}

#[tonic::async_trait]
impl FlightService for Fl {
    type HandshakeStream = Bs<HandshakeResponse>;
    async fn handshake(&self, r: Request<Streaming<HandshakeRequest>>) -> Result<Response<Self::HandshakeStream>, Status> {
        self.0.lock().unwrap().asked.push(Asked { path: "handshake".into(), headers: heads(r.metadata()), ..Default::default() });
        let mut x = Response::new(stream::iter(vec![Ok(HandshakeResponse::default())]).boxed() as Self::HandshakeStream);
        x.metadata_mut().insert("authorization", "Bearer tok".parse().unwrap());
        Ok(x)
    }
    type ListFlightsStream = Bs<FlightInfo>;
    async fn list_flights(&self, _: Request<Criteria>) -> Result<Response<Self::ListFlightsStream>, Status> {
        Err(Status::unimplemented(""))
    }
    async fn get_flight_info(&self, r: Request<FlightDescriptor>) -> Result<Response<FlightInfo>, Status> {
        let d = r.into_inner();
        let any = Any::decode(&*d.cmd).map_err(|e| Status::internal(e.to_string()))?;
        let q: CommandPreparedStatementQuery = any.unpack().map_err(|e| Status::internal(e.to_string()))?.ok_or(Status::internal("kind"))?;
        let h = String::from_utf8_lossy(&q.prepared_statement_handle).to_string();
        let g = self.0.lock().unwrap();
        let (schema, _) = g.open.get(&h).ok_or(Status::not_found("handle"))?;
        let mut fi = FlightInfo::new().try_with_schema(schema).map_err(|e| Status::internal(e.to_string()))?;
        fi.endpoint.push(FlightEndpoint { ticket: Some(Ticket { ticket: h.into_bytes().into() }), location: vec![] });
        Ok(Response::new(fi))
    }
    async fn get_schema(&self, _: Request<FlightDescriptor>) -> Result<Response<SchemaResult>, Status> {
        Err(Status::unimplemented(""))
    }
    type DoGetStream = Bs<FlightData>;
    async fn do_get(&self, r: Request<Ticket>) -> Result<Response<Self::DoGetStream>, Status> {
        let h = String::from_utf8_lossy(&r.into_inner().ticket).to_string();
        let (s, b) = self.0.lock().unwrap().open.remove(&h).ok_or(Status::not_found("ticket"))?;
        let d = batches_to_flight_data(s, b).map_err(|e| Status::internal(e.to_string()))?;
        Ok(Response::new(stream::iter(d.into_iter().map(Ok)).boxed()))
    }
    type DoPutStream = Bs<PutResult>;
    async fn do_put(&self, _: Request<Streaming<FlightData>>) -> Result<Response<Self::DoPutStream>, Status> {
        Err(Status::unimplemented(""))
    }
    type DoExchangeStream = Bs<FlightData>;
    async fn do_exchange(&self, _: Request<Streaming<FlightData>>) -> Result<Response<Self::DoExchangeStream>, Status> {
        Err(Status::unimplemented(""))
    }
    type DoActionStream = Bs<arrow_flight::Result>;
    async fn do_action(&self, r: Request<Action>) -> Result<Response<Self::DoActionStream>, Status> {
        let headers = heads(r.metadata());
        let a = r.into_inner();
        if a.r#type != "CreatePreparedStatement" {
            return Ok(Response::new(stream::iter(vec![]).boxed()));
        }
        let any = Any::decode(&*a.body).map_err(|e| Status::internal(e.to_string()))?;
        let q: ActionCreatePreparedStatementRequest = any.unpack().map_err(|e| Status::internal(e.to_string()))?.ok_or(Status::internal("kind"))?;
        let mut g = self.0.lock().unwrap();
        g.asked.push(Asked { path: "prepare".into(), headers, body: q.query, ..Default::default() });
        let ans = g.flight.pop_front().unwrap_or(Ok((Schema::empty(), vec![])));
        let (schema, batches) = ans.map_err(Status::invalid_argument)?;
        g.n += 1;
        let h = format!("h{}", g.n);
        g.open.insert(h.clone(), (schema, batches));
        let res = ActionCreatePreparedStatementResult { prepared_statement_handle: h.into_bytes().into(), dataset_schema: Default::default(), parameter_schema: Default::default() };
        let out = arrow_flight::Result { body: res.as_any().encode_to_vec().into() };
        Ok(Response::new(stream::iter(vec![Ok(out)]).boxed()))
    }
    type ListActionsStream = Bs<ActionType>;
    async fn list_actions(&self, _: Request<Empty>) -> Result<Response<Self::ListActionsStream>, Status> {
        Err(Status::unimplemented(""))
    }
}

async fn flight_node(st: Shared) -> SocketAddr {
    for _ in 0..50 {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let a = l.local_addr().unwrap();
        drop(l);
        let h = tokio::spawn(tonic::transport::Server::builder().add_service(FlightServiceServer::new(Fl(st.clone()))).serve(a));
        for _ in 0..200 {
            tokio::time::sleep(Duration::from_millis(5)).await;
            if h.is_finished() {
                break;
            }
            if tokio::net::TcpStream::connect(a).await.is_ok() {
                return a;
            }
        }
    }
    panic!("harness: no flight node")
}

fn options(flight: SocketAddr, http: SocketAddr, filters: Vec<String>) -> Options {
    let cli = CliOptions { filters, create_database_with_shard: 3, create_database_with_replica: 2, complete_cases: false, cnosdb_deploy_mode: CnosdbDeployMode::Singleton };
    let mut o = Options::from_cli_options(cli);
    o.flight_host = "127.0.0.1".into();
    o.http_host = "127.0.0.1".into();
    o.flight_port = flight.port();
    o.http_port = http.port();
    o.work_directory = PathBuf::from("/work/dir");
    o
}

// ---- S01 -----------------------------------------------------------------------------

#[derive(Clone, Debug)]
struct Conn {
    db: String,
    tenant: String,
    user: String,
    precision: Option<String>,
}

fn word(r: &mut StdRng) -> String {
    let n = r.gen_range(1..8);
    (0..n).map(|i| if i == 0 { *r.pick(&['a', 'b', 'Z', '_']) } else { *r.pick(&['a', 'q', '0', '7', '_', 'X']) }).collect()
}

fn instr(r: &mut StdRng, name: &str, v: &str) -> String {
    let sp = |r: &mut StdRng| " ".repeat(r.gen_range(0..3));
    let name = if r.chance(0.3) { name.to_lowercase() } else { name.to_string() };
    let (a, b, c, d) = (sp(r), sp(r), sp(r), sp(r));
    let tail = if r.chance(0.2) && !d.is_empty() { " -- why" } else { "" };
    format!("--{a}#{name}{b}={c}{v}{d}{tail}")
}

fn basic(user: &str) -> String {
    format!("Basic {}", { use base64::Engine; base64::engine::general_purpose::STANDARD.encode(format!("{user}:")) })
}

fn model_rewrite(sql: &str) -> Option<String> {
    // only the plain forms a case file uses; None: no claim
    let low = sql.to_ascii_lowercase();
    if !sql.contains("create database ") {
        return Some(sql.to_string());
    }
    let (shard, replica) = (low.contains(" shard "), low.contains(" replica "));
    let mut add = String::new();
    if !shard {
        add += "shard 3 ";
    }
    if !replica {
        add += "replica 2 ";
    }
    if let Some(i) = low.find(" with ") {
        return Some(format!("{} with {}{}", &sql[..i], add, &sql[i + 6..]).replacen(" with ", &sql[i..i + 6], 1));
    }
    if shard || replica {
        return None;
    }
    let body = sql.trim_end_matches(';');
    Some(format!("{body} with {}{}", add.trim_end(), &sql[body.len()..]))
}

fn s01(c: &mut Ctx) {
    c.rule("each request of a case reaches the endpoint its directives name, exactly once, with the script's text unchanged and the database, tenant, user and precision last set; create-database statements gain the missing shard and replica options and nothing else changes; a server error is an error");
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    rt.block_on(async {
        let st: Shared = Default::default();
        let st2: Shared = Default::default();
        let (h1, h2) = (http_node(st.clone()), http_node(st2.clone()));
        let (f1, f2) = (flight_node(st.clone()).await, flight_node(st2.clone()).await);
        let mut r = c.rng("s01");
        for _ in 0..c.n(150, 12) {
            let opts = options(f1, h1, vec![]);
            let client = CnosdbClient::new(&opts);
            let mut eng = CnosdbTestEngine::new("e", PathBuf::from("x.slt"), client).unwrap();
            let mut conn = Conn { db: "public".into(), tenant: "cnosdb".into(), user: "root".into(), precision: None };
            let (mut at_http, mut at_flight) = (0, 0);
            for _ in 0..r.gen_range(1..8) {
                let mut lines: Vec<String> = vec![];
                let mut http = false;
                for _ in 0..r.gen_range(0..4) {
                    match r.gen_range(0..9) {
                        0 | 1 => {
                            conn.db = word(&mut r);
                            lines.push(instr(&mut r, "DATABASE", &conn.db));
                        }
                        2 => {
                            conn.tenant = format!("{}{}", word(&mut r), r.pick(&["", "-x", ".y", "@&=", "%20"]));
                            lines.push(instr(&mut r, "TENANT", &conn.tenant));
                        }
                        3 => {
                            conn.user = word(&mut r);
                            lines.push(instr(&mut r, "USER_NAME", &conn.user));
                        }
                        4 => {
                            conn.precision = Some(r.pick(&["NS", "US", "MS"]).to_string());
                            lines.push(instr(&mut r, "PRECISION", conn.precision.as_ref().unwrap()));
                        }
                        5 => lines.push(instr(&mut r, "TIMEOUT", "10ms")),
                        6 => {
                            at_http = r.gen_range(0..2);
                            let p = [h1, h2][at_http].port().to_string();
                            lines.push(instr(&mut r, "HTTP_PORT", &p));
                            if r.chance(0.3) {
                                lines.push(instr(&mut r, "HTTP_HOST", "localhost"));
                            }
                        }
                        7 => {
                            at_flight = r.gen_range(0..2);
                            let p = [f1, f2][at_flight].port().to_string();
                            lines.push(instr(&mut r, "FLIGHT_PORT", &p));
                        }
                        _ => {
                            http = true;
                            lines.push(r.pick(&["--#HTTP", "-- #HTTP", "--#http"]).to_string());
                        }
                    }
                    if r.chance(0.2) {
                        lines.push(r.pick(&["", "   ", "\t"]).to_string());
                    }
                }
                let kind = r.gen_range(0..7);
                let body: Vec<String> = (0..r.gen_range(1..4)).map(|i| format!("m{i},t=\u{e9}{} v={} {}", r.gen_range(0..9), r.gen::<u16>(), r.gen::<u32>())).collect();
                let fails = r.chance(0.2);
                let (path, want_body): (&str, String) = match kind {
                    0 | 1 | 2 => {
                        let (name, p) = [("LP", "POST /api/v1/write"), ("OPENTSDB", "POST /api/v1/opentsdb/write"), ("OPENTSDB_JSON", "POST /api/v1/opentsdb/put")][kind];
                        lines.push(format!("--#{name}_BEGIN"));
                        lines.extend(body.iter().cloned());
                        lines.push(format!("--#{name}_END"));
                        (p, body.join("\n"))
                    }
                    3 => ("", String::new()),
                    k => {
                        let sql: Vec<String> = if k == 4 {
                            let pre = format!("create database {}{}", r.pick(&["", "if not exists "]), word(&mut r));
                            let mut o = vec![];
                            for x in ["ttl '1d'", "shard 8", "replica 5", "precision 'us'"] {
                                if r.chance(0.4) {
                                    o.push(x);
                                }
                            }
                            let w = if o.is_empty() { String::new() } else { format!(" {} {}", r.pick(&["with", "WITH"]), o.join(" ")) };
                            vec![format!("{pre}{w}{}", r.pick(&["", ";", ";;"]))]
                        } else {
                            let mut v: Vec<String> = (0..r.gen_range(1..4)).map(|_| format!("select '{}' -- {}", r.pick(&["a b", "\u{4e2d}", "with shard", "%"]), r.gen::<u16>())).collect();
                            if r.chance(0.3) {
                                v.push("copy into t from '$pwd/a'".into());
                            }
                            v
                        };
                        lines.extend(sql.iter().cloned());
                        (if http { "POST /api/v1/sql" } else { "prepare" }, sql.join("\n"))
                    }
                };
                let (hn, fnode) = (&[&st, &st2][at_http], &[&st, &st2][at_flight]);
                let err_text = format!("boom{}", r.gen::<u16>());
                for s in [&st, &st2] {
                    let mut g = s.lock().unwrap();
                    g.asked.clear();
                    g.http.clear();
                    g.flight.clear();
                    g.http.push_back(if fails { (422, err_text.clone()) } else { (200, "a,b\n1,\n".into()) });
                    g.flight.push_back(if fails {
                        Err(err_text.clone())
                    } else {
                        let schema = Schema::new(vec![Field::new("a", DataType::Int64, true)]);
                        Ok((schema.clone(), vec![RecordBatch::try_new(Arc::new(schema), vec![Arc::new(Int64Array::from(vec![Some(4), None]))]).unwrap()]))
                    });
                }
                let text = lines.join("\n");
                c.case(Some(&text));
                let got = eng.run(&text).await;
                let want_body_sent = if path == "prepare" {
                    match model_rewrite(&want_body) {
                        Some(b) => b.replace("$pwd", "/work/dir"),
                        None => continue,
                    }
                } else {
                    want_body.clone()
                };
                c.count(match kind { 0 => "line protocol", 1 => "opentsdb", 2 => "opentsdb json", 3 => "nothing to send", _ if http => "sql over http", 4 => "create database", _ => "sql over flight" }, 1);
                let a1 = st.lock().unwrap().asked.clone();
                let a2 = st2.lock().unwrap().asked.clone();
                let node = if path == "prepare" { at_flight } else { at_http };
                let (here, there) = if node == 0 { (a1, a2) } else { (a2, a1) };
                let _ = (hn, fnode);
                if !there.is_empty() {
                    c.violation("request:went to another node", json!({"script": text, "asked": format!("{there:?}")}));
                    continue;
                }
                if kind == 3 {
                    if !here.is_empty() || !matches!(got, Ok(DBOutput::StatementComplete(_))) {
                        c.violation("request:sent though the script has none", json!({"script": text, "asked": format!("{here:?}")}));
                    }
                    continue;
                }
                let main: Vec<&Asked> = here.iter().filter(|a| a.path != "handshake").collect();
                if main.len() != 1 {
                    c.violation("request:not sent exactly once", json!({"script": text, "asked": format!("{here:?}"), "result": format!("{:?}", got.as_ref().err().map(|e| e.to_string()))}));
                    continue;
                }
                let m = main[0];
                if m.path != path || m.body != want_body_sent {
                    c.violation("request:endpoint or text", json!({"script": text, "want": [path, want_body_sent], "got": [m.path, m.body]}));
                }
                if path == "prepare" {
                    let hs = here.iter().find(|a| a.path == "handshake");
                    if hs.map(|h| h.headers.get("authorization").cloned()) != Some(Some(basic(&conn.user))) || m.headers.get("tenant") != Some(&conn.tenant) || m.headers.get("db") != Some(&conn.db) || m.headers.get("target_partitions").map(|s| s.as_str()) != Some("8") {
                        c.violation("request:connection settings (flight)", json!({"script": text, "conn": format!("{conn:?}"), "got": format!("{here:?}")}));
                    }
                } else {
                    let mut q: BTreeMap<String, String> = [("db".to_string(), conn.db.clone()), ("tenant".to_string(), conn.tenant.clone())].into();
                    if kind < 3 {
                        q.insert("precision".into(), conn.precision.clone().unwrap_or("NS".into()));
                    }
                    if m.query != q || m.headers.get("authorization") != Some(&basic(&conn.user)) {
                        c.violation("request:connection settings (http)", json!({"script": text, "conn": format!("{conn:?}"), "got": format!("{m:?}")}));
                    }
                }
                match (fails, got) {
                    (true, Err(e)) if e.to_string().contains(&err_text) => c.count("server errors", 1),
                    (false, Ok(DBOutput::Rows { types, rows })) if path == "prepare" && types == vec![CnosdbColumnType::Integer] && rows == vec![vec!["4".to_string()], vec!["NULL".to_string()]] => {}
                    (false, Ok(DBOutput::Rows { types, rows })) if path.ends_with("/sql") && types == vec![CnosdbColumnType::Text; 2] && rows == vec![vec!["\"a\"".to_string(), "\"b\"".to_string()], vec!["\"1\"".to_string(), "\"\"".to_string()]] => {}
                    (false, Ok(DBOutput::StatementComplete(_))) if kind < 3 => {}
                    (f, x) => c.violation("request:outcome", json!({"script": text, "server_failed": f, "got": match x {
                        Ok(DBOutput::Rows { types, rows }) => format!("{types:?} {rows:?}"),
                        Ok(DBOutput::StatementComplete(n)) => format!("complete {n}"),
                        Ok(_) => "other".to_string(),
                        Err(e) => e.to_string(),
                    }})),
                }
            }
        }
        // blocks that do not end, or end too early, are refused and nothing is sent
        for name in ["LP", "OPENTSDB", "OPENTSDB_JSON"] {
            for tail in ["", "\n--#OTHER_END", &format!("\n--#{name}_END\nmore")] {
                let mut cl = CnosdbClient::new(&options(f1, h1, vec![]));
                let t = format!("--#{name}_BEGIN\na{tail}");
                c.case(Some(&t));
                c.count("bad blocks", 1);
                if CnosdbRequest::parse_db_request(&t, &mut cl).is_ok() {
                    c.violation("request:bad block accepted", json!({"script": t}));
                }
            }
        }
    });
    for (k, n) in [("line protocol", 15), ("opentsdb", 15), ("opentsdb json", 15), ("sql over http", 20), ("sql over flight", 20), ("create database", 10), ("server errors", 15), ("nothing to send", 10)] {
        c.need(k, n);
    }
}

// ---- S02 -----------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum V {
    N,
    I(i64),
    U(u64),
    F(f64),
    B(bool),
    S(String),
    L(String),
    T(i64),
}

fn show(v: &V) -> String {
    match v {
        V::N => "NULL".into(),
        V::I(x) => x.to_string(),
        V::U(x) => x.to_string(),
        V::F(x) => format!("{x:?}"),
        V::B(x) => x.to_string(),
        V::S(s) => format!("\"{}\"", s.replace('"', "\\\"")),
        V::L(s) => s.clone(),
        V::T(d) => format!("1970-01-{:02}T00:00:00", d + 1),
    }
}

fn s02(c: &mut Ctx) {
    c.rule("a result turns into one row per record in order, each cell the record's value (strings quoted, their quotes escaped, nulls marked); a multi-line last cell turns into its lines; the column kinds are the schema's; batches of another schema are refused");
    let mut r = c.rng("s02");
    for _ in 0..c.n(1500, 40) {
        let ncol = r.gen_range(1..6);
        let kinds: Vec<u8> = (0..ncol).map(|_| r.gen_range(0..8)).collect();
        let fields: Vec<Field> = kinds
            .iter()
            .enumerate()
            .map(|(i, k)| Field::new(format!("c{i}"), [DataType::Int64, DataType::UInt64, DataType::Float64, DataType::Boolean, DataType::Utf8, DataType::Timestamp(TimeUnit::Nanosecond, None), DataType::LargeUtf8, DataType::Int16][*k as usize].clone(), true))
            .collect();
        let schema = Arc::new(Schema::new(fields));
        let types = crate::utils::normalize::convert_schema_to_types(schema.fields());
        let want_types: Vec<CnosdbColumnType> = kinds.iter().map(|k| [CnosdbColumnType::Integer, CnosdbColumnType::Integer, CnosdbColumnType::Float, CnosdbColumnType::Boolean, CnosdbColumnType::Text, CnosdbColumnType::Timestamp, CnosdbColumnType::Text, CnosdbColumnType::Integer][*k as usize].clone()).collect();
        if types != want_types {
            c.violation("result:column kinds", json!({"want": format!("{want_types:?}"), "got": format!("{types:?}")}));
        }
        let mut want: Vec<Vec<String>> = vec![];
        let mut batches = vec![];
        let mut multi = false;
        for _ in 0..r.gen_range(0..4) {
            let n = r.gen_range(0..6);
            let rows: Vec<Vec<V>> = (0..n)
                .map(|_| {
                    kinds
                        .iter()
                        .map(|k| {
                            if *k != 4 && r.chance(0.2) {
                                return V::N;
                            }
                            match k {
                                0 => V::I(r.edgy_i64()),
                                1 => V::U(r.edgy_u64()),
                                2 => V::F(r.gen_range(-1000..1000) as f64 / 8.0),
                                3 => V::B(r.gen()),
                                4 => V::S(match r.gen_range(0..5) {
                                    4 => "a  \n b \t\nc ".into(),
                                    0 => "a\n  b\n\tc".into(),
                                    1 => "x\n\n".into(),
                                    2 => r.edgy_string(8).replace('\r', " "),
                                    _ => "a \"q\" \\".into(),
                                }),
                                5 => V::T(r.gen_range(0..28)),
                                6 => V::L(match r.gen_range(0..6) {
                                    5 => "\ta  \n  b \t\n  \nc ".into(),
                                    0 => "a\n  b\n\tc".into(),
                                    1 => "x\n\n".into(),
                                    2 => "x y\n".into(),
                                    3 => "\n".into(),
                                    _ => r.edgy_string(8).replace('\r', " "),
                                }),
                                _ => V::I(r.gen::<i16>() as i64),
                            }
                        })
                        .collect()
                })
                .collect();
            let cols: Vec<ArrayRef> = (0..ncol)
                .map(|j| {
                    let it = rows.iter().map(|x| x[j].clone());
                    match kinds[j] {
                        0 => Arc::new(it.map(|v| if let V::I(x) = v { Some(x) } else { None }).collect::<Int64Array>()) as ArrayRef,
                        1 => Arc::new(it.map(|v| if let V::U(x) = v { Some(x) } else { None }).collect::<UInt64Array>()),
                        2 => Arc::new(it.map(|v| if let V::F(x) = v { Some(x) } else { None }).collect::<Float64Array>()),
                        3 => Arc::new(it.map(|v| if let V::B(x) = v { Some(x) } else { None }).collect::<BooleanArray>()),
                        4 => Arc::new(it.map(|v| if let V::S(x) = v { Some(x) } else { None }).collect::<StringArray>()),
                        5 => Arc::new(it.map(|v| if let V::T(x) = v { Some(x * 86_400_000_000_000) } else { None }).collect::<TimestampNanosecondArray>()),
                        6 => Arc::new(it.map(|v| if let V::L(x) = v { Some(x) } else { None }).collect::<LargeStringArray>()),
                        _ => Arc::new(it.map(|v| if let V::I(x) = v { Some(x as i16) } else { None }).collect::<Int16Array>()),
                    }
                })
                .collect();
            batches.push(RecordBatch::try_new(schema.clone(), cols).unwrap());
            for row in &rows {
                let mut cells: Vec<String> = row.iter().map(show).collect();
                let last = cells.pop().unwrap();
                let ls: Vec<&str> = last.split('\n').filter(|l| !l.is_empty()).collect();
                if ls.len() < 2 {
                    cells.push(last);
                    want.push(cells);
                } else {
                    multi = true;
                    want.push(cells);
                    for l in ls {
                        let t = l.trim_start();
                        want.push(vec![format!("{}{}", "-".repeat(l.len() - t.len()), t)]);
                    }
                }
            }
        }
        c.case(Some(&(kinds.clone(), want.len(), multi)));
        c.count("rows", want.len() as u64);
        c.count("multi-line results", multi as u64);
        match crate::utils::normalize::convert_batches(batches.clone()) {
            Ok(got) if got == want => {}
            x => c.violation("result:rows", json!({"kinds": kinds, "want": want.iter().take(6).collect::<Vec<_>>(), "got": format!("{:?}", x.map(|v| v.into_iter().take(6).collect::<Vec<_>>()))})),
        }
        // a batch of another schema
        if let Some(b) = batches.first() {
            let other = |t: &DataType| if *t == DataType::Int64 { DataType::UInt64 } else { DataType::Int64 };
            let last = schema.fields().len() - 1;
            let f = match r.gen_range(0..5) {
                0 => vec![Field::new("zz", DataType::Int64, true)],
                // the same names, one of another type
                2 => schema.fields().iter().enumerate().map(|(i, f)| if i == last { Field::new(f.name(), other(f.data_type()), true) } else { f.as_ref().clone() }).collect(),
                // one column fewer
                3 if last > 0 => schema.fields().iter().take(last).map(|f| f.as_ref().clone()).collect(),
                1 => schema.fields().iter().enumerate().map(|(i, f)| if i == 0 { f.as_ref().clone().with_name("other") } else { f.as_ref().clone() }).collect(),
                _ => schema.fields().iter().map(|f| f.as_ref().clone()).chain([Field::new("more", DataType::Boolean, true)]).collect(),
            };
            let o = RecordBatch::new_empty(Arc::new(Schema::new(f)));
            c.count("mixed schemas", 1);
            if crate::utils::normalize::convert_batches(vec![b.clone(), o]).is_ok() {
                c.violation("result:batches of two schemas accepted", json!({}));
            }
            // and one of the same
            let same = RecordBatch::new_empty(schema.clone());
            if crate::utils::normalize::convert_batches(vec![b.clone(), same]).is_err() {
                c.violation("result:batch of the same schema refused", json!({}));
            }
        }
    }
    // lists of different things are different types
    let list = |n: &str, t| Schema::new(vec![Field::new("l", DataType::List(Arc::new(Field::new(n, t, true))), true)]);
    for (a, b, ok) in [(("item", DataType::Int64), ("item", DataType::Int64), true), (("item", DataType::Int64), ("item", DataType::Utf8), false), (("item", DataType::Int64), ("other", DataType::Int64), false)] {
        let bs = vec![RecordBatch::new_empty(Arc::new(list(a.0, a.1.clone()))), RecordBatch::new_empty(Arc::new(list(b.0, b.1.clone())))];
        if crate::utils::normalize::convert_batches(bs).is_ok() != ok {
            c.violation("result:batches of two schemas", json!({"a": format!("{a:?}"), "b": format!("{b:?}"), "same": ok}));
        }
    }
    for t in [CnosdbColumnType::Boolean, CnosdbColumnType::Integer, CnosdbColumnType::Float, CnosdbColumnType::Text, CnosdbColumnType::Timestamp] {
        use sqllogictest::ColumnType;
        if CnosdbColumnType::from_char(t.to_char()) != Some(t.clone()) {
            c.violation("result:column letter", json!({"type": format!("{t:?}")}));
        }
    }
    c.need("rows", 2000);
    c.need("multi-line results", 100);
    c.need("mixed schemas", 500);
}

// ---- S03 -----------------------------------------------------------------------------

fn s03(c: &mut Ctx) {
    c.rule("every file under the directory is visited once, files before directories, in name order, and kept exactly when a filter matches its relative path; a case file passes exactly when the results are the recorded ones; completing a file records results it then passes with");
    let dir = PathBuf::from(std::env::var("VERIF_WORK").unwrap_or("/tmp/slt".into())).join("cases");
    let mut r = c.rng("s03");
    for _ in 0..c.n(60, 20) {
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        let mut files = vec![];
        fn fill(r: &mut StdRng, d: &PathBuf, depth: u32, files: &mut Vec<PathBuf>) {
            let mut names: Vec<String> = (0..r.gen_range(0..6)).map(|_| format!("{}{}", word(r), r.pick(&["", ".slt", ".txt", ".a.slt"]))).collect();
            names.sort();
            names.dedup();
            for n in names {
                let p = d.join(&n);
                if depth < 3 && r.chance(0.35) {
                    std::fs::create_dir_all(&p).unwrap();
                    fill(r, &p, depth + 1, files);
                } else {
                    std::fs::write(&p, "").unwrap();
                    files.push(p);
                }
            }
        }
        fill(&mut r, &dir, 0, &mut files);
        fn order(d: &PathBuf, out: &mut Vec<PathBuf>) {
            let mut es: Vec<PathBuf> = std::fs::read_dir(d).unwrap().flatten().map(|e| e.path()).collect();
            es.sort();
            let (ds, fs): (Vec<_>, Vec<_>) = es.into_iter().partition(|p| p.is_dir());
            out.extend(fs);
            for d in ds {
                order(&d, out);
            }
        }
        let mut want_all = vec![];
        order(&dir, &mut want_all);
        assert_eq!(want_all.len(), files.len());
        let filters: Vec<String> = (0..r.gen_range(0..3))
            .map(|_| match r.gen_range(0..5) {
                0 => "(".into(),
                1 => format!("^{}", word(&mut r)),
                2 => r.pick(&[".*slt$", "a", "_", "\\.txt$", "*", "[", "Z/"]).to_string(),
                _ => files.get(r.gen_range(0..files.len().max(1))).map(|p| p.file_name().unwrap().to_string_lossy().to_string()).unwrap_or("x".into()),
            })
            .collect();
        let opts = options("127.0.0.1:1".parse().unwrap(), "127.0.0.1:1".parse().unwrap(), filters.clone());
        let want: Vec<(PathBuf, PathBuf)> = want_all
            .iter()
            .map(|p| (p.clone(), p.strip_prefix(&dir).unwrap().to_path_buf()))
            .filter(|(_, rel)| {
                let s = rel.to_string_lossy();
                filters.is_empty()
                    || filters.iter().any(|f| match regex::Regex::new(f) {
                        Ok(x) => x.is_match(&s),
                        Err(_) => s.contains(f.as_str()),
                    })
            })
            .collect();
        let got: Vec<_> = crate::test_files(&dir, &opts).collect();
        c.case(Some(&(want_all.len(), want.len(), &filters)));
        c.count("files", want_all.len() as u64);
        c.count("files filtered out", (want_all.len() - want.len()) as u64);
        if got != want {
            c.violation("files:visited", json!({"filters": filters, "want": format!("{want:?}"), "got": format!("{got:?}")}));
        }
    }
    // whole runs against the recording node
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let st: Shared = Default::default();
    let (f, h) = rt.block_on(async { (flight_node(st.clone()).await, http_node(st.clone())) });
    for _ in 0..c.n(40, 20) {
        let mut text = String::new();
        let mut ans: Vec<(bool, Vec<Vec<String>>, bool)> = vec![];
        let mut first_db = String::new();
        let nrec = r.gen_range(1..6);
        let spoil = if r.chance(0.5) { Some(r.gen_range(0..nrec)) } else { None };
        for i in 0..nrec {
            let http = r.gen::<bool>();
            let rows: Vec<Vec<String>> = (0..r.gen_range(1..4)).map(|_| vec![word(&mut r), r.gen::<u8>().to_string()]).collect();
            let err = r.chance(0.2);
            if i == 0 && r.chance(0.4) {
                first_db = word(&mut r);
                text += &format!("statement ok\n--#DATABASE = {first_db}\n\n");
            }
            let dir = if http { "--#HTTP\n" } else { "" };
            if err {
                text += &format!("statement error {}\n{dir}select {i}\n\n", if Some(i) == spoil { "othererr" } else { "boom" });
            } else {
                let mut shown = rows.clone();
                if Some(i) == spoil {
                    match r.gen_range(0..3) {
                        0 => shown[0][0] += "x",
                        1 => {
                            shown.pop();
                        }
                        _ => shown.push(vec!["z".into(), "1".into()]),
                    }
                }
                let lines: Vec<String> = shown.iter().map(|x| if http { format!("\"{}\" \"{}\"", x[0], x[1]) } else { format!("\"{}\" {}", x[0], x[1]) }).collect();
                text += &format!("query\n{dir}select {i}\n----\n{}\n\n", lines.join("\n"));
            }
            ans.push((http, rows, err));
        }
        let script = |st: &Shared| {
            let mut g = st.lock().unwrap();
            g.asked.clear();
            g.http.clear();
            g.flight.clear();
            for (http, rows, err) in &ans {
                if *http {
                    g.http.push_back(if *err { (500, "boom".into()) } else { (200, rows.iter().map(|x| x.join(",") + "\n").collect()) });
                } else {
                    g.flight.push_back(if *err {
                        Err("boom".into())
                    } else {
                        let s = Arc::new(Schema::new(vec![Field::new("a", DataType::Utf8, true), Field::new("b", DataType::Int64, true)]));
                        let b = RecordBatch::try_new(s.clone(), vec![Arc::new(StringArray::from(rows.iter().map(|x| x[0].clone()).collect::<Vec<_>>())) as ArrayRef, Arc::new(Int64Array::from(rows.iter().map(|x| x[1].parse::<i64>().unwrap()).collect::<Vec<_>>()))]).unwrap();
                        Ok((s.as_ref().clone(), vec![b]))
                    });
                }
            }
        };
        std::fs::create_dir_all(&dir).unwrap();
        let path = dir.join("one.slt");
        std::fs::write(&path, &text).unwrap();
        let client = CnosdbClient::new(&options(f, h, vec![]));
        script(&st);
        let res = rt.block_on(crate::os::run_test_file("singleton".into(), &path, "one.slt".into(), client.clone())).map_err(|e| e.to_string());
        c.case(Some(&text));
        c.count(if spoil.is_some() { "case files that must fail" } else { "case files that must pass" }, 1);
        if res.is_ok() != spoil.is_none() {
            c.violation("case:verdict", json!({"file": text, "spoiled": spoil, "got": format!("{res:?}").chars().take(400).collect::<String>()}));
        }
        if spoil.is_none() && !first_db.is_empty() {
            let g = st.lock().unwrap();
            let bad = g.asked.iter().any(|a| a.query.get("db").is_some_and(|d| *d != first_db) || a.headers.get("db").is_some_and(|d| *d != first_db));
            if bad {
                c.violation("case:settings do not last for the file", json!({"file": text}));
            }
        }
        // completing it (a recorded Flight error would hold the server's Date header)
        if spoil.is_some_and(|i| matches!(ans[i], (false, _, true))) {
            continue;
        }
        script(&st);
        match rt.block_on(crate::os::update_test_file("singleton".into(), &path, "one.slt".into(), client.clone())).map_err(|e| e.to_string()) {
            Err(e) => c.violation("case:completion failed", json!({"file": text, "err": e})),
            Ok(()) => {
                script(&st);
                c.count("completed files", 1);
                if let Err(e) = rt.block_on(crate::os::run_test_file("singleton".into(), &path, "one.slt".into(), client)).map_err(|e| e.to_string()) {
                    c.violation("case:completed file fails", json!({"before": text, "after": std::fs::read_to_string(&path).unwrap_or_default(), "err": e.chars().take(300).collect::<String>()}));
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    for (k, n) in [("files", 100), ("files filtered out", 30), ("case files that must fail", 8), ("case files that must pass", 8), ("completed files", 15)] {
        c.need(k, n);
    }
}

pub fn entry() {
    // the tool prints every request
    let keep = std::env::var_os("VERIF_SHOW_PANICS").is_some();
    let _ = keep;
    mon::main(&[("S01", s01), ("S02", s02), ("S03", s03)]);
}
