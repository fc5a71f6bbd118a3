//! The meta service of one cluster: the state machine of /repo, a hand-written HTTP/1.1
//! front for it with the same routes as meta/src/service/http.rs, and hooks that hold
//! answers back so that a monitor can force an interleaving.
use std::collections::HashSet;
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

use config::tskv::Config;
use meta::error::MetaResult;
use meta::model::meta_admin::AdminMeta;
use meta::model::MetaRef;
use meta::store::command::{ReadCommand, WriteCommand};
use meta::store::storage::{response_encode, StateMachine};
use metrics::metric_register::MetricsRegister;
use models::meta_data::{NodeInfo, NodeMetrics};
use models::node_info::NodeStatus;
use models::schema::database_schema::{DatabaseConfig, DatabaseConfigBuilder, DatabaseOptions, DatabaseOptionsBuilder, DatabaseSchema};
use models::schema::tenant::{Tenant, TenantOptions};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::RwLock;

pub const CLUSTER: &str = "cluster_001";
pub const TENANT: &str = "cnosdb";
pub const DB: &str = "mon";

#[derive(Default)]
pub struct Gate {
    /// while set, /watch answers nothing (as a slow network would)
    pub hold_watch: AtomicBool,
    /// while set, a /read whose body contains the text is held after it was computed
    pub hold_read: parking_lot::Mutex<Option<String>>,
    /// how many are held at most, unless 0
    pub hold_max: AtomicU64,
    pub holding: AtomicU64,
    /// the same for the answer of a /write, held after it was carried out
    pub hold_write: parking_lot::Mutex<Option<String>>,
    pub held_reads: AtomicU64,
    pub held_writes: AtomicU64,
    pub reads: AtomicU64,
    pub writes: AtomicU64,
    pub watches: AtomicU64,
    pub full_syncs: AtomicU64,
}

pub struct Meta {
    pub sm: Arc<RwLock<StateMachine>>,
    pub addr: String,
    pub gate: Arc<Gate>,
}

async fn read_request(s: &mut TcpStream, buf: &mut Vec<u8>) -> Option<(String, Vec<u8>)> {
    let mut tmp = [0u8; 16384];
    loop {
        if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            let head = String::from_utf8_lossy(&buf[..p]).to_string();
            let len: usize = head
                .lines()
                .filter_map(|l| l.split_once(':'))
                .find(|(k, _)| k.eq_ignore_ascii_case("content-length"))
                .and_then(|(_, v)| v.trim().parse().ok())
                .unwrap_or(0);
            while buf.len() < p + 4 + len {
                let n = s.read(&mut tmp).await.ok()?;
                if n == 0 {
                    return None;
                }
                buf.extend_from_slice(&tmp[..n]);
            }
            let body = buf[p + 4..p + 4 + len].to_vec();
            let path = head.split_whitespace().nth(1)?.to_string();
            buf.drain(..p + 4 + len);
            return Some((path, body));
        }
        let n = s.read(&mut tmp).await.ok()?;
        if n == 0 {
            return None;
        }
        buf.extend_from_slice(&tmp[..n]);
    }
}

async fn watch(sm: &Arc<RwLock<StateMachine>>, gate: &Gate, body: &[u8]) -> MetaResult<String> {
    let (_client, cluster, tenants, base): (String, String, HashSet<String>, u64) = serde_json::from_slice(body)?;
    let mut follow = base;
    let t0 = std::time::Instant::now();
    loop {
        let mut notify = sm.read().await.watch.subscribe();
        if !gate.hold_watch.load(Ordering::SeqCst) {
            let d = sm.read().await.read_change_logs(&cluster, &tenants, follow);
            if d.need_return(base) || t0.elapsed() > Duration::from_secs(2) {
                if d.full_sync {
                    gate.full_syncs.fetch_add(1, Ordering::SeqCst);
                }
                return Ok(response_encode(Ok(d)));
            }
            follow = follow.max(d.max_ver);
        }
        let _ = tokio::time::timeout(Duration::from_millis(20), notify.recv()).await;
    }
}

async fn conn(mut s: TcpStream, sm: Arc<RwLock<StateMachine>>, gate: Arc<Gate>, addr: String) {
    let mut buf = vec![];
    while let Some((path, body)) = read_request(&mut s, &mut buf).await {
        let ans = match path.as_str() {
            "/read" => match serde_json::from_slice::<ReadCommand>(&body) {
                Ok(r) => {
                    gate.reads.fetch_add(1, Ordering::SeqCst);
                    let a = sm.read().await.process_read_command(&r);
                    let text = String::from_utf8_lossy(&body).to_string();
                    let hit = |g: &Gate| g.hold_read.lock().as_ref().is_some_and(|h| text.contains(h.as_str()));
                    let max = gate.hold_max.load(Ordering::SeqCst);
                    if hit(&gate) && (max == 0 || gate.holding.load(Ordering::SeqCst) < max) {
                        gate.held_reads.fetch_add(1, Ordering::SeqCst);
                        gate.holding.fetch_add(1, Ordering::SeqCst);
                        while hit(&gate) {
                            tokio::time::sleep(Duration::from_millis(2)).await;
                        }
                        gate.holding.fetch_sub(1, Ordering::SeqCst);
                    }
                    Ok(a)
                }
                Err(e) => Err(e.to_string()),
            },
            "/write" => match serde_json::from_slice::<WriteCommand>(&body) {
                Ok(r) => {
                    gate.writes.fetch_add(1, Ordering::SeqCst);
                    let a = sm.write().await.process_write_command(&r).await;
                    let text = String::from_utf8_lossy(&body).to_string();
                    let hit = |g: &Gate| g.hold_write.lock().as_ref().is_some_and(|h| text.contains(h.as_str()));
                    if hit(&gate) {
                        gate.held_writes.fetch_add(1, Ordering::SeqCst);
                        while hit(&gate) {
                            tokio::time::sleep(Duration::from_millis(2)).await;
                        }
                    }
                    Ok(a)
                }
                Err(e) => Err(e.to_string()),
            },
            "/watch" => {
                gate.watches.fetch_add(1, Ordering::SeqCst);
                watch(&sm, &gate, &body).await.map_err(|e| e.to_string())
            }
            "/watch_meta_membership" => Ok(response_encode(Ok(vec![addr.clone()]))),
            p => Err(format!("no route {p}")),
        };
        let (code, text) = match ans {
            Ok(t) => ("200 OK", t),
            Err(t) => ("500 Internal Server Error", t),
        };
        let head = format!("HTTP/1.1 {code}\r\ncontent-length: {}\r\ncontent-type: text/plain\r\n\r\n", text.len());
        if s.write_all(head.as_bytes()).await.is_err() || s.write_all(text.as_bytes()).await.is_err() {
            return;
        }
    }
}

impl Meta {
    pub async fn start(dir: &Path) -> Meta {
        let sm = Arc::new(RwLock::new(StateMachine::open(dir, 1 << 30).expect("harness: state machine")));
        let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
        let addr = l.local_addr().unwrap().to_string();
        let gate = Arc::new(Gate::default());
        let (m, g, a) = (sm.clone(), gate.clone(), addr.clone());
        tokio::spawn(async move {
            while let Ok((s, _)) = l.accept().await {
                let _ = s.set_nodelay(true);
                tokio::spawn(conn(s, m.clone(), g.clone(), a.clone()));
            }
        });
        Meta { sm, addr, gate }
    }

    pub async fn write<T: for<'a> serde::Deserialize<'a>>(&self, c: &WriteCommand) -> MetaResult<T> {
        let s = self.sm.write().await.process_write_command(c).await;
        serde_json::from_str::<MetaResult<T>>(&s).unwrap_or_else(|e| panic!("harness: answer {s} of {c:?}: {e}"))
    }

    pub async fn read<T: for<'a> serde::Deserialize<'a>>(&self, c: &ReadCommand) -> MetaResult<T> {
        let s = self.sm.read().await.process_read_command(c);
        serde_json::from_str::<MetaResult<T>>(&s).unwrap_or_else(|e| panic!("harness: answer {s} of {c:?}: {e}"))
    }

    /// tenant, one node and one database
    pub async fn setup(&self, dbs: &[DatabaseSchema]) {
        let t = Tenant::new(7, TENANT.to_string(), TenantOptions::default());
        let _: MetaResult<()> = self.write(&WriteCommand::CreateTenant(CLUSTER.into(), t)).await;
        self.add_node(1, "127.0.0.1:1").await;
        for d in dbs {
            let r: MetaResult<models::meta_data::TenantMetaData> = self.write(&WriteCommand::CreateDB(CLUSTER.into(), TENANT.into(), d.clone())).await;
            r.expect("harness: create database");
        }
    }

    pub async fn add_node(&self, id: u64, addr: &str) {
        let r: MetaResult<()> = self.write(&WriteCommand::AddDataNode(CLUSTER.into(), NodeInfo { id, grpc_addr: addr.into() })).await;
        r.expect("harness: add node");
        let m = NodeMetrics { id, disk_free: 1 << 40, time: 0, status: NodeStatus::Healthy };
        let r: MetaResult<()> = self.write(&WriteCommand::ReportNodeMetrics(CLUSTER.into(), m)).await;
        r.expect("harness: node metrics");
    }

    pub async fn client(&self, cfg: &Config) -> MetaRef {
        let mut cfg = cfg.clone();
        cfg.meta.service_addr = vec![self.addr.clone()];
        cfg.global.cluster_name = CLUSTER.to_string();
        AdminMeta::new(cfg, Arc::new(MetricsRegister::default())).await
    }

    pub async fn version(&self) -> u64 {
        let r: MetaResult<(Vec<NodeInfo>, u64)> = self.read(&ReadCommand::DataNodes(CLUSTER.into())).await;
        r.unwrap().1
    }
}

pub fn db_schema(name: &str, opts: impl FnOnce(&mut DatabaseOptionsBuilder), cfg: impl FnOnce(&mut DatabaseConfigBuilder), c: &Config) -> DatabaseSchema {
    let mut o = DatabaseOptionsBuilder::new();
    opts(&mut o);
    let mut b = DatabaseConfigBuilder::new();
    cfg(&mut b);
    let o: DatabaseOptions = o.build();
    let b: DatabaseConfig = b.build(c.clone());
    DatabaseSchema::new(TENANT, name, o, Arc::new(b))
}
