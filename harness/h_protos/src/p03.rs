use std::collections::HashMap;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use futures::stream::{self, BoxStream};
use futures::{StreamExt, TryStreamExt};
use mon::rand::Rng;
use mon::{json, Ctx, GenExt};
use protos::kv_service::tskv_service_server::{TskvService, TskvServiceServer};
use protos::kv_service::*;
use protos::raft_service::raft_service_server::{RaftService, RaftServiceServer};
use protos::raft_service::*;
use protos::{raft_service_time_out_client, tskv_service_ping, tskv_service_time_out_client};
use tonic::codec::CompressionEncoding;
use tonic::transport::{Endpoint, Server};
use tonic::{Request, Response, Status};

#[derive(Clone, Default)]
struct Srv {
    log: Arc<Mutex<HashMap<u64, u32>>>,
    encodings: Arc<Mutex<HashMap<String, u32>>>,
    /// a serving node may answer a ping without a body
    bare_ping: bool,
}

fn enc<T>(s: &Srv, r: &Request<T>, which: &str) {
    let h = |k| r.metadata().get(k).and_then(|v| v.to_str().ok()).unwrap_or("identity").to_string();
    let takes = if h("grpc-accept-encoding").contains("gzip") { "takes gzip" } else { "takes identity" };
    *s.encodings.lock().unwrap().entry(format!("{which}: {}, {takes}", h("grpc-encoding"))).or_default() += 1;
}

fn noise(n: usize) -> Vec<u8> {
    let mut x = 0x9e37_79b9_7f4a_7c15u64;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 32) as u8
        })
        .collect()
}

type St = BoxStream<'static, Result<BatchBytesResponse, Status>>;

#[tonic::async_trait]
impl TskvService for Srv {
    async fn ping(&self, r: Request<PingRequest>) -> Result<Response<PingResponse>, Status> {
        enc(self, &r, "tskv");
        let m = r.into_inner();
        *self.log.lock().unwrap().entry(m.version).or_default() += 1;
        if self.bare_ping {
            return Ok(Response::new(PingResponse { version: 0, body: vec![] }));
        }
        Ok(Response::new(PingResponse { version: m.version, body: m.body }))
    }
    type DownloadFileStream = St;
    async fn download_file(&self, r: Request<DownloadFileRequest>) -> Result<Response<St>, Status> {
        enc(self, &r, "tskv");
        // "n:size:fail" asks for n chunks of that size, then a failure
        let f = r.into_inner().filename;
        let p: Vec<usize> = f.split(':').map(|x| x.parse().unwrap_or(0)).collect();
        let mut v: Vec<Result<BatchBytesResponse, Status>> = (0..p[0]).map(|i| Ok(BatchBytesResponse { code: i as i32, data: vec![(i % 251) as u8; p[1]] })).collect();
        if p[2] == 1 {
            v.push(Err(Status::data_loss("broken")));
        }
        Ok(Response::new(stream::iter(v).boxed()))
    }
    type TagScanStream = St;
    async fn tag_scan(&self, r: Request<QueryRecordBatchRequest>) -> Result<Response<St>, Status> {
        let m = r.into_inner();
        Ok(Response::new(stream::iter(vec![Ok(BatchBytesResponse { code: 1, data: m.args }), Ok(BatchBytesResponse { code: 2, data: m.expr }), Ok(BatchBytesResponse { code: 3, data: m.aggs })]).boxed()))
    }
    type QueryRecordBatchStream = St;
    async fn query_record_batch(&self, r: Request<QueryRecordBatchRequest>) -> Result<Response<St>, Status> {
        let m = r.into_inner();
        Ok(Response::new(stream::iter(vec![Ok(BatchBytesResponse { code: -1, data: m.aggs }), Ok(BatchBytesResponse { code: -2, data: m.args })]).boxed()))
    }
    async fn raft_write(&self, r: Request<RaftWriteCommand>) -> Result<Response<BatchBytesResponse>, Status> {
        let m = r.into_inner();
        if m.tenant == "slow" {
            tokio::time::sleep(Duration::from_millis(m.replica_id as u64)).await;
        }
        if m.tenant == "deny" {
            return Err(Status::permission_denied(m.db_name));
        }
        let d = protos::models_helper::to_prost_bytes(&m);
        Ok(Response::new(BatchBytesResponse { code: 0, data: d }))
    }
    async fn admin_request(&self, r: Request<AdminCommand>) -> Result<Response<BatchBytesResponse>, Status> {
        let m = r.into_inner();
        // "big:n" answers with n bytes
        let n = m.tenant.strip_prefix("big:").and_then(|x| x.parse().ok()).unwrap_or(0usize);
        Ok(Response::new(BatchBytesResponse { code: 7, data: noise(n) }))
    }
}

#[tonic::async_trait]
impl RaftService for Srv {
    async fn raft_vote(&self, r: Request<RaftVoteReq>) -> Result<Response<RaftResponse>, Status> {
        enc(self, &r, "raft");
        let m = r.into_inner();
        if m.data == "slow" {
            tokio::time::sleep(Duration::from_millis(m.group_id as u64)).await;
        }
        Ok(Response::new(RaftResponse { code: 1, data: m.data }))
    }
    async fn raft_snapshot(&self, r: Request<RaftSnapshotReq>) -> Result<Response<RaftResponse>, Status> {
        enc(self, &r, "raft");
        let m = r.into_inner();
        Ok(Response::new(RaftResponse { code: 2, data: format!("{}:{}", m.group_id, m.data.len()) }))
    }
    async fn raft_append_entries(&self, r: Request<RaftAppendEntriesReq>) -> Result<Response<RaftResponse>, Status> {
        enc(self, &r, "raft");
        let m = r.into_inner();
        Ok(Response::new(RaftResponse { code: 3, data: format!("{}:{}", m.group_id, m.data.len()) }))
    }
}

async fn serve(s: Srv, gzip: bool) -> SocketAddr {
    for _ in 0..50 {
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        let a = l.local_addr().unwrap();
        drop(l);
        let (s1, s2) = (s.clone(), s.clone());
        let mut t = TskvServiceServer::new(s1).max_decoding_message_size(64 << 20).max_encoding_message_size(64 << 20);
        let mut q = RaftServiceServer::new(s2).max_decoding_message_size(64 << 20).max_encoding_message_size(64 << 20);
        t = t.accept_compressed(CompressionEncoding::Gzip);
        q = q.accept_compressed(CompressionEncoding::Gzip);
        if gzip {
            t = t.send_compressed(CompressionEncoding::Gzip);
            q = q.send_compressed(CompressionEncoding::Gzip);
        }
        let h = tokio::spawn(Server::builder().add_service(t).add_service(q).serve(a));
        for _ in 0..100 {
            tokio::time::sleep(Duration::from_millis(10)).await;
            if h.is_finished() {
                break;
            }
            if tokio::net::TcpStream::connect(a).await.is_ok() {
                return a;
            }
        }
    }
    panic!("harness: no server")
}

pub fn p03(c: &mut Ctx) {
    c.rule("a gRPC client built with (timeout, size limit, gzip) delivers each request once and returns the server's answer unchanged, ends a call that exceeds its timeout, refuses a message over the limit in either direction and accepts one under it, and compresses exactly when asked; ping tells a serving node from one that is not");
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    rt.block_on(run(c));
}

async fn run(c: &mut Ctx) {
    let mut r = c.rng("p03");
    for gzip in [false, true] {
        let srv = Srv::default();
        let addr = serve(srv.clone(), gzip).await;
        let chan = Endpoint::from_shared(format!("http://{addr}")).unwrap().connect().await.unwrap();
        // answers, many calls at once
        let cl = tskv_service_time_out_client(chan.clone(), Duration::from_secs(60), 16 << 20, gzip);
        let rc = raft_service_time_out_client(chan.clone(), Duration::from_secs(60), 16 << 20, gzip);
        let n = c.n(150, 20);
        let mut js = vec![];
        for i in 0..n as u64 {
            let mut cl = cl.clone();
            let mut rc = rc.clone();
            let body = r.bytes(3000);
            let kind = r.gen_range(0..6);
            js.push(tokio::spawn(async move {
                let ok = match kind {
                    0 | 1 => cl.ping(PingRequest { version: i, body: body.clone() }).await.map(|x| x.into_inner() == PingResponse { version: i, body }),
                    2 => {
                        let m = RaftWriteCommand { tenant: "t".into(), db_name: format!("d{i}"), replica_id: i as u32, command: Some(raft_write_command::Command::WriteData(WriteDataRequest { data: body, precision: 3 })) };
                        let want = protos::models_helper::to_prost_bytes(&m);
                        cl.raft_write(m).await.map(|x| x.into_inner().data == want)
                    }
                    3 => match cl.tag_scan(QueryRecordBatchRequest { args: body.clone(), expr: vec![1, 2], aggs: vec![3] }).await {
                        Ok(s) => s.into_inner().try_collect::<Vec<_>>().await.map(|v| v.iter().map(|b| b.code).collect::<Vec<_>>() == vec![1, 2, 3] && v[0].data == body && v[1].data == vec![1, 2] && v[2].data == vec![3]),
                        Err(e) => Err(e),
                    },
                    4 => match cl.query_record_batch(QueryRecordBatchRequest { args: body.clone(), expr: vec![1, 2], aggs: vec![3] }).await {
                        Ok(s) => s.into_inner().try_collect::<Vec<_>>().await.map(|v| v.iter().map(|b| b.code).collect::<Vec<_>>() == vec![-1, -2] && v[1].data == body && v[0].data == vec![3]),
                        Err(e) => Err(e),
                    },
                    _ => {
                        let a = rc.raft_vote(RaftVoteReq { group_id: 1, data: format!("v{i}") }).await.map(|x| x.into_inner() == RaftResponse { code: 1, data: format!("v{i}") });
                        let b = rc.raft_append_entries(RaftAppendEntriesReq { group_id: i as u32, data: body.clone() }).await.map(|x| x.into_inner() == RaftResponse { code: 3, data: format!("{i}:{}", body.len()) });
                        let d = rc.raft_snapshot(RaftSnapshotReq { group_id: i as u32, data: body.clone() }).await.map(|x| x.into_inner() == RaftResponse { code: 2, data: format!("{i}:{}", body.len()) });
                        a.and_then(|a| b.and_then(|b| d.map(|d| a && b && d)))
                    }
                };
                (kind, ok)
            }));
        }
        let mut pings = 0;
        for j in js {
            let (k, ok) = j.await.unwrap();
            c.case(Some(&(gzip, k)));
            c.count("calls answered", 1);
            pings += (k < 2) as u32;
            match ok {
                Ok(true) => {}
                Ok(false) => c.violation("grpc:answer changed", json!({"kind": k, "gzip": gzip})),
                Err(e) => c.violation("grpc:call failed", json!({"kind": k, "gzip": gzip, "err": e.to_string()})),
            }
        }
        let log = srv.log.lock().unwrap().clone();
        if log.len() as u32 != pings || log.values().any(|n| *n != 1) {
            c.violation("grpc:a request was not delivered exactly once", json!({"sent": pings, "arrived": log.values().sum::<u32>()}));
        }
        let encs = srv.encodings.lock().unwrap().clone();
        let want = if gzip { ["tskv: gzip, takes gzip", "raft: gzip, takes gzip"] } else { ["tskv: identity, takes identity", "raft: identity, takes identity"] };
        if encs.keys().any(|k| !want.contains(&k.as_str())) {
            c.violation("grpc:compression", json!({"asked": gzip, "seen": encs}));
        }
        // streams end with what the server sent, errors included
        for _ in 0..c.n(8, 10) {
            let (k, sz, fail) = (r.gen_range(0..40usize), r.gen_range(0..5000usize), r.gen_range(0..2));
            let mut cl = cl.clone();
            let res = async {
                let mut s = cl.download_file(DownloadFileRequest { filename: format!("{k}:{sz}:{fail}") }).await?.into_inner();
                let mut v = vec![];
                loop {
                    match s.message().await {
                        Ok(Some(m)) => v.push(m),
                        Ok(None) => return Ok::<_, Status>((v, None)),
                        Err(e) => return Ok((v, Some(e.code()))),
                    }
                }
            }
            .await;
            c.count("streams", 1);
            match res {
                Ok((v, e)) if v.len() == k && v.iter().enumerate().all(|(i, m)| m.code == i as i32 && m.data.len() == sz && m.data.iter().all(|b| *b == (i % 251) as u8)) && e == (fail == 1).then_some(tonic::Code::DataLoss) => {}
                x => c.violation("grpc:stream", json!({"chunks": k, "size": sz, "fail": fail, "got": format!("{:?}", x.map(|(v, e)| (v.len(), e)))})),
            }
        }
        // an error of the server arrives as that error
        let mut cl2 = cl.clone();
        match cl2.raft_write(RaftWriteCommand { tenant: "deny".into(), db_name: "why".into(), replica_id: 0, command: None }).await {
            Err(e) if e.code() == tonic::Code::PermissionDenied && e.message() == "why" => {}
            x => c.violation("grpc:server error", json!({"got": format!("{x:?}")})),
        }
        // timeouts
        for _ in 0..c.n(3, 5) {
            let mut quick = tskv_service_time_out_client(chan.clone(), Duration::from_millis(120), 16 << 20, gzip);
            let t0 = Instant::now();
            let res = quick.raft_write(RaftWriteCommand { tenant: "slow".into(), db_name: String::new(), replica_id: 20_000, command: None }).await;
            let first = t0.elapsed();
            let mut rq = raft_service_time_out_client(chan.clone(), Duration::from_millis(120), 16 << 20, gzip);
            let res2 = rq.raft_vote(RaftVoteReq { group_id: 20_000, data: "slow".into() }).await;
            c.count("timeouts", 2);
            let second = t0.elapsed() - first;
            for (which, ok, took) in [("tskv", res.is_ok(), first), ("raft", res2.is_ok(), second)] {
                c.max("longest a 120 ms timeout took (ms)", took.as_millis() as u64);
                // generous to a loaded machine
                if ok || took > Duration::from_secs(4) || took < Duration::from_millis(100) {
                    c.violation("grpc:timeout not honoured", json!({"service": which, "asked_ms": 120, "took_ms": took.as_millis() as u64, "ok": ok}));
                }
            }
            // slower than nothing, but well within the limit
            let mut patient = tskv_service_time_out_client(chan.clone(), Duration::from_secs(60), 16 << 20, gzip);
            if let Err(e) = patient.raft_write(RaftWriteCommand { tenant: "slow".into(), db_name: String::new(), replica_id: 150, command: None }).await {
                c.violation("grpc:ended before its timeout", json!({"err": e.to_string()}));
            }
        }
        // size limits, both directions
        for _ in 0..c.n(5, 20) {
            let limit = r.gen_range(2_000..1_200_000usize);
            let mut lim = tskv_service_time_out_client(chan.clone(), Duration::from_secs(60), limit, gzip);
            let mut limr = raft_service_time_out_client(chan.clone(), Duration::from_secs(60), limit, gzip);
            for (d, over) in [(limit / 10 * 9, false), (limit + limit / 50 + 1, true), (limit * 2, true)] {
                // incompressible
                let body: Vec<u8> = (0..d).map(|_| r.gen()).collect();
                let up = limr.raft_append_entries(RaftAppendEntriesReq { group_id: 1, data: body.clone() }).await;
                let up2 = lim.raft_write(RaftWriteCommand { tenant: "t".into(), db_name: String::new(), replica_id: 0, command: Some(raft_write_command::Command::WriteData(WriteDataRequest { data: body[..d - 100].to_vec(), precision: 0 })) }).await;
                let down = lim.admin_request(AdminCommand { tenant: format!("big:{d}"), command: None }).await;
                c.count("size limits", 3);
                c.case(Some(&("limit", over, gzip)));
                if up.is_ok() == over || down.is_ok() == over {
                    c.violation("grpc:size limit", json!({"limit": limit, "message": d, "request_sent": up.is_ok(), "answer_accepted": down.is_ok(), "gzip": gzip, "errs": [up.err().map(|e| e.to_string()), down.err().map(|e| e.to_string())]}));
                }
                if !over && up2.is_err() {
                    c.violation("grpc:size limit on writes", json!({"limit": limit, "message": d, "err": up2.err().map(|e| e.to_string())}));
                }
            }
        }
        if let Err(e) = tskv_service_ping(&addr.to_string()).await {
            c.violation("grpc:ping of a serving node failed", json!({"err": e}));
        }
        c.count("pings", 1);
    }
    // a node that answers a ping with nothing in it serves all the same
    let bare = serve(Srv { bare_ping: true, ..Default::default() }, false).await;
    if let Err(e) = tskv_service_ping(&bare.to_string()).await {
        c.violation("grpc:ping of a serving node failed", json!({"err": e, "answer": "empty"}));
    }
    c.count("pings", 1);
    // nodes that do not serve
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let dead = l.local_addr().unwrap();
    drop(l);
    if tskv_service_ping(&dead.to_string()).await.is_ok() {
        c.violation("grpc:ping of a dead node succeeded", json!({}));
    }
    // a node that takes the connection and never answers
    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
    let mute = l.local_addr().unwrap();
    let h = tokio::spawn(async move {
        let mut held = vec![];
        while let Ok((s, _)) = l.accept().await {
            held.push(s);
        }
    });
    let t0 = Instant::now();
    let x = tokio::time::timeout(Duration::from_secs(60), tskv_service_ping(&mute.to_string())).await;
    match x {
        Ok(Err(_)) => {}
        Ok(Ok(())) => c.violation("grpc:ping of a mute node succeeded", json!({})),
        Err(_) => c.violation("grpc:ping never returns", json!({"waited_s": t0.elapsed().as_secs()})),
    }
    h.abort();
    // one that serves something else
    let other = {
        let srv = Srv::default();
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        let a = l.local_addr().unwrap();
        drop(l);
        tokio::spawn(Server::builder().add_service(RaftServiceServer::new(srv)).serve(a));
        tokio::time::sleep(Duration::from_millis(300)).await;
        a
    };
    if tskv_service_ping(&other.to_string()).await.is_ok() {
        c.violation("grpc:ping of another service succeeded", json!({}));
    }
    if tskv_service_ping("not an address").await.is_ok() {
        c.violation("grpc:ping of no address succeeded", json!({}));
    }
    c.count("pings", 5);
    for (k, n) in [("calls answered", 200), ("streams", 10), ("timeouts", 4), ("size limits", 90), ("pings", 6)] {
        c.need(k, n);
    }
}
