//! E01: every replica of the metadata service that took in the same commands is in the same
//! state, whether it ran all along, was started anew or was restored from a snapshot, and what
//! it tells of its changes brings a follower from any earlier state to the present one.
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;

use eng::{ping, rt, Scratch};
use meta::store::command::*;
use meta::store::storage::StateMachine;
use mon::rand::rngs::StdRng;
use mon::rand::Rng;
use mon::{json, Ctx, GenExt};
use replication::{ApplyContext, ApplyStorage};
use serde_json::Value as J;

use crate::cmds::{c, Gen};
use crate::model::{jv, Model};
use crate::store::{gen, kind, open};

type Map = BTreeMap<String, String>;

fn state(sm: &StateMachine) -> Map {
    sm.backup().expect("harness: backup").map
}

fn canon(j: &J) -> J {
    match j {
        J::Array(a) => {
            let mut v: Vec<J> = a.iter().map(canon).collect();
            v.sort_by_key(|x| x.to_string());
            J::Array(v)
        }
        J::Object(o) => J::Object(o.iter().map(|(k, v)| (k.clone(), canon(v))).collect()),
        x => x.clone(),
    }
}

fn same_text(a: &str, b: &str) -> bool {
    a == b
        || match (serde_json::from_str::<J>(a), serde_json::from_str::<J>(b)) {
            (Ok(x), Ok(y)) => canon(&x) == canon(&y),
            _ => false,
        }
}

fn differ(a: &Map, b: &Map, of: &dyn Fn(&str) -> bool) -> Option<J> {
    for k in a.keys().chain(b.keys()).filter(|k| of(k)) {
        let (x, y) = (a.get(k), b.get(k));
        let same = match (x, y) {
            (Some(x), Some(y)) => same_text(x, y),
            _ => false,
        };
        if !same {
            return Some(json!({"key": k, "one": x, "other": y}));
        }
    }
    None
}

struct Rep {
    name: &'static str,
    dir: PathBuf,
    sm: StateMachine,
    /// how many commands it took in
    done: usize,
}

impl Rep {
    fn new(name: &'static str, dir: PathBuf) -> Rep {
        Rep { name, sm: open(&dir), dir, done: 0 }
    }
    fn apply(&mut self, b: &[u8]) -> Result<String, String> {
        let ctx = ApplyContext { apply_type: replication::APPLY_TYPE_WRITE, raft_id: 0, index: self.done as u64 + 1 };
        let sm = &mut self.sm;
        let r = mon::quiet(|| rt().block_on(sm.apply(&ctx, &b.to_vec())))?;
        self.done += 1;
        Ok(String::from_utf8(r.map_err(|e| e.to_string())?).unwrap())
    }
    fn version(&self) -> u64 {
        serde_json::from_str::<J>(&self.sm.process_read_command(&ReadCommand::DataNodes(c()))).unwrap()["Ok"][1].as_u64().unwrap()
    }
}

/// someone who keeps a copy by reading the changes
struct Follower {
    at: u64,
    have: Map,
    /// "" is all tenants
    tenants: HashSet<String>,
}

impl Follower {
    fn cares(&self, k: &str) -> bool {
        let Some(k) = k.strip_prefix(&format!("/{}/", c())) else { return false };
        if k.starts_with("auto_incr_id") {
            return false;
        }
        match k.strip_prefix("tenants/") {
            None => true,
            Some(k) => self.tenants.contains("") || self.tenants.contains(k.split('/').next().unwrap()),
        }
    }

    /// false if it had to take everything
    fn catch_up(&mut self, r: &Rep) -> bool {
        let d = r.sm.read_change_logs(&c(), &self.tenants, self.at);
        if d.full_sync {
            self.have = state(&r.sm);
            self.at = r.version();
            return false;
        }
        for e in d.entry_logs {
            if e.tye == ENTRY_LOG_TYPE_SET {
                self.have.insert(e.key, e.val);
            } else {
                self.have.remove(&e.key);
            }
        }
        self.at = self.at.max(d.max_ver);
        true
    }
}

fn history(ctx: &mut Ctx, g: &mut StdRng, h: usize, len: usize, port: u16) -> Option<Vec<String>> {
    let dir = Scratch::new("E01");
    let mut reps = vec![
        Rep::new("first", dir.sub("a")),
        Rep::new("second", dir.sub("b")),
        Rep::new("restored", dir.sub("c")),
        Rep::new("reopened", dir.sub("d")),
    ];
    let mut m = Model::default();
    let mut gn: Gen = gen(&dir.sub("x"), port, g.chance(0.4));
    let mut cmds: Vec<Vec<u8>> = vec![];
    let mut log: Vec<J> = vec![];
    let mut sig = vec![];
    let mut fol: Vec<Follower> = vec![];
    for t in [vec![""], vec!["ten1"], vec!["ten2", "ten3"], vec![], vec![""]] {
        fol.push(Follower { at: 0, have: Map::new(), tenants: t.iter().map(|s| s.to_string()).collect() });
    }
    for i in 0..len {
        let cmd = gn.cmd(g, &m);
        let k = kind(&cmd);
        let b = serde_json::to_vec(&cmd).unwrap();
        cmds.push(b.clone());
        log.push(jv(&cmd));
        sig.push(k.clone());
        let mut answers = vec![];
        for (ri, r) in reps.iter_mut().enumerate() {
            // the third lags behind
            if ri == 2 && (g.chance(0.7) && i + 1 < len) {
                continue;
            }
            if ri == 2 && i + 1 < len && g.chance(0.4) {
                continue;
            }
            while r.done < cmds.len() {
                let b = cmds[r.done].clone();
                match r.apply(&b) {
                    Ok(a) => {
                        ctx.count("commands applied", 1);
                        if r.done == cmds.len() {
                            answers.push((r.name, a));
                        }
                    }
                    Err(e) => {
                        ctx.violation("apply:panic", json!({"history": h, "replica": r.name, "error": e, "commands": log}));
                        return None;
                    }
                }
            }
        }
        let first: J = serde_json::from_str(&answers[0].1).unwrap();
        let _ = m.apply(&cmd, &first);
        m.pending_leader = None;
        for (n, a) in &answers[1..] {
            ctx.count("answers compared", 1);
            if !same_text(a, &answers[0].1) {
                ctx.violation(&format!("answer:{k}"), json!({"history": h, "replica": n, "answer": a, "first": answers[0].1, "commands": log}));
                return None;
            }
        }
        let s0 = state(&reps[0].sm);
        for r in &reps[1..] {
            if r.done != cmds.len() {
                continue;
            }
            ctx.count("states compared", 1);
            if let Some(d) = differ(&s0, &state(&r.sm), &|_| true) {
                ctx.violation(&format!("state:{k}"), json!({"history": h, "replica": r.name, "difference": d, "commands": log}));
                return None;
            }
        }
        // the leader changed a replica set: take over what it chose
        if let Some(t) = adopt(&mut m, &reps[0].sm) {
            ctx.count("leaders adopted", t);
        }
        if g.chance(0.06) {
            // the lagging one gets a snapshot of any of the others
            let from = *g.pick(&[0usize, 1, 3]);
            let s = rt().block_on(reps[from].sm.create_snapshot(i as u64)).expect("harness: snapshot");
            let kept = rt().block_on(reps[from].sm.get_snapshot()).expect("harness: snapshot");
            if kept.as_ref() != Some(&s) {
                ctx.violation("snapshot:kept", json!({"history": h, "commands": log}));
                return None;
            }
            let done = reps[from].done;
            rt().block_on(reps[2].sm.restore(&s.0)).expect("harness: restore");
            reps[2].done = done;
            log.push(json!("restore"));
            ctx.count("snapshots restored", 1);
            if let Some(d) = differ(&s0, &state(&reps[2].sm), &|_| true) {
                ctx.violation("snapshot:state", json!({"history": h, "difference": d, "commands": log}));
                return None;
            }
        }
        if g.chance(0.04) {
            let r = reps.pop().unwrap();
            let (dir, done) = (r.dir.clone(), r.done);
            drop(r);
            reps.push(Rep { name: "reopened", sm: open(&dir), dir, done });
            log.push(json!("reopen"));
            ctx.count("restarts", 1);
        }
        // the followers ask whichever replica they are connected to
        for (fi, f) in fol.iter_mut().enumerate() {
            if !g.chance([0.5, 0.5, 0.3, 0.3, 0.05][fi]) {
                continue;
            }
            let r = g.pick(&reps);
            if r.version() < f.at {
                continue; // behind the follower: it will come back
            }
            let at = f.at;
            let by_log = f.catch_up(r);
            ctx.count(if by_log { "followers brought up by the log" } else { "followers synchronised in full" }, 1);
            if let Some(d) = differ(&f.have, &state(&r.sm), &|k| f.cares(k)) {
                ctx.violation("changes:missed", json!({"history": h, "replica": r.name, "tenants": f.tenants, "from": at, "to": r.version(), "full": !by_log, "difference": d, "commands": log}));
                return None;
            }
        }
    }
    Some(sig)
}

/// what the model left open, from the state itself
fn adopt(m: &mut Model, sm: &StateMachine) -> Option<u64> {
    let mut n = 0;
    for (tn, t) in m.tenants.iter_mut() {
        for (dn, d) in t.dbs.iter_mut() {
            for b in d.buckets.values_mut() {
                for s in b.shard_group.iter_mut() {
                    let r = sm.process_read_command(&ReadCommand::ReplicationSet(c(), tn.clone(), dn.clone(), s.id));
                    let j: J = serde_json::from_str(&r).unwrap();
                    let (v, nd) = (j["Ok"]["leader_vnode_id"].as_u64(), j["Ok"]["leader_node_id"].as_u64());
                    if let (Some(v), Some(nd)) = (v, nd) {
                        if v as u32 != s.leader_vnode_id {
                            n += 1;
                            s.leader_vnode_id = v as u32;
                            s.leader_node_id = nd;
                        }
                    }
                }
            }
        }
    }
    (n > 0).then_some(n)
}

/// more changes than the log holds
fn overrun(ctx: &mut Ctx, g: &mut StdRng) {
    let dir = Scratch::new("E01o");
    let mut a = Rep::new("first", dir.sub("a"));
    let total = 8192 + g.gen_range(1..1500u64);
    let mut marks: Vec<(u64, Map)> = vec![];
    for i in 0..total {
        let cmd = WriteCommand::RemoveQueryInfo(c(), i);
        let cmd = if i % 7 == 0 {
            WriteCommand::ReportNodeMetrics(c(), models::meta_data::NodeMetrics { id: i % 50, disk_free: i, time: 0, status: Default::default() })
        } else {
            cmd
        };
        a.apply(&serde_json::to_vec(&cmd).unwrap()).expect("harness: apply");
        if i % 97 == 0 || i + 40 > total || (total - 8192).abs_diff(i) < 4 {
            marks.push((a.version(), state(&a.sm)));
        }
    }
    for (at, have) in marks {
        let mut f = Follower { at, have, tenants: [String::new()].into() };
        let by_log = f.catch_up(&a);
        ctx.count(if by_log { "followers brought up by a full log" } else { "followers too far behind" }, 1);
        if let Some(d) = differ(&f.have, &state(&a.sm), &|k| f.cares(k)) {
            ctx.violation("changes:overrun", json!({"from": at, "to": a.version(), "full": !by_log, "difference": d}));
            return;
        }
    }
}

pub fn e01(ctx: &mut Ctx) {
    ctx.level("exploration");
    ctx.rule("replicas that took in the same commands give the same answers and hold the same state, also after a restart or from a snapshot; a follower that applies the changes a replica reports since any version, or takes all of it when told to, has that replica's state");
    ctx.assume("tenants without request limiters: the limiter's refill follows the clock of each replica");
    let port = rt().block_on(ping::serve());
    let mut g = ctx.rng("E01");
    for h in 0..ctx.n(70, 12) {
        let Some(sig) = history(ctx, &mut g, h, 130, port) else { return };
        ctx.case(Some(&sig));
        ctx.sample("history", || json!(sig.iter().take(20).collect::<Vec<_>>()));
    }
    for _ in 0..ctx.n(1, 6) {
        overrun(ctx, &mut g);
    }
    world(ctx, port);
    ctx.need("commands applied", 10_000);
    ctx.need("states compared", 5000);
    ctx.need("snapshots restored", 50);
    ctx.need("restarts", 50);
    ctx.need("followers brought up by the log", 2000);
    ctx.need("followers synchronised in full", 50);
    ctx.need("followers too far behind", 2);
    ctx.need("followers brought up by a full log", 20);
}

fn both(a: &mut Rep, cmd: &WriteCommand) -> String {
    a.apply(&serde_json::to_vec(cmd).unwrap()).unwrap_or_else(|e| panic!("harness: {e}"))
}

/// What a replica sees of the world around it when it applies a command: the clock and the
/// network. Two replicas never see the same.
fn world(ctx: &mut Ctx, port: u16) {
    use models::meta_data::{NodeInfo, NodeMetrics};
    use models::schema::tenant::{Tenant, TenantOptions};
    let dir = Scratch::new("E01w");
    let (mut a, mut b) = (Rep::new("first", dir.sub("a")), Rep::new("second", dir.sub("b")));
    let bucket = json!({"local_bucket": {"max": 100, "initial": 0}, "remote_bucket": {"max": 100, "initial": 1, "refill": 1, "interval": 20}});
    let mut o = TenantOptions::default();
    o.limiter_config = Some(
        serde_json::from_value(json!({"object_config": null, "request_config": {
            "coord_data_in": bucket, "coord_data_out": null, "coord_queries": null, "coord_writes": null,
            "http_data_in": null, "http_data_out": null, "http_queries": null, "http_writes": null}}))
        .expect("harness: limiter"),
    );
    let mut cfg = eng::config(&dir.sub("x"));
    cfg.global.cluster_name = c();
    let log: Vec<WriteCommand> = vec![
        WriteCommand::CreateTenant(c(), Tenant::new(9, "ten1".into(), o)),
        serde_json::from_value(json!({"LimiterRequest": {"cluster": c(), "tenant": "ten1", "request": {"kind": "CoordDataIn", "expected": {"min": 1, "max": 1000}}}})).expect("harness: request"),
    ];
    let run = |r: &mut Rep, wait: u64| {
        let mut v: Vec<String> = log.iter().map(|c| both(r, c)).collect();
        // one replica takes the next request in later than the other
        std::thread::sleep(std::time::Duration::from_millis(wait));
        v.push(both(r, &log[1]));
        v
    };
    let (x, y) = (run(&mut a, 0), run(&mut b, 400));
    ctx.count("limiter requests taken in at different times", 2);
    if x != y {
        ctx.violation("replica:limiter-clock", json!({"commands": log.iter().map(jv).collect::<Vec<_>>(), "first": x, "later": y}));
    }

    // a node that does not answer one replica, and answers another
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap();
    drop(l);
    let log = vec![
        WriteCommand::AddDataNode(c(), NodeInfo { id: 1, grpc_addr: addr.to_string() }),
        WriteCommand::ReportNodeMetrics(c(), NodeMetrics { id: 1, disk_free: 1 << 40, time: 0, status: Default::default() }),
        WriteCommand::CreateDB(c(), "ten1".into(), eng::db_schema("dbs1", |_| (), |_| (), &cfg)),
        WriteCommand::CreateBucket(c(), "ten1".into(), "dbs1".into(), crate::store::now()),
    ];
    let (mut a, mut b) = (Rep::new("first", dir.sub("a2")), Rep::new("second", dir.sub("b2")));
    let t = WriteCommand::CreateTenant(c(), Tenant::new(9, "ten1".into(), TenantOptions::default()));
    let (mut x, mut y) = (String::new(), String::new());
    both(&mut a, &t);
    both(&mut b, &t);
    for c in &log {
        x = both(&mut a, c);
    }
    rt().spawn(async move {
        let l = tokio::net::TcpListener::bind(addr).await.unwrap();
        while let Ok((mut s, _)) = l.accept().await {
            tokio::spawn(async move {
                if let Ok(mut t) = tokio::net::TcpStream::connect(("127.0.0.1", port)).await {
                    let _ = tokio::io::copy_bidirectional(&mut s, &mut t).await;
                }
            });
        }
    });
    std::thread::sleep(std::time::Duration::from_millis(100));
    for c in &log {
        y = both(&mut b, c);
    }
    ctx.count("buckets made while a node answers one replica", 1);
    if !same_text(&x, &y) {
        ctx.violation("replica:create-bucket-ping", json!({"commands": log.iter().map(jv).collect::<Vec<_>>(), "first": x, "second": y}));
    }
}
