//! W01, E02: what a replica's storage tells Raft. The real NodeStorage over the real StateStorage
//! and the real WAL of a vnode is driven the way openraft's storage contract allows, through
//! restarts and torn last writes, beside a model that is a sorted map and a few scalars.
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use eng::{db_schema, Eng, Meta, Scratch, DB};
use mon::rand::rngs::StdRng;
use mon::rand::Rng;
use mon::{json, Ctx, GenExt};
use openraft::{
    CommittedLeaderId, EntryPayload, LogId, Membership, RaftLogReader, RaftSnapshotBuilder, RaftStorage, SnapshotMeta,
    StoredMembership, Vote,
};
use protos::kv_service::RaftWriteCommand;
use replication::entry_store::HeedEntryStorage;
use replication::errors::ReplicationResult;
use replication::node_store::NodeStorage;
use replication::state_store::{RaftNodeSummary, StateStorage};
use replication::{ApplyContext, ApplyStorage, ApplyStorageRef, EngineMetrics, EntryStorageRef, RaftNodeInfo};
use tokio::sync::RwLock;
use tskv::kv_option::WalOptions;
use tskv::wal::wal_store::{RaftEntry, RaftEntryStorage};
use tskv::wal::VnodeWal;

type Id = LogId<u64>;
type Mem = StoredMembership<u64, RaftNodeInfo>;

/// what the vnode has taken in: survives restarts, as the flushed part of an engine does
#[derive(Default)]
struct Disk {
    applied: Vec<(u64, Vec<u8>)>,
    restored: Option<Vec<u8>>,
    snap: Option<(Vec<u8>, u64)>,
    next: u64,
    gone: bool,
}
struct Machine(Arc<Mutex<Disk>>);

#[async_trait::async_trait]
impl ApplyStorage for Machine {
    async fn apply(&mut self, ctx: &ApplyContext, req: &Vec<u8>) -> ReplicationResult<Vec<u8>> {
        self.0.lock().unwrap().applied.push((ctx.index, req.clone()));
        Ok(answer(ctx.index, req))
    }
    async fn get_snapshot(&mut self) -> ReplicationResult<Option<(Vec<u8>, u64)>> {
        Ok(self.0.lock().unwrap().snap.clone())
    }
    async fn create_snapshot(&mut self, applied: u64) -> ReplicationResult<(Vec<u8>, u64)> {
        // what is flushed may be older than what is applied
        let mut d = self.0.lock().unwrap();
        let at = d.next.min(applied);
        d.snap = Some((data(at), at));
        Ok((data(at), at))
    }
    async fn restore(&mut self, snapshot: &[u8]) -> ReplicationResult<()> {
        self.0.lock().unwrap().restored = Some(snapshot.to_vec());
        Ok(())
    }
    async fn destory(&mut self) -> ReplicationResult<()> {
        self.0.lock().unwrap().gone = true;
        Ok(())
    }
    async fn metrics(&self) -> ReplicationResult<EngineMetrics> {
        Ok(EngineMetrics::default())
    }
}
fn data(at: u64) -> Vec<u8> {
    format!("state as of {at}").into_bytes()
}
fn answer(i: u64, req: &[u8]) -> Vec<u8> {
    format!("{i}:{}", req.len()).into_bytes()
}

/// what one replica must hold
#[derive(Default)]
struct Model {
    log: BTreeMap<u64, RaftEntry>,
    purged: Option<Id>,
    applied: Option<Id>,
    mem: Mem,
    /// memberships by the index that brought them
    mems: BTreeMap<u64, Mem>,
    vote: Option<Vote<u64>>,
    snap: Option<(u64, Id, Mem)>,
    done: Vec<(u64, Vec<u8>)>,
    /// the log id at each index that was ever applied or installed
    ids: BTreeMap<u64, Id>,
}
impl Model {
    fn last(&self) -> Option<Id> {
        self.log.values().last().map(|e| e.log_id).or(self.purged)
    }
    fn next(&self) -> u64 {
        self.last().map_or(0, |l| l.index + 1)
    }
}

struct Replica {
    group: u32,
    vnode: u32,
    m: Model,
    disk: Arc<Mutex<Disk>>,
    node: Option<(Arc<NodeStorage>, EntryStorageRef)>,
}

struct World {
    dir: PathBuf,
    opt: WalOptions,
    state: Option<Arc<StateStorage>>,
    reps: Vec<Replica>,
    term: u64,
    /// the log of the meta service instead of that of a vnode
    heed: bool,
    log: Vec<String>,
}

fn owner() -> Arc<String> {
    Arc::new("cnosdb.repl".to_string())
}

fn wal_files(dir: &Path) -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(dir).map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect()).unwrap_or_default();
    v.retain(|p| p.extension().map_or(false, |x| x == "wal"));
    v.sort();
    v
}

fn payload(g: &mut StdRng, first: bool) -> EntryPayload<replication::TypeConfig> {
    match g.gen_range(0..10) {
        _ if first => EntryPayload::Membership(members(g)),
        0 => EntryPayload::Blank,
        1 => EntryPayload::Membership(members(g)),
        _ => {
            let n = if g.chance(0.1) { g.gen_range(0..3000) } else { g.gen_range(0..60) };
            let s: String = (0..n).map(|_| *g.pick(&['a', 'b', 'é', '"', '\u{1}', '漢'])).collect();
            EntryPayload::Normal(protos::models_helper::to_prost_bytes(&RaftWriteCommand {
                tenant: "t".into(),
                db_name: s,
                replica_id: g.gen(),
                command: None,
            }))
        }
    }
}
fn members(g: &mut StdRng) -> Membership<u64, RaftNodeInfo> {
    let ids: BTreeSet<u64> = (0..g.gen_range(1..4)).map(|_| g.gen_range(1..9)).collect();
    let nodes: BTreeMap<u64, RaftNodeInfo> =
        ids.iter().map(|i| (*i, RaftNodeInfo { group_id: g.gen_range(1..99), address: format!("127.0.0.1:{}", 8000 + i) })).collect();
    let mut c = vec![ids.clone()];
    if g.chance(0.2) {
        c.push(ids.into_iter().take(1).collect());
    }
    Membership::new(c, nodes)
}

impl World {
    async fn open(&mut self, i: usize, eng: &Eng, c: &mut Ctx) -> bool {
        if self.state.is_none() {
            self.state = Some(Arc::new(StateStorage::open(self.dir.join("state"), 1 << 30).expect("harness: state")));
        }
        let st = self.state.clone().unwrap();
        let r = &mut self.reps[i];
        let applied = match st.get_last_applied_log(r.group) {
            Ok(a) => a,
            Err(e) => {
                c.violation("state:read", json!({"error": e.to_string(), "ops": self.log}));
                return false;
            }
        };
        let entries: EntryStorageRef = if self.heed {
            match HeedEntryStorage::open(self.dir.join(format!("entries{i}")), 1 << 30) {
                Ok(h) => Arc::new(RwLock::new(h)),
                Err(e) => {
                    c.violation("open:error", json!({"error": e.to_string(), "ops": self.log}));
                    return false;
                }
            }
        } else {
            let mut vs = eng.vnode(r.vnode).await.expect("harness: vnode");
            let (opt, vnode) = (Arc::new(self.opt.clone()), r.vnode);
            // in a task of its own, so that a recovery without end is seen as one
            let t = tokio::spawn(async move {
                let wal = VnodeWal::new(opt, owner(), vnode).await.map_err(|e| e.to_string())?;
                let mut w = RaftEntryStorage::new(wal);
                w.recover(applied, &mut vs).await.map_err(|e| e.to_string())?;
                Ok::<_, String>(w)
            });
            let ab = t.abort_handle();
            let w = match tokio::time::timeout(Duration::from_secs(20), t).await {
                Err(_) => {
                    ab.abort();
                    c.violation("recover:endless", json!({"ops": self.log}));
                    return false;
                }
                Ok(Err(e)) => {
                    c.violation("recover:panic", json!({"panic": e.to_string(), "ops": self.log}));
                    return false;
                }
                Ok(Ok(Err(e))) => {
                    c.violation("recover:error", json!({"error": e, "ops": self.log}));
                    return false;
                }
                Ok(Ok(Ok(w))) => w,
            };
            Arc::new(RwLock::new(w))
        };
        let w = entries.clone();
        let m: ApplyStorageRef = Arc::new(RwLock::new(Machine(r.disk.clone())));
        let info = RaftNodeInfo { group_id: r.group, address: "127.0.0.1:1".into() };
        match NodeStorage::open(r.group as u64 * 10, info, st, m, entries).await {
            Ok(n) => r.node = Some((Arc::new(n), w)),
            Err(e) => {
                c.violation("open:error", json!({"error": e.to_string(), "ops": self.log}));
                return false;
            }
        }
        // opening takes a snapshot
        self.took_snapshot(i);
        true
    }

    fn took_snapshot(&mut self, i: usize) {
        let r = &mut self.reps[i];
        if let Some(a) = r.m.applied {
            let at = r.disk.lock().unwrap().next.min(a.index);
            let id = r.m.ids[&at];
            let mem = r.m.mems.range(..=at).next_back().map(|x| x.1.clone()).unwrap_or_default();
            r.m.snap = Some((at, id, mem));
        }
    }

    fn bad(&self, c: &mut Ctx, sig: &str, i: usize, want: String, got: String) -> bool {
        let cut = |s: String| if s.len() > 1500 { s.chars().take(1500).collect() } else { s };
        c.violation(sig, json!({"group": self.reps[i].group, "want": cut(want), "got": cut(got), "ops": self.log}));
        false
    }

    /// the log, as Raft reads it
    async fn check_log(&self, i: usize, g: &mut StdRng, c: &mut Ctx, all: bool) -> bool {
        let r = &self.reps[i];
        let (n, w) = r.node.as_ref().unwrap();
        let mut n = n.clone();
        match n.get_log_state().await {
            Ok(s) => {
                if s.last_log_id != r.m.last() || s.last_purged_log_id != r.m.purged {
                    return self.bad(c, "log:state", i, format!("last {:?} purged {:?}", r.m.last(), r.m.purged), format!("last {:?} purged {:?}", s.last_log_id, s.last_purged_log_id));
                }
            }
            Err(e) => return self.bad(c, "log:error", i, "log state".into(), e.to_string()),
        }
        let low = r.m.purged.map_or(0, |p| p.index + 1);
        let high = r.m.next();
        let mut spans = vec![];
        if all {
            spans.push((low, u64::MAX));
        }
        for _ in 0..2 {
            let a = g.gen_range(low..=high);
            let b = if g.chance(0.5) { a + g.gen_range(0..4) } else { g.gen_range(a..=high + 2) };
            spans.push((a, b));
        }
        for (a, b) in spans {
            let res = if b == u64::MAX {
                n.try_get_log_entries(a..).await
            } else if g.chance(0.5) && b > a {
                n.try_get_log_entries(a..=b - 1).await
            } else {
                n.try_get_log_entries(a..b).await
            };
            let want: Vec<&RaftEntry> = if a < b { r.m.log.range(a..b).map(|x| x.1).collect() } else { vec![] };
            match res {
                Ok(v) => {
                    if v.iter().collect::<Vec<_>>() != want {
                        let d = |v: &[&RaftEntry]| v.iter().map(|e| e.log_id.to_string()).collect::<Vec<_>>().join(" ");
                        return self.bad(c, "log:entries", i, format!("{a}..{b}: {}", d(&want)), d(&v.iter().collect::<Vec<_>>()));
                    }
                    c.count("entries read back", v.len() as u64);
                }
                Err(e) => return self.bad(c, "log:error", i, format!("{a}..{b}"), e.to_string()),
            }
        }
        let mut w = w.write().await;
        for _ in 0..3 {
            let a = g.gen_range(low..=high + 1);
            match w.entry(a).await {
                Ok(e) if e.as_ref() == r.m.log.get(&a) => {}
                x => return self.bad(c, "log:entry", i, format!("{a}: {:?}", r.m.log.get(&a).map(|e| e.log_id)), format!("{:?}", x.map(|e| e.map(|e| e.log_id)))),
            }
        }
        c.count("log checks", 1);
        true
    }

    /// votes, applied state, memberships, summaries
    async fn check_state(&self, i: usize, c: &mut Ctx) -> bool {
        let r = &self.reps[i];
        let mut n = r.node.as_ref().unwrap().0.clone();
        match n.last_applied_state().await {
            Ok((a, m)) if a == r.m.applied && m == r.m.mem => {}
            x => return self.bad(c, "state:applied", i, format!("{:?} {:?}", r.m.applied, r.m.mem), format!("{x:?}")),
        }
        match n.read_vote().await {
            Ok(v) if v == r.m.vote => {}
            x => return self.bad(c, "state:vote", i, format!("{:?}", r.m.vote), format!("{x:?}")),
        }
        {
            let d = r.disk.lock().unwrap();
            if d.applied != r.m.done {
                return self.bad(c, "state:machine", i, format!("{} applied", r.m.done.len()), format!("{} applied", d.applied.len()));
            }
        }
        let s = self.state.as_ref().unwrap().get_node_summary(r.group);
        match s {
            Ok(Some(x)) if x.group_id == r.group && x.raft_id == r.group as u64 * 10 => {}
            x => return self.bad(c, "state:summary", i, r.group.to_string(), format!("{x:?}")),
        }
        c.count("state checks", 1);
        true
    }

    async fn check_snapshot(&mut self, i: usize, c: &mut Ctx, build: bool) -> bool {
        let mut n = self.reps[i].node.as_ref().unwrap().0.clone();
        let got = if build {
            let x = n.build_snapshot().await.map(Some);
            self.took_snapshot(i);
            x
        } else {
            n.get_current_snapshot().await
        };
        let want = &self.reps[i].m.snap;
        match (got, want) {
            (Ok(Some(s)), Some((at, id, mem))) => {
                let sid = format!("{}-{}", id.leader_id, id.index);
                if s.meta.last_log_id != Some(*id) || s.meta.last_membership != *mem || s.meta.snapshot_id != sid || s.snapshot.into_inner() != data(*at) {
                    return self.bad(c, "snapshot:meta", i, format!("{id:?} {mem:?}"), format!("{:?}", s.meta));
                }
                c.count("snapshots checked", 1);
            }
            (Ok(None), None) => {}
            (Ok(Some(s)), None) if build && s.meta.last_log_id.is_none() => {}
            (x, _) => return self.bad(c, "snapshot:missing", i, format!("{want:?}"), format!("{:?}", x.map(|s| s.map(|s| s.meta)))),
        }
        true
    }

    async fn restart(&mut self, i: usize, eng: &Eng, c: &mut Ctx) -> bool {
        let r = &mut self.reps[i];
        let n = r.node.take().unwrap();
        drop(n);
        if !self.open(i, eng, c).await {
            return false;
        }
        // entries after the last applied one are dropped by the recovery (a known finding):
        // the log then ends with the last applied entry, and nothing else changes
        let r = &mut self.reps[i];
        let mut n = r.node.as_ref().unwrap().0.clone();
        let got = match n.get_log_state().await {
            Ok(s) => s.last_log_id,
            Err(e) => return self.bad(c, "log:error", i, "log state".into(), e.to_string()),
        };
        if let Some(a) = r.m.applied {
            if r.m.last() != got && r.m.last().map(|l| l.index) > Some(a.index) {
                let kept = r.m.log.range(..=a.index).next_back().map(|e| e.1.log_id).or(r.m.purged);
                if got == kept {
                    c.violation("log:unapplied-lost", json!({"last": r.m.last(), "applied": a, "after": got, "ops": self.log}));
                    r.m.log.split_off(&(a.index + 1));
                }
            }
        }
        c.count("restarts", 1);
        true
    }
}

async fn history(c: &mut Ctx, g: &mut StdRng, eng: &Eng, no: usize, logs: bool) -> bool {
    let s = Scratch::new("repl");
    let groups = *g.pick(&[[1u32, 12], [1, 11], [7, 70], [3, 4]]);
    let opt = WalOptions {
        path: s.path().join("wal"),
        wal_max_file_size: *g.pick(&[64u64, 600, 4000, 1 << 30]),
        compress: (*g.pick(&[0u8, 8, 4, 5])).into(),
        wal_sync: g.chance(0.2),
    };
    let size = opt.wal_max_file_size;
    let heed = no % 5 == 4;
    let mut w = World {
        dir: s.path().to_path_buf(),
        opt,
        state: None,
        reps: groups
            .iter()
            .enumerate()
            .map(|(k, gr)| Replica { group: *gr, vnode: 100 + k as u32, m: Model::default(), disk: Arc::default(), node: None })
            .collect(),
        term: 1,
        heed,
        log: vec![format!("history {no} groups {groups:?} file size {size} heed {heed}")],
    };
    for i in 0..2 {
        if !w.open(i, eng, c).await {
            return false;
        }
        let x = RaftNodeSummary { tenant: "t".into(), db_name: "d".into(), group_id: groups[i], raft_id: groups[i] as u64 * 10 };
        w.state.as_ref().unwrap().set_node_summary(groups[i], &x).expect("harness: summary");
    }
    let steps = g.gen_range(10..60);
    let burst = !heed && g.chance(0.3);
    for _ in 0..steps {
        let i = if g.chance(0.7) { 0 } else { 1 };
        let (mut n, _) = w.reps[i].node.clone().unwrap();
        let m = &w.reps[i].m;
        let floor = m.applied.map_or(0, |a| a.index + 1);
        let op = g.gen_range(0..100);
        let mut all = false;
        match op {
            0..=34 => {
                // append, perhaps over entries that were not applied
                let from = if g.chance(0.25) && floor < m.next() { g.gen_range(floor..=m.next()) } else { m.next() };
                if from < m.next() {
                    w.term += 1;
                }
                let k = if burst && g.chance(0.3) { g.gen_range(200..400) } else { g.gen_range(1..8) };
                let es: Vec<RaftEntry> = (0..k)
                    .map(|j| RaftEntry { log_id: LogId::new(CommittedLeaderId::new(w.term, g.gen_range(1..3)), from + j), payload: payload(g, from + j == 0) })
                    .collect();
                w.log.push(format!("{i} append {from}+{k} term {}", w.term));
                if let Err(e) = n.append_to_log(es.clone()).await {
                    return w.bad(c, "log:error", i, "append".into(), e.to_string());
                }
                let m = &mut w.reps[i].m;
                m.log.split_off(&from);
                m.log.extend(es.into_iter().map(|e| (e.log_id.index, e)));
                c.count("entries appended", k);
            }
            35..=54 => {
                let es: Vec<RaftEntry> = m.log.range(floor..).take(g.gen_range(1..if burst { 300 } else { 9 })).map(|e| e.1.clone()).collect();
                if es.is_empty() {
                    continue;
                }
                w.log.push(format!("{i} apply {}..={}", es[0].log_id, es[es.len() - 1].log_id));
                match n.apply_to_state_machine(&es).await {
                    Ok(a) => {
                        let want: Vec<Vec<u8>> = es
                            .iter()
                            .map(|e| match &e.payload {
                                EntryPayload::Normal(r) => answer(e.log_id.index, r),
                                _ => vec![],
                            })
                            .collect();
                        if a != want {
                            return w.bad(c, "state:answers", i, format!("{want:?}"), format!("{a:?}"));
                        }
                    }
                    Err(e) => return w.bad(c, "state:error", i, "apply".into(), e.to_string()),
                }
                let m = &mut w.reps[i].m;
                for e in es {
                    m.applied = Some(e.log_id);
                    m.ids.insert(e.log_id.index, e.log_id);
                    match e.payload {
                        EntryPayload::Normal(r) => m.done.push((e.log_id.index, r)),
                        EntryPayload::Membership(x) => {
                            m.mem = StoredMembership::new(Some(e.log_id), x);
                            m.mems.insert(e.log_id.index, m.mem.clone());
                        }
                        _ => {}
                    }
                }
                c.count("applied", 1);
            }
            55..=62 => {
                // the engine flushes up to somewhere, and a snapshot is taken of that
                let Some(a) = m.applied else { continue };
                let lo = m.purged.map_or(0, |p| p.index + 1).max(m.snap.as_ref().map_or(0, |s| s.0));
                if lo > a.index {
                    continue;
                }
                let at = g.gen_range(lo..=a.index);
                {
                    let mut d = w.reps[i].disk.lock().unwrap();
                    d.next = d.next.max(at);
                }
                w.log.push(format!("{i} flushed to {at}"));
                if !w.check_snapshot(i, c, true).await {
                    return false;
                }
            }
            63..=70 => {
                // purge what the snapshot covers, but for its last entry
                let Some((at, ..)) = m.snap else { continue };
                let lo = m.purged.map_or(0, |p| p.index + 1);
                if lo >= at {
                    continue;
                }
                let p = if g.chance(0.4) { at - 1 } else { g.gen_range(lo..at) };
                let Some(e) = m.log.get(&p) else { continue };
                let id = e.log_id;
                w.log.push(format!("{i} purge {id}"));
                if let Err(e) = n.purge_logs_upto(id).await {
                    return w.bad(c, "log:error", i, "purge".into(), e.to_string());
                }
                let m = &mut w.reps[i].m;
                m.purged = Some(id);
                m.log = m.log.split_off(&(p + 1));
                c.count("purges", 1);
                all = true;
            }
            71..=77 => {
                if floor >= m.next() {
                    continue;
                }
                let d = g.gen_range(floor..m.next());
                let id = m.log[&d].log_id;
                w.log.push(format!("{i} delete from {id}"));
                if let Err(e) = n.delete_conflict_logs_since(id).await {
                    return w.bad(c, "log:error", i, "delete".into(), e.to_string());
                }
                w.reps[i].m.log.split_off(&d);
                c.count("conflicts deleted", 1);
                all = true;
            }
            78..=79 => {
                // a crash while the files that a deletion emptied are removed, the newest first
                if heed || floor >= m.next() {
                    continue;
                }
                let d = g.gen_range(floor..m.next());
                let id = m.log[&d].log_id;
                let dir = w.opt.wal_dir(&owner(), w.reps[i].vnode);
                let before: BTreeMap<PathBuf, Vec<u8>> = wal_files(&dir).into_iter().map(|p| (p.clone(), std::fs::read(&p).unwrap())).collect();
                if let Err(e) = n.delete_conflict_logs_since(id).await {
                    return w.bad(c, "log:error", i, "delete".into(), e.to_string());
                }
                drop(n);
                w.reps[i].node = None;
                // a file the writer made anew does not exist yet when the old ones are removed
                let after = wal_files(&dir);
                let gone: Vec<&PathBuf> = before.keys().filter(|p| !p.exists() || (before.len() > 1 && after.len() == 1 && p.metadata().unwrap().len() == 4)).collect();
                let k = g.gen_range(0..=gone.len());
                for p in &gone[..k] {
                    std::fs::write(p, &before[*p]).unwrap();
                }
                w.log.push(format!("{i} crash in the deletion from {id}: {k} of {} files not removed", gone.len()));
                w.reps[i].node = w.reps[1 - i].node.clone();
                // either outcome is right, but nothing in between
                let old = w.reps[i].m.log.clone();
                w.reps[i].m.log.split_off(&d);
                w.reps[i].node = None;
                if !w.open(i, eng, c).await {
                    return false;
                }
                let low = w.reps[i].m.purged.map_or(0, |p| p.index + 1);
                let mut n = w.reps[i].node.clone().unwrap().0;
                let v = match n.try_get_log_entries(low..).await {
                    Ok(v) => v,
                    Err(e) => return w.bad(c, "log:error", i, "after a crash".into(), e.to_string()),
                };
                let least = w.reps[i].m.log.len();
                if v.len() < least || v.iter().zip(old.values()).any(|(a, b)| a != b) || v.len() > old.len() {
                    let ids = |v: &mut dyn Iterator<Item = &RaftEntry>| v.map(|e| e.log_id.to_string()).collect::<Vec<_>>().join(" ");
                    return w.bad(c, "log:half-deleted", i, format!("at least {least} of {}", ids(&mut old.values())), ids(&mut v.iter()));
                }
                w.reps[i].m.log = v.into_iter().map(|e| (e.log_id.index, e)).collect();
                c.count("crashes in deletions", 1);
                c.count("files left by deletions", k as u64);
                all = true;
            }
            80..=83 => {
                let t = w.term + g.gen_range(0..3);
                let v = if g.chance(0.5) { Vote::new(t, g.gen_range(1..5)) } else { Vote::new_committed(t, g.gen_range(1..5)) };
                w.log.push(format!("{i} vote {v:?}"));
                if let Err(e) = n.save_vote(&v).await {
                    return w.bad(c, "state:error", i, "vote".into(), e.to_string());
                }
                w.reps[i].m.vote = Some(v);
                c.count("votes", 1);
            }
            84..=87 => {
                // a leader's snapshot; Raft then purges the log up to it
                let lo = m.applied.map_or(1, |a| a.index + 1);
                let at = lo + g.gen_range(0..20);
                w.term += 1;
                let id = LogId::new(CommittedLeaderId::new(w.term, 2), at);
                let mem = StoredMembership::new(Some(LogId::new(CommittedLeaderId::new(w.term, 2), g.gen_range(lo - 1..=at))), members(g));
                w.log.push(format!("{i} install snapshot {id}"));
                let meta = SnapshotMeta { last_log_id: Some(id), last_membership: mem.clone(), snapshot_id: format!("{}-{}", id.leader_id, id.index) };
                w.reps[i].disk.lock().unwrap().next = at;
                if let Err(e) = n.install_snapshot(&meta, Box::new(std::io::Cursor::new(data(at)))).await {
                    return w.bad(c, "state:error", i, "install snapshot".into(), e.to_string());
                }
                if w.reps[i].disk.lock().unwrap().restored != Some(data(at)) {
                    return w.bad(c, "snapshot:restore", i, at.to_string(), "not restored".into());
                }
                let m = &mut w.reps[i].m;
                m.applied = Some(id);
                m.ids.insert(at, id);
                let ml = mem.log_id().unwrap().index;
                m.mems.split_off(&ml);
                m.mems.insert(ml, mem.clone());
                m.mem = mem;
                w.took_snapshot(i);
                // what is left of the log after it conflicts with the leader's
                if w.reps[i].m.log.range(at + 1..).next().is_some() {
                    if let Err(e) = n.delete_conflict_logs_since(LogId::new(id.leader_id, at + 1)).await {
                        return w.bad(c, "log:error", i, "delete".into(), e.to_string());
                    }
                }
                if let Err(e) = n.purge_logs_upto(id).await {
                    return w.bad(c, "log:error", i, "purge".into(), e.to_string());
                }
                let m = &mut w.reps[i].m;
                m.log.clear();
                m.purged = Some(id);
                c.count("snapshots installed", 1);
                all = true;
            }
            88..=95 => {
                let both = g.chance(0.2);
                w.log.push(format!("{i} restart{}", if both { " of both" } else { "" }));
                drop(n);
                if both {
                    for r in w.reps.iter_mut() {
                        r.node = None;
                    }
                    w.state = None;
                    for k in 0..2 {
                        w.reps[k].node = None;
                        if k != i && !w.open(k, eng, c).await {
                            return false;
                        }
                    }
                    // the other one as if it had been restarted
                    w.reps[i].node = w.reps[1 - i].node.clone();
                    if !w.restart(1 - i, eng, c).await {
                        return false;
                    }
                }
                if !w.restart(i, eng, c).await {
                    return false;
                }
                all = true;
            }
            _ if heed => continue,
            _ => {
                // the last write did not reach the disk as a whole
                let from = m.next();
                let e = RaftEntry { log_id: LogId::new(CommittedLeaderId::new(w.term, 1), from), payload: payload(g, from == 0) };
                let dir = w.opt.wal_dir(&owner(), w.reps[i].vnode);
                let before: BTreeMap<PathBuf, u64> = wal_files(&dir).into_iter().map(|p| (p.clone(), p.metadata().unwrap().len())).collect();
                if let Err(e) = n.append_to_log(vec![e]).await {
                    return w.bad(c, "log:error", i, "append".into(), e.to_string());
                }
                drop(n);
                w.reps[i].node = None;
                let Some(f) = wal_files(&dir).pop() else { continue };
                let l0 = *before.get(&f).unwrap_or(&0);
                let l1 = f.metadata().unwrap().len();
                if l1 <= l0 {
                    return w.bad(c, "log:not-written", i, format!("{from} in {f:?}"), format!("{l0} -> {l1} bytes"));
                }
                let cut = if g.chance(0.2) { l0 } else { g.gen_range(l0..l1) };
                let zeros = g.chance(0.3);
                w.log.push(format!("{i} crash in the write of {from}: {l0} -> {l1}, {cut} bytes written{}", if zeros { ", zeros after them" } else { "" }));
                // a rest that was zeros anyway is no tear
                let zeros = zeros && std::fs::read(&f).unwrap()[cut as usize..].iter().any(|b| *b != 0);
                let h = std::fs::OpenOptions::new().write(true).open(&f).unwrap();
                h.set_len(cut).unwrap();
                if zeros {
                    h.set_len(l1).unwrap();
                }
                drop(h);
                w.reps[i].node = w.reps[1 - i].node.clone();
                if !w.restart(i, eng, c).await {
                    return false;
                }
                c.count("torn writes", 1);
                all = true;
            }
        }
        for k in 0..2 {
            if k != i && !all {
                continue;
            }
            if logs {
                let full = all || g.chance(0.2);
                if !w.check_log(k, g, c, full).await {
                    return false;
                }
            } else {
                if !w.check_state(k, c).await {
                    return false;
                }
                if g.chance(0.2) && !w.check_snapshot(k, c, false).await {
                    return false;
                }
            }
        }
    }
    // a group that is removed takes nothing of the other one with it
    let gone = w.reps[1].node.take().unwrap().0;
    if let Err(e) = gone.destory().await {
        return w.bad(c, "destroy:error", 1, "".into(), e.to_string());
    }
    drop(gone);
    w.log.push("destroy 1".into());
    let st = w.state.clone().unwrap();
    let g1 = groups[1];
    let left = [
        st.get_last_applied_log(g1).ok().flatten().is_some(),
        st.get_last_purged(g1).ok().flatten().is_some(),
        st.get_vote(g1).ok().flatten().is_some(),
        st.get_node_summary(g1).ok().flatten().is_some(),
        st.get_snapshot_applied_log(g1).ok().flatten().is_some(),
        st.get_last_membership(g1).map_or(true, |m| m != Mem::default()),
        st.get_membership_list(g1).map_or(true, |m| !m.is_empty()),
        !wal_files(&w.opt.wal_dir(&owner(), 101)).is_empty() || w.dir.join("entries1").exists(),
        !w.reps[1].disk.lock().unwrap().gone,
    ];
    if left.iter().any(|b| *b) {
        return w.bad(c, "destroy:left", 1, "nothing".into(), format!("{left:?}"));
    }
    let ok = if logs { w.check_log(0, g, c, true).await } else { w.check_state(0, c).await && w.check_snapshot(0, c, false).await };
    c.count("groups removed", 1);
    if ok {
        c.case(Some(&w.log));
        c.sample("history", || json!(w.log));
    }
    ok
}

fn run(c: &mut Ctx, logs: bool, n: usize) {
    let rt = eng::rt();
    rt.block_on(async {
        let s = Scratch::new("replm");
        let cfg = eng::config(s.path());
        let meta = Meta::start(&s.sub("meta")).await;
        meta.setup(&[db_schema(DB, |_| {}, |_| {}, &cfg)]).await;
        let eng = Eng::open(&meta, &eng::config(&s.sub("n0"))).await;
        let mut g = c.rng("repl");
        let mut bad = 0;
        for no in 0..n {
            if !history(c, &mut g, &eng, no, logs).await {
                bad += 1;
                if bad > 3 {
                    break;
                }
            }
        }
    });
    for (k, min) in [("entries appended", 500), ("applied", 100), ("purges", 10), ("conflicts deleted", 20), ("snapshots installed", 10), ("restarts", 50), ("torn writes", 20), ("groups removed", 20)] {
        c.need(k, min);
    }
    c.need(if logs { "log checks" } else { "state checks" }, 500);
}

pub fn w01(c: &mut Ctx) {
    c.rule("histories follow openraft's storage contract: entries are appended without gaps, only entries that are not applied are overwritten or deleted, only what a snapshot covers is purged; a torn write is the last one, cut anywhere or with zeros after the cut");
    c.assume("openraft itself is not run: its calls are made by the history");
    let n = c.n(160, 20);
    run(c, true, n);
}

pub fn e02(c: &mut Ctx) {
    c.rule("two groups share one state store; the state machine under the storage is a recorder whose flushed index lags what is applied");
    c.assume("heed is a stand-in; openraft itself is not run: its calls are made by the history");
    let n = c.n(160, 20);
    run(c, false, n);
}
