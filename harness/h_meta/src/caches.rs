//! E05: when all is quiet, what the nodes keep of the metadata is what the service holds,
//! whoever changed it, however the answers and the reports of changes were delayed.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;
use std::time::{Duration, Instant};

use eng::{ping, rt, Meta, Scratch};
use meta::model::MetaRef;
use meta::store::command::*;
use meta::store::storage::StateMachine;
use models::auth::role::{CustomTenantRole, TenantRoleIdentifier};
use models::auth::user::{User, UserDesc};
use models::meta_data::*;
use models::oid::{Identifier, Oid};
use models::schema::tenant::Tenant;
use mon::rand::rngs::StdRng;
use mon::rand::Rng;
use mon::{json, Ctx, GenExt};
use replication::ApplyStorage;
use serde_json::Value as J;

use crate::cmds::{c, Gen};
use crate::model::{jv, Db, Model, Ten};
use crate::store::{gen, kind, open};

const TENANTS: [&str; 3] = ["ten1", "ten2", "ten3"];

fn ask<T: for<'a> serde::Deserialize<'a>>(sm: &StateMachine, r: &ReadCommand) -> T {
    let s = sm.process_read_command(r);
    let r: meta::error::MetaResult<T> = serde_json::from_str(&s).unwrap_or_else(|e| panic!("harness: answer {s}: {e}"));
    r.unwrap_or_else(|e| panic!("harness: answer {s}: {e}"))
}

/// what the service holds
struct Truth {
    tenants: BTreeMap<String, (Tenant, TenantMetaData)>,
    users: Vec<UserDesc>,
    nodes: Vec<NodeInfo>,
}

fn truth(sm: &StateMachine) -> Truth {
    let mut tenants = BTreeMap::new();
    for t in TENANTS {
        if let Some(x) = ask::<Option<Tenant>>(sm, &ReadCommand::Tenant(c(), t.into(), false)) {
            let md: TenantMetaData = ask(sm, &ReadCommand::TenantMetaData(c(), t.into()));
            tenants.insert(t.to_string(), (x, md));
        }
    }
    let mut users: Vec<UserDesc> = ask(sm, &ReadCommand::Users(c()));
    users.sort_by_key(|u| u.name().to_string());
    Truth { tenants, users, nodes: ask::<(Vec<NodeInfo>, u64)>(sm, &ReadCommand::DataNodes(c())).0 }
}

/// as the command generator wants it
fn model(sm: &StateMachine) -> Model {
    let t = truth(sm);
    let mut m = Model::default();
    for (n, (x, md)) in t.tenants {
        let mut ten = Ten { t: x, roles: BTreeMap::new(), members: BTreeMap::new(), dbs: BTreeMap::new() };
        for (k, r) in md.roles {
            ten.roles.insert(k, json!({"additional_privileges": jv(r.additional_privileges())}));
        }
        ten.members = md.members.into_iter().collect();
        for (dn, d) in md.dbs {
            ten.dbs.insert(
                dn,
                Db {
                    tables: d.tables.iter().map(|(k, v)| (k.clone(), jv(v))).collect(),
                    buckets: d.buckets.into_iter().map(|b| (b.id, b)).collect(),
                    schema: d.schema,
                },
            );
        }
        m.tenants.insert(n, ten);
    }
    m.users = t.users.iter().map(|u| (u.name().to_string(), jv(u))).collect();
    m.nodes = t.nodes.into_iter().map(|n| (n.id, n)).collect();
    m.metrics = ask::<Vec<NodeMetrics>>(sm, &ReadCommand::NodeMetrics(c())).into_iter().map(|n| (n.id, n)).collect();
    m
}

fn dbs(d: &std::collections::HashMap<String, DatabaseInfo>) -> J {
    let mut j = jv(d);
    for (_, v) in j.as_object_mut().unwrap().iter_mut() {
        v["buckets"].as_array_mut().unwrap().sort_by_key(|b| b["id"].as_u64());
    }
    j
}

fn short(j: &J) -> String {
    let mut j = j.clone();
    if let Some(o) = j.as_object_mut() {
        for (_, v) in o.iter_mut() {
            if let Some(s) = v.get_mut("schema").and_then(|s| s.as_object_mut()) {
                s.remove("config");
            }
        }
    }
    j.to_string()
}

/// the user as the service's data make them
fn truly(t: &Tenant, md: &TenantMetaData, u: &UserDesc) -> Option<User> {
    let r = md.members.get(&u.id().to_string())?;
    let p = match r {
        TenantRoleIdentifier::System(s) => s.to_privileges(t.id()),
        TenantRoleIdentifier::Custom(n) => md.roles.get(n).map(|r: &CustomTenantRole<Oid>| r.to_privileges(t.id())).unwrap_or_default(),
    };
    Some(User::new(u.clone(), p, Some(r.clone())))
}

/// what the user may do
fn may(u: &User, t: Oid) -> Vec<String> {
    use models::auth::privilege::{DatabasePrivilege as D, Privilege, TenantObjectPrivilege as P};
    let mut v = vec![P::System, P::MemberFull, P::RoleFull];
    for d in ["dbs1", "dbs2", "dbs3"] {
        for p in [D::Read, D::Write, D::Full] {
            v.push(P::Database(p, Some(d.into())));
        }
    }
    v.into_iter().map(|p| Privilege::TenantObject(p, Some(t))).filter(|p| u.check_privilege(p)).map(|p| format!("{p:?}")).collect()
}

/// Compare one node with the service; the first difference.
async fn check(n: &MetaRef, t: &Truth, seen: &mut u64) -> Option<(&'static str, String)> {
    let mut got = n.data_nodes().await;
    let mut want = t.nodes.clone();
    got.sort_by_key(|x| x.id);
    want.sort_by_key(|x| x.id);
    *seen += 1;
    if jv(&got) != jv(&want) {
        return Some(("data nodes", format!("{got:?}, not {want:?}")));
    }
    for x in &want {
        let host = x.grpc_addr.split(':').next().unwrap_or_default().to_string();
        let ch = n.get_node_conn(x.id).await;
        *seen += 1;
        let at = match ch {
            Ok(ch) => {
                let mut cl = protos::kv_service::tskv_service_client::TskvServiceClient::new(ch);
                let r = cl.ping(protos::kv_service::PingRequest { version: 1, body: b"where".to_vec() }).await;
                r.map(|r| String::from_utf8_lossy(&r.into_inner().body).to_string()).unwrap_or_else(|e| e.to_string())
            }
            Err(e) => e.to_string(),
        };
        if at != host {
            return Some(("connection", format!("to node {} goes to {at}, not {}", x.id, x.grpc_addr)));
        }
    }
    for name in TENANTS {
        let store = t.tenants.get(name);
        let visible = store.is_some_and(|(t, _)| !t.options().get_tenant_is_hidden());
        let cached = n.tenant(name).await.ok().flatten();
        *seen += 1;
        match (&cached, store) {
            (Some(x), Some((s, _))) if jv(x) == jv(s) => {}
            (None, Some(_)) if !visible => {}
            (None, None) => {}
            (x, s) => return Some(("tenant", format!("{name} is {x:?}, not {:?}", s.map(|s| &s.0)))),
        }
        let cl = n.tenant_meta(name).await;
        let (Some(cl), Some((st, md))) = (&cl, store) else {
            if cl.is_some() != store.is_some() && (cl.is_some() || visible) {
                return Some(("tenant metadata", format!("of {name}: {} on the node, {} in the service", cl.is_some(), store.is_some())));
            }
            continue;
        };
        let (g, w) = (dbs(&cl.list_databases().unwrap()), dbs(&md.dbs));
        *seen += 1;
        if g != w {
            return Some(("databases", format!("of {name} are {}, not {}", short(&g), short(&w))));
        }
        if jv(cl.tenant()) != jv(st) {
            return Some(("tenant options", format!("of {name} are {:?}, not {st:?}", cl.tenant())));
        }
        for u in &t.users {
            let r = cl.member_role(u.id(), true).await.ok().flatten();
            *seen += 1;
            if r.as_ref() != md.members.get(&u.id().to_string()) {
                return Some(("member", format!("{} of {name} is {r:?}, not {:?}", u.name(), md.members.get(&u.id().to_string()))));
            }
            let x = n.user_with_privileges(u.name(), name).await;
            *seen += 1;
            if u.is_admin() {
                if !x.as_ref().is_ok_and(|x| jv(x.desc()) == jv(u)) {
                    return Some(("user", format!("{} is {x:?}, not {u:?}", u.name())));
                }
                continue;
            }
            let want = truly(st, md, u);
            match (&x, &want) {
                (Err(_), None) => {}
                (Ok(x), Some(w)) if jv(x.desc()) == jv(u) && may(x, *st.id()) == may(w, *st.id()) && x.role() == w.role() => {}
                _ => return Some(("user", format!("{} in {name} is {x:?}, not {want:?}", u.name()))),
            }
        }
        for i in 1..=4 {
            let un = format!("usr{i}");
            if !t.users.iter().any(|u| u.name() == un) {
                *seen += 1;
                if let Ok(x) = n.user_with_privileges(&un, name).await {
                    return Some(("user", format!("{un} is {x:?}, and was dropped")));
                }
            }
        }
    }
    None
}

/// Which requests the node's limiter takes to the service: those of the kinds that are limited.
async fn limited(n: &MetaRef, m: &Meta, t: &str) -> Vec<&'static str> {
    let mut v = vec![];
    let Ok(l) = n.limiter(t).await else { return vec!["no limiter"] };
    for k in ["coord_data_in", "coord_queries", "http_queries", "http_writes", "coord_writes"] {
        let before = m.gate.writes.load(SeqCst);
        let _ = match k {
            "coord_data_in" => l.check_coord_data_in(1).await,
            "coord_queries" => l.check_coord_queries().await,
            "http_queries" => l.check_http_queries().await,
            "http_writes" => l.check_http_writes().await,
            _ => l.check_coord_writes().await,
        };
        if m.gate.writes.load(SeqCst) > before {
            v.push(k);
        }
    }
    v
}

fn limits(t: &Tenant) -> Vec<&'static str> {
    let Some(r) = t.options().request_config() else { return vec![] };
    let mut v = vec![];
    for (k, b) in [
        ("coord_data_in", &r.coord_data_in),
        ("coord_queries", &r.coord_queries),
        ("http_queries", &r.http_queries),
        ("http_writes", &r.http_writes),
        ("coord_writes", &r.coord_writes),
    ] {
        if b.is_some() {
            v.push(k);
        }
    }
    v
}

enum Done {
    Yes,
    /// the node said so of dropping a tenant
    Dropped(String, bool),
    /// nodes have no call for it
    No,
}

/// Carry the command out as node `n` would.
async fn by_node(n: &MetaRef, cmd: &WriteCommand) -> Done {
    use WriteCommand::*;
    macro_rules! ten {
        ($t:expr) => {
            match n.tenant_meta($t).await {
                Some(t) => t,
                None => return Done::Yes,
            }
        };
    }
    match cmd {
        CreateDB(_, t, s) => drop(ten!(t).create_db(s.clone()).await),
        AlterDB(_, t, s) => drop(ten!(t).alter_db_schema(s.clone()).await),
        SetDBIsHidden(_, t, d, h) => drop(ten!(t).set_db_is_hidden(t, d, *h).await),
        DropDB(_, t, d) => drop(ten!(t).drop_db(d).await),
        CreateTable(_, t, s) => drop(ten!(t).create_table(s).await),
        UpdateTable(_, t, s) => drop(ten!(t).update_table(s).await),
        DropTable(_, t, d, x) => drop(ten!(t).drop_table(d, x).await),
        CreateBucket(_, t, d, ts) => drop(ten!(t).create_bucket(d, *ts).await),
        DeleteBucket(_, t, d, id) => drop(ten!(t).delete_bucket(d, *id).await),
        AlterUser(_, u, o) => drop(n.alter_user(u, o.clone()).await),
        DropUser(_, u) => drop(n.drop_user(u).await),
        CreateTenant(_, t) => drop(n.create_tenant(t.name().into(), t.options().clone()).await),
        AlterTenant(_, t, o) => drop(n.alter_tenant(t, o.clone()).await),
        SetTenantIsHidden(_, t, h) => drop(n.set_tenant_is_hidden(t, *h).await),
        DropTenant(_, t) => {
            if let Ok(b) = n.drop_tenant(t).await {
                return Done::Dropped(t.clone(), b);
            }
        }
        AddMemberToTenant(_, u, r, t) => drop(ten!(t).add_member_with_role(*u, r.clone()).await),
        ReasignMemberRole(_, u, r, t) => drop(ten!(t).reassign_member_role(*u, r.clone()).await),
        RemoveMemberFromTenant(_, u, t) => drop(ten!(t).remove_member(*u).await),
        CreateRole(_, r, s, p, t) => drop(ten!(t).create_custom_role(r.clone(), s.clone(), p.clone()).await),
        DropRole(_, r, t) => drop(ten!(t).drop_custom_role(r).await),
        GrantPrivileges(_, p, r, t) => drop(ten!(t).grant_privilege_to_custom_role(p.clone(), r).await),
        RevokePrivileges(_, p, r, t) => drop(ten!(t).revoke_privilege_from_custom_role(p.clone(), r).await),
        UpdateVnode(a) => drop(ten!(&a.vnode_info.tenant).update_vnode(&a.vnode_info).await),
        UpdateVnodeReplSet(a) => drop(ten!(&a.tenant).update_replication_set(&a.db_name, a.bucket_id, a.repl_id, &a.del_info, &a.add_info).await),
        _ => return Done::No,
    }
    Done::Yes
}

/// what else nodes do, which fills their caches
async fn look(n: &MetaRef, k: u32, t: &str, u: Oid) {
    match k {
        0 => drop(n.tenant_meta(t).await),
        1 => {
            if let Some(c) = n.tenant_meta(t).await {
                let _ = c.member_role(&u, true).await;
            }
        }
        2 => {
            if let Some(c) = n.tenant_meta(t).await {
                for x in ["tab1", "tab2", "tab3"] {
                    let _ = c.get_tskv_table_schema_by_meta("dbs1", x).await;
                }
            }
        }
        3 => drop(n.user_with_privileges("usr1", t).await),
        4 => drop(n.use_tenant(t).await),
        6 => drop(n.limiter(t).await),
        7 => {
            for id in 1..=4 {
                let _ = n.get_node_conn(id).await;
            }
        }
        _ => {
            if let Some(c) = n.tenant_meta(t).await {
                let _ = c.member_role(&u, false).await;
            }
        }
    }
}

struct World {
    m: Arc<Meta>,
    nodes: Vec<MetaRef>,
    gn: Gen,
    log: Vec<J>,
}

async fn settle(w: &World, ctx: &mut Ctx, limit: Duration) -> Option<(usize, &'static str, String)> {
    let t0 = Instant::now();
    let mut seen = 0;
    loop {
        let t = truth(&*w.m.sm.read().await);
        let mut bad = None;
        for (i, n) in w.nodes.iter().enumerate() {
            if let Some((k, d)) = check(n, &t, &mut seen).await {
                bad = Some((i, k, d));
                break;
            }
            for (name, (x, _)) in &t.tenants {
                if n.tenant_meta(name).await.is_none() {
                    continue;
                }
                let (g, want) = (limited(n, &w.m, name).await, limits(x));
                seen += 1;
                if g != want {
                    bad = Some((i, "limiter", format!("of {name} limits {g:?}, not {want:?}")));
                    break;
                }
            }
            if bad.is_some() {
                break;
            }
        }
        match bad {
            None => {
                ctx.count("cached values compared", seen);
                ctx.max("longest until quiet, ms", t0.elapsed().as_millis() as u64);
                return None;
            }
            Some(b) if t0.elapsed() > limit => return Some(b),
            _ => tokio::time::sleep(Duration::from_millis(4)).await,
        }
    }
}

async fn world(dir: &Path, port: u16, g: &mut StdRng) -> World {
    let m = Arc::new(Meta::start(&dir.join("m")).await);
    let mut cfg = eng::config(&dir.join("x"));
    cfg.global.cluster_name = c();
    let mut nodes = vec![];
    for i in 0..2 {
        cfg.global.node_id = i + 1;
        nodes.push(m.client(&cfg).await);
    }
    if g.chance(0.3) {
        let _ = nodes[0].use_tenant("").await;
    }
    let mut gn = gen(&dir.join("y"), port, false);
    gn.limiters = true;
    World { m, nodes, gn, log: vec![] }
}

async fn raw(m: &Meta, cmd: &WriteCommand) -> String {
    m.sm.write().await.process_write_command(cmd).await
}

async fn history(ctx: &mut Ctx, g: &mut StdRng, h: usize, rounds: usize, port: u16) -> Option<Vec<String>> {
    let dir = Scratch::new("E05");
    let mut w = world(&dir.sub("w"), port, g).await;
    // something to work on
    let mut m = Model::default();
    for _ in 0..60 {
        let cmd = w.gn.cmd(g, &m);
        raw(&w.m, &cmd).await;
        w.log.push(jv(&cmd));
        m = model(&*w.m.sm.read().await);
    }
    let mut sig = vec![];
    for r in 0..rounds {
        // the nodes know the tenants, or some of them
        for n in &w.nodes {
            for t in TENANTS {
                if g.chance(0.7) {
                    let _ = n.tenant_meta(t).await;
                }
            }
        }
        // what this round is about, what is held back, and what nodes ask meanwhile
        let (about, reads, writes, looks): (&[&str], &[&str], &[&str], &[u32]) = match g.gen_range(0..8) {
            0 | 1 => (&["AlterTenant", "SetTenantIsHidden", "DropTenant", "CreateTenant", "DropDB"], &["\"Tenant\"", "TenantMetaData"], &["AlterTenant", "SetTenantIsHidden", "CreateTenant"], &[0, 4, 6]),
            2 => (&["AddMemberToTenant", "RemoveMemberFromTenant", "ReasignMemberRole", "DropUser", "CreateRole", "GrantPrivileges"], &["MemberRole", "\"User\"", "CustomRole"], &["Member"], &[1, 3, 5]),
            3 => (&["CreateTable", "UpdateTable", "DropTable", "DropDB"], &["TableSchema", "TenantMetaData"], &["Table"], &[2]),
            4 => (&["AddDataNode"], &["DataNodes"], &["AddDataNode"], &[7]),
            5 => (&["CreateUser", "AlterUser", "DropUser"], &["Users", "\"User\""], &["User"], &[3]),
            6 => (&["CreateDB", "AlterDB", "DropDB", "SetDBIsHidden"], &["TenantMetaData"], &["DB"], &[0, 2]),
            _ => (&[], &["TenantMetaData"], &["Bucket", "Vnode"], &[0, 1, 2, 3, 4, 5, 6, 7]),
        };
        let one = g.pick(&TENANTS);
        let held = g.chance(0.6).then(|| *g.pick(reads));
        let late = (held.is_none() && g.chance(0.4)).then(|| *g.pick(writes));
        let slow = g.chance(0.3);
        *w.m.gate.hold_read.lock() = held.map(|s| s.to_string());
        *w.m.gate.hold_write.lock() = late.map(|s| s.to_string());
        w.m.gate.hold_watch.store(slow, SeqCst);
        w.log.push(json!({"round": r, "held reads": held, "held writes": late, "slow watch": slow}));
        let mut tasks = vec![];
        let mut altered: BTreeSet<String> = BTreeSet::new();
        let before = truth(&*w.m.sm.read().await);
        let ops = g.gen_range(1..7);
        for _ in 0..ops {
            m = model(&*w.m.sm.read().await);
            if g.chance(0.4) {
                let n = w.nodes[g.gen_range(0..w.nodes.len())].clone();
                let k = if g.chance(0.8) { *g.pick(looks) } else { g.gen_range(0..8) };
                let t = if g.chance(0.6) { one } else { g.pick(&TENANTS) };
                let us: Vec<Oid> = m.users.values().map(|u| u["id"].to_string().parse().unwrap()).collect();
                let u = if us.is_empty() { 5 } else { *g.pick(&us) };
                w.log.push(json!({"look": k, "tenant": t}));
                ctx.count("looks", 1);
                tasks.push(tokio::spawn(async move {
                    look(&n, k, t, u).await;
                    Done::Yes
                }));
                if g.chance(0.7) {
                    tokio::time::sleep(Duration::from_millis(g.gen_range(0..6))).await;
                }
                continue;
            }
            let mut cmd = w.gn.cmd(g, &m);
            if g.chance(0.75) {
                for _ in 0..60 {
                    if about.is_empty() || about.contains(&kind(&cmd).as_str()) && (jv(&cmd).to_string().contains(one) || kind(&cmd).contains("User") || kind(&cmd).contains("Node")) {
                        break;
                    }
                    cmd = w.gn.cmd(g, &m);
                }
            }
            // a role may be called anything
            if let WriteCommand::CreateRole(_, r, ..) = &mut cmd {
                if let (true, Some(u)) = (g.chance(0.3), m.users.values().next()) {
                    *r = u["id"].to_string();
                }
            }
            let k = kind(&cmd);
            // of the changes that decide whether a tenant exists one in a round
            let whose = match &cmd {
                WriteCommand::DropTenant(_, t) => Some(t.clone()),
                WriteCommand::CreateTenant(_, t) => Some(t.name().to_string()),
                _ => None,
            };
            if whose.is_some_and(|t| !altered.insert(t)) {
                continue;
            }
            sig.push(k.clone());
            let at = g.gen_range(0..3usize);
            w.log.push(json!({"by": if at < 2 { json!(at) } else { json!("another") }, "command": jv(&cmd)}));
            ctx.count(&format!("changes by {}", if at < 2 { "a node" } else { "another node" }), 1);
            if at < 2 {
                let (n, m) = (w.nodes[at].clone(), w.m.clone());
                let t = tokio::spawn(async move {
                    let d = by_node(&n, &cmd).await;
                    if let Done::No = d {
                        raw(&m, &cmd).await;
                    }
                    d
                });
                if held.is_none() && late.is_none() && g.chance(0.5) {
                    tasks.push(tokio::spawn(std::future::ready(t.await.unwrap_or(Done::Yes))));
                } else {
                    tasks.push(t);
                    tokio::time::sleep(Duration::from_millis(g.gen_range(0..6))).await;
                }
            } else {
                raw(&w.m, &cmd).await;
            }
        }
        let mut replaced = false;
        if g.chance(0.08) {
            let mut sm = w.m.sm.write().await;
            *sm = open(&dir.sub("w").join("m"));
            w.log.push(json!("service started anew"));
            ctx.count("service restarts", 1);
        } else if g.chance(0.08) {
            // the service's replica was behind and gets a snapshot
            replaced = true;
            let mut sm = w.m.sm.write().await;
            let s = sm.create_snapshot(1).await.expect("harness: snapshot");
            let d = dir.sub(&format!("o{r}"));
            let mut o = open(&d);
            o.restore(&s.0).await.expect("harness: restore");
            for _ in 0..g.gen_range(1..5) {
                let cmd = w.gn.cmd(g, &model(&o));
                o.process_write_command(&cmd).await;
                w.log.push(json!({"by": "snapshot", "command": jv(&cmd)}));
            }
            let s = o.create_snapshot(2).await.expect("harness: snapshot");
            sm.restore(&s.0).await.expect("harness: restore");
            ctx.count("snapshots taken in by the service", 1);
        }
        if held.is_some() || late.is_some() {
            tokio::time::sleep(Duration::from_millis(g.gen_range(0..20))).await;
        }
        *w.m.gate.hold_read.lock() = None;
        *w.m.gate.hold_write.lock() = None;
        w.m.gate.hold_watch.store(false, SeqCst);
        for t in tasks {
            let Ok(Ok(Done::Dropped(t, said))) = tokio::time::timeout(Duration::from_secs(20), t).await else { continue };
            if replaced {
                continue;
            }
            let was = before.tenants.contains_key(&t);
            let there = truth(&*w.m.sm.read().await).tenants.contains_key(&t);
            ctx.count("tenants dropped by a node", was as u64);
            if there || said != was {
                ctx.violation("cache:drop-tenant", json!({"history": h, "round": r, "what": format!("{t}, which existed: {was}, was dropped by a node: {said}; exists now: {there}"), "log": w.log}));
                return None;
            }
        }
        if let Some((i, k, d)) = settle(&w, ctx, Duration::from_secs(8)).await {
            ctx.violation(&format!("cache:{k}"), json!({"history": h, "round": r, "node": i, "what": d, "log": w.log}));
            return None;
        }
        ctx.count("quiet points", 1);
    }
    ctx.count("reads held back", w.m.gate.held_reads.load(SeqCst));
    ctx.count("writes whose answer was held back", w.m.gate.held_writes.load(SeqCst));
    ctx.count("full synchronisations", w.m.gate.full_syncs.load(SeqCst));
    Some(sig)
}

/// until the node has been told of all that was changed so far
async fn told(w: &World, n: &MetaRef, mark: &mut u64) {
    *mark += 1;
    let node = NodeInfo { id: 100 + *mark, grpc_addr: format!("127.0.1.{mark}:{}", w.gn.port) };
    raw(&w.m, &WriteCommand::AddDataNode(c(), node.clone())).await;
    let t0 = Instant::now();
    while t0.elapsed() < Duration::from_secs(5) {
        if n.data_nodes().await.iter().any(|x| x.id == node.id) {
            return;
        }
        tokio::time::sleep(Duration::from_millis(2)).await;
    }
}

/// A node asks `k`; its answer is late, and comes after the node was told of a change.
async fn late(ctx: &mut Ctx, g: &mut StdRng, k: usize, port: u16) -> bool {
    let dir = Scratch::new("E05");
    let mut w = world(&dir.sub("w"), port, g).await;
    let mut m = Model::default();
    let mut mark = 0;
    // until there is what the question is about
    for _ in 0..3000 {
        let ok = m.tenants.values().any(|t| {
            !t.t.options().get_tenant_is_hidden() && t.members.keys().any(|u| m.users.values().any(|x| x["id"].to_string() == *u)) && t.dbs.get("dbs1").is_some_and(|d| d.tables.get("tab1").is_some_and(|t| t.get("TsKvTableSchema").is_some()))
        });
        if ok {
            break;
        }
        let cmd = w.gn.cmd(g, &m);
        raw(&w.m, &cmd).await;
        w.log.push(jv(&cmd));
        m = model(&*w.m.sm.read().await);
    }
    let Some((tn, t)) = m.tenants.iter().find(|(_, t)| !t.t.options().get_tenant_is_hidden() && !t.members.is_empty() && t.dbs.get("dbs1").is_some_and(|d| d.tables.contains_key("tab1"))) else { return true };
    let (tn, n) = (tn.clone(), w.nodes[0].clone());
    let u: Oid = t.members.keys().find(|u| m.users.values().any(|x| x["id"].to_string() == **u)).unwrap_or(t.members.keys().next().unwrap()).parse().unwrap();
    if k < 2 {
        let _ = n.tenant_meta(&tn).await;
        told(&w, &n, &mut mark).await;
    }
    let (hold, look_at) = [("MemberRole", 5), (tn.as_str(), 2), ("TenantMetaData", 0), ("\"Tenant\"", 6)][k];
    let hold = hold.to_string();
    let gate = w.m.gate.clone();
    gate.hold_max.store(1, SeqCst);
    *gate.hold_read.lock() = Some(hold.clone());
    let (n2, t2) = (n.clone(), tn.clone());
    let ask = tokio::spawn(async move { look(&n2, look_at, &t2, u).await });
    let t0 = Instant::now();
    while gate.holding.load(SeqCst) == 0 && t0.elapsed() < Duration::from_secs(2) && !ask.is_finished() {
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
    let held = gate.holding.load(SeqCst);
    if held == 0 {
        *gate.hold_read.lock() = None;
    }
    let cmds = match k {
        0 => vec![WriteCommand::RemoveMemberFromTenant(c(), u, tn.clone())],
        1 => loop {
            let x = w.gn.cmd(g, &m);
            if let WriteCommand::UpdateTable(_, t, s) = &x {
                if *t == tn && s.db() == "dbs1" && s.name() == "tab1" {
                    break vec![x];
                }
            }
        },
        _ => loop {
            let x = w.gn.cmd(g, &m);
            if let WriteCommand::AlterTenant(_, t, o) = &x {
                if *t == tn && limits(&Tenant::new(1, tn.clone(), o.clone())) != limits(&m.tenants[&tn].t) {
                    break vec![x];
                }
            }
        },
    };
    for x in &cmds {
        raw(&w.m, x).await;
        w.log.push(json!({"by": "another", "command": jv(x)}));
    }
    if k == 3 {
        let _ = n.tenant_meta(&tn).await;
    }
    told(&w, &n, &mut mark).await;
    *gate.hold_read.lock() = None;
    let _ = ask.await;
    gate.hold_max.store(0, SeqCst);
    if let Some((i, what, d)) = settle(&w, ctx, Duration::from_secs(6)).await {
        ctx.violation(&format!("cache:{what}"), json!({"late answer": hold, "node": i, "what": d, "log": w.log}));
        return false;
    }
    ctx.count(["late answers: member", "late answers: table", "late answers: tenant metadata", "late answers: limits"][k], held);
    true
}

pub fn e05(ctx: &mut Ctx) {
    ctx.level("exploration");
    ctx.rule("once changes stop, each node's tenants, their options, databases, tables, buckets, members, roles' privileges, users, data nodes and limiters are those of the metadata service");
    let port = rt().block_on(ping::serve());
    let mut g = ctx.rng("E05");
    for _ in 0..ctx.n(3, 8) {
        for k in 0..4 {
            if !rt().block_on(late(ctx, &mut g, k, port)) {
                return;
            }
        }
    }
    for h in 0..ctx.n(16, 12) {
        let r = rt().block_on(history(ctx, &mut g, h, 14, port));
        let Some(sig) = r else { return };
        ctx.case(Some(&sig));
        ctx.sample("history", || json!(sig.iter().take(20).collect::<Vec<_>>()));
    }
    ctx.need("quiet points", 150);
    ctx.need("cached values compared", 3000);
    ctx.need("reads held back", 30);
    ctx.need("late answers: member", 1);
    ctx.need("late answers: table", 1);
    ctx.need("tenants dropped by a node", 2);
    ctx.need("service restarts", 3);
    ctx.need("snapshots taken in by the service", 3);
}
