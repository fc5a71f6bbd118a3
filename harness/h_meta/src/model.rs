//! What the metadata service promises, command by command: a model of its state, the answer
//! every command must get, and the reads that must follow from it.
use std::collections::{BTreeMap, BTreeSet};

use meta::store::command::*;
use models::auth::role::{SystemTenantRole, TenantRoleIdentifier};
use models::meta_data::*;
use models::oid::Identifier;
use models::schema::database_schema::DatabaseSchema;
use models::schema::query_info::QueryInfo;
use models::schema::resource_info::ResourceInfo;
use models::schema::table_schema::TableSchema;
use models::schema::tenant::Tenant;
use mon::json;
use serde_json::Value as J;

pub fn jv<T: serde::Serialize>(t: &T) -> J {
    // by way of text: a Value cannot hold the 128-bit ids exactly, but near enough to tell them apart
    serde_json::to_string(t).and_then(|s| serde_json::from_str(&s)).unwrap_or_else(|e| panic!("harness: json: {e}"))
}

#[derive(Clone)]
pub struct Db {
    pub schema: DatabaseSchema,
    pub tables: BTreeMap<String, J>,
    pub buckets: BTreeMap<u32, BucketInfo>,
}

#[derive(Clone)]
pub struct Ten {
    pub t: Tenant,
    pub roles: BTreeMap<String, J>,
    pub members: BTreeMap<String, TenantRoleIdentifier>,
    pub dbs: BTreeMap<String, Db>,
}

#[derive(Clone, Default)]
pub struct Model {
    pub tenants: BTreeMap<String, Ten>,
    pub users: BTreeMap<String, J>,
    pub nodes: BTreeMap<u64, NodeInfo>,
    pub metrics: BTreeMap<u64, NodeMetrics>,
    pub res: BTreeMap<String, ResourceInfo>,
    pub mark: Option<(u64, bool)>,
    pub queries: BTreeMap<u64, QueryInfo>,
    /// every id ever given out
    pub ids: BTreeSet<u32>,
    pub seen: Seen,
    pub pending_leader: Option<(String, String, u32, u32)>,
    /// a bucket went away because its last vnode did
    pub dropped: bool,
}

#[derive(Clone, Default)]
pub struct Seen {
    pub buckets: u64,
    pub reused: u64,
    pub clipped: u64,
    pub sets: u64,
    pub vnodes: u64,
}

/// the answer a command must get
#[derive(Debug)]
enum W {
    Ok(J),
    Err(&'static str),
}

fn opts_hidden(t: &Tenant, h: bool) -> Tenant {
    let mut o = t.options().clone();
    o.set_tenant_is_hidden(h);
    Tenant::new(*t.id(), t.name().to_string(), o)
}

fn table_key(s: &TableSchema) -> (String, String) {
    (s.db().to_string(), s.name().to_string())
}

fn version_of(j: &J) -> Option<u64> {
    j["TsKvTableSchema"]["schema_version"].as_u64()
}

/// roles get an id from the service, which is not compared
pub fn no_id(mut j: J) -> J {
    if let Some(o) = j.as_object_mut() {
        o.remove("id");
    }
    j
}

/// collections of the answer in one order, versions taken out
fn norm_meta(j: &J) -> J {
    let mut j = j.clone();
    let Some(o) = j.as_object_mut() else { return j };
    o.remove("version");
    if let Some(r) = o.get_mut("roles").and_then(|r| r.as_object_mut()) {
        for (_, v) in r.iter_mut() {
            *v = no_id(v.take());
        }
    }
    if let Some(d) = o.get_mut("dbs").and_then(|r| r.as_object_mut()) {
        for (_, v) in d.iter_mut() {
            if let Some(b) = v.get_mut("buckets").and_then(|b| b.as_array_mut()) {
                b.sort_by_key(|b| b["id"].as_u64());
            }
        }
    }
    j
}

fn sorted(j: &J) -> J {
    match j {
        J::Array(a) => {
            let mut v: Vec<J> = a.iter().cloned().map(no_role_id).collect();
            v.sort_by_key(|x| x.to_string());
            J::Array(v)
        }
        x => no_role_id(x.clone()),
    }
}

fn no_role_id(j: J) -> J {
    if j.get("additional_privileges").is_some() {
        no_id(j)
    } else {
        j
    }
}

impl Ten {
    pub fn meta(&self) -> J {
        let mut dbs = serde_json::Map::new();
        for (n, d) in &self.dbs {
            dbs.insert(
                n.clone(),
                json!({
                    "schema": jv(&d.schema),
                    "tables": d.tables,
                    "buckets": d.buckets.values().map(jv).collect::<Vec<_>>(),
                }),
            );
        }
        json!({"roles": self.roles, "members": jv(&self.members), "dbs": dbs})
    }
}

impl Model {
    pub fn healthy(&self) -> Vec<u64> {
        self.nodes.keys().filter(|n| self.metrics.get(n).is_some_and(|m| m.is_healthy())).copied().collect()
    }

    fn db_ok(&self, s: &DatabaseSchema) -> Option<&'static str> {
        if s.options().replica() > self.healthy().len() as u64 {
            Some("ValidNodeNotEnough")
        } else if s.options().shard_num() == 0 {
            Some("DatabaseSchemaInvalid")
        } else {
            None
        }
    }

    fn role_known(t: &Ten, r: &TenantRoleIdentifier) -> bool {
        t.roles.contains_key(r.name()) || SystemTenantRole::try_from(r.name()).is_ok()
    }

    fn set_mark(&mut self, n: u64, l: bool) -> W {
        let (on, ol) = self.mark.unwrap_or((0, false));
        if (l && ol) || (!l && on != n) {
            W::Err("ResourceInfosMarkIsLock")
        } else {
            self.mark = Some((n, l));
            W::Ok(J::Null)
        }
    }

    /// Take the command in; say what is wrong with the answer.
    pub fn apply(&mut self, c: &WriteCommand, answer: &J) -> Result<(), String> {
        use WriteCommand::*;
        let none = W::Ok(J::Null);
        let want = match c {
            RetainID(_, n) => {
                let Some(id) = answer["Ok"].as_u64() else { return Err("no id".into()) };
                return self.take_ids(id as u32, *n);
            }
            AddDataNode(_, n) => {
                if self.nodes.values().any(|x| x.id != n.id && x.grpc_addr == n.grpc_addr) {
                    W::Err("DataNodeExist")
                } else {
                    self.nodes.insert(n.id, n.clone());
                    self.set_mark(n.id, true);
                    none
                }
            }
            ReportNodeMetrics(_, m) => {
                self.metrics.insert(m.id, m.clone());
                none
            }
            CreateDB(_, t, s) | AlterDB(_, t, s) => {
                let create = matches!(c, CreateDB(..));
                let e = self.db_ok(s);
                let ten = self.tenants.get_mut(t).expect("harness: tenant");
                let n = s.database_name().to_string();
                match (create, ten.dbs.contains_key(&n), e) {
                    (true, true, _) => W::Err("DatabaseAlreadyExists"),
                    (false, false, _) => W::Err("DatabaseNotFound"),
                    (_, _, Some(e)) => W::Err(e),
                    (_, _, None) => {
                        ten.dbs.entry(n).or_insert_with(|| Db { schema: s.clone(), tables: Default::default(), buckets: Default::default() }).schema = s.clone();
                        W::Ok(ten.meta())
                    }
                }
            }
            SetDBIsHidden(_, t, d, h) => {
                let ten = self.tenants.get_mut(t).expect("harness: tenant");
                match ten.dbs.get_mut(d) {
                    None => W::Err("DatabaseNotFound"),
                    Some(x) => {
                        x.schema.set_db_is_hidden(*h);
                        W::Ok(ten.meta())
                    }
                }
            }
            DropDB(_, t, d) => {
                self.tenants.get_mut(t).expect("harness: tenant").dbs.remove(d);
                none
            }
            CreateTable(_, t, s) => {
                let ten = self.tenants.get_mut(t).expect("harness: tenant");
                let (d, n) = table_key(s);
                match ten.dbs.get_mut(&d) {
                    None => W::Err("DatabaseNotFound"),
                    Some(x) if x.tables.contains_key(&n) => W::Err("TableAlreadyExists"),
                    Some(x) => {
                        x.tables.insert(n, jv(s));
                        W::Ok(ten.meta())
                    }
                }
            }
            UpdateTable(_, t, s) => {
                let ten = self.tenants.get_mut(t).expect("harness: tenant");
                let (d, n) = table_key(s);
                match ten.dbs.get_mut(&d).and_then(|x| x.tables.get_mut(&n)) {
                    None => W::Err("TableNotFound"),
                    Some(x) => match (version_of(x), version_of(&jv(s))) {
                        (Some(a), Some(b)) if a + 1 == b => {
                            *x = jv(s);
                            none
                        }
                        (Some(_), Some(_)) => W::Err("UpdateTableConflict"),
                        _ => W::Err("NotSupport"),
                    },
                }
            }
            DropTable(_, t, d, n) => {
                let ten = self.tenants.get_mut(t).expect("harness: tenant");
                match ten.dbs.get_mut(d).and_then(|x| x.tables.remove(n)) {
                    None => W::Err("TableNotFound"),
                    Some(_) => none,
                }
            }
            CreateBucket(_, t, d, ts) => return self.create_bucket(t, d, *ts, answer),
            DeleteBucket(_, t, d, id) => {
                if let Some(x) = self.tenants.get_mut(t).and_then(|t| t.dbs.get_mut(d)) {
                    x.buckets.remove(id);
                }
                none
            }
            CreateUser(_, u) => {
                if self.users.contains_key(u.name()) {
                    W::Err("UserAlreadyExists")
                } else {
                    self.users.insert(u.name().into(), jv(u));
                    none
                }
            }
            AlterUser(_, n, o) => match self.users.get_mut(n) {
                None => W::Err("UserNotFound"),
                Some(u) => {
                    // what the command does not mention stays
                    for (k, v) in jv(o).as_object().unwrap() {
                        if !v.is_null() {
                            u["options"][k] = v.clone();
                        }
                    }
                    none
                }
            },
            RenameUser(..) | RenameTenant(..) => W::Err("NotSupport"),
            DropUser(_, n) => match self.users.remove(n) {
                None => W::Ok(false.into()),
                Some(u) => {
                    // nothing the user was is left
                    let id = u["id"].to_string();
                    for t in self.tenants.values_mut() {
                        t.members.remove(&id);
                    }
                    W::Ok(true.into())
                }
            },
            CreateTenant(_, t) => {
                if self.tenants.contains_key(t.name()) {
                    W::Err("TenantAlreadyExists")
                } else {
                    self.tenants.insert(t.name().into(), Ten { t: t.clone(), roles: Default::default(), members: Default::default(), dbs: Default::default() });
                    none
                }
            }
            AlterTenant(_, n, o) => match self.tenants.get_mut(n) {
                Some(t) if !t.t.options().get_tenant_is_hidden() => {
                    t.t = Tenant::new(*t.t.id(), n.clone(), o.clone());
                    W::Ok(jv(&t.t))
                }
                _ => W::Err("TenantNotFound"),
            },
            SetTenantIsHidden(_, n, h) => match self.tenants.get_mut(n) {
                Some(t) => {
                    t.t = opts_hidden(&t.t, *h);
                    W::Ok(jv(&t.t))
                }
                None => W::Err("TenantNotFound"),
            },
            DropTenant(_, n) => {
                self.tenants.remove(n);
                none
            }
            AddMemberToTenant(_, u, r, t) => {
                let ten = self.tenants.get_mut(t).expect("harness: tenant");
                if ten.members.contains_key(&u.to_string()) {
                    W::Err("UserAlreadyExists")
                } else if !Self::role_known(ten, r) {
                    W::Err("RoleNotFound")
                } else {
                    ten.members.insert(u.to_string(), r.clone());
                    none
                }
            }
            ReasignMemberRole(_, u, r, t) => {
                let ten = self.tenants.get_mut(t).expect("harness: tenant");
                if !ten.members.contains_key(&u.to_string()) {
                    W::Err("UserNotFound")
                } else if !Self::role_known(ten, r) {
                    W::Err("RoleNotFound")
                } else {
                    ten.members.insert(u.to_string(), r.clone());
                    none
                }
            }
            RemoveMemberFromTenant(_, u, t) => match self.tenants.get_mut(t).expect("harness: tenant").members.remove(&u.to_string()) {
                Some(_) => none,
                None => W::Err("UserNotFound"),
            },
            CreateRole(_, r, sys, p, t) => {
                let ten = self.tenants.get_mut(t).expect("harness: tenant");
                if ten.roles.contains_key(r) {
                    W::Err("RoleAlreadyExists")
                } else {
                    ten.roles.insert(r.clone(), json!({"name": r, "system_role": jv(sys), "additional_privileges": jv(p)}));
                    none
                }
            }
            DropRole(_, r, t) => match self.tenants.get_mut(t).expect("harness: tenant").roles.remove(r) {
                Some(_) => W::Ok(true.into()),
                None => W::Err("RoleNotFound"),
            },
            GrantPrivileges(_, ps, r, t) => {
                let ten = self.tenants.get_mut(t).expect("harness: tenant");
                let known = ps.iter().all(|p| ten.dbs.contains_key(&p.1));
                match ten.roles.get_mut(r) {
                    None => W::Err("RoleNotFound"),
                    Some(_) if !known => W::Err("DatabaseNotFound"),
                    Some(x) => {
                        for (p, d) in ps {
                            x["additional_privileges"][d.as_str()] = jv(p);
                        }
                        none
                    }
                }
            }
            RevokePrivileges(_, ps, r, t) => {
                let ten = self.tenants.get_mut(t).expect("harness: tenant");
                match ten.roles.get_mut(r) {
                    None => W::Err("RoleNotFound"),
                    Some(x) => {
                        // all of them or none
                        let mut y = x.clone();
                        let m = y["additional_privileges"].as_object_mut().unwrap();
                        let ok = ps.iter().all(|(p, d)| m.get(d) == Some(&jv(p)) && m.remove(d).is_some());
                        if ok {
                            *x = y;
                            none
                        } else {
                            W::Err("PrivilegeCannotRevoke")
                        }
                    }
                }
            }
            UpdateVnode(a) => {
                let i = &a.vnode_info;
                match self.bucket(&i.tenant, &i.db_name, i.bucket_id) {
                    None => W::Err("BucketNotFound"),
                    Some(b) => {
                        for s in b.shard_group.iter_mut().filter(|s| s.id == i.repl_set_id) {
                            for v in s.vnodes.iter_mut().filter(|v| v.id == i.vnode_id) {
                                v.status = i.status;
                            }
                        }
                        none
                    }
                }
            }
            UpdateVnodeReplSet(a) => match self.bucket(&a.tenant, &a.db_name, a.bucket_id) {
                None => W::Err("BucketNotFound"),
                Some(b) => {
                    let mut leader_kept = true;
                    for s in b.shard_group.iter_mut().filter(|s| s.id == a.repl_id) {
                        s.vnodes.retain(|v| !a.del_info.iter().any(|d| d.id == v.id && d.node_id == v.node_id));
                        s.vnodes.extend(a.add_info.iter().cloned());
                        leader_kept &= s.vnodes.iter().any(|v| v.id == s.leader_vnode_id && v.node_id == s.leader_node_id);
                    }
                    if !leader_kept {
                        // any vnode of the set may lead now: take what the service chose, if it is one
                        let id = b.id;
                        let (t, d, r) = (a.tenant.clone(), a.db_name.clone(), a.repl_id);
                        self.pending_leader = Some((t, d, id, r));
                    }
                    self.drop_empty(&a.tenant, &a.db_name, a.bucket_id);
                    none
                }
            },
            ChangeReplSetLeader(a) => match self.bucket(&a.tenant, &a.db_name, a.bucket_id) {
                None => W::Err("BucketNotFound"),
                Some(b) => {
                    for s in b.shard_group.iter_mut().filter(|s| s.id == a.repl_id) {
                        s.leader_node_id = a.leader_node_id;
                        s.leader_vnode_id = a.leader_vnode_id;
                    }
                    none
                }
            },
            ResourceInfo(_, n, r) => {
                self.res.insert(n.clone(), r.clone());
                none
            }
            ResourceInfosMark(_, n, l) => self.set_mark(*n, *l),
            WriteQueryInfo(_, id, q) => {
                self.queries.insert(*id, q.clone());
                none
            }
            RemoveQueryInfo(_, id) => {
                self.queries.remove(id);
                none
            }
            MoveQueryInfo(_, a, b) => {
                for q in self.queries.values_mut().filter(|q| q.node_id == *a) {
                    q.node_id = *b;
                }
                none
            }
            Set { .. } | LimiterRequest { .. } => return Ok(()),
        };
        match &want {
            W::Err(e) => match answer.get("Err").and_then(|x| x.as_object()).and_then(|o| o.keys().next()) {
                Some(k) if k == e => Ok(()),
                _ => Err(format!("must be refused with {e}")),
            },
            W::Ok(v) => match answer.get("Ok") {
                Some(g) if norm_meta(g) == norm_meta(v) => Ok(()),
                Some(_) => Err(format!("must answer {}", norm_meta(v))),
                None => Err(format!("must succeed with {}", norm_meta(v))),
            },
        }
    }

    pub fn bucket(&mut self, t: &str, d: &str, id: u32) -> Option<&mut BucketInfo> {
        self.tenants.get_mut(t)?.dbs.get_mut(d)?.buckets.get_mut(&id)
    }

    fn drop_empty(&mut self, t: &str, d: &str, id: u32) {
        if let Some(db) = self.tenants.get_mut(t).and_then(|t| t.dbs.get_mut(d)) {
            if let Some(b) = db.buckets.get_mut(&id) {
                b.shard_group.retain(|s| !s.vnodes.is_empty());
                if b.shard_group.is_empty() {
                    db.buckets.remove(&id);
                self.dropped = true;
                }
            }
        }
    }

    fn take_ids(&mut self, first: u32, n: u32) -> Result<(), String> {
        for id in first..first + n {
            if !self.ids.insert(id) {
                return Err(format!("id {id} is given out twice"));
            }
        }
        Ok(())
    }

    /// Where a new bucket may lie and what it must be made of.
    fn create_bucket(&mut self, t: &str, d: &str, ts: i64, answer: &J) -> Result<(), String> {
        let healthy = self.healthy();
        let Some(db) = self.tenants.get(t).expect("harness: tenant").dbs.get(d).cloned() else {
            return match answer["Err"].get("DatabaseNotFound") {
                Some(_) => Ok(()),
                None => Err("must be refused with DatabaseNotFound".into()),
            };
        };
        let there = db.buckets.values().any(|b| b.start_time <= ts && ts < b.end_time);
        let o = db.schema.options();
        let need = o.replica();
        let err = answer.get("Err").and_then(|x| x.as_object()).and_then(|o| o.keys().next()).cloned();
        if !there {
            let want = if need > healthy.len() as u64 {
                Some("ValidNodeNotEnough")
            } else if o.shard_num() == 0 {
                Some("DatabaseSchemaInvalid")
            } else if ts < db.schema.time_to_expired() {
                Some("NotSupport")
            } else {
                None
            };
            if let Some(w) = want {
                return match err {
                    Some(e) if e == w => Ok(()),
                    _ => Err(format!("must be refused with {w}")),
                };
            }
        }
        let mut a = answer["Ok"].clone();
        a["roles"] = json!({});
        let Ok(m) = serde_json::from_str::<TenantMetaData>(&a.to_string()) else {
            return Err("must answer the tenant's metadata".into());
        };
        let Some(got) = m.dbs.get(d) else { return Err("the answer lacks the database".into()) };
        let mut fresh: Vec<&BucketInfo> = got.buckets.iter().filter(|b| !db.buckets.contains_key(&b.id)).collect();
        if there {
            self.seen.reused += 1;
            if !fresh.is_empty() {
                return Err("a second bucket for a time that has one".into());
            }
            let ten = &self.tenants[t];
            return if norm_meta(&answer["Ok"]) == norm_meta(&ten.meta()) { Ok(()) } else { Err(format!("must answer {}", norm_meta(&ten.meta()))) };
        }
        if fresh.len() != 1 {
            return Err(format!("{} new buckets", fresh.len()));
        }
        let b = fresh.pop().unwrap().clone();
        if !(b.start_time <= ts && ts < b.end_time) {
            return Err(format!("the bucket [{}, {}) does not contain {ts}", b.start_time, b.end_time));
        }
        for x in db.buckets.values() {
            if b.start_time < x.end_time && x.start_time < b.end_time {
                return Err(format!("the bucket [{}, {}) overlaps [{}, {})", b.start_time, b.end_time, x.start_time, x.end_time));
            }
        }
        let dur = o.vnode_duration().to_precision(*db.schema.config().precision());
        if dur > 0 {
            let len = b.end_time as i128 - b.start_time as i128;
            if len > dur as i128 {
                return Err(format!("the bucket [{}, {}) is longer than {dur}", b.start_time, b.end_time));
            }
            if len < dur as i128 {
                // cut off by a neighbour, or by the ends of time
                let near = db.buckets.values().any(|x| x.end_time == b.start_time || x.start_time == b.end_time);
                if !near && b.start_time != i64::MIN && b.end_time != i64::MAX {
                    return Err(format!("the bucket [{}, {}) is shorter than {dur}", b.start_time, b.end_time));
                }
                self.seen.clipped += 1;
            }
        }
        if b.shard_group.len() as u64 != o.shard_num() {
            return Err(format!("{} replica sets for {} shards", b.shard_group.len(), o.shard_num()));
        }
        let mut per_node: BTreeMap<u64, u64> = BTreeMap::new();
        self.take_ids(b.id, 1)?;
        for s in &b.shard_group {
            self.take_ids(s.id, 1)?;
            if s.vnodes.len() as u64 != need.max(1) {
                return Err(format!("{} replicas instead of {need}", s.vnodes.len()));
            }
            let nodes: BTreeSet<u64> = s.vnodes.iter().map(|v| v.node_id).collect();
            if nodes.len() != s.vnodes.len() {
                return Err(format!("two replicas of the set {} are on one node", s.id));
            }
            if let Some(n) = nodes.iter().find(|n| !healthy.contains(n)) {
                return Err(format!("a replica on node {n}, which is not healthy"));
            }
            if !s.vnodes.iter().any(|v| v.id == s.leader_vnode_id && v.node_id == s.leader_node_id) {
                return Err(format!("the leader of the set {} is none of its replicas", s.id));
            }
            for v in &s.vnodes {
                self.take_ids(v.id, 1)?;
                *per_node.entry(v.node_id).or_default() += 1;
                self.seen.vnodes += 1;
            }
            self.seen.sets += 1;
        }
        let (lo, hi) = (healthy.iter().map(|n| per_node.get(n).copied().unwrap_or(0)).min().unwrap(), per_node.values().copied().max().unwrap());
        if hi - lo > 1 {
            return Err(format!("the vnodes are spread unevenly over the nodes: {per_node:?} of {healthy:?}"));
        }
        self.seen.buckets += 1;
        let ten = self.tenants.get_mut(t).unwrap();
        ten.dbs.get_mut(d).unwrap().buckets.insert(b.id, b);
        if norm_meta(&answer["Ok"]) != norm_meta(&ten.meta()) {
            return Err(format!("must answer {}", norm_meta(&ten.meta())));
        }
        Ok(())
    }

    /// Compare every read with the model.
    pub fn reads(&mut self, cl: &str, read: &dyn Fn(&ReadCommand) -> J) -> Result<u64, String> {
        let mut n = 0;
        let c = || cl.to_string();
        let mut want = |r: ReadCommand, w: J| -> Result<(), String> {
            let a = read(&r);
            n += 1;
            match a.get("Ok") {
                Some(g) if sorted(g) == sorted(&w) => Ok(()),
                _ => Err(format!("{r:?} answers {a}, not {w}")),
            }
        };
        if let Some((t, d, b, r)) = self.pending_leader.take() {
            let a = read(&ReadCommand::ReplicationSet(c(), t.clone(), d.clone(), r));
            if let Some(s) = self.tenants.get_mut(&t).and_then(|t| t.dbs.get_mut(&d)).and_then(|d| d.buckets.get_mut(&b)).and_then(|b| b.shard_group.iter_mut().find(|s| s.id == r)) {
                let Ok(Some(g)) = serde_json::from_str::<Option<ReplicationSet>>(&a["Ok"].to_string()) else { return Err(format!("the replica set {r} cannot be read: {a}")) };
                if !s.vnodes.iter().any(|v| v.id == g.leader_vnode_id && v.node_id == g.leader_node_id) {
                    return Err(format!("the leader of the set {r} is none of its replicas: {a}"));
                }
                s.leader_vnode_id = g.leader_vnode_id;
                s.leader_node_id = g.leader_node_id;
            }
        }
        let arr = |v: Vec<J>| J::Array(v);
        want(ReadCommand::NodeMetrics(c()), arr(self.metrics.values().map(jv).collect()))?;
        let a = read(&ReadCommand::DataNodes(c()));
        if sorted(&a["Ok"][0]) != sorted(&arr(self.nodes.values().map(jv).collect())) {
            return Err(format!("the data nodes are {a}"));
        }
        want(ReadCommand::Users(c()), arr(self.users.values().cloned().collect()))?;
        for (u, v) in &self.users {
            want(ReadCommand::User(c(), u.clone()), v.clone())?;
        }
        want(ReadCommand::User(c(), "nobody".into()), J::Null)?;
        want(ReadCommand::Tenants(c()), arr(self.tenants.values().filter(|t| !t.t.options().get_tenant_is_hidden()).map(|t| jv(&t.t)).collect()))?;
        want(ReadCommand::ResourceInfos(c()), arr(self.res.values().map(jv).collect()))?;
        want(ReadCommand::ResourceInfosMark(c()), jv(&self.mark.unwrap_or((0, false))))?;
        for (k, v) in &self.res {
            want(ReadCommand::ResourceInfoByName(c(), k.clone()), jv(v))?;
        }
        for nd in 0..5u64 {
            want(ReadCommand::ResourceInfosByNodeid(c(), nd), arr(self.res.values().filter(|r| *r.get_execute_node_id() == nd).map(jv).collect()))?;
            want(ReadCommand::ReadQueryInfos(c(), nd), arr(self.queries.values().filter(|q| q.node_id == nd).map(jv).collect()))?;
        }
        for (tn, t) in &self.tenants {
            let h = t.t.options().get_tenant_is_hidden();
            want(ReadCommand::Tenant(c(), tn.clone(), true), if h { J::Null } else { jv(&t.t) })?;
            want(ReadCommand::Tenant(c(), tn.clone(), false), jv(&t.t))?;
            let a = read(&ReadCommand::TenantMetaData(c(), tn.clone()));
            if norm_meta(&a["Ok"]) != norm_meta(&t.meta()) {
                return Err(format!("the metadata of {tn} is {a}, not {}", norm_meta(&t.meta())));
            }
            want(ReadCommand::CustomRoles(c(), tn.clone()), arr(t.roles.values().cloned().collect()))?;
            for (r, v) in &t.roles {
                want(ReadCommand::CustomRole(c(), r.clone(), tn.clone()), v.clone())?;
            }
            let mut mem = serde_json::Map::new();
            for (u, v) in &self.users {
                let id = v["id"].to_string();
                if let Some(r) = t.members.get(&id) {
                    mem.insert(u.clone(), jv(r));
                }
                want(ReadCommand::MemberRole(c(), tn.clone(), id.parse().unwrap()), t.members.get(&id).map(jv).unwrap_or(J::Null))?;
            }
            want(ReadCommand::Members(c(), tn.clone()), J::Object(mem))?;
            for (dn, d) in &t.dbs {
                for (n, s) in &d.tables {
                    want(ReadCommand::TableSchema(c(), tn.clone(), dn.clone(), n.clone()), s.clone())?;
                    want(ReadCommand::ReadTableSchema(c(), tn.clone(), dn.clone(), n.clone()), s.clone())?;
                }
                want(ReadCommand::TableSchema(c(), tn.clone(), dn.clone(), "notable".into()), J::Null)?;
                for b in d.buckets.values() {
                    for s in &b.shard_group {
                        want(ReadCommand::ReplicationSet(c(), tn.clone(), dn.clone(), s.id), jv(s))?;
                    }
                }
            }
        }
        want(ReadCommand::Tenant(c(), "notenant".into(), false), J::Null)?;
        Ok(n)
    }
}
