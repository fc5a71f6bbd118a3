//! Random commands for the metadata service, about few names so that they meet.
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

use config::common::{Bucket, RequestLimiterConfig, TenantLimiterConfig, TenantObjectLimiterConfig};
use config::tskv::Config;
use eng::CLUSTER;
use meta::store::command::*;
use models::auth::privilege::DatabasePrivilege;
use models::auth::role::{SystemTenantRole, TenantRoleIdentifier};
use models::auth::user::{User, UserDesc, UserOptions};
use models::meta_data::*;
use models::node_info::NodeStatus;
use models::oid::Oid;
use models::schema::database_schema::{DatabaseConfigBuilder, DatabaseOptionsBuilder, DatabaseSchema};
use models::schema::query_info::{QueryId, QueryInfo};
use models::schema::resource_info::{ResourceOperator, ResourceStatus};
use models::schema::table_schema::TableSchema;
use models::schema::tenant::{Tenant, TenantOptions};
use models::schema::tskv_table_schema::{TableColumn, TskvTableSchema};
use mon::rand::rngs::StdRng;
use mon::rand::Rng;
use mon::{json, GenExt};
use utils::duration::CnosDuration;
use utils::precision::Precision;

use crate::model::Model;

pub const DAY: i64 = 86_400_000_000_000;

pub struct Gen {
    pub cfg: Config,
    pub port: u16,
    pub next_oid: Oid,
    /// without what depends on the clock
    pub limiters: bool,
    pub buckets: bool,
    pub now: i64,
}

pub fn c() -> String {
    CLUSTER.to_string()
}

pub fn tenant_options(g: &mut StdRng, limiters: bool) -> TenantOptions {
    let mut o = TenantOptions::default();
    if g.chance(0.5) {
        o.comment = Some(format!("about {}", g.gen_range(0..50)));
    }
    if g.chance(0.3) {
        o.drop_after = Some(CnosDuration::new_with_day(g.gen_range(1..9)));
    }
    if g.chance(0.4) {
        let oc = TenantObjectLimiterConfig {
            max_users_number: g.chance(0.5).then(|| g.gen_range(3..9)),
            max_databases: g.chance(0.5).then(|| g.gen_range(5..9)),
            max_shard_number: None,
            max_replicate_number: None,
            max_retention_time: None,
        };
        let b = |g: &mut StdRng| -> Option<Bucket> {
            g.chance(0.5).then(|| {
                serde_json::from_value(json!({
                    "local_bucket": {"max": null, "initial": 0},
                    "remote_bucket": {"max": g.gen_range(10..100), "initial": 1, "refill": 1, "interval": 100},
                }))
                .expect("harness: bucket")
            })
        };
        let rc = (limiters && g.chance(0.6)).then(|| RequestLimiterConfig {
            coord_data_in: b(g),
            coord_data_out: None,
            coord_queries: b(g),
            coord_writes: None,
            http_data_in: None,
            http_data_out: None,
            http_queries: b(g),
            http_writes: b(g),
        });
        o.limiter_config = Some(TenantLimiterConfig { object_config: g.chance(0.5).then_some(oc), request_config: rc });
    }
    o
}

pub fn user_options(g: &mut StdRng) -> UserOptions {
    let mut m = serde_json::Map::new();
    m.insert("hash_password".into(), if g.chance(0.5) { format!("h{}", g.gen_range(0..9)).into() } else { serde_json::Value::Null });
    if g.chance(0.3) {
        m.insert("must_change_password".into(), g.chance(0.5).into());
    }
    if g.chance(0.3) {
        m.insert("comment".into(), format!("c{}", g.gen_range(0..9)).into());
    }
    if g.chance(0.3) {
        m.insert("granted_admin".into(), g.chance(0.5).into());
    }
    serde_json::from_value(m.into()).expect("harness: user options")
}

pub fn name(g: &mut StdRng, kind: &str, n: u32) -> String {
    format!("{kind}{}", g.gen_range(1..=n))
}

pub fn privilege(g: &mut StdRng) -> DatabasePrivilege {
    g.pick(&[DatabasePrivilege::Read, DatabasePrivilege::Write, DatabasePrivilege::Full]).clone()
}

pub fn role_ident(g: &mut StdRng) -> TenantRoleIdentifier {
    match g.gen_range(0..4) {
        0 => TenantRoleIdentifier::System(SystemTenantRole::Owner),
        1 => TenantRoleIdentifier::System(SystemTenantRole::Member),
        _ => TenantRoleIdentifier::Custom(name(g, "rol", 3)),
    }
}

pub fn table(t: &str, d: &str, n: &str, version: u64, g: &mut StdRng) -> TableSchema {
    let mut cols = vec![TableColumn::new_time_column(0, datafusion::arrow::datatypes::TimeUnit::Nanosecond)];
    for i in 1..g.gen_range(2..5) {
        cols.push(TableColumn::new_tag_column(i, format!("tag{i}")));
    }
    let mut s = TskvTableSchema::new(t.into(), d.into(), n.into(), cols);
    s.schema_version = version;
    TableSchema::TsKvTableSchema(Arc::new(s))
}

impl Gen {
    pub fn db(&self, g: &mut StdRng, t: &str, n: &str, m: &Model) -> DatabaseSchema {
        let nodes = m.healthy().len().max(1) as u64;
        let mut o = DatabaseOptionsBuilder::new();
        o.with_ttl(if g.chance(0.5) { CnosDuration::new_with_day(g.gen_range(1..4000)) } else { CnosDuration::new_inf() });
        o.with_shard_num(if g.chance(0.05) { 0 } else { g.gen_range(1..5) });
        o.with_replica(if g.chance(0.08) { nodes + 1 } else { g.gen_range(1..=nodes) });
        o.with_vnode_duration(match g.gen_range(0..6) {
            0 => CnosDuration::new_inf(),
            1 => CnosDuration::new_with_duration(std::time::Duration::from_secs(g.gen_range(1..100_000))),
            _ => CnosDuration::new_with_day(*g.pick(&[1, 2, 3, 5, 7, 10, 30, 365])),
        });
        let mut b = DatabaseConfigBuilder::new();
        b.with_precision(*g.pick(&[Precision::NS, Precision::NS, Precision::US, Precision::MS]));
        // the precision of a database never changes
        if let Some(d) = m.tenants.get(t).and_then(|t| t.dbs.get(n)) {
            b.with_precision(*d.schema.config().precision());
        }
        DatabaseSchema::new(t, n, o.build(), Arc::new(b.build(self.cfg.clone())))
    }

    pub fn node_addr(&self, id: u64) -> String {
        format!("127.0.0.{id}:{}", self.port)
    }

    fn any_user(&self, g: &mut StdRng, m: &Model, strange: bool) -> Oid {
        let ids: Vec<Oid> = m.users.values().map(|u| u["id"].to_string().parse().unwrap()).collect();
        if ids.is_empty() || strange && g.chance(0.05) {
            self.next_oid + 1000
        } else {
            *g.pick(&ids)
        }
    }

    fn ts(&self, g: &mut StdRng, d: Option<&crate::model::Db>) -> i64 {
        let p = d.map(|d| *d.schema.config().precision()).unwrap_or(Precision::NS);
        let unit = match p {
            Precision::NS => 1,
            Precision::US => 1_000,
            Precision::MS => 1_000_000,
        };
        if let Some(d) = d {
            // around the buckets that are there
            if !d.buckets.is_empty() && g.chance(0.5) {
                let bs: Vec<_> = d.buckets.values().collect();
                let b = g.pick(&bs);
                let e = *g.pick(&[b.start_time, b.end_time]);
                let k = *g.pick(&[-1i64, 0, 1, -DAY / unit, DAY / unit, 3 * DAY / unit, -20 * DAY / unit]);
                return e.saturating_add(k).min(i64::MAX - 1);
            }
        }
        match g.gen_range(0..10) {
            0 => g.gen_range(-4000 * DAY / unit..0),
            1 => *g.pick(&[i64::MIN, i64::MIN + 1, i64::MAX - 1, -1, 0, 1]),
            2 => self.now / unit + g.gen_range(-9000..9000) * (DAY / unit),
            _ => self.now / unit + g.gen_range(-20..20) * (DAY / unit) + g.gen_range(0..DAY / unit),
        }
    }

    pub fn cmd(&mut self, g: &mut StdRng, m: &Model) -> WriteCommand {
        use WriteCommand::*;
        let w = if self.buckets && g.chance(0.6) { 40 + g.gen_range(0..20) } else { g.gen_range(0..60) };
        let tens: Vec<String> = m.tenants.keys().cloned().collect();
        if m.nodes.len() < 2 || w < 3 {
            let id = g.gen_range(1..=4);
            let addr = if g.chance(0.1) { self.node_addr(g.gen_range(1..=4)) } else { self.node_addr(id) };
            return AddDataNode(c(), NodeInfo { id, grpc_addr: addr });
        }
        if m.healthy().len() < 2 || w < 6 {
            let id = g.gen_range(1..=4);
            let status = if g.chance(0.8) { NodeStatus::Healthy } else { g.pick(&[NodeStatus::NoDiskSpace, NodeStatus::Unreachable]).clone() };
            return ReportNodeMetrics(c(), NodeMetrics { id, disk_free: *g.pick(&[1 << 30, 1 << 30, 1 << 31, 5, 0]), time: g.gen_range(0..100), status });
        }
        if tens.is_empty() || w < 8 {
            self.next_oid += 1;
            return CreateTenant(c(), Tenant::new(self.next_oid, name(g, "ten", 3), tenant_options(g, self.limiters)));
        }
        let t = g.pick(&tens).clone();
        let ten = &m.tenants[&t];
        let d = name(g, "dbs", 3);
        let db = ten.dbs.get(&d);
        let tab = name(g, "tab", 3);
        match w {
            8..=9 => AlterTenant(c(), t, tenant_options(g, self.limiters)),
            10 => SetTenantIsHidden(c(), t, g.chance(0.4)),
            // the databases of a tenant are dropped first
            11..=12 => match ten.dbs.keys().next() {
                Some(d) => DropDB(c(), t.clone(), d.clone()),
                None => DropTenant(c(), t),
            },
            13..=15 => {
                self.next_oid += 1;
                CreateUser(c(), UserDesc::new(self.next_oid, name(g, "usr", 4), user_options(g), g.chance(0.1)))
            }
            16..=17 => AlterUser(c(), name(g, "usr", 4), user_options(g)),
            18 => DropUser(c(), name(g, "usr", 4)),
            19 => {
                if g.chance(0.5) {
                    RenameUser(c(), name(g, "usr", 4), name(g, "usr", 4))
                } else {
                    RenameTenant(c(), t, name(g, "ten", 3))
                }
            }
            20..=21 => {
                let mut p = HashMap::new();
                for _ in 0..g.gen_range(0..3) {
                    p.insert(name(g, "dbs", 3), privilege(g));
                }
                let sys = g.pick(&[None, Some(SystemTenantRole::Owner), Some(SystemTenantRole::Member)]).clone();
                CreateRole(c(), name(g, "rol", 3), sys, p, t)
            }
            22 => DropRole(c(), name(g, "rol", 3), t),
            23..=24 => GrantPrivileges(c(), (0..g.gen_range(1..3)).map(|_| (privilege(g), name(g, "dbs", 3))).collect(), name(g, "rol", 3), t),
            25..=26 => {
                // what the role has, most of the time
                let r = name(g, "rol", 3);
                let has: Vec<(DatabasePrivilege, String)> = ten
                    .roles
                    .get(&r)
                    .and_then(|x| x["additional_privileges"].as_object())
                    .map(|o| o.iter().map(|(k, v)| (serde_json::from_value(v.clone()).unwrap(), k.clone())).collect())
                    .unwrap_or_default();
                let mut v: Vec<_> = has.into_iter().filter(|_| g.chance(0.6)).collect();
                if v.is_empty() || g.chance(0.3) {
                    v.push((privilege(g), name(g, "dbs", 3)));
                }
                RevokePrivileges(c(), v, r, t)
            }
            27..=30 if !m.users.is_empty() => AddMemberToTenant(c(), self.any_user(g, m, false), role_ident(g), t),
            27..=31 => RemoveMemberFromTenant(c(), self.any_user(g, m, true), t),
            32..=33 => ReasignMemberRole(c(), self.any_user(g, m, true), role_ident(g), t),
            34 => RetainID(c(), g.gen_range(1..5)),
            35 => {
                let mut r = models::schema::resource_info::ResourceInfo::new((1, d.clone()), format!("res{}", g.gen_range(1..4)), ResourceOperator::DropDatabase(t, d), &None, g.gen_range(0..5));
                r.set_status(g.pick(&[ResourceStatus::Executing, ResourceStatus::Failed, ResourceStatus::Cancel]).clone());
                ResourceInfo(c(), r.get_name().to_string(), r)
            }
            36 => ResourceInfosMark(c(), g.gen_range(0..5), g.chance(0.5)),
            37 => {
                let id = g.gen_range(1..5u64);
                let u = User::new(UserDesc::new(3, "usr1".into(), user_options(g), false), HashSet::new(), None);
                let qid: QueryId = serde_json::from_value(json!(id)).expect("harness: query id");
                WriteQueryInfo(c(), id, QueryInfo::new(qid, "select 1".into(), 1, t, d, u, g.gen_range(0..5)))
            }
            38 => RemoveQueryInfo(c(), g.gen_range(1..5)),
            39 => MoveQueryInfo(c(), g.gen_range(0..5), g.gen_range(0..5)),
            40..=42 if db.is_some() && g.chance(0.7) => AlterDB(c(), t.clone(), self.db(g, &t, &d, m)),
            40..=42 => CreateDB(c(), t.clone(), self.db(g, &t, &d, m)),
            43 => SetDBIsHidden(c(), t, d, g.chance(0.5)),
            44 if !self.buckets || g.chance(0.2) => DropDB(c(), t, d),
            44..=46 => CreateTable(c(), t.clone(), table(&t, &d, &tab, 0, g)),
            47 => {
                let v = db.and_then(|d| d.tables.get(&tab)).and_then(|x| x["TsKvTableSchema"]["schema_version"].as_u64()).unwrap_or(0);
                UpdateTable(c(), t.clone(), table(&t, &d, &tab, v + *g.pick(&[1, 1, 1, 0, 2]), g))
            }
            48 => DropTable(c(), t, d, tab),
            49..=54 => CreateBucket(c(), t, d, self.ts(g, db)),
            _ => {
                // something about a bucket that is there
                let Some(b) = db.and_then(|x| (!x.buckets.is_empty()).then(|| (*g.pick(&x.buckets.values().collect::<Vec<_>>())).clone())) else {
                    return CreateBucket(c(), t, d, self.ts(g, db));
                };
                let s = g.pick(&b.shard_group).clone();
                let v = g.pick(&s.vnodes).clone();
                let bad = g.chance(0.05);
                let bucket_id = if bad { 999_999 } else { b.id };
                match w {
                    55 => DeleteBucket(c(), t, d, bucket_id),
                    56 => UpdateVnode(UpdateVnodeArgs {
                        cluster: c(),
                        vnode_info: VnodeAllInfo {
                            vnode_id: v.id,
                            node_id: v.node_id,
                            repl_set_id: s.id,
                            bucket_id,
                            db_name: d,
                            tenant: t,
                            status: *g.pick(&[VnodeStatus::Copying, VnodeStatus::Running, VnodeStatus::Broken]),
                            start_time: b.start_time,
                            end_time: b.end_time,
                        },
                    }),
                    57 => ChangeReplSetLeader(ChangeReplSetLeaderArgs { cluster: c(), tenant: t, db_name: d, bucket_id, repl_id: s.id, leader_node_id: v.node_id, leader_vnode_id: v.id }),
                    _ => {
                        let mut del = vec![];
                        let mut add = vec![];
                        if g.chance(0.6) {
                            del.push(v.clone());
                        }
                        if g.chance(0.1) {
                            del = s.vnodes.clone();
                        }
                        if g.chance(0.5) {
                            // ids come from the counter
                            add.push(VnodeInfo::new(m.ids.iter().next_back().copied().unwrap_or(0) + 1_000_000 + g.gen_range(0..1000), g.gen_range(1..=4)));
                        }
                        UpdateVnodeReplSet(UpdateVnodeReplSetArgs { cluster: c(), tenant: t, db_name: d, bucket_id, repl_id: s.id, del_info: del, add_info: add })
                    }
                }
            }
        }
    }
}
