//! Who may do what: an independent reading of the privilege rules against the real checks.
use std::collections::{HashMap, HashSet};
use std::sync::Arc;
use std::time::Duration;

use models::auth::auth_cache::{AuthCache, AuthCacheKey};
use models::auth::privilege::{DatabasePrivilege as D, GlobalPrivilege as G, Privilege as P, PrivilegeChecker, TenantObjectPrivilege as O};
use models::auth::role::{CustomTenantRole, SystemTenantRole, TenantRole, TenantRoleIdentifier, UserRole};
use models::auth::user::{admin_user, AuthType, User, UserDesc, UserInfo, UserOptionsBuilder};
use models::oid::Oid;
use mon::rand::rngs::StdRng;
use mon::rand::Rng;
use mon::{json, quiet, Ctx, GenExt};

#[derive(Clone, Debug, PartialEq)]
enum Role {
    Dba,
    Owner(Oid),
    Member(Oid),
    /// what it inherits, and its grants per database
    Custom(Oid, Option<SystemTenantRole>, HashMap<String, D>),
    None,
}

fn rank(d: &D) -> u8 {
    match d {
        D::Read => 1,
        D::Write => 2,
        D::Full => 3,
    }
}

const DBS: [&str; 3] = ["public", "db1", "db2"];
const DP: [D; 3] = [D::Read, D::Write, D::Full];

/// what the documentation of roles says, written independently
fn allowed(me: Oid, role: &Role, want: &P<Oid>) -> bool {
    if let P::Global(G::User(Some(u))) = want {
        if *u == me {
            return true;
        }
    }
    let owner = |t: Oid, want: &P<Oid>| match want {
        P::Global(G::Tenant(Some(x))) => *x == t,
        P::TenantObject(_, Some(x)) => *x == t,
        _ => false,
    };
    let member = |t: Oid, want: &P<Oid>| matches!(want, P::TenantObject(O::Database(D::Read, _), Some(x)) if *x == t);
    match role {
        Role::Dba => true,
        Role::Owner(t) => owner(*t, want),
        Role::Member(t) => member(*t, want),
        Role::Custom(t, base, grants) => {
            let base = match base {
                Some(SystemTenantRole::Owner) => owner(*t, want),
                Some(SystemTenantRole::Member) => member(*t, want),
                None => false,
            };
            base || matches!(want, P::TenantObject(O::Database(d, Some(db)), Some(x)) if x == t && grants.get(db).is_some_and(|g| rank(g) >= rank(d)))
        }
        Role::None => false,
    }
}

fn wants(ts: &[Oid], us: &[Oid]) -> Vec<P<Oid>> {
    let mut w = vec![P::Global(G::System), P::Global(G::User(None)), P::Global(G::Tenant(None))];
    w.extend(us.iter().map(|u| P::Global(G::User(Some(*u)))));
    w.extend(ts.iter().map(|t| P::Global(G::Tenant(Some(*t)))));
    let mut objs = vec![O::System, O::MemberFull, O::RoleFull];
    for d in DP {
        objs.push(O::Database(d.clone(), None));
        objs.extend(DBS.iter().map(|b| O::Database(d.clone(), Some(b.to_string()))));
    }
    for o in objs {
        w.push(P::TenantObject(o.clone(), None));
        w.extend(ts.iter().map(|t| P::TenantObject(o.clone(), Some(*t))));
    }
    w
}

fn role(g: &mut StdRng, ts: &[Oid]) -> Role {
    let t = *g.pick(ts);
    match g.gen_range(0..8) {
        0 => Role::Dba,
        1 => Role::Owner(t),
        2 => Role::Member(t),
        3 => Role::None,
        _ => {
            let base = match g.gen_range(0..3) {
                0 => None,
                1 => Some(SystemTenantRole::Owner),
                _ => Some(SystemTenantRole::Member),
            };
            Role::Custom(t, base, HashMap::new())
        }
    }
}

pub fn e03(cx: &mut Ctx) {
    cx.rule("a user may do exactly what the user's role and grants say, checked over every privilege of every object");
    cx.assume("bcrypt is replaced by a stand-in with the same contract");
    let mut g = cx.rng("e03");
    for _ in 0..cx.n(400, 20) {
        let ts: Vec<Oid> = (0..3).map(|_| g.gen()).collect();
        let us: Vec<Oid> = (0..2).map(|_| g.gen()).collect();
        let mut r = role(&mut g, &ts);
        let mut log = vec![format!("{r:?}")];
        let res = quiet(|| -> Option<serde_json::Value> {
            let mut custom = match &r {
                Role::Custom(_, base, _) => Some(CustomTenantRole::new(g.gen::<Oid>(), "r".into(), base.clone(), HashMap::new())),
                _ => None,
            };
            for _ in 0..if custom.is_some() { g.gen_range(1..8) } else { 1 } {
                if let (Some(c), Role::Custom(_, _, grants)) = (&mut custom, &mut r) {
                    let (db, d) = (g.pick(&DBS).to_string(), g.pick(&DP).clone());
                    if g.chance(0.6) {
                        log.push(format!("grant {d:?} on {db}"));
                        c.grant_privilege(db.clone(), d.clone()).unwrap();
                        grants.insert(db, d);
                    } else {
                        log.push(format!("revoke {d:?} on {db}"));
                        let had = grants.get(&db) == Some(&d);
                        let ok = c.revoke_privilege(&db, &d).is_ok_and(|x| x);
                        if had {
                            grants.remove(&db);
                        }
                        if ok != had {
                            return Some(json!({"revoked": ok, "had": had}));
                        }
                    }
                    if c.additional_privileges() != grants {
                        return Some(json!({"grants": format!("{:?}", c.additional_privileges()), "expected": format!("{grants:?}")}));
                    }
                    // stored and read back
                    *c = serde_json::from_str(&serde_json::to_string(c).unwrap()).unwrap();
                }
                let privs: HashSet<P<Oid>> = match &r {
                    Role::Dba => UserRole::Dba.to_privileges(),
                    Role::Owner(t) => TenantRole::System(SystemTenantRole::Owner).to_privileges(t),
                    Role::Member(t) => UserRole::Public(HashMap::from([(*t, TenantRole::System(SystemTenantRole::Member))])).to_privileges(),
                    Role::Custom(t, ..) => TenantRole::Custom(Arc::new(parking_lot::RwLock::new(custom.clone().unwrap()))).to_privileges(t),
                    Role::None => HashSet::new(),
                };
                let desc = UserDesc::new(us[0], "u".into(), Default::default(), false);
                let user = if r == Role::Dba && g.chance(0.5) { admin_user(desc, None) } else { User::new(desc, privs, None) };
                let user: User = serde_json::from_str(&serde_json::to_string(&user).unwrap()).unwrap();
                for w in wants(&ts, &us) {
                    let (got, want) = (user.check_privilege(&w), allowed(us[0], &r, &w));
                    cx.count(if want { "allowed" } else { "denied" }, 1);
                    if got != want {
                        return Some(json!({"privilege": format!("{w:?}"), "granted": got, "should be": want}));
                    }
                    // a privilege always covers itself
                    if !w.check_privilege(&w) {
                        return Some(json!({"privilege does not cover itself": format!("{w:?}")}));
                    }
                }
                for t in &ts {
                    let tp = |o: O| P::TenantObject(o, Some(*t));
                    if user.can_access_system(*t) != allowed(us[0], &r, &tp(O::System)) || user.can_access_role(*t) != allowed(us[0], &r, &tp(O::RoleFull)) {
                        return Some(json!({"shortcut differs": t.to_string()}));
                    }
                    for db in DBS {
                        if user.can_read_database(*t, db) != allowed(us[0], &r, &tp(O::Database(D::Read, Some(db.into())))) {
                            return Some(json!({"shortcut differs": db}));
                        }
                    }
                }
            }
            None
        });
        cx.case(Some(&log));
        match res {
            Ok(None) => {}
            Ok(Some(d)) => cx.violation("privilege", json!({"log": log, "what": d})),
            Err(e) => cx.violation("privilege-panic", json!({"log": log, "panic": e})),
        }
        cx.sample("roles", || json!(log));
    }
    // names of system roles read back
    for r in [SystemTenantRole::Owner, SystemTenantRole::Member] {
        if SystemTenantRole::try_from(r.to_string().as_str()) != Ok(r.clone()) || TenantRoleIdentifier::System(r.clone()).name() != r.name() {
            cx.violation("role-name", json!({"role": r.to_string()}));
        }
    }
    // passwords
    let pw = |g: &mut StdRng| if g.chance(0.1) { String::new() } else { g.edgy_string(16) };
    for _ in 0..cx.n(150, 10) {
        let (real, tried) = (pw(&mut g), pw(&mut g));
        let r = quiet(|| {
            let o = UserOptionsBuilder::default().password(real.clone()).unwrap().build().unwrap();
            let check = |p: &str| AuthType::from(&o).access_check(&UserInfo { user: "u".into(), password: p.into(), private_key: None }).is_ok();
            let mut hidden = o.clone();
            hidden.hidden_password();
            let shown = serde_json::to_string(&hidden).unwrap();
            (check(&real), check(&tried), o.hash_password().unwrap().contains(&real) && real.chars().count() >= 9, shown.contains(o.hash_password().unwrap()))
        });
        cx.case(Some(&(&real, &tried)));
        cx.count("passwords checked", 2);
        if r != Ok((true, real == tried, false, false)) {
            cx.violation("password", json!({"password": real, "tried": tried, "(own accepted, tried accepted, kept in clear, hash shown)": format!("{r:?}")}));
        }
    }
    if AuthType::HashPassword(None).access_check(&UserInfo { user: "u".into(), password: "".into(), private_key: None }).is_ok()
        || AuthType::Rsa("k").access_check(&UserInfo { user: "u".into(), password: "".into(), private_key: None }).is_ok()
    {
        cx.violation("no-credentials", json!({}));
    }
    // cached logins end with their time to live and never answer for another user, password or tenant
    for _ in 0..cx.n(20, 10) {
        let ttl = if g.chance(0.5) { None } else { Some(Duration::from_millis(30)) };
        let cap = g.gen_range(1..6usize);
        let cache: AuthCache<AuthCacheKey, u64> = AuthCache::new(cap, ttl);
        let key = |u: u8, p: u8, t: u8| AuthCacheKey::new(&UserInfo { user: format!("u{u}"), password: if p == 0 { String::new() } else { format!("p{p}") }, private_key: None }, format!("t{t}"));
        let mut model: Vec<((u8, u8, u8), u64)> = vec![];
        let t0 = std::time::Instant::now();
        let mut log = vec![];
        let mut bad = None;
        for i in 0..g.gen_range(5..60u64) {
            let k = (g.gen_range(0..3u8), g.gen_range(0..3u8), g.gen_range(0..2u8));
            match g.gen_range(0..8) {
                0..=2 => {
                    cache.insert(key(k.0, k.1, k.2), i);
                    model.retain(|e| e.0 != k);
                    model.push((k, i));
                    if model.len() > cap {
                        model.remove(0);
                    }
                    log.push(format!("insert {k:?} {i}"));
                }
                3 => {
                    let had = model.iter().any(|e| e.0 == k);
                    model.retain(|e| e.0 != k);
                    log.push(format!("remove {k:?}"));
                    if cache.remove(&key(k.0, k.1, k.2)) != had {
                        bad = Some(format!("remove {k:?}: had {had}"));
                    }
                }
                4 if g.chance(0.1) => {
                    cache.clear();
                    model.clear();
                    log.push("clear".into());
                }
                _ => {
                    let got = cache.get(&key(k.0, k.1, k.2));
                    let want = model.iter().position(|e| e.0 == k).map(|p| {
                        let e = model.remove(p);
                        model.push(e);
                        e.1
                    });
                    log.push(format!("get {k:?}"));
                    // an entry may be gone by time, and is never another's
                    if got != want && !(got.is_none() && ttl.is_some_and(|t| t0.elapsed() >= t)) {
                        bad = Some(format!("get {k:?} gave {got:?}, not {want:?}"));
                    }
                    cx.count("cached logins looked up", 1);
                }
            }
        }
        if let Some(t) = ttl {
            std::thread::sleep(t + Duration::from_millis(1));
            for (k, _) in &model {
                if cache.get(&key(k.0, k.1, k.2)).is_some() {
                    bad = Some(format!("{k:?} outlived its time"));
                }
            }
        }
        cx.case(Some(&log));
        if let Some(b) = bad {
            cx.violation("auth-cache", json!({"capacity": cap, "log": log, "bad": b}));
        }
    }
    cx.need("allowed", 10000);
    cx.need("denied", 10000);
    cx.need("cached logins looked up", 100);
}
