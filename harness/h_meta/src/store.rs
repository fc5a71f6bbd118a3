//! E06: the metadata service does what its commands say; E04: buckets and their placement.
use std::path::Path;

use eng::{ping, rt, Scratch};
use meta::store::command::*;
use meta::store::storage::StateMachine;
use mon::{json, Ctx};
use serde_json::Value as J;

use crate::cmds::{c, Gen};
use crate::model::{jv, Model};

pub fn open(dir: &Path) -> StateMachine {
    StateMachine::open(dir, 1 << 30).expect("harness: state machine")
}

/// time as the service sees it
pub fn now() -> i64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as i64
}

pub fn gen(dir: &Path, port: u16, buckets: bool) -> Gen {
    Gen { cfg: eng::config(dir), port, next_oid: 100, limiters: false, buckets, now: now() }
}

pub fn kind(c: &WriteCommand) -> String {
    let s = format!("{c:?}");
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}

fn parse(s: &str) -> J {
    serde_json::from_str(s).unwrap_or_else(|e| panic!("harness: answer {s}: {e}"))
}

fn run(ctx: &mut Ctx, label: &str, histories: usize, len: usize, buckets: bool) {
    let port = rt().block_on(ping::serve());
    let mut g = ctx.rng(label);
    for h in 0..histories {
        let dir = Scratch::new(label);
        let mut sm = open(&dir.sub("m"));
        let mut m = Model::default();
        let mut gn = gen(&dir.sub("c"), port, buckets);
        let mut log: Vec<J> = vec![];
        let mut sig: Vec<String> = vec![];
        let mut at = 0u64;
        for i in 0..len {
            let cmd = gn.cmd(&mut g, &m);
            let k = kind(&cmd);
            ctx.crumb(format!("history {h} command {i} {k}"));
            let r = mon::quiet(|| rt().block_on(sm.process_write_command(&cmd)));
            let ans = match r {
                Ok(s) => parse(&s),
                Err(e) => {
                    ctx.violation("command:panic", json!({"history": h, "command": jv(&cmd), "panic": e, "before": log}));
                    return;
                }
            };
            log.push(json!({"command": jv(&cmd), "answer": if ans.to_string().len() < 800 { ans.clone() } else { json!("…") }}));
            let ok = ans.get("Ok").is_some();
            sig.push(format!("{k}{ok}"));
            ctx.count(if ok { "commands carried out" } else { "commands refused" }, 1);
            ctx.count(&format!("command {k}"), 1);
            if let Err(w) = m.apply(&cmd, &ans) {
                let n = log.len();
                ctx.violation(&format!("answer:{k}"), json!({"history": h, "what": w, "command": jv(&cmd), "answer": ans, "before": log[..n - 1]}));
                return;
            }
            if std::mem::take(&mut m.dropped) {
                ctx.count("buckets emptied", 1);
            }
            // the service is started anew, or restored from its snapshot
            if mon::GenExt::chance(&mut g, 0.03) {
                if mon::GenExt::chance(&mut g, 0.5) {
                    drop(sm);
                    sm = open(&dir.sub("m"));
                    log.push(json!("reopen"));
                    ctx.count("restarts", 1);
                }
            }
            let every = if buckets { 4 } else { 5 };
            if i % every == 0 || i + 1 == len || m.pending_leader.is_some() {
                let sm = &sm;
                match m.reads(&c(), &|r| parse(&sm.process_read_command(r))) {
                    Ok(n) => ctx.count("reads compared", n),
                    Err(w) => {
                        ctx.violation(&format!("read:after {k}"), json!({"history": h, "what": w, "commands": log}));
                        return;
                    }
                }
                let v = parse(&sm.process_read_command(&ReadCommand::DataNodes(c())))["Ok"][1].as_u64().unwrap_or(0);
                if v < at {
                    ctx.violation("version:went back", json!({"history": h, "from": at, "to": v, "commands": log}));
                    return;
                }
                at = v;
            }
        }
        ctx.count("buckets placed", m.seen.buckets);
        ctx.count("replica sets placed", m.seen.sets);
        ctx.count("vnodes placed", m.seen.vnodes);
        ctx.count("buckets found again", m.seen.reused);
        ctx.count("buckets cut by a neighbour", m.seen.clipped);
        ctx.case(Some(&sig));
        ctx.sample("history", || json!({"commands": sig.iter().take(30).collect::<Vec<_>>(), "tenants": m.tenants.len(), "users": m.users.len(), "buckets": m.seen.buckets}));
    }
}

pub fn e06(ctx: &mut Ctx) {
    ctx.level("exploration");
    ctx.rule("every command to the metadata service is answered as a model of the service says, and every read after it returns the model's state; also after a restart");
    let n = ctx.n(100, 12);
    run(ctx, "E06", n, 160, false);
    ctx.need("commands carried out", 1000);
    ctx.need("commands refused", 200);
    ctx.need("reads compared", 5000);
    ctx.need("restarts", 5);
    for k in ["CreateUser", "DropUser", "CreateTenant", "DropTenant", "AddMemberToTenant", "RevokePrivileges", "CreateTable", "UpdateTable", "CreateBucket", "UpdateVnodeReplSet"] {
        ctx.need(&format!("command {k}"), 5);
    }
}

pub fn e04(ctx: &mut Ctx) {
    ctx.level("exploration");
    ctx.rule("a bucket holds the time it was made for, overlaps no other bucket of its database, has as many replica sets as the database has shards, and as many replicas on different healthy nodes as the database asks for, one of them the leader; no id is given out twice");
    let n = ctx.n(100, 12);
    run(ctx, "E04", n, 120, true);
    ctx.need("buckets placed", 300);
    ctx.need("buckets found again", 100);
    ctx.need("buckets cut by a neighbour", 3);
    ctx.need("vnodes placed", 1000);
}
