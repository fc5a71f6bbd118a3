//! Q03: several data nodes write to the same tables, and add columns to them, while what they
//! know of the schemas is late. Whatever the order in which the meta store accepts the
//! changes, an acknowledged row comes back with its values under its names.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::Ordering;
use std::time::Duration;

use eng::{ctx, db_schema, write_cmd, Eng, Meta, OutRow, Row, Scan, Scratch, Val, DB};
use eng::FieldValue;
use meta::store::command::WriteCommand;
use models::schema::external_table_schema::ExternalTableSchema;
use models::schema::table_schema::TableSchema;
use models::schema::tskv_table_schema::ColumnType;
use models::ValueType;
use mon::rand::rngs::StdRng;
use mon::rand::Rng;
use mon::{json, Ctx, GenExt};

fn field(g: &mut StdRng, ty: char) -> FieldValue {
    match ty {
        'i' => FieldValue::I64(g.gen_range(-1000..1000)),
        'u' => FieldValue::U64(g.gen_range(0..1000)),
        'f' => FieldValue::F64(g.gen_range(-1000..1000) as f64 / 8.0),
        'b' => FieldValue::Bool(g.gen()),
        _ => FieldValue::Str(format!("v{}", g.gen_range(0..1000)).into_bytes()),
    }
}
fn kind(v: &FieldValue) -> ValueType {
    match v {
        FieldValue::U64(_) => ValueType::Unsigned,
        FieldValue::I64(_) => ValueType::Integer,
        FieldValue::Str(_) => ValueType::String,
        FieldValue::F64(_) => ValueType::Float,
        FieldValue::Bool(_) => ValueType::Boolean,
    }
}

struct Done {
    vnode: u32,
    row: Row,
    res: Result<(), String>,
}

pub fn q03(c: &mut Ctx) {
    c.rule("the writes of one round run at the same time on four vnodes of two nodes; the watch of the meta store is held back in most rounds; columns are only added; a case needs a schema change that was refused because another came first");
    let rt = eng::rt();
    let n = c.n(60, 20);
    rt.block_on(async {
        let s = Scratch::new("q03");
        let cfg = eng::config(s.path());
        let meta = Meta::start(&s.sub("meta")).await;
        meta.setup(&[db_schema(DB, |_| {}, |_| {}, &cfg)]).await;
        let mut nodes = vec![];
        for i in 0..2 {
            let cfg = eng::config(&s.sub(&format!("n{i}")));
            let e = Eng::open(&meta, &cfg).await;
            nodes.push(std::sync::Arc::new(e));
        }
        let vnodes = [(0usize, 11u32), (0, 12), (1, 13), (1, 14)];
        let mut index = 1u64;
        for case in 0..n {
            let mut g = c.rng(&format!("{case}"));
            let tables: Vec<String> = (0..g.gen_range(1..3)).map(|i| format!("t{case}x{i}")).collect();
            let mut done: Vec<Done> = vec![];
            let mut ts = 0i64;
            let mut keys: Vec<Vec<(Vec<(String, String)>, i64)>> = vec![vec![]; 4];
            let mut log = vec![];
            let rounds = g.gen_range(2..6);
            for r in 0..rounds {
                let hold = g.chance(0.7);
                meta.gate.hold_watch.store(hold, Ordering::SeqCst);
                log.push(format!("round {r} watch {}", if hold { "held" } else { "free" }));
                let w0 = meta.gate.writes.load(Ordering::SeqCst);
                let mut tasks = vec![];
                for (vi, (node, v)) in vnodes.into_iter().enumerate() {
                    let k = g.gen_range(0..5);
                    let flush = g.chance(0.15);
                    let mut writes = vec![];
                    for _ in 0..k {
                        let t = g.pick(&tables).clone();
                        let mut rows = vec![];
                        // mostly everyone agrees on what a column is
                        let tys: Vec<char> = ['i', 'u', 'f', 'b', 's', 'i', 'f', 's'].iter().map(|t| if g.chance(0.01) { *g.pick(&['i', 'u', 'f', 'b', 's']) } else { *t }).collect();
                        let c7_tag = g.chance(0.02);
                        for _ in 0..g.gen_range(1..4) {
                            ts += 1;
                            let mut tags = vec![("ta".to_string(), g.pick(&["a", "b"]).to_string())];
                            let mut at = ts;
                            let mut fields: Vec<(String, FieldValue)> = vec![];
                            for (i, ty) in tys.iter().enumerate() {
                                if g.chance(0.25) && !(i == 7 && c7_tag) {
                                    fields.push((format!("c{i}"), field(&mut g, *ty)));
                                }
                            }
                            for i in 0..3 {
                                if g.chance(0.15) {
                                    tags.push((format!("t{i}"), g.pick(&["x", "y"]).to_string()));
                                }
                            }
                            if c7_tag {
                                tags.push(("c7".into(), "x".into()));
                            }
                            if fields.is_empty() {
                                fields.push(("c0".into(), field(&mut g, tys[0])));
                            }
                            // sometimes a row that this vnode has already
                            if g.chance(0.25) && !keys[vi].is_empty() && !c7_tag {
                                (tags, at) = g.pick(&keys[vi]).clone();
                            }
                            if !c7_tag {
                                keys[vi].push((tags.clone(), at));
                            }
                            rows.push(Row { table: t.clone(), tags, ts: at, fields });
                        }
                        writes.push((index, rows));
                        index += 1;
                    }
                    let e = nodes[node].clone();
                    let pause = g.gen_range(0..3);
                    tasks.push(tokio::spawn(async move {
                        let mut st = e.vnode(v).await.expect("harness: vnode");
                        let mut out = vec![];
                        for (i, rows) in writes {
                            let res = st.apply(&ctx(i, false), write_cmd(&rows, 2)).await.map(|_| ()).map_err(|e| e.to_string());
                            for row in rows {
                                out.push(Done { vnode: v, row, res: res.clone() });
                            }
                            if pause > 0 {
                                tokio::time::sleep(Duration::from_millis(pause)).await;
                            }
                        }
                        if flush {
                            st.flush(true, true, false).await.expect("harness: flush");
                        }
                        out
                    }));
                }
                for t in tasks {
                    match t.await {
                        Ok(d) => done.extend(d),
                        Err(e) => c.violation("evolve:panic", json!({"case": case, "panic": e.to_string(), "log": log})),
                    }
                }
                c.count("schema changes sent", meta.gate.writes.load(Ordering::SeqCst) - w0);
            }
            meta.gate.hold_watch.store(false, Ordering::SeqCst);
            for d in &done {
                c.count(if d.res.is_ok() { "rows acknowledged" } else { "rows refused" }, 1);
            }
            let mut changes = 0;
            for t in &tables {
                let mine: Vec<&Done> = done.iter().filter(|d| d.row.table == *t).collect();
                let Some(sc) = nodes[0].schema(t).await else {
                    if mine.iter().any(|d| d.res.is_ok()) {
                        c.violation("evolve:no-table", json!({"case": case, "table": t, "log": log}));
                    }
                    continue;
                };
                changes += sc.schema_version;
                // the schema itself
                let cols = sc.columns();
                let ids: BTreeSet<_> = cols.iter().map(|c| c.id).collect();
                let names: BTreeSet<_> = cols.iter().map(|c| c.name.clone()).collect();
                if ids.len() != cols.len() || names.len() != cols.len() {
                    c.violation("evolve:column-ids", json!({"case": case, "columns": cols.iter().map(|c| format!("{} {}", c.id, c.name)).collect::<Vec<_>>()}));
                }
                let types: BTreeMap<String, ColumnType> = cols.iter().map(|c| (c.name.clone(), c.column_type.clone())).collect();
                let fits = |r: &Row| {
                    r.tags.iter().all(|(k, _)| types.get(k).map_or(true, |t| t.is_tag()))
                        && r.fields.iter().all(|(k, v)| types.get(k).map_or(true, |t| *t == ColumnType::Field(kind(v))))
                };
                // a request is refused as a whole: its rows share the result
                let mut by_req: BTreeMap<String, Vec<&Done>> = BTreeMap::new();
                for d in &mine {
                    match &d.res {
                        Ok(()) if !fits(&d.row) => c.violation("evolve:accepted-type", json!({"case": case, "row": format!("{:?}", d.row), "log": log})),
                        Err(e) => by_req.entry(e.clone()).or_default().push(d),
                        _ => {}
                    }
                }
                for (e, ds) in by_req {
                    // batches of one request may contradict one another
                    let inner = |ds: &[&Done]| {
                        let mut k: HashMap<&str, BTreeSet<String>> = HashMap::new();
                        for d in ds {
                            d.row.fields.iter().for_each(|(n, v)| {
                                k.entry(n).or_default().insert(format!("{:?}", kind(v)));
                            });
                            d.row.tags.iter().for_each(|(n, _)| {
                                k.entry(n).or_default().insert("tag".into());
                            });
                        }
                        k.values().any(|s| s.len() > 1)
                    };
                    if ds.iter().all(|d| fits(&d.row)) && !inner(&ds) {
                        c.violation("evolve:refused", json!({"case": case, "table": t, "error": e, "rows": ds.len(), "log": log, "columns": cols.iter().map(|c| format!("{} {} {:?}", c.id, c.name, c.column_type)).collect::<Vec<_>>()}));
                    }
                }
                for (node, v) in vnodes {
                    let key = |o: &OutRow| o.iter().filter(|(k, _)| *k == "time" || types[*k].is_tag()).map(|(k, v)| format!("{k}={v:?}")).collect::<Vec<_>>();
                    let mut want: BTreeMap<Vec<String>, OutRow> = BTreeMap::new();
                    for d in mine.iter().filter(|d| d.vnode == v && d.res.is_ok()) {
                        let mut o: OutRow = names.iter().map(|n| (n.clone(), Val::Null)).collect();
                        o.insert("time".into(), Val::T(d.row.ts));
                        for (k, x) in &d.row.tags {
                            o.insert(k.clone(), Val::S(x.clone()));
                        }
                        let o = want.entry(key(&o)).or_insert(o);
                        for (k, x) in &d.row.fields {
                            o.insert(k.clone(), Val::from(x));
                        }
                    }
                    let got = match nodes[node].scan(v, t, &Scan::default()).await {
                        Ok(r) => r,
                        Err(e) => {
                            c.violation("evolve:scan-error", json!({"case": case, "vnode": v, "error": e, "log": log}));
                            continue;
                        }
                    };
                    c.count("rows compared", got.len() as u64);
                    let mut wrong = vec![];
                    let mut seen = BTreeSet::new();
                    for o in &got {
                        let k = key(o);
                        let w = want.get(&k);
                        if seen.contains(&k) || w != Some(o) {
                            wrong.push(json!({"got": format!("{o:?}"), "written": format!("{w:?}")}));
                        }
                        seen.insert(k);
                    }
                    for (k, o) in &want {
                        if !seen.contains(k) {
                            wrong.push(json!({"missing": format!("{o:?}")}));
                        }
                    }
                    if !wrong.is_empty() {
                        wrong.truncate(3);
                        c.violation("evolve:rows", json!({"case": case, "vnode": v, "table": t, "wrong": wrong, "log": log, "columns": cols.iter().map(|c| format!("{} {}", c.id, c.name)).collect::<Vec<_>>()}));
                    }
                }
            }
            c.count("schema changes accepted", changes);
            let sig: Vec<_> = done.iter().map(|d| (d.row.ts, d.res.is_ok())).collect();
            c.case(Some(&sig));
        }
        // a name that another kind of table has: the write is refused, there and then
        let ext = TableSchema::ExternalTableSchema(std::sync::Arc::new(ExternalTableSchema {
            tenant: eng::TENANT.into(),
            db: DB.into(),
            name: "ext".into(),
            file_compression_type: "".into(),
            file_type: "CSV".into(),
            location: "/nowhere".into(),
            target_partitions: 1,
            table_partition_cols: vec![],
            has_header: false,
            delimiter: b',',
            schema: datafusion::arrow::datatypes::Schema::empty(),
        }));
        let r: meta::error::MetaResult<models::meta_data::TenantMetaData> = meta.write(&WriteCommand::CreateTable(eng::CLUSTER.into(), eng::TENANT.into(), ext)).await;
        r.expect("harness: external table");
        for (node, v) in vnodes {
            let e = nodes[node].clone();
            let row = Row { table: "ext".into(), tags: vec![("ta".into(), "a".into())], ts: 1, fields: vec![("c0".into(), FieldValue::I64(1))] };
            let t = tokio::spawn(async move {
                let mut st = e.vnode(v).await.expect("harness: vnode");
                st.apply(&ctx(1 << 40, false), write_cmd(&[row], 2)).await.map(|_| ()).map_err(|e| e.to_string())
            });
            let r = tokio::time::timeout(Duration::from_secs(20), t).await;
            match r {
                Ok(Ok(Err(_))) => c.count("rows refused for an external table", 1),
                r => c.violation("evolve:external", json!({"written to a name of an external table": format!("{r:?}")})),
            }
        }
        c.need("rows acknowledged", 300);
        c.need("schema changes accepted", 20);
    });
}
