//! Histories of writes, deletes, schema changes, flushes, compactions and restarts against
//! one engine, compared after every few steps with a plain model of the data.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use config::tskv::Config;
use datafusion::arrow::datatypes::DataType;
use datafusion::logical_expr::{binary_expr, col, Expr, Operator};
use datafusion::scalar::ScalarValue;
use eng::*;
use models::codec::Encoding;
use models::predicate::domain::{ColumnDomains, Domain, Range, TimeRange};
use models::schema::table_schema::TableSchema;
use models::schema::tskv_table_schema::{ColumnType, TableColumn, TskvTableSchema};
use models::{SeriesKey, Tag, ValueType};
use mon::rand::rngs::StdRng;
use mon::rand::{Rng, SeedableRng};
use mon::{json, Ctx, GenExt};
use openraft::EntryPayload;
use protos::kv_service::raft_write_command::Command;
use replication::EntryStorage;
use tskv::wal::wal_store::{RaftEntry, RaftEntryStorage};
use tskv::wal::VnodeWal;
use tskv::Engine;

pub type TagMap = BTreeMap<String, String>;
type Series = BTreeMap<i64, BTreeMap<String, Val>>;

#[derive(Clone, Default, PartialEq)]
pub struct MTable {
    pub tags: BTreeSet<String>,
    pub fields: BTreeSet<String>,
    /// types of fields whose name does not tell it
    pub types: BTreeMap<String, char>,
    /// vnode -> series -> rows
    pub data: BTreeMap<u32, BTreeMap<TagMap, Series>>,
}

impl MTable {
    /// a name whose first letter is the type of the field
    pub fn ty(&self, f: &str) -> String {
        self.types.get(f).map(|c| c.to_string()).unwrap_or_else(|| f.to_string())
    }
}

pub const TYPES: [&str; 5] = ["i", "u", "f", "b", "s"];
pub fn value_type(f: &str) -> ValueType {
    match f.as_bytes()[0] {
        b'i' => ValueType::Integer,
        b'u' => ValueType::Unsigned,
        b'f' => ValueType::Float,
        b'b' => ValueType::Boolean,
        _ => ValueType::String,
    }
}
pub fn value(g: &mut StdRng, f: &str) -> FieldValue {
    match f.as_bytes()[0] {
        b'i' => FieldValue::I64(if g.chance(0.2) { g.edgy_i64() } else { g.gen_range(-50..50) }),
        b'u' => FieldValue::U64(if g.chance(0.2) { g.edgy_u64() } else { g.gen_range(0..100) }),
        b'f' => FieldValue::F64(if g.chance(0.2) {
            loop {
                let x = g.edgy_f64();
                if !x.is_nan() {
                    break x;
                }
            }
        } else {
            g.gen_range(-50..50) as f64 / 4.0
        }),
        b'b' => FieldValue::Bool(g.gen()),
        _ => {
            let n = *g.pick(&[0usize, 1, 3, 8, 40]);
            FieldValue::Str((0..n).map(|_| *g.pick(b"abcdef \",\\=")).collect::<Vec<u8>>())
        }
    }
}
pub fn encodings(v: ValueType) -> &'static [Encoding] {
    match v {
        ValueType::Integer | ValueType::Unsigned => &[Encoding::Default, Encoding::Null, Encoding::Delta, Encoding::DeltaTs, Encoding::Quantile],
        ValueType::Float => &[Encoding::Default, Encoding::Null, Encoding::Gorilla, Encoding::Quantile],
        ValueType::Boolean => &[Encoding::Default, Encoding::Null, Encoding::BitPack],
        _ => &[Encoding::Default, Encoding::Null, Encoding::Gzip, Encoding::Bzip, Encoding::Zstd, Encoding::Snappy, Encoding::Zlib],
    }
}

/// Which histories have one right answer. Two values written to one cell in turn may end up
/// in files of which only the newer one is compacted: the storage then takes the older one
/// for the newest (see DESIGN.md, known finding of V05), so such histories are left to V05.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Regime {
    /// cells are overwritten, files are never compacted
    NoCompaction,
    /// compactions, each cell is written once
    WriteOnce,
    /// cells are overwritten, all files cover the same time span and are compacted together
    SameSpan,
}

pub struct World {
    pub regime: Regime,
    pub dir: Scratch,
    pub gen: u32,
    pub meta: Meta,
    pub cfg: Config,
    pub eng: Option<Eng>,
    pub wal: BTreeMap<u32, RaftEntryStorage>,
    pub index: BTreeMap<u32, u64>,
    pub model: BTreeMap<String, MTable>,
    pub log: Vec<String>,
    pub vnodes: Vec<u32>,
}

impl World {
    pub async fn new(g: &mut StdRng, tables: &[&str], vnodes: &[u32], regime: Regime) -> World {
        World::new_in(g, tables, vnodes, regime, false).await
    }

    pub async fn new_in(g: &mut StdRng, tables: &[&str], vnodes: &[u32], regime: Regime, strict: bool) -> World {
        let dir = Scratch::new("e2e");
        let meta = Meta::start(&dir.sub("meta")).await;
        let mut cfg = config(&dir.path().join("n0"));
        cfg.storage.max_datablock_size = *g.pick(&[256u64, 2048, 100 * 1024]);
        cfg.storage.base_file_size = *g.pick(&[4u64 << 10, 64 << 10, 16 << 20]);
        cfg.storage.index_cache_capacity = *g.pick(&[2u64, 100_000]);
        cfg.wal.max_file_size = *g.pick(&[1u64 << 10, 8 << 10, 1 << 30]);
        cfg.storage.compact_trigger_file_num = if regime == Regime::NoCompaction { 100_000 } else { *g.pick(&[2u32, 4]) };
        cfg.storage.max_compact_size = 2 << 30;
        cfg.storage.max_summary_size = *g.pick(&[1024u64, 128 << 20]);
        if g.chance(0.5) {
            cfg.storage.tsm_meta_compress = g.pick(&["null", "zstd", "snappy"]).to_string();
        }
        let mem = *g.pick(&[2u64 << 10, 16 << 10, 512 << 20]);
        let parts = *g.pick(&[1u64, 3, 16]);
        let readers = *g.pick(&[1u64, 32]);
        let schema = db_schema(DB, |_| {}, |c| {
            c.with_max_memcache_size(mem).with_memcache_partitions(parts).with_max_cache_readers(readers).with_strict_write(strict);
        }, &cfg);
        meta.setup(&[schema]).await;
        let mut w = World {
            regime,
            dir,
            gen: 0,
            meta,
            cfg,
            eng: None,
            wal: BTreeMap::new(),
            index: vnodes.iter().map(|v| (*v, 0)).collect(),
            model: BTreeMap::new(),
            log: vec![format!("{regime:?} mem={mem} parts={parts} readers={readers}")],
            vnodes: vnodes.to_vec(),
        };
        w.note(format!("block={} base={} icache={} wal={} meta={}", w.cfg.storage.max_datablock_size, w.cfg.storage.base_file_size, w.cfg.storage.index_cache_capacity, w.cfg.wal.max_file_size, w.cfg.storage.tsm_meta_compress));
        w.open().await;
        for t in tables {
            if g.chance(0.4) {
                w.create_table(g, t).await;
            }
        }
        w
    }

    pub fn note(&mut self, s: String) {
        if std::env::var("TRACE").is_ok() {
            eprintln!("{s}");
        }
        self.log.push(s);
    }

    pub fn eng(&self) -> &Eng {
        self.eng.as_ref().unwrap()
    }

    async fn open(&mut self) {
        let e = Eng::open(&self.meta, &self.cfg).await;
        for v in &self.vnodes {
            let mut st = e.vnode(*v).await.expect("harness: vnode");
            let wo = tskv::kv_option::WalOptions::from(&self.cfg);
            let wal = VnodeWal::new(Arc::new(wo), Arc::new(format!("{TENANT}.{DB}")), *v).await.expect("harness: wal");
            let mut w = RaftEntryStorage::new(wal);
            let applied = self.index[v];
            let id = (applied > 0).then(|| openraft::LogId::new(openraft::CommittedLeaderId::new(1, 1), applied));
            w.recover(id, &mut st).await.expect("harness: recover");
            self.wal.insert(*v, w);
        }
        self.eng = Some(e);
    }

    /// a table made by CREATE TABLE, with an encoding per column
    pub async fn create_table(&mut self, g: &mut StdRng, t: &str) {
        let mut cols = vec![TableColumn::new_time_column(0, datafusion::arrow::datatypes::TimeUnit::Nanosecond)];
        let mut m = MTable::default();
        let mut id = 1;
        for n in ["ta", "tb"] {
            cols.push(TableColumn::new_tag_column(id, n.into()));
            m.tags.insert(n.into());
            id += 1;
        }
        let mut d = vec![];
        for f in TYPES {
            let n = format!("{f}0");
            let e = *g.pick(encodings(value_type(&n)));
            cols.push(TableColumn::new(id, n.clone(), ColumnType::Field(value_type(&n)), e));
            d.push(format!("{n}:{e:?}"));
            m.types.insert(n.clone(), f.chars().next().unwrap());
            m.fields.insert(n);
            id += 1;
        }
        let s = TskvTableSchema::new(TENANT.into(), DB.into(), t.into(), cols);
        let tm = self.eng().meta.tenant_meta(TENANT).await.unwrap();
        tm.create_table(&TableSchema::TsKvTableSchema(Arc::new(s))).await.expect("harness: create table");
        self.model.insert(t.into(), m);
        self.note(format!("create {t} {}", d.join(" ")));
    }

    /// wait until the node knows of all changes in the meta store (Q03 does not wait)
    pub async fn settle(&self) {
        let v = self.meta.version().await;
        let tm = self.eng().meta.tenant_meta(TENANT).await.expect("harness: tenant");
        let t0 = std::time::Instant::now();
        while tm.version().await < v {
            assert!(t0.elapsed().as_secs() < 20, "harness: the node is at version {} of {v}", tm.version().await);
            tokio::time::sleep(std::time::Duration::from_micros(200)).await;
        }
    }

    /// append to the log, then apply, as the replicated path does
    pub async fn apply(&mut self, v: u32, c: Command) -> Result<(), String> {
        self.settle().await;
        let i = self.index[&v] + 1;
        let mut e = RaftEntry::default();
        e.log_id = openraft::LogId::new(openraft::CommittedLeaderId::new(1, 1), i);
        e.payload = EntryPayload::Normal(raft_cmd(v, c.clone()));
        self.wal.get_mut(&v).unwrap().append(&[e]).await.expect("harness: wal append");
        self.index.insert(v, i);
        let st = self.eng().vnode(v).await.expect("harness: vnode");
        st.apply(&ctx(i, false), c).await.map(|_| ()).map_err(|e| e.to_string())
    }

    pub fn model_write(&mut self, v: u32, rows: &[Row]) {
        for r in rows {
            let t = self.model.entry(r.table.clone()).or_default();
            t.tags.extend(r.tags.iter().map(|x| x.0.clone()));
            for (k, x) in &r.fields {
                t.fields.insert(k.clone());
                let c = match x {
                    FieldValue::I64(_) => 'i',
                    FieldValue::U64(_) => 'u',
                    FieldValue::F64(_) => 'f',
                    FieldValue::Bool(_) => 'b',
                    FieldValue::Str(_) => 's',
                };
                t.types.insert(k.clone(), c);
            }
            let s = t.data.entry(v).or_default().entry(r.tags.iter().cloned().collect()).or_default();
            let row = s.entry(r.ts).or_default();
            for (k, x) in &r.fields {
                row.insert(k.clone(), Val::from(x));
            }
        }
    }

    /// make generated rows fit the regime
    pub fn fit(&self, v: u32, rows: &mut Vec<Row>) {
        match self.regime {
            Regime::NoCompaction => {}
            Regime::WriteOnce => {
                let mut seen = BTreeSet::new();
                for r in rows.iter_mut() {
                    let tags: TagMap = r.tags.iter().cloned().collect();
                    let old = self.model.get(&r.table).and_then(|t| t.data.get(&v)).and_then(|d| d.get(&tags)).and_then(|s| s.get(&r.ts));
                    r.fields.retain(|(k, _)| old.is_none_or(|o| !o.contains_key(k)) && seen.insert((r.table.clone(), tags.clone(), r.ts, k.clone())));
                }
                rows.retain(|r| !r.fields.is_empty());
            }
            Regime::SameSpan => {
                for r in rows.iter_mut() {
                    r.ts = 1000 + r.ts.rem_euclid(60);
                }
                let mut a = rows[0].clone();
                a.ts = 1000;
                let mut b = a.clone();
                b.ts = 1059;
                rows.push(a);
                rows.push(b);
            }
        }
    }

    pub async fn flush(&mut self, v: u32, compact: bool) -> Result<(), String> {
        self.eng().vnode(v).await.unwrap().flush(true, true, compact).await.map_err(|e| e.to_string())
    }

    /// clean = close() first; otherwise the process just stops: files stay as they are
    pub async fn restart(&mut self, clean: bool) {
        let e = self.eng.take().unwrap();
        if clean {
            e.kv.close().await;
            for (_, w) in self.wal.iter_mut() {
                let _ = w.sync().await;
            }
        }
        self.wal.clear();
        // the old process may still have background jobs: the new one works on a copy
        let old = self.dir.path().join(format!("n{}", self.gen));
        self.gen += 1;
        let new = self.dir.path().join(format!("n{}", self.gen));
        crash_copy(&old, &new).await;
        let c = config(&new);
        self.cfg.storage.path = c.storage.path;
        self.cfg.wal.path = c.wal.path;
        self.open().await;
        drop(e);
    }

    /// the process stops in the middle of a flush or a compaction: the new data files are there,
    /// whole or cut, the edit that names them is not, or only its first bytes. Says what was cut,
    /// if it could be.
    pub async fn restart_in(&mut self, g: &mut StdRng, v: u32, compaction: bool) -> Result<Option<&'static str>, String> {
        let cur = self.dir.path().join(format!("n{}", self.gen));
        let before = self.dir.path().join("before");
        crash_copy(&cur, &before).await;
        if compaction {
            self.eng().kv.compact(vec![v]).await.map_err(|e| e.to_string())?;
        } else {
            self.flush(v, false).await?;
        }
        let e = self.eng.take().unwrap();
        self.wal.clear();
        self.gen += 1;
        let new = self.dir.path().join(format!("n{}", self.gen));
        crash_copy(&cur, &new).await;
        let rel = |root: &std::path::Path| -> BTreeSet<std::path::PathBuf> { eng::files(root).into_iter().map(|p| p.strip_prefix(root).unwrap().to_path_buf()).collect() };
        let (a, b) = (rel(&before), rel(&new));
        let sum: Vec<_> = b.iter().filter(|p| p.file_name().is_some_and(|n| n == "summary") && p.components().any(|c| c.as_os_str() == v.to_string().as_str())).cloned().collect();
        let mut what = None;
        if let [s] = &sum[..] {
            let (x, y) = (std::fs::read(before.join(s)).unwrap_or_default(), std::fs::read(new.join(s)).unwrap());
            let data = |p: &&std::path::PathBuf| p.extension().is_some_and(|e| e == "tsm" || e == "delta") && p.parent().and_then(|d| d.parent()) == s.parent();
            let fresh: Vec<_> = b.iter().filter(data).filter(|p| !a.contains(*p)).cloned().collect();
            // a flush removes no file: no compaction ran next to it; and one edit was written
            let one = y.len() > x.len() + 14 && y.len() == x.len() + 14 + u32::from_be_bytes(y[x.len() + 6..x.len() + 10].try_into().unwrap()) as usize;
            if one && (compaction || a.iter().filter(data).all(|p| b.contains(p))) && !fresh.is_empty() && y.starts_with(&x) && !x.is_empty() {
                if compaction {
                    // files are only removed, and tombstones moved, after the edit is written
                    for p in &fresh {
                        let d = before.join(p);
                        std::fs::create_dir_all(d.parent().unwrap()).unwrap();
                        std::fs::copy(new.join(p), d).unwrap();
                    }
                    // the tombstones that are going to replace those of files that lost a part of their rows
                    for p in b.iter().filter(|p| p.extension().is_some_and(|e| e == "tombstone") && p.parent().and_then(|d| d.parent()) == s.parent()) {
                        let (t, o) = (std::fs::read(new.join(p)).unwrap(), std::fs::read(before.join(p)).unwrap_or_default());
                        if t != o {
                            let mut name = p.file_name().unwrap().to_os_string();
                            name.push(".compact.tmp");
                            std::fs::write(before.join(p).with_file_name(name), t).unwrap();
                            self.note("unfinished tombstones".into());
                        }
                    }
                    // the series index is written before the edit
                    for p in b.iter().filter(|p| !data(p) && *p != s && !p.extension().is_some_and(|e| e == "tombstone")) {
                        let d = before.join(p);
                        std::fs::create_dir_all(d.parent().unwrap()).unwrap();
                        std::fs::copy(new.join(p), d).unwrap();
                    }
                    std::fs::remove_dir_all(&new).unwrap();
                    std::fs::rename(&before, &new).unwrap();
                }
                let n = match g.gen_range(0..if compaction { 4 } else { 3 }) {
                    3 => {
                        what = Some("the edit is there and nothing after it");
                        y.len()
                    }
                    0 => {
                        what = Some("the edit is not there");
                        x.len()
                    }
                    1 => {
                        for p in &fresh {
                            let f = std::fs::OpenOptions::new().write(true).open(new.join(p)).unwrap();
                            let l = f.metadata().unwrap().len();
                            f.set_len(g.gen_range(0..=l)).unwrap();
                        }
                        what = Some("data files are cut");
                        x.len()
                    }
                    _ => {
                        what = Some("the edit is cut");
                        g.gen_range(x.len() + 1..y.len())
                    }
                };
                std::fs::write(new.join(s), &y[..n]).unwrap();
            }
        }
        let _ = std::fs::remove_dir_all(&before);
        let c = config(&new);
        self.cfg.storage.path = c.storage.path;
        self.cfg.wal.path = c.wal.path;
        self.open().await;
        drop(e);
        Ok(what)
    }

    /// the process stops while a delete writes its tombstones: what it wrote to each file is there,
    /// not there or cut. The delete is in the log.
    pub async fn restart_in_delete(&mut self, g: &mut StdRng, v: u32, cmd: Command) -> Result<usize, String> {
        let cur = self.dir.path().join(format!("n{}", self.gen));
        let before = self.dir.path().join("before");
        crash_copy(&cur, &before).await;
        self.apply(v, cmd).await?;
        let e = self.eng.take().unwrap();
        self.wal.clear();
        self.gen += 1;
        let new = self.dir.path().join(format!("n{}", self.gen));
        crash_copy(&cur, &new).await;
        let mut cut = 0;
        for p in eng::files(&new).into_iter().filter(|p| p.extension().is_some_and(|e| e == "tombstone")) {
            let x = std::fs::read(before.join(p.strip_prefix(&new).unwrap())).unwrap_or_default();
            let y = std::fs::read(&p).unwrap();
            if y.len() > x.len() && y.starts_with(&x) {
                match g.gen_range(0..4) {
                    0 => {}
                    1 if x.is_empty() => std::fs::remove_file(&p).unwrap(),
                    _ => {
                        std::fs::write(&p, &y[..g.gen_range(x.len()..y.len())]).unwrap();
                        cut += 1;
                    }
                }
            }
        }
        let _ = std::fs::remove_dir_all(&before);
        let c = config(&new);
        self.cfg.storage.path = c.storage.path;
        self.cfg.wal.path = c.wal.path;
        self.open().await;
        drop(e);
        Ok(cut)
    }

    pub fn expect(&self, v: u32, t: &str, q: &Scan, tags: Option<&dyn Fn(&TagMap) -> bool>) -> Vec<OutRow> {
        self.rows(v, t, q, tags, false)
    }
    /// rows whose values were all in columns that are dropped by now: a scan may show them
    pub fn ghosts(&self, v: u32, t: &str, q: &Scan, tags: Option<&dyn Fn(&TagMap) -> bool>) -> Vec<OutRow> {
        self.rows(v, t, q, tags, true)
    }
    fn rows(&self, v: u32, t: &str, q: &Scan, tags: Option<&dyn Fn(&TagMap) -> bool>, ghosts: bool) -> Vec<OutRow> {
        let m = &self.model[t];
        let mut out = vec![];
        let Some(d) = m.data.get(&v) else { return out };
        for (s, rows) in d {
            if tags.is_some_and(|f| !f(s)) {
                continue;
            }
            for (ts, vals) in rows {
                if vals.is_empty() != ghosts || !q.ranges.iter().any(|r| r.min_ts <= *ts && *ts <= r.max_ts) {
                    continue;
                }
                let mut o = OutRow::new();
                let want = |n: &String| q.cols.as_ref().is_none_or(|c| c.contains(n));
                if want(&"time".to_string()) {
                    o.insert("time".into(), Val::T(*ts));
                }
                for n in m.tags.iter().filter(|n| want(n)) {
                    o.insert(n.clone(), s.get(n).map(|x| Val::S(x.clone())).unwrap_or(Val::Null));
                }
                for n in m.fields.iter().filter(|n| want(n)) {
                    o.insert(n.clone(), vals.get(n).cloned().unwrap_or(Val::Null));
                }
                out.push(o);
            }
        }
        out
    }
}

pub fn show(r: &OutRow) -> String {
    r.iter().map(|(k, v)| format!("{k}={}", v.show())).collect::<Vec<_>>().join(" ")
}

/// differences of two multisets of rows, at most a few of each
pub fn diff(want: &[OutRow], got: &[OutRow]) -> Option<(usize, usize, Vec<String>, Vec<String>)> {
    let mut c: BTreeMap<&OutRow, i64> = BTreeMap::new();
    for r in want {
        *c.entry(r).or_default() += 1;
    }
    for r in got {
        *c.entry(r).or_default() -= 1;
    }
    let miss: Vec<_> = c.iter().filter(|x| *x.1 > 0).collect();
    let extra: Vec<_> = c.iter().filter(|x| *x.1 < 0).collect();
    if miss.is_empty() && extra.is_empty() {
        return None;
    }
    Some((
        miss.len(),
        extra.len(),
        miss.iter().take(3).map(|x| format!("{}x {}", x.1, show(x.0))).collect(),
        extra.iter().take(3).map(|x| format!("{}x {}", -x.1, show(x.0))).collect(),
    ))
}

pub fn gen_rows(g: &mut StdRng, tables: &[&str], n: usize) -> Vec<Row> {
    let t = *g.pick(tables);
    let base = *g.pick(&[0i64, 1000, -500, 1_600_000_000_000_000_000]);
    (0..n)
        .map(|_| {
            let table = if g.chance(0.9) { t } else { *g.pick(tables) };
            let mut tags = vec![];
            for k in ["ta", "tb"] {
                if g.chance(0.75) {
                    tags.push((k.to_string(), g.pick(&["a", "b", "c", "a,b", "x y"]).to_string()));
                }
            }
            let mut fields = vec![];
            for f in TYPES {
                for k in 0..2 {
                    if g.chance(0.3) {
                        let n = format!("{f}{k}");
                        let v = value(g, &n);
                        fields.push((n, v));
                    }
                }
            }
            if fields.is_empty() {
                let v = value(g, "i0");
                fields.push(("i0".into(), v));
            }
            let ts = match g.gen_range(0..20) {
                0 => g.edgy_i64().min(i64::MAX - 1),
                _ => base + g.gen_range(0..60),
            };
            Row { table: table.into(), tags, ts, fields }
        })
        .collect()
}

pub fn gen_range(g: &mut StdRng) -> TimeRange {
    let base = *g.pick(&[0i64, 1000, -500, 1_600_000_000_000_000_000]);
    let a = base + g.gen_range(-10..70);
    let b = base + g.gen_range(-10..70);
    match g.gen_range(0..10) {
        0 => TimeRange::new(i64::MIN, a),
        1 => TimeRange::new(a, i64::MAX),
        2 => TimeRange::all(),
        _ => TimeRange::new(a.min(b), a.max(b)),
    }
}

type TagPred = Box<dyn Fn(&TagMap) -> bool + Send + Sync>;
/// a filter on tags and what it means
pub fn gen_tags(g: &mut StdRng, tags: &BTreeSet<String>) -> (ColumnDomains<String>, TagPred, String) {
    let tags: Vec<String> = tags.iter().cloned().collect();
    if tags.is_empty() || g.chance(0.4) {
        return (ColumnDomains::all(), Box::new(|_| true), "all".into());
    }
    let t = g.pick(&tags).clone();
    let v = g.pick(&["a", "b", "c", "a,b", "x y", "zz", "a0"]).to_string();
    let sv = ScalarValue::Utf8(Some(v.clone()));
    let u = DataType::Utf8;
    match g.gen_range(0..4) {
        0 => {
            let d = Domain::of_values(&u, true, &[&sv]);
            let (a, b) = (t.clone(), v.clone());
            (ColumnDomains::of(t.clone(), &d), Box::new(move |m| m.get(&a) == Some(&b)), format!("{t} in ({v})"))
        }
        1 => {
            let w = g.pick(&["a", "b", "c"]).to_string();
            let sw = ScalarValue::Utf8(Some(w.clone()));
            let d = Domain::of_values(&u, true, &[&sv, &sw]);
            let (a, b, c) = (t.clone(), v.clone(), w.clone());
            (ColumnDomains::of(t.clone(), &d), Box::new(move |m| m.get(&a).is_some_and(|x| *x == b || *x == c)), format!("{t} in ({v},{w})"))
        }
        2 => {
            let d = Domain::of_ranges(&[Range::ge(&u, &sv)]).unwrap();
            let (a, b) = (t.clone(), v.clone());
            (ColumnDomains::of(t.clone(), &d), Box::new(move |m| m.get(&a).is_some_and(|x| *x >= b)), format!("{t} >= {v}"))
        }
        _ => {
            let d = Domain::of_ranges(&[Range::lt(&u, &sv)]).unwrap();
            let (a, b) = (t.clone(), v.clone());
            (ColumnDomains::of(t.clone(), &d), Box::new(move |m| m.get(&a).is_some_and(|x| *x < b)), format!("{t} < {v}"))
        }
    }
}

#[derive(Clone, Debug)]
pub enum Pred {
    Cmp(String, Operator, Val),
    Null(String, bool),
    And(Vec<Pred>),
    Or(Vec<Pred>),
    NotTrue(Box<Pred>),
}
impl Pred {
    pub fn cols(&self, out: &mut BTreeSet<String>) {
        match self {
            Pred::Cmp(c, ..) | Pred::Null(c, _) => {
                out.insert(c.clone());
            }
            Pred::And(v) | Pred::Or(v) => v.iter().for_each(|p| p.cols(out)),
            Pred::NotTrue(p) => p.cols(out),
        }
    }
    /// every conjunct compares a column with a constant: the planner trusts the storage
    /// with the whole filter (`can_exact_filter`)
    pub fn exact(&self) -> bool {
        match self {
            Pred::Cmp(_, op, _) => *op != Operator::NotEq,
            Pred::And(v) => v.iter().all(|p| p.exact()),
            _ => false,
        }
    }
    pub fn expr(&self) -> Expr {
        match self {
            Pred::Cmp(c, op, v) => {
                let l = match v {
                    Val::I(x) => ScalarValue::Int64(Some(*x)),
                    Val::U(x) => ScalarValue::UInt64(Some(*x)),
                    Val::F(x) => ScalarValue::Float64(Some(f64::from_bits(*x))),
                    Val::S(x) => ScalarValue::Utf8(Some(x.clone())),
                    Val::B(x) => ScalarValue::Boolean(Some(*x)),
                    Val::T(x) => ScalarValue::TimestampNanosecond(Some(*x), None),
                    Val::Null => ScalarValue::Null,
                };
                binary_expr(col(c.as_str()), *op, Expr::Literal(l))
            }
            Pred::Null(c, true) => Expr::IsNull(Box::new(col(c.as_str()))),
            Pred::Null(c, false) => Expr::IsNotNull(Box::new(col(c.as_str()))),
            Pred::And(v) => v.iter().map(|p| p.expr()).reduce(datafusion::logical_expr::and).unwrap(),
            Pred::Or(v) => v.iter().map(|p| p.expr()).reduce(datafusion::logical_expr::or).unwrap(),
            // what the planner makes of IS NOT TRUE
            Pred::NotTrue(p) => binary_expr(p.expr(), Operator::IsDistinctFrom, Expr::Literal(ScalarValue::Boolean(Some(true)))),
        }
    }
    pub fn eval(&self, r: &OutRow) -> bool {
        match self {
            Pred::Cmp(c, op, v) => {
                let o = match (&r[c], v) {
                    (Val::Null, _) => return false,
                    (Val::F(a), Val::F(b)) => f64::from_bits(*a).total_cmp(&f64::from_bits(*b)),
                    (a, b) => a.cmp(b),
                };
                match op {
                    Operator::Eq => o.is_eq(),
                    Operator::NotEq => o.is_ne(),
                    Operator::Lt => o.is_lt(),
                    Operator::LtEq => o.is_le(),
                    Operator::Gt => o.is_gt(),
                    _ => o.is_ge(),
                }
            }
            Pred::Null(c, n) => (r[c] == Val::Null) == *n,
            Pred::And(v) => v.iter().all(|p| p.eval(r)),
            Pred::Or(v) => v.iter().any(|p| p.eval(r)),
            Pred::NotTrue(p) => !p.eval(r),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Pred::Cmp(c, op, v) => format!("{c} {op} {}", v.show()),
            Pred::Null(c, n) => format!("{c} is {}null", if *n { "" } else { "not " }),
            Pred::And(v) => v.iter().map(|p| p.show()).collect::<Vec<_>>().join(" and "),
            Pred::Or(v) => format!("({})", v.iter().map(|p| p.show()).collect::<Vec<_>>().join(" or ")),
            Pred::NotTrue(p) => format!("({}) is not true", p.show()),
        }
    }
}
pub fn gen_pred(g: &mut StdRng, m: &MTable, depth: u32) -> Pred {
    if depth == 0 || g.chance(0.5) {
        let op = *g.pick(&[Operator::Eq, Operator::NotEq, Operator::Lt, Operator::LtEq, Operator::Gt, Operator::GtEq]);
        let cols: Vec<&String> = m.tags.iter().chain(m.fields.iter()).collect();
        if g.chance(0.35) {
            let r = gen_range(g);
            return Pred::Cmp("time".into(), op, Val::T(if g.gen() { r.min_ts } else { r.max_ts }));
        }
        let c = (*g.pick(&cols)).clone();
        if g.chance(0.15) {
            return Pred::Null(c, g.gen());
        }
        if m.tags.contains(&c) {
            return Pred::Cmp(c, op, Val::S(g.pick(&["a", "b", "c", "a,b", "x y", "zz", "a0"]).to_string()));
        }
        let v = Val::from(&value(g, &m.ty(&c)));
        return Pred::Cmp(c, op, v);
    }
    let v = (0..g.gen_range(2..4)).map(|_| gen_pred(g, m, depth - 1)).collect();
    let p = if g.chance(0.7) { Pred::And(v) } else { Pred::Or(v) };
    if g.chance(0.15) {
        return Pred::NotTrue(Box::new(p));
    }
    p
}

pub struct Mix {
    pub deletes: bool,
    pub restart: bool,
}

/// compare the engine with the model; Some(what) on the first difference
pub async fn dump(w: &World, v: u32) {
    let st = w.eng().vnode(v).await.unwrap();
    let f = st.ts_family();
    let t = f.read().await;
    let sv = t.super_version();
    eprintln!("DUMP caches mut {:?}", sv.caches.mut_cache.read().is_empty());
    let ver = t.version();
    for l in ver.levels_info() {
        for f in &l.files {
            let r = ver.get_tsm_reader(f.file_path()).await.unwrap();
            let all = models::predicate::domain::TimeRange::all();
            eprintln!("  L{} #{} {} {:?} deleted {} tomb {:?}", l.level, f.file_id(), f.file_path().display(), f.time_range(), f.is_deleted(), r.tombstone().get_all_fields_excluded_time_range(&all));
            for (sid, ch) in r.chunk() {
                for cg in ch.column_group().keys() {
                    match r.read_record_batch(*sid, *cg).await {
                        Ok(b) => {
                            let i = b.schema().index_of("time").unwrap();
                            let v = format!("{:?}", b.column(i).to_data().buffers()[0].typed_data::<i64>());
                            eprintln!("    s{sid} cg{cg} {:?} filter {:?} range {:?} times {v:?}", ch.series_key().tags().iter().map(|t| format!("{}={}", String::from_utf8_lossy(&t.key), String::from_utf8_lossy(&t.value))).collect::<Vec<_>>(), f.maybe_contains_series_id(*sid).await.map_err(|_| ()), ch.column_group()[cg].time_range());
                        }
                        Err(e) => eprintln!("    s{sid} cg{cg} ERR {e}"),
                    }
                }
            }
        }
    }
}

pub async fn check(w: &World, g: &mut StdRng, c: &mut Ctx, sig: &str) -> bool {
    let mut ok = true;
    for v in w.vnodes.clone() {
        if let Ok(st) = w.eng().vnode(v).await {
            let ver = st.ts_family().read().await.version();
            for l in ver.levels_info() {
                c.count(if l.level == 0 { "delta files read" } else { "compacted files read" }, l.files.len() as u64);
            }
        }
        for t in w.model.keys().cloned().collect::<Vec<_>>() {
            for k in 0..3 {
                let mut q = Scan { batch: *g.pick(&[1usize, 3, 64, 4096]), ..Default::default() };
                let mut name = "all".to_string();
                let mut pred: Option<TagPred> = None;
                let mut filter = None;
                if k == 1 {
                    let p = gen_pred(g, &w.model[&t], 2);
                    name = format!("where {}", p.show());
                    q.filter = Some(p.expr());
                    let m = &w.model[&t];
                    if g.chance(0.5) {
                        let mut need = BTreeSet::new();
                        p.cols(&mut need);
                        let mut cols: Vec<String> = vec!["time".into()];
                        cols.extend(m.tags.iter().chain(m.fields.iter()).filter(|x| need.contains(*x) || g.chance(0.5)).cloned());
                        if cols.iter().any(|x| m.fields.contains(x)) {
                            name += &format!(" cols {cols:?}");
                            q.cols = Some(cols);
                        }
                    }
                    filter = Some(p);
                }
                if k == 2 {
                    let (d, p, n) = gen_tags(g, &w.model[&t].tags);
                    q.tags = d;
                    pred = Some(p);
                    name = format!("tags {n}");
                    let m = &w.model[&t];
                    let mut cols: Vec<String> = vec!["time".into()];
                    cols.extend(m.tags.iter().filter(|_| g.chance(0.5)).cloned());
                    cols.extend(m.fields.iter().filter(|_| g.chance(0.5)).cloned());
                    if cols.iter().any(|x| m.fields.contains(x)) && g.chance(0.7) {
                        name += &format!(" cols {cols:?}");
                        q.cols = Some(cols);
                    }
                }
                if std::env::var("TRACE").is_ok() {
                    eprintln!("scan {t} {name} batch {}", q.batch);
                }
                let mut got = match w.eng().scan(v, &t, &q).await {
                    Ok(x) => x,
                    Err(e) => {
                        if w.model[&t].data.values().all(|d| d.is_empty()) && e == "no table" {
                            continue;
                        }
                        c.violation(&format!("{sig}:scan-error"), json!({"log": w.log, "table": t, "vnode": v, "schema": format!("{:?}", w.eng().schema(&t).await.map(|s| s.columns().iter().map(|c| (c.id, c.name.clone())).collect::<Vec<_>>())), "scan": name, "error": e}));
                        ok = false;
                        continue;
                    }
                };
                let mut want = w.expect(v, &t, &q, pred.as_deref().map(|p| p as &dyn Fn(&TagMap) -> bool));
                if let Some(p) = &filter {
                    want.retain(|r| p.eval(r));
                    c.count(if p.exact() { "filters the storage answers exactly" } else { "filters checked again by the plan" }, 1);
                    if !p.exact() {
                        // the plan above the scan filters again
                        got.retain(|r| p.eval(r));
                    }
                }
                c.count("rows compared", want.len() as u64);
                c.count("scans", 1);
                for o in w.ghosts(v, &t, &q, pred.as_deref().map(|p| p as &dyn Fn(&TagMap) -> bool)) {
                    if filter.as_ref().is_none_or(|p| p.eval(&o)) && got.iter().filter(|r| **r == o).count() > want.iter().filter(|r| **r == o).count() {
                        let i = got.iter().position(|r| *r == o).unwrap();
                        got.remove(i);
                    }
                }
                if let Some((m, e, miss, extra)) = diff(&want, &got) {
                    if std::env::var("EACH").is_ok() {
                        dump(w, v).await;
                        eprintln!("MISS {:#?}\nEXTRA {:#?}", want.iter().filter(|r| !got.contains(r)).map(show).collect::<Vec<_>>(), got.iter().filter(|r| !want.contains(r)).map(show).collect::<Vec<_>>());
                    }
                    c.violation(&format!("{sig}:rows"), json!({"vnode": v, "table": t, "scan": name, "missing": m, "extra": e, "e.g. missing": miss, "e.g. extra": extra, "log": w.log}));
                    ok = false;
                }
            }
        }
    }
    ok
}

pub async fn run(c: &mut Ctx, g: &mut StdRng, mix: &Mix, sig: &str, steps: usize) {
    let tables: &[&str] = if g.chance(0.5) { &["m"] } else { &["m", "n", "m.n"] };
    let vnodes: &[u32] = if g.chance(0.7) { &[11] } else { &[11, 12] };
    let regime = match g.gen_range(0..5) {
        0 => Regime::NoCompaction,
        1 | 2 => Regime::SameSpan,
        _ => Regime::WriteOnce,
    };
    // deleted rows would shorten the span of a file
    let regime = if mix.deletes && regime == Regime::SameSpan { Regime::WriteOnce } else { regime };
    let mut w = World::new(g, tables, vnodes, regime).await;
    for step in 0..steps {
        let v = *g.pick(&w.vnodes.clone());
        let k = g.gen_range(0..100);
        if k < 45 || step == 0 {
            let n = *g.pick(&[1usize, 2, 8, 40, 200]);
            let mut rows = gen_rows(g, tables, n);
            w.fit(v, &mut rows);
            if rows.is_empty() {
                continue;
            }
            let n = rows.len();
            w.note(format!("write v{v} {n} {}@{}..", rows[0].table, rows[0].ts));
            match w.apply(v, write_cmd(&rows, 2)).await {
                Ok(()) => {
                    w.model_write(v, &rows);
                    c.count("rows written", n as u64);
                }
                Err(e) => {
                    c.violation(&format!("{sig}:write-error"), json!({"log": w.log, "error": e}));
                    return;
                }
            }
        } else if k < 60 {
            let compact = g.gen();
            w.note(format!("flush v{v} compact={compact}"));
            if let Err(e) = w.flush(v, compact).await {
                c.violation(&format!("{sig}:flush-error"), json!({"log": w.log, "error": e}));
            }
            c.count("flushes", 1);
        } else if k < 70 {
            w.note(format!("compact v{v}"));
            if let Err(e) = w.eng().kv.compact(vec![v]).await {
                c.violation(&format!("{sig}:compaction-error"), json!({"log": w.log, "error": e.to_string()}));
            }
            c.count("compactions", 1);
        } else if k < 76 && mix.restart {
            if g.chance(0.6) {
                let mut rows = gen_rows(g, tables, 4);
                w.fit(v, &mut rows);
                let compaction = g.chance(0.4);
                let kind = if compaction { "compaction" } else { "flush" };
                w.note(format!("write v{v} {}, restart in a {kind} of v{v}", rows.len()));
                if !rows.is_empty() {
                    if let Err(e) = w.apply(v, write_cmd(&rows, 2)).await {
                        c.violation(&format!("{sig}:write-error"), json!({"log": w.log, "error": e}));
                        return;
                    }
                    w.model_write(v, &rows);
                }
                match w.restart_in(g, v, compaction).await {
                    Ok(Some(x)) => {
                        w.note(x.into());
                        c.count(&format!("stops in a {kind}: {x}"), 1);
                    }
                    Ok(None) => c.count("restarts", 1),
                    Err(e) => {
                        c.violation(&format!("{sig}:{kind}-error"), json!({"log": w.log, "error": e}));
                        return;
                    }
                }
            } else {
                let clean = g.gen();
                w.note(format!("restart clean={clean}"));
                w.restart(clean).await;
                c.count("restarts", 1);
            }
            if !check(&w, g, c, sig).await {
                return;
            }
        } else if k < 88 && mix.deletes {
            let t = g.pick(tables).to_string();
            let Some(m) = w.model.get(&t) else { continue };
            let (d, p, n) = gen_tags(g, &m.tags);
            let rs: Vec<TimeRange> = (0..g.gen_range(1..3)).map(|_| gen_range(g)).collect();
            w.note(format!("delete v{v} {t} {n} {rs:?}"));
            let cmd = delete_cmd(&t, rs.clone(), d, v);
            let r = if mix.restart && g.chance(0.3) {
                w.note("stops in it".into());
                w.restart_in_delete(g, v, cmd).await.map(|n| c.count("tombstones cut by a stop in a delete", n as u64))
            } else {
                w.apply(v, cmd).await
            };
            if let Err(e) = r {
                c.violation(&format!("{sig}:delete-error"), json!({"log": w.log, "error": e}));
                return;
            }
            let mut gone = 0;
            if let Some(data) = w.model.get_mut(&t).unwrap().data.get_mut(&v) {
                for (s, rows) in data.iter_mut() {
                    if p(s) {
                        let b = rows.len();
                        rows.retain(|ts, _| !rs.iter().any(|r| r.min_ts <= *ts && *ts <= r.max_ts));
                        gone += b - rows.len();
                    }
                }
            }
            c.count("deletes", 1);
            c.count("rows deleted", gone as u64);
        }
        let (mut gc, due) = (StdRng::seed_from_u64(g.gen()), g.chance(0.25));
        if std::env::var("EACH").is_ok() || due || step + 1 == steps {
            if !check(&w, &mut gc, c, sig).await {
                return;
            }
        }
    }
    c.case(Some(&w.log.join(";")));
}

pub fn v06(c: &mut Ctx) {
    let mut g = c.rng("v06");
    let rt = rt();
    for _ in 0..c.n(12, 40) {
        rt.block_on(run(c, &mut g, &Mix { deletes: false, restart: true }, "data", 30));
    }
}
pub fn v07(c: &mut Ctx) {
    let mut g = c.rng("v07");
    let rt = rt();
    for _ in 0..c.n(12, 40) {
        rt.block_on(run(c, &mut g, &Mix { deletes: true, restart: true }, "delete", 30));
    }
}

/// compaction heavy histories: nearly every write makes a delta file
pub fn v05(c: &mut Ctx) {
    let mut g = c.rng("v05");
    let rt = rt();
    for _ in 0..c.n(11, 40) {
        rt.block_on(compaction_run(c, &mut g));
    }
    rt.block_on(older_wins(c));
    c.need("compactions that changed the files", 20);
    c.need("compacted files read", 50);
}

pub async fn levels(w: &World, v: u32) -> Vec<(u32, Vec<u64>)> {
    let st = w.eng().vnode(v).await.unwrap();
    let ver = st.ts_family().read().await.version();
    ver.levels_info().iter().map(|l| (l.level, l.files.iter().map(|f| f.file_id()).collect())).collect()
}

async fn compaction_run(c: &mut Ctx, g: &mut StdRng) {
    let tables: &[&str] = if g.chance(0.6) { &["m"] } else { &["m", "n"] };
    let regime = if g.chance(0.4) { Regime::SameSpan } else { Regime::WriteOnce };
    let mut w = World::new(g, tables, &[11], regime).await;
    let spread = g.gen_range(0..4);
    for _ in 0..g.gen_range(4..9) {
        for _ in 0..g.gen_range(2..7) {
            let n = *g.pick(&[1usize, 3, 20, 150]);
            let mut rows = gen_rows(g, tables, n);
            // delta files of several time spans: they go to different levels
            let base = 1000 * g.gen_range(0..=spread) as i64;
            for r in rows.iter_mut() {
                if g.chance(0.95) {
                    r.ts = base + r.ts.rem_euclid(60);
                }
            }
            w.fit(11, &mut rows);
            if rows.is_empty() {
                continue;
            }
            w.note(format!("write {} {}@{}..", rows.len(), rows[0].table, rows[0].ts));
            if let Err(e) = w.apply(11, write_cmd(&rows, 2)).await {
                c.violation("compact:write-error", json!({"log": w.log, "error": e}));
                return;
            }
            w.model_write(11, &rows);
            c.count("rows written", rows.len() as u64);
            if g.chance(0.9) {
                w.note("flush".into());
                if let Err(e) = w.flush(11, false).await {
                    c.violation("compact:flush-error", json!({"log": w.log, "error": e}));
                    return;
                }
            }
            if regime == Regime::WriteOnce && g.chance(0.15) {
                let t = g.pick(tables).to_string();
                if let Some(m) = w.model.get(&t) {
                    let (d, p, n) = gen_tags(g, &m.tags);
                    let a = base + g.gen_range(-5..60);
                    let r = TimeRange::new(a, a + *g.pick(&[0i64, 5, 40, 3000]));
                    w.note(format!("delete {t} {n} {r:?}"));
                    if let Err(e) = w.apply(11, delete_cmd(&t, vec![r], d, 11)).await {
                        c.violation("compact:delete-error", json!({"log": w.log, "error": e}));
                        return;
                    }
                    if let Some(data) = w.model.get_mut(&t).unwrap().data.get_mut(&11) {
                        for (s, rows) in data.iter_mut() {
                            if p(s) {
                                rows.retain(|ts, _| !(r.min_ts <= *ts && *ts <= r.max_ts));
                            }
                        }
                    }
                    c.count("deletes", 1);
                }
            }
        }
        for _ in 0..g.gen_range(1..4) {
            let before = levels(&w, 11).await;
            w.note("compact".into());
            if let Err(e) = w.eng().kv.compact(vec![11]).await {
                c.violation("compact:compaction-error", json!({"log": w.log, "error": e.to_string()}));
                return;
            }
            let after = levels(&w, 11).await;
            if std::env::var("TRACE").is_ok() {
                let st = w.eng().vnode(11).await.unwrap();
                let ver = st.ts_family().read().await.version();
                for l in ver.levels_info() {
                    for f in &l.files {
                        eprintln!("  L{} #{} {:?}", l.level, f.file_id(), f.time_range());
                    }
                }
            }
            if before == after {
                break;
            }
            c.count("compactions that changed the files", 1);
            for (l, f) in &after {
                c.max(&format!("most files on level {l}"), f.len() as u64);
            }
            c.case(Some(&format!("{before:?}{after:?}")));
            if !check(&w, g, c, "compact").await {
                return;
            }
        }
        if g.chance(0.15) {
            w.note("restart".into());
            w.restart(g.gen()).await;
            if !check(&w, g, c, "compact").await {
                return;
            }
        }
    }
}

/// The known finding: a delta file is left behind an older one it overlaps with.
async fn older_wins(c: &mut Ctx) {
    let mut g = c.rng("older");
    let mut w = loop {
        let w = World::new(&mut g, &["m"], &[11], Regime::SameSpan).await;
        if w.cfg.storage.compact_trigger_file_num == 2 && w.log[0].contains("mem=536870912") {
            break w;
        }
    };
    let row = |ts: i64, v: i64| Row { table: "m".into(), tags: vec![("ta".into(), "a".into())], ts, fields: vec![("i0".into(), FieldValue::I64(v))] };
    for (ts, v, compact) in [(100, 0, false), (200, 0, true), (300, 1, false), (50, 0, false), (300, 2, false), (310, 0, true)] {
        let r = vec![row(ts, v)];
        w.apply(11, write_cmd(&r, 2)).await.expect("harness: write");
        w.model_write(11, &r);
        w.flush(11, false).await.expect("harness: flush");
        if compact {
            w.eng().kv.compact(vec![11]).await.expect("harness: compact");
        }
    }
    let q = Scan { cols: Some(vec!["time".into(), "i0".into()]), batch: 64, ..Default::default() };
    let got = w.eng().scan(11, "m", &q).await.expect("harness: scan");
    let want = w.expect(11, "m", &q, None);
    c.case(Some("a newer delta file is compacted and an older one is not"));
    if diff(&want, &got).is_some() {
        let mut older = want.clone();
        for r in older.iter_mut().filter(|r| r["time"] == Val::T(300)) {
            r.insert("i0".into(), Val::I(1));
        }
        let sig = if diff(&older, &got).is_none() { "compact:older-delta-left" } else { "compact:older-delta-left:other" };
        c.violation(sig, json!({"want": want.iter().map(show).collect::<Vec<_>>(), "got": got.iter().map(show).collect::<Vec<_>>(), "levels": format!("{:?}", levels(&w, 11).await)}));
    }
}
