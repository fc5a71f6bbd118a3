//! The storage engine of /repo, opened over a scratch directory, and plain rows in and out.
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::path::Path;
use std::sync::Arc;

use config::tskv::Config;
use datafusion::arrow::array::*;
use datafusion::arrow::compute::cast;
use datafusion::arrow::datatypes::{DataType, Schema, SchemaRef, TimeUnit};
use datafusion::arrow::record_batch::RecordBatch;
use futures::StreamExt;
use memory_pool::GreedyMemoryPool;
use meta::model::MetaRef;
use metrics::metric_register::MetricsRegister;
use models::meta_data::{ReplicationSet, VnodeInfo};
use datafusion::common::DFSchema;
use datafusion::logical_expr::Expr;
use models::predicate::domain::{ColumnDomains, Predicate, PushedAggregateFunction, ResolvedPredicate, TimeRange, TimeRanges};
use models::predicate::PlacedSplit;
use models::schema::tskv_table_schema::TskvTableSchemaRef;
use protocol_parser::lines_convert::{line_to_batches, mutable_batches_to_point};
use protocol_parser::Line;
use protos::kv_service::raft_write_command::Command;
use protos::kv_service::*;
pub use protos::FieldValue;
use replication::ApplyContext;
use tskv::reader::query_executor::QueryExecutor;
use tskv::reader::QueryOption;
use tskv::vnode_store::VnodeStorage;
use tskv::{Engine, Options, TsKv, TskvResult};

use crate::{Meta, DB, TENANT};

#[derive(Clone, Debug, PartialEq)]
pub struct Row {
    pub table: String,
    pub tags: Vec<(String, String)>,
    pub ts: i64,
    pub fields: Vec<(String, FieldValue)>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    Null,
    I(i64),
    U(u64),
    F(u64),
    S(String),
    B(bool),
    T(i64),
}
impl From<&FieldValue> for Val {
    fn from(v: &FieldValue) -> Val {
        match v {
            FieldValue::U64(x) => Val::U(*x),
            FieldValue::I64(x) => Val::I(*x),
            FieldValue::Str(x) => Val::S(String::from_utf8_lossy(x).to_string()),
            FieldValue::F64(x) => Val::F(x.to_bits()),
            FieldValue::Bool(x) => Val::B(*x),
        }
    }
}
impl Val {
    pub fn show(&self) -> String {
        match self {
            Val::F(b) => format!("F({:?})", f64::from_bits(*b)),
            v => format!("{v:?}"),
        }
    }
}
pub type OutRow = BTreeMap<String, Val>;

pub fn lines_to_points(db: &str, rows: &[Row]) -> Vec<u8> {
    let lines: Vec<Line> = rows
        .iter()
        .map(|r| {
            Line::new(
                Cow::Borrowed(r.table.as_str()),
                r.tags.iter().map(|(a, b)| (Cow::Borrowed(a.as_str()), Cow::Borrowed(b.as_str()))).collect(),
                r.fields.iter().map(|(a, b)| (Cow::Borrowed(a.as_str()), b.clone())).collect(),
                r.ts,
            )
        })
        .collect();
    let b = line_to_batches(&lines).expect("harness: lines");
    mutable_batches_to_point(db, b)
}

pub fn cell(a: &ArrayRef, i: usize) -> Val {
    if a.is_null(i) {
        return Val::Null;
    }
    match a.data_type() {
        DataType::Utf8 => Val::S(a.as_any().downcast_ref::<StringArray>().unwrap().value(i).to_string()),
        DataType::Dictionary(_, _) => {
            let c = cast(a, &DataType::Utf8).unwrap();
            Val::S(c.as_any().downcast_ref::<StringArray>().unwrap().value(i).to_string())
        }
        DataType::Int64 => Val::I(a.as_any().downcast_ref::<Int64Array>().unwrap().value(i)),
        DataType::UInt64 => Val::U(a.as_any().downcast_ref::<UInt64Array>().unwrap().value(i)),
        DataType::Float64 => Val::F(a.as_any().downcast_ref::<Float64Array>().unwrap().value(i).to_bits()),
        DataType::Boolean => Val::B(a.as_any().downcast_ref::<BooleanArray>().unwrap().value(i)),
        DataType::Timestamp(TimeUnit::Nanosecond, _) => Val::T(a.as_any().downcast_ref::<TimestampNanosecondArray>().unwrap().value(i)),
        DataType::Timestamp(TimeUnit::Microsecond, _) => Val::T(a.as_any().downcast_ref::<TimestampMicrosecondArray>().unwrap().value(i)),
        DataType::Timestamp(TimeUnit::Millisecond, _) => Val::T(a.as_any().downcast_ref::<TimestampMillisecondArray>().unwrap().value(i)),
        DataType::Timestamp(TimeUnit::Second, _) => Val::T(a.as_any().downcast_ref::<TimestampSecondArray>().unwrap().value(i)),
        t => panic!("harness: column type {t:?}"),
    }
}

pub fn batch_rows(b: &RecordBatch) -> Vec<OutRow> {
    (0..b.num_rows())
        .map(|i| b.schema().fields().iter().enumerate().map(|(c, f)| (f.name().clone(), cell(b.column(c), i))).collect())
        .collect()
}

pub struct Eng {
    pub kv: Arc<TsKv>,
    pub meta: MetaRef,
    pub cfg: Config,
}

pub fn config(dir: &Path) -> Config {
    let mut c = Config::default();
    c.global.node_id = 1;
    c.storage.path = dir.join("data").to_string_lossy().to_string();
    c.wal.path = dir.join("wal").to_string_lossy().to_string();
    c.storage.compact_trigger_cold_duration = std::time::Duration::ZERO;
    c
}

/// what a scan asks for
#[derive(Clone)]
pub struct Scan {
    pub ranges: Vec<TimeRange>,
    pub tags: ColumnDomains<String>,
    pub cols: Option<Vec<String>>,
    pub batch: usize,
    pub limit: Option<usize>,
    /// a WHERE clause: replaces `ranges` and `tags`, and is pushed down the way the planner does
    pub filter: Option<Expr>,
    pub expr: Option<Arc<dyn datafusion::physical_plan::PhysicalExpr>>,
    pub aggs: Option<Vec<PushedAggregateFunction>>,
}
impl Default for Scan {
    fn default() -> Self {
        Scan { ranges: vec![TimeRange::all()], tags: ColumnDomains::all(), cols: None, batch: 4096, limit: None, filter: None, expr: None, aggs: None }
    }
}

impl Eng {
    pub async fn open(m: &Meta, cfg: &Config) -> Eng {
        let meta = m.client(cfg).await;
        let _ = meta.use_tenant("").await;
        Self::open_with(meta, cfg).await
    }
    pub async fn open_with(meta: MetaRef, cfg: &Config) -> Eng {
        let opt = Options::from(cfg);
        let kv = TsKv::open(meta.clone(), opt, crate::rt(), Arc::new(GreedyMemoryPool::new(4 << 30)), Arc::new(MetricsRegister::default()))
            .await
            .expect("harness: open engine");
        Eng { kv: Arc::new(kv), meta, cfg: cfg.clone() }
    }
    pub async fn vnode(&self, id: u32) -> TskvResult<VnodeStorage> {
        self.kv.open_tsfamily(TENANT, DB, id).await
    }
    pub async fn schema(&self, table: &str) -> Option<TskvTableSchemaRef> {
        self.meta.tenant_meta(TENANT).await?.get_tskv_table_schema_by_meta(DB, table).await.ok()?
    }

    fn df_schema(s: &TskvTableSchemaRef, cols: &Option<Vec<String>>) -> SchemaRef {
        let full = s.to_arrow_schema();
        match cols {
            None => full,
            Some(c) => Arc::new(Schema::new_with_metadata(c.iter().map(|n| full.field_with_name(n).unwrap().clone()).collect::<Vec<_>>(), full.metadata().clone())),
        }
    }

    fn option(s: &TskvTableSchemaRef, q: &Scan, df: SchemaRef) -> QueryOption {
        let p = match &q.filter {
            Some(f) => {
                let full = s.to_df_schema().expect("harness: df schema");
                let fs = df.fields().iter().map(|f| full.fields()[full.index_of_column(&datafusion::common::Column::from_name(f.name().as_str())).unwrap()].clone()).collect();
                let dfs = DFSchema::new_with_metadata(fs, full.metadata().clone()).expect("harness: df schema");
                let p = Predicate::push_down_filter(Some(f.clone()), &dfs, &df, q.limit).expect("harness: push down");
                p.resolve(s).expect("harness: resolve")
            }
            None => Arc::new(ResolvedPredicate::new(Arc::new(TimeRanges::new(q.ranges.clone())), q.tags.clone(), q.expr.clone()).expect("harness: predicate")),
        };
        QueryOption::new(q.batch, PlacedSplit::new(0, p, q.limit, ReplicationSet::default()), q.aggs.clone(), df, s.clone(), s.meta())
    }

    pub async fn scan_batches(&self, vnode: u32, table: &str, q: &Scan) -> Result<Vec<RecordBatch>, String> {
        let s = self.schema(table).await.ok_or("no table")?;
        let df = if q.aggs.is_some() {
            Arc::new(Schema::new(vec![datafusion::arrow::datatypes::Field::new("count", DataType::Int64, false)]))
        } else {
            Self::df_schema(&s, &q.cols)
        };
        let o = Self::option(&s, q, df);
        let ex = QueryExecutor::new(o, crate::rt(), self.meta.clone(), self.kv.clone());
        let mut st = ex.local_node_executor(vec![VnodeInfo::new(vnode, 1)], None).map_err(|e| e.to_string())?;
        let mut out = vec![];
        while let Some(b) = st.next().await {
            out.push(b.map_err(|e| e.to_string())?);
        }
        Ok(out)
    }

    pub async fn scan(&self, vnode: u32, table: &str, q: &Scan) -> Result<Vec<OutRow>, String> {
        Ok(self.scan_batches(vnode, table, q).await?.iter().flat_map(batch_rows).collect())
    }

    pub async fn tag_scan(&self, vnode: u32, table: &str, q: &Scan) -> Result<Vec<OutRow>, String> {
        let s = self.schema(table).await.ok_or("no table")?;
        let tags: Vec<String> = s.columns().iter().filter(|c| c.column_type.is_tag()).map(|c| c.name.clone()).collect();
        let df = Self::df_schema(&s, &Some(tags));
        let o = Self::option(&s, q, df);
        let ex = QueryExecutor::new(o, crate::rt(), self.meta.clone(), self.kv.clone());
        let mut st = ex.local_node_tag_scan(vec![VnodeInfo::new(vnode, 1)], None).map_err(|e| e.to_string())?;
        let mut out = vec![];
        while let Some(b) = st.next().await {
            out.extend(batch_rows(&b.map_err(|e| e.to_string())?));
        }
        Ok(out)
    }
}

pub fn ctx(index: u64, wal: bool) -> ApplyContext {
    ApplyContext { index, raft_id: 1, apply_type: if wal { replication::APPLY_TYPE_WAL } else { replication::APPLY_TYPE_WRITE } }
}

pub fn write_cmd(rows: &[Row], precision: u32) -> Command {
    Command::WriteData(WriteDataRequest { data: lines_to_points(DB, rows), precision })
}
pub fn drop_table_cmd(t: &str) -> Command {
    Command::DropTable(DropTableRequest { db: DB.into(), table: t.into() })
}
pub fn drop_column_cmd(t: &str, c: &str) -> Command {
    Command::DropColumn(DropColumnRequest { db: DB.into(), table: t.into(), column: c.into() })
}
pub fn delete_cmd(t: &str, ranges: Vec<TimeRange>, tags: ColumnDomains<String>, vnode: u32) -> Command {
    let p = ResolvedPredicate::new(Arc::new(TimeRanges::new(ranges)), tags, None).expect("harness: predicate");
    Command::DeleteFromTable(DeleteFromTableRequest {
        tenant: TENANT.into(),
        database: DB.into(),
        table: t.into(),
        predicate: bincode::serialize(&p).expect("harness: predicate bytes"),
        vnode_id: vnode,
    })
}
pub fn update_tags_cmd(new: Vec<(Vec<u8>, Option<Vec<u8>>)>, series: Vec<Vec<u8>>, dry: bool) -> Command {
    Command::UpdateTags(UpdateTagsRequest {
        db: DB.into(),
        new_tags: new.into_iter().map(|(key, value)| UpdateSetValue { key, value }).collect(),
        matched_series: series,
        dry_run: dry,
    })
}

/// a request as the replicated log carries it
pub fn raft_cmd(vnode_set: u32, c: Command) -> Vec<u8> {
    protos::models_helper::to_prost_bytes(&RaftWriteCommand { tenant: TENANT.into(), db_name: DB.into(), replica_id: vnode_set, command: Some(c) })
}

pub type Extra = HashMap<String, String>;
