use std::borrow::Cow;
use std::fmt;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::Poll;
use std::time::{Duration, Instant};

use arrow::record_batch::RecordBatch;
use chrono::{DateTime, Utc};
use parking_lot::Mutex;

#[derive(Debug, Clone, Default)]
pub struct Count(Arc<AtomicUsize>);
impl Count {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn add(&self, n: usize) {
        self.0.fetch_add(n, Ordering::Relaxed);
    }
    pub fn value(&self) -> usize {
        self.0.load(Ordering::Relaxed)
    }
}
pub type Gauge = Count;
impl Count {
    pub fn set(&self, n: usize) {
        self.0.store(n, Ordering::Relaxed);
    }
}
#[derive(Debug, Clone, Default)]
pub struct Time(Arc<AtomicUsize>);
impl Time {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn add_elapsed(&self, s: Instant) {
        self.add_duration(s.elapsed())
    }
    pub fn add_duration(&self, d: Duration) {
        self.0.fetch_add((d.as_nanos() as usize).max(1), Ordering::Relaxed);
    }
    pub fn value(&self) -> usize {
        self.0.load(Ordering::Relaxed)
    }
    pub fn timer(&self) -> ScopedTimerGuard<'_> {
        ScopedTimerGuard { inner: self, start: Some(Instant::now()) }
    }
}
pub struct ScopedTimerGuard<'a> {
    inner: &'a Time,
    start: Option<Instant>,
}
impl ScopedTimerGuard<'_> {
    pub fn stop(&mut self) {
        if let Some(s) = self.start.take() {
            self.inner.add_elapsed(s)
        }
    }
    pub fn restart(&mut self) {
        self.start = Some(Instant::now())
    }
    pub fn done(mut self) {
        self.stop()
    }
}
impl Drop for ScopedTimerGuard<'_> {
    fn drop(&mut self) {
        self.stop()
    }
}
#[derive(Debug, Clone, Default)]
pub struct Timestamp(Arc<Mutex<Option<DateTime<Utc>>>>);
impl Timestamp {
    pub fn value(&self) -> Option<DateTime<Utc>> {
        *self.0.lock()
    }
    pub fn record(&self) {
        *self.0.lock() = Some(Utc::now());
    }
}
#[derive(Debug, Clone)]
pub enum MetricValue {
    OutputRows(Count),
    ElapsedCompute(Time),
    Count { name: Cow<'static, str>, count: Count },
    Gauge { name: Cow<'static, str>, gauge: Gauge },
    Time { name: Cow<'static, str>, time: Time },
    StartTimestamp(Timestamp),
    EndTimestamp(Timestamp),
}
impl MetricValue {
    pub fn name(&self) -> &str {
        match self {
            Self::OutputRows(_) => "output_rows",
            Self::ElapsedCompute(_) => "elapsed_compute",
            Self::Count { name, .. } | Self::Gauge { name, .. } | Self::Time { name, .. } => name,
            Self::StartTimestamp(_) => "start_timestamp",
            Self::EndTimestamp(_) => "end_timestamp",
        }
    }
    pub fn as_usize(&self) -> usize {
        match self {
            Self::OutputRows(c) | Self::Count { count: c, .. } | Self::Gauge { gauge: c, .. } => c.value(),
            Self::ElapsedCompute(t) | Self::Time { time: t, .. } => t.value(),
            Self::StartTimestamp(t) | Self::EndTimestamp(t) => t.value().and_then(|v| v.timestamp_nanos_opt()).unwrap_or(0) as usize,
        }
    }
}
impl std::fmt::Display for MetricValue {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.as_usize())
    }
}
#[derive(Debug)]
pub struct Metric {
    value: MetricValue,
}
impl Metric {
    pub fn value(&self) -> &MetricValue {
        &self.value
    }
}
#[derive(Debug, Clone, Default)]
pub struct MetricsSet {
    metrics: Vec<Arc<Metric>>,
}
impl MetricsSet {
    pub fn iter(&self) -> impl Iterator<Item = &Arc<Metric>> {
        self.metrics.iter()
    }
    pub fn aggregate_by_name(&self) -> Self {
        self.clone()
    }
    pub fn sorted_for_display(self) -> Self {
        self
    }
    pub fn timestamps_removed(self) -> Self {
        self
    }
    pub fn output_rows(&self) -> Option<usize> {
        let v: Vec<usize> = self.metrics.iter().filter_map(|m| if let MetricValue::OutputRows(c) = &m.value { Some(c.value()) } else { None }).collect();
        (!v.is_empty()).then(|| v.iter().sum())
    }
}
impl fmt::Display for MetricsSet {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for m in &self.metrics {
            write!(f, "{}={} ", m.value.name(), m.value.as_usize())?;
        }
        Ok(())
    }
}
#[derive(Debug, Clone, Default)]
pub struct ExecutionPlanMetricsSet {
    inner: Arc<Mutex<MetricsSet>>,
}
impl ExecutionPlanMetricsSet {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn register(&self, m: Arc<Metric>) {
        self.inner.lock().metrics.push(m)
    }
    pub fn clone_inner(&self) -> MetricsSet {
        self.inner.lock().clone()
    }
}
pub struct MetricBuilder<'a> {
    set: &'a ExecutionPlanMetricsSet,
}
impl<'a> MetricBuilder<'a> {
    pub fn new(set: &'a ExecutionPlanMetricsSet) -> Self {
        Self { set }
    }
    fn put(&self, value: MetricValue) {
        self.set.register(Arc::new(Metric { value }))
    }
    pub fn counter(self, name: impl Into<Cow<'static, str>>, _p: usize) -> Count {
        self.global_counter(name)
    }
    pub fn global_counter(self, name: impl Into<Cow<'static, str>>) -> Count {
        let count = Count::new();
        self.put(MetricValue::Count { name: name.into(), count: count.clone() });
        count
    }
    pub fn gauge(self, name: impl Into<Cow<'static, str>>, _p: usize) -> Gauge {
        self.global_counter(name)
    }
    pub fn subset_time(self, name: impl Into<Cow<'static, str>>, _p: usize) -> Time {
        let time = Time::new();
        self.put(MetricValue::Time { name: name.into(), time: time.clone() });
        time
    }
    pub fn output_rows(self, _p: usize) -> Count {
        let c = Count::new();
        self.put(MetricValue::OutputRows(c.clone()));
        c
    }
    pub fn elapsed_compute(self, _p: usize) -> Time {
        let t = Time::new();
        self.put(MetricValue::ElapsedCompute(t.clone()));
        t
    }
}
#[derive(Debug, Clone)]
pub struct BaselineMetrics {
    end_time: Timestamp,
    elapsed_compute: Time,
    output_rows: Count,
}
impl BaselineMetrics {
    pub fn new(set: &ExecutionPlanMetricsSet, p: usize) -> Self {
        let b = MetricBuilder::new(set);
        let start = Timestamp::default();
        start.record();
        b.put(MetricValue::StartTimestamp(start));
        let end_time = Timestamp::default();
        b.put(MetricValue::EndTimestamp(end_time.clone()));
        Self { end_time, elapsed_compute: MetricBuilder::new(set).elapsed_compute(p), output_rows: MetricBuilder::new(set).output_rows(p) }
    }
    pub fn elapsed_compute(&self) -> &Time {
        &self.elapsed_compute
    }
    pub fn output_rows(&self) -> &Count {
        &self.output_rows
    }
    pub fn done(&self) {
        self.end_time.record()
    }
    pub fn record_output(&self, n: usize) {
        self.output_rows.add(n)
    }
    pub fn record_poll(&self, poll: Poll<Option<crate::error::Result<RecordBatch>>>) -> Poll<Option<crate::error::Result<RecordBatch>>> {
        if let Poll::Ready(m) = &poll {
            match m {
                Some(Ok(b)) => self.record_output(b.num_rows()),
                _ => self.done(),
            }
        }
        poll
    }
}
impl Drop for BaselineMetrics {
    fn drop(&mut self) {
        if self.end_time.value().is_none() {
            self.end_time.record()
        }
    }
}
pub trait RecordOutput {
    fn record_output(self, bm: &BaselineMetrics) -> Self;
}
impl RecordOutput for usize {
    fn record_output(self, bm: &BaselineMetrics) -> Self {
        bm.record_output(self);
        self
    }
}
impl RecordOutput for RecordBatch {
    fn record_output(self, bm: &BaselineMetrics) -> Self {
        bm.record_output(self.num_rows());
        self
    }
}
impl RecordOutput for &RecordBatch {
    fn record_output(self, bm: &BaselineMetrics) -> Self {
        bm.record_output(self.num_rows());
        self
    }
}
