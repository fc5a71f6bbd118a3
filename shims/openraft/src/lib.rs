//! Stand-in for openraft 0.9 (not in the offline registry): the data types and the storage
//! traits cnosdb implements.  The consensus engine itself is not here; the monitors drive
//! the storage the way openraft's contract allows.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{self, Debug, Display};
use std::future::Future;
use std::marker::PhantomData;
use std::ops::RangeBounds;

use serde::{Deserialize, Serialize};

pub trait OptionalSend: Send {}
impl<T: Send + ?Sized> OptionalSend for T {}
pub trait NodeId: Copy + Ord + Default + Debug + Display + Send + Sync + std::hash::Hash + 'static {}
impl<T: Copy + Ord + Default + Debug + Display + Send + Sync + std::hash::Hash + 'static> NodeId for T {}
pub trait Node: Clone + Debug + Default + PartialEq + Eq + Send + Sync + 'static {}
impl<T: Clone + Debug + Default + PartialEq + Eq + Send + Sync + 'static> Node for T {}
#[derive(Debug, Clone, Copy, Default)]
pub struct TokioRuntime;

pub trait RaftTypeConfig: Sized + Send + Sync + Debug + Clone + Copy + Default + Eq + Ord + 'static {
    type D: Clone + Debug + Send + Sync + Serialize + for<'a> Deserialize<'a> + 'static;
    type R: Send + Sync + 'static;
    type NodeId: NodeId + Serialize + for<'a> Deserialize<'a>;
    type Node: Node + Serialize + for<'a> Deserialize<'a>;
    type Entry: Send + Sync + 'static;
    type SnapshotData: Send + 'static;
    type AsyncRuntime;
}
#[macro_export]
macro_rules! declare_raft_types {
    ($(#[$m:meta])* $v:vis $n:ident : $($k:ident = $t:ty),* $(,)?) => {
        $(#[$m])*
        #[derive(Debug, Clone, Copy, Default, Eq, PartialEq, Ord, PartialOrd, serde::Deserialize, serde::Serialize)]
        $v struct $n {}
        impl $crate::RaftTypeConfig for $n { $(type $k = $t;)* }
    };
}

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct LeaderId<NID> {
    pub term: u64,
    pub node_id: NID,
}
pub type CommittedLeaderId<NID> = LeaderId<NID>;
impl<NID> LeaderId<NID> {
    pub fn new(term: u64, node_id: NID) -> Self {
        Self { term, node_id }
    }
}
impl<NID: Display> Display for LeaderId<NID> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "T{}-N{}", self.term, self.node_id)
    }
}
#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct LogId<NID> {
    pub leader_id: CommittedLeaderId<NID>,
    pub index: u64,
}
impl<NID> LogId<NID> {
    pub fn new(leader_id: CommittedLeaderId<NID>, index: u64) -> Self {
        Self { leader_id, index }
    }
}
impl<NID: Display> Display for LogId<NID> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}-{}", self.leader_id, self.index)
    }
}
#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Vote<NID> {
    pub leader_id: LeaderId<NID>,
    pub committed: bool,
}
impl<NID> Vote<NID> {
    pub fn new(term: u64, node_id: NID) -> Self {
        Self { leader_id: LeaderId { term, node_id }, committed: false }
    }
    pub fn new_committed(term: u64, node_id: NID) -> Self {
        Self { leader_id: LeaderId { term, node_id }, committed: true }
    }
}
#[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound(deserialize = "NID: Ord + Deserialize<'de>, N: Deserialize<'de>"))]
pub struct Membership<NID: Ord, N> {
    configs: Vec<BTreeSet<NID>>,
    nodes: BTreeMap<NID, N>,
}
impl<NID: Ord + Clone, N: Clone + Default> Membership<NID, N> {
    pub fn new(configs: Vec<BTreeSet<NID>>, nodes: impl IntoNodes<NID, N>) -> Self {
        let mut nodes = nodes.into_nodes();
        for c in &configs {
            for id in c {
                nodes.entry(id.clone()).or_default();
            }
        }
        Self { configs, nodes }
    }
    pub fn get_joint_config(&self) -> &Vec<BTreeSet<NID>> {
        &self.configs
    }
    pub fn nodes(&self) -> impl Iterator<Item = (&NID, &N)> {
        self.nodes.iter()
    }
    pub fn voter_ids(&self) -> impl Iterator<Item = NID> {
        self.configs.iter().flatten().cloned().collect::<BTreeSet<_>>().into_iter()
    }
}
pub trait IntoNodes<NID, N> {
    fn into_nodes(self) -> BTreeMap<NID, N>;
}
impl<NID, N> IntoNodes<NID, N> for () {
    fn into_nodes(self) -> BTreeMap<NID, N> {
        BTreeMap::new()
    }
}
impl<NID, N> IntoNodes<NID, N> for BTreeMap<NID, N> {
    fn into_nodes(self) -> BTreeMap<NID, N> {
        self
    }
}
impl<NID, N> IntoNodes<NID, N> for Option<BTreeMap<NID, N>>
where
    NID: Ord,
{
    fn into_nodes(self) -> BTreeMap<NID, N> {
        self.unwrap_or_default()
    }
}
#[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound(deserialize = "NID: Ord + Deserialize<'de>, N: Deserialize<'de>"))]
pub struct StoredMembership<NID: Ord, N> {
    log_id: Option<LogId<NID>>,
    membership: Membership<NID, N>,
}
impl<NID: Ord, N> StoredMembership<NID, N> {
    pub fn new(log_id: Option<LogId<NID>>, membership: Membership<NID, N>) -> Self {
        Self { log_id, membership }
    }
    pub fn log_id(&self) -> &Option<LogId<NID>> {
        &self.log_id
    }
    pub fn membership(&self) -> &Membership<NID, N> {
        &self.membership
    }
}
#[derive(Clone, Serialize, Deserialize)]
#[serde(bound = "")]
pub enum EntryPayload<C: RaftTypeConfig> {
    Blank,
    Normal(C::D),
    Membership(Membership<C::NodeId, C::Node>),
}
#[derive(Clone, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct Entry<C: RaftTypeConfig> {
    pub log_id: LogId<C::NodeId>,
    pub payload: EntryPayload<C>,
}
impl<C: RaftTypeConfig> Default for Entry<C> {
    fn default() -> Self {
        Self { log_id: LogId::default(), payload: EntryPayload::Blank }
    }
}
impl<C: RaftTypeConfig> Debug for EntryPayload<C> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            EntryPayload::Blank => f.write_str("blank"),
            EntryPayload::Normal(d) => write!(f, "normal: {d:?}"),
            EntryPayload::Membership(m) => write!(f, "membership: {m:?}"),
        }
    }
}
impl<C: RaftTypeConfig> Debug for Entry<C> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}:{:?}", self.log_id, self.payload)
    }
}
impl<C: RaftTypeConfig> Display for Entry<C> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.log_id)
    }
}
impl<C: RaftTypeConfig> PartialEq for EntryPayload<C>
where
    C::D: PartialEq,
{
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (EntryPayload::Blank, EntryPayload::Blank) => true,
            (EntryPayload::Normal(a), EntryPayload::Normal(b)) => a == b,
            (EntryPayload::Membership(a), EntryPayload::Membership(b)) => a == b,
            _ => false,
        }
    }
}
impl<C: RaftTypeConfig> PartialEq for Entry<C>
where
    C::D: PartialEq,
{
    fn eq(&self, o: &Self) -> bool {
        self.log_id == o.log_id && self.payload == o.payload
    }
}
pub trait MessageSummary<M> {
    fn summary(&self) -> String;
}
impl<T: Display> MessageSummary<T> for T {
    fn summary(&self) -> String {
        self.to_string()
    }
}
#[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound(deserialize = "NID: Ord + Deserialize<'de>, N: Deserialize<'de>"))]
pub struct SnapshotMeta<NID: Ord, N> {
    pub last_log_id: Option<LogId<NID>>,
    pub last_membership: StoredMembership<NID, N>,
    pub snapshot_id: String,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum SnapshotPolicy {
    LogsSinceLast(u64),
    Never,
}
#[derive(Debug, Clone)]
pub struct StorageIOError<NID>(pub String, PhantomData<NID>);
macro_rules! io { ($($n:ident),*) => { impl<NID> StorageIOError<NID> { $(
    pub fn $n<E: Display>(e: E) -> Self { Self(format!("{}: {e}", stringify!($n)), PhantomData) }
)* } } }
io!(write, read, write_logs, read_logs, write_vote, read_vote, write_state_machine, read_state_machine);
impl<NID> Display for StorageIOError<NID> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
#[derive(Debug, Clone)]
pub enum StorageError<NID> {
    IO { source: StorageIOError<NID> },
}
impl<NID> From<StorageIOError<NID>> for StorageError<NID> {
    fn from(source: StorageIOError<NID>) -> Self {
        StorageError::IO { source }
    }
}
impl<NID> Display for StorageError<NID> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            StorageError::IO { source } => source.fmt(f),
        }
    }
}
impl<NID: Debug> std::error::Error for StorageError<NID> {}

pub mod storage {
    use super::*;
    #[derive(Debug, Clone, Default)]
    pub struct LogState<C: RaftTypeConfig> {
        pub last_purged_log_id: Option<LogId<C::NodeId>>,
        pub last_log_id: Option<LogId<C::NodeId>>,
    }
    pub struct Snapshot<C: RaftTypeConfig> {
        pub meta: SnapshotMeta<C::NodeId, C::Node>,
        pub snapshot: Box<C::SnapshotData>,
    }
}
use storage::{LogState, Snapshot};
type Res<T, C> = Result<T, StorageError<<C as RaftTypeConfig>::NodeId>>;

pub trait RaftLogReader<C: RaftTypeConfig>: OptionalSend + Sync + 'static {
    fn try_get_log_entries<RB: RangeBounds<u64> + Clone + Debug + OptionalSend>(
        &mut self,
        range: RB,
    ) -> impl Future<Output = Res<Vec<C::Entry>, C>> + Send;
}
pub trait RaftSnapshotBuilder<C: RaftTypeConfig>: OptionalSend + Sync + 'static {
    fn build_snapshot(&mut self) -> impl Future<Output = Res<Snapshot<C>, C>> + Send;
}
pub trait RaftStorage<C: RaftTypeConfig>: RaftLogReader<C> + OptionalSend + Sync + 'static {
    type LogReader: RaftLogReader<C>;
    type SnapshotBuilder: RaftSnapshotBuilder<C>;
    fn save_vote(&mut self, vote: &Vote<C::NodeId>) -> impl Future<Output = Res<(), C>> + Send;
    fn read_vote(&mut self) -> impl Future<Output = Res<Option<Vote<C::NodeId>>, C>> + Send;
    fn get_log_state(&mut self) -> impl Future<Output = Res<LogState<C>, C>> + Send;
    fn get_log_reader(&mut self) -> impl Future<Output = Self::LogReader> + Send;
    fn append_to_log<I>(&mut self, entries: I) -> impl Future<Output = Res<(), C>> + Send
    where
        I: IntoIterator<Item = C::Entry> + OptionalSend;
    fn delete_conflict_logs_since(&mut self, log_id: LogId<C::NodeId>) -> impl Future<Output = Res<(), C>> + Send;
    fn purge_logs_upto(&mut self, log_id: LogId<C::NodeId>) -> impl Future<Output = Res<(), C>> + Send;
    #[allow(clippy::type_complexity)]
    fn last_applied_state(
        &mut self,
    ) -> impl Future<Output = Res<(Option<LogId<C::NodeId>>, StoredMembership<C::NodeId, C::Node>), C>> + Send;
    fn apply_to_state_machine(&mut self, entries: &[C::Entry]) -> impl Future<Output = Res<Vec<C::R>, C>> + Send;
    fn get_snapshot_builder(&mut self) -> impl Future<Output = Self::SnapshotBuilder> + Send;
    fn begin_receiving_snapshot(&mut self) -> impl Future<Output = Res<Box<C::SnapshotData>, C>> + Send;
    fn install_snapshot(
        &mut self,
        meta: &SnapshotMeta<C::NodeId, C::Node>,
        snapshot: Box<C::SnapshotData>,
    ) -> impl Future<Output = Res<(), C>> + Send;
    fn get_current_snapshot(&mut self) -> impl Future<Output = Res<Option<Snapshot<C>>, C>> + Send;
}
#[derive(Clone)]
pub struct Raft<C: RaftTypeConfig>(PhantomData<C>);
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum ServerState {
    Learner,
    Follower,
    Candidate,
    Leader,
    Shutdown,
}
