//! P01 point batches (flatbuffers), P02 protobuf messages, P03 the gRPC clients.
#[macro_use]
mod wire;
mod p01;
mod p03;

use mon::rand::rngs::StdRng;
use mon::rand::Rng;
use mon::{json, Ctx, GenExt};
use protos::kv_service::*;
use protos::models_helper::{parse_prost_bytes, to_prost_bytes};
use protos::prompb::prometheus::*;
use protos::raft_service::*;
use wire::{encode, Msg, Wire, W};

message! {
    PingRequest { 1 u64 version, 2 bytes body }
    PingResponse { 1 u64 version, 2 bytes body }
    protos::kv_service::Meta { 1 str tenant, 2 ostr user, 3 ostr password }
    WritePointsResponse { 1 u64 points_number }
    BatchBytesResponse { 1 i32 code, 2 bytes data }
    WriteDataRequest { 1 bytes data, 2 u32 precision }
    DropTableRequest { 1 str db, 2 str table }
    DropColumnRequest { 1 str db, 2 str table, 3 str column }
    UpdateSetValue { 1 bytes key, 2 obytes value }
    UpdateTagsRequest { 1 str db, 2 rmsg new_tags, 3 rbytes matched_series, 4 bool dry_run }
    DeleteFromTableRequest { 1 str tenant, 2 str database, 3 str table, 4 bytes predicate, 5 u32 vnode_id }
    RaftWriteCommand { 1 str tenant, 2 str db_name, 3 u32 replica_id, 4 one command (protos::kv_service::raft_write_command::Command { WriteData 4 msg, DropTable 5 msg, DropColumn 6 msg, DeleteFromTable 7 msg, UpdateTags 8 msg }) }
    CompactVnodeRequest { 1 ru32 vnode_ids }
    FetchChecksumRequest { 1 u32 vnode_id }
    OpenRaftNodeRequest { 1 str tenant, 2 str db_name, 3 u32 vnode_id, 4 u32 replica_id }
    DropRaftNodeRequest { 1 str tenant, 2 str db_name, 3 u32 vnode_id, 4 u32 replica_id }
    AddRaftFollowerRequest { 1 str db_name, 2 u32 replica_id, 3 u64 follower_nid }
    RemoveRaftNodeRequest { 1 str db_name, 2 u32 replica_id, 3 u32 vnode_id }
    DestoryRaftGroupRequest { 1 str db_name, 2 u32 replica_id }
    PromoteLeaderRequest { 1 str db_name, 2 u32 new_leader_id, 3 u32 replica_id }
    LearnerToFollowerRequest { 1 str db_name, 2 u32 replica_id }
    BuildRaftGroupRequest { 1 str db_name, 2 u32 replica_id }
    AdminCommand { 1 str tenant, 2 one command (protos::kv_service::admin_command::Command { CompactVnode 2 msg, OpenRaftNode 3 msg, DropRaftNode 4 msg, FetchChecksum 5 msg, AddRaftFollower 6 msg, RemoveRaftNode 7 msg, DestoryRaftGroup 8 msg, PromoteLeader 9 msg, LearnerToFollower 10 msg, BuildRaftGroup 11 msg }) }
    DownloadFileRequest { 1 str filename }
    QueryRecordBatchRequest { 1 bytes args, 2 bytes expr, 3 bytes aggs }
    RaftResponse { 1 i32 code, 2 str data }
    RaftVoteReq { 2 u32 group_id, 3 str data }
    RaftSnapshotReq { 2 u32 group_id, 3 bytes data }
    RaftAppendEntriesReq { 2 u32 group_id, 3 bytes data }
    MetricMetadata { 1 enm r#type (8), 2 str metric_family_name, 4 str help, 5 str unit }
    Sample { 1 f64 value, 2 i64 timestamp }
    Exemplar { 1 rmsg labels, 2 f64 value, 3 i64 timestamp }
    Histogram { 1 one count (protos::prompb::prometheus::histogram::Count { CountInt 1 u64, CountFloat 2 f64 }), 3 f64 sum, 4 s32 schema, 5 f64 zero_threshold, 6 one zero_count (protos::prompb::prometheus::histogram::ZeroCount { ZeroCountInt 6 u64, ZeroCountFloat 7 f64 }), 8 rmsg negative_spans, 9 rs64 negative_deltas, 10 rf64 negative_counts, 11 rmsg positive_spans, 12 rs64 positive_deltas, 13 rf64 positive_counts, 14 enm reset_hint (4), 15 i64 timestamp }
    BucketSpan { 1 s32 offset, 2 u32 length }
    TimeSeries { 1 rmsg labels, 2 rmsg samples, 3 rmsg exemplars, 4 rmsg histograms }
    Label { 1 str name, 2 str value }
    LabelMatcher { 1 enm r#type (4), 2 str name, 3 str value }
    ReadHints { 1 i64 step_ms, 2 str func, 3 i64 start_ms, 4 i64 end_ms, 5 rstr grouping, 6 bool by, 7 i64 range_ms }
    Query { 1 i64 start_timestamp_ms, 2 i64 end_timestamp_ms, 3 rmsg matchers, 4 omsg hints }
    QueryResult { 1 rmsg timeseries }
    ReadRequest { 1 rmsg queries, 2 renm accepted_response_types }
    ReadResponse { 1 rmsg results }
    WriteRequest { 1 rmsg timeseries, 3 rmsg metadata }
    Chunk { 1 i64 min_time_ms, 2 i64 max_time_ms, 3 enm r#type (4), 4 bytes data }
    ChunkedSeries { 1 rmsg labels, 2 rmsg chunks }
    ChunkedReadResponse { 1 rmsg chunked_series, 2 i64 query_index }
}

fn one<T: prost::Message + Default + PartialEq + Wire + std::fmt::Debug>(c: &mut Ctx, r: &mut StdRng, name: &str, n: usize) {
    for _ in 0..n {
        let x = <T as Wire>::gen(r);
        let m: Msg = x.msg();
        let plain = encode(&m, None);
        let got = to_prost_bytes(&x);
        c.case(Some(&(name, &plain)));
        c.count("messages", 1);
        if got != plain {
            c.violation(&format!("{name}:encoding"), json!({"message": format!("{x:?}"), "want": format!("{plain:02x?}"), "got": format!("{got:02x?}")}));
        }
        let variant = encode(&m, Some(r));
        for (what, b) in [("own bytes", &got), ("published bytes", &plain), ("another encoder's bytes", &variant)] {
            match parse_prost_bytes::<T>(b) {
                Ok(y) if y == x => {}
                y => c.violation(&format!("{name}:decoding {what}"), json!({"message": format!("{x:?}"), "got": format!("{y:?}"), "bytes": format!("{b:02x?}")})),
            }
        }
        if variant != plain {
            c.count("other field orders and unknown fields", 1);
        }
        // damage: an error or a message, never a panic; a cut inside a field is an error
        if !plain.is_empty() {
            let cut = r.gen_range(0..plain.len());
            let mut b = plain[..cut].to_vec();
            let res = mon::quiet(|| parse_prost_bytes::<T>(&b));
            match res {
                Err(p) => c.violation(&format!("{name}:panic on a cut message"), json!({"panic": p})),
                Ok(Err(_)) => c.count("damaged rejected", 1),
                Ok(Ok(y)) => {
                    // only what was complete may have been read
                    if encode(&y.msg(), None).len() > cut {
                        c.violation(&format!("{name}:read beyond a cut"), json!({"bytes": format!("{b:02x?}"), "got": format!("{y:?}")}));
                    }
                }
            }
            b = plain.clone();
            for _ in 0..r.gen_range(1..4) {
                let i = r.gen_range(0..b.len());
                b[i] = r.gen();
            }
            if let Err(p) = mon::quiet(|| parse_prost_bytes::<T>(&b).is_ok()) {
                c.violation(&format!("{name}:panic on a damaged message"), json!({"panic": p, "bytes": format!("{b:02x?}")}));
            }
        }
    }
}

fn p02(c: &mut Ctx) {
    c.rule("every message encodes to the bytes the published schema prescribes, reads back equal from its own bytes and from any other valid encoding of it (fields in any order, unpacked numbers, unknown fields), and damaged bytes give an error, not a panic");
    let mut r = c.rng("p02");
    let n = c.n(120, 60);
    macro_rules! all { ($($t:ty),* $(,)?) => { $( one::<$t>(c, &mut r, stringify!($t), n); )* }; }
    all!(
        PingRequest, PingResponse, protos::kv_service::Meta, WritePointsResponse, BatchBytesResponse, WriteDataRequest, DropTableRequest, DropColumnRequest,
        UpdateSetValue, UpdateTagsRequest, DeleteFromTableRequest, CompactVnodeRequest, FetchChecksumRequest, OpenRaftNodeRequest,
        DropRaftNodeRequest, AddRaftFollowerRequest, RemoveRaftNodeRequest, DestoryRaftGroupRequest, PromoteLeaderRequest,
        LearnerToFollowerRequest, BuildRaftGroupRequest, DownloadFileRequest, QueryRecordBatchRequest, RaftResponse, RaftVoteReq,
        RaftSnapshotReq, RaftAppendEntriesReq, MetricMetadata, Sample, Exemplar, BucketSpan, Label, LabelMatcher, ReadHints, Query, Chunk, ChunkedSeries,
        ChunkedReadResponse
    );
    for _ in 0..5 {
        all!(RaftWriteCommand, AdminCommand, ReadRequest);
    }
    all!(Histogram, TimeSeries, QueryResult, ReadResponse, WriteRequest);
    // enumerations keep their published numbers
    let pin: [(i32, i32); 12] = [
        (label_matcher::Type::Eq as i32, 0),
        (label_matcher::Type::Neq as i32, 1),
        (label_matcher::Type::Re as i32, 2),
        (label_matcher::Type::Nre as i32, 3),
        (read_request::ResponseType::Samples as i32, 0),
        (read_request::ResponseType::StreamedXorChunks as i32, 1),
        (metric_metadata::MetricType::Counter as i32, 1),
        (metric_metadata::MetricType::Gauge as i32, 2),
        (metric_metadata::MetricType::Histogram as i32, 3),
        (metric_metadata::MetricType::Summary as i32, 5),
        (chunk::Encoding::Xor as i32, 1),
        (histogram::ResetHint::Gauge as i32, 3),
    ];
    for (got, want) in pin {
        if got != want {
            c.violation("enum number", json!({"got": got, "want": want}));
        }
    }
    c.need("messages", 5000);
    c.need("other field orders and unknown fields", 1000);
    c.need("damaged rejected", 1000);
}

fn main() {
    mon::main(&[("P01", p01::p01), ("P02", p02), ("P03", p03::p03)]);
}
