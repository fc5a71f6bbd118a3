//! a node that answers pings, for bucket placement
use std::net::SocketAddr;

use futures::stream::BoxStream;
use protos::kv_service::tskv_service_server::{TskvService, TskvServiceServer};
use protos::kv_service::*;
use tonic::transport::Server;
use tonic::{Request, Response, Status};

#[derive(Clone, Default)]
pub struct Pong;
type St = BoxStream<'static, Result<BatchBytesResponse, Status>>;

#[tonic::async_trait]
impl TskvService for Pong {
    async fn ping(&self, r: Request<PingRequest>) -> Result<Response<PingResponse>, Status> {
        let at = r.local_addr();
        let m = r.into_inner();
        if m.body == b"where" {
            // which of the addresses was called
            let body = at.map(|a| a.ip().to_string()).unwrap_or_default().into_bytes();
            return Ok(Response::new(PingResponse { version: m.version, body }));
        }
        Ok(Response::new(PingResponse { version: m.version, body: m.body }))
    }
    type DownloadFileStream = St;
    async fn download_file(&self, _: Request<DownloadFileRequest>) -> Result<Response<St>, Status> {
        Err(Status::unimplemented(""))
    }
    type TagScanStream = St;
    async fn tag_scan(&self, _: Request<QueryRecordBatchRequest>) -> Result<Response<St>, Status> {
        Err(Status::unimplemented(""))
    }
    type QueryRecordBatchStream = St;
    async fn query_record_batch(&self, _: Request<QueryRecordBatchRequest>) -> Result<Response<St>, Status> {
        Err(Status::unimplemented(""))
    }
    async fn raft_write(&self, _: Request<RaftWriteCommand>) -> Result<Response<BatchBytesResponse>, Status> {
        Err(Status::unimplemented(""))
    }
    async fn admin_request(&self, _: Request<AdminCommand>) -> Result<Response<BatchBytesResponse>, Status> {
        Err(Status::unimplemented(""))
    }
}

/// serve pings on every loopback address; the port
pub async fn serve() -> u16 {
    for _ in 0..50 {
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        let port = l.local_addr().unwrap().port();
        drop(l);
        let a: SocketAddr = format!("0.0.0.0:{port}").parse().unwrap();
        let h = tokio::spawn(Server::builder().add_service(TskvServiceServer::new(Pong)).serve(a));
        for _ in 0..100 {
            tokio::time::sleep(std::time::Duration::from_millis(10)).await;
            if h.is_finished() {
                break;
            }
            if tokio::net::TcpStream::connect(("127.0.0.1", port)).await.is_ok() {
                return port;
            }
        }
    }
    panic!("harness: no ping server")
}
