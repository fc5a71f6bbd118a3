//! Monitors of the metadata service: its state machine, its replicas, and the caches that
//! the nodes keep of it.
mod caches;
mod cmds;
mod model;
mod replicas;
mod store;

fn main() {
    mon::main(&[("E01", replicas::e01), ("E04", store::e04), ("E05", caches::e05), ("E06", store::e06)]);
}
