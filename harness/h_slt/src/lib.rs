//! The SQL logic test tool, compiled from its own files, with its monitors beside it.
#![allow(dead_code, unused_imports)]
include!("/repo/query_server/sqllogicaltests/src/main.rs");

#[path = "mon_slt.rs"]
mod mon_slt;

pub fn entry() {
    mon_slt::entry()
}
