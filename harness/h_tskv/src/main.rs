//! Monitors of the storage engine: what was acknowledged is what a scan returns.
mod codec;
mod ddl;
mod e2e;
mod evolve;
mod repl;

fn main() {
    mon::main(&[("V01", codec::v01), ("V05", e2e::v05), ("V06", e2e::v06), ("V07", e2e::v07), ("V08", ddl::v08), ("Q03", evolve::q03), ("W01", repl::w01), ("E02", repl::e02)]);
}
