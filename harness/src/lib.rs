//! Harnesses for the symbolic executor.
#![allow(clippy::missing_safety_doc)]
mod c01;
mod c02;
mod c03;
mod client;
mod life;
mod more;
mod proto;
mod rpc;
pub mod rt;
mod serve;
mod smoke;
pub mod srv;
pub mod sym;
pub mod wire;

/// Every harness, by name, for the native replay.
pub fn entry(name: &str) -> Option<extern "C" fn()> {
    [c01::ENTRIES, c02::ENTRIES, c03::ENTRIES, client::ENTRIES, life::ENTRIES, more::ENTRIES, proto::ENTRIES, rpc::ENTRIES, serve::ENTRIES, smoke::ENTRIES].iter().flat_map(|e| e.iter()).find(|e| e.0 == name).map(|e| e.1)
}
