//! A small closed world for exploring rgb-std: fixture schemata and interface,
//! a mock chain with a witness-transaction factory, wallets, a reference
//! ledger and canonical snapshots.

pub mod boxes;
pub mod deliver;
pub mod disk;
pub mod fixture;
pub mod fsx;
pub mod history;
pub mod ifam;
pub mod ledger;
pub mod probe;
pub mod snap;
pub mod walk;
pub mod world;

pub use boxes::*;
pub use deliver::*;
pub use disk::*;
pub use fixture::*;
pub use fsx::*;
pub use history::*;
pub use ifam::*;
pub use ledger::*;
pub use probe::*;
pub use snap::*;
pub use walk::*;
pub use world::*;
