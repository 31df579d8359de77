//! Storage in memory which counts writes and fails on demand.

use std::sync::{Arc, Mutex};

use nonasync::persistence::{PersistenceError, PersistenceProvider};
use rgbstd::persistence::{MemIndex, MemStash, MemState, Stock};
use strict_encoding::StrictDeserialize;

use super::*;

#[derive(Clone, Default, Debug)]
struct Inner {
    parts: [Vec<u8>; 3],
    writes: usize,
    /// The write to fail, and whether all later ones fail as well.
    fail: Option<(usize, bool)>,
}

#[derive(Clone, Default, Debug)]
pub struct Disk(Arc<Mutex<Inner>>);

impl Disk {
    pub fn reset(&self) { self.0.lock().expect("lock").writes = 0 }
    pub fn writes(&self) -> usize { self.0.lock().expect("lock").writes }
    pub fn fail(&self, at: usize, down: bool) { self.0.lock().expect("lock").fail = Some((at, down)) }
    pub fn heal(&self) { self.0.lock().expect("lock").fail = None }
    /// Whether exactly the content of the stock is stored.
    pub fn holds(&self, stock: &Stock) -> bool { self.0.lock().expect("lock").parts == providers(stock) }
    fn put(&self, i: usize, data: Vec<u8>) -> Result<(), PersistenceError> {
        let mut d = self.0.lock().expect("lock");
        let n = d.writes;
        d.writes += 1;
        if let Some((at, down)) = d.fail {
            if n == at || (down && n > at) {
                return Err(PersistenceError::with(std::io::Error::other("injected failure")));
            }
        }
        d.parts[i] = data;
        Ok(())
    }
    fn get<T: StrictDeserialize>(&self, i: usize) -> Result<T, PersistenceError> {
        let data = self.0.lock().expect("lock").parts[i].clone();
        let data = amplify::confinement::Confined::try_from(data).map_err(PersistenceError::with)?;
        T::from_strict_serialized::<{ u32::MAX as usize }>(data).map_err(PersistenceError::with)
    }
}

impl PersistenceProvider<MemStash> for Disk {
    fn load(&self) -> Result<MemStash, PersistenceError> { self.get(0) }
    fn store(&self, object: &MemStash) -> Result<(), PersistenceError> { self.put(0, bytes(object)) }
}
impl PersistenceProvider<MemState> for Disk {
    fn load(&self) -> Result<MemState, PersistenceError> { self.get(1) }
    fn store(&self, object: &MemState) -> Result<(), PersistenceError> { self.put(1, bytes(object)) }
}
impl PersistenceProvider<MemIndex> for Disk {
    fn load(&self) -> Result<MemIndex, PersistenceError> { self.get(2) }
    fn store(&self, object: &MemIndex) -> Result<(), PersistenceError> { self.put(2, bytes(object)) }
}
