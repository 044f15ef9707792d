//! In-memory StorageContext with fault injection, for the trees that live on a StorageContext.
use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
    rc::Rc,
};

use grovedb_costs::{
    ChildrenSizesWithIsSumTree, CostContext, CostResult, CostsExt, OperationCost,
    storage_cost::key_value_cost::KeyValueStorageCost,
};
use grovedb_storage::{Batch, Error, RawIterator, StorageContext};

/// clones share the store
#[derive(Default, Clone)]
pub struct MemCtx {
    pub data: Rc<RefCell<BTreeMap<Vec<u8>, Vec<u8>>>>,
    /// fail the n-th next write / read (1-based), 0 = never
    pub fail_write: Rc<Cell<u32>>,
    pub fail_read: Rc<Cell<u32>>,
    pub faults: Rc<Cell<u32>>,
}
impl MemCtx {
    fn tick(&self, c: &Cell<u32>) -> bool {
        let v = c.get();
        if v > 0 {
            c.set(v - 1);
            if v == 1 {
                self.faults.set(self.faults.get() + 1);
                return true;
            }
        }
        false
    }
}
fn fault() -> Error {
    Error::StorageError("injected fault".into())
}
type R<T> = CostResult<T, Error>;
fn no<T>() -> R<T> {
    Err(Error::StorageError("not supported".into())).wrap_with_cost(OperationCost::default())
}

impl<'db> StorageContext<'db> for MemCtx {
    type Batch = MemBatch;
    type RawIterator = MemIter;

    fn get<K: AsRef<[u8]>>(&self, key: K) -> R<Option<Vec<u8>>> {
        if self.tick(&self.fail_read) {
            return Err(fault()).wrap_with_cost(OperationCost::default());
        }
        Ok(self.data.borrow().get(key.as_ref()).cloned()).wrap_with_cost(OperationCost::default())
    }
    fn put<K: AsRef<[u8]>>(
        &self,
        key: K,
        value: &[u8],
        _c: ChildrenSizesWithIsSumTree,
        _k: Option<KeyValueStorageCost>,
    ) -> R<()> {
        if self.tick(&self.fail_write) {
            return Err(fault()).wrap_with_cost(OperationCost::default());
        }
        self.data.borrow_mut().insert(key.as_ref().to_vec(), value.to_vec());
        Ok(()).wrap_with_cost(OperationCost::default())
    }
    fn put_aux<K: AsRef<[u8]>>(&self, _: K, _: &[u8], _: Option<KeyValueStorageCost>) -> R<()> {
        no()
    }
    fn put_root<K: AsRef<[u8]>>(&self, _: K, _: &[u8], _: Option<KeyValueStorageCost>) -> R<()> {
        no()
    }
    fn put_meta<K: AsRef<[u8]>>(&self, _: K, _: &[u8], _: Option<KeyValueStorageCost>) -> R<()> {
        no()
    }
    fn delete<K: AsRef<[u8]>>(&self, key: K, _: Option<KeyValueStorageCost>) -> R<()> {
        self.data.borrow_mut().remove(key.as_ref());
        Ok(()).wrap_with_cost(OperationCost::default())
    }
    fn delete_aux<K: AsRef<[u8]>>(&self, _: K, _: Option<KeyValueStorageCost>) -> R<()> {
        no()
    }
    fn delete_root<K: AsRef<[u8]>>(&self, _: K, _: Option<KeyValueStorageCost>) -> R<()> {
        no()
    }
    fn delete_meta<K: AsRef<[u8]>>(&self, _: K, _: Option<KeyValueStorageCost>) -> R<()> {
        no()
    }
    fn get_aux<K: AsRef<[u8]>>(&self, _: K) -> R<Option<Vec<u8>>> {
        no()
    }
    fn get_root<K: AsRef<[u8]>>(&self, _: K) -> R<Option<Vec<u8>>> {
        no()
    }
    fn get_meta<K: AsRef<[u8]>>(&self, _: K) -> R<Option<Vec<u8>>> {
        no()
    }
    fn new_batch(&self) -> Self::Batch {
        MemBatch
    }
    fn commit_batch(&self, _b: Self::Batch) -> R<()> {
        Ok(()).wrap_with_cost(OperationCost::default())
    }
    fn raw_iter(&self) -> Self::RawIterator {
        MemIter
    }
}

pub struct MemBatch;
type E = grovedb_costs::error::Error;
impl Batch for MemBatch {
    fn put<K: AsRef<[u8]>>(
        &mut self,
        _: K,
        _: &[u8],
        _: ChildrenSizesWithIsSumTree,
        _: Option<KeyValueStorageCost>,
    ) -> Result<(), E> {
        unimplemented!()
    }
    fn put_aux<K: AsRef<[u8]>>(&mut self, _: K, _: &[u8], _: Option<KeyValueStorageCost>) -> Result<(), E> {
        unimplemented!()
    }
    fn put_root<K: AsRef<[u8]>>(&mut self, _: K, _: &[u8], _: Option<KeyValueStorageCost>) -> Result<(), E> {
        unimplemented!()
    }
    fn delete<K: AsRef<[u8]>>(&mut self, _: K, _: Option<KeyValueStorageCost>) {}
    fn delete_aux<K: AsRef<[u8]>>(&mut self, _: K, _: Option<KeyValueStorageCost>) {}
    fn delete_root<K: AsRef<[u8]>>(&mut self, _: K, _: Option<KeyValueStorageCost>) {}
}
pub struct MemIter;
impl RawIterator for MemIter {
    fn seek_to_first(&mut self) -> CostContext<()> {
        unimplemented!()
    }
    fn seek_to_last(&mut self) -> CostContext<()> {
        unimplemented!()
    }
    fn seek<K: AsRef<[u8]>>(&mut self, _: K) -> CostContext<()> {
        unimplemented!()
    }
    fn seek_for_prev<K: AsRef<[u8]>>(&mut self, _: K) -> CostContext<()> {
        unimplemented!()
    }
    fn next(&mut self) -> CostContext<()> {
        unimplemented!()
    }
    fn prev(&mut self) -> CostContext<()> {
        unimplemented!()
    }
    fn value(&self) -> CostContext<Option<&[u8]>> {
        unimplemented!()
    }
    fn key(&self) -> CostContext<Option<&[u8]>> {
        unimplemented!()
    }
    fn valid(&self) -> CostContext<bool> {
        unimplemented!()
    }
}
