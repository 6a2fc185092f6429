//! Model of the part of redb the oracles use: transactions over one table of `u32 -> Vec<u8>`.
//! Writes become visible to readers at commit, and only then; an uncommitted transaction leaves no
//! trace. Used in the symbolic build only: replays run against the real redb.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::path::Path;
use std::sync::{Arc, Mutex};

pub mod backends {
    #[derive(Debug)]
    pub struct InMemoryBackend;
    impl InMemoryBackend {
        pub fn new() -> Self {
            Self
        }
    }
}
macro_rules! err {
    ($($n:ident),*) => { $(
        #[derive(Debug)]
        pub enum $n { TableDoesNotExist }
        impl std::fmt::Display for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("table does not exist")
            }
        }
        impl std::error::Error for $n {}
    )* };
}
err!(DatabaseError, TransactionError, TableError, StorageError, CommitError);

type Table_ = BTreeMap<u32, Vec<u8>>;
type Store = BTreeMap<&'static str, Arc<Table_>>;
pub struct TableDefinition<'a, K, V>(&'static str, PhantomData<(&'a (), K, V)>);
impl<K, V> Clone for TableDefinition<'_, K, V> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<K, V> Copy for TableDefinition<'_, K, V> {}
impl<K, V> TableDefinition<'_, K, V> {
    pub const fn new(name: &'static str) -> Self {
        Self(name, PhantomData)
    }
}
#[derive(Debug, Clone)]
pub struct Database(Arc<Mutex<Store>>);
pub struct Builder;
impl Builder {
    pub fn create_with_backend(&self, _: backends::InMemoryBackend) -> Result<Database, DatabaseError> {
        Ok(Database(Default::default()))
    }
}
impl Database {
    pub fn builder() -> Builder {
        Builder
    }
    pub fn create(_: impl AsRef<Path>) -> Result<Self, DatabaseError> {
        Ok(Self(Default::default()))
    }
    pub fn begin_write(&self) -> Result<WriteTransaction, TransactionError> {
        let staged = self.0.lock().unwrap().clone();
        Ok(WriteTransaction { db: self.0.clone(), staged: RefCell::new(staged) })
    }
    pub fn begin_read(&self) -> Result<ReadTransaction, TransactionError> {
        Ok(ReadTransaction(self.0.lock().unwrap().clone()))
    }
}
pub struct WriteTransaction {
    db: Arc<Mutex<Store>>,
    staged: RefCell<Store>,
}
pub struct Table<'t> {
    txn: &'t WriteTransaction,
    name: &'static str,
}
pub trait ReadableTable {}
pub struct AccessGuard(Vec<u8>);
impl AccessGuard {
    pub fn value(&self) -> Vec<u8> {
        self.0.clone()
    }
}
impl WriteTransaction {
    pub fn open_table<'t>(&'t self, d: TableDefinition<'static, u32, Vec<u8>>) -> Result<Table<'t>, TableError> {
        self.staged.borrow_mut().entry(d.0).or_default();
        Ok(Table { txn: self, name: d.0 })
    }
    pub fn delete_table(&self, d: TableDefinition<'static, u32, Vec<u8>>) -> Result<bool, TableError> {
        Ok(self.staged.borrow_mut().remove(d.0).is_some())
    }
    pub fn commit(self) -> Result<(), CommitError> {
        *self.db.lock().unwrap() = self.staged.into_inner();
        Ok(())
    }
    pub fn abort(self) -> Result<(), StorageError> {
        Ok(())
    }
}
use std::borrow::Borrow;
impl Table<'_> {
    pub fn insert(&mut self, k: impl Borrow<u32>, v: impl Borrow<Vec<u8>>) -> Result<Option<AccessGuard>, StorageError> {
        let mut s = self.txn.staged.borrow_mut();
        let t = Arc::make_mut(s.get_mut(self.name).unwrap());
        Ok(t.insert(*k.borrow(), v.borrow().clone()).map(AccessGuard))
    }
    pub fn remove(&mut self, k: impl Borrow<u32>) -> Result<Option<AccessGuard>, StorageError> {
        let mut s = self.txn.staged.borrow_mut();
        Ok(Arc::make_mut(s.get_mut(self.name).unwrap()).remove(k.borrow()).map(AccessGuard))
    }
    pub fn get(&self, k: impl Borrow<u32>) -> Result<Option<AccessGuard>, StorageError> {
        let s = self.txn.staged.borrow();
        Ok(s.get(self.name).unwrap().get(k.borrow()).cloned().map(AccessGuard))
    }
}
pub struct ReadTransaction(Store);
pub struct ReadOnlyTable(Arc<Table_>);
impl ReadTransaction {
    pub fn open_table(&self, d: TableDefinition<'static, u32, Vec<u8>>) -> Result<ReadOnlyTable, TableError> {
        self.0.get(d.0).cloned().map(ReadOnlyTable).ok_or(TableError::TableDoesNotExist)
    }
}
impl ReadOnlyTable {
    pub fn get(&self, k: impl Borrow<u32>) -> Result<Option<AccessGuard>, StorageError> {
        Ok(self.0.get(k.borrow()).cloned().map(AccessGuard))
    }
}
