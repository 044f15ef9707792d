//! An in-memory model of the slice of `rust-rocksdb` that `grovedb-storage`
//! uses. It stands in for the git dependency that cannot be fetched offline.
//!
//! What is modelled (and what the checks assume of the real engine):
//! * four ordered byte-key column families per database;
//! * `write(batch)` and `Transaction::commit` are atomic and totally ordered;
//! * `OptimisticTransactionDB` transactions: reads see the latest committed
//!   state overlaid with the transaction's own writes; commit fails with
//!   `Busy` if a key the transaction wrote was changed by someone else after
//!   the transaction first wrote it;
//! * iterators are snapshots taken at creation;
//! * a database is identified by its path and survives being closed and
//!   reopened in the same process;
//! * `Checkpoint` copies the committed state to a new path.
//!
//! The `sim` module is the fault/crash plane used by the harness.

use std::{
    collections::{BTreeMap, HashMap},
    fmt,
    marker::PhantomData,
    ops::Bound,
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering},
        Arc, Mutex, MutexGuard, RwLock,
    },
};

pub const DEFAULT_COLUMN_FAMILY_NAME: &str = "default";

// ------------------------------------------------------------------ errors

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ErrorKind {
    NotFound,
    Busy,
    TryAgain,
    IOError,
    InvalidArgument,
    Unknown,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error {
    message: String,
    kind: ErrorKind,
}

impl Error {
    fn of(kind: ErrorKind, message: impl Into<String>) -> Self {
        Error {
            message: message.into(),
            kind,
        }
    }
    pub fn kind(&self) -> ErrorKind {
        self.kind
    }
    pub fn into_string(self) -> String {
        self.to_string()
    }
}
impl AsRef<str> for Error {
    fn as_ref(&self) -> &str {
        &self.message
    }
}
impl From<Error> for String {
    fn from(e: Error) -> String {
        e.into_string()
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}: {}", self.kind, self.message)
    }
}
impl std::error::Error for Error {}

// ----------------------------------------------------------------- options

#[derive(Clone, Default)]
pub struct Options {
    create_if_missing: bool,
}
impl Options {
    pub fn create_if_missing(&mut self, v: bool) {
        self.create_if_missing = v;
    }
    pub fn create_missing_column_families(&mut self, _: bool) {}
    pub fn increase_parallelism(&mut self, _: i32) {}
    pub fn set_allow_mmap_writes(&mut self, _: bool) {}
    pub fn set_allow_mmap_reads(&mut self, _: bool) {}
    pub fn set_atomic_flush(&mut self, _: bool) {}
    pub fn set_disable_auto_compactions(&mut self, _: bool) {}
}

pub struct ColumnFamilyDescriptor {
    name: String,
}
impl ColumnFamilyDescriptor {
    pub fn new<S: Into<String>>(name: S, _opts: Options) -> Self {
        Self { name: name.into() }
    }
}

pub struct ColumnFamily {
    ix: usize,
}

/// Anything that designates a column family (`&ColumnFamily`, `&&ColumnFamily`).
pub trait AsColumnFamilyRef {
    fn ix(&self) -> usize;
}
impl AsColumnFamilyRef for ColumnFamily {
    fn ix(&self) -> usize {
        self.ix
    }
}
impl<T: AsColumnFamilyRef + ?Sized> AsColumnFamilyRef for &T {
    fn ix(&self) -> usize {
        (**self).ix()
    }
}

// ------------------------------------------------------------------- state

type Map = BTreeMap<Vec<u8>, Vec<u8>>;
type Delta = BTreeMap<Vec<u8>, Option<Vec<u8>>>;

/// A committed state: one ordered map per column family.
#[derive(Clone, Default)]
pub struct State {
    cfs: Vec<Arc<Map>>,
}

impl State {
    pub fn cf_len(&self, ix: usize) -> usize {
        self.cfs.get(ix).map(|m| m.len()).unwrap_or(0)
    }
    pub fn cf(&self, ix: usize) -> Arc<Map> {
        self.cfs.get(ix).cloned().unwrap_or_default()
    }
    fn ensure(&mut self, n: usize) {
        while self.cfs.len() < n {
            self.cfs.push(Arc::new(Map::new()));
        }
    }
}

#[derive(Clone, Debug)]
enum Op {
    Put(usize, Vec<u8>, Vec<u8>),
    Del(usize, Vec<u8>),
    DelRange(usize, Vec<u8>, Vec<u8>),
}

/// What survives a crash of the process: the committed state.
struct Disk {
    names: RwLock<Vec<String>>,
    inner: Mutex<DiskInner>,
    open: AtomicBool,
}

struct DiskInner {
    state: State,
    /// last modification sequence number of each key (conflict detection)
    versions: HashMap<(usize, Vec<u8>), u64>,
    seq: u64,
    recording: bool,
    history: Vec<State>,
}

impl DiskInner {
    fn apply(&mut self, ops: &[Op]) {
        self.seq += 1;
        let seq = self.seq;
        for op in ops {
            match op {
                Op::Put(cf, k, v) => {
                    Arc::make_mut(&mut self.state.cfs[*cf]).insert(k.clone(), v.clone());
                    self.versions.insert((*cf, k.clone()), seq);
                }
                Op::Del(cf, k) => {
                    Arc::make_mut(&mut self.state.cfs[*cf]).remove(k);
                    self.versions.insert((*cf, k.clone()), seq);
                }
                Op::DelRange(cf, a, b) => {
                    let doomed: Vec<Vec<u8>> = self.state.cfs[*cf]
                        .range::<Vec<u8>, _>((Bound::Included(a), Bound::Excluded(b)))
                        .map(|(k, _)| k.clone())
                        .collect();
                    let m = Arc::make_mut(&mut self.state.cfs[*cf]);
                    for k in doomed {
                        m.remove(&k);
                        self.versions.insert((*cf, k), seq);
                    }
                }
            }
        }
        if self.recording {
            self.history.push(self.state.clone());
        }
    }
}

static REGISTRY: Mutex<Option<HashMap<PathBuf, Arc<Disk>>>> = Mutex::new(None);

fn registry() -> MutexGuard<'static, Option<HashMap<PathBuf, Arc<Disk>>>> {
    let mut g = REGISTRY.lock().unwrap_or_else(|e| e.into_inner());
    g.get_or_insert_with(HashMap::new);
    g
}

fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

fn canonical(path: &Path) -> PathBuf {
    std::fs::canonicalize(path).unwrap_or_else(|_| path.to_path_buf())
}

// ------------------------------------------------------------- fault plane

thread_local! {
    static FAIL_WRITE_IN: std::cell::Cell<i64> = const { std::cell::Cell::new(-1) };
    static FAIL_READ_IN: std::cell::Cell<i64> = const { std::cell::Cell::new(-1) };
}
static WRITES: AtomicU64 = AtomicU64::new(0);
static READS: AtomicI64 = AtomicI64::new(0);

fn tick(c: &'static std::thread::LocalKey<std::cell::Cell<i64>>, what: &str) -> Result<(), Error> {
    c.with(|c| {
        let n = c.get();
        if n < 0 {
            Ok(())
        } else if n == 0 {
            c.set(-1);
            Err(Error::of(ErrorKind::IOError, format!("injected {what} fault")))
        } else {
            c.set(n - 1);
            Ok(())
        }
    })
}

/// Control plane used by the verification harness only.
pub mod sim {
    use super::*;

    /// The `n`-th (0-based) commit/write from now fails with an IO error,
    /// before it takes effect. Negative: never.
    pub fn fail_write_in(n: i64) {
        FAIL_WRITE_IN.with(|c| c.set(n));
    }
    /// The `n`-th (0-based) point read from now fails with an IO error.
    pub fn fail_read_in(n: i64) {
        FAIL_READ_IN.with(|c| c.set(n));
    }
    /// Was the scheduled read fault not reached yet?
    pub fn read_fault_pending() -> bool {
        FAIL_READ_IN.with(|c| c.get() >= 0)
    }
    pub fn write_fault_pending() -> bool {
        FAIL_WRITE_IN.with(|c| c.get() >= 0)
    }
    /// Start recording the committed state after every write to `path`.
    pub fn record(path: &Path, on: bool) {
        let r = registry();
        let d = r.as_ref().unwrap().get(&canonical(path)).cloned();
        drop(r);
        if let Some(d) = d {
            let mut i = lock(&d.inner);
            i.recording = on;
            i.history.clear();
        }
    }
    /// The states recorded since `record`, in commit order.
    pub fn history(path: &Path) -> Vec<State> {
        let r = registry();
        let d = r.as_ref().unwrap().get(&canonical(path)).cloned();
        drop(r);
        d.map(|d| lock(&d.inner).history.clone()).unwrap_or_default()
    }
    /// The current committed state of `path`.
    pub fn state(path: &Path) -> State {
        let r = registry();
        let d = r.as_ref().unwrap().get(&canonical(path)).cloned();
        drop(r);
        d.map(|d| lock(&d.inner).state.clone()).unwrap_or_default()
    }
    /// Make `path` (an existing directory, not open) hold `state`: a disk image.
    pub fn install(path: &Path, state: State) {
        let _ = std::fs::create_dir_all(path);
        let _ = std::fs::write(path.join("CURRENT"), b"model\n");
        let mut r = registry();
        let mut s = state;
        s.ensure(4);
        r.as_mut().unwrap().insert(
            canonical(path),
            Arc::new(Disk {
                names: RwLock::new(vec![]),
                inner: Mutex::new(DiskInner {
                    state: s,
                    versions: HashMap::new(),
                    seq: 0,
                    recording: false,
                    history: vec![],
                }),
                open: AtomicBool::new(false),
            }),
        );
    }
    /// Forget a path completely.
    pub fn forget(path: &Path) {
        registry().as_mut().unwrap().remove(&canonical(path));
    }
    pub fn writes() -> u64 {
        WRITES.load(Ordering::Relaxed)
    }
}

// ---------------------------------------------------------------------- DB

pub struct OptimisticTransactionDB {
    disk: Arc<Disk>,
    path: PathBuf,
    cfs: Vec<(String, ColumnFamily)>,
}

impl Drop for OptimisticTransactionDB {
    fn drop(&mut self) {
        self.disk.open.store(false, Ordering::SeqCst);
    }
}

impl OptimisticTransactionDB {
    pub fn open_cf_descriptors<P, I>(opts: &Options, path: P, cfs: I) -> Result<Self, Error>
    where
        P: AsRef<Path>,
        I: IntoIterator<Item = ColumnFamilyDescriptor>,
    {
        let path = path.as_ref();
        let marker = path.join("CURRENT");
        if !marker.exists() {
            if !opts.create_if_missing {
                return Err(Error::of(
                    ErrorKind::InvalidArgument,
                    format!("{}: does not exist (create_if_missing is false)", path.display()),
                ));
            }
            std::fs::create_dir_all(path)
                .and_then(|_| std::fs::write(&marker, b"model\n"))
                .map_err(|e| Error::of(ErrorKind::IOError, e.to_string()))?;
            registry().as_mut().unwrap().remove(&canonical(path));
        }
        let key = canonical(path);
        let disk = {
            let mut r = registry();
            r.as_mut()
                .unwrap()
                .entry(key.clone())
                .or_insert_with(|| {
                    Arc::new(Disk {
                        names: RwLock::new(vec![]),
                        inner: Mutex::new(DiskInner {
                            state: State::default(),
                            versions: HashMap::new(),
                            seq: 0,
                            recording: false,
                            history: vec![],
                        }),
                        open: AtomicBool::new(false),
                    })
                })
                .clone()
        };
        if disk.open.swap(true, Ordering::SeqCst) {
            return Err(Error::of(
                ErrorKind::IOError,
                format!("lock hold by current process: {}/LOCK", path.display()),
            ));
        }
        let mut names = vec![DEFAULT_COLUMN_FAMILY_NAME.to_string()];
        names.extend(cfs.into_iter().map(|c| c.name));
        *disk.names.write().unwrap() = names.clone();
        lock(&disk.inner).state.ensure(names.len());
        Ok(Self {
            disk,
            path: key,
            cfs: names
                .into_iter()
                .enumerate()
                .map(|(ix, n)| (n, ColumnFamily { ix }))
                .collect(),
        })
    }

    pub fn path(&self) -> &Path {
        &self.path
    }

    pub fn cf_handle(&self, name: &str) -> Option<&ColumnFamily> {
        self.cfs.iter().find(|(n, _)| n == name).map(|(_, c)| c)
    }

    fn read(&self, cf: usize, key: &[u8]) -> Result<Option<Vec<u8>>, Error> {
        tick(&FAIL_READ_IN, "read")?;
        READS.fetch_add(1, Ordering::Relaxed);
        Ok(lock(&self.disk.inner).state.cfs[cf].get(key).cloned())
    }

    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        self.read(0, key.as_ref())
    }

    pub fn get_cf<K: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
    ) -> Result<Option<Vec<u8>>, Error> {
        self.read(cf.ix(), key.as_ref())
    }

    pub fn write(&self, batch: WriteBatchWithTransaction<true>) -> Result<(), Error> {
        tick(&FAIL_WRITE_IN, "write")?;
        WRITES.fetch_add(1, Ordering::Relaxed);
        lock(&self.disk.inner).apply(&batch.ops);
        Ok(())
    }

    pub fn delete_range_cf<K: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        from: K,
        to: K,
    ) -> Result<(), Error> {
        tick(&FAIL_WRITE_IN, "write")?;
        WRITES.fetch_add(1, Ordering::Relaxed);
        lock(&self.disk.inner).apply(&[Op::DelRange(
            cf.ix(),
            from.as_ref().to_vec(),
            to.as_ref().to_vec(),
        )]);
        Ok(())
    }

    pub fn flush(&self) -> Result<(), Error> {
        Ok(())
    }

    pub fn raw_iterator(&self) -> DBRawIteratorWithThreadMode<'_, Self> {
        self.iter_of(0)
    }
    pub fn raw_iterator_cf(
        &self,
        cf: &impl AsColumnFamilyRef,
    ) -> DBRawIteratorWithThreadMode<'_, Self> {
        self.iter_of(cf.ix())
    }
    fn iter_of(&self, cf: usize) -> DBRawIteratorWithThreadMode<'_, Self> {
        DBRawIteratorWithThreadMode::over(
            lock(&self.disk.inner).state.cfs[cf].clone(),
            Arc::new(Delta::new()),
        )
    }

    pub fn transaction(&self) -> Transaction<'_, Self> {
        Transaction {
            db: self,
            inner: Mutex::new(TxInner {
                delta: (0..self.cfs.len()).map(|_| Arc::new(Delta::new())).collect(),
                tracked: HashMap::new(),
            }),
        }
    }
}

// ----------------------------------------------------------- write batches

#[derive(Default)]
pub struct WriteBatchWithTransaction<const TRANSACTION: bool> {
    ops: Vec<Op>,
}
impl<const T: bool> WriteBatchWithTransaction<T> {
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, key: K, value: V) {
        self.ops
            .push(Op::Put(0, key.as_ref().to_vec(), value.as_ref().to_vec()));
    }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(
        &mut self,
        cf: &impl AsColumnFamilyRef,
        key: K,
        value: V,
    ) {
        self.ops.push(Op::Put(
            cf.ix(),
            key.as_ref().to_vec(),
            value.as_ref().to_vec(),
        ));
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, key: K) {
        self.ops.push(Op::Del(0, key.as_ref().to_vec()));
    }
    pub fn delete_cf<K: AsRef<[u8]>>(&mut self, cf: &impl AsColumnFamilyRef, key: K) {
        self.ops.push(Op::Del(cf.ix(), key.as_ref().to_vec()));
    }
    pub fn len(&self) -> usize {
        self.ops.len()
    }
    pub fn is_empty(&self) -> bool {
        self.ops.is_empty()
    }
    pub fn clear(&mut self) {
        self.ops.clear();
    }
}

// ------------------------------------------------------------ transactions

struct TxInner {
    delta: Vec<Arc<Delta>>,
    /// key -> sequence number of the database when the key was first written here
    tracked: HashMap<(usize, Vec<u8>), u64>,
}

pub struct Transaction<'db, DB> {
    db: &'db DB,
    inner: Mutex<TxInner>,
}

impl<'db> Transaction<'db, OptimisticTransactionDB> {
    pub fn commit(self) -> Result<(), Error> {
        tick(&FAIL_WRITE_IN, "commit")?;
        let tx = lock(&self.inner);
        let mut d = lock(&self.db.disk.inner);
        for (k, at) in &tx.tracked {
            if d.versions.get(k).copied().unwrap_or(0) > *at {
                return Err(Error::of(ErrorKind::Busy, "Resource busy: write conflict"));
            }
        }
        let mut ops = Vec::new();
        for (cf, delta) in tx.delta.iter().enumerate() {
            for (k, v) in delta.iter() {
                ops.push(match v {
                    Some(v) => Op::Put(cf, k.clone(), v.clone()),
                    None => Op::Del(cf, k.clone()),
                });
            }
        }
        if !ops.is_empty() {
            WRITES.fetch_add(1, Ordering::Relaxed);
            d.apply(&ops);
        }
        Ok(())
    }

    pub fn rollback(&self) -> Result<(), Error> {
        let mut tx = lock(&self.inner);
        tx.tracked.clear();
        for d in &mut tx.delta {
            *d = Arc::new(Delta::new());
        }
        Ok(())
    }

    fn stage(&self, cf: usize, key: &[u8], value: Option<&[u8]>) {
        let seq = lock(&self.db.disk.inner).seq;
        let mut tx = lock(&self.inner);
        tx.tracked.entry((cf, key.to_vec())).or_insert(seq);
        Arc::make_mut(&mut tx.delta[cf]).insert(key.to_vec(), value.map(|v| v.to_vec()));
    }

    pub fn rebuild_from_writebatch(
        &self,
        batch: &WriteBatchWithTransaction<true>,
    ) -> Result<(), Error> {
        tick(&FAIL_WRITE_IN, "write")?;
        for op in &batch.ops {
            match op {
                Op::Put(cf, k, v) => self.stage(*cf, k, Some(v)),
                Op::Del(cf, k) => self.stage(*cf, k, None),
                Op::DelRange(..) => {
                    return Err(Error::of(ErrorKind::InvalidArgument, "range delete in tx"))
                }
            }
        }
        Ok(())
    }

    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        tick(&FAIL_WRITE_IN, "write")?;
        self.stage(0, key.as_ref(), Some(value.as_ref()));
        Ok(())
    }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
        value: V,
    ) -> Result<(), Error> {
        tick(&FAIL_WRITE_IN, "write")?;
        self.stage(cf.ix(), key.as_ref(), Some(value.as_ref()));
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        tick(&FAIL_WRITE_IN, "write")?;
        self.stage(0, key.as_ref(), None);
        Ok(())
    }
    pub fn delete_cf<K: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
    ) -> Result<(), Error> {
        tick(&FAIL_WRITE_IN, "write")?;
        self.stage(cf.ix(), key.as_ref(), None);
        Ok(())
    }

    fn read(&self, cf: usize, key: &[u8]) -> Result<Option<Vec<u8>>, Error> {
        if let Some(v) = lock(&self.inner).delta[cf].get(key) {
            tick(&FAIL_READ_IN, "read")?;
            return Ok(v.clone());
        }
        self.db.read(cf, key)
    }
    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        self.read(0, key.as_ref())
    }
    pub fn get_cf<K: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
    ) -> Result<Option<Vec<u8>>, Error> {
        self.read(cf.ix(), key.as_ref())
    }

    pub fn raw_iterator(&self) -> DBRawIteratorWithThreadMode<'_, Self> {
        self.iter_of(0)
    }
    pub fn raw_iterator_cf(
        &self,
        cf: &impl AsColumnFamilyRef,
    ) -> DBRawIteratorWithThreadMode<'_, Self> {
        self.iter_of(cf.ix())
    }
    fn iter_of(&self, cf: usize) -> DBRawIteratorWithThreadMode<'_, Self> {
        let delta = lock(&self.inner).delta[cf].clone();
        let base = lock(&self.db.disk.inner).state.cfs[cf].clone();
        DBRawIteratorWithThreadMode::over(base, delta)
    }
}

// --------------------------------------------------------------- iterators

pub struct DBRawIteratorWithThreadMode<'a, D> {
    base: Arc<Map>,
    delta: Arc<Delta>,
    cur: Option<(Vec<u8>, Vec<u8>)>,
    _p: PhantomData<&'a D>,
}

impl<D> DBRawIteratorWithThreadMode<'_, D> {
    fn over(base: Arc<Map>, delta: Arc<Delta>) -> Self {
        Self {
            base,
            delta,
            cur: None,
            _p: PhantomData,
        }
    }

    fn forward(&mut self, from: Bound<Vec<u8>>) {
        let mut from = from;
        loop {
            let b = self
                .base
                .range::<Vec<u8>, _>((from.as_ref(), Bound::Unbounded))
                .next();
            let d = self
                .delta
                .range::<Vec<u8>, _>((from.as_ref(), Bound::Unbounded))
                .next();
            match (b, d) {
                (None, None) => {
                    self.cur = None;
                    return;
                }
                (Some((bk, bv)), d) if d.is_none() || bk < d.unwrap().0 => {
                    self.cur = Some((bk.clone(), bv.clone()));
                    return;
                }
                (_, Some((dk, Some(dv)))) => {
                    self.cur = Some((dk.clone(), dv.clone()));
                    return;
                }
                (_, Some((dk, None))) => from = Bound::Excluded(dk.clone()),
                (Some(_), None) => unreachable!(),
            }
        }
    }

    fn backward(&mut self, to: Bound<Vec<u8>>) {
        let mut to = to;
        loop {
            let b = self
                .base
                .range::<Vec<u8>, _>((Bound::Unbounded, to.as_ref()))
                .next_back();
            let d = self
                .delta
                .range::<Vec<u8>, _>((Bound::Unbounded, to.as_ref()))
                .next_back();
            match (b, d) {
                (None, None) => {
                    self.cur = None;
                    return;
                }
                (Some((bk, bv)), d) if d.is_none() || bk > d.unwrap().0 => {
                    self.cur = Some((bk.clone(), bv.clone()));
                    return;
                }
                (_, Some((dk, Some(dv)))) => {
                    self.cur = Some((dk.clone(), dv.clone()));
                    return;
                }
                (_, Some((dk, None))) => to = Bound::Excluded(dk.clone()),
                (Some(_), None) => unreachable!(),
            }
        }
    }

    pub fn valid(&self) -> bool {
        self.cur.is_some()
    }
    pub fn status(&self) -> Result<(), Error> {
        Ok(())
    }
    pub fn seek_to_first(&mut self) {
        self.forward(Bound::Unbounded);
    }
    pub fn seek_to_last(&mut self) {
        self.backward(Bound::Unbounded);
    }
    pub fn seek<K: AsRef<[u8]>>(&mut self, key: K) {
        self.forward(Bound::Included(key.as_ref().to_vec()));
    }
    pub fn seek_for_prev<K: AsRef<[u8]>>(&mut self, key: K) {
        self.backward(Bound::Included(key.as_ref().to_vec()));
    }
    pub fn next(&mut self) {
        if let Some((k, _)) = self.cur.take() {
            self.forward(Bound::Excluded(k));
        }
    }
    pub fn prev(&mut self) {
        if let Some((k, _)) = self.cur.take() {
            self.backward(Bound::Excluded(k));
        }
    }
    pub fn key(&self) -> Option<&[u8]> {
        self.cur.as_ref().map(|(k, _)| k.as_slice())
    }
    pub fn value(&self) -> Option<&[u8]> {
        self.cur.as_ref().map(|(_, v)| v.as_slice())
    }
    pub fn item(&self) -> Option<(&[u8], &[u8])> {
        self.cur.as_ref().map(|(k, v)| (k.as_slice(), v.as_slice()))
    }
}

// -------------------------------------------------------------- checkpoints

pub mod checkpoint {
    use super::*;

    pub struct Checkpoint<'db> {
        db: &'db OptimisticTransactionDB,
    }

    impl<'db> Checkpoint<'db> {
        pub fn new(db: &'db OptimisticTransactionDB) -> Result<Self, Error> {
            Ok(Self { db })
        }
        pub fn create_checkpoint<P: AsRef<Path>>(&self, path: P) -> Result<(), Error> {
            self.create_checkpoint_with_log_size(path, 0)
        }
        pub fn create_checkpoint_with_log_size<P: AsRef<Path>>(
            &self,
            path: P,
            _log_size: u64,
        ) -> Result<(), Error> {
            let path = path.as_ref();
            if path.exists() {
                return Err(Error::of(ErrorKind::InvalidArgument, "Directory exists"));
            }
            std::fs::create_dir(path)
                .map_err(|e| Error::of(ErrorKind::IOError, e.to_string()))?;
            let state = lock(&self.db.disk.inner).state.clone();
            sim::install(path, state);
            Ok(())
        }
    }
}
