//! Key-value trees (merk) over the storage layer: batches of puts and deletes, commits and reopenings.
use crate::dump;
use crate::element::feature_json;
use grovedb_costs::CostContext;
use grovedb_merk::{Merk, Op, TreeFeatureType, TreeType, tree::AggregateData, tree::kv::ValueDefinedCostType};
use grovedb_path::SubtreePath;
use grovedb_storage::rocksdb_storage::{PrefixedRocksDbTransactionContext, RocksDbStorage};
use grovedb_storage::{Storage, StorageBatch};
use grovedb_version::version::GroveVersion;
use std::path::PathBuf;
use vh_common::*;

type M = Merk<PrefixedRocksDbTransactionContext<'static>>;
type Tx = <RocksDbStorage as Storage<'static>>::Transaction;
pub fn scratch(n: &str) -> PathBuf {
    let p = std::env::temp_dir().join(format!("vh-{}-{n}", std::process::id()));
    let _ = std::fs::remove_dir_all(&p);
    p
}
pub fn agg(a: &AggregateData) -> Value {
    let (t, n, s) = match a {
        AggregateData::NoAggregateData => ("basic", 0, 0),
        AggregateData::Sum(s) => ("sum", 0, *s as i128),
        AggregateData::BigSum(s) => ("bigsum", 0, *s),
        AggregateData::Count(n) => ("count", *n, 0),
        AggregateData::CountAndSum(n, s) => ("countsum", *n, *s as i128),
        AggregateData::ProvableCount(n) => ("provcount", *n, 0),
        AggregateData::ProvableCountAndSum(n, s) => ("provcountsum", *n, *s as i128),
    };
    json!({"t": t, "n": n.to_string(), "s": s.to_string()})
}
/// A tree at a path of its own storage, with everything leaked so that reopening is easy.
struct Tree {
    dir: PathBuf,
    st: &'static RocksDbStorage,
    batch: Option<Box<StorageBatch>>,
    tx: Option<Box<Tx>>,
    m: Option<M>,
    path: &'static [&'static [u8]],
    kind: TreeType,
    layered: bool,
    root: Option<Vec<u8>>,
}
type NoFn = fn(&[u8], &GroveVersion) -> Option<ValueDefinedCostType>;
impl Tree {
    fn new(dir: PathBuf, kind: TreeType, layered: bool) -> Tree {
        let st: &'static RocksDbStorage = Box::leak(Box::new(RocksDbStorage::default_rocksdb_with_path(&dir).unwrap()));
        let path: &'static [&'static [u8]] = if layered { &[b"a", b"b"] } else { &[] };
        let mut t = Tree { dir, st, batch: None, tx: None, m: None, path, kind, layered, root: None };
        t.open();
        t
    }
    fn open(&mut self) {
        self.m = None;
        self.tx = Some(Box::new(self.st.start_transaction()));
        self.over();
    }
    fn over(&mut self) {
        self.m = None;
        let batch = Box::new(StorageBatch::new());
        let tx = self.tx.as_ref().unwrap();
        let (b, x): (&'static StorageBatch, &'static Tx) = unsafe { (&*(&*batch as *const _), &*(&**tx as *const _)) };
        self.batch = Some(batch);
        let ctx = self.st.get_transactional_storage_context(SubtreePath::from(self.path), Some(b), x).unwrap();
        let v = GroveVersion::latest();
        let m = if self.layered {
            Merk::open_layered_with_root_key(ctx, self.root.clone(), self.kind, None::<NoFn>, v).unwrap().unwrap()
        } else {
            Merk::open_base(ctx, self.kind, None::<NoFn>, v).unwrap().unwrap()
        };
        self.m = Some(m);
    }
    fn commit(&mut self) {
        self.flush();
        let tx = self.tx.take().unwrap();
        self.st.commit_transaction(*tx).unwrap().unwrap();
        self.open();
    }
    /// the batch goes into the open transaction; nothing is committed yet
    fn flush(&mut self) {
        self.root = self.m.as_ref().unwrap().root_key();
        self.m = None;
        let b = self.batch.take().unwrap();
        self.st.commit_multi_context_batch(*b, self.tx.as_deref()).unwrap().unwrap();
        self.over();
    }
    fn shape(&self) -> Value {
        let m = self.m.as_ref().unwrap();
        json!({"root": hex(m.root_hash().unwrap()), "rk": m.root_key().iter().map(hex).collect::<Vec<_>>(),
               "h": m.height().unwrap_or(0), "agg": agg(&m.aggregate_data().unwrap())})
    }
    fn stored(&self) -> Value {
        let p = dump::phys(&self.dir);
        let prefix = RocksDbStorage::build_prefix(SubtreePath::from(self.path)).unwrap();
        let (bad, _) = self.m.as_ref().unwrap().verify(false, GroveVersion::latest());
        let total = p.cfs[0].len();
        let ns = dump::nodes(&p.cfs[0], &prefix);
        let mut rk = prefix.to_vec();
        rk.push(b'r');
        json!([{"base": !self.layered, "rk": p.cfs[2].get(&rk).map(hex).into_iter().collect::<Vec<_>>(), "other": total - ns.len(),
                "nodes": ns, "bad": bad.len()}])
    }
}
impl Drop for Tree {
    fn drop(&mut self) {
        self.m = None;
        self.batch = None;
        self.tx = None;
        unsafe { drop(Box::from_raw(self.st as *const _ as *mut RocksDbStorage)) };
        rocksdb::sim::forget(&self.dir);
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
#[derive(Clone)]
pub struct MOp {
    k: Vec<u8>,
    op: &'static str,
    v: Vec<u8>,
    sup: [u8; 32],
    f: TreeFeatureType,
}
pub fn feature(kind: TreeType, n: u64, s: i128) -> TreeFeatureType {
    use TreeFeatureType::*;
    match kind {
        TreeType::SumTree => SummedMerkNode(s as i64),
        TreeType::BigSumTree => BigSummedMerkNode(s),
        TreeType::CountTree => CountedMerkNode(n),
        TreeType::CountSumTree => CountedSummedMerkNode(n, s as i64),
        TreeType::ProvableCountTree => ProvableCountedMerkNode(n),
        TreeType::ProvableCountSumTree => ProvableCountedSummedMerkNode(n, s as i64),
        _ => BasicMerkNode,
    }
}
impl MOp {
    fn json(&self) -> Value {
        json!({"k": hex(&self.k), "op": self.op, "v": hex(&self.v), "sup": if self.op == "comb" || self.op == "lay" || self.op == "rlay" { hex(self.sup) } else { String::new() }, "f": feature_json(&self.f)})
    }
    fn op(&self) -> Op {
        let v = self.v.clone();
        match self.op {
            "put" => Op::Put(v, self.f),
            "spec" => {
                let n = v.len() as u32;
                Op::PutWithSpecializedCost(v, n, self.f)
            }
            "comb" => Op::PutCombinedReference(v, self.sup, self.f),
            "lay" => {
                let n = v.len() as u32;
                Op::PutLayeredReference(v, n, self.sup, self.f)
            }
            "rlay" => {
                let n = v.len() as u32;
                Op::ReplaceLayeredReference(v, n, self.sup, self.f)
            }
            "del" => Op::Delete,
            "dels" => Op::DeleteMaybeSpecialized,
            "dell" => Op::DeleteLayered,
            _ => Op::DeleteLayeredMaybeSpecialized,
        }
    }
}
fn apply(t: &mut Tree, ops: &[MOp]) -> Value {
    let b: Vec<(Vec<u8>, Op)> = ops.iter().map(|o| (o.k.clone(), o.op())).collect();
    let m = t.m.as_mut().unwrap();
    outcome(guard(|| {
        let CostContext { value, .. } = m.apply::<_, Vec<u8>>(&b, &[], None, GroveVersion::latest());
        value?;
        // as GroveDB does: what the tree adds up to is asked for before anything is stored
        m.aggregate_data().map(|_| ())
    }), |_| json!(0))
}
fn reads(t: &Tree, r: &Rng, keys: &[Vec<u8>]) -> Value {
    let v = GroveVersion::latest();
    let m = t.m.as_ref().unwrap();
    let none = None::<&NoFn>;
    let mut out = vec![];
    for _ in 0..3 {
        let mut k = r.pick(keys).clone();
        if r.chance(1, 6) {
            k.push(0)
        }
        for cache in [true, false] {
            let g = m.get(&k, cache, none, v).unwrap().unwrap();
            let vh = m.get_value_hash(&k, cache, none, v).unwrap().unwrap();
            let kv = m.get_kv_hash(&k, cache, none, v).unwrap().unwrap();
            let nh = m.get_hash(&k, cache, none, v).unwrap().unwrap();
            let f = m.get_feature_type(&k, cache, none, v).unwrap().unwrap();
            let both = m.get_value_and_value_hash(&k, cache, none, v).unwrap().unwrap();
            let ex = (m.exists(&k, none, v).unwrap().unwrap(), m.exists_by_traversing_tree(&k, none, v).unwrap().unwrap());
            out.push(json!({"k": hex(&k), "cache": cache, "ex": [ex.0, ex.1],
                "v": g.iter().map(hex).collect::<Vec<_>>(), "vh": vh.iter().map(hex).collect::<Vec<_>>(),
                "kv": kv.iter().map(hex).collect::<Vec<_>>(), "nh": nh.iter().map(hex).collect::<Vec<_>>(),
                "f": f.iter().map(feature_json).collect::<Vec<_>>(),
                "both": both.iter().map(|x| json!([hex(&x.0), hex(x.1)])).collect::<Vec<_>>()}));
        }
    }
    json!(out)
}
fn key_pool(r: &Rng, n: usize) -> Vec<Vec<u8>> {
    let mut s = std::collections::BTreeSet::new();
    while s.len() < n {
        let l = match r.idx(20) {
            0 => 0,
            1 => 255,
            2..=9 => 1,
            10..=15 => 2,
            _ => 3,
        };
        let mut k = r.bytes(l);
        if r.chance(1, 3) {
            k.iter_mut().for_each(|b| *b &= 3)
        }
        s.insert(k);
    }
    s.into_iter().collect()
}
const EXTREME: [i128; 6] = [i64::MAX as i128, i64::MIN as i128, i64::MAX as i128 - 3, i64::MIN as i128 + 3, 1, -1];
fn contribution(r: &Rng, kind: TreeType, wild: bool) -> TreeFeatureType {
    let big = matches!(kind, TreeType::BigSumTree);
    let s = if wild && r.chance(1, 3) {
        if big && r.chance(1, 2) { *r.pick(&[i128::MAX, i128::MIN, i128::MAX / 2]) } else { *r.pick(&EXTREME) }
    } else {
        r.idx(2000) as i128 - 1000
    };
    let n = if wild && r.chance(1, 4) { *r.pick(&[u64::MAX, u64::MAX / 2, u64::MAX - 2, 0]) } else { r.below(5) };
    feature(kind, n, s)
}
fn gen_ops(r: &Rng, keys: &[Vec<u8>], kind: TreeType, wild: bool, bad: bool) -> Vec<MOp> {
    let n = match r.idx(8) {
        0 => keys.len(),
        1 | 2 => 1,
        3 => 2,
        _ => 1 + r.idx(keys.len().min(12)),
    };
    let mut ks = keys.to_vec();
    r.shuffle(&mut ks);
    ks.truncate(n);
    // runs of neighbouring keys unbalance the tree most
    if r.chance(1, 3) {
        let at = r.idx(keys.len());
        ks = keys[at..keys.len().min(at + n)].to_vec();
    }
    ks.sort();
    let dels = *r.pick(&[0u64, 2, 5, 8, 10]);
    let mut ops: Vec<MOp> = ks
        .into_iter()
        .map(|k| {
            let op = if r.below(10) < dels { *r.pick(&["del", "del", "dels", "dell", "dellm"]) } else { *r.pick(&["put", "put", "put", "comb", "lay", "rlay"]) };
            let n = if r.chance(1, 15) { 130 + r.idx(200) } else { r.idx(6) };
            MOp { k, op, v: r.bytes(n), sup: r.bytes(32).try_into().unwrap(), f: contribution(r, kind, wild) }
        })
        .collect();
    if bad && r.chance(1, 25) && ops.len() > 1 {
        let (i, j) = (r.idx(ops.len()), r.idx(ops.len()));
        if r.chance(1, 2) {
            ops.swap(i, j)
        } else {
            ops[i].k = ops[j].k.clone()
        }
    }
    ops
}
const KINDS: [(&str, TreeType); 7] = [
    ("tree", TreeType::NormalTree),
    ("sumtree", TreeType::SumTree),
    ("bigsumtree", TreeType::BigSumTree),
    ("counttree", TreeType::CountTree),
    ("countsumtree", TreeType::CountSumTree),
    ("provcounttree", TreeType::ProvableCountTree),
    ("provcountsumtree", TreeType::ProvableCountSumTree),
];
fn case(o: &mut Out, id: usize, kind: (&str, TreeType), layered: bool, r: &Rng, keys: &[Vec<u8>], batches: &[Vec<MOp>]) {
    o.ev(json!({"e": "new", "kind": kind.0, "layered": layered}));
    let mut t = Tree::new(scratch(&format!("m{id}")), kind.1, layered);
    let mut twin = Tree::new(scratch(&format!("w{id}")), kind.1, layered);
    for ops in batches {
        let js: Vec<Value> = ops.iter().map(|x| x.json()).collect();
        o.about(&json!({"apply": js}));
        let before = t.stored();
        let mut row = apply(&mut t, ops);
        let ok = row["st"] == "ok";
        row["e"] = json!("apply");
        row["ops"] = json!(js);
        // one of the two trees keeps its transaction open for longer
        let _ = apply(&mut twin, ops);
        if ok {
            row["shape"] = t.shape();
            t.commit();
            twin.flush();
        } else {
            // a failed batch is given up: nothing may have reached the store
            t.open();
            twin.over();
            row["shape"] = t.shape();
        }
        row["again"] = t.shape();
        row["twin"] = twin.shape();
        row["stored"] = t.stored();
        row["reads"] = reads(&t, r, keys);
        row["lost"] = json!(!ok && before != row["stored"]);
        o.ev(row);
        if r.chance(1, 6) {
            twin.commit();
        }
    }
    t.commit();
    twin.commit();
    o.ev(json!({"e": "end", "shape": t.shape(), "stored": t.stored(), "twin": twin.shape(), "twinned": twin.stored()}));
    o.end_case();
}
pub fn run(a: &Args, o: &mut Out) {
    let r = Rng::new(a.seed ^ 0x3e47);
    let mut id = 0;
    for s in a.read_schedules() {
        let s = s.as_array().unwrap();
        let keys: Vec<Vec<u8>> = (0..12u8).map(|i| vec![i]).collect();
        let kind = KINDS[id % 7];
        let batches: Vec<Vec<MOp>> = s
            .iter()
            .map(|b| {
                b.as_array()
                    .unwrap()
                    .iter()
                    .map(|x| {
                        let k = x["k"].as_u64().unwrap() as u8;
                        MOp { k: vec![k], op: if x["op"] == "del" { "del" } else { "put" }, v: r.bytes(2), sup: [0; 32], f: contribution(&r, kind.1, false) }
                    })
                    .collect()
            })
            .collect();
        case(o, id, kind, id % 2 == 0, &r, &keys, &batches); 
        id += 1;
    }
    for _ in 0..a.n(40, 400) {
        let kind = *r.pick(&KINDS);
        let keys = key_pool(&r, *r.pick(&[3usize, 6, 12, 20, 40]));
        let wild = r.chance(1, 4);
        let n = 4 + r.idx(14);
        let batches: Vec<Vec<MOp>> = (0..n).map(|_| gen_ops(&r, &keys, kind.1, wild, true)).collect();
        case(o, id, kind, r.chance(1, 2), &r, &keys, &batches);
        id += 1;
    }
}
