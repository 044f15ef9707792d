//! Whole databases: operations, reads and transactions, with everything physically stored after each step.
use crate::dump::{self, Phys};
use crate::element::{el_json, el_of};
use crate::merk::scratch;
use crate::refs::ref_json;
use grovedb::element::reference_path::ReferencePathType::{self, *};
use grovedb::operations::delete::{ClearOptions, DeleteOptions, DeleteUpTreeOptions};
use grovedb::operations::insert::InsertOptions;
use grovedb::batch::{BatchApplyOptions, QualifiedGroveDbOp, SubelementsDeletionBehavior};
use grovedb_merk::tree_type::TreeType;
use grovedb::{Element, GroveDb, Transaction, TransactionArg};
use grovedb_version::version::GroveVersion;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use vh_common::*;

pub type P = Vec<Vec<u8>>;
pub fn pj(p: &[Vec<u8>]) -> Value {
    json!(p.iter().map(hex).collect::<Vec<_>>())
}
pub fn p_of(v: &Value) -> P {
    v.as_array().unwrap().iter().map(|x| unhex(x.as_str().unwrap())).collect()
}
pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap()
}
fn b(v: &Value, k: &str) -> bool {
    v[k].as_bool().unwrap_or(false)
}
fn oj(e: &Option<Element>) -> Value {
    json!(e.iter().map(el_json).collect::<Vec<_>>())
}
/// performs an operation and shows its outcome
pub fn exec(db: &GroveDb, tx: TransactionArg, o: &Value) -> Value {
    let v = GroveVersion::latest();
    let p = if o["p"].is_array() { p_of(&o["p"]) } else { vec![] };
    let ps = p.as_slice();
    let k = o["k"].as_str().map(unhex).unwrap_or_default();
    let k = k.as_slice();
    let el = || el_of(&o["el"]);
    match s(o, "o") {
        "insert" => {
            let opt = if b(o, "no") || !b(o, "nt") {
                Some(InsertOptions {
                    validate_insertion_does_not_override: b(o, "no"),
                    validate_insertion_does_not_override_tree: b(o, "nt"),
                    ..Default::default()
                })
            } else {
                None
            };
            outcome(guard(|| db.insert(ps, k, el(), opt, tx, v).unwrap()), |_| json!(0))
        }
        "ine" => outcome(guard(|| db.insert_if_not_exists(ps, k, el(), tx, v).unwrap()), |x| json!(x)),
        "iner" => outcome(guard(|| db.insert_if_not_exists_return_existing_element(ps, k, el(), tx, v).unwrap()), |x| oj(&x)),
        "icv" => outcome(guard(|| db.insert_if_changed_value(ps, k, el(), tx, v).unwrap()), |x| json!([x.0, oj(&x.1)])),
        "delete" => {
            let opt = DeleteOptions {
                allow_deleting_non_empty_trees: b(o, "allow"),
                deleting_non_empty_trees_returns_error: b(o, "err"),
                validate_tree_at_path_exists: b(o, "val"),
                ..Default::default()
            };
            outcome(guard(|| db.delete(ps, k, Some(opt), tx, v).unwrap()), |_| json!(0))
        }
        "delempty" => outcome(guard(|| db.delete_if_empty_tree(ps, k, tx, v).unwrap()), |x| json!(x)),
        "delup" => {
            let opt = DeleteUpTreeOptions {
                allow_deleting_non_empty_trees: b(o, "allow"),
                deleting_non_empty_trees_returns_error: b(o, "err"),
                validate_tree_at_path_exists: b(o, "val"),
                stop_path_height: o["stop"].as_array().unwrap().first().map(|x| x.as_u64().unwrap() as u16),
                ..Default::default()
            };
            outcome(guard(|| db.delete_up_tree_while_empty(ps, k, &opt, tx, v).unwrap()), |x| json!(x))
        }
        "clear" => {
            let opt = ClearOptions {
                check_for_subtrees: b(o, "check"),
                allow_deleting_subtrees: b(o, "allow"),
                trying_to_clear_with_subtrees_returns_error: b(o, "err"),
            };
            outcome(guard(|| db.clear_subtree(ps, Some(opt), tx, v)), |x| json!(x))
        }
        "get" => {
            let f = b(o, "cache");
            outcome(guard(|| if f { db.get(ps, k, tx, v).unwrap() } else { db.get_caching_optional(ps.into(), k, false, tx, v).unwrap() }), |x| el_json(&x))
        }
        "raw" => {
            let f = b(o, "cache");
            outcome(guard(|| if f { db.get_raw(ps.into(), k, tx, v).unwrap() } else { db.get_raw_caching_optional(ps.into(), k, false, tx, v).unwrap() }), |x| el_json(&x))
        }
        "rawopt" => {
            let f = b(o, "cache");
            outcome(guard(|| if f { db.get_raw_optional(ps.into(), k, tx, v).unwrap() } else { db.get_raw_optional_caching_optional(ps.into(), k, false, tx, v).unwrap() }), |x| oj(&x))
        }
        "has" => outcome(guard(|| db.has_raw(ps, k, tx, v).unwrap()), |x| json!(x)),
        "follow" => outcome(guard(|| db.follow_reference(ps.into(), b(o, "cache"), tx, v).unwrap()), |x| el_json(&x)),
        "empty" => outcome(guard(|| db.is_empty_tree(ps, tx, v).unwrap()), |x| json!(x)),
        "trees" => outcome(guard(|| db.find_subtrees(&ps.into(), tx, v).unwrap()), |x| json!(x.iter().map(|p| pj(p)).collect::<Vec<_>>())),
        "verify" => outcome(guard(|| db.verify_grovedb(tx, b(o, "refs"), true, v)), |x| json!(x.len())),
        "batch" => {
            let ops: Vec<QualifiedGroveDbOp> = o["ops"].as_array().unwrap().iter().map(batch_op).collect();
            let opt = if b(o, "no") || b(o, "nt") || !b(o, "check") {
                Some(BatchApplyOptions {
                    validate_insertion_does_not_override: b(o, "no"),
                    validate_insertion_does_not_override_tree: b(o, "nt"),
                    disable_operation_consistency_check: !b(o, "check"),
                    ..Default::default()
                })
            } else {
                None
            };
            outcome(guard(|| db.apply_batch(ops, opt, tx, v).unwrap()), |_| json!(0))
        }
        "append" => {
            let x = unhex(s(o, "val"));
            match s(o, "kind") {
                "mmr" => outcome(guard(|| db.mmr_tree_append(ps, k, x, tx, v).unwrap()), |(h, n)| json!([hex(h), n])),
                "bulk" => outcome(guard(|| db.bulk_append(ps, k, x, tx, v).unwrap()), |(h, n)| json!([hex(h), n])),
                "dense" => outcome(guard(|| db.dense_tree_insert(ps, k, x, tx, v).unwrap()), |(h, n)| json!([hex(h), n])),
                _ => {
                    let (c, rho, pay) = note_of(&x);
                    let ct = grovedb_commitment_tree::deserialize_ciphertext::<grovedb_commitment_tree::DashMemo>(&pay).expect("216 bytes");
                    outcome(guard(|| db.commitment_tree_insert(ps, k, c, rho, ct, tx, v).unwrap()), |(h, n)| json!([hex(h), n]))
                }
            }
        }
        "aread" => {
            let i: u64 = s(o, "i").parse().unwrap();
            let opt = |x: Option<Vec<u8>>| json!(x.iter().map(hex).collect::<Vec<_>>());
            match (s(o, "kind"), s(o, "what")) {
                ("mmr", "root") => outcome(guard(|| db.mmr_tree_root_hash(ps, k, tx, v).unwrap()), |h| json!(hex(h))),
                ("mmr", "get") => outcome(guard(|| db.mmr_tree_get_value(ps, k, i, tx, v).unwrap()), opt),
                ("mmr", _) => outcome(guard(|| db.mmr_tree_leaf_count(ps, k, tx, v).unwrap()), |n| json!(n)),
                ("bulk", "get") => outcome(guard(|| db.bulk_get_value(ps, k, i, tx, v).unwrap()), opt),
                ("bulk", "chunk") => outcome(guard(|| db.bulk_get_chunk(ps, k, i, tx, v).unwrap()), opt),
                ("bulk", "chunks") => outcome(guard(|| db.bulk_chunk_count(ps, k, tx, v).unwrap()), |n| json!(n)),
                ("bulk", "buffer") => outcome(guard(|| db.bulk_get_buffer(ps, k, tx, v).unwrap()), |x| json!(x.iter().map(hex).collect::<Vec<_>>())),
                ("bulk", _) => outcome(guard(|| db.bulk_count(ps, k, tx, v).unwrap()), |n| json!(n)),
                ("dense", "root") => outcome(guard(|| db.dense_tree_root_hash(ps, k, tx, v).unwrap()), |h| json!(hex(h))),
                ("dense", "get") => outcome(guard(|| db.dense_tree_get(ps, k, i as u16, tx, v).unwrap()), opt),
                ("dense", _) => outcome(guard(|| db.dense_tree_count(ps, k, tx, v).unwrap()), |n| json!(n)),
                (_, "root") => outcome(guard(|| db.commitment_tree_anchor(ps, k, tx, v).unwrap()), |h| json!(hex(h.to_bytes()))),
                (_, "get") => outcome(guard(|| db.commitment_tree_get_value(ps, k, i, tx, v).unwrap()), opt),
                _ => outcome(guard(|| db.commitment_tree_count(ps, k, tx, v).unwrap()), |n| json!(n)),
            }
        }
        "putaux" => outcome(guard(|| db.put_aux(k, &unhex(s(o, "val")), None, tx).unwrap()), |_| json!(0)),
        "delaux" => outcome(guard(|| db.delete_aux(k, None, tx).unwrap()), |_| json!(0)),
        "getaux" => outcome(guard(|| db.get_aux(k, tx).unwrap()), |v| json!(v.iter().map(hex).collect::<Vec<_>>())),
        "query" | "aggsum" => crate::gq::exec(db, tx, o),
        "prove" | "provemany" => crate::gq::prove_exec(db, o),
        x => panic!("unknown operation {x}"),
    }
}
/// commitment, nullifier, ciphertext
fn note_of(x: &[u8]) -> ([u8; 32], [u8; 32], Vec<u8>) {
    (x[..32].try_into().unwrap(), x[32..64].try_into().unwrap(), x[64..].to_vec())
}
pub fn tree_type(kind: &str) -> TreeType {
    match kind {
        "tree" => TreeType::NormalTree,
        "sumtree" => TreeType::SumTree,
        "bigsumtree" => TreeType::BigSumTree,
        "counttree" => TreeType::CountTree,
        "countsumtree" => TreeType::CountSumTree,
        "provcounttree" => TreeType::ProvableCountTree,
        "provcountsumtree" => TreeType::ProvableCountSumTree,
        "ct" => TreeType::CommitmentTree(1),
        "mmr" => TreeType::MmrTree,
        "bulk" => TreeType::BulkAppendTree(1),
        "dense" => TreeType::DenseAppendOnlyFixedSizeTree(2),
        x => panic!("{x}"),
    }
}
pub fn batch_op(o: &Value) -> QualifiedGroveDbOp {
    use QualifiedGroveDbOp as Q;
    let p = p_of(&o["p"]);
    let k = unhex(s(o, "k"));
    let el = || el_of(&o["el"]);
    match s(o, "b") {
        "ior" => Q::insert_or_replace_op(p, k, el()),
        "ifn" => Q::insert_if_not_exists_op(p, k, el()),
        "ifs" => Q::insert_if_not_exists_or_skip_op(p, k, el()),
        "ik" => Q::insert_only_known_to_not_already_exist_op(p, k, el()),
        "rep" => Q::replace_op(p, k, el()),
        "pat" => Q::patch_op(p, k, el(), o["n"].as_i64().unwrap() as i32),
        "refresh" => Q::refresh_reference_op(
            p, k,
            crate::refs::ref_of(&o["ref"]),
            o["hop"].as_array().unwrap().first().map(|x| x.as_u64().unwrap() as u8),
            o["fl"].as_array().unwrap().first().map(|x| unhex(x.as_str().unwrap())),
            b(o, "trust"),
        ),
        "app" => {
            let mut t = p;
            t.push(k);
            let x = unhex(s(o, "val"));
            match s(o, "kind") {
                "mmr" => Q::mmr_tree_append_op(t, x),
                "bulk" => Q::bulk_append_op(t, x),
                "dense" => Q::dense_tree_insert_op(t, x),
                _ => {
                    let (c, rho, pay) = note_of(&x);
                    match grovedb_commitment_tree::deserialize_ciphertext::<grovedb_commitment_tree::DashMemo>(&pay) {
                        Some(ct) if pay[0] & 1 == 0 => Q::commitment_tree_insert_op_typed(t, c, rho, &ct),
                        _ => Q::commitment_tree_insert_op(t, c, rho, pay),
                    }
                }
            }
        }
        "del" => Q::delete_op(p, k),
        "delt" => Q::delete_tree_op(p, k, tree_type(s(o, "kind")), match s(o, "beh") {
            "dont" => SubelementsDeletionBehavior::DontCheckWithNoCleanup,
            "error" => SubelementsDeletionBehavior::Error,
            "skip" => SubelementsDeletionBehavior::Skip,
            _ => SubelementsDeletionBehavior::DeleteChildren,
        }),
        x => panic!("unknown batch operation {x}"),
    }
}
/// A database with open transactions. Transactions live no longer than the database behind the pointer.
pub struct World {
    pub dir: PathBuf,
    pub db: Option<Box<GroveDb>>,
    pub txs: BTreeMap<u64, Transaction<'static>>,
    pub last: Phys,
}
/// what is in now and was not in last, tree by tree
pub fn changes(last: &Phys, now: &Phys) -> Value {
    let mut hit: BTreeSet<Vec<u8>> = BTreeSet::new();
    for cf in [0, 2] {
        let (a, z) = (&last.cfs[cf], &now.cfs[cf]);
        for (k, v) in a {
            if z.get(k) != Some(v) {
                hit.insert(k[..32].to_vec());
            }
        }
        for k in z.keys() {
            if !a.contains_key(k) {
                hit.insert(k[..32].to_vec());
            }
        }
    }
    let rows: Vec<Value> = hit
        .iter()
        .map(|p| {
            let mut rk = p.clone();
            rk.push(b'r');
            json!({"p": hex(p), "nodes": dump::nodes(&now.cfs[0], p), "rk": now.cfs[2].get(&rk).map(hex).into_iter().collect::<Vec<_>>()})
        })
        .collect();
    json!(rows)
}
/// changed rows of the auxiliary column
pub fn aux_changes(last: &Phys, now: &Phys) -> Value {
    let (a, z) = (&last.cfs[1], &now.cfs[1]);
    let keys: BTreeSet<&Vec<u8>> = a.keys().chain(z.keys()).filter(|k| a.get(*k) != z.get(*k)).collect();
    json!(keys.iter().map(|k| json!([hex(k), z.get(*k).map(hex).into_iter().collect::<Vec<_>>()])).collect::<Vec<_>>())
}
impl World {
    pub fn new(name: &str) -> World {
        let dir = scratch(name);
        let db = Some(Box::new(GroveDb::open(&dir).unwrap()));
        World { last: dump::phys(&dir), dir, db, txs: BTreeMap::new() }
    }
    pub fn db(&self) -> &'static GroveDb {
        unsafe { &*(&**self.db.as_ref().unwrap() as *const GroveDb) }
    }
    pub fn reopen(&mut self) {
        assert!(self.txs.is_empty());
        self.db = None;
        self.db = Some(Box::new(GroveDb::open(&self.dir).unwrap()));
    }
    pub fn begin(&mut self, x: u64) {
        let t = self.db().start_transaction();
        self.txs.insert(x, t);
    }
    pub fn tx(&self, x: u64) -> TransactionArg<'_, '_> {
        if x == 0 { None } else { self.txs.get(&x) }
    }
    pub fn commit(&mut self, x: u64) -> Value {
        let t = self.txs.remove(&x).unwrap();
        outcome(guard(|| self.db().commit_transaction(t).unwrap()), |_| json!(0))
    }
    /// begin, commit, drop or undo
    pub fn turn(&mut self, what: &str, x: u64) -> Option<Value> {
        Some(match what {
            "begin" => {
                self.begin(x);
                json!({"e": "begin", "x": x})
            }
            "commit" => with(json!({"e": "commit", "x": x}), self.commit(x)),
            "drop" => {
                self.txs.remove(&x);
                json!({"e": "drop", "x": x})
            }
            "undo" => {
                let db = self.db();
                with(json!({"e": "undo", "x": x}), outcome(guard(|| db.rollback_transaction(&self.txs[&x])), |_| json!(0)))
            }
            _ => return None,
        })
    }
    pub fn root(&self) -> String {
        hex(self.db().root_hash(None, GroveVersion::latest()).unwrap().unwrap())
    }
    pub fn phys(&self) -> Phys {
        dump::phys(&self.dir)
    }
    /// what changed in the store since the last call, tree by tree
    pub fn diff(&mut self) -> Value {
        let now = dump::phys(&self.dir);
        let rows = changes(&self.last, &now);
        self.last = now;
        rows
    }
    /// adds what can be seen from outside every transaction
    pub fn seen(&mut self, mut row: Value) -> Value {
        row["ad"] = aux_changes(&self.last, &self.phys());
        row["diff"] = self.diff();
        row["rh"] = json!(self.root());
        row
    }
}
impl Drop for World {
    fn drop(&mut self) {
        self.txs.clear();
        self.db = None;
        rocksdb::sim::forget(&self.dir);
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
/// What to do how often.
#[derive(Clone)]
pub struct Profile {
    pub kinds: &'static [&'static str],
    /// operation, weight
    pub ops: &'static [(&'static str, u64)],
    pub reads: &'static [(&'static str, u64)],
    pub tx: bool,
    pub steps: usize,
    pub wild: bool,
}
pub fn weighted<'a>(r: &Rng, w: &[(&'a str, u64)]) -> &'a str {
    let mut n = r.below(w.iter().map(|x| x.1).sum());
    for (o, k) in w {
        if n < *k {
            return o;
        }
        n -= k;
    }
    unreachable!()
}
/// what the generator remembers (not an oracle: it may be out of date)
pub struct Gen {
    pub r: Rng,
    pub pr: Profile,
    pub trees: BTreeMap<P, String>,
    pub keys: BTreeMap<P, BTreeSet<Vec<u8>>>,
    pub pool: Vec<Vec<u8>>,
    /// with transactions: every (path, key) that was there at some time, as nothing follows what is undone
    pub ever: BTreeSet<(P, Vec<u8>)>,
}
pub fn cut(p: &[Vec<u8>]) -> (P, Vec<u8>) {
    let (k, q) = p.split_last().unwrap();
    (q.to_vec(), k.clone())
}
impl Gen {
    pub fn new(r: Rng, pr: Profile) -> Gen {
        let mut pool: Vec<Vec<u8>> = (0..3 + r.idx(5)).map(|_| { let n = 1 + r.idx(2); r.bytes(n).iter().map(|b| b & 7).collect() }).collect();
        if r.chance(1, 3) {
            pool.push(vec![]);
        }
        if r.chance(1, 8) {
            pool.push(vec![7; 255]);
        }
        Gen { r, pr, trees: [(vec![], "tree".to_string())].into(), keys: [(vec![], BTreeSet::new())].into(), pool, ever: BTreeSet::new() }
    }
    pub fn tree(&self, merk: bool) -> P {
        let all: Vec<&P> = self.trees.iter().filter(|x| !merk || !APPENDS.contains(&x.1.as_str())).map(|x| x.0).collect();
        let p = *self.r.pick(&all);
        // deeper ones are as likely as the root
        p.clone()
    }
    pub fn path(&self) -> P {
        let r = &self.r;
        let mut p = self.tree(!r.chance(1, 12));
        if r.chance(1, 25) {
            p.push(r.pick(&self.pool).clone())
        }
        p
    }
    pub fn key(&self, p: &P) -> Vec<u8> {
        let r = &self.r;
        match self.keys.get(p) {
            Some(ks) if !ks.is_empty() && r.chance(3, 5) => r.pick(&ks.iter().collect::<Vec<_>>()).to_vec(),
            _ if r.chance(1, 60) => vec![9; 256],
            _ => r.pick(&self.pool).clone(),
        }
    }
    fn full(&self) -> P {
        let mut p = self.path();
        if self.r.chance(2, 3) {
            let k = self.key(&p);
            p.push(k);
        }
        // a segment longer than any key leads nowhere
        p.iter_mut().for_each(|s| s.truncate(255));
        p
    }
    /// a reference at path/key to target
    pub fn point(&self, path: &P, key: &[u8], target: &P) -> ReferencePathType {
        let r = &self.r;
        let common = path.iter().zip(target.iter()).take_while(|(a, z)| a == z).count().min(target.len().saturating_sub(1));
        let n = r.idx(common + 1);
        match r.idx(8) {
            0 | 1 => AbsolutePathReference(target.clone()),
            2 | 3 => UpstreamRootHeightReference(n as u8, target[n..].to_vec()),
            4 => UpstreamFromElementHeightReference((path.len() - n) as u8, target[n..].to_vec()),
            5 if !target.is_empty() && target[..target.len() - 1] == path[..] => SiblingReference(target[target.len() - 1].clone()),
            6 if target.len() == path.len() + 1 && !path.is_empty() && target[..path.len() - 1] == path[..path.len() - 1] && target[path.len()] == key => CousinReference(target[path.len() - 1].clone()),
            _ if r.chance(1, 3) => crate::refs::reference(r, &|| r.pick(&self.pool).clone()),
            _ => AbsolutePathReference(target.clone()),
        }
    }
    fn flags(&self) -> Option<Vec<u8>> {
        let r = &self.r;
        match r.idx(6) {
            0 => Some(vec![]),
            1 => { let n = 1 + r.idx(3); Some(r.bytes(n)) }
            _ => None,
        }
    }
    pub fn element(&self, p: &P, k: &[u8]) -> Element {
        let r = &self.r;
        let sums = matches!(self.trees.get(p).map(|x| x.as_str()), Some("sumtree" | "bigsumtree" | "countsumtree" | "provcountsumtree"));
        let mut kind = *r.pick(self.pr.kinds);
        if kind == "sumitem" && !sums && !r.chance(1, 20) {
            kind = "item"
        }
        let small = || r.bytes(if r.chance(1, 30) { 200 } else { r.idx(5) });
        let sum = || if self.pr.wild && r.chance(1, 3) { *r.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, i64::MAX / 2]) } else { r.idx(2000) as i64 - 1000 };
        let fl = self.flags();
        match kind {
            "item" => if sums && r.chance(1, 2) {
                if r.chance(1, 2) { Element::SumItem(sum(), fl) } else { Element::ItemWithSumItem(small(), sum(), fl) }
            } else { Element::Item(small(), fl) },
            "sumitem" => Element::SumItem(sum(), fl),
            "itemsum" => Element::ItemWithSumItem(small(), sum(), fl),
            "ref" => {
                let t = self.full();
                Element::Reference(self.point(p, k, &t), if r.chance(1, 4) { Some(r.idx(4) as u8) } else { None }, fl)
            }
            "tree" => Element::Tree(None, fl),
            "sumtree" => Element::SumTree(None, 0, fl),
            "bigsumtree" => Element::BigSumTree(None, 0, fl),
            "counttree" => Element::CountTree(None, 0, fl),
            "countsumtree" => Element::CountSumTree(None, 0, 0, fl),
            "provcounttree" => Element::ProvableCountTree(None, 0, fl),
            "provcountsumtree" => Element::ProvableCountSumTree(None, 0, 0, fl),
            "ct" => Element::CommitmentTree(0, 1 + r.idx(2) as u8, fl),
            "mmr" => Element::MmrTree(0, fl),
            "bulk" => Element::BulkAppendTree(0, 1 + r.idx(2) as u8, fl),
            _ => Element::DenseAppendOnlyFixedSizeTree(0, 2 + r.idx(2) as u8, fl),
        }
    }
    pub fn op(&self, o: &str) -> Value {
        if o == "batch" {
            return self.batch();
        }
        if o == "query" {
            return crate::gq::query(self);
        }
        if o == "aggsum" {
            return crate::gq::aggsum(self);
        }
        if o == "prove" {
            return crate::gq::prove(self);
        }
        if o == "provemany" {
            return crate::gq::provemany(self);
        }
        let r = &self.r;
        let p = self.path();
        let k = self.key(&p);
        let mut j = json!({"o": o, "p": pj(&p), "k": hex(&k)});
        match o {
            "insert" | "ine" | "iner" | "icv" => {
                // as often as not where nothing is yet
                let k = if r.chance(1, 2) { self.r.pick(&self.pool).clone() } else { k };
                j["k"] = json!(hex(&k));
                j["el"] = el_json(&self.element(&p, &k));
                j["no"] = json!(r.chance(1, 12));
                j["nt"] = json!(true);
            }
            "over" => {
                // the guard that is switched off protects the contents of trees: these have none
                let mut t = p.clone();
                t.push(k.clone());
                let full = self.keys.get(&t).is_some_and(|x| !x.is_empty());
                j["o"] = json!("insert");
                j["el"] = el_json(&self.element(&p, &k));
                j["no"] = json!(false);
                j["nt"] = json!(full);
            }
            "delete" | "delempty" | "deltree" => {
                j["allow"] = json!(o == "deltree" || r.chance(1, 6));
                j["err"] = json!(r.chance(1, 2));
                j["val"] = json!(r.chance(1, 6));
                if o == "deltree" || o == "delempty" {
                    let t = self.tree(false);
                    if !t.is_empty() {
                        let (p, k) = cut(&t);
                        j["p"] = pj(&p);
                        j["k"] = json!(hex(k));
                    }
                    if o == "deltree" {
                        j["o"] = json!("delete");
                    }
                }
            }
            "delup" => {
                // the deepest there is
                let mut t = self.tree(false);
                for _ in 0..2 {
                    let u = self.tree(false);
                    if u.len() > t.len() {
                        t = u;
                    }
                }
                if !t.is_empty() && r.chance(1, 2) {
                    let (p, k) = cut(&t);
                    j["p"] = pj(&p);
                    j["k"] = json!(hex(k));
                } else {
                    j["p"] = pj(&t);
                    j["k"] = json!(hex(self.key(&t)));
                }
                j["allow"] = json!(r.chance(1, 6));
                j["err"] = json!(r.chance(1, 2));
                j["val"] = json!(r.chance(1, 6));
                j["stop"] = if r.chance(1, 6) { json!([]) } else { json!([r.idx(3)]) };
            }
            "clear" => {
                j["p"] = pj(&self.tree(!r.chance(1, 4)));
                let p = p_of(&j["p"]);
                let inner = self.trees.keys().any(|q| q.len() > p.len() && q.starts_with(&p)) || !self.ever.is_empty();
                j["check"] = json!(inner || !r.chance(1, 5));
                j["allow"] = json!(r.chance(1, 2));
                j["err"] = json!(r.chance(1, 2));
            }
            "get" | "raw" | "rawopt" | "has" => {
                j["k"] = json!(hex(&k[..k.len().min(255)]));
                j["cache"] = json!(r.chance(2, 3));
            }
            "follow" => {
                j["p"] = pj(&self.full());
                j["cache"] = json!(r.chance(1, 2));
            }
            "empty" | "trees" => {
                j["p"] = pj(&if r.chance(1, 10) { self.full() } else { self.tree(false) });
                if o == "trees" {
                    // the values of an append-only tree are no elements
                    let t = self.tree(false);
                    let odd = self.trees.get(&t).is_some_and(|k| APPENDS.contains(&k.as_str()));
                    j["p"] = pj(&if odd { vec![] } else { t });
                }
            }
            "verify" => j["refs"] = json!(false),
            "append" | "aread" => {
                let (p, k, kind) = self.appendee();
                j["p"] = pj(&p);
                j["k"] = json!(hex(k));
                j["kind"] = json!(kind);
                if o == "append" {
                    j["val"] = json!(hex(self.value(kind, true)));
                } else {
                    let what: &[&str] = match kind {
                        "bulk" => &["get", "get", "chunk", "chunks", "buffer", "count"],
                        _ => &["root", "get", "get", "count"],
                    };
                    j["what"] = json!(r.pick(what));
                    let i = match r.idx(12) {
                        0 => u64::MAX,
                        1 => 1 << 32,
                        2 => 1 << 16,
                        3 => u16::MAX as u64,
                        _ => r.below(12),
                    };
                    j["i"] = json!(if kind == "dense" { i as u16 as u64 } else { i }.to_string());
                }
            }
            _ => panic!("{o}"),
        }
        j
    }
    /// an append-only tree to address, as what it is or as something else
    fn appendee(&self) -> (P, Vec<u8>, &'static str) {
        let r = &self.r;
        let all: Vec<(&P, &String)> = self.trees.iter().filter(|x| APPENDS.contains(&x.1.as_str())).collect();
        if all.is_empty() || r.chance(1, 20) {
            let t = self.full();
            if !t.is_empty() {
                let (p, k) = cut(&t);
                return (p, k, r.pick(&APPENDS));
            }
            return (vec![], vec![], "mmr");
        }
        // some trees are favoured, so that they grow
        let t = all[r.idx(all.len()).min(r.idx(all.len()))];
        let (p, k) = cut(t.0);
        (p, k, if r.chance(1, 20) { r.pick(&APPENDS) } else { APPENDS.iter().find(|x| *x == t.1).unwrap() })
    }
    fn value(&self, kind: &str, sized: bool) -> Vec<u8> {
        let r = &self.r;
        if kind != "ct" {
            return match r.idx(4) {
                0 => vec![],
                1 => r.bytes(3),
                _ => { let n = r.idx(5); r.bytes(n) }
            };
        }
        let mut v = crate::commit::cmx(r).to_vec();
        let n = if sized || !r.chance(1, 30) { 248 } else { *r.pick(&[32, 247, 249]) };
        v.extend(r.bytes(n));
        v
    }
    pub fn fork(&self) -> Gen {
        Gen { r: Rng::new(self.r.next()), pr: self.pr.clone(), trees: self.trees.clone(), keys: self.keys.clone(), pool: self.pool.clone(), ever: self.ever.clone() }
    }
    fn filled(&self, t: &P) -> bool {
        self.keys.get(t).is_some_and(|x| !x.is_empty()) || self.ever.iter().any(|x| x.0 == *t)
    }
    fn had(&self, p: &P, k: &Vec<u8>) -> bool {
        self.keys.get(p).is_some_and(|x| x.contains(k)) || self.ever.contains(&(p.clone(), k.clone()))
    }
    pub fn batch(&self) -> Value {
        let mut g = self.fork();
        let r = Rng::new(g.r.next());
        let (no, nt, check) = (r.chance(1, 20), r.chance(1, 4), !r.chance(1, 15));
        let bad = check && r.chance(1, 12);
        // either references or what may take their targets away unnoticed (see the known findings)
        let refs = r.chance(1, 2);
        let had = |p: &P, k: &Vec<u8>| self.had(p, k);
        let mut bound: Vec<P> = vec![];
        let mut used: BTreeSet<(P, Vec<u8>)> = BTreeSet::new();
        let mut gone: Vec<P> = vec![];
        let mut apps: BTreeSet<P> = BTreeSet::new();
        let mut ops: Vec<Value> = vec![];
        let n = if r.chance(1, 10) { 20 } else { 1 + r.idx(8) };
        for _ in 0..n {
            let o = weighted(&r, &[("ior", 9), ("ifn", 2), ("ifs", 2), ("ik", 2), ("rep", 3), ("pat", 1), ("refresh", 2), ("del", 4), ("delt", 3), ("app", if self.trees.values().any(|k| APPENDS.contains(&k.as_str())) { 9 } else { 0 })]);
            if o == "app" {
                let (p, k, kind) = self.appendee();
                let mut t = p.clone();
                t.push(k.clone());
                if t.iter().any(|s| s.len() > 255) || used.contains(&(p.clone(), k.clone())) && !apps.contains(&t) || bound.iter().any(|b| p.starts_with(b)) {
                    continue;
                }
                let val = g.value(kind, false);
                ops.push(json!({"b": "app", "p": pj(&p), "k": hex(&k), "kind": kind, "val": hex(val)}));
                used.insert((p, k));
                apps.insert(t);
                continue;
            }
            let (p, k) = if o == "delt" && r.chance(9, 10) {
                let t = g.tree(false);
                if t.is_empty() {
                    continue;
                }
                cut(&t)
            } else {
                let p = g.path();
                let k = if !o.starts_with("del") && r.chance(1, 2) { r.pick(&g.pool).clone() } else { g.key(&p) };
                (p, k)
            };
            // see the known findings
            if p.iter().any(|s| s.len() > 255) {
                continue;
            }
            let mut t = p.clone();
            t.push(k.clone());
            if used.contains(&(p.clone(), k.clone())) && (!bad || apps.contains(&t) && !o.starts_with("del")) {
                continue;
            }
            let under = gone.iter().any(|d| p.starts_with(d));
            let mut j = json!({"b": o, "p": pj(&p), "k": hex(&k)});
            match o {
                "del" | "delt" => {
                    if bound.iter().any(|b| p.starts_with(b)) {
                        continue;
                    }
                    if used.iter().any(|u| u.0.starts_with(&t)) && !bad {
                        continue;
                    }
                    let kind = self.trees.get(&t).cloned();
                    let full = g.filled(&t);
                    if refs && kind.is_some() {
                        continue;
                    }
                    if o == "delt" || full {
                        let mut beh = *r.pick(&["dont", "error", "skip", "children", "children"]);
                        if beh == "dont" && (full || self.filled(&t)) {
                            beh = "children";
                        }
                        j["b"] = json!("delt");
                        j["beh"] = json!(beh);
                        j["kind"] = json!(kind.clone().unwrap_or("tree".into()));
                        if kind.is_none() && !r.chance(1, 10) {
                            continue;
                        }
                        if full && beh != "children" {
                            used.insert((p, k));
                            ops.push(j);
                            continue;
                        }
                    }
                    gone.push(t.clone());
                    g.forget(&t);
                    g.keys.entry(p.clone()).or_default().remove(&k);
                }
                _ => {
                    if under && !bad || (self.filled(&t) || g.filled(&t)) && !nt && !(o.starts_with("if") && !g.trees.contains_key(&t)) || o == "ik" && g.had(&p, &k) {
                        continue;
                    }
                    let e = g.element(&p, &k);
                    let is_ref = matches!(e, Element::Reference(..)) || o == "refresh";
                    if is_ref && !refs || refs && o == "ifs" && had(&p, &k) {
                        continue;
                    }
                    // a conditional tree insertion with operations below it loses its condition, and elements can
                    // be put below an append-only tree inserted by the same batch (known findings)
                    if e.is_any_tree() && had(&p, &k) && (no || nt || o == "ifn" || o == "ifs") || e.uses_non_merk_data_storage() && o != "refresh" {
                        if used.iter().any(|u| u.0.starts_with(&t)) {
                            continue;
                        }
                        bound.push(t.clone());
                    }
                    if bound.iter().any(|b| p.starts_with(b)) {
                        continue;
                    }
                    if o == "refresh" {
                        if !matches!(e, Element::Reference(..)) && !r.chance(1, 2) {
                            continue;
                        }
                        let target = g.full();
                        let fl = g.flags();
                        j["ref"] = ref_json(&g.point(&p, &k, &target));
                        j["hop"] = if r.chance(1, 4) { json!([r.idx(4)]) } else { json!([]) };
                        j["fl"] = json!(fl.iter().map(hex).collect::<Vec<_>>());
                        j["trust"] = json!(r.chance(1, 2));
                        if g.trees.contains_key(&t) {
                            continue;
                        }
                        g.keys.entry(p.clone()).or_default().insert(k.clone());
                    } else {
                        j["el"] = el_json(&e);
                        if o == "pat" {
                            j["n"] = json!(r.idx(40) as i64 - 20);
                        }
                        g.note(&json!({"o": "insert", "p": pj(&p), "k": hex(&k), "el": el_json(&e)}), &json!({"st": "ok"}));
                    }
                }
            }
            used.insert((p, k));
            ops.push(j);
        }
        json!({"o": "batch", "ops": r.shuffled(ops), "no": no, "nt": nt, "check": check})
    }
    fn forget(&mut self, t: &P) {
        self.trees.retain(|q, _| !q.starts_with(t));
        self.keys.retain(|q, _| !q.starts_with(t));
    }
    /// follow what an operation did
    pub fn note(&mut self, o: &Value, res: &Value) {
        if res["st"] != "ok" {
            return;
        }
        if s(o, "o") == "batch" {
            let ops = o["ops"].as_array().unwrap();
            let ok = json!({"st": "ok", "v": 0});
            for d in ops.iter().filter(|d| s(d, "b").starts_with("del")) {
                if s(d, "b") == "delt" && s(d, "beh") == "skip" {
                    let mut t = p_of(&d["p"]);
                    t.push(unhex(s(d, "k")));
                    if self.filled(&t) {
                        continue;
                    }
                }
                self.note(&json!({"o": "delete", "allow": true, "p": d["p"], "k": d["k"]}), &ok);
            }
            for d in ops.iter().filter(|d| s(d, "b") == "app") {
                self.note(&json!({"o": "append", "p": d["p"], "k": d["k"]}), &ok);
            }
            let mut puts: Vec<&Value> = ops.iter().filter(|d| !s(d, "b").starts_with("del") && s(d, "b") != "app").collect();
            puts.sort_by_key(|d| d["p"].as_array().unwrap().len());
            for d in puts {
                let (p, k) = (p_of(&d["p"]), unhex(s(d, "k")));
                if s(d, "b") == "ifs" && self.keys.get(&p).is_some_and(|x| x.contains(&k)) {
                    continue;
                }
                let el = if s(d, "b") == "refresh" { json!({"k": "ref"}) } else { d["el"].clone() };
                self.note(&json!({"o": "insert", "p": d["p"], "k": d["k"], "el": el}), &ok);
            }
            return;
        }
        let p = if o["p"].is_array() { p_of(&o["p"]) } else { return };
        let k = o["k"].as_str().map(unhex).unwrap_or_default();
        let mut t = p.clone();
        t.push(k.clone());
        match s(o, "o") {
            "insert" | "ine" | "iner" | "icv" => {
                if s(o, "o") == "ine" && res["v"] == false || s(o, "o") == "iner" && res["v"] != json!([]) || s(o, "o") == "icv" && res["v"][0] == false {
                    return;
                }
                self.forget(&t);
                let kind = s(&o["el"], "k");
                self.keys.entry(p).or_default().insert(k);
                if kind.contains("tree") || APPENDS.contains(&kind) {
                    self.trees.insert(t.clone(), kind.to_string());
                    self.keys.insert(t, BTreeSet::new());
                }
            }
            "delete" | "delempty" | "delup" => {
                if s(o, "o") == "delempty" && res["v"] == false || s(o, "o") == "delete" && !b(o, "allow") && self.keys.get(&t).is_some_and(|x| !x.is_empty()) {
                    return;
                }
                let n = if s(o, "o") == "delup" { res["v"].as_u64().unwrap() as usize } else { 1 };
                let mut q = t;
                for _ in 0..n {
                    self.forget(&q);
                    let (pp, kk) = cut(&q);
                    if let Some(ks) = self.keys.get_mut(&pp) {
                        ks.remove(&kk);
                    }
                    q = pp;
                }
            }
            "append" => {
                self.keys.entry(t).or_default().insert(vec![0]);
            }
            "clear" if self.trees.get(&p).is_some_and(|k| APPENDS.contains(&k.as_str())) => {
                self.keys.insert(p, BTreeSet::new());
            }
            "clear" => {
                if res["v"] == true && !self.trees.get(&p).is_some_and(|k| APPENDS.contains(&k.as_str())) {
                    let kind = self.trees.get(&p).cloned().unwrap_or("tree".into());
                    self.forget(&p);
                    self.trees.insert(p.clone(), kind);
                    self.keys.insert(p, BTreeSet::new());
                }
            }
            _ => {}
        }
    }
}
pub const APPENDS: [&str; 4] = ["ct", "mmr", "bulk", "dense"];
/// A database and a second one that goes through the same operations in transactions of its own.
pub struct Pair {
    pub w: World,
    pub twin: World,
    open: bool,
}
impl Pair {
    pub fn new(id: usize) -> Pair {
        Pair { w: World::new(&format!("g{id}")), twin: World::new(&format!("t{id}")), open: false }
    }
    /// the twin follows an operation that was applied outside every transaction
    pub fn follow(&mut self, r: &Rng, op: &Value) {
        if !self.open {
            self.twin.begin(9);
            self.open = true;
        }
        let mut op = op.clone();
        if s(&op, "o") == "batch" && b(&op, "check") {
            // listed in another order, what is appended in the same
            let app = |x: &&Value| s(x, "b") == "app";
            let old = op["ops"].as_array().unwrap().clone();
            let mut apps = old.iter().filter(app);
            op["ops"] = r.shuffled(old.clone()).into_iter().map(|x| if app(&&x) { apps.next().unwrap().clone() } else { x }).collect();
        }
        let _ = exec(self.twin.db(), self.twin.tx(9), &op);
        if r.chance(1, 3) {
            self.settle();
        }
    }
    pub fn settle(&mut self) {
        if self.open {
            let _ = self.twin.commit(9);
            self.open = false;
        }
    }
    pub fn compare(&mut self, o: &mut Out) {
        self.settle();
        let (a, z) = (self.w.phys(), self.twin.phys());
        o.ev(json!({"e": "twin", "same": a == z && self.twin.root() == self.w.root(), "rh": self.twin.root()}));
    }
}
fn reads(o: &mut Out, g: &Gen, w: &mut World, x: u64, n: usize) {
    for _ in 0..n {
        let op = g.op(weighted(&g.r, g.pr.reads));
        o.about(&op);
        let row = with(json!({"e": "op", "x": x, "op": op}), exec(w.db(), w.tx(x), &op));
        let row = w.seen(row);
        o.ev(row);
    }
}
pub fn step(o: &mut Out, g: &mut Gen, pair: &mut Pair, x: u64, op: &Value) -> Value {
    o.about(op);
    let res = exec(pair.w.db(), pair.w.tx(x), op);
    o.count(&format!("{} {}", s(op, "o"), s(&res, "st")), 1);
    g.note(op, &res);
    if g.pr.tx {
        let now: Vec<_> = g.keys.iter().flat_map(|(p, ks)| ks.iter().map(|k| (p.clone(), k.clone()))).collect();
        g.ever.extend(now);
    }
    let row = pair.w.seen(with(json!({"e": "op", "x": x, "op": op}), res.clone()));
    o.ev(row);
    res
}
fn case(o: &mut Out, id: usize, mut g: Gen, given: &[Value]) {
    o.ev(json!({"e": "new"}));
    let mut pair = Pair::new(id);
    let twin = given.is_empty() || id % 8 == 0 && !given.iter().any(|j| j.get("x").is_some());
    let steps = if given.is_empty() { g.pr.steps } else { given.len() };
    for i in 0..steps {
        let mut op = if given.is_empty() { g.op(weighted(&g.r, g.pr.ops)) } else { given[i].clone() };
        let x = op["x"].as_u64().unwrap_or(0);
        op.as_object_mut().unwrap().remove("x");
        if let Some(row) = pair.w.turn(s(&op, "o"), x) {
            o.count(&format!("{} {}", s(&row, "e"), row["st"].as_str().unwrap_or("")), 1);
            let row = pair.w.seen(row);
            o.ev(row);
            continue;
        }
        step(o, &mut g, &mut pair, x, &op);
        if twin {
            let rr = Rng::new(g.r.next());
            pair.follow(&rr, &op);
        }
        let n = if !given.is_empty() { 0 } else if g.pr.reads.len() == 1 { g.r.idx(9) } else { g.r.idx(3) };
        reads(o, &g, &mut pair.w, 0, n);
        if pair.w.txs.is_empty() && g.r.chance(1, 8) {
            pair.w.reopen();
            let row = pair.w.seen(json!({"e": "reopen"}));
            o.ev(row);
        }
        if twin && g.r.chance(1, 10) {
            pair.compare(o);
        }
    }
    if twin {
        pair.compare(o);
    }
    reads(o, &g, &mut pair.w, 0, if given.is_empty() { 4 } else { 2 });
    o.end_case();
}
/// operations inside and outside transactions
fn txcase(o: &mut Out, id: usize, mut g: Gen) {
    o.ev(json!({"e": "new"}));
    let mut pair = Pair::new(id);
    let mut next = 1;
    for _ in 0..g.pr.steps {
        let open: Vec<u64> = pair.w.txs.keys().copied().collect();
        let r = Rng::new(g.r.next());
        let row = match r.idx(20) {
            0..=2 if open.len() < 3 => {
                next += 1;
                pair.w.turn("begin", next - 1).unwrap()
            }
            3..=5 if !open.is_empty() => pair.w.turn("commit", *r.pick(&open)).unwrap(),
            6 if !open.is_empty() => pair.w.turn("drop", *r.pick(&open)).unwrap(),
            7 if !open.is_empty() => pair.w.turn("undo", *r.pick(&open)).unwrap(),
            8 if open.is_empty() => {
                pair.w.reopen();
                json!({"e": "reopen"})
            }
            _ => {
                // mostly in the youngest of the open transactions, so that some of them can commit
                let x = if open.is_empty() || r.chance(1, 8) { 0 } else if r.chance(4, 5) { *open.last().unwrap() } else { *r.pick(&open) };
                let op = g.op(weighted(&r, g.pr.ops));
                step(o, &mut g, &mut pair, x, &op);
                let who: Vec<u64> = [0, x].into_iter().chain(open).collect();
                for _ in 0..r.idx(3) {
                    reads(o, &g, &mut pair.w, *r.pick(&who), 1);
                }
                continue;
            }
        };
        o.count(&format!("{} {}", s(&row, "e"), row["st"].as_str().unwrap_or("")), 1);
        let row = pair.w.seen(row);
        o.ev(row);
    }
    reads(o, &g, &mut pair.w, 0, 6);
    o.end_case();
}
const ALL: &[&str] = &["item", "item", "item", "item", "sumitem", "ref", "tree", "tree", "sumtree", "bigsumtree", "counttree", "countsumtree", "provcounttree", "provcountsumtree"];
const TXREADS: &[(&str, u64)] = &[("get", 4), ("raw", 4), ("rawopt", 3), ("has", 3), ("follow", 3), ("empty", 3), ("trees", 1), ("verify", 1), ("query", 5), ("aggsum", 1)];
const READS: &[(&str, u64)] = &[("get", 4), ("raw", 4), ("rawopt", 3), ("has", 3), ("follow", 3), ("empty", 3), ("trees", 1), ("verify", 1)];
pub fn profile(name: &str) -> Profile {
    match name {
        "gcontent" => Profile { kinds: ALL, ops: &[("insert", 12), ("ine", 3), ("iner", 3), ("icv", 3), ("delete", 5), ("deltree", 1), ("delempty", 1), ("clear", 1)], reads: READS, tx: false, steps: 30, wild: false },
        "gdelete" => Profile { kinds: &["item", "item", "ref", "tree", "tree", "sumtree", "bigsumtree", "counttree", "countsumtree", "provcounttree", "provcountsumtree"],
            ops: &[("insert", 16), ("delete", 4), ("deltree", 2), ("delempty", 2), ("delup", 4), ("clear", 2), ("over", 1)], reads: READS, tx: false, steps: 36, wild: false },
        "gagg" => Profile { kinds: &["item", "sumitem", "sumitem", "itemsum", "ref", "tree", "sumtree", "bigsumtree", "counttree", "countsumtree", "provcounttree", "provcountsumtree"],
            ops: &[("insert", 14), ("ine", 1), ("icv", 1), ("delete", 4), ("deltree", 1), ("delup", 1), ("clear", 1), ("over", 2)], reads: &[("get", 2), ("raw", 4), ("verify", 1)], tx: false, steps: 40, wild: true },
        "gref" => Profile { kinds: &["item", "sumitem", "ref", "ref", "ref", "ref", "ref", "tree", "sumtree", "counttree"],
            ops: &[("insert", 16), ("ine", 2), ("iner", 1), ("icv", 2), ("delete", 5), ("deltree", 1), ("over", 4)], reads: &[("get", 8), ("raw", 2), ("rawopt", 1), ("follow", 5), ("verify", 1)], tx: false, steps: 44, wild: false },
        "gquery" => Profile { kinds: &["item", "item", "item", "sumitem", "itemsum", "ref", "tree", "tree", "tree", "sumtree", "bigsumtree", "counttree", "countsumtree", "provcounttree", "provcountsumtree"],
            ops: &[("insert", 14), ("delete", 2), ("deltree", 1)], reads: &[("query", 1)], tx: false, steps: 26, wild: false },
        "gaggsum" => Profile { kinds: &["item", "sumitem", "sumitem", "sumitem", "itemsum", "itemsum", "ref", "ref", "sumtree", "sumtree", "bigsumtree", "countsumtree", "provcountsumtree", "tree"],
            ops: &[("insert", 14), ("delete", 2)], reads: &[("aggsum", 1)], tx: false, steps: 26, wild: true },
        "gprove" => Profile { kinds: &["item", "item", "item", "sumitem", "itemsum", "ref", "tree", "tree", "tree", "sumtree", "bigsumtree", "counttree", "countsumtree", "provcounttree", "provcounttree", "provcountsumtree", "provcountsumtree"],
            ops: &[("insert", 14), ("delete", 2), ("deltree", 1)], reads: &[("prove", 3), ("provemany", 1)], tx: false, steps: 26, wild: false },
        "gappend" => Profile { kinds: &["item", "item", "ref", "tree", "tree", "sumtree", "countsumtree", "provcounttree", "ct", "ct", "mmr", "mmr", "bulk", "bulk", "dense", "dense"],
            ops: &[("insert", 8), ("append", 30), ("batch", 6), ("delete", 1), ("deltree", 1), ("delup", 1), ("clear", 1), ("over", 1), ("icv", 1)],
            reads: &[("aread", 12), ("raw", 4), ("get", 2), ("empty", 3), ("trees", 1), ("verify", 2), ("has", 1)], tx: false, steps: 44, wild: false },
        "gappendtx" => Profile { kinds: &["item", "ref", "tree", "sumtree", "provcounttree", "ct", "ct", "mmr", "mmr", "bulk", "bulk", "dense", "dense"],
            ops: &[("insert", 8), ("append", 24), ("batch", 4), ("delete", 1), ("deltree", 1), ("clear", 1)],
            reads: &[("aread", 12), ("raw", 4), ("empty", 2), ("verify", 1)], tx: true, steps: 60, wild: false },
        "gappendprove" => Profile { kinds: &["item", "ref", "tree", "tree", "sumtree", "provcounttree", "ct", "mmr", "mmr", "bulk", "bulk", "dense", "dense"],
            ops: &[("insert", 7), ("append", 24), ("batch", 3), ("delete", 1), ("deltree", 1)], reads: &[("prove", 1)], tx: false, steps: 30, wild: false },
        "gbatch" => Profile { kinds: ALL, ops: &[("batch", 10), ("insert", 2), ("delete", 1), ("clear", 1)], reads: READS, tx: false, steps: 16, wild: false },
        "gtx" => Profile { kinds: ALL, ops: &[("insert", 12), ("ine", 3), ("iner", 2), ("icv", 2), ("delete", 5), ("deltree", 1), ("delempty", 1), ("delup", 2), ("clear", 1)], reads: TXREADS, tx: true, steps: 50, wild: false },
        x => panic!("{x}"),
    }
}
/// Short histories that fail on the unchanged tree (known_findings.json lists them); the generators leave them out.
fn known(driver: &str) -> Vec<Vec<Value>> {
    let el = |e: Element| el_json(&e);
    let item = || el(Element::new_item(vec![7]));
    let tree = || el(Element::empty_tree());
    let ins = |p: &[&[u8]], k: &[u8], e: Value, nt: bool| {
        json!({"o": "insert", "p": p.iter().map(|x| hex(x)).collect::<Vec<_>>(), "k": hex(k), "el": e, "no": false, "nt": nt})
    };
    let batch = |ops: Vec<Value>| json!({"o": "batch", "no": false, "nt": false, "check": true, "ops": ops});
    let bop = |b: &str, p: &[&[u8]], k: &[u8], e: Option<Value>| {
        let mut j = json!({"b": b, "p": p.iter().map(|x| hex(x)).collect::<Vec<_>>(), "k": hex(k)});
        if let Some(e) = e {
            j["el"] = e;
        }
        j
    };
    // a tree with an item in it
    let full = |k: &[u8]| vec![ins(&[], k, tree(), true), ins(&[k], b"in", item(), true)];
    let then = |mut v: Vec<Value>, j: Value| {
        v.push(j);
        v
    };
    // the tree at 05 becomes the right child of 02 while a transaction has it as its parent
    let mixed = || {
        let x1 = |mut j: Value| { j["x"] = json!(1); j };
        vec![ins(&[], &[5], tree(), true), ins(&[], &[2], item(), true), x1(json!({"o": "begin"})), x1(ins(&[&[5]], &[1], item(), true)),
             ins(&[], &[1], item(), true), x1(json!({"o": "delete", "p": [], "k": "05", "allow": true, "err": true, "val": false}))]
    };
    match driver {
        "gtx" | "gappendtx" => vec![mixed()],
        "gdelete" => vec![
            then(vec![ins(&[], b"known1", tree(), true), ins(&[b"known1"], b"t", tree(), true), ins(&[b"known1", b"t"], b"in", item(), true)],
                json!({"o": "clear", "p": [hex(b"known1")], "check": false, "allow": true, "err": false})),
            then(full(b"known2"), ins(&[], b"known2", item(), false)),
            vec![json!({"o": "get", "p": [hex(&[7; 256])], "k": hex(b"known3")})],
        ],
        "gappend" => vec![
            vec![batch(vec![bop("ior", &[], b"known8", Some(el(Element::empty_mmr_tree()))), bop("ior", &[b"known8"], b"in", Some(item()))])],
        ],
        "gbatch" => vec![
            then(full(b"known4"), batch(vec![bop("del", &[], b"known4", None)])),
            then(full(b"known5"), batch(vec![bop("ior", &[], b"known5", Some(item()))])),
            then(full(b"known6"), batch(vec![bop("ifn", &[], b"known6", Some(tree())), bop("ior", &[b"known6"], b"k", Some(item()))])),
            then(full(b"known7"), batch(vec![
                with2(bop("delt", &[], b"known7", None), json!({"beh": "children", "kind": "tree"})),
                bop("ior", &[], b"ref", Some(el(Element::new_reference(grovedb::reference_path::ReferencePathType::AbsolutePathReference(vec![b"known7".to_vec(), b"in".to_vec()]))))),
            ])),
        ],
        _ => vec![],
    }
}
fn with2(mut a: Value, b: Value) -> Value {
    for (k, v) in b.as_object().unwrap() {
        a[k] = v.clone();
    }
    a
}
pub fn run(a: &Args, o: &mut Out) {
    let pr = profile(&a.driver);
    let r = Rng::new(a.seed ^ a.driver.bytes().fold(0x6db, |x: u64, c| x.wrapping_mul(31).wrapping_add(c as u64)));
    let mut id = 0;
    for sch in a.read_schedules() {
        let g = Gen::new(Rng::new(r.next()), pr.clone());
        case(o, id, g, sch.as_array().unwrap());
        id += 1;
    }
    for (i, sch) in known(&a.driver).iter().enumerate() {
        let g = Gen::new(Rng::new(r.next()), pr.clone());
        case(o, 100_001 + 8 * i, g, sch);
        o.count("known findings", 1);
    }
    for _ in 0..a.n(60, 600) {
        let g = Gen::new(Rng::new(r.next()), pr.clone());
        if pr.tx { txcase(o, id, g) } else { case(o, id, g, &[]) }
        id += 1;
    }
    let _ = ref_json;
}
