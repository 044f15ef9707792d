//! Proofs over a hierarchy of trees built outside the code under test, and forgeries of them.
use std::{
    collections::{BTreeMap, HashSet},
    ops::Range,
};

use grovedb::{
    Element, GroveDb, PathQuery, SizedQuery,
    operations::proof::{GroveDBProof, GroveDBProofV1, LayerProof, ProofBytes},
};
use grovedb_bulk_append_tree::{BulkAppendTree, BulkAppendTreeProof};
use grovedb_dense_fixed_sized_merkle_tree::{DenseFixedSizedMerkleTree, DenseTreeProof};
use grovedb_element::reference_path::ReferencePathType;
use grovedb_merkle_mountain_range::{MMR, MMRStoreReadOps, MemStore, MmrNode, MmrTreeProof};
use grovedb_query::{
    Query, QueryItem,
    proofs::{Node, Op},
};
use grovedb_version::version::GroveVersion;
use vh_common::*;

use crate::{
    element::{el_json, feature_json},
    memctx::MemCtx,
    pquery::pq_json,
    ptree::*,
    q::*,
};

type Vals = Vec<Vec<u8>>;
#[derive(Clone)]
pub enum L {
    Merk { t: Option<Box<PT>>, counted: bool, subs: BTreeMap<Vec<u8>, L> },
    Mmr(Vals),
    Bulk(u8, Vals),
    Ct(u8, Vals, Hash),
    Dense(u8, Vals),
}
use L::*;
fn mmr_of(vals: &Vals) -> (MemStore, u64, Hash) {
    let store = MemStore::default();
    let mut mmr = MMR::new(0, &store);
    for v in vals {
        mmr.push(MmrNode::leaf(v.clone())).value.unwrap();
    }
    mmr.commit().value.unwrap();
    let size = mmr.mmr_size;
    let root = if vals.is_empty() { NULL } else { mmr.get_root().value.unwrap().hash() };
    drop(mmr);
    (store, size, root)
}
fn bulk_of(h: u8, vals: &Vals) -> BulkAppendTree<MemCtx> {
    let mut t = BulkAppendTree::new(h, MemCtx::default()).unwrap();
    for v in vals {
        t.append(v).unwrap();
    }
    t
}
fn dense_of(h: u8, vals: &Vals) -> DenseFixedSizedMerkleTree<MemCtx> {
    let mut t = DenseFixedSizedMerkleTree::new(h, MemCtx::default()).unwrap();
    for v in vals {
        t.insert(v).value.unwrap();
    }
    t
}
impl L {
    pub fn hash(&self) -> Hash {
        match self {
            Merk { t, .. } => t.as_ref().map_or(NULL, |t| t.hash),
            Mmr(v) => mmr_of(v).2,
            Bulk(_, v) | Ct(_, v, _) if v.is_empty() => NULL,
            Bulk(h, v) => bulk_of(*h, v).compute_current_state_root().unwrap(),
            Ct(p, v, s) => h(&[b"ct_state", s, &bulk_of(*p, v).compute_current_state_root().unwrap()]),
            Dense(h, v) => dense_of(*h, v).root_hash().value.unwrap(),
        }
    }
    pub fn json(&self) -> Value {
        self.json_of(true)
    }
    fn json_of(&self, deep: bool) -> Value {
        let hx = |v: &Vals| json!(v.iter().map(hex).collect::<Vec<_>>());
        let mk = |t: &str, h: u8, v: Value, s: String| json!({"t": t, "counted": false, "tree": [], "subs": [], "h": h, "vals": v, "sin": s});
        match self {
            Merk { t, counted, subs } => json!({"t": "merk", "counted": counted, "tree": t.iter().map(|t| t.json()).collect::<Vec<_>>(),
                "subs": subs.iter().filter(|_| deep).map(|(k, l)| json!([hex(k), l.json()])).collect::<Vec<_>>(), "h": 0, "vals": [], "sin": ""}),
            Mmr(v) => mk("mmr", 0, hx(v), String::new()),
            Bulk(h, v) => mk("bulk", *h, hx(v), String::new()),
            Ct(h, v, s) => mk("ct", *h, hx(v), hex(s)),
            Dense(h, v) => mk("dense", *h, hx(v), String::new()),
        }
    }
    fn at(&self, p: &[Vec<u8>]) -> Option<&L> {
        match (p, self) {
            ([], _) => Some(self),
            ([k, rest @ ..], Merk { subs, .. }) => subs.get(k)?.at(rest),
            _ => None,
        }
    }
    fn paths(&self, at: &[Vec<u8>], out: &mut Vec<Vec<Vec<u8>>>) {
        out.push(at.to_vec());
        if let Merk { subs, .. } = self {
            for (k, l) in subs {
                let mut p = at.to_vec();
                p.push(k.clone());
                l.paths(&p, out);
            }
        }
    }
    fn entries(&self) -> Vec<&Ent> {
        let mut v = vec![];
        if let Merk { t: Some(t), .. } = self {
            t.nodes(&mut v);
        }
        v.into_iter().map(|n| &n.e).collect()
    }
    /// every element value below
    fn values(&self, out: &mut Vals) {
        for e in self.entries() {
            out.push(e.v.clone());
            out.extend(e.res.clone());
        }
        if let Merk { subs, .. } = self {
            subs.values().for_each(|l| l.values(out));
        }
    }
}
pub fn ser(e: &Element) -> Vec<u8> {
    e.serialize(GroveVersion::latest()).unwrap()
}
fn el(b: &[u8]) -> Element {
    Element::deserialize(b, GroveVersion::latest()).unwrap()
}
/// the element of a layer, as kind (0..7 key-value trees)
pub fn tree_element(kind: usize, root: Option<Vec<u8>>, n: u64, s: i64) -> Element {
    match kind {
        0 => Element::Tree(root, None),
        1 => Element::SumTree(root, s, None),
        2 => Element::BigSumTree(root, s as i128, None),
        3 => Element::CountTree(root, n, None),
        4 => Element::CountSumTree(root, n, s, None),
        5 => Element::ProvableCountTree(root, n, None),
        _ => Element::ProvableCountSumTree(root, n, s, None),
    }
}
/// An entry with the layer below it.
fn entry(k: Vec<u8>, e: &Element, low: Option<&L>, res: Option<&Element>) -> Ent {
    let res = res.map(ser);
    let sup = match (low, &res) {
        (Some(l), _) => Some(l.hash()),
        (_, Some(r)) => Some(value_hash(r)),
        _ => e.is_any_tree().then_some(NULL),
    };
    Ent { k, v: ser(e), sup, res, own: e.count_value_or_default() }
}
pub struct Entry(pub Element, pub Option<L>, pub Option<Element>);
pub fn merk(r: &Rng, es: Vec<(Vec<u8>, Entry)>, counted: bool) -> L {
    let mut ents = vec![];
    let mut subs = BTreeMap::new();
    for (k, Entry(e, low, res)) in es {
        ents.push(entry(k.clone(), &e, low.as_ref(), res.as_ref()));
        if let Some(l) = low {
            subs.insert(k, l);
        }
    }
    Merk { t: build(r, &ents, counted), counted, subs }
}
fn root_key(l: &L) -> Option<Vec<u8>> {
    match l {
        Merk { t: Some(t), .. } => Some(t.e.k.clone()),
        _ => None,
    }
}
pub fn ref_to(k: u8) -> Element {
    Element::new_reference(ReferencePathType::AbsolutePathReference(vec![vec![9], vec![k]]))
}
fn vals(r: &Rng, n: usize) -> Vals {
    (0..n).map(|i| { let l = r.idx(4); let mut v = r.bytes(l); v.push(i as u8); v }).collect()
}
/// A random entry; 0..=20
fn random_entry(r: &Rng, kind: usize, depth: usize) -> Entry {
    match kind {
        0..=3 => { let n = r.idx(4); Entry(Element::new_item(r.bytes(n)), None, None) }
        4 => Entry(Element::new_sum_item(r.idx(9) as i64 - 4), None, None),
        5 => Entry(Element::new_item_with_sum_item(r.bytes(2), 4), None, None),
        6 | 7 => { let res = if r.chance(1, 3) { Element::new_sum_item(6) } else { Element::new_item(r.bytes(2)) }; Entry(ref_to(r.idx(5) as u8), None, Some(res)) }
        8 => Entry(tree_element(r.idx(7), None, 0, 0), None, None),
        9 => Entry(Element::Tree(None, None), None, None),
        10..=16 if depth > 0 => {
            let k = kind - 10;
            let n = 1 + r.idx(3);
            let l = layer(r, depth - 1, n, k >= 5);
            let c = if let Merk { t: Some(t), .. } = &l { t.count } else { 0 };
            Entry(tree_element(k, root_key(&l), c, r.idx(7) as i64 - 3), Some(l), None)
        }
        17 => { let n = r.idx(7); let v = vals(r, n); let s = mmr_of(&v).1; Entry(Element::MmrTree(s, None), Some(Mmr(v)), None) }
        18 => { let n = 1 + r.idx(9); let h = 1 + r.idx(2) as u8; Entry(Element::BulkAppendTree(n as u64, h, None), Some(Bulk(h, vals(r, n))), None) }
        19 => { let n = 1 + r.idx(6); let h = 1 + r.idx(2) as u8; Entry(Element::CommitmentTree(n as u64, h, None), Some(Ct(h, vals(r, n), r.bytes(32).try_into().unwrap())), None) }
        20 => { let h = 2 + r.idx(2) as u8; let n = r.idx(1 << h); Entry(Element::DenseAppendOnlyFixedSizeTree(n as u16, h, None), Some(Dense(h, vals(r, n))), None) }
        _ => Entry(Element::new_item(r.bytes(1)), None, None),
    }
}
fn alpha() -> Vals {
    vec![vec![1], vec![2], vec![3], vec![4], vec![5], vec![3, 0], vec![6]]
}
fn layer(r: &Rng, depth: usize, n: usize, counted: bool) -> L {
    let mut ks = alpha();
    r.shuffle(&mut ks);
    ks.truncate(n);
    ks.sort();
    let es = ks.into_iter().map(|k| { let kind = if depth > 0 && r.chance(1, 2) { 10 + r.idx(11) } else { r.idx(21) }; (k, random_entry(r, kind, depth)) }).collect();
    merk(r, es, counted)
}
// ----- proofs -----
#[derive(Clone)]
pub enum Part {
    Ops(Vec<Op>),
    Mmr(u64, Vec<(u64, Vec<u8>)>, Vec<Hash>),
    /// kind of the bytes, bytes
    Raw(usize, Vec<u8>),
}
#[derive(Clone)]
pub struct PL {
    pub part: Part,
    pub low: BTreeMap<Vec<u8>, PL>,
}
fn proof_bytes(k: usize, b: Vec<u8>) -> ProofBytes {
    match k {
        0 => ProofBytes::Merk(b),
        1 => ProofBytes::MMR(b),
        2 => ProofBytes::BulkAppendTree(b),
        3 => ProofBytes::DenseTree(b),
        _ => ProofBytes::CommitmentTree(b),
    }
}
impl PL {
    fn raw(k: usize, b: Vec<u8>) -> PL {
        PL { part: Part::Raw(k, b), low: BTreeMap::new() }
    }
    fn to(&self) -> LayerProof {
        let p = match &self.part {
            Part::Ops(o) => ProofBytes::Merk(encode(o)),
            Part::Mmr(n, l, i) => ProofBytes::MMR(MmrTreeProof::new(*n, l.clone(), i.clone()).encode_to_vec().unwrap()),
            Part::Raw(k, b) => proof_bytes(*k, b.clone()),
        };
        LayerProof { merk_proof: p, lower_layers: self.low.iter().map(|(k, v)| (k.clone(), v.to())).collect() }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let c = bincode::config::standard().with_big_endian().with_no_limit();
        bincode::encode_to_vec(GroveDBProof::V1(GroveDBProofV1 { root_layer: self.to() }), c).unwrap()
    }
    fn all<'a>(&'a self, path: Vec<Vec<u8>>, out: &mut Vec<(Vec<Vec<u8>>, &'a PL)>) {
        out.push((path.clone(), self));
        for (k, l) in &self.low {
            let mut p = path.clone();
            p.push(k.clone());
            l.all(p, out);
        }
    }
    fn at_mut(&mut self, p: &[Vec<u8>]) -> &mut PL {
        match p {
            [] => self,
            [k, rest @ ..] => self.low.get_mut(k).unwrap().at_mut(rest),
        }
    }
}
fn dec(lim: &mut Option<u16>, n: usize) {
    if let Some(l) = lim {
        *l = l.saturating_sub(n.min(65535) as u16);
    }
}
fn pos_items(q: &[QueryItem], n: usize, width: usize) -> Vec<usize> {
    (0..n).filter(|i| { let k = (*i as u64).to_be_bytes(); q.iter().any(|x| x.contains(&k[8 - width..])) }).collect()
}
/// The proof of the query, as documented. None when some part of it cannot be proved.
fn prove_layer(l: &L, path: &[Vec<u8>], pq: &PathQuery, lim: &mut Option<u16>) -> Option<PL> {
    let v = GroveVersion::latest();
    let sl: Vec<&[u8]> = path.iter().map(|x| x.as_slice()).collect();
    let iq = pq.query_items_at_path(&sl, v).ok()??;
    let items = iq.items.to_vec();
    match l {
        Merk { t, counted, subs } => {
            let Some(t) = t else { return None };
            let rv = reveal(t, &items, *lim, iq.left_to_right);
            let ops = prove_with(t, &rv, iq.left_to_right, *counted, &|n: &PT| {
                let on = iq.has_subquery_or_matching_in_path_on_key(&n.e.k);
                let full = subs.contains_key(&n.e.k);
                n.shown(*counted, if n.e.res.is_some() || (full && !on) { 0 } else { 5 })
            }, true);
            let mut ns = vec![];
            t.nodes(&mut ns);
            let mut pick: Vec<&PT> = ns.iter().zip(&rv).filter(|(_, x)| **x == 2).map(|(n, _)| *n).collect();
            if !iq.left_to_right {
                pick.reverse();
            }
            let mut low = BTreeMap::new();
            if pick.is_empty() {
                dec(lim, 1);
            }
            for n in pick {
                let on = iq.has_subquery_or_matching_in_path_on_key(&n.e.k);
                match subs.get(&n.e.k) {
                    Some(s) if on => {
                        let mut p = path.to_vec();
                        p.push(n.e.k.clone());
                        low.insert(n.e.k.clone(), prove_layer(s, &p, pq, lim)?);
                    }
                    _ => dec(lim, 1),
                }
                if *lim == Some(0) {
                    break;
                }
            }
            Some(PL { part: Part::Ops(ops), low })
        }
        // positions are asked for in full
        _ if items.iter().any(|i| {
            let (lo, hi) = (i.lower_bound().0, i.upper_bound().0);
            [lo, hi].iter().any(|b| b.is_some_and(|b| b.len() != width(l)))
        }) => None,
        Mmr(vals) => {
            let (store, size, _) = mmr_of(vals);
            let ix: Vec<u64> = pos_items(&items, vals.len(), 8).into_iter().map(|x| x as u64).collect();
            if vals.is_empty() {
                return Some(PL { part: Part::Mmr(0, vec![], vec![]), low: BTreeMap::new() });
            }
            let s = &store;
            let p = MmrTreeProof::generate(size, &ix, |p| s.element_at_position(p).value).ok()?;
            dec(lim, ix.len());
            Some(PL { part: Part::Mmr(size, p.leaves().to_vec(), p.proof_items().to_vec()), low: BTreeMap::new() })
        }
        Bulk(h, vals) | Ct(h, vals, _) => {
            let t = bulk_of(*h, vals);
            let mut q = Query::new();
            q.items = items.clone();
            let mut b = BulkAppendTreeProof::generate(&q, &t).ok()?.encode_to_vec().ok()?;
            dec(lim, pos_items(&items, vals.len(), 8).len());
            if let Ct(_, _, s) = l {
                b = [s.as_slice(), &b].concat();
            }
            Some(PL::raw(if matches!(l, Ct(..)) { 4 } else { 2 }, b))
        }
        Dense(h, vals) => {
            let t = dense_of(*h, vals);
            let ix: Vec<u16> = pos_items(&items, vals.len(), 2).into_iter().map(|x| x as u16).collect();
            let b = DenseTreeProof::generate(&t, &ix).value.ok()?.encode_to_vec().ok()?;
            dec(lim, ix.len());
            Some(PL::raw(3, b))
        }
    }
}
/// contents of trees that are shown without, whether asked for or not
fn fill(r: &Rng, db: &L, p: &mut PL) -> bool {
    let mut all = vec![];
    p.all(vec![], &mut all);
    let paths: Vec<_> = all.into_iter().map(|x| x.0).collect();
    let mut any = false;
    for path in paths {
        let Some(Merk { t: Some(t), counted, subs }) = db.at(&path) else { continue };
        let mut ns = vec![];
        t.nodes(&mut ns);
        let at = p.at_mut(&path);
        for n in ns {
            let (Some(s), false) = (subs.get(&n.e.k), at.low.contains_key(&n.e.k)) else { continue };
            let mut q = Query::new();
            q.insert_all();
            let Some(low) = prove_layer(s, &[], &PathQuery::new(vec![], SizedQuery::new(q, None, None)), &mut None) else { continue };
            if r.chance(1, 6) {
                continue;
            }
            if let Part::Ops(ops) = &mut at.part {
                let form = *r.pick(&[1, 2, 3, 3]);
                let to = show_as(n, &n.e.v, if *counted { form.max(2) } else { form }, *counted);
                // what is only a digest stays one
                if ops.iter().any(|o| matches!(o, Op::Push(x) | Op::PushInverted(x) if *x == n.shown(*counted, 0) || *x == n.shown(*counted, 5))) && reshow(ops, n, to) {
                    at.low.insert(n.e.k.clone(), low);
                    any = true;
                }
            }
        }
    }
    any
}
pub fn prove_db(l: &L, pq: &PathQuery) -> Option<PL> {
    let mut lim = pq.query.limit;
    prove_layer(l, &[], pq, &mut lim)
}
// ----- verification -----
fn trio(v: Vec<(Vec<Vec<u8>>, Vec<u8>, Option<Element>)>) -> Value {
    json!(v.iter().map(|(p, k, e)| json!([p.iter().map(hex).collect::<Vec<_>>(), hex(k), e.as_ref().map_or(String::new(), |e| hex(ser(e))), ""])).collect::<Vec<_>>())
}
pub fn verify(api: &str, b: &[u8], pq: &PathQuery) -> Value {
    let v = GroveVersion::latest();
    match api {
        "verify" => outcome(guard(|| GroveDb::verify_query(b, pq, v)), |(h, r)| json!({"root": hex(h), "set": trio(r)})),
        "subset" => outcome(guard(|| GroveDb::verify_subset_query(b, pq, v)), |(h, r)| json!({"root": hex(h), "set": trio(r)})),
        "absence" => outcome(guard(|| GroveDb::verify_query_with_absence_proof(b, pq, v)), |(h, r)| json!({"root": hex(h), "set": trio(r)})),
        "info" => outcome(guard(|| GroveDb::verify_query_get_parent_tree_info(b, pq, v)), |(h, f, r)| json!({"root": hex(h), "ft": feature_json(&f), "set": trio(r)})),
        "subabs" => outcome(guard(|| GroveDb::verify_subset_query_with_absence_proof(b, pq, v)), |(h, r)| json!({"root": hex(h), "set": trio(r)})),
        "subinfo" => outcome(guard(|| GroveDb::verify_subset_query_get_parent_tree_info(b, pq, v)), |(h, f, r)| json!({"root": hex(h), "ft": feature_json(&f), "set": trio(r)})),
        _ => outcome(guard(|| GroveDb::verify_query_raw(b, pq, v)), |(h, r)| {
            json!({"root": hex(h), "set": r.iter().map(|x| json!([x.path.iter().map(hex).collect::<Vec<_>>(), hex(&x.key), hex(&x.value), hex(x.proof)])).collect::<Vec<_>>()})
        }),
    }
}
pub struct Case<'a> {
    db: &'a L,
    root: String,
    seen: HashSet<String>,
    cur: String,
}
impl<'a> Case<'a> {
    pub fn new(o: &mut Out, db: &'a L) -> Self {
        let root = hex(db.hash());
        let mut els = vec![];
        let mut vs = vec![];
        db.values(&mut vs);
        vs.sort();
        vs.dedup();
        for v in vs {
            let e = el(&v);
            if e.is_any_tree() {
                els.push(json!([hex(&v), el_json(&e)]));
            }
        }
        // one tree in the other: written flat
        let mut flat = vec![];
        let mut at = db;
        while let Merk { subs, .. } = at
            && subs.len() == 1
        {
            let (k, low) = subs.iter().next().unwrap();
            let mut j = at.json_of(false);
            j["into"] = json!(hex(k));
            flat.push(j);
            at = low;
        }
        if flat.len() > 8 {
            o.ev(json!({"e": "new", "flat": flat, "db": at.json(), "root": root, "els": els}));
        } else {
            o.ev(json!({"e": "new", "flat": [], "db": db.json(), "root": root, "els": els}));
        }
        Case { db, root, seen: Default::default(), cur: String::new() }
    }
    fn query(&mut self, o: &mut Out, pq: &PathQuery) {
        let s = pq_json(pq);
        if s.to_string() != self.cur {
            self.cur = s.to_string();
            self.seen.clear();
            o.ev(json!({"e": "query", "pq": s}));
        }
    }
    /// a proof that must be accepted
    pub fn honest(&mut self, o: &mut Out, api: &str, pq: &PathQuery, b: &[u8]) {
        self.query(o, pq);
        o.about(&json!({"honest": api, "pq": pq_json(pq), "proof": hex(b)}));
        let x = verify(api, b, pq);
        self.seen.insert(format!("{api} {}", x["v"]));
        o.ev(with(json!({"e": "honest", "api": api}), x));
    }
    pub fn forged(&mut self, o: &mut Out, api: &str, pq: &PathQuery, b: &[u8], how: &str) {
        o.count("forged proofs tried", 1);
        let x = verify(api, b, pq);
        if x["st"] == "err" || (x["st"] == "ok" && x["v"]["root"] != self.root) {
            return;
        }
        o.count("forged proofs with the true root", 1);
        if self.seen.insert(format!("{api} {}", x["v"])) {
            self.query(o, pq);
            o.ev(with(json!({"e": "forged", "api": api, "how": how, "proof": hex(b)}), x));
        }
    }
}
// ----- queries -----
fn width(l: &L) -> usize {
    match l {
        Merk { .. } => 1,
        Dense(..) => 2,
        _ => 8,
    }
}
fn keys_of(l: &L) -> Vals {
    let n = match l {
        Merk { .. } => return alpha(),
        Mmr(v) | Bulk(_, v) | Ct(_, v, _) | Dense(_, v) => v.len(),
    };
    (0..n as u64 + 2).map(|i| i.to_be_bytes()[8 - width(l)..].to_vec()).collect()
}
fn guided(r: &Rng, l: &L, depth: usize) -> Query {
    let g = QGen { r, alpha: keys_of(l), bounded: false, overlapping_conds: false, up: r.chance(1, 2) };
    let mut q = Query::new_with_direction(r.chance(2, 3));
    for _ in 0..1 + r.idx(2) {
        let i = if r.chance(1, 3) { QueryItem::RangeFull(..) } else { g.item() };
        q.insert_item(i);
    }
    let Merk { subs, .. } = l else { return q };
    let ls: Vec<(&Vec<u8>, &L)> = subs.iter().collect();
    if depth == 0 || ls.is_empty() || r.chance(1, 5) {
        return q;
    }
    q.add_parent_tree_on_subquery = r.chance(1, 6);
    let set = |b: &mut grovedb_query::SubqueryBranch, k: &L| {
        let mut k = k;
        if r.chance(1, 4)
            && let Merk { subs, .. } = k
        {
            let key = if r.chance(1, 4) { r.pick(&alpha()).clone() } else { subs.keys().next().cloned().unwrap_or(vec![1]) };
            b.subquery_path = Some(vec![key.clone()]);
            if let Some(x) = subs.get(&key) {
                k = x;
            }
            if r.chance(1, 3) {
                return;
            }
        }
        b.subquery = Some(Box::new(guided(r, k, depth - 1)));
    };
    if r.chance(3, 4) {
        let (_, k) = *r.pick(&ls);
        set(&mut q.default_subquery_branch, k);
    }
    for (key, k) in ls {
        if width(k) > 1 && q.default_subquery_branch.subquery.is_some() || r.chance(1, 4) {
            let mut b = Default::default();
            if r.chance(4, 5) {
                set(&mut b, k);
            }
            q.conditional_subquery_branches.get_or_insert_default().insert(QueryItem::Key(key.clone()), b);
        }
    }
    q
}
fn path_query(r: &Rng, db: &L) -> PathQuery {
    let mut ps = vec![];
    db.paths(&[], &mut ps);
    let mut p = if r.chance(1, 2) { vec![] } else { r.pick(&ps).clone() };
    let q = guided(r, db.at(&p).unwrap(), 3);
    if r.chance(1, 12) {
        p.push(r.pick(&alpha()).clone());
    }
    PathQuery::new(p, SizedQuery::new(q, *r.pick(&[None, None, None, Some(1), Some(2), Some(3), Some(5), Some(100)]), None))
}
/// the same query with a bound that is longer or shorter
fn odd(r: &Rng, pq: &PathQuery) -> PathQuery {
    fn item(r: &Rng, i: &QueryItem) -> QueryItem {
        let odd = |b: &Vec<u8>| match r.idx(4) { 0 => [b.clone(), vec![0]].concat(), 1 => b[..b.len().saturating_sub(1)].to_vec(), 2 => vec![], _ => b.clone() };
        use QueryItem::*;
        match i {
            Key(a) => Key(odd(a)),
            Range(x) => Range(odd(&x.start)..odd(&x.end)),
            RangeInclusive(x) => RangeInclusive(odd(x.start())..=odd(x.end())),
            RangeFull(..) => RangeFull(..),
            RangeFrom(x) => RangeFrom(odd(&x.start)..),
            RangeTo(x) => RangeTo(..odd(&x.end)),
            RangeToInclusive(x) => RangeToInclusive(..=odd(&x.end)),
            RangeAfter(x) => RangeAfter(odd(&x.start)..),
            RangeAfterTo(x) => RangeAfterTo(odd(&x.start)..odd(&x.end)),
            RangeAfterToInclusive(x) => RangeAfterToInclusive(odd(x.start())..=odd(x.end())),
        }
    }
    fn query(r: &Rng, q: &mut Query) {
        let deeper = q.has_subquery();
        if !deeper || r.chance(1, 4) {
            // the items stay sorted and apart
            for i in std::mem::take(&mut q.items) {
                q.insert_item(item(r, &i));
            }
        }
        for b in std::iter::once(&mut q.default_subquery_branch).chain(q.conditional_subquery_branches.iter_mut().flat_map(|m| m.values_mut())) {
            if let Some(s) = &mut b.subquery {
                query(r, s);
            }
        }
    }
    let mut x = pq.clone();
    query(r, &mut x.query.query);
    x
}
/// whether the query says where it goes on for keys of the same shape only (a layer is asked in its own positions)
fn narrow(r: &Rng, pq: &PathQuery) -> PathQuery {
    let mut x = pq.clone();
    fn cut(r: &Rng, q: &mut Query, depth: usize) {
        if q.items.len() > 1 && r.chance(1, 2) {
            let i = r.idx(q.items.len());
            q.items.remove(i);
        } else if r.chance(1, 2) {
            let k = r.pick(&alpha()).clone();
            if q.items.iter().any(|i| i.contains(&k)) {
                q.items = vec![QueryItem::Key(k)];
            }
        }
        if depth > 0 {
            if r.chance(1, 4) {
                q.default_subquery_branch = Default::default();
            } else if let Some(s) = &mut q.default_subquery_branch.subquery {
                cut(r, s, depth - 1);
            }
        }
        if r.chance(1, 6) {
            q.left_to_right = !q.left_to_right;
        }
    }
    cut(r, &mut x.query.query, 2);
    if r.chance(1, 4) {
        x.query.limit = *r.pick(&[None, Some(1), Some(2)]);
    }
    x
}
/// lies about an element: other kinds, other fields, with or without contents
pub fn lies(e: &Element) -> Vals {
    let mut v: Vec<Element> = vec![
        Element::new_item(vec![7]), Element::new_sum_item(99), Element::new_item_with_sum_item(vec![7], 3), ref_to(0),
        Element::Tree(None, None), Element::Tree(Some(vec![1]), None), Element::SumTree(None, 0, None), Element::SumTree(Some(vec![1]), 50, None),
        Element::BigSumTree(None, 0, None), Element::CountTree(Some(vec![1]), 50, None), Element::CountTree(None, 0, None),
        Element::ProvableCountTree(None, 0, None), Element::ProvableCountTree(Some(vec![1]), 5, None), Element::ProvableCountSumTree(None, 0, 0, None),
        Element::CountSumTree(None, 0, 0, None),
        Element::MmrTree(0, None), Element::MmrTree(1, None), Element::MmrTree(3, None), Element::BulkAppendTree(0, 1, None), Element::BulkAppendTree(2, 1, None),
        Element::CommitmentTree(0, 1, None), Element::CommitmentTree(1, 2, None),
        Element::DenseAppendOnlyFixedSizeTree(0, 2, None), Element::DenseAppendOnlyFixedSizeTree(2, 2, None), Element::DenseAppendOnlyFixedSizeTree(1, 1, None),
    ];
    let fl = Some(vec![1]);
    v.push(match e.clone() {
        Element::Item(x, _) => Element::Item(x, fl),
        Element::Tree(k, _) => Element::Tree(k, fl),
        Element::SumTree(k, s, _) => Element::SumTree(k, s + 1, fl),
        Element::BigSumTree(k, s, _) => Element::BigSumTree(k, s + 1, None),
        Element::CountTree(k, s, _) => Element::CountTree(k, s + 1, None),
        Element::CountSumTree(k, s, x, _) => Element::CountSumTree(k, s, x + 1, None),
        Element::ProvableCountTree(k, s, _) => Element::ProvableCountTree(k, s + 1, None),
        Element::ProvableCountSumTree(k, s, x, _) => Element::ProvableCountSumTree(k, s, x + 1, None),
        Element::MmrTree(n, _) => Element::MmrTree(n, fl),
        Element::BulkAppendTree(n, h, _) => Element::BulkAppendTree(n.saturating_sub(1), h, None),
        Element::CommitmentTree(n, h, _) => Element::BulkAppendTree(n, h, None),
        Element::DenseAppendOnlyFixedSizeTree(n, h, _) => Element::DenseAppendOnlyFixedSizeTree(n.saturating_sub(1), h, None),
        _ => Element::new_item(vec![8]),
    });
    v.iter().map(ser).collect()
}
/// how node n may show the (possibly false) value v
pub fn show_as(n: &PT, v: &[u8], form: usize, counted: bool) -> Node {
    let (k, vh, v) = (n.e.k.clone(), n.e.vh(), v.to_vec());
    match form {
        0 => Node::KV(k, v),
        1 => Node::KVValueHash(k, v, vh),
        2 => Node::KVValueHashFeatureType(k, v, vh, n.feature(counted)),
        3 => Node::KVValueHashFeatureTypeWithChildHash(k, v, vh, n.feature(counted), n.e.sup.unwrap_or(NULL)),
        4 => Node::KVRefValueHash(k, v, value_hash(&n.e.v)),
        5 => Node::KVCount(k, v, n.count),
        6 => Node::KVRefValueHashCount(k, v, value_hash(&n.e.v), n.count),
        7 => Node::KVDigest(k, vh),
        _ => n.digest(counted),
    }
}
/// replace how the proof's operations show an entry
pub fn reshow(ops: &mut [Op], n: &PT, to: Node) -> bool {
    for op in ops {
        if let Op::Push(x) | Op::PushInverted(x) = op {
            let k = match &*x {
                Node::KV(k, _) | Node::KVValueHash(k, ..) | Node::KVDigest(k, _) | Node::KVRefValueHash(k, ..) | Node::KVValueHashFeatureType(k, ..)
                | Node::KVCount(k, ..) | Node::KVRefValueHashCount(k, ..) | Node::KVDigestCount(k, ..) | Node::KVValueHashFeatureTypeWithChildHash(k, ..) => k,
                _ => continue,
            };
            if *k == n.e.k {
                *x = to;
                return true;
            }
        }
    }
    false
}
struct World<'a> {
    r: &'a Rng,
    db: &'a L,
    other: &'a L,
    pool: Vals,
    keys: Vals,
}
impl World<'_> {
    /// one alteration of the proof
    fn alter(&self, p: &mut PL, donor: &PL) -> &'static str {
        let r = self.r;
        let mut all = vec![];
        p.all(vec![], &mut all);
        let (path, cur) = r.pick(&all).clone();
        let cur = cur.clone();
        let l = self.db.at(&path);
        let mut ds = vec![];
        donor.all(vec![], &mut ds);
        let same: Vec<&PL> = ds.iter().filter(|(q, _)| *q == path).map(|x| x.1).collect();
        let any = all.iter().map(|x| x.1.clone()).chain(ds.iter().map(|x| x.1.clone())).collect::<Vec<_>>();
        let at = p.at_mut(&path);
        match r.idx(12) {
            // show an entry differently
            0..=3 => {
                if let (Some(Merk { t: Some(t), counted, .. }), Part::Ops(ops)) = (l, &mut at.part) {
                    let mut ns = vec![];
                    t.nodes(&mut ns);
                    let n = *r.pick(&ns);
                    let v = if r.chance(1, 4) { r.pick(&self.pool).clone() } else { r.pick(&lies(&el(&n.e.v))).clone() };
                    if reshow(ops, n, show_as(n, &v, *r.pick(&[0, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7]), *counted)) {
                        if r.chance(1, 3) {
                            at.low.remove(&n.e.k);
                        } else if r.chance(1, 4) {
                            at.low.insert(n.e.k.clone(), r.pick(&any).clone());
                        }
                    }
                    return "show";
                }
            }
            4 => {
                if !at.low.is_empty() {
                    let k = at.low.keys().nth(r.idx(at.low.len())).unwrap().clone();
                    at.low.remove(&k);
                }
                return "drop layer";
            }
            5 => {
                let k = if r.chance(1, 2) || at.low.is_empty() { r.pick(&self.keys).clone() } else { at.low.keys().nth(r.idx(at.low.len())).unwrap().clone() };
                at.low.insert(k, r.pick(&any).clone());
                return "put layer";
            }
            6 => {
                if let Some(d) = same.first() {
                    *at = (*d).clone();
                }
                return "splice";
            }
            7 => {
                let b = at.to().merk_proof;
                let b = match b {
                    ProofBytes::Merk(b) | ProofBytes::MMR(b) | ProofBytes::BulkAppendTree(b) | ProofBytes::DenseTree(b) | ProofBytes::CommitmentTree(b) => b,
                };
                let k = r.idx(5);
                let b = match r.idx(4) { 0 => [vec![0; 32], b].concat(), 1 if b.len() > 32 => b[32..].to_vec(), _ => b };
                at.part = Part::Raw(k, b);
                return "kind";
            }
            _ => {}
        }
        match (&cur.part, l) {
            (Part::Ops(ops), Some(Merk { t: Some(t), counted, .. })) => {
                let f = Forger { r, counted: *counted, orient: r.idx(3), hide: *r.pick(&[5, 20, 40]), junk: *r.pick(&[0, 20]), lie: *r.pick(&[0, 10, 30]),
                    inverted: *r.pick(&[0, 20]), pool: &self.pool, keys: &self.keys };
                let d = same.iter().find_map(|x| if let Part::Ops(o) = &x.part { Some(o.clone()) } else { None }).unwrap_or_default();
                at.part = Part::Ops(if r.chance(1, 2) { f.mutate(ops, &d) } else { f.term(t) });
                "forge"
            }
            (Part::Mmr(n, leaves, items), Some(Mmr(vals))) => {
                let (mut n, mut lv, mut it) = (*n, leaves.clone(), items.clone());
                match r.idx(8) {
                    0 | 1 => r.shuffle(&mut lv),
                    2 if !lv.is_empty() => { lv.remove(r.idx(lv.len())); }
                    3 if !lv.is_empty() => { let i = r.idx(lv.len()); lv[i].1 = r.bytes(2); }
                    4 if !lv.is_empty() => { let i = r.idx(lv.len()); lv[i].0 = r.below(vals.len() as u64 + 1); }
                    5 if !lv.is_empty() => { let x = r.pick(&lv).clone(); lv.push(x); }
                    6 => n = *r.pick(&[0, 1, 3, 4, 7, 8]),
                    _ => {
                        // a proof of other leaves
                        let ix: Vec<u64> = (0..vals.len() as u64).filter(|_| r.chance(1, 2)).collect();
                        let (s, size, _) = mmr_of(vals);
                        let s = &s;
                        if let Ok(p) = MmrTreeProof::generate(size, &ix, |p| s.element_at_position(p).value) {
                            (lv, it) = (p.leaves().to_vec(), p.proof_items().to_vec());
                            if r.chance(1, 2) {
                                r.shuffle(&mut lv);
                            }
                        }
                    }
                }
                at.part = Part::Mmr(n, lv, it);
                "leaves"
            }
            (Part::Raw(k, b), _) if !b.is_empty() => {
                let mut b = b.clone();
                match (r.idx(4), l) {
                    (0, Some(Dense(h, vals))) => {
                        let ix: Vec<u16> = (0..vals.len() as u16).filter(|_| r.chance(1, 2)).collect();
                        if let Ok(mut p) = DenseTreeProof::generate(&dense_of(*h, vals), &ix).value {
                            r.shuffle(&mut p.entries);
                            b = p.encode_to_vec().unwrap();
                        }
                    }
                    (1, Some(Dense(..))) => {
                        if let Ok(mut p) = DenseTreeProof::decode_from_slice(&b) {
                            r.shuffle(&mut p.entries);
                            b = p.encode_to_vec().unwrap();
                        }
                    }
                    (0 | 1, Some(Bulk(h, vals) | Ct(h, vals, _))) => {
                        let mut q = Query::new();
                        let n = vals.len() as u64;
                        let a = r.below(n + 1);
                        q.insert_range(Range { start: a.to_be_bytes().to_vec(), end: (a + 1 + r.below(n + 1)).to_be_bytes().to_vec() });
                        if let Some(x) = BulkAppendTreeProof::generate(&q, &bulk_of(*h, vals)).ok().and_then(|p| p.encode_to_vec().ok()) {
                            b = if let Some(Ct(_, _, s)) = l { [s.as_slice(), &x].concat() } else { x };
                        }
                    }
                    (2, _) => b.truncate(if r.chance(1, 2) { r.idx(b.len()) } else { b.len() - 1 }),
                    _ => { let i = r.idx(b.len()); b[i] ^= 1 << r.idx(8); }
                }
                at.part = Part::Raw(*k, b);
                "raw"
            }
            _ => "none",
        }
    }
}
// ----- the single-entry attacks of the model -----
/// an entry of a kind named by the model, with a Merk reading of a non-Merk layer where there is one
fn model_entry(r: &Rng, kind: &str) -> (Entry, Option<PL>) {
    let one = |c: bool| merk(r, vec![(vec![4], random_entry(r, 0, 0)), (vec![6], random_entry(r, 4, 0))], c);
    match kind {
        "item" => (Entry(Element::new_item(vec![1, 2]), None, None), None),
        "ref" => (Entry(ref_to(3), None, Some(Element::new_item(vec![5]))), None),
        "empty" => (Entry(Element::Tree(None, None), None, None), None),
        "emptysum" => (Entry(Element::SumTree(None, 0, None), None, None), None),
        "tree" => { let l = one(false); (Entry(Element::Tree(root_key(&l), None), Some(l), None), None) }
        "sumtree" => { let l = one(false); (Entry(Element::SumTree(root_key(&l), 5, None), Some(l), None), None) }
        "provcount" => { let l = one(true); (Entry(Element::ProvableCountTree(root_key(&l), 2, None), Some(l), None), None) }
        "mmr" => (random_entry(r, 17, 0), None),
        "bulk" => (random_entry(r, 18, 0), None),
        "ct" => (random_entry(r, 19, 0), None),
        // a single value that reads as the key and value hash of a key-value node
        _ => {
            let k = vec![4];
            let v = ser(&Element::new_item(vec![66]));
            let val = [varint(1), k.clone(), value_hash(&v).to_vec()].concat();
            let alien = PL { part: Part::Ops(vec![Op::Push(Node::KV(k, v))]), low: BTreeMap::new() };
            (Entry(Element::DenseAppendOnlyFixedSizeTree(1, 1, None), Some(Dense(1, vec![val])), None), Some(alien))
        }
    }
}
const FORMS: [&str; 8] = ["kv", "vh", "ft", "child", "ref", "kvcount", "refcount", "digest"];
fn model_case(r: &Rng, o: &mut Out, s: &Value) {
    let kind = s["kind"].as_str().unwrap();
    for counted in [false, true] {
        let (e, alien) = model_entry(r, kind);
        let (e2, _) = model_entry(r, "tree");
        let db0 = merk(r, vec![(vec![2], e), (vec![5], e2), (vec![1], Entry(Element::new_item(vec![3]), None, None))].into_iter().collect::<BTreeMap<_, _>>().into_iter().collect(), counted);
        // at the root, or one level down
        let db = if counted { let c = if let Merk { t: Some(t), .. } = &db0 { t.count } else { 0 };
            merk(r, vec![(vec![7], Entry(Element::ProvableCountTree(root_key(&db0), c, None), Some(db0), None))], false) } else { db0 };
        let base: Vec<Vec<u8>> = if counted { vec![vec![7]] } else { vec![] };
        let at = db.at(&base).unwrap();
        let Merk { t: Some(t), subs, .. } = at else { unreachable!() };
        let mut ns = vec![];
        t.nodes(&mut ns);
        let n = *ns.iter().find(|n| n.e.k == [2]).unwrap();
        let mut c = Case::new(o, &db);
        for on in [false, true] {
            for items in [vec![QueryItem::Key(vec![2])], vec![QueryItem::RangeFull(..)]] {
                for lim in [None, Some(1), Some(2), Some(9)] {
                    let mut q = Query::new();
                    q.items = items.clone();
                    if on {
                        let w = subs.get(&vec![2]).map_or(1, width);
                        let mut b = grovedb_query::SubqueryBranch::default();
                        let mut sub = Query::new();
                        match w { 1 => sub.insert_all(), _ => sub.insert_range_to_inclusive(..=(200u64.to_be_bytes()[8 - w..].to_vec())) }
                        b.subquery = Some(Box::new(sub));
                        q.conditional_subquery_branches.get_or_insert_default().insert(QueryItem::Key(vec![2]), b);
                    }
                    let pq = PathQuery::new(base.clone(), SizedQuery::new(q, lim, None));
                    let Some(p) = prove_db(&db, &pq) else { continue };
                    let own = p.clone().at_mut(&base).low.get(&vec![2]).cloned();
                    // the proof of the other answer, for its layer
                    let mut q2 = pq.clone();
                    q2.query.query.conditional_subquery_branches = None;
                    let mut all = Query::new();
                    all.insert_all();
                    q2.query.query.default_subquery_branch.subquery = Some(Box::new(all));
                    q2.query.query.items = vec![QueryItem::Key(vec![5])];
                    q2.query.limit = None;
                    let mut p2 = prove_db(&db, &q2);
                    let donor = p2.as_mut().and_then(|p| p.at_mut(&base).low.get(&vec![5]).cloned());
                    q2.query.query.items = vec![QueryItem::Key(vec![2])];
                    let own2 = subs.get(&vec![2]).filter(|l| width(l) == 1).and(prove_db(&db, &q2)).and_then(|mut p| p.at_mut(&base).low.get(&vec![2]).cloned());
                    for api in ["verify", "raw"] {
                        c.honest(o, api, &pq, &p.bytes());
                        for claim in s["claims"].as_array().unwrap() {
                            let claim = claim.as_str().unwrap();
                            let cs: Vals = match claim {
                                "true" => vec![n.e.v.clone()],
                                "res" => n.e.res.iter().cloned().collect(),
                                _ => lies(&el(&n.e.v)),
                            };
                            for v in cs {
                                for form in 0..FORMS.len() {
                                    for low in ["none", "own", "own2", "other", "alien"] {
                                        let mut f = p.clone();
                                        let x = f.at_mut(&base);
                                        let Part::Ops(ops) = &mut x.part else { continue };
                                        if !reshow(ops, n, show_as(n, &v, form, counted)) {
                                            continue;
                                        }
                                        x.low.remove(&vec![2]);
                                        let put = match low { "own" => &own, "own2" => &own2, "other" => &donor, "alien" => &alien, _ => &None };
                                        if let Some(y) = put {
                                            x.low.insert(vec![2], y.clone());
                                        } else if low != "none" {
                                            continue;
                                        }
                                        c.forged(o, api, &pq, &f.bytes(), &format!("{claim} {} {low}", FORMS[form]));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        o.end_case();
    }
}
/// trees in trees in trees
fn deep_case(r: &Rng, o: &mut Out, depth: usize) {
    let mut db = merk(r, vec![(vec![1], Entry(Element::new_item(vec![9]), None, None))], false);
    let mut path = vec![];
    for _ in 1..depth {
        let k = vec![1 + r.below(3) as u8];
        db = merk(r, vec![(k.clone(), Entry(Element::Tree(root_key(&db), None), Some(db), None))], false);
        path.insert(0, k);
    }
    let mut c = Case::new(o, &db);
    let below = path.split_off(path.len() - r.idx(8).min(path.len()));
    let mut q = Query::new();
    q.insert_all();
    if !below.is_empty() {
        let mut all = Query::new();
        all.insert_all();
        q.items = vec![QueryItem::Key(below[0].clone())];
        q.default_subquery_branch.subquery_path = (below.len() > 1).then(|| below[1..].to_vec());
        q.default_subquery_branch.subquery = Some(Box::new(all));
    }
    let pq = PathQuery::new(path, SizedQuery::new(q, None, None));
    let b = prove_db(&db, &pq).unwrap().bytes();
    for api in ["verify", "raw", "subset"] {
        c.honest(o, api, &pq, &b);
    }
    o.end_case();
}
pub fn run(a: &Args, o: &mut Out) {
    let r = Rng::new(a.seed ^ 0x27);
    for depth in [20, 63, 64, 65, 100, 127, 128] {
        deep_case(&r, o, depth);
    }
    for s in a.read_schedules() {
        model_case(&r, o, &s);
    }
    for _ in 0..a.n(120, 1500) {
        let n = 1 + r.idx(5);
        let db = layer(&r, 3, n, false);
        let other = layer(&r, 2, n, false);
        let mut pool = vec![];
        db.values(&mut pool);
        other.values(&mut pool);
        let w = World { r: &r, db: &db, other: &other, pool, keys: alpha() };
        let mut c = Case::new(o, &db);
        for _ in 0..a.n(8, 16) {
            let pq = path_query(&r, &db);
            let Some(p) = prove_db(&db, &pq) else { o.count("unprovable", 1); continue };
            let b = p.bytes();
            c.honest(o, "verify", &pq, &b);
            c.honest(o, "raw", &pq, &b);
            let info = !pq.query.query.has_subquery() && !pq.path.is_empty();
            if info {
                c.honest(o, "info", &pq, &b);
            }
            if pq.query.limit.is_some() {
                c.honest(o, "absence", &pq, &b);
            }
            // a layer nobody asked for
            let mut at = vec![];
            p.all(vec![], &mut at);
            let at: Vec<_> = at.into_iter().filter(|x| matches!(x.1.part, Part::Ops(_))).map(|x| x.0).collect();
            let mut f = p.clone();
            f.at_mut(r.pick(&at)).low.insert(r.bytes(5), p.clone());
            for api in if info { &["verify", "info", "raw", "subset"][..] } else { &["verify", "raw", "subset"] } {
                o.ev(with(json!({"e": "surplus", "api": api}), verify(api, &f.bytes(), &pq)));
            }
            // layers it does not ask for, true ones, with every small limit
            for lim in [None, Some(1), Some(2), Some(3), Some(4), Some(5), Some(6)] {
                let mut lq = pq.clone();
                lq.query.limit = lim;
                let Some(mut f) = prove_db(&db, &lq) else { continue };
                if fill(&r, &db, &mut f) {
                    for api in ["subset", "raw", "verify"] {
                        o.about(&json!({"forged": api, "pq": pq_json(&lq), "proof": hex(f.bytes())}));
                        c.forged(o, api, &lq, &f.bytes(), "filled");
                    }
                }
            }
            // bounds of other widths
            let oq = odd(&r, &pq);
            for api in ["verify", "subset", "raw"] {
                o.about(&json!({"forged": api, "pq": pq_json(&oq), "proof": hex(&b)}));
                c.forged(o, api, &oq, &b, "odd");
            }
            let nq = narrow(&r, &pq);
            let donor = prove_db(&db, &nq).unwrap_or_else(|| p.clone());
            let foreign = prove_db(w.other, &pq).unwrap_or_else(|| p.clone());
            for j in 0..a.n(150, 400) {
                let api = match r.idx(8) { 0 | 1 => "subset", 2 => "raw", 3 if pq.query.limit.is_some() => "absence", 4 if info => "info", _ => "verify" };
                if j == 0 {
                    c.forged(o, "subset", &nq, &b, "narrower");
                    c.forged(o, "raw", &nq, &b, "narrower");
                    c.forged(o, "subset", &pq, &donor.bytes(), "wider");
                    continue;
                }
                let mut f = if r.chance(1, 8) { donor.clone() } else { p.clone() };
                let mut how = vec![];
                for _ in 0..1 + r.idx(2) {
                    how.push(w.alter(&mut f, if r.chance(1, 4) { &foreign } else { &donor }));
                }
                let mut fb = f.bytes();
                if r.chance(1, 30) {
                    let i = r.idx(fb.len());
                    fb[i] ^= 1 << r.idx(8);
                }
                o.about(&json!({"forged": api, "pq": pq_json(&pq), "proof": hex(&fb)}));
                c.forged(o, api, &pq, &fb, &how.join("+"));
            }
            c.query(o, &pq);
        }
        o.end_case();
    }
}
// ----- what honest proofs show -----
fn upward(q: &mut Query) {
    q.left_to_right = true;
    let subs = q.conditional_subquery_branches.iter_mut().flat_map(|c| c.values_mut()).chain([&mut q.default_subquery_branch]);
    subs.filter_map(|b| b.subquery.as_mut()).for_each(|s| upward(s));
}
fn many(r: &Rng, o: &mut Out, db: &L) {
    let v = GroveVersion::latest();
    let n = *r.pick(&[1usize, 2, 2, 3]);
    let up = r.chance(4, 5);
    let pqs: Vec<PathQuery> = (0..n)
        .map(|_| {
            let mut pq = path_query(r, db);
            pq.query.limit = None;
            if up {
                upward(&mut pq.query.query);
            }
            pq
        })
        .collect();
    let Ok(Ok(m)) = guard(|| PathQuery::merge(pqs.iter().collect(), v)) else { return };
    let Some(p) = prove_db(db, &m) else { return o.count("unprovable", 1) };
    let b = p.bytes();
    o.about(&json!({"many": pqs.iter().map(pq_json).collect::<Vec<_>>(), "proof": hex(&b)}));
    let subs: Vec<Value> = pqs.iter().map(|q| verify("subset", &b, q)).collect();
    let args = std::cell::RefCell::new(vec![]);
    let next: Vec<_> = (1..n).map(|i| { let (args, q) = (&args, &pqs[i]); move |x| { args.borrow_mut().push(trio(x)); Some(q.clone()) } }).collect();
    let all = guard(std::panic::AssertUnwindSafe(|| GroveDb::verify_query_with_chained_path_queries(&b, &pqs[0], next, v)));
    let chain = outcome(all, |(h, sets)| json!({"root": hex(h), "sets": sets.into_iter().map(trio).collect::<Vec<_>>()}));
    let none = outcome(guard(|| GroveDb::verify_query_with_chained_path_queries(&b, &pqs[0], vec![|_| None], v)), |_| json!({}));
    o.ev(json!({"e": "many", "pqs": pqs.iter().map(pq_json).collect::<Vec<_>>(), "merged": pq_json(&m),
        "subs": subs, "chain": chain, "args": *args.borrow(), "none": none["st"]}));
}
pub fn provable(a: &Args, o: &mut Out) {
    let r = Rng::new(a.seed ^ 0x26);
    for _ in 0..a.n(250, 3000) {
        let n = 1 + r.idx(6);
        let db = layer(&r, 3, n, false);
        let mut c = Case::new(o, &db);
        for _ in 0..6 {
            let pq = path_query(&r, &db);
            let Some(p) = prove_db(&db, &pq) else { o.count("unprovable", 1); continue };
            let b = p.bytes();
            for api in ["verify", "raw", "subset"] {
                c.honest(o, api, &pq, &b);
            }
            if !pq.query.query.has_subquery() && !pq.path.is_empty() {
                c.honest(o, "info", &pq, &b);
                c.honest(o, "subinfo", &pq, &b);
            }
            if pq.query.limit.is_some() {
                c.honest(o, "absence", &pq, &b);
                c.honest(o, "subabs", &pq, &b);
            }
        }
        for _ in 0..6 {
            many(&r, o, &db);
        }
        o.end_case();
    }
}
