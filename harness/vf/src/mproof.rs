//! Proofs of queries over one key-value tree.
use std::collections::HashSet;

use grovedb_element::{Element, reference_path::ReferencePathType};
use grovedb_merk::proofs::query::{QueryProofVerify, boundaries_in_proof, key_exists_as_boundary_in_proof};
use grovedb_query::{
    Query, QueryItem,
    proofs::{Node, Op},
};
use grovedb_version::version::GroveVersion;
use vh_common::*;

use crate::{ptree::*, q::*, wire::op_json};

pub fn run_verify(bytes: &[u8], q: &Query, lim: Option<u16>, left: bool) -> Value {
    outcome(guard(|| q.execute_proof(bytes, lim, left, 1).value), |(root, v)| {
        json!({"root": hex(root), "lim": v.limit.iter().collect::<Vec<_>>(),
            "set": v.result_set.iter().map(|p| json!([hex(&p.key), hex(p.value.clone().unwrap_or_default()), hex(p.proof), p.child_hash_verified])).collect::<Vec<_>>()})
    })
}
fn value(r: &Rng, k: usize) -> (Vec<u8>, Option<Hash>, Option<Vec<u8>>) {
    let v = GroveVersion::latest();
    let s = |e: Element| e.serialize(v).unwrap();
    let h32 = |r: &Rng| -> Hash { r.bytes(32).try_into().unwrap() };
    match k {
        0 | 1 => { let n = 1 + r.idx(4); (s(Element::new_item(r.bytes(n))), None, None) }
        2 => (s(Element::new_sum_item(r.idx(9) as i64)), None, None),
        3 => {
            let res = s(Element::new_item(r.bytes(3)));
            let f = s(Element::new_reference(ReferencePathType::AbsolutePathReference(vec![vec![1], r.bytes(2)])));
            (f, Some(value_hash(&res)), Some(res))
        }
        4 => (s(Element::new_tree(Some(r.bytes(1)))), Some(h32(r)), None),
        5 => (s(Element::empty_tree()), Some(NULL), None),
        6 => (s(Element::new_sum_tree_with_flags_and_sum_value(Some(r.bytes(1)), 7, None)), Some(h32(r)), None),
        7 => (s(Element::new_item_with_sum_item(r.bytes(2), 4)), None, None),
        _ => (r.bytes(1 + r.idx(3)).into_iter().map(|b| b | 0x80).collect(), None, None),
    }
}
pub struct Case<'a> {
    pub t: &'a PT,
    pub counted: bool,
    pub keys: Vec<Vec<u8>>,
    pub pool: Vec<Vec<u8>>,
    seen: HashSet<String>,
}
impl Case<'_> {
    pub fn honest(&mut self, o: &mut Out, items: &[QueryItem], lim: Option<u16>, left: bool, bytes: &[u8]) -> bool {
        let q = query_of(items.to_vec(), left);
        o.about(&json!({"verify": items_json(items), "proof": hex(bytes)}));
        let x = run_verify(bytes, &q, lim, left);
        let ok = x["st"] == "ok";
        let e = with(json!({"e": "honest", "items": items_json(items), "lim": lim.iter().collect::<Vec<_>>(), "left": left}), x);
        self.seen.insert(format!("{} {} {} {}", e["items"], e["lim"], left, e["v"]));
        o.ev(e);
        ok
    }
    /// a proof of unknown provenance; recorded when it verifies to the true root (each outcome once)
    pub fn forged(&mut self, o: &mut Out, items: &[QueryItem], lim: Option<u16>, left: bool, ops: &[Op], bytes: &[u8]) {
        let q = query_of(items.to_vec(), left);
        o.count("forged proofs tried", 1);
        let x = run_verify(bytes, &q, lim, left);
        if x["st"] == "err" || (x["st"] == "ok" && x["v"]["root"] != hex(self.t.hash)) {
            return;
        }
        o.count("forged proofs with the true root", 1);
        let e = with(json!({"e": "forged", "items": items_json(items), "lim": lim.iter().collect::<Vec<_>>(), "left": left}), x);
        if self.seen.insert(format!("{} {} {} {}", e["items"], e["lim"], left, e["v"])) {
            o.ev(with(e, json!({"ops": ops.iter().map(op_json).collect::<Vec<_>>()})));
        }
    }
}
fn bounds(o: &mut Out, ops: &[Op], probe: &[Vec<u8>]) {
    let b = encode(ops);
    let mut keys = vec![];
    for op in ops {
        if let Op::Push(n) | Op::PushInverted(n) = op
            && let Node::KVDigest(k, _) | Node::KVDigestCount(k, ..) = n
        {
            keys.push(hex(k));
        }
    }
    let p2 = probe.to_vec();
    let x = guard(move || {
        let k = boundaries_in_proof(&b)?;
        let e = p2.iter().map(|k| key_exists_as_boundary_in_proof(&b, k)).collect::<Result<Vec<_>, _>>()?;
        Ok::<_, grovedb_merk::error::Error>(json!({"keys": k.iter().map(hex).collect::<Vec<_>>(), "exists": e}))
    });
    o.ev(with(json!({"e": "bounds", "keys": keys, "probe": probe.iter().map(hex).collect::<Vec<_>>()}), outcome(x, |v| v)));
}
/// keys of the alphabet: 10, 20, ... with gaps, and some longer ones
pub fn alphabet() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = (1..10).map(|i| vec![i * 10]).collect();
    v.extend([vec![20, 0], vec![20, 1], vec![30, 255], vec![5], vec![95], vec![15], vec![35], vec![65]]);
    v.sort();
    v
}
pub fn items(r: &Rng, alpha: &[Vec<u8>]) -> Vec<QueryItem> {
    let g = QGen { r, alpha: alpha.to_vec(), bounded: false, overlapping_conds: false, up: r.chance(1, 2) };
    let mut v: Vec<QueryItem> = vec![];
    for _ in 0..1 + r.idx(3) {
        let i = g.item();
        if v.iter().all(|j| !i.collides_with(j)) {
            v.push(i);
        }
    }
    v.sort();
    v
}
/// a tree given by the model: nested [key, left, right] with entries of the given kinds
fn model_tree(v: &Value, counted: bool, r: &Rng, kind: usize) -> Box<PT> {
    let (val, sup, res) = value(r, kind);
    let e = Ent { k: vec![v["k"].as_u64().unwrap() as u8], v: val, sup, res, own: 1 };
    let c = |f: &str| v[f].as_array().unwrap().first().map(|x| model_tree(x, counted, r, kind));
    Box::new(PT::join(e, c("l"), c("r"), counted))
}
fn model_ops(s: &Value, t: &PT, counted: bool) -> Vec<Op> {
    let mut ns = vec![];
    t.nodes(&mut ns);
    s["ops"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| {
            let k = x["k"].as_u64().unwrap_or(0) as u8;
            let n = ns.iter().find(|n| n.e.k == [k]);
            let node = match x["n"].as_str().unwrap() {
                "" => None,
                "fake" => Some(if counted { Node::KVCount(vec![k], vec![0, 1, 7, 0], 1) } else { Node::KV(vec![k], vec![0, 1, 7, 0]) }),
                "hash" => Some(Node::Hash(n.unwrap().hash)),
                "kvhash" => Some(n.unwrap().hidden(counted)),
                "digest" => Some(n.unwrap().digest(counted)),
                _ => Some(n.unwrap().shown(counted, 1)),
            };
            match (x["o"].as_str().unwrap(), node) {
                ("push", Some(n)) => Op::Push(n),
                ("pushinv", Some(n)) => Op::PushInverted(n),
                ("parent", _) => Op::Parent,
                ("child", _) => Op::Child,
                ("parentinv", _) => Op::ParentInverted,
                _ => Op::ChildInverted,
            }
        })
        .collect()
}
pub fn run(a: &Args, o: &mut Out) {
    let r = Rng::new(a.seed);
    // every assembly the model's attacker reaches, against every small query
    let mut shapes: Vec<(Value, Vec<Value>)> = vec![];
    for s in a.read_schedules() {
        match shapes.iter_mut().find(|x| x.0 == s["tree"]) {
            Some(x) => x.1.push(s),
            None => shapes.push((s["tree"].clone(), vec![s])),
        }
    }
    for (tree, ss) in &shapes {
        for counted in [false, true] {
            let t = model_tree(tree, counted, &r, if counted { 7 } else { 0 });
            o.ev(json!({"e": "new", "tree": [t.json()], "counted": counted, "root": hex(t.hash)}));
            let mut c = Case { t: &t, counted, keys: vec![], pool: vec![], seen: Default::default() };
            let mut its: Vec<Vec<QueryItem>> = [5u8, 10, 15, 20, 25, 30, 35].iter().map(|k| vec![QueryItem::Key(vec![*k])]).collect();
            its.push(vec![QueryItem::RangeFull(..)]);
            its.push(vec![QueryItem::RangeFrom(vec![20]..)]);
            its.push(vec![QueryItem::RangeAfter(vec![10]..)]);
            its.push(vec![QueryItem::RangeTo(..vec![30])]);
            its.push(vec![QueryItem::Range(vec![10]..vec![30])]);
            its.push(vec![QueryItem::Key(vec![10]), QueryItem::Key(vec![30])]);
            its.push(vec![QueryItem::Key(vec![5]), QueryItem::RangeInclusive(vec![20]..=vec![30])]);
            for s in ss {
                let ops = model_ops(s, &t, counted);
                let b = encode(&ops);
                for i in &its {
                    for left in [true, false] {
                        for lim in [None, Some(1)] {
                            c.forged(o, i, lim, left, &ops, &b);
                        }
                    }
                }
            }
            o.end_case();
        }
    }
    let alpha = alphabet();
    let probes: Vec<Vec<u8>> = { let mut v = alpha.clone(); v.extend([vec![], vec![0], vec![255], vec![20, 0, 0], vec![71], vec![99]]); v };
    for case in 0..a.n(70, 700) {
        let counted = case % 3 == 2;
        let mut es: Vec<Ent> = vec![];
        let n = 1 + r.idx(if case % 7 == 0 { 14 } else { 6 });
        let kinds: &[usize] = if counted { &[0, 2, 3, 4, 7] } else { &[0, 1, 2, 3, 4, 5, 6, 7, 8] };
        let mut ks = alpha.clone();
        r.shuffle(&mut ks);
        ks.truncate(n);
        ks.sort();
        for k in ks {
            let (v, sup, res) = value(&r, *r.pick(kinds));
            es.push(Ent { k, v, sup, res, own: 1 });
        }
        let t = build(&r, &es, counted).unwrap();
        let other = build(&r, &es, counted).unwrap();
        o.ev(json!({"e": "new", "tree": [t.json()], "counted": counted, "root": hex(t.hash)}));
        let mut pool: Vec<Vec<u8>> = es.iter().map(|e| e.v.clone()).collect();
        pool.extend((0..8).map(|k| value(&r, k).0));
        pool.extend(es.iter().filter_map(|e| e.res.clone()));
        let mut c = Case { t: &t, counted, keys: probes.clone(), pool, seen: Default::default() };
        for _ in 0..a.n(14, 30) {
            let its = items(&r, &probes);
            let left = r.chance(1, 2);
            let lim = *r.pick(&[None, None, Some(1), Some(2), Some(3), Some(100)]);
            let rv = reveal(&t, &its, lim, left);
            let ops = prove(&t, &rv, left, counted, r.idx(6), true);
            c.honest(o, &its, lim, left, &encode(&ops));
            if r.chance(1, 4) {
                let p: Vec<Vec<u8>> = (0..3).map(|_| r.pick(&probes).clone()).collect();
                bounds(o, &ops, &p);
            }
            // the same nodes shown by proofs of other queries and by another tree of the same entries
            let rv2 = reveal(&other, &its, lim, left);
            let oops = prove(&other, &rv2, left, counted, r.idx(6), true);
            let any: Vec<u8> = (0..es.len()).map(|_| r.idx(3) as u8).collect();
            let other_q = prove(&t, &any, r.chance(1, 2), counted, r.idx(6), true);
            for j in 0..a.n(120, 500) {
                let f = Forger {
                    r: &r,
                    counted,
                    orient: if r.chance(1, 2) { !left as usize } else { r.idx(3) },
                    hide: *r.pick(&[10, 25, 50]),
                    junk: *r.pick(&[0, 0, 30]),
                    lie: *r.pick(&[0, 10, 30]),
                    inverted: *r.pick(&[0, 20, 50]),
                    pool: &c.pool.clone(),
                    keys: &c.keys.clone(),
                };
                let fo = match j % 8 {
                    0 => other_q.clone(),
                    1 | 2 => f.mutate(&ops, if j % 2 == 0 { &oops } else { &other_q }),
                    3 => f.mutate(&other_q, &ops),
                    _ => f.term(&t),
                };
                let mut b = encode(&fo);
                if j % 30 == 29 {
                    b = encode(&ops);
                    let i = r.idx(b.len());
                    b[i] ^= 1 << r.idx(8);
                }
                let (l2, left2) = if r.chance(3, 4) { (lim, left) } else { (*r.pick(&[None, Some(1), Some(2)]), r.chance(1, 2)) };
                c.forged(o, &its, l2, left2, &fo, &b);
            }
        }
        o.end_case();
    }
}
