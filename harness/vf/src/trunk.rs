//! Trunk and branch proofs of counted trees: the top of a tree, and the subtrees below its boundary keys.
use grovedb::{GroveDb, PathBranchChunkQuery, PathTrunkChunkQuery};
use grovedb_element::Element;
use grovedb_merk::{BranchQueryResult, TrunkQueryResult, calculate_chunk_depths, calculate_chunk_depths_with_minimum, calculate_max_tree_depth_from_count};
use grovedb_query::{
    QueryItem,
    proofs::{Node, Op},
};
use grovedb_version::version::GroveVersion;
use std::collections::{BTreeMap, HashSet};
use vh_common::*;

use crate::{
    grove::{Entry, L, PL, Part, lies, merk, ref_to, ser, show_as, tree_element},
    ptree::*,
};

/// The operations that show a tree down to a depth.
fn chunk(t: &PT, depth: usize, counted: bool, style: usize) -> Vec<Op> {
    if depth == 0 {
        return vec![Op::Push(Node::Hash(t.hash))];
    }
    let mut v = vec![];
    if let Some(l) = &t.l {
        v.extend(chunk(l, depth - 1, counted, style));
    }
    v.push(Op::Push(show_chunk(t, counted, style)));
    if t.l.is_some() {
        v.push(Op::Parent);
    }
    if let Some(r) = &t.r {
        v.extend(chunk(r, depth - 1, counted, style));
        v.push(Op::Child);
    }
    v
}
fn show_chunk(t: &PT, counted: bool, style: usize) -> Node {
    show_as(t, &t.e.v, match (&t.e.sup, counted) { (None, false) => 0, (None, true) => 5, (_, _) if style == 1 => 3, (_, false) => 1, _ => 2 }, counted)
}
struct World {
    /// the trees down the path, and whether each is counted; the last is the target
    layers: Vec<(Option<Box<PT>>, bool)>,
    path: Vec<Vec<u8>>,
    kind: usize,
    root: Hash,
}
fn merk_of(l: &L) -> (Option<Box<PT>>, bool) {
    match l {
        L::Merk { t, counted, .. } => (t.clone(), *counted),
        _ => unreachable!(),
    }
}
fn value(r: &Rng, kind: usize) -> Entry {
    value_at(r, kind, r.idx(9))
}
fn value_at(r: &Rng, kind: usize, how: usize) -> Entry {
    match how {
        0 => { let k = r.idx(7); Entry(tree_element(k, None, 0, 0), None, None) }
        1 => { let k = r.idx(5); let n = 1 + r.idx(3); let l = small(r, n); let c = merk_of(&l).0.map_or(0, |t| t.count); Entry(tree_element(k, merk_of(&l).0.map(|t| t.e.k.clone()), c, 3), Some(l), None) }
        2 if kind == 4 || kind == 6 => Entry(Element::new_sum_item(r.idx(50) as i64 - 20), None, None),
        3 => Entry(Element::new_item_with_flags(r.bytes(1), Some(r.bytes(2))), None, None),
        4 => Entry(Element::new_item_with_sum_item(r.bytes(1), 5), None, None),
        _ => { let n = r.idx(4); Entry(Element::new_item(r.bytes(n)), None, None) }
    }
}
fn small(r: &Rng, n: usize) -> L {
    merk(r, (0..n as u8).map(|i| (vec![i + 1], Entry(Element::new_item(r.bytes(1)), None, None))).collect(), false)
}
fn keys(r: &Rng, n: usize) -> Vec<Vec<u8>> {
    let mut s = std::collections::BTreeSet::new();
    while s.len() < n {
        let l = if r.chance(1, 30) { 0 } else { 1 + r.idx(2) };
        s.insert(r.bytes(l));
    }
    s.into_iter().collect()
}
/// wrap a target layer into parents
fn world(r: &Rng, kind: usize, target: L, len: usize) -> World {
    let mut layers = vec![merk_of(&target)];
    let mut path = vec![];
    let mut low = target;
    let mut k = kind;
    for i in 0..len {
        let n = r.idx(5);
        let mut ks = keys(r, n + 1);
        r.shuffle(&mut ks);
        let at = ks[0].clone();
        ks.sort();
        let c = merk_of(&low).0.as_ref().map_or(0, |t| t.count);
        let rk = merk_of(&low).0.as_ref().map(|t| t.e.k.clone());
        let el = tree_element(k, rk, c, r.idx(9) as i64);
        let mut mine = Some(low.clone());
        let counted = r.chance(1, 4) && i + 1 < len;
        k = if counted { 5 + r.idx(2) } else { r.idx(5) };
        if i + 1 == len { k = 0 }
        low = merk(r, ks.into_iter().map(|x| if x == at { (x, Entry(el.clone(), mine.take(), None)) } else { (x, value(r, 3)) }).collect(), counted);
        layers.insert(0, merk_of(&low));
        path.insert(0, at);
    }
    let root = low.hash();
    World { layers, path, kind, root }
}
impl World {
    fn target(&self) -> (&Option<Box<PT>>, bool) {
        let x = self.layers.last().unwrap();
        (&x.0, x.1)
    }
    fn json(&self) -> Value {
        json!({"layers": self.layers.iter().map(|(t, c)| json!({"tree": t.iter().map(|t| t.json()).collect::<Vec<_>>(), "counted": c})).collect::<Vec<_>>(),
            "path": self.path.iter().map(hex).collect::<Vec<_>>(), "prov": self.kind >= 5})
    }
    fn parents(&self, show: &dyn Fn(usize, &PT) -> Node) -> Vec<Vec<Op>> {
        self.path.iter().enumerate().map(|(i, k)| {
            let (t, c) = &self.layers[i];
            let t = t.as_ref().unwrap();
            let rv = reveal(t, &[QueryItem::Key(k.clone())], None, true);
            prove_with(t, &rv, true, *c, &|n| show(i, n), true)
        }).collect()
    }
    fn honest_parents(&self, style: usize) -> Vec<Vec<Op>> {
        self.parents(&|i, n| show_as(n, &n.e.v, match (&n.e.sup, self.layers[i].1) { (None, false) => 0, (None, true) => 5, _ if style == 1 => 3, (_, false) => 1, _ => 2 }, self.layers[i].1))
    }
    fn proof(&self, parents: &[Vec<Op>], part: Part) -> PL {
        let mut p = PL { part, low: BTreeMap::new() };
        for (ops, k) in parents.iter().zip(&self.path).rev() {
            p = PL { part: Part::Ops(ops.clone()), low: BTreeMap::from([(k.clone(), p)]) };
        }
        p
    }
}
fn els(m: &BTreeMap<Vec<u8>, Element>) -> Value {
    json!(m.iter().map(|(k, e)| json!([hex(k), hex(ser(e))])).collect::<Vec<_>>())
}
macro_rules! result_json {
    ($x:expr, $probes:expr, $mins:expr) => {{
        let x = &$x;
        let info = |i: &grovedb::LeafInfo| json!({"h": hex(i.hash), "n": i.count.iter().map(|c| c.to_string()).collect::<Vec<_>>()});
        json!({"els": els(&x.elements), "leaf": x.leaf_keys.iter().map(|(k, i)| json!([hex(k), info(i)])).collect::<Vec<_>>(),
            "trace": $probes.iter().map(|k: &Vec<u8>| json!([hex(k), x.trace_key_to_leaf(k).iter().map(|(k, i)| json!([hex(k), info(i)])).collect::<Vec<_>>()])).collect::<Vec<_>>(),
            "anc": $probes.iter().flat_map(|k: &Vec<u8>| $mins.iter().map(|m: &u64| json!([hex(k), m.to_string(),
                x.get_ancestor(k, *m).iter().map(|(u, c, k, h)| json!([u, c.to_string(), hex(k), hex(h)])).collect::<Vec<_>>()])).collect::<Vec<_>>()).collect::<Vec<_>>()})
    }};
}
fn trunk(w: &World, q: &PathTrunkChunkQuery, b: &[u8], probes: &[Vec<u8>], mins: &[u64]) -> Value {
    let _ = w;
    outcome(guard(|| GroveDb::verify_trunk_chunk_proof(b, q, GroveVersion::latest())), |(h, x)| {
        let mut j = result_json!(x, probes, mins);
        j["root"] = json!(hex(h));
        j["depths"] = json!(x.chunk_depths);
        j["max"] = json!(x.max_tree_depth);
        j
    })
}
fn branch(q: &PathBranchChunkQuery, want: Hash, b: &[u8], probes: &[Vec<u8>], mins: &[u64]) -> Value {
    outcome(guard(|| GroveDb::verify_branch_chunk_proof(b, q, want, GroveVersion::latest())), |x| {
        let mut j = result_json!(x, probes, mins);
        j["root"] = json!(hex(x.branch_root_hash));
        j
    })
}
fn probes(r: &Rng, w: &World) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut ns = vec![];
    if let Some(t) = w.target().0 {
        t.nodes(&mut ns);
    }
    for _ in 0..4 {
        if !ns.is_empty() {
            let mut k = r.pick(&ns).e.k.clone();
            if r.chance(1, 4) { k.push(0) }
            v.push(k);
        }
    }
    let n = r.idx(3);
    v.push(r.bytes(n));
    v
}
fn find<'a>(t: &'a PT, k: &[u8]) -> Option<&'a PT> {
    match k.cmp(&t.e.k) {
        std::cmp::Ordering::Equal => Some(t),
        std::cmp::Ordering::Less => t.l.as_ref().and_then(|x| find(x, k)),
        _ => t.r.as_ref().and_then(|x| find(x, k)),
    }
}
fn boundary<'a>(t: &'a PT, depth: usize, out: &mut Vec<&'a PT>) {
    if depth == 1 && (t.l.is_some() || t.r.is_some()) {
        out.push(t)
    } else if depth > 1 {
        t.l.iter().for_each(|x| boundary(x, depth - 1, out));
        t.r.iter().for_each(|x| boundary(x, depth - 1, out));
    }
}
fn depths(w: &World, q: &PathTrunkChunkQuery) -> usize {
    let Some(t) = w.target().0 else { return 0 };
    let td = calculate_max_tree_depth_from_count(t.count);
    let d = match q.min_depth {
        Some(m) if w.kind >= 5 => calculate_chunk_depths_with_minimum(td, q.max_depth, m),
        _ => calculate_chunk_depths(td, q.max_depth),
    };
    d.map_or(0, |d| d[0] as usize)
}
/// a value claimed to be a tree next to the entry's true value hash (a known weakness)
fn known_swap(ops: &[Op], t: &PT) -> bool {
    ops.iter().any(|o| match o {
        Op::Push(Node::KVValueHash(k, v, vh)) | Op::PushInverted(Node::KVValueHash(k, v, vh)) | Op::Push(Node::KVValueHashFeatureType(k, v, vh, _)) | Op::PushInverted(Node::KVValueHashFeatureType(k, v, vh, _)) =>
            find(t, k).is_some_and(|n| n.e.vh() == *vh && n.e.v != *v) && Element::deserialize(v, GroveVersion::latest()).is_ok_and(|e| e.is_any_tree()),
        _ => false,
    })
}
fn lie_pool(t: &PT) -> Vec<Vec<u8>> {
    let mut ns = vec![];
    t.nodes(&mut ns);
    let mut v: Vec<Vec<u8>> = lies(&Element::new_item(vec![1])).into_iter().collect();
    v.extend(ns.iter().map(|n| n.e.v.clone()));
    v
}
fn alter(r: &Rng, t: &PT, counted: bool, depth: usize) -> Vec<Op> {
    let mut ns = vec![];
    t.nodes(&mut ns);
    let pool = lie_pool(t);
    let ks: Vec<Vec<u8>> = ns.iter().map(|n| n.e.k.clone()).collect();
    if r.chance(1, 3) {
        return Forger { r, counted, orient: r.idx(3), hide: 15, junk: 20, lie: 20, inverted: 10, pool: &pool, keys: &ks }.term(t);
    }
    let mut ops = if r.chance(1, 2) { chunk(t, depth, counted, r.idx(2)) } else { ragged(r, t, counted) };
    for _ in 0..1 + r.idx(2) {
        let i = r.idx(ops.len());
        match r.idx(8) {
            0 => { let n = *r.pick(&ns); let (v, f) = (r.pick(&pool).clone(), r.idx(9)); let to = show_as(n, &v, f, counted); reshow_all(&mut ops, n, to) }
            1 => { let n = *r.pick(&ns); let f = r.idx(9); let to = show_as(n, &n.e.v, f, counted); reshow_all(&mut ops, n, to) }
            2 => { ops.remove(i); }
            3 => { let j = r.idx(ops.len()); ops.swap(i, j) }
            4 => { let x = ops[i].clone(); ops.insert(i, x) }
            5 => { ops.insert(i, Op::Push(Node::Hash(NULL))); ops.insert((i + 1).min(ops.len()), if r.chance(1, 2) { Op::Child } else { Op::Parent }) }
            6 => ops[i] = Op::Push(show_chunk(*r.pick(&ns), counted, 0)),
            _ => ops[i] = r.pick(&[Op::Child, Op::Parent, Op::ChildInverted, Op::ParentInverted]).clone(),
        }
        if ops.is_empty() { break }
    }
    ops
}
fn reshow_all(ops: &mut [Op], n: &PT, to: Node) {
    crate::grove::reshow(ops, n, to);
}
/// every branch cut at its own depth
fn ragged(r: &Rng, t: &PT, counted: bool) -> Vec<Op> {
    let mut v = vec![];
    let cut = |c: &PT| if r.chance(1, 3) { vec![Op::Push(Node::Hash(c.hash))] } else { ragged(r, c, counted) };
    if let Some(l) = &t.l { v.extend(cut(l)) }
    v.push(Op::Push(show_chunk(t, counted, r.idx(2))));
    if t.l.is_some() { v.push(Op::Parent) }
    if let Some(x) = &t.r { v.extend(cut(x)); v.push(Op::Child) }
    v
}
fn merk_level(o: &mut Out, r: &Rng, w: &World, depth: usize) {
    let Some(t) = w.target().0 else { return };
    let at = if r.chance(1, 2) { depth } else { 1 + r.idx(t.height) };
    let proof = chunk(t, at, w.target().1, 0);
    let claim = if r.chance(1, 2) { at } else { 1 + r.idx(t.height + 1) };
    let ps = probes(r, w);
    let x = TrunkQueryResult { proof: proof.clone(), chunk_depths: vec![claim as u8], tree_depth: t.height as u8 };
    let mut ns = vec![];
    t.nodes(&mut ns);
    let n = *r.pick(&ns);
    let bd = 1 + r.idx(n.height);
    let b = BranchQueryResult { proof: chunk(n, bd, w.target().1, 0), branch_root_key: n.e.k.clone(), returned_depth: bd as u8, branch_root_hash: n.hash };
    let tr = |f: &dyn Fn(&[u8]) -> Option<Vec<u8>>| json!(ps.iter().map(|k| json!([hex(k), f(k).iter().map(hex).collect::<Vec<_>>()])).collect::<Vec<_>>());
    let v = outcome(guard(|| Ok::<_, String>(json!({"keys": x.terminal_node_keys().iter().map(hex).collect::<Vec<_>>(), "trace": tr(&|k| x.trace_key_to_terminal(k)),
        "ok": x.verify_terminal_nodes_at_expected_depth().is_ok(), "branch": tr(&|k| b.trace_key_to_terminal(k))}))), |v| v);
    o.ev(with(json!({"e": "merk", "at": at, "claim": claim, "key": hex(&n.e.k), "bd": bd}), v));
}
fn case(o: &mut Out, r: &Rng, w: &World, qs: &[PathTrunkChunkQuery], forge: usize) {
    o.ev(json!({"e": "new", "db": w.json(), "root": hex(w.root)}));
    let (t, counted) = w.target();
    for q in qs {
        let d = depths(w, q);
        let ps = probes(r, w);
        let mins = [0, r.below(8), 40];
        let qj = json!({"path": q.path.iter().map(hex).collect::<Vec<_>>(), "max": q.max_depth, "min": q.min_depth.iter().collect::<Vec<_>>()});
        let style = r.idx(2);
        let parents = w.honest_parents(style);
        let part = match t { Some(t) => Part::Ops(chunk(t, d, counted, r.idx(2))), None => Part::Raw(0, vec![]) };
        let b = w.proof(&parents, part).bytes();
        o.about(&json!({"trunk": qj, "proof": hex(&b)}));
        o.ev(with(json!({"e": "trunk", "q": qj, "honest": true}), trunk(w, q, &b, &ps, &mins)));
        if d > 0 { merk_level(o, r, w, d) }
        let mut seen = HashSet::new();
        for i in 0..forge {
            let mut style = "target";
            let mut parents = parents.clone();
            let part = match t {
                Some(t) => {
                    let mut ops = if r.chance(1, 5) { chunk(t, d, counted, 0) } else { alter(r, t, counted, d) };
                    if r.chance(1, 20) { ops.clear() }
                    if known_swap(&ops, t) { continue }
                    Part::Ops(ops)
                }
                None => if r.chance(1, 2) { Part::Raw(0, vec![]) } else { Part::Ops(vec![Op::Push(Node::Hash(NULL))]) },
            };
            if i % 3 == 0 {
                // lie about an element on the path
                style = "parent";
                let at = r.idx(w.path.len());
                let form = r.idx(9);
                parents = w.parents(&|j, n| {
                    if j == at && n.e.k == w.path[at] {
                        let e = Element::deserialize(&n.e.v, GroveVersion::latest()).unwrap();
                        let mut ls = lies(&e);
                        ls.push(n.e.v.clone());
                        show_as(n, &r.pick(&ls).clone(), form, w.layers[j].1)
                    } else {
                        show_as(n, &n.e.v, match (&n.e.sup, w.layers[j].1) { (None, false) => 0, (None, true) => 5, (_, false) => 1, _ => 2 }, w.layers[j].1)
                    }
                });
            }
            let mut pl = w.proof(&parents, part);
            if r.chance(1, 12) {
                // the wrong layer
                let k = w.path[0].clone();
                let l = pl.low.get(&k).cloned();
                if let (Some(l), true) = (l, r.chance(1, 2)) { pl.part = l.part.clone() } else { pl.low.clear() }
            }
            let mut b = pl.bytes();
            if r.chance(1, 15) { b.push(0) }
            let mut fq = q.clone();
            if r.chance(1, 10) { fq.max_depth = 1 + r.idx(5) as u8 }
            if style == "target" && r.chance(1, 20) { fq.path.pop(); }
            o.count("forged proofs tried", 1);
            let x = trunk(w, &fq, &b, &ps[..1], &[]);
            if x["st"] == "err" || (x["st"] == "ok" && x["v"]["root"] != hex(w.root)) { continue }
            o.count("forged proofs with the true root", 1);
            let fj = json!({"path": fq.path.iter().map(hex).collect::<Vec<_>>(), "max": fq.max_depth, "min": fq.min_depth.iter().collect::<Vec<_>>()});
            if seen.insert(x["v"].to_string()) {
                o.ev(with(json!({"e": "trunk", "q": fj, "honest": false, "how": style, "proof": hex(b)}), x));
            }
        }
        // the branches below the boundary
        let Some(t) = t else { continue };
        let mut bs = vec![];
        boundary(t, d, &mut bs);
        bs.push(t);
        for n in bs.iter().take(6) {
            let depth = 1 + r.idx(4);
            let bq = PathBranchChunkQuery::new(w.path.clone(), n.e.k.clone(), depth as u8);
            let qj = json!({"key": hex(&n.e.k), "depth": depth});
            let ps: Vec<Vec<u8>> = { let mut v = probes(r, w); let mut ns = vec![]; n.nodes(&mut ns); v.push(r.pick(&ns).e.k.clone()); v };
            let b = encode(&chunk(n, depth, counted, r.idx(2)));
            o.about(&json!({"branch": qj, "proof": hex(&b)}));
            o.ev(with(json!({"e": "branch", "q": qj, "honest": true, "want": hex(n.hash)}), branch(&bq, n.hash, &b, &ps, &mins)));
            let other = r.bytes(32).try_into().unwrap();
            o.ev(with(json!({"e": "branch", "q": qj, "honest": false, "want": hex(other)}), branch(&bq, other, &b, &ps, &mins)));
            let mut seen = HashSet::new();
            for _ in 0..forge {
                let ops = alter(r, n, counted, depth);
                if known_swap(&ops, t) { continue }
                let mut b = encode(&ops);
                if r.chance(1, 15) { b.push(0x10) }
                o.count("forged proofs tried", 1);
                let x = branch(&bq, n.hash, &b, &[], &[]);
                if x["st"] == "err" { continue }
                if seen.insert(x["v"].to_string()) {
                    o.ev(with(json!({"e": "branch", "q": qj, "honest": false, "want": hex(n.hash), "proof": hex(b)}), x));
                }
            }
        }
    }
    o.end_case();
}
/// everything asked about every key of a trunk and of the branches in it
fn deep(o: &mut Out, r: &Rng, w: &World) {
    o.ev(json!({"e": "new", "db": w.json(), "root": hex(w.root)}));
    let (t, counted) = w.target();
    let t = t.as_ref().unwrap();
    let mut ns = vec![];
    t.nodes(&mut ns);
    let ps: Vec<_> = ns.iter().map(|n| n.e.k.clone()).collect();
    let mins = [0, 2, 4, 9];
    let q = PathTrunkChunkQuery::new(w.path.clone(), *r.pick(&[3, 5, 8]));
    let qj = json!({"path": q.path.iter().map(hex).collect::<Vec<_>>(), "max": q.max_depth, "min": []});
    let b = w.proof(&w.honest_parents(0), Part::Ops(chunk(t, depths(w, &q), counted, r.idx(2)))).bytes();
    o.about(&json!({"trunk": qj, "proof": hex(&b)}));
    o.ev(with(json!({"e": "trunk", "q": qj, "honest": true}), trunk(w, &q, &b, &ps, &mins)));
    for n in ns.iter().filter(|n| n.height > 2) {
        let depth = 2 + r.idx(n.height);
        let bq = PathBranchChunkQuery::new(w.path.clone(), n.e.k.clone(), depth as u8);
        let b = encode(&chunk(n, depth, counted, r.idx(2)));
        let qj = json!({"key": hex(&n.e.k), "depth": depth});
        o.about(&json!({"branch": qj, "proof": hex(&b)}));
        o.ev(with(json!({"e": "branch", "q": qj, "honest": true, "want": hex(n.hash)}), branch(&bq, n.hash, &b, &ps, &mins)));
    }
    o.end_case();
}
fn query(r: &Rng, w: &World) -> PathTrunkChunkQuery {
    let max = 1 + r.idx(6) as u8;
    let p: Vec<&[u8]> = w.path.iter().map(|x| x.as_slice()).collect();
    match r.idx(4) {
        0 => PathTrunkChunkQuery::new(w.path.clone(), max),
        1 => PathTrunkChunkQuery::new_from_slice_path(&p, max),
        2 => PathTrunkChunkQuery::new_with_min_depth(w.path.clone(), max, 1 + r.below(max as u64) as u8),
        _ => PathTrunkChunkQuery::new_from_slice_path_with_min_depth(&p, max, 1 + r.below(max as u64) as u8),
    }
}
/// a tree of a given shape: [] or [left, right]
fn shape(r: &Rng, s: &Value, kind: usize, next: &mut u8) -> Option<Box<PT>> {
    let a = s.as_array().unwrap();
    if a.is_empty() { return None }
    let l = shape(r, &a[0], kind, next);
    let k = vec![*next];
    *next += 2;
    let Entry(e, low, _) = value(r, kind);
    let own = e.count_value_or_default();
    let sup = low.as_ref().map(|l| l.hash()).or(e.is_any_tree().then_some(NULL));
    let ent = Ent { k, v: ser(&e), sup, res: None, own };
    let rr = shape(r, &a[1], kind, next);
    Some(Box::new(PT::join(ent, l, rr, kind >= 5)))
}
fn depth_rows(o: &mut Out, big: bool) {
    o.ev(json!({"e": "new", "db": {"layers": [], "path": [], "prov": false}, "root": ""}));
    let fib: Vec<u64> = { let mut v = vec![1u64, 2]; while let Some(x) = v[v.len() - 1].checked_add(v[v.len() - 2]) { v.push(x) } v };
    let mut ns: Vec<u64> = (0..60).collect();
    for f in fib.iter().step_by(if big { 1 } else { 3 }) {
        ns.extend([f - 1, f.saturating_sub(2), *f]);
    }
    ns.push(u64::MAX / 2);
    for n in ns {
        o.ev(with(json!({"e": "height", "n": n.to_string()}), outcome(guard(|| Ok::<_, String>(calculate_max_tree_depth_from_count(n))), |x| json!(x))));
    }
    let ds: Vec<u8> = if big { (0..=255).collect() } else { (0..24).chain([91, 92, 200, 255]).collect() };
    for d in ds {
        for max in [0u8, 1, 2, 3, 4, 5, 7, 8, 10, 16, 92, 255] {
            let mut j = outcome(guard(|| calculate_chunk_depths(d, max)), |x| json!(x));
            j["e"] = json!("depths"); j["d"] = json!(d); j["max"] = json!(max); j["min"] = json!([]);
            o.ev(j);
            for min in [0u8, 1, 2, 3, 6, 8, 255] {
                if !big && (d as usize + min as usize) % 3 != 0 { continue }
                let mut j = outcome(guard(|| calculate_chunk_depths_with_minimum(d, max, min)), |x| json!(x));
                j["e"] = json!("depths"); j["d"] = json!(d); j["max"] = json!(max); j["min"] = json!([min]);
                o.ev(j);
            }
        }
    }
    // every split of trees of up to 40 levels
    for d in 0..=40u8 {
        for max in 1..=9u8 {
            for min in 1..=max {
                if !big && min != max && (d as usize + max as usize + min as usize) % 3 != 0 { continue }
                let mut j = outcome(guard(|| calculate_chunk_depths_with_minimum(d, max, min)), |x| json!(x));
                j["e"] = json!("depths"); j["d"] = json!(d); j["max"] = json!(max); j["min"] = json!([min]);
                o.ev(j);
            }
        }
    }
    o.end_case();
}
/// what the proofs are known not to settle
fn known(o: &mut Out, r: &Rng) {
    for k in 0..3 {
        let es = (0..3u8).map(|i| (vec![i + 1], if i == 0 && k == 0 { Entry(ref_to(1), None, Some(Element::new_item(vec![5]))) } else if i == 0 { Entry(Element::new_item(vec![9]), None, None) } else { Entry(Element::new_sum_item(4), None, None) })).collect();
        let w = world(r, 6, merk(r, es, true), 1);
        o.ev(json!({"e": "new", "db": w.json(), "root": hex(w.root)}));
        let t = w.target().0.as_ref().unwrap();
        let q = PathTrunkChunkQuery::new(w.path.clone(), 8);
        let qj = json!({"path": q.path.iter().map(hex).collect::<Vec<_>>(), "max": 8, "min": []});
        let mut ops = chunk(t, 8, true, 0);
        let n = find(t, &[1]).unwrap();
        if k == 0 {
            // as the prover shows a reference
            reshow_all(&mut ops, n, show_as(n, &n.e.v, 2, true));
        } else {
            reshow_all(&mut ops, n, show_as(n, &ser(&Element::CountTree(Some(vec![1]), 77, None)), 2, true));
        }
        let b = w.proof(&w.honest_parents(0), Part::Ops(ops.clone())).bytes();
        if k == 2 {
            let bq = PathBranchChunkQuery::new(w.path.clone(), t.e.k.clone(), 8);
            let x = branch(&bq, t.hash, &encode(&ops), &[], &[]);
            o.ev(with(json!({"e": "branch", "q": {"key": hex(&t.e.k), "depth": 8}, "honest": false, "want": hex(t.hash), "how": "value swapped for a tree"}), x));
        } else {
            o.ev(with(json!({"e": "trunk", "q": qj, "honest": k == 0, "how": if k == 0 { "reference in the trunk" } else { "value swapped for a tree" }}), trunk(&w, &q, &b, &[], &[])));
        }
        o.end_case();
    }
}
pub fn run(a: &Args, o: &mut Out) {
    let r = Rng::new(a.seed ^ 0x7a11);
    depth_rows(o, a.n(0, 1) > 0);
    known(o, &r);
    for (i, s) in a.read_schedules().iter().enumerate() {
        let kind = 3 + (i % 4);
        let mut next = 1;
        let t = shape(&r, &s["t"], kind, &mut next);
        let w = world(&r, kind, L::Merk { t, counted: kind >= 5, subs: BTreeMap::new() }, 1);
        let d = s["d"].as_u64().unwrap() as u8;
        case(o, &r, &w, &[PathTrunkChunkQuery::new(w.path.clone(), d)], 4);
    }
    for _ in 0..a.n(60, 500) {
        let kind = 3 + r.idx(4);
        let n = match r.idx(6) { 0 => r.idx(3), 1..=3 => r.idx(12), _ => r.idx(40) };
        let es = keys(&r, n).into_iter().map(|k| { let e = value(&r, kind); (k, e) }).collect();
        let len = 1 + r.idx(3);
        let w = world(&r, kind, merk(&r, es, kind >= 5), len);
        let qs = [query(&r, &w), query(&r, &w)];
        case(o, &r, &w, &qs, a.n(40, 120));
    }
    // many shown levels, with trees and items that count for nothing in between
    for i in 0..a.n(8, 80) {
        let kind = 3 + i % 4;
        let es = keys(&r, 8 + 8 * (i / 4 % 4)).into_iter().map(|k| { let e = value_at(&r, kind, *r.pick(&[0, 0, 0, 6, 3])); (k, e) }).collect();
        let w = world(&r, kind, merk(&r, es, kind >= 5), 1);
        deep(o, &r, &w);
    }
}
