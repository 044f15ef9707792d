//! Key-value trees built outside the code under test, proofs over them, and forgeries of such proofs.
use grovedb_query::{
    QueryItem,
    proofs::{Node, Op, TreeFeatureType},
};
use vh_common::*;

pub type Hash = [u8; 32];
pub const NULL: Hash = [0; 32];
pub fn varint(mut n: u64) -> Vec<u8> {
    let mut v = vec![];
    while n >= 128 {
        v.push((n as u8) | 128);
        n >>= 7;
    }
    v.push(n as u8);
    v
}
pub fn h(parts: &[&[u8]]) -> Hash {
    let mut x = blake3::Hasher::new();
    for p in parts {
        x.update(p);
    }
    *x.finalize().as_bytes()
}
pub fn value_hash(v: &[u8]) -> Hash {
    h(&[&varint(v.len() as u64), v])
}
pub fn combine(a: &Hash, b: &Hash) -> Hash {
    h(&[a, b])
}
pub fn kv_hash(k: &[u8], vh: &Hash) -> Hash {
    h(&[&varint(k.len() as u64), k, vh])
}
/// An entry: key, value bytes, what its value hash also covers, the value it resolves to (references).
#[derive(Clone, Debug)]
pub struct Ent {
    pub k: Vec<u8>,
    pub v: Vec<u8>,
    pub sup: Option<Hash>,
    pub res: Option<Vec<u8>>,
    pub own: u64,
}
impl Ent {
    pub fn vh(&self) -> Hash {
        let a = value_hash(&self.v);
        match &self.sup {
            Some(s) => combine(&a, s),
            None => a,
        }
    }
}
#[derive(Clone, Debug)]
pub struct PT {
    pub e: Ent,
    pub l: Option<Box<PT>>,
    pub r: Option<Box<PT>>,
    pub count: u64,
    pub hash: Hash,
    pub height: usize,
}
pub fn min_nodes(h: usize) -> usize {
    match h {
        0 => 0,
        1 => 1,
        _ => 1 + min_nodes(h - 1) + min_nodes(h - 2),
    }
}
fn fits(n: usize, h: usize) -> bool {
    n >= min_nodes(h) && n < (1usize << h)
}
/// A random balanced tree over sorted entries.
pub fn build(r: &Rng, es: &[Ent], counted: bool) -> Option<Box<PT>> {
    if es.is_empty() {
        return None;
    }
    let hs: Vec<usize> = (1..20).filter(|h| fits(es.len(), *h)).collect();
    Some(build_h(r, es, counted, *r.pick(&hs)))
}
fn build_h(r: &Rng, es: &[Ent], counted: bool, hh: usize) -> Box<PT> {
    let n = es.len();
    let mut opts = vec![];
    for (a, b) in [(hh - 1, hh - 1), (hh - 1, hh.saturating_sub(2)), (hh.saturating_sub(2), hh - 1)] {
        for i in 0..n {
            if fits(i, a) && fits(n - 1 - i, b) {
                opts.push((i, a, b));
            }
        }
    }
    let (i, a, b) = *r.pick(&opts);
    let l = (a > 0).then(|| build_h(r, &es[..i], counted, a));
    let rr = (b > 0).then(|| build_h(r, &es[i + 1..], counted, b));
    Box::new(PT::join(es[i].clone(), l, rr, counted))
}
impl PT {
    pub fn join(e: Ent, l: Option<Box<PT>>, r: Option<Box<PT>>, counted: bool) -> PT {
        let count = e.own + l.as_ref().map_or(0, |x| x.count) + r.as_ref().map_or(0, |x| x.count);
        let (lh, rh) = (l.as_ref().map_or(NULL, |x| x.hash), r.as_ref().map_or(NULL, |x| x.hash));
        let kv = kv_hash(&e.k, &e.vh());
        let hash = if counted { h(&[&kv, &lh, &rh, &count.to_be_bytes()]) } else { h(&[&kv, &lh, &rh]) };
        let height = 1 + l.as_ref().map_or(0, |x| x.height).max(r.as_ref().map_or(0, |x| x.height));
        PT { e, l, r, count, hash, height }
    }
    pub fn json(&self) -> Value {
        json!({"k": hex(&self.e.k), "v": hex(&self.e.v), "sup": self.e.sup.map_or(String::new(), hex),
            "res": self.e.res.as_ref().map_or(String::new(), hex), "own": self.e.own.to_string(),
            "l": self.l.iter().map(|x| x.json()).collect::<Vec<_>>(), "r": self.r.iter().map(|x| x.json()).collect::<Vec<_>>()})
    }
    pub fn nodes<'a>(&'a self, v: &mut Vec<&'a PT>) {
        if let Some(l) = &self.l {
            l.nodes(v);
        }
        v.push(self);
        if let Some(l) = &self.r {
            l.nodes(v);
        }
    }
    /// The node's count and the sum 0, as its feature in a counted tree.
    pub fn feature(&self, counted: bool) -> TreeFeatureType {
        // (trees with sums carry them along, outside of what is hashed)
        match (counted, self.e.k.last().map_or(0, |b| b % 4)) {
            (false, _) => TreeFeatureType::BasicMerkNode,
            (_, 1) => TreeFeatureType::ProvableCountedSummedMerkNode(self.count, 0),
            (_, 2) => TreeFeatureType::ProvableCountedSummedMerkNode(self.count, -7),
            _ => TreeFeatureType::ProvableCountedMerkNode(self.count),
        }
    }
    pub fn digest(&self, counted: bool) -> Node {
        let (k, vh) = (self.e.k.clone(), self.e.vh());
        if counted { Node::KVDigestCount(k, vh, self.count) } else { Node::KVDigest(k, vh) }
    }
    pub fn hidden(&self, counted: bool) -> Node {
        let x = kv_hash(&self.e.k, &self.e.vh());
        if counted { Node::KVHashCount(x, self.count) } else { Node::KVHash(x) }
    }
    /// The node with its value revealed as the prover documents it.
    pub fn shown(&self, counted: bool, style: usize) -> Node {
        let e = &self.e;
        let (k, v, vh) = (e.k.clone(), e.v.clone(), e.vh());
        match (&e.sup, &e.res) {
            (None, _) if counted => Node::KVCount(k, v, self.count),
            (None, _) => Node::KV(k, v),
            (_, Some(res)) if style % 2 == 0 => {
                if counted {
                    Node::KVRefValueHashCount(k, res.clone(), value_hash(&v), self.count)
                } else {
                    Node::KVRefValueHash(k, res.clone(), value_hash(&v))
                }
            }
            (Some(s), None) if style % 2 == 0 => Node::KVValueHashFeatureTypeWithChildHash(k, v, vh, self.feature(counted), *s),
            _ if counted || style % 3 == 0 => Node::KVValueHashFeatureType(k, v, vh, self.feature(counted)),
            _ => Node::KVValueHash(k, v, vh),
        }
    }
}
fn selected(items: &[QueryItem], k: &[u8]) -> bool {
    items.iter().any(|i| i.contains(k))
}
fn end_key(i: &QueryItem, left: bool) -> Option<Vec<u8>> {
    let (b, incl) = if left { i.upper_bound() } else { let (b, open) = i.lower_bound(); (b, !open) };
    b.filter(|_| incl).map(|x| x.to_vec())
}
fn start_key(i: &QueryItem, left: bool) -> Option<Vec<u8>> {
    let (b, incl) = if left { let (b, open) = i.lower_bound(); (b, !open) } else { i.upper_bound() };
    b.filter(|_| incl).map(|x| x.to_vec())
}
/// Which nodes a proof of the query must show (2), name (1): in key order.
pub fn reveal(t: &PT, items: &[QueryItem], limit: Option<u16>, left: bool) -> Vec<u8> {
    let mut ns = vec![];
    t.nodes(&mut ns);
    if !left {
        ns.reverse();
    }
    let mut items: Vec<_> = items.to_vec();
    items.sort();
    if !left {
        items.reverse();
    }
    let mut rv = vec![0u8; ns.len()];
    let mut lim = limit.map(|x| x as usize).unwrap_or(usize::MAX);
    for it in &items {
        if lim == 0 {
            break;
        }
        let m: Vec<usize> = (0..ns.len()).filter(|i| it.contains(&ns[*i].e.k)).collect();
        let before = |k: &[u8]| if left { it.lower_bound().0.is_some_and(|b| k <= b) } else { it.upper_bound().0.is_some_and(|b| k >= b) };
        let first = m.first().copied().unwrap_or_else(|| ns.iter().take_while(|n| before(&n.e.k)).count());
        let taken = m.len().min(lim);
        if !(taken > 0 && start_key(it, left).as_ref() == Some(&ns[first].e.k)) && first > 0 {
            rv[first - 1] = rv[first - 1].max(1);
        }
        for i in &m[..taken] {
            rv[*i] = 2;
        }
        lim -= taken;
        if lim == 0 {
            break;
        }
        let next = first + m.len();
        let done = m.last().is_some_and(|i| end_key(it, left).as_ref() == Some(&ns[*i].e.k));
        if !done && next < ns.len() {
            rv[next] = rv[next].max(1);
        }
    }
    if ns.len() == 1 && rv[0] == 0 {
        rv[0] = 0;
    }
    if !left {
        rv.reverse();
    }
    rv
}
/// The proof that shows exactly those nodes.
pub fn prove(t: &PT, rv: &[u8], left: bool, counted: bool, style: usize, top: bool) -> Vec<Op> {
    prove_with(t, rv, left, counted, &|n| n.shown(counted, style), top)
}
/// The same, with a say in how a value is shown.
pub fn prove_with(t: &PT, rv: &[u8], left: bool, counted: bool, shown: &dyn Fn(&PT) -> Node, top: bool) -> Vec<Op> {
    let push = |n| if left { Op::Push(n) } else { Op::PushInverted(n) };
    if !top && rv.iter().all(|x| *x == 0) {
        return vec![push(Node::Hash(t.hash))];
    }
    let nl = t.l.as_ref().map_or(0, |x| x.nodes_len());
    let node = match rv[nl] {
        2 => shown(t),
        1 => t.digest(counted),
        _ => t.hidden(counted),
    };
    let (first, second) = if left { (&t.l, &t.r) } else { (&t.r, &t.l) };
    let part = |c: &Option<Box<PT>>, is_l: bool| {
        c.as_ref().map(|c| prove_with(c, if is_l { &rv[..nl] } else { &rv[nl + 1..] }, left, counted, shown, false))
    };
    let (a, b) = (part(first, left), part(second, !left));
    let mut v = vec![];
    let has = a.is_some();
    v.extend(a.into_iter().flatten());
    v.push(push(node));
    if has {
        v.push(if left { Op::Parent } else { Op::ParentInverted });
    }
    if let Some(b) = b {
        v.extend(b);
        v.push(if left { Op::Child } else { Op::ChildInverted });
    }
    v
}
impl PT {
    pub fn nodes_len(&self) -> usize {
        1 + self.l.as_ref().map_or(0, |x| x.nodes_len()) + self.r.as_ref().map_or(0, |x| x.nodes_len())
    }
}
/// How a forged proof of the true root hash is put together.
pub struct Forger<'a> {
    pub r: &'a Rng,
    pub counted: bool,
    /// 0 pushes ascending, 1 descending, 2 mixed
    pub orient: usize,
    pub hide: u64,
    pub junk: u64,
    pub lie: u64,
    pub inverted: u64,
    pub pool: &'a [Vec<u8>],
    pub keys: &'a [Vec<u8>],
}
impl Forger<'_> {
    fn push(&self, n: Node) -> Op {
        match self.orient {
            0 => Op::Push(n),
            1 => Op::PushInverted(n),
            _ if self.r.chance(1, 2) => Op::Push(n),
            _ => Op::PushInverted(n),
        }
    }
    fn fake(&self) -> Node {
        let (k, v) = (self.r.pick(self.keys).clone(), self.r.pick(self.pool).clone());
        let vh = value_hash(&v);
        match self.r.idx(8) {
            0 => Node::KVDigest(k, vh),
            1 => Node::KVValueHash(k, v, vh),
            2 => Node::KVCount(k, v, 1),
            3 => Node::KVHash(vh),
            4 => Node::Hash(vh),
            5 => Node::KVRefValueHash(k, v, vh),
            _ => Node::KV(k, v),
        }
    }
    fn lying(&self, t: &PT) -> Node {
        let (k, vh) = (t.e.k.clone(), t.e.vh());
        let v = self.r.pick(self.pool).clone();
        let own = value_hash(&t.e.v);
        let f = match self.r.idx(3) {
            0 => TreeFeatureType::BasicMerkNode,
            1 => TreeFeatureType::ProvableCountedSummedMerkNode(t.count, 5),
            _ => TreeFeatureType::ProvableCountedMerkNode(t.count),
        };
        let sup = t.e.sup.unwrap_or(NULL);
        match self.r.idx(12) {
            0 => Node::KVValueHash(k, v, vh),
            1 => Node::KVValueHashFeatureType(k, v, vh, f),
            2 => Node::KVValueHashFeatureTypeWithChildHash(k, v, vh, f, sup),
            3 => Node::KVRefValueHash(k, v, own),
            4 => Node::KVRefValueHash(k, v, vh),
            5 => Node::KVRefValueHashCount(k, v, own, t.count),
            6 => Node::KVCount(k, t.e.v.clone(), self.r.below(3)),
            7 => Node::KV(k, v),
            8 => Node::KVValueHashFeatureTypeWithChildHash(k, v, vh, f, *self.r.pick(&[NULL, own, vh, t.hash])),
            9 => Node::KVDigestCount(k, vh, self.r.below(4)),
            10 => Node::KVValueHash(k, t.e.v.clone(), vh),
            _ => Node::KV(self.r.pick(self.keys).clone(), t.e.v.clone()),
        }
    }
    pub fn term(&self, t: &PT) -> Vec<Op> {
        let r = self.r;
        if r.chance(self.hide, 100) {
            let mut v = vec![self.push(Node::Hash(t.hash))];
            if r.chance(self.junk, 100) {
                // hang something below a hash
                let below = if r.chance(1, 2) { vec![self.push(self.fake())] } else { self.term(t) };
                v = match r.idx(4) {
                    0 => [below, v, vec![Op::Parent]].concat(),
                    1 => [v, below, vec![Op::Child]].concat(),
                    2 => [below, v, vec![Op::ParentInverted]].concat(),
                    _ => [v, below, vec![Op::ChildInverted]].concat(),
                };
            }
            return v;
        }
        let node = if r.chance(self.lie, 100) {
            self.lying(t)
        } else {
            match r.idx(8) {
                0 => t.hidden(self.counted),
                1 | 2 => t.digest(self.counted),
                _ => t.shown(self.counted, r.idx(6)),
            }
        };
        let me = self.push(node);
        let l = t.l.as_ref().map(|c| self.term(c));
        let rr = t.r.as_ref().map(|c| self.term(c));
        // each child is attached after being pushed either before or after its parent
        let pick = |child: &Option<Vec<Op>>, natural: bool| child.is_some() && (if r.chance(self.inverted, 100) { !natural } else { natural });
        let (lb, rb) = (pick(&l, true), pick(&rr, false));
        let swap = r.chance(1, 2);
        let (l, rr) = (l.unwrap_or_default(), rr.unwrap_or_default());
        let (hl, hr) = (!l.is_empty(), !rr.is_empty());
        let mut v = vec![];
        match (hl && lb, hr && rb) {
            (true, true) => {
                if swap {
                    v = [rr, l, vec![me, Op::Parent, Op::ParentInverted]].concat();
                } else {
                    v = [l, rr, vec![me, Op::ParentInverted, Op::Parent]].concat();
                }
            }
            (true, false) => {
                v.extend(l);
                v.push(me);
                if swap && hr {
                    v.extend(rr);
                    v.push(Op::Child);
                    v.push(Op::Parent);
                } else {
                    v.push(Op::Parent);
                    if hr {
                        v.extend(rr);
                        v.push(Op::Child);
                    }
                }
            }
            (false, true) => {
                v.extend(rr);
                v.push(me);
                v.push(Op::ParentInverted);
                if hl {
                    v.extend(l);
                    v.push(Op::ChildInverted);
                }
            }
            (false, false) => {
                v.push(me);
                let mut a = (l, Op::ChildInverted);
                let mut b = (rr, Op::Child);
                if swap {
                    std::mem::swap(&mut a, &mut b);
                }
                for (ops, op) in [a, b] {
                    if !ops.is_empty() {
                        v.extend(ops);
                        v.push(op);
                    }
                }
            }
        }
        v
    }
    /// A small change to a list of operations.
    pub fn mutate(&self, ops: &[Op], other: &[Op]) -> Vec<Op> {
        let r = self.r;
        let mut v = ops.to_vec();
        for _ in 0..1 + r.idx(2) {
            if v.is_empty() {
                break;
            }
            let i = r.idx(v.len());
            match r.idx(10) {
                0 => {
                    v.remove(i);
                }
                1 => {
                    let j = r.idx(v.len());
                    v.swap(i, j);
                }
                2 => v.insert(i, v[r.idx(v.len())].clone()),
                3 => v.insert(i, self.push(self.fake())),
                4 if !other.is_empty() => v[i] = r.pick(other).clone(),
                5 => {
                    v[i] = match v[i].clone() {
                        Op::Push(n) => Op::PushInverted(n),
                        Op::PushInverted(n) => Op::Push(n),
                        Op::Parent => Op::ParentInverted,
                        Op::Child => Op::ChildInverted,
                        Op::ParentInverted => Op::Parent,
                        Op::ChildInverted => Op::Child,
                    }
                }
                6 => v.extend([self.push(self.fake()), r.pick(&[Op::Parent, Op::Child, Op::ParentInverted, Op::ChildInverted]).clone()]),
                _ => {
                    if let Op::Push(n) | Op::PushInverted(n) = &mut v[i] {
                        twist(r, n, self.pool, self.keys);
                    }
                }
            }
        }
        v
    }
}
/// Change one field of a proof node, or its kind.
pub fn twist(r: &Rng, n: &mut Node, pool: &[Vec<u8>], keys: &[Vec<u8>]) {
    let v2 = r.pick(pool).clone();
    let k2 = r.pick(keys).clone();
    let which = r.idx(6);
    *n = match n.clone() {
        Node::KV(k, v) => match which {
            0 => Node::KV(k, v2),
            1 => Node::KV(k2, v),
            2 => Node::KVDigest(k, value_hash(&v)),
            3 => Node::KVHash(kv_hash(&k, &value_hash(&v))),
            4 => Node::KVValueHash(k, v2, value_hash(&v)),
            _ => Node::KVValueHashFeatureType(k, v2, value_hash(&v), TreeFeatureType::BasicMerkNode),
        },
        Node::KVCount(k, v, c) => match which {
            0 => Node::KVCount(k, v2, c),
            1 => Node::KVCount(k2, v, c),
            2 => Node::KVDigestCount(k, value_hash(&v), c),
            3 => Node::KVHashCount(kv_hash(&k, &value_hash(&v)), c),
            4 => Node::KVValueHashFeatureType(k, v2, value_hash(&v), TreeFeatureType::ProvableCountedMerkNode(c)),
            _ => Node::KVCount(k, v, c ^ 1),
        },
        Node::KVValueHash(k, v, h) => match which {
            0 => Node::KVValueHash(k, v2, h),
            1 => Node::KVDigest(k, h),
            2 => Node::KVHash(kv_hash(&k, &h)),
            3 => Node::KVValueHashFeatureTypeWithChildHash(k, v, h, TreeFeatureType::BasicMerkNode, NULL),
            4 => Node::KVRefValueHash(k, v2, h),
            _ => Node::KVValueHash(k2, v, h),
        },
        Node::KVDigest(k, h) => match which {
            0 | 1 => Node::KVHash(kv_hash(&k, &h)),
            2 => Node::KVDigest(k2, h),
            3 => Node::KVValueHash(k, v2, h),
            _ => Node::KVDigest(k, value_hash(&v2)),
        },
        Node::KVDigestCount(k, h, c) => match which {
            0 | 1 => Node::KVHashCount(kv_hash(&k, &h), c),
            2 => Node::KVDigestCount(k2, h, c),
            3 => Node::KVDigest(k, h),
            _ => Node::KVDigestCount(k, h, c + 1),
        },
        Node::KVRefValueHash(k, v, h) => match which {
            0 => Node::KVRefValueHash(k, v2, h),
            1 => Node::KVValueHash(k, v2, combine(&h, &value_hash(&v))),
            2 => Node::KVDigest(k, combine(&h, &value_hash(&v))),
            3 => Node::KVHash(kv_hash(&k, &combine(&h, &value_hash(&v)))),
            _ => Node::KVRefValueHash(k, v2.clone(), value_hash(&v2)),
        },
        Node::KVRefValueHashCount(k, v, h, c) => match which {
            0 => Node::KVRefValueHashCount(k, v2, h, c),
            1 => Node::KVDigestCount(k, combine(&h, &value_hash(&v)), c),
            _ => Node::KVRefValueHashCount(k, v, h, c + 1),
        },
        Node::KVValueHashFeatureType(k, v, h, f) => match which {
            0 => Node::KVValueHashFeatureType(k, v2, h, f),
            1 => Node::KVValueHashFeatureType(k, v, h, TreeFeatureType::SummedMerkNode(7)),
            2 => Node::KVValueHash(k, v, h),
            3 => Node::KVDigest(k, h),
            _ => Node::KVValueHashFeatureTypeWithChildHash(k, v, h, f, NULL),
        },
        Node::KVValueHashFeatureTypeWithChildHash(k, v, h, f, c) => match which {
            0 => Node::KVValueHashFeatureTypeWithChildHash(k, v2, h, f, c),
            1 => Node::KVValueHashFeatureTypeWithChildHash(k, v2.clone(), combine(&value_hash(&v2), &c), f, c),
            2 => Node::KVValueHashFeatureType(k, v2, h, f),
            3 => Node::KVValueHashFeatureTypeWithChildHash(k, v, h, f, NULL),
            _ => Node::KVValueHash(k, v, h),
        },
        Node::Hash(x) => Node::Hash(*r.pick(&[NULL, x, value_hash(&v2)])),
        Node::KVHash(x) => Node::KVHash(*r.pick(&[NULL, x, value_hash(&v2)])),
        Node::KVHashCount(x, c) => match which {
            0 => Node::KVHash(x),
            _ => Node::KVHashCount(x, c + 1),
        },
    };
}
pub fn encode(ops: &[Op]) -> Vec<u8> {
    let mut v = vec![];
    grovedb_query::proofs::encode_into(ops.iter(), &mut v);
    v
}
pub fn any_selected(items: &[QueryItem], t: &PT) -> bool {
    let mut v = vec![];
    t.nodes(&mut v);
    v.iter().any(|n| selected(items, &n.e.k))
}
