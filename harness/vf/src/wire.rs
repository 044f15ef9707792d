//! Wire formats: written by the library, read by it from honest and hostile bytes.
use crate::element::{el_json, feature_json};
use crate::q::{QGen, branch_json, item_json, items_json, mk, query_json};
use crate::refs::{ref_json, reference};
use bincode::{Decode, Encode};
use grovedb::operations::proof::{GroveDBProof, GroveDBProofV0, GroveDBProofV1, LayerProof, MerkOnlyLayerProof, ProofBytes, ProveOptions};
use grovedb::{AggregateSumPathQuery, Element, PathBranchChunkQuery, PathQuery, PathTrunkChunkQuery, SizedQuery};
use grovedb_bulk_append_tree::BulkAppendTreeProof;
use grovedb_dense_fixed_sized_merkle_tree::DenseTreeProof;
use grovedb_element::reference_path::ReferencePathType;
use grovedb_merkle_mountain_range::MmrTreeProof;
use grovedb_query::proofs::{Decoder, Node, NodeType, Op, TreeFeatureType, encode_into};
use grovedb_query::{AggregateSumQuery, Query, QueryItem, SubqueryBranch};
use grovedb_version::version::GroveVersion;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
use vh_common::*;

/// Remembers the largest single request.
pub struct Watch;
static MOST: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        MOST.fetch_max(l.size(), Ordering::Relaxed);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        MOST.fetch_max(l.size(), Ordering::Relaxed);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        MOST.fetch_max(n, Ordering::Relaxed);
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static A: Watch = Watch;
fn watched<T>(f: impl FnOnce() -> T) -> (Result<T, String>, u64) {
    MOST.store(0, Ordering::Relaxed);
    let g = guard(f);
    (g, (MOST.load(Ordering::Relaxed) >> 20) as u64)
}

const MB: usize = 1024 * 1024;
fn cfg() -> bincode::config::Configuration<bincode::config::BigEndian, bincode::config::Varint, bincode::config::Limit<{ 256 * MB }>> {
    bincode::config::standard().with_big_endian().with_limit()
}
fn enc<T: Encode>(x: &T) -> Vec<u8> {
    bincode::encode_to_vec(x, bincode::config::standard().with_big_endian().with_no_limit()).unwrap()
}
type Rd = Result<(Value, i64), String>;
fn dec<T: Decode<()> + for<'a> bincode::BorrowDecode<'a, ()>>(b: &[u8], j: impl Fn(&T) -> Value) -> Rd {
    let x = bincode::decode_from_slice::<T, _>(b, cfg());
    let y = bincode::borrow_decode_from_slice::<T, _>(b, cfg());
    match (x, y) {
        (Ok((x, n)), Ok((y, m))) => {
            assert_eq!((j(&x), n), (j(&y), m), "the two ways of reading disagree");
            Ok((j(&x), n as i64))
        }
        (Err(e), Err(_)) => Err(format!("{e:?}")),
        _ => panic!("the two ways of reading disagree"),
    }
}
fn strs<'a>(p: impl IntoIterator<Item = &'a Vec<u8>>) -> Value {
    json!(p.into_iter().map(hex).collect::<Vec<_>>())
}
fn o16(x: Option<u16>) -> Value {
    json!(x.iter().map(|x| x.to_string()).collect::<Vec<_>>())
}
pub fn sized_json(s: &SizedQuery) -> Value {
    json!({"query": query_json(&s.query), "limit": o16(s.limit), "offset": o16(s.offset)})
}
pub fn pq_json(p: &PathQuery) -> Value {
    json!({"path": strs(&p.path), "sized": sized_json(&p.query)})
}
fn asq_json(a: &AggregateSumQuery) -> Value {
    json!({"items": items_json(&a.items), "left": a.left_to_right, "sum": a.sum_limit.to_string(), "limit": o16(a.limit_of_items_to_check)})
}
fn aspq_json(a: &AggregateSumPathQuery) -> Value {
    json!({"path": strs(&a.path), "asq": asq_json(&a.aggregate_sum_query)})
}
fn trunk_json(t: &PathTrunkChunkQuery) -> Value {
    json!({"path": strs(&t.path), "max": t.max_depth, "min": t.min_depth.iter().collect::<Vec<_>>()})
}
fn branchq_json(t: &PathBranchChunkQuery) -> Value {
    json!({"path": strs(&t.path), "key": hex(&t.key), "depth": t.depth})
}
fn pairs<N: ToString, B: AsRef<[u8]>>(v: &[(N, B)]) -> Value {
    json!(v.iter().map(|(n, b)| json!([n.to_string(), hex(b)])).collect::<Vec<_>>())
}
fn mmr_json(p: &MmrTreeProof) -> Value {
    json!({"size": p.mmr_size().to_string(), "leaves": pairs(p.leaves()), "items": p.proof_items().iter().map(hex).collect::<Vec<_>>()})
}
fn dense_json(p: &DenseTreeProof) -> Value {
    json!({"entries": pairs(&p.entries), "vh": pairs(&p.node_value_hashes), "nh": pairs(&p.node_hashes)})
}
fn bulk_json(p: &BulkAppendTreeProof) -> Value {
    json!({"chunks": mmr_json(&p.chunk_proof), "buffer": dense_json(&p.buffer_proof)})
}
fn l1(x: &LayerProof) -> Value {
    let (t, b) = match &x.merk_proof {
        ProofBytes::Merk(b) => (0, b),
        ProofBytes::MMR(b) => (1, b),
        ProofBytes::BulkAppendTree(b) => (2, b),
        ProofBytes::DenseTree(b) => (3, b),
        ProofBytes::CommitmentTree(b) => (4, b),
    };
    json!({"t": t, "b": hex(b), "low": x.lower_layers.iter().map(|(k, l)| json!([hex(k), l1(l)])).collect::<Vec<_>>()})
}
fn l0(x: &MerkOnlyLayerProof) -> Value {
    json!({"t": 0, "b": hex(&x.merk_proof), "low": x.lower_layers.iter().map(|(k, l)| json!([hex(k), l0(l)])).collect::<Vec<_>>()})
}
pub fn proof_json(p: &GroveDBProof) -> Value {
    match p {
        GroveDBProof::V0(p) => json!({"v": 0, "root": l0(&p.root_layer), "opt": p.prove_options.decrease_limit_on_empty_sub_query_result}),
        GroveDBProof::V1(p) => json!({"v": 1, "root": l1(&p.root_layer), "opt": false}),
    }
}
pub fn op_json(op: &Op) -> Value {
    let (o, n) = match op {
        Op::Push(n) => ("push", Some(n)),
        Op::PushInverted(n) => ("pushinv", Some(n)),
        Op::Parent => ("parent", None),
        Op::Child => ("child", None),
        Op::ParentInverted => ("parentinv", None),
        Op::ChildInverted => ("childinv", None),
    };
    let e: &[u8] = &[];
    let bm = TreeFeatureType::BasicMerkNode;
    let (t, k, v, h, f, c, d): (&str, &[u8], &[u8], &[u8], TreeFeatureType, u64, &[u8]) = match n {
        None => ("", e, e, e, bm, 0, e),
        Some(Node::Hash(h)) => ("hash", e, e, h, bm, 0, e),
        Some(Node::KVHash(h)) => ("kvhash", e, e, h, bm, 0, e),
        Some(Node::KV(k, v)) => ("kv", k, v, e, bm, 0, e),
        Some(Node::KVValueHash(k, v, h)) => ("kvvh", k, v, h, bm, 0, e),
        Some(Node::KVDigest(k, h)) => ("kvdigest", k, e, h, bm, 0, e),
        Some(Node::KVRefValueHash(k, v, h)) => ("ref", k, v, h, bm, 0, e),
        Some(Node::KVValueHashFeatureType(k, v, h, f)) => ("kvft", k, v, h, *f, 0, e),
        Some(Node::KVCount(k, v, c)) => ("kvcount", k, v, e, bm, *c, e),
        Some(Node::KVHashCount(h, c)) => ("hashcount", e, e, h, bm, *c, e),
        Some(Node::KVRefValueHashCount(k, v, h, c)) => ("refcount", k, v, h, bm, *c, e),
        Some(Node::KVDigestCount(k, h, c)) => ("digestcount", k, e, h, bm, *c, e),
        Some(Node::KVValueHashFeatureTypeWithChildHash(k, v, h, f, d)) => ("child", k, v, h, *f, 0, d),
    };
    json!({"o": o, "n": t, "k": hex(k), "v": hex(v), "h": hex(h), "f": feature_json(&f), "c": c.to_string(), "d": hex(d)})
}
/// Any of the formats, as one type.
enum X {
    El(Element),
    Item(QueryItem),
    Query(Query),
    Branch(SubqueryBranch),
    Sized(SizedQuery),
    Pq(PathQuery),
    Asq(AggregateSumQuery),
    Aspq(AggregateSumPathQuery),
    Trunk(PathTrunkChunkQuery),
    BranchQ(PathBranchChunkQuery),
    Op(Op),
    Feat(TreeFeatureType),
    Mmr(MmrTreeProof),
    Dense(DenseTreeProof),
    Bulk(BulkAppendTreeProof),
    Proof(GroveDBProof),
    Ref(ReferencePathType),
}
const FORMATS: [&str; 17] = ["element", "item", "query", "branch", "sized", "pathquery", "asq", "aspq", "trunk", "branchq", "op",
    "feature", "mmr", "dense", "bulk", "proof", "ref"];
fn x_json(x: &X) -> Value {
    match x {
        X::El(x) => el_json(x),
        X::Item(x) => item_json(x),
        X::Query(x) => query_json(x),
        X::Branch(x) => branch_json(x),
        X::Sized(x) => sized_json(x),
        X::Pq(x) => pq_json(x),
        X::Asq(x) => asq_json(x),
        X::Aspq(x) => aspq_json(x),
        X::Trunk(x) => trunk_json(x),
        X::BranchQ(x) => branchq_json(x),
        X::Op(x) => op_json(x),
        X::Feat(x) => feature_json(x),
        X::Mmr(x) => mmr_json(x),
        X::Dense(x) => dense_json(x),
        X::Bulk(x) => bulk_json(x),
        X::Proof(x) => proof_json(x),
        X::Ref(x) => ref_json(x),
    }
}
fn x_enc(x: &X) -> (Vec<u8>, Vec<usize>) {
    let v = GroveVersion::latest();
    match x {
        X::El(x) => (x.serialize(v).unwrap(), vec![x.serialized_size(v).unwrap()]),
        X::Item(x) => (enc(x), vec![]),
        X::Query(x) => (enc(x), vec![]),
        X::Branch(x) => (enc(x), vec![]),
        X::Sized(x) => (enc(x), vec![]),
        X::Pq(x) => (enc(x), vec![]),
        X::Asq(x) => (enc(x), vec![]),
        X::Aspq(x) => (enc(x), vec![]),
        X::Trunk(x) => (enc(x), vec![]),
        X::BranchQ(x) => (enc(x), vec![]),
        X::Op(x) => {
            let b = ed::Encode::encode(x).unwrap();
            let mut s = vec![];
            encode_into([x].into_iter(), &mut s);
            assert_eq!(s, b);
            (b, vec![x.encoding_length(), ed::Encode::encoding_length(x).unwrap()])
        }
        X::Feat(x) => (ed::Encode::encode(x).unwrap(), vec![ed::Encode::encoding_length(x).unwrap()]),
        X::Mmr(x) => (x.encode_to_vec().unwrap(), vec![]),
        X::Dense(x) => (x.encode_to_vec().unwrap(), vec![]),
        X::Bulk(x) => (x.encode_to_vec().unwrap(), vec![]),
        X::Proof(x) => (enc(x), vec![]),
        X::Ref(x) => (enc(x), vec![]),
    }
}
fn x_dec(f: &str, b: &[u8]) -> Rd {
    let v = GroveVersion::latest();
    fn e<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
        r.map_err(|e| trunc(&format!("{e:?}")))
    }
    match f {
        "element" => e(Element::deserialize(b, v)).map(|x| (el_json(&x), -1)),
        "item" => dec::<QueryItem>(b, item_json),
        "query" => dec::<Query>(b, query_json),
        "branch" => dec::<SubqueryBranch>(b, branch_json),
        "sized" => dec::<SizedQuery>(b, sized_json),
        "pathquery" => dec::<PathQuery>(b, pq_json),
        "asq" => dec::<AggregateSumQuery>(b, asq_json),
        "aspq" => dec::<AggregateSumPathQuery>(b, aspq_json),
        "trunk" => dec::<PathTrunkChunkQuery>(b, trunk_json),
        "branchq" => dec::<PathBranchChunkQuery>(b, branchq_json),
        "op" => {
            let mut d = Decoder::new(b);
            let first = d.next().ok_or("nothing")?;
            let one = Op::decode(b);
            assert_eq!(first.as_ref().ok(), one.as_ref().ok(), "Op::decode and Decoder disagree");
            let x = e(first)?;
            Ok((op_json(&x), (b.len() - d.remaining_bytes()) as i64))
        }
        "feature" => {
            let mut s = b;
            let x = e(<TreeFeatureType as ed::Decode>::decode(&mut s))?;
            Ok((feature_json(&x), (b.len() - s.len()) as i64))
        }
        "mmr" => e(MmrTreeProof::decode_from_slice(b)).map(|x| (mmr_json(&x), -1)),
        "dense" => e(DenseTreeProof::decode_from_slice(b)).map(|x| (dense_json(&x), -1)),
        "bulk" => e(BulkAppendTreeProof::decode_from_slice(b)).map(|x| (bulk_json(&x), -1)),
        "proof" => dec::<GroveDBProof>(b, proof_json),
        "ref" => dec::<ReferencePathType>(b, ref_json),
        _ => unreachable!(),
    }
}
const LENS: [usize; 8] = [0, 1, 2, 250, 251, 252, 255, 256];
pub struct Gen<'a> {
    pub r: &'a Rng,
}
impl Gen<'_> {
    fn bytes(&self) -> Vec<u8> {
        let n = if self.r.chance(1, 16) { *self.r.pick(&LENS) } else { self.r.idx(5) };
        self.r.bytes(n)
    }
    fn key(&self) -> Vec<u8> {
        let n = if self.r.chance(1, 12) { *self.r.pick(&[0usize, 127, 128, 250, 251, 254, 255]) } else { self.r.idx(4) };
        self.r.bytes(n)
    }
    fn hash(&self) -> [u8; 32] {
        self.r.bytes(32).try_into().unwrap()
    }
    fn u(&self) -> u64 {
        if self.r.chance(3, 4) { *self.r.pick(&crate::element::COUNTS) } else { self.r.next() >> self.r.idx(64) }
    }
    fn path(&self) -> Vec<Vec<u8>> {
        let n = if self.r.chance(1, 20) { 252 } else { self.r.idx(4) };
        (0..n).map(|_| if n > 9 { vec![1] } else { self.bytes() }).collect()
    }
    fn limit(&self) -> Option<u16> {
        if self.r.chance(1, 2) { Some(*self.r.pick(&[0, 1, 250, 251, 255, 256, 65535])) } else { None }
    }
    fn item(&self) -> QueryItem {
        mk(self.r.idx(10), self.bytes(), self.bytes())
    }
    fn items(&self) -> Vec<QueryItem> {
        let n = if self.r.chance(1, 25) { 251 } else { self.r.idx(4) };
        (0..n).map(|_| if n > 9 { mk(self.r.idx(10), vec![7], vec![]) } else { self.item() }).collect()
    }
    fn query(&self, depth: usize) -> Query {
        let alpha: Vec<Vec<u8>> = (0..6).map(|_| self.bytes()).chain([vec![0], vec![1], vec![2, 3]]).collect();
        let g = QGen { r: self.r, alpha, bounded: false, overlapping_conds: true, up: false };
        let mut q = g.query(depth);
        match self.r.idx(8) {
            0 => q.items = self.items(),
            1 => q.conditional_subquery_branches = Some(Default::default()),
            2 => q.default_subquery_branch.subquery_path = Some(vec![]),
            3 => q.default_subquery_branch.subquery = Some(Box::new(Query::default())),
            _ => {}
        }
        q
    }
    fn sized(&self) -> SizedQuery {
        SizedQuery { query: self.query(2), limit: self.limit(), offset: self.limit() }
    }
    fn asq(&self) -> AggregateSumQuery {
        AggregateSumQuery { items: self.items(), left_to_right: self.r.chance(1, 2), sum_limit: self.u(), limit_of_items_to_check: self.limit() }
    }
    fn feature(&self) -> TreeFeatureType {
        use TreeFeatureType::*;
        let s = if self.r.chance(3, 4) { *self.r.pick(&crate::element::SUMS) } else { (self.r.next() >> self.r.idx(64)) as i64 };
        match self.r.idx(7) {
            0 => BasicMerkNode,
            1 => SummedMerkNode(s),
            2 => BigSummedMerkNode(*self.r.pick(&[0, 1, -1, i128::MAX, i128::MIN, s as i128])),
            3 => CountedMerkNode(self.u()),
            4 => CountedSummedMerkNode(self.u(), s),
            5 => ProvableCountedMerkNode(self.u()),
            _ => ProvableCountedSummedMerkNode(self.u(), s),
        }
    }
    pub fn node(&self, i: usize, v: Vec<u8>) -> Node {
        let (k, h) = (self.key(), self.hash());
        match i % 12 {
            0 => Node::Hash(h),
            1 => Node::KVHash(h),
            2 => Node::KV(k, v),
            3 => Node::KVValueHash(k, v, h),
            4 => Node::KVDigest(k, h),
            5 => Node::KVRefValueHash(k, v, h),
            6 => Node::KVValueHashFeatureType(k, v, h, self.feature()),
            7 => Node::KVCount(k, v, self.u()),
            8 => Node::KVHashCount(h, self.u()),
            9 => Node::KVRefValueHashCount(k, v, h, self.u()),
            10 => Node::KVDigestCount(k, h, self.u()),
            _ => Node::KVValueHashFeatureTypeWithChildHash(k, v, h, self.feature(), self.hash()),
        }
    }
    fn op(&self) -> Op {
        match self.r.idx(10) {
            0 => self.r.pick(&[Op::Parent, Op::Child, Op::ParentInverted, Op::ChildInverted]).clone(),
            i => {
                let n = self.node(self.r.idx(12), self.bytes());
                if i < 5 { Op::Push(n) } else { Op::PushInverted(n) }
            }
        }
    }
    fn idx(&self) -> Vec<(u64, Vec<u8>)> {
        (0..self.r.idx(4)).map(|_| (self.u(), self.bytes())).collect()
    }
    fn mmr(&self) -> MmrTreeProof {
        MmrTreeProof::new(self.u(), self.idx(), (0..self.r.idx(4)).map(|_| self.hash()).collect())
    }
    fn dense(&self) -> DenseTreeProof {
        let hs = || (0..self.r.idx(4)).map(|_| (self.u() as u16, self.hash())).collect();
        DenseTreeProof { entries: self.idx().into_iter().map(|(i, v)| (i as u16, v)).collect(), node_value_hashes: hs(), node_hashes: hs() }
    }
    fn layer1(&self, d: usize) -> LayerProof {
        let b = self.bytes();
        LayerProof {
            merk_proof: match self.r.idx(7) {
                0 => ProofBytes::MMR(b),
                1 => ProofBytes::BulkAppendTree(b),
                2 => ProofBytes::DenseTree(b),
                3 => ProofBytes::CommitmentTree(b),
                _ => ProofBytes::Merk(b),
            },
            lower_layers: if d == 0 { Default::default() } else { (0..self.r.idx(4)).map(|_| (self.key(), self.layer1(d - 1))).collect() },
        }
    }
    fn layer0(&self, d: usize) -> MerkOnlyLayerProof {
        MerkOnlyLayerProof {
            merk_proof: self.bytes(),
            lower_layers: if d == 0 { Default::default() } else { (0..self.r.idx(4)).map(|_| (self.key(), self.layer0(d - 1))).collect() },
        }
    }
    fn any(&self, f: &str, i: usize) -> X {
        let r = self.r;
        match f {
            "element" => X::El(crate::element::random(r, i)),
            "item" => X::Item(self.item()),
            "query" => X::Query(self.query(r.idx(4))),
            "branch" => X::Branch(SubqueryBranch {
                subquery_path: if r.chance(1, 2) { Some(self.path()) } else { None },
                subquery: if r.chance(1, 2) { Some(Box::new(self.query(1))) } else { None },
            }),
            "sized" => X::Sized(self.sized()),
            "pathquery" => X::Pq(PathQuery { path: self.path(), query: self.sized() }),
            "asq" => X::Asq(self.asq()),
            "aspq" => X::Aspq(AggregateSumPathQuery { path: self.path(), aggregate_sum_query: self.asq() }),
            "trunk" => X::Trunk(PathTrunkChunkQuery {
                path: self.path(),
                max_depth: r.idx(256) as u8,
                min_depth: if r.chance(1, 2) { Some(r.idx(256) as u8) } else { None },
            }),
            "branchq" => X::BranchQ(PathBranchChunkQuery { path: self.path(), key: self.bytes(), depth: r.idx(256) as u8 }),
            "op" => X::Op(self.op()),
            "feature" => X::Feat(self.feature()),
            "mmr" => X::Mmr(self.mmr()),
            "dense" => X::Dense(self.dense()),
            "bulk" => X::Bulk(BulkAppendTreeProof { chunk_proof: self.mmr(), buffer_proof: self.dense() }),
            "proof" => X::Proof(if r.chance(1, 3) {
                GroveDBProof::V0(GroveDBProofV0 {
                    root_layer: self.layer0(3),
                    prove_options: ProveOptions { decrease_limit_on_empty_sub_query_result: r.chance(1, 2) },
                })
            } else {
                GroveDBProof::V1(GroveDBProofV1 { root_layer: self.layer1(3) })
            }),
            _ => X::Ref(reference(r, &|| self.bytes())),
        }
    }
    /// bytes that were changed on the way
    fn spoil(&self, mut b: Vec<u8>) -> Vec<u8> {
        let r = self.r;
        for _ in 0..1 + r.idx(2) {
            let at = r.idx(b.len() + 1);
            match r.idx(12) {
                0 => b.truncate(at),
                1 => b.extend(r.bytes(1 + at % 3)),
                2 | 3 if at < b.len() => b[at] ^= 1 << r.idx(8),
                4 | 5 if at < b.len() => b[at] = *r.pick(&[0u8, 1, 2, 3, 9, 15, 250, 251, 252, 253, 254, 255]),
                6 => b.insert(at, r.idx(4) as u8),
                7 if at < b.len() => {
                    b.remove(at);
                }
                8 => {
                    // a number in a longer form, or an enormous one
                    let n = if at < b.len() { b[at] } else { 0 };
                    let w: Vec<u8> = match r.idx(9) {
                        0 => vec![251, 0, n],
                        1 => vec![252, 0, 0, 0, n],
                        2 => vec![253, 0, 0, 0, 0, 0, 0, 0, n],
                        3 => [&[254u8] as &[u8], &[0; 15], &[n]].concat(),
                        4 => vec![253, 255, 255, 255, 255, 255, 255, 255, 255],
                        5 => vec![253, 0, 0, 0, 0, 127, 255, 255, 255],
                        6 => vec![252, 15, 255, 255, 255],
                        7 => vec![253, 0, 0, 0, 1, 0, 0, 0, n],
                        _ => vec![251, 255, 255],
                    };
                    b.splice(at.min(b.len())..(at + 1).min(b.len()), w);
                }
                9 => {
                    // a seven-bit number in a longer form
                    let n = if at < b.len() { b[at] | 128 } else { 128 };
                    let w: Vec<u8> = match r.idx(3) {
                        0 => vec![n, 0],
                        1 => vec![n, 128, 128, 0],
                        _ => [&[n] as &[u8], &[128; 7], &[1]].concat(),
                    };
                    b.splice(at.min(b.len())..(at + 1).min(b.len()), w);
                }
                10 => b = r.bytes(at),
                _ => {
                    let from = r.idx(b.len() + 1).min(at);
                    let piece = b[from..at].to_vec();
                    b.splice(at..at, piece);
                }
            }
        }
        b
    }
    /// an operation in its long form although the value is short
    fn long_op(&self) -> Vec<u8> {
        let mut b = ed::Encode::encode(&Op::Push(self.node(*self.r.pick(&[2usize, 3, 5, 6, 7, 9, 11]), self.bytes()))).unwrap();
        let long = [(3u8, 32u8), (4, 33), (6, 34), (7, 35), (20, 36), (24, 37), (28, 46)];
        let inv = [(32u8, 40u8), (33, 41), (34, 42), (35, 43), (36, 44), (37, 45), (46, 47)];
        b[0] = long.iter().find(|x| x.0 == b[0]).unwrap().1;
        if self.r.chance(1, 2) {
            b[0] = inv.iter().find(|x| x.0 == b[0]).unwrap().1;
        }
        let at = 2 + b[1] as usize;
        b.splice(at..at, [0, 0]);
        b
    }
}
fn write(o: &mut Out, f: &'static str, x: &X) -> Vec<u8> {
    let j = x_json(x);
    let mut bytes = vec![];
    let g = guard(|| {
        let (b, lens) = x_enc(x);
        bytes = b.clone();
        let back: Vec<Value> = x_dec(f, &b).map(|r| vec![r.0]).unwrap_or_else(|e| vec![json!(e)]);
        Ok::<_, ()>(json!({"bytes": hex(b), "lens": lens, "back": back}))
    });
    o.ev(with(json!({"e": "write", "f": f, "x": j}), outcome(g, |v| v)));
    bytes
}
fn read(o: &mut Out, f: &'static str, b: &[u8]) {
    o.about(&json!({"read": f, "b": hex(b)}));
    let (g, mb) = watched(|| x_dec(f, b));
    o.ev(with(json!({"e": "read", "f": f, "b": hex(b), "mb": mb}), outcome(g, |(x, n)| json!({"x": x, "used": n}))));
}
fn ops(o: &mut Out, b: &[u8]) {
    o.about(&json!({"ops": hex(b)}));
    let (g, mb) = watched(|| {
        let mut d = Decoder::new(b);
        let mut v = vec![];
        let mut good = true;
        while let Some(r) = d.next() {
            match r {
                Ok(op) => v.push(op_json(&op)),
                Err(_) => {
                    good = false;
                    break;
                }
            }
        }
        Ok::<_, ()>(json!({"ops": v, "good": good, "left": d.remaining_bytes()}))
    });
    o.ev(with(json!({"e": "ops", "b": hex(b), "mb": mb}), outcome(g, |v| v)));
}
fn text<T: serde::Serialize + serde::de::DeserializeOwned>(o: &mut Out, f: &str, x: &T, j: impl Fn(&T) -> Value, as_text: bool) {
    let g = guard(|| {
        if as_text {
            let s = serde_json::to_string(x).map_err(|e| e.to_string())?;
            serde_json::from_str::<T>(&s).map(|y| j(&y)).map_err(|e| e.to_string())
        } else {
            let b = bincode::serde::encode_to_vec(x, cfg()).map_err(|e| e.to_string())?;
            bincode::serde::decode_from_slice::<T, _>(&b, cfg()).map(|y| j(&y.0)).map_err(|e| e.to_string())
        }
    });
    o.ev(with(json!({"e": "text", "f": f, "text": as_text, "x": j(x)}), outcome(g, |v| v)));
}
fn no_cond(q: &Query) -> bool {
    let b = |b: &SubqueryBranch| b.subquery.iter().all(|q| no_cond(q));
    q.conditional_subquery_branches.iter().flatten().next().is_none() && b(&q.default_subquery_branch)
}
pub fn run(a: &Args, o: &mut Out) {
    let r = Rng::new(a.seed ^ 0x317e);
    let g = Gen { r: &r };
    for i in 0..a.n(90, 1500) {
        for f in FORMATS {
            let x = g.any(f, i);
            let b = write(o, f, &x);
            for _ in 0..3 {
                read(o, f, &g.spoil(b.clone()));
            }
            if i % 6 == 0 {
                // cut anywhere
                for n in (0..b.len().min(60)).step_by(1 + b.len() / 8) {
                    read(o, f, &b[..n]);
                }
                read(o, f, &[&b[..], &[0, 7]].concat());
                o.end_case();
            }
        }
        o.end_case();
    }
    // hostile lengths at every place where one can be
    for f in FORMATS {
        for i in 0..a.n(4, 30) {
            let b = x_enc(&g.any(f, i)).0;
            for at in 0..b.len().min(12) {
                for w in [&[253u8, 255, 255, 255, 255, 255, 255, 255, 255][..], &[253, 0, 0, 1, 0, 0, 0, 0, 0], &[252, 255, 255, 255, 255], &[252, 16, 0, 0, 0]] {
                    let mut b = b.clone();
                    b.splice(at..at + 1, w.iter().copied());
                    read(o, f, &b);
                }
            }
            o.end_case();
        }
    }
    // and in every operation, well-known or not
    for code in 0..=255u8 {
        for claim in [[255u8; 4], [4, 0, 0, 1], [8, 0, 0, 0], [4, 0, 0, 0], [0, 255, 255, 255]] {
            if code >= 64 && claim[0] != 255 {
                continue;
            }
            for key in [0u8, 1] {
                let b = [&[code, key] as &[u8], &[7][..key as usize], &claim, &[9; 80]].concat();
                read(o, "op", &b);
                if claim[0] == 255 {
                    ops(o, &b);
                }
            }
        }
        if code % 16 == 0 {
            o.end_case();
        }
    }
    // nesting
    for d in [1usize, 2, 40, 62, 63, 64, 65, 66, 200] {
        let mut q = Query::new_single_key(vec![1]);
        for i in 0..d {
            let mut p = Query::default();
            if i % 2 == 0 {
                p.default_subquery_branch.subquery = Some(Box::new(q));
            } else {
                p.add_conditional_subquery(QueryItem::Key(vec![2]), None, Some(q));
            }
            q = p;
        }
        deep(o, "query", &enc(&q));
    }
    for d in [1usize, 60, 127, 128, 129, 130, 400] {
        let mut l = g.layer1(0);
        let mut m = g.layer0(0);
        for _ in 0..d {
            l = LayerProof { merk_proof: ProofBytes::Merk(vec![]), lower_layers: [(vec![1], l)].into() };
            m = MerkOnlyLayerProof { merk_proof: vec![], lower_layers: [(vec![1], m)].into() };
        }
        deep(o, "proof", &enc(&GroveDBProof::V1(GroveDBProofV1 { root_layer: l })));
        deep(o, "proof", &enc(&GroveDBProof::V0(GroveDBProofV0 { root_layer: m, prove_options: ProveOptions::default() })));
        let wide = LayerProof {
            merk_proof: ProofBytes::Merk(vec![]),
            lower_layers: (0..d as u16).map(|i| (i.to_be_bytes().to_vec(), g.layer1(0))).collect(),
        };
        deep(o, "proof", &enc(&GroveDBProof::V1(GroveDBProofV1 { root_layer: wide })));
    }
    for n in [1usize, 1023, 1024, 1025, 1100] {
        let mut q = Query::default();
        for i in 0..n as u16 {
            q.add_conditional_subquery(QueryItem::Key(i.to_be_bytes().to_vec()), None, None);
        }
        deep(o, "query", &enc(&q));
    }
    for n in [65535usize, 65536, 65537] {
        // that many items
        let mut q = Query::default();
        q.items = vec![QueryItem::RangeFull(..); n];
        let b = enc(&q);
        let (g, mb) = watched(|| x_dec("query", &b));
        o.ev(with(json!({"e": "items", "n": n, "mb": mb}), outcome(g, |(x, n)| json!({"items": x["items"].as_array().unwrap().len(), "left": b.len() as i64 - n}))));
        o.end_case();
    }
    // operations in sequence
    for i in 0..a.n(250, 4000) {
        let s: Vec<Op> = (0..1 + r.idx(5)).map(|_| g.op()).collect();
        let mut b = vec![];
        let ge = guard(|| {
            encode_into(s.iter(), &mut b);
            Ok::<_, ()>(hex(&b))
        });
        o.ev(with(json!({"e": "opseq", "x": s.iter().map(op_json).collect::<Vec<_>>()}), outcome(ge, |v| json!(v))));
        ops(o, &b);
        if i % 3 == 0 {
            let l = g.long_op();
            read(o, "op", &l);
            ops(o, &[&l[..], &b].concat());
            ops(o, &[&b[..], &l].concat());
        }
        ops(o, &g.spoil(b));
        o.end_case();
    }
    // every kind of node, with values around the boundary of the long form
    let reps = a.n(1, 3);
    for i in 0..12 {
        for inv in [false, true] {
            for n in [0usize, 65535, 65536, 65537].into_iter().chain((1..reps).map(|x| 65530 + 7 * x)) {
                if n > 0 && [0, 1, 4, 8, 10].contains(&i) {
                    continue;
                }
                let n = g.node(i, r.bytes(1).repeat(n));
                let op = if inv { Op::PushInverted(n) } else { Op::Push(n) };
                write(o, "op", &X::Op(op));
                o.end_case();
            }
        }
    }
    for c in 0..=255u8 {
        // every operation byte, with zeros behind it
        read(o, "op", &[&[c][..], &[0; 120]].concat());
        read(o, "item", &[&[c][..], &[1, 9, 1, 8]].concat());
        read(o, "feature", &[&[c][..], &[3; 18]].concat());
    }
    o.end_case();
    for c in [32u8, 33, 34, 35, 36, 37, 40, 44, 46, 47] {
        for len in [[4u8, 0, 0, 0], [4, 0, 0, 1], [3, 255, 255, 255], [255, 255, 255, 255], [127, 255, 255, 255]] {
            read(o, "op", &[&[c, 1, 7][..], &len, &[5; 90]].concat());
        }
    }
    o.end_case();
    for _ in 0..a.n(200, 2000) {
        let f = g.feature();
        let nt = f.node_type();
        let nt2 = [NodeType::NormalNode, NodeType::SumNode, NodeType::BigSumNode, NodeType::CountNode, NodeType::CountSumNode,
            NodeType::ProvableCountNode, NodeType::ProvableCountSumNode];
        assert!(nt2.contains(&nt));
        let gg = guard(|| {
            use grovedb_costs::TreeCostType::*;
            let sp: Vec<Value> = match f.tree_feature_specialized_type_and_length() {
                None => vec![],
                Some((TreeFeatureUsesVarIntCostAs8Bytes, n)) => vec![json!("8"), json!(n)],
                Some((TreeFeatureUsesTwoVarIntsCostAs16Bytes, n)) => vec![json!("two"), json!(n)],
                Some((TreeFeatureUses16Bytes, n)) => vec![json!("16"), json!(n)],
            };
            Ok::<_, ()>(json!({"cost": f.encoding_cost(), "nodelen": nt.feature_len(), "nodecost": nt.cost(), "special": sp,
                "count": f.count().iter().map(|x| x.to_string()).collect::<Vec<_>>(), "len": ed::Encode::encoding_length(&f).unwrap()}))
        });
        o.ev(with(json!({"e": "featcost", "x": feature_json(&f)}), outcome(gg, |v| v)));
    }
    o.end_case();
    for i in 0..a.n(120, 1500) {
        for t in [true, false] {
            text(o, "item", &mk(i, g.bytes(), g.bytes()), item_json, t);
            let q = g.query(r.idx(3));
            if !t || no_cond(&q) {
                text(o, "query", &q, query_json, t);
                text(o, "pathquery", &PathQuery { path: g.path(), query: SizedQuery { query: q, limit: g.limit(), offset: g.limit() } }, pq_json, t);
            }
            text(o, "asq", &g.asq(), asq_json, t);
            text(o, "aspq", &AggregateSumPathQuery { path: g.path(), aggregate_sum_query: g.asq() }, aspq_json, t);
            text(o, "element", &crate::element::random(&r, i), el_json, t);
        }
        o.end_case();
    }
}
/// only whether it can be read, and how far
fn deep(o: &mut Out, f: &'static str, b: &[u8]) {
    o.about(&json!({"deep": f, "len": b.len()}));
    let (g, mb) = watched(|| x_dec(f, b));
    o.ev(with(json!({"e": "deep", "f": f, "b": hex(b), "mb": mb}), outcome(g, |(_, n)| json!(n))));
    o.end_case();
}
