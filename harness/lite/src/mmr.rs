//! C01/C02: Merkle Mountain Range state and proofs.
use std::cell::RefCell;

use grovedb_merkle_mountain_range as m;
use m::{MMR, MMRStoreReadOps, MMRStoreWriteOps, MemStore, MerkleProof, MmrNode, MmrStore, MmrTreeProof};
use vh_common::*;

use crate::memctx::MemCtx;

fn val(r: &mut Rng) -> Vec<u8> {
    match r.below(10) {
        0 => vec![],
        1 => vec![0; r.idx(3) + 1],
        2 => r.bytes(64),
        3 => r.bytes(65),
        4 => r.bytes(33),
        5 => vec![r.below(3) as u8],
        _ => {
            let n = r.idx(12);
            r.bytes(n)
        }
    }
}
fn node_json(n: Option<MmrNode>) -> Value {
    match n {
        Some(n) => {
            json!({"some": true, "hash": hex(n.hash()), "leaf": n.value().is_some(), "val": hex(n.value().unwrap_or(&[]))})
        }
        None => json!({"some": false}),
    }
}

/// Run one schedule against an MMR over a given store.
fn run<S>(o: &mut Out, store: &S, sched: &[Value], probe: &mut Rng, dense_probe: bool)
where
    S: ?Sized,
    for<'a> &'a S: MMRStoreReadOps + MMRStoreWriteOps,
{
    o.ev(json!({"e": "new"}));
    let mut mmr = MMR::new(0, store);
    let mut stored_size = 0u64;
    for op in sched {
        match op["op"].as_str().unwrap() {
            "push" => {
                let v = unhex(op["v"].as_str().unwrap());
                let r = guard(|| mmr.push(MmrNode::leaf(v.clone())).value);
                let size = mmr.mmr_size;
                o.ev(with(json!({"e": "push", "val": hex(&v)}), outcome(r, |p| json!({"pos": p, "size": size}))));
            }
            "commit" => {
                let r = guard(|| mmr.commit().value);
                if matches!(r, Ok(Ok(_))) {
                    stored_size = mmr.mmr_size;
                }
                o.ev(with(json!({"e": "commit"}), outcome(r, |_| json!(0))));
            }
            "reopen" => {
                mmr = MMR::new(stored_size, store);
                o.ev(json!({"e": "reopen", "size": mmr.mmr_size}));
            }
            "handover" => {
                let size = mmr.mmr_size;
                let ov = mmr.batch.take_overlay();
                mmr = MMR::new_with_overlay(size, store, ov);
                o.ev(json!({"e": "handover", "size": mmr.mmr_size}));
            }
            "look" => {}
            x => panic!("op {x}"),
        }
        if dense_probe || probe.chance(1, 3) {
            let r = guard(|| mmr.get_root().value);
            o.ev(with(json!({"e": "root"}), outcome(r, |n| json!(hex(n.hash())))));
        }
        if probe.chance(1, 2) {
            o.ev(json!({"e": "size", "size": mmr.mmr_size, "empty": mmr.is_empty()}));
            let pos = probe.below(mmr.mmr_size + 3);
            let r = guard(|| mmr.batch.element_at_position(pos).value);
            o.ev(with(json!({"e": "node", "pos": pos}), outcome(r, node_json)));
            let pos = probe.below(mmr.mmr_size + 2);
            let r = guard(|| store.element_at_position(pos).value);
            o.ev(with(json!({"e": "snode", "pos": pos}), outcome(r, node_json)));
        }
    }
    // final full look
    let r = guard(|| mmr.get_root().value);
    o.ev(with(json!({"e": "root"}), outcome(r, |n| json!(hex(n.hash())))));
    let step = (mmr.mmr_size / 40).max(1);
    let mut pos = 0;
    while pos < mmr.mmr_size + 2 {
        let r = guard(|| mmr.batch.element_at_position(pos).value);
        o.ev(with(json!({"e": "node", "pos": pos}), outcome(r, node_json)));
        pos += step;
    }
    o.end_case();
}

pub fn state(a: &Args, o: &mut Out) {
    let mut r = Rng::new(a.seed);
    // behaviours of the specification
    for s in a.read_schedules() {
        let ops = s.as_array().unwrap().clone();
        o.about(&s);
        if r.chance(1, 2) {
            let st = MemStore::default();
            run(o, &st, &ops, &mut r, true);
        } else {
            let ctx = MemCtx::default();
            let st = if r.chance(1, 2) { MmrStore::new(&ctx) } else { MmrStore::with_key_size(&ctx, m::MmrKeySize::U32) };
            run(o, &st, &ops, &mut r, true);
        }
    }
    // longer random histories
    for _ in 0..a.n(30, 400) {
        let n = 5 + r.idx(a.n(60, 160));
        let mut ops = vec![];
        let burst = r.chance(1, 2);
        for _ in 0..n {
            ops.push(match r.below(12) {
                0 => json!({"op": "commit"}),
                1 if !burst => json!({"op": "reopen"}),
                2 => json!({"op": "handover"}),
                3 => json!({"op": "look"}),
                _ => json!({"op": "push", "v": hex(val(&mut r))}),
            });
        }
        o.about(&json!(ops));
        let ctx = MemCtx::default();
        let st = MmrStore::new(&ctx);
        run(o, &st, &ops, &mut r, false);
    }
    o.ev(json!({"e": "new"}));
    for i in 0..a.n(200, 1500) as u64 {
        let r = guard(|| Ok::<_, ()>(()).map(|_| {
            json!({"leafpos": m::leaf_index_to_pos(i), "size": m::leaf_index_to_mmr_size(i),
                "count": m::mmr_size_to_leaf_count(m::leaf_index_to_mmr_size(i)), "hashes": m::hash_count_for_push(i)})
        }));
        o.ev(with(json!({"e": "arith", "i": i}), outcome(r, |v| v)));
    }
    o.end_case();
    o.ev(json!({"e": "new"}));
    for k in 10..62u32 {
        for j in [0u64, 1, 2, 3, 6, 7, 8, 12, 500] {
            let i = (1u64 << k) + j;
            let r = guard(|| Ok::<_, ()>(()).map(|_| {
                json!({"leafpos": m::leaf_index_to_pos(i).to_string(), "size": m::leaf_index_to_mmr_size(i).to_string(),
                    "count": m::mmr_size_to_leaf_count(m::leaf_index_to_mmr_size(i)).to_string(), "hashes": m::hash_count_for_push(i)})
            }));
            o.ev(with(json!({"e": "barith", "k": k, "j": j}), outcome(r, |v| v)));
        }
    }
    o.end_case();
    o.ev(json!({"e": "new"}));
    for p in [0u64, 1, 255, 256, 65535, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, 1 << 32, (1 << 62) + 5] {
        let r = guard(|| Ok::<_, ()>(()).map(|_| {
            json!({"plain": hex(m::mmr_node_key(p)),
                "k64": m::mmr_node_key_sized(p, m::MmrKeySize::U64).map(hex).unwrap_or("err".into()),
                "k32": m::mmr_node_key_sized(p, m::MmrKeySize::U32).map(hex).unwrap_or("err".into())})
        }));
        o.ev(with(json!({"e": "key", "pos": p.to_string()}), outcome(r, |v| v)));
    }
    // node encodings
    for i in 0..a.n(150, 1500) {
        let leaf = i % 3 != 0;
        let v = if leaf { val(&mut r) } else { r.bytes(32) };
        let n = if leaf { MmrNode::leaf(v.clone()) } else { MmrNode::internal(v.clone().try_into().unwrap()) };
        let enc = guard(|| n.serialize());
        let bytes = match &enc {
            Ok(Ok(b)) => b.clone(),
            _ => vec![],
        };
        let back = guard(|| MmrNode::deserialize(&bytes).map(|x| x == n && x.value() == n.value()).unwrap_or(false)).unwrap_or(false);
        o.ev(with(json!({"e": "ser", "leaf": leaf, "val": hex(&v)}),
            outcome(enc, |b| json!({"bytes": hex(&b), "size": n.serialized_size(), "back": back, "hash": hex(n.hash())}))));
        // mutations
        for _ in 0..4 {
            let mut b = bytes.clone();
            match r.below(7) {
                0 => b.truncate(r.idx(b.len() + 1)),
                1 => b.push(r.below(3) as u8),
                2 => {
                    let i = r.idx(b.len());
                    b[i] ^= 1 << r.below(8);
                }
                3 => b[0] = r.below(4) as u8,
                4 if b.len() > 37 => {
                    let k = b.len() - 1;
                    b[k] ^= 0x80;
                }
                5 if b.len() > 36 => b[33 + r.idx(4)] = *r.pick(&[0, 1, 0xff]),
                _ => {
                    let n = r.idx(45);
                    b = r.bytes(n)
                }
            }
            if b.is_empty() {
                continue;
            }
            o.about(&json!({"de": hex(&b)}));
            let d = guard(|| MmrNode::deserialize(&b));
            o.ev(with(json!({"e": "de", "b": hex(&b)}), outcome(d, |x| {
                json!({"hash": hex(x.hash()), "leaf": x.value().is_some(), "val": hex(x.value().unwrap_or(&[])),
                    "again": x.serialize().map(hex).unwrap_or("err".into())})
            })));
        }
        let l: [u8; 32] = r.bytes(32).try_into().unwrap();
        let q: [u8; 32] = r.bytes(32).try_into().unwrap();
        o.ev(with(json!({"e": "merge", "a": hex(l), "b": hex(q)}),
            outcome(guard(|| Ok::<_, ()>(MmrNode::merge(&MmrNode::internal(l), &MmrNode::internal(q)))), |x| json!(hex(x.hash())))));
        if i % 20 == 0 {
            o.end_case();
            o.ev(json!({"e": "new"}));
        }
    }
    o.end_case();
}

struct Built {
    vals: Vec<Vec<u8>>,
    store: MemStore,
    size: u64,
    root: [u8; 32],
}
fn build(vals: Vec<Vec<u8>>) -> Built {
    let store = MemStore::default();
    let mut mmr = MMR::new(0, &store);
    for v in &vals {
        mmr.push(MmrNode::leaf(v.clone())).value.unwrap();
    }
    mmr.commit().value.unwrap();
    let size = mmr.mmr_size;
    let root = mmr.get_root().value.unwrap().hash();
    drop(mmr);
    Built { vals, store, size, root }
}
impl Built {
    fn gen_(&self, ix: &[u64]) -> Result<MmrTreeProof, m::Error> {
        let s = &self.store;
        MmrTreeProof::generate(self.size, ix, |p| s.element_at_position(p).value)
    }
    fn new_case(&self, o: &mut Out) {
        o.ev(json!({"e": "new", "leaves": self.vals.iter().map(hex).collect::<Vec<_>>(), "root": hex(self.root), "size": self.size}));
    }
    /// every hash an attacker can see or build by bagging
    fn pool(&self) -> Vec<[u8; 32]> {
        let mut p: Vec<[u8; 32]> = (0..self.size)
            .map(|i| (&self.store).element_at_position(i).value.unwrap().unwrap().hash())
            .collect();
        p.push(self.root);
        // bagged right-hand sides
        let mmr = MMR::new(self.size, &self.store);
        for i in 0..self.vals.len() as u64 {
            if let Ok(pr) = mmr.gen_proof(vec![m::leaf_index_to_pos(i)]).value {
                for n in pr.proof_items() {
                    p.push(n.hash());
                }
            }
        }
        p.sort();
        p.dedup();
        p
    }
}
fn claims(v: &[(u64, Vec<u8>)]) -> Value {
    json!(v.iter().map(|(i, x)| json!([clamp(*i), hex(x)])).collect::<Vec<_>>())
}
/// indices as JSON integers TLC can read
fn clamp(i: u64) -> u64 {
    i.min(1 << 30)
}

fn forged(o: &mut Out, b: &Built, leaves: Vec<(u64, Vec<u8>)>, items: Vec<[u8; 32]>, how: &str, must: Option<&str>, log_all: bool) {
    o.about(&json!({"forged": how, "n": b.vals.len(), "claims": claims(&leaves), "items": items.len()}));
    o.count("forgeries_tried", 1);
    let p = MmrTreeProof::new(b.size, leaves.clone(), items.clone());
    let r = guard(|| p.verify(&b.root));
    let r2 = guard(|| {
        p.verify_and_get_root().and_then(|(h, v)| if h == b.root { Ok(v) } else { Err(m::Error::InvalidProof("other root".into())) })
    });
    for (which, r) in [("verify", r), ("get_root", r2)] {
        if matches!(r, Ok(Err(_))) && !log_all {
            continue;
        }
        if matches!(r, Ok(Ok(_))) {
            o.count("forgeries_verified", 1);
        }
        let mut e = with(json!({"e": "forged", "how": how, "by": which, "claims": claims(&leaves),
            "items": items.iter().map(hex).collect::<Vec<_>>()}), outcome(r, |v| claims(&v)));
        if let Some(m) = must {
            e["must"] = json!(m);
        }
        o.ev(e);
    }
}

pub fn proof(a: &Args, o: &mut Out) {
    let mut r = Rng::new(a.seed ^ 0xC02);
    // 1. exhaustive attacker on small MMRs: one claimed leaf, up to 3 proof items from everything it can see
    for n in 1..=a.n(6, 8) {
        let b = build((0..n).map(|i| vec![i as u8 + 1; (i % 3) + 1]).collect());
        b.new_case(o);
        let pool = b.pool();
        let max_items = if n <= 4 { 4 } else { 3 };
        for idx in 0..n as u64 {
            for v in 0..n {
                let mut stack: Vec<Vec<[u8; 32]>> = vec![vec![]];
                while let Some(items) = stack.pop() {
                    forged(o, &b, vec![(idx, b.vals[v].clone())], items.clone(), "attacker", None, false);
                    if items.len() < max_items {
                        for h in &pool {
                            let mut x = items.clone();
                            x.push(*h);
                            stack.push(x);
                        }
                    }
                }
            }
        }
        // two claimed leaves, up to 2 items
        for i in 0..n as u64 {
            for j in 0..n as u64 {
                for (vi, vj) in [(0usize, n - 1), (n - 1, 0), (i as usize, j as usize), (j as usize, i as usize)] {
                    for k in 0..=pool.len() {
                        for k2 in 0..=pool.len() {
                            if k == pool.len() && k2 != k {
                                continue;
                            }
                            let mut items = vec![];
                            if k < pool.len() {
                                items.push(pool[k]);
                            }
                            if k2 < pool.len() {
                                items.push(pool[k2]);
                            }
                            forged(o, &b, vec![(i, b.vals[vi].clone()), (j, b.vals[vj].clone())], items, "attacker2", None, false);
                        }
                    }
                }
            }
        }
        o.end_case();
    }
    // 2. honest proofs of every subset of small MMRs, random subsets of larger ones, and altered proofs
    for round in 0..a.n(40, 300) {
        let n = if round < 9 { round + 1 } else { 1 + r.idx(a.n(40, 120)) };
        let b = build((0..n).map(|i| if r.chance(1, 4) { val(&mut r) } else { vec![i as u8, r.below(4) as u8] }).collect());
        b.new_case(o);
        let subsets: Vec<Vec<u64>> = if n <= 4 {
            (0..1u32 << n).map(|m| (0..n as u64).filter(|i| m >> i & 1 == 1).collect()).collect()
        } else {
            (0..10)
                .map(|k| {
                    let mut ix: Vec<u64> = (0..n as u64).collect();
                    r.shuffle(&mut ix);
                    ix.truncate(if k == 0 { n } else { 1 + r.idx(5.min(n)) });
                    match k {
                        7 => ix.push(ix[0]),
                        8 => ix.push(n as u64),
                        9 => ix.push(n as u64 + 1 + r.below(50)),
                        _ => {}
                    }
                    ix
                })
                .collect()
        };
        for ix in subsets {
            o.about(&json!({"gen": ix, "n": n}));
            let g = guard(|| b.gen_(&ix));
            let proof = match &g {
                Ok(Ok(p)) => Some(p.clone()),
                _ => None,
            };
            let g = guard(|| {
                b.gen_(&ix).and_then(|p| {
                    let v = p.verify(&b.root)?;
                    let (h, v2) = p.verify_and_get_root()?;
                    let c = MmrTreeProof::decode_from_slice(&p.encode_to_vec()?)?.verify(&b.root)?;
                    Ok(json!({"size": p.mmr_size(), "leaves": claims(p.leaves()), "verified": claims(&v), "root": hex(h),
                        "verified2": claims(&v2), "coded": claims(&c)}))
                })
            });
            o.ev(with(json!({"e": "gen", "ix": ix}), outcome(g, |v| v)));
            let Some(p) = proof else { continue };
            let leaves = p.leaves().to_vec();
            let items = p.proof_items().to_vec();
            // structured alterations; "must": rejected by the documented rules
            let mut l2 = leaves.clone();
            let k = r.idx(l2.len());
            l2[k].1.push(7);
            forged(o, &b, l2, items.clone(), "value", Some("err"), true);
            let mut l2 = leaves.clone();
            l2.push((n as u64 + r.below(4), b.vals[0].clone()));
            forged(o, &b, l2, items.clone(), "beyond", Some("err"), true);
            let mut l2 = leaves.clone();
            l2.push((u64::MAX - r.below(3), b.vals[0].clone()));
            forged(o, &b, l2, items.clone(), "huge", Some("err"), true);
            let mut l2 = leaves.clone();
            l2.push((leaves[k].0, vec![9, 9, 9]));
            forged(o, &b, l2, items.clone(), "dup-after", None, true);
            let mut l2 = leaves.clone();
            l2.insert(0, (leaves[k].0, vec![9, 9, 9]));
            forged(o, &b, l2, items.clone(), "dup-before", Some("err"), true);
            forged(o, &b, vec![], items.clone(), "no-leaves", Some("err"), true);
            let mut l2 = leaves.clone();
            l2.reverse();
            forged(o, &b, l2, items.clone(), "reversed", None, true);
            if n > 1 {
                let other = (leaves[k].0 + 1 + r.below(n as u64 - 1)) % n as u64;
                let mut l2 = leaves.clone();
                l2[k].0 = other;
                forged(o, &b, l2, items.clone(), "moved", None, true);
                let mut l2 = leaves.clone();
                l2.push((other, vec![1, 2, 3, 4]));
                forged(o, &b, l2, items.clone(), "extra-leaf", None, true);
                let mut l2 = leaves.clone();
                l2.push((other, b.vals[leaves[k].0 as usize].clone()));
                forged(o, &b, l2, items.clone(), "extra-leaf", None, true);
            }
            let mut it = items.clone();
            it.push(b.root);
            forged(o, &b, leaves.clone(), it, "extra-item", if n > 1 { Some("err") } else { None }, true);
            let mut it = items.clone();
            it.push(r.bytes(32).try_into().unwrap());
            it.push(r.bytes(32).try_into().unwrap());
            forged(o, &b, leaves.clone(), it, "extra-items", if n > 1 { Some("err") } else { None }, true);
            if !items.is_empty() {
                let mut it = items.clone();
                it.remove(r.idx(items.len()));
                forged(o, &b, leaves.clone(), it, "drop-item", Some("err"), true);
                let mut it = items.clone();
                let j = r.idx(it.len());
                it[j][r.idx(32)] ^= 1;
                forged(o, &b, leaves.clone(), it, "item-bit", Some("err"), true);
                let mut it = items.clone();
                it.rotate_left(1);
                forged(o, &b, leaves.clone(), it, "rotate-items", None, true);
            }
            // decoding and verifying damaged bytes never crashes; what still verifies tells the truth
            let bytes = p.encode_to_vec().unwrap();
            for _ in 0..4 {
                let mut x = bytes.clone();
                match r.below(4) {
                    0 => x.truncate(r.idx(x.len())),
                    1 => {
                        let j = r.idx(x.len());
                        x[j] = *r.pick(&[0, 1, 0x7f, 0xfb, 0xfc, 0xfd, 0xff]);
                    }
                    _ => {
                        let j = r.idx(x.len());
                        x[j] ^= 1 << r.below(8);
                    }
                }
                o.about(&json!({"bytes": hex(&x)}));
                let q = guard(|| MmrTreeProof::decode_from_slice(&x));
                match q {
                    Ok(Ok(q)) if q.mmr_size() == b.size => {
                        let r = guard(|| q.verify(&b.root));
                        o.ev(with(json!({"e": "forged", "how": "bytes", "x": hex(&x)}), outcome(r, |v| claims(&v))));
                    }
                    Ok(Ok(q)) => {
                        let r = guard(|| q.verify(&b.root));
                        o.ev(with(json!({"e": "bytes", "x": hex(&x)}), outcome(r, |_| json!(0))));
                    }
                    q => o.ev(with(json!({"e": "bytes", "x": hex(&x)}), outcome(q, |_| json!(0)))),
                }
            }
        }
        generic(o, &b, &mut r);
        o.end_case();
    }
}

fn generic(o: &mut Out, b: &Built, r: &mut Rng) {
    let n = b.vals.len() as u64;
    let mmr = MMR::new(b.size, &b.store);
    let leaf = |i: u64| MmrNode::leaf(b.vals[i as usize].clone());
    for _ in 0..3 {
        let mut ix: Vec<u64> = (0..n).collect();
        r.shuffle(&mut ix);
        ix.truncate(1 + r.idx(4.min(n as usize)));
        let Ok(Ok(p)) = guard(|| mmr.gen_proof(ix.iter().map(|i| m::leaf_index_to_pos(*i)).collect()).value) else {
            o.ev(json!({"e": "generic", "st": "err", "claims": [], "must": true}));
            continue;
        };
        let root = MmrNode::internal(b.root);
        let mut go = |cl: Vec<(u64, Vec<u8>)>, must: Option<bool>| {
            let lv: Vec<(u64, MmrNode)> = cl.iter().map(|(i, v)| (m::leaf_index_to_pos(*i), MmrNode::leaf(v.clone()))).collect();
            let res = guard(|| p.verify(root.clone(), lv));
            let mut e = with(json!({"e": "generic", "claims": claims(&cl)}), outcome(res, |v| json!(v)));
            if let Some(m) = must {
                e["must"] = json!(m);
            }
            o.ev(e);
        };
        let honest: Vec<(u64, Vec<u8>)> = ix.iter().map(|i| (*i, b.vals[*i as usize].clone())).collect();
        go(honest.clone(), Some(true));
        let mut x = honest.clone();
        x[0].1.push(1);
        go(x, Some(false));
        let mut x = honest.clone();
        x.swap_remove(0);
        if !x.is_empty() {
            go(x, None);
        }
        // node positions that are not leaves are refused
        if b.size > 2 {
            let res = guard(|| p.verify(root.clone(), vec![(2, leaf(0))]));
            o.ev(with(json!({"e": "generic", "claims": [], "must": false}), outcome(res, |v| json!(v))));
            let res = guard(|| mmr.gen_proof(vec![2]).value);
            o.ev(json!({"e": "bytes", "st": if matches!(res, Ok(Err(_))) {"err"} else {"panic"}, "why": "gen_proof of an inner node"}));
        }
        let res = guard(|| mmr.gen_proof(vec![m::leaf_index_to_pos(n + r.below(3))]).value);
        o.ev(json!({"e": "bytes", "st": if matches!(res, Ok(Err(_))) {"err"} else {"panic"}, "why": "gen_proof beyond the end"}));
    }
    // incremental: the proof is the old peaks
    for _ in 0..3 {
        let prev = 1 + r.below(n);
        if prev == n && n > 1 && r.chance(1, 2) {
            continue;
        }
        let prev_b = build(b.vals[..prev as usize].to_vec());
        let pos: Vec<u64> = (prev..n).map(m::leaf_index_to_pos).collect();
        let p = match guard(|| mmr.gen_proof(pos).value) {
            Ok(Ok(p)) if prev < n => p,
            _ => MerkleProof::new(b.size, peaks_of(&prev_b)),
        };
        let mut go = |p: &MerkleProof, prev_root: [u8; 32], added: Vec<Vec<u8>>, must: Option<bool>| {
            let res = guard(|| {
                p.verify_incremental(MmrNode::internal(b.root), MmrNode::internal(prev_root), added.iter().map(|v| MmrNode::leaf(v.clone())).collect())
            });
            let mut e = with(json!({"e": "incr", "prev": n - (added.len() as u64).min(n), "prevroot": hex(prev_root),
                "added": added.iter().map(hex).collect::<Vec<_>>()}), outcome(res, |v| json!(v)));
            if let Some(m) = must {
                e["must"] = json!(m);
            }
            o.ev(e);
        };
        let added = b.vals[prev as usize..].to_vec();
        go(&p, prev_b.root, added.clone(), if prev < n { Some(true) } else { None });
        if !added.is_empty() {
            let mut x = added.clone();
            let j = r.idx(x.len());
            x[j].push(3);
            go(&p, prev_b.root, x, Some(false));
            let mut x = added.clone();
            x.remove(0);
            go(&p, prev_b.root, x, Some(false));
        }
        go(&p, [7; 32], added.clone(), Some(false));
        go(&p, b.root, b.vals.clone(), Some(false));
    }
    // next root from the proof of the last leaf
    let Ok(Ok(p)) = guard(|| mmr.gen_proof(vec![m::leaf_index_to_pos(n - 1)]).value) else { return };
    let v = val(r);
    let new_pos = m::leaf_index_to_pos(n);
    let new_size = m::leaf_index_to_mmr_size(n);
    let res = guard(|| p.calculate_root_with_new_leaf(vec![(m::leaf_index_to_pos(n - 1), leaf(n - 1))], new_pos, MmrNode::leaf(v.clone()), new_size));
    o.ev(with(json!({"e": "next", "val": hex(&v)}), outcome(res, |x| json!(hex(x.hash())))));
}
fn peaks_of(b: &Built) -> Vec<MmrNode> {
    let mut out = vec![];
    let mut n = b.vals.len() as u64;
    let mut pos = 0u64;
    while n > 0 {
        let c = 1u64 << (63 - n.leading_zeros());
        pos += 2 * c - 1;
        out.push((&b.store).element_at_position(pos - 1).value.unwrap().unwrap());
        n -= c;
    }
    out
}
#[allow(unused)]
fn _unused(_: RefCell<()>) {}
