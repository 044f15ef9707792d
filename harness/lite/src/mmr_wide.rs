//! MMRs of up to 2^61 leaves: all leaves but the last few hold one value, so that every node can be made up on demand.
use std::cell::RefCell;
use std::collections::BTreeMap;

use grovedb_costs::{CostResult, CostsExt};
use grovedb_merkle_mountain_range as m;
use m::{MMR, MMRStoreReadOps, MMRStoreWriteOps, MerkleProof, MmrNode, MmrTreeProof};
use vh_common::*;

struct Wide {
    n: u64,
    d: Vec<u8>,
    /// perfect trees over d by height
    tab: Vec<MmrNode>,
    more: RefCell<BTreeMap<u64, MmrNode>>,
}
/// height of the node at a position of an MMR
fn height(mut pos: u64) -> u32 {
    let mut h = 62;
    loop {
        let below = (1u64 << h) - 1; // nodes of each subtree of a node of height h
        if pos == 2 * below {
            return h;
        }
        if pos >= below {
            pos -= below
        }
        h -= 1;
    }
}
fn size_of(n: u64) -> u64 {
    2 * n - n.count_ones() as u64
}
impl Wide {
    fn new(n: u64, d: Vec<u8>) -> Wide {
        let mut tab = vec![MmrNode::leaf(d.clone())];
        for h in 0..63 {
            let mut x = blake3::Hasher::new();
            x.update(&[1]).update(&tab[h].hash()).update(&tab[h].hash());
            tab.push(MmrNode::internal(*x.finalize().as_bytes()));
        }
        Wide { n, d, tab, more: RefCell::default() }
    }
    fn node(&self, pos: u64) -> Option<MmrNode> {
        if pos < size_of(self.n) {
            Some(self.tab[height(pos) as usize].clone())
        } else {
            self.more.borrow().get(&pos).cloned()
        }
    }
}
impl MMRStoreReadOps for &Wide {
    fn element_at_position(&self, pos: u64) -> CostResult<Option<MmrNode>, m::Error> {
        Ok(self.node(pos)).wrap_with_cost(Default::default())
    }
}
impl MMRStoreWriteOps for &Wide {
    fn append(&mut self, pos: u64, elems: Vec<MmrNode>) -> CostResult<(), m::Error> {
        for (i, x) in elems.into_iter().enumerate() {
            self.more.borrow_mut().insert(pos + i as u64, x);
        }
        Ok(()).wrap_with_cost(Default::default())
    }
}
fn claims(v: &[(u64, Vec<u8>)]) -> Value {
    json!(v.iter().map(|(i, x)| json!([i.to_string(), hex(x)])).collect::<Vec<_>>())
}
fn forged(o: &mut Out, root: [u8; 32], size: u64, leaves: Vec<(u64, Vec<u8>)>, items: Vec<[u8; 32]>, how: &str, must: Option<&str>) {
    o.count("forgeries_tried", 1);
    let p = MmrTreeProof::new(size, leaves.clone(), items);
    let a = guard(|| p.verify(&root));
    let z = guard(|| p.verify_and_get_root().and_then(|(h, v)| if h == root { Ok(v) } else { Err(m::Error::InvalidProof("other root".into())) }));
    for (by, x) in [("verify", a), ("get_root", z)] {
        let mut e = with(json!({"e": "forged", "how": how, "by": by, "claims": claims(&leaves)}), outcome(x, |v| claims(&v)));
        if let Some(m) = must {
            e["must"] = json!(m);
        }
        o.ev(e);
    }
}
pub fn wide(a: &Args, o: &mut Out) {
    let r = Rng::new(a.seed ^ 0x31de);
    for round in 0..a.n(40, 400) {
        let k = 1 + r.below(60) as u32;
        let n = match round % 5 {
            0 => (1u64 << k) - 1,
            1 => 1u64 << k,
            2 => (1u64 << k) + r.below(1 << k),
            // long runs of ones at the low end, to be closed by the next push
            3 => (((1u64 << k) + r.below(1 << k)) | ((1u64 << r.below(k as u64 + 1)) - 1)) & (u64::MAX >> 3),
            _ => ((1u64 << k) - 1) << r.below(61 - k as u64 + 1),
        };
        let d = r.bytes(3);
        let w = Wide::new(n, d.clone());
        o.about(&json!({"wide": n.to_string()}));
        o.ev(json!({"e": "new", "n": n.to_string(), "d": hex(&d), "size": size_of(n).to_string()}));
        let mut mmr = MMR::new(size_of(n), &w);
        let mut vals: Vec<Vec<u8>> = vec![];
        let root = |o: &mut Out, mmr: &MMR<&Wide>| {
            let x = guard(|| mmr.get_root().value);
            o.ev(with(json!({"e": "root"}), outcome(x, |y| json!(hex(y.hash())))));
        };
        root(o, &mmr);
        for _ in 0..r.idx(6) {
            let v = r.bytes(2);
            let hashes = guard(|| Ok::<_, ()>(m::hash_count_for_push(n + vals.len() as u64)));
            let h = match hashes { Ok(Ok(h)) => h, _ => u32::MAX >> 1 };
            let x = guard(|| mmr.push(MmrNode::leaf(v.clone())).value);
            let size = mmr.mmr_size.to_string();
            o.ev(with(json!({"e": "push", "val": hex(&v)}), outcome(x, |p| json!({"pos": p.to_string(), "size": size, "hashes": h}))));
            vals.push(v);
            if r.chance(1, 2) {
                root(o, &mmr);
            }
            if r.chance(1, 3) {
                let _ = guard(|| mmr.commit().value);
                mmr = MMR::new(mmr.mmr_size, &w);
            }
        }
        let _ = guard(|| mmr.commit().value);
        root(o, &mmr);
        let total = n + vals.len() as u64;
        let size = mmr.mmr_size;
        let at = |i: u64| if i < n { d.clone() } else { vals[(i - n) as usize].clone() };
        // interesting indices: the ends of the peaks, the pushed values, anywhere
        let mut ends = vec![0u64];
        for h in (0..63).rev() {
            if total >> h & 1 == 1 {
                ends.push(ends.last().unwrap() + (1 << h));
            }
        }
        let pick = |r: &Rng| -> u64 {
            match r.below(4) {
                0 => r.pick(&ends).saturating_sub(r.below(2)),
                1 => r.pick(&ends).saturating_add(r.below(2)),
                2 => total - 1 - r.below(8.min(total)),
                _ => r.below(total),
            }
        };
        for _ in 0..4 {
            let i = pick(&r);
            let x = guard(|| Ok::<_, ()>(json!({"pos": m::leaf_index_to_pos(i).to_string(), "size": m::leaf_index_to_mmr_size(i).to_string(),
                "count": m::mmr_size_to_leaf_count(m::leaf_index_to_mmr_size(i)).to_string()})));
            o.ev(with(json!({"e": "arith", "i": i.to_string()}), outcome(x, |v| v)));
        }
        let top = match guard(|| mmr.get_root().value) { Ok(Ok(x)) => x.hash(), _ => continue };
        for _ in 0..4 {
            let mut ix: Vec<u64> = (0..1 + r.idx(4)).map(|_| pick(&r)).collect();
            if !r.chance(1, 6) {
                let mut seen = std::collections::BTreeSet::new();
                ix.retain(|i| *i < total && seen.insert(*i));
            }
            let go = || MmrTreeProof::generate(size, &ix, |p| Ok(w.node(p)));
            let g = guard(|| {
                go().and_then(|p| {
                    let v = p.verify(&top)?;
                    let (h, v2) = p.verify_and_get_root()?;
                    let c = MmrTreeProof::decode_from_slice(&p.encode_to_vec()?)?.verify(&top)?;
                    Ok(json!({"size": p.mmr_size().to_string(), "leaves": claims(p.leaves()), "verified": claims(&v), "root": hex(h),
                        "verified2": claims(&v2), "coded": claims(&c)}))
                })
            });
            o.ev(with(json!({"e": "gen", "ix": ix.iter().map(|i| i.to_string()).collect::<Vec<_>>()}), outcome(g, |v| v)));
            let Ok(Ok(p)) = guard(go) else { continue };
            let (leaves, items) = (p.leaves().to_vec(), p.proof_items().to_vec());
            let k = r.idx(leaves.len());
            let mut x = leaves.clone();
            x[k].1.push(1);
            forged(o, top, size, x, items.clone(), "value", Some("err"));
            let mut x = leaves.clone();
            x[k].0 ^= 1 << r.below(62);
            forged(o, top, size, x, items.clone(), "moved", None);
            let mut x = leaves.clone();
            x[k].0 = pick(&r);
            x[k].1 = at(leaves[k].0);
            forged(o, top, size, x, items.clone(), "moved", None);
            let mut x = leaves.clone();
            x.push((total + r.below(3), d.clone()));
            forged(o, top, size, x, items.clone(), "beyond", Some("err"));
            let mut x = leaves.clone();
            x.push((pick(&r).min(total - 1), vec![0; 3]));
            forged(o, top, size, x, items.clone(), "extra", None);
            if !items.is_empty() {
                let j = r.idx(items.len());
                let mut y = items.clone();
                y[j][r.idx(32)] ^= 1;
                forged(o, top, size, leaves.clone(), y, "item", Some("err"));
                let mut y = items.clone();
                y.remove(j);
                forged(o, top, size, leaves.clone(), y, "drop", Some("err"));
                let mut y = items.clone();
                y.insert(j, [7; 32]);
                forged(o, top, size, leaves.clone(), y, "add", Some("err"));
            }
        }
        // what was added since n
        if !vals.is_empty() {
            let before = MMR::new(size_of(n), &w).get_root().value.unwrap();
            let pos = (n..total).map(m::leaf_index_to_pos).collect();
            let mut go = |p: &MerkleProof, prev: MmrNode, added: &[Vec<u8>], must: bool| {
                let x = guard(|| p.verify_incremental(MmrNode::internal(top), prev, added.iter().map(|v| MmrNode::leaf(v.clone())).collect()));
                o.ev(with(json!({"e": "incr", "must": must}), outcome(x, |v| json!(v))));
            };
            if let Ok(Ok(p)) = guard(|| mmr.gen_proof(pos).value) {
                go(&p, before.clone(), &vals, true);
                let mut x = vals.clone();
                x[0].push(0);
                go(&p, before.clone(), &x, false);
                go(&p, before.clone(), &vals[1..], false);
                go(&p, MmrNode::internal([1; 32]), &vals, false);
            }
        }
        // the next root, from a proof of the last leaf
        if let Ok(Ok(p)) = guard(|| mmr.gen_proof(vec![m::leaf_index_to_pos(total - 1)]).value) {
            let v = r.bytes(2);
            let x = guard(|| {
                p.calculate_root_with_new_leaf(
                    vec![(m::leaf_index_to_pos(total - 1), MmrNode::leaf(at(total - 1)))],
                    m::leaf_index_to_pos(total),
                    MmrNode::leaf(v.clone()),
                    m::leaf_index_to_mmr_size(total),
                )
            });
            o.ev(with(json!({"e": "next", "val": hex(&v)}), outcome(x, |y| json!(hex(y.hash())))));
        }
        o.end_case();
    }
}
