//! C17: what the hash functions of key-value trees compute and charge.
use grovedb_merk::{
    proofs::{tree::Tree, Node, Op},
    tree::{combine_hash, kv_digest_to_kv_hash, kv_hash, node_hash, node_hash_with_count, value_hash},
};
use vh_common::*;

use crate::wire::{op_json, Gen};

fn lengths(r: &Rng) -> usize {
    match r.idx(5) {
        0 => r.idx(10),
        1 => 20 + r.idx(16),
        2 => 26 + r.idx(10) + 64 * r.idx(3),
        3 => 60 + r.idx(6) + 64 * r.idx(4),
        _ => 120 + r.idx(12),
    }
}
fn hash(r: &Rng) -> [u8; 32] {
    r.bytes(32).try_into().unwrap()
}
macro_rules! ev {
    ($o:expr, $base:expr, $x:expr) => {{
        let g = guard(|| Ok::<_, ()>($x));
        $o.ev(with($base, outcome(g, |x| json!({"hash": hex(x.value), "calls": x.cost.hash_node_calls,
            "rest": x.cost.seek_count as u64 + x.cost.storage_loaded_bytes
                + x.cost.storage_cost.added_bytes as u64 + x.cost.storage_cost.replaced_bytes as u64}))));
    }};
}
pub fn run(a: &Args, o: &mut Out) {
    let r = Rng::new(a.seed ^ 0x4a54);
    let g = Gen { r: &r };
    for i in 0..a.n(60, 1200) {
        let v = r.bytes(if i % 25 == 7 { 16320 + r.idx(64) + 64 * r.idx(2) } else { lengths(&r) });
        let k = r.bytes(lengths(&r).min(255));
        let (x, y, z) = (hash(&r), hash(&r), hash(&r));
        let c = r.next() >> (r.idx(8) * 8);
        o.about(&json!({"k": hex(&k), "v": hex(&v)}));
        ev!(o, json!({"e": "value", "v0": hex(&v)}), value_hash(&v));
        ev!(o, json!({"e": "kv", "k": hex(&k), "v0": hex(&v)}), kv_hash(&k, &v));
        ev!(o, json!({"e": "digest", "k": hex(&k), "h": hex(x)}), kv_digest_to_kv_hash(&k, &x));
        ev!(o, json!({"e": "node", "h": [hex(x), hex(y), hex(z)]}), node_hash(&x, &y, &z));
        ev!(o, json!({"e": "count", "h": [hex(x), hex(y), hex(z)], "n": c.to_string()}), node_hash_with_count(&x, &y, &z, c));
        ev!(o, json!({"e": "combine", "h": [hex(x), hex(y)]}), combine_hash(&x, &y));
        for j in 0..12 {
            let mut n: Node = g.node(j, r.bytes(lengths(&r)));
            if let Node::KV(k, _) | Node::KVDigest(k, _) | Node::KVRefValueHash(k, ..) | Node::KVRefValueHashCount(k, ..) = &mut n {
                *k = r.bytes(lengths(&r).min(255));
            }
            let t = Tree::from(n.clone());
            ev!(o, json!({"e": "proofnode", "x": op_json(&Op::Push(n))}), t.hash());
        }
        o.end_case();
    }
}
