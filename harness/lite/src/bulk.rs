//! C05/C06: bulk append tree state and range proofs.
use grovedb_bulk_append_tree::{
    BulkAppendError, BulkAppendTree as Tree, BulkAppendTreeProof as Proof, DenseTreeProof, deserialize_chunk_blob,
    serialize_chunk_blob,
};
use grovedb_merkle_mountain_range::MmrTreeProof;
use grovedb_query::{Query, QueryItem};
use vh_common::*;

use crate::{
    memctx::MemCtx,
    q::{items_json, mk, query_of},
};

type Pairs = Vec<(u64, Vec<u8>)>;
fn pairs(v: &Pairs) -> Value {
    json!(v.iter().map(|(p, x)| json!([p, hex(x)])).collect::<Vec<_>>())
}
fn hexes(v: &[Vec<u8>]) -> Value {
    json!(v.iter().map(hex).collect::<Vec<_>>())
}
/// lengths are mostly equal within a history, so that both chunk encodings occur
struct Vals(u64, usize);
impl Vals {
    fn new(r: &Rng) -> Self {
        Vals(r.below(4), *r.pick(&[0usize, 1, 8, 32, 40]))
    }
    fn next(&self, r: &Rng) -> Vec<u8> {
        match self.0 {
            0 => r.bytes(self.1),
            1 if r.chance(7, 8) => r.bytes(self.1),
            // lengths around one length, so that sums of lengths mislead
            3 => r.bytes((self.1 + 1).saturating_sub(r.idx(3))),
            _ => {
                let n = r.idx(12);
                r.bytes(n)
            }
        }
    }
}

fn item(r: &Rng, n: u64) -> QueryItem {
    let key = |r: &Rng| -> Vec<u8> {
        let p = match r.below(12) {
            0 => u64::MAX,
            1 => 0,
            2 => n,
            3 => u64::MAX - 1,
            4 => (1 << 16) + r.below(4),
            _ => r.below(n + 3),
        };
        let b = p.to_be_bytes();
        let lz = (p.leading_zeros() / 8).min(7) as usize;
        match r.below(16) {
            0 => vec![],
            1 => vec![0; 9],
            2..=8 => b.to_vec(),
            _ => b[r.idx(lz + 1)..].to_vec(),
        }
    };
    let (a, b) = (key(r), key(r));
    mk(r.idx(10), a, b)
}
fn dense_item(r: &Rng, n: u64) -> QueryItem {
    let key = |r: &Rng| match r.below(4) {
        0 => vec![r.below(n + 2) as u8],
        _ => (r.below(n + 2) as u16).to_be_bytes().to_vec(),
    };
    let (a, b) = (key(r), key(r));
    mk(r.idx(10), a, b)
}

fn look(o: &mut Out, t: &Tree<MemCtx>, r: &Rng) {
    o.ev(json!({"e": "info", "count": t.total_count, "chunks": t.chunk_count(), "buf": t.buffer_count(), "h": t.height(), "mmr": t.mmr_size()}));
    let x = guard(|| t.compute_current_state_root());
    o.ev(with(json!({"e": "root"}), outcome(x, |h| json!(hex(h)))));
    for p in [0, t.buffer_count().saturating_sub(1), t.buffer_count(), r.below(9) as u16] {
        let x = guard(|| t.get_buffer_value(p));
        o.ev(with(json!({"e": "buf", "pos": p}), outcome(x, |v| json!({"some": v.is_some(), "val": hex(v.unwrap_or_default())}))));
    }
    for i in [0, t.chunk_count().saturating_sub(1), t.chunk_count(), r.below(9)] {
        let x = guard(|| t.get_chunk_value(i));
        o.ev(with(json!({"e": "chunk", "idx": i}), outcome(x, |v| json!({"some": v.is_some(), "val": hex(v.unwrap_or_default())}))));
    }
    let mut ix: Vec<u64> = (0..t.chunk_count()).filter(|_| r.chance(1, 2)).collect();
    if r.chance(1, 8) {
        ix.push(t.chunk_count());
    }
    if r.chance(1, 6) {
        ix.reverse();
    }
    let x = guard(|| {
        let q = t.query_chunks(&ix)?;
        let size = t.mmr_size();
        let leaves: Vec<(u64, Vec<u8>)> = q.chunks.iter().map(|(i, e)| (*i, serialize_chunk_blob(e).unwrap())).collect();
        let p = MmrTreeProof::new(size, leaves.clone(), q.mmr_proof_items.clone());
        let proves = p.verify(&q.mmr_root).map(|v| v == leaves).unwrap_or(false);
        Ok::<_, BulkAppendError>((q, proves))
    });
    o.ev(with(json!({"e": "chunks", "ix": ix}), outcome(x, |(q, proves)| {
        json!({"chunks": q.chunks.iter().map(|(i, e)| json!([i, hexes(e)])).collect::<Vec<_>>(), "root": hex(q.mmr_root), "proves": proves})
    })));
    let items: Vec<QueryItem> = (0..r.idx(3)).map(|_| dense_item(r, t.buffer_count() as u64)).collect();
    let x = guard(|| {
        let q = query_of(items.clone(), true);
        let b = t.query_buffer(&q)?;
        let dr = t.dense_tree().root_hash().value.unwrap();
        let proves = b.proof.verify_for_query::<Vec<(u16, Vec<u8>)>>(&q, t.height(), t.buffer_count()).map(|(h, v)| h == dr && v == b.entries).unwrap_or(false);
        Ok::<_, BulkAppendError>((b, proves))
    });
    o.ev(with(json!({"e": "bufq", "items": items_json(&items)}), outcome(x, |(b, p)| {
        json!({"entries": b.entries.iter().map(|(p, v)| json!([p, hex(v)])).collect::<Vec<_>>(), "proves": p})
    })));
}

fn run(o: &mut Out, sched: &[Value], r: &Rng, look_den: u64) {
    o.ev(json!({"e": "new"}));
    let mut t: Option<Tree<MemCtx>> = None;
    let mut saved: (u64, std::collections::BTreeMap<Vec<u8>, Vec<u8>>) = (0, Default::default());
    for op in sched {
        let k = op["op"].as_str().unwrap();
        if k == "create" {
            let h = op["h"].as_u64().unwrap() as u8;
            match guard(|| Tree::new(h, MemCtx::default())) {
                Ok(Ok(tr)) => {
                    o.ev(json!({"e": "create", "h": h, "st": "ok", "v": {"cap": tr.capacity(), "epoch": tr.epoch_size()}}));
                    t = Some(tr)
                }
                x => o.ev(with(json!({"e": "create", "h": h}), outcome(x, |_| json!(0)))),
            }
            continue;
        }
        let Some(tr) = &mut t else { continue };
        let h = tr.height();
        match k {
            "append" => {
                let v = unhex(op["v"].as_str().unwrap());
                let fr = op["fr"].as_u64().unwrap_or(0) as u32;
                let c = &tr.dense_tree.storage;
                c.fail_read.set(fr);
                c.fail_write.set(op["fw"].as_u64().unwrap_or(0) as u32);
                c.faults.set(0);
                let x = guard(|| tr.append(&v));
                let c = &tr.dense_tree.storage;
                let fault = c.faults.get() > 0;
                c.fail_read.set(0);
                c.fail_write.set(0);
                let failed = !matches!(x, Ok(Ok(_)));
                o.ev(with(json!({"e": "append", "val": hex(&v), "fault": fault}), outcome(x, |a| {
                    json!({"root": hex(a.state_root), "pos": a.global_position, "hashes": a.hash_count, "compacted": a.compacted})
                })));
                if failed && fr > 0 {
                    // a handle whose append failed on a read is discarded
                    tr.dense_tree.storage.data.replace(saved.1.clone());
                    let ctx = std::mem::take(&mut tr.dense_tree.storage);
                    let x = guard(|| Tree::from_state(saved.0, h, ctx));
                    let st = if let Ok(Ok(n)) = x { t = Some(n); "ok" } else { t = None; "err" };
                    o.ev(json!({"e": "drop", "st": st}));
                    continue;
                }
            }
            "commit" => {
                let c = &tr.dense_tree.storage;
                c.faults.set(0);
                c.fail_write.set(op["fw"].as_u64().unwrap_or(0) as u32);
                let x = guard(|| tr.commit_mmr());
                let c = &tr.dense_tree.storage;
                c.fail_write.set(0);
                let fault = c.faults.get() > 0;
                o.ev(with(json!({"e": "commit", "fault": fault}), outcome(x, |_| json!(0))));
            }
            "save" => {
                let x = guard(|| tr.commit_mmr());
                o.ev(with(json!({"e": "commit", "fault": false}), outcome(x, |_| json!(0))));
                saved = (tr.total_count, tr.dense_tree.storage.data.borrow().clone());
                o.ev(json!({"e": "save"}));
            }
            "reopen" | "drop" => {
                let mut n = tr.total_count;
                if k == "drop" {
                    n = saved.0;
                    tr.dense_tree.storage.data.replace(saved.1.clone());
                }
                let ctx = std::mem::take(&mut tr.dense_tree.storage);
                let x = guard(|| Tree::from_state(n, h, ctx));
                let st = if let Ok(Ok(n)) = x { t = Some(n); "ok" } else { t = None; "err" };
                o.ev(json!({"e": k, "st": st}));
            }
            _ => unreachable!(),
        }
        if let Some(tr) = &t
            && r.chance(1, look_den)
        {
            look(o, tr, r);
        }
    }
    if let Some(tr) = &t {
        look(o, tr, r);
    }
    o.end_case();
}

pub fn state(a: &Args, o: &mut Out) {
    let r = Rng::new(a.seed ^ 5);
    for s in a.read_schedules() {
        run(o, s.as_array().unwrap(), &r, 4);
    }
    for _ in 0..a.n(60, 600) {
        let h = 1 + r.below(4) as u8;
        let vs = Vals::new(&r);
        let mut pending = 0u64; // chunks not committed
        let mut n = 0u64;
        let ep = 1u64 << h;
        let mut saved = 0u64;
        let mut s = vec![json!({"op": "create", "h": h})];
        for _ in 0..r.idx(if h > 2 { 90 } else { 50 }) {
            match r.below(12) {
                0 => {
                    s.push(json!({"op": "commit", "fw": 0}));
                    pending = 0;
                }
                1 if pending > 0 => {
                    s.push(json!({"op": "commit", "fw": 1 + r.below(pending)}));
                }
                2 => {
                    s.push(json!({"op": "save"}));
                    (pending, saved) = (0, n);
                }
                3 if pending == 0 => s.push(json!({"op": "reopen"})),
                4 if r.chance(1, 4) => {
                    s.push(json!({"op": "drop"}));
                    (n, pending) = (saved, 0);
                }
                5 if r.chance(1, 4) && n % ep < ep - 1 => s.push(json!({"op": "append", "v": "fa", "fw": 1})),
                _ => {
                    n += 1;
                    if n % ep == 0 {
                        pending += 1;
                    }
                    s.push(json!({"op": "append", "v": hex(vs.next(&r))}));
                }
            }
        }
        o.about(&json!(s));
        run(o, &s, &r, 5);
    }
    // appends hit by a failing read, at every read
    for fr in 1..a.n(6, 12) {
        for n in [3u64, 4, 5, 7, 8, 11] {
            let mut s = vec![json!({"op": "create", "h": 2})];
            for i in 0..n {
                s.push(json!({"op": "append", "v": hex([i as u8])}));
            }
            s.push(json!({"op": "save"}));
            s.push(json!({"op": "reopen"}));
            s.push(json!({"op": "append", "v": "aabb", "fr": fr}));
            for i in 0..6 {
                s.push(json!({"op": "append", "v": hex([i as u8, 1])}));
            }
            run(o, &s, &r, 2);
        }
    }
    o.ev(json!({"e": "new"}));
    for h in [0u8, 1, 15, 16, 17, 32, 255] {
        let x = guard(|| Tree::new(h, MemCtx::default()));
        if !(1..=16).contains(&h) {
            o.ev(with(json!({"e": "create", "h": h}), outcome(x, |_| json!(0))));
        }
        for c in [0u64, 1, 65535, 65536, u64::MAX] {
            let x = guard(|| Tree::from_state(c, h, MemCtx::default()));
            o.ev(with(json!({"e": "badopen", "h": h}), outcome(x, |_| json!(0))));
        }
    }
    o.end_case();
    // chunk blobs: all small shapes, then random ones
    o.ev(json!({"e": "new"}));
    for n in 1..=4u32 {
        for mut code in 0..4usize.pow(n) {
            let mut vals: Vec<Vec<u8>> = Vec::new();
            for i in 0..n {
                vals.push(vec![i as u8; code % 4]);
                code /= 4;
            }
            let x = guard(|| {
                let b = serialize_chunk_blob(&vals)?;
                Ok::<_, BulkAppendError>((deserialize_chunk_blob(&b)?, b))
            });
            o.ev(with(json!({"e": "ser", "vals": hexes(&vals)}), outcome(x, |(v, b)| json!({"blob": hex(b), "back": hexes(&v)}))));
        }
    }
    o.end_case();
    for _ in 0..a.n(60, 1500) {
        o.ev(json!({"e": "new"}));
        let vs = Vals::new(&r);
        let vals: Vec<Vec<u8>> = (0..r.idx(9)).map(|_| vs.next(&r)).collect();
        let x = guard(|| {
            let b = serialize_chunk_blob(&vals)?;
            Ok::<_, BulkAppendError>((deserialize_chunk_blob(&b)?, b))
        });
        o.ev(with(json!({"e": "ser", "vals": hexes(&vals)}), outcome(x, |(v, b)| json!({"blob": hex(b), "back": hexes(&v)}))));
        let Ok(b) = serialize_chunk_blob(&vals) else { continue };
        for _ in 0..8 {
            let mut b = b.clone();
            match r.below(8) {
                0 if !b.is_empty() => b.truncate(r.idx(b.len())),
                1 => b.push(r.below(3) as u8),
                2 if !b.is_empty() => b[0] = r.below(4) as u8,
                3 if b.len() > 8 => b[4] ^= 1 << r.below(3),
                4 if b.len() > 8 => b[8] ^= 1 << r.below(3),
                5 if b.len() > 8 => {
                    let j = 1 + r.idx(8);
                    b[j] = *r.pick(&[0, 1, 0x10, 0x80, 0xff])
                }
                6 => {
                    // headers with extreme counts and sizes
                    b = vec![1];
                    for _ in 0..2 {
                        b.extend(r.pick(&[0u32, 1, 1 << 20, (1 << 20) + 1, 1 << 31, u32::MAX, 65536]).to_be_bytes());
                    }
                    if b[1..5] == [0, 0x10, 0, 0] && b[5..9] == [0; 4] {
                        b.push(0); // 2^20 empty entries are valid, but too many to write down
                    }
                }
                _ if !b.is_empty() => {
                    let j = r.idx(b.len());
                    b[j] ^= 1 << r.below(8);
                }
                _ => {}
            }
            o.about(&json!({"de": hex(&b)}));
            let x = guard(|| deserialize_chunk_blob(&b));
            o.ev(with(json!({"e": "de", "b": hex(&b)}), outcome(x, |v| hexes(&v))));
        }
        o.end_case();
    }
}

struct B {
    t: Tree<MemCtx>,
    vals: Vec<Vec<u8>>,
    h: u8,
    root: [u8; 32],
}
fn build(r: &Rng, h: u8, vals: Vec<Vec<u8>>) -> B {
    let mut t = Tree::new(h, MemCtx::default()).unwrap();
    for v in &vals {
        t.append(v).unwrap();
    }
    if r.chance(1, 2) {
        t.commit_mmr().unwrap();
        if r.chance(1, 2) {
            let ctx = std::mem::take(&mut t.dense_tree.storage);
            t = Tree::from_state(vals.len() as u64, h, ctx).unwrap();
        }
    }
    let root = t.compute_current_state_root().unwrap();
    B { t, vals, h, root }
}
fn shown(p: &Proof, b: &B, whole: Option<(u64, u64)>) -> Result<Result<Value, BulkAppendError>, String> {
    guard(|| {
        let v = p.verify(&b.root, b.h, b.vals.len() as u64)?;
        let (s, e) = whole.unwrap_or((0, u64::MAX));
        let rg = match v.values_in_range(s, e) {
            Ok(x) => x,
            Err(BulkAppendError::CorruptedData(_)) => vec![],
            Err(e) => return Err(e),
        };
        Ok(json!({"chunks": v.chunk_blobs.iter().map(|(i, x)| json!([i, hex(x)])).collect::<Vec<_>>(),
            "dense": v.dense_entries.iter().map(|(i, x)| json!([i, hex(x)])).collect::<Vec<_>>(),
            "range": pairs(&rg)}))
    })
}
fn forged(o: &mut Out, b: &B, p: &Proof, how: &str, must: Option<&str>, items: &[QueryItem]) {
    o.count("forgeries_tried", 1);
    let x = guard(|| p.verify_against_query::<Pairs>(&b.root, b.h, b.vals.len() as u64, &query_of(items.to_vec(), true)));
    if matches!(x, Ok(Ok(_))) {
        o.count("forgeries_verified", 1);
    }
    let mut e = with(json!({"e": "forged", "how": how, "items": items_json(items), "sub": false, "proof": hex(p.encode_to_vec().unwrap_or_default())}), outcome(x, |v| pairs(&v)));
    if let Some(m) = must {
        e["must"] = json!(m);
    }
    o.ev(e);
    let mut e = with(json!({"e": "show", "how": how}), outcome(shown(p, b, None), |v| v));
    if let Some(m) = must {
        e["must"] = json!(m);
    }
    o.ev(e);
}

fn alter(o: &mut Out, b: &B, p: &Proof, other: &Proof, items: &[QueryItem], r: &Rng) {
    let mk = |size: u64, l: Vec<(u64, Vec<u8>)>, i: Vec<[u8; 32]>| MmrTreeProof::new(size, l, i);
    let (size, leaves, its) = (p.chunk_proof.mmr_size(), p.chunk_proof.leaves().to_vec(), p.chunk_proof.proof_items().to_vec());
    let chunk = |l: Vec<(u64, Vec<u8>)>, i: Vec<[u8; 32]>| Proof { chunk_proof: mk(size, l, i), buffer_proof: p.buffer_proof.clone() };
    let n = b.vals.len() as u64;
    if size > 0 {
        let k = r.idx(leaves.len());
        let ents = deserialize_chunk_blob(&leaves[k].1).unwrap();
        let mut variants: Vec<Vec<Vec<u8>>> = vec![];
        let mut x = ents.clone();
        x[0].push(1);
        variants.push(x);
        let mut x = ents.clone();
        x.pop();
        variants.push(x);
        let mut x = ents.clone();
        x.push(b"extra".to_vec());
        variants.push(x);
        variants.push(vec![]);
        for v in variants {
            let blob = serialize_chunk_blob(&v).unwrap();
            let mut l = leaves.clone();
            l[k].1 = blob.clone();
            forged(o, b, &chunk(l, its.clone()), "blob", Some("err"), items);
            let mut l = leaves.clone();
            l.insert(k, (leaves[k].0, blob.clone()));
            forged(o, b, &chunk(l, its.clone()), "dup-before", Some("err"), items);
            let mut l = leaves.clone();
            l.push((leaves[k].0, blob.clone()));
            forged(o, b, &chunk(l, its.clone()), "dup-after", None, items);
            let mut l = leaves.clone();
            l.push((n / (1 << b.h), blob));
            forged(o, b, &chunk(l, its.clone()), "beyond", Some("err"), items);
        }
        let mut l = leaves.clone();
        l.remove(k);
        forged(o, b, &chunk(l, its.clone()), "drop-chunk", None, items);
        let mut l = leaves.clone();
        let e = l.remove(k);
        let mut ii = its.clone();
        let at = r.idx(ii.len() + 1);
        ii.insert(at, *blake3::hash(&[&[0u8][..], &e.1].concat()).as_bytes());
        forged(o, b, &chunk(l, ii), "chunk-to-hash", None, items);
        if leaves.len() > 1 {
            let k2 = (k + 1) % leaves.len();
            let mut l = leaves.clone();
            let t = l[k].1.clone();
            l[k].1 = l[k2].1.clone();
            l[k2].1 = t;
            forged(o, b, &chunk(l, its.clone()), "swap", None, items);
            let mut l = leaves.clone();
            l.swap(k, k2);
            forged(o, b, &chunk(l, its.clone()), "reorder", None, items);
        }
        let mut l = leaves.clone();
        l[k].0 = r.below(n / (1 << b.h));
        forged(o, b, &chunk(l, its.clone()), "renumber", None, items);
        for s2 in [0, 1, size + 1, size.saturating_sub(1), size * 2] {
            if s2 != size {
                let mut x = p.clone();
                x.chunk_proof = mk(s2, leaves.clone(), its.clone());
                forged(o, b, &x, "mmr-size", Some("err"), items);
            }
        }
        if !its.is_empty() {
            let mut i2 = its.clone();
            let k = r.idx(i2.len());
            i2[k][5] ^= 1;
            forged(o, b, &chunk(leaves.clone(), i2), "item-bit", Some("err"), items);
            let mut i2 = its.clone();
            i2.pop();
            forged(o, b, &chunk(leaves.clone(), i2), "drop-item", None, items);
        }
    } else {
        let mut x = p.clone();
        x.chunk_proof = mk(0, vec![(0, serialize_chunk_blob(&[b"ghost".to_vec()]).unwrap())], vec![]);
        forged(o, b, &x, "ghost-chunk", None, items);
        x.chunk_proof = mk(1, vec![(0, serialize_chunk_blob(&[b"ghost".to_vec()]).unwrap())], vec![]);
        forged(o, b, &x, "ghost-chunk-1", Some("err"), items);
    }
    // the buffer's part
    let go = |o: &mut Out, f: &dyn Fn(&mut DenseTreeProof), how: &str, must: Option<&str>| {
        let mut x = p.clone();
        f(&mut x.buffer_proof);
        forged(o, b, &x, how, must, items);
    };
    let bn = (n % (1 << b.h)) as u16;
    go(o, &|d| d.entries.push((bn, b"ghost".to_vec())), "buf-beyond", Some("err"));
    go(o, &|d| d.node_hashes.push((bn, [7; 32])), "buf-beyond-hash", if bn == 0 { Some("err") } else { None });
    go(o, &|d| d.node_value_hashes.push((bn, [7; 32])), "buf-beyond-vhash", if bn == 0 { Some("err") } else { None });
    if !p.buffer_proof.entries.is_empty() {
        let k = r.idx(p.buffer_proof.entries.len());
        go(o, &|d| d.entries[k].1.push(3), "buf-value", Some("err"));
        go(o, &|d| { d.entries.remove(k); }, "buf-drop", None);
        go(o, &|d| { let e = d.entries.remove(k); d.node_value_hashes.push((e.0, *blake3::hash(&e.1).as_bytes())) }, "buf-hash", None);
        go(o, &|d| d.entries.clear(), "buf-clear", None);
        go(o, &|d| { d.entries.clear(); d.node_value_hashes.clear(); d.node_hashes = vec![(0, b.t.dense_tree().root_hash().value.unwrap())] }, "buf-root", None);
    }
    // parts of another tree's proof
    let mut x = p.clone();
    x.buffer_proof = other.buffer_proof.clone();
    forged(o, b, &x, "splice-buffer", None, items);
    let mut x = p.clone();
    x.chunk_proof = other.chunk_proof.clone();
    forged(o, b, &x, "splice-chunks", None, items);
    // any bytes
    let bytes = p.encode_to_vec().unwrap();
    for _ in 0..2 {
        let mut x = bytes.clone();
        if x.is_empty() {
            break;
        }
        let j = r.idx(x.len());
        match r.below(3) {
            0 => x.truncate(j),
            1 => x[j] = *r.pick(&[0, 1, 0x7f, 0xfb, 0xfc, 0xfd, 0xff]),
            _ => x[j] ^= 1 << r.below(8),
        }
        o.about(&json!({"bytes": hex(&x)}));
        match guard(|| Proof::decode_from_slice(&x)) {
            Ok(Ok(d)) => forged(o, b, &d, "bytes", None, items),
            y => o.ev(with(json!({"e": "bytes", "x": hex(&x)}), outcome(y, |_| json!(0)))),
        }
    }
    // wrong parameters never crash
    for (h, c) in [(0u8, n), (17, n), (255, u64::MAX), (16, u64::MAX), (1, u64::MAX), (b.h, u64::MAX), (b.h, n + 1)] {
        let q = query_of(vec![], true);
        let y = guard(|| p.verify_against_query::<Pairs>(&b.root, h, c, &q));
        o.ev(with(json!({"e": "bytes", "h2": h}), outcome(y, |_| json!(0))));
    }
}

pub fn proof(a: &Args, o: &mut Out) {
    let r = Rng::new(a.seed ^ 6);
    let mut prev: Option<Proof> = None;
    for round in 0..a.n(60, 700) {
        let h = 1 + r.below(4) as u8;
        let vs = Vals::new(&r);
        let n = match r.below(8) {
            0 => r.below(3),
            1 => (1 << h) * r.below(4),
            2 => (1 << h) - 1,
            _ => r.below(if h < 3 { 26 } else { 60 }),
        };
        let n = if round < 3 { round as u64 } else { n };
        let b = build(&r, h, (0..n).map(|_| vs.next(&r)).collect());
        o.ev(json!({"e": "new", "vals": hexes(&b.vals), "h": h, "root": hex(b.root)}));
        for k in 0..10 {
            let items: Vec<QueryItem> = if k == 0 { vec![QueryItem::RangeFull(..)] } else { (0..r.idx(4)).map(|_| item(&r, n)).collect() };
            let mut q = query_of(items.clone(), r.chance(1, 2));
            let sub = r.chance(1, 14);
            if sub {
                q.set_subquery(Query::new());
            }
            o.about(&json!({"items": items_json(&items), "n": n, "h": h}));
            let g = guard(|| {
                let p = Proof::generate(&q, &b.t)?;
                let v: Pairs = p.verify_against_query(&b.root, h, n, &q)?;
                let c: Pairs = Proof::decode_from_slice(&p.encode_to_vec()?)?.verify_against_query(&b.root, h, n, &q)?;
                let (root, _) = p.verify_and_compute_root(h, n)?;
                Ok::<_, BulkAppendError>((p, json!({"answer": pairs(&v), "coded": pairs(&c), "root": hex(root)})))
            });
            let p = if let Ok(Ok((p, _))) = &g { Some(p.clone()) } else { None };
            o.ev(with(json!({"e": "gen", "items": items_json(&items), "sub": sub}), outcome(g, |v| v.1)));
            let Some(p) = p else { continue };
            if k == 0 && n > 0 {
                // everything is proved: any range of it can be read off
                let (s, e) = (r.below(n), r.below(n + 1));
                let (s, e) = (s.min(e), s.max(e));
                o.ev(with(json!({"e": "show", "how": "honest", "must": "ok", "whole": [s, e]}), outcome(shown(&p, &b, Some((s, e))), |v| v)));
            }
            let other: Vec<QueryItem> = (0..1 + r.idx(2)).map(|_| item(&r, n)).collect();
            forged(o, &b, &p, "other-query", None, &other);
            if k % 3 == 0 {
                alter(o, &b, &p, prev.as_ref().unwrap_or(&p), &items, &r);
                prev = Some(p);
            }
        }
        o.end_case();
    }
}
