//! C03/C04: dense fixed-size Merkle tree state and proofs.
use grovedb_dense_fixed_sized_merkle_tree::{DenseFixedSizedMerkleTree as Tree, DenseMerkleError, DenseTreeProof};
use grovedb_query::{Query, QueryItem};
use vh_common::*;

use crate::{
    memctx::MemCtx,
    q::{item_json, items_json, mk},
};

fn val(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0 => vec![],
        1 => r.bytes(32),
        2 => r.bytes(96),
        3 => vec![r.below(2) as u8],
        _ => {
            let n = r.idx(10);
            r.bytes(n)
        }
    }
}

fn run(o: &mut Out, sched: &[Value], r: &mut Rng, look: u64) {
    o.ev(json!({"e": "new"}));
    let mut t: Option<Tree<MemCtx>> = None;
    for op in sched {
        match op["op"].as_str().unwrap() {
            "create" => {
                let h = op["h"].as_u64().unwrap() as u8;
                let x = guard(|| Tree::new(h, MemCtx::default()));
                match x {
                    Ok(Ok(tr)) => {
                        o.ev(json!({"e": "create", "h": h, "st": "ok", "v": tr.capacity()}));
                        t = Some(tr)
                    }
                    x => o.ev(with(json!({"e": "create", "h": h}), outcome(x, |_| json!(0)))),
                }
            }
            k @ ("insert" | "try") => {
                let Some(tr) = &mut t else { continue };
                let v = unhex(op["v"].as_str().unwrap());
                tr.storage.fail_write.set(op["fw"].as_u64().unwrap_or(0) as u32);
                tr.storage.fail_read.set(op["fr"].as_u64().unwrap_or(0) as u32);
                // reads are served from the handle's cache unless it was just reopened
                tr.storage.faults.set(0);
                let mut hashes = 0;
                let res = guard(|| {
                    if k == "insert" {
                        let x = tr.insert(&v);
                        hashes = x.cost.hash_node_calls;
                        x.value.map(Some)
                    } else {
                        let x = tr.try_insert(&v);
                        hashes = x.cost.hash_node_calls;
                        x.value
                    }
                });
                let fault = tr.storage.faults.get() > 0;
                tr.storage.fail_write.set(0);
                tr.storage.fail_read.set(0);
                o.ev(with(json!({"e": k, "val": hex(&v), "fault": fault, "hashes": hashes}), outcome(res, |x| match x {
                    Some((root, pos)) => json!({"some": true, "root": hex(root), "pos": pos}),
                    None => json!({"some": false}),
                })));
            }
            "reset" => {
                let Some(tr) = &mut t else { continue };
                tr.reset();
                o.ev(json!({"e": "reset"}));
            }
            "reopen" => {
                let Some(tr) = t.take() else { continue };
                let (h, c) = (tr.height(), tr.count());
                let store = tr.storage;
                let x = guard(|| Tree::from_state(h, c, store));
                match x {
                    Ok(Ok(tr)) => {
                        t = Some(tr);
                        o.ev(json!({"e": "reopen", "st": "ok"}));
                    }
                    x => o.ev(with(json!({"e": "reopen"}), outcome(x, |_| json!(0)))),
                }
            }
            x => panic!("op {x}"),
        }
        if let Some(tr) = &t {
            if r.chance(look, 10) {
                probe(o, tr, r);
            }
        }
    }
    if let Some(tr) = &t {
        probe(o, tr, r);
        for p in 0..tr.count().saturating_add(2).min(40) {
            get(o, tr, p, 0);
        }
    }
    o.end_case();
}
fn get(o: &mut Out, t: &Tree<MemCtx>, p: u16, fr: u32) {
    t.storage.faults.set(0);
    t.storage.fail_read.set(fr);
    let x = guard(|| t.get(p).value);
    let fault = t.storage.faults.get() > 0;
    t.storage.fail_read.set(0);
    o.ev(with(json!({"e": "get", "pos": p, "fault": fault}), outcome(x, |v| json!({"some": v.is_some(), "val": hex(v.unwrap_or_default())}))));
}
fn probe(o: &mut Out, t: &Tree<MemCtx>, r: &mut Rng) {
    o.ev(json!({"e": "info", "count": t.count(), "h": t.height(), "cap": t.capacity()}));
    let fr = if r.chance(1, 6) { 1 + r.below(4) as u32 } else { 0 };
    t.storage.faults.set(0);
    t.storage.fail_read.set(fr);
    let mut hashes = 0;
    let x = guard(|| {
        let x = t.root_hash();
        hashes = x.cost.hash_node_calls;
        x.value
    });
    let fault = t.storage.faults.get() > 0;
    t.storage.fail_read.set(0);
    o.ev(with(json!({"e": "root", "fault": fault, "hashes": hashes}), outcome(x, |v| json!(hex(v)))));
    get(o, t, r.below(t.count() as u64 + 2) as u16, if r.chance(1, 8) { 1 } else { 0 });
    if r.chance(1, 20) {
        get(o, t, *r.pick(&[u16::MAX, u16::MAX - 1, t.capacity(), t.capacity().wrapping_add(1)]), 0);
    }
}

pub fn state(a: &Args, o: &mut Out) {
    let mut r = Rng::new(a.seed ^ 3);
    for s in a.read_schedules() {
        o.about(&s);
        run(o, s.as_array().unwrap(), &mut r, 10);
        // the same with a reopened handle before each faulty insert, so that reads reach the store
        if s.to_string().contains("\"fr\":1") || s.to_string().contains("\"fr\":2") {
            let mut v = vec![];
            for x in s.as_array().unwrap() {
                if x["fr"].as_u64().unwrap_or(0) > 0 {
                    v.push(json!({"op": "reopen"}));
                }
                v.push(x.clone());
            }
            run(o, &v, &mut r, 5);
        }
    }
    for i in 0..a.n(60, 600) {
        let h = if i == 0 { 16 } else { 1 + r.below(a.n(5, 7) as u64) };
        let n = if h == 16 { 20 } else { ((1 << h) + 6).min(a.n(40, 140)) + r.idx(8) };
        let mut ops = vec![json!({"op": "create", "h": h})];
        for _ in 0..n {
            ops.push(match r.below(14) {
                0 => json!({"op": "reopen"}),
                1 if r.chance(1, 6) => json!({"op": "reset"}),
                2 => json!({"op": "insert", "v": hex(val(&mut r)), "fw": 1}),
                3 => json!({"op": "try", "v": hex(val(&mut r)), "fr": 1 + r.below(5)}),
                k => json!({"op": if k % 2 == 0 {"insert"} else {"try"}, "v": hex(val(&mut r))}),
            });
            if ops.last().unwrap()["fr"].as_u64().unwrap_or(0) > 0 {
                let k = ops.len() - 1;
                ops.insert(k, json!({"op": "reopen"}));
            }
        }
        o.about(&json!(ops));
        run(o, &ops, &mut r, if h > 4 { 1 } else { 4 });
    }
    o.ev(json!({"e": "new"}));
    for h in [0u8, 1, 2, 15, 16, 17, 18, 31, 32, 33, 64, 255] {
        let x = guard(|| Tree::new(h, MemCtx::default()));
        if !(1..=16).contains(&h) {
            o.ev(with(json!({"e": "create", "h": h}), outcome(x, |_| json!(0))));
        }
        for c in [0u16, 1, 2, 3, 4, 32767, 32768, 65535] {
            let x = guard(|| Tree::from_state(h, c, MemCtx::default()));
            o.ev(with(json!({"e": "badopen", "h": h, "count": c}), outcome(x, |_| json!(0))));
        }
    }
    o.end_case();
}

type Claims = Vec<(u16, Vec<u8>)>;
fn claims(v: &[(u16, Vec<u8>)]) -> Value {
    json!(v.iter().map(|(p, x)| json!([p, hex(x)])).collect::<Vec<_>>())
}
struct B {
    t: Tree<MemCtx>,
    vals: Vec<Vec<u8>>,
    h: u8,
    root: [u8; 32],
}
fn build(h: u8, vals: Vec<Vec<u8>>) -> B {
    let mut t = Tree::new(h, MemCtx::default()).unwrap();
    for v in &vals {
        t.insert(v).value.unwrap();
    }
    let root = t.root_hash().value.unwrap();
    B { t, vals, h, root }
}
fn ql(items: &[QueryItem]) -> Query {
    let mut q = Query::new();
    q.items = items.to_vec();
    q
}
fn forged(o: &mut Out, b: &B, p: &DenseTreeProof, how: &str, must: Option<&str>, items: Option<&[QueryItem]>, log_all: bool) {
    o.count("forgeries_tried", 1);
    let n = b.vals.len() as u16;
    let desc = || {
        json!({"entries": claims(&p.entries),
        "vh": p.node_value_hashes.iter().map(|x| json!([x.0, hex(x.1)])).collect::<Vec<_>>(),
        "nh": p.node_hashes.iter().map(|x| json!([x.0, hex(x.1)])).collect::<Vec<_>>()})
    };
    let mut rs = vec![
        ("expected", None, guard(|| p.verify_against_expected_root::<Claims>(&b.root, b.h, n))),
        ("get_root", None, guard(|| {
            p.verify_and_get_root::<Claims>(b.h, n).and_then(|(h, v)| if h == b.root { Ok(v) } else { Err(DenseMerkleError::InvalidProof("root".into())) })
        })),
    ];
    if let Some(it) = items {
        rs.push(("query", Some(it), guard(|| {
            p.verify_for_query::<Claims>(&ql(it), b.h, n).and_then(|(h, v)| if h == b.root { Ok(v) } else { Err(DenseMerkleError::InvalidProof("root".into())) })
        })));
    }
    for (by, it, x) in rs {
        if matches!(x, Ok(Err(_))) && !log_all {
            continue;
        }
        if matches!(x, Ok(Ok(_))) {
            o.count("forgeries_verified", 1);
        }
        let mut e = with(json!({"e": "forged", "how": how, "by": by, "proof": desc()}), outcome(x, |v| claims(&v)));
        if let Some(it) = it {
            e["items"] = items_json(it);
        }
        if let Some(m) = must {
            e["must"] = json!(m);
        }
        o.ev(e);
    }
}
fn rand_item(r: &mut Rng, n: u16) -> QueryItem {
    let key = |r: &mut Rng| -> Vec<u8> {
        let p = match r.below(12) {
            0 => 65535,
            1 => 0,
            2 => n,
            3 => 65534,
            _ => r.below(n as u64 + 3) as u16,
        };
        match r.below(14) {
            0 => vec![],
            1 => vec![0, 0, p as u8],
            x if x % 2 == 0 && p < 256 => vec![p as u8],
            _ => p.to_be_bytes().to_vec(),
        }
    };
    let (a, b) = (key(r), key(r));
    mk(r.idx(10), a, b)
}

pub fn proof(a: &Args, o: &mut Out) {
    let mut r = Rng::new(a.seed ^ 4);
    // 1. exhaustive attacker on small trees: at every position any combination of
    //    true entry / false entry / true value hash / true node hash
    for h in 1..=a.n(3, 3) as u8 {
        for n in 1..=((1usize << h) - 1).min(a.n(4, 5)) {
            let b = build(h, (0..n).map(|i| vec![i as u8 + 1; i % 3]).collect());
            o.ev(json!({"e": "new", "vals": b.vals.iter().map(hex).collect::<Vec<_>>(), "h": h, "root": hex(b.root)}));
            // true node hashes by position, from honest proofs
            let mut nh: Vec<Option<[u8; 32]>> = vec![None; n];
            nh[0] = Some(b.root);
            for p in 0..n as u16 {
                let pr = DenseTreeProof::generate(&b.t, &[p]).value.unwrap();
                for (q, x) in pr.node_hashes {
                    if (q as usize) < n {
                        nh[q as usize] = Some(x);
                    }
                }
            }
            for i in (0..n).rev() {
                if nh[i].is_none() {
                    nh[i] = Some([0; 32]);
                }
            }
            let opts = 16usize;
            let total = opts.pow(n as u32);
            let mut k = 0usize;
            while k < total {
                let mut p = DenseTreeProof { entries: vec![], node_value_hashes: vec![], node_hashes: vec![] };
                let mut c = k;
                for pos in 0..n {
                    let m = c % opts;
                    c /= opts;
                    if m & 1 != 0 {
                        p.entries.push((pos as u16, b.vals[pos].clone()));
                    }
                    if m & 2 != 0 {
                        p.entries.push((pos as u16, b.vals[(pos + 1) % n].iter().copied().chain([9]).collect()));
                    }
                    if m & 4 != 0 {
                        p.node_value_hashes.push((pos as u16, *blake3::hash(&b.vals[pos]).as_bytes()));
                    }
                    if m & 8 != 0 {
                        p.node_hashes.push((pos as u16, nh[pos].unwrap()));
                    }
                }
                forged(o, &b, &p, "attacker", None, None, false);
                k += 1;
                if n >= 5 {
                    k += r.idx(13);
                }
            }
            o.end_case();
        }
    }
    // 2. honest proofs and queries, and altered ones
    for round in 0..a.n(70, 700) {
        let h = if round == 0 { 16 } else { 1 + r.below(5) as u8 };
        let cap = (1usize << h) - 1;
        let n = match r.below(5) {
            0 if cap < 64 => cap,
            1 => r.idx(3).min(cap),
            _ => r.idx(cap.min(30) + 1),
        };
        let b = build(h, (0..n).map(|_| val(&mut r)).collect());
        o.ev(json!({"e": "new", "vals": b.vals.iter().map(hex).collect::<Vec<_>>(), "h": h, "root": hex(b.root)}));
        for _ in 0..6 {
            let mut pos: Vec<u16> = (0..1 + r.idx(4)).map(|_| r.below(n as u64 + if r.chance(1, 6) { 3 } else { 0 }) as u16).collect();
            if r.chance(1, 8) {
                pos.clear();
            }
            if r.chance(1, 30) {
                pos.push(u16::MAX);
            }
            o.about(&json!({"gen": pos, "n": n, "h": h}));
            let g = guard(|| {
                let p = DenseTreeProof::generate(&b.t, &pos).value?;
                let v: Claims = p.verify_against_expected_root(&b.root, h, n as u16)?;
                let (root, _): (_, Claims) = p.verify_and_get_root(h, n as u16)?;
                let c: Claims = DenseTreeProof::decode_from_slice(&p.encode_to_vec()?)?.verify_against_expected_root(&b.root, h, n as u16)?;
                Ok::<_, DenseMerkleError>(json!({"entries": claims(&p.entries), "verified": claims(&v), "coded": claims(&c), "root": hex(root)}))
            });
            o.ev(with(json!({"e": "gen", "pos": pos}), outcome(g, |v| v)));
        }
        for _ in 0..8 {
            let items: Vec<QueryItem> = (0..r.idx(4)).map(|_| rand_item(&mut r, n as u16)).collect();
            let mut q = ql(&items);
            let sub = r.chance(1, 12);
            if sub {
                q.set_subquery(Query::new());
            }
            o.about(&json!({"query": items.iter().map(item_json).collect::<Vec<_>>(), "n": n, "h": h}));
            let g = guard(|| {
                let p = DenseTreeProof::generate_for_query(&b.t, &q).value?;
                let (root, v): (_, Claims) = p.verify_for_query(&q, h, n as u16)?;
                Ok::<_, DenseMerkleError>(json!({"verified": claims(&v), "root": hex(root)}))
            });
            o.ev(with(json!({"e": "query", "items": items_json(&items), "sub": sub}), outcome(g, |v| v)));
            let Ok(Ok(p)) = guard(|| DenseTreeProof::generate_for_query(&b.t, &ql(&items)).value) else { continue };
            // the proof of one query offered for another
            let other: Vec<QueryItem> = (0..1 + r.idx(2)).map(|_| rand_item(&mut r, n as u16)).collect();
            forged(o, &b, &p, "other-query", None, Some(&other), true);
            alter(o, &b, &p, &items, &mut r);
        }
        o.end_case();
    }
}

fn alter(o: &mut Out, b: &B, p: &DenseTreeProof, items: &[QueryItem], r: &mut Rng) {
    let n = b.vals.len() as u16;
    let cap = ((1u32 << b.h) - 1) as u16;
    let q = Some(items);
    let go = |o: &mut Out, f: &dyn Fn(&mut DenseTreeProof), how: &str, must: Option<&str>| {
        let mut x = p.clone();
        f(&mut x);
        forged(o, b, &x, how, must, q, true);
    };
    let rnd: [u8; 32] = r.bytes(32).try_into().unwrap();
    for beyond in [n, cap, u16::MAX] {
        if beyond >= n {
            go(o, &|x| x.entries.push((beyond, vec![1])), "beyond", Some("err"));
        }
    }
    if !p.entries.is_empty() {
        let k = r.idx(p.entries.len());
        go(o, &|x| x.entries[k].1.push(1), "value", Some("err"));
        go(o, &|x| { x.entries.remove(k); }, "drop-entry", None);
        go(o, &|x| { let e = x.entries.remove(k); x.node_value_hashes.push((e.0, *blake3::hash(&e.1).as_bytes())); }, "entry-to-hash", None);
        go(o, &|x| { let mut e = x.entries[k].clone(); e.1.push(7); x.entries.push(e) }, "dup-after", Some("err"));
        go(o, &|x| { let e = x.entries[k].clone(); x.entries.push(e) }, "dup-same", Some("err"));
        go(o, &|x| { let mut e = x.entries[k].clone(); e.1.push(7); x.entries.insert(0, e) }, "dup-before", Some("err"));
        go(o, &|x| { let mut e = x.entries[k].0; if e > 0 { e = (e - 1) / 2 } x.node_hashes.push((e, rnd)) }, "ancestor-hash", Some("err"));
        go(o, &|x| x.node_hashes.push((0, b.root)), "root-hash", Some("err"));
        go(o, &|x| x.entries.iter_mut().for_each(|e| e.0 = (e.0 + 1) % n.max(1)), "shift", None);
        let k2 = r.idx(p.entries.len());
        if p.entries[k].1 != p.entries[k2].1 {
            go(o, &|x| { let v = x.entries[k].1.clone(); x.entries[k].1 = x.entries[k2].1.clone(); x.entries[k2].1 = v }, "swap", Some("err"));
        }
    }
    // a false entry at an unproved position: hidden by a node hash, by a value hash, or bare
    for pos in 0..n {
        if p.entries.iter().any(|e| e.0 == pos) || !r.chance(1, 3) {
            continue;
        }
        go(o, &|x| x.entries.push((pos, vec![0xde, 0xad])), "invent", None);
        go(o, &|x| { x.node_value_hashes.retain(|e| e.0 != pos); x.node_hashes.retain(|e| e.0 != pos); x.entries.push((pos, vec![0xde, 0xad])) }, "invent-replace", None);
        go(o, &|x| x.entries.insert(0, (pos, b.vals[pos as usize].clone())), "extra-true", None);
    }
    if !p.node_hashes.is_empty() {
        let k = r.idx(p.node_hashes.len());
        if p.node_hashes[k].0 < n {
            go(o, &|x| x.node_hashes[k].1[3] ^= 1, "hash-bit", Some("err"));
            go(o, &|x| { x.node_hashes.remove(k); }, "drop-hash", Some("err"));
        }
        go(o, &|x| { let e = x.node_hashes[k]; x.node_hashes.push(e) }, "dup-hash", Some("err"));
    }
    if !p.node_value_hashes.is_empty() {
        let k = r.idx(p.node_value_hashes.len());
        go(o, &|x| x.node_value_hashes[k].1[3] ^= 1, "vhash-bit", Some("err"));
        go(o, &|x| { x.node_value_hashes.remove(k); }, "drop-vhash", Some("err"));
        go(o, &|x| { let e = x.node_value_hashes[k]; x.node_value_hashes.push(e) }, "dup-vhash", Some("err"));
        go(o, &|x| { let e = x.node_value_hashes[k]; x.entries.push((e.0, vec![0xbe, 0xef])) }, "overlap", Some("err"));
    }
    // impossible shapes
    for (h, c) in [(0u8, n), (17, n), (b.h, cap.saturating_add(1)), (255, 0)] {
        let x = guard(|| p.verify_and_get_root::<Claims>(h, c));
        let st = outcome(x, |_| json!(0));
        let bad = !(1..=16).contains(&h) || c as u32 > (1u32 << h) - 1;
        if bad {
            let mut e = with(json!({"e": "forged", "how": "shape", "h2": h, "c2": c}), st);
            e["must"] = json!("err");
            o.ev(e);
        }
    }
    let bytes = p.encode_to_vec().unwrap();
    for _ in 0..2 {
        let mut x = bytes.clone();
        if x.is_empty() {
            break;
        }
        let j = r.idx(x.len());
        match r.below(3) {
            0 => x.truncate(j),
            1 => x[j] = *r.pick(&[0, 1, 0x7f, 0xfb, 0xfc, 0xfd, 0xff]),
            _ => x[j] ^= 1 << r.below(8),
        }
        o.about(&json!({"bytes": hex(&x)}));
        match guard(|| DenseTreeProof::decode_from_slice(&x)) {
            Ok(Ok(d)) => forged(o, b, &d, "bytes", None, q, true),
            y => o.ev(with(json!({"e": "bytes", "x": hex(&x)}), outcome(y, |_| json!(0)))),
        }
    }
}
