//! C07: commitment frontiers and commitment trees.
use grovedb_commitment_tree::{
    COMMITMENT_TREE_DATA_KEY, CommitmentFrontier, CommitmentTree, CommitmentTreeError, DashMemo, EMPTY_COMMITMENT_TREE_STATE_ROOT,
    EMPTY_SINSEMILLA_ROOT, ciphertext_payload_size, deserialize_ciphertext, empty_sinsemilla_root, serialize_ciphertext,
};
use vh_common::*;

use crate::memctx::MemCtx;

struct Tree(CommitmentTree<MemCtx>, MemCtx);

fn made_tree(h: u8) -> Result<Tree, CommitmentTreeError> {
    let c = MemCtx::default();
    Ok(Tree(CommitmentTree::new(h, c.clone())?, c))
}
fn opened(n: u64, h: u8, c: MemCtx) -> Result<Tree, CommitmentTreeError> {
    Ok(Tree(CommitmentTree::open(n, h, c.clone()).value?, c))
}
/// mostly field elements, few of them, so that equal commitments occur
pub fn cmx(r: &Rng) -> [u8; 32] {
    let mut b = [0u8; 32];
    match r.below(8) {
        0 => b[0] = 2, // the empty leaf
        1 => b[0] = r.below(3) as u8,
        2 => {
            b = [0xff; 32];
            b[31] = 0x3f
        }
        _ => {
            b.copy_from_slice(&r.bytes(32));
            b[31] &= 0x3f
        }
    }
    if r.chance(1, 12) {
        b[31] = *r.pick(&[0x40, 0x80, 0xff, 0xc0]);
    }
    b
}
fn pos(p: Option<u64>) -> String {
    p.map(|x| x.to_string()).unwrap_or("none".into())
}
fn look(o: &mut Out, f: &CommitmentFrontier) {
    o.ev(json!({"e": "fstate", "root": hex(f.root_hash()), "anchor": hex(f.anchor().to_bytes()), "size": f.tree_size().to_string(),
        "pos": pos(f.position()), "b": hex(f.serialize())}));
}
fn fappend(o: &mut Out, f: &mut CommitmentFrontier, c: [u8; 32]) {
    let x = guard(|| {
        let x = f.append(c);
        x.value.map(|v| (v, x.cost.sinsemilla_hash_calls))
    });
    o.ev(with(json!({"e": "fappend", "cmx": hex(c)}), outcome(x, |(h, n)| json!({"root": hex(h), "calls": n}))));
}
fn fde(o: &mut Out, f: &mut CommitmentFrontier, b: &[u8]) {
    let x = guard(|| CommitmentFrontier::deserialize(b));
    if let Ok(Ok(g)) = &x {
        *f = g.clone();
    }
    o.ev(with(json!({"e": "fde", "b": hex(b)}), outcome(x, |_| json!(0))));
    look(o, f);
}
/// bytes that are nearly a frontier
fn mangle(r: &Rng, mut b: Vec<u8>) -> Vec<u8> {
    for _ in 0..1 + r.idx(2) {
        match r.below(9) {
            0 if !b.is_empty() => b.truncate(r.idx(b.len())),
            1 => b.extend(r.bytes(1 + r.idx(40))),
            2 if !b.is_empty() => b[0] = r.below(4) as u8,
            3 if b.len() > 9 => {
                let i = 1 + r.idx(8);
                b[i] = *r.pick(&[0, 1, 2, 3, 0x80, 0xff]);
            }
            4 if b.len() > 41 => b[41] = b[41].wrapping_add(*r.pick(&[1u8, 255, 2, 32])),
            5 if b.len() > 41 => {
                // the top byte of the leaf or an ommer
                let n = (b.len() - 42) / 32 + 1;
                let i = r.idx(n);
                let at = if i == 0 { 40 } else { 41 + 32 * i };
                if at < b.len() {
                    b[at] ^= *r.pick(&[0x40, 0x80, 1])
                }
            }
            6 if b.len() >= 74 => {
                let n = b.len() - 32;
                b.truncate(n);
                if r.chance(1, 2) {
                    b[41] = b[41].wrapping_sub(1)
                }
            }
            7 if b.len() > 41 => {
                b[41] = b[41].wrapping_add(1);
                b.extend(cmx(r));
            }
            _ => {
                if !b.is_empty() {
                    let i = r.idx(b.len());
                    b[i] ^= 1 << r.below(8);
                }
            }
        }
    }
    b
}
/// a frontier at any position
fn made(r: &Rng) -> Vec<u8> {
    let p = match r.below(8) {
        0 => (1u64 << 32) - 1 - r.below(3),
        1 => (1 << 32) + r.below(3),
        2 => 1u64 << r.below(64),
        3 => (1u64 << r.below(33)).wrapping_sub(1),
        4 => u64::MAX - r.below(2),
        5 => r.below(1 << 32),
        _ => r.below(300),
    };
    let mut b = vec![1];
    b.extend(p.to_be_bytes());
    let good = |r: &Rng| {
        let mut c = cmx(r);
        c[31] &= 0x3f;
        c
    };
    b.extend(good(r));
    let k = p.count_ones();
    b.push(k as u8);
    for _ in 0..k {
        b.extend(good(r));
    }
    b
}
fn frontier_case(o: &mut Out, r: &Rng) {
    o.ev(json!({"e": "new"}));
    let mut f = if r.chance(1, 2) { CommitmentFrontier::new() } else { CommitmentFrontier::default() };
    look(o, &f);
    for _ in 0..4 + r.idx(30) {
        match r.below(10) {
            0 => {
                let b = f.serialize();
                fde(o, &mut f, &b)
            }
            1 => {
                let b = mangle(r, f.serialize());
                fde(o, &mut f, &b)
            }
            2 if r.chance(1, 3) => {
                let b = made(r);
                let b = if r.chance(1, 4) { mangle(r, b) } else { b };
                fde(o, &mut f, &b)
            }
            3 => look(o, &f),
            _ => fappend(o, &mut f, cmx(r)),
        }
    }
    look(o, &f);
    o.end_case();
}
fn state(o: &mut Out, t: &Tree, r: &Rng) {
    let x = guard(|| t.0.compute_current_state_root());
    let Ok(Ok(s)) = x else {
        o.ev(json!({"e": "state_error"}));
        return;
    };
    o.ev(json!({"e": "state", "root": hex(t.0.root_hash()), "anchor": hex(t.0.anchor().to_bytes()), "size": t.0.tree_size().to_string(),
        "count": t.0.total_count(), "pos": pos(t.0.position()), "epoch": t.0.epoch_size(), "chunks": t.0.chunk_count(), "state": hex(s)}));
    let n = t.0.total_count() - t.0.chunk_count() * t.0.epoch_size();
    for p in [0, n as u16, (n as u16).saturating_sub(1)] {
        let x = guard(|| t.0.get_buffer_value(p));
        o.ev(with(json!({"e": "buf", "pos": p}), outcome(x, |v| json!({"some": v.is_some(), "val": hex(v.unwrap_or_default())}))));
    }
    for i in [r.below(t.0.chunk_count() + 1), t.0.chunk_count()] {
        let x = guard(|| t.0.get_chunk_value(i));
        o.ev(with(json!({"e": "chunk", "idx": i}), outcome(x, |v| json!({"some": v.is_some(), "val": hex(v.unwrap_or_default())}))));
    }
}
fn clone_of(c: &MemCtx) -> MemCtx {
    let n = MemCtx::default();
    n.data.replace(c.data.borrow().clone());
    n
}
fn tree_case(o: &mut Out, r: &Rng) {
    o.ev(json!({"e": "new"}));
    let h = if r.chance(1, 12) { *r.pick(&[0u8, 16, 17, 255]) } else { 1 + r.below(3) as u8 };
    // handles come and go, the store stays
    let mut t: Option<Tree> = match guard(|| made_tree(h)) {
        Ok(Ok(t)) => {
            o.ev(json!({"e": "create", "h": h, "st": "ok", "v": 0}));
            Some(t)
        }
        x => {
            o.ev(with(json!({"e": "create", "h": h}), outcome(x, |_| json!(0))));
            None
        }
    };
    if t.is_none() {
        o.end_case();
        return;
    }
    type Snap = (u64, std::collections::BTreeMap<Vec<u8>, Vec<u8>>);
    let mut saved: Snap = (0, Default::default());
    let open = |o: &mut Out, c: MemCtx, n: u64, h: u8, fr: u32| -> Option<Tree> {
        c.fail_read.set(fr);
        let x = guard(|| {
            opened(n, h, c)
        });
        match x {
            Ok(Ok(t)) => {
                t_ctx(&t).fail_read.set(0);
                o.ev(json!({"e": "open", "n": n.to_string(), "h": h, "fault": fr > 0, "st": "ok", "v": 0}));
                Some(t)
            }
            x => {
                o.ev(with(json!({"e": "open", "n": n.to_string(), "h": h, "fault": fr > 0}), outcome(x, |_| json!(0))));
                None
            }
        }
    };
    let drop = |o: &mut Out, saved: &Snap| -> Option<Tree> {
        let c = MemCtx::default();
        c.data.replace(saved.1.clone());
        let t = match guard(|| opened(saved.0, h, c)) {
            Ok(Ok(t)) => Some(t),
            _ => None,
        };
        o.ev(json!({"e": "drop", "st": if t.is_some() { "ok" } else { "err" }}));
        t
    };
    for _ in 0..6 + r.idx(30) {
        let Some(tr) = &mut t else { break };
        match r.below(16) {
            0..=8 => {
                let (c, rho) = (cmx(r), r.bytes(32));
                let mut payload = r.bytes(216);
                if r.chance(1, 16) {
                    payload = r.bytes(*r.pick(&[0, 215, 217, 112, 280]));
                }
                let rho: [u8; 32] = rho.try_into().unwrap();
                let typed = if r.chance(1, 2) { deserialize_ciphertext::<DashMemo>(&payload) } else { None };
                let (fr, fw) = if r.chance(1, 10) { (r.below(4) as u32, r.below(4) as u32) } else { (0, 0) };
                let s = t_ctx(tr);
                s.fail_read.set(fr);
                s.fail_write.set(fw);
                s.faults.set(0);
                let x = guard(|| {
                    let x = match &typed {
                        Some(ct) => tr.0.append(c, rho, ct),
                        None => tr.0.append_raw(c, rho, &payload),
                    };
                    x.value.map(|v| (v, x.cost))
                });
                let s = t_ctx(tr);
                let fault = s.faults.get() > 0;
                s.fail_read.set(0);
                s.fail_write.set(0);
                let failed = fault && !matches!(x, Ok(Ok(_)));
                o.ev(with(json!({"e": "append", "cmx": hex(c), "rho": hex(rho), "payload": hex(&payload), "fault": fault}), outcome(x, |(a, c)| {
                    json!({"root": hex(a.sinsemilla_root), "bulk": hex(a.bulk_state_root), "pos": a.global_position, "hashes": a.hash_count,
                        "compacted": a.compacted, "calls": [c.hash_node_calls, c.sinsemilla_hash_calls]})
                })));
                if failed {
                    t = drop(o, &saved);
                }
            }
            9 => state(o, tr, r),
            10 => {
                let x = guard(|| tr.0.commit_mmr());
                o.ev(with(json!({"e": "commit", "fault": false}), outcome(x, |_| json!(0))));
            }
            11 => {
                let s = t_ctx(tr);
                s.faults.set(0);
                s.fail_write.set(r.chance(1, 8) as u32);
                let x = guard(|| tr.0.save().value);
                let s = t_ctx(tr);
                s.fail_write.set(0);
                let fault = s.faults.get() > 0;
                o.ev(with(json!({"e": "save", "fault": fault}), outcome(x, |_| json!(0))));
            }
            12 | 13 => {
                let x = guard(|| tr.0.commit_mmr());
                o.ev(with(json!({"e": "commit", "fault": false}), outcome(x, |_| json!(0))));
                let x = guard(|| tr.0.save().value);
                o.ev(with(json!({"e": "save", "fault": false}), outcome(x, |_| json!(0))));
                o.ev(json!({"e": "keep"}));
                saved = (tr.0.total_count(), t_ctx(tr).data.borrow().clone());
                let c = clone_of(t_ctx(tr));
                t = open(o, c, saved.0, h, 0);
                if let Some(t) = &t {
                    state(o, t, r);
                }
            }
            14 => {
                // without having saved, with another number, another power, a failing read
                let x = guard(|| tr.0.commit_mmr());
                o.ev(with(json!({"e": "commit", "fault": false}), outcome(x, |_| json!(0))));
                let n = tr.0.total_count();
                let c = clone_of(t_ctx(tr));
                match r.below(4) {
                    0 => t = open(o, c, n, h, 0),
                    1 => {
                        // never the number of the frontier that happens to lie in the store
                        let k = c.data.borrow().get(COMMITMENT_TREE_DATA_KEY).and_then(|b| CommitmentFrontier::deserialize(b).ok()).map(|f| f.tree_size()).unwrap_or(0);
                        let m = *r.pick(&[n + 1, n.wrapping_sub(1), 0, u64::MAX, n + (1 << 32)]);
                        if m != k || m == n {
                            t = open(o, c, m, h, 0)
                        }
                    }
                    2 => t = open(o, c, n, *r.pick(&[0, 17, 255]), 0),
                    _ => t = open(o, c, n, h, 1),
                }
                if t.is_none() {
                    t = drop(o, &saved);
                }
            }
            _ => {
                let x = guard(|| tr.0.commit_mmr());
                o.ev(with(json!({"e": "commit", "fault": false}), outcome(x, |_| json!(0))));
                let x = guard(|| tr.0.save().value);
                o.ev(with(json!({"e": "save", "fault": false}), outcome(x, |_| json!(0))));
                let n = tr.0.total_count();
                let c = clone_of(t_ctx(tr));
                let b = c.data.borrow()[COMMITMENT_TREE_DATA_KEY].clone();
                let b = if r.chance(1, 6) { made(r) } else { mangle(r, b) };
                c.data.borrow_mut().insert(COMMITMENT_TREE_DATA_KEY.to_vec(), b.clone());
                o.ev(json!({"e": "write", "b": hex(&b)}));
                if let Some(t) = open(o, c, n, h, 0) {
                    state(o, &t, r);
                }
                t = drop(o, &saved);
            }
        }
    }
    if let Some(t) = &t {
        state(o, t, r);
    }
    o.end_case();
}
fn t_ctx(t: &Tree) -> &MemCtx {
    &t.1
}

pub fn run(a: &Args, o: &mut Out) {
    let r = Rng::new(a.seed);
    o.ev(json!({"e": "new"}));
    o.ev(json!({"e": "empty", "root": hex(empty_sinsemilla_root()), "const": hex(EMPTY_SINSEMILLA_ROOT), "state": hex(EMPTY_COMMITMENT_TREE_STATE_ROOT)}));
    for n in [0usize, 1, 111, 112, 113, 215, 216, 217, 300].into_iter().chain((0..4).map(|_| r.idx(300))) {
        let b = r.bytes(n);
        let x = guard(|| deserialize_ciphertext::<DashMemo>(&b).ok_or("none"));
        o.ev(with(json!({"e": "cipher", "b": hex(&b), "size": ciphertext_payload_size::<DashMemo>()}), outcome(x, |c| json!(hex(serialize_ciphertext(&c))))));
    }
    o.end_case();
    for _ in 0..a.n(150, 800) {
        frontier_case(o, &r);
    }
    for _ in 0..a.n(250, 1500) {
        tree_case(o, &r);
    }
}
