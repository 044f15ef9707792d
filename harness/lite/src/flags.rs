//! Epoch storage flags.
use std::{borrow::Cow, collections::BTreeMap};

use grovedb_costs::storage_cost::{
    removal::StorageRemovedBytes::{self, *},
    StorageCost,
};
use grovedb_epoch_based_storage_flags::{
    MergingOwnersStrategy::{self, *},
    StorageFlags::{self, *},
};
use intmap::IntMap;
use vh_common::*;

use crate::costs::{removal_json, storage_json};

fn owner(r: &Rng) -> Option<[u8; 32]> {
    match r.idx(5) {
        0 | 1 => None,
        2 => Some([0xaa; 32]),
        3 => Some([0xbb; 32]),
        _ => Some([0; 32]),
    }
}
fn amount(r: &Rng) -> u32 {
    match r.idx(12) {
        0 => *r.pick(&[u32::MAX, u32::MAX - 3, u32::MAX - 2, u32::MAX - 4, 1 << 31]),
        1 => *r.pick(&[127u32, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435456]),
        2..=6 => r.idx(8) as u32,
        _ => r.idx(300) as u32,
    }
}
fn epoch(r: &Rng) -> u16 {
    match r.idx(10) {
        0 => *r.pick(&[255u16, 256, 65535, 65534]),
        _ => r.idx(7) as u16,
    }
}
fn make(base: u16, m: BTreeMap<u16, u32>, o: Option<[u8; 32]>) -> StorageFlags {
    match (m.is_empty(), o) {
        (true, None) => SingleEpoch(base),
        (false, None) => MultiEpoch(base, m),
        (true, Some(o)) => SingleEpochOwned(base, o),
        (false, Some(o)) => MultiEpochOwned(base, m, o),
    }
}
fn flags(r: &Rng) -> StorageFlags {
    let base = epoch(r);
    let mut m = BTreeMap::new();
    for _ in 0..r.idx(6) {
        let e = epoch(r);
        if e > base {
            m.insert(e, amount(r));
        }
    }
    make(base, m, owner(r))
}
fn own_json(f: Option<&[u8; 32]>) -> Value {
    json!(f.map(hex).into_iter().collect::<Vec<_>>())
}
fn map_json(m: Option<&BTreeMap<u16, u32>>) -> Value {
    json!(m.map(|m| m.iter().map(|(e, n)| json!({"ep": e, "n": n.to_string()})).collect::<Vec<_>>()).unwrap_or_default())
}
fn fj(f: &StorageFlags) -> Value {
    let (own, base, m) = match f {
        SingleEpoch(b) => (None, b, None),
        MultiEpoch(b, m) => (None, b, Some(m)),
        SingleEpochOwned(b, o) => (Some(o), b, None),
        MultiEpochOwned(b, m, o) => (Some(o), b, Some(m)),
    };
    json!({"own": own_json(own), "base": base, "multi": m.is_some(), "m": map_json(m)})
}
fn some<E>(f: Result<StorageFlags, E>) -> Value {
    match f {
        Ok(f) => json!([fj(&f)]),
        Err(_) => json!([]),
    }
}
fn ids(x: &StorageRemovedBytes) -> Value {
    match x {
        SectionedStorageRemoval(m) => json!(m.keys().map(hex).collect::<Vec<_>>()),
        _ => json!([]),
    }
}
/// Flags bytes, right or wrong.
fn bytes(r: &Rng) -> Vec<u8> {
    let mut b = flags(r).serialize();
    match r.idx(8) {
        0 => b.truncate(r.idx(b.len() + 1)),
        1 => {
            let n = 1 + r.idx(3);
            b.extend(r.bytes(n));
        }
        2 => {
            let i = r.idx(b.len());
            b[i] ^= 1 << r.idx(8);
        }
        3 => {
            // a number written in more bytes than it needs, or too big
            let base = r.idx(6) as u8;
            b = vec![1, 0, base, 0, r.idx(9) as u8];
            let n = *r.pick(&[1usize, 2, 4, 5, 8, 9, 10]);
            for _ in 0..n {
                b.push(0x80 | if r.chance(1, 2) { 0 } else { r.next() as u8 });
            }
            b.push(r.idx(3) as u8);
        }
        4 => b = { let n = r.idx(50); r.bytes(n) },
        _ => {}
    }
    b
}
fn removal(r: &Rng, f: &StorageFlags) -> StorageRemovedBytes {
    match r.idx(10) {
        0 => NoStorageRemoval,
        1 => BasicStorageRemoval(amount(r)),
        2 => crate::costs::removal(r),
        3 | 4 => {
            let mut m = BTreeMap::new();
            let mut s = IntMap::new();
            for _ in 0..r.idx(4) {
                s.insert(epoch(r), amount(r));
            }
            m.insert(*f.owner_id().unwrap_or(&[0; 32]), s);
            if r.chance(1, 5) {
                m.insert([0xee; 32], IntMap::new());
            }
            SectionedStorageRemoval(m)
        }
        _ => { let n = amount(r); guard(|| f.split_storage_removed_bytes(0, n).1).unwrap_or(NoStorageRemoval) }
    }
}
fn layout_ev(o: &mut Out, r: &Rng) {
    let f = flags(r);
    o.about(&fj(&f));
    let other = [0x77; 32];
    let f2 = f.clone();
    let g = guard(move || {
        let f = f2;
        let b = f.serialize();
        let some_f = Some(f.clone());
        let mut setown = f.clone();
        setown.set_owner_id(other);
        let same = f.to_element_flags() == b
            && f.to_some_element_flags() == Some(b.clone())
            && StorageFlags::map_to_some_element_flags(some_f.as_ref()) == Some(b.clone())
            && StorageFlags::map_owned_to_element_flags(some_f.clone()) == b
            && StorageFlags::map_owned_to_element_flags(None).is_empty()
            && StorageFlags::map_cow_to_some_element_flags(Some(Cow::Borrowed(&f))) == Some(b.clone())
            && StorageFlags::map_borrowed_cow_to_some_element_flags(&Some(Cow::Borrowed(&f))) == Some(b.clone())
            && StorageFlags::from_slice(&b).ok() == StorageFlags::deserialize(&b).ok()
            && StorageFlags::from_element_flags_ref(&b).ok() == StorageFlags::deserialize(&b).ok()
            && StorageFlags::map_some_element_flags_ref(&Some(b.clone())).ok() == StorageFlags::deserialize(&b).ok()
            && StorageFlags::map_some_element_flags_ref(&None).ok() == Some(None)
            && StorageFlags::map_cow_some_element_flags_ref(&None).ok() == Some(None)
            && StorageFlags::map_cow_some_element_flags_ref(&Some(b.clone())).map(|x| x.map(|y| y.into_owned())).ok() == StorageFlags::deserialize(&b).ok()
            && f.clone().into_optional_cow().map(|x| x.into_owned()) == some_f;
        Ok::<_, ()>(json!({"bytes": hex(&b), "len": f.serialized_size(), "back": match StorageFlags::deserialize(&b) { Ok(Some(x)) => json!([fj(&x)]), _ => json!([]) },
            "base": f.base_epoch(), "own": own_json(f.owner_id()), "multi": f.epoch_index_map().is_some(), "m": map_json(f.epoch_index_map()),
            "type": f.type_byte(), "same": same, "setown": fj(&setown), "single": fj(&StorageFlags::new_single_epoch(*f.base_epoch(), f.owner_id().copied()))}))
    });
    o.ev(with(json!({"e": "layout", "f": fj(&f), "o": hex(other)}), outcome(g, |v| v)));
}
fn read_ev(o: &mut Out, r: &Rng) {
    let b = bytes(r);
    let b2 = b.clone();
    o.about(&json!({"read": hex(&b)}));
    let g = guard(move || {
        Ok::<_, ()>(match StorageFlags::deserialize(&b2) {
            Ok(None) => json!({"ok": true, "none": true, "f": []}),
            Ok(Some(f)) => json!({"ok": true, "none": false, "f": [fj(&f)]}),
            Err(_) => json!({"ok": false, "none": false, "f": []}),
        })
    });
    o.ev(with(json!({"e": "read", "b": hex(&b)}), outcome(g, |v| v)));
}
fn strat(r: &Rng) -> (&'static str, MergingOwnersStrategy) {
    match r.idx(3) {
        0 => ("raise", RaiseIssue),
        1 => ("ours", UseOurs),
        _ => ("theirs", UseTheirs),
    }
}
fn combine_ev(o: &mut Out, r: &Rng) {
    let a = flags(r);
    let mut b = if r.chance(1, 2) { StorageFlags::new_single_epoch(epoch(r), owner(r)) } else { flags(r) };
    if r.chance(1, 2) {
        // the newer version is usually later
        let e = a.base_epoch().saturating_add(1 + r.idx(4) as u16);
        b = StorageFlags::new_single_epoch(e, if r.chance(1, 2) { a.owner_id().copied() } else { owner(r) });
    }
    let (n, (sn, s)) = (amount(r), strat(r));
    let rm = removal(r, &a);
    o.about(&json!({"combine": [fj(&a), fj(&b)]}));
    let (a2, b2, rm2) = (a.clone(), b.clone(), rm.clone());
    let g = guard(move || {
        let x = a2.clone().combine_added_bytes(b2.clone(), n, s);
        let y = a2.clone().combine_removed_bytes(b2.clone(), &rm2, s);
        assert_eq!(x.as_ref().ok(), StorageFlags::optional_combine_added_bytes(Some(a2.clone()), b2.clone(), n, s).ok().as_ref());
        assert_eq!(y.as_ref().ok(), StorageFlags::optional_combine_removed_bytes(Some(a2.clone()), b2.clone(), &rm2, s).ok().as_ref());
        let z = StorageFlags::optional_combine_added_bytes(None, b2.clone(), n, s);
        assert_eq!(z.as_ref().ok(), StorageFlags::optional_combine_removed_bytes(None, b2.clone(), &rm2, s).ok().as_ref());
        Ok::<_, ()>(json!({"added": some(x), "removed": some(y), "fresh": some(z)}))
    });
    o.ev(with(json!({"e": "combine", "a": fj(&a), "b": fj(&b), "n": n.to_string(), "rm": removal_json(&rm), "ids": ids(&rm), "strat": sn}), outcome(g, |v| v)));
}
fn split_ev(o: &mut Out, r: &Rng) {
    let f = flags(r);
    let total: u64 = f.epoch_index_map().map(|m| m.values().map(|x| x.saturating_sub(3) as u64).sum()).unwrap_or(0);
    let n = match r.idx(3) {
        0 => total.saturating_add(r.idx(5) as u64).saturating_sub(2).min(u32::MAX as u64) as u32,
        _ => amount(r),
    };
    let k = if r.chance(1, 2) { 0 } else { amount(r) };
    o.about(&json!({"split": fj(&f), "n": n}));
    let f2 = f.clone();
    let g = guard(move || {
        let (a, b) = f2.split_storage_removed_bytes(k, n);
        Ok::<_, ()>(json!({"key": removal_json(&a), "value": removal_json(&b)}))
    });
    o.ev(with(json!({"e": "split", "f": fj(&f), "k": k.to_string(), "n": n.to_string()}), outcome(g, |v| v)));
}
fn splitb_ev(o: &mut Out, r: &Rng) {
    let mut b = bytes(r);
    if r.chance(1, 8) {
        b.clear();
    }
    if matches!(StorageFlags::deserialize(&b), Ok(Some(f)) if f.epoch_index_map().is_some_and(|m| m.contains_key(f.base_epoch()))) {
        return; // no flags an element can get
    }
    let (k, n) = (amount(r), amount(r));
    let b2 = b.clone();
    o.about(&json!({"split": hex(&b)}));
    let g = guard(move || {
        let mut c = b2.clone();
        let x = StorageFlags::split_removal_bytes(&mut c, k, n);
        let (ok, a, v) = match x {
            Ok((a, v)) => (true, removal_json(&a), removal_json(&v)),
            Err(_) => (false, json!([]), json!([])),
        };
        Ok::<_, ()>(json!({"ok": ok, "after": hex(c), "key": a, "value": v}))
    });
    o.ev(with(json!({"e": "splitb", "b": hex(&b), "k": k.to_string(), "n": n.to_string()}), outcome(g, |v| v)));
}
fn upd_json(cost: &StorageCost, old: Option<Vec<u8>>, new: &[u8]) -> (Value, Vec<u8>) {
    let mut c = new.to_vec();
    let x = StorageFlags::update_element_flags(cost, old, &mut c);
    (json!({"ok": x.is_ok(), "changed": x.unwrap_or(false), "flags": hex(&c)}), c)
}
fn update_ev(o: &mut Out, r: &Rng) {
    let a = flags(r);
    let old = match r.idx(10) {
        0 => None,
        1 => Some(vec![]),
        2 => Some(bytes(r)),
        _ => Some(a.serialize()),
    };
    let new = match r.idx(8) {
        0 => bytes(r),
        1 => vec![],
        2 => a.serialize(),
        _ => StorageFlags::new_single_epoch(a.base_epoch().saturating_add(r.idx(4) as u16), if r.chance(2, 3) { a.owner_id().copied() } else { owner(r) }).serialize(),
    };
    let rm = match r.idx(3) {
        0 => NoStorageRemoval,
        _ => removal(r, &a),
    };
    // flags that could not be an element's are not combined
    let odd = |x: &Vec<u8>| matches!(StorageFlags::deserialize(x), Ok(Some(MultiEpoch(b, m) | MultiEpochOwned(b, m, _))) if m.is_empty() || m.contains_key(&b));
    if old.as_ref().is_some_and(odd) || odd(&new) {
        return;
    }
    let z = |x: u32| if r.chance(1, 2) { 0 } else { x };
    let cost = StorageCost { added_bytes: z(amount(r)), replaced_bytes: z(amount(r)), removed_bytes: rm.clone() };
    let e = json!({"e": "update", "cost": storage_json(&cost), "ids": ids(&rm), "old": old.iter().map(hex).collect::<Vec<_>>(), "new": hex(&new)});
    o.about(&e);
    let g = guard(move || Ok::<_, ()>(upd_json(&cost, old, &new).0));
    o.ev(with(e, outcome(g, |v| v)));
}
fn life(o: &mut Out, hist: &[(String, u16, Option<[u8; 32]>, u32)]) {
    let mut cur: Vec<u8> = vec![];
    o.about(&json!(hist.iter().map(|h| json!([h.0, h.1, own_json(h.2.as_ref()), h.3])).collect::<Vec<_>>()));
    for (op, ep, own, n) in hist {
        let new = StorageFlags::new_single_epoch(*ep, *own).serialize();
        if op == "new" {
            cur = new;
            o.ev(json!({"e": "new", "ep": ep, "own": own_json(own.as_ref()), "st": "ok", "v": hex(&cur)}));
            continue;
        }
        let (c, op2, n) = (cur.clone(), op.clone(), *n);
        let g = guard(move || {
            let mut cost = StorageCost { added_bytes: 0, replaced_bytes: 50, removed_bytes: NoStorageRemoval };
            match op2.as_str() {
                "add" => cost.added_bytes = n,
                "rem" => cost.removed_bytes = StorageFlags::split_removal_bytes(&mut c.clone(), 0, n).map_err(|e| e.to_string())?.1,
                _ => {}
            }
            let (v, after) = upd_json(&cost, Some(c.clone()), &new);
            let ok = v["ok"] == true;
            Ok::<_, String>((json!({"refund": removal_json(&cost.removed_bytes), "upd": v}), if ok { after } else { c }))
        });
        if let Ok(Ok((_, after))) = &g {
            cur = after.clone();
        }
        o.ev(with(json!({"e": "life", "op": op, "ep": ep, "own": own_json(own.as_ref()), "n": n.to_string()}), outcome(g, |v| v.0)));
    }
    o.end_case();
}
fn lives(a: &Args, o: &mut Out, r: &Rng, quick: usize, thorough: usize) {
    let s = a.read_schedules();
    let want = a.n(quick, thorough);
    for i in 0..want.min(s.len()) {
        // spread over the schedules when there are more than fit
        let h = &s[if s.len() > want { r.idx(s.len()) } else { i }];
        let h: Vec<_> = h.as_array().unwrap().iter().map(|x| {
            let own = x["own"].as_array().unwrap().first().map(|v| <[u8; 32]>::try_from(unhex(v.as_str().unwrap())).unwrap());
            (x["op"].as_str().unwrap().to_string(), x["ep"].as_u64().unwrap() as u16, own, x["n"].as_str().unwrap().parse::<u32>().unwrap())
        }).collect();
        life(o, &h);
    }
    for _ in 0..a.n(60, 1500) {
        let mut ep = epoch(r).min(100);
        let mut own = owner(r);
        let mut h = vec![("new".to_string(), ep, own, 0)];
        for _ in 0..4 + r.idx(14) {
            if r.chance(1, 2) {
                ep += r.idx(4) as u16;
            }
            if r.chance(1, 10) {
                own = owner(r);
            }
            let op = *r.pick(&["add", "add", "rem", "rem", "same"]);
            let n = if op == "same" { 0 } else { 1 + amount(r).min(u32::MAX - 1) };
            h.push((op.to_string(), ep, own, n));
        }
        life(o, &h);
    }
}
pub fn combine(a: &Args, o: &mut Out) {
    let r = Rng::new(a.seed ^ 0xf1a9);
    lives(a, o, &r, 900, 8000);
    for i in 0..a.n(5000, 60000) {
        match i % 5 {
            0 => layout_ev(o, &r),
            1 => read_ev(o, &r),
            _ => combine_ev(o, &r),
        }
        o.end_case();
    }
}
pub fn split(a: &Args, o: &mut Out) {
    let r = Rng::new(a.seed ^ 0x5917);
    lives(a, o, &r, 700, 6000);
    for i in 0..a.n(5000, 60000) {
        match i % 5 {
            0 | 1 => split_ev(o, &r),
            2 => splitb_ev(o, &r),
            _ => update_ev(o, &r),
        }
        o.end_case();
    }
}
