//! Operation costs: their sums and how chained operations carry them.
use std::collections::BTreeMap;

use grovedb_costs::{
    cost_return_on_error, cost_return_on_error_default, cost_return_on_error_into, cost_return_on_error_into_default,
    cost_return_on_error_into_no_add, cost_return_on_error_no_add,
    storage_cost::{
        key_value_cost::KeyValueStorageCost,
        removal::StorageRemovedBytes::{self, *},
        transition::OperationStorageTransitionType::*,
        StorageCost,
    },
    CostContext, CostResult, CostsExt, OperationCost, TreeCostType,
};
use intmap::IntMap;
use vh_common::*;

fn n32(r: &Rng) -> u32 {
    match r.idx(8) {
        0 => 0,
        1 => 1 + r.idx(3) as u32,
        2 => u32::MAX - r.idx(3) as u32,
        3 => 1 << 31,
        _ => r.idx(1000) as u32,
    }
}
fn id(r: &Rng) -> [u8; 32] {
    let mut v = [0u8; 32];
    match r.idx(4) {
        0 | 1 => {}
        2 => v[31] = 1 + r.idx(2) as u8,
        _ => v = [0xff; 32],
    }
    v
}
fn epoch(r: &Rng) -> u16 {
    *r.pick(&[0u16, 1, 2, 255, 256, 65534, 65535, 65535])
}
pub fn removal(r: &Rng) -> StorageRemovedBytes {
    match r.idx(5) {
        0 => NoStorageRemoval,
        1 => BasicStorageRemoval(n32(r)),
        _ => {
            let mut m: BTreeMap<[u8; 32], IntMap<u16, u32>> = BTreeMap::new();
            for _ in 0..r.idx(6) {
                let e = m.entry(id(r)).or_default();
                if !r.chance(1, 10) {
                    e.insert(epoch(r), n32(r));
                }
            }
            SectionedStorageRemoval(m)
        }
    }
}
pub fn removal_json(x: &StorageRemovedBytes) -> Value {
    match x {
        NoStorageRemoval => json!({"t": "none", "s": []}),
        BasicStorageRemoval(n) => json!({"t": "basic", "s": [{"id": hex([0u8; 32]), "ep": 65535, "n": n.to_string()}]}),
        SectionedStorageRemoval(m) => {
            let mut v = vec![];
            for (i, es) in m {
                let mut es: Vec<(u16, u32)> = es.iter().map(|(e, n)| (e, *n)).collect();
                es.sort();
                for (e, n) in es {
                    v.push(json!({"id": hex(i), "ep": e, "n": n.to_string()}));
                }
            }
            json!({"t": "sect", "s": v})
        }
    }
}
fn removal_of(v: &Value) -> StorageRemovedBytes {
    let n = |x: &Value| x["n"].as_str().unwrap().parse::<u32>().unwrap();
    match v["t"].as_str().unwrap() {
        "none" => NoStorageRemoval,
        "basic" => BasicStorageRemoval(n(&v["s"][0])),
        _ => {
            let mut m: BTreeMap<[u8; 32], IntMap<u16, u32>> = BTreeMap::new();
            for x in v["s"].as_array().unwrap() {
                let i = unhex(x["id"].as_str().unwrap());
                let mut id = [i[0]; 32];
                id[..i.len()].copy_from_slice(&i);
                m.entry(id).or_default().insert(x["ep"].as_u64().unwrap() as u16, n(x));
            }
            SectionedStorageRemoval(m)
        }
    }
}
fn storage(r: &Rng) -> StorageCost {
    StorageCost { added_bytes: n32(r), replaced_bytes: n32(r), removed_bytes: removal(r) }
}
pub fn storage_json(x: &StorageCost) -> Value {
    json!({"a": x.added_bytes.to_string(), "r": x.replaced_bytes.to_string(), "rm": removal_json(&x.removed_bytes)})
}
fn op(r: &Rng) -> OperationCost {
    if r.chance(1, 8) {
        return OperationCost::default();
    }
    OperationCost {
        seek_count: n32(r),
        storage_cost: storage(r),
        storage_loaded_bytes: match r.idx(4) {
            0 => u64::MAX - r.idx(3) as u64,
            _ => n32(r) as u64,
        },
        hash_node_calls: n32(r),
        sinsemilla_hash_calls: n32(r),
    }
}
fn small_op(r: &Rng) -> OperationCost {
    let mut c = OperationCost { seek_count: r.idx(9) as u32, ..Default::default() };
    if r.chance(1, 3) {
        c.storage_cost = StorageCost { added_bytes: r.idx(9) as u32, replaced_bytes: r.idx(9) as u32, removed_bytes: removal(r) };
    }
    c.storage_loaded_bytes = r.idx(9) as u64;
    c.hash_node_calls = r.idx(9) as u32;
    c.sinsemilla_hash_calls = r.idx(9) as u32;
    c
}
pub fn op_json(x: &OperationCost) -> Value {
    json!({"seek": x.seek_count.to_string(), "st": storage_json(&x.storage_cost), "load": x.storage_loaded_bytes.to_string(),
           "hash": x.hash_node_calls.to_string(), "sin": x.sinsemilla_hash_calls.to_string()})
}
fn kv(r: &Rng) -> KeyValueStorageCost {
    KeyValueStorageCost { key_storage_cost: storage(r), value_storage_cost: storage(r), new_node: r.chance(1, 2), needs_value_verification: r.chance(1, 2) }
}
fn kv_json(x: &KeyValueStorageCost) -> Value {
    json!({"k": storage_json(&x.key_storage_cost), "v": storage_json(&x.value_storage_cost), "new": x.new_node, "nv": x.needs_value_verification})
}
fn rm_ev(o: &mut Out, a: StorageRemovedBytes, b: StorageRemovedBytes) {
    let (x, y) = (a.clone(), b.clone());
    let g = guard(move || {
        let mut i = x.clone();
        i += y.clone();
        let v = json!({"sum": removal_json(&(x.clone() + y.clone())), "inplace": removal_json(&i), "total": x.total_removed_bytes().to_string(),
                       "has": x.has_removal(), "less": x < y, "leq": x <= y});
        Ok::<_, ()>(v)
    });
    o.ev(with(json!({"e": "rm", "a": removal_json(&a), "b": removal_json(&b)}), outcome(g, |v| v)));
}
struct E1(i64);
struct E2(i64);
impl From<E1> for E2 {
    fn from(x: E1) -> E2 {
        E2(x.0)
    }
}
type C = CostResult<i64, E1>;
fn c_macro(mut cost: OperationCost, x: C) -> C {
    let v = cost_return_on_error!(&mut cost, x);
    Ok(v).wrap_with_cost(cost)
}
fn c_macro_into(mut cost: OperationCost, x: C) -> CostResult<i64, E2> {
    let v = cost_return_on_error_into!(&mut cost, x);
    Ok(v).wrap_with_cost(cost)
}
fn c_no_add(cost: OperationCost, x: Result<i64, E1>) -> C {
    let v = cost_return_on_error_no_add!(cost, x);
    Ok(v).wrap_with_cost(cost)
}
fn c_into_no_add(cost: OperationCost, x: Result<i64, E1>) -> CostResult<i64, E2> {
    let v = cost_return_on_error_into_no_add!(cost, x);
    Ok(v).wrap_with_cost(cost)
}
fn c_default(cost: OperationCost, x: Result<i64, E1>, into: bool) -> C {
    if into {
        fn f(cost: OperationCost, x: Result<i64, E1>) -> CostResult<i64, E2> {
            let v = cost_return_on_error_into_default!(x);
            Ok(v).wrap_with_cost(cost)
        }
        f(cost, x).map_err(|e| E1(e.0))
    } else {
        fn f(cost: OperationCost, x: Result<i64, E1>) -> C {
            let v = cost_return_on_error_default!(x);
            Ok(v).wrap_with_cost(cost)
        }
        f(cost, x)
    }
}
fn ctx_json(x: &C) -> Value {
    let (ok, v) = match &x.value {
        Ok(v) => (true, v),
        Err(e) => (false, &e.0),
    };
    json!({"ok": ok, "val": v.to_string(), "cost": op_json(&x.cost)})
}
fn res(ok: bool, v: i64) -> Result<i64, E1> {
    if ok { Ok(v) } else { Err(E1(v)) }
}
fn chain_ev(o: &mut Out, r: &Rng) {
    let c0 = small_op(r);
    let (ok0, v0) = (r.chance(3, 4), r.idx(100) as i64);
    let hows = ["map", "map_err", "flat_map", "flat_map_ok", "macro", "macro_into", "no_add", "into_no_add", "dflt", "add_cost", "flatten_cost", "flatten_res", "for_ok", "unwrap_add"];
    let steps: Vec<(&str, bool, i64, OperationCost)> =
        (0..1 + r.idx(6)).map(|_| (*r.pick(&hows), r.chance(3, 4), r.idx(100) as i64, small_op(r))).collect();
    let ss = steps.clone();
    let c1 = c0.clone();
    let into = r.chance(1, 2);
    let g = guard(move || {
        let mut x: C = res(ok0, v0).wrap_with_cost(c1);
        let mut outs = vec![];
        for (how, ok, v, cost) in ss {
            x = match how {
                "map" => x.map_ok(|a| a + v),
                "map_err" => x.map_err(|a| E1(a.0 + v)),
                "flat_map" => x.flat_map(|_| res(ok, v).wrap_with_cost(cost)),
                "flat_map_ok" => x.flat_map_ok(|_| res(ok, v).wrap_with_cost(cost)),
                // a failed context returns early with its own cost; otherwise the step's cost joins
                "macro" => match x.value {
                    Ok(_) => c_macro(x.cost, res(ok, v).wrap_with_cost(cost)),
                    Err(e) => c_macro(OperationCost::default(), Err(e).wrap_with_cost(x.cost)),
                },
                "macro_into" => match x.value {
                    Ok(_) => c_macro_into(x.cost, res(ok, v).wrap_with_cost(cost)).map_err(|e| E1(e.0)),
                    Err(e) => c_macro_into(OperationCost::default(), Err(e).wrap_with_cost(x.cost)).map_err(|e| E1(e.0)),
                },
                "no_add" => match x.value {
                    Ok(_) => c_no_add(x.cost, res(ok, v)),
                    Err(e) => c_no_add(x.cost, Err(e)),
                },
                "into_no_add" => match x.value {
                    Ok(_) => c_into_no_add(x.cost, res(ok, v)).map_err(|e| E1(e.0)),
                    Err(e) => c_into_no_add(x.cost, Err(e)).map_err(|e| E1(e.0)),
                },
                "dflt" => c_default(x.cost, res(ok, v), into),
                "add_cost" => x.add_cost(cost),
                "flatten_cost" => CostContext { value: x, cost }.flatten(),
                "flatten_res" => x.map_ok(|_| res(ok, v)).flatten(),
                "for_ok" => x.for_ok(|_| {}),
                _ => {
                    let mut acc = cost;
                    let v = x.unwrap_add_cost(&mut acc);
                    v.wrap_fn_cost(|_| acc)
                }
            };
            outs.push(ctx_json(&x));
        }
        let (c, ok) = (x.cost.clone(), x.value.is_ok());
        assert_eq!(x.cost_as_result().ok(), ok.then_some(c));
        Ok::<_, ()>(json!(outs))
    });
    let sj: Vec<Value> = steps.iter().map(|(h, ok, v, c)| json!({"how": h, "ok": ok, "val": v.to_string(), "cost": op_json(c)})).collect();
    o.ev(with(json!({"e": "chain", "x": {"ok": ok0, "val": v0.to_string(), "cost": op_json(&c0)}, "steps": sj}), outcome(g, |v| v)));
}
fn len(r: &Rng) -> u32 {
    match r.idx(4) {
        0 => r.idx(5) as u32,
        1 => *r.pick(&[126u32, 127, 128, 129, 16383, 16384, 16385, 2097151, 2097152, 268435455, 268435456]),
        _ => r.idx(400) as u32,
    }
}
fn varint(n: u32) -> u32 {
    use integer_encoding::VarInt;
    n.required_space() as u32
}
fn addkv_ev(o: &mut Out, r: &Rng) {
    let (klen, vlen) = (len(r), len(r));
    let child = |r: &Rng| r.chance(1, 2).then(|| (r.idx(90) as u32, r.idx(12) as u32));
    let sum = r.chance(1, 2).then(|| (r.idx(3), r.idx(18) as u32));
    let ch = r.chance(2, 3).then(|| (sum, child(r), child(r)));
    let c0 = small_op(r);
    let ty = |k: usize| match k {
        0 => TreeCostType::TreeFeatureUsesVarIntCostAs8Bytes,
        1 => TreeCostType::TreeFeatureUsesTwoVarIntsCostAs16Bytes,
        _ => TreeCostType::TreeFeatureUses16Bytes,
    };
    let mk = move || ch.map(|(s, l, rr)| (s.map(|(k, n)| (ty(k), n)), l, rr));
    // learn the right amount without info, then give info that is right or slightly wrong
    let mut probe = OperationCost::default();
    let paid = match guard(|| {
        probe.add_key_value_storage_costs(klen, vlen, mk(), None).ok();
        probe.storage_cost.added_bytes
    }) {
        Ok(p) => p,
        Err(_) => 0,
    };
    let pk = klen + varint(klen);
    let info = r.chance(3, 4).then(|| {
        let split = |t: u32| {
            let a = r.below(t as u64 + 1) as u32;
            (a, t - a)
        };
        let off = |t: u32| if r.chance(1, 4) { if r.chance(1, 2) { t + 1 } else { t.saturating_sub(1) } } else { t };
        let (ka, kr) = split(off(pk));
        let (va, vr) = split(off(paid.wrapping_sub(pk) & 0x3fff_ffff));
        KeyValueStorageCost {
            key_storage_cost: StorageCost { added_bytes: ka, replaced_bytes: kr, removed_bytes: removal(r) },
            value_storage_cost: StorageCost { added_bytes: va, replaced_bytes: vr, removed_bytes: removal(r) },
            new_node: r.chance(1, 2),
            needs_value_verification: r.chance(2, 3),
        }
    });
    let (i2, c1) = (info.clone(), c0.clone());
    let g = guard(move || {
        let mut c = c1;
        let ok = c.add_key_value_storage_costs(klen, vlen, mk(), i2).is_ok();
        Ok::<_, ()>(json!({"ok": ok, "cost": op_json(&c)}))
    });
    let cj = |c: Option<(u32, u32)>| c.map(|(a, b)| json!([a.to_string(), b.to_string()])).unwrap_or(json!([]));
    let chj = ch
        .map(|(s, l, rr)| json!([s.map(|(k, n)| json!([(["one", "two", "big"])[k], n.to_string()])).unwrap_or(json!([])), cj(l), cj(rr)]))
        .unwrap_or(json!([]));
    let ij = info.map(|i| json!([kv_json(&i)])).unwrap_or(json!([]));
    o.ev(with(json!({"e": "addkv", "c0": op_json(&c0), "klen": klen.to_string(), "vlen": vlen.to_string(), "ch": chj, "info": ij}), outcome(g, |v| v)));
}
pub fn run(a: &Args, o: &mut Out) {
    let r = Rng::new(a.seed ^ 0xc057);
    for s in a.read_schedules() {
        rm_ev(o, removal_of(&s["a"]), removal_of(&s["b"]));
        o.end_case();
    }
    for _ in 0..a.n(1200, 20000) {
        rm_ev(o, removal(&r), removal(&r));
        let (x, y) = (storage(&r), if r.chance(1, 3) { storage(&r) } else { StorageCost::default() });
        let (s, t) = (x.clone(), y.clone());
        let g = guard(move || {
            let mut i = s.clone();
            i += t.clone();
            let tr = match s.transition_type() {
                OperationInsertNew => "new",
                OperationUpdateBiggerSize => "bigger",
                OperationUpdateSmallerSize => "smaller",
                OperationUpdateSameSize => "same",
                OperationReplace => "replace",
                OperationDelete => "delete",
                OperationNone => "none",
            };
            Ok::<_, ()>(json!({"sum": storage_json(&(s.clone() + t.clone())), "inplace": storage_json(&i), "transition": tr,
                               "worse": s.worse_or_eq_than(&t), "changes": s.has_storage_change()}))
        });
        o.ev(with(json!({"e": "st", "a": storage_json(&x), "b": storage_json(&y)}), outcome(g, |v| v)));
        let x = op(&r);
        let mut y = op(&r);
        if r.chance(1, 2) {
            // comparable except in one place
            y = x.clone();
            match r.idx(7) {
                0 => y.seek_count = n32(&r),
                1 => y.storage_loaded_bytes = n32(&r) as u64,
                2 => y.hash_node_calls = n32(&r),
                3 => y.sinsemilla_hash_calls = n32(&r),
                4 => y.storage_cost.added_bytes = n32(&r),
                5 => y.storage_cost.replaced_bytes = n32(&r),
                _ => y.storage_cost.removed_bytes = removal(&r),
            }
        }
        let (s, t) = (x.clone(), y.clone());
        let g = guard(move || {
            let mut i = s.clone();
            i += t.clone();
            Ok::<_, ()>(json!({"sum": op_json(&(s.clone() + t.clone())), "inplace": op_json(&i), "worse": s.worse_or_eq_than(&t), "nothing": s.is_nothing()}))
        });
        o.ev(with(json!({"e": "op", "a": op_json(&x), "b": op_json(&y)}), outcome(g, |v| v)));
        let (x, y) = (kv(&r), kv(&r));
        let (s, t) = (x.clone(), y.clone());
        let g = guard(move || {
            let mut i = s.clone();
            i += t.clone();
            Ok::<_, ()>(json!({"sum": kv_json(&(s.clone() + t)), "inplace": kv_json(&i), "removed": removal_json(&s.combined_removed_bytes())}))
        });
        o.ev(with(json!({"e": "kv", "a": kv_json(&x), "b": kv_json(&y)}), outcome(g, |v| v)));
        let n = n32(&r);
        let g = guard(move || {
            Ok::<_, ()>(json!({"seek": op_json(&OperationCost::with_seek_count(n)), "written": op_json(&OperationCost::with_storage_written_bytes(n)),
                "load": op_json(&OperationCost::with_storage_loaded_bytes(n as u64)), "freed": op_json(&OperationCost::with_storage_freed_bytes(n)),
                "hash": op_json(&OperationCost::with_hash_node_calls(n))}))
        });
        o.ev(with(json!({"e": "with", "n": n.to_string()}), outcome(g, |v| v)));
        let s = StorageCost { added_bytes: len(&r), replaced_bytes: len(&r), removed_bytes: removal(&r) };
        let t = s.added_bytes + s.replaced_bytes;
        let l = match r.idx(4) {
            0 => t + 1,
            1 => t.saturating_sub(1),
            _ => t,
        };
        let x = s.clone();
        let g = guard(move || {
            Ok::<_, ()>(json!({"plain": x.verify(l).is_ok(), "new": x.verify_key_storage_cost(l, true).is_ok(), "old": x.verify_key_storage_cost(l, false).is_ok()}))
        });
        o.ev(with(json!({"e": "verify", "a": storage_json(&s), "len": l.to_string()}), outcome(g, |v| v)));
        let (old, new) = (r.chance(3, 4).then(|| len(&r)), len(&r));
        let g = guard(move || Ok::<_, ()>(KeyValueStorageCost::for_updated_root_cost(old, new)));
        o.ev(with(
            json!({"e": "root", "old": old.map(|x| vec![x.to_string()]).unwrap_or_default(), "new": new.to_string()}),
            outcome(g, |v| kv_json(&v)),
        ));
        addkv_ev(o, &r);
        addkv_ev(o, &r);
        chain_ev(o, &r);
        chain_ev(o, &r);
        o.end_case();
    }
}
