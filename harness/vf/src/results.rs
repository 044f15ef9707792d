//! Result sets and proved rows, converted to other shapes.
use grovedb::{
    Element,
    operations::proof::util::{ProvedPathKeyOptionalValue, ProvedPathKeyValue},
    query_result_type::{BTreeMapLevelResult, BTreeMapLevelResultOrItem, PathKeyOptionalElementTrio, QueryResultElement, QueryResultElements},
};
use grovedb_merk::proofs::query::{ProvedKeyOptionalValue, ProvedKeyValue};
use grovedb_version::{TryIntoVersioned, version::GroveVersion};
use std::collections::BTreeMap;
use vh_common::*;

use crate::{element::random, grove::ser};

fn unhex(s: &Value) -> Vec<u8> {
    vh_common::unhex(s.as_str().unwrap())
}
fn path(p: &[Vec<u8>]) -> Value {
    json!(p.iter().map(hex).collect::<Vec<_>>())
}
fn row(e: &QueryResultElement) -> Value {
    match e {
        QueryResultElement::ElementResultItem(e) => json!({"t": "e", "path": [], "key": "", "el": hex(ser(e))}),
        QueryResultElement::KeyElementPairResultItem((k, e)) => json!({"t": "k", "path": [], "key": hex(k), "el": hex(ser(e))}),
        QueryResultElement::PathKeyElementTrioResultItem((p, k, e)) => json!({"t": "p", "path": path(p), "key": hex(k), "el": hex(ser(e))}),
    }
}
fn of_row(v: &Value) -> QueryResultElement {
    let e = Element::deserialize(&unhex(&v["el"]), GroveVersion::latest()).unwrap();
    let k = unhex(&v["key"]);
    match v["t"].as_str().unwrap() {
        "e" => QueryResultElement::ElementResultItem(e),
        "k" => QueryResultElement::KeyElementPairResultItem((k, e)),
        _ => QueryResultElement::PathKeyElementTrioResultItem((v["path"].as_array().unwrap().iter().map(unhex).collect(), k, e)),
    }
}
fn flat(l: &BTreeMapLevelResult, at: &mut Vec<Vec<u8>>, out: &mut Vec<Value>) {
    for (k, x) in &l.key_values {
        at.push(k.clone());
        match x {
            BTreeMapLevelResultOrItem::ResultItem(e) => out.push(json!([path(at), hex(ser(e))])),
            BTreeMapLevelResultOrItem::BTreeMapLevelResult(l) if l.key_values.is_empty() => out.push(json!([path(at), ""])),
            BTreeMapLevelResultOrItem::BTreeMapLevelResult(l) => flat(l, at, out),
        }
        at.pop();
    }
}
fn els(es: &[Element]) -> Value {
    json!(es.iter().map(|e| hex(ser(e))).collect::<Vec<_>>())
}
fn hexes(es: &[Vec<u8>]) -> Value {
    json!(es.iter().map(hex).collect::<Vec<_>>())
}
fn pairs<'a>(m: impl IntoIterator<Item = (&'a Vec<u8>, &'a Element)>) -> Value {
    json!(m.into_iter().map(|(k, e)| json!([hex(k), hex(ser(e))])).collect::<Vec<_>>())
}
fn grouped<'a, T: 'a>(m: impl IntoIterator<Item = (&'a Vec<u8>, T)>, f: impl Fn(T) -> Value) -> Value {
    json!(m.into_iter().map(|(k, v)| json!([hex(k), f(v)])).collect::<Vec<_>>())
}
fn convert(o: &mut Out, rows: Vec<QueryResultElement>, places: &[Vec<Vec<u8>>]) {
    let x = QueryResultElements::from_elements(rows.clone());
    let base = json!({"e": "results", "rows": rows.iter().map(row).collect::<Vec<_>>()});
    o.about(&base);
    let v = outcome(guard(|| {
        let levels = x.clone().to_btree_map_level_results();
        let mut fl = vec![];
        flat(&levels, &mut vec![], &mut fl);
        let p = |m: &BTreeMap<Vec<u8>, Element>| pairs(m);
        Ok::<_, String>(json!({
            "len": x.len(), "empty": x.is_empty(),
            "iter": x.clone().into_iterator().map(|e| row(&e)).collect::<Vec<_>>(),
            "elements": els(&x.clone().to_elements()),
            "pairs": x.clone().to_key_elements().iter().map(|(k, e)| json!([hex(k), hex(ser(e))])).collect::<Vec<_>>(),
            "keys": hexes(&x.clone().to_keys()),
            "btree": p(&x.clone().to_key_elements_btree_map()),
            "hash": pairs(&x.clone().to_key_elements_hash_map()),
            "trios": x.clone().to_path_key_elements().iter().map(|(p, k, e)| json!([path(p), hex(k), hex(ser(e))])).collect::<Vec<_>>(),
            "pathkey": x.clone().to_path_key_elements_btree_map().iter().map(|((p, k), e)| { let mut p = p.clone(); p.push(k.clone()); json!([path(&p), hex(ser(e))]) }).collect::<Vec<_>>(),
            "lastkeys": grouped(&x.clone().to_last_path_to_keys_btree_map(), |v| hexes(v)),
            "lastels": grouped(&x.clone().to_last_path_to_elements_btree_map(), |v| els(v)),
            "prevkeys": grouped(&x.clone().to_previous_of_last_path_to_keys_btree_map(), |v| hexes(v)),
            "lastmap": grouped(&x.clone().to_last_path_to_key_elements_btree_map(), |v| p(v)),
            "pathmap": x.clone().to_path_to_key_elements_btree_map().iter().map(|(q, m)| json!([path(q), p(m)])).collect::<Vec<_>>(),
            "levels": fl,
            "lens": places.iter().map(|q| json!([path(q), levels.len_of_values_at_path(&q.iter().map(|s| s.as_slice()).collect::<Vec<_>>())])).collect::<Vec<_>>(),
        }))
    }), |v| v);
    o.ev(with(base, v));
    o.end_case();
}
fn proved(o: &mut Out, r: &Rng) {
    let n = r.idx(3);
    let p: Vec<Vec<u8>> = (0..n).map(|_| { let n = r.idx(3); r.bytes(n) }).collect();
    let n = r.idx(3);
    let k = r.bytes(n);
    let e = random(r, r.idx(14));
    let value = match r.idx(4) { 0 => None, 1 => { let n = r.idx(3); Some(r.bytes(n)) } _ => Some(ser(&e)) };
    let el = value.as_ref().map_or(String::new(), |v| Element::deserialize(v, GroveVersion::latest()).map_or(String::new(), |e| hex(ser(&e))));
    let proof: [u8; 32] = r.bytes(32).try_into().unwrap();
    let opts = |v: &Option<Vec<u8>>| json!(v.iter().map(hex).collect::<Vec<_>>());
    let base = json!({"e": "row", "el": el, "row": {"path": path(&p), "key": hex(&k), "value": opts(&value), "proof": hex(proof)}});
    o.about(&base);
    let gv = GroveVersion::latest();
    let show = |x: &ProvedPathKeyOptionalValue| json!([path(&x.path), hex(&x.key), opts(&x.value), hex(x.proof)]);
    let sure = |x: &ProvedPathKeyValue| json!([path(&x.path), hex(&x.key), [hex(&x.value)], hex(x.proof)]);
    let row = |x: &PathKeyOptionalElementTrio| json!([path(&x.0), hex(&x.1), x.2.iter().map(|e| hex(ser(e))).collect::<Vec<_>>()]);
    let v = outcome(guard(|| {
        let m = ProvedKeyOptionalValue { key: k.clone(), value: value.clone(), proof, child_hash_verified: r.chance(1, 2) };
        let mback = ProvedKeyValue::try_from(m.clone()).ok();
        let mv = match &mback { Some(x) => ProvedKeyOptionalValue::from(x.clone()), None => m.clone() };
        let one = || ProvedPathKeyOptionalValue::from_proved_key_value(p.clone(), mv.clone());
        let back = ProvedPathKeyValue::try_from(one()).ok();
        let optional = match mback.clone() {
            Some(x) => ProvedPathKeyOptionalValue::from(ProvedPathKeyValue::from_proved_key_value(p.clone(), x)),
            None => one(),
        };
        let many = match &mback {
            Some(x) => ProvedPathKeyValue::from_proved_key_values(p.clone(), vec![x.clone(), x.clone()]).iter().map(sure).collect::<Vec<_>>(),
            None => ProvedPathKeyOptionalValue::from_proved_key_values(p.clone(), vec![m.clone(), m.clone()]).iter().map(show).collect(),
        };
        let element: Option<PathKeyOptionalElementTrio> = one().try_into_versioned(gv).ok();
        let certain: Option<PathKeyOptionalElementTrio> = ProvedPathKeyValue::try_from(one()).ok().and_then(|x| x.try_into_versioned(gv).ok());
        let merk = |x: &ProvedKeyOptionalValue| json!([hex(&x.key), opts(&x.value), hex(x.proof)]);
        Ok::<_, String>(json!({"optional": [show(&optional)], "back": back.iter().map(sure).collect::<Vec<_>>(), "many": many,
            "merk": [merk(&mv)], "merkback": mback.iter().map(|x| json!([hex(&x.key), [hex(&x.value)], hex(x.proof)])).collect::<Vec<_>>(),
            "element": element.iter().map(row).collect::<Vec<_>>(), "certain": certain.iter().map(row).collect::<Vec<_>>()}))
    }), |v| v);
    o.ev(with(base, v));
    o.end_case();
}
pub fn run(a: &Args, o: &mut Out) {
    let r = Rng::new(a.seed ^ 0x5e75);
    let segs = |n: usize| -> Vec<Vec<Vec<u8>>> {
        let s = [vec![0x61], vec![0x62]];
        let mut all: Vec<Vec<Vec<u8>>> = vec![vec![]];
        let mut last = all.clone();
        for _ in 0..n {
            last = last.iter().flat_map(|p| s.iter().map(|x| { let mut p = p.clone(); p.push(x.clone()); p }).collect::<Vec<_>>()).collect();
            all.extend(last.clone());
        }
        all
    };
    let places = segs(3);
    for s in a.read_schedules() {
        convert(o, s.as_array().unwrap().iter().map(of_row).collect(), &places);
    }
    for _ in 0..a.n(150, 1500) {
        let n = r.idx(9);
        let ks = [vec![], vec![0x61], vec![0x62], vec![0x61, 0x62]];
        // equal elements and equal keys come again
        let pool: Vec<_> = (0..1 + r.idx(3)).map(|_| random(&r, r.idx(14))).collect();
        let rows: Vec<_> = (0..n).map(|_| {
            let e = if r.chance(1, 2) { r.pick(&pool).clone() } else { random(&r, r.idx(14)) };
            let k = r.pick(&ks).clone();
            match r.idx(8) {
                0 => QueryResultElement::ElementResultItem(e),
                1 => QueryResultElement::KeyElementPairResultItem((k, e)),
                _ => { let n = r.idx(4); QueryResultElement::PathKeyElementTrioResultItem(((0..n).map(|_| r.pick(&ks).clone()).collect(), k, e)) }
            }
        }).collect();
        let qs: Vec<_> = (0..4).map(|_| { let n = r.idx(4); (0..n).map(|_| r.pick(&ks).clone()).collect() }).collect();
        convert(o, rows, &qs);
    }
    for _ in 0..a.n(150, 1500) {
        proved(o, &r);
    }
}
