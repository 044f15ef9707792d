//! Queries over a database.
use crate::element::el_json;
use crate::gdb::{Gen, P, p_of, pj, s};
use crate::q::{QGen, item_json, item_of, query_json};
use grovedb::element::aggregate_sum_query::AggregateSumQueryOptions;
use grovedb::query_result_type::{QueryResultElement, QueryResultElements, QueryResultType};
use grovedb::{AggregateSumPathQuery, Element, GroveDb, PathQuery, SizedQuery, TransactionArg};
use grovedb_query::{AggregateSumQuery, Query, QueryItem, SubqueryBranch};
use grovedb_version::version::GroveVersion;
use vh_common::*;

pub fn pq_json(p: &PathQuery) -> Value {
    json!({"path": pj(&p.path), "q": query_json(&p.query.query),
        "limit": p.query.limit.iter().collect::<Vec<_>>(), "offset": p.query.offset.iter().collect::<Vec<_>>()})
}
fn opt16(v: &Value) -> Option<u16> {
    v.as_array().unwrap().first().map(|x| x.as_u64().unwrap() as u16)
}
pub fn pq_of(v: &Value) -> PathQuery {
    PathQuery::new(p_of(&v["path"]), SizedQuery::new(query_from(&v["q"]), opt16(&v["limit"]), opt16(&v["offset"])))
}
pub fn query_from(v: &Value) -> Query {
    let mut q = Query::new_with_direction(v["left"].as_bool().unwrap());
    q.items = v["items"].as_array().unwrap().iter().map(item_of).collect();
    q.default_subquery_branch = branch_from(&v["def"]);
    for c in v["cond"].as_array().unwrap() {
        q.conditional_subquery_branches.get_or_insert_default().insert(item_of(&c[0]), branch_from(&c[1]));
    }
    q.add_parent_tree_on_subquery = v["par"].as_bool().unwrap();
    q
}
fn branch_from(v: &Value) -> SubqueryBranch {
    SubqueryBranch {
        subquery_path: v["path"].as_array().unwrap().first().map(p_of),
        subquery: v["sub"].as_array().unwrap().first().map(|q| Box::new(query_from(q))),
    }
}
fn row(e: &QueryResultElement) -> Value {
    match e {
        QueryResultElement::ElementResultItem(e) => json!([el_json(e)]),
        QueryResultElement::KeyElementPairResultItem((k, e)) => json!([hex(k), el_json(e)]),
        QueryResultElement::PathKeyElementTrioResultItem((p, k, e)) => json!([pj(p), hex(k), el_json(e)]),
    }
}
fn rows(x: (QueryResultElements, u16)) -> Value {
    json!({"rows": x.0.elements.iter().map(row).collect::<Vec<_>>(), "skip": x.1})
}
fn keys(x: Vec<(P, Vec<u8>, Option<Element>)>) -> Value {
    json!(x.iter().map(|(p, k, e)| json!([pj(p), hex(k), e.iter().map(el_json).collect::<Vec<_>>()])).collect::<Vec<_>>())
}
/// the type cannot be named from outside
fn val(v: &impl std::fmt::Debug) -> Value {
    let t = format!("{v:?}");
    let (name, rest) = t.split_once('(').unwrap();
    let rest = rest.trim_end_matches(')');
    let bytes = |x: &str| hex(x.trim_matches(['[', ']']).split(", ").filter(|y| !y.is_empty()).map(|y| y.parse().unwrap()).collect::<Vec<u8>>());
    let last = |x: &str| x.rsplit_once(", ").map(|(a, b)| (a.to_string(), b.to_string())).unwrap();
    match name {
        "ItemData" => json!(["item", bytes(rest)]),
        "ItemDataWithSumValue" => {
            let (b, n) = last(rest);
            json!(["itemsum", bytes(&b), n])
        }
        "SumValue" => json!(["sum", rest]),
        "BigSumValue" => json!(["bigsum", rest]),
        "CountValue" => json!(["count", rest]),
        "CountSumValue" => {
            let (c, n) = last(rest);
            json!(["countsum", c, n])
        }
        _ => json!([t]),
    }
}
pub fn exec(db: &GroveDb, tx: TransactionArg, o: &Value) -> Value {
    let v = GroveVersion::latest();
    let f = |k: &str| o[k].as_bool().unwrap();
    if s(o, "o") == "aggsum" {
        let a = &o["aq"];
        let q = AggregateSumQuery {
            items: a["items"].as_array().unwrap().iter().map(item_of).collect(),
            left_to_right: a["left"].as_bool().unwrap(),
            sum_limit: s(a, "sum").parse().unwrap(),
            limit_of_items_to_check: opt16(&a["lim"]),
        };
        let pq = AggregateSumPathQuery { path: p_of(&o["p"]), aggregate_sum_query: q };
        let opt = AggregateSumQueryOptions {
            allow_cache: f("cache"),
            error_if_intermediate_path_tree_not_present: f("eip"),
            error_if_non_sum_item_found: f("nse"),
            ignore_references: f("ign"),
        };
        return outcome(guard(|| db.query_aggregate_sums_with_options(&pq, opt, tx, v).unwrap()), |x| {
            json!({"rows": x.results.iter().map(|(k, n)| json!([hex(k), n.to_string()])).collect::<Vec<_>>(), "hard": x.hard_limit_reached})
        });
    }
    let pq = pq_of(&o["pq"]);
    let (c, d, e) = (f("cache"), f("dec"), f("eip"));
    let rt = match s(o, "rt") {
        "e" => QueryResultType::QueryElementResultType,
        "ke" => QueryResultType::QueryKeyElementPairResultType,
        _ => QueryResultType::QueryPathKeyElementTrioResultType,
    };
    match s(o, "api") {
        "raw" => outcome(guard(|| db.query_raw(&pq, c, d, e, rt, tx, v).unwrap()), rows),
        "query" => outcome(guard(|| db.query(&pq, c, d, e, rt, tx, v).unwrap()), rows),
        "value" => outcome(guard(|| db.query_item_value(&pq, c, d, e, tx, v).unwrap()), |x| json!({"rows": x.0.iter().map(hex).collect::<Vec<_>>(), "skip": x.1})),
        "valsum" => outcome(guard(|| db.query_item_value_or_sum(&pq, c, d, e, tx, v).unwrap()), |x| json!({"rows": x.0.iter().map(val).collect::<Vec<_>>(), "skip": x.1})),
        "sums" => outcome(guard(|| db.query_sums(&pq, c, d, e, tx, v).unwrap()), |x| json!({"rows": x.0.iter().map(|n| n.to_string()).collect::<Vec<_>>(), "skip": x.1})),
        "rawkeys" => outcome(guard(|| db.query_raw_keys_optional(&pq, c, d, e, tx, v).unwrap()), keys),
        _ => outcome(guard(|| db.query_keys_optional(&pq, c, d, e, tx, v).unwrap()), keys),
    }
}
/// a query over what is below p
pub fn below(g: &Gen, p: &P, depth: usize, bounded: bool) -> Query {
    let r = &g.r;
    let q = QGen { r, alpha: g.pool.clone(), bounded, overlapping_conds: false, up: r.chance(1, 2) };
    let mut x = Query::new_with_direction(r.chance(2, 3));
    if let Some(kind) = g.trees.get(p).filter(|k| crate::gdb::APPENDS.contains(&k.as_str())) {
        // positions
        let at = || {
            let i = r.below(12);
            if kind == "dense" { (i as u16).to_be_bytes().to_vec() } else { i.to_be_bytes().to_vec() }
        };
        for _ in 0..1 + r.idx(3) {
            let (a, z) = (at(), at());
            let (a, z) = (a.clone().min(z.clone()), a.max(z));
            x.insert_item(match r.idx(if bounded { 3 } else { 9 }) {
                0 => QueryItem::Key(a),
                1 => QueryItem::Range(a..z),
                2 => QueryItem::RangeInclusive(a..=z),
                3 => QueryItem::RangeFrom(a..),
                4 => QueryItem::RangeTo(..z),
                5 => QueryItem::RangeToInclusive(..=z),
                6 => QueryItem::RangeAfter(a..),
                7 => QueryItem::RangeAfterToInclusive(a..=z),
                _ => QueryItem::RangeFull(..),
            });
        }
        return x;
    }
    for _ in 0..1 + r.idx(3) {
        x.insert_item(if r.chance(1, 3) && !bounded { QueryItem::RangeFull(..) } else { q.item() });
    }
    let subs: Vec<&P> = g.trees.keys().filter(|t| t.len() == p.len() + 1 && t.starts_with(p)).collect();
    if depth == 0 || r.chance(1, 6) {
        return x;
    }
    let branch = |t: Option<&P>| {
        let mut b = SubqueryBranch::default();
        let mut at = t.cloned().unwrap_or_else(|| vec![vec![77]]);
        if r.chance(1, 4) {
            let k = r.pick(&g.pool).clone();
            at.push(k.clone());
            b.subquery_path = Some(vec![k]);
            if r.chance(1, 2) {
                return b;
            }
        }
        b.subquery = Some(Box::new(below(g, &at, depth - 1, bounded)));
        b
    };
    if r.chance(3, 4) {
        x.default_subquery_branch = branch(if subs.is_empty() { None } else { Some(*r.pick(&subs)) });
    }
    for t in subs {
        if r.chance(1, 5) {
            let k = t.last().unwrap().clone();
            let i = if r.chance(3, 4) { QueryItem::Key(k) } else { q.item() };
            x.conditional_subquery_branches.get_or_insert_default().insert(i, branch(Some(t)));
        }
    }
    x
}
pub fn path_query(g: &Gen, bounded: bool) -> PathQuery {
    let r = &g.r;
    let mut p = g.tree(true);
    if r.chance(1, 2) {
        p.pop();
    }
    if r.chance(1, 25) {
        p.push(r.pick(&g.pool).clone());
    }
    let d = r.idx(4);
    let limit = if bounded { Some(r.idx(20) as u16 + 2) } else if r.chance(1, 2) { Some(r.idx(7) as u16) } else { None };
    let offset = if !bounded && r.chance(1, 3) { Some(r.idx(4) as u16) } else { None };
    PathQuery::new(p.clone(), SizedQuery::new(below(g, &p, d, bounded), limit, offset))
}
pub fn query(g: &Gen) -> Value {
    let r = &g.r;
    let api = *r.pick(&["raw", "raw", "raw", "raw", "query", "query", "query", "value", "valsum", "sums", "rawkeys", "keys"]);
    json!({"o": "query", "api": api, "pq": pq_json(&path_query(g, api.ends_with("keys") && r.chance(9, 10))), "cache": r.chance(2, 3), "dec": r.chance(2, 3), "eip": r.chance(1, 2),
        "rt": r.pick(&["e", "ke", "pke", "pke"])})
}
pub fn aggsum(g: &Gen) -> Value {
    let r = &g.r;
    let q = QGen { r, alpha: g.pool.clone(), bounded: false, overlapping_conds: false, up: r.chance(1, 2) };
    let mut a = AggregateSumQuery::new(0, None);
    a.left_to_right = r.chance(1, 2);
    for _ in 0..1 + r.idx(3) {
        a.insert_item(if r.chance(1, 3) { QueryItem::RangeFull(..) } else { q.item() });
    }
    let sum: u64 = match r.idx(8) {
        0 => 0,
        1 => *r.pick(&[i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX, i64::MAX as u64 - 1]),
        2 | 3 => r.below(1 << 62),
        _ => r.below(3000),
    };
    let lim: Vec<u16> = if r.chance(1, 2) { vec![r.idx(5) as u16] } else { vec![] };
    let sums: Vec<&P> = g.trees.iter().filter(|t| t.1.contains("sum")).map(|t| t.0).collect();
    let mut p = if sums.is_empty() || r.chance(1, 8) { g.tree(true) } else { (*r.pick(&sums)).clone() };
    if r.chance(1, 25) {
        p.push(r.pick(&g.pool).clone());
    }
    json!({"o": "aggsum", "p": pj(&p), "aq": {"items": a.items.iter().map(item_json).collect::<Vec<_>>(), "left": a.left_to_right, "sum": sum.to_string(), "lim": lim},
        "cache": r.chance(2, 3), "eip": r.chance(1, 2), "nse": r.chance(1, 3), "ign": r.chance(1, 4)})
}

// ----- proofs -----
type Trio = (P, Vec<u8>, Option<Element>);
fn trio(v: &[Trio]) -> Value {
    json!(v.iter().map(|(p, k, e)| json!([pj(p), hex(k), e.iter().map(el_json).collect::<Vec<_>>()])).collect::<Vec<_>>())
}
fn verify(api: &str, b: &[u8], pq: &PathQuery) -> Value {
    let v = GroveVersion::latest();
    let rows = |(h, r): ([u8; 32], Vec<Trio>)| json!({"root": hex(h), "rows": trio(&r)});
    let info = |(h, f, r): ([u8; 32], _, Vec<Trio>)| json!({"root": hex(h), "ft": crate::element::feature_json(&f), "rows": trio(&r)});
    match api {
        "verify" => outcome(guard(|| GroveDb::verify_query(b, pq, v)), rows),
        "subset" => outcome(guard(|| GroveDb::verify_subset_query(b, pq, v)), rows),
        "absence" => outcome(guard(|| GroveDb::verify_query_with_absence_proof(b, pq, v)), rows),
        "subabs" => outcome(guard(|| GroveDb::verify_subset_query_with_absence_proof(b, pq, v)), rows),
        "info" => outcome(guard(|| GroveDb::verify_query_get_parent_tree_info(b, pq, v)), info),
        "subinfo" => outcome(guard(|| GroveDb::verify_subset_query_get_parent_tree_info(b, pq, v)), info),
        _ => outcome(guard(|| GroveDb::verify_query_raw(b, pq, v)), |(h, r)| {
            let rs: Vec<Value> = r.iter().map(|x| json!([pj(&x.path), hex(&x.key), [el_json(&Element::deserialize(&x.value, v).unwrap())]])).collect();
            json!({"root": hex(h), "rows": rs})
        }),
    }
}
const APIS: &[&str] = &["raw", "verify", "subset", "absence", "subabs", "info", "subinfo"];
pub fn prove_exec(db: &GroveDb, o: &Value) -> Value {
    let v = GroveVersion::latest();
    if s(o, "o") == "prove" {
        let pq = pq_of(&o["pq"]);
        return outcome(guard(|| db.prove_query(&pq, None, v).unwrap()), |b| {
            let mut m = json!({});
            for a in APIS {
                m[*a] = verify(a, &b, &pq);
            }
            m
        });
    }
    let pqs: Vec<PathQuery> = o["pqs"].as_array().unwrap().iter().map(pq_of).collect();
    let merged: Vec<Value> = if pqs.len() == 1 { vec![pq_json(&pqs[0])] } else {
        guard(|| PathQuery::merge(pqs.iter().collect(), v)).ok().and_then(|x| x.ok()).iter().map(pq_json).collect()
    };
    let x = outcome(guard(|| db.prove_query_many(pqs.iter().collect(), None, v).unwrap()), |b| {
        let args = std::cell::RefCell::new(vec![]);
        let subs: Vec<Value> = pqs.iter().map(|q| verify("subset", &b, q)).collect();
        let rest: Vec<_> = pqs[1..].iter().map(|q| {
            let args = &args;
            move |prev: Vec<Trio>| {
                args.borrow_mut().push(trio(&prev));
                Some(q.clone())
            }
        }).collect();
        let chain = outcome(guard(|| GroveDb::verify_query_with_chained_path_queries(&b, &pqs[0], rest, v)),
            |(h, rs)| json!({"root": hex(h), "sets": rs.iter().map(|r| trio(r)).collect::<Vec<_>>(), "args": *args.borrow()}));
        // one that does not know how to go on
        let stop: Vec<fn(Vec<Trio>) -> Option<PathQuery>> = vec![|_| None];
        let none = outcome(guard(|| GroveDb::verify_query_with_chained_path_queries(&b, &pqs[0], stop, v)), |_| json!(0));
        json!({"subs": subs, "chain": chain, "none": none["st"]})
    });
    with(json!({"merged": merged}), x)
}
/// does something with a query and its subqueries
fn every(q: &mut Query, f: &impl Fn(&mut Query)) {
    f(q);
    let branches = q.conditional_subquery_branches.iter_mut().flat_map(|c| c.values_mut());
    for b in std::iter::once(&mut q.default_subquery_branch).chain(branches) {
        if let Some(x) = b.subquery.as_mut() {
            every(x, f);
        }
    }
}
pub fn prove(g: &Gen) -> Value {
    let r = &g.r;
    let mut pq = path_query(g, r.chance(1, 3));
    if r.chance(9, 10) {
        pq.query.offset = None;
        if pq.query.limit == Some(0) {
            pq.query.limit = None;
        }
    }
    if r.chance(1, 3) {
        every(&mut pq.query.query, &|q| q.add_parent_tree_on_subquery = r.chance(1, 5));
    }
    json!({"o": "prove", "pq": pq_json(&pq)})
}
pub fn provemany(g: &Gen) -> Value {
    let r = &g.r;
    let n = *r.pick(&[1usize, 2, 2, 2, 3]);
    let mut pqs: Vec<PathQuery> = (0..n).map(|_| path_query(g, false)).collect();
    let up = r.chance(4, 5);
    for q in pqs.iter_mut() {
        q.query.offset = None;
        if up {
            every(&mut q.query.query, &|q| q.left_to_right = true);
        }
        if !r.chance(1, 20) {
            q.query.limit = None;
        }
    }
    json!({"o": "provemany", "pqs": pqs.iter().map(pq_json).collect::<Vec<_>>()})
}
