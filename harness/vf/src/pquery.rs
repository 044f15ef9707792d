//! What of a path query applies at a path, the keys it names, and merging of path queries.
use grovedb::{AggregateSumPathQuery, PathQuery, SizedQuery};
use grovedb_query::{AggregateSumQuery, Query, QueryItem};
use grovedb_version::version::GroveVersion;
use vh_common::*;

use crate::{q::*, qitem};

type P = Vec<Vec<u8>>;
fn pj(p: &[Vec<u8>]) -> Value {
    json!(p.iter().map(hex).collect::<Vec<_>>())
}
pub fn pq_json(p: &PathQuery) -> Value {
    json!({"path": pj(&p.path), "q": query_json(&p.query.query),
        "limit": p.query.limit.iter().collect::<Vec<_>>(), "offset": p.query.offset.iter().collect::<Vec<_>>()})
}
fn agg_json(a: &AggregateSumQuery) -> Value {
    json!({"items": items_json(&a.items), "left": a.left_to_right, "sum": a.sum_limit.to_string(),
        "lim": a.limit_of_items_to_check.iter().collect::<Vec<_>>()})
}

fn at(o: &mut Out, pq: &PathQuery, keys: &[Vec<u8>], probes: Vec<P>) {
    let (q2, k2) = (pq.clone(), keys.to_vec());
    let x = guard(move || {
        let v = GroveVersion::latest();
        let mut out = vec![];
        for p in &probes {
            let s: Vec<&[u8]> = p.iter().map(|x| x.as_slice()).collect();
            let r = q2.query_items_at_path(&s, v)?;
            let par = q2.should_add_parent_tree_at_path(&s, v)?;
            out.push(json!({"p": pj(p), "par": par, "v": match &r {
                None => json!({"none": true}),
                Some(x) => json!({"none": false, "items": items_json(&x.items), "left": x.left_to_right,
                    "on": k2.iter().map(|k| x.has_subquery_or_matching_in_path_on_key(k)).collect::<Vec<_>>()}),
            }}));
        }
        Ok::<_, grovedb::Error>(json!(out))
    });
    o.ev(with(json!({"e": "at", "pq": pq_json(pq), "keys": pj(keys)}), outcome(x, |v| v)));
}
fn small_queries(r: &Rng) -> QGen<'_> {
    QGen { r, alpha: vec![vec![1], vec![2], vec![3], vec![4], vec![5]], bounded: false, overlapping_conds: r.chance(1, 2), up: r.chance(1, 2) }
}
fn terminal(o: &mut Out, pq: &PathQuery, max: usize) -> usize {
    let q2 = pq.clone();
    let mut n = 0;
    let x = guard(move || q2.terminal_keys(max, GroveVersion::latest()));
    if let Ok(Ok(v)) = &x {
        n = v.len();
    }
    let mut e = with(json!({"e": "terminal", "pq": pq_json(pq), "max": max, "v": []}),
        outcome(x, |v| json!(v.iter().map(|(p, k)| json!([pj(p), hex(k)])).collect::<Vec<_>>())));
    e.as_object_mut().unwrap().remove("why");
    o.ev(e);
    n
}
fn hassub(o: &mut Out, q: &Query, keys: &[Vec<u8>]) {
    let (q2, k2) = (q.clone(), keys.to_vec());
    let x = guard(move || {
        Ok::<_, ()>(k2.iter().map(|k| (q2.has_subquery_on_key(k, false), q2.has_subquery_or_subquery_path_on_key(k, false),
            q2.has_subquery_on_key(k, true), q2.has_subquery_or_subquery_path_on_key(k, true))).collect::<Vec<_>>())
    });
    o.ev(with(json!({"e": "hassub", "q": query_json(q), "keys": pj(keys), "only": q.has_only_keys(), "any": q.has_subquery()}),
        outcome(x, |v| json!(v))));
}
pub fn run(a: &Args, o: &mut Out) {
    let r = Rng::new(a.seed ^ 0x10a);
    for s in a.read_schedules() {
        let pq = PathQuery { path: vec![], query: SizedQuery::new(query_from(&s["q"]), None, None) };
        o.about(&s);
        let probes: Vec<P> = s["probes"].as_array().unwrap().iter().map(|p| p.as_array().unwrap().iter().map(|k| unhex(k.as_str().unwrap())).collect()).collect();
        at(o, &pq, &[vec![1], vec![2], vec![3]], probes);
        let n = terminal(o, &pq, 64);
        if n > 0 {
            terminal(o, &pq, n - 1);
        }
        o.end_case();
    }
    for _ in 0..a.n(3000, 40000) {
        let g = small_queries(&r);
        let q = g.query(r.idx(4));
        let path: P = (0..*r.pick(&[0usize, 0, 1, 1, 2, 3])).map(|_| g.key()).collect();
        let pq = PathQuery { path: path.clone(), query: SizedQuery::new(q.clone(), None, None) };
        o.about(&json!({"at": pq_json(&pq)}));
        let mut probes: Vec<P> = (0..=path.len()).map(|n| path[..n].to_vec()).collect();
        for p in g.probes(&[&q], 14) {
            for n in 1..=p.len() {
                let mut x = path.clone();
                x.extend_from_slice(&p[..n]);
                probes.push(x);
            }
        }
        for _ in 0..3 {
            probes.push((0..r.idx(4)).map(|_| g.key()).collect());
        }
        probes.sort();
        probes.dedup();
        at(o, &pq, &g.alpha, probes);
        hassub(o, &q, &g.alpha);
        let d = guard(|| Ok::<_, ()>(if r.chance(1, 2) { q.max_depth() } else { pq.max_depth() }.expect("depth")));
        o.ev(with(json!({"e": "depth", "q": query_json(&q)}), outcome(d, |v| json!(v))));
        let (k, item) = (g.key(), g.item());
        let base = json!({"e": "pctor", "path": pj(&path), "k": hex(&k), "item": item_json(&item), "q": query_json(&q)});
        let (p, q2) = (path.clone(), q.clone());
        let x = guard(move || {
            Ok::<_, ()>(vec![PathQuery::new_single_key(p.clone(), k.clone()), PathQuery::new_single_query_item(p.clone(), item.clone()),
                PathQuery::new_unsized(p.clone(), q2.clone()), PathQuery::new(p.clone(), SizedQuery::new(q2, Some(7), Some(9))),
                PathQuery::new(p.clone(), SizedQuery::new_single_key(k)), PathQuery::new(p, SizedQuery::new_single_query_item(item))])
        });
        o.ev(with(base, outcome(x, |v| json!(v.iter().map(pq_json).collect::<Vec<_>>()))));
        o.end_case();
    }
    // long chains of subqueries and long paths
    for n in (1..8).chain(250..262) {
        for kind in 0..4 {
            for plen in [0usize, 1, 65535 - n, 65536 - n, 65536, 70000] {
                if kind > 1 && plen > 1 {
                    continue;
                }
                let mut q = Query::new_single_key(vec![1]);
                for i in 1..n {
                    let mut up = Query::new_single_key(vec![1]);
                    if kind == 0 || (kind == 2 && i % 2 == 0) {
                        up.add_conditional_subquery(QueryItem::Key(vec![1]), None, Some(q));
                    } else {
                        up.set_subquery(q);
                    }
                    q = up;
                }
                let path = if plen == 0 { None } else { Some(vec![vec![]; plen]) };
                let br = grovedb_query::SubqueryBranch { subquery_path: path.clone(), subquery: Some(Box::new(q.clone())) };
                let base = json!({"e": "deepmax", "n": n, "path": plen, "branch": kind == 3});
                let d = guard(move || {
                    if kind == 3 {
                        return br.max_depth().ok_or(());
                    }
                    let mut up = Query::new_range_full();
                    up.default_subquery_branch = br;
                    up.max_depth().ok_or(())
                });
                o.ev(with(base, outcome(d, |v| json!(v))));
                o.end_case();
            }
        }
    }
    for _ in 0..a.n(2500, 30000) {
        let mut g = small_queries(&r);
        g.bounded = !r.chance(1, 6);
        if r.chance(1, 12) {
            g.alpha.push(vec![1, 2]);
        }
        if r.chance(1, 12) {
            g.alpha.push(vec![]);
        }
        let q = g.query(r.idx(4));
        let path: P = (0..r.idx(3)).map(|_| g.key()).collect();
        let pq = PathQuery { path, query: SizedQuery::new(q, None, None) };
        o.about(&json!({"terminal": pq_json(&pq)}));
        let n = terminal(o, &pq, 400);
        for max in [n, n.saturating_sub(1), n / 2] {
            terminal(o, &pq, max);
        }
        o.end_case();
    }
    for n in [1usize, 2, 62, 63, 64, 65, 100] {
        let mut q = Query::new_single_key(vec![1]);
        for _ in 0..n {
            let mut out = Query::new_single_key(vec![1]);
            if r.chance(1, 2) {
                out.set_subquery(q);
            } else {
                out.add_conditional_subquery(QueryItem::Key(vec![1]), None, Some(q));
            }
            q = out;
        }
        let pq = PathQuery { path: vec![], query: SizedQuery::new(q, None, None) };
        let x = guard(move || pq.terminal_keys(10, GroveVersion::latest()));
        let mut e = with(json!({"e": "deep", "n": n}), outcome(x, |v| json!(v.len())));
        e.as_object_mut().unwrap().remove("why");
        o.ev(e);
        o.end_case();
    }
}
/// a query from its JSON form
pub fn query_from(v: &Value) -> Query {
    let mut q = Query::new_with_direction(v["left"].as_bool().unwrap());
    q.items = v["items"].as_array().unwrap().iter().map(item_of).collect();
    q.default_subquery_branch = branch_from(&v["def"]);
    for c in v["cond"].as_array().unwrap() {
        q.conditional_subquery_branches.get_or_insert_default().insert(item_of(&c[0]), branch_from(&c[1]));
    }
    q.add_parent_tree_on_subquery = v["par"].as_bool().unwrap();
    q
}
fn branch_from(v: &Value) -> grovedb_query::SubqueryBranch {
    let a = |x: &Value| x.as_array().unwrap().clone();
    grovedb_query::SubqueryBranch {
        subquery_path: a(&v["path"]).first().map(|p| a(p).iter().map(|k| unhex(k.as_str().unwrap())).collect()),
        subquery: a(&v["sub"]).first().map(|q| Box::new(query_from(q))),
    }
}

fn agg(r: &Rng) -> AggregateSumQuery {
    let mut a = AggregateSumQuery::new_with_query_items(vec![], 0, None);
    for _ in 0..1 + r.idx(3) {
        a.insert_item(qitem::item(r));
    }
    a.left_to_right = !r.chance(1, 8);
    a.sum_limit = *r.pick(&[0, 1, 5, 1000, u64::MAX / 2, u64::MAX - 1, u64::MAX]);
    a.limit_of_items_to_check = *r.pick(&[None, Some(0), Some(1), Some(7), Some(32767), Some(65534), Some(65535)]);
    if r.chance(1, 2) {
        a.sum_limit %= 100000;
        a.limit_of_items_to_check = a.limit_of_items_to_check.map(|x| x % 100);
    }
    a
}
pub fn run_merge(a: &Args, o: &mut Out) {
    let r = Rng::new(a.seed ^ 0x10b);
    for _ in 0..a.n(2000, 30000) {
        let g = small_queries(&r);
        let n = *r.pick(&[1usize, 2, 2, 2, 3, 3, 4]);
        let common: P = (0..r.idx(3)).map(|_| g.key()).collect();
        let mut pqs: Vec<PathQuery> = vec![];
        for _ in 0..n {
            let mut path = common.clone();
            if r.chance(1, 5) && !pqs.is_empty() {
                path = pqs[r.idx(pqs.len())].path.clone();
            }
            for _ in 0..*r.pick(&[0usize, 0, 1, 1, 2, 3]) {
                path.push(g.key());
            }
            pqs.push(PathQuery { path, query: SizedQuery::new(g.query(r.idx(3)), None, None) });
        }
        if r.chance(1, 10) {
            let i = r.idx(n);
            pqs[i].query.limit = Some(3);
        }
        if r.chance(1, 12) {
            let i = r.idx(n);
            pqs[i].query.offset = Some(r.idx(2) as u16);
        }
        let js: Vec<Value> = pqs.iter().map(pq_json).collect();
        o.about(&json!({"pqmerge": js}));
        let mut probes = vec![];
        for _ in 0..40 {
            let i = r.idx(n);
            let mut p = pqs[i].path.clone();
            let w = g.probes(&[&pqs[i].query.query], 1);
            p.extend(w.into_iter().next().unwrap_or_default());
            match r.idx(8) {
                0 => {
                    let j = r.idx(p.len());
                    p[j] = g.key();
                }
                1 => p.truncate(1 + r.idx(p.len())),
                2 => p = (0..1 + r.idx(5)).map(|_| g.key()).collect(),
                _ => {}
            }
            probes.push(p);
        }
        probes.sort();
        probes.dedup();
        let x = guard(|| PathQuery::merge(pqs.iter().collect(), GroveVersion::latest()));
        o.ev(with(json!({"e": "pqmerge", "pqs": js, "probes": paths_json(&probes)}), outcome(x, |m| pq_json(&m))));
        o.end_case();
    }
    {
        let x = guard(|| PathQuery::merge(vec![], GroveVersion::latest()));
        o.ev(with(json!({"e": "pqmerge", "pqs": [], "probes": []}), outcome(x, |m| pq_json(&m))));
        o.end_case();
    }
    run_sums(a, o, &r);
}
/// aggregate sum queries only
pub fn run_sum(a: &Args, o: &mut Out) {
    run_sums(a, o, &Rng::new(a.seed ^ 0x10c));
}
fn run_sums(a: &Args, o: &mut Out, r: &Rng) {
    for _ in 0..a.n(60, 1000) {
        let path: P = (0..r.idx(3)).map(|_| qitem::key(r)).collect();
        let (k, item) = (qitem::key(r), qitem::item(r));
        let sum = *r.pick(&[0, 1, 77, u64::MAX]);
        let lim = *r.pick(&[None, Some(0u16), Some(9), Some(65535)]);
        let base = json!({"e": "pqactor", "path": pj(&path), "k": hex(&k), "item": item_json(&item), "sum": sum.to_string(), "lim": lim.iter().collect::<Vec<_>>()});
        let x = guard(move || {
            let mut down = AggregateSumQuery::new_single_query_item(item.clone(), sum, lim);
            down.left_to_right = false;
            Ok::<_, ()>(vec![AggregateSumPathQuery::new_single_key(path.clone(), k, sum),
                AggregateSumPathQuery::new_single_query_item(path.clone(), item, sum, lim), AggregateSumPathQuery::new(path, down)])
        });
        o.ev(with(base, outcome(x, |v| json!(v.iter().map(|p| json!({"path": pj(&p.path), "q": agg_json(&p.aggregate_sum_query)})).collect::<Vec<_>>()))));
        o.end_case();
    }
    for _ in 0..a.n(2500, 30000) {
        let qs: Vec<AggregateSumQuery> = (0..1 + r.idx(3)).map(|_| agg(r)).collect();
        let js: Vec<Value> = qs.iter().map(agg_json).collect();
        o.about(&json!({"agg": js}));
        if qs.len() == 2 {
            let mut m = qs[0].clone();
            let other = qs[1].clone();
            let x = guard(|| m.merge_with(other));
            let after = agg_json(&m);
            o.ev(with(json!({"e": "aggwith", "qs": js, "after": after.clone(), "v": after.clone()}), outcome(x, |_| after)));
        }
        let q2 = qs.clone();
        let x = guard(move || AggregateSumQuery::merge_multiple(q2));
        o.ev(with(json!({"e": "agg", "qs": js, "v": 0}), outcome(x, |m| agg_json(&m))));
        let path: P = (0..r.idx(3)).map(|_| vec![1 + r.idx(3) as u8]).collect();
        let mut pqs: Vec<AggregateSumPathQuery> = qs.iter().map(|q| AggregateSumPathQuery { path: path.clone(), aggregate_sum_query: q.clone() }).collect();
        if r.chance(1, 6) {
            let i = r.idx(pqs.len());
            pqs[i].path.push(vec![9]);
        }
        let paths: Vec<Value> = pqs.iter().map(|p| pj(&p.path)).collect();
        let x = guard(|| AggregateSumPathQuery::merge(pqs.iter().collect(), GroveVersion::latest()));
        let mp = match &x {
            Ok(Ok(m)) => pj(&m.path),
            _ => json!([]),
        };
        o.ev(with(json!({"e": "aggpq", "qs": js, "paths": paths, "path": mp, "v": 0}), outcome(x, |m| agg_json(&m.aggregate_sum_query))));
        o.end_case();
    }
}
