//! Inserting items into queries and merging queries.
use grovedb_query::{AggregateSumQuery, Query, QueryItem, SubqueryBranch};
use vh_common::*;

use crate::{q::*, qitem};

fn insert_ev(o: &mut Out, r: &Rng, from: usize) {
    let items: Vec<QueryItem> = (0..1 + r.idx(7)).map(|_| qitem::item(r)).collect();
    let its = items.clone();
    let how = from + r.idx(4 - from);
    let x = guard(move || {
        let mut q = Query::new();
        match how {
            0 => q.insert_items(its),
            1 => {
                for i in its {
                    match i {
                        QueryItem::Key(k) => q.insert_key(k),
                        QueryItem::Range(x) => q.insert_range(x),
                        QueryItem::RangeInclusive(x) => q.insert_range_inclusive(x),
                        QueryItem::RangeFull(_) => q.insert_all(),
                        QueryItem::RangeFrom(x) => q.insert_range_from(x),
                        QueryItem::RangeTo(x) => q.insert_range_to(x),
                        QueryItem::RangeToInclusive(x) => q.insert_range_to_inclusive(x),
                        QueryItem::RangeAfter(x) => q.insert_range_after(x),
                        QueryItem::RangeAfterTo(x) => q.insert_range_after_to(x),
                        QueryItem::RangeAfterToInclusive(x) => q.insert_range_after_to_inclusive(x),
                    }
                }
            }
            2 => {
                let mut a = AggregateSumQuery::new_with_query_items(vec![], 1, None);
                a.insert_items(its);
                return Ok(a.items);
            }
            _ => {
                let mut a = AggregateSumQuery::new_with_query_items(vec![], 1, None);
                for i in its {
                    match i {
                        QueryItem::Key(k) => a.insert_key(k),
                        QueryItem::Range(x) => a.insert_range(x),
                        QueryItem::RangeInclusive(x) => a.insert_range_inclusive(x),
                        QueryItem::RangeFull(_) => a.insert_all(),
                        QueryItem::RangeFrom(x) => a.insert_range_from(x),
                        QueryItem::RangeTo(x) => a.insert_range_to(x),
                        QueryItem::RangeToInclusive(x) => a.insert_range_to_inclusive(x),
                        QueryItem::RangeAfter(x) => a.insert_range_after(x),
                        QueryItem::RangeAfterTo(x) => a.insert_range_after_to(x),
                        QueryItem::RangeAfterToInclusive(x) => a.insert_range_after_to_inclusive(x),
                    }
                }
                return Ok(a.items);
            }
        }
        Ok::<_, ()>(q.items)
    });
    o.ev(with(json!({"e": "insert", "items": items_json(&items)}), outcome(x, |v| items_json(&v))));
}

fn conds_json(c: &indexmap::IndexMap<QueryItem, SubqueryBranch>) -> Value {
    json!(c.iter().map(|(i, b)| json!([item_json(i), branch_json(b)])).collect::<Vec<_>>())
}
/// a subquery branch for some keys merged into conditional branches, or into the default one
fn branch_ev(o: &mut Out, r: &Rng) {
    let g = QGen { r, alpha: vec![vec![1], vec![2], vec![3], vec![4], vec![5]], bounded: false, overlapping_conds: r.chance(1, 3), up: r.chance(1, 2) };
    let depth = 1 + r.idx(3);
    let mut q = g.query(depth);
    let mut br = g.branch(depth);
    if r.chance(1, 2) {
        br.subquery_path = q.default_subquery_branch.subquery_path.clone();
    }
    let mut probes = g.probes(&[&q], 25);
    let mut o2 = Query::new_range_full();
    o2.default_subquery_branch = br.clone();
    probes.extend(g.probes(&[&o2], 25));
    probes.sort();
    probes.dedup();
    let item = g.item();
    o.about(&json!({"branch": [query_json(&q), item_json(&item), branch_json(&br)]}));
    let conds = q.conditional_subquery_branches.clone();
    let how = r.idx(2);
    let (c2, i2, b2) = (conds.clone(), item.clone(), br.clone());
    let x = guard(move || {
        Ok::<_, ()>(if how == 0 {
            Query::merge_conditional_subquery_branches_with_new_at_query_item(c2, i2, b2)
        } else {
            let mut q = Query::new();
            q.conditional_subquery_branches = c2;
            q.merge_conditional_boxed_subquery(i2, b2);
            q.conditional_subquery_branches.unwrap_or_default()
        })
    });
    o.ev(with(json!({"e": "condmerge", "how": how, "cond": conds_json(&conds.unwrap_or_default()), "item": item_json(&item),
        "br": branch_json(&br), "probes": paths_json(&probes)}), outcome(x, |m| conds_json(&m))));
    if br.subquery_path == q.default_subquery_branch.subquery_path {
        let was = query_json(&q);
        let b2 = br.clone();
        let x = guard(move || {
            q.merge_default_subquery_branch(b2);
            Ok::<_, ()>(q)
        });
        o.ev(with(json!({"e": "defmerge", "q": was, "br": branch_json(&br), "probes": paths_json(&probes)}), outcome(x, |m| query_json(&m))));
    }
}
fn agg_json(a: &AggregateSumQuery) -> Value {
    json!({"items": items_json(&a.items), "left": a.left_to_right, "sum": a.sum_limit.to_string(),
        "lim": a.limit_of_items_to_check.iter().collect::<Vec<_>>()})
}
/// the ways to make a query
fn ctor_ev(o: &mut Out, r: &Rng) {
    let item = qitem::item(r);
    let (k, left) = (qitem::key(r), r.chance(1, 2));
    let keys: Vec<Vec<u8>> = (0..r.idx(4)).map(|_| qitem::key(r)).collect();
    let items: Vec<QueryItem> = (0..r.idx(4)).map(|_| qitem::item(r)).collect();
    let sum = *r.pick(&[0, 1, 77, u64::MAX]);
    let lim = *r.pick(&[None, Some(0u16), Some(9), Some(65535)]);
    let sub = Query::new_single_key(vec![1]);
    let base = json!({"e": "ctor", "item": item_json(&item), "k": hex(&k), "keys": keys.iter().map(hex).collect::<Vec<_>>(),
        "items": items_json(&items), "left": left, "sum": sum.to_string(), "lim": lim.iter().collect::<Vec<_>>(), "sub": query_json(&sub)});
    let x = guard(move || {
        let mut a = Query::new_with_direction(left);
        a.items = items.clone();
        let mut p = a.clone();
        p.set_subquery_key(k.clone());
        let mut pp = a.clone();
        pp.set_subquery_path(keys.clone());
        let mut s = pp.clone();
        s.set_subquery(sub.clone());
        let mut c = a.clone();
        c.add_conditional_subquery(item.clone(), Some(keys.clone()), Some(sub.clone()));
        c.add_conditional_subquery(QueryItem::Key(k.clone()), None, None);
        let rev = |v: Vec<&QueryItem>| items_json(&v.into_iter().cloned().collect::<Vec<_>>());
        let mut qins = Query::new();
        qins.insert_keys(keys.clone());
        Ok::<_, ()>(json!({
            "q": [query_json(&Query::new()), query_json(&Query::new_range_full()), query_json(&Query::new_single_key(k.clone())),
                query_json(&Query::new_single_query_item(item.clone())), query_json(&Query::new_with_direction(left)),
                query_json(&Query::new_single_query_item_with_direction(item.clone(), left)), query_json(&Query::from(items.clone())),
                query_json(&Query::from(keys.clone())),
                query_json(&p), query_json(&pp), query_json(&s), query_json(&c)],
            "len": a.len(), "empty": a.is_empty(),
            "it": [rev(a.iter().collect()), rev(a.rev_iter().collect()), rev(a.directional_iter(left).collect()),
                items_json(&Vec::<QueryItem>::from(a.clone())), items_json(&a.clone().into_iter().collect::<Vec<_>>())],
            "ins": items_json(&qins.items),
        }))
    });
    o.ev(with(base, outcome(x, |v| v)));
}
fn actor_ev(o: &mut Out, r: &Rng) {
    let item = qitem::item(r);
    let (k, left) = (qitem::key(r), r.chance(1, 2));
    let keys: Vec<Vec<u8>> = (0..r.idx(4)).map(|_| qitem::key(r)).collect();
    let items: Vec<QueryItem> = (0..r.idx(4)).map(|_| qitem::item(r)).collect();
    let sum = *r.pick(&[0, 1, 77, u64::MAX]);
    let lim = *r.pick(&[None, Some(0u16), Some(9), Some(65535)]);
    let base = json!({"e": "actor", "item": item_json(&item), "k": hex(&k), "keys": keys.iter().map(hex).collect::<Vec<_>>(),
        "items": items_json(&items), "left": left, "sum": sum.to_string(), "lim": lim.iter().collect::<Vec<_>>()});
    let x = guard(move || {
        let rev = |v: Vec<&QueryItem>| items_json(&v.into_iter().cloned().collect::<Vec<_>>());
        let mut g = AggregateSumQuery::new_with_query_items(items.clone(), sum, lim);
        g.left_to_right = left;
        let mut ins = AggregateSumQuery::new_with_query_items(vec![], sum, lim);
        ins.insert_keys(keys.clone());
        Ok::<_, ()>(json!({
            "it": [rev(g.iter().collect()), rev(g.rev_iter().collect()), rev(g.directional_iter(left).collect())],
            "keys": g.has_only_keys(),
            "ins": items_json(&ins.items),
            "agg": [agg_json(&AggregateSumQuery::new(sum, lim)), agg_json(&AggregateSumQuery::new_descending(sum, lim)),
                agg_json(&AggregateSumQuery::new_range_full(sum, lim)), agg_json(&AggregateSumQuery::new_range_full_descending(sum, lim)),
                agg_json(&AggregateSumQuery::new_single_key(k.clone(), sum)),
                agg_json(&AggregateSumQuery::new_single_query_item(item.clone(), sum, lim)),
                agg_json(&AggregateSumQuery::new_with_query_items(items.clone(), sum, lim)),
                agg_json(&AggregateSumQuery::new_with_keys(keys.clone(), sum, lim)),
                agg_json(&AggregateSumQuery::new_with_keys_reversed(keys.clone(), sum, lim)),
                agg_json(&AggregateSumQuery::new_single_query_item_with_direction(item.clone(), left, sum, lim))],
        }))
    });
    o.ev(with(base, outcome(x, |v| v)));
}

/// aggregate sum queries only
pub fn run_sum(a: &Args, o: &mut Out) {
    let r = Rng::new(a.seed ^ 0x9e2);
    for _ in 0..a.n(300, 4000) {
        actor_ev(o, &r);
        o.end_case();
    }
    for _ in 0..a.n(1500, 20000) {
        insert_ev(o, &r, 2);
        o.end_case();
    }
}

pub fn run(a: &Args, o: &mut Out) {
    let r = Rng::new(a.seed ^ 0x9e1);
    for _ in 0..a.n(1500, 20000) {
        branch_ev(o, &r);
        o.end_case();
    }
    for _ in 0..a.n(150, 2000) {
        ctor_ev(o, &r);
        actor_ev(o, &r);
        o.end_case();
    }
    for _ in 0..a.n(3000, 40000) {
        insert_ev(o, &r, 0);
        o.end_case();
    }
    for _ in 0..a.n(2500, 40000) {
        let g = QGen { r: &r, alpha: vec![vec![1], vec![2], vec![3], vec![4], vec![5]], bounded: false, overlapping_conds: r.chance(1, 3), up: r.chance(1, 2) };
        let depth = r.idx(4);
        let n = *r.pick(&[1usize, 2, 2, 2, 2, 3, 3, 4]);
        let qs: Vec<Query> = (0..n).map(|_| g.query(depth)).collect();
        let qj: Vec<Value> = qs.iter().map(query_json).collect();
        o.about(&json!({"merge": qj}));
        let probes = g.probes(&qs.iter().collect::<Vec<_>>(), 40);
        let two = n == 2 && r.chance(1, 2);
        let qq = qs.clone();
        let x = guard(move || {
            Ok::<_, ()>(if two {
                let mut m = qq[0].clone();
                m.merge_with(qq[1].clone());
                m
            } else {
                Query::merge_multiple(qq)
            })
        });
        o.ev(with(json!({"e": "merge", "qs": qj, "probes": paths_json(&probes)}), outcome(x, |m| query_json(&m))));
        o.end_case();
    }
}
