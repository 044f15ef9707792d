//! Query items and queries as JSON, and their generation.
use grovedb_query::{Query, QueryItem};
use vh_common::*;

pub fn item_json(i: &QueryItem) -> Value {
    let (t, a, b): (&str, &[u8], &[u8]) = match i {
        QueryItem::Key(k) => ("key", k, &[]),
        QueryItem::Range(r) => ("range", &r.start, &r.end),
        QueryItem::RangeInclusive(r) => ("rangeinc", r.start(), r.end()),
        QueryItem::RangeFull(_) => ("full", &[], &[]),
        QueryItem::RangeFrom(r) => ("from", &r.start, &[]),
        QueryItem::RangeTo(r) => ("to", &[], &r.end),
        QueryItem::RangeToInclusive(r) => ("toinc", &[], &r.end),
        QueryItem::RangeAfter(r) => ("after", &r.start, &[]),
        QueryItem::RangeAfterTo(r) => ("afterto", &r.start, &r.end),
        QueryItem::RangeAfterToInclusive(r) => ("aftertoinc", r.start(), r.end()),
    };
    json!({"t": t, "a": hex(a), "b": hex(b)})
}
pub fn mk(kind: usize, a: Vec<u8>, b: Vec<u8>) -> QueryItem {
    match kind % 10 {
        0 => QueryItem::Key(a),
        1 => QueryItem::Range(a..b),
        2 => QueryItem::RangeInclusive(a..=b),
        3 => QueryItem::RangeFull(..),
        4 => QueryItem::RangeFrom(a..),
        5 => QueryItem::RangeTo(..b),
        6 => QueryItem::RangeToInclusive(..=b),
        7 => QueryItem::RangeAfter(a..),
        8 => QueryItem::RangeAfterTo(a..b),
        _ => QueryItem::RangeAfterToInclusive(a..=b),
    }
}
pub fn items_json(v: &[QueryItem]) -> Value {
    json!(v.iter().map(item_json).collect::<Vec<_>>())
}
pub fn query_of(items: Vec<QueryItem>, left: bool) -> Query {
    let mut q = Query::new_with_direction(left);
    q.items = items;
    q
}
pub fn item_of(v: &Value) -> QueryItem {
    const K: [&str; 10] = ["key", "range", "rangeinc", "full", "from", "to", "toinc", "after", "afterto", "aftertoinc"];
    let t = K.iter().position(|k| *k == v["t"].as_str().unwrap()).unwrap();
    mk(t, unhex(v["a"].as_str().unwrap()), unhex(v["b"].as_str().unwrap()))
}
use grovedb_query::SubqueryBranch;
pub fn branch_json(b: &SubqueryBranch) -> Value {
    json!({"path": b.subquery_path.iter().map(|p| p.iter().map(hex).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "sub": b.subquery.iter().map(|q| query_json(q)).collect::<Vec<_>>()})
}
pub fn query_json(q: &Query) -> Value {
    json!({"items": items_json(&q.items), "def": branch_json(&q.default_subquery_branch),
        "cond": q.conditional_subquery_branches.iter().flatten().map(|(i, b)| json!([item_json(i), branch_json(b)])).collect::<Vec<_>>(),
        "hascond": q.conditional_subquery_branches.is_some(),
        "left": q.left_to_right, "par": q.add_parent_tree_on_subquery})
}
/// Generation of nested queries over a small alphabet of keys.
pub struct QGen<'a> {
    pub r: &'a Rng,
    pub alpha: Vec<Vec<u8>>,
    /// items are single keys or short ranges
    pub bounded: bool,
    pub overlapping_conds: bool,
    /// every layer goes upwards
    pub up: bool,
}
impl QGen<'_> {
    pub fn key(&self) -> Vec<u8> {
        self.r.pick(&self.alpha).clone()
    }
    pub fn item(&self) -> QueryItem {
        loop {
            let i = if self.r.chance(1, 2) {
                QueryItem::Key(self.key())
            } else if self.bounded {
                mk(1 + self.r.idx(2), self.key(), self.key())
            } else {
                mk(self.r.idx(10), self.key(), self.key())
            };
            if crate::qitem::nonempty(&i) {
                return i;
            }
        }
    }
    pub fn branch(&self, depth: usize) -> SubqueryBranch {
        let mut b = SubqueryBranch::default();
        if depth == 0 {
            return b;
        }
        if self.r.chance(1, 3) {
            b.subquery_path = Some((0..1 + self.r.idx(2)).map(|_| self.key()).collect());
        }
        if self.r.chance(2, 3) {
            b.subquery = Some(Box::new(self.query(depth - 1)));
        }
        b
    }
    pub fn query(&self, depth: usize) -> Query {
        let mut q = Query::new_with_direction(self.up || self.r.chance(2, 3));
        for _ in 0..1 + self.r.idx(3) {
            let i = self.item();
            if q.items.iter().all(|j| !i.collides_with(j)) {
                q.items.push(i);
            }
        }
        q.items.sort();
        if self.r.chance(1, 2) {
            q.default_subquery_branch = self.branch(depth);
        }
        for _ in 0..*self.r.pick(&[0usize, 0, 0, 1, 1, 2]) {
            let i = self.item();
            let m = q.conditional_subquery_branches.get_or_insert_default();
            if self.overlapping_conds || m.keys().all(|j| !i.collides_with(j)) {
                m.insert(i, self.branch(depth));
            }
        }
        q.add_parent_tree_on_subquery = self.r.chance(1, 8);
        q
    }
    /// a path of keys that the query follows (to an answer or on the way)
    pub fn walk(&self, q: &Query) -> Vec<Vec<u8>> {
        let mut p = vec![];
        let mut q = q;
        loop {
            let ks: Vec<_> = self.alpha.iter().filter(|k| q.items.iter().any(|i| i.contains(k))).cloned().collect();
            let k = if ks.is_empty() { self.key() } else { self.r.pick(&ks).clone() };
            let b = q
                .conditional_subquery_branches
                .iter()
                .flatten()
                .find(|(i, _)| i.contains(&k))
                .map(|x| x.1)
                .unwrap_or(&q.default_subquery_branch);
            p.push(k);
            p.extend(b.subquery_path.iter().flatten().cloned());
            match &b.subquery {
                Some(s) => q = s,
                None => break,
            }
        }
        p
    }
    pub fn probes(&self, qs: &[&Query], n: usize) -> Vec<Vec<Vec<u8>>> {
        let mut v: Vec<Vec<Vec<u8>>> = (0..n)
            .map(|i| {
                if i % 4 == 3 {
                    return (0..1 + self.r.idx(4)).map(|_| self.key()).collect();
                }
                let mut p = self.walk(qs[self.r.idx(qs.len())]);
                match self.r.idx(5) {
                    0 => p.push(self.key()),
                    1 if p.len() > 1 => {
                        p.pop();
                    }
                    2 => {
                        let j = self.r.idx(p.len());
                        p[j] = self.key();
                    }
                    _ => {}
                }
                p
            })
            .collect();
        v.sort();
        v.dedup();
        v
    }
}
pub fn paths_json(v: &[Vec<Vec<u8>>]) -> Value {
    json!(v.iter().map(|p| p.iter().map(hex).collect::<Vec<_>>()).collect::<Vec<_>>())
}
