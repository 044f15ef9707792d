//! Query items: membership, comparison, intersection, merging, iteration, descent.
use grovedb_costs::{CostContext, CostsExt, OperationCost};
use grovedb_query::{ProofItems, QueryItem};
use grovedb_storage::RawIterator;
use vh_common::*;

use crate::q::*;

/// A store iterator as GroveDB has it: the keys of one subtree inside a larger key space; moving an
/// iterator that is not on any entry has no effect.
struct It {
    all: Vec<(u8, Vec<u8>)>, // (0 before / 1 ours / 2 after, key)
    pos: Option<usize>,
}
impl It {
    fn go(&mut self, p: Option<usize>) -> CostContext<()> {
        self.pos = p;
        ().wrap_with_cost(OperationCost::default())
    }
    fn first_ge(&self, k: (u8, &[u8])) -> Option<usize> {
        self.all.iter().position(|(a, b)| (*a, b.as_slice()) >= k)
    }
    fn last_le(&self, k: (u8, &[u8])) -> Option<usize> {
        self.all.iter().rposition(|(a, b)| (*a, b.as_slice()) <= k)
    }
}
impl RawIterator for It {
    fn seek_to_first(&mut self) -> CostContext<()> {
        let p = self.first_ge((1, &[]));
        self.go(p)
    }
    fn seek_to_last(&mut self) -> CostContext<()> {
        let p = self.all.iter().rposition(|(a, _)| *a <= 1);
        self.go(p)
    }
    fn seek<K: AsRef<[u8]>>(&mut self, key: K) -> CostContext<()> {
        let p = self.first_ge((1, key.as_ref()));
        self.go(p)
    }
    fn seek_for_prev<K: AsRef<[u8]>>(&mut self, key: K) -> CostContext<()> {
        let p = self.last_le((1, key.as_ref()));
        self.go(p)
    }
    fn next(&mut self) -> CostContext<()> {
        let n = self.all.len();
        let p = self.pos.and_then(|p| if p + 1 < n { Some(p + 1) } else { None });
        self.go(p)
    }
    fn prev(&mut self) -> CostContext<()> {
        let p = self.pos.and_then(|p| p.checked_sub(1));
        self.go(p)
    }
    fn value(&self) -> CostContext<Option<&[u8]>> {
        self.key()
    }
    fn key(&self) -> CostContext<Option<&[u8]>> {
        self.pos.and_then(|p| if self.all[p].0 == 1 { Some(self.all[p].1.as_slice()) } else { None }).wrap_with_cost(OperationCost::default())
    }
    fn valid(&self) -> CostContext<bool> {
        self.key().unwrap().is_some().wrap_with_cost(OperationCost::default())
    }
}

fn cuts(i: &QueryItem) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for b in [i.lower_bound().0, i.upper_bound().0].into_iter().flatten() {
        v.push(b.to_vec());
        let mut c = b.to_vec();
        c.push(0);
        v.push(c);
        if let Some((l, r)) = b.split_last() {
            v.push(r.to_vec());
            if *l > 0 {
                let mut d = r.to_vec();
                d.push(l - 1);
                d.push(255);
                v.push(d);
            }
        }
    }
    v
}
pub fn key(r: &Rng) -> Vec<u8> {
    // few distinct bytes, so that bounds coincide, nest and extend one another
    let n = *r.pick(&[0usize, 1, 1, 1, 2, 2, 3]);
    (0..n).map(|_| *r.pick(&[0u8, 1, 7, 8, 0x80, 0xff])).collect()
}
pub fn any_item(r: &Rng) -> QueryItem {
    mk(r.idx(10), key(r), key(r))
}
pub fn nonempty(i: &QueryItem) -> bool {
    let (lo, ex) = i.lower_bound();
    let (hi, inc) = i.upper_bound();
    if i.lower_unbounded() && i.upper_unbounded() {
        return true;
    }
    let cut = |b: &[u8], after: bool| {
        let mut v = b.to_vec();
        if after {
            v.push(0)
        }
        v
    };
    let l = lo.map(|b| cut(b, ex)).unwrap_or_default();
    match hi {
        None => true,
        Some(b) => l < cut(b, inc),
    }
}
pub fn item(r: &Rng) -> QueryItem {
    loop {
        let i = any_item(r);
        if nonempty(&i) {
            return i;
        }
    }
}
fn item_ev(o: &mut Out, r: &Rng, i: &QueryItem) {
    let mut keys = cuts(i);
    keys.push(vec![]);
    keys.push(vec![255, 255, 255, 255]);
    keys.push(key(r));
    keys.sort();
    keys.dedup();
    let ks = keys.clone();
    let ii = i.clone();
    let x = guard(move || {
        let res = |k: Result<Vec<Vec<u8>>, _>| match k {
            Ok(v) => json!({"st": "ok", "v": v.iter().map(hex).collect::<Vec<_>>()}),
            Err(_e) => {
                let _: grovedb_query::error::Error = _e;
                json!({"st": "err"})
            }
        };
        let opt = |b: Option<&[u8]>| json!(b.map(hex).into_iter().collect::<Vec<_>>());
        Ok::<_, ()>(json!({
            "contains": ks.iter().map(|k| ii.contains(k)).collect::<Vec<_>>(),
            "eq": ks.iter().map(|k| ii == k.as_slice()).collect::<Vec<_>>(),
            "lowunb": ii.lower_unbounded(), "highunb": ii.upper_unbounded(),
            "low": opt(ii.lower_bound().0), "high": opt(ii.upper_bound().0),
            "lowopen": ii.lower_bound().1, "highinc": ii.upper_bound().1,
            "single": ii.is_single() && ii.is_key(), "range": ii.is_range(), "unb": ii.is_unbounded_range(),
            "keys": res(ii.keys()), "keys2": res(ii.clone().keys_consume()),
        }))
    });
    o.ev(with(json!({"e": "item", "i": item_json(i), "keys": keys.iter().map(hex).collect::<Vec<_>>()}), outcome(x, |v| v)));
}
fn pair_ev(o: &mut Out, i: &QueryItem, j: &QueryItem) {
    o.about(&json!({"pair": [item_json(i), item_json(j)]}));
    let (a, b) = (i.clone(), j.clone());
    let x = guard(move || {
        let s = a.intersect(&b);
        let opt = |i: &Option<QueryItem>| json!(i.iter().map(item_json).collect::<Vec<_>>());
        let m = guard(|| a.merge(&b)).ok();
        let ma = guard(|| {
            let mut c = a.clone();
            c.merge_assign(&b);
            c
        })
        .ok();
        Ok::<_, ()>(json!({"both": opt(&s.in_both), "ol": opt(&s.ours_left), "or": opt(&s.ours_right), "tl": opt(&s.theirs_left),
            "tr": opt(&s.theirs_right), "collides": a.collides_with(&b), "cmp": a.cmp(&b) as i32, "merge": opt(&m), "massign": opt(&ma)}))
    });
    o.ev(with(json!({"e": "pair", "i": item_json(i), "j": item_json(j)}), outcome(x, |v| v)));
}
fn iter_ev(o: &mut Out, r: &Rng, i: &QueryItem, pool: &[Vec<u8>]) {
    let mut keys: Vec<Vec<u8>> = pool.to_vec();
    keys.sort();
    keys.dedup();
    keys.retain(|_| r.chance(3, 4));
    let mut all: Vec<(u8, Vec<u8>)> = vec![];
    if r.chance(1, 2) {
        all.push((0, vec![9]));
    }
    all.extend(keys.iter().map(|k| (1, k.clone())));
    if r.chance(1, 2) {
        all.push((2, vec![3]));
    }
    let left = r.chance(1, 2);
    let limit = *r.pick(&[0u16, 1, 2, 1000, 1000, 1000]);
    let nolimit = limit == 1000 && r.chance(1, 2);
    let agg = if r.chance(1, 4) { Some(1i64) } else { None };
    let ii = i.clone();
    let x = guard(move || {
        let mut it = It { all, pos: None };
        ii.seek_for_iter(&mut it, left).unwrap();
        let mut got = vec![];
        let mut lim = if nolimit { None } else { Some(limit) };
        while ii.iter_is_valid_for_type(&it, lim, agg, left).unwrap() && got.len() < 200 {
            got.push(hex(it.key().unwrap().unwrap()));
            lim = lim.map(|l| l - 1);
            if left { it.next().unwrap() } else { it.prev().unwrap() }
        }
        Ok::<_, ()>(json!(got))
    });
    o.ev(with(
        json!({"e": "iter", "i": item_json(i), "keys": keys.iter().map(hex).collect::<Vec<_>>(), "left": left, "limit": limit}),
        outcome(x, |v| v),
    ));
}
fn split_ev(o: &mut Out, r: &Rng, items: &[QueryItem], pool: &[Vec<u8>]) {
    let mut keys: Vec<Vec<u8>> = pool.to_vec();
    keys.sort();
    keys.dedup();
    let left = r.chance(1, 2);
    let its = items.to_vec();
    let rr = r.clone();
    r.next();
    fn go(p: &ProofItems, keys: &[Vec<u8>], lo: Option<&Vec<u8>>, hi: Option<&Vec<u8>>, r: &Rng, out: &mut Vec<Value>) {
        if keys.is_empty() {
            return;
        }
        let m = r.idx(keys.len());
        let k = &keys[m];
        let (found, bound, l, rt) = p.process_key(k);
        let opt = |x: Option<&Vec<u8>>| x.map(hex).into_iter().collect::<Vec<_>>();
        out.push(json!({"key": hex(k), "found": found, "bound": bound, "noleft": l.has_no_query_items(), "noright": rt.has_no_query_items(), "lo": opt(lo), "hi": opt(hi)}));
        go(&l, &keys[..m], lo, Some(k), r, out);
        go(&rt, &keys[m + 1..], Some(k), hi, r, out);
    }
    let ks = keys.clone();
    let x = guard(move || {
        let (p, _) = ProofItems::new_with_query_items(&its, left);
        let mut v = vec![];
        go(&p, &ks, None, None, &rr, &mut v);
        Ok::<_, ()>(json!(v))
    });
    o.ev(with(json!({"e": "split", "items": items_json(items)}), outcome(x, |v| v)));
}
/// an ordered list of disjoint items
pub fn disjoint_items(r: &Rng, n: usize) -> Vec<QueryItem> {
    let mut v: Vec<QueryItem> = vec![];
    for _ in 0..n {
        let i = item(r);
        if v.iter().all(|j| !i.collides_with(j)) {
            v.push(i);
        }
    }
    v.sort();
    v
}
pub fn run(a: &Args, o: &mut Out) {
    let r = Rng::new(a.seed);
    for s in a.read_schedules() {
        let i = item_of(&s["i"]);
        let j = item_of(&s["j"]);
        pair_ev(o, &i, &j);
        if r.chance(1, 20) {
            item_ev(o, &r, &i);
        }
        o.end_case();
    }
    for _ in 0..a.n(4000, 60000) {
        let i = any_item(&r);
        // often related to i
        let j = if r.chance(1, 2) {
            let c = cuts(&i);
            if c.is_empty() { any_item(&r) } else { mk(r.idx(10), r.pick(&c).clone(), r.pick(&c).clone()) }
        } else {
            any_item(&r)
        };
        o.about(&json!({"items": [item_json(&i), item_json(&j)]}));
        item_ev(o, &r, &i);
        pair_ev(o, &i, &j);
        let mut pool = cuts(&i);
        pool.extend(cuts(&j));
        for _ in 0..r.idx(5) {
            pool.push(key(&r));
        }
        for _ in 0..4 {
            iter_ev(o, &r, &i, &pool);
        }
        let items = disjoint_items(&r, 1 + r.idx(4));
        let mut pool: Vec<Vec<u8>> = items.iter().flat_map(cuts).collect();
        pool.push(key(&r));
        pool.push(key(&r));
        split_ev(o, &r, &items, &pool);
        let (xs, ys) = (disjoint_items(&r, 1 + r.idx(3)), disjoint_items(&r, 1 + r.idx(3)));
        let (mut x1, y1) = (xs.clone(), ys.clone());
        let x = guard(move || Ok::<_, ()>(QueryItem::intersect_many_ordered(&mut x1, y1)));
        o.ev(with(
            json!({"e": "many", "xs": items_json(&xs), "ys": items_json(&ys)}),
            outcome(x, |m| json!({"both": items_json(&m.in_both.unwrap_or_default()), "ours": items_json(&m.ours.unwrap_or_default())})),
        ));
        let (p, q) = (key(&r), key(&r));
        let x = guard(|| Ok::<_, ()>(QueryItem::compare(&p, &q) as i32));
        o.ev(with(json!({"e": "cmpbytes", "a": hex(&p), "b": hex(&q)}), outcome(x, |v| json!(v))));
        o.end_case();
    }
}
