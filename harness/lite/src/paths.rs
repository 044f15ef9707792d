//! Subtree paths built in every possible way. Everything is leaked so that paths can refer to each other freely.
use std::hash::{DefaultHasher, Hash, Hasher};

use grovedb_path::{SubtreePath, SubtreePathBuilder};
use vh_common::*;

type P = SubtreePath<'static, Vec<u8>>;
type B = SubtreePathBuilder<'static, Vec<u8>>;
#[derive(Clone)]
enum X {
    P(P),
    B(&'static B),
}
fn leak(b: B) -> X {
    X::B(Box::leak(Box::new(b)))
}
fn h(x: &impl Hash) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
impl X {
    fn path(&self) -> P {
        match self {
            X::P(p) => p.clone(),
            X::B(b) => SubtreePath::from(*b),
        }
    }
    fn look(&self) -> Value {
        let j = |v: Vec<Vec<u8>>| json!(v.iter().map(hex).collect::<Vec<_>>());
        match self {
            X::P(p) => {
                let rev: Vec<Vec<u8>> = p.clone().into_reverse_iter().map(|s| s.to_vec()).collect();
                json!({"vec": j(p.to_vec()), "rev": j(rev), "len": p.len(), "root": p.is_root(), "empty": p.is_empty()})
            }
            X::B(b) => {
                let rev: Vec<Vec<u8>> = b.reverse_iter().map(|s| s.to_vec()).collect();
                json!({"vec": j(b.to_vec()), "rev": j(rev), "len": b.len(), "root": b.is_root(), "empty": b.is_empty()})
            }
        }
    }
    fn hash(&self) -> u64 {
        match self {
            X::P(p) => h(p),
            X::B(b) => h(*b),
        }
    }
    fn eq(&self, y: &X) -> bool {
        match (self, y) {
            (X::P(a), X::P(b)) => a == b,
            (X::P(a), X::B(b)) => a == *b,
            (X::B(a), X::P(b)) => *a == b,
            (X::B(a), X::B(b)) => a == b,
        }
    }
    fn cmp(&self, y: &X) -> i32 {
        (match (self, y) {
            (X::P(a), X::P(b)) => a.cmp(b),
            (X::P(a), X::B(b)) => a.partial_cmp(*b).unwrap(),
            (X::B(_), X::P(b)) => self.path().cmp(b),
            (X::B(a), X::B(b)) => a.cmp(b),
        }) as i32
    }
}
fn segs_of(v: &Value) -> Vec<Vec<u8>> {
    v.as_array().unwrap().iter().map(|s| unhex(s.as_str().unwrap())).collect()
}
/// the new path and what was chopped off
fn build(pool: &[X], op: &str, src: usize, segs: &[Vec<u8>], variant: usize) -> Option<(X, Vec<Vec<u8>>)> {
    let one = |x| Some((x, vec![]));
    let s = || pool[src - 1].clone();
    match op {
        "slice" => {
            let l: &'static [Vec<u8>] = Box::leak(segs.to_vec().into_boxed_slice());
            one(X::P(SubtreePath::from(l)))
        }
        "iter" => one(leak(B::owned_from_iter(segs.iter()))),
        "copy" => one(leak(B::owned_from_path(s().path()))),
        "clone" => one(match s() {
            X::P(p) => X::P(p.clone()),
            X::B(b) => leak(b.clone()),
        }),
        "borrow" => one(match s() {
            X::P(p) => leak(SubtreePathBuilder::from(&p)),
            X::B(b) => X::P(SubtreePath::from(b)),
        }),
        "owned" => one(leak(match s() {
            X::P(p) => p.derive_owned(),
            X::B(b) => b.derive_owned(),
        })),
        "child" => {
            let seg: &'static [u8] = Box::leak(segs[0].clone().into_boxed_slice());
            one(leak(match (s(), variant % 2) {
                (X::P(p), 0) => p.derive_owned_with_child(seg),
                (X::P(p), _) => p.derive_owned_with_child(segs[0].clone()),
                (X::B(b), 0) => b.derive_owned_with_child(seg),
                (X::B(b), _) => b.derive_owned_with_child(segs[0].clone()),
            }))
        }
        "push" => {
            let mut b = match s() {
                X::P(p) => p.derive_owned(),
                X::B(b) => b.clone(),
            };
            for x in segs {
                b.push_segment(x);
            }
            one(leak(b))
        }
        "parent" => match s() {
            X::P(p) => p.derive_parent().map(|(p, k)| (X::P(p), vec![k.to_vec()])),
            X::B(b) => b.derive_parent().map(|(p, k)| (X::P(p), vec![k.to_vec()])),
        },
        "parent_owned" => match s() {
            X::P(p) => p.derive_parent().map(|(p, k)| (leak(p.derive_owned()), vec![k.to_vec()])),
            X::B(b) => b.derive_parent_owned().map(|(p, k)| (leak(p), vec![k])),
        },
        _ => panic!("op {op}"),
    }
}
fn step(o: &mut Out, pool: &mut Vec<X>, op: &str, src: usize, segs: Vec<Vec<u8>>, variant: usize) {
    let p = pool.clone();
    let (op2, sg) = (op.to_string(), segs.clone());
    let g = guard(move || Ok::<_, ()>(build(&p, &op2, src, &sg, variant).map(|(x, c)| (x.look(), x, c))));
    let v = match &g {
        Ok(Ok(None)) => json!({"none": true}),
        Ok(Ok(Some((l, _, c)))) => json!({"none": false, "path": l, "chopped": c.iter().map(hex).collect::<Vec<_>>()}),
        _ => json!({}),
    };
    if let Ok(Ok(Some((_, x, _)))) = &g {
        pool.push(x.clone());
    }
    o.ev(with(
        json!({"e": "op", "op": op, "src": src, "segs": segs.iter().map(hex).collect::<Vec<_>>()}),
        outcome(g, |_| v),
    ));
}
fn matrix(o: &mut Out, pool: &[X]) {
    let p = pool.to_vec();
    let g = guard(move || {
        Ok::<_, ()>(json!(p
            .iter()
            .map(|x| json!(p.iter().map(|y| json!({"eq": x.eq(y), "cmp": x.cmp(y), "same_hash": x.hash() == y.hash()})).collect::<Vec<_>>()))
            .collect::<Vec<_>>()))
    });
    o.ev(with(json!({"e": "matrix"}), outcome(g, |v| v)));
}
pub fn run(a: &Args, o: &mut Out) {
    let r = Rng::new(a.seed ^ 0x9a7);
    let mut n = 0;
    for s in a.read_schedules() {
        let mut pool = vec![];
        o.ev(json!({"e": "new"}));
        // a step without result (the parent of the root) leaves the model's copy of the last path in place
        for x in s.as_array().unwrap() {
            let src = pool.len();
            step(o, &mut pool, x["op"].as_str().unwrap(), src, segs_of(&x["segs"]), n);
            n += 1;
        }
        matrix(o, &pool);
        o.end_case();
    }
    let alpha: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1], b"a".to_vec(), b"ab".to_vec(), vec![0; 8], vec![1, 0, 0, 0, 0, 0, 0, 0], vec![7; 40], vec![9; 255], vec![9; 256], vec![9; 300]];
    let small = &alpha[..4];
    for _ in 0..a.n(800, 12000) {
        let mut pool: Vec<X> = vec![];
        o.ev(json!({"e": "new"}));
        let al: &[Vec<u8>] = if r.chance(1, 2) { small } else { &alpha };
        let seg = || r.pick(al).clone();
        for _ in 0..3 + r.idx(10) {
            let src = if pool.is_empty() { 0 } else if r.chance(1, 2) { pool.len() } else { 1 + r.idx(pool.len()) };
            let op = if src == 0 { *r.pick(&["slice", "iter"]) } else {
                *r.pick(&["slice", "iter", "owned", "copy", "clone", "borrow", "child", "child", "push", "push", "parent", "parent", "parent_owned", "parent_owned"])
            };
            let segs = match op {
                "slice" | "iter" => (0..r.idx(5)).map(|_| seg()).collect(),
                "child" => vec![seg()],
                "push" => (0..1 + r.idx(3)).map(|_| seg()).collect(),
                _ => vec![],
            };
            step(o, &mut pool, op, src, segs, r.idx(2));
        }
        // the same segments cut differently
        if let Some(x) = pool.last() {
            let all = x.path().to_vec().concat();
            if !all.is_empty() && all.len() < 60 {
                let c = r.idx(all.len() + 1);
                step(o, &mut pool, "iter", 0, vec![all[..c].to_vec(), all[c..].to_vec()], 0);
                step(o, &mut pool, "slice", 0, vec![all], 0);
            }
        }
        matrix(o, &pool);
        o.end_case();
    }
}
