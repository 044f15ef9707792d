//! Reference paths.
use grovedb_element::reference_path::{path_from_reference_path_type, path_from_reference_qualified_path_type, ReferencePathType::{self, *}};
use grovedb_path::{SubtreePath, SubtreePathBuilder};
use vh_common::*;

pub type Path = Vec<Vec<u8>>;
fn pj(p: &Path) -> Value {
    json!(p.iter().map(hex).collect::<Vec<_>>())
}
pub fn ref_json(x: &ReferencePathType) -> Value {
    let (t, n, p) = match x {
        AbsolutePathReference(p) => ("abs", 0, p.clone()),
        UpstreamRootHeightReference(n, p) => ("root", *n, p.clone()),
        UpstreamRootHeightWithParentPathAdditionReference(n, p) => ("root_parent", *n, p.clone()),
        UpstreamFromElementHeightReference(n, p) => ("from_end", *n, p.clone()),
        CousinReference(k) => ("cousin", 0, vec![k.clone()]),
        RemovedCousinReference(p) => ("removed_cousin", 0, p.clone()),
        SiblingReference(k) => ("sibling", 0, vec![k.clone()]),
    };
    json!({"t": t, "n": n, "p": pj(&p)})
}
fn path_of(v: &Value) -> Path {
    v.as_array().unwrap().iter().map(|s| unhex(s.as_str().unwrap())).collect()
}
fn mk(t: &str, n: u8, mut p: Path) -> ReferencePathType {
    match t {
        "abs" => AbsolutePathReference(p),
        "root" => UpstreamRootHeightReference(n, p),
        "root_parent" => UpstreamRootHeightWithParentPathAdditionReference(n, p),
        "from_end" => UpstreamFromElementHeightReference(n, p),
        "cousin" => CousinReference(p.remove(0)),
        "removed_cousin" => RemovedCousinReference(p),
        _ => SiblingReference(p.remove(0)),
    }
}
pub fn ref_of(v: &Value) -> ReferencePathType {
    mk(v["t"].as_str().unwrap(), v["n"].as_u64().unwrap() as u8, path_of(&v["p"]))
}
fn opt<E>(x: Result<Path, E>) -> Value {
    match x {
        Ok(p) => json!([pj(&p)]),
        Err(_) => json!([]),
    }
}
fn ev(o: &mut Out, r: &Rng, f: &ReferencePathType, path: &Path, key: &[u8]) {
    o.about(&json!({"resolve": ref_json(f), "path": pj(path)}));
    let cut = r.idx(path.len() + 1);
    let (f2, p, k) = (f.clone(), path.clone(), key.to_vec());
    let g = guard(move || {
        let mut q = p.clone();
        q.push(k.clone());
        let a = f2.clone().absolute_path_using_current_qualified_path(&q);
        let a2 = path_from_reference_qualified_path_type(f2.clone(), &q);
        assert_eq!(a.as_ref().ok(), a2.as_ref().ok());
        let b = f2.clone().absolute_path(&p, Some(&k));
        let b2 = path_from_reference_path_type(f2.clone(), &p, Some(&k));
        assert_eq!(b.as_ref().ok(), b2.as_ref().ok());
        let nk = f2.clone().absolute_path(&p, None);
        // paths built in several ways
        let s: SubtreePath<Vec<u8>> = SubtreePath::from(p.as_slice());
        let half: SubtreePath<Vec<u8>> = SubtreePath::from(&p[..cut]);
        let mut pushed = half.derive_owned();
        for x in &p[cut..] {
            pushed.push_segment(x);
        }
        let base = half.derive_owned();
        let one = if cut < p.len() { base.derive_owned_with_child(p[cut].clone()) } else { half.derive_owned() };
        let mut child = one.clone();
        for x in p.iter().skip(cut + 1) {
            child.push_segment(x);
        }
        let bs: Vec<SubtreePathBuilder<Vec<u8>>> = vec![s.derive_owned(), SubtreePathBuilder::owned_from_iter(p.iter()), pushed, child];
        let mut builder: Vec<Value> = bs.into_iter().map(|x| opt(f2.clone().absolute_qualified_path(x, &k).map(|y| y.to_vec()))).collect();
        builder.dedup();
        let inv = f2.invert(s, &k);
        let rootless = f2.clone().absolute_path_using_current_qualified_path::<Vec<u8>>(&[]);
        Ok::<_, ()>(json!({"qualified": opt(a), "absolute": opt(b), "nokey": opt(nk), "builder": builder,
                           "invert": inv.map(|i| json!([ref_json(&i)])).unwrap_or(json!([])), "rootless": opt(rootless)}))
    });
    o.ev(with(json!({"e": "resolve", "ref": ref_json(f), "path": pj(path), "key": hex(key)}), outcome(g, |v| v)));
}
pub fn reference(r: &Rng, key: &dyn Fn() -> Vec<u8>) -> ReferencePathType {
    let t = *r.pick(&["abs", "root", "root_parent", "from_end", "cousin", "removed_cousin", "sibling"]);
    let n = if r.chance(1, 12) { *r.pick(&[254u8, 255, 128]) } else { r.idx(6) as u8 };
    let len = match r.idx(30) {
        0 => 254 + r.idx(5),
        _ => r.idx(4),
    };
    let len = if matches!(t, "cousin" | "sibling") { 1 } else { len };
    mk(t, n, (0..len).map(|_| key()).collect())
}
pub fn run(a: &Args, o: &mut Out) {
    let r = Rng::new(a.seed ^ 0x4ef);
    for s in a.read_schedules() {
        let f = ref_of(&s["ref"]);
        ev(o, &r, &f, &path_of(&s["path"]), &unhex(s["key"].as_str().unwrap()));
        o.end_case();
    }
    let alpha: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1], b"a".to_vec(), vec![2; 200], vec![3; 256]];
    for _ in 0..a.n(3000, 40000) {
        let key = || r.pick(&alpha).clone();
        let f = reference(&r, &key);
        let n = if r.chance(1, 30) { 253 + r.idx(6) } else { r.idx(6) };
        let path: Path = (0..n).map(|_| key()).collect();
        ev(o, &r, &f, &path, &key());
        o.end_case();
    }
}
