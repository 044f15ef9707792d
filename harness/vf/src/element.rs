//! Elements: kinds, contributions, flags, constructors.
use crate::refs::{ref_json, reference};
use grovedb_element::{ElementType, ProofNodeType};
use grovedb_element::reference_path::ReferencePathType;
use grovedb_element::Element::{self, *};
use grovedb_merk::element::tree_type::ElementTreeTypeExtensions;
use grovedb_merk::{MaybeTree, TreeFeatureType, TreeType};
use grovedb_version::version::GroveVersion;
use vh_common::*;

#[allow(dead_code)]
pub const KINDS: [&str; 15] = [
    "item", "ref", "tree", "sumitem", "sumtree", "bigsumtree", "counttree", "countsumtree", "provcounttree", "itemsum",
    "provcountsumtree", "ct", "mmr", "bulk", "dense",
];
fn o8(x: &Option<Vec<u8>>) -> Value {
    json!(x.iter().map(hex).collect::<Vec<_>>())
}
#[allow(clippy::too_many_arguments)]
fn ej(k: &str, b: &[u8], s: i128, n: u64, root: &Option<Vec<u8>>, fl: &Option<Vec<u8>>, p: u8) -> Value {
    json!({"k": k, "b": hex(b), "s": s.to_string(), "n": n.to_string(), "root": o8(root), "fl": o8(fl), "p": p,
           "ref": {"t": "abs", "n": 0, "p": []}, "hop": []})
}
pub fn el_json(e: &Element) -> Value {
    let no = &None;
    match e {
        Item(b, f) => ej("item", b, 0, 0, no, f, 0),
        Reference(r, h, f) => {
            let mut v = ej("ref", &[], 0, 0, no, f, 0);
            v["ref"] = ref_json(r);
            v["hop"] = json!(h.iter().collect::<Vec<_>>());
            v
        }
        Tree(r, f) => ej("tree", &[], 0, 0, r, f, 0),
        SumItem(s, f) => ej("sumitem", &[], *s as i128, 0, no, f, 0),
        SumTree(r, s, f) => ej("sumtree", &[], *s as i128, 0, r, f, 0),
        BigSumTree(r, s, f) => ej("bigsumtree", &[], *s, 0, r, f, 0),
        CountTree(r, n, f) => ej("counttree", &[], 0, *n, r, f, 0),
        CountSumTree(r, n, s, f) => ej("countsumtree", &[], *s as i128, *n, r, f, 0),
        ProvableCountTree(r, n, f) => ej("provcounttree", &[], 0, *n, r, f, 0),
        ItemWithSumItem(b, s, f) => ej("itemsum", b, *s as i128, 0, no, f, 0),
        ProvableCountSumTree(r, n, s, f) => ej("provcountsumtree", &[], *s as i128, *n, r, f, 0),
        CommitmentTree(n, p, f) => ej("ct", &[], 0, *n, no, f, *p),
        MmrTree(n, f) => ej("mmr", &[], 0, *n, no, f, 0),
        BulkAppendTree(n, p, f) => ej("bulk", &[], 0, *n, no, f, *p),
        DenseAppendOnlyFixedSizeTree(n, p, f) => ej("dense", &[], 0, *n as u64, no, f, *p),
    }
}
fn opt_of(v: &Value) -> Option<Vec<u8>> {
    v.as_array().unwrap().first().map(|x| unhex(x.as_str().unwrap()))
}
pub fn el_of(v: &Value) -> Element {
    let b = unhex(v["b"].as_str().unwrap());
    let s: i128 = v["s"].as_str().unwrap().parse().unwrap();
    let n: u64 = v["n"].as_str().unwrap().parse().unwrap();
    let (root, fl, p) = (opt_of(&v["root"]), opt_of(&v["fl"]), v["p"].as_u64().unwrap() as u8);
    match v["k"].as_str().unwrap() {
        "item" => Item(b, fl),
        "ref" => Reference(
            crate::refs::ref_of(&v["ref"]),
            v["hop"].as_array().unwrap().first().map(|x| x.as_u64().unwrap() as u8),
            fl,
        ),
        "tree" => Tree(root, fl),
        "sumitem" => SumItem(s as i64, fl),
        "sumtree" => SumTree(root, s as i64, fl),
        "bigsumtree" => BigSumTree(root, s, fl),
        "counttree" => CountTree(root, n, fl),
        "countsumtree" => CountSumTree(root, n, s as i64, fl),
        "provcounttree" => ProvableCountTree(root, n, fl),
        "itemsum" => ItemWithSumItem(b, s as i64, fl),
        "provcountsumtree" => ProvableCountSumTree(root, n, s as i64, fl),
        "ct" => CommitmentTree(n, p, fl),
        "mmr" => MmrTree(n, fl),
        "bulk" => BulkAppendTree(n, p, fl),
        _ => DenseAppendOnlyFixedSizeTree(n as u16, p, fl),
    }
}
pub const SUMS: [i64; 10] = [0, 1, -1, 125, 126, -126, 32767, -32769, i64::MAX, i64::MIN];
pub const COUNTS: [u64; 10] = [0, 1, 2, 250, 251, 65535, 65536, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX];
pub fn random(r: &Rng, kind: usize) -> Element {
    let bytes = |big: bool| -> Vec<u8> {
        let n = match r.idx(12) {
            0 if big => *r.pick(&[250usize, 251, 252, 255, 256, 300]),
            1..=3 => 0,
            _ => r.idx(6),
        };
        r.bytes(n)
    };
    let opt = || if r.chance(1, 2) { Some(bytes(true)) } else { None };
    let s = || if r.chance(3, 4) { *r.pick(&SUMS) } else { r.next() as i64 };
    let n = || if r.chance(3, 4) { *r.pick(&COUNTS) } else { r.next() >> r.idx(64) };
    let p = || *r.pick(&[0u8, 1, 5, 15, 16, 31, 32, 127, 128, 250, 251, 255]);
    let fl = opt();
    match kind % 15 {
        0 => Item(bytes(true), fl),
        1 => Reference(reference(r, &|| bytes(false)), if r.chance(1, 2) { Some(*r.pick(&[0, 1, 10, 250, 251, 255])) } else { None }, fl),
        2 => Tree(opt(), fl),
        3 => SumItem(s(), fl),
        4 => SumTree(opt(), s(), fl),
        5 => BigSumTree(opt(), if r.chance(1, 2) { *r.pick(&[i128::MAX, i128::MIN, i64::MAX as i128 + 1, i64::MIN as i128 - 1, u64::MAX as i128]) } else { s() as i128 }, fl),
        6 => CountTree(opt(), n(), fl),
        7 => CountSumTree(opt(), n(), s(), fl),
        8 => ProvableCountTree(opt(), n(), fl),
        9 => ItemWithSumItem(bytes(true), s(), fl),
        10 => ProvableCountSumTree(opt(), n(), s(), fl),
        11 => CommitmentTree(n(), p(), fl),
        12 => MmrTree(n(), fl),
        13 => BulkAppendTree(n(), p(), fl),
        _ => DenseAppendOnlyFixedSizeTree(n() as u16, p(), fl),
    }
}
fn et(t: ElementType) -> &'static str {
    use ::grovedb_element::ElementType::*;
    match t {
        Item => "item",
        Reference => "ref",
        Tree => "tree",
        SumItem => "sumitem",
        SumTree => "sumtree",
        BigSumTree => "bigsumtree",
        CountTree => "counttree",
        CountSumTree => "countsumtree",
        ProvableCountTree => "provcounttree",
        ItemWithSumItem => "itemsum",
        ProvableCountSumTree => "provcountsumtree",
        CommitmentTree => "ct",
        MmrTree => "mmr",
        BulkAppendTree => "bulk",
        DenseAppendOnlyFixedSizeTree => "dense",
    }
}
fn tt(t: TreeType) -> (&'static str, u8) {
    match t {
        TreeType::NormalTree => ("tree", 0),
        TreeType::SumTree => ("sumtree", 0),
        TreeType::BigSumTree => ("bigsumtree", 0),
        TreeType::CountTree => ("counttree", 0),
        TreeType::CountSumTree => ("countsumtree", 0),
        TreeType::ProvableCountTree => ("provcounttree", 0),
        TreeType::ProvableCountSumTree => ("provcountsumtree", 0),
        TreeType::CommitmentTree(p) => ("ct", p),
        TreeType::MmrTree => ("mmr", 0),
        TreeType::BulkAppendTree(p) => ("bulk", p),
        TreeType::DenseAppendOnlyFixedSizeTree(p) => ("dense", p),
    }
}
pub fn tree_types(p: u8) -> [TreeType; 11] {
    use TreeType::*;
    [NormalTree, SumTree, BigSumTree, CountTree, CountSumTree, ProvableCountTree, ProvableCountSumTree, CommitmentTree(p), MmrTree,
     BulkAppendTree(p), DenseAppendOnlyFixedSizeTree(p)]
}
fn tj(t: Option<TreeType>) -> Value {
    json!(t.iter().map(|t| json!({"k": tt(*t).0, "p": tt(*t).1})).collect::<Vec<_>>())
}
pub fn feature_json(f: &TreeFeatureType) -> Value {
    let (t, n, s) = match f {
        TreeFeatureType::BasicMerkNode => ("basic", 0, 0),
        TreeFeatureType::SummedMerkNode(s) => ("sum", 0, *s as i128),
        TreeFeatureType::BigSummedMerkNode(s) => ("bigsum", 0, *s),
        TreeFeatureType::CountedMerkNode(n) => ("count", *n, 0),
        TreeFeatureType::CountedSummedMerkNode(n, s) => ("countsum", *n, *s as i128),
        TreeFeatureType::ProvableCountedMerkNode(n) => ("provcount", *n, 0),
        TreeFeatureType::ProvableCountedSummedMerkNode(n, s) => ("provcountsum", *n, *s as i128),
    };
    json!({"t": t, "n": n.to_string(), "s": s.to_string()})
}
fn res<T, E>(r: Result<T, E>, f: impl FnOnce(T) -> Value) -> Value {
    match r {
        Ok(x) => json!([f(x)]),
        Err(_) => json!([]),
    }
}
fn pn(p: ProofNodeType) -> &'static str {
    match p {
        ProofNodeType::Kv => "Kv",
        ProofNodeType::KvValueHash => "KvValueHash",
        ProofNodeType::KvRefValueHash => "KvRefValueHash",
        ProofNodeType::KvCount => "KvCount",
        ProofNodeType::KvValueHashFeatureType => "KvValueHashFeatureType",
        ProofNodeType::KvRefValueHashCount => "KvRefValueHashCount",
    }
}
fn element(o: &mut Out, r: &Rng, e: &Element) {
    let v = GroveVersion::latest();
    let path: Vec<Vec<u8>> = (0..r.idx(5)).map(|_| r.bytes(1)).collect();
    let key = r.bytes(2);
    let nf = if r.chance(1, 2) { Some(r.bytes(3)) } else { None };
    let (e1, p1, k1, f1) = (e.clone(), path.clone(), key.clone(), nf.clone());
    o.about(&json!({"element": el_json(e)}));
    let g = guard(move || {
        let e = e1;
        let ps: Vec<&[u8]> = p1.iter().map(|x| x.as_slice()).collect();
        let bytes = e.serialize(v).map_err(|x| format!("{x:?}"))?;
        let sum = (res(e.as_sum_item_value(), |x| json!(x.to_string())), res(e.as_sum_tree_value(), |x| json!(x.to_string())));
        assert_eq!(sum.0, res(e.clone().into_sum_item_value(), |x| json!(x.to_string())));
        assert_eq!(sum.1, res(e.clone().into_sum_tree_value(), |x| json!(x.to_string())));
        let item = res(e.as_item_bytes(), |x| json!(hex(x)));
        assert_eq!(item, res(e.clone().into_item_bytes(), |x| json!(hex(x))));
        let mut m = e.clone();
        assert_eq!(*m.get_flags_mut(), *e.get_flags());
        m.set_flags(f1.clone());
        let mut m2 = e.clone();
        *m2.get_flags_mut() = f1;
        assert!(m == m2);
        assert_eq!(e.clone().get_flags_owned(), *e.get_flags());
        let rk = e.root_key_and_tree_type();
        let rko = e.clone().root_key_and_tree_type_owned();
        assert_eq!(rk.map(|x| (x.0.clone(), x.1)), rko);
        Ok::<_, String>(json!({
            "type": et(e.element_type()),
            "read": res(ElementType::from_serialized_value(&bytes), |t| json!(et(t))),
            "name": e.type_str(),
            "size": e.serialized_size(v).unwrap(),
            "back": res(Element::deserialize(&bytes, v), |x| el_json(&x)),
            "bytes": hex(bytes),
            "is": {"sum_tree": e.is_sum_tree(), "big_sum_tree": e.is_big_sum_tree(), "basic_tree": e.is_basic_tree(), "any_tree": e.is_any_tree(),
                   "commitment": e.is_commitment_tree(), "mmr": e.is_mmr_tree(), "bulk": e.is_bulk_append_tree(), "dense": e.is_dense_tree(),
                   "non_merk": e.uses_non_merk_data_storage(), "non_empty": e.is_non_empty_tree(), "non_empty_merk": e.is_non_empty_merk_tree(),
                   "reference": e.is_reference(), "any_item": e.is_any_item(), "basic_item": e.is_basic_item(), "has_basic": e.has_basic_item(),
                   "sum_item": e.is_sum_item(), "item_sum": e.is_item_with_sum_item()},
            "sum": e.sum_value_or_default().to_string(), "bigsum": e.big_sum_value_or_default().to_string(),
            "count": e.count_value_or_default().to_string(),
            "countsum": [e.count_sum_value_or_default().0.to_string(), e.count_sum_value_or_default().1.to_string()],
            "entries": e.non_merk_entry_count().iter().map(|x| x.to_string()).collect::<Vec<_>>(),
            "item": item, "sumitem": sum.0, "sumtree": sum.1,
            "ref": res(e.clone().into_reference_path_type(), |x| ref_json(&x)),
            "flags": o8(e.get_flags()), "setflags": el_json(&m),
            "abs": res(e.clone().convert_if_reference_to_absolute_reference(&ps, Some(&k1)), |x| el_json(&x)),
            "absnokey": res(e.clone().convert_if_reference_to_absolute_reference(&ps, None), |x| el_json(&x)),
            "treetype": [tj(e.tree_type()), tj(rk.map(|x| x.1)), tj(e.tree_flags_and_type().map(|x| x.1)),
                         tj(match e.maybe_tree_type() { MaybeTree::Tree(t) => Some(t), MaybeTree::NotTree => None })],
            "rootkey": rk.iter().map(|x| o8(x.0)).collect::<Vec<_>>(),
            "treeflags": e.tree_flags_and_type().iter().map(|x| o8(x.0)).collect::<Vec<_>>(),
            "feature": e.tree_feature_type().iter().map(feature_json).collect::<Vec<_>>(),
            "intree": tree_types(3).iter().map(|t| feature_json(&e.get_feature_type(*t).unwrap())).collect::<Vec<_>>(),
        }))
    });
    let path_j: Vec<_> = path.iter().map(hex).collect();
    o.ev(with(json!({"e": "element", "el": el_json(e), "path": path_j, "key": hex(&key), "fl": o8(&nf)}), outcome(g, |v| v)));
    o.end_case();
}
fn kinds(o: &mut Out) {
    for n in 0..=255u8 {
        let g = guard(|| {
            ElementType::try_from(n).map(|k| {
                let all: Vec<ElementType> = (0..15).map(|i| ElementType::try_from(i).unwrap()).collect();
                assert_eq!(k.to_string(), k.as_str());
                json!({"kind": et(k), "disc": k as u8, "name": k.as_str(), "simple": k.has_simple_value_hash(), "combined": k.has_combined_value_hash(),
                    "tree": k.is_tree(), "reference": k.is_reference(), "item": k.is_item(), "alone": pn(k.proof_node_type(None)),
                    "under": all.iter().map(|p| pn(k.proof_node_type(Some(*p)))).collect::<Vec<_>>()})
            })
        });
        o.ev(with(json!({"e": "kind", "n": n}), outcome(g, |v| v)));
        let g = guard(|| {
            TreeType::try_from(n).map(|t| {
                let with9 = tree_types(9)[n as usize];
                assert_eq!(tt(with9).0, tt(t).0);
                assert_eq!((with9.discriminant(), with9.to_element_type(), with9.allows_sum_item(), with9.uses_non_merk_data_storage()),
                           (t.discriminant(), t.to_element_type(), t.allows_sum_item(), t.uses_non_merk_data_storage()));
                json!({"kind": tt(t).0, "disc": t.discriminant(), "element": t.to_element_type().map(et).unwrap_or("none"),
                    "non_merk": t.uses_non_merk_data_storage(), "allows_sum": t.allows_sum_item(), "empty": feature_json(&t.empty_tree_feature_type())})
            })
        });
        o.ev(with(json!({"e": "treekind", "n": n}), outcome(g, |v| v)));
        o.end_case();
    }
}
fn makes(o: &mut Out, r: &Rng) {
    type E = Result<Element, grovedb_element::error::ElementError>;
    let root = || if r.chance(1, 2) { Some(r.bytes(2)) } else { None };
    let f = if r.chance(2, 3) { Some(r.bytes(2)) } else { None };
    let (k, s, n, big) = (root(), *r.pick(&SUMS), *r.pick(&COUNTS), *r.pick(&[i128::MAX, i128::MIN, 7]));
    let (b, p) = (r.bytes(3), *r.pick(&[0u8, 1, 30, 31, 32, 33, 255]));
    let path: ReferencePathType = reference(r, &|| r.bytes(1));
    let hop = if r.chance(1, 2) { Some(r.idx(256) as u8) } else { None };
    let bad = p > 31;
    let ok = |e: Element| Some(e);
    let ct = |e: Element| if bad { None } else { Some(e) };
    let all: Vec<(&str, E, Option<Element>)> = vec![
        ("empty_tree", Ok(Element::empty_tree()), ok(Tree(None, None))),
        ("empty_tree_f", Ok(Element::empty_tree_with_flags(f.clone())), ok(Tree(None, f.clone()))),
        ("empty_sum_tree", Ok(Element::empty_sum_tree()), ok(SumTree(None, 0, None))),
        ("empty_big_sum_tree", Ok(Element::empty_big_sum_tree()), ok(BigSumTree(None, 0, None))),
        ("empty_count_tree", Ok(Element::empty_count_tree()), ok(CountTree(None, 0, None))),
        ("empty_count_sum_tree", Ok(Element::empty_count_sum_tree()), ok(CountSumTree(None, 0, 0, None))),
        ("empty_sum_tree_f", Ok(Element::empty_sum_tree_with_flags(f.clone())), ok(SumTree(None, 0, f.clone()))),
        ("empty_big_sum_tree_f", Ok(Element::empty_big_sum_tree_with_flags(f.clone())), ok(BigSumTree(None, 0, f.clone()))),
        ("empty_count_tree_f", Ok(Element::empty_count_tree_with_flags(f.clone())), ok(CountTree(None, 0, f.clone()))),
        ("empty_count_sum_tree_f", Ok(Element::empty_count_sum_tree_with_flags(f.clone())), ok(CountSumTree(None, 0, 0, f.clone()))),
        ("item", Ok(Element::new_item(b.clone())), ok(Item(b.clone(), None))),
        ("item_f", Ok(Element::new_item_with_flags(b.clone(), f.clone())), ok(Item(b.clone(), f.clone()))),
        ("sum_item", Ok(Element::new_sum_item(s)), ok(SumItem(s, None))),
        ("sum_item_f", Ok(Element::new_sum_item_with_flags(s, f.clone())), ok(SumItem(s, f.clone()))),
        ("item_sum", Ok(Element::new_item_with_sum_item(b.clone(), s)), ok(ItemWithSumItem(b.clone(), s, None))),
        ("item_sum_f", Ok(Element::new_item_with_sum_item_with_flags(b.clone(), s, f.clone())), ok(ItemWithSumItem(b.clone(), s, f.clone()))),
        ("ref", Ok(Element::new_reference(path.clone())), ok(Reference(path.clone(), None, None))),
        ("ref_f", Ok(Element::new_reference_with_flags(path.clone(), f.clone())), ok(Reference(path.clone(), None, f.clone()))),
        ("ref_h", Ok(Element::new_reference_with_hops(path.clone(), hop)), ok(Reference(path.clone(), hop, None))),
        ("ref_hf", Ok(Element::new_reference_with_max_hops_and_flags(path.clone(), hop, f.clone())), ok(Reference(path.clone(), hop, f.clone()))),
        ("tree", Ok(Element::new_tree(k.clone())), ok(Tree(k.clone(), None))),
        ("tree_f", Ok(Element::new_tree_with_flags(k.clone(), f.clone())), ok(Tree(k.clone(), f.clone()))),
        ("sum_tree", Ok(Element::new_sum_tree(k.clone())), ok(SumTree(k.clone(), 0, None))),
        ("sum_tree_f", Ok(Element::new_sum_tree_with_flags(k.clone(), f.clone())), ok(SumTree(k.clone(), 0, f.clone()))),
        ("sum_tree_v", Ok(Element::new_sum_tree_with_flags_and_sum_value(k.clone(), s, f.clone())), ok(SumTree(k.clone(), s, f.clone()))),
        ("big_sum_tree", Ok(Element::new_big_sum_tree(k.clone())), ok(BigSumTree(k.clone(), 0, None))),
        ("big_sum_tree_f", Ok(Element::new_big_sum_tree_with_flags(k.clone(), f.clone())), ok(BigSumTree(k.clone(), 0, f.clone()))),
        ("big_sum_tree_v", Ok(Element::new_big_sum_tree_with_flags_and_sum_value(k.clone(), big, f.clone())), ok(BigSumTree(k.clone(), big, f.clone()))),
        ("count_tree", Ok(Element::new_count_tree(k.clone())), ok(CountTree(k.clone(), 0, None))),
        ("count_tree_f", Ok(Element::new_count_tree_with_flags(k.clone(), f.clone())), ok(CountTree(k.clone(), 0, f.clone()))),
        ("count_tree_v", Ok(Element::new_count_tree_with_flags_and_count_value(k.clone(), n, f.clone())), ok(CountTree(k.clone(), n, f.clone()))),
        ("count_sum_tree", Ok(Element::new_count_sum_tree(k.clone())), ok(CountSumTree(k.clone(), 0, 0, None))),
        ("count_sum_tree_f", Ok(Element::new_count_sum_tree_with_flags(k.clone(), f.clone())), ok(CountSumTree(k.clone(), 0, 0, f.clone()))),
        ("count_sum_tree_v", Ok(Element::new_count_sum_tree_with_flags_and_sum_and_count_value(k.clone(), n, s, f.clone())), ok(CountSumTree(k.clone(), n, s, f.clone()))),
        ("empty_pct", Ok(Element::empty_provable_count_tree()), ok(ProvableCountTree(None, 0, None))),
        ("empty_pct_f", Ok(Element::empty_provable_count_tree_with_flags(f.clone())), ok(ProvableCountTree(None, 0, f.clone()))),
        ("pct", Ok(Element::new_provable_count_tree(k.clone())), ok(ProvableCountTree(k.clone(), 0, None))),
        ("pct_f", Ok(Element::new_provable_count_tree_with_flags(k.clone(), f.clone())), ok(ProvableCountTree(k.clone(), 0, f.clone()))),
        ("pct_v", Ok(Element::new_provable_count_tree_with_flags_and_count_value(k.clone(), n, f.clone())), ok(ProvableCountTree(k.clone(), n, f.clone()))),
        ("empty_pcst", Ok(Element::empty_provable_count_sum_tree()), ok(ProvableCountSumTree(None, 0, 0, None))),
        ("empty_pcst_f", Ok(Element::empty_provable_count_sum_tree_with_flags(f.clone())), ok(ProvableCountSumTree(None, 0, 0, f.clone()))),
        ("pcst", Ok(Element::new_provable_count_sum_tree(k.clone())), ok(ProvableCountSumTree(k.clone(), 0, 0, None))),
        ("pcst_f", Ok(Element::new_provable_count_sum_tree_with_flags(k.clone(), f.clone())), ok(ProvableCountSumTree(k.clone(), 0, 0, f.clone()))),
        ("pcst_v", Ok(Element::new_provable_count_sum_tree_with_flags_and_sum_and_count_value(k.clone(), n, s, f.clone())), ok(ProvableCountSumTree(k.clone(), n, s, f.clone()))),
        ("empty_ct", Element::empty_commitment_tree(p), ct(CommitmentTree(0, p, None))),
        ("empty_ct_f", Element::empty_commitment_tree_with_flags(p, f.clone()), ct(CommitmentTree(0, p, f.clone()))),
        ("ct", Ok(Element::new_commitment_tree(n, p, f.clone())), ok(CommitmentTree(n, p, f.clone()))),
        ("empty_mmr", Ok(Element::empty_mmr_tree()), ok(MmrTree(0, None))),
        ("empty_mmr_f", Ok(Element::empty_mmr_tree_with_flags(f.clone())), ok(MmrTree(0, f.clone()))),
        ("mmr", Ok(Element::new_mmr_tree(n, f.clone())), ok(MmrTree(n, f.clone()))),
        ("empty_bulk", Element::empty_bulk_append_tree(p), ct(BulkAppendTree(0, p, None))),
        ("empty_bulk_f", Element::empty_bulk_append_tree_with_flags(p, f.clone()), ct(BulkAppendTree(0, p, f.clone()))),
        ("bulk", Ok(Element::new_bulk_append_tree(n, p, f.clone())), ok(BulkAppendTree(n, p, f.clone()))),
        ("empty_dense", Ok(Element::empty_dense_tree(p)), ok(DenseAppendOnlyFixedSizeTree(0, p, None))),
        ("empty_dense_f", Ok(Element::empty_dense_tree_with_flags(p, f.clone())), ok(DenseAppendOnlyFixedSizeTree(0, p, f.clone()))),
        ("dense", Ok(Element::new_dense_tree(n as u16, p, f.clone())), ok(DenseAppendOnlyFixedSizeTree(n as u16, p, f.clone()))),
    ];
    for (name, got, want) in all {
        o.ev(with(json!({"e": "make", "f": name, "want": want.iter().map(el_json).collect::<Vec<_>>()}), outcome(Ok(got), |e| el_json(&e))));
    }
    o.end_case();
}
pub fn run(a: &Args, o: &mut Out) {
    let r = Rng::new(a.seed ^ 0xe1e);
    for s in a.read_schedules() {
        element(o, &r, &el_of(&s["el"]));
    }
    kinds(o);
    for _ in 0..a.n(6, 60) {
        makes(o, &r);
    }
    for i in 0..a.n(900, 15000) {
        element(o, &r, &random(&r, i));
    }
    for i in 0..a.n(300, 600) {
        let b = if i < 256 { vec![i as u8] } else { let n = r.idx(4); r.bytes(n) };
        let g = guard(|| ElementType::from_serialized_value(&b).map(et));
        o.ev(with(json!({"e": "typebyte", "b": hex(&b)}), outcome(g, |v| json!(v))));
        let (n, f) = (*r.pick(&COUNTS) as u32, *r.pick(&COUNTS) as u32);
        if (n as u64 + f as u64) < u32::MAX as u64 - 20 {
            let g = guard(|| Element::required_item_space(n, f, GroveVersion::latest()));
            o.ev(with(json!({"e": "space", "n": n.to_string(), "f": f.to_string()}), outcome(g, |v| json!(v.to_string()))));
        }
        o.end_case();
    }
}
