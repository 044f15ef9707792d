//! The physical contents of a database, decoded here (not by the code under test).
use rocksdb::sim;
use std::collections::BTreeMap;
use std::path::Path;
use vh_common::*;

#[derive(Clone, Default, PartialEq)]
pub struct Phys {
    pub cfs: Vec<BTreeMap<Vec<u8>, Vec<u8>>>,
}
pub fn phys(p: &Path) -> Phys {
    let s = sim::state(p);
    Phys { cfs: (0..4).map(|i| s.cf(i).iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect()).collect() }
}
struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn u8(&mut self) -> Option<u8> {
        self.take(1).map(|x| x[0])
    }
    fn varint(&mut self) -> Option<u64> {
        let mut v = 0u64;
        for i in 0..10 {
            let b = self.u8()?;
            v |= ((b & 127) as u64) << (7 * i);
            if b < 128 {
                return Some(v);
            }
        }
        None
    }
    fn zig(&mut self) -> Option<i64> {
        let v = self.varint()?;
        Some(((v >> 1) as i64) ^ -((v & 1) as i64))
    }
    fn i128(&mut self) -> Option<i128> {
        Some(i128::from_be_bytes(self.take(16)?.try_into().ok()?))
    }
    /// kind of sum/count, as in a feature type or a link's aggregate
    fn agg(&mut self) -> Option<Value> {
        let (t, n, s) = match self.u8()? {
            0 => ("basic", 0, 0),
            1 => ("sum", 0, self.zig()? as i128),
            2 => ("bigsum", 0, self.i128()?),
            3 => ("count", self.varint()?, 0),
            4 => {
                let n = self.varint()?;
                ("countsum", n, self.zig()? as i128)
            }
            5 => ("provcount", self.varint()?, 0),
            6 => {
                let n = self.varint()?;
                ("provcountsum", n, self.zig()? as i128)
            }
            _ => return None,
        };
        Some(json!({"t": t, "n": n.to_string(), "s": s.to_string()}))
    }
    fn link(&mut self) -> Option<Value> {
        if self.u8()? == 0 {
            return Some(json!([]));
        }
        let n = self.u8()? as usize;
        let k = hex(self.take(n)?);
        let h = hex(self.take(32)?);
        let (l, r) = (self.u8()?, self.u8()?);
        let a = self.agg()?;
        Some(json!([{"k": k, "h": h, "lh": l, "rh": r, "a": a}]))
    }
}
/// a stored node of a key-value tree: [k, l, r, f, kv, vh, v]
pub fn node(k: &[u8], b: &[u8]) -> Option<Value> {
    let mut r = Rd(b);
    let (l, rr) = (r.link()?, r.link()?);
    let f = r.agg()?;
    let kv = hex(r.take(32)?);
    let vh = hex(r.take(32)?);
    Some(json!({"k": hex(k), "l": l, "r": rr, "f": f, "kv": kv, "vh": vh, "v": hex(r.0)}))
}
pub fn node_value(b: &[u8]) -> Option<Vec<u8>> {
    let mut r = Rd(b);
    r.link()?;
    r.link()?;
    r.agg()?;
    r.take(64)?;
    Some(r.0.to_vec())
}
/// the nodes stored under a prefix (rows that are no node: {"k","raw"})
pub fn nodes(data: &BTreeMap<Vec<u8>, Vec<u8>>, prefix: &[u8]) -> Vec<Value> {
    data.range(prefix.to_vec()..)
        .take_while(|(k, _)| k.starts_with(prefix))
        .map(|(k, v)| node(&k[prefix.len()..], v).unwrap_or_else(|| json!({"k": hex(&k[prefix.len()..]), "raw": hex(v)})))
        .collect()
}
