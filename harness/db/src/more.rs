//! Databases with auxiliary data, faults, crashes and checkpoints.
use crate::dump::Phys;
use crate::gdb::*;
use crate::merk::scratch;
use grovedb::GroveDb;
use grovedb_version::version::GroveVersion;
use rocksdb::sim;
use std::collections::BTreeMap;
use std::path::PathBuf;
use vh_common::*;

/// Several databases, one of them in use; 0 is the first one, the others are checkpoints.
struct Many {
    w: World,
    g: Gen,
    here: u64,
    /// those not in use
    rest: BTreeMap<u64, (World2, Gen)>,
    home: PathBuf,
}
/// a database that is not in use: its directory, handle (if open), transactions and what it was seen to store
struct World2 {
    dir: PathBuf,
    db: Option<Box<GroveDb>>,
    txs: BTreeMap<u64, grovedb::Transaction<'static>>,
    last: Phys,
}
impl Many {
    fn dir(&self, n: u64) -> PathBuf {
        self.home.join(format!("cp{n}"))
    }
    fn create(&mut self, n: u64) -> Value {
        let dir = self.dir(n);
        let res = outcome(guard(|| self.w.db().create_checkpoint(&dir)), |_| json!(0));
        if res["st"] == "ok" {
            self.rest.insert(n, (World2 { dir, db: None, txs: BTreeMap::new(), last: self.w.last.clone() }, self.g.fork()));
        }
        with(json!({"e": "cp", "n": n}), res)
    }
    /// go on with database n
    fn switch(&mut self, n: u64) -> Value {
        let base = json!({"e": "use", "n": n});
        if n != 0 && !self.rest.get(&n).is_some_and(|x| x.0.db.is_some()) {
            let dir = self.dir(n);
            let mut db = None;
            let res = outcome(guard(|| GroveDb::open_checkpoint(&dir)), |d| { db = Some(Box::new(d)); json!(0) });
            if res["st"] != "ok" {
                return with(base, res);
            }
            match self.rest.get_mut(&n) {
                Some(x) => x.0.db = db,
                None => return with(base, json!({"st": "ok", "v": "no such checkpoint"})),
            }
        }
        let (mut o, g) = self.rest.remove(&n).unwrap();
        let old = World2 {
            dir: std::mem::replace(&mut self.w.dir, o.dir.clone()),
            db: std::mem::replace(&mut self.w.db, o.db.take()),
            txs: std::mem::replace(&mut self.w.txs, std::mem::take(&mut o.txs)),
            last: std::mem::replace(&mut self.w.last, std::mem::take(&mut o.last)),
        };
        let oldg = std::mem::replace(&mut self.g, g);
        self.rest.insert(self.here, (old, oldg));
        self.here = n;
        with(base, json!({"st": "ok", "v": 0}))
    }
    /// close the handle of a checkpoint that is not in use
    fn close(&mut self, n: u64) {
        if let Some(x) = self.rest.get_mut(&n) {
            if x.0.txs.is_empty() {
                x.0.db = None;
            }
        }
    }
    fn delete(&mut self, n: u64) -> Value {
        let dir = self.dir(n);
        let open = self.here == n || self.rest.get(&n).is_some_and(|x| x.0.db.is_some());
        let res = outcome(guard(|| GroveDb::delete_checkpoint(&dir)), |_| json!(0));
        if res["st"] == "ok" && !open {
            self.rest.remove(&n);
            sim::forget(&dir);
        }
        with(json!({"e": "cpdel", "n": n, "open": open, "there": dir.exists()}), res)
    }
    /// a directory that is no checkpoint
    fn spare(&mut self, n: u64) -> Value {
        let dir = self.home.join("plain");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join("precious"), b"x").unwrap();
        let res = match n {
            0 => outcome(guard(|| GroveDb::delete_checkpoint(&dir)), |_| json!(0)),
            1 => outcome(guard(|| GroveDb::open_checkpoint(&dir).map(|_| ())), |_| json!(0)),
            _ => outcome(guard(|| self.w.db().create_checkpoint(&dir)), |_| json!(0)),
        };
        let there = dir.join("precious").exists() && std::fs::read_dir(&dir).unwrap().count() == 1;
        with(json!({"e": "spare", "n": n, "there": there}), res)
    }
}
impl Drop for Many {
    fn drop(&mut self) {
        if self.here != 0 {
            self.switch(0);
        }
        let dirs: Vec<PathBuf> = self.rest.values().map(|x| x.0.dir.clone()).collect();
        for (_, x) in self.rest.iter_mut() {
            x.0.txs.clear();
        }
        self.rest.clear();
        for d in dirs {
            sim::forget(&d);
        }
        let _ = std::fs::remove_dir_all(&self.home);
    }
}
/// what happens to the store while something is done
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Plain,
    /// record the states between the writes
    Crash,
    FailWrite(i64),
    FailRead(i64),
}
fn under(w: &World, m: Mode, f: impl FnOnce() -> Value) -> (Value, Option<bool>) {
    match m {
        Mode::Plain | Mode::Crash => {
            sim::record(&w.dir, m == Mode::Crash);
            let v = f();
            (v, None)
        }
        Mode::FailWrite(n) => {
            sim::fail_write_in(n);
            let v = f();
            let hit = !sim::write_fault_pending();
            sim::fail_write_in(-1);
            (v, Some(hit))
        }
        Mode::FailRead(n) => {
            sim::fail_read_in(n);
            let v = f();
            let hit = !sim::read_fault_pending();
            sim::fail_read_in(-1);
            (v, Some(hit))
        }
    }
}
/// a process that starts on what is stored at every point in between
fn between(w: &World, o: &mut Out) -> Vec<Value> {
    let hist = sim::history(&w.dir);
    sim::record(&w.dir, false);
    o.count(&format!("writes {}", hist.len()), 1);
    let n = hist.len();
    let mut out = vec![];
    for st in hist.into_iter().take(n.saturating_sub(1)) {
        let dir = scratch("mid");
        sim::install(&dir, st);
        let now = crate::dump::phys(&dir);
        let rh = match GroveDb::open(&dir) {
            Ok(db) => outcome(guard(|| db.root_hash(None, GroveVersion::latest()).unwrap()), |h| json!(hex(h))),
            Err(_) => json!({"st": "err", "v": ""}),
        };
        out.push(json!({"diff": changes(&w.last, &now), "ad": aux_changes(&w.last, &now), "rh": if rh["st"] == "ok" { rh["v"].clone() } else { json!("") }}));
        sim::forget(&dir);
        let _ = std::fs::remove_dir_all(&dir);
    }
    out
}
fn finish(w: &mut World, mut row: Value, m: Mode, hit: Option<bool>, o: &mut Out) -> Value {
    if let Some(h) = hit {
        row["hit"] = json!(h);
        row["what"] = json!(match m { Mode::FailWrite(n) => format!("write {n}"), Mode::FailRead(n) => format!("read {n}"), _ => String::new() });
        if h {
            o.count(&format!("fault {} {}", if let Mode::FailWrite(_) = m { "write" } else { "read" }, row["st"].as_str().unwrap_or("")), 1);
        }
    }
    if m == Mode::Crash {
        let mid = between(w, o);
        if !mid.is_empty() {
            row["mid"] = json!(mid);
        }
    }
    w.seen(row)
}
fn act(o: &mut Out, m: &mut Many, x: u64, op: &Value, mode: Mode) {
    o.about(op);
    let (res, hit) = { let w = &m.w; under(w, mode, || exec(w.db(), w.tx(x), op)) };
    o.count(&format!("{} {}", s(op, "o"), s(&res, "st")), 1);
    m.g.note(op, &res);
    let now: Vec<_> = m.g.keys.iter().flat_map(|(p, ks)| ks.iter().map(|k| (p.clone(), k.clone()))).collect();
    m.g.ever.extend(now);
    let fell = x != 0 && ["append", "clear"].contains(&s(op, "o")) && hit == Some(true) && s(&res, "st") != "ok";
    let row = with(json!({"e": "op", "x": x, "op": op}), res);
    let row = finish(&mut m.w, row, mode, hit, o);
    o.ev(row);
    if fell {
        // these write more than once: one that failed half-way is in the transaction in part, and the caller has to roll back (mmr_tree.rs says so)
        let what = if m.g.r.chance(1, 2) { "undo" } else { "drop" };
        turn(o, m, what, x, Mode::Plain);
    }
}
fn tell(o: &mut Out, m: &mut Many, row: Value) {
    o.count(&format!("{} {}", s(&row, "e"), row["st"].as_str().unwrap_or("")), 1);
    let row = m.w.seen(row);
    o.ev(row);
}
fn turn(o: &mut Out, m: &mut Many, what: &str, x: u64, mode: Mode) {
    let mut row = Value::Null;
    let w = &mut m.w;
    if mode == Mode::Crash {
        sim::record(&w.dir, true);
    }
    let hit = {
        match mode {
            Mode::FailWrite(n) => sim::fail_write_in(n),
            Mode::FailRead(n) => sim::fail_read_in(n),
            _ => {}
        }
        if let Some(r) = w.turn(what, x) {
            row = r;
        }
        let hit = match mode {
            Mode::FailWrite(_) => Some(!sim::write_fault_pending()),
            Mode::FailRead(_) => Some(!sim::read_fault_pending()),
            _ => None,
        };
        sim::fail_write_in(-1);
        sim::fail_read_in(-1);
        hit
    };
    o.count(&format!("{} {}", s(&row, "e"), row["st"].as_str().unwrap_or("")), 1);
    let row = finish(w, row, mode, hit, o);
    o.ev(row);
}
/// an operation on auxiliary data; keys as the hierarchy has them too
fn aux(m: &Many, r: &Rng, read: bool) -> Value {
    let mut keys: Vec<Vec<u8>> = vec![vec![], vec![1], vec![1, 0], vec![0; 32], [vec![0; 32], vec![1]].concat(), b"r".to_vec(), vec![5; 300]];
    keys.extend(m.g.pool.iter().cloned());
    let k = r.pick(&keys).clone();
    match if read { 9 } else { r.idx(10) } {
        0..=4 => {
            let n = [0, 1, 1, 4, 40][r.idx(5)];
            json!({"o": "putaux", "k": hex(k), "val": hex(r.bytes(n))})
        }
        5..=6 => json!({"o": "delaux", "k": hex(k)}),
        _ => json!({"o": "getaux", "k": hex(k)}),
    }
}
fn mode(driver: &str, r: &Rng) -> Mode {
    if driver != "mcrash" {
        return Mode::Plain;
    }
    match r.idx(10) {
        0..=3 => Mode::Crash,
        4..=6 => Mode::FailWrite(r.idx(3) as i64),
        7..=8 => { let far = if r.chance(1, 2) { 6 } else { 60 }; Mode::FailRead(r.idx(far) as i64) }
        _ => Mode::Plain,
    }
}
fn mode_of(j: &Value) -> Mode {
    match j["mode"].as_str() {
        Some("crash") => Mode::Crash,
        Some("write") => Mode::FailWrite(j["at"].as_i64().unwrap()),
        Some("read") => Mode::FailRead(j["at"].as_i64().unwrap()),
        _ => Mode::Plain,
    }
}
const KINDS: &[&str] = &["item", "item", "sumitem", "ref", "tree", "sumtree", "provcounttree", "ct", "mmr", "bulk", "dense"];
const TXKINDS: &[&str] = &["item", "item", "item", "sumitem", "ref", "tree", "sumtree", "bigsumtree", "counttree", "countsumtree", "provcounttree", "provcountsumtree"];
fn profile2(name: &str, i: usize) -> Profile {
    let reads: &'static [(&'static str, u64)] = &[("get", 4), ("raw", 4), ("has", 2), ("empty", 2), ("verify", 1), ("aread", 3)];
    let plain: &'static [(&'static str, u64)] = &[("get", 4), ("raw", 4), ("has", 2), ("empty", 2), ("verify", 1), ("query", 2), ("prove", 2)];
    match (name, i % 2) {
        ("mcrash", 0) => Profile { kinds: KINDS, ops: &[("insert", 10), ("append", 16), ("batch", 4), ("delete", 1), ("deltree", 1), ("icv", 1)], reads, tx: true, steps: 24, wild: false },
        ("mcrash", _) => Profile { kinds: TXKINDS, ops: &[("insert", 14), ("ine", 1), ("icv", 1), ("batch", 3), ("delete", 4), ("deltree", 3), ("delup", 2), ("clear", 2)], reads: plain, tx: true, steps: 24, wild: false },
        ("mcp", 0) => Profile { kinds: KINDS, ops: &[("insert", 10), ("append", 10), ("batch", 2), ("delete", 2), ("deltree", 1)], reads, tx: true, steps: 40, wild: false },
        (_, 0) => Profile { kinds: KINDS, ops: &[("insert", 10), ("append", 6), ("batch", 2), ("delete", 2), ("deltree", 1)], reads, tx: true, steps: 50, wild: false },
        _ => Profile { kinds: TXKINDS, ops: &[("insert", 14), ("batch", 2), ("delete", 3), ("deltree", 2), ("clear", 1)], reads: plain, tx: true, steps: 50, wild: false },
    }
}
fn case(o: &mut Out, driver: &str, id: usize, g: Gen, given: &[Value]) {
    o.ev(json!({"e": "new"}));
    let home = scratch(&format!("m{id}"));
    std::fs::create_dir_all(&home).unwrap();
    let mut m = Many { w: World::new(&format!("g{id}")), g, here: 0, rest: BTreeMap::new(), home };
    let mut next = 1;
    let mut cps = 0;
    for j in given {
        let x = j["x"].as_u64().unwrap_or(0);
        let n = j["n"].as_u64().unwrap_or(0);
        match s(j, "o") {
            "begin" | "commit" | "drop" | "undo" => turn(o, &mut m, s(j, "o"), x, mode_of(j)),
            "cp" => { let row = m.create(n); tell(o, &mut m, row) }
            "use" => { if n != m.here { let row = m.switch(n); tell(o, &mut m, row) } }
            "cpdel" => { m.close(n); let row = m.delete(n); tell(o, &mut m, row) }
            "reopen" => if m.w.txs.is_empty() { m.w.reopen(); tell(o, &mut m, json!({"e": "reopen"})) },
            _ => {
                let mut op = j.clone();
                for k in ["x", "mode", "at"] {
                    op.as_object_mut().unwrap().remove(k);
                }
                act(o, &mut m, x, &op, mode_of(j))
            }
        }
    }
    let steps = if given.is_empty() { m.g.pr.steps } else { 0 };
    for _ in 0..steps {
        let open: Vec<u64> = m.w.txs.keys().copied().collect();
        let r = Rng::new(m.g.r.next());
        if driver == "mcp" && r.chance(1, 4) {
            let some = if cps == 0 { 1 } else { 1 + r.below(cps) };
            match r.idx(9) {
                0..=2 if cps < 4 => { cps += 1; let row = m.create(cps); tell(o, &mut m, row) }
                3 => { let row = m.create(some); tell(o, &mut m, row) }
                4..=5 => { let n = if m.here != 0 && r.chance(1, 2) { 0 } else { some }; if n != m.here { let row = m.switch(n); tell(o, &mut m, row) } }
                6 => { if r.chance(1, 2) { m.close(some) } let row = m.delete(some); tell(o, &mut m, row) }
                7 => { let row = m.spare(r.below(3)); tell(o, &mut m, row) }
                _ => { m.close(some) }
            }
            continue;
        }
        match r.idx(20) {
            0..=1 if open.len() < 3 => {
                next += 1;
                turn(o, &mut m, "begin", next - 1, Mode::Plain)
            }
            2..=4 if !open.is_empty() => turn(o, &mut m, "commit", *r.pick(&open), mode(driver, &r)),
            5 if !open.is_empty() => turn(o, &mut m, "drop", *r.pick(&open), Mode::Plain),
            6 if !open.is_empty() => turn(o, &mut m, "undo", *r.pick(&open), Mode::Plain),
            7..=9 if open.is_empty() => {
                m.w.reopen();
                tell(o, &mut m, json!({"e": "reopen"}))
            }
            _ => {
                let x = if open.is_empty() || r.chance(1, 8) { 0 } else if r.chance(4, 5) { *open.last().unwrap() } else { *r.pick(&open) };
                let some = if driver == "maux" { 2 } else { 10 };
                let op = if r.chance(1, some) { aux(&m, &r, false) } else { m.g.op(weighted(&r, m.g.pr.ops)) };
                act(o, &mut m, x, &op, mode(driver, &r));
                let who: Vec<u64> = [0].into_iter().chain(m.w.txs.keys().copied()).collect();
                for _ in 0..r.idx(3) {
                    let op = if driver == "maux" && r.chance(1, 2) { aux(&m, &r, true) } else { m.g.op(weighted(&r, m.g.pr.reads)) };
                    // a proof is of what is committed
                    let x = if s(&op, "o") == "prove" { 0 } else { *r.pick(&who) };
                    act(o, &mut m, x, &op, if driver == "mcrash" && r.chance(1, 3) { Mode::FailRead(r.idx(8) as i64) } else { Mode::Plain });
                }
            }
        }
    }
    let ends: &[u64] = if given.is_empty() { &[0, 1, 2, 3, 4] } else { &[] };
    for n in ends.iter().copied() {
        if driver == "mcp" && (n == 0 && m.here != 0 || m.rest.contains_key(&n)) {
            let row = m.switch(n);
            tell(o, &mut m, row);
        }
        if driver == "mcp" || n == 0 {
            for _ in 0..3 {
                let op = m.g.op(weighted(&m.g.r, m.g.pr.reads));
                act(o, &mut m, 0, &op, Mode::Plain);
                let r = Rng::new(m.g.r.next());
                let op = aux(&m, &r, true);
                act(o, &mut m, 0, &op, Mode::Plain);
            }
        }
    }
    o.end_case();
}
pub fn run(a: &Args, o: &mut Out) {
    let r = Rng::new(a.seed ^ a.driver.bytes().fold(0x6e3, |x: u64, c| x.wrapping_mul(31).wrapping_add(c as u64)));
    let mut id = 0;
    for sch in a.read_schedules() {
        let g = Gen::new(Rng::new(r.next()), profile2(&a.driver, id));
        case(o, &a.driver, id, g, sch.as_array().unwrap());
        id += 1;
    }
    for _ in 0..a.n(60, 600) {
        let g = Gen::new(Rng::new(r.next()), profile2(&a.driver, id));
        case(o, &a.driver, id, g, &[]);
        id += 1;
    }
}
