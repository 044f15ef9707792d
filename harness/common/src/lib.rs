//! Shared pieces of the conformance drivers: trace writing, seeded choice, panic capture.
use std::{
    fs::File,
    io::{BufWriter, Write},
    panic::{AssertUnwindSafe, catch_unwind},
    path::PathBuf,
};

pub use serde_json::{Map, Value, json};

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub std::cell::Cell<u64>);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(std::cell::Cell::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03))
    }
    pub fn next(&self) -> u64 {
        self.0.set(self.0.get().wrapping_add(0x9E3779B97F4A7C15));
        let mut z = self.0.get();
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn idx(&self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&self, s: &'a [T]) -> &'a T {
        &s[self.idx(s.len())]
    }
    pub fn bytes(&self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    pub fn shuffled<T>(&self, mut v: Vec<T>) -> Vec<T> {
        self.shuffle(&mut v);
        v
    }
    pub fn shuffle<T>(&self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.idx(i + 1));
        }
    }
}

pub fn hex(b: impl AsRef<[u8]>) -> String {
    const H: &[u8; 16] = b"0123456789abcdef";
    let b = b.as_ref();
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(H[(x >> 4) as usize] as char);
        s.push(H[(x & 15) as usize] as char);
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Run code under test; a panic is data, not a failure of the driver.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

/// {"ok": v} / {"err": 1} / {"panic": msg}
pub fn outcome<T, E: std::fmt::Debug>(r: Result<Result<T, E>, String>, f: impl FnOnce(T) -> Value) -> Value {
    match r {
        Ok(Ok(v)) => json!({"st": "ok", "v": f(v)}),
        Ok(Err(e)) => json!({"st": "err", "why": trunc(&format!("{e:?}"))}),
        Err(p) => json!({"st": "panic", "why": trunc(&p)}),
    }
}
pub fn trunc(s: &str) -> String {
    let c: Vec<char> = s.chars().filter(|c| c.is_ascii() && *c != '"' && *c != '\\').collect();
    if c.len() <= 300 { c.iter().collect() } else { c[..60].iter().chain(&c[c.len() - 240..]).collect() }
}

/// Options given by check.py
pub struct Args {
    pub driver: String,
    pub seed: u64,
    pub thorough: bool,
    pub out: PathBuf,
    pub shards: usize,
    pub schedules: Vec<PathBuf>,
    pub replay: Option<PathBuf>,
}
impl Args {
    pub fn parse() -> Args {
        let mut a = Args {
            driver: String::new(),
            seed: 1,
            thorough: false,
            out: PathBuf::from("."),
            shards: 4,
            schedules: vec![],
            replay: None,
        };
        let mut it = std::env::args().skip(1);
        a.driver = it.next().expect("driver");
        while let Some(k) = it.next() {
            let v = it.next().expect("value");
            match k.as_str() {
                "--seed" => a.seed = v.parse().unwrap(),
                "--tier" => a.thorough = v == "thorough",
                "--out" => a.out = v.into(),
                "--shards" => a.shards = v.parse().unwrap(),
                "--schedules" => a.schedules.push(v.into()),
                "--replay" => a.replay = Some(v.into()),
                _ => panic!("unknown option {k}"),
            }
        }
        if std::env::var("VH_PANIC").is_err() {
            std::panic::set_hook(Box::new(|_| {}));
        }
        a
    }
    /// quick or thorough amount
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    pub fn read_schedules(&self) -> Vec<Value> {
        let mut v = vec![];
        for p in &self.schedules {
            for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
                if !l.trim().is_empty() {
                    v.push(serde_json::from_str(l).expect("schedule line"));
                }
            }
        }
        v
    }
}

/// Trace shards. A case is a group of events that the trace specification checks together;
/// cases are dealt to shards by size so that the shards are balanced.
pub struct Out {
    files: Vec<BufWriter<File>>,
    load: Vec<usize>,
    last: File,
    pub cases: usize,
    pub events: usize,
    kinds: std::collections::BTreeMap<String, usize>,
    samples: Vec<Value>,
    cur: Vec<String>,
    quiet: bool,
    cur_cost: usize,
    extra: std::collections::BTreeMap<String, u64>,
}
impl Out {
    pub fn new(a: &Args) -> Out {
        std::fs::create_dir_all(&a.out).unwrap();
        Out {
            files: (0..a.shards)
                .map(|i| BufWriter::new(File::create(a.out.join(format!("t{i}.ndjson"))).unwrap()))
                .collect(),
            load: vec![0; a.shards],
            last: File::create(a.out.join("last")).unwrap(),
            cases: 0,
            events: 0,
            kinds: Default::default(),
            samples: vec![],
            cur: vec![],
            quiet: false,
            cur_cost: 0,
            extra: Default::default(),
        }
    }
    /// Record what is about to run, so that a crash or hang of the process can be attributed.
    pub fn about(&mut self, what: &Value) {
        use std::io::Seek;
        let s = what.to_string();
        self.last.set_len(0).ok();
        self.last.rewind().ok();
        self.last.write_all(s.as_bytes()).ok();
    }
    /// Add to a named counter of the summary (e.g. forgeries tried).
    pub fn count(&mut self, k: &str, n: u64) {
        *self.extra.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn ev(&mut self, mut e: Value) {
        e["c"] = json!(self.cases);
        let k = e["e"].as_str().unwrap_or("?").to_string();
        let c = self.kinds.entry(k).or_insert(0);
        *c += 1;
        if *c == 3 && self.samples.len() < 6 && !self.quiet {
            self.samples.push(e.clone());
        }
        let s = e.to_string();
        self.cur_cost += 200 + s.len();
        self.cur.push(s);
        self.events += 1;
    }
    pub fn end_case(&mut self) {
        if self.cur.is_empty() {
            return;
        }
        let i = (0..self.load.len()).min_by_key(|i| self.load[*i]).unwrap();
        for l in self.cur.drain(..) {
            writeln!(self.files[i], "{l}").unwrap();
        }
        self.load[i] += self.cur_cost;
        self.cur_cost = 0;
        self.cases += 1;
    }
    pub fn finish(mut self) {
        self.end_case();
        for f in &mut self.files {
            f.flush().unwrap();
        }
        println!(
            "SUMMARY {}",
            json!({"cases": self.cases, "events": self.events, "kinds": self.kinds, "samples": self.samples, "extra": self.extra})
        );
    }
}

pub fn with(mut base: Value, r: Value) -> Value {
    for (k, v) in r.as_object().unwrap() {
        base[k] = v.clone();
    }
    base
}
