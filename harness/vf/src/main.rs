mod element;
#[path = "../../lite/src/memctx.rs"]
#[allow(dead_code)]
mod memctx;
mod grove;
mod hashes;
mod results;
mod trunk;
mod mproof;
mod pquery;
mod ptree;
#[path = "../../lite/src/q.rs"]
#[allow(dead_code)]
mod q;
#[path = "../../lite/src/qitem.rs"]
#[allow(dead_code)]
mod qitem;
mod wire;
#[path = "../../lite/src/refs.rs"]
#[allow(dead_code)]
mod refs;
use vh_common::*;

fn main() {
    let a = Args::parse();
    let mut o = Out::new(&a);
    match a.driver.as_str() {
        "element" => element::run(&a, &mut o),
        "pquery" => pquery::run(&a, &mut o),
        "pqmerge" => pquery::run_merge(&a, &mut o),
        "pqsum" => pquery::run_sum(&a, &mut o),
        "provable" => grove::provable(&a, &mut o),
        "hashes" => hashes::run(&a, &mut o),
        "grove" => grove::run(&a, &mut o),
        "results" => results::run(&a, &mut o),
        "trunk" => trunk::run(&a, &mut o),
        "mproof" => mproof::run(&a, &mut o),
        "wire" => wire::run(&a, &mut o),
        d => panic!("unknown driver {d}"),
    }
    o.finish();
}
