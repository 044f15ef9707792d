mod commit;
mod dump;
#[path = "../../vf/src/element.rs"]
#[allow(dead_code)]
mod element;
mod gdb;
mod merk;
mod more;
mod gq;
#[path = "../../lite/src/memctx.rs"]
#[allow(dead_code)]
mod memctx;
#[path = "../../lite/src/q.rs"]
#[allow(dead_code)]
mod q;
#[path = "../../lite/src/qitem.rs"]
#[allow(dead_code)]
mod qitem;
#[path = "../../lite/src/refs.rs"]
#[allow(dead_code)]
mod refs;
use vh_common::*;

fn main() {
    let a = Args::parse();
    let mut o = Out::new(&a);
    match a.driver.as_str() {
        "commit" => commit::run(&a, &mut o),
        "merk" => merk::run(&a, &mut o),
        "maux" | "mcrash" | "mcp" => more::run(&a, &mut o),
        x if x.starts_with('g') => gdb::run(&a, &mut o),
        d => panic!("unknown driver {d}"),
    }
    o.finish();
}
