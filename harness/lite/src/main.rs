mod bulk;
mod costs;
mod memctx;
mod dense;
mod flags;
mod mmr;
mod mmr_wide;
mod paths;
mod q;
mod refs;
mod qitem;
mod qmerge;
use vh_common::*;

fn main() {
    let a = Args::parse();
    let mut o = Out::new(&a);
    match a.driver.as_str() {
        "mmr" => mmr::state(&a, &mut o),
        "mmr_proof" => mmr::proof(&a, &mut o),
        "mmr_wide" => mmr_wide::wide(&a, &mut o),
        "dense" => dense::state(&a, &mut o),
        "dense_proof" => dense::proof(&a, &mut o),
        "bulk" => bulk::state(&a, &mut o),
        "bulk_proof" => bulk::proof(&a, &mut o),
        "costs" => costs::run(&a, &mut o),
        "paths" => paths::run(&a, &mut o),
        "refs" => refs::run(&a, &mut o),
        "flags" => flags::combine(&a, &mut o),
        "flagsplit" => flags::split(&a, &mut o),
        "qitem" => qitem::run(&a, &mut o),
        "qmerge" => qmerge::run(&a, &mut o),
        "qsum" => qmerge::run_sum(&a, &mut o),
        d => panic!("unknown driver {d}"),
    }
    o.finish();
}
