#![allow(dead_code)]
mod geo;
mod util;

fn main() {
    let (a, seed) = util::start();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let num = |i: usize| arg(i).parse::<usize>().expect("number expected");
    // CMD OUT DIR ...
    match arg(1).as_str() {
        "mesh" => geo::meshes(num(4), seed),
        "units" => geo::units(&arg(4), num(5), seed),
        x => util::unknown(x),
    }
    util::close_out();
}
