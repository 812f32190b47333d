#![allow(dead_code)]
mod driver;
mod fv;
mod hp;
mod runs;
mod scripted;
mod util;

fn main() {
    let (a, seed) = util::start();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let num = |i: usize| arg(i).parse::<usize>().expect("number expected");
    // CMD OUT DIR ...
    match arg(1).as_str() {
        "fv-st" => runs::states(num(4), seed),
        "fv-cfl" => runs::fine_cases(num(4), seed),
        "fv-pair" => runs::pairs(num(4), seed),
        x => util::unknown(x),
    }
    util::close_out();
}
