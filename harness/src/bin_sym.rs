#![allow(dead_code)]
mod driver;
mod fv;
mod hp;
mod runs;
mod scripted;
mod sym;
mod util;

fn main() {
    let (a, seed) = util::start();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let num = |i: usize| arg(i).parse::<usize>().expect("number expected");
    // CMD OUT DIR ...
    match arg(1).as_str() {
        "sym-scale" | "sym-shift" => sym::run(&arg(1), num(4), seed),
        x => util::unknown(x),
    }
    util::close_out();
}
