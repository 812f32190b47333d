#![allow(dead_code)]
mod driver;
mod fv;
mod hp;
mod runs;
mod scripted;
mod util;
mod val;

fn main() {
    let (a, seed) = util::start();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let num = |i: usize| arg(i).parse::<usize>().expect("number expected");
    // CMD OUT DIR ...
    match arg(1).as_str() {
        "val-replay" => val::replay(&arg(4), seed),
        "val-real" => val::vacuum(num(4), seed),
        x => util::unknown(x),
    }
    util::close_out();
}
