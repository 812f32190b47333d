#![allow(dead_code)]
mod driver;
mod fv;
mod hp;
mod rk;
mod runs;
mod scripted;
mod util;

fn main() {
    let (a, seed) = util::start();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let num = |i: usize| arg(i).parse::<usize>().expect("number expected");
    // CMD OUT DIR ...
    match arg(1).as_str() {
        "rk-tab" => rk::tableau(num(4), seed),
        "rk-stages" => rk::stages_run(num(4), seed),
        "rk-control" => rk::control(&arg(4), seed),
        "rk-real" => rk::real(num(4), seed),
        x => util::unknown(x),
    }
    util::close_out();
}
