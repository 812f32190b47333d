#![allow(dead_code)]
mod fv;
mod hp;
mod util;

fn main() {
    let (a, seed) = util::start();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let num = |i: usize| arg(i).parse::<usize>().expect("number expected");
    // CMD OUT DIR ...
    match arg(1).as_str() {
        "fv-eval" => fv::eval(num(4), seed),
        "fv-lim" => fv::lim(num(4), seed),
        "fv-fine" => fv::fine_cases(num(4), seed),
        "fv-bc" => fv::bc(num(4), seed),
        x => util::unknown(x),
    }
    util::close_out();
}
