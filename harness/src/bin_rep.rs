#![allow(dead_code)]
mod driver;
mod fv;
mod hp;
mod rep;
mod runs;
mod scripted;
mod util;

fn main() {
    let (a, seed) = util::start();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let num = |i: usize| arg(i).parse::<usize>().expect("number expected");
    // CMD OUT DIR ...
    match arg(1).as_str() {
        "rep" => rep::run(num(4), &arg(5), seed, &arg(3)),
        x => util::unknown(x),
    }
    util::close_out();
}
