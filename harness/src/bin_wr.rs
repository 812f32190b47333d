#![allow(dead_code)]
mod fv;
mod hp;
mod scripted;
mod util;
mod wr;

fn main() {
    let (a, seed) = util::start();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let num = |i: usize| arg(i).parse::<usize>().expect("number expected");
    // CMD OUT DIR ...
    match arg(1).as_str() {
        "wr-replay" => wr::replay(&arg(4), seed, &arg(3)),
        "wr-rand" => wr::random(num(4), seed, &arg(3), false),
        "wr-runs" => wr::random(num(4), seed, &arg(3), true),
        "wr-ind" => wr::independent(num(4), seed, &arg(3)),
        x => util::unknown(x),
    }
    util::close_out();
}
