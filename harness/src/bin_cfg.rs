#![allow(dead_code)]
mod driver;
mod fv;
mod hp;
mod ready;
mod scripted;
mod setup;
mod util;
mod wr;

fn main() {
    let (a, seed) = util::start();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    // CMD OUT DIR ...
    match arg(1).as_str() {
        "cfg-replay" => setup::replay(&arg(4), seed, &arg(3)),
        "ic" => setup::conditions(seed),
        "ready" => ready::all(arg(4).parse().unwrap_or(50), seed, &arg(3)),
        x => util::unknown(x),
    }
    util::close_out();
}
