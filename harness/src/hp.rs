//! Values to 48 fractional bits, as digits to the base 4096 (the numbers of the specification's Big module).
use crate::util::*;
use ndarray::{Array1, Array2};
use serde_json::{json, Value};

/// Seven digits, lowest first; empty for what is not finite or too large to multiply.
pub fn hp(x: f64) -> Value {
    hp_below(x, 2048.0)
}
fn hp_below(x: f64, limit: f64) -> Value {
    if !x.is_finite() || x.abs() >= limit {
        return json!([]);
    }
    let mut k = (x * 2f64.powi(48)).round() as i128;
    let mut d: Vec<i64> = vec![];
    for _ in 0..6 {
        d.push(k.rem_euclid(4096) as i64);
        k = k.div_euclid(4096);
    }
    d.push(k as i64);
    json!(d)
}
/// Variables of one kind of places, with their scales.
pub struct View<'a> {
    pub prim: &'a Array2<f64>,
    pub cons: &'a Array2<f64>,
    pub c: &'a Array1<f64>,
    pub eig: &'a Array2<f64>,
}
pub struct Case<'a> {
    pub cent: View<'a>,
    pub west: Option<View<'a>>,
    pub east: Option<View<'a>>,
    /// rates times cell width
    pub rate: Option<&'a Array2<f64>>,
    pub a: f64,
    pub v: f64,
    pub gamma: f64,
    pub lim: &'a str,
    pub theta: f64,
    pub bcw: Vec<String>,
    pub bce: Vec<String>,
    pub xc: &'a Array1<f64>,
}
impl Case<'_> {
    fn scales(&self, e: usize) -> (Vec<f64>, Vec<f64>) {
        let (a, v) = (self.a, self.v);
        ([a, v, a * v * v][..e].to_vec(), [a, a * v, a * v * v][..e].to_vec())
    }
    fn ghosts(&self, e: usize, s: usize, psc: &[f64]) -> Vec<Value> {
        let p = self.cent.prim;
        let mx = self.xc.iter().fold(0.0f64, |x, y| x.max(y.abs())) / 4.0;
        let mut r = vec![];
        for (west, modes) in [(true, &self.bcw), (false, &self.bce)] {
            for g in 1..=2usize {
                let i = if west { 2 - g } else { s - 3 + g };
                let (n, a, b) = if west { (i + 1, 2, 3) } else { (i - 1, s - 3, s - 4) };
                for j in 0..e {
                    if modes[j] != "none" {
                        let at = |k: usize| hp(p[[j, k]] / psc[j]);
                        r.push(json!({"m": modes[j], "west": west, "g": g, "v": at(i), "z": hp(p[[j, i]] / psc[j] * 1e10), "a": at(a), "b": at(b),
                            "n": at(n), "x": hp((self.xc[i] / mx).abs()), "xn": hp((self.xc[n] / mx).abs())}));
                    }
                }
            }
        }
        r
    }
    /// Everything around cell i, and the ghost cells.
    pub fn emit(&self, id: usize, i: usize) {
        let (e, s) = self.cent.prim.dim();
        let (psc, usc) = self.scales(e);
        let cut = |a: &Array2<f64>, sc: &[f64], w: usize| -> Value {
            json!((0..e).map(|j| (i - w..=i + w).map(|k| hp(a[[j, k]] / sc[j])).collect::<Vec<_>>()).collect::<Vec<_>>())
        };
        let cut1 = |a: &Array1<f64>, w: usize| -> Value { json!((i - w..=i + w).map(|k| hp(a[k] / self.v)).collect::<Vec<_>>()) };
        let mut m = json!({"ev": "hp", "id": id, "phys": if e == 3 {"adia"} else {"isot"}, "flux": if self.west.is_some() {"kt"} else {"hll"},
            "rates": self.rate.is_some(), "lim": self.lim, "theta": hp(self.theta), "gam": hp(self.gamma),
            "p": cut(self.cent.prim, &psc, 2), "u": cut(self.cent.cons, &usc, 2), "c": cut1(self.cent.c, 2),
            "eig": cut(self.cent.eig, &[self.v; 3], 2), "gh": self.ghosts(e, s, &psc)});
        if let (Some(w), Some(x)) = (&self.west, &self.east) {
            m["pw"] = cut(w.prim, &psc, 1);
            m["uw"] = cut(w.cons, &usc, 1);
            m["cw"] = cut1(w.c, 1);
            m["pe"] = cut(x.prim, &psc, 1);
            m["ue"] = cut(x.cons, &usc, 1);
            m["ce"] = cut1(x.c, 1);
        }
        if let Some(r) = self.rate {
            m["rate"] = json!((0..e).map(|j| hp_below(r[[j, i]] / (usc[j] * self.v), 262144.0)).collect::<Vec<_>>());
        }
        emit(m);
    }
}
/// The CFL width (as a multiple of CFL factor times cell width) of a state.
pub fn cfl(id: usize, v: f64, cflr: f64, prim: &Array2<f64>, c: &Array1<f64>) {
    emit(json!({"ev": "hc", "id": id, "cfl": hp(cflr * v), "v": prim.row(1).iter().map(|x| hp(x / v)).collect::<Vec<_>>(),
        "c": c.iter().map(|x| hp(x / v)).collect::<Vec<_>>()}));
}
