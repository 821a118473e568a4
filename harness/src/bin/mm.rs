//! Driver for matrix products and vector dots.  `mm OUT SEED TIER`
use dev::AxesPairIndex;
use num::Complex;
#[allow(unused)]
use vh::dev::{Ix0, Ix1, Ix2, Ix3};
use vh::*;

macro_rules! inst { ($m:ident, $T:ty, $B:ty) => { pub mod $m {
    use super::*;
    type T = $T; type B = $B;
    include!("../body/mm.rs");
} } }
inst!(is, i32, Ser);
inst!(ip, i32, Fae);
inst!(fs, f64, Ser);
inst!(fp, f64, Fae);
inst!(gp, f32, Fae);
inst!(cs, Complex<f64>, Ser);
inst!(cp, Complex<f64>, Fae);
include!("../body/mm_gen.rs");

fn main() {
    let a = args();
    let mut out = Out::create(&a.out);
    let mut r = Rng::new(a.seed.wrapping_mul(1009) + 5);
    let p14 = a.input.as_deref() == Some("P14");
    let n = if p14 { 300 } else if a.thorough { 24000 } else { 6000 };
    let nbig = if a.thorough { 1200 } else { 240 };
    let mut ev = vec![];
    // products of shapes generated from the specification
    let mut fixed = vec![];
    if let Some(f) = std::env::args().nth(5).or(a.input.clone().filter(|_| !p14)) {
        let list = |x: &str| -> Vec<usize> { if x == "_" { vec![] } else { x.split(',').map(|k| k.parse().unwrap()).collect() } };
        for line in std::fs::read_to_string(f).unwrap().lines() {
            let w: Vec<&str> = line.split_whitespace().collect();
            fixed.push((w[0] == "vd", (list(w[1]), list(w[2]), if w.len() > 3 { w[3].parse().unwrap() } else { 0 })));
        }
    }
    let n = n + fixed.len();
    for i in 0..n + nbig {
        let big = i >= n;
        let fix = fixed.pop();
        let o = *r.pick(&ORD);
        if p14 { set_ctx(r.us(0, 24)); }
        let nt = if !p14 && r.chance(if big { 20 } else { 40 }) { 0 } else { r.us(1, 8) };
        let vd = fix.as_ref().map(|f| f.0).unwrap_or(r.chance(45));
        let g = Gen { o, nt, big: big && fix.is_none(), fix: fix.map(|f| f.1) };
        let e = match (r.int(0, 6), nt) {
            (0 | 1, 0) => go!(is, i32, ser(o), g, &mut r, vd),
            (0 | 1, _) => go!(ip, i32, fae(nt, o), g, &mut r, vd),
            (2 | 3, 0) => go!(fs, f64, ser(o), g, &mut r, vd),
            (2 | 3, _) => go!(fp, f64, fae(nt, o), g, &mut r, vd),
            (4, 1..) => go!(gp, f32, fae(nt, o), g, &mut r, vd),
            (_, 0) => go!(cs, Complex<f64>, ser(o), g, &mut r, vd),
            _ => go!(cp, Complex<f64>, fae(nt, o), g, &mut r, vd),
        };
        ev.push(e);
        if ev.len() >= if big { 4 } else { 40 } {
            out.session(std::mem::take(&mut ev));
        }
    }
    if !ev.is_empty() {
        out.session(ev);
    }
    out.finish();
}
