//! Driver for triangular masks, packing and unpacking.  `tri OUT SEED TIER`
use num::Complex;
use vh::*;
use dev::{FlagSymm, FlagUpLo};
#[allow(unused)]
use vh::dev::{Ix0, Ix1, Ix2, Ix3};

macro_rules! inst { ($m:ident, $T:ty, $B:ty, $($extra:literal),*) => { pub mod $m {
    use super::*;
    type T = $T; type B = $B;
    include!("../body/tri.rs");
    $(include!($extra);)*
} } }
inst!(is, i32, Ser,);
inst!(ip, i32, Fae,);
inst!(fs, f64, Ser, "../body/tri_f.rs");
inst!(fp, f32, Fae, "../body/tri_f.rs");
inst!(cs, Complex<f64>, Ser, "../body/tri_f.rs");
inst!(cp, Complex<f64>, Fae, "../body/tri_f.rs");

struct G { o: FlagOrder, nt: usize, big: bool }
fn ti<T: El>(r: &mut Rng, sh: &[usize], bc: bool) -> Ti<T> {
    let lay = Lay::random(r, sh, bc);
    Ti::newc(lay, |_| (r.int(-40, 40), r.int(-40, 40)))
}
fn order_mat(o: FlagOrder, batch: &[usize], mat: &[usize]) -> Vec<usize> {
    if o == FlagOrder::C { [batch, mat].concat() } else { [mat, batch].concat() }
}
fn batch(r: &mut Rng, big: bool) -> Vec<usize> {
    if big { let k = r.us(1, 2); return (0..k).map(|_| *r.pick(&[2, 5, 9, 33])).collect() }
    let k = *r.pick(&[0, 0, 1, 1, 2]);
    (0..k).map(|_| if r.chance(5) { 0 } else { r.us(1, 3) }).collect()
}
const SYMM: [FlagSymm; 5] = [FlagSymm::Sy, FlagSymm::He, FlagSymm::Ay, FlagSymm::Ah, FlagSymm::N];
fn sname(y: FlagSymm) -> &'static str { match y { FlagSymm::Sy => "Sy", FlagSymm::He => "He", FlagSymm::Ay => "Ay", FlagSymm::Ah => "Ah", FlagSymm::N => "N" } }
fn uname(u: FlagUpLo) -> &'static str { if u == FlagUpLo::L { "L" } else { "U" } }

macro_rules! common { ($m:ident, $T:ty, $d:expr, $g:expr, $r:expr, $kind:expr) => {{
    let (g, r, d): (&G, &mut Rng, _) = ($g, $r, $d);
    let u = if r.chance(50) { FlagUpLo::L } else { FlagUpLo::U };
    let n = if g.big { *r.pick(&[8, 17, 33]) } else { r.us(0, 5) };
    match $kind {
        0 => {
            let mut sh = order_mat(g.o, &batch(r, g.big), &[n, n]);
            if prod(&sh) > 6000 { sh = vec![n, n]; }
            if r.chance(4) { match r.int(0, 2) { 0 => sh = vec![n], 1 => sh = vec![], _ => { let k = if g.o == FlagOrder::C { sh.len() - 1 } else { 0 }; sh[k] += 1; } } }
            let a: Ti<$T> = ti(r, &sh, true);
            let old = a.clone();
            let how = r.us(0, 4);
            let res = $m::pack(how, &a, u, d);
            jo! { e: "pack", a: a.jc(), uplo: uname(u), order: oname(g.o), nt: g.nt, how: how, same: a.buf == old.buf, inf: how == 1 || how == 3, r: res }
        },
        _ => {
            let m = if g.big { *r.pick(&[3, 20, 33]) } else { r.us(0, 5) };
            let mut sh = [&batch(r, g.big)[..], &[n, m][..]].concat();
            if prod(&sh) > 6000 { sh = vec![n, m]; }
            if r.chance(4) { sh = if r.chance(50) { vec![n] } else { vec![] }; }
            let k = if r.chance(25) { 0 } else { r.int(-6, 7) as isize };
            if $kind == 1 {
                let bc = r.chance(30);
                let a: Ti<$T> = ti(r, &sh, bc);
                let old = a.clone();
                let how = r.us(0, 5);
                let res = $m::tri(how, &a, u, k, d);
                jo! { e: "tri", a: a.jc(), uplo: uname(u), diag: k as i64, order: oname(g.o), nt: g.nt, how: how, same: a.buf == old.buf, inf: how == 1 || how == 3, r: res }
            } else {
                let mut c: Ti<$T> = ti(r, &sh, false);
                let before = c.jb();
                let how = r.us(0, 2);
                let res = $m::trimut(how, &mut c, u, k, d);
                jo! { e: "trimut", c: before, uplo: uname(u), diag: k as i64, order: oname(g.o), nt: g.nt, how: how, same: true, inf: how == 1, r: res }
            }
        },
    }
}} }
macro_rules! all { ($m:ident, $T:ty, $d:expr, $g:expr, $r:expr) => {{
    let d = $d;
    let kind = $r.int(0, 6);
    if kind < 4 { common!($m, $T, &d, $g, $r, kind.min(2)) } else {
        let (g, r): (&G, &mut Rng) = ($g, $r);
        let u = if r.chance(50) { FlagUpLo::L } else { FlagUpLo::U };
        let y = *r.pick(&SYMM);
        let n = if g.big { *r.pick(&[8, 17, 33]) } else { r.us(0, 5) };
        let mut m = n * (n + 1) / 2;
        if r.chance(4) { m += 1; }
        let mut sh = order_mat(g.o, &batch(r, g.big), &[m]);
        if prod(&sh) > 6000 { sh = vec![m]; }
        if r.chance(1) { sh = vec![]; }
        let a: Ti<$T> = ti(r, &sh, true);
        let old = a.clone();
        let how = r.us(0, 4);
        let res = $m::unpack(how, &a, u, y, &d);
        jo! { e: "unpack", a: a.jc(), uplo: uname(u), symm: sname(y), order: oname(g.o), nt: g.nt, how: how, same: a.buf == old.buf, inf: how == 1 || how == 3, r: res }
    }
}} }

fn main() {
    let a = args();
    let mut out = Out::create(&a.out);
    let mut r = Rng::new(a.seed.wrapping_mul(1019) + 9);
    let n = if a.thorough { 40000 } else { 8000 };
    let nbig = if a.thorough { 600 } else { 60 };
    let mut ev = vec![];
    for i in 0..n + nbig {
        let g = G { o: *r.pick(&ORD), nt: if r.chance(if i >= n { 15 } else { 50 }) { 0 } else { r.us(1, 8) }, big: i >= n };
        let r = &mut r;
        let e = match (r.int(0, 5), g.nt) {
            (0, 0) => { let k = r.int(0, 2); common!(is, i32, &ser(g.o), &g, r, k) },
            (0, k) => { let q = r.int(0, 2); common!(ip, i32, &fae(k, g.o), &g, r, q) },
            (1 | 2, 0) => all!(fs, f64, ser(g.o), &g, r),
            (1 | 2, k) => all!(fp, f32, fae(k, g.o), &g, r),
            (_, 0) => all!(cs, Complex<f64>, ser(g.o), &g, r),
            (_, k) => all!(cp, Complex<f64>, fae(k, g.o), &g, r),
        };
        ev.push(e);
        if ev.len() >= if i >= n { 3 } else { 60 } {
            out.session(std::mem::take(&mut ev));
        }
    }
    if !ev.is_empty() {
        out.session(ev);
    }
    out.finish();
}
