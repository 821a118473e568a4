//! Driver for pairwise distances.  `dist OUT SEED TIER`
use rstsr_sci_traits::distance::prelude::{rstsr_funcs::*, rstsr_structs::*};
use vh::*;
#[allow(unused)]
use vh::dev::{Ix1, Ix2};

macro_rules! inst { ($m:ident, $T:ty, $B:ty, $f:literal) => { pub mod $m {
    #[allow(unused)]
    use super::*;
    type T = $T; type B = $B;
    include!($f);
} } }
inst!(ds, f64, Ser, "../body/distf.rs");
inst!(dp, f64, Fae, "../body/distf.rs");
inst!(ss, f32, Ser, "../body/distf.rs");
inst!(sp, f32, Fae, "../body/distf.rs");
macro_rules! sel { ($met:expr, $c:ident) => { match $met {
    "jaccard" => $c!(MetricJaccard), "dice" => $c!(MetricDice), "yule" => $c!(MetricYule), "rogerstanimoto" => $c!(MetricRogersTanimoto),
    "russellrao" => $c!(MetricRussellRao), "sokalsneath" => $c!(MetricSokalSneath), _ => $c!(MetricHamming) } } }
inst!(bs, bool, Ser, "../body/distb.rs");
inst!(bp, bool, Fae, "../body/distb.rs");
macro_rules! sel2 { ($met:expr, $c:ident) => {{ let _ = $met; $c!(MetricHamming) }} }
pub mod ints {
    macro_rules! sel { ($m:expr, $c:ident) => { sel2!($m, $c) } }
    pub mod s { #[allow(unused)] use super::super::*; type T = i32; type B = Ser; include!("../body/distb.rs"); }
    pub mod p { #[allow(unused)] use super::super::*; type T = i32; type B = Fae; include!("../body/distb.rs"); }
}

const FLT: [&str; 12] = ["euclidean", "sqeuclidean", "cityblock", "minkowski", "chebyshev", "canberra", "braycurtis", "hamming", "cosine", "correlation", "jensenshannon", "euclidean"];
const BOO: [&str; 7] = ["jaccard", "dice", "yule", "rogerstanimoto", "russellrao", "sokalsneath", "hamming"];

fn ev(r: &mut Rng, big: u64) -> J {
    let o = *r.pick(&ORD);
    let nt = if r.chance(40) { 0 } else { r.us(1, 8) };
    let ty = *r.pick(&["f64", "f64", "f64", "f32", "bool", "bool", "i32"]);
    let met = match ty { "bool" => *r.pick(&BOO), "i32" => "hamming", _ => *r.pick(&FLT) };
    let p = r.int(1, 3);
    let (mut m, mut n, mut k) = (r.us(0, 6), r.us(0, 6), r.us(0, 6));
    match big { 1 => { m = r.us(60, 70); n = r.us(1, 5); k = r.us(1, 3); if r.chance(50) { std::mem::swap(&mut m, &mut n); } },
                2 => { m = r.us(60, 70); n = r.us(60, 70); k = r.us(1, 2); },
                3 => { m = r.us(1, 9); n = r.us(8, 10); k = r.us(1030, 2100); },
                _ => {} }
    if met == "jensenshannon" || met == "correlation" { k = k.min(5); }
    let kb = if r.chance(5) { r.us(0, 6) } else { k };
    let weighted = met != "jensenshannon" && r.chance(50);
    let kw = if r.chance(8) { (k + r.us(1, 2)).saturating_sub(r.us(0, 3)) } else { k };
    let (mut sa, mut sb, mut sw) = (vec![m, k], vec![n, kb], vec![kw]);
    if big == 0 && r.chance(3) { sa.push(1); }
    if big == 0 && r.chance(3) { sb.remove(0); }
    if big == 0 && weighted && r.chance(3) { sw.insert(r.us(0, 1), 1); }
    let fixed = sa.len() == 2 && sb.len() == 2 && sw.len() == 1 && r.chance(40);
    let inf = r.chance(40);
    let (lo, hi) = match met { "correlation" => (-2, 2), "jensenshannon" => (0, 3), _ if big == 3 => (-1, 1), _ => (-3, 3) };
    let s = match met { "cosine" | "correlation" => 1024, "jensenshannon" => 8192, _ if ty == "f32" || big == 3 => 64, _ => 8192 };
    let (la, lb, lw) = (Lay::random(r, &sa, true), Lay::random(r, &sb, true), Lay::random(r, &sw, true));
    let mut r2 = Rng::new(r.next());
    let mut val = |_: usize| r2.int(lo, hi);
    macro_rules! bits { ($x:expr) => { $x } }
    let _ = bits!(0);
    // threads: sometimes inside a pool or beside it
    let ctx = if r.chance(15) { r.us(1, 4) } else { 0 };
    // another device: of another order, or of another number of threads
    let foreign = r.chance(4);
    let o2 = if foreign && (nt == 0 || r.chance(50)) { if o == FlagOrder::C { FlagOrder::F } else { FlagOrder::C } } else { o };
    let nt2 = if foreign && o2 == o { nt + 1 } else { nt };
    macro_rules! go { ($T:ty, $W:ty, $m:ident, $d:expr, $d2:expr, $($args:tt)*) => {{
        let a = Ti::<$T>::new(la, &mut val);
        let b = Ti::<$T>::new(lb, &mut val);
        let mut r3 = Rng::new(r.next());
        let w = if weighted { Some(Ti::<$W>::new(lw, |_| r3.int(0, if met == "correlation" { 2 } else { 3 }))) } else { None };
        let (d, d2) = ($d, $d2);
        set_ctx(ctx);
        let res = go!(@ $m, a, b, w, d, d2, $($args)*);
        set_ctx(0);
        let jw: Vec<J> = w.iter().map(|w| w.j()).collect();
        (a.j(), b.j(), jw, res)
    }};
    (@ $m:ident, $a:ident, $b:ident, $w:ident, $d:ident, $d2:ident, f) => { $m::metric(met, p, &$a, &$b, $w.as_ref(), fixed, inf, &$d, &$d2, s as f64) };
    (@ $m:ident, $a:ident, $b:ident, $w:ident, $d:ident, $d2:ident, b) => { $m::metric(met, &$a, &$b, $w.as_ref(), fixed, inf, &$d, &$d2, s as f64) };
    }
    use ints::{p as ip, s as is};
    let (a, b, w, res) = match (ty, nt) {
        ("f64", 0) => go!(f64, f64, ds, ser(o), ser(o2), f),
        ("f64", _) => go!(f64, f64, dp, fae(nt, o), fae(nt2, o2), f),
        ("f32", 0) => go!(f32, f32, ss, ser(o), ser(o2), f),
        ("f32", _) => go!(f32, f32, sp, fae(nt, o), fae(nt2, o2), f),
        ("bool", 0) => go!(bool, f64, bs, ser(o), ser(o2), b),
        ("bool", _) => go!(bool, f64, bp, fae(nt, o), fae(nt2, o2), b),
        (_, 0) => go!(i32, f64, is, ser(o), ser(o2), b),
        _ => go!(i32, f64, ip, fae(nt, o), fae(nt2, o2), b),
    };
    jo! { e: "dist", ty: ty, met: met, p: p, S: s, a: a, b: b, w: w, o: oname(o), nt: nt, ctx: ctx, fixed: fixed, inf: inf, foreign: foreign, r: res }
}
fn main() {
    let a = args();
    let mut out = Out::create(&a.out);
    let mut r = Rng::new(a.seed.wrapping_mul(733) + 21);
    let n = if a.thorough { 150000 } else { 25000 };
    let mut evs = vec![];
    for i in 0..n {
        let big = if i % 1000 == 3 { 3 } else if i % 300 == 7 { 2 } else if i % 20 == 5 { 1 } else { 0 };
        evs.push(ev(&mut r, big));
        if evs.len() >= 60 { out.session(std::mem::take(&mut evs)); }
    }
    if !evs.is_empty() { out.session(evs); }
    out.finish();
}
