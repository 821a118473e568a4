// Shared by the linear-algebra drivers: events for one device family (see bin/linalg.rs, bin/linalgf.rs).
use rstsr_linalg_traits::prelude::{rstsr_funcs::*, rstsr_structs::*, rstsr_traits::*};
use vh::dev::{FlagUpLo, IxD, Ix2};
use vh::*;
type C64 = num::Complex<f64>;
type C32 = num::Complex<f32>;
pub trait Fl: El { fn c(self) -> (f64, f64); fn bad() -> Self; }
impl Fl for f64 { fn c(self) -> (f64, f64) { (self, 0.0) } fn bad() -> Self { f64::NAN } }
impl Fl for C64 { fn c(self) -> (f64, f64) { (self.re, self.im) } fn bad() -> Self { C64::new(f64::NAN, f64::NAN) } }
impl Fl for f32 { fn c(self) -> (f64, f64) { (self as f64, 0.0) } fn bad() -> Self { f32::NAN } }
impl Fl for C32 { fn c(self) -> (f64, f64) { (self.re as f64, self.im as f64) } fn bad() -> Self { C32::new(f32::NAN, f32::NAN) } }
pub fn scaled(z: (f64, f64), s: f64) -> (i64, i64) {
    let f = |x: f64| if x.is_nan() { NAN } else if (x * s).abs() > 1.9e9 { INF } else { (x * s).round() as i64 };
    (f(z.0), f(z.1))
}
/// what is called and how; fa, fb: 0 reference, 1 view, 2 owned, 3 mutable borrow
pub struct Call { op: &'static str, fa: usize, fb: usize, uplo: Option<FlagUpLo>, plain: bool, inf: bool, s: i64, itype: i32, full: bool, hermi: bool, np: usize, driver: &'static str, tol: f64, wrong: bool, subset: usize }

type Mat = Vec<(i64, i64)>;
fn rnd(r: &mut Rng, n: usize, lim: i64, cplx: bool) -> Mat {
    (0..n).map(|_| (r.int(-lim, lim), if cplx { r.int(-lim, lim) } else { 0 })).collect()
}
fn mul(a: &Mat, b: &Mat, m: usize, k: usize, n: usize) -> Mat {
    (0..m * n).map(|q| { let (i, j) = (q / n, q % n); (0..k).fold((0, 0), |s, l| { let (x, y) = (a[i * k + l], b[l * n + j]); (s.0 + x.0 * y.0 - x.1 * y.1, s.1 + x.0 * y.1 + x.1 * y.0) }) }).collect()
}
fn ct(a: &Mat, m: usize, n: usize) -> Mat { (0..m * n).map(|q| { let (i, j) = (q / m, q % m); let x = a[j * n + i]; (x.0, -x.1) }).collect() }
/// a positive definite matrix l l^H; unit: l has ones on its diagonal
fn posdef(r: &mut Rng, n: usize, lim: i64, cplx: bool, unit: bool) -> Mat {
    let mut l = rnd(r, n * n, lim, cplx);
    for i in 0..n { for j in i..n { l[i * n + j] = if i == j { (if unit { 1 } else { r.int(1, 3) }, 0) } else { (0, 0) } } }
    mul(&l, &ct(&l, n, n), n, n, n)
}
/// whatever lies in the triangle that must not be read
fn garbage(r: &mut Rng, a: &mut Mat, n: usize, lower: bool, cplx: bool) {
    for i in 0..n { for j in 0..n { if (lower && j > i) || (!lower && j < i) { a[i * n + j] = (r.int(-9, 9), if cplx { r.int(-9, 9) } else { 0 }); } } }
}
fn ev(r: &mut Rng) -> J {
    let o = *r.pick(&ORD);
    let blas = BLAS;
    let cplx = r.chance(45);
    let single = match SINGLE { Some(x) => x, None => r.chance(25) };
    let nt = r.us(1, 4);
    let op: &'static str = if blas { *r.pick(&["det", "inv", "cholesky", "solve_general", "solve_triangular", "solve_symmetric", "solve_symmetric", "slogdet", "eigh", "eigvalsh", "eighg", "eighgx", "eighx", "eigvalshg", "eigvalshx", "eigvalshgx", "svd", "svdvals", "svdx", "svdvalsx", "pinv"]) }
        else { *r.pick(&["det", "inv", "cholesky", "solve_general", "solve_triangular", "eigh", "eigvalsh", "eighg", "svd", "svdvals", "pinv"]) };
    let gen = matches!(op, "eighg" | "eighgx" | "eigvalshg" | "eigvalshgx");
    let svd = matches!(op, "svd" | "svdvals" | "svdx" | "svdvalsx" | "pinv");
    let lim = if svd || gen { 2 } else { 3 };
    let n = if r.chance(4) { 0 } else { r.us(1, if svd || gen { 3 } else { 4 }) };
    let m = if svd { r.us(1, 3) } else { n };
    let full = r.chance(50);
    let uplo = if r.chance(60) { Some(if r.chance(50) { FlagUpLo::L } else { FlagUpLo::U }) } else { None };
    let lower = match uplo { Some(FlagUpLo::L) => true, Some(_) => false, None => o == FlagOrder::C };
    let hermi = op != "solve_symmetric" || r.chance(50);
    let argx = op.ends_with('x');
    let itype = if uplo.is_none() && gen && !argx { 1 } else if r.chance(3) { *r.pick(&[0, 4, -1]) } else { r.int(1, 3) as i32 };
    let wrong = argx && r.chance(3);
    let subset = if argx && op.starts_with('e') && r.chance(4) { r.us(1, 2) } else { 0 };
    let driver = match op { "eighx" | "eigvalshx" => *r.pick(&["ev", "ev", "evd", "evd", "", "gv"]), "eighgx" | "eigvalshgx" => *r.pick(&["gv", "gv", "gvd", "gvd", "", "ev"]), "svdx" | "svdvalsx" => *r.pick(&["gesvd", "gesdd", "gesvd", "gesdd", "", "gesvdx"]), _ => "" };
    let mut am = rnd(r, m * n, lim, cplx);
    let mut sa = vec![m, n];
    let mut bm: Mat = vec![];
    let mut sb: Vec<usize> = vec![];
    match op {
        "cholesky" => { am = posdef(r, n, 2, cplx, false); if r.chance(10) && n > 0 { let i = r.us(0, n - 1); am[i * n + i].0 -= 9; } garbage(r, &mut am, n, lower, cplx); },
        "eigh" | "eigvalsh" | "eighx" | "eigvalshx" => { for i in 0..n { am[i * n + i].1 = 0; } garbage(r, &mut am, n, lower, cplx); },
        "eighg" | "eighgx" | "eigvalshg" | "eigvalshgx" => { for i in 0..n { am[i * n + i].1 = 0; } garbage(r, &mut am, n, lower, cplx);
            bm = posdef(r, n, 1, cplx, true); garbage(r, &mut bm, n, lower, cplx); sb = vec![n, n]; },
        "solve_general" | "solve_triangular" | "solve_symmetric" => {
            if op == "solve_triangular" { for i in 0..n { am[i * n + i] = (*r.pick(&[1, 1, -1, 2, 3]), 0); } }
            if op == "solve_symmetric" && hermi { for i in 0..n { am[i * n + i].1 = 0; } }
            if op != "solve_general" { garbage(r, &mut am, n, lower, cplx); }
            sb = if r.chance(35) { vec![n] } else { vec![n, r.us(1, 4)] };
            bm = rnd(r, prod(&sb), 3, cplx);
        },
        "pinv" | "svd" | "svdvals" | "svdx" | "svdvalsx" => if m * n > 1 && r.chance(35) { let k = n.min(m) - 1; let (x, y) = (rnd(r, m * k, 1, cplx), rnd(r, k * n, 1, cplx)); am = if cplx && k > 1 { am } else { mul(&x, &y, m, k, n) }; },
        _ => (),
    }
    // ill-formed requests
    if r.chance(5) {
        match r.us(0, 2) {
            0 if !svd => { sa = vec![m, n + 1]; am = rnd(r, m * (n + 1), lim, cplx); },
            1 => { sa = if r.chance(50) { vec![m * n] } else { vec![1, m, n] }; },
            _ => if !sb.is_empty() && !gen { sb[0] += 1; bm = rnd(r, prod(&sb), 3, cplx); },
        }
    }
    let s = match op { _ if gen => 128, "inv" | "solve_general" | "solve_symmetric" => 256, "eigvalsh" | "svdvals" | "eigvalshx" | "svdvalsx" => 64, "det" | "slogdet" => 64, _ => 1024 };
    let fa = match r.us(0, 3) { 3 if !blas && !op.starts_with("solve") => 1, x => x };
    let fb = r.us(0, 3);
    let (ma, mb) = (fa == 3 && !svd && !(gen && !argx), fb == 3 && (op.starts_with("solve") || (gen && argx)));
    let c = Call { op, fa, fb, uplo, plain: r.chance(50), inf: if op.ends_with('x') { false } else { r.chance(30) }, s, itype, full, hermi, np: m.min(n), driver, tol: if single { 1e-4 } else { 1e-9 }, wrong, subset };
    // matrices whose triangle or definiteness matters are not broadcast
    let la = Lay::random(r, &sa, !ma && (svd || matches!(op, "det" | "slogdet" | "inv" | "solve_general")));
    let lb = Lay::random(r, &sb, !mb && !gen);
    let foreign = !sb.is_empty() && r.chance(3);
    let o2 = if foreign { if o == FlagOrder::C { FlagOrder::F } else { FlagOrder::C } } else { o };
    let ctx = if r.chance(15) { r.us(1, 4) } else { 0 };
    macro_rules! go { ($T:ty, $m:path, $d:expr, $d2:expr) => {{
        use $m as m;
        // broadcast layouts repeat elements: what the matrix holds is read back
        let mut a = Ti::<$T>::newc(la, |p| am[p]);
        let mut b = Ti::<$T>::newc(lb, |p| bm.get(p).copied().unwrap_or((0, 0)));
        let (ja, jb) = (a.jc(), b.jc());
        let (ka, kb) = (a.buf.clone(), b.buf.clone());
        set_ctx(ctx);
        let res = m::call(&c, &mut a, &mut b, &$d, &$d2);
        set_ctx(0);
        let same = |x: &Vec<$T>, y: &Vec<$T>| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.c().0.to_bits() == q.c().0.to_bits() && p.c().1.to_bits() == q.c().1.to_bits());
        let gaps = |x: &Ti<$T>, y: &Vec<$T>| { let ad: std::collections::HashSet<i64> = addrs(&x.lay.sh, &x.lay.st, x.lay.of, usize::MAX).into_iter().map(|v| v as i64).collect();
            x.buf.len() == y.len() && (0..y.len()).all(|i| ad.contains(&(i as i64)) || x.buf[i] == y[i]) };
        let now = |x: &Ti<$T>| { let z: Vec<(i64, i64)> = x.vals().iter().map(|v| scaled(v.c(), s as f64)).collect(); jo! { v: z.iter().map(|q| q.0).collect::<Vec<_>>(), im: z.iter().map(|q| q.1).collect::<Vec<_>>() } };
        (ja, jb, same(&a.buf, &ka), same(&b.buf, &kb), gaps(&a, &ka), gaps(&b, &kb), now(&a), now(&b), res)
    }} }
    let (ja, jb, same_a, same_b, gaps_a, gaps_b, na, nb, res) = dispatch!(go, single, cplx, nt, o, o2);
    jo! { e: op, dev: if blas { "openblas" } else { "faer" }, cplx: cplx, single: single, o: oname(o), nt: nt, ctx: ctx, S: s, fa: fa, fb: fb, mut_a: ma, mut_b: mb, inf: c.inf, foreign: foreign,
        lower: lower, uplo: match uplo { None => "", Some(FlagUpLo::L) => "L", _ => "U" }, hermi: hermi, itype: itype, full: full, driver: driver, plain: c.plain, wrong: wrong, subset: subset, a: ja, b: jb,
        same_a: same_a, same_b: same_b, gaps_a: gaps_a, gaps_b: gaps_b, after_a: na, after_b: nb, r: res }
}
