// Linear algebra on the BLAS devices in the precision FR (see bin/linalg.rs, bin/linalgs.rs).
macro_rules! dispatch { ($go:ident, $single:expr, $cplx:expr, $nt:expr, $o:expr, $o2:expr) => { match ($single, $cplx) {
    (_, false) => $go!(FR, self::od, obl($nt, $o), obl($nt, $o2)),
    (_, true) => $go!(FC, self::oz, obl($nt, $o), obl($nt, $o2)),
} } }
include!("la.rs");
use rstsr_openblas::DeviceOpenBLAS;
use rstsr_blas_traits::prelude::{GEMM, SYHEMM, TRSM};
use vh::dev::{FlagDiag, FlagSide, FlagTrans};
pub type Obl = DeviceOpenBLAS;
pub fn obl(n: usize, o: FlagOrder) -> Obl { let mut d = Obl::new(n); d.set_default_order(o); d }
const BLAS: bool = true;
macro_rules! blas { () => {
    fn blas_call(c: &Call, a: &mut Ti<T>, b: &mut Ti<T>, d: &B, d2: &B, up: Option<FlagUpLo>, lu: FlagUpLo, s: f64, inf: bool, n: usize) -> J {
        macro_rules! matrix { ($x:expr) => { match $x { Res::Ok(t) => encm(&t, s), x => refused(x) } } }
        match c.op {
            "slogdet" => match one!(c, a, d; x => go!(inf, slogdet_f, slogdet, x)) {
                Res::Ok(r) => { let (sg, l) = (r.sign, r.logabsdet); let z = scaled(sg.c(), 1024.0); jo! { k: "ok", v: vec![z.0], im: vec![z.1], abs: scaled((l.exp() as f64, 0.0), s).0 } }
                x => refused(x),
            },
            "solve_symmetric" => { let h = c.hermi; match (up, c.plain) {
                (Some(u), true) => two!(c, a, b, d, d2; x, y => matrix!(go!(inf, solve_symmetric_f, solve_symmetric, (x, y, h, u)))),
                (None, true) => two!(c, a, b, d, d2; x, y => matrix!(go!(inf, solve_symmetric_f, solve_symmetric, (x, y, h)))),
                (Some(u), false) if h => two!(c, a, b, d, d2; x, y => matrix!(go!(inf, solve_symmetric_f, solve_symmetric, (x, y, u)))),
                (None, false) if h => two!(c, a, b, d, d2; x, y => matrix!(go!(inf, solve_symmetric_f, solve_symmetric, (x, y)))),
                _ => two!(c, a, b, d, d2; x, y => matrix!(go!(inf, solve_symmetric_f, solve_symmetric, (x, y, h, up)))),
            } }
            // through explicit argument structures, with every driver
            _ => {
                let vs = |w: &Tensor<R, B, Ix1>, sq: bool, np: usize| -> J {
                    let (ws, wv) = reals(&w.view());
                    vals(&wv, np, s, sq).with("sh", ws) };
                match c.op {
                    "eighx" | "eighgx" | "eigvalshx" | "eigvalshgx" => {
                        let gen = c.op.contains('g') && c.op.ends_with("gx");
                        let only = c.op.starts_with("eigvals") != c.wrong;
                        let r = run(|| {
                            let bld = EighArgs::<B, T>::default();
                            let bld = if c.fa == 3 { bld.a(a.view_mut::<B>(d).into_dim_f::<Ix2>()?) } else { bld.a(a.view::<B>(d).into_dim_f::<Ix2>()?) };
                            let bld = if c.driver.is_empty() { bld } else { bld.driver(c.driver) };
                            let bld = if up.is_some() || c.plain { bld.uplo(up) } else { bld };
                            let bld = if only { bld.eigvals_only(true) } else { bld };
                            let bld = if gen { if c.fb == 3 { bld.b(b.view_mut::<B>(d2).into_dim_f::<Ix2>()?) } else { bld.b(b.view::<B>(d2).into_dim_f::<Ix2>()?) }.eig_type(c.itype) } else { bld };
                            let bld = match c.subset { 1 => bld.subset_by_index((0, 0)), 2 => bld.subset_by_value((-1.0 as R, 1.0 as R)), _ => bld };
                            if c.op.starts_with("eigvals") {
                                let w = eigvalsh_f(bld.build()?)?;
                                Ok::<J, vh::dev::Error>(vs(&w, false, n))
                            } else {
                                let t = eigh_f(bld.build()?)?;
                                Ok(vs(&t.eigenvalues, false, n).with("vec", encm(&t.eigenvectors.view(), s)))
                            }
                        });
                        match r { Res::Ok(j) => j, x => refused(x) }
                    },
                    "svdx" | "svdvalsx" => {
                        let va = a.view::<B>(d);
                        let uv = (c.op == "svdx") != c.wrong;
                        let r = run(|| {
                            let bld = SVDArgs::<B, T>::default().a(va.into_dim_f::<Ix2>()?);
                            let bld = if uv { if c.full && c.plain { bld } else { bld.full_matrices(c.full) } } else { bld.full_matrices(None) };
                            let bld = if c.driver.is_empty() { bld } else { bld.driver(c.driver) };
                            if c.op == "svdx" {
                                let t = svd_f(bld.build()?)?;
                                Ok::<J, vh::dev::Error>(vs(&t.s, true, c.np).with("u", encm(&t.u, s)).with("vt", encm(&t.vt, s)))
                            } else {
                                let w = svdvals_f(bld.build()?)?;
                                Ok(vs(&w, true, c.np))
                            }
                        });
                        match r { Res::Ok(j) => j, x => refused(x) }
                    },
                    "eigvalshg" => {
                        macro_rules! values { ($x:expr) => { match $x { Res::Ok(t) => { let v: Vec<f64> = addrs(t.shape(), t.stride(), t.offset(), 1 << 20).iter().map(|&i| t.raw()[i as usize] as f64).collect(); vals(&v, n, s, false).with("sh", t.shape().to_vec()) } x => refused(x) } } }
                        match (up, c.itype) {
                            (None, _) => pair!(a, b, d, d2, c; x, y => values!(go!(inf, eigvalsh_f, eigvalsh, (x, y)))),
                            (Some(u), 1) if c.plain => pair!(a, b, d, d2, c; x, y => values!(go!(inf, eigvalsh_f, eigvalsh, (x, y, u)))),
                            (Some(u), k) => pair!(a, b, d, d2, c; x, y => values!(go!(inf, eigvalsh_f, eigvalsh, (x, y, u, k)))),
                        }
                    },
                    _ => unreachable!("{}", c.op),
                }
            }
        }
    }
} }
/// the level-3 builders; only the CBLAS devices offer them
pub struct B3 { op: &'static str, order: Option<FlagOrder>, ta: usize, tb: usize, right: bool, uplo: Option<FlagUpLo>, unit: bool, alpha: (i64, i64), beta: (i64, i64), hasc: bool, mutb: bool, s: i64 }
const TR: [FlagTrans; 4] = [FlagTrans::N, FlagTrans::T, FlagTrans::C, FlagTrans::CN];
const TRN: [&str; 4] = ["N", "T", "C", "CN"];
macro_rules! blas3 { ($hemm:literal) => {
    pub fn call3(q: &B3, a: &Ti<T>, b: &mut Ti<T>, c: &mut Ti<T>, d: &B, d2: &B, d3: &B) -> J {
        let s = q.s as f64;
        let (al, be) = (<T as El>::fc(q.alpha.0, q.alpha.1), <T as El>::fc(q.beta.0, q.beta.1));
        let side = if q.right { FlagSide::R } else { FlagSide::L };
        let r: Res<J> = run(|| {
            let va = a.view::<B>(d).into_dim_f::<Ix2>()?;
            macro_rules! symm { ($h:literal) => {{
                let vb = b.view::<B>(d2).into_dim_f::<Ix2>()?;
                let mut x = SYHEMM::<B, T, $h>::default().a(va).b(vb).alpha(al).beta(be).side(side).uplo(q.uplo.unwrap_or(FlagUpLo::L));
                if q.hasc { x = x.c(c.view_mut::<B>(d3).into_dim_f::<Ix2>()?); }
                if let Some(o) = q.order { x = x.order(o); }
                let t = x.build()?.run()?;
                Ok(encm(&t.view(), s))
            }} }
            match q.op {
                "gemm" => {
                    let vb = b.view::<B>(d2).into_dim_f::<Ix2>()?;
                    let mut x = GEMM::<B, T>::default().a(va).b(vb).alpha(al).beta(be).transa(TR[q.ta]).transb(TR[q.tb]);
                    if q.hasc { x = x.c(c.view_mut::<B>(d3).into_dim_f::<Ix2>()?); }
                    if let Some(o) = q.order { x = x.order(o); }
                    let t = x.build()?.run()?;
                    Ok(encm(&t.view(), s))
                },
                "symm" => symm!(false),
                "hemm" => symm!($hemm),
                _ => {
                    let x = TRSM::<B, T>::default().a(va).alpha(al).side(side).uplo(q.uplo).transa(TR[q.ta]).diag(if q.unit { FlagDiag::U } else { FlagDiag::N });
                    let x = if q.mutb { x.b(b.view_mut::<B>(d2).into_dim_f::<Ix2>()?) } else { x.b(b.view::<B>(d2).into_dim_f::<Ix2>()?) };
                    let x = match q.order { Some(o) => x.order(o), None => x };
                    let t = x.build()?.run()?;
                    Ok::<J, vh::dev::Error>(encm(&t.view(), s))
                },
            }
        });
        match r { Res::Ok(j) => j, x => refused(x) }
    }
} }
macro_rules! mutarm { ($e:expr) => { $e } }
pub mod od { use super::*; use vh::dev::Ix1; type T = FR; type R = FR; type B = Obl; include!("../body/linalg.rs"); blas!(); blas3!(false); }
pub mod oz { use super::*; use vh::dev::Ix1; type T = FC; type R = FR; type B = Obl; include!("../body/linalg.rs"); blas!(); blas3!(true); }

/// level-3 builders with every flag
fn ev3(r: &mut Rng) -> J {
    let o = *r.pick(&ORD);
    let cplx = r.chance(50);
    let single = SINGLE == Some(true);
    let nt = r.us(1, 4);
    let op: &'static str = *r.pick(&["gemm", "gemm", "symm", "hemm", "trsm", "trsm"]);
    let dim = |r: &mut Rng| if r.chance(5) { 0 } else { r.us(1, 4) };
    let (m, n, k) = (dim(r), dim(r), dim(r));
    let (ta, tb) = if r.chance(2) { (r.us(0, 3), 3) } else if r.chance(2) { (3, r.us(0, 2)) } else { (r.us(0, 2), r.us(0, 2)) };
    let right = r.chance(50);
    let unit = r.chance(40);
    let uplo = if op == "trsm" && r.chance(30) { None } else { Some(if r.chance(50) { FlagUpLo::L } else { FlagUpLo::U }) };
    let lower = match uplo { Some(FlagUpLo::L) => true, Some(_) => false, None => o == FlagOrder::C };
    let num = |r: &mut Rng| (r.int(-2, 2), if cplx { r.int(-2, 2) } else { 0 });
    let alpha = if r.chance(30) { (1, 0) } else { num(r) };
    let beta = match r.us(0, 2) { 0 => (0, 0), 1 => (1, 0), _ => num(r) };
    let hasc = op != "trsm" && r.chance(70);
    let mutb = op == "trsm" && r.chance(50);
    let order = if r.chance(40) { Some(*r.pick(&ORD)) } else { None };
    let q = if right { n } else { m };
    let (mut sa, mut sb, mut sc) = match op {
        "gemm" => (if ta == 0 || ta == 3 { vec![m, k] } else { vec![k, m] }, if tb == 0 || tb == 3 { vec![k, n] } else { vec![n, k] }, vec![m, n]),
        _ => (vec![q, q], vec![m, n], vec![m, n]),
    };
    if r.chance(6) {
        match r.us(0, 5) { 0 => sa[0] += 1, 1 => sa[1] += 1, 2 => sb[0] += 1, 3 => sb[1] += 1, 4 => sc[0] += 1, _ => sc[1] += 1 }
    }
    let mut am = rnd(r, prod(&sa), 3, cplx);
    if op == "trsm" && sa[0] == sa[1] { for i in 0..sa[0] { am[i * sa[0] + i] = (*r.pick(&[1, 1, -1, 2, 3]), 0); } }
    // the diagonal of a Hermitian matrix is real
    if op == "hemm" && sa[0] == sa[1] { for i in 0..sa[0] { am[i * sa[0] + i].1 = 0; } }
    let bm = rnd(r, prod(&sb), 3, cplx);
    let cm = rnd(r, prod(&sc), 3, cplx);
    let la = Lay::random(r, &sa, op == "gemm");
    let lb = Lay::random(r, &sb, !mutb);
    let lc = Lay::random(r, &sc, false);
    let wild = hasc && beta == (0, 0) && r.chance(50);
    let foreign = r.chance(3);
    let o2 = if foreign { if o == FlagOrder::C { FlagOrder::F } else { FlagOrder::C } } else { o };
    let (ob, oc) = if hasc && r.chance(50) { (o, o2) } else { (o2, o) };
    let ctx = if r.chance(10) { r.us(1, 4) } else { 0 };
    let s = if op == "trsm" { 256 } else { 1 };
    let q = B3 { op, order, ta, tb, right, uplo, unit, alpha, beta, hasc, mutb, s };
    macro_rules! go { ($T:ty, $m:path) => {{
        use $m as m;
        let a = Ti::<$T>::newc(la, |p| am[p]);
        let mut b = Ti::<$T>::newc(lb, |p| bm[p]);
        let mut c = Ti::<$T>::newc(lc, |p| cm[p]);
        if wild { for x in c.buf.iter_mut() { *x = <$T as Fl>::bad(); } }
        let (ja, jb, jc) = (a.jc(), b.jc(), if wild { jo! { sh: sc.clone(), st: vec![0i64; 2], v: vec![0i64; prod(&sc)], im: vec![0i64; if cplx { prod(&sc) } else { 0 }] } } else { c.jc() });
        let (ka, kb, kc) = (a.buf.clone(), b.buf.clone(), c.buf.clone());
        set_ctx(ctx);
        let res = m::call3(&q, &a, &mut b, &mut c, &obl(nt, o), &obl(nt, ob), &obl(nt, oc));
        set_ctx(0);
        let bits = |x: &$T, y: &$T| x.c().0.to_bits() == y.c().0.to_bits() && x.c().1.to_bits() == y.c().1.to_bits();
        let same = |x: &Vec<$T>, y: &Vec<$T>| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| bits(p, q));
        let gaps = |x: &Ti<$T>, y: &Vec<$T>| { let ad: std::collections::HashSet<i64> = addrs(&x.lay.sh, &x.lay.st, x.lay.of, usize::MAX).into_iter().map(|v| v as i64).collect();
            x.buf.len() == y.len() && (0..y.len()).all(|i| ad.contains(&(i as i64)) || bits(&x.buf[i], &y[i])) };
        let now = |x: &Ti<$T>| { let z: Vec<(i64, i64)> = x.vals().iter().map(|v| scaled(v.c(), s as f64)).collect(); jo! { v: z.iter().map(|q| q.0).collect::<Vec<_>>(), im: z.iter().map(|q| q.1).collect::<Vec<_>>() } };
        (ja, jb, jc, same(&a.buf, &ka), same(&b.buf, &kb), same(&c.buf, &kc), gaps(&b, &kb), gaps(&c, &kc), now(&b), now(&c), res)
    }} }
    let (ja, jb, jc, same_a, same_b, same_c, gaps_b, gaps_c, nb, nc, res) = match cplx {
        false => go!(FR, self::od),
        true => go!(FC, self::oz),
    };
    jo! { e: op, dev: "openblas", cplx: cplx, single: single, o: oname(o), order: order.map(oname).unwrap_or(""), nt: nt, ctx: ctx, S: s, inf: false, foreign: foreign,
        ta: TRN[ta], tb: TRN[tb], right: right, unit: unit, uplo: match uplo { None => "", Some(FlagUpLo::L) => "L", _ => "U" }, lower: lower, alpha: vec![alpha.0, alpha.1], beta: vec![beta.0, beta.1],
        hasc: hasc, mutb: mutb, wild: wild, a: ja, b: jb, c: jc, same_a: same_a, same_b: same_b, same_c: same_c, gaps_b: gaps_b, gaps_c: gaps_c, after_b: nb, after_c: nc, r: res }
}
fn main() {
    let a = args();
    let mut out = Out::create(&a.out);
    let mut r = Rng::new(a.seed.wrapping_mul(911) + 5);
    let n = if a.thorough { 7 * N } else { N };
    let mut evs = vec![];
    for _ in 0..n {
        evs.push(if r.chance(40) { ev3(&mut r) } else { ev(&mut r) });
        if evs.len() >= 40 { out.session(std::mem::take(&mut evs)); }
    }
    if !evs.is_empty() { out.session(evs); }
    out.finish();
}
