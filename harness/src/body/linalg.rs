// Linear algebra for one element type T and device type B.  BLAS: whether the device offers
// the forms that only the BLAS devices offer.
pub fn encm<R: DataAPI<Data = Vec<X>>, X: Fl, D: DimAPI>(t: &TensorAny<R, X, B, D>, s: f64) -> J where B: DeviceAPI<X, Raw = Vec<X>> {
    let sh: Vec<usize> = t.shape().as_ref().to_vec();
    let st: Vec<isize> = t.stride().as_ref().to_vec();
    let ad = addrs(&sh, &st, t.offset(), 1 << 20);
    let len = t.raw().len();
    if ad.iter().any(|&a| a < 0 || a as usize >= len) { return jo! { k: "oob", sh: sh } }
    let z: Vec<(i64, i64)> = ad.iter().map(|&a| scaled(t.raw()[a as usize].c(), s)).collect();
    jo! { k: "ok", sh: sh, v: z.iter().map(|x| x.0).collect::<Vec<_>>(), im: z.iter().map(|x| x.1).collect::<Vec<_>>() }
}
fn reals<D: DimAPI>(w: &TensorView<'_, R, B, D>) -> (Vec<usize>, Vec<f64>) {
    let sh: Vec<usize> = w.shape().as_ref().to_vec();
    let st: Vec<isize> = w.stride().as_ref().to_vec();
    let v = addrs(&sh, &st, w.offset(), 1 << 20).iter().map(|&i| w.raw()[i as usize] as f64).collect();
    (sh, v)
}
fn refused<X>(x: Res<X>) -> J { jo! { k: x.kind(), msg: x.msg() } }
/// the value of an infallible or fallible call
macro_rules! go { ($inf:expr, $ff:ident, $f:ident, $args:expr) => { if $inf { run_p(|| $f($args)) } else { run(|| $ff($args)) } } }
macro_rules! one { ($c:expr, $a:expr, $d:expr; $x:ident => $e:expr) => { match $c.fa {
    0 => { let t = $a.view::<B>($d); let $x = &t; $e }
    1 => { let $x = $a.view::<B>($d); $e }
    2 => { let $x = $a.owned::<B>($d); $e }
    _ => mutarm!({ let $x = $a.view_mut::<B>($d); $e }),
} } }
/// forms of the operand without mutable borrows, for routines that do not offer them
macro_rules! one3 { ($c:expr, $a:expr, $d:expr; $x:ident => $e:expr) => { match $c.fa {
    0 | 3 => { let t = $a.view::<B>($d); let $x = &t; $e }
    1 => { let $x = $a.view::<B>($d); $e }
    _ => { let $x = $a.owned::<B>($d); $e }
} } }
macro_rules! two { ($c:expr, $a:expr, $b:expr, $d:expr, $d2:expr; $x:ident, $y:ident => $e:expr) => {{
    macro_rules! second { ($xx:ident) => { match $c.fb {
        0 => { let t = $b.view::<B>($d2); let ($x, $y) = ($xx, &t); $e }
        1 => { let ($x, $y) = ($xx, $b.view::<B>($d2)); $e }
        2 => { let ($x, $y) = ($xx, $b.owned::<B>($d2)); $e }
        _ => { let ($x, $y) = ($xx, $b.view_mut::<B>($d2)); $e }
    } } }
    match $c.fa {
        0 => { let t = $a.view::<B>($d); let x = &t; second!(x) }
        1 => { let x = $a.view::<B>($d); second!(x) }
        2 => { let x = $a.owned::<B>($d); second!(x) }
        _ => { let x = $a.view_mut::<B>($d); second!(x) }
    }
}} }
macro_rules! pair { ($a:expr, $b:expr, $d:expr, $d2:expr, $c:expr; $x:ident, $y:ident => $e:expr) => { match ($c.fa % 2, $c.fb % 2) {
    (0, 0) => { let (s, t) = ($a.view::<B>($d), $b.view::<B>($d2)); let ($x, $y) = (&s, &t); $e }
    (0, _) => { let (s, t) = ($a.view::<B>($d), $b.view::<B>($d2)); let ($x, $y) = (&s, t); $e }
    (_, 0) => { let (s, t) = ($a.view::<B>($d), $b.view::<B>($d2)); let ($x, $y) = (s, &t); $e }
    _ => { let (s, t) = ($a.view::<B>($d), $b.view::<B>($d2)); let ($x, $y) = (s, t); $e }
} } }
fn num(x: Res<T>, s: f64) -> J { match x { Res::Ok(v) => { let z = scaled(v.c(), s); jo! { k: "ok", v: vec![z.0], im: vec![z.1] } } x => refused(x) } }
/// eigenvalues or singular values: scaled, and their first powers
fn vals(v: &[f64], n: usize, s: f64, sq: bool) -> J {
    let p: Vec<i64> = (1..=n).map(|k| scaled((v.iter().map(|x| if sq { x * x } else { *x }.powi(k as i32)).sum::<f64>(), 0.0), s).0).collect();
    jo! { k: "ok", w: v.iter().map(|x| scaled((*x, 0.0), s).0).collect::<Vec<_>>(), p: p }
}
pub fn call(c: &Call, a: &mut Ti<T>, b: &mut Ti<T>, d: &B, d2: &B) -> J {
    let s = c.s as f64;
    let inf = c.inf;
    let up = c.uplo;
    let lu = up.unwrap_or(FlagUpLo::L);
    let n = a.lay.sh.first().copied().unwrap_or(0);
    macro_rules! matrix { ($x:expr) => { match $x { Res::Ok(t) => encm(&t, s), x => refused(x) } } }
    macro_rules! values { ($x:expr, $n:expr, $sq:expr) => { match $x { Res::Ok(t) => { let v: Vec<f64> = addrs(t.shape(), t.stride(), t.offset(), 1 << 20).iter().map(|&i| t.raw()[i as usize] as f64).collect(); vals(&v, $n, s, $sq).with("sh", t.shape().to_vec()) } x => refused(x) } } }
    macro_rules! eigen { ($x:expr) => { match $x { Res::Ok(t) => { let (w, v) = (t.eigenvalues, t.eigenvectors);
        let (ws, wv) = reals(&w.view());
        vals(&wv, n, s, false).with("sh", ws).with("vec", encm(&v, s)) } x => refused(x) } } }
    match c.op {
        "det" => num(one!(c, a, d; x => go!(inf, det_f, det, x)), s),
        "inv" => one!(c, a, d; x => matrix!(go!(inf, inv_f, inv, x))),
        "cholesky" => match (up, c.plain) {
            (None, false) => one!(c, a, d; x => matrix!(go!(inf, cholesky_f, cholesky, x))),
            (Some(u), true) => one!(c, a, d; x => matrix!(go!(inf, cholesky_f, cholesky, (x, u)))),
            _ => one!(c, a, d; x => matrix!(go!(inf, cholesky_f, cholesky, (x, up)))),
        },
        "solve_general" => two!(c, a, b, d, d2; x, y => matrix!(go!(inf, solve_general_f, solve_general, (x, y)))),
        "solve_triangular" => match (up, c.plain) {
            (None, false) => two!(c, a, b, d, d2; x, y => matrix!(go!(inf, solve_triangular_f, solve_triangular, (x, y)))),
            (Some(u), true) => two!(c, a, b, d, d2; x, y => matrix!(go!(inf, solve_triangular_f, solve_triangular, (x, y, u)))),
            _ => two!(c, a, b, d, d2; x, y => matrix!(go!(inf, solve_triangular_f, solve_triangular, (x, y, up)))),
        },
        "eigh" => match up {
            None => one!(c, a, d; x => eigen!(go!(inf, eigh_f, eigh, x))),
            Some(u) => one!(c, a, d; x => eigen!(go!(inf, eigh_f, eigh, (x, u)))),
        },
        "eigvalsh" => match up {
            None => one!(c, a, d; x => values!(go!(inf, eigvalsh_f, eigvalsh, x), n, false)),
            Some(u) => one!(c, a, d; x => values!(go!(inf, eigvalsh_f, eigvalsh, (x, u)), n, false)),
        },
        "eighg" => match (up, c.itype) {
            (None, _) => pair!(a, b, d, d2, c; x, y => eigen!(go!(inf, eigh_f, eigh, (x, y)))),
            (Some(u), 1) if c.plain => pair!(a, b, d, d2, c; x, y => eigen!(go!(inf, eigh_f, eigh, (x, y, u)))),
            (Some(u), k) => pair!(a, b, d, d2, c; x, y => eigen!(go!(inf, eigh_f, eigh, (x, y, u, k)))),
        },
        "svdvals" => one3!(c, a, d; x => values!(go!(inf, svdvals_f, svdvals, x), c.np, true)),
        "svd" => {
            macro_rules! sv { ($x:expr) => { match $x { Res::Ok(t) => { let (u, w, vt) = (t.u, t.s, t.vt);
                let (ws, wv) = reals(&w.view());
                vals(&wv, c.np, s, true).with("sh", ws).with("u", encm(&u, s)).with("vt", encm(&vt, s)) } x => refused(x) } } }
            if c.plain && c.full { one3!(c, a, d; x => sv!(go!(inf, svd_f, svd, x))) }
            else { let full = c.full; one3!(c, a, d; x => sv!(go!(inf, svd_f, svd, (x, full)))) }
        },
        "pinv" => {
            macro_rules! pi { ($x:expr) => { match $x { Res::Ok(t) => { let (x, rank) = (t.pinv, t.rank); encm(&x, s).with("rank", rank) } x => refused(x) } } }
            if c.plain { one3!(c, a, d; x => pi!(go!(inf, pinv_f, pinv, x))) }
            else { one3!(c, a, d; x => pi!(go!(inf, pinv_f, pinv, (x, c.tol as R, c.tol as R)))) }
        },
        _ => blas_call(c, a, b, d, d2, up, lu, s, inf, n),
    }
}
