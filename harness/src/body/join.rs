// Joining, splitting and selecting for one concrete element type T and device type B.
fn views<'a>(ts: &'a [Ti<T>], ds: &[B]) -> Vec<TensorView<'a, T, B, IxD>> {
    ts.iter().zip(ds).map(|(t, d)| t.view::<B>(d)).collect()
}
fn owneds(ts: &[Ti<T>], ds: &[B]) -> Vec<Tensor<T, B, IxD>> {
    ts.iter().zip(ds).map(|(t, d)| t.owned::<B>(d)).collect()
}
/// refs to views, as a slice of fixed length
macro_rules! arr { ($v:expr, $n:literal) => {{ let x: [_; $n] = $v.try_into().unwrap_or_else(|_| unreachable!()); x }} }
macro_rules! join_forms { ($f:ident, $g:ident, $how:expr, $ts:expr, $ds:expr, $ax:expr) => {{
    let (ts, ds, ax): (&[Ti<T>], &[B], Option<isize>) = ($ts, $ds, $ax);
    let n = ts.len();
    match (ax, $how) {
        (None, 0) => run(|| rt::$f(views(ts, ds))).map(|t| obs(&t)),
        (None, 1) => run_p(|| rt::$g(&owneds(ts, ds))).map(|t| obs(&t)),
        (None, 2) if n == 2 => run(|| rt::$f(arr!(views(ts, ds), 2))).map(|t| obs(&t)),
        (None, 3) => run_p(|| { let v = views(ts, ds); rt::$g(v.iter().collect::<Vec<_>>()) }).map(|t| obs(&t)),
        (None, 4) if n == 3 => run_p(|| { let v = owneds(ts, ds); rt::$g(arr!(v.iter().collect::<Vec<_>>(), 3)) }).map(|t| obs(&t)),
        (None, _) => run(|| { let v = owneds(ts, ds); rt::$f(&v.iter().collect::<Vec<_>>()) }).map(|t| obs(&t)),
        (Some(a), 0) => run(|| rt::$f((views(ts, ds), a))).map(|t| obs(&t)),
        (Some(a), 1) => run_p(|| rt::$g((owneds(ts, ds), a))).map(|t| obs(&t)),
        (Some(a), 2) => run(|| rt::$f((&owneds(ts, ds), a as i32))).map(|t| obs(&t)),
        (Some(a), 3) => run_p(|| { let v = views(ts, ds); rt::$g((v.iter().collect::<Vec<_>>(), a as i32)) }).map(|t| obs(&t)),
        (Some(a), 4) if n == 2 => run(|| rt::$f((arr!(owneds(ts, ds), 2), a))).map(|t| obs(&t)),
        (Some(a), 4) if n == 3 => run_p(|| { let v = owneds(ts, ds); rt::$g((arr!(v.iter().collect::<Vec<_>>(), 3), a as i32)) }).map(|t| obs(&t)),
        (Some(a), _) if a >= 0 => run(|| { let v = owneds(ts, ds); rt::$f((&v.iter().collect::<Vec<_>>(), a as usize)) }).map(|t| obs(&t)),
        (Some(a), _) => run(|| { let v = owneds(ts, ds); rt::$f((&v.iter().collect::<Vec<_>>(), a)) }).map(|t| obs(&t)),
    }
}} }
macro_rules! join_forms0 { ($f:ident, $g:ident, $how:expr, $ts:expr, $ds:expr) => {{
    let (ts, ds): (&[Ti<T>], &[B]) = ($ts, $ds);
    let n = ts.len();
    match $how {
        0 => run(|| rt::$f(views(ts, ds))).map(|t| obs(&t)),
        1 => run_p(|| rt::$g(&owneds(ts, ds))).map(|t| obs(&t)),
        2 if n == 2 => run(|| rt::$f(arr!(views(ts, ds), 2))).map(|t| obs(&t)),
        3 => run_p(|| { let v = views(ts, ds); rt::$g(v.iter().collect::<Vec<_>>()) }).map(|t| obs(&t)),
        4 if n == 3 => run_p(|| { let v = owneds(ts, ds); rt::$g(arr!(v.iter().collect::<Vec<_>>(), 3)) }).map(|t| obs(&t)),
        _ => run(|| { let v = owneds(ts, ds); rt::$f(&v.iter().collect::<Vec<_>>()) }).map(|t| obs(&t)),
    }
}} }
/// does this form of call panic instead of returning an error
pub fn join_inf(how: usize, n: usize) -> bool { how == 1 || how == 3 || (how == 4 && n == 3) }
pub fn join(op: &str, how: usize, ts: &[Ti<T>], ds: &[B], ax: Option<isize>) -> J {
    for k in [1, 2, 4, 8, 12, 24] { poison::<T>(k); }
    let x: Res<Obs<T>> = match op {
        "concat" => if how == 0 && ts.len() == 1 { run(|| rt::concatenate_f((views(ts, ds), ax.unwrap_or(0)))).map(|t| obs(&t)) } else { join_forms!(concat_f, concat, how, ts, ds, ax) },
        "stack" => join_forms!(stack_f, stack, how, ts, ds, ax),
        "hstack" => join_forms0!(hstack_f, hstack, how, ts, ds),
        _ => join_forms0!(vstack_f, vstack, how, ts, ds),
    };
    res_j(&x)
}
fn parts(x: Res<Vec<Obs<T>>>) -> J {
    match x {
        Res::Ok(v) => {
            if v.iter().any(|o| !o.inb) { return jo! { k: "oob" } }
            jo! { k: "ok", parts: J::A(v.iter().map(|o| jo! { sh: &o.sh, v: jv(&o.vals) }).collect()) }
        },
        _ => jo! { k: x.kind(), msg: x.msg() },
    }
}
pub fn unstack(how: usize, a: &Ti<T>, ax: Option<isize>, d: &B) -> J {
    macro_rules! o { ($v:expr) => { $v.iter().map(|t| obs(t)).collect::<Vec<_>>() } }
    macro_rules! st { ($D:ty) => { run(|| rt::unstack_f((a.view::<B>(d).into_dim::<$D>(), ax.unwrap_or(0))).map(|v| o!(v))) } }
    parts(match (ax, how) {
        (_, 4) if a.lay.sh.len() == 2 => st!(Ix2),
        (_, 4) if a.lay.sh.len() == 1 => st!(Ix1),
        (_, 4) if a.lay.sh.len() == 3 => st!(Ix3),
        (None, 0) => run(|| rt::unstack_f(a.view::<B>(d)).map(|v| o!(v))),
        (None, 1) => run_p(|| o!(rt::unstack(&a.owned::<B>(d)))),
        (Some(x), 1) => run_p(|| o!(rt::unstack((a.view::<B>(d), x)))),
        (Some(x), 0) => run(|| { let t = a.owned::<B>(d); rt::unstack_f((&t, x)).map(|v| o!(v)) }),
        (None, _) => run(|| { let t = a.owned::<B>(d); rt::unstack_f(&t).map(|v| o!(v)) }),
        (Some(x), _) => run(|| rt::unstack_f((a.view::<B>(d), x)).map(|v| o!(v))),
    })
}
pub fn grid(how: usize, ts: &[Ti<T>], ds: &[B], ind: Option<&str>, copy: Option<bool>) -> J {
    macro_rules! o { ($v:expr) => { $v.iter().map(|t| obs(t)).collect::<Vec<_>>() } }
    let n = ts.len();
    parts(match (ind, copy, how) {
        (Some(i), Some(c), 0) => run(|| rt::meshgrid_f((views(ts, ds), i, c)).map(|v| o!(v))),
        (Some(i), Some(c), 1) => run_p(|| o!(rt::meshgrid((&owneds(ts, ds), i, c)))),
        (Some(i), Some(c), 2) if n == 2 => run(|| { let v = owneds(ts, ds); rt::meshgrid_f((arr!(v.iter().collect::<Vec<_>>(), 2), i, c)).map(|v| o!(v)) }),
        (Some(i), Some(c), _) => run(|| { let v = owneds(ts, ds); rt::meshgrid_f((&v.iter().collect::<Vec<_>>(), i, c)).map(|v| o!(v)) }),
        (None, Some(c), 0) => run(|| rt::meshgrid_f((views(ts, ds), c)).map(|v| o!(v))),
        (None, Some(c), 1) => run_p(|| { let v = owneds(ts, ds); o!(rt::meshgrid((v.iter().collect::<Vec<_>>(), c))) }),
        (None, Some(c), 2) if n == 3 => run(|| rt::meshgrid_f((arr!(views(ts, ds), 3), c)).map(|v| o!(v))),
        (None, Some(c), _) => run(|| rt::meshgrid_f((&owneds(ts, ds), c)).map(|v| o!(v))),
        (None, None, 0) => run(|| rt::meshgrid_f(views(ts, ds)).map(|v| o!(v))),
        (None, None, 1) => run_p(|| o!(rt::meshgrid(&owneds(ts, ds)))),
        (None, None, 2) if n == 2 => run(|| { let v = owneds(ts, ds); rt::meshgrid_f(arr!(v.iter().collect::<Vec<_>>(), 2)).map(|v| o!(v)) }),
        (None, None, _) => run(|| { let v = owneds(ts, ds); rt::meshgrid_f(&v.iter().collect::<Vec<_>>()).map(|v| o!(v)) }),
        (Some(_), None, _) => unreachable!(),
    })
}
pub fn diag(how: usize, a: &Ti<T>, off: isize, d: &B) -> J {
    for k in [1, 2, 4, 8, 9, 16] { poison::<T>(k); }
    res_j(&match (how, off) {
        (0, _) => run(|| rt::diag_f((&a.view::<B>(d), off))).map(|t| obs(&t)),
        (1, _) => run_p(|| rt::diag((&a.owned::<B>(d), off))).map(|t| obs(&t)),
        (_, 0) => run(|| rt::diag_f(&a.view::<B>(d))).map(|t| obs(&t)),
        (2, _) if a.lay.sh.len() == 2 => run(|| rt::diag_f((&a.view::<B>(d).into_dim::<Ix2>(), off))).map(|t| obs(&t)),
        (_, _) if a.lay.sh.len() == 1 => run(|| rt::diag_f((&a.view::<B>(d).into_dim::<Ix1>(), off))).map(|t| obs(&t)),
        _ => run(|| rt::diag_f((&a.owned::<B>(d), off))).map(|t| obs(&t)),
    })
}
pub fn atleast(how: usize, a: &Ti<T>, n: usize, d: &B) -> J {
    res_j(&match (n, how) {
        (1, 0) => run(|| rt::atleast_1d_f(&a.view::<B>(d)).map(|t| obs(&t))),
        (1, 1) => run(|| a.owned::<B>(d).atleast_1d_f().map(|t| obs(&t))),
        (1, _) => run_p(|| obs(&rt::into_atleast_1d(a.owned::<B>(d)))),
        (2, 0) => run_p(|| obs(&rt::atleast_2d(&a.view::<B>(d)))),
        (2, 1) => run_p(|| obs(&a.owned::<B>(d).atleast_2d())),
        (2, _) => run(|| rt::into_atleast_2d_f(a.owned::<B>(d)).map(|t| obs(&t))),
        (_, 0) => run(|| rt::atleast_3d_f(&a.view::<B>(d)).map(|t| obs(&t))),
        (_, 1) => run_p(|| obs(&a.owned::<B>(d).atleast_3d())),
        (_, _) => run_p(|| obs(&rt::into_atleast_3d(a.view::<B>(d)))),
    })
}
pub const SEL_INF: [usize; 5] = [1, 3, 5, 7, 9];
pub fn sel(how: usize, a: &Ti<T>, ax: isize, idx: &[isize], d: &B) -> J {
    for k in [1, 2, 4, 8, 12, 24] { poison::<T>(k); }
    let i32s = || idx.iter().map(|&x| x as i32).collect::<Vec<i32>>();
    let v = |_: ()| a.view::<B>(d);
    macro_rules! st { ($D:ty) => { run(|| rt::index_select_f(&v(()).into_dim::<$D>(), ax, idx)).map(|t| obs(&t)) } }
    let pos = idx.iter().all(|&x| x >= 0);
    res_j(&match how {
        0 => run(|| v(()).index_select_f(ax, idx)).map(|t| obs(&t)),
        1 => run_p(|| a.owned::<B>(d).index_select(ax, idx.to_vec())).map(|t| obs(&t)),
        2 => run(|| rt::take_f(&v(()), i32s(), ax)).map(|t| obs(&t)),
        3 => run_p(|| v(()).take(&i32s(), ax)).map(|t| obs(&t)),
        4 if pos => run(|| { let u: Vec<usize> = idx.iter().map(|&x| x as usize).collect(); rt::index_select_f(&v(()), ax, &u) }).map(|t| obs(&t)),
        5 if idx.len() == 1 => run_p(|| rt::take(&v(()), idx[0], ax)).map(|t| obs(&t)),
        5 => run_p(|| rt::index_select(&v(()), ax, &idx.to_vec())).map(|t| obs(&t)),
        6 if idx.len() == 3 => run(|| a.owned::<B>(d).take_f([idx[0] as i32, idx[1] as i32, idx[2] as i32], ax)).map(|t| obs(&t)),
        7 if idx.len() == 2 => run_p(|| a.owned::<B>(d).take([idx[0], idx[1]], ax)).map(|t| obs(&t)),
        7 => run_p(|| rt::take(&v(()), idx, ax)).map(|t| obs(&t)),
        8 if a.lay.sh.len() == 1 => st!(Ix1),
        8 if a.lay.sh.len() == 2 => st!(Ix2),
        8 if a.lay.sh.len() == 3 => st!(Ix3),
        9 => run_p(|| { let m = idx.to_vec(); let it = rt::asarray((m, &Ser::default())); it_sel(&v(()), ax, &it) }).map(|t| obs(&t)),
        _ => run(|| v(()).index_select_f(ax, idx.to_vec())).map(|t| obs(&t)),
    })
}
pub const MASK_INF: [usize; 2] = [1, 3];
pub fn mask(how: usize, a: &Ti<T>, ax: isize, m: &[bool], d: &B) -> J {
    for k in [1, 2, 4, 8, 12, 24] { poison::<T>(k); }
    let v = |_: ()| a.view::<B>(d);
    res_j(&match how {
        0 => run(|| v(()).bool_select_f(ax, m)).map(|t| obs(&t)),
        1 => run_p(|| a.owned::<B>(d).bool_select(ax, m.to_vec())).map(|t| obs(&t)),
        2 => run(|| rt::bool_select_f(&v(()), ax, &m.to_vec())).map(|t| obs(&t)),
        3 if m.len() == 2 => run_p(|| rt::bool_select(&v(()), ax, [m[0], m[1]])).map(|t| obs(&t)),
        3 => run_p(|| rt::bool_select(&v(()), ax, m)).map(|t| obs(&t)),
        _ => run(|| a.owned::<B>(d).bool_select_f(ax, m)).map(|t| obs(&t)),
    })
}
fn it_sel(t: &TensorView<'_, T, B, IxD>, ax: isize, it: &Tensor<isize, Ser, IxD>) -> Tensor<T, B, IxD> {
    rt::index_select(t, ax, it.raw())
}
