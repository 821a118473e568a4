// One request in its fallible and its infallible form, on one device type B (elements are f64).
fn keep<R, D: DimAPI>(t: &TensorAny<R, T, B, D>) -> Out
where
    R: DataAPI<Data = Vec<T>>,
{
    let sh: Vec<usize> = t.shape().as_ref().to_vec();
    let n = sh.iter().fold(1u128, |a, &d| a.saturating_mul(d as u128));
    if n > 5000 { return Out { sh, huge: true, ..Out::default() } }
    if n == 0 { return Out { sh: sh.iter().map(|&d| d.min(1_000_000_000)).collect(), ..Out::default() } }
    let o = obs(t);
    if !o.inb { return Out { oob: true, ..Out::default() } }
    Out { sh: o.sh, v: o.vals.iter().map(|x| x.ti()).collect(), ..Out::default() }
}
fn keep1<R, D: DimAPI>(t: &TensorAny<R, T, B, D>) -> Vec<Out> where R: DataAPI<Data = Vec<T>> { vec![keep(t)] }
fn seq(v: Vec<i64>) -> Vec<Out> { vec![Out { sh: vec![v.len()], v, ..Out::default() }] }
fn shape_of<R, U, D: DimAPI>(t: &TensorAny<R, U, B, D>) -> Vec<Out> where R: DataAPI<Data = Vec<U>>, B: DeviceAPI<U, Raw = Vec<U>> { vec![Out { sh: t.shape().as_ref().to_vec(), nov: true, ..Out::default() }] }
fn none(v: Vec<Out>) -> Vec<Out> { v.into_iter().map(|o| Out { sh: o.sh, nov: true, oob: o.oob, ..Out::default() }).collect() }
type RR = (Res<Vec<Out>>, Res<Vec<Out>>);
/// the two forms of one call; `?` reports a refused conversion of arguments
macro_rules! both { ($x:ident => $f:expr, $i:expr) => {{
    let a = run(|| -> Result<Vec<Out>> { #[allow(unused_variables)] let $x = (); $f });
    let b = run_p(|| $i);
    (a, b)
}} }
pub fn exec(op: &str, how: usize, q: &Q, ins: &mut [Ti<T>], d: &B, d2: &B) -> RR {
    let (pre, post) = ins.split_at_mut(1);
    let t = || pre[0].view::<B>(d);
    let u = |i: usize| post[i - 1].view::<B>(d2);
    let ax = || q.ax.axes();
    let ax2 = || q.ax2.axes();
    macro_rules! one { ($f:ident, $i:ident) => { match how % 2 {
        0 => both!(x => Ok(keep1(&rt::$f(&t(), ax()?)?)), keep1(&rt::$i(&t(), ax().unwrap()))),
        _ => both!(x => Ok(keep1(&t().$f(ax()?)?)), keep1(&t().$i(ax().unwrap()))),
    } } }
    macro_rules! red { ($f:ident, $i:ident, $k:expr) => { both!(x => Ok($k(&t().$f(ax()?)?)), $k(&t().$i(ax().unwrap()))) } }
    match op {
        "slice" => match how % 5 {
            0 => both!(x => Ok(keep1(&t().i_f(q.items()?)?)), keep1(&t().i(q.items().unwrap()))),
            1 => both!(x => Ok(keep1(&t().into_slice_f(q.items()?)?)), keep1(&t().into_slice(q.items().unwrap()))),
            2 => { let mut m = pre[0].clone(); let mut m2 = pre[0].clone(); both!(x => Ok(none(vec![Out { sh: m.view_mut::<B>(d).i_mut_f(q.items()?)?.shape().to_vec(), ..Out::default() }])), none(vec![Out { sh: m2.view_mut::<B>(d).i_mut(q.items().unwrap()).shape().to_vec(), ..Out::default() }])) },
            3 => both!(x => Ok(keep1(&t().slice_f(q.items()?)?)), keep1(&t().slice(q.items().unwrap()))),
            _ => both!(x => Ok(keep1(&rt::slice_f(&t(), q.items()?)?)), keep1(&rt::slice(&t(), q.items().unwrap()))),
        },
        "transpose" => match how % 3 { 0 => one!(transpose_f, transpose), 1 => one!(permute_dims_f, permute_dims), _ => both!(x => Ok(keep1(&t().into_transpose_f(ax()?)?)), keep1(&t().into_transpose(ax().unwrap()))) },
        "mtrans" => both!(x => Ok(keep1(&t().into_matrix_transpose_f()?)), keep1(&t().into_matrix_transpose())),
        "swapaxes" => q.ax.pair(
            |a, b| both!(x => Ok(keep1(&t().swapaxes_f(a, b)?)), keep1(&t().swapaxes(a, b))),
            |a, b| both!(x => Ok(keep1(&t().swapaxes_f(a, b)?)), keep1(&t().into_swapaxes(a, b))),
            |a, b| both!(x => Ok(keep1(&rt::swapaxes_f(&t(), a, b)?)), keep1(&rt::swapaxes(&t(), a, b))),
        ),
        "moveaxis" => both!(x => Ok(keep1(&t().moveaxis_f(ax()?, ax2()?)?)), keep1(&t().moveaxis(ax().unwrap(), ax2().unwrap()))),
        "flip" => one!(flip_f, flip),
        "expand" => match how % 3 { 0 => one!(expand_dims_f, expand_dims), 1 => one!(unsqueeze_f, unsqueeze), _ => both!(x => Ok(keep1(&t().into_expand_dims_f(ax()?)?)), keep1(&t().into_expand_dims(ax().unwrap()))) },
        "squeeze" => one!(squeeze_f, squeeze),
        "diagonal" => {
            macro_rules! di { ($t:ty) => {{ let a: Vec<$t> = q.n.iter().map(|&x| x as $t).collect(); match how % 2 {
                0 => both!(x => Ok(keep1(&t().diagonal_f((a[0], a[1], a[2]))?)), keep1(&t().diagonal((a[0], a[1], a[2])))),
                _ => both!(x => Ok(keep1(&t().into_diagonal_f(a[0])?)), keep1(&t().into_diagonal(a[0]))),
            } }} }
            match q.ity { 0 => di!(isize), 1 => di!(usize), _ => di!(i32) }
        },
        "broadcast" => { let s: Vec<usize> = q.n.iter().map(|&x| x as usize).collect(); let s2 = s.clone(); both!(x => Ok(keep1(&t().to_broadcast_f(s)?)), keep1(&t().to_broadcast(s2))) },
        "reshape" => match how % 4 {
            0 => both!(x => Ok(keep1(&t().reshape_f(ax()?)?)), keep1(&t().reshape(ax().unwrap()))),
            1 => both!(x => Ok(keep1(&t().into_shape_f(ax()?)?)), keep1(&t().into_shape(ax().unwrap()))),
            2 => both!(x => Ok(keep1(&pre[0].owned::<B>(d).change_shape_f(ax()?)?)), keep1(&pre[0].owned::<B>(d).change_shape(ax().unwrap()))),
            _ => both!(x => Ok(keep1(&rt::to_shape_f(&t(), ax()?)?)), keep1(&rt::to_shape(&t(), ax().unwrap()))),
        },
        "intodim" => { let k = q.n[0] as usize;
            macro_rules! dd { ($d:ty) => { both!(x => Ok(keep1(&t().into_dim_f::<$d>()?)), keep1(&t().into_dim::<$d>())) } }
            match k { 0 => dd!(vh::dev::Ix0), 1 => dd!(vh::dev::Ix1), 2 => dd!(vh::dev::Ix2), 3 => dd!(vh::dev::Ix3), _ => dd!(vh::dev::Ix4) } },
        "tovec" => match how % 3 {
            0 => both!(x => Ok(seq(t().to_raw_f()?.iter().map(|x| x.ti()).collect())), seq(t().to_vec().iter().map(|x| x.ti()).collect())),
            1 => both!(x => Ok(seq(pre[0].owned::<B>(d).into_vec_f()?.iter().map(|x| x.ti()).collect())), seq(pre[0].owned::<B>(d).into_vec().iter().map(|x| x.ti()).collect())),
            _ => both!(x => Ok(seq(t().to_raw_f()?.iter().map(|x| x.ti()).collect())), seq(t().to_vec().iter().map(|x| x.ti()).collect())),
        },
        "scalar" => both!(x => Ok(vec![Out { v: vec![t().to_scalar_f()?.ti()], ..Out::default() }]), vec![Out { v: vec![t().to_scalar().ti()], ..Out::default() }]),
        "select" => { let ix: Vec<isize> = q.n.iter().map(|&x| x as isize).collect(); let a = q.ax.v[0] as isize; match how % 3 {
            0 => both!(x => Ok(keep1(&t().index_select_f(a, &ix)?)), keep1(&t().index_select(a, &ix))),
            1 => both!(x => Ok(keep1(&t().take_f(ix.clone(), a)?)), keep1(&t().take(ix.clone(), a))),
            _ => both!(x => Ok(keep1(&rt::index_select_f(&t(), a, ix.clone())?)), keep1(&rt::index_select(&t(), a, ix.clone()))),
        } },
        "selectnone" => both!(x => Ok(keep1(&t().index_select_f(0, ax()?)?)), keep1(&t().index_select(0, ax().unwrap()))),
        "mask" => { let m: Vec<bool> = q.n.iter().map(|&x| x == 1).collect(); let a = q.ax.v[0] as isize; both!(x => Ok(keep1(&t().bool_select_f(a, &m)?)), keep1(&t().bool_select(a, &m))) },
        "unstack" => { let a = q.ax.v[0] as isize; both!(x => Ok(rt::unstack_f((t(), a))?.iter().map(keep).collect()), rt::unstack((t(), a)).iter().map(keep).collect()) },
        "concat" | "stack" => {
            let all = || { let mut v = vec![t()]; for i in 1..=post.len() { v.push(u(i)); } v };
            macro_rules! js { ($a:expr) => { if op == "concat" { both!(x => Ok(keep1(&rt::concat_f((&all(), $a))?)), keep1(&rt::concat((&all(), $a)))) } else { both!(x => Ok(keep1(&rt::stack_f((&all(), $a))?)), keep1(&rt::stack((&all(), $a)))) } } }
            match q.ax.ty { 0 => js!(q.ax.v[0] as isize), 1 => js!(q.ax.v[0] as usize), _ => js!(q.ax.v[0] as i32) }
        },
        "concat0" => { let v: Vec<TensorView<'_, T, B, IxD>> = vec![]; let a = q.ax.v[0] as isize; match how % 2 {
            0 => both!(x => Ok(keep1(&rt::concat_f((&v, a))?)), keep1(&rt::concat((&v, a)))),
            _ => both!(x => Ok(keep1(&rt::stack_f((&v, a))?)), keep1(&rt::stack((&v, a)))),
        } },
        "meshgrid" => { let all = || { let mut v = vec![t()]; for i in 1..=post.len() { v.push(u(i)); } v };
            let ij = if how % 3 == 2 { "zz" } else { "ij" };
            both!(x => Ok(rt::meshgrid_f((&all(), ij, how % 2 == 0))?.iter().map(keep).collect()), rt::meshgrid((&all(), ij, how % 2 == 0)).iter().map(keep).collect()) },
        "sum" => red!(sum_axes_f, sum_axes, keep1),
        "rshape" => match how % 8 {
            0 => red!(min_axes_f, min_axes, shape_of), 1 => red!(max_axes_f, max_axes, shape_of), 2 => red!(prod_axes_f, prod_axes, shape_of), 3 => red!(mean_axes_f, mean_axes, shape_of),
            4 => red!(var_axes_f, var_axes, shape_of), 5 => red!(std_axes_f, std_axes, shape_of), 6 => red!(l2_norm_axes_f, l2_norm_axes, shape_of), _ => red!(count_nonzero_axes_f, count_nonzero_axes, shape_of),
        },
        "argmin" => match how % 2 { 0 => red!(argmin_axes_f, argmin_axes, shape_of), _ => red!(argmax_axes_f, argmax_axes, shape_of) },
        "axes_iter" => match how % 3 {
            0 => both!(x => Ok(t().axes_iter_f(ax()?)?.map(|x| keep(&x)).collect()), t().axes_iter(ax().unwrap()).map(|x| keep(&x)).collect()),
            1 => both!(x => Ok(t().axes_iter_with_order_f(ax()?, TensorIterOrder::C)?.map(|x| keep(&x)).collect()), t().axes_iter_with_order(ax().unwrap(), TensorIterOrder::C).map(|x| keep(&x)).collect()),
            _ => both!(x => Ok(t().indexed_axes_iter_f(ax()?)?.map(|(_, x)| keep(&x)).collect()), t().indexed_axes_iter(ax().unwrap()).map(|(_, x)| keep(&x)).collect()),
        },
        "iterord" => { let o = [TensorIterOrder::C, TensorIterOrder::F, TensorIterOrder::B, TensorIterOrder::K, TensorIterOrder::A, TensorIterOrder::G][how % 6];
            match (how / 6) % 2 { 0 => both!(x => Ok(seq(t().iter_with_order_f(o)?.map(|x| x.ti()).collect())), seq(t().iter_with_order(o).map(|x| x.ti()).collect())),
                _ => both!(x => Ok(seq(t().indexed_iter_with_order_f(o)?.map(|x| x.1.ti()).collect())), seq(t().indexed_iter_with_order(o).map(|x| x.1.ti()).collect())) } },
        "add" => match how % 3 {
            0 => both!(x => Ok(keep1(&rt::add_f(&t() * 10.0, u(1))?)), keep1(&(&t() * 10.0 + u(1)))),
            1 => both!(x => Ok(keep1(&t().mapb_f(&u(1), |x, y| 10.0 * x + y)?)), keep1(&t().mapb(&u(1), |x, y| 10.0 * x + y))),
            _ => both!(x => Ok(keep1(&rt::add_f(&t() * 10.0, &u(1))?)), keep1(&rt::add(&t() * 10.0, &u(1)))),
        },
        "without" => { let w = post[1].clone(); let (mut a, mut b) = (w.clone(), w);
            both!(x => { rt::sub_with_output_f(t(), u(1), a.view_mut::<B>(d))?; Ok(keep1(&a.view::<B>(d))) }, { rt::sub_with_output(t(), u(1), b.view_mut::<B>(d)); keep1(&b.view::<B>(d)) }) },
        "assign" => { let (mut a, mut b) = (pre[0].clone(), pre[0].clone());
            both!(x => { a.view_mut::<B>(d).assign_f(&u(1))?; Ok(keep1(&a.view::<B>(d))) }, { b.view_mut::<B>(d).assign(&u(1)); keep1(&b.view::<B>(d)) }) },
        "matmul" => match how % 2 { 0 => both!(x => Ok(keep1(&rt::matmul_f(t(), u(1))?)), keep1(&rt::matmul(t(), u(1)))), _ => both!(x => Ok(keep1(&t().matmul_f(u(1))?)), keep1(&(t() % u(1)))) },
        "matmulout" => { let w = post[1].clone(); let (mut a, mut b) = (w.clone(), w); match how % 2 {
            0 => both!(x => { rt::matmul_with_output_f(t(), u(1), a.view_mut::<B>(d))?; Ok(keep1(&a.view::<B>(d))) }, { rt::matmul_with_output(t(), u(1), b.view_mut::<B>(d)); keep1(&b.view::<B>(d)) }),
            _ => both!(x => { rt::matmul_from_f(a.view_mut::<B>(d), t(), u(1), 1.0, 0.0)?; Ok(keep1(&a.view::<B>(d))) }, { rt::matmul_from(b.view_mut::<B>(d), t(), u(1), 1.0, 0.0); keep1(&b.view::<B>(d)) }),
        } },
        "vecdot" => q.ax.single(
            |a| both!(x => Ok(keep1(&rt::vecdot_f(t(), u(1), a)?)), keep1(&rt::vecdot(t(), u(1), a))),
            |a| both!(x => Ok(keep1(&t().vecdot_f(u(1), a)?)), keep1(&t().vecdot(u(1), a))),
            |a| both!(x => Ok(keep1(&t().vecdot_f(&u(1), a)?)), keep1(&t().vecdot(&u(1), a))),
        ),
        "vecdot2" => both!(x => Ok(none(keep1(&t().vecdot_f(u(1), (ax()?, ax2()?))?))), none(keep1(&t().vecdot(u(1), (ax().unwrap(), ax2().unwrap()))))),
        "bcast" => both!(x => Ok(rt::broadcast_arrays_f(vec![t(), u(1)])?.iter().map(keep).collect()), rt::broadcast_arrays(vec![t(), u(1)]).iter().map(keep).collect()),
        "allclose" => both!(x => { rt::allclose_f(&t(), &u(1), None)?; Ok(vec![]) }, { let _ = rt::allclose(&t(), &u(1), None); vec![] }),
        "tri" => { let k = q.n[0] as isize; match (q.lower, how % 2) {
            (true, 0) => both!(x => Ok(keep1(&rt::tril_f((&t(), k))?)), keep1(&rt::tril((&t(), k)))), (true, _) => both!(x => Ok(keep1(&rt::tril_f((pre[0].owned::<B>(d), k))?)), keep1(&rt::tril((pre[0].owned::<B>(d), k)))),
            (_, 0) => both!(x => Ok(keep1(&rt::triu_f((&t(), k))?)), keep1(&rt::triu((&t(), k)))), (_, _) => both!(x => Ok(keep1(&rt::triu_f((pre[0].owned::<B>(d), k))?)), keep1(&rt::triu((pre[0].owned::<B>(d), k)))),
        } },
        "diag" => { let k = q.n[0] as isize; both!(x => Ok(keep1(&rt::diag_f((&t(), k))?)), keep1(&rt::diag((&t(), k)))) },
        "pack" => if q.lower { both!(x => Ok(keep1(&t().pack_tril_f()?)), keep1(&t().pack_tril())) } else { both!(x => Ok(keep1(&t().pack_triu_f()?)), keep1(&t().pack_triu())) },
        "unpack" => { use vh::dev::FlagSymm; if q.lower { both!(x => Ok(keep1(&t().unpack_tril_f(FlagSymm::N)?)), keep1(&t().unpack_tril(FlagSymm::N))) } else { both!(x => Ok(keep1(&t().unpack_triu_f(FlagSymm::N)?)), keep1(&t().unpack_triu(FlagSymm::N))) } },
        "index" => { let ix: Vec<usize> = q.n.iter().map(|&x| x as usize).collect();
            let go = || { let o = pre[0].owned::<B>(d); let x = match how % 2 { 0 => o[ix.clone()], _ => t()[ix.clone()] }; vec![Out { v: vec![x.ti()], ..Out::default() }] };
            let a = run_p(go); let b = run_p(go); (match a { Res::Panic(m) => Res::Err(m), x => x }, b) },
        "zeros" => { let s: Vec<usize> = q.n.iter().map(|&x| x as usize).collect();
            macro_rules! z { ($f:expr, $i:expr) => { both!(x => { let x: Tensor<T, B, IxD> = $f?; Ok(keep1(&x)) }, { let x: Tensor<T, B, IxD> = $i; keep1(&x) }) } }
            match how % 4 { 0 => z!(rt::zeros_f((s.clone(), d)), rt::zeros((s.clone(), d))), 1 => z!(rt::ones_f((s.clone(), d)), rt::ones((s.clone(), d))), 2 => z!(rt::full_f((s.clone(), 3.0, d)), rt::full((s.clone(), 3.0, d))),
                _ => { let (a, b) = z!(unsafe { rt::empty_f((s.clone(), d)) }, unsafe { rt::empty((s.clone(), d)) }); (a.map(none), b.map(none)) } } },
        "eye" => { let (n, m, k) = (q.n[0] as usize, q.n[1] as usize, q.n[2] as isize); both!(x => { let x: Tensor<T, B, IxD> = rt::eye_f((n, m, k, d))?; Ok(keep1(&x)) }, { let x: Tensor<T, B, IxD> = rt::eye((n, m, k, d)); keep1(&x) }) },
        "arange" => { type I = vh::dev::Tensor<i64, B, IxD>; let (a, b, c) = (q.n[0] as i64, q.n[1] as i64, q.n[2] as i64);
            let k = |x: &I| vec![Out { sh: x.shape().to_vec(), v: x.raw().to_vec(), ..Out::default() }];
            both!(x => { let x: I = rt::arange_f((a, b, c, d))?; Ok(k(&x)) }, { let x: I = rt::arange((a, b, c, d)); k(&x) }) },
        "linspace" => { let n = q.n[0] as usize; both!(x => { let x: Tensor<T, B, IxD> = rt::linspace_f((0.0, 5.0, n, d))?; Ok(none(keep1(&x))) }, { let x: Tensor<T, B, IxD> = rt::linspace((0.0, 5.0, n, d)); none(keep1(&x)) }) },
        "asarray" => { let s: Vec<usize> = q.n.iter().map(|&x| x as usize).collect(); let v: Vec<T> = (0..q.len).map(|x| x as T).collect();
            both!(x => { let x: Tensor<T, B, IxD> = rt::asarray_f((v.clone(), s.clone(), d))?; Ok(keep1(&x)) }, { let x: Tensor<T, B, IxD> = rt::asarray((v.clone(), s.clone(), d)); keep1(&x) }) },
        _ => unreachable!("{op}"),
    }
}
