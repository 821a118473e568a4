// One request, on a device of either convention, for one device type B (elements are f64).
fn keep<R: DataAPI<Data = Vec<T>>, D: DimAPI>(t: &TensorAny<R, T, B, D>) -> Out
where
    R: DataAPI,
{
    let o = obs(t);
    if !o.inb { return Out { oob: true, ..Out::default() } }
    let buf: Vec<T> = t.raw().clone();
    let (st, of) = (o.st.clone(), o.of);
    Out { sh: o.sh.clone(), v: o.vals.iter().map(|x| x.ti()).collect(), o: oname(t.device().default_order()), ti: Some(Ti { lay: Lay { sh: o.sh, st, of, len: buf.len() }, buf }), ..Out::default() }
}
fn enc<R: DataAPI<Data = Vec<U>>, U: Clone + 'static, D: DimAPI>(t: &TensorAny<R, U, B, D>, f: impl Fn(U) -> i64) -> Out where B: DeviceAPI<U, Raw = Vec<U>> {
    let sh: Vec<usize> = t.shape().as_ref().to_vec();
    let ad = addrs(&sh, t.stride().as_ref(), t.offset(), 1 << 20);
    let raw = t.raw();
    if ad.iter().any(|&a| a < 0 || a as usize >= raw.len()) { return Out { oob: true, ..Out::default() } }
    Out { v: ad.iter().map(|&a| f(raw[a as usize].clone())).collect(), sh, o: oname(t.device().default_order()), ..Out::default() }
}
fn num(x: i64) -> Out { Out { v: vec![x], ..Out::default() } }
fn seq(v: Vec<i64>) -> Out { Out { sh: vec![v.len()], v, ..Out::default() } }
fn fl(x: f64) -> i64 { if x.is_nan() { NAN } else if x.is_infinite() { INF } else { (x * 1000.37).round() as i64 } }
fn ob(x: bool) -> i64 { x as i64 }
fn us(x: usize) -> i64 { x as i64 }
macro_rules! ok1 { ($e:expr) => { run(|| $e.map(|t| vec![keep(&t)])) } }
macro_rules! pk1 { ($e:expr) => { run_p(|| vec![keep(&$e)]) } }
macro_rules! red { ($how:expr, $t:expr, $ax:expr, $enc:expr, $all:ident, $axes:ident, $axesf:ident) => { match $ax {
    None if $how % 2 == 0 => run_p(|| vec![num($enc($t.$all()))]),
    None => run(|| $t.$axesf(None).map(|x| vec![enc(&x, $enc)])),
    Some(v) if $how % 2 == 0 => run_p(|| vec![enc(&$t.$axes(v.clone()), $enc)]),
    Some(v) => run(|| rt::$axesf(&$t, &v[..]).map(|x| vec![enc(&x, $enc)])),
} } }
pub fn exec(op: &str, how: usize, q: &Q, ins: &mut [Ti<T>], ds: &[B]) -> Res<Vec<Out>> {
    let d = &ds[0];
    let d2 = ds.get(1).unwrap_or(d);
    let dv: Vec<B> = (0..ins.len()).map(|i| ds.get(i).unwrap_or(d).clone()).collect();
    let sh = || q.sh.iter().map(|&x| x as isize).collect::<Vec<isize>>();
    let ush = || q.sh.iter().map(|&x| x as usize).collect::<Vec<usize>>();
    let ax: Option<Vec<isize>> = if q.none { None } else { Some(q.ax.iter().map(|&x| x as isize).collect()) };
    let a1 = q.a as isize;
    for k in [1, 2, 4, 6, 8, 12, 24] { poison::<T>(k); }
    if let Some(vop) = &q.v {
        let mut b = ins[0].buf.clone();
        let l = ins[0].lay.layout();
        let h = [0, 1, 2, 3, 10, 11, 20, 21][how % 8];
        return match viewop::exec(vop, &mut b, &l, d, h, how >= 8) {
            Res::Ok((l, _)) => {
                let o = obs_raw(&b, &l);
                if !o.inb { return Res::Ok(vec![Out { oob: true, ..Out::default() }]) }
                Res::Ok(vec![Out { sh: o.sh.clone(), v: o.vals.iter().map(|x| x.ti()).collect(), ti: Some(Ti { lay: Lay { sh: o.sh, st: o.st, of: o.of, len: b.len() }, buf: b }), ..Out::default() }])
            },
            Res::Err(e) => Res::Err(e),
            Res::Panic(e) => Res::Panic(e),
        };
    }
    macro_rules! bin { ($op:tt, $f:ident) => { match how % 5 {
        0 => pk1!(&ins[0].view::<B>(d) $op &ins[1].view::<B>(d2)),
        1 => ok1!(rt::$f(ins[0].owned::<B>(d), ins[1].view::<B>(d2))),
        2 => pk1!(ins[0].view::<B>(d) $op ins[1].owned::<B>(d2)),
        3 => ok1!(rt::$f(&ins[0].owned::<B>(d), &ins[1].owned::<B>(d2))),
        _ => pk1!(ins[0].owned::<B>(d) $op ins[1].owned::<B>(d2)),
    } } }
    macro_rules! asg { ($op:tt) => {{ let b = ins[1].clone(); let t = &mut ins[0];
        let r = run_p(|| { let mut m = t.view_mut::<B>(d); m $op &b.view::<B>(d2); });
        r.map(|_| vec![keep(&t.view::<B>(d))]) }} }
    macro_rules! cmp { ($f:ident) => { run(|| rt::$f(&ins[0].view::<B>(d), &ins[1].view::<B>(d2)).map(|x| vec![enc(&x, ob)])) } }
    let t = |i: usize| ins[i].view::<B>(d);
    match op {
        "reshape" => match how % 4 {
            0 => ok1!(t(0).reshape_f(sh())),
            1 => pk1!(t(0).into_shape(sh())),
            2 => ok1!(ins[0].owned::<B>(d).into_shape_f(sh())),
            _ => pk1!(rt::to_shape(&t(0), sh())),
        },
        "contig" => { let o = if q.order == "C" { FlagOrder::C } else { FlagOrder::F }; match how % 3 { 0 => ok1!(t(0).to_contig_f(o)), 1 => pk1!(t(0).into_contig(o)), _ => ok1!(ins[0].owned::<B>(d).change_contig_f(o)) } },
        "copy" => match how % 4 { 0 => pk1!(t(0).to_owned()), 1 => pk1!(t(0).into_owned()), 2 => ok1!(rt::asarray_f((&t(0), TensorIterOrder::default()))), _ => pk1!(ins[0].owned::<B>(d).into_shared()) },
        "add" => bin!(+, add_f),
        "sub" => bin!(-, sub_f),
        "mul" => bin!(*, mul_f),
        "addeq" => asg!(+=),
        "subeq" => asg!(-=),
        "muleq" => asg!(*=),
        "assign" => { let b = ins[1].clone(); let t = &mut ins[0]; let r = run(|| t.view_mut::<B>(d).assign_f(&b.view::<B>(d2))); r.map(|_| vec![keep(&t.view::<B>(d))]) },
        "without" => { // ins[2] is the output
            let (x, y) = (ins[0].clone(), ins[1].clone());
            let z = &mut ins[2];
            let r = run(|| rt::sub_with_output_f(&x.view::<B>(d), &y.view::<B>(d2), z.view_mut::<B>(d)));
            r.map(|_| vec![keep(&z.view::<B>(d))])
        },
        "scal" => match how % 3 { 0 => pk1!(t(0) * 2.0 - 3.0), 1 => pk1!(3.0 - &t(0)), _ => pk1!(-ins[0].owned::<B>(d)) },
        "map" => match how % 2 { 0 => ok1!(t(0).map_f(|x| x * 2.0 + 1.0)), _ => pk1!(ins[0].owned::<B>(d).mapv(|x| x * 2.0 + 1.0)) },
        "mapb" => match how % 2 { 0 => ok1!(t(0).mapb_f(&ins[1].view::<B>(d2), |x, y| x * 3.0 - y)), _ => pk1!(t(0).mapvb(&ins[1].view::<B>(d2), |x, y| x * 3.0 - y)) },
        "max" => ok1!(rt::maximum_f(&t(0), &ins[1].view::<B>(d2))),
        "lt" => cmp!(less_f),
        "ge" => cmp!(greater_equal_f),
        "eq" => cmp!(equal_f),
        "r_sum" => red!(how, t(0), ax, |x: T| x.ti(), sum_all, sum_axes, sum_axes_f),
        "r_min" => red!(how, t(0), ax, |x: T| x.ti(), min_all, min_axes, min_axes_f),
        "r_max" => red!(how, t(0), ax, |x: T| x.ti(), max_all, max_axes, max_axes_f),
        "r_mean" => red!(how, t(0), ax, fl, mean_all, mean_axes, mean_axes_f),
        "r_var" => red!(how, t(0), ax, fl, var_all, var_axes, var_axes_f),
        "r_std" => red!(how, t(0), ax, fl, std_all, std_axes, std_axes_f),
        "r_norm" => red!(how, t(0), ax, fl, l2_norm_all, l2_norm_axes, l2_norm_axes_f),
        "r_cnz" => red!(how, t(0), ax, us, count_nonzero_all, count_nonzero_axes, count_nonzero_axes_f),
        "argmin" => run(|| t(0).argmin_axes_f(a1).map(|x| vec![enc(&x, us)])),
        "argmax" => run(|| t(0).argmax_axes_f(a1).map(|x| vec![enc(&x, us)])),
        "uargmin" => run(|| t(0).unraveled_argmin_all_f().map(|x| vec![Out { ix: true, sh: vec![x.len()], v: x.iter().map(|&i| i as i64).collect(), ..Out::default() }])),
        "uargmax" => run(|| t(0).unraveled_argmax_all_f().map(|x| vec![Out { ix: true, sh: vec![x.len()], v: x.iter().map(|&i| i as i64).collect(), ..Out::default() }])),
        "matmul" => match how % 5 {
            0 => ok1!(rt::matmul_f(&t(0), &ins[1].view::<B>(d2))),
            1 => pk1!(t(0) % ins[1].view::<B>(d2)),
            2 => ok1!(ins[0].owned::<B>(d).matmul_f(ins[1].owned::<B>(d2))),
            3 if ins[0].lay.sh.len() == 2 && ins[1].lay.sh.len() == 2 => ok1!(rt::matmul_f(&t(0).into_dim::<Ix2>(), &ins[1].view::<B>(d2).into_dim::<Ix2>())),
            _ => pk1!(rt::matmul(&ins[0].owned::<B>(d), ins[1].view::<B>(d2))),
        },
        "mm_from" => {
            let (x, y) = (ins[0].clone(), ins[1].clone());
            let z = &mut ins[2];
            let r = run(|| rt::matmul_from_f(z.view_mut::<B>(d), &x.view::<B>(d), &y.view::<B>(d2), 2.0, -1.0));
            r.map(|_| vec![keep(&z.view::<B>(d))])
        },
        "vecdot" => match how % 2 { 0 => ok1!(rt::vecdot_f(t(0), ins[1].view::<B>(d2), a1)), _ => pk1!(t(0).vecdot(&ins[1].view::<B>(d2), a1)) },
        "concat" => { let v: Vec<_> = ins.iter().zip(&dv).map(|(x, e)| x.view::<B>(e)).collect(); match how % 2 { 0 => ok1!(rt::concat_f((v, a1))), _ => pk1!(rt::concat((&v, a1))) } },
        "stack" => { let v: Vec<_> = ins.iter().zip(&dv).map(|(x, e)| x.view::<B>(e)).collect(); match how % 2 { 0 => ok1!(rt::stack_f((v, a1))), _ => pk1!(rt::stack((&v, a1))) } },
        "unstack" => run(|| rt::unstack_f((t(0), a1)).map(|v| v.iter().map(|x| keep(x)).collect())),
        "meshgrid" => { let v: Vec<_> = ins.iter().zip(&dv).map(|(x, e)| x.view::<B>(e)).collect(); run(|| rt::meshgrid_f((&v, "ij", how % 2 == 0)).map(|v| v.iter().map(|x| keep(x)).collect())) },
        "select" => { let ix: Vec<isize> = q.idx.iter().map(|&x| x as isize).collect(); match how % 2 { 0 => ok1!(t(0).index_select_f(a1, &ix)), _ => pk1!(rt::take(&t(0), ix, a1)) } },
        "mask" => { let m: Vec<bool> = q.idx.iter().map(|&x| x == 1).collect(); ok1!(t(0).bool_select_f(a1, m)) },
        "diag" => ok1!(rt::diag_f((&t(0), q.diag as isize))),
        "tri" => { let k = q.diag as isize; match (q.uplo, how % 2) {
            ("L", 0) => ok1!(rt::tril_f((&t(0), k))), ("L", _) => { let z = &mut ins[0]; let r = run(|| rt::tril_f((z.view_mut::<B>(d), k)).map(|_| ())); r.map(|_| vec![keep(&z.view::<B>(d))]) },
            (_, 0) => pk1!(rt::triu((t(0), k))), _ => { let z = &mut ins[0]; let r = run(|| rt::triu_f((z.view_mut::<B>(d), k)).map(|_| ())); r.map(|_| vec![keep(&z.view::<B>(d))]) },
        } },
        "pack" => { let u = if q.uplo == "L" { FlagUpLo::L } else { FlagUpLo::U }; ok1!(t(0).pack_tri_f(u)) },
        "unpack" => { let u = if q.uplo == "L" { FlagUpLo::L } else { FlagUpLo::U }; let y = match q.symm { "Sy" => FlagSymm::Sy, "Ay" => FlagSymm::Ay, _ => FlagSymm::N }; ok1!(t(0).unpack_tri_f(u, y)) },
        "eye" => { let s = ush(); let x: Res<Tensor<T, B, IxD>> = run(|| rt::eye_f((s[0], s[1], q.diag as isize, d))); x.map(|t| vec![keep(&t)]) },
        "zeros" => { let x: Res<Tensor<T, B, IxD>> = match how % 3 { 0 => run(|| rt::zeros_f((ush(), d))), 1 => run_p(|| rt::ones((ush(), d))), _ => run(|| rt::full_f((ush(), 7.0, d))) }; x.map(|t| vec![keep(&t)]) },
        "like" => match how % 3 { 0 => ok1!(t(0).zeros_like_f()), 1 => pk1!(t(0).ones_like()), _ => ok1!(t(0).full_like_f(5.0)) },
        "fill" => match how % 4 {
            0 => run(|| { let v: Vec<T> = (0..q.n).map(|x| x as T).collect(); rt::asarray_f((v, ush(), d)).map(|t| vec![keep(&t)]) }),
            1 => run(|| { let v: Vec<T> = (0..q.n).map(|x| x as T).collect(); rt::asarray_f((&v, ush(), d)).map(|t: TensorView<'_, T, B, IxD>| vec![keep(&t)]) }),
            2 => run(|| { let x: Tensor<T, B, IxD> = rt::arange_f((0.0, q.n as T, 1.0, d))?; x.into_shape_f(sh()).map(|t| vec![keep(&t)]) }),
            _ => run(|| { let x: Tensor<T, B, IxD> = rt::linspace_f((0.0, (q.n - 1) as T, q.n as usize, d))?; x.reshape_f(sh()).map(|t| vec![keep(&t.mapv(|x| x.round()))]) }),
        },
        "iter" => match how % 5 {
            0 => run(|| t(0).iter_f().map(|i| vec![seq(i.map(|x| x.ti()).collect())])),
            1 => { let z = &mut ins[0]; run(|| z.view_mut::<B>(d).iter_mut_f().map(|i| vec![seq(i.map(|x| x.ti()).collect())])) },
            2 => { let o = if q.order == "C" { TensorIterOrder::C } else { TensorIterOrder::F }; run_p(|| vec![seq(t(0).iter_with_order(o).map(|x| x.ti()).collect())]) },
            3 => { use rayon::prelude::*; run(|| t(0).iter_f().map(|i| vec![seq(i.into_par_iter().map(|x| x.ti()).collect())])) },
            _ => run(|| t(0).indexed_iter_f().map(|i| vec![seq(i.map(|(_, x)| x.ti()).collect())])),
        },
        "index" => run(|| t(0).indexed_iter_f().map(|i| i.map(|(k, _)| Out { ix: true, sh: vec![k.len()], v: k.iter().map(|&x| x as i64).collect(), ..Out::default() }).collect())),
        "axes_iter" => {
            let ax = ax.clone().unwrap_or_default();
            match how % 4 {
                0 => run(|| t(0).axes_iter_f(ax).map(|i| i.map(|x| keep(&x)).collect())),
                1 => { let o = if q.order == "C" { TensorIterOrder::C } else { TensorIterOrder::F }; run_p(|| t(0).axes_iter_with_order(ax, o).map(|x| keep(&x)).collect()) },
                2 => run(|| t(0).indexed_axes_iter_f(ax).map(|i| i.map(|(_, x)| keep(&x)).collect())),
                _ => { let z: &'static mut Ti<T> = Box::leak(Box::new(ins[0].clone())); let m = Box::leak(Box::new(z.view_mut::<B>(d))); run(|| m.axes_iter_mut_f(ax).map(|i| i.map(|x| keep(&x)).collect())) },
            }
        },
        "bcast" => run(|| { let v: Vec<_> = ins.iter().zip(&dv).map(|(x, e)| x.view::<B>(e)).collect(); rt::broadcast_arrays_f(v).map(|v| v.iter().map(|x| keep(x)).collect()) }),
        "allclose" => run(|| rt::allclose_f(&t(0), &ins[1].view::<B>(d2), None).map(|x| vec![num(x as i64)])),
        _ => unreachable!("{op}"),
    }
}
