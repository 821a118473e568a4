// Pairwise distances for one element type T, weight type W and device type B.
pub fn enc<O: El>(x: Res<Tensor<O, B, IxD>>, f: impl Fn(f64) -> f64, s: f64) -> J
where B: DeviceAPI<O, Raw = Vec<O>>, O: num::ToPrimitive {
    match x {
        Res::Ok(t) => {
            let len = t.raw().len();
            let ad = addrs(t.shape(), t.stride(), t.offset(), 1 << 20);
            if ad.iter().any(|&a| a < 0 || a as usize >= len) { return jo! { k: "oob", sh: t.shape().to_vec() } }
            let q: Vec<i64> = ad.iter().map(|&a| {
                let y = f(t.raw()[a as usize].to_f64().unwrap()) * s;
                if y.is_nan() { NAN } else if y.abs() > 1.9e9 { INF } else { y.round() as i64 }
            }).collect();
            jo! { k: "ok", sh: t.shape().to_vec(), q: q }
        },
        _ => jo! { k: x.kind(), msg: x.msg() },
    }
}
/// one call with metric `k`; `w` are the weights, `fixed`: operands of static rank two
macro_rules! call { ($k:expr, $O:ty, $a:expr, $b:expr, $w:expr, $fixed:expr, $inf:expr, $da:expr, $db:expr, $f:expr, $s:expr) => {{
    let (va, vb) = ($a.view::<B>($da), $b.view::<B>($db));
    poison::<$O>(va.shape().first().copied().unwrap_or(1) * vb.shape().first().copied().unwrap_or(1));
    let x: Res<Tensor<$O, B, IxD>> = match ($w, $fixed, $inf) {
        (None, false, false) => run(|| cdist_f((va, vb, $k))),
        (None, false, true) => run_p(|| cdist((va, vb, $k))),
        (None, true, false) => run(|| cdist_f((va.into_dim::<Ix2>(), vb.into_dim::<Ix2>(), $k)).map(|x| x.into_dim::<IxD>())),
        (None, true, true) => run_p(|| cdist((va.into_dim::<Ix2>(), vb.into_dim::<Ix2>(), $k)).into_dim::<IxD>()),
        (Some(w), false, false) => { let w = w.view::<B>($da); run(|| cdist_f((va, vb, $k, w))) },
        (Some(w), false, true) => { let w = w.view::<B>($da); run_p(|| cdist((va, vb, $k, w))) },
        (Some(w), true, false) => { let w = w.view::<B>($da); run(|| cdist_f((va.into_dim::<Ix2>(), vb.into_dim::<Ix2>(), $k, w.into_dim::<Ix1>())).map(|x| x.into_dim::<IxD>())) },
        (Some(w), true, true) => { let w = w.view::<B>($da); run_p(|| cdist((va.into_dim::<Ix2>(), vb.into_dim::<Ix2>(), $k, w.into_dim::<Ix1>())).into_dim::<IxD>()) },
    };
    enc::<$O>(x, $f, $s)
}} }
