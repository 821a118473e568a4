// Creation functions for one element type T and device type B.
pub fn rep(x: &Res<Tensor<T, B, IxD>>, val: bool) -> J {
    match x {
        Res::Ok(t) => {
            let len = t.raw().len();
            let ad = addrs(t.shape(), t.stride(), t.offset(), 1 << 20);
            let bad = ad.iter().any(|&a| a < 0 || a as usize >= len);
            if bad { return jo! { k: "oob", sh: t.shape().to_vec(), st: t.stride().to_vec(), of: t.offset(), len: len } }
            let raw = t.raw();
            let v: Vec<i64> = if val { ad.iter().map(|&a| raw[a as usize].ti()).collect() } else { vec![] };
            jo! { k: "ok", sh: t.shape().to_vec(), st: t.stride().to_vec(), of: t.offset(), len: len, v: v }
        },
        _ => jo! { k: x.kind(), msg: x.msg() },
    }
}
/// what: zeros, ones, full, empty; form: 0 shape, 1 shape and order, 2 layout
pub fn konst(what: &str, form: usize, sh: &[usize], fo: FlagOrder, lay: &Lay, x: T, inf: bool, d: &B) -> J {
    let s = sh.to_vec();
    macro_rules! three { ($f:ident, $ff:ident $(, $v:expr)?) => { match (form, inf) {
        (0, false) => run(|| rt::$ff((s $(, $v)?, d))), (0, true) => run_p(|| rt::$f((s $(, $v)?, d))),
        (1, false) => run(|| rt::$ff((s $(, $v)?, fo, d))), (1, true) => run_p(|| rt::$f((s $(, $v)?, fo, d))),
        (_, false) => run(|| rt::$ff((lay.layout() $(, $v)?, d))), (_, true) => run_p(|| rt::$f((lay.layout() $(, $v)?, d))),
    } } }
    for k in [prod(sh), prod(sh) + 3, lay.len, lay.len + 1] { if k < 5000 { poison::<T>(k); } }
    match what {
        "zeros" => { let x: Res<Tensor<T, B, IxD>> = three!(zeros, zeros_f); rep(&x, true) },
        "ones" => { let x: Res<Tensor<T, B, IxD>> = three!(ones, ones_f); rep(&x, true) },
        "full" => { let x: Res<Tensor<T, B, IxD>> = three!(full, full_f, x); rep(&x, true) },
        _ => { let x: Res<Tensor<T, B, IxD>> = unsafe { three!(empty, empty_f) }; rep(&x, false) },
    }
}
/// form: 0 tensor, 1 tensor and device, 2 tensor and order, 3 all, 4 method
pub fn like(what: &str, form: usize, a: &Ti<T>, ord: TensorIterOrder, x: T, inf: bool, d: &B) -> J {
    let va = a.view::<B>(d);
    let t = &va;
    macro_rules! forms { ($f:ident, $ff:ident $(, $v:expr)?) => { match (form, inf) {
        (0, false) => run(|| rt::$ff(forms!(@ t $(, $v)?))), (0, true) => run_p(|| rt::$f(forms!(@ t $(, $v)?))),
        (1, false) => run(|| rt::$ff((t $(, $v)?, d))), (1, true) => run_p(|| rt::$f((t $(, $v)?, d))),
        (2, false) => run(|| rt::$ff((t $(, $v)?, ord))), (2, true) => run_p(|| rt::$f((t $(, $v)?, ord))),
        (_, false) => run(|| rt::$ff((t $(, $v)?, ord, d))), (_, true) => run_p(|| rt::$f((t $(, $v)?, ord, d))),
    } };
    (@ $t:ident) => { $t }; (@ $t:ident, $v:expr) => { ($t, $v) } }
    poison::<T>(prod(&a.lay.sh));
    if form == 4 {
        return match (what, inf) {
            ("zeros", false) => rep(&run(|| t.zeros_like_f()), true), ("zeros", _) => rep(&run_p(|| t.zeros_like()), true),
            ("ones", false) => rep(&run(|| t.ones_like_f()), true), ("ones", _) => rep(&run_p(|| t.ones_like()), true),
            (_, false) => rep(&run(|| t.full_like_f(x)), true), _ => rep(&run_p(|| t.full_like(x)), true),
        };
    }
    match what {
        "zeros" => { let x: Res<Tensor<T, B, IxD>> = forms!(zeros_like, zeros_like_f); rep(&x, true) },
        "ones" => { let x: Res<Tensor<T, B, IxD>> = forms!(ones_like, ones_like_f); rep(&x, true) },
        "full" => { let x: Res<Tensor<T, B, IxD>> = forms!(full_like, full_like_f, x); rep(&x, true) },
        _ => { let x: Res<Tensor<T, B, IxD>> = unsafe { forms!(empty_like, empty_like_f) }; rep(&x, false) },
    }
}
pub fn eye(form: usize, n: usize, m: usize, k: isize, fo: FlagOrder, inf: bool, d: &B) -> J {
    let x: Res<Tensor<T, B, IxD>> = match (form, inf) {
        (0, false) => run(|| rt::eye_f((n, d))), (0, true) => run_p(|| rt::eye((n, d))),
        (1, false) => run(|| rt::eye_f((n, m, k, d))), (1, true) => run_p(|| rt::eye((n, m, k, d))),
        (_, false) => run(|| rt::eye_f((n, m, k, fo, d))), (_, true) => run_p(|| rt::eye((n, m, k, fo, d))),
    };
    rep(&x, true)
}
/// from existing memory; src: vec, slice, vecref, mut, mutvec; form: 0 nothing, 1 shape, 2 layout
pub fn asarray(src: &str, form: usize, data: &mut Vec<T>, sh: &[usize], lay: &Lay, inf: bool, d: &B) -> J {
    let s = sh.to_vec();
    let base = data.as_ptr() as usize;
    macro_rules! forms { ($a:expr) => { match (form, inf) {
        (0, false) => run(|| rt::asarray_f(($a, d))), (0, true) => run_p(|| rt::asarray(($a, d))),
        (1, false) => run(|| rt::asarray_f(($a, s, d))), (1, true) => run_p(|| rt::asarray(($a, s, d))),
        (_, false) => run(|| rt::asarray_f(($a, lay.layout(), d))), (_, true) => run_p(|| rt::asarray(($a, lay.layout(), d))),
    } } }
    macro_rules! look { ($x:expr, $after:expr) => {{ match $x {
        Res::Ok(t) => {
            let len = t.raw().len();
            let ad = addrs(t.shape(), t.stride(), t.offset(), 1 << 20);
            if ad.iter().any(|&a| a < 0 || a as usize >= len) { return jo! { k: "oob", sh: t.shape().to_vec(), st: t.stride().to_vec(), of: t.offset(), len: len } }
            let v: Vec<i64> = ad.iter().map(|&a| t.raw()[a as usize].ti()).collect();
            let same = t.raw().as_ptr() as usize == base || len == 0;
            let (sh, st, of) = (t.shape().to_vec(), t.stride().to_vec(), t.offset());
            $after(t);
            jo! { k: "ok", sh: sh, st: st, of: of, len: len, v: v, same: same }
        },
        x => jo! { k: x.kind(), msg: x.msg() },
    } }} }
    match src {
        "vec" => { let x: Res<Tensor<T, B, IxD>> = forms!(data.clone()); look!(x, |t: Tensor<T, B, IxD>| drop(t)) },
        "slice" => { let x: Res<TensorView<'_, T, B, IxD>> = forms!(&data[..]); look!(x, |t: TensorView<'_, T, B, IxD>| drop(t)) },
        "vecref" => { let x: Res<TensorView<'_, T, B, IxD>> = forms!(&*data); look!(x, |t: TensorView<'_, T, B, IxD>| drop(t)) },
        "mut" => { let x: Res<TensorMut<'_, T, B, IxD>> = forms!(&mut data[..]); look!(x, |mut t: TensorMut<'_, T, B, IxD>| { let n = t.shape().iter().product::<usize>(); if n > 0 && !t.layout().is_broadcasted() { t.fill(T::fi(55)); } }) },
        _ => { let x: Res<TensorMut<'_, T, B, IxD>> = forms!(&mut *data); look!(x, |mut t: TensorMut<'_, T, B, IxD>| { let n = t.shape().iter().product::<usize>(); if n > 0 && !t.layout().is_broadcasted() { t.fill(T::fi(55)); } }) },
    }
}
/// from a tensor; form: 0 reference, 1 reference and order, 2 owned, 3 owned and order, 4 view, 5 view and order
pub fn astensor(form: usize, a: &Ti<T>, ord: TensorIterOrder, inf: bool, d: &B) -> J {
    poison::<T>(prod(&a.lay.sh));
    macro_rules! f { ($a:expr) => { if inf { run_p(|| rt::asarray($a)) } else { run(|| rt::asarray_f($a)) } } }
    let t = a.owned::<B>(d);
    let base = t.raw().as_ptr() as usize;
    let keep;
    let x: Res<Tensor<T, B, IxD>> = match form {
        0 => { keep = t; f!(&keep) },
        1 => { keep = t; f!((&keep, ord)) },
        2 => f!(t),
        3 => f!((t, ord)),
        4 => { keep = t; f!(keep.view()) },
        _ => { keep = t; f!((keep.view(), ord)) },
    };
    let same = x.as_ok().map(|t| t.raw().as_ptr() as usize == base && !t.raw().is_empty()).unwrap_or(false);
    let mut j = rep(&x, true);
    if let J::O(m) = &mut j { m.push(("same".into(), J::from(same))); }
    j
}
