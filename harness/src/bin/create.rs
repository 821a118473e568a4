//! Driver for creation functions.  `create OUT SEED TIER`
use vh::*;
#[allow(unused)]
use vh::dev::{Ix0, Ix1, Ix2, Ix3, TensorIterOrder};

macro_rules! inst { ($m:ident, $T:ty, $B:ty) => { pub mod $m {
    use super::*;
    type T = $T; type B = $B;
    include!("../body/create.rs");
} } }
inst!(is, i32, Ser);
inst!(ip, i32, Fae);
inst!(fs, f64, Ser);
inst!(fp, f64, Fae);

fn vals<T: Clone>(v: &[T], f: impl Fn(&T) -> i64) -> Vec<i64> { v.iter().map(f).collect() }
/// a recorded one-dimensional result
fn vec1<T: Clone, B: DeviceAPI<T, Raw = Vec<T>>>(x: &Res<Tensor<T, B, IxD>>, f: impl Fn(&T) -> i64) -> J {
    match x {
        Res::Ok(t) => { let ad = addrs(t.shape(), t.stride(), t.offset(), 1 << 20); let r: Vec<T> = ad.iter().map(|&a| t.raw()[a as usize].clone()).collect(); jo! { k: "ok", sh: t.shape().to_vec(), v: vals(&r, f) } },
        _ => jo! { k: x.kind(), msg: x.msg() },
    }
}
macro_rules! arange { ($T:ty, $conv:expr, $convp:expr, $back:expr, $s:expr, $e:expr, $p:expr, $na:expr, $nt:expr, $o:expr, $inf:expr) => {{
    let (s, e, p): ($T, $T, $T) = ($conv($s), $conv($e), $convp($p));
    macro_rules! on { ($d:expr, $B:ty) => {{ let d = $d;
        let x: Res<Tensor<$T, $B, IxD>> = match ($na, $inf) {
            (1, false) => run(|| rt::arange_f((e, &d))), (1, true) => run_p(|| rt::arange((e, &d))),
            (2, false) => run(|| rt::arange_f((s, e, &d))), (2, true) => run_p(|| rt::arange((s, e, &d))),
            (_, false) => run(|| rt::arange_f((s, e, p, &d))), (_, true) => run_p(|| rt::arange((s, e, p, &d))),
        };
        vec1(&x, $back) }} }
    if $nt == 0 { on!(ser($o), Ser) } else { on!(fae($nt, $o), Fae) }
}} }
fn ev_arange(r: &mut Rng, nt: usize, o: FlagOrder) -> J {
    let ty = *r.pick(&["i8", "u8", "i16", "i32", "i64", "isize", "u32", "usize", "u64", "f32", "f64", "i128", "u128", "i32", "u64"]);
    let fl = ty.starts_with('f');
    let un = ty.starts_with('u');
    let na = *r.pick(&[1, 2, 3, 3, 3, 3]);
    let scale = if fl { 4 } else { 1 };
    let one = scale;
    let (mut s, mut e, mut p) = (r.int(-30, 30), r.int(-30, 30), *r.pick(&[1, 1, 2, 3, 5, 7, -1, -2, -3, -7]));
    if r.chance(15) { e = s + p * r.int(0, 6); }
    if r.chance(6) && ty != "u8" { s = r.int(900, 4000); }
    if un { s = s.abs(); e = e.abs(); p = p.abs(); }
    if r.chance(4) { p = 0; }
    match ty { "i8" => if r.chance(30) { s = r.int(80, 127); e = 127; p = r.int(5, 40); } else if r.chance(10) { s = -100; e = -128; p = -r.int(5, 40); } else { s = s.clamp(-128, 127); },
               "u8" => if r.chance(30) { s = r.int(200, 255); e = 255; p = r.int(5, 40); } else { s = s.clamp(0, 255) }, _ => {} }
    if na < 3 { p = one; }
    if na < 2 { s = 0; }
    if p > 0 && s < e && na == 2 && r.chance(5) { std::mem::swap(&mut s, &mut e); }
    // a few steps over a long way, and positions that a float does not hold
    let wide = !matches!(ty, "i8" | "u8" | "i16" | "f32");
    if wide && na == 3 && r.chance(15) {
        let q = 1i64 << r.us(10, 27);
        p = q * *r.pick(&[1, 1, 2, 3]);
        s = if un { 0 } else { -r.int(0, 3) * q } + r.int(0, 3);
        e = s + p * r.int(0, 2) + r.int(-2, 2);
        if un { e = e.abs(); } else if r.chance(40) { std::mem::swap(&mut s, &mut e); p = -p; }
    }
    let base: i128 = if na == 1 || !r.chance(25) { 0 } else { match ty { "i64" | "isize" => *r.pick(&[(1i128 << 53) + 1, 1 << 60, -(1i128 << 60) - 1]), "u64" | "usize" => *r.pick(&[(1i128 << 53) + 1, 1 << 60, (1i128 << 63) + 5, (1i128 << 63) + 5]),
        "i128" => *r.pick(&[1i128 << 100, -(1i128 << 90)]), "u128" => 1i128 << 100, "f64" => 1i128 << 40, _ => 0 } };
    let inf = r.chance(40);
    macro_rules! int { ($t:ty) => { arange!($t, |x: i64| (x as i128 + base) as $t, |x: i64| x as $t, |x: &$t| cl(*x as i128 - base), s, e, p, na, nt, o, inf) } }
    macro_rules! flt { ($t:ty) => { arange!($t, |x: i64| x as $t / 4.0 + base as $t, |x: i64| x as $t / 4.0, |x: &$t| ((*x - base as $t) * 4.0).ti(), s, e, p, na, nt, o, inf) } }
    let res = match ty { "i8" => int!(i8), "u8" => int!(u8), "i16" => int!(i16), "i32" => int!(i32), "i64" => int!(i64), "isize" => int!(isize), "u32" => int!(u32), "usize" => int!(usize), "u64" => int!(u64), "i128" => int!(i128), "u128" => int!(u128), "f32" => flt!(f32), _ => flt!(f64) };
    jo! { e: "arange", ty: ty, start: s, stop: e, step: p, nargs: na, nt: nt, order: oname(o), inf: inf, r: res }
}
fn ev_linspace(r: &mut Rng, nt: usize, o: FlagOrder) -> J {
    let (s, e) = (r.int(-20, 20), r.int(-20, 20));
    let n = if r.chance(10) { r.us(100, 400) } else { r.us(0, 12) };
    let form = r.us(0, 1);
    let ep = form == 0 || r.chance(50);
    let inf = r.chance(40);
    let den = if n < 2 { 1 } else if ep { n - 1 } else { n } as f64;
    // the value times den must be a whole number, up to rounding
    let near = move |x: f64| -> i64 { let y = x * den; if (y - y.round()).abs() < 0.1 { y.round() as i64 } else { NONINT } };
    macro_rules! on { ($T:ty, $c:expr, $back:expr, $d:expr, $B:ty) => {{ let d = $d; let (s, e): ($T, $T) = ($c(s), $c(e));
        let x: Res<Tensor<$T, $B, IxD>> = match (form, inf) {
            (0, false) => run(|| rt::linspace_f((s, e, n, &d))), (0, true) => run_p(|| rt::linspace((s, e, n, &d))),
            (_, false) => run(|| rt::linspace_f((s, e, n, ep, &d))), (_, true) => run_p(|| rt::linspace((s, e, n, ep, &d))),
        };
        vec1(&x, $back) }} }
    let ty = *r.pick(&["f64", "f32", "c64"]);
    let res = match (ty, nt) {
        ("f64", 0) => on!(f64, |x: i64| x as f64, |x: &f64| near(*x), ser(o), Ser),
        ("f64", _) => on!(f64, |x: i64| x as f64, |x: &f64| near(*x), fae(nt, o), Fae),
        ("f32", 0) => on!(f32, |x: i64| x as f32, |x: &f32| near(*x as f64), ser(o), Ser),
        ("f32", _) => on!(f32, |x: i64| x as f32, |x: &f32| near(*x as f64), fae(nt, o), Fae),
        (_, 0) => on!(num::Complex<f64>, |x: i64| num::Complex::new(x as f64, -x as f64), |x: &num::Complex<f64>| if (x.re + x.im).abs() < 1e-9 { near(x.re) } else { NONINT }, ser(o), Ser),
        _ => on!(num::Complex<f64>, |x: i64| num::Complex::new(x as f64, -x as f64), |x: &num::Complex<f64>| if (x.re + x.im).abs() < 1e-9 { near(x.re) } else { NONINT }, fae(nt, o), Fae),
    };
    jo! { e: "linspace", ty: ty, start: s, stop: e, n: n, endpoint: ep, nt: nt, order: oname(o), inf: inf, r: res }
}
const ORDERS: [TensorIterOrder; 4] = [TensorIterOrder::C, TensorIterOrder::F, TensorIterOrder::A, TensorIterOrder::K];
fn iname(o: TensorIterOrder) -> &'static str { match o { TensorIterOrder::C => "C", TensorIterOrder::F => "F", TensorIterOrder::A => "A", _ => "K" } }

macro_rules! typed { ($m:ident, $T:ty, $d:expr, $r:expr, $nt:expr, $o:expr, $op:expr) => {{
    let (r, d, nt, o): (&mut Rng, _, usize, FlagOrder) = ($r, &$d, $nt, $o);
    let ty = <$T as El>::NAME;
    let inf = r.chance(35);
    let fo = *r.pick(&ORD);
    match $op {
        "eye" => {
            let form = r.us(0, 2);
            let (n, m, k) = (r.us(0, 6), r.us(0, 6), r.int(-7, 7) as isize);
            let (m, k) = if form == 0 { (n, 0) } else { (m, k) };
            let res = $m::eye(form, n, m, k, fo, inf, d);
            jo! { e: "eye", ty: ty, n: n, m: m, k: k, form: form, fo: oname(if form == 2 { fo } else { o }), nt: nt, inf: inf, r: res }
        },
        "const" => {
            let what = *r.pick(&["zeros", "ones", "full", "full", "empty"]);
            let form = r.us(0, 2);
            let sh = rand_shape(r, 4, 5, 200, 5);
            let lay = Lay::random(r, &sh, false);
            let x = r.int(-9, 9);
            let res = $m::konst(what, form, &sh, fo, &lay, <$T>::fi(x), inf, d);
            jo! { e: "const", what: what, form: form, ty: ty, sh: &sh, fo: oname(if form == 0 { o } else { fo }), x: x, st: &lay.st, of: lay.of, nt: nt, inf: inf, r: res }
        },
        "like" => {
            let what = *r.pick(&["zeros", "ones", "full", "empty"]);
            let form = r.us(0, if what == "empty" { 3 } else { 4 });
            let sh = rand_shape(r, 4, 5, 200, 5);
            let a = Ti::<$T>::new(Lay::random(r, &sh, true), |p| p as i64 % 50 + 1);
            let ord = *r.pick(&ORDERS);
            let x = r.int(-9, 9);
            let res = $m::like(what, form, &a, ord, <$T>::fi(x), inf, d);
            jo! { e: "like", what: what, form: form, ty: ty, a: a.j(), ord: iname(if form == 2 || form == 3 { ord } else { TensorIterOrder::default() }), x: x, nt: nt, inf: inf, r: res }
        },
        "asarray" => {
            let src = *r.pick(&["vec", "slice", "vecref", "mut", "mutvec"]);
            let form = r.us(0, 2);
            let sh = rand_shape(r, 4, 5, 200, 5);
            let lay = Lay::random(r, &sh, false);
            let need = if form == 2 { lay.len } else { prod(&sh) };
            let len = if r.chance(85) { need } else { (need as i64 + r.int(-3, 3)).max(0) as usize };
            let mut data: Vec<$T> = (0..len).map(|k| <$T>::fi(k as i64 % 40 + 1)).collect();
            let before: Vec<i64> = data.iter().map(|x| x.ti()).collect();
            let res = $m::asarray(src, form, &mut data, &sh, &lay, inf, d);
            let after: Vec<i64> = data.iter().map(|x| x.ti()).collect();
            jo! { e: "asarray", src: src, form: form, ty: ty, sh: &sh, st: &lay.st, of: lay.of, fo: oname(o), data: before, after: after, nt: nt, inf: inf, r: res }
        },
        _ => {
            let form = r.us(0, 5);
            let sh = rand_shape(r, 4, 5, 200, 5);
            let a = Ti::<$T>::new(Lay::random(r, &sh, form != 2 && form != 3), |p| p as i64 % 50 + 1);
            let ord = *r.pick(&ORDERS);
            let res = $m::astensor(form, &a, ord, inf, d);
            jo! { e: "astensor", form: form, ty: ty, a: a.j(), ord: iname(if form % 2 == 1 { ord } else { TensorIterOrder::default() }), nt: nt, inf: inf, r: res }
        },
    }
}} }

/// the forms without a device
mod nodev { use super::*; type T = i32; type B = DeviceCpu; include!("../body/create.rs");
pub fn ev(r: &mut Rng) -> J {
    let o = DeviceCpu::default().default_order();
    let fo = *r.pick(&ORD);
    let inf = r.chance(50);
    let sh = rand_shape(r, 4, 5, 200, 5);
    let s = sh.clone();
    let lay = Lay::random(r, &sh, false);
    let x = r.int(-9, 9);
    let xi = x as i32;
    macro_rules! c { ($f:expr, $ff:expr) => {{ let x: Res<Tensor<T, B, IxD>> = if inf { run_p(|| $f) } else { run(|| $ff) }; rep(&x, true) }} }
    let form = r.us(0, 2);
    match r.int(0, 8) {
        0 => {
            let (what, res) = match (r.int(0, 2), form) {
                (0, 0) => ("zeros", c!(rt::zeros(s), rt::zeros_f(s))), (0, 1) => ("zeros", c!(rt::zeros((s, fo)), rt::zeros_f((s, fo)))), (0, _) => ("zeros", c!(rt::zeros(lay.layout()), rt::zeros_f(lay.layout()))),
                (1, 0) => ("ones", c!(rt::ones(s), rt::ones_f(s))), (1, 1) => ("ones", c!(rt::ones((s, fo)), rt::ones_f((s, fo)))), (1, _) => ("ones", c!(rt::ones(lay.layout()), rt::ones_f(lay.layout()))),
                (_, 0) => ("full", c!(rt::full((s, xi)), rt::full_f((s, xi)))), (_, 1) => ("full", c!(rt::full((s, xi, fo)), rt::full_f((s, xi, fo)))), (_, _) => ("full", c!(rt::full((lay.layout(), xi)), rt::full_f((lay.layout(), xi)))),
            };
            jo! { e: "const", what: what, form: form, ty: "i32", sh: &sh, fo: oname(if form == 0 { o } else { fo }), x: x, st: &lay.st, of: lay.of, nt: -1, inf: inf, r: res }
        },
        1 => {
            let (n, m, k) = (r.us(0, 6), r.us(0, 6), r.int(-7, 7) as isize);
            let (m, k) = if form == 0 { (n, 0) } else { (m, k) };
            let res = match form { 0 => c!(rt::eye(n), rt::eye_f(n)), 1 => c!(rt::eye((n, m, k)), rt::eye_f((n, m, k))), _ => c!(rt::eye((n, m, k, fo)), rt::eye_f((n, m, k, fo))) };
            jo! { e: "eye", ty: "i32", n: n, m: m, k: k, form: form, fo: oname(if form == 2 { fo } else { o }), nt: -1, inf: inf, r: res }
        },
        2 | 3 => {
            let (mut a, e, mut p) = (r.int(-20, 20), r.int(-20, 20), *r.pick(&[1, 2, 3, -1, -4, 0]));
            if form < 2 { p = 1; }
            if form < 1 { a = 0; }
            let (ai, ei, pi) = (a as i32, e as i32, p as i32);
            let res = match form { 0 => c!(rt::arange(ei), rt::arange_f(ei)), 1 => c!(rt::arange((ai, ei)), rt::arange_f((ai, ei))), _ => c!(rt::arange((ai, ei, pi)), rt::arange_f((ai, ei, pi))) };
            jo! { e: "arange", ty: "i32", start: a, stop: e, step: p, nargs: form + 1, nt: -1, order: "C", inf: inf, r: res }
        },
        4 => {
            let (a, e, n) = (r.int(-20, 20), r.int(-20, 20), *r.pick(&[0usize, 1, 2, 3, 5, 9]));
            let ep = form == 0 || r.chance(50);
            let n = if ep || n < 2 { n } else { n - 1 };
            // whole steps: the end is moved
            let d = if n < 2 { 1 } else if ep { n as i64 - 1 } else { n as i64 };
            let e = a + (e - a) * d;
            let (af, ef) = (a as f64, e as f64);
            let x: Res<Tensor<f64, B, IxD>> = match (form, inf) { (0, true) => run_p(|| rt::linspace((af, ef, n))), (0, _) => run(|| rt::linspace_f((af, ef, n))), (_, true) => run_p(|| rt::linspace((af, ef, n, ep))), _ => run(|| rt::linspace_f((af, ef, n, ep))) };
            let res = vec1(&x, |x: &f64| { let y = x.ti(); if y == NONINT { y } else { y * d } });
            jo! { e: "linspace", ty: "f64", start: a, stop: e, n: n, endpoint: ep, nt: -1, order: "C", inf: inf, r: res }
        },
        5 => {
            // a single number
            let x: Res<Tensor<T, B, IxD>> = if inf { run_p(|| rt::asarray(xi)) } else { run(|| rt::asarray_f(xi)) };
            jo! { e: "const", what: "full", form: 0, ty: "i32", sh: Vec::<i64>::new(), fo: "C", x: xi as i64, st: Vec::<i64>::new(), of: 0, nt: -1, inf: inf, r: rep(&x, true) }
        },
        _ => {
            let need = if form == 2 { lay.len } else { prod(&sh) };
            let len = if r.chance(85) { need } else { (need as i64 + r.int(-3, 3)).max(0) as usize };
            let mut data: Vec<T> = (0..len).map(|k| k as i32 % 40 + 1).collect();
            let before: Vec<i64> = data.iter().map(|x| x.ti()).collect();
            macro_rules! forms { ($a:expr) => { match (form, inf) {
                (0, false) => run(|| rt::asarray_f($a)), (0, true) => run_p(|| rt::asarray($a)),
                (1, false) => run(|| rt::asarray_f(($a, s))), (1, true) => run_p(|| rt::asarray(($a, s))),
                (_, false) => run(|| rt::asarray_f(($a, lay.layout()))), (_, true) => run_p(|| rt::asarray(($a, lay.layout()))),
            } } }
            let base = data.as_ptr() as usize;
            macro_rules! look { ($x:expr) => { match $x {
                Res::Ok(t) => {
                    let ad = addrs(t.shape(), t.stride(), t.offset(), 1 << 20);
                    let len = t.raw().len();
                    if ad.iter().any(|&a| a < 0 || a as usize >= len) { jo! { k: "oob" } }
                    else { jo! { k: "ok", sh: t.shape().to_vec(), st: t.stride().to_vec(), of: t.offset(), len: len, v: ad.iter().map(|&a| t.raw()[a as usize] as i64).collect::<Vec<_>>(), same: t.raw().as_ptr() as usize == base || len == 0 } }
                },
                x => jo! { k: x.kind(), msg: x.msg() },
            } } }
            let src = *r.pick(&["vec", "slice", "vecref", "mut", "mutvec"]);
            let res = match src {
                "vec" => { let x: Res<Tensor<T, B, IxD>> = forms!(data.clone()); look!(x) },
                "slice" => { let x: Res<TensorView<'_, T, B, IxD>> = forms!(&data[..]); look!(x) },
                "vecref" => { let x: Res<TensorView<'_, T, B, IxD>> = forms!(&data); look!(x) },
                "mut" => { let x: Res<TensorMut<'_, T, B, IxD>> = forms!(&mut data[..]); look!(x) },
                _ => { let x: Res<TensorMut<'_, T, B, IxD>> = forms!(&mut data); look!(x) },
            };
            // nothing is written through these, so all forms leave the memory as it was
            let after: Vec<i64> = data.iter().map(|x| x.ti()).collect();
            let src = if src == "vec" { "vec" } else { "slice" };
            jo! { e: "asarray", src: src, form: form, ty: "i32", sh: &sh, st: &lay.st, of: lay.of, fo: oname(o), data: before, after: after, nt: -1, inf: inf, r: res }
        },
    }
} }

fn main() {
    let a = args();
    let mut out = Out::create(&a.out);
    let mut r = Rng::new(a.seed.wrapping_mul(571) + 17);
    let n = if a.thorough { 80000 } else { 16000 };
    let mut ev = vec![];
    for _ in 0..n {
        let o = *r.pick(&ORD);
        let nt = if r.chance(50) { 0 } else { r.us(1, 8) };
        let op = *r.pick(&["arange", "arange", "linspace", "eye", "const", "const", "like", "like", "asarray", "asarray", "astensor", "nodev"]);
        let f = r.chance(50);
        let e = match op {
            "arange" => ev_arange(&mut r, nt, o),
            "linspace" => ev_linspace(&mut r, nt, o),
            "nodev" => nodev::ev(&mut r),
            _ => match (f, nt) {
                (false, 0) => typed!(is, i32, ser(o), &mut r, nt, o, op),
                (false, _) => typed!(ip, i32, fae(nt, o), &mut r, nt, o, op),
                (true, 0) => typed!(fs, f64, ser(o), &mut r, nt, o, op),
                _ => typed!(fp, f64, fae(nt, o), &mut r, nt, o, op),
            },
        };
        ev.push(e);
        if ev.len() >= 60 { out.session(std::mem::take(&mut ev)); }
    }
    if !ev.is_empty() { out.session(ev); }
    out.finish();
}
