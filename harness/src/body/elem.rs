// Elementwise arithmetic in every ownership form, for one concrete element type T and device type B.
pub type Tn = Tensor<T, B, IxD>;
type TCow<'a> = TensorCow<'a, T, B, IxD>;

pub struct Case {
    pub a: Ti<T>,
    pub b: Ti<T>,
    pub c: Ti<T>,
    pub s: T,
}
fn cow<'a>(t: &'a Ti<T>, own: bool, d: &B) -> TCow<'a> {
    if own { t.owned(d).into_cow() } else { t.view::<B>(d).into_cow() }
}
fn ob<R: DataAPI<Data = Vec<T>>, D: DimAPI>(t: &TensorAny<R, T, B, D>) -> Obs<T> { obs(t) }

/// the remainder operator is not offered with a number on the right
macro_rules! num_right { (%, $f:ident, $a:expr, $s:expr) => { rt::$f($a, $s) }; ($op:tt, $f:ident, $a:expr, $s:expr) => { ($a $op $s) } }
/// forms of a binary arithmetic operation; the classes of forms are in `fclass`
macro_rules! bin_forms {
    ($fname:ident, $op:tt, $f:ident, $ff:ident, $wo:ident, $wof:ident) => {
        fn $fname(how: usize, k: &mut Case, d: &B, d2: &B) -> J {
            let Case { a, b, c, s } = k;
            let s = *s;
            res_j(&match how {
                0 => run_p(|| ob(&(&a.view::<B>(d) $op &b.view::<B>(d2)))),
                1 => run_p(|| ob(&(a.view::<B>(d) $op &b.owned::<B>(d2)))),
                2 => run_p(|| ob(&(&a.owned::<B>(d) $op b.view::<B>(d2)))),
                3 => run(|| rt::$ff(a.view::<B>(d), b.view::<B>(d2)).map(|x| ob(&x))),
                4 => run_p(|| ob(&(a.owned::<B>(d) $op &b.view::<B>(d2)))),
                5 => run_p(|| ob(&(&a.view::<B>(d) $op b.owned::<B>(d2)))),
                6 => run(|| rt::$ff(a.owned::<B>(d), b.view::<B>(d2)).map(|x| ob(&x))),
                7 => run(|| rt::$ff(a.view::<B>(d), b.owned::<B>(d2)).map(|x| ob(&x))),
                8 => run(|| rt::$ff(a.owned::<B>(d), b.owned::<B>(d2)).map(|x| ob(&x))),
                9 => run_p(|| ob(&(cow(a, false, d) $op cow(b, true, d2)))),
                10 => run_p(|| ob(&(cow(a, true, d) $op cow(b, false, d2)))),
                11 => run(|| rt::$ff(cow(a, true, d), &b.view::<B>(d2)).map(|x| ob(&x))),
                12 => run_p(|| ob(&rt::$f(&a.view::<B>(d), &b.view::<B>(d2)))),
                13 => run(|| { rt::$wof(a.view::<B>(d), b.view::<B>(d2), c.view_mut::<B>(d))?; Ok::<_, dev::Error>(obs_raw(&c.buf, &c.lay.layout())) }),
                14 => run_p(|| { rt::$wo(&a.view::<B>(d), &b.owned::<B>(d2), c.view_mut::<B>(d)); obs_raw(&c.buf, &c.lay.layout()) }),
                // the second or first operand is a number
                20 => run_p(|| ob(&num_right!($op, $f, &a.view::<B>(d), s))),
                21 => run_p(|| ob(&num_right!($op, $f, a.owned::<B>(d), s))),
                22 => run(|| rt::$ff(a.view::<B>(d), s).map(|x| ob(&x))),
                23 => run(|| rt::$ff(cow(a, true, d), s).map(|x| ob(&x))),
                24 => run(|| rt::$ff(cow(a, false, d), s).map(|x| ob(&x))),
                30 => run_p(|| ob(&(s $op &b.view::<B>(d)))),
                31 => run_p(|| ob(&(s $op b.owned::<B>(d)))),
                32 => run(|| rt::$ff(s, b.view::<B>(d)).map(|x| ob(&x))),
                33 => run(|| rt::$ff(s, cow(b, true, d)).map(|x| ob(&x))),
                _ => run(|| rt::$ff(s, cow(b, false, d)).map(|x| ob(&x))),
            })
        }
    };
}
bin_forms!(f_add, +, add, add_f, add_with_output, add_with_output_f);
bin_forms!(f_sub, -, sub, sub_f, sub_with_output, sub_with_output_f);
bin_forms!(f_mul, *, mul, mul_f, mul_with_output, mul_with_output_f);
bin_forms!(f_div, /, div, div_f, div_with_output, div_with_output_f);
pub const FORMS: [usize; 25] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 20, 21, 22, 23, 24, 30, 31, 32, 33, 34];

/// static ranks: (1,2), (2,1), (2,2) and rank zero
fn fixed(op: &str, k: &Case, d: &B) -> Option<Res<Obs<T>>> {
    use vh::dev::{Ix0, Ix1, Ix2};
    macro_rules! go { ($da:ty, $db:ty) => {{
        let a = view_of::<T, B, $da>(&k.a.buf, k.a.lay.layout().into_dim().unwrap(), d);
        let b = view_of::<T, B, $db>(&k.b.buf, k.b.lay.layout().into_dim().unwrap(), d);
        let own = |t: &Ti<T>| t.buf.clone();
        Some(match op {
            "sub" => run(|| rt::sub_f(&a, &b).map(|x| ob(&x))),
            "div" => run(|| rt::div_f(owned_of::<T, B, $da>(own(&k.a), k.a.lay.layout().into_dim().unwrap(), d), &b).map(|x| ob(&x))),
            "add" => run(|| rt::add_f(&a, owned_of::<T, B, $db>(own(&k.b), k.b.lay.layout().into_dim().unwrap(), d)).map(|x| ob(&x))),
            _ => run_p(|| ob(&(&a * &b))),
        })
    }} }
    match (k.a.lay.sh.len(), k.b.lay.sh.len()) {
        (1, 2) => go!(Ix1, Ix2),
        (2, 1) => go!(Ix2, Ix1),
        (2, 2) => go!(Ix2, Ix2),
        (0, 2) => go!(Ix0, Ix2),
        (1, 1) => go!(Ix1, Ix1),
        _ => None,
    }
}

pub fn binary(op: &'static str, how: usize, mut k: Case, d: &B, d2: &B) -> J {
    let (ja, jb) = (k.a.j(), k.b.j());
    let (a0, b0) = (k.a.buf.clone(), k.b.buf.clone());
    let c0 = k.c.buf.clone();
    let r = if how == 50 {
        match fixed(op, &k, d) {
            Some(r) => res_j(&r),
            None => return binary(op, 3, k, d, d2),
        }
    } else {
        match op {
            "add" => f_add(how, &mut k, d, d2),
            "sub" => f_sub(how, &mut k, d, d2),
            "mul" => f_mul(how, &mut k, d, d2),
            "div" => f_div(how, &mut k, d, d2),
            _ => other(op, how, &mut k, d, d2),
        }
    };
    let inf = matches!(how, 0 | 1 | 2 | 4 | 5 | 9 | 10 | 12 | 14 | 20 | 21 | 30 | 31) || (how == 50 && op == "mul");
    let kind = if how >= 30 && how < 40 { "num_ten" } else if how >= 20 && how < 30 { "ten_num" } else if how == 13 || how == 14 { "out" } else { "ten_ten" };
    let mut e = jo! { e: "bin", op: op, how: how, inf: inf, kind: kind, order: oname(d.default_order()), ty: T::NAME, a: ja, b: jb, s: k.s.ti(), r: r };
    if kind == "out" {
        e = e.with("c", jo! { sh: &k.c.lay.sh, st: &k.c.lay.st, of: k.c.lay.of, before: jv(&c0), after: jv(&k.c.buf) });
    }
    e.with("keep", same(&a0, &k.a.buf) && same(&b0, &k.b.buf))
}
pub fn same(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.ti() == y.ti())
}

/// forms of the functions that never reuse an operand; results of any element type
macro_rules! fun_forms {
    ($how:expr, $k:expr, $d:expr, $d2:expr, $f:ident, $ff:ident, $enc:expr) => {{
        let Case { a, b, s, .. } = $k;
        let s = *s;
        let (d, d2) = ($d, $d2);
        match $how {
            0 => enc_res(run(|| rt::$ff(&a.view::<B>(d), &b.view::<B>(d2)).map(|x| obs_any(&x, $enc)))),
            1 => enc_res(run(|| rt::$ff(&a.owned::<B>(d), b.view::<B>(d2)).map(|x| obs_any(&x, $enc)))),
            2 => enc_res(run(|| rt::$ff(a.view::<B>(d), &b.owned::<B>(d2)).map(|x| obs_any(&x, $enc)))),
            3 => enc_res(run(|| rt::$ff(a.view::<B>(d), b.view::<B>(d2)).map(|x| obs_any(&x, $enc)))),
            4 => enc_res(run_p(|| obs_any(&rt::$f(&a.view::<B>(d), b.view::<B>(d2)), $enc))),
            20 => enc_res(run(|| rt::$ff(&a.view::<B>(d), s).map(|x| obs_any(&x, $enc)))),
            21 => enc_res(run(|| rt::$ff(a.view::<B>(d), s).map(|x| obs_any(&x, $enc)))),
            30 => enc_res(run(|| rt::$ff(s, &b.view::<B>(d)).map(|x| obs_any(&x, $enc)))),
            _ => enc_res(run(|| rt::$ff(s, b.view::<B>(d)).map(|x| obs_any(&x, $enc)))),
        }
    }};
}
pub const FUN_FORMS: [usize; 9] = [0, 1, 2, 3, 4, 20, 21, 30, 31];
pub fn function(op: &'static str, how: usize, mut k: Case, d: &B, d2: &B) -> J {
    let (ja, jb) = (k.a.j(), k.b.j());
    let (a0, b0) = (k.a.buf.clone(), k.b.buf.clone());
    let r = fun(op, how, &mut k, d, d2);
    let kind = if how >= 30 { "num_ten" } else if how >= 20 { "ten_num" } else { "ten_ten" };
    jo! { e: "bin", op: op, how: how, inf: how == 4, kind: kind, order: oname(d.default_order()), ty: T::NAME, a: ja, b: jb, s: k.s.ti(), r: r,
          keep: same(&a0, &k.a.buf) && same(&b0, &k.b.buf) }
}
macro_rules! un_forms {
    ($how:expr, $a:expr, $d:expr, $f:ident, $ff:ident, $enc:expr) => {{
        let (a, d) = ($a, $d);
        match $how {
            0 => enc_res(run(|| rt::$ff(&a.view::<B>(d)).map(|x| obs_any(&x, $enc)))),
            1 => enc_res(run(|| rt::$ff(a.view::<B>(d)).map(|x| obs_any(&x, $enc)))),
            2 => enc_res(run_p(|| obs_any(&rt::$f(&a.owned::<B>(d)), $enc))),
            _ => unreachable!(),
        }
    }};
    (own $how:expr, $a:expr, $d:expr, $f:ident, $ff:ident, $enc:expr) => {
        if $how == 3 {
            let (a, d) = ($a, $d);
            enc_res(run(|| rt::$ff(a.owned::<B>(d)).map(|x| obs_any(&x, $enc))))
        } else {
            un_forms!($how, $a, $d, $f, $ff, $enc)
        }
    };
}
pub fn unary(op: &'static str, how: usize, a: Ti<T>, d: &B) -> J {
    let ja = a.j();
    let a0 = a.buf.clone();
    let r = un(op, how, &a, d);
    jo! { e: "un", op: op, how: how, inf: how == 2, order: oname(d.default_order()), ty: T::NAME, a: ja, r: r, keep: same(&a0, &a.buf) }
}
/// user-supplied functions: f(x) = 2x+1, g(x,y) = 3x-2y
fn uf(x: T) -> T { x + x + (1 as T) }
fn ug(x: T, y: T) -> T { x + x + x - y - y }
pub fn map1(how: usize, mut a: Ti<T>, d: &B) -> J {
    let ja = a.j();
    let before = a.buf.clone();
    let inplace = how >= 4 && how < 8;
    let r = match how {
        0 => run(|| a.view::<B>(d).map_f(|x| uf(*x)).map(|x| ob(&x))),
        1 => run(|| a.view::<B>(d).mapv_f(uf).map(|x| ob(&x))),
        2 => run_p(|| ob(&a.owned::<B>(d).map(|x| uf(*x)))),
        3 => run_p(|| ob(&a.view::<B>(d).mapv(uf))),
        4 => run(|| { a.view_mut::<B>(d).mapi_f(|x| *x = uf(*x))?; Ok::<_, dev::Error>(obs_raw(&a.buf, &a.lay.layout())) }),
        5 => run(|| { a.view_mut::<B>(d).mapvi_f(uf)?; Ok::<_, dev::Error>(obs_raw(&a.buf, &a.lay.layout())) }),
        6 => run_p(|| { a.view_mut::<B>(d).mapi(|x| *x = uf(*x)); obs_raw(&a.buf, &a.lay.layout()) }),
        7 => run_p(|| { a.view_mut::<B>(d).mapvi(uf); obs_raw(&a.buf, &a.lay.layout()) }),
        _ => return map1_mut(how, a, d),
    };
    jo! { e: "map", how: how, inplace: inplace, order: oname(d.default_order()), ty: T::NAME, a: ja, before: jv(&before), after: jv(&a.buf), calls: Vec::<i64>::new(), r: res_j(&r) }
}
pub fn map2(how: usize, k: Case, d: &B, d2: &B) -> J {
    let Case { a, b, .. } = &k;
    let r = match how {
        0 => run(|| a.view::<B>(d).mapb_f(&b.view::<B>(d2), |x, y| ug(*x, *y)).map(|x| ob(&x))),
        1 => run(|| a.owned::<B>(d).mapvb_f(&b.view::<B>(d2), ug).map(|x| ob(&x))),
        2 => run_p(|| ob(&a.view::<B>(d).mapb(&b.owned::<B>(d2), |x, y| ug(*x, *y)))),
        _ => run_p(|| ob(&a.view::<B>(d).mapvb(&b.view::<B>(d2), ug))),
    };
    jo! { e: "bin", op: "g", how: how, inf: how >= 2, kind: "ten_ten", order: oname(d.default_order()), ty: T::NAME, a: a.j(), b: b.j(), s: 0, r: res_j(&r), keep: true }
}
