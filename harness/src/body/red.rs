// Reductions for one concrete element type T and device type B.
fn st(x: T, _sc: f64) -> i64 { x.ti() }
fn su(x: usize, _sc: f64) -> i64 { x as i64 }
#[allow(unused)]
fn sb(x: bool, _sc: f64) -> i64 { x as i64 }
/// a number with a fractional part, as the nearest multiple of 1/scale
#[allow(unused)]
fn sf(x: f64, sc: f64) -> i64 { if x.is_nan() { NAN } else if x.is_infinite() { INF } else { (x * sc).round() as i64 } }
fn sc(r: Res<i64>) -> J {
    enc_res(r.map(|x| jo! { k: "ok", sh: Vec::<i64>::new(), v: vec![x] }))
}
macro_rules! red_fn { ($name:ident, $enc:ident, $all:ident, $all_f:ident, $axes:ident, $axes_f:ident, $plain:ident, $plain_f:ident) => {
    pub fn $name(how: usize, k: f64, a: &Ti<T>, ax: &Option<Vec<isize>>, d: &B) -> J {
        match ax {
            None => match how {
                0 => sc(run(|| a.view::<B>(d).$all_f()).map(|x| $enc(x, k))),
                1 => sc(run_p(|| a.view::<B>(d).$all()).map(|x| $enc(x, k))),
                2 => sc(run(|| rt::$all_f(&a.owned::<B>(d))).map(|x| $enc(x, k))),
                3 => sc(run_p(|| rt::$all(a.owned::<B>(d).view())).map(|x| $enc(x, k))),
                4 => enc_res(run(|| a.view::<B>(d).$axes_f(None)).map(|x| obs_any(&x, |x| $enc(x, k)))),
                5 => enc_res(run_p(|| a.view::<B>(d).$axes(None)).map(|x| obs_any(&x, |x| $enc(x, k)))),
                6 => enc_res(run(|| rt::$axes_f(&a.owned::<B>(d).into_shared_x(), None)).map(|x| obs_any(&x, |x| $enc(x, k)))),
                7 => sc(run_p(|| a.owned::<B>(d).$plain()).map(|x| $enc(x, k))),
                8 => sc(run(|| a.owned::<B>(d).$plain_f()).map(|x| $enc(x, k))),
                9 => sc(run_p(|| rt::$plain(&a.view::<B>(d))).map(|x| $enc(x, k))),
                10 => sc(run(|| rt::$plain_f(&a.view::<B>(d))).map(|x| $enc(x, k))),
                _ => match a.lay.sh.len() {
                    1 => sc(run(|| rt::$all_f(a.view::<B>(d).to_dim::<Ix1>())).map(|x| $enc(x, k))),
                    2 => sc(run(|| rt::$all_f(a.view::<B>(d).to_dim::<Ix2>())).map(|x| $enc(x, k))),
                    3 => sc(run(|| rt::$all_f(a.view::<B>(d).to_dim::<Ix3>())).map(|x| $enc(x, k))),
                    _ => sc(run(|| rt::$all_f(a.view::<B>(d))).map(|x| $enc(x, k))),
                },
            },
            Some(ax) => {
                let v: Vec<isize> = ax.clone();
                match how % 6 {
                    0 => enc_res(run(|| a.view::<B>(d).$axes_f(&v)).map(|x| obs_any(&x, |x| $enc(x, k)))),
                    1 => enc_res(run_p(|| a.owned::<B>(d).$axes(&v[..])).map(|x| obs_any(&x, |x| $enc(x, k)))),
                    2 => enc_res(run(|| rt::$axes_f(a.view::<B>(d), v.clone())).map(|x| obs_any(&x, |x| $enc(x, k)))),
                    3 => enc_res(run_p(|| rt::$axes(&a.view::<B>(d), v.clone())).map(|x| obs_any(&x, |x| $enc(x, k)))),
                    4 if v.len() == 1 => enc_res(run(|| a.view::<B>(d).$axes_f(v[0])).map(|x| obs_any(&x, |x| $enc(x, k)))),
                    4 => enc_res(run(|| a.view::<B>(d).$axes_f(v.clone())).map(|x| obs_any(&x, |x| $enc(x, k)))),
                    _ => match a.lay.sh.len() {
                        1 => enc_res(run_p(|| a.view::<B>(d).to_dim::<Ix1>().$axes(&v)).map(|x| obs_any(&x, |x| $enc(x, k)))),
                        2 => enc_res(run_p(|| a.view::<B>(d).to_dim::<Ix2>().$axes(&v)).map(|x| obs_any(&x, |x| $enc(x, k)))),
                        3 => enc_res(run_p(|| a.view::<B>(d).to_dim::<Ix3>().$axes(&v)).map(|x| obs_any(&x, |x| $enc(x, k)))),
                        _ => enc_res(run_p(|| a.view::<B>(d).$axes(&v)).map(|x| obs_any(&x, |x| $enc(x, k)))),
                    },
                }
            },
        }
    }
} }
/// whether the form `how` reports errors by panicking
#[allow(unused)]
pub fn infall(how: usize, ax: &Option<Vec<isize>>) -> bool {
    match ax { None => [1, 3, 5, 7, 9].contains(&how), Some(_) => [1, 3, 5].contains(&(how % 6)) }
}
trait IntoSharedX { fn into_shared_x(self) -> TensorArc<T, B, IxD>; }
impl IntoSharedX for Tensor<T, B, IxD> { fn into_shared_x(self) -> TensorArc<T, B, IxD> { self.into_shared() } }

macro_rules! ured_fn { ($name:ident, $all:ident, $all_f:ident, $axes:ident, $axes_f:ident) => {
    pub fn $name(how: usize, a: &Ti<T>, ax: &Option<Vec<isize>>, d: &B) -> J {
        let one = |r: Res<Vec<usize>>| enc_res(r.map(|x| jo! { k: "ok", sh: Vec::<i64>::new(), v: J::A(vec![J::from(x)]) }));
        let many = |r: Res<Tensor<IxD, B, IxD>>| enc_res(r.map(|t| {
            let ad = addrs(t.layout().shape(), t.layout().stride(), t.layout().offset(), 1 << 20);
            let raw: &Vec<IxD> = t.raw();
            jo! { k: "ok", sh: t.layout().shape().to_vec(), v: J::A(ad.iter().map(|&p| J::from(raw[p as usize].clone())).collect()) }
        }));
        match ax {
            None => match how {
                0 | 10 => one(run(|| a.view::<B>(d).$all_f())),
                1 | 7 => one(run_p(|| a.owned::<B>(d).$all())),
                2 | 8 => one(run(|| rt::$all_f(&a.owned::<B>(d)))),
                3 | 9 => one(run_p(|| rt::$all(a.view::<B>(d)))),
                4 | 6 => many(run(|| a.view::<B>(d).$axes_f(None))),
                5 => many(run_p(|| a.view::<B>(d).$axes(None))),
                _ => match a.lay.sh.len() {
                    1 => one(run(|| rt::$all_f(a.view::<B>(d).to_dim::<Ix1>())).map(|x| x.to_vec())),
                    2 => one(run(|| rt::$all_f(a.view::<B>(d).to_dim::<Ix2>())).map(|x| x.to_vec())),
                    3 => one(run(|| rt::$all_f(a.view::<B>(d).to_dim::<Ix3>())).map(|x| x.to_vec())),
                    _ => one(run(|| rt::$all_f(a.view::<B>(d)))),
                },
            },
            Some(v) => match how % 6 {
                0 | 4 => many(run(|| a.view::<B>(d).$axes_f(v))),
                1 | 5 => many(run_p(|| a.owned::<B>(d).$axes(v))),
                2 => many(run(|| rt::$axes_f(&a.view::<B>(d), v.clone()))),
                _ => many(run_p(|| rt::$axes(a.view::<B>(d), v.clone()))),
            },
        }
    }
} }
