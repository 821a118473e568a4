//! View operations: random generation, text form (as printed by TLC), JSON form (for the trace), and
//! execution on the real library through its different entry points.
use crate::*;
use dev::{AxesIndex, Indexer, Slice};

#[derive(Clone, Debug)]
pub enum Item {
    I(i64),
    S(Option<i64>, Option<i64>, Option<i64>),
    N,
    E,
}
#[derive(Clone, Debug)]
pub enum VOp {
    Slice(Vec<Item>),
    Transpose(Option<Vec<i64>>),
    Reverse,
    MTrans,
    Swap(i64, i64),
    Move(Vec<i64>, Vec<i64>),
    Flip(Option<Vec<i64>>),
    Expand(Vec<i64>),
    Squeeze(Option<Vec<i64>>),
    Diag(Option<i64>, Option<i64>, Option<i64>),
    Broadcast(Vec<usize>),
    Dyn,
    ToDim(usize),
}
fn ints(s: &str) -> Vec<i64> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}
impl VOp {
    /// text form printed by MC_Tensor.tla
    pub fn parse(s: &str) -> VOp {
        let w: Vec<&str> = s.split_whitespace().collect();
        let o = |x: &str| if x == "_" { None } else { Some(x.parse().unwrap()) };
        match w[0] {
            "slice" => VOp::Slice(
                w[1..]
                    .iter()
                    .map(|t| {
                        let p: Vec<&str> = t.split(':').collect();
                        match p[0] {
                            "i" => Item::I(p[1].parse().unwrap()),
                            "s" => Item::S(o(p[1]), o(p[2]), o(p[3])),
                            "n" => Item::N,
                            _ => Item::E,
                        }
                    })
                    .collect(),
            ),
            "transpose" => VOp::Transpose(Some(ints(w.get(1).unwrap_or(&"")))),
            "reverse" => VOp::Reverse,
            "mtrans" => VOp::MTrans,
            "broadcast" => VOp::Broadcast(ints(w[1]).iter().map(|&x| x as usize).collect()),
            "swapaxes" => {
                let v = ints(w[1]);
                VOp::Swap(v[0], v[1])
            },
            "moveaxis" => VOp::Move(ints(w[1]), ints(w[2])),
            "flip" => VOp::Flip(if w[1] == "none" { None } else { Some(ints(w[1])) }),
            "expand" => VOp::Expand(ints(w[1])),
            "squeeze" => VOp::Squeeze(if w[1] == "none" { None } else { Some(ints(w[1])) }),
            "diagonal" => {
                let v = ints(w[1]);
                VOp::Diag(Some(v[0]), Some(v[1]), Some(v[2]))
            },
            x => panic!("unknown op {x}"),
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            VOp::Slice(_) => "slice",
            VOp::Transpose(_) => "transpose",
            VOp::Reverse => "reverse",
            VOp::MTrans => "mtrans",
            VOp::Swap(..) => "swapaxes",
            VOp::Move(..) => "moveaxis",
            VOp::Flip(_) => "flip",
            VOp::Expand(_) => "expand",
            VOp::Squeeze(_) => "squeeze",
            VOp::Diag(..) => "diagonal",
            VOp::Broadcast(_) => "broadcast",
            VOp::Dyn => "dyn",
            VOp::ToDim(_) => "todim",
        }
    }
    pub fn args(&self) -> J {
        fn opt(a: &Option<Vec<i64>>) -> J {
            jo! { none: a.is_none(), ax: a.clone().unwrap_or_default() }
        }
        match self {
            VOp::Slice(items) => jo! { items: J::A(items.iter().map(|i| match i {
                Item::I(v) => jo!{k: "i", v: *v},
                Item::S(a, o, p) => jo!{k: "s", a: *a, o: *o, p: *p},
                Item::N => jo!{k: "n"},
                Item::E => jo!{k: "e"},
            }).collect()) },
            VOp::Transpose(a) => opt(a),
            VOp::Flip(a) => opt(a),
            VOp::Squeeze(a) => opt(a),
            VOp::Swap(a, b) => jo! {a: *a, b: *b},
            VOp::Move(a, b) => jo! {src: a, dst: b},
            VOp::Expand(a) => jo! {ax: a},
            VOp::Diag(f, a, b) => jo! {off: *f, a1: *a, a2: *b},
            VOp::Broadcast(s) => jo! {sh: s},
            VOp::ToDim(n) => jo! {n: *n},
            _ => jo! {none: true},
        }
    }
    fn axis(r: &mut Rng, n: usize) -> i64 {
        let n = n as i64;
        if n == 0 || r.chance(4) {
            r.int(-n - 2, n + 2)
        } else {
            r.int(-n, n - 1)
        }
    }
    fn axes(r: &mut Rng, n: usize, k: usize) -> Vec<i64> {
        // mostly distinct
        let p = r.perm(n);
        let mut v: Vec<i64> =
            p.iter().take(k).map(|&a| if r.chance(50) { a as i64 - n as i64 } else { a as i64 }).collect();
        if r.chance(6) && !v.is_empty() {
            let i = r.us(0, v.len() - 1);
            v[i] = r.int(-(n as i64) - 2, n as i64 + 1);
        }
        v
    }
    pub fn rand_slice(r: &mut Rng, sh: &[usize]) -> VOp {
        let n = sh.len();
        let mut items = vec![];
        let k = if r.chance(60) { n } else { r.us(0, n) };
        let ell = r.chance(25);
        let ellat = r.us(0, k);
        for a in 0..k {
            if ell && a == ellat {
                items.push(Item::E);
            }
            if r.chance(10) {
                items.push(Item::N);
            }
            // with an ellipsis the axis may differ; lengths only steer the random choice
            let d = sh[if ell && a >= ellat { n - k + a } else { a }] as i64;
            if r.chance(25) && d > 0 {
                items.push(Item::I(if r.chance(5) { r.int(-d - 2, d + 1) } else { r.int(-d, d - 1) }));
            } else {
                let b = |r: &mut Rng| match r.int(0, 9) {
                    0..=2 => None,
                    3 => Some(*r.pick(&[-1000, 1000, d, -d, -d - 1, d + 1])),
                    _ => Some(r.int(-d - 1, d + 1)),
                };
                let s = match r.int(0, 9) {
                    0..=3 => None,
                    4 | 5 => Some(-1),
                    6 => Some(2),
                    7 => Some(-2),
                    8 => Some(r.int(-3, 5)),
                    _ => Some(1),
                };
                items.push(Item::S(b(r), b(r), s));
            }
        }
        if ell && ellat == k {
            items.push(Item::E);
        }
        if r.chance(8) {
            items.push(Item::N);
        }
        if r.chance(2) {
            items.push(Item::E);
        }
        if r.chance(2) {
            items.push(Item::I(0));
        }
        VOp::Slice(items)
    }
    pub fn rand_axis_op(r: &mut Rng, sh: &[usize]) -> VOp {
        let n = sh.len();
        match r.int(0, 10) {
            0 => VOp::Transpose(if r.chance(20) { None } else { Some(Self::axes(r, n, n)) }),
            1 => VOp::Reverse,
            2 => VOp::MTrans,
            3 => VOp::Swap(Self::axis(r, n), Self::axis(r, n)),
            4 => {
                let k = r.us(0, n);
                let k2 = if r.chance(4) { r.us(0, n) } else { k };
                VOp::Move(Self::axes(r, n, k), Self::axes(r, n, k2))
            },
            5 | 6 => {
                let k = r.us(0, n);
                VOp::Flip(if r.chance(20) { None } else { Some(Self::axes(r, n, k)) })
            },
            7 => {
                let k = r.us(1, 2);
                VOp::Expand(Self::axes(r, n + k, k))
            },
            8 => {
                let ones: Vec<usize> = (0..n).filter(|&k| sh[k] == 1).collect();
                if r.chance(25) {
                    VOp::Squeeze(None)
                } else if r.chance(85) {
                    let mut o = ones;
                    r.shuffle(&mut o);
                    let k = r.us(0, o.len());
                    let mut v: Vec<i64> =
                        o[..k].iter().map(|&a| if r.chance(50) { a as i64 - n as i64 } else { a as i64 }).collect();
                    if r.chance(8) {
                        v.push(r.int(-(n as i64) - 2, n as i64 + 1));
                        r.shuffle(&mut v);
                    }
                    VOp::Squeeze(Some(v))
                } else {
                    VOp::Squeeze(Some(Self::axes(r, n, 1)))
                }
            },
            _ => {
                let o = |r: &mut Rng, v: i64| if r.chance(15) { None } else { Some(v) };
                let f = r.int(-5, 5);
                let a = Self::axes(r, n, 2);
                if a.len() < 2 {
                    VOp::Diag(None, None, None)
                } else {
                    let f = o(r, f);
                    let a1 = o(r, a[0]);
                    let a2 = o(r, a[1]);
                    VOp::Diag(f, a1, a2)
                }
            },
        }
    }
    pub fn rand_broadcast(r: &mut Rng, sh: &[usize], order: FlagOrder, maxn: usize) -> VOp {
        let mut t: Vec<usize> =
            sh.iter().map(|&d| if d == 1 { *r.pick(&[1, 2, 3, 0, 2]) } else { d }).collect();
        for _ in 0..r.us(0, 2) {
            let d = r.us(0, 3);
            if order == FlagOrder::C {
                t.insert(0, d);
            } else {
                t.push(d);
            }
        }
        if r.chance(10) && !t.is_empty() {
            let i = r.us(0, t.len() - 1);
            t[i] = r.us(0, 4);
        }
        if r.chance(4) {
            t.pop();
        }
        if prod(&t) > maxn {
            t = sh.to_vec();
        }
        VOp::Broadcast(t)
    }
}
pub fn indexers(items: &[Item]) -> Vec<Indexer> {
    items
        .iter()
        .map(|i| match i {
            Item::I(v) => Indexer::Select(*v as isize),
            Item::S(a, o, p) => Indexer::Slice(Slice::new(a.map(|x| x as isize), o.map(|x| x as isize), p.map(|x| x as isize))),
            Item::N => Indexer::Insert,
            Item::E => Indexer::Ellipsis,
        })
        .collect()
}
pub fn axi(v: &[i64]) -> AxesIndex<isize> {
    // every form in which axes can be written must mean the same
    let form = v.iter().sum::<i64>().rem_euclid(6);
    if v.len() == 1 {
        match form {
            0 => (v[0] as i32).try_into().unwrap(),
            1 => (&v[0]).try_into().unwrap(),
            _ => AxesIndex::Val(v[0] as isize),
        }
    } else if v.len() == 2 && form < 5 {
        match form {
            0 => (&[v[0], v[1]]).try_into().unwrap(),
            1 => [v[0] as i32, v[1] as i32].try_into().unwrap(),
            2 => v.try_into().unwrap(),
            3 => (v[0], v[1] as i32).try_into().unwrap(),
            _ => (&v.to_vec()).try_into().unwrap(),
        }
    } else if v.len() == 3 && form < 4 {
        match form {
            0 => (&[v[0] as i32, v[1] as i32, v[2] as i32]).try_into().unwrap(),
            1 => (v[0], v[1], v[2] as i32).try_into().unwrap(),
            2 => (&[v[0] as isize, v[1] as isize, v[2] as isize]).into(),
            _ => v.to_vec().try_into().unwrap(),
        }
    } else {
        AxesIndex::Vec(v.iter().map(|&x| x as isize).collect())
    }
}
pub fn axo(v: &Option<Vec<i64>>) -> AxesIndex<isize> {
    match v {
        None => AxesIndex::None,
        Some(v) => axi(v),
    }
}
pub type Cap = (Layout<IxD>, usize);
fn cap<R, T, B, D>(t: &TensorAny<R, T, B, D>) -> Cap
where
    R: DataAPI<Data = Vec<T>>,
    B: DeviceAPI<T, Raw = Vec<T>>,
    D: DimAPI,
{
    (t.layout().to_dim::<IxD>().unwrap(), t.raw().as_ptr() as usize)
}
macro_rules! c {
    ($e:expr) => {
        $e.map(|t| cap(&t))
    };
}
fn di(v: &Option<i64>) -> Option<isize> {
    v.map(|x| x as isize)
}
type E = dev::Error;

/// operations on a tensor of dimensionality type D (fixed or dynamic), by reference
fn by_ref<T: El, B: DeviceAPI<T, Raw = Vec<T>>, D: DimAPI>(op: &VOp, t: &TensorView<'_, T, B, D>, v: usize) -> Result<Cap, E> {
    Ok(match op {
        VOp::Slice(it) => {
            let ix = indexers(it);
            match v {
                0 => c!(t.slice_f(ix))?,
                1 => cap(&t.slice(ix)),
                2 => c!(rt::slice_f(t, ix))?,
                3 => c!(t.i_f(ix.as_slice()))?,
                4 => cap(&rt::slice(t, ix)),
                _ => cap(&t.i(&ix)),
            }
        },
        VOp::Transpose(a) => match v {
            0 => c!(t.transpose_f(axo(a)))?,
            1 => cap(&t.permute_dims(axo(a))),
            2 => c!(rt::permute_dims_f(t, axo(a)))?,
            _ => cap(&rt::transpose(t, axo(a))),
        },
        VOp::Reverse => match v {
            0 => cap(&t.reverse_axes()),
            1 => cap(&t.t()),
            _ => cap(&rt::reverse_axes(t)),
        },
        VOp::MTrans => match v {
            0 => c!(t.matrix_transpose_f())?,
            1 => cap(&t.matrix_transpose()),
            _ => c!(rt::matrix_transpose_f(t))?,
        },
        VOp::Swap(a, b) => match v {
            0 => c!(t.swapaxes_f(*a as isize, *b as isize))?,
            1 => cap(&t.swapaxes(*a as i32, *b as i32)),
            _ => c!(rt::swapaxes_f(t, *a as isize, *b as isize))?,
        },
        VOp::Move(a, b) => match v {
            0 => c!(t.moveaxis_f(axi(a), axi(b)))?,
            1 => cap(&t.moveaxis(axi(a), axi(b))),
            _ => c!(rt::moveaxis_f(t, axi(a), axi(b)))?,
        },
        VOp::Flip(a) => match v {
            0 => c!(t.flip_f(axo(a)))?,
            1 => cap(&t.flip(axo(a))),
            _ => c!(rt::flip_f(t, axo(a)))?,
        },
        VOp::Expand(a) => match v {
            0 => c!(t.expand_dims_f(axi(a)))?,
            1 => cap(&t.expand_dims(axi(a))),
            2 => c!(rt::unsqueeze_f(t, axi(a)))?,
            _ => c!(rt::expand_dims_f(t, axi(a)))?,
        },
        VOp::Squeeze(a) => match v {
            0 => c!(t.squeeze_f(axo(a)))?,
            1 => cap(&t.squeeze(axo(a))),
            _ => c!(rt::squeeze_f(t, axo(a)))?,
        },
        VOp::Dyn => match v {
            0 => c!(t.to_dim_f::<IxD>())?,
            _ => cap(&t.to_dyn()),
        },
        VOp::ToDim(n) => match n {
            0 => c!(t.to_dim_f::<dev::Ix0>())?,
            1 => c!(t.to_dim_f::<Ix1>())?,
            2 => c!(t.to_dim_f::<Ix2>())?,
            3 => c!(t.to_dim_f::<Ix3>())?,
            4 => c!(t.to_dim_f::<Ix4>())?,
            5 => c!(t.to_dim_f::<Ix5>())?,
            _ => c!(t.to_dim_f::<Ix6>())?,
        },
        _ => unreachable!(),
    })
}
/// operations needing the dynamic dimensionality
fn by_ref_dyn<T: El, B: DeviceAPI<T, Raw = Vec<T>>>(op: &VOp, t: &TensorView<'_, T, B, IxD>, v: usize) -> Result<Cap, E> {
    Ok(match op {
        VOp::Diag(f, a, b) => {
            let args = (di(f), di(a), di(b));
            let _ = &args;
            let da = diag_args(f, a, b);
            match v {
                0 => c!(t.diagonal_f(da))?,
                1 => cap(&t.diagonal(da)),
                _ => c!(rt::diagonal_f(t, da))?,
            }
        },
        VOp::Broadcast(s) => match v {
            0 => c!(t.to_broadcast_f(s.clone()))?,
            1 => cap(&t.broadcast_to(s.clone())),
            2 => c!(rt::broadcast_to_f(t, s.clone()))?,
            _ => cap(&rt::to_broadcast(t, s.clone())),
        },
        _ => return by_ref(op, t, v),
    })
}
pub fn diag_args(f: &Option<i64>, a: &Option<i64>, b: &Option<i64>) -> dev::DiagonalArgs {
    let mut d: dev::DiagonalArgs = ().into();
    let g: dev::DiagonalArgs = match f {
        Some(f) => (*f as isize).into(),
        None => ().into(),
    };
    if a.is_some() || b.is_some() {
        d = (f.unwrap_or(0) as isize, a.unwrap_or(0) as isize, b.unwrap_or(1) as isize).into();
        d
    } else {
        g
    }
}
/// operations that consume the tensor (owned or view), keeping its storage
fn consume<R, T, B>(op: &VOp, t: TensorAny<R, T, B, IxD>, v: usize) -> Result<TensorAny<R, T, B, IxD>, E>
where
    R: DataAPI<Data = Vec<T>>,
    T: El,
    B: DeviceAPI<T, Raw = Vec<T>>,
{
    match op {
        VOp::Slice(it) => {
            if v % 2 == 0 {
                t.into_slice_f(indexers(it))
            } else {
                Ok(rt::into_slice(t, indexers(it)))
            }
        },
        VOp::Transpose(a) => {
            if v % 2 == 0 {
                t.into_transpose_f(axo(a))
            } else {
                Ok(rt::into_permute_dims(t, axo(a)))
            }
        },
        VOp::Reverse => Ok(t.into_reverse_axes()),
        VOp::MTrans => t.into_matrix_transpose_f(),
        VOp::Swap(a, b) => t.into_swapaxes_f(*a as isize, *b as isize),
        VOp::Move(a, b) => t.into_moveaxis_f(axi(a), axi(b)),
        VOp::Flip(a) => t.into_flip_f(axo(a)),
        VOp::Expand(a) => t.into_expand_dims_f(axi(a)),
        VOp::Squeeze(a) => t.into_squeeze_f(axo(a)),
        VOp::Diag(f, a, b) => t.into_diagonal_f(diag_args(f, a, b)),
        VOp::Broadcast(s) => {
            if v % 2 == 0 {
                t.into_broadcast_f(s.clone())
            } else {
                Ok(t.into_broadcast(s.clone()))
            }
        },
        VOp::Dyn => Ok(t.into_dyn()),
        VOp::ToDim(n) => match n {
            0 => t.into_dim_f::<dev::Ix0>().map(|x| x.into_dyn()),
            1 => t.into_dim_f::<Ix1>().map(|x| x.into_dyn()),
            2 => t.into_dim_f::<Ix2>().map(|x| x.into_dyn()),
            3 => t.into_dim_f::<Ix3>().map(|x| x.into_dyn()),
            4 => t.into_dim_f::<Ix4>().map(|x| x.into_dyn()),
            5 => t.into_dim_f::<Ix5>().map(|x| x.into_dyn()),
            _ => t.into_dim_f::<Ix6>().map(|x| x.into_dyn()),
        },
    }
}
fn by_mut<T: El, B: DeviceAPI<T, Raw = Vec<T>>>(op: &VOp, t: &mut TensorMut<'_, T, B, IxD>, v: usize) -> Option<Result<Cap, E>> {
    Some(match op {
        VOp::Slice(it) => match v % 4 {
            0 => t.slice_mut_f(indexers(it)).map(|t| cap(&t)),
            1 => t.i_mut_f(indexers(it)).map(|t| cap(&t)),
            2 => rt::slice_mut_f(t, indexers(it)).map(|t| cap(&t)),
            _ => Ok(cap(&t.i_mut(indexers(it)))),
        },
        VOp::Diag(f, a, b) => match v % 2 {
            0 => t.diagonal_mut_f(diag_args(f, a, b)).map(|t| cap(&t)),
            _ => rt::diagonal_mut_f(t, diag_args(f, a, b)).map(|t| cap(&t)),
        },
        _ => return None,
    })
}
/// Execute a view operation through the entry point chosen by `how`:
/// 0..6 by reference (fixed dimensionality when `fixed`), 10.. consuming a view, 20.. consuming an
/// owned tensor, 30.. through a mutable view.
pub fn exec<T: El, B: DeviceAPI<T, Raw = Vec<T>>>(
    op: &VOp,
    buf: &mut Vec<T>,
    lay: &Layout<IxD>,
    d: &B,
    how: usize,
    fixed: bool,
) -> Res<Cap> {
    match how / 10 {
        1 => {
            let t = view_of(&*buf, lay.clone(), d);
            run(move || consume(op, t, how % 10).map(|t| cap(&t)))
        },
        2 => {
            let keep = buf.clone();
            let own = std::mem::take(buf);
            let p0 = own.as_ptr() as usize;
            let t = owned_of(own, lay.clone(), d);
            let r = run(move || consume(op, t, how % 10).map(|t| {
                let l = t.layout().clone();
                let (s, _) = t.into_raw_parts();
                let (data, _) = s.into_raw_parts();
                (l, data.into_raw())
            }));
            match r {
                Res::Ok((l, raw)) => {
                    let p = raw.as_ptr() as usize;
                    let same = p == p0 && raw.len() == keep.len();
                    *buf = raw;
                    let q = buf.as_ptr() as usize;
                    Res::Ok((l, if same { q } else { 0 }))
                },
                Res::Err(e) => {
                    *buf = keep;
                    Res::Err(e)
                },
                Res::Panic(e) => {
                    *buf = keep;
                    Res::Panic(e)
                },
            }
        },
        3 => {
            let mut t = mut_of(buf, lay.clone(), d);
            match run_p(|| by_mut(op, &mut t, how % 10)) {
                Res::Ok(Some(Ok(c))) => Res::Ok(c),
                Res::Ok(Some(Err(e))) => Res::Err(format!("{e:?}")),
                Res::Ok(None) => {
                    drop(t);
                    exec(op, buf, lay, d, 0, fixed)
                },
                Res::Err(e) => Res::Err(e),
                Res::Panic(e) => Res::Panic(e),
            }
        },
        _ => {
            let buf: &Vec<T> = buf;
            let v = how % 10;
            if fixed && !matches!(op, VOp::Diag(..) | VOp::Broadcast(_)) {
                match lay.ndim() {
                    1 => {
                        let t = view_of(buf, lay.to_dim::<Ix1>().unwrap(), d);
                        return run(|| by_ref(op, &t, v));
                    },
                    2 => {
                        let t = view_of(buf, lay.to_dim::<Ix2>().unwrap(), d);
                        return run(|| by_ref(op, &t, v));
                    },
                    3 => {
                        let t = view_of(buf, lay.to_dim::<Ix3>().unwrap(), d);
                        return run(|| by_ref(op, &t, v));
                    },
                    _ => {},
                }
            }
            let t = view_of(buf, lay.clone(), d);
            run(|| by_ref_dyn(op, &t, v))
        },
    }
}
/// is the entry point one of the panicking forms?
pub fn is_infallible(op: &VOp, how: usize) -> bool {
    let v = how % 10;
    match (op, how / 10) {
        (VOp::Slice(_), 0) => matches!(v, 1 | 4 | 5..=9),
        (VOp::Slice(_), 1 | 2) => v % 2 == 1,
        (VOp::Slice(_), 3) => v % 4 == 3,
        (VOp::Transpose(_), 0) => v == 1 || v > 2,
        (VOp::Transpose(_), 1 | 2) => v % 2 == 1,
        (VOp::Reverse, _) => true,
        (VOp::Broadcast(_), 0) => v == 1 || v > 2,
        (VOp::Broadcast(_), 1 | 2) => v % 2 == 1,
        (VOp::Broadcast(_), 3) => false,
        (VOp::ToDim(_) | VOp::Dyn, _) => false,
        (_, 0) => v == 1,
        _ => false,
    }
}
