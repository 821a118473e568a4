// Materialising conversions and writes, for one concrete element type T and device type B.
// (included once per instance)
use vh::dev::{self, TensorIterOrder as TO};
type Tn<D> = Tensor<T, B, D>;
type TView<'a, D> = TensorView<'a, T, B, D>;
type TMut<'a, D> = dev::TensorMut<'a, T, B, D>;

/// a result: its layout and either the source's storage or a fresh buffer
pub struct MRes {
    pub lay: Layout<IxD>,
    pub fresh: Option<Vec<T>>,
}
fn from_cow<D: DimAPI>(t: dev::TensorCow<'_, T, B, D>, src: usize) -> MRes {
    let lay = t.layout().to_dim::<IxD>().unwrap();
    let raw: &Vec<T> = t.raw();
    let fresh = if raw.as_ptr() as usize == src { None } else { Some(raw.clone()) };
    MRes { lay, fresh }
}
/// an owned tensor has a buffer of its own by type
fn from_own<D: DimAPI>(t: Tn<D>) -> MRes {
    let lay = t.layout().to_dim::<IxD>().unwrap();
    let fresh = Some(t.raw().clone());
    MRes { lay, fresh }
}
fn from_view<D: DimAPI>(t: TView<'_, D>, src: usize) -> MRes {
    let lay = t.layout().to_dim::<IxD>().unwrap();
    let raw: &Vec<T> = t.raw();
    let fresh = if raw.as_ptr() as usize == src { None } else { Some(raw.clone()) };
    MRes { lay, fresh }
}

#[derive(Clone, Debug)]
pub enum MOp {
    Reshape(Vec<i64>, Option<FlagOrder>, Option<bool>),
    Contig(FlagOrder),
    Prefer(FlagOrder),
    ToLayout(Lay),
    Own,
    AsArray(TO),
}
impl MOp {
    pub fn name(&self) -> &'static str {
        match self {
            MOp::Reshape(..) => "reshape",
            MOp::Contig(_) => "contig",
            MOp::Prefer(_) => "prefer",
            MOp::ToLayout(_) => "layout",
            MOp::Own => "own",
            MOp::AsArray(_) => "asarray",
        }
    }
    pub fn args(&self) -> J {
        match self {
            MOp::Reshape(s, o, c) => jo! {sh: s, order: o.map(oname), copy: *c},
            MOp::Contig(o) | MOp::Prefer(o) => jo! {order: oname(*o)},
            MOp::ToLayout(l) => jo! {sh: &l.sh, st: &l.st, of: l.of},
            MOp::Own => jo! {n: 0},
            MOp::AsArray(o) => jo! {order: match o { TO::C => "C", TO::F => "F", _ => "K" }},
        }
    }
    /// number of entry points
    pub fn hows(&self) -> usize {
        match self {
            MOp::Reshape(..) => 17,
            MOp::Contig(_) | MOp::Prefer(_) => 8,
            MOp::ToLayout(_) => 7,
            MOp::Own => 7,
            MOp::AsArray(_) => 3,
        }
    }
}
fn sh_ax(v: &[i64]) -> dev::AxesIndex<isize> {
    dev::AxesIndex::Vec(v.iter().map(|&x| x as isize).collect())
}
/// (effective op, is the panicking form, result owned while the source is only borrowed)
pub fn mclass(op: &MOp, how: usize) -> (bool, bool, bool) {
    // (infallible, must be fresh, must not copy)
    match op {
        MOp::Reshape(..) => (
            matches!(how, 2 | 3 | 7 | 10 | 12 | 15 | 16),
            matches!(how, 5 | 6 | 7),
            matches!(how, 13 | 14 | 15 | 16),
        ),
        MOp::Contig(_) | MOp::Prefer(_) => (matches!(how, 1 | 5 | 7), matches!(how, 4 | 5), false),
        MOp::ToLayout(_) => (matches!(how, 1 | 5), matches!(how, 4 | 5), false),
        MOp::Own => (false, matches!(how, 0 | 1 | 4), false),
        MOp::AsArray(_) => (false, true, false),
    }
}
fn mat_d<D: DimAPI>(op: &MOp, how: usize, buf: &Vec<T>, l: Layout<D>, d: &B) -> Res<MRes>
where
    B: dev::OpAssignArbitaryAPI<T, D, D>
        + dev::OpAssignArbitaryAPI<T, IxD, D>
        + dev::OpAssignAPI<T, D>
        + dev::OpAssignArbitaryAPI<T, IxD, IxD>,
{
    let p = buf.as_ptr() as usize;
    let own = || owned_of::<T, B, D>(buf.clone(), l.clone(), d);
    let t = view_of(buf, l.clone(), d);
    match op {
        MOp::Reshape(s, o, c) => {
            let a = rt::ReshapeArgs { order: *o, copy: *c };
            let s = sh_ax(s);
            match how {
                0 => run(|| rt::reshape_with_args_f(&t, s, a).map(|t| from_cow(t, p))),
                1 => run(|| t.to_shape_with_args_f(s, a).map(|t| from_cow(t, p))),
                2 => run_p(|| from_cow(t.reshape_with_args(s, a), p)),
                3 => run_p(|| from_cow(rt::to_shape_with_args(&t, s, a), p)),
                4 => run(|| t.view().change_shape_with_args_f(s, a).map(|t| from_cow(t, p))),
                5 => run(|| t.view().into_shape_with_args_f(s, a).map(from_own)),
                6 => run(|| rt::into_shape_with_args_f(t.view(), s, a).map(from_own)),
                7 => run_p(|| from_own(t.view().into_shape_with_args(s, a))),
                8 => run(|| own().change_shape_with_args_f(s, a).map(|t| from_cow(t, p))),
                9 => run(|| own().into_shape_with_args_f(s, a).map(from_own)),
                10 => run_p(|| from_own(rt::into_shape_with_args(own(), s, a))),
                // short forms: the caller passes order and copy absent
                11 => run(|| t.reshape_f(s).map(|t| from_cow(t, p))),
                12 => run_p(|| from_own(own().into_shape(s))),
                13 => run(|| t.to_compatible_shape_f(s, *o).map(|t| from_view(t, p))),
                14 => run(|| own().into_compatible_shape_f(s, *o).map(from_own)),
                15 => run_p(|| from_view(rt::to_compatible_shape(&t, s, *o), p)),
                _ => run_p(|| from_own(rt::into_compatible_shape(own(), s, *o))),
            }
        },
        MOp::Contig(o) => match how {
            0 => run(|| t.to_contig_f(*o).map(|t| from_cow(t, p))),
            1 => run_p(|| from_cow(rt::to_contig(&t, *o), p)),
            2 => run(|| t.view().change_contig_f(*o).map(|t| from_cow(t, p))),
            3 => run(|| own().change_contig_f(*o).map(|t| from_cow(t, p))),
            4 => run(|| t.view().into_contig_f(*o).map(from_own)),
            5 => run_p(|| from_own(t.view().into_contig(*o))),
            6 => run(|| own().into_contig_f(*o).map(from_own)),
            _ => run_p(|| from_own(own().into_contig(*o))),
        },
        MOp::Prefer(o) => match how {
            0 => run(|| t.to_prefer_f(*o).map(|t| from_cow(t, p))),
            1 => run_p(|| from_cow(rt::to_prefer(&t, *o), p)),
            2 => run(|| t.view().change_prefer_f(*o).map(|t| from_cow(t, p))),
            3 => run(|| own().change_prefer_f(*o).map(|t| from_cow(t, p))),
            4 => run(|| t.view().into_prefer_f(*o).map(from_own)),
            5 => run_p(|| from_own(t.view().into_prefer(*o))),
            6 => run(|| own().into_prefer_f(*o).map(from_own)),
            _ => run_p(|| from_own(own().into_prefer(*o))),
        },
        MOp::ToLayout(x) => {
            let x = x.layout();
            match how {
                0 => run(|| t.to_layout_f::<IxD>(x).map(|t| from_cow(t, p))),
                1 => run_p(|| from_cow(t.to_layout::<IxD>(x), p)),
                2 => run(|| rt::change_layout_f::<_, T, B, D, IxD>(t.view(), x).map(|t| from_cow(t, p))),
                3 => run(|| own().change_layout_f::<IxD>(x).map(|t| from_cow(t, p))),
                4 => run(|| t.view().into_layout_f::<IxD>(x).map(from_own)),
                5 => run_p(|| from_own(t.view().into_layout::<IxD>(x))),
                _ => run(|| own().into_layout_f::<IxD>(x).map(from_own)),
            }
        },
        MOp::Own => match how {
            0 => run_p(|| from_own(t.to_owned())),
            1 => run_p(|| from_own(t.view().into_owned())),
            2 => run_p(|| from_own(own().into_owned())),
            3 => run_p(|| from_own(own().into_shared().into_owned())),
            4 => run_p(|| from_own(t.view().into_owned_keep_layout())),
            5 => run_p(|| {
                let o = own();
                let c = o.clone();
                drop(o);
                from_own(c)
            }),
            _ => run_p(|| from_cow(t.view().into_cow(), p)),
        },
        MOp::AsArray(o) => match how {
            0 => run(|| rt::asarray_f((&t, *o)).map(from_own)),
            1 => run(|| rt::asarray_f((t.view(), *o)).map(from_own)),
            _ => run(|| rt::asarray_f((own(), *o)).map(from_own)),
        },
    }
}
pub fn mat(op: &MOp, how: usize, fixed: bool, buf: &Vec<T>, l: &Layout<IxD>, d: &B) -> Res<MRes> {
    if fixed {
        match l.ndim() {
            1 => return mat_f(op, how, buf, l.to_dim::<Ix1>().unwrap(), d),
            2 => return mat_f(op, how, buf, l.to_dim::<Ix2>().unwrap(), d),
            3 => return mat_f(op, how, buf, l.to_dim::<Ix3>().unwrap(), d),
            _ => {},
        }
    }
    mat_d::<IxD>(op, how, buf, l.clone(), d)
}
fn mat_f<D: DimAPI>(op: &MOp, how: usize, buf: &Vec<T>, l: Layout<D>, d: &B) -> Res<MRes>
where
    B: dev::OpAssignArbitaryAPI<T, D, D>
        + dev::OpAssignArbitaryAPI<T, IxD, D>
        + dev::OpAssignAPI<T, D>
        + dev::OpAssignArbitaryAPI<T, IxD, IxD>,
{
    mat_d::<D>(op, how, buf, l, d)
}
pub fn rand_reshape(r: &mut Rng, sh: &[usize]) -> MOp {
    let n = prod(sh);
    let mut v: Vec<i64>;
    if r.chance(25) {
        // merge or split adjacent axes: often possible without copying
        v = sh.iter().map(|&d| d as i64).collect();
        for _ in 0..r.us(1, 3) {
            if v.is_empty() || r.chance(30) {
                v.insert(r.us(0, v.len()), 1);
            } else if r.chance(50) && v.len() >= 2 {
                let i = r.us(0, v.len() - 2);
                v[i] *= v[i + 1];
                v.remove(i + 1);
            } else {
                let i = r.us(0, v.len() - 1);
                for q in [2, 3] {
                    if v[i] > 0 && v[i] % q == 0 {
                        let rest = v[i] / q;
                        v[i] = q;
                        v.insert(i + 1, rest);
                        break;
                    }
                }
            }
        }
    } else {
        // factor n at random
        v = vec![];
        let mut m = n as i64;
        if n == 0 {
            for _ in 0..r.us(1, 3) {
                v.push(r.int(0, 3));
            }
        } else {
            while m > 1 {
                let mut f: Vec<i64> = (2..=m).filter(|k| m % k == 0).collect();
                f.truncate(6);
                let k = *r.pick(&f);
                v.push(k);
                m /= k;
                if v.len() > 4 {
                    v.push(m);
                    break;
                }
            }
            for _ in 0..2 {
                if r.chance(20) {
                    v.insert(r.us(0, v.len()), 1);
                }
            }
            r.shuffle(&mut v);
        }
    }
    if r.chance(30) && !v.is_empty() {
        let i = r.us(0, v.len() - 1);
        v[i] = -1;
    }
    if r.chance(12) && !v.is_empty() {
        let i = r.us(0, v.len() - 1);
        v[i] = *r.pick(&[0, 1, 2, 3, 5, -1, -2, 7]);
    }
    let o = match r.int(0, 3) {
        0 => Some(FlagOrder::C),
        1 => Some(FlagOrder::F),
        _ => None,
    };
    let c = match r.int(0, 5) {
        0 => Some(true),
        1 | 2 => Some(false),
        _ => None,
    };
    MOp::Reshape(v, o, c)
}
pub fn rand_mop(r: &mut Rng, sh: &[usize]) -> MOp {
    match r.int(0, 10) {
        0 | 1 => MOp::Contig(*r.pick(&ORD)),
        2 => MOp::Prefer(*r.pick(&ORD)),
        3 | 4 => {
            let t: Vec<usize> = if r.chance(60) {
                let mut t = sh.to_vec();
                if r.chance(30) {
                    r.shuffle(&mut t);
                }
                if r.chance(7) && !t.is_empty() {
                    t[0] += 1;
                }
                t
            } else if prod(sh) > 0 {
                match rand_reshape(r, sh) {
                    MOp::Reshape(v, ..) if v.iter().all(|&x| x > 0) => v.iter().map(|&x| x as usize).collect(),
                    _ => sh.to_vec(),
                }
            } else {
                sh.to_vec()
            };
            if prod(&t) > 200 { MOp::Own } else { MOp::ToLayout(Lay::random(r, &t, false)) }
        },
        5 | 6 => MOp::Own,
        7 => MOp::AsArray(*r.pick(&[TO::C, TO::F, TO::K])),
        _ => rand_reshape(r, sh),
    }
}

/* ---------------------------------------------------------------- writes */
#[derive(Clone, Debug)]
pub enum WOp {
    Fill(i64),
    Assign(usize),
    OpAssign(&'static str, usize),
    OpScalar(&'static str, i64),
    Elem(Vec<usize>, i64),
    Seq(FlagOrder, i64),
    Map,
    Idx,
    WithOut(&'static str, usize, usize),
}
fn f2(op: &str, a: T, b: T) -> T {
    match op {
        "add" => a + b,
        "sub" => a - b,
        _ => a * b,
    }
}
impl WOp {
    pub fn name(&self) -> &'static str {
        match self {
            WOp::Fill(_) => "fill",
            WOp::Assign(_) => "assign",
            WOp::OpAssign(..) => "opassign",
            WOp::OpScalar(..) => "opscalar",
            WOp::Elem(..) => "elem",
            WOp::Seq(..) => "seq",
            WOp::Map => "map",
            WOp::Idx => "idx",
            WOp::WithOut(..) => "without",
        }
    }
    pub fn args(&self) -> J {
        match self {
            WOp::Fill(v) => jo! {v: *v},
            WOp::Assign(s) => jo! {src: *s + 1},
            WOp::OpAssign(f, s) => jo! {f: *f, src: *s + 1},
            WOp::OpScalar(f, v) => jo! {f: *f, v: *v},
            WOp::Elem(i, v) => jo! {idx: i, v: *v},
            WOp::Seq(o, v) => jo! {order: oname(*o), v: *v},
            WOp::Map | WOp::Idx => jo! {n: 0},
            WOp::WithOut(f, x, y) => jo! {f: *f, x: *x + 1, y: *y + 1},
        }
    }
    pub fn hows(&self) -> usize {
        match self {
            WOp::Fill(_) => 4,
            WOp::Assign(_) => 5,
            WOp::OpAssign(..) => 5,
            WOp::OpScalar(..) => 3,
            WOp::Elem(..) => 2,
            WOp::Seq(..) => 3,
            WOp::Map => 7,
            WOp::Idx => 2,
            WOp::WithOut(..) => 2,
        }
    }
    pub fn infallible(&self, how: usize) -> bool {
        match self {
            WOp::Fill(_) => how == 1 || how == 3,
            WOp::Assign(_) => how == 1 || how == 4,
            WOp::OpAssign(..) => how == 0 || how == 4,
            WOp::OpScalar(..) => how == 0,
            WOp::Elem(..) => true,
            WOp::WithOut(..) => how == 1,
            _ => true,
        }
    }
}
macro_rules! opas {
    ($f:expr, $how:expr, $t:expr, $s:expr) => {{
        let (f, s): (&str, &TView<'_, IxD>) = ($f, $s);
        match ($how, f) {
            (0, "add") => run_p(|| *$t += s),
            (0, "sub") => run_p(|| *$t -= s),
            (0, _) => run_p(|| *$t *= s),
            (1, "add") => run(|| rt::add_assign_f(&mut *$t, s)),
            (1, "sub") => run(|| rt::sub_assign_f(&mut *$t, s)),
            (1, _) => run(|| rt::mul_assign_f(&mut *$t, s)),
            (2, "add") => run(|| rt::add_assign_f(&mut *$t, s.view())),
            (2, "sub") => run(|| rt::sub_assign_f(&mut *$t, s.to_owned())),
            (2, _) => run(|| rt::mul_assign_f(&mut *$t, s.view())),
            (3, "add") => run(|| rt::add_assign_f(&mut $t.view_mut(), s)),
            (3, "sub") => run(|| rt::sub_assign_f(&mut $t.view_mut(), s)),
            (3, _) => run(|| rt::mul_assign_f(&mut $t.view_mut(), s.view())),
            (_, "add") => run_p(|| rt::add_assign(&mut $t.view_mut(), s)),
            (_, "sub") => run_p(|| rt::sub_assign(&mut *$t, s)),
            (_, _) => run_p(|| rt::mul_assign(&mut *$t, s.view())),
        }
    }};
}
macro_rules! wr {
    ($op:expr, $how:expr, $t:expr, $s:expr) => {{
        let (op, how): (&WOp, usize) = ($op, $how);
        let s: &Vec<TView<'_, IxD>> = $s;
        match op {
            WOp::Fill(v) => match how {
                0 => run(|| $t.fill_f(T::fi(*v))),
                1 => run_p(|| $t.fill(T::fi(*v))),
                2 => run(|| rstsr_core::prelude_dev::fill_f(&mut *$t, T::fi(*v))),
                _ => run_p(|| $t.view_mut().fill(T::fi(*v))),
            },
            WOp::Assign(_) => match how {
                0 => run(|| $t.assign_f(&s[0])),
                1 => run_p(|| $t.assign(&s[0])),
                2 => run(|| $t.assign_f(s[0].view())),
                3 => run(|| $t.view_mut().assign_f(s[0].to_owned())),
                _ => run_p(|| rstsr_core::prelude_dev::assign(&mut *$t, &s[0])),
            },
            WOp::OpAssign(f, _) => opas!(f, how, $t, &s[0]),
            WOp::OpScalar(f, v) => {
                let v = T::fi(*v);
                match (how, *f) {
                    (0, "add") => run_p(|| *$t += v),
                    (0, "sub") => run_p(|| *$t -= v),
                    (0, _) => run_p(|| *$t *= v),
                    (1, "add") => run(|| rt::add_assign_f(&mut *$t, v)),
                    (1, "sub") => run(|| rt::sub_assign_f(&mut *$t, v)),
                    (1, _) => run(|| rt::mul_assign_f(&mut *$t, v)),
                    (_, "add") => run(|| rt::add_assign_f(&mut $t.view_mut(), v)),
                    (_, "sub") => run(|| rt::sub_assign_f(&mut $t.view_mut(), v)),
                    (_, _) => run(|| rt::mul_assign_f(&mut $t.view_mut(), v)),
                }
            },
            WOp::Elem(i, v) => match how {
                0 => run_p(|| $t.view_mut()[i.clone()] = T::fi(*v)),
                _ => run_p(|| $t.view_mut()[i.as_slice()] = T::fi(*v)),
            },
            WOp::Seq(o, v) => {
                let ord = if *o == FlagOrder::C { TO::C } else { TO::F };
                run_p(|| {
                    let mut k = *v;
                    match how {
                        0 => {
                            for x in $t.iter_mut_with_order(ord) {
                                *x = T::fi(k);
                                k += 1;
                            }
                        },
                        1 => {
                            // from both ends
                            let n = $t.size() as i64;
                            let mut it = $t.iter_mut_with_order(ord);
                            let mut b = k + n - 1;
                            loop {
                                match it.next() {
                                    Some(x) => *x = T::fi(k),
                                    None => break,
                                }
                                k += 1;
                                match it.next_back() {
                                    Some(x) => *x = T::fi(b),
                                    None => break,
                                }
                                b -= 1;
                            }
                        },
                        _ => {
                            for (_, x) in $t.indexed_iter_mut_with_order(ord) {
                                *x = T::fi(k);
                                k += 1;
                            }
                        },
                    }
                })
            },
            WOp::Map => {
                let two = T::fi(2);
                let one = T::fi(1);
                match how {
                    0 => run_p(|| map_plain(&mut *$t)),
                    1 => run(|| map_val(&mut *$t)),
                    2 => run_p(|| $t.mapi(|x| *x = *x * two + one)),
                    3 => run_p(|| $t.mapvi(|x| x * two + one)),
                    4 => run_p(|| $t.iter_mut_with_order(TO::K).for_each(|x| *x = *x * two + one)),
                    5 => run_p(|| $t.iter_mut().for_each(|x| *x = *x * two + one)),
                    _ => run_p(|| {
                        let mut m = rt::TensorMutable::Mut($t.view_mut());
                        m.view_mut().mapi(|x| *x = *x * two + one);
                        let _ = m.clone_to_mut();
                    }),
                }
            },
            WOp::Idx => run_p(|| {
                let code = |i: &IxD| T::fi(i.iter().fold(0i64, |a, &x| a * 7 + x as i64));
                if how == 0 {
                    $t.indexed_iter_mut().for_each(|(i, x)| *x = code(&i))
                } else {
                    $t.indexed_iter_mut_with_order(TO::F).rev().for_each(|(i, x)| *x = code(&i))
                }
            }),
            WOp::WithOut(f, ..) => match (how, *f) {
                (0, "add") => run(|| rt::add_with_output_f(&s[0], &s[1], $t.view_mut())),
                (0, "sub") => run(|| rt::sub_with_output_f(&s[0], &s[1], $t.view_mut())),
                (0, _) => run(|| rt::mul_with_output_f(s[0].view(), &s[1], &mut *$t)),
                (_, "add") => run_p(|| rt::add_with_output(&s[0], s[1].view(), $t.view_mut())),
                (_, "sub") => run_p(|| rt::sub_with_output(&s[0], &s[1], $t.view_mut())),
                (_, _) => run_p(|| rt::mul_with_output(&s[0], &s[1], &mut *$t)),
            },
        }
    }};
}
/// kinds of target: 0 mutable view, 1 owned tensor, 2 shared tensor (sole holder), 3 converted mutable view
pub fn write(op: &WOp, how: usize, kind: usize, buf: &mut Vec<T>, l: &Layout<IxD>, srcs: &Vec<TView<'_, IxD>>, d: &B) -> Res<()> {
    let _ = f2;
    match kind {
        1 => {
            let mut t = owned_of(std::mem::take(buf), l.clone(), d);
            let r = match op {
                WOp::Elem(i, v) => run_p(|| t[i.clone()] = T::fi(*v)),
                _ => wr!(op, how, &mut t, srcs),
            };
            *buf = t.into_raw_parts().0.into_raw_parts().0.into_raw();
            r
        },
        2 => {
            let mut t = owned_of(std::mem::take(buf), l.clone(), d).into_shared_keep_layout();
            let r = wr!(op, how, &mut t, srcs);
            *buf = t.into_owned_keep_layout().into_raw_parts().0.into_raw_parts().0.into_raw();
            r
        },
        _ => {
            let mut t = mut_of(buf, l.clone(), d);
            wr!(op, how, &mut t, srcs)
        },
    }
}
fn snapshot(s: &Sess<T, B>) -> J {
    J::A(s.bufs.iter().map(|b| jv(b.as_ref())).collect())
}
impl Sess<T, B> {
    pub fn mat(&mut self, src: usize, op: &MOp, how: usize, fixed: bool) -> bool {
        let (b, lay) = (self.env[src].b, self.env[src].lay.clone());
        let mut op = op.clone();
        if let MOp::Reshape(s, o, _) = op.clone() {
            // what this entry point can express
            op = match how {
                11 | 12 => MOp::Reshape(s.clone(), None, None),
                13..=16 => MOp::Reshape(s.clone(), o, None),
                _ => op,
            };
        }
        let r = mat(&op, how, fixed, &self.bufs[b], &lay, &self.d);
        let (inf, own, nocopy) = mclass(&op, how);
        let ok = matches!(r, Res::Ok(_));
        let mut e = jo! { e: "mat", op: op.name(), a: op.args(), o: oname(self.o), src: src + 1, how: how, inf: inf, own: own, nocopy: nocopy };
        match r {
            Res::Ok(m) => {
                let (sh, st, of) = lay_j(&m.lay);
                let nb = match m.fresh {
                    None => b,
                    Some(ref v) => {
                        self.bufs.push(Box::new(v.clone()));
                        self.bufs.len() - 1
                    },
                };
                self.env.push(Ent { b: nb, lay: m.lay });
                let data = if nb == b { J::A(vec![]) } else { jv(self.bufs[nb].as_ref()) };
                e = e.with("t", self.env.len()).with("r", jo! { k: "ok", b: nb + 1, sh: sh, st: st, of: of, data: data });
            },
            ref x => e = e.with("t", 0).with("r", jo! { k: x.kind(), msg: x.msg() }),
        }
        self.ev.push(e.with("heap", snapshot(self)));
        ok
    }
    pub fn reshapeable(&mut self, src: usize, sh: &[usize], o: Option<FlagOrder>) {
        let (b, lay) = (self.env[src].b, self.env[src].lay.clone());
        let t = view_of(self.bufs[b].as_ref(), lay, &self.d);
        let r = run(|| rt::reshapeable_without_copy(&t, sh_ax(&sh.iter().map(|&x| x as i64).collect::<Vec<_>>()), o).map(|x| x.is_some()));
        let ord = oname(o.unwrap_or(self.o));
        self.ev.push(jo! { e: "viewable", t: src + 1, sh: sh, order: ord, r: match r { Res::Ok(x) => jo!{k: "ok", v: x}, ref x => jo!{k: x.kind(), msg: x.msg()} } });
    }
    pub fn tovec(&mut self, src: usize, how: usize) {
        let (b, lay) = (self.env[src].b, self.env[src].lay.clone());
        let buf: &Vec<T> = self.bufs[b].as_ref();
        let d = &self.d;
        let t = view_of(buf, lay.clone(), d);
        let own = || owned_of(buf.clone(), lay.clone(), d);
        let r: Res<Vec<T>> = match how {
            0 => run(|| t.to_raw_f()),
            1 => run_p(|| t.to_vec()),
            2 => run(|| own().into_raw_f()),
            3 => run(|| own().into_vec_f()),
            _ => run_p(|| own().into_vec()),
        };
        let rj = match &r {
            Res::Ok(v) => jo! {k: "ok", v: jv(v)},
            x => jo! {k: x.kind(), msg: x.msg()},
        };
        self.ev.push(jo! { e: "vec", t: src + 1, how: how, inf: how == 1 || how == 4, r: rj });
    }
    pub fn toscalar(&mut self, src: usize, how: usize) {
        let (b, lay) = (self.env[src].b, self.env[src].lay.clone());
        let t = view_of(self.bufs[b].as_ref(), lay, &self.d);
        let r = if how == 0 { run(|| t.to_scalar_f()) } else { run_p(|| t.to_scalar()) };
        let rj = match &r {
            Res::Ok(v) => jo! {k: "ok", v: v.ti()},
            x => jo! {k: x.kind(), msg: x.msg()},
        };
        self.ev.push(jo! { e: "scalar", t: src + 1, how: how, inf: how == 1, r: rj });
    }
    pub fn write(&mut self, t: usize, op: &WOp, how: usize, kind: usize) {
        let (b, lay) = (self.env[t].b, self.env[t].lay.clone());
        let z = lay.stride().iter().any(|&s| s == 0);
        let ids: Vec<usize> = match op {
            WOp::Assign(s) | WOp::OpAssign(_, s) => vec![*s],
            WOp::WithOut(_, x, y) => vec![*x, *y],
            _ => vec![],
        };
        // sources live in other buffers (the borrow rules forbid anything else)
        let sb: Vec<(Box<Vec<T>>, Layout<IxD>)> = ids.iter().map(|&i| (self.bufs[self.env[i].b].clone(), self.env[i].lay.clone())).collect();
        let r = {
            let d = self.d.clone();
            let srcs: Vec<TView<'_, IxD>> = sb.iter().map(|(x, l)| view_of(x.as_ref(), l.clone(), &d)).collect();
            let buf = &mut self.bufs[b];
            write(op, how, kind, buf, &lay, &srcs, &d)
        };
        let kept = sb.iter().zip(&ids).all(|((x, _), &i)| **x == *self.bufs[self.env[i].b]);
        self.ev.push(jo! { e: "write", op: op.name(), a: op.args(), o: oname(self.o), t: t + 1, z: z, how: how, kind: kind, kept: kept,
            inf: op.infallible(how), r: jo!{k: r.kind(), msg: r.msg()}, heap: snapshot(self) });
    }
}
fn small(s: &mut Sess<T, B>) -> bool {
    let i = s.env.len() - 1;
    s.shape(i).iter().all(|&d| d < 1000) && prod(&s.shape(i)) <= 200
}
pub fn rand_view(r: &mut Rng, s: &mut Sess<T, B>, bcast: bool) {
    let i = r.us(0, s.env.len() - 1);
    let sh = s.shape(i);
    let op = if r.chance(35) {
        VOp::rand_slice(r, &sh)
    } else if bcast && r.chance(15) {
        VOp::rand_broadcast(r, &sh, s.o, 120)
    } else {
        VOp::rand_axis_op(r, &sh)
    };
    s.view(i, &op, 0, false);
}
pub fn p03_session(r: &mut Rng, d: B, o: FlagOrder, out: &mut Out) {
    let mut s = Sess::<T, B>::new(d, o);
    let sh = rand_shape(r, 4, 5, 60, 4);
    let lay = Lay::random(r, &sh, true);
    s.alloc(&lay, 1);
    for _ in 0..r.us(2, 7) {
        let src = if r.chance(60) { s.env.len() - 1 } else { r.us(0, s.env.len() - 1) };
        let sh = s.shape(src);
        if prod(&sh) > 200 {
            continue;
        }
        match r.int(0, 13) {
            0..=3 => rand_view(r, &mut s, true),
            4..=10 => {
                let op = rand_mop(r, &sh);
                let how = r.us(0, op.hows() - 1);
                let fixed = r.chance(50);
                s.mat(src, &op, how, fixed);
            },
            11 => {
                if let MOp::Reshape(v, o, _) = rand_reshape(r, &sh) {
                    if v.iter().all(|&x| x >= 0) {
                        let v: Vec<usize> = v.iter().map(|&x| x as usize).collect();
                        if prod(&v) == prod(&sh) {
                            s.reshapeable(src, &v, o);
                        }
                    }
                }
            },
            12 => {
                let h = r.us(0, 4);
                if sh.len() != 1 && r.chance(60) {
                    s.view(src, &VOp::Slice(sh.iter().skip(1).map(|_| Item::I(-1)).collect()), 0, false);
                    let i = s.env.len() - 1;
                    s.tovec(i, h);
                } else {
                    s.tovec(src, h);
                }
            },
            _ => {
                let h = r.us(0, 1);
                if prod(&sh) != 1 && r.chance(60) {
                    s.view(src, &VOp::Slice(sh.iter().map(|_| Item::I(-1)).collect()), 0, false);
                    let i = s.env.len() - 1;
                    s.toscalar(i, h);
                } else {
                    s.toscalar(src, h);
                }
            },
        }
        if !small(&mut s) {
            break;
        }
        if s.bufs.len() > 6 {
            break;
        }
    }
    out.session(s.ev);
}
/// a source for a broadcasting write into shape `sh`
fn rand_source(r: &mut Rng, s: &mut Sess<T, B>, sh: &[usize]) -> usize {
    let mut t: Vec<usize> = sh.iter().map(|&d| if r.chance(20) { 1 } else { d }).collect();
    let drop = if r.chance(30) { r.us(0, t.len()) } else { 0 };
    for _ in 0..drop {
        if s.o == FlagOrder::C {
            t.remove(0);
        } else {
            t.pop();
        }
    }
    if r.chance(6) && !t.is_empty() {
        let i = r.us(0, t.len() - 1);
        t[i] += 1;
    }
    if r.chance(3) {
        t.insert(0, 1);
    }
    let lay = Lay::random(r, &t, true);
    s.alloc(&lay, 3);
    s.env.len() - 1
}
pub fn p06_session(r: &mut Rng, d: B, o: FlagOrder, out: &mut Out) {
    let mut s = Sess::<T, B>::new(d, o);
    let sh = rand_shape(r, 4, 5, 40, 4);
    let lay = Lay::random(r, &sh, r.clone().chance(15));
    s.alloc(&lay, 1);
    for _ in 0..r.us(0, 3) {
        if r.chance(10) {
            rand_view(r, &mut s, true);
        } else {
            rand_view(r, &mut s, false);
        }
        if !small(&mut s) {
            return;
        }
    }
    let home: Vec<usize> = (0..s.env.len()).collect();
    for _ in 0..r.us(1, 4) {
        let t = *r.pick(&home);
        let sh = s.shape(t);
        let lay = s.env[t].lay.clone();
        let bc = lay.shape().iter().zip(lay.stride().iter()).any(|(&d, &x)| d > 1 && x == 0);
        let f = *r.pick(&["add", "sub", "mul"]);
        let mut op = match r.int(0, 12) {
            0 | 1 => WOp::Fill(r.int(-9, 9)),
            2 | 3 | 4 => WOp::Assign(rand_source(r, &mut s, &sh)),
            5 | 6 => WOp::OpAssign(f, rand_source(r, &mut s, &sh)),
            7 => WOp::OpScalar(f, r.int(-3, 3)),
            8 => {
                let mut idx: Vec<usize> = sh.iter().map(|&d| if d > 0 { r.us(0, d - 1) } else { 0 }).collect();
                if r.chance(10) && !idx.is_empty() {
                    let i = r.us(0, idx.len() - 1);
                    idx[i] += r.us(1, 3);
                }
                WOp::Elem(idx, r.int(-9, 9))
            },
            9 => WOp::Seq(*r.pick(&ORD), r.int(100, 200)),
            10 => WOp::Map,
            11 => WOp::Idx,
            _ => {
                let x = rand_source(r, &mut s, &sh);
                let y = rand_source(r, &mut s, &sh);
                WOp::WithOut(f, x, y)
            },
        };
        if bc && !matches!(op, WOp::Fill(_) | WOp::Assign(_)) {
            // the library documents other writes through broadcast tensors as the caller's responsibility
            op = WOp::Fill(5);
        }
        let how = r.us(0, op.hows() - 1);
        let kind = r.us(0, 2);
        s.write(t, &op, how, kind);
    }
    out.session(s.ev);
}

/// a history generated from the specification: "n SHAPE" allocates, "v SRC VIEW" views, "m SRC reshape SHAPE ORDER"
/// converts, "w TENSOR WRITE" writes; entry points, layouts and kinds of target are chosen here
pub fn replay(r: &mut Rng, d: B, o: FlagOrder, line: &str, out: &mut Out) {
    let us = |x: &str| -> Vec<usize> { if x == "_" { vec![] } else { x.split(',').map(|k| k.parse().unwrap()).collect() } };
    let name = |x: &str| -> &'static str { match x { "add" => "add", "sub" => "sub", _ => "mul" } };
    let mut s = Sess::<T, B>::new(d, o);
    for t in line.split(';') {
        let w: Vec<&str> = t.split_whitespace().collect();
        let at = || w[1].parse::<usize>().unwrap() - 1;
        match w[0] {
            "n" => {
                let sh = us(w[1]);
                let lay = if r.chance(50) { Lay::contig(&sh, FlagOrder::C) } else { Lay::random(r, &sh, false) };
                let base = if s.bufs.is_empty() { 1 } else { 11 };
                s.alloc(&lay, base);
            },
            "v" => {
                if at() >= s.env.len() || !s.view(at(), &VOp::parse(&w[2..].join(" ")), 0, false) {
                    break;
                }
            },
            "m" => {
                let sh: Vec<i64> = if w[3] == "_" { vec![] } else { w[3].split(',').map(|k| k.parse().unwrap()).collect() };
                let ord = match w[4] { "C" => Some(FlagOrder::C), "F" => Some(FlagOrder::F), _ => None };
                let copy = match r.int(0, 5) { 0 => Some(true), 1 => Some(false), _ => None };
                let op = MOp::Reshape(sh, ord, copy);
                let how = if ord.is_none() || r.chance(60) { r.us(0, op.hows() - 1) } else { r.us(0, 10) };
                let fixed = r.chance(50);
                if at() >= s.env.len() || !s.mat(at(), &op, how, fixed) {
                    break;
                }
            },
            _ => {
                let id = |k: usize| w[k].parse::<usize>().unwrap() - 1;
                let v = |k: usize| w[k].parse::<i64>().unwrap();
                let op = match w[2] {
                    "fill" => WOp::Fill(v(3)),
                    "assign" => WOp::Assign(id(3)),
                    "opassign" => WOp::OpAssign(name(w[3]), id(4)),
                    "opscalar" => WOp::OpScalar(name(w[3]), v(4)),
                    "elem" => WOp::Elem(us(w[3]), v(4)),
                    "seq" => WOp::Seq(if w[3] == "C" { FlagOrder::C } else { FlagOrder::F }, v(4)),
                    "map" => WOp::Map,
                    "idx" => WOp::Idx,
                    _ => WOp::WithOut(name(w[3]), id(4), id(5)),
                };
                if at() >= s.env.len() {
                    break;
                }
                let lay = &s.env[at()].lay;
                let bc = lay.shape().iter().zip(lay.stride().iter()).any(|(&d, &x)| d > 1 && x == 0);
                if bc && !matches!(op, WOp::Fill(_) | WOp::Assign(_)) {
                    break;
                }
                let how = r.us(0, op.hows() - 1);
                let kind = if bc { 0 } else { *r.pick(&[0, 0, 1, 2]) };
                s.write(at(), &op, how, kind);
            },
        }
    }
    out.session(s.ev);
}
