//! Driver for conversions: devices, element types, vectors and scalars, arrays, faer matrices.
//! `conv OUT SEED TIER`
use rstsr_openblas::DeviceOpenBLAS as Obl;
use vh::dev::{DTypeCastAPI, DTypePromoteAPI, DeviceCreationAnyAPI, ExtReal, OpAssignAPI, assign_f, fill_f};
use vh::rt::{add_f, equal_f, greater_equal_f, less_f, maximum_f, minimum_f, not_equal_f};
use vh::*;

/* ---------------------------------------------------------------- exact encoding of numbers of any type */
/// a number is [kind, sign, limbs of four times its magnitude in base 2^16]; kinds: 0 finite, 1 infinite, 2 NaN,
/// 3/4 finite but huge (about 1e38 / 1e300), 9 anything else
pub fn enc_mag(neg: bool, m4: u128) -> J {
    let mut v = vec![0i64, (neg && m4 != 0) as i64];
    for k in 0..5 { v.push(((m4 >> (16 * k)) & 0xffff) as i64); }
    if m4 >> 80 != 0 { v[0] = 9; }
    v.into()
}
pub fn enc_f(x: f64) -> J {
    let m = x.abs() * 4.0;
    let k = |k: i64| J::from(vec![k, (x < 0.0) as i64, 0, 0, 0, 0, 0]);
    if x.is_nan() { return J::from(vec![2i64, 0, 0, 0, 0, 0, 0]) }
    if x.is_infinite() { return k(1) }
    if x.abs() > 0.9e38 && x.abs() < 1.1e38 { return k(3) }
    if x.abs() > 0.9e300 { return k(4) }
    if m.fract() != 0.0 || m >= 1.2e24 { return k(9) }
    enc_mag(x < 0.0, m as u128)
}
pub trait Val: Clone + Copy + Send + Sync + 'static {
    const N: &'static str;
    fn rnd(r: &mut Rng) -> Self;
    fn enc(self) -> J;
}
macro_rules! val_int { ($($t:ty),*) => { $(impl Val for $t {
    const N: &'static str = stringify!($t);
    fn rnd(r: &mut Rng) -> Self {
        let x: i128 = match r.us(0, 6) { 0 => <$t>::MAX as i128 - r.int(0, 2) as i128, 1 => <$t>::MIN as i128 + r.int(0, 2) as i128,
            2 => { let b = r.us(1, 63); (1i128 << b) + r.int(-1, 1) as i128 }, 3 => { let b = r.us(1, 63); -(1i128 << b) + r.int(-1, 1) as i128 },
            4 => (r.next() >> r.us(0, 60)) as i128, _ => r.int(-9, 9) as i128 };
        x as $t
    }
    fn enc(self) -> J { let v = self as i128; enc_mag(v < 0, v.unsigned_abs() * 4) }
})* } }
val_int!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
macro_rules! val_f { ($($t:ty),*) => { $(impl Val for $t {
    const N: &'static str = stringify!($t);
    fn rnd(r: &mut Rng) -> Self {
        let s = if r.chance(40) { -1.0 } else { 1.0 };
        (s * match r.us(0, 11) { 0 => <$t>::NAN, 1 => <$t>::INFINITY, 2 => 1e38, 3 => if <$t>::MAX as f64 > 1e300 { 1e300f64 as $t } else { 3.0 },
            4 | 5 => { let b = r.us(0, 70); (1u128 << b) as $t + r.int(-1, 1) as $t },
            6 => r.int(0, 1 << 24) as $t, 7 => (r.next() >> r.us(0, 60)) as $t, 8 => r.int(-20, 20) as $t / 4.0, 9 => r.int(-1200, 1200) as $t / 4.0,
            _ => r.int(-9, 9) as $t }) as $t
    }
    fn enc(self) -> J { enc_f(self as f64) }
})* } }
val_f!(f32, f64);
impl Val for bool {
    const N: &'static str = "bool";
    fn rnd(r: &mut Rng) -> Self { r.chance(50) }
    fn enc(self) -> J { enc_mag(false, self as u128 * 4) }
}
#[allow(non_camel_case_types)] pub type c32 = num::Complex<f32>;
#[allow(non_camel_case_types)] pub type c64 = num::Complex<f64>;
macro_rules! val_c { ($($t:ty, $n:literal);*) => { $(impl Val for num::Complex<$t> {
    const N: &'static str = $n;
    fn rnd(r: &mut Rng) -> Self { Self::new(<$t>::rnd(r), <$t>::rnd(r)) }
    /// the real part's fields followed by the imaginary part's
    fn enc(self) -> J { match (enc_f(self.re as f64), enc_f(self.im as f64)) { (J::A(mut a), J::A(b)) => { a.extend(b); J::A(a) }, _ => unreachable!() } }
})* } }
val_c!(f32, "c32"; f64, "c64");
pub fn encs<T: Val>(v: &[T]) -> J { J::A(v.iter().map(|x| x.enc()).collect()) }
fn short<T>() -> &'static str {
    let n = std::any::type_name::<T>();
    if n.ends_with("Complex<f32>") { "c32" } else if n.ends_with("Complex<f64>") { "c64" } else { n }
}

/* ---------------------------------------------------------------- casts */
pub fn cast1<S: Val + DTypeCastAPI<T>, T: Val>(r: &mut Rng) -> J {
    let x: Vec<S> = (0..4).map(|_| S::rnd(r)).collect();
    let y: Vec<T> = x.iter().map(|&x| x.into_cast()).collect();
    jo! { e: "cast", via: "scalar", s: S::N, t: T::N, x: encs(&x), y: encs(&y), gap: 0, keep: true, k: "ok" }
}
fn bits<T: Val>(v: &[T]) -> String { encs(v).str() }
pub fn assign1<S: Val + DTypeCastAPI<T>, T: Val, B>(r: &mut Rng, d: &B) -> J
where B: DeviceAPI<S, Raw = Vec<S>> + DeviceAPI<T, Raw = Vec<T>> + OpAssignAPI<T, IxD, S> {
    let sh = rand_shape(r, 3, 3, 6, 4);
    let (la, lc) = (Lay::random(r, &sh, true), Lay::random(r, &sh, false));
    let a: Vec<S> = (0..la.len).map(|_| S::rnd(r)).collect();
    let mut c: Vec<T> = (0..lc.len).map(|_| T::rnd(r)).collect();
    let before = c.clone();
    let a0 = bits(&a);
    let pick = |l: &Lay| addrs(&l.sh, &l.st, l.of, usize::MAX);
    let fill = r.chance(20);
    let xs: Vec<S> = if fill { let x = S::rnd(r); pick(&lc).iter().map(|_| x).collect() } else { pick(&la).iter().map(|&p| a[p as usize]).collect() };
    let x0 = xs.first().copied().unwrap_or_else(|| S::rnd(r));
    let res = if fill { run(|| fill_f(&mut mut_of(&mut c, lc.layout(), d), x0)) }
        else { run(|| assign_f(&mut mut_of(&mut c, lc.layout(), d), &view_of(&a, la.layout(), d))) };
    let ys: Vec<T> = pick(&lc).iter().map(|&p| c[p as usize]).collect();
    let touched: std::collections::HashSet<i64> = pick(&lc).into_iter().collect();
    let gap = (0..c.len()).filter(|&i| !touched.contains(&(i as i64)) && bits(&[c[i]]) != bits(&[before[i]])).count();
    jo! { e: "cast", via: if fill { "fill" } else { "assign" }, s: S::N, t: T::N, x: encs(&xs), y: encs(&ys), gap: gap, keep: bits(&a) == a0, k: res.kind(), msg: res.msg(),
        sh: sh, sa: &la.st, sc: &lc.st }
}
/* ---------------------------------------------------------------- promotion */
pub fn prom<S: Val + DTypePromoteAPI<T>, T: Val>(r: &mut Rng) -> J where S::Res: Val {
    let (x, y) = (S::rnd(r), T::rnd(r));
    let (p, q) = S::promote_pair(x, y);
    jo! { e: "promote", s: S::N, t: T::N, res: short::<S::Res>(), x: x.enc(), y: y.enc(), p: p.enc(), q: q.enc(), p1: x.promote_self().enc(), q1: S::promote_other(y).enc(),
        flags: vec![<S as DTypePromoteAPI<T>>::SAME_TYPE, <S as DTypePromoteAPI<T>>::CAN_CAST_SELF, <S as DTypePromoteAPI<T>>::CAN_CAST_OTHER] }
}
/// elementwise operations on operands of two types
pub fn mix<S, T, B>(r: &mut Rng, d: &B) -> J
where S: Val + DTypePromoteAPI<T>, T: Val, S::Res: Val + PartialOrd + ExtReal,
      B: DeviceAPI<S, Raw = Vec<S>> + DeviceAPI<T, Raw = Vec<T>> + DeviceAPI<S::Res, Raw = Vec<S::Res>> + DeviceAPI<bool, Raw = Vec<bool>>
        + DeviceRawAPI<std::mem::MaybeUninit<S::Res>, Raw = Vec<std::mem::MaybeUninit<S::Res>>> + DeviceRawAPI<std::mem::MaybeUninit<bool>, Raw = Vec<std::mem::MaybeUninit<bool>>>
        + DeviceCreationAnyAPI<S::Res> + DeviceCreationAnyAPI<bool>
        + vh::dev::OpMaximumAPI<S, T, IxD, TOut = S::Res> + vh::dev::OpMinimumAPI<S, T, IxD, TOut = S::Res>
        + vh::dev::OpEqualAPI<S, T, IxD, TOut = bool> + vh::dev::OpLessAPI<S, T, IxD, TOut = bool> + vh::dev::OpGreaterEqualAPI<S, T, IxD, TOut = bool> + vh::dev::OpNotEqualAPI<S, T, IxD, TOut = bool> {
    let sh = rand_shape(r, 2, 3, 6, 4);
    let (la, lb) = (Lay::random(r, &sh, true), Lay::random(r, &sh, true));
    let mk = |r: &mut Rng| loop { let x = S::rnd(r); if x.enc().str() != "[2,0,0,0,0,0,0]" { return x } };
    let mkt = |r: &mut Rng| loop { let x = T::rnd(r); if x.enc().str() != "[2,0,0,0,0,0,0]" { return x } };
    let a: Vec<S> = (0..la.len).map(|_| mk(r)).collect();
    let b: Vec<T> = (0..lb.len).map(|_| mkt(r)).collect();
    let pa: Vec<S> = addrs(&sh, &la.st, la.of, usize::MAX).iter().map(|&p| a[p as usize]).collect();
    let pb: Vec<T> = addrs(&sh, &lb.st, lb.of, usize::MAX).iter().map(|&p| b[p as usize]).collect();
    let (va, vb) = (view_of(&a, la.layout(), d), view_of(&b, lb.layout(), d));
    let op = *r.pick(&["max", "min", "eq", "ne", "lt", "ge"]);
    fn out<O: Val, B: DeviceAPI<O, Raw = Vec<O>>>(x: Res<Tensor<O, B, IxD>>) -> J {
        match x { Res::Ok(t) => { let ad = addrs(t.shape(), t.stride(), t.offset(), usize::MAX);
                let v: Vec<O> = ad.iter().map(|&p| t.raw()[p as usize]).collect();
                jo! { k: "ok", sh: t.shape().to_vec(), y: encs(&v), ty: O::N } },
            _ => jo! { k: x.kind(), msg: x.msg() } }
    }
    let c = match op {
        "max" => out(run(|| maximum_f(&va, &vb))), "min" => out(run(|| minimum_f(&va, &vb))),
        "eq" => out(run(|| equal_f(&va, &vb))), "ne" => out(run(|| not_equal_f(&va, &vb))),
        "lt" => out(run(|| less_f(&va, &vb))), _ => out(run(|| greater_equal_f(&va, &vb))),
    };
    jo! { e: "mix", op: op, s: S::N, t: T::N, sh: sh, x: encs(&pa), y: encs(&pb), c: c }
}

/// every cast S -> T that the library offers
macro_rules! casts_from { ($v:ident $f:ident $($s:ty),*;) => { $( casts_to!($v $f $s; i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 bool c32 c64); )* } }
macro_rules! casts_to { ($v:ident $f:ident $s:ty; $($t:ty)*) => { $( $v.push($f!($s, $t)); )* } }
type Gen = Box<dyn Fn(&mut Rng) -> J>;
macro_rules! g_cast { ($s:ty, $t:ty) => { Box::new(|r: &mut Rng| cast1::<$s, $t>(r)) as Gen } }
macro_rules! g_prom { ($s:ty, $t:ty) => { Box::new(|r: &mut Rng| prom::<$s, $t>(r)) as Gen } }
macro_rules! g_asg { ($s:ty, $t:ty) => { Box::new(|r: &mut Rng| { let o = *r.pick(&ORD); assign1::<$s, $t, Ser>(r, &ser(o)) }) as Gen } }
macro_rules! g_asf { ($s:ty, $t:ty) => { Box::new(|r: &mut Rng| { let o = *r.pick(&ORD); let n = r.us(0, 4); assign1::<$s, $t, Fae>(r, &fae(n, o)) }) as Gen } }
macro_rules! g_mix { ($s:ty, $t:ty) => { Box::new(|r: &mut Rng| { let o = *r.pick(&ORD); mix::<$s, $t, Ser>(r, &ser(o)) }) as Gen } }
macro_rules! g_mif { ($s:ty, $t:ty) => { Box::new(|r: &mut Rng| { let o = *r.pick(&ORD); mix::<$s, $t, Fae>(r, &fae(2, o)) }) as Gen } }

fn gens() -> [Vec<Gen>; 4] {
    let mut c: Vec<Gen> = vec![];
    let mut p: Vec<Gen> = vec![];
    let mut a: Vec<Gen> = vec![];
    let mut m: Vec<Gen> = vec![];
    casts_from!(c g_cast i8, i16, i32, i64, u8, u16, u32, u64, f32, f64, bool;);
    casts_to!(c g_cast isize; i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 bool c32 c64 isize);
    casts_to!(c g_cast usize; i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 bool c32 c64 usize);
    casts_to!(c g_cast c32; bool c32 c64);
    casts_to!(c g_cast c64; bool c32 c64);
    casts_from!(p g_prom i8, i16, i32, i64, u8, u16, u32, u64, f32, f64, bool, c32, c64;);
    casts_to!(p g_prom isize; i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 bool c32 c64 isize);
    casts_to!(p g_prom usize; i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 bool c32 c64 usize);
    // the other way round for the types of machine size
    casts_to!(p g_prom i8; isize usize); casts_to!(p g_prom i16; isize usize); casts_to!(p g_prom i32; isize usize); casts_to!(p g_prom i64; isize usize);
    casts_to!(p g_prom u8; isize usize); casts_to!(p g_prom u16; isize usize); casts_to!(p g_prom u32; isize usize); casts_to!(p g_prom u64; isize usize);
    casts_to!(p g_prom f32; isize usize); casts_to!(p g_prom f64; isize usize); casts_to!(p g_prom bool; isize usize); casts_to!(p g_prom c32; isize usize); casts_to!(p g_prom c64; isize usize);
    // through tensors
    casts_to!(a g_asg f64; i8 u8 i32 u64 f32 bool c64 f64); casts_to!(a g_asg i32; f32 u8 i64 bool c32); casts_to!(a g_asg u64; f64 i8); casts_to!(a g_asg c64; c32 bool); casts_to!(a g_asg bool; i16 f32 c64);
    casts_to!(a g_asg i8; i16 u64); casts_to!(a g_asg i16; i8);
    casts_to!(a g_asf f64; i8 f32 bool u64 c64); casts_to!(a g_asf i32; f64 u8 i64); casts_to!(a g_asf c32; c64); casts_to!(a g_asf bool; i32);
    casts_to!(m g_mix i32; f32 u8 i64 u32); casts_to!(m g_mix u8; i8 f32); casts_to!(m g_mix u64; i64); casts_to!(m g_mix f64; u64); casts_to!(m g_mix i8; i16);
    casts_to!(m g_mif i32; f32 u32); casts_to!(m g_mif u64; i8);
    [c, p, a, m]
}

/* ---------------------------------------------------------------- devices */
pub trait Dv: Clone { const K: &'static str; fn mk(r: &mut Rng) -> Self; fn nt(&self) -> usize; fn ord(&self) -> FlagOrder; }
impl Dv for Ser { const K: &'static str = "serial"; fn mk(r: &mut Rng) -> Self { ser(*r.pick(&ORD)) } fn nt(&self) -> usize { 0 } fn ord(&self) -> FlagOrder { self.default_order() } }
impl Dv for Fae { const K: &'static str = "faer"; fn mk(r: &mut Rng) -> Self { let n = r.us(1, 4); fae(n, *r.pick(&ORD)) } fn nt(&self) -> usize { self.get_num_threads() } fn ord(&self) -> FlagOrder { self.default_order() } }
impl Dv for Obl { const K: &'static str = "openblas"; fn mk(r: &mut Rng) -> Self { let mut d = Obl::new(r.us(1, 4)); d.set_default_order(*r.pick(&ORD)); d } fn nt(&self) -> usize { self.get_num_threads() } fn ord(&self) -> FlagOrder { self.default_order() } }
pub fn dj<D: Dv>(d: &D) -> J { jo! { k: D::K, ord: oname(d.ord()), nt: d.nt() } }

macro_rules! inst { ($m:ident, $A:ty, $B:ty) => { pub mod $m {
    #[allow(unused)] use super::*;
    type A = $A; type B = $B;
    include!("../body/move.rs");
} } }
inst!(m_ss, Ser, Ser); inst!(m_sf, Ser, Fae); inst!(m_fs, Fae, Ser); inst!(m_ff, Fae, Fae);
inst!(m_so, Ser, Obl); inst!(m_os, Obl, Ser); inst!(m_oo, Obl, Obl); inst!(m_fo, Fae, Obl); inst!(m_of, Obl, Fae);
macro_rules! insv { ($m:ident, $B:ty) => { pub mod $m { #[allow(unused)] use super::*; type B = $B; include!("../body/vecs.rs"); } } }
insv!(v_s, Ser); insv!(v_f, Fae); insv!(v_o, Obl);

/* ---------------------------------------------------------------- faer matrices */
mod fa {
    use super::*;
    use faer::{Mat, MatRef};
    use faer_ext::IntoFaer;
    use vh::dev::{IntoRSTSR, Ix2};
    fn grid(m: MatRef<f64>) -> J {
        let mut v = vec![];
        for i in 0..m.nrows() { for j in 0..m.ncols() { v.push(m[(i, j)].ti()); } }
        jo! { k: "ok", sh: vec![m.nrows(), m.ncols()], v: v }
    }
    fn chain(r: &mut Rng, mut n: usize, mut m: usize) -> (Vec<J>, Vec<[usize; 5]>) {
        let (mut js, mut ops) = (vec![], vec![]);
        for _ in 0..r.us(0, 3) {
            match r.us(0, 3) {
                0 => { let (a, b) = (r.us(0, n), r.us(0, m)); let (p, q) = (r.us(0, n - a), r.us(0, m - b)); ops.push([0, a, b, p, q]); js.push(jo! { o: "sub", p: vec![a, b, p, q] }); n = p; m = q; },
                1 => { ops.push([1; 5]); js.push(jo! { o: "t", p: Vec::<i64>::new() }); std::mem::swap(&mut n, &mut m); },
                2 => { ops.push([2; 5]); js.push(jo! { o: "rr", p: Vec::<i64>::new() }); },
                _ => { ops.push([3; 5]); js.push(jo! { o: "rc", p: Vec::<i64>::new() }); },
            }
        }
        (js, ops)
    }
    pub fn ev(r: &mut Rng) -> J {
        let d = <Fae as Dv>::mk(r);
        let (n, m) = (r.us(0, 5), r.us(0, 5));
        let op = *r.pick(&["view", "mut", "mat", "ref", "ref", "matmut", "col"]);
        if op == "view" || op == "mut" {
            let lay = Lay::random(r, &[n, m], op == "view");
            let mut a = Ti::<f64>::new(lay, |p| 100 + p as i64);
            let j = a.jb();
            if op == "view" {
                let x = run_p(|| grid(a.view(&d).into_dim::<Ix2>().into_faer()));
                return jo! { e: "faer", op: op, a: j, c: enc_res(x), w: Vec::<i64>::new(), after: jv(&a.buf) };
            }
            let w: Vec<usize> = if n * m > 0 { vec![r.us(0, n - 1), r.us(0, m - 1)] } else { vec![] };
            let x = run_p(|| { let mut f = a.view_mut(&d).into_dim::<Ix2>().into_faer(); if w.len() == 2 { f[(w[0], w[1])] = 7.0; } grid(f.as_ref()) });
            let c = enc_res(x);
            return jo! { e: "faer", op: op, a: j, c: c, w: w, after: jv(&a.buf) };
        }
        let mut base: Mat<f64> = Mat::from_fn(n, m, |i, j| (100 + i * m + j) as f64);
        let (js, ops) = chain(r, n, m);
        fn go<'a>(b: &'a Mat<f64>, ops: &[[usize; 5]]) -> MatRef<'a, f64> {
            let mut x = b.as_ref();
            for o in ops { x = match o[0] { 0 => x.submatrix(o[1], o[2], o[3], o[4]), 1 => x.transpose(), 2 => x.reverse_rows(), _ => x.reverse_cols() }; }
            x
        }
        match op {
            "mat" => { let x = run_p(|| { let t = go(&base, &ops).to_owned().into_rstsr(); let u = &t + 1.0; (obs(&t).ok_j(), obs(&u).ok_j()) });
                let (c, u) = match x { Res::Ok((a, b)) => (a, b), _ => (jo! { k: x.kind(), msg: x.msg() }, jo! { k: "none" }) };
                jo! { e: "faer", op: op, n: n, m: m, ops: js, c: c, u: u } },
            "ref" => { let x = run_p(|| { let t = go(&base, &ops).into_rstsr(); let u = &t + 1.0; (obs(&t).ok_j(), obs(&u).ok_j()) });
                let (c, u) = match x { Res::Ok((a, b)) => (a, b), _ => (jo! { k: x.kind(), msg: x.msg() }, jo! { k: "none" }) };
                jo! { e: "faer", op: op, n: n, m: m, ops: js, c: c, u: u } },
            "col" => { let x = { let f = go(&base, &ops); if f.ncols() == 0 { return ev(r) } let j = r.us(0, f.ncols() - 1); (j, run_p(|| obs(&f.col(j).into_rstsr()).ok_j())) };
                jo! { e: "faer", op: op, n: n, m: m, ops: js, col: x.0, c: enc_res(x.1) } },
            _ => {
                let w: usize = r.us(0, 24);
                let x = run_p(|| {
                    let mut x = base.as_mut();
                    for o in &ops { x = match o[0] { 0 => x.submatrix_mut(o[1], o[2], o[3], o[4]), 1 => x.transpose_mut(), 2 => x.reverse_rows_mut(), _ => x.reverse_cols_mut() }; }
                    let mut t = x.into_rstsr();
                    let sz = t.size();
                    if sz > 0 { let sh = t.shape().to_vec(); let i = unravel(w % sz, &sh); t[[i[0], i[1]]] = 7.0; }
                    obs(&t).ok_j()
                });
                let after = grid(base.as_ref());
                jo! { e: "faer", op: op, n: n, m: m, ops: js, wr: w, c: enc_res(x), after: after }
            },
        }
    }
}

fn main() {
    let a = args();
    let mut r = Rng::new(a.seed ^ 0xc0471);
    let mut o = Out::create(&a.out);
    let g = gens();
    // every cast and promotion at least a few times
    for k in 0..if a.thorough { 40 } else { 3 } {
        for f in g[0].iter().chain(g[1].iter()) { let e = f(&mut r); o.session(vec![e]); }
        let _ = k;
    }
    for _ in 0..if a.thorough { 30000 } else { 3200 } {
        let e = match r.us(0, 99) {
            0..=19 => r.pick(&g[2])(&mut r),
            20..=31 => r.pick(&g[3])(&mut r),
            32..=63 => match r.us(0, 8) { 0 => m_ss::ev(&mut r), 1 => m_sf::ev(&mut r), 2 => m_fs::ev(&mut r), 3 => m_ff::ev(&mut r), 4 => m_so::ev(&mut r), 5 => m_os::ev(&mut r), 6 => m_oo::ev(&mut r), 7 => m_fo::ev(&mut r), _ => m_of::ev(&mut r) },
            64..=75 => match r.us(0, 2) { 0 => v_s::ev(&mut r), 1 => v_f::ev(&mut r), _ => v_o::ev(&mut r) },
            76..=87 => match r.us(0, 2) { 0 => v_s::pack(&mut r), 1 => v_f::pack(&mut r), _ => v_o::pack(&mut r) },
            _ => fa::ev(&mut r),
        };
        o.session(vec![e]);
    }
    o.finish();
}
