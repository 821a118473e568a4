//! Shared parts of the conformance harness: deterministic random numbers, a JSON writer, tensor
//! instances with arbitrary layouts, observation of results, and capture of panics.
//!
//! The harness only *executes* operations of the library and *records* what happened; every
//! expectation lives in the TLA+ specification (`/verif/spec`), which TLC evaluates on the recorded
//! traces.  Observation is deliberately independent of the library's own iterators: logical content is
//! read from the raw storage through shape, strides and offset.
#![allow(clippy::all)]
pub mod viewop;
pub use rstsr_core::prelude::*;
pub use rstsr_core::prelude_dev as dev;
pub use rstsr_core;
pub use rstsr_core::prelude::rt;
use std::fmt::Write as _;
use std::io::Write as _;

pub use dev::{DataAPI, DataMut, DataRef, DeviceAPI, DeviceBaseAPI, DeviceRawAPI, DimAPI, FlagOrder, IxD, Layout, Storage};

/* ---------------------------------------------------------------- random numbers */
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in lo..=hi
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.int(lo as i64, hi as i64) as usize
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.next() % 100 < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[(self.next() % v.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.us(0, i);
            v.swap(i, j);
        }
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        self.shuffle(&mut v);
        v
    }
}

/* ---------------------------------------------------------------- JSON */
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    I(i64),
    S(String),
    B(bool),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::I(i) => write!(o, "{i}").unwrap(),
            J::B(b) => write!(o, "{b}").unwrap(),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 => o.push(' '),
                        c => o.push(c),
                    }
                }
                o.push('"')
            },
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.write(o)
                }
                o.push(']')
            },
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    write!(o, "\"{k}\":").unwrap();
                    x.write(o)
                }
                o.push('}')
            },
        }
    }
    pub fn with(mut self, k: &str, v: impl Into<J>) -> J {
        if let J::O(ref mut m) = self {
            m.push((k.to_string(), v.into()))
        }
        self
    }
    pub fn str(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
}
macro_rules! from_int { ($($t:ty),*) => { $(impl From<$t> for J { fn from(x: $t) -> J { J::I(x as i64) } }
   impl From<&$t> for J { fn from(x: &$t) -> J { J::I(*x as i64) } })* } }
from_int!(i32, i64, isize, usize, u32, u64, u8);
impl From<bool> for J {
    fn from(x: bool) -> J {
        J::B(x)
    }
}
impl From<&str> for J {
    fn from(x: &str) -> J {
        J::S(x.to_string())
    }
}
impl From<String> for J {
    fn from(x: String) -> J {
        J::S(x)
    }
}
impl<T> From<&[T]> for J
where
    for<'a> &'a T: Into<J>,
{
    fn from(x: &[T]) -> J {
        J::A(x.iter().map(|v| v.into()).collect())
    }
}
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(x: Vec<T>) -> J {
        J::A(x.into_iter().map(|v| v.into()).collect())
    }
}
impl<T> From<&Vec<T>> for J
where
    for<'a> &'a T: Into<J>,
{
    fn from(x: &Vec<T>) -> J {
        J::A(x.iter().map(|v| v.into()).collect())
    }
}
impl<T: Into<J>> From<Option<T>> for J {
    /// absent values are written as the empty sequence, present ones as a one-element sequence
    fn from(x: Option<T>) -> J {
        J::A(x.into_iter().map(|v| v.into()).collect())
    }
}
#[macro_export]
macro_rules! jo { ($($k:ident : $v:expr),* $(,)?) => { $crate::J::O(vec![$((stringify!($k).to_string(), $crate::J::from($v))),*]) } }

/* ---------------------------------------------------------------- elements */
pub const NONINT: i64 = 1_999_999_999;
pub const NAN: i64 = 2_000_000_001;
pub const INF: i64 = 2_000_000_002;
pub trait El: Clone + Copy + PartialEq + Send + Sync + std::fmt::Debug + 'static {
    const NAME: &'static str;
    fn fi(i: i64) -> Self;
    fn ti(self) -> i64;
    /// imaginary part (0 for real numbers)
    fn im(self) -> i64 {
        0
    }
    fn fc(re: i64, _im: i64) -> Self {
        Self::fi(re)
    }
    /// a value that is not a number, where the type has one
    fn nan() -> Self {
        Self::fi(77)
    }
    const CPLX: bool = false;
}
macro_rules! el_int { ($($t:ty),*) => { $(impl El for $t { const NAME: &'static str = stringify!($t);
  fn fi(i: i64) -> Self { i as $t } fn ti(self) -> i64 { let v = self as i128; if v.abs() < 1_900_000_000 { v as i64 } else { NONINT } } })* } }
el_int!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
macro_rules! el_f { ($($t:ty),*) => { $(impl El for $t { const NAME: &'static str = stringify!($t);
  fn fi(i: i64) -> Self { i as $t } fn nan() -> Self { <$t>::NAN }
  fn ti(self) -> i64 { if self.is_nan() { NAN } else if self == <$t>::INFINITY { INF } else if self == <$t>::NEG_INFINITY { -INF }
     else if self.fract() != 0.0 || self.abs() > 1.9e9 { NONINT } else { self as i64 } } })* } }
el_f!(f32, f64);
macro_rules! el_c { ($($t:ty, $n:literal);*) => { $(impl El for num::Complex<$t> { const NAME: &'static str = $n; const CPLX: bool = true;
  fn fi(i: i64) -> Self { Self::new(i as $t, 0.0) } fn fc(re: i64, im: i64) -> Self { Self::new(re as $t, im as $t) }
  fn nan() -> Self { Self::new(<$t>::NAN, <$t>::NAN) }
  fn ti(self) -> i64 { self.re.ti() } fn im(self) -> i64 { self.im.ti() } })* } }
el_c!(f32, "c32"; f64, "c64");
pub fn jim<T: El>(v: &[T]) -> J {
    if T::CPLX { J::A(v.iter().map(|x| J::I(x.im())).collect()) } else { J::A(vec![]) }
}
impl El for bool {
    const NAME: &'static str = "bool";
    fn fi(i: i64) -> Self {
        i.rem_euclid(2) == 1
    }
    fn ti(self) -> i64 {
        self as i64
    }
}

/* ---------------------------------------------------------------- panics */
#[derive(Clone, Debug)]
pub enum Res<R> {
    Ok(R),
    Err(String),
    Panic(String),
}
impl<R> Res<R> {
    pub fn kind(&self) -> &'static str {
        match self {
            Res::Ok(_) => "ok",
            Res::Err(_) => "err",
            Res::Panic(_) => "panic",
        }
    }
    pub fn msg(&self) -> String {
        match self {
            Res::Ok(_) => String::new(),
            Res::Err(s) | Res::Panic(s) => s.chars().take(160).collect(),
        }
    }
    pub fn as_ok(&self) -> Option<&R> {
        match self { Res::Ok(r) => Some(r), _ => None }
    }
    pub fn ok(self) -> Option<R> {
        match self {
            Res::Ok(r) => Some(r),
            _ => None,
        }
    }
    pub fn map<S>(self, f: impl FnOnce(R) -> S) -> Res<S> {
        match self {
            Res::Ok(r) => Res::Ok(f(r)),
            Res::Err(e) => Res::Err(e),
            Res::Panic(e) => Res::Panic(e),
        }
    }
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}
/// where calls are executed: 0 this thread, 1 the global pool, 2 a pool of its own, 3 a pool whose other workers are busy,
/// 4 another thread beside a busy one
static CTX: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn set_ctx(k: usize) { CTX.store(k, std::sync::atomic::Ordering::SeqCst); }
struct Sendable<T>(T);
unsafe impl<T> Send for Sendable<T> {}
impl<T> Sendable<T> { fn get(self) -> T { self.0 } }
fn busy() -> u64 {
    use rayon::prelude::*;
    (0..2000u64).into_par_iter().map(|x| { if x % 97 == 0 { std::thread::yield_now(); } x * x % 7 }).sum()
}
fn in_ctx<R>(f: impl FnOnce() -> R) -> R {
    use std::sync::OnceLock;
    static POOLS: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    let k = CTX.load(std::sync::atomic::Ordering::SeqCst);
    if k == 0 { return f() }
    let pools = POOLS.get_or_init(|| (1..5).map(|n| rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()).collect());
    let mut res = Sendable(None);
    {
        let slot = &mut res;
        let f = Sendable(f);
        let go = move || { slot.0 = Some(Sendable(f.get()())); };
        match k % 5 {
            1 => { rayon::join(go, busy); },
            2 => pools[k / 5 % 4].install(go),
            3 => pools[1 + k / 5 % 3].install(|| rayon::scope(|s| { for _ in 0..3 { s.spawn(|_| { busy(); }); } go(); })),
            _ => std::thread::scope(|s| { s.spawn(busy); s.spawn(go); }),
        }
    }
    res.0.unwrap().get()
}
/// run a fallible call; panics become data
pub fn run<R, E: std::fmt::Debug>(f: impl FnOnce() -> Result<R, E>) -> Res<R> {
    match in_ctx(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))) {
        Ok(Ok(r)) => Res::Ok(r),
        Ok(Err(e)) => Res::Err(format!("{e:?}")),
        Err(p) => Res::Panic(
            p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
        ),
    }
}
/// run an infallible call; a panic is its way to report an error
pub fn run_p<R>(f: impl FnOnce() -> R) -> Res<R> {
    run(|| Ok::<R, ()>(f()))
}

/* ---------------------------------------------------------------- layouts */
pub fn prod(sh: &[usize]) -> usize {
    sh.iter().product()
}
pub fn unravel(mut p: usize, sh: &[usize]) -> Vec<usize> {
    let mut idx = vec![0; sh.len()];
    for k in (0..sh.len()).rev() {
        idx[k] = p % sh[k];
        p /= sh[k];
    }
    idx
}
/// addresses in row-major order of the logical index; None when an address is negative or the
/// layout is nonsensical
pub fn addrs(sh: &[usize], st: &[isize], of: usize, limit: usize) -> Vec<i64> {
    let n = prod(sh).min(limit);
    (0..n)
        .map(|p| {
            let idx = unravel(p, sh);
            (of as i128 + idx.iter().zip(st).map(|(&i, &s)| i as i128 * s as i128).sum::<i128>()).clamp(-1_900_000_000, 1_900_000_000) as i64
        })
        .collect()
}

#[derive(Clone, Debug)]
pub struct Lay {
    pub sh: Vec<usize>,
    pub st: Vec<isize>,
    pub of: usize,
    pub len: usize,
}
impl Lay {
    pub fn layout(&self) -> Layout<IxD> {
        Layout::new(self.sh.clone(), self.st.clone(), self.of).unwrap()
    }
    pub fn contig(sh: &[usize], order: FlagOrder) -> Lay {
        let mut st = vec![0isize; sh.len()];
        let mut acc = 1isize;
        let it: Vec<usize> = if order == FlagOrder::C { (0..sh.len()).rev().collect() } else { (0..sh.len()).collect() };
        for k in it {
            st[k] = acc;
            acc *= sh[k].max(1) as isize;
        }
        Lay { sh: sh.to_vec(), st, of: 0, len: prod(sh) }
    }
    /// A random layout for the logical shape: axes stored in any order, steps, gaps, reversed axes,
    /// broadcast axes (if allowed), leading offset and trailing padding.
    pub fn random(r: &mut Rng, sh: &[usize], bcast: bool) -> Lay {
        let nd = sh.len();
        match r.int(0, 9) {
            0 | 1 => return Lay::contig(sh, FlagOrder::C),
            2 => return Lay::contig(sh, FlagOrder::F),
            _ => {},
        }
        let perm = match r.int(0, 3) {
            0 => (0..nd).rev().collect(), // row-major nesting
            1 => (0..nd).collect(),       // column-major nesting
            _ => r.perm(nd),
        };
        let gaps = r.chance(40);
        let negs = r.chance(50);
        let bc = bcast && r.chance(35);
        let mut st = vec![0isize; nd];
        let mut acc = 1usize;
        if gaps && r.chance(50) {
            acc = r.us(2, 3);
        }
        let mut neg_span = 0usize;
        let mut span = 0usize;
        for &k in perm.iter() {
            let d = sh[k];
            if bc && d != 1 && r.chance(40) {
                st[k] = 0;
                continue;
            }
            if gaps && r.chance(40) {
                acc += r.us(1, 2);
            }
            let neg = negs && r.chance(50);
            st[k] = if neg { -(acc as isize) } else { acc as isize };
            if d > 0 {
                span += (d - 1) * acc;
                if neg {
                    neg_span += (d - 1) * acc;
                }
                acc *= d;
                if acc <= span {
                    acc = span + 1;
                }
            }
        }
        let lead = if r.chance(40) { r.us(0, 3) } else { 0 };
        let tail = if r.chance(40) { r.us(0, 3) } else { 0 };
        Lay { sh: sh.to_vec(), st, of: lead + neg_span, len: lead + span + 1 + tail }
    }
    pub fn is_bcast(&self) -> bool {
        self.sh.iter().zip(&self.st).any(|(&d, &s)| d > 1 && s == 0)
    }
}
/// random shape with bounded number of elements
pub fn rand_shape(r: &mut Rng, ndmax: usize, dmax: usize, maxn: usize, zero_pct: u64) -> Vec<usize> {
    loop {
        let nd = r.us(0, ndmax);
        let sh: Vec<usize> = (0..nd)
            .map(|_| {
                if r.chance(zero_pct) {
                    0
                } else if r.chance(15) {
                    1
                } else {
                    r.us(1, dmax)
                }
            })
            .collect();
        if prod(&sh) <= maxn {
            return sh;
        }
    }
}

/* ---------------------------------------------------------------- tensor instances (one-shot cases) */
/// A logical tensor placed in its own buffer with a given layout.
#[derive(Clone, Debug)]
pub struct Ti<T> {
    pub lay: Lay,
    pub buf: Vec<T>,
}
impl<T: El> Ti<T> {
    pub fn new(lay: Lay, mut val: impl FnMut(usize) -> i64) -> Self {
        // unaddressed cells hold a value that no test value uses
        let mut buf: Vec<T> = (0..lay.len).map(|i| T::fi(71 + (i as i64 % 3))).collect();
        for (p, a) in addrs(&lay.sh, &lay.st, lay.of, usize::MAX).into_iter().enumerate() {
            buf[a as usize] = T::fi(val(p));
        }
        Ti { lay, buf }
    }
    pub fn vals(&self) -> Vec<T> {
        addrs(&self.lay.sh, &self.lay.st, self.lay.of, usize::MAX).iter().map(|&a| self.buf[a as usize]).collect()
    }
    pub fn view<'a, B: DeviceAPI<T, Raw = Vec<T>>>(&'a self, d: &B) -> TensorView<'a, T, B, IxD> {
        view_of(&self.buf, self.lay.layout(), d)
    }
    pub fn view_mut<'a, B: DeviceAPI<T, Raw = Vec<T>>>(&'a mut self, d: &B) -> TensorMut<'a, T, B, IxD> {
        mut_of(&mut self.buf, self.lay.layout(), d)
    }
    pub fn owned<B: DeviceAPI<T, Raw = Vec<T>>>(&self, d: &B) -> Tensor<T, B, IxD> {
        owned_of(self.buf.clone(), self.lay.layout(), d)
    }
    /// the same, with complex values
    pub fn newc(lay: Lay, mut val: impl FnMut(usize) -> (i64, i64)) -> Self {
        let mut t = Ti::new(lay, |_| 0);
        for (p, a) in addrs(&t.lay.sh, &t.lay.st, t.lay.of, usize::MAX).into_iter().enumerate() {
            let (x, y) = val(p);
            t.buf[a as usize] = T::fc(x, y);
        }
        t
    }
    pub fn jc(&self) -> J {
        self.j().with("im", jim(&self.vals()))
    }
    /// layout and complete buffer
    pub fn jb(&self) -> J {
        jo! { sh: &self.lay.sh, st: &self.lay.st, of: self.lay.of, buf: jv(&self.buf), bim: jim(&self.buf) }
    }
    /// {"sh":..,"v":..} plus the layout (for replay only)
    pub fn j(&self) -> J {
        jo! { sh: &self.lay.sh, v: jv(&self.vals()), st: &self.lay.st, of: self.lay.of }
    }
}
pub fn jv<T: El>(v: &[T]) -> J {
    J::A(v.iter().map(|x| J::I(x.ti())).collect())
}
pub fn view_of<'a, T, B, D: DimAPI>(buf: &'a Vec<T>, l: Layout<D>, d: &B) -> TensorView<'a, T, B, D>
where
    B: DeviceAPI<T, Raw = Vec<T>>,
{
    unsafe { TensorView::new_unchecked(Storage::new(DataRef::from(buf), d.clone()), l) }
}
pub fn mut_of<'a, T, B, D: DimAPI>(buf: &'a mut Vec<T>, l: Layout<D>, d: &B) -> TensorMut<'a, T, B, D>
where
    B: DeviceAPI<T, Raw = Vec<T>>,
{
    unsafe { TensorMut::new_unchecked(Storage::new(DataMut::from(buf), d.clone()), l) }
}
pub fn owned_of<T, B, D: DimAPI>(buf: Vec<T>, l: Layout<D>, d: &B) -> Tensor<T, B, D>
where
    B: DeviceAPI<T, Raw = Vec<T>>,
{
    unsafe { Tensor::new_unchecked(Storage::new(dev::DataOwned::from(buf), d.clone()), l) }
}

/* ---------------------------------------------------------------- observation */
#[derive(Clone, Debug)]
pub struct Obs<T> {
    pub sh: Vec<usize>,
    pub st: Vec<isize>,
    pub of: usize,
    pub len: usize,
    pub ptr: usize,
    pub vals: Vec<T>,
    /// every address is inside the buffer
    pub inb: bool,
}
pub fn obs<R, T, B, D>(t: &TensorAny<R, T, B, D>) -> Obs<T>
where
    R: DataAPI<Data = Vec<T>>,
    B: DeviceAPI<T, Raw = Vec<T>>,
    D: DimAPI,
    T: El,
{
    let raw: &Vec<T> = t.raw();
    obs_raw(raw, t.layout())
}
pub fn obs_raw<T: El, D: DimAPI>(raw: &Vec<T>, l: &Layout<D>) -> Obs<T> {
    let sh: Vec<usize> = l.shape().as_ref().to_vec();
    let st: Vec<isize> = l.stride().as_ref().to_vec();
    let of = l.offset();
    let mut inb = true;
    let mut vals = vec![];
    let n128: u128 = sh.iter().map(|&d| d as u128).product();
    if n128 > 10_000_000 {
        inb = false;
    } else {
        for a in addrs(&sh, &st, of, usize::MAX) {
            if a < 0 || a as usize >= raw.len() {
                inb = false;
                break;
            }
            vals.push(raw[a as usize]);
        }
    }
    if !inb {
        vals.clear();
    }
    Obs { sh, st, of, len: raw.len(), ptr: raw.as_ptr() as usize, vals, inb }
}
/// a large (or nonsensical) number is clamped, so that TLC's 32-bit integers can hold it
pub fn cl(x: i128) -> i64 {
    x.clamp(-1_900_000_000, 1_900_000_000) as i64
}
impl<T: El> Obs<T> {
    pub fn ok_jc(&self) -> J {
        self.ok_j().with("im", jim(&self.vals))
    }
    pub fn ok_j(&self) -> J {
        jo! { k: if self.inb {"ok"} else {"oob"}, sh: J::A(self.sh.iter().map(|&x| J::I(cl(x as i128))).collect()), v: jv(&self.vals) }
    }
}
pub fn res_j<T: El>(r: &Res<Obs<T>>) -> J {
    match r {
        Res::Ok(o) => o.ok_j(),
        _ => jo! { k: r.kind(), msg: r.msg() },
    }
}
pub fn res_jc<T: El>(r: &Res<Obs<T>>) -> J {
    match r {
        Res::Ok(o) => o.ok_jc(),
        _ => jo! { k: r.kind(), msg: r.msg() },
    }
}
/// leave freed blocks behind that are full of values which must not show up in results
pub fn poison<T: El>(n: usize) {
    let v: Vec<Vec<T>> = (0..4).map(|_| vec![T::nan(); n]).collect();
    std::hint::black_box(&v);
}
pub fn res_scalar<T: El>(r: &Res<T>) -> J {
    match r {
        Res::Ok(x) => jo! { k: "ok", sh: Vec::<i64>::new(), v: vec![x.ti()] },
        _ => jo! { k: r.kind(), msg: r.msg() },
    }
}

/// results of another element type, encoded by a function
pub fn obs_any<R, U, B, D>(t: &TensorAny<R, U, B, D>, enc: impl Fn(U) -> i64) -> J
where
    R: DataAPI<Data = Vec<U>>,
    B: DeviceAPI<U, Raw = Vec<U>>,
    D: DimAPI,
    U: Clone,
{
    let raw: &Vec<U> = t.raw();
    let l = t.layout();
    let sh: Vec<usize> = l.shape().as_ref().to_vec();
    let st: Vec<isize> = l.stride().as_ref().to_vec();
    let mut v = vec![];
    for a in addrs(&sh, &st, l.offset(), usize::MAX) {
        if a < 0 || a as usize >= raw.len() {
            return jo! { k: "oob", sh: sh, v: Vec::<i64>::new() };
        }
        v.push(enc(raw[a as usize].clone()));
    }
    jo! { k: "ok", sh: sh, v: v }
}
pub fn enc_res(r: Res<J>) -> J {
    match r {
        Res::Ok(j) => j,
        _ => jo! { k: r.kind(), msg: r.msg() },
    }
}
/// bits of a floating-point number folded into 30 bits (used where the specification treats the scalar
/// function as uninterpreted)
pub fn hashf(x: f64) -> i64 {
    if x.is_nan() {
        return NAN;
    }
    let b = (if x == 0.0 { 0.0 } else { x }).to_bits();
    ((b ^ (b >> 30) ^ (b >> 60)) & 0x3fff_ffff) as i64
}

/// a floating-point number as a grid point (values of scalar functions; neither sensitive to the last
/// bits nor to the formula used)
pub fn hashq(x: f64) -> i64 {
    if x.is_nan() {
        return NAN;
    }
    if x.is_infinite() {
        return if x > 0.0 { INF } else { -INF };
    }
    if x.abs() < 10000.0 {
        (x * 1e5).round() as i64
    } else {
        (1_100_000_000 + (x.abs().ln() * 1e6).round() as i64) * if x < 0.0 { -1 } else { 1 }
    }
}

/* ---------------------------------------------------------------- trace output */
pub struct Out {
    f: std::io::BufWriter<std::fs::File>,
    pub sessions: usize,
    pub events: usize,
}
impl Out {
    pub fn create(path: &str) -> Out {
        Out { f: std::io::BufWriter::new(std::fs::File::create(path).expect("trace file")), sessions: 0, events: 0 }
    }
    pub fn session(&mut self, ev: Vec<J>) {
        self.sessions += 1;
        self.events += ev.len();
        let mut s = String::new();
        jo! { s: self.sessions, ev: J::A(ev) }.write(&mut s);
        s.push('\n');
        self.f.write_all(s.as_bytes()).unwrap();
    }
    pub fn finish(mut self) {
        self.f.flush().unwrap();
        println!("HARNESS sessions={} events={}", self.sessions, self.events);
    }
}

/// command line of every driver: OUT SEED TIER [INPUT]
pub struct Args {
    pub out: String,
    pub seed: u64,
    pub thorough: bool,
    pub input: Option<String>,
}
pub fn args() -> Args {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("VH_LOUD").is_err() { quiet_panics(); }
    Args {
        out: a.get(1).cloned().unwrap_or_else(|| "/tmp/trace.ndjson".into()),
        seed: a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: a.get(3).map(|s| s == "thorough").unwrap_or(false),
        input: a.get(4).cloned(),
    }
}

/* ---------------------------------------------------------------- devices */
pub type Ser = DeviceCpuSerial;
pub type Fae = DeviceFaer;
pub fn ser(o: FlagOrder) -> Ser {
    let mut d = Ser::default();
    d.set_default_order(o);
    d
}
pub fn fae(n: usize, o: FlagOrder) -> Fae {
    let mut d = Fae::new(n);
    d.set_default_order(o);
    d
}
pub fn oname(o: FlagOrder) -> &'static str {
    if o == FlagOrder::C {
        "C"
    } else {
        "F"
    }
}
pub const ORD: [FlagOrder; 2] = [FlagOrder::C, FlagOrder::F];
