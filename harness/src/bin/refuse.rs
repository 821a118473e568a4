//! Driver for refusals: every request in its fallible and its infallible form, with arguments of every
//! size and kind.  `refuse OUT SEED TIER`
use vh::dev::{AxesIndex, IxD, Indexer, Result, Slice};
use vh::{args, fae, obs, oname, poison, prod, rand_shape, run, run_p, ser, *};
use vh::dev::OpAssignAPI;
type T = f64;
#[derive(Clone, Default, PartialEq)]
pub struct Out { sh: Vec<usize>, v: Vec<i64>, oob: bool, huge: bool, nov: bool }
/// an axis or a list of axes in one of many forms
#[derive(Clone, Default, Debug)]
pub struct Ax { v: Vec<i128>, form: usize, ty: usize }
const NONE: usize = 7;
impl Ax {
    fn axes(&self) -> Result<AxesIndex<isize>> {
        let v = &self.v;
        macro_rules! conv { ($t:ty) => {{
            let w: Vec<$t> = v.iter().map(|&x| x as $t).collect();
            Ok(match (self.form, w.len()) {
                (0, _) => w.try_into()?,
                (1, _) => w.as_slice().try_into()?,
                (2, 1) => w[0].try_into()?,
                (3, 2) => (w[0], w[1]).try_into()?,
                (3, 3) => (w[0], w[1], w[2]).try_into()?,
                (3, 4) => (w[0], w[1], w[2], w[3]).try_into()?,
                (4, 2) => [w[0], w[1]].try_into()?,
                (4, 3) => [w[0], w[1], w[2]].try_into()?,
                (5, 0) => ().into(),
                (6, 2) => (&[w[0], w[1]]).try_into()?,
                _ => (&w).try_into()?,
            })
        }} }
        match self.ty {
            _ if self.form == NONE => Ok(None::<isize>.try_into()?),
            0 => conv!(isize), 1 => conv!(usize), 2 => conv!(i32), 3 => conv!(u32), 4 => conv!(u64), _ => conv!(i64),
        }
    }
    fn pair<R>(&self, f: impl Fn(isize, isize) -> R, g: impl Fn(usize, usize) -> R, h: impl Fn(i32, i32) -> R) -> R {
        let v = &self.v;
        match self.ty { 0 => f(v[0] as isize, v[1] as isize), 1 => g(v[0] as usize, v[1] as usize), _ => h(v[0] as i32, v[1] as i32) }
    }
    fn single<R>(&self, f: impl Fn(isize) -> R, g: impl Fn(usize) -> R, h: impl Fn(i32) -> R) -> R {
        let v = self.v[0];
        match self.ty { 0 => f(v as isize), 1 => g(v as usize), _ => h(v as i32) }
    }
}
#[derive(Clone, Debug)]
pub enum It { I(i128), S(Option<i128>, Option<i128>, Option<i128>), N, E }
#[derive(Clone, Default)]
pub struct Q { items: Vec<It>, ity: usize, iform: usize, ax: Ax, ax2: Ax, n: Vec<i128>, lower: bool, len: usize }
impl Q {
    fn items(&self) -> Result<AxesIndex<Indexer>> {
        macro_rules! idx { ($t:ty) => { self.items.iter().map(|it| match it {
            It::I(i) => Indexer::from(*i as $t),
            It::S(Some(a), Some(b), None) => Indexer::from((*a as $t)..(*b as $t)),
            It::S(Some(a), None, None) => Indexer::from((*a as $t)..),
            It::S(None, Some(b), None) => Indexer::from(..(*b as $t)),
            It::S(a, b, c) => Indexer::from(Slice::<isize>::new(a.map(|x| x as isize), b.map(|x| x as isize), c.map(|x| x as isize))),
            It::N => Indexer::Insert,
            It::E => Indexer::Ellipsis,
        }).collect::<Vec<Indexer>>() } }
        // one index or one range for the first axis, in its own type
        macro_rules! first { ($t:ty) => { match &self.items[0] {
            It::I(i) => return Ok((*i as $t).try_into()?),
            It::S(Some(a), Some(b), None) => return Ok(((*a as $t)..(*b as $t)).try_into()?),
            It::S(Some(a), None, None) => return Ok(((*a as $t)..).try_into()?),
            It::S(None, Some(b), None) => return Ok((..(*b as $t)).try_into()?),
            _ => (),
        } } }
        if self.iform == 1 && self.items.len() == 1 { match self.ity { 0 => first!(isize), 1 => first!(usize), _ => first!(i32) } }
        // a list of indices in their own type
        macro_rules! ints { ($t:ty) => {{ let v: Vec<$t> = self.items.iter().map(|x| match x { It::I(i) => *i as $t, _ => 0 }).collect(); return match v.len() { 2 if self.iform == 3 => Ok((v[0], v[1]).try_into()?), _ => Ok(v.try_into()?) } }} }
        if self.iform >= 2 && self.items.iter().all(|x| matches!(x, It::I(_))) { match self.ity { 0 => ints!(isize), 1 => ints!(usize), _ => ints!(i32) } }
        let v = match self.ity { 0 => idx!(isize), 1 => idx!(usize), _ => idx!(i32) };
        match (self.iform, v.len()) { (3, 2) => Ok((v[0].clone(), v[1].clone()).try_into()?), _ => Ok(v.into()) }
    }
}
pub mod s { use super::*; type B = Ser; include!("../body/refuse.rs"); }
pub mod p { use super::*; type B = Fae; include!("../body/refuse.rs"); }

fn cl(x: i128) -> i64 { x.clamp(-1_000_000_000, 1_000_000_000) as i64 }
fn cls(v: &[i128]) -> Vec<i64> { v.iter().map(|&x| cl(x)).collect() }
fn opt(x: &Option<i128>) -> Vec<i64> { x.iter().map(|&x| cl(x)).collect() }
fn items_j(v: &[It]) -> J {
    J::A(v.iter().map(|i| match i { It::I(v) => jo! { k: "i", v: cl(*v) }, It::S(a, o, p) => jo! { k: "s", a: opt(a), o: opt(o), p: opt(p) }, It::N => jo! { k: "n" }, It::E => jo! { k: "e" } }).collect())
}
const HUGE: [i128; 12] = [i64::MIN as i128, i64::MIN as i128 + 1, i64::MAX as i128, i64::MAX as i128 - 1, i32::MIN as i128, i32::MAX as i128, u32::MAX as i128, u64::MAX as i128, u64::MAX as i128 - 1, 1i128 << 63, 1i128 << 40, -(1i128 << 40)];
fn fits(x: i128, ty: usize) -> bool {
    match ty { 0 | 5 => i64::try_from(x).is_ok(), 1 | 4 => u64::try_from(x).is_ok(), 2 => i32::try_from(x).is_ok(), _ => u32::try_from(x).is_ok() }
}
/// a number around lo..=hi, sometimes just outside, sometimes enormous
fn num(r: &mut Rng, lo: i64, hi: i64, ty: usize) -> i128 {
    for _ in 0..50 {
        let x = match r.us(0, 19) { 0..=13 if lo <= hi => r.int(lo, hi) as i128, 14 | 15 => r.int(lo - 2, hi + 2) as i128, 16 => r.int(-3, 3) as i128, _ => *r.pick(&HUGE) };
        if fits(x, ty) { return x }
    }
    0
}
fn ty(r: &mut Rng) -> usize { *r.pick(&[0, 0, 0, 1, 1, 2, 3, 4, 5]) }
fn one_ax(r: &mut Rng, n: usize, tys: usize) -> Ax { let t = r.us(0, tys); let n = n as i64; Ax { v: vec![num(r, -n, n - 1, t)], form: 2, ty: t } }
fn axes(r: &mut Rng, n: usize, full: bool) -> Ax {
    let t = ty(r);
    let m = n as i64;
    let k = if full && r.chance(70) { n } else { r.us(0, n + 1) };
    let p = r.perm(n);
    let mut v: Vec<i128> = (0..k).map(|i| if i < n && !r.chance(12) { let a = p[i] as i128; if fits(-1, t) && r.chance(40) { a - m as i128 } else { a } } else { num(r, -m, m - 1, t) }).collect();
    if r.chance(4) { v.push(num(r, -m, m - 1, t)); }
    Ax { v, form: if r.chance(6) { NONE } else { r.us(0, 6) }, ty: t }
}
fn ax_j(a: &Ax) -> (bool, Vec<i64>) { (a.form == NONE, cls(&a.v)) }
fn json(op: &str, q: &Q) -> J {
    let (none, ax) = ax_j(&q.ax);
    let (none2, ax2) = ax_j(&q.ax2);
    let n = cls(&q.n);
    let a1 = ax.first().copied().unwrap_or(0);
    match op {
        "slice" => jo! { items: items_j(&q.items) },
        "transpose" | "flip" | "expand" | "squeeze" | "sum" | "rshape" | "argmin" | "axes_iter" | "selectnone" => jo! { none: none, ax: ax },
        "swapaxes" => jo! { a: ax[0], b: ax[1] },
        "moveaxis" | "vecdot2" => jo! { none: none || none2, src: ax, dst: ax2 },
        "reshape" => jo! { none: none, sh: ax },
        "diagonal" => jo! { off: vec![n[0]], a1: vec![n[1]], a2: vec![n[2]] },
        "broadcast" | "zeros" => jo! { sh: n },
        "asarray" => jo! { sh: n, n: q.len },
        "intodim" | "linspace" => jo! { n: n[0] },
        "select" | "mask" => jo! { a: a1, idx: n },
        "unstack" | "concat" | "stack" | "vecdot" => jo! { a: a1 },
        "tri" => jo! { uplo: if q.lower { "L" } else { "U" }, diag: n[0] },
        "diag" => jo! { diag: n[0] },
        "pack" => jo! { uplo: if q.lower { "L" } else { "U" } },
        "unpack" => jo! { uplo: if q.lower { "L" } else { "U" }, symm: "N" },
        "eye" => jo! { sh: vec![n[0], n[1]], diag: n[2] },
        "index" => jo! { idx: n },
        "arange" => jo! { start: n[0], stop: n[1], step: n[2] },
        _ => jo! { n: 0 },
    }
}
fn outs(r: &Res<Vec<Out>>) -> J {
    match r {
        Res::Ok(v) => jo! { k: if v.iter().any(|o| o.oob) { "oob" } else if v.iter().any(|o| o.huge) { "huge" } else { "ok" }, outs: J::A(v.iter().map(|o| jo! { sh: if o.huge { vec![] } else { o.sh.iter().map(|&d| d.min(1_000_000_000)).collect() }, v: &o.v, nov: o.nov }).collect()) },
        _ => jo! { k: r.kind(), outs: J::A(vec![]), msg: r.msg() },
    }
}
fn ti(r: &mut Rng, sh: &[usize], bc: bool) -> Ti<T> {
    let mut c = Ti::<T>::new(Lay::random(r, sh, bc), |_| 0);
    for x in c.buf.iter_mut() { *x = r.int(-9, 9) as T; }
    c
}
fn partner(r: &mut Rng, sh: &[usize]) -> Vec<usize> {
    let mut s: Vec<usize> = sh.iter().map(|&d| if r.chance(25) { 1 } else { d }).collect();
    let k = r.us(0, s.len());
    if r.chance(35) { s = s[k..].to_vec(); }
    if r.chance(15) && s.len() < 4 { s.insert(0, r.us(0, 3)); }
    if r.chance(25) && !s.is_empty() { let i = r.us(0, s.len() - 1); s[i] = r.us(0, 4); }
    s
}
const OPS: [(&str, u64); 47] = [("slice", 16), ("transpose", 4), ("mtrans", 1), ("swapaxes", 3), ("moveaxis", 4), ("flip", 4), ("expand", 4), ("squeeze", 4), ("diagonal", 4), ("broadcast", 4), ("reshape", 7), ("intodim", 1), ("tovec", 2), ("scalar", 2),
    ("select", 5), ("selectnone", 1), ("mask", 3), ("unstack", 3), ("concat", 4), ("stack", 4), ("concat0", 1), ("meshgrid", 3), ("sum", 3), ("rshape", 5), ("argmin", 4), ("axes_iter", 5), ("iterord", 2), ("add", 3), ("without", 3), ("assign", 3), ("matmul", 4), ("matmulout", 3), ("vecdot", 4), ("vecdot2", 3),
    ("bcast", 3), ("allclose", 2), ("tri", 3), ("diag", 2), ("pack", 3), ("unpack", 3), ("index", 4), ("zeros", 3), ("eye", 3), ("arange", 3), ("linspace", 2), ("asarray", 3), ("none", 0)];
fn event(r: &mut Rng) -> J {
    let tot: u64 = OPS.iter().map(|x| x.1).sum();
    let mut k = r.us(0, tot as usize - 1) as u64;
    let mut op = "";
    for (o, w) in OPS { if k < w { op = o; break } k -= w; }
    let sh = rand_shape(r, 4, 4, 60, 6);
    let n = sh.len();
    let m = n as i64;
    let mut q = Q { lower: r.chance(50), ..Q::default() };
    let mut ins = vec![ti(r, &sh, true)];
    match op {
        "slice" => {
            q.ity = r.us(0, 2); q.iform = r.us(0, 3);
            let c = if r.chance(15) { r.us(0, n + 2) } else { r.us(1, n.max(1)) };
            let only = r.chance(25);
            q.items = (0..c).map(|i| {
                let d = sh.get(i).copied().unwrap_or(2) as i64;
                let o = |r: &mut Rng| if r.chance(30) { None } else { Some(num(r, -d, d, q.ity)) };
                match r.us(0, 9) { 0..=3 => It::I(num(r, -d, d - 1, q.ity)), _ if only => It::I(num(r, -d, d - 1, q.ity)), 4..=5 => It::S(o(r), o(r), None),
                    6..=7 => { let p = if r.chance(20) { None } else { Some(num(r, -2, 2, 0)) }; let t = if p.is_none() { q.ity } else { 0 }; let mut f = |r: &mut Rng| if r.chance(30) { None } else { Some(num(r, -d, d, t)) }; let (a, b) = (f(r), f(r)); It::S(a, b, p) },
                    8 => It::N, _ => It::E }
            }).collect();
        },
        "transpose" => q.ax = axes(r, n, true),
        "swapaxes" => { let t = r.us(0, 2); q.ax = Ax { v: vec![num(r, -m, m - 1, t), num(r, -m, m - 1, t)], form: 0, ty: t } },
        "moveaxis" => { q.ax = axes(r, n, false); q.ax2 = axes(r, n, false); if r.chance(70) { let k = q.ax.v.len(); q.ax2.v.truncate(k); while q.ax2.v.len() < k { let t = q.ax2.ty; let x = num(r, if fits(-1, t) { -m } else { 0 }, m - 1, t); q.ax2.v.push(x); } } },
        "expand" => { q.ax = axes(r, n.min(2) + 1, false); },
        "flip" | "sum" | "rshape" | "axes_iter" => q.ax = axes(r, n, false),
        "squeeze" => { let s: Vec<usize> = sh.iter().map(|&d| if r.chance(60) { 1 } else { d }).collect(); ins[0] = ti(r, &s, true); q.ax = axes(r, n, false) },
        "argmin" => q.ax = if r.chance(60) { let mut a = one_ax(r, n, 2); a.form = r.us(0, 2); a } else { axes(r, n, false) },
        "diagonal" => { q.ity = r.us(0, 2); let t = q.ity; q.n = vec![num(r, -3, 3, t), num(r, -m, m - 1, t), num(r, -m, m - 1, t)] },
        "broadcast" => { let s = partner(r, &sh); ins[0] = ti(r, &s, true); q.n = sh.iter().map(|&d| if r.chance(8) { num(r, 0, 4, 1) } else { d as i128 }).collect(); },
        "reshape" => { let s = prod(&sh) as i128; q.ax = Ax { v: match r.us(0, 4) { 0 => vec![s], 1 => vec![-1], 2 => { let d = r.int(0, 4) as i128; vec![-1, d] }, 3 => { let k = r.us(0, 4); (0..k).map(|_| num(r, -1, 4, 0)).collect() },
                _ => { let p = r.perm(n); let mut v: Vec<i128> = p.iter().map(|&i| sh[i] as i128).collect(); if r.chance(30) && n > 0 { let i = r.us(0, n - 1); v[i] = num(r, -2, 4, 0); } v } }, form: r.us(0, 6), ty: 0 };
            if r.chance(25) && q.ax.v.iter().all(|&x| x >= 0) { q.ax.ty = *r.pick(&[1, 4]); if r.chance(30) && !q.ax.v.is_empty() { q.ax.v[0] = *r.pick(&[u64::MAX as i128, 1i128 << 63, 1i128 << 62]); } } },
        "intodim" => q.n = vec![r.int(0, 4) as i128],
        "tovec" | "scalar" | "iterord" => if r.chance(50) { let s = if op == "tovec" { vec![r.us(0, 4)] } else { vec![1; r.us(0, 3)] }; ins[0] = ti(r, &s, true); },
        "select" => { q.ax = one_ax(r, n, 0); let d = sh.get(q.ax.v[0].rem_euclid(m.max(1) as i128) as usize).copied().unwrap_or(1) as i64; let k = r.us(0, 3); let wild = r.chance(40); q.n = (0..k).map(|_| if wild { num(r, -d, d - 1, 0) } else { r.int(-d, (d - 1).max(-d)) as i128 }).collect(); },
        "selectnone" => q.ax = Ax { v: vec![], form: NONE, ty: 0 },
        "mask" => { q.ax = one_ax(r, n, 0); let d = sh.get(q.ax.v[0].rem_euclid(m.max(1) as i128) as usize).copied().unwrap_or(1); q.n = (0..d).map(|_| r.int(0, 1) as i128).collect(); },
        "unstack" => q.ax = one_ax(r, n, 0),
        "concat" | "stack" => { let e = (op == "stack") as usize; q.ax = one_ax(r, n + e, 2); for _ in 0..r.us(0, 2) { let mut s = sh.clone(); if r.chance(20) && n > 0 { let i = r.us(0, n - 1); s[i] = r.us(0, 4); } if r.chance(5) { s.push(1); } ins.push(ti(r, &s, true)); } },
        "concat0" => q.ax = one_ax(r, 1, 0),
        "meshgrid" => { let c = r.us(1, 3); ins = (0..c).map(|_| { let s = if r.chance(10) { vec![2; r.us(0, 2)] } else { vec![r.us(0, 3)] }; ti(r, &s, true) }).collect(); },
        "add" | "bcast" | "allclose" => { let s = partner(r, &sh); ins.push(ti(r, &s, true)); },
        "without" => { let s = partner(r, &sh); ins.push(ti(r, &s, true)); let o = if r.chance(70) { sh.clone() } else { partner(r, &sh) }; ins.push(ti(r, &o, false)); },
        "assign" => { ins[0] = ti(r, &sh, false); let s = partner(r, &sh); ins.push(ti(r, &s, true)); },
        "matmul" | "matmulout" => {
            let kk = if n == 0 { 1 } else { sh[n - 1] };
            let w = r.us(0, 4);
            let mut s = match r.us(0, 3) { 0 => vec![kk], 1 | 2 => vec![kk, w], _ => [&sh[..n.saturating_sub(2)], &[kk, w][..]].concat() };
            if op == "matmulout" { let a = [r.us(0, 3), kk]; ins[0] = ti(r, &a, true); s = vec![kk, w]; }
            if r.chance(15) { s[0] = r.us(0, 4); }
            if r.chance(4) { s = vec![]; }
            ins.push(ti(r, &s, true));
            if op == "matmulout" { let mut o = vec![ins[0].lay.sh[0], w]; if r.chance(25) { o[r.us(0, 1)] = r.us(0, 4); } if r.chance(6) { o.push(1); } ins.push(ti(r, &o, false)); }
        },
        "vecdot" | "vecdot2" => { let s = if r.chance(70) { sh.clone() } else { partner(r, &sh) }; ins.push(ti(r, &s, true)); q.ax = one_ax(r, n, 2); if op == "vecdot2" { q.ax.form = r.us(0, 2); q.ax2 = one_ax(r, s.len(), 0); q.ax2.form = if r.chance(5) { NONE } else { r.us(0, 2) }; if r.chance(6) { q.ax2.v.push(0); } } },
        "tri" => { q.n = vec![num(r, -3, 3, 0)]; },
        "diag" => { let s = vec![r.us(0, 3); r.us(0, 3)]; ins[0] = ti(r, &s, true); q.n = vec![if r.chance(70) || s.len() != 1 { num(r, -3, 3, 0) } else { r.int(-3, 3) as i128 }]; if s.len() == 1 && q.n[0].abs() > 100 { q.n[0] = *r.pick(&[i64::MAX as i128, i64::MIN as i128]); } },
        "pack" => { let k = r.us(0, 4); let mut s = vec![k, if r.chance(30) { r.us(0, 4) } else { k }]; if r.chance(30) { s.insert(0, r.us(0, 2)); } if r.chance(10) { s.truncate(r.us(0, 1)); } ins[0] = ti(r, &s, true); },
        "unpack" => { let s = if r.chance(10) { vec![] } else { vec![r.us(0, 10)] }; ins[0] = ti(r, &s, true); },
        "index" => { let c = if r.chance(10) { r.us(0, n + 1) } else { n }; q.n = (0..c).map(|i| { let d = sh.get(i).copied().unwrap_or(1) as i64; if r.chance(75) && d > 0 { r.int(0, d - 1) as i128 } else { num(r, 0, d, 1) } }).collect(); },
        "zeros" | "asarray" => { let c = r.us(0, 3); q.n = (0..c).map(|_| r.int(0, 3) as i128).collect(); if r.chance(40) && c > 0 { let i = r.us(0, c - 1); q.n[i] = *r.pick(&[u64::MAX as i128, i64::MAX as i128, 1i128 << 63, 1i128 << 61, 1i128 << 62]); } q.len = r.us(0, 12); },
        "eye" => { q.n = vec![r.int(0, 3) as i128, r.int(0, 3) as i128, num(r, -3, 3, 0)]; },
        "arange" => { q.n = vec![r.int(-9, 9) as i128, 0, r.int(-3, 3) as i128]; q.n[1] = q.n[0] + r.int(-20, 20) as i128;},
        "linspace" => q.n = vec![if r.chance(85) { r.int(0, 5) as i128 } else { u64::MAX as i128 }],
        _ => (),
    }
    let how = r.us(0, 119);
    let par = r.chance(45);
    let nt = r.us(1, 4);
    let o = *r.pick(&[FlagOrder::C, FlagOrder::F]);
    let mixed = ins.len() > 1 && r.chance(12);
    // another mode, or another number of threads
    let o2 = if mixed && (!par || r.chance(50)) { if o == FlagOrder::C { FlagOrder::F } else { FlagOrder::C } } else { o };
    let nt2 = if mixed && o2 == o { nt + 1 } else { nt };
    let was = ins.clone();
    for k in [1, 2, 4, 6, 8, 12, 24] { poison::<T>(k); }
    let (f, i) = if par { p::exec(op, how, &q, &mut ins, &fae(nt, o), &fae(nt2, o2)) } else { s::exec(op, how, &q, &mut ins, &ser(o), &ser(o2)) };
    let unch = was.iter().zip(&ins).all(|(a, b)| a.buf.iter().zip(&b.buf).all(|(x, y)| x.to_bits() == y.to_bits()));
    let same = match (&f, &i) { (Res::Ok(x), Res::Ok(y)) => x == y, _ => true };
    jo! { e: op, mixed: mixed, par: par, nt: nt, how: how, o: oname(o), form: q.ax.form, ty: q.ax.ty, unch: unch, same: same, a: json(op, &q),
        ins: J::A(was.iter().map(|x| jo! { sh: &x.lay.sh, v: x.vals().iter().map(|v| v.ti()).collect::<Vec<i64>>() }).collect()), rf: outs(&f), ki: i.kind(), mi: i.msg() }
}
fn main() {
    let a = args();
    let mut out = vh::Out::create(&a.out);
    let mut r = Rng::new(a.seed.wrapping_mul(977) + 5);
    let n = if a.thorough { 8000 } else { 900 };
    for _ in 0..n { let evs = (0..12).map(|_| event(&mut r)).collect(); out.session(evs); }
    out.finish();
}
