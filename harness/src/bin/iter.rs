//! Driver for element and axis iterators.  `iter OUT SEED TIER PROFILE [SCHEDULES]`  (P07 | P08)
use rayon::prelude::*;
use vh::dev::{IndexedIterLayout, IterLayout, IterLayoutColMajor, IterLayoutRowMajor, IterSplitAtAPI};
use vh::dev::{Ix1, Ix2, Ix3, Ix4};
use vh::*;

trait It {
    fn front(&mut self) -> Option<J>;
    fn back(&mut self) -> Option<J>;
    fn nth(&mut self, k: usize) -> Option<J>;
    fn nthb(&mut self, k: usize) -> Option<J>;
    fn len(&self) -> usize;
    fn hint(&self) -> (usize, Option<usize>);
    fn split(self: Box<Self>, k: usize) -> (Box<dyn It>, Box<dyn It>);
    fn rest(self: Box<Self>) -> Vec<J>;
    fn restb(self: Box<Self>) -> Vec<J>;
    fn par(self: Box<Self>, pool: &rayon::ThreadPool) -> Vec<J>;
}
struct W<I, F>(I, F);
impl<I, F> It for W<I, F>
where
    I: Iterator + DoubleEndedIterator + ExactSizeIterator + IterSplitAtAPI + IntoParallelIterator<Item = <I as Iterator>::Item> + Send + 'static,
    <I as IntoParallelIterator>::Iter: IndexedParallelIterator,
    F: Fn(<I as Iterator>::Item) -> J + Clone + Send + Sync + 'static,
{
    fn front(&mut self) -> Option<J> { self.0.next().map(&self.1) }
    fn back(&mut self) -> Option<J> { self.0.next_back().map(&self.1) }
    fn nth(&mut self, k: usize) -> Option<J> { self.0.nth(k).map(&self.1) }
    fn nthb(&mut self, k: usize) -> Option<J> { self.0.nth_back(k).map(&self.1) }
    fn len(&self) -> usize { ExactSizeIterator::len(&self.0) }
    fn hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    fn split(self: Box<Self>, k: usize) -> (Box<dyn It>, Box<dyn It>) {
        let (a, b) = IterSplitAtAPI::split_at(self.0, k);
        (Box::new(W(a, self.1.clone())), Box::new(W(b, self.1)))
    }
    fn rest(self: Box<Self>) -> Vec<J> { let f = self.1; self.0.map(f).collect() }
    fn restb(self: Box<Self>) -> Vec<J> { let f = self.1; self.0.rev().map(f).collect() }
    fn par(self: Box<Self>, pool: &rayon::ThreadPool) -> Vec<J> {
        let W(i, f) = *self;
        pool.install(move || i.into_par_iter().map(f).collect::<Vec<J>>())
    }
}
fn bx<I, F>(i: I, f: F) -> Box<dyn It>
where
    W<I, F>: It + 'static,
{
    Box::new(W(i, f))
}
fn el(sh: &[usize], ad: Vec<i64>, ix: &[usize]) -> J {
    jo! { sh: sh, ad: ad, ix: ix }
}
fn at<T>(x: *const T, base: usize) -> J {
    el(&[], vec![((x as usize as i64) - base as i64) / std::mem::size_of::<T>() as i64], &[])
}
fn at_ix<T>(x: *const T, base: usize, ix: &[usize]) -> J {
    el(&[], vec![((x as usize as i64) - base as i64) / std::mem::size_of::<T>() as i64], ix)
}
fn sub<R, D: DimAPI>(t: &TensorAny<R, i32, Ser, D>, ix: &[usize]) -> J
where
    R: DataAPI<Data = Vec<i32>>,
{
    let sh: Vec<usize> = t.layout().shape().as_ref().to_vec();
    let st: Vec<isize> = t.layout().stride().as_ref().to_vec();
    el(&sh, addrs(&sh, &st, t.layout().offset(), 4000), ix)
}
fn sub_mut(mut t: TensorMut<'static, i32, Ser, IxD>, ix: &[usize]) -> J {
    let j = sub(&t, ix);
    let sh: Vec<usize> = t.layout().shape().to_vec();
    let st: Vec<isize> = t.layout().stride().to_vec();
    let of = t.layout().offset();
    let raw = t.raw_mut();
    for a in addrs(&sh, &st, of, 4000) {
        raw[a as usize] += 1000;
    }
    j
}

const ORDS: [(&str, TensorIterOrder); 6] =
    [("C", TensorIterOrder::C), ("F", TensorIterOrder::F), ("A", TensorIterOrder::A), ("K", TensorIterOrder::K), ("G", TensorIterOrder::G), ("B", TensorIterOrder::B)];

/// kinds 0..=11 iterate over elements, 20..=27 over axes
fn make<D: DimAPI + 'static>(kind: usize, ord: TensorIterOrder, axes: &[isize], buf: &'static mut Vec<i32>, l: Layout<D>, d: &Ser, inf: bool) -> Res<Box<dyn It>>
where
    D: Send + Sync,
{
    let base = buf.as_ptr() as usize;
    let ro = move |x: &'static i32| at(x as *const i32, base);
    let rw = move |x: &'static mut i32| { *x += 1000; at(x as *const i32, base) };
    let rix = move |(i, x): (D, &'static i32)| at_ix(x as *const i32, base, i.as_ref());
    let rwix = move |(i, x): (D, &'static mut i32)| { *x += 1000; at_ix(x as *const i32, base, i.as_ref()) };
    let off = |x: usize| el(&[], vec![x as i64], &[]);
    let offix = |(i, x): (D, usize)| el(&[], vec![x as i64], i.as_ref());
    let axes: Vec<isize> = axes.to_vec();
    macro_rules! v { () => { view_of::<i32, Ser, D>(buf, l, d) } }
    macro_rules! m { () => { Box::leak(Box::new(mut_of::<i32, Ser, D>(buf, l, d))) } }
    match kind {
        0 => if inf { run_p(|| bx(v!().iter(), ro)) } else { run(|| v!().iter_f().map(|i| bx(i, ro))) },
        1 => if inf { run_p(|| bx(v!().iter_with_order(ord), ro)) } else { run(|| v!().iter_with_order_f(ord).map(|i| bx(i, ro))) },
        2 => if inf { run_p(|| bx(m!().iter_mut(), rw)) } else { run(|| m!().iter_mut_f().map(|i| bx(i, rw))) },
        3 => if inf { run_p(|| bx(m!().iter_mut_with_order(ord), rw)) } else { run(|| m!().iter_mut_with_order_f(ord).map(|i| bx(i, rw))) },
        4 => if inf { run_p(|| bx(v!().indexed_iter(), rix)) } else { run(|| v!().indexed_iter_f().map(|i| bx(i, rix))) },
        5 => if inf { run_p(|| bx(v!().indexed_iter_with_order(ord), rix)) } else { run(|| v!().indexed_iter_with_order_f(ord).map(|i| bx(i, rix))) },
        6 => if inf { run_p(|| bx(m!().indexed_iter_mut(), rwix)) } else { run(|| m!().indexed_iter_mut_f().map(|i| bx(i, rwix))) },
        7 => if inf { run_p(|| bx(m!().indexed_iter_mut_with_order(ord), rwix)) } else { run(|| m!().indexed_iter_mut_with_order_f(ord).map(|i| bx(i, rwix))) },
        8 => run(|| IterLayout::new(&l, ord).map(|i| bx(i, off))),
        9 => run(|| IndexedIterLayout::new(&l, if ord == TensorIterOrder::F { FlagOrder::F } else { FlagOrder::C }).map(|i| bx(i, offix))),
        10 => run(|| IterLayoutRowMajor::new(&l).map(|i| bx(i, off))),
        11 => run(|| IterLayoutColMajor::new(&l).map(|i| bx(i, off))),
        20 => if inf { run_p(|| bx(v!().axes_iter(axes), |t| sub(&t, &[]))) } else { run(|| v!().axes_iter_f(axes).map(|i| bx(i, |t| sub(&t, &[])))) },
        21 => if inf { run_p(|| bx(v!().axes_iter_with_order(axes, ord), |t| sub(&t, &[]))) } else { run(|| v!().axes_iter_with_order_f(axes, ord).map(|i| bx(i, |t| sub(&t, &[])))) },
        22 => if inf { run_p(|| bx(m!().axes_iter_mut(axes), |t| sub_mut(t, &[]))) } else { run(|| m!().axes_iter_mut_f(axes).map(|i| bx(i, |t| sub_mut(t, &[])))) },
        23 => if inf { run_p(|| bx(m!().axes_iter_mut_with_order(axes, ord), |t| sub_mut(t, &[]))) } else { run(|| m!().axes_iter_mut_with_order_f(axes, ord).map(|i| bx(i, |t| sub_mut(t, &[])))) },
        24 => if inf { run_p(|| bx(v!().indexed_axes_iter(axes), |(i, t)| sub(&t, &i))) } else { run(|| v!().indexed_axes_iter_f(axes).map(|i| bx(i, |(i, t)| sub(&t, &i)))) },
        25 => if inf { run_p(|| bx(v!().indexed_axes_iter_with_order(axes, ord), |(i, t)| sub(&t, &i))) } else { run(|| v!().indexed_axes_iter_with_order_f(axes, ord).map(|i| bx(i, |(i, t)| sub(&t, &i)))) },
        26 => if inf { run_p(|| bx(m!().indexed_axes_iter_mut(axes), |(i, t)| sub_mut(t, &i))) } else { run(|| m!().indexed_axes_iter_mut_f(axes).map(|i| bx(i, |(i, t)| sub_mut(t, &i)))) },
        _ => if inf { run_p(|| bx(m!().indexed_axes_iter_mut_with_order(axes, ord), |(i, t)| sub_mut(t, &i))) } else { run(|| m!().indexed_axes_iter_mut_with_order_f(axes, ord).map(|i| bx(i, |(i, t)| sub_mut(t, &i)))) },
    }
}

struct Setup {
    kind: usize,
    ord: usize,
    axes: Vec<isize>,
    lay: Lay,
    dev: FlagOrder,
    inf: bool,
    fixed: bool,
}
impl Setup {
    fn random(r: &mut Rng, axes_kind: bool, sh: Vec<usize>, axes: Vec<isize>) -> Setup {
        let kind = if axes_kind { r.us(20, 27) } else { r.us(0, 11) };
        let is_mut = matches!(kind, 2 | 3 | 6 | 7 | 22 | 23 | 26 | 27);
        let indexed = matches!(kind, 4 | 5 | 6 | 7 | 9 | 24 | 25 | 26 | 27);
        let ord = if kind == 9 { r.us(0, 1) } else if kind == 10 { 0 } else if kind == 11 { 1 } else if indexed && r.chance(80) { r.us(0, 1) } else { r.us(0, 5) };
        let lay = Lay::random(r, &sh, !is_mut && ord != 4);
        Setup { kind, ord, axes, lay, dev: if r.chance(50) { FlagOrder::C } else { FlagOrder::F }, inf: r.chance(25) && !(8..=11).contains(&kind), fixed: r.chance(40) }
    }
    fn build(&self) -> (J, Res<Box<dyn It>>, *const Vec<i32>) {
        let k = self.kind;
        let is_mut = matches!(k, 2 | 3 | 6 | 7 | 22 | 23 | 26 | 27);
        let indexed = matches!(k, 4 | 5 | 6 | 7 | 9 | 24 | 25 | 26 | 27);
        let explicit = matches!(k, 1 | 3 | 5 | 7 | 8 | 9 | 10 | 11 | 21 | 23 | 25 | 27);
        let d = ser(self.dev);
        let buf: &'static mut Vec<i32> = Box::leak(Box::new((0..self.lay.len as i32).collect()));
        let p = buf as *const Vec<i32>;
        let (on, o) = ORDS[self.ord];
        let l = self.lay.layout();
        macro_rules! go { ($d:ty) => { make::<$d>(k, o, &self.axes, buf, l.into_dim().unwrap(), &d, self.inf) } }
        let r = if self.fixed {
            match self.lay.sh.len() { 1 => go!(Ix1), 2 => go!(Ix2), 3 => go!(Ix3), 4 => go!(Ix4), _ => go!(IxD) }
        } else { go!(IxD) };
        let rj = match &r { Res::Ok(_) => jo! { k: "ok" }, _ => jo! { k: r.kind(), msg: r.msg() } };
        let j = jo! { e: "new", kind: k, indexed: indexed, plainaxes: k >= 20 && k < 24, muts: is_mut, inf: self.inf, ord: if explicit { on } else { "" }, dev: oname(self.dev),
            axes: &self.axes, sh: &self.lay.sh, st: &self.lay.st, of: self.lay.of, buf: (0..self.lay.len as i64).collect::<Vec<i64>>(), fixed: self.fixed, r: rj };
        (j, r, p)
    }
}
fn opt(o: Option<J>) -> J {
    jo! { k: "ok", el: J::A(o.into_iter().collect()) }
}
/// run a session: the given schedule, then (random) steps, then drain every piece
fn session(su: Setup, sched: &[(String, usize, usize)], extra: usize, r: &mut Rng, pools: &[rayon::ThreadPool]) -> Vec<J> {
    let (j, it, p) = su.build();
    let mut ev = vec![j];
    let Some(it) = it.ok() else { return ev };
    let mut ps: Vec<Option<Box<dyn It>>> = vec![Some(it)];
    let mut steps: Vec<(String, usize, usize)> = sched.to_vec();
    let mut pos = 0;
    let mut drained = false;
    loop {
        if pos == steps.len() {
            if pos < sched.len() + extra {
                let i = r.us(1, ps.len());
                let op = *r.pick(&["front", "front", "back", "back", "nth", "nthb", "len", "hint", "split"]);
                let n = ps[i - 1].as_ref().map(|x| x.len()).unwrap_or(0);
                let k = if op == "split" { r.us(0, n) } else if op.starts_with("nth") { r.us(0, 3) } else { 0 };
                if op == "split" && ps.len() > 5 { continue }
                steps.push((op.to_string(), i, k));
            } else if !drained {
                drained = true;
                let mut ids: Vec<usize> = (1..=ps.len()).collect();
                r.shuffle(&mut ids);
                for i in ids { steps.push((["rest", "restb", "par"][r.us(0, 2)].to_string(), i, 0)) }
            } else { break }
        }
        let (op, i, k) = steps[pos].clone();
        pos += 1;
        let mut made = 0usize;
        let slot = &mut ps[i - 1];
        let res = if matches!(op.as_str(), "rest" | "restb" | "par" | "split") {
            let it = slot.take().unwrap();
            match op.as_str() {
                "split" => match run_p(move || it.split(k)) {
                    Res::Ok((a, b)) => { *slot = Some(a); ps.push(Some(b)); made = ps.len(); Res::Ok(jo! { k: "ok" }) },
                    Res::Err(e) => Res::Err(e), Res::Panic(e) => Res::Panic(e),
                },
                _ => { let pool = &pools[r.us(0, pools.len() - 1)];
                       let x = match op.as_str() { "rest" => run_p(move || it.rest()), "restb" => run_p(move || it.restb()), _ => run_p(|| it.par(pool)) };
                       x.map(|v| jo! { k: "ok", el: J::A(v) }) },
            }
        } else {
            let it = slot.as_mut().unwrap();
            run_p(|| match op.as_str() {
                "front" => opt(it.front()), "back" => opt(it.back()), "nth" => opt(it.nth(k)), "nthb" => opt(it.nthb(k)),
                "len" => jo! { k: "ok", n: cl(it.len() as i128) },
                _ => { let (a, b) = it.hint(); jo! { k: "ok", lo: cl(a as i128), hi: b.map(|x| cl(x as i128)) } },
            })
        };
        let bad = res.kind() != "ok";
        let rj = match res { Res::Ok(j) => j, x => jo! { k: x.kind(), msg: x.msg() } };
        ev.push(jo! { e: "op", op: op, i: i, k: k, j: made, r: rj });
        if bad { return ev }
    }
    let buf = unsafe { &*p };
    ev.push(jo! { e: "end", buf: buf.iter().map(|x| *x as i64).collect::<Vec<i64>>() });
    ev
}
/// a shape with n elements
fn shape_of(r: &mut Rng, n: usize, ndmax: usize) -> Vec<usize> {
    let nd = r.us(if n == 1 { 0 } else { 1 }, ndmax);
    let mut sh = vec![1; nd];
    if n == 0 {
        for x in sh.iter_mut() { *x = r.us(0, 3) }
        let k = r.us(0, nd - 1);
        sh[k] = 0;
        return sh;
    }
    let mut m = n;
    let mut p = 2;
    while m > 1 {
        if m % p == 0 { let k = r.us(0, nd - 1); sh[k] *= p; m /= p } else { p += 1 }
    }
    sh
}
fn main() {
    let av: Vec<String> = std::env::args().collect();
    let a = args();
    let axes_kind = av.get(4).map(|s| s == "P08").unwrap_or(false);
    let mut out = Out::create(&a.out);
    let mut r = Rng::new(a.seed.wrapping_mul(31) + if axes_kind { 8 } else { 7 });
    let pools: Vec<rayon::ThreadPool> = [1, 2, 4].iter().map(|&n| rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()).collect();
    let mk = |r: &mut Rng, n: usize| -> Setup {
        if !axes_kind {
            let sh = shape_of(r, n, 6);
            let ax = (0..sh.len() as isize).collect();
            return Setup::random(r, false, sh, ax);
        }
        // the iterated axes have n positions, the others are small
        let outer = shape_of(r, n, 3);
        let inner = rand_shape(r, 3, 3, 8, 6);
        let nd = outer.len() + inner.len();
        let pl = r.perm(nd);
        let mut sh = vec![0; nd];
        for (q, &p) in pl.iter().enumerate() { sh[p] = if q < outer.len() { outer[q] } else { inner[q - outer.len()] } }
        let mut ax: Vec<isize> = pl[..outer.len()].iter().map(|&p| if r.chance(40) { p as isize - nd as isize } else { p as isize }).collect();
        if r.chance(6) {
            match r.us(0, 2) { 0 => ax.push(nd as isize), 1 => ax.push(-(nd as isize) - 1), _ => { if let Some(&x) = ax.first() { ax.push(if x < 0 { x + nd as isize } else { x }) } else { ax.push(7) } } }
        }
        Setup::random(r, true, sh, ax)
    };
    if let Some(p) = av.get(5) {
        for line in std::fs::read_to_string(p).unwrap().lines() {
            let mut f = line.split(';');
            let n: usize = f.next().unwrap().parse().unwrap();
            let st: Vec<(String, usize, usize)> = f.map(|x| { let v: Vec<&str> = x.split(',').collect(); (v[0].to_string(), v[1].parse().unwrap(), v[2].parse().unwrap()) }).collect();
            let su = mk(&mut r, n);
            let ev = session(su, &st, 0, &mut r, &pools);
            out.session(ev);
        }
    }
    let n = if a.thorough { 12000 } else { 1800 };
    for i in 0..n {
        let tot = if i % 25 == 0 { *r.pick(&[48usize, 72, 100]) } else { *r.pick(&[0usize, 1, 2, 3, 4, 6, 8, 9, 12, 16, 18, 24]) };
        let su = mk(&mut r, tot);
        let extra = r.us(0, 12);
        let ev = session(su, &[], extra, &mut r, &pools);
        out.session(ev);
    }
    out.finish();
}
