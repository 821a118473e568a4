//! Driver for reductions.  `red OUT SEED TIER PROFILE` (P09 | P10 | P14)
use rstsr_native_impl::prelude_dev as ni;
use vh::*;
#[allow(unused)]
use vh::dev::{Ix0, Ix1, Ix2, Ix3};

macro_rules! inst { ($m:ident, $T:ty, $B:ty, $($extra:literal),*) => { mod $m {
    use super::*;
    type T = $T; type B = $B;
    include!("../body/red.rs");
    $(include!($extra);)*
} } }
inst!(is, i32, Ser, "../body/red_n.rs");
inst!(ip, i32, Fae, "../body/red_n.rs");
inst!(fs, f64, Ser, "../body/red_n.rs", "../body/red_f.rs");
inst!(fp, f64, Fae, "../body/red_n.rs", "../body/red_f.rs");
inst!(bs, bool, Ser, "../body/red_b.rs");
inst!(bp, bool, Fae, "../body/red_b.rs");

const NUM: [&str; 5] = ["sum", "prod", "min", "max", "count_nonzero"];
const FLT: [&str; 4] = ["mean", "var", "std", "l2_norm"];
const BOL: [&str; 3] = ["any", "all", "sum"];
const ARG: [&str; 4] = ["argmin", "argmax", "uargmin", "uargmax"];

/// a layout whose outer axes are contiguous stretches of the given size: the kernels switch on these
pub fn axes_of(r: &mut Rng, nd: usize, bad: u64) -> Option<Vec<isize>> {
    if r.chance(30) {
        return None;
    }
    let k = r.us(0, nd);
    let mut v: Vec<isize> = r.perm(nd).into_iter().take(k).map(|a| if r.chance(40) { a as isize - nd as isize } else { a as isize }).collect();
    if r.chance(40) {
        v.sort();
    }
    if r.chance(bad) {
        match r.int(0, 2) {
            0 => v.push(nd as isize + r.int(0, 1) as isize),
            1 if !v.is_empty() => {
                let x = v[0];
                v.push(if r.chance(50) { x } else if x < 0 { x + nd as isize } else { x - nd as isize });
            },
            _ => v.push(-(nd as isize) - 1),
        }
    }
    Some(v)
}
/// shapes large enough for the threaded code paths
pub fn big_shape(r: &mut Rng, max: usize) -> Vec<usize> {
    loop {
        let nd = r.us(1, 4);
        let sh: Vec<usize> = (0..nd)
            .map(|_| match r.int(0, 5) {
                0 => r.us(1, 4),
                1 => r.us(30, 34),
                2 => r.us(60, 70),
                3 => r.us(1000, 1100),
                4 => r.us(1, 12),
                _ => r.us(7, 50),
            })
            .collect();
        let n = prod(&sh);
        if n >= 1020 && n <= max {
            return sh;
        }
    }
}
pub fn shape_lay(r: &mut Rng, big: bool) -> Lay {
    let sh = if big { big_shape(r, 2600) } else if r.chance(25) {
        // some axis reaches the contiguous switch
        let mut s = rand_shape(r, 3, 3, 20, 3);
        let k = r.us(0, s.len());
        s.insert(k, r.us(30, 70));
        s
    } else { rand_shape(r, 4, 4, 100, 4) };
    Lay::random(r, &sh, true)
}
fn pick_axes(ax: &Option<Vec<isize>>) -> J {
    match ax { None => J::A(vec![]), Some(v) => J::A(vec![J::from(v.clone())]) }
}

/// run the kernels with accumulators that remember the cells that went into them
fn bag(r: &mut Rng, lay: &Lay, ax: &Option<Vec<isize>>, nt: usize) -> J {
    let ids: Vec<u32> = (0..lay.len as u32).collect();
    let pool = if nt == 0 { None } else { Some(rayon::ThreadPoolBuilder::new().num_threads(nt).build().unwrap()) };
    let l = lay.layout();
    let init = || Vec::<u32>::new();
    let f = |mut acc: Vec<u32>, x: u32| { acc.push(x); acc };
    let fs = |mut a: Vec<u32>, b: Vec<u32>| { a.extend(b); a };
    let fo = |a: Vec<u32>| a;
    let grp = |mut v: Vec<u32>| -> J {
        v.sort();
        let mut o: Vec<(u32, i64)> = vec![];
        for x in v { match o.last_mut() { Some(p) if p.0 == x => p.1 += 1, _ => o.push((x, 1)) } }
        J::A(o.into_iter().map(|(x, c)| J::A(vec![J::I(x as i64), J::I(c)])).collect())
    };
    let res = match ax {
        None => {
            let x = match &pool {
                None => run(|| ni::reduce_all_cpu_serial(&ids, &l, init, f, fs, fo)),
                Some(p) => run(|| ni::reduce_all_cpu_rayon(&ids, &l, init, f, fs, fo, Some(p))),
            };
            x.map(|v| jo! { k: "ok", sh: Vec::<i64>::new(), v: J::A(vec![grp(v)]) })
        },
        Some(ax) => {
            let x = match &pool {
                None => run(|| ni::reduce_axes_cpu_serial(&ids, &l, ax, init, f, fs, fo)),
                Some(p) => run(|| ni::reduce_axes_cpu_rayon(&ids, &l, ax, init, f, fs, fo, Some(p))),
            };
            x.map(|(o, lo)| {
                let ad = addrs(lo.shape(), lo.stride(), lo.offset(), 1 << 20);
                jo! { k: "ok", sh: lo.shape().to_vec(), v: J::A(ad.into_iter().map(|a| grp(o[a as usize].clone())).collect()) }
            })
        },
    };
    let _ = r;
    jo! { e: "bag", sh: &lay.sh, st: &lay.st, of: lay.of, axes: pick_axes(ax), nt: nt, r: enc_res(res) }
}
fn pair(r: &mut Rng, la: &Lay, lb: &Lay, nt: usize) -> J {
    let _ = r;
    let ia: Vec<u32> = (0..la.len as u32).collect();
    let ib: Vec<u32> = (0..lb.len as u32).collect();
    let (l1, l2) = (la.layout(), lb.layout());
    let init = || Vec::<(u32, u32)>::new();
    let f = |mut acc: Vec<(u32, u32)>, x: (u32, u32)| { acc.push(x); acc };
    let fs = |mut a: Vec<(u32, u32)>, b: Vec<(u32, u32)>| { a.extend(b); a };
    let fo = |a: Vec<(u32, u32)>| a;
    let x = if nt == 0 { run(|| ni::reduce_all_binary_cpu_serial(&ia, &l1, &ib, &l2, init, f, fs, fo)) } else {
        let p = rayon::ThreadPoolBuilder::new().num_threads(nt).build().unwrap();
        run(|| ni::reduce_all_binary_cpu_rayon(&ia, &l1, &ib, &l2, init, f, fs, fo, Some(&p)))
    };
    let x = x.map(|mut v| {
        v.sort();
        let mut o: Vec<(u32, u32, i64)> = vec![];
        for (x, y) in v { match o.last_mut() { Some(p) if p.0 == x && p.1 == y => p.2 += 1, _ => o.push((x, y, 1)) } }
        jo! { k: "ok", v: J::A(o.into_iter().map(|(x, y, c)| J::A(vec![J::I(x as i64), J::I(y as i64), J::I(c)])).collect()) }
    });
    jo! { e: "pair", sh: &la.sh, sta: &la.st, ofa: la.of, stb: &lb.st, ofb: lb.of, nt: nt, r: enc_res(x) }
}
fn close(r: &mut Rng, big: bool) -> J {
    let o = *r.pick(&ORD);
    let sh = if big { big_shape(r, 1500) } else { rand_shape(r, 3, 5, 60, 4) };
    let mut sa = sh.clone();
    let mut sb = sh.clone();
    for k in 0..sh.len() { match r.int(0, 5) { 0 => sa[k] = 1, 1 => sb[k] = 1, _ => {} } }
    if r.chance(20) && !sb.is_empty() { if o == FlagOrder::C { sb.remove(0); } else { sb.pop(); } }
    if r.chance(5) && !sb.is_empty() { sb[0] += 1; }
    let (rtol2, atol) = (r.int(0, 2), r.int(0, 2));
    let base = r.int(-20, 20);
    // mostly equal, sometimes exactly at the tolerance, rarely just beyond it
    let fl = r.us(0, prod(&sa).max(1) * 2);
    let delta = if rtol2 == 1 { atol + (base.abs()) / 2 } else if rtol2 == 2 { atol + base.abs() } else { atol };
    let s = if r.chance(50) { 1 } else { -1 };
    let d = if r.chance(50) { delta } else { delta + 1 };
    let a = Ti::<f64>::new(Lay::random(r, &sa, true), |p| if p == fl { base + s * d } else { base });
    let b = Ti::<f64>::new(Lay::random(r, &sb, true), |_| base);
    let args = (rtol2 as f64 / 2.0, atol as f64);
    let nt = r.us(0, 8);
    let how = r.us(0, 2);
    macro_rules! go { ($d:expr) => {{ let d = $d;
        let x = match how { 0 => run(|| rt::allclose_f(a.view(&d), b.view(&d), args)), 1 => run_p(|| rt::allclose(&a.owned(&d), &b.view(&d), args)), _ => run(|| rstsr_core::tensor::reduction::allclose_all_f(a.owned(&d), b.view(&d), args)) };
        res_scalar(&x) }} }
    let res = if nt == 0 { go!(ser(o)) } else { go!(fae(nt, o)) };
    jo! { e: "close", a: a.j(), b: b.j(), order: oname(o), rtol2: rtol2, atol: atol, nt: nt, inf: how == 1, r: res }
}

fn one(r: &mut Rng, op: &str, ty: &str, lay: Lay, ax: Option<Vec<isize>>, nt: usize, o: FlagOrder) -> J {
    let how = r.us(0, 11);
    let n = prod(&lay.sh);
    let (lo, hi) = match op { "prod" => (-1, 1), x if x.contains("arg") => *r.pick(&[(0, 1), (-1, 1), (0, 5), (-40, 40)]), _ => (-6, 6) };
    let twos = r.us(1, 7);
    let skew = r.us(0, 40);
    let mut rr = r.clone();
    let mut val = |p: usize| -> i64 {
        if op == "prod" { return if p % (n / twos + 1) == 0 { 2 } else if n < 40 && rr.chance(5) { 0 } else if rr.chance(50) { -1 } else { 1 }; }
        if ty == "bool" { return (rr.us(0, 40) > skew) as i64; }
        if op == "count_nonzero" { return if rr.chance(50) { 0 } else { rr.int(-3, 3) }; }
        rr.int(lo, hi)
    };
    macro_rules! go { ($m:ident, $f:ident, $T:ty, $d:expr) => {{ let a = Ti::<$T>::new(lay, &mut val); let x = $m::$f(op, how, &a, &ax, &$d); (a.j(), x) }} }
    let ops = NUM.contains(&op) || ARG.contains(&op);
    let (aj, res) = match (ty, nt) {
        ("i32", 0) => go!(is, num, i32, ser(o)),
        ("i32", _) => go!(ip, num, i32, fae(nt, o)),
        ("bool", 0) => go!(bs, bol, bool, ser(o)),
        ("bool", _) => go!(bp, bol, bool, fae(nt, o)),
        (_, 0) if ops => go!(fs, num, f64, ser(o)),
        (_, _) if ops => go!(fp, num, f64, fae(nt, o)),
        (_, 0) => go!(fs, flt, f64, ser(o)),
        _ => go!(fp, flt, f64, fae(nt, o)),
    };
    r.next();
    jo! { e: "red", op: op, ty: ty, nt: nt, order: oname(o), how: how, axes: pick_axes(&ax), a: aj, inf: is::infall(how, &ax), r: res }
}

fn main() {
    let av: Vec<String> = std::env::args().collect();
    let a = args();
    let p10 = av.get(4).map(|s| s == "P10").unwrap_or(false);
    let mut out = Out::create(&a.out);
    let mut r = Rng::new(a.seed.wrapping_mul(907) + p10 as u64);
    let p14 = a.input.as_deref() == Some("P14");
    let n = if p14 { 200 } else if a.thorough { 25000 } else { 6000 };
    let nbig = if a.thorough { 1500 } else { 260 };
    let mut ev = vec![];
    for i in 0..n + nbig {
        let big = i >= n;
        let lay = shape_lay(&mut r, big);
        let ax = axes_of(&mut r, lay.sh.len(), 4);
        let nt = if !p14 && r.chance(if big { 10 } else { 40 }) { 0 } else { r.us(1, 8) };
        let o = *r.pick(&ORD);
        if p14 { set_ctx(r.us(0, 24)); }
        if p10 || (p14 && r.chance(30)) {
            let op = *r.pick(&ARG);
            let ty = *r.pick(&["i32", "f64"]);
            ev.push(one(&mut r, op, ty, lay, ax, nt, o));
        } else {
            match r.int(0, 11) {
                0 | 1 => {
                    let ax = axes_of(&mut r, lay.sh.len(), 0);
                    ev.push(bag(&mut r, &lay, &ax, nt));
                },
                2 => {
                    let lb = Lay::random(&mut r, &lay.sh, true);
                    ev.push(pair(&mut r, &lay, &lb, nt));
                },
                3 => ev.push(close(&mut r, big)),
                4 | 5 => { let op = *r.pick(&BOL); ev.push(one(&mut r, op, "bool", lay, ax, nt, o)) },
                6 | 7 | 8 => { let op = *r.pick(&FLT); ev.push(one(&mut r, op, "f64", lay, ax, nt, o)) },
                _ => { let op = *r.pick(&NUM); let ty = *r.pick(&["i32", "f64"]); ev.push(one(&mut r, op, ty, lay, ax, nt, o)) },
            }
        }
        if ev.len() >= if big { 4 } else { 40 } {
            out.session(std::mem::take(&mut ev));
        }
    }
    if !ev.is_empty() { out.session(ev); }
    out.finish();
}
