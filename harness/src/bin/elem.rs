//! Driver for elementwise operations and broadcasting.  `elem OUT SEED TIER PROFILE` (P04 | P05)
use vh::*;
use vh::dev::{self, TensorCow};
#[allow(unused)] use vh::dev::{Ix0, Ix1, Ix2, Ix3};

macro_rules! inst { ($m:ident, $T:ty, $B:ty, $extra:literal) => { mod $m {
    use super::*;
    type T = $T; type B = $B;
    include!("../body/elem.rs");
    include!($extra);
} } }
inst!(si, i32, Ser, "../body/elem_i.rs");
inst!(ff, f64, Fae, "../body/elem_f.rs");

/// mostly small ranks; now and then seven or eight axes
fn any_shape(r: &mut Rng, maxn: usize) -> Vec<usize> {
    if !r.chance(4) { return rand_shape(r, 4, 4, maxn, 5) }
    loop {
        if r.chance(60) { return vec![2; 7] }
        let n = r.us(7, 8);
        let s: Vec<usize> = (0..n).map(|_| if r.chance(50) { 1 } else { r.us(2, 3) }).collect();
        if prod(&s) <= maxn.max(16) { return s }
    }
}
/// two (or more) shapes that mostly combine in the given order
pub fn shapes(r: &mut Rng, n: usize, o: FlagOrder, bad_pct: u64, maxn: usize) -> Vec<Vec<usize>> {
    loop {
        let big = any_shape(r, maxn);
        let mut out = vec![];
        for _ in 0..n {
            let mut s: Vec<usize> = big.iter().map(|&d| if r.chance(30) { 1 } else { d }).collect();
            let cut = if r.chance(40) { r.us(0, s.len()) } else { 0 };
            if o == FlagOrder::C { s.drain(..cut); } else { s.truncate(s.len() - cut); }
            if r.chance(bad_pct) && !s.is_empty() {
                let k = r.us(0, s.len() - 1);
                s[k] = r.us(0, 5);
            }
            if r.chance(bad_pct / 3) {
                s.reverse();
            }
            out.push(s);
        }
        if out.iter().all(|s| prod(s) <= maxn) {
            return out;
        }
    }
}
fn bc(a: &[usize], b: &[usize], o: FlagOrder) -> Vec<usize> {
    // only used to choose an output shape; the specification decides what is right
    let n = a.len().max(b.len());
    let get = |s: &[usize], i: usize| if o == FlagOrder::C { if i + s.len() >= n { s[i + s.len() - n] } else { 1 } } else if i < s.len() { s[i] } else { 1 };
    (0..n).map(|i| if get(a, i) == 1 { get(b, i) } else { get(a, i) }).collect()
}
fn val(r: &mut Rng, op: &str, second: bool, float: bool) -> i64 {
    if !second {
        return if op == "div" && float { 4 * r.int(-9, 9) } else if op == "shl" || op == "shr" { r.int(-20, 20) } else { r.int(-6, 6) };
    }
    match op {
        "div" if float => *r.pick(&[1, -1, 2, -2, 4]),
        "div" | "rem" | "floor_divide" => { let x = r.int(1, 5); if r.chance(50) { -x } else { x } },
        "shl" | "shr" => r.int(0, 5),
        _ => r.int(-6, 6),
    }
}
macro_rules! mkcase { ($m:ident, $T:ty, $r:expr, $op:expr, $o:expr, $bad:expr, $maxn:expr) => {{
    let r = &mut *$r;
    let float = <$T as El>::NAME == "f64";
    let s = shapes(r, 2, $o, $bad, $maxn);
    let la = Lay::random(r, &s[0], true);
    let lb = Lay::random(r, &s[1], true);
    let a = Ti::<$T>::new(la, |_| val(r, $op, false, float));
    let b = Ti::<$T>::new(lb, |_| val(r, $op, true, float));
    let mut sc = bc(&s[0], &s[1], $o);
    if r.chance(10) { if $o == FlagOrder::C { sc.insert(0, 2) } else { sc.push(2) } }
    if r.chance($bad) && !sc.is_empty() { let k = r.us(0, sc.len() - 1); sc[k] = r.us(0, 3); }
    let lc = Lay::random(r, &sc, false);
    let c = Ti::<$T>::new(lc, |p| 50 + (p % 7) as i64);
    (a, b, c)
}} }

/// unowned cells of owned operands are part of them: nothing else to check, the specification sees buffers
fn main() {
    let av: Vec<String> = std::env::args().collect();
    let a = args();
    let profile = av.get(4).cloned().unwrap_or("P05".into());
    let mut out = Out::create(&a.out);
    let mut r = Rng::new(a.seed.wrapping_mul(101) + 5);
    // the uninterpreted scalar functions
    let f1: Vec<(&str, fn(f64) -> f64)> = vec![("acos", f64::acos), ("acosh", f64::acosh), ("asin", f64::asin), ("asinh", f64::asinh), ("atan", f64::atan), ("atanh", f64::atanh),
        ("cos", f64::cos), ("cosh", f64::cosh), ("exp", f64::exp), ("expm1", f64::exp_m1), ("inv", f64::recip), ("reciprocal", f64::recip), ("log", f64::ln), ("log2", f64::log2), ("log10", f64::log10),
        ("sin", f64::sin), ("sinh", f64::sinh), ("sqrt", f64::sqrt), ("tanh", f64::tanh), ("isqrt", |x| (2.0 * x).sqrt()), ("isin", |x| (2.0 * x).sin())];
    let f2: Vec<(&str, fn(f64, f64) -> f64)> = vec![("atan2", f64::atan2), ("copysign", f64::copysign), ("hypot", f64::hypot), ("pow", f64::powf),
        ("log_add_exp", |x, y| { let m = x.max(y); let k = x.min(y); m + (k - m).exp().ln_1p() }),
        ("nextafter", |x, y| if x == y { y } else if x == 0.0 { f64::from_bits(1).copysign(y) } else { f64::from_bits(if (y > x) == (x > 0.0) { x.to_bits() + 1 } else { x.to_bits() - 1 }) })];
    let t1 = J::O(f1.iter().map(|(n, f)| (n.to_string(), J::from((-12..=12).map(|c| hashq(f(c as f64 / 2.0))).collect::<Vec<i64>>()))).collect());
    let t2 = J::O(f2.iter().map(|(n, f)| (n.to_string(), J::A((-6..=6).map(|x| J::from((-6..=6).map(|y| if *n == "nextafter" { hashf(f(x as f64, y as f64)) } else { hashq(f(x as f64, y as f64)) }).collect::<Vec<i64>>())).collect()))).collect());
    out.session(vec![jo! { e: "defs", t1: t1, t2: t2 }]);
    let n = if a.thorough { 30000 } else if profile == "P04" { 3000 } else { 4500 };
    let mut ev = vec![];
    // pairs of shapes generated by TLC
    if let Some(p) = av.get(5) {
        for (i, line) in std::fs::read_to_string(p).unwrap().lines().enumerate() {
            let sh: Vec<Vec<usize>> = line.split(',').map(|x| x.split_whitespace().map(|y| y.parse().unwrap()).collect()).collect();
            for o in ORD {
                let ds = ser(o);
                let df = fae(1 + i % 3, o);
                if i % 2 == 0 {
                    let a = Ti::<i32>::new(Lay::random(&mut r, &sh[0], true), |p| 1 + p as i64);
                    let b = Ti::<i32>::new(Lay::random(&mut r, &sh[1], true), |p| 100 + 10 * p as i64);
                    let c = Ti::<i32>::new(Lay::random(&mut r, &bc(&sh[0], &sh[1], o), false), |p| p as i64);
                    let how = *r.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 50]);
                    ev.push(si::binary("sub", how, si::Case { a, b, c, s: 0 }, &ds, &ds));
                } else {
                    let a = Ti::<f64>::new(Lay::random(&mut r, &sh[0], true), |p| 1 + p as i64);
                    let b = Ti::<f64>::new(Lay::random(&mut r, &sh[1], true), |p| 100 + 10 * p as i64);
                    let c = Ti::<f64>::new(Lay::random(&mut r, &bc(&sh[0], &sh[1], o), false), |p| p as i64);
                    let how = *r.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 50]);
                    ev.push(ff::binary("sub", how, ff::Case { a, b, c, s: 0.0 }, &df, &df));
                }
                ev.push(bcsh(&sh, o, i % 3 == 0));
                let target = if i % 4 == 0 { bc(&sh[0], &sh[1], o) } else { sh[1].clone() };
                ev.push(bcto(&mut r, &sh[0], target, o, &ds));
            }
            if ev.len() >= 50 {
                out.session(std::mem::take(&mut ev));
            }
        }
    }
    for i in 0..n {
        let o = if r.chance(50) { FlagOrder::C } else { FlagOrder::F };
        let threads = r.us(1, 3);
        let (ds, df) = (ser(o), fae(threads, o));
        let j = if profile == "P04" { p04(&mut r, o, &ds, &df) } else { p05(&mut r, i, o, &ds, &df) };
        ev.push(j);
        if ev.len() == 50 {
            out.session(std::mem::take(&mut ev));
        }
    }
    if !ev.is_empty() {
        out.session(ev);
    }
    out.finish();
}
fn p05(r: &mut Rng, i: usize, o: FlagOrder, ds: &Ser, df: &Fae) -> J {
    let maxn = if i % 40 == 0 { 300 } else { 60 };
    match i % 10 {
        0 | 1 | 2 => {
            let op = *r.pick(&si::OPS);
            let mut how = *r.pick(&si::FORMS);
            if op == "rem" {
                // the operator between tensors is the matrix product
                how = match how { 0 => 12, 1 | 5 => 7, 2 => 3, 4 => 6, 9 => 8, 10 => 11, h => h };
            }
            let (a, b, c) = mkcase!(si, i32, r, op, o, 4, maxn);
            let s = val(r, op, how < 30, false) as i32;
            si::binary(op, if r.chance(8) && matches!(op, "add" | "sub" | "mul" | "div") { 50 } else { how }, si::Case { a, b, c, s }, ds, ds)
        },
        3 | 4 => {
            let op = *r.pick(&ff::OPS);
            let how = *r.pick(&ff::FORMS);
            let (a, b, c) = mkcase!(ff, f64, r, op, o, 4, maxn);
            let s = val(r, op, how < 30, true) as f64;
            ff::binary(op, if r.chance(8) && matches!(op, "add" | "sub" | "mul" | "div") { 50 } else { how }, ff::Case { a, b, c, s }, df, df)
        },
        5 => {
            let op = *r.pick(&si::FUNS);
            let how = *r.pick(&si::FUN_FORMS);
            let (a, b, c) = mkcase!(si, i32, r, op, o, 4, maxn);
            let s = val(r, op, how < 30, false) as i32;
            si::function(op, how, si::Case { a, b, c, s }, ds, ds)
        },
        6 => {
            let op = *r.pick(&ff::FUNS);
            let how = *r.pick(&ff::FUN_FORMS);
            let (a, b, c) = mkcase!(ff, f64, r, op, o, 4, maxn);
            let s = val(r, op, how < 30, true) as f64;
            ff::function(op, how, ff::Case { a, b, c, s }, df, df)
        },
        7 => {
            let (op, own) = *r.pick(&si::UNS);
            let sh = any_shape(r, maxn);
            let l = Lay::random(r, &sh, true);
            let lo = if op == "isqrt" { 0 } else { -6 };
            let a = Ti::<i32>::new(l, |_| r.int(lo, 6));
            let how = r.us(0, if own { 3 } else { 2 });
            si::unary(op, how, a, ds)
        },
        8 => {
            let (op, own) = *r.pick(&ff::UNS);
            let sh = any_shape(r, maxn);
            let l = Lay::random(r, &sh, true);
            let mut a = Ti::<f64>::new(l, |_| r.int(-12, 12));
            a.buf.iter_mut().for_each(|x| *x /= 2.0);
            let how = r.us(0, if own { 3 } else { 2 });
            let mut j = ff::unary(op, how, a.clone(), df);
            // operands in half units
            if let J::O(m) = &mut j {
                for (k, v) in m.iter_mut() {
                    if k == "a" { *v = jo! { sh: &a.lay.sh, v: a.vals().iter().map(|x| (x * 2.0) as i64).collect::<Vec<i64>>(), st: &a.lay.st, of: a.lay.of } }
                }
            }
            j
        },
        _ => {
            let how = r.us(0, 11);
            if r.chance(60) {
                let sh = any_shape(r, maxn);
                let l = Lay::random(r, &sh, how < 4 || how == 8 || how == 9);
                if r.chance(60) {
                    let a = Ti::<i32>::new(l, |_| r.int(-6, 6));
                    si::map1(how, a, ds)
                } else {
                    let mut l2 = l; if l2.is_bcast() { l2 = Lay::random(r, &sh, false); }
                    let a = Ti::<f64>::new(l2, |_| r.int(-6, 6));
                    ff::map1(how, a, df)
                }
            } else if r.chance(50) {
                let (a, b, c) = mkcase!(si, i32, r, "add", o, 4, maxn);
                si::map2(how % 4, si::Case { a, b, c, s: 0 }, ds, ds)
            } else {
                let (a, b, c) = mkcase!(ff, f64, r, "add", o, 4, maxn);
                ff::map2(how % 4, ff::Case { a, b, c, s: 0.0 }, df, df)
            }
        },
    }
}
fn p04(r: &mut Rng, o: FlagOrder, ds: &Ser, df: &Fae) -> J {
    match r.us(0, 6) {
        0 | 1 => {
            let how = *r.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 50]);
            if r.chance(50) {
                let op = *r.pick(&["add", "sub", "mul"]);
                let (a, b, c) = mkcase!(si, i32, r, op, o, 25, 60);
                si::binary(op, how, si::Case { a, b, c, s: 0 }, ds, ds)
            } else {
                let op = *r.pick(&["add", "sub", "mul"]);
                let (a, b, c) = mkcase!(ff, f64, r, op, o, 25, 60);
                ff::binary(op, how, ff::Case { a, b, c, s: 0.0 }, df, df)
            }
        },
        2 => {
            let (a, b, c) = mkcase!(si, i32, r, "add", o, 25, 60);
            if r.chance(50) { si::function("maximum", *r.pick(&[0usize, 1, 2, 3, 4]), si::Case { a, b, c, s: 0 }, ds, ds) }
            else { si::map2(r.us(0, 3), si::Case { a, b, c, s: 0 }, ds, ds) }
        },
        3 => {
            // explicit broadcasting
            let s = shapes(r, 2, o, 20, 60);
            let mut target = if r.chance(80) { bc(&s[0], &s[1], o) } else { s[1].clone() };
            if r.chance(10) { if o == FlagOrder::C { target.insert(0, r.us(0, 3)) } else { target.push(r.us(0, 3)) } }
            bcto(r, &s[0], target, o, ds)
        },
        4 | 5 => {
            let n = r.us(0, 4);
            let s = shapes(r, n, o, 15, 40);
            let ts: Vec<Ti<i32>> = s.iter().enumerate().map(|(i, s)| { let l = Lay::random(r, s, true); Ti::<i32>::new(l, |p| (p + 100 * i) as i64) }).collect();
            let how = r.us(0, 2);
            let res = match how {
                0 => run(|| rt::broadcast_arrays_f(ts.iter().map(|t| t.view::<Ser>(ds)).collect()).map(|x| x.iter().map(obs).collect::<Vec<_>>())),
                1 => run_p(|| rt::broadcast_arrays(ts.iter().map(|t| t.view::<Ser>(ds)).collect()).iter().map(obs).collect::<Vec<_>>()),
                _ => run(|| rt::broadcast_arrays_f(ts.iter().map(|t| t.owned::<Ser>(ds)).collect()).map(|x| x.iter().map(obs).collect::<Vec<_>>())),
            };
            let rj = match &res { Res::Ok(v) => jo! { k: "ok", ts: J::A(v.iter().map(|o| o.ok_j()).collect()) }, _ => jo! { k: res.kind(), msg: res.msg() } };
            jo! { e: "bcarr", how: how, inf: how == 1, order: oname(o), ts: J::A(ts.iter().map(|t| t.j()).collect()), r: rj }
        },
        _ => {
            let n = r.us(0, 4);
            let s = shapes(r, n, o, 15, 1000);
            bcsh(&s, o, r.chance(30))
        },
    }
}

fn bcto(r: &mut Rng, sh: &[usize], target: Vec<usize>, o: FlagOrder, ds: &Ser) -> J {
    let l = Lay::random(r, sh, true);
    let t = Ti::<i32>::new(l, |p| p as i64);
    let how = r.us(0, 7);
    let res = match how {
        0 => run(|| t.view::<Ser>(ds).to_broadcast_f(target.clone()).map(|x| obs(&x))),
        1 => run_p(|| obs(&rt::to_broadcast(&t.view::<Ser>(ds), target.clone()))),
        2 => run(|| t.view::<Ser>(ds).into_broadcast_f(target.clone()).map(|x| obs(&x))),
        3 => run(|| rt::into_broadcast_f(t.owned::<Ser>(ds), target.clone()).map(|x| obs(&x))),
        4 => run_p(|| obs(&t.owned::<Ser>(ds).into_broadcast(target.clone()))),
        5 => run_p(|| obs(&t.view::<Ser>(ds).broadcast_to(target.clone()))),
        6 => run(|| rt::to_broadcast_f(&t.view::<Ser>(ds), target.clone()).map(|x| obs(&x))),
        _ => run(|| {
            // static rank of the target
            let l = t.lay.layout();
            match (t.lay.sh.len(), target.len()) {
                (1, 2) => view_of::<i32, Ser, Ix1>(&t.buf, l.into_dim().unwrap(), ds).to_broadcast_f([target[0], target[1]]).map(|x| obs(&x)),
                (2, 2) => view_of::<i32, Ser, Ix2>(&t.buf, l.into_dim().unwrap(), ds).to_broadcast_f([target[0], target[1]]).map(|x| obs(&x)),
                (2, 3) => view_of::<i32, Ser, Ix2>(&t.buf, l.into_dim().unwrap(), ds).to_broadcast_f([target[0], target[1], target[2]]).map(|x| obs(&x)),
                (0, 3) => view_of::<i32, Ser, Ix0>(&t.buf, l.into_dim().unwrap(), ds).to_broadcast_f([target[0], target[1], target[2]]).map(|x| obs(&x)),
                _ => t.view::<Ser>(ds).to_broadcast_f(target.clone()).map(|x| obs(&x)),
            }
        }),
    };
    jo! { e: "bcto", how: how, inf: matches!(how, 1 | 4 | 5), order: oname(o), a: t.j(), sh: target, r: res_j(&res) }
}

fn bcsh(s: &[Vec<usize>], o: FlagOrder, inf: bool) -> J {
    let res = if inf { run_p(|| rt::broadcast_shapes(&s.to_vec(), o)) } else { run(|| rt::broadcast_shapes_f(&s.to_vec(), o)) };
    let rj = match &res { Res::Ok(v) => jo! { k: "ok", sh: v }, _ => jo! { k: res.kind(), msg: res.msg() } };
    jo! { e: "bcsh", inf: inf, order: oname(o), shs: J::A(s.iter().map(|x| J::from(x)).collect()), r: rj }
}
