//! Driver for mirrored programs: the same requests to a row-major device and, mirrored, to a column-major
//! one.  `mirror OUT SEED TIER`
use vh::dev::{FlagSymm, FlagUpLo, IxD, Ix2, OpAssignAPI};
use vh::viewop::{self, Item, VOp};
use vh::{addrs, args, fae, obs, obs_raw, oname, poison, prod, rand_shape, run, run_p, ser, unravel, *};
type T = f64;
#[derive(Clone, Default)]
pub struct Out { sh: Vec<usize>, v: Vec<i64>, o: &'static str, ti: Option<Ti<T>>, ix: bool, oob: bool }
/// arguments of a request; every request uses some of them
#[derive(Clone, Default)]
pub struct Q { v: Option<VOp>, none: bool, ax: Vec<i64>, a: i64, sh: Vec<i64>, idx: Vec<i64>, diag: i64, n: i64, uplo: &'static str, symm: &'static str, order: &'static str }
pub mod s { use super::*; type B = Ser; include!("../body/mirror.rs"); }
pub mod p { use super::*; type B = Fae; include!("../body/mirror.rs"); }

fn json(op: &str, q: &Q) -> J {
    if let Some(v) = &q.v { return v.args() }
    match op {
        "reshape" | "zeros" => jo! { sh: &q.sh },
        "fill" => jo! { sh: &q.sh, n: q.n },
        "eye" => jo! { sh: &q.sh, diag: q.diag },
        "contig" | "iter" => jo! { order: q.order },
        x if x.starts_with("r_") => jo! { none: q.none, ax: &q.ax },
        "argmin" | "argmax" | "vecdot" | "concat" | "stack" | "unstack" => jo! { a: q.a },
        "select" | "mask" => jo! { a: q.a, idx: &q.idx },
        "tri" => jo! { uplo: q.uplo, diag: q.diag },
        "diag" => jo! { diag: q.diag },
        "pack" => jo! { uplo: q.uplo },
        "unpack" => jo! { uplo: q.uplo, symm: q.symm },
        "axes_iter" => jo! { none: q.none, ax: &q.ax, order: q.order },
        _ => jo! { n: 0 },
    }
}
fn m(a: i64) -> i64 { -a - 1 }
fn ml(a: &[i64]) -> Vec<i64> { a.iter().map(|&x| m(x)).collect() }
fn rev<X: Clone>(a: &[X]) -> Vec<X> { a.iter().rev().cloned().collect() }
/// the mirrored request; the specification derives it independently and compares
fn mirror(op: &str, q: &Q) -> Q {
    let mut z = q.clone();
    z.v = q.v.clone().map(|v| match v {
        VOp::Slice(it) => { let mut x = rev(&it); if !it.iter().any(|i| matches!(i, Item::E)) { x.insert(0, Item::E) } VOp::Slice(x) },
        VOp::Transpose(a) => VOp::Transpose(a.map(|a| ml(&rev(&a)))),
        VOp::Swap(a, b) => VOp::Swap(m(a), m(b)),
        VOp::Move(a, b) => VOp::Move(ml(&a), ml(&b)),
        VOp::Flip(a) => VOp::Flip(a.map(|a| ml(&a))),
        VOp::Expand(a) => VOp::Expand(ml(&a)),
        VOp::Squeeze(a) => VOp::Squeeze(a.map(|a| ml(&a))),
        VOp::Diag(f, None, None) => VOp::Diag(f.map(|x| -x), None, None),
        VOp::Diag(f, a, b) => VOp::Diag(f, Some(m(a.unwrap_or(0))), Some(m(b.unwrap_or(1)))),
        VOp::Broadcast(s) => VOp::Broadcast(rev(&s)),
        x => x,
    });
    z.ax = if op == "axes_iter" { ml(&rev(&q.ax)) } else { ml(&q.ax) };
    z.a = m(q.a);
    z.sh = rev(&q.sh);
    z.diag = -q.diag;
    z.uplo = if q.uplo == "L" { "U" } else { "L" };
    z.order = if q.order == "C" { "F" } else { "C" };
    z
}
fn mirror_ti(t: &Ti<T>, r: &mut Rng) -> Ti<T> {
    // the same memory with reversed axes, or the same elements in some other layout
    if r.chance(50) || t.lay.is_bcast() {
        let l = Lay { sh: rev(&t.lay.sh), st: rev(&t.lay.st), of: t.lay.of, len: t.lay.len };
        return Ti { lay: l, buf: t.buf.clone() };
    }
    let sh = rev(&t.lay.sh);
    let lay = Lay::random(r, &sh, false);
    let vals = t.vals();
    Ti::new(lay, |p| { let ix = rev(&unravel(p, &sh)); let mut k = 0; for (i, d) in ix.iter().zip(&t.lay.sh) { k = k * d + i; } vals[k] as i64 })
}
fn outs(r: &Res<Vec<Out>>) -> J {
    match r {
        Res::Ok(v) => jo! { k: if v.iter().any(|o| o.oob) { "oob" } else { "ok" }, outs: J::A(v.iter().map(|o| jo! { sh: &o.sh, v: &o.v, o: o.o, ix: o.ix }).collect()) },
        _ => jo! { k: r.kind(), outs: J::A(vec![]), msg: r.msg() },
    }
}
fn axis(r: &mut Rng, n: usize) -> i64 { let n = n as i64; if n == 0 || r.chance(3) { r.int(-n - 2, n + 1) } else { r.int(-n, n - 1) } }
fn axes(r: &mut Rng, n: usize) -> Vec<i64> {
    let k = r.us(0, n);
    let mut v: Vec<i64> = r.perm(n).iter().take(k).map(|&a| if r.chance(50) { a as i64 - n as i64 } else { a as i64 }).collect();
    if r.chance(3) { v.push(r.int(-(n as i64) - 1, n as i64)); }
    v
}
const OPS: [(&str, u64); 49] = [("view", 14), ("baxis", 6), ("reshape", 7), ("contig", 2), ("copy", 2), ("add", 3), ("sub", 3), ("mul", 3), ("addeq", 2), ("subeq", 2), ("muleq", 1), ("assign", 2), ("without", 2), ("scal", 1), ("map", 1), ("mapb", 2),
    ("max", 1), ("lt", 1), ("ge", 1), ("eq", 1), ("r_sum", 3), ("r_min", 2), ("r_max", 1), ("r_mean", 2), ("r_var", 1), ("r_std", 1), ("r_norm", 1), ("r_cnz", 1), ("argmin", 2), ("argmax", 1), ("uargmin", 1), ("uargmax", 1),
    ("matmul", 7), ("mm_from", 2), ("vecdot", 4), ("concat", 4), ("stack", 4), ("unstack", 3), ("meshgrid", 2), ("select", 3), ("mask", 2), ("diag", 2), ("tri", 3), ("pack", 3), ("unpack", 3), ("eye", 2), ("zeros", 1), ("like", 1), ("fill", 4)];
const OPS2: [(&str, u64); 5] = [("iter", 5), ("index", 2), ("axes_iter", 5), ("bcast", 3), ("allclose", 1)];
type Tw = (Ti<T>, Ti<T>);
fn val(r: &mut Rng) -> i64 { r.int(-9, 9) }
fn twin(r: &mut Rng, sh: &[usize], bc: bool) -> Tw {
    let lay = Lay::random(r, sh, bc);
    let mut c = Ti::<T>::new(lay, |_| 0);
    let l = c.lay.clone();
    for a in addrs(&l.sh, &l.st, l.of, usize::MAX) { c.buf[a as usize] = val(r) as T; }
    let f = mirror_ti(&c, r);
    (c, f)
}
/// a shape that broadcasts with sh under the row-major convention (mostly)
fn partner(r: &mut Rng, sh: &[usize]) -> Vec<usize> {
    let mut s: Vec<usize> = sh.iter().map(|&d| if r.chance(25) { 1 } else { d }).collect();
    let k = r.us(0, s.len());
    if r.chance(35) { s = s[k..].to_vec(); }
    if r.chance(15) && s.len() < 4 { s.insert(0, r.us(1, 3)); }
    if r.chance(4) && !s.is_empty() { let i = r.us(0, s.len() - 1); s[i] += 1; }
    s
}
fn session(r: &mut Rng, big: bool) -> Vec<J> {
    let par = r.chance(50);
    let nt = r.us(1, 4);
    let n0 = r.us(2, 3);
    let mut pool: Vec<Tw> = (0..n0).map(|_| { let sh = if big { vec![*r.pick(&[17, 40]), *r.pick(&[33, 60])] } else { rand_shape(r, 4, 4, 60, 4) }; twin(r, &sh, !big) }).collect();
    let mut evs = vec![];
    for _ in 0..if big { 4 } else { 12 } {
        let tot: u64 = OPS.iter().chain(&OPS2).map(|x| x.1).sum();
        let mut k = r.us(0, tot as usize - 1) as u64;
        let mut op = "view";
        for (o, w) in OPS.iter().chain(&OPS2) { if k < *w { op = o; break } k -= w; }
        let i = r.us(0, pool.len() - 1);
        let a = pool[i].clone();
        let sh = a.0.lay.sh.clone();
        let n = sh.len();
        let mut q = Q { order: "C", uplo: if r.chance(50) { "L" } else { "U" }, symm: *r.pick(&["Sy", "Ay", "N"]), diag: r.int(-3, 3), ..Q::default() };
        let mut ins: Vec<Tw> = vec![a];
        let mut swap = false;
        match op {
            "view" => {
                let v = if r.chance(40) { VOp::rand_slice(r, &sh) } else { VOp::rand_axis_op(r, &sh) };
                let v = match v { VOp::MTrans if n > 2 => VOp::Reverse, VOp::Diag(..) if n > 2 => VOp::Reverse, x => x };
                q.v = Some(v);
            },
            "baxis" => q.v = Some(VOp::rand_broadcast(r, &sh, FlagOrder::C, 300)),
            "reshape" => {
                let s = prod(&sh) as i64;
                q.sh = match r.us(0, 5) { 0 => vec![-1], 1 => vec![s], 2 => { let d = r.int(1, 4); vec![d, -1] }, 3 => { let d = r.int(1, 3); vec![-1, d] },
                    4 => { let x: Vec<i64> = sh.iter().map(|&d| d as i64).collect(); let p = r.perm(n); p.iter().map(|&i| x[i]).collect() },
                    _ => { // split and merge
                        let mut x: Vec<i64> = sh.iter().map(|&d| d as i64).collect();
                        if x.len() >= 2 && r.chance(50) { let j = r.us(0, x.len() - 2); let y = x.remove(j + 1); x[j] *= y; }
                        if let Some(j) = x.iter().position(|&d| d >= 4 && d % 2 == 0) { x[j] /= 2; x.insert(j + r.us(0, 1), 2); }
                        if r.chance(30) { let j = r.us(0, x.len()); x.insert(j, 1); }
                        x
                    } };
            },
            "add" | "sub" | "mul" | "mapb" | "max" | "lt" | "ge" | "eq" | "addeq" | "subeq" | "muleq" | "assign" | "without" | "bcast" | "allclose" => {
                let j = r.us(0, pool.len() - 1);
                let p = if r.chance(30) { pool[j].clone() } else { let s = partner(r, &sh); twin(r, &s, true) };
                ins.push(p);
                if op == "bcast" && r.chance(40) { let s = partner(r, &sh); ins.push(twin(r, &s, true)); }
                if op == "without" { let mut big = sh.clone(); let o = &ins[1].0.lay.sh; if o.len() <= n { for (x, y) in big[n - o.len()..].iter_mut().zip(o) { if *x == 1 { *x = *y } } } else { big = o.clone() } ins.push(twin(r, &big, false)); }
                // an in-place operation does not write through repeated elements
                if op.ends_with("eq") && op.len() > 2 || op == "assign" { if ins[0].0.lay.st.contains(&0) || ins[0].1.lay.st.contains(&0) { let s = ins[0].0.lay.sh.clone(); let s = s.iter().map(|&d| d.max(1)).collect::<Vec<_>>(); ins[0] = twin(r, &s, false); } }
            },
            x if x.starts_with("r_") => { q.none = r.chance(25); if !q.none { q.ax = axes(r, n); } },
            "argmin" | "argmax" => q.a = axis(r, n),
            "uargmin" | "uargmax" => { // without ties
                let l = Lay::random(r, &sh, false); let p = r.perm(prod(&sh)); let c = Ti::<T>::new(l, |x| p[x] as i64); let f = mirror_ti(&c, r); ins[0] = (c, f);
            },
            "matmul" | "mm_from" => {
                swap = true;
                let kk = if n == 0 { 1 } else { sh[n - 1] };
                let (w, h) = (r.us(0, 4), if n > 2 { n - 2 } else { 0 });
                let mut s = match r.us(0, 4) { 0 => vec![kk], 1 | 2 => vec![kk, w], 3 => [&sh[..h], &[kk, w][..]].concat(), _ => [vec![r.us(1, 2)], sh[..h].to_vec(), vec![kk, w]].concat() };
                if r.chance(4) { s[0] += 1; }
                if prod(&s) > 200 { s = vec![kk, w]; }
                ins.push(twin(r, &s, true));
                if op == "mm_from" {
                    // 2-D only
                    if n != 2 { ins[0] = twin(r, &[3, 2], true); ins[1] = twin(r, &[2, w], true); } else { ins[1] = twin(r, &[kk, w], true); }
                    let s = [ins[0].0.lay.sh[0], w];
                    ins.push(twin(r, &s, false));
                }
            },
            "vecdot" => { let s = if r.chance(70) { sh.clone() } else { let mut s = partner(r, &sh); while s.len() < n { s.insert(0, 1); } s };
                ins.push(twin(r, &s, true)); q.a = axis(r, n); if ins[1].0.lay.sh.len() != n { q.a = 0; ins[1] = twin(r, &sh, true); } },
            "concat" => { q.a = axis(r, n); for _ in 0..r.us(0, 2) { let mut s = sh.clone(); let k = if q.a < 0 { q.a + n as i64 } else { q.a }; if k >= 0 && (k as usize) < n { s[k as usize] = r.us(0, 3); } if r.chance(3) && n > 0 { s[r.us(0, n - 1)] += 1; } ins.push(twin(r, &s, true)); } },
            "stack" => { q.a = axis(r, n + 1); for _ in 0..r.us(0, 2) { let mut s = sh.clone(); if r.chance(3) && n > 0 { s[r.us(0, n - 1)] += 1; } ins.push(twin(r, &s, true)); } },
            "unstack" => q.a = axis(r, n),
            "meshgrid" => { let k = r.us(1, 3); ins = (0..k).map(|_| { let d = r.us(0, 3); twin(r, &[d], true) }).collect(); swap = true; },
            "select" | "mask" => {
                q.a = axis(r, n);
                let k = if q.a < 0 { q.a + n as i64 } else { q.a };
                let d = if k >= 0 && (k as usize) < n { sh[k as usize] } else { 2 };
                q.idx = if op == "mask" { (0..d).map(|_| r.int(0, 1)).collect() } else { let c = r.us(0, 4); (0..c).filter(|_| d > 0).map(|_| if r.chance(3) { r.int(-6, 6) } else { r.int(-(d as i64), d as i64 - 1) }).collect() };
            },
            "diag" | "tri" => if op == "diag" && n != 2 && n != 1 || op == "tri" && n != 2 { let s = if op == "diag" && r.chance(40) { vec![r.us(0, 3)] } else { vec![r.us(0, 4), r.us(1, 4)] }; ins[0] = twin(r, &s, op == "diag"); } else if op == "tri" && (ins[0].0.lay.is_bcast() || ins[0].1.lay.is_bcast()) { ins[0] = twin(r, &sh, false); },
            "pack" => { let k = r.us(0, 4); let mut s: Vec<usize> = (0..r.us(0, 2)).map(|_| r.us(1, 3)).collect(); s.push(k); s.push(if r.chance(4) { k + 1 } else { k }); ins[0] = twin(r, &s, true); },
            "unpack" => { let mut s: Vec<usize> = (0..r.us(0, 2)).map(|_| r.us(1, 3)).collect(); s.push(*r.pick(&[0, 1, 3, 6, 10, 6, 3, 2])); ins[0] = twin(r, &s, true); },
            "eye" => { q.sh = vec![r.int(0, 4), r.int(0, 4)]; },
            "zeros" => { q.sh = (0..r.us(0, 3)).map(|_| r.int(0, 3)).collect(); },
            "fill" => { let s = rand_shape(r, 4, 4, 40, 3); q.n = prod(&s).max(1) as i64; q.sh = s.iter().map(|&x| x as i64).collect(); },
            "axes_iter" => { q.ax = axes(r, n); if q.ax.is_empty() && n > 0 { q.ax = vec![axis(r, n)]; } },
            _ => (),
        }
        let name = match &q.v { Some(v) => v.name(), None => op };
        let qf = mirror(op, &q);
        let mixed = (ins.len() > 1) && r.chance(5);
        let how = r.us(0, 11);
        let mut ic: Vec<Ti<T>> = ins.iter().map(|x| x.0.clone()).collect();
        let mut jf: Vec<Ti<T>> = ins.iter().map(|x| x.1.clone()).collect();
        if swap { let k = if op == "mm_from" { 2 } else { jf.len() }; jf[..k].reverse(); }
        let (kc, kf) = (ic.clone(), jf.clone());
        macro_rules! go { ($m:ident, $c:expr, $f:expr) => {{
            if mixed {
                // one operand lives on a device of the other convention; shapes that would fit either way
                let w = 1;
                let ds: Vec<_> = (0..ic.len()).map(|i| if i == w { $f } else { $c }).collect();
                let df: Vec<_> = (0..ic.len()).map(|i| if i == w { $c } else { $f }).collect();
                ($m::exec(op, how, &q, &mut ic, &ds), $m::exec(op, how, &qf, &mut jf, &df))
            } else { ($m::exec(op, how, &q, &mut ic, &[$c]), $m::exec(op, how, &qf, &mut jf, &[$f])) }
        }} }
        let (rc, rf) = if par { go!(p, fae(nt, FlagOrder::C), fae(nt, FlagOrder::F)) } else { go!(s, ser(FlagOrder::C), ser(FlagOrder::F)) };
        let ok = rc.as_ok().is_some() && rf.as_ok().is_some();
        let same = |x: &[Ti<T>], y: &[Ti<T>]| x.iter().zip(y).all(|(a, b)| a.buf.iter().zip(&b.buf).all(|(p, q)| p.to_bits() == q.to_bits()));
        let unch = ok || (same(&ic, &kc) && same(&jf, &kf));
        evs.push(jo! { e: name, mixed: mixed, par: par, nt: nt, how: how, unch: unch, a: json(op, &q), f: json(op, &qf),
            ins: J::A(ins.iter().map(|x| J::from(&x.0.lay.sh)).collect()), insf: J::A(kf.iter().map(|x| J::from(&x.lay.sh)).collect()), rc: outs(&rc), rf: outs(&rf) });
        if let (Res::Ok(x), Res::Ok(y)) = (&rc, &rf) {
            if !mixed && x.len() == y.len() && op != "meshgrid" && !(op == "axes_iter" && matches!(how % 4, 0 | 3)) && !big {
                for (x, y) in x.iter().zip(y).take(2) {
                    if let (Some(x), Some(y)) = (&x.ti, &y.ti) {
                        if prod(&x.lay.sh) <= 120 && x.lay.sh.len() <= 5 && rev(&x.lay.sh) == y.lay.sh && x.buf.iter().chain(&y.buf).all(|v| v.abs() < 3000.0) { pool.push((x.clone(), y.clone())); }
                    }
                }
                while pool.len() > 6 { let k = r.us(0, pool.len() - 1); pool.swap_remove(k); }
            }
        }
    }
    evs
}
fn main() {
    let a = args();
    let mut out = Out_::create(&a.out);
    let mut r = Rng::new(a.seed.wrapping_mul(733) + 11);
    let n = if a.thorough { 6000 } else { 700 };
    for k in 0..n { let big = k % 40 == 7; out.session(session(&mut r, big)); }
    out.finish();
}
use vh::Out as Out_;
