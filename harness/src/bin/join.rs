//! Driver for joins, splits, grids, diagonals, minimum rank (P12) and selections (P13).
//! `join OUT SEED TIER PROFILE`
use vh::*;
#[allow(unused)]
use vh::dev::{Ix0, Ix1, Ix2, Ix3};

macro_rules! inst { ($m:ident, $T:ty, $B:ty) => { pub mod $m {
    use super::*;
    type T = $T; type B = $B;
    include!("../body/join.rs");
} } }
inst!(is, i32, Ser);
inst!(ip, i32, Fae);
inst!(fs, f64, Ser);
inst!(fp, f64, Fae);
inst!(us, u8, Ser);
inst!(up, u8, Fae);

mod hs { use super::*; type B = Ser; include!("../body/join_h.rs"); }
mod hp { use super::*; type B = Fae; include!("../body/join_h.rs"); }

macro_rules! heap { ($m:ident, $prof:expr, $g:expr, $r:expr) => {{
    let (g, r): (&G, &mut Rng) = ($g, $r);
    let mut from = 0;
    let d = devs::$m(g.nt, g.o);
    let op = if $prof == "P13" { "sel" } else { *r.pick(&["concat", "stack", "diag"]) };
    let sh = if op == "diag" { let k = r.us(1, 2); (0..k).map(|_| r.us(1, 4)).collect() } else { rand_shape(r, 3, 4, 30, 3) };
    let n = if op == "diag" || op == "sel" { 1 } else { r.us(1, 4) };
    let hs: Vec<$m::Heap> = (0..n).map(|_| $m::Heap::new(ti(r, &sh, &mut from))).collect();
    let ax = if op == "diag" { r.int(-3, 3) as isize } else { axis(r, sh.len() + (op == "stack") as usize, 4) };
    let len = { let k = if ax < 0 { ax + sh.len() as isize } else { ax }; if k >= 0 && (k as usize) < sh.len() { sh[k as usize] as i64 } else { 1 } };
    let idx: Vec<isize> = (0..r.us(0, 4)).map(|_| if len == 0 { 0 } else { r.int(-len, len - 1) as isize }).collect();
    let res = $m::heap(op, &hs, ax, &idx, &d);
    let leak = hs.iter().map(|h| h.leak()).max().unwrap();
    let a = hs[0].ti.j();
    match op {
        "sel" => jo! { e: "sel", a: a, axis: ax as i64, idx: idx.iter().map(|&x| x as i64).collect::<Vec<_>>(), order: oname(g.o), nt: g.nt, same: true, inf: false, leak: leak, r: res },
        "diag" => jo! { e: "diag", a: a, off: ax as i64, order: oname(g.o), same: true, inf: false, leak: leak, r: res },
        _ => jo! { e: "join", op: op, parts: J::A(hs.iter().map(|h| h.ti.j()).collect()), axis: vec![ax as i64], order: oname(g.o), nt: g.nt, mix: false, same: true, inf: false, leak: leak, r: res },
    }
}} }

struct G { o: FlagOrder, nt: usize, big: bool }
fn axis(r: &mut Rng, nd: usize, bad: u64) -> isize {
    let nd = nd as i64;
    if r.chance(bad) { return (if r.chance(50) { nd + r.int(0, 1) } else { -nd - 1 - r.int(0, 1) }) as isize }
    if nd == 0 { 0 } else { r.int(-nd, nd - 1) as isize }
}
fn ti<T: El>(r: &mut Rng, sh: &[usize], from: &mut i64) -> Ti<T> {
    let lay = Lay::random(r, sh, true);
    let f0 = *from;
    *from += prod(sh) as i64;
    // values of small types repeat
    let m = if T::NAME == "u8" { 67 } else { 1 << 20 };
    // elements of a broadcast axis are one cell: the last value written counts
    Ti::new(lay, |p| 1 + (f0 + p as i64) % m)
}
fn big_shape(r: &mut Rng) -> Vec<usize> {
    loop {
        let nd = r.us(1, 3);
        let sh: Vec<usize> = (0..nd).map(|_| *r.pick(&[1, 3, 16, 40, 64, 130, 300, 4100, 9000, 17000])).collect();
        if prod(&sh) <= 24000 && prod(&sh) > 3000 { return sh }
    }
}
fn same<T: El>(before: &[Ti<T>], after: &[Ti<T>]) -> bool { before.iter().zip(after).all(|(a, b)| a.buf == b.buf) }

macro_rules! p12 { ($m:ident, $T:ty, $g:expr, $r:expr) => {{
    let (g, r): (&G, &mut Rng) = ($g, $r);
    let mut from = 0;
    let dev = |nt: usize, o| devs::$m(nt, o);
    let d = dev(g.nt, g.o);
    let ts_j = |ts: &[Ti<$T>]| J::A(ts.iter().map(|t| t.j()).collect());
    let kind = if g.big { 0 } else { r.int(0, 9) };
    match kind {
        0..=4 => {
            let op = *r.pick(&["concat", "concat", "stack", "hstack", "vstack"]);
            let n = match r.int(0, 19) { 0 => 0, 1 | 2 => 1, 3..=9 => 2, 10..=15 => 3, _ => r.us(4, 6) };
            let mut sh = if g.big { big_shape(r) } else { rand_shape(r, 4, 4, 40, 5) };
            if sh.is_empty() && op == "concat" && r.chance(80) { sh = vec![r.us(1, 4)]; }
            let nd = sh.len() + (op == "stack") as usize;
            let bad = if g.big { 0 } else { 5 };
            let ax = if (op == "concat" || op == "stack") && r.chance(85) { Some(axis(r, nd, bad)) } else { None };
            let k = match op {
                "concat" => Some(ax.unwrap_or(0)),
                "hstack" => Some(if nd > 1 { 1 } else { 0 }),
                "vstack" => Some(if nd > 1 { 0 } else { -1000 }),
                _ => None,
            };
            let mut ts: Vec<Ti<$T>> = vec![];
            for i in 0..n {
                let mut s = sh.clone();
                if let (Some(k), false) = (k, g.big) {
                    let k = if k < 0 { k + nd as isize } else { k };
                    if k >= 0 && (k as usize) < nd && r.chance(70) { s[k as usize] = if r.chance(12) { 0 } else { r.us(1, 4) }; }
                }
                if i > 0 && !g.big && r.chance(2) { match r.int(0, 2) {
                    0 if !s.is_empty() => { let q = r.us(0, s.len() - 1); s[q] += 1; },
                    1 if !s.is_empty() => { s.pop(); },
                    _ => s.push(1),
                } }
                ts.push(ti(r, &s, &mut from));
            }
            let mix = n > 1 && r.chance(3);
            let mut ds = vec![d.clone(); n];
            if mix { ds[n - 1] = if g.nt > 0 && r.chance(50) { dev(g.nt + 1, g.o) } else { dev(g.nt, if g.o == FlagOrder::C { FlagOrder::F } else { FlagOrder::C }) }; }
            let how = r.us(0, 5);
            let old = ts.clone();
            let res = $m::join(op, how, &ts, &ds, ax);
            jo! { e: "join", op: op, parts: ts_j(&ts), axis: ax.iter().map(|&x| x as i64).collect::<Vec<_>>(), order: oname(g.o), nt: g.nt, how: how, mix: mix, same: same(&old, &ts), inf: $m::join_inf(how, n), r: res }
        },
        5 => {
            let sh = rand_shape(r, 4, 4, 40, 5);
            let a: Ti<$T> = ti(r, &sh, &mut from);
            let ax = if r.chance(80) { Some(axis(r, sh.len(), 6)) } else { None };
            let how = r.us(0, 4);
            let old = a.clone();
            let st = how == 4 && (1..=3).contains(&sh.len());
            let res = $m::unstack(how, &a, ax, &d);
            jo! { e: "unstack", a: a.j(), axis: ax.iter().map(|&x| x as i64).collect::<Vec<_>>(), order: oname(g.o), how: how, same: a.buf == old.buf, inf: how == 1 && !st, r: res }
        },
        6 | 7 => {
            let n = match r.int(0, 9) { 0 => 0, 1 => 1, 2..=5 => 2, 6..=8 => 3, _ => 4 };
            let ts: Vec<Ti<$T>> = (0..n).map(|_| { let k = if r.chance(6) { 0 } else { r.us(1, 4) }; let s = if r.chance(2) { vec![k, 1] } else { vec![k] }; ti(r, &s, &mut from) }).collect();
            let copy = if r.chance(70) { Some(r.chance(60)) } else { None };
            let ind = if copy.is_some() && r.chance(70) { Some(*r.pick(&["ij", "ij", "xy", "xy", "xy", "yx"])) } else { None };
            let mix = n > 1 && r.chance(3);
            let mut ds = vec![d.clone(); n];
            if mix { ds[n - 1] = dev(g.nt, if g.o == FlagOrder::C { FlagOrder::F } else { FlagOrder::C }); }
            let how = r.us(0, 3);
            let old = ts.clone();
            let res = $m::grid(how, &ts, &ds, ind, copy);
            jo! { e: "grid", parts: ts_j(&ts), xy: ind != Some("ij"), bad: ind == Some("yx"), copy: copy.iter().map(|&x| x as i64).collect::<Vec<_>>(), order: oname(g.o), how: how, mix: mix, same: same(&old, &ts), inf: how == 1, r: res }
        },
        8 => {
            let sh = match r.int(0, 19) { 0 => rand_shape(r, 3, 3, 20, 0), 1..=8 => vec![if r.chance(8) { 0 } else { r.us(1, 6) }], _ => vec![if r.chance(5) { 0 } else { r.us(1, 6) }, if r.chance(5) { 0 } else { r.us(1, 6) }] };
            let a: Ti<$T> = ti(r, &sh, &mut from);
            let off = if r.chance(25) { 0 } else { r.int(-7, 7) as isize };
            let how = r.us(0, 4);
            let old = a.clone();
            let res = $m::diag(how, &a, off, &d);
            jo! { e: "diag", a: a.j(), off: off as i64, order: oname(g.o), how: how, same: a.buf == old.buf, inf: how == 1, r: res }
        },
        _ => {
            let sh = rand_shape(r, 4, 4, 40, 5);
            let a: Ti<$T> = ti(r, &sh, &mut from);
            let (n, how) = (r.us(1, 3), r.us(0, 2));
            let old = a.clone();
            let res = $m::atleast(how, &a, n, &d);
            jo! { e: "atleast", a: a.j(), n: n, order: oname(g.o), how: how, same: a.buf == old.buf, inf: false, r: res }
        },
    }
}} }
macro_rules! p13 { ($m:ident, $T:ty, $g:expr, $r:expr) => {{
    let (g, r): (&G, &mut Rng) = ($g, $r);
    let mut from = 0;
    let d = devs::$m(g.nt, g.o);
    let sh = if g.big { big_shape(r) } else { rand_shape(r, 4, 5, 60, 5) };
    let nd = sh.len();
    let a: Ti<$T> = ti(r, &sh, &mut from);
    let old = a.clone();
    let ax = axis(r, nd, if g.big { 0 } else { 4 });
    let k = if ax < 0 { ax + nd as isize } else { ax };
    let len = if k >= 0 && (k as usize) < nd { sh[k as usize] } else { 2 } as i64;
    if r.chance(if g.big { 85 } else { 65 }) {
        let m = if g.big { if len < 200 { len as usize + r.us(0, 3) } else { r.us(len as usize / 2, len as usize) } } else { match r.int(0, 9) { 0 => 0, 1 => 1, _ => r.us(2, 6) } };
        let bad = r.chance(7);
        let idx: Vec<isize> = (0..m).map(|_| (if bad && r.chance(30) { if r.chance(50) { len + r.int(0, 1) } else { -len - 1 } } else if len == 0 { 0 } else { r.int(-len, len - 1) }) as isize).collect();
        let how = if idx.is_empty() { r.us(0, 8) } else { r.us(0, 9) };
        let inf = $m::SEL_INF.contains(&how);
        let res = $m::sel(how, &a, ax, &idx, &d);
        jo! { e: "sel", a: a.j(), axis: ax as i64, idx: idx.iter().map(|&x| x as i64).collect::<Vec<_>>(), order: oname(g.o), nt: g.nt, how: how, same: a.buf == old.buf, inf: inf, r: res }
    } else {
        let m = if r.chance(12) { (len + r.int(-2, 2)).max(0) } else { len };
        let mask: Vec<bool> = (0..m).map(|_| r.chance(50)).collect();
        let how = r.us(0, 4);
        let inf = $m::MASK_INF.contains(&how);
        let res = $m::mask(how, &a, ax, &mask, &d);
        jo! { e: "mask", a: a.j(), axis: ax as i64, mask: mask.iter().map(|&x| x as i64).collect::<Vec<_>>(), order: oname(g.o), nt: g.nt, how: how, same: a.buf == old.buf, inf: inf, r: res }
    }
}} }
/// a request generated from the specification: "OP ARGS SHAPE.."; layouts and entry points are chosen here
macro_rules! replay { ($m:ident, $T:ty, $g:expr, $r:expr, $line:expr) => {{
    let (g, r, line): (&G, &mut Rng, &str) = ($g, $r, $line);
    let mut from = 0;
    let d = devs::$m(g.nt, g.o);
    let w: Vec<&str> = line.split_whitespace().collect();
    let list = |x: &str| -> Vec<i64> { if x == "_" { vec![] } else { x.split(',').map(|k| k.parse().unwrap()).collect() } };
    let na = if w[0] == "sel" || w[0] == "mask" { 3 } else { 2 };
    let ts: Vec<Ti<$T>> = w[na..].iter().map(|x| { let s: Vec<usize> = list(x).iter().map(|&k| k as usize).collect(); ti(r, &s, &mut from) }).collect();
    let ds = vec![d.clone(); ts.len()];
    let old = ts.clone();
    let parts = J::A(ts.iter().map(|t| t.j()).collect());
    let inf3 = ts.len();
    match w[0] {
        "concat" | "stack" | "hstack" | "vstack" => {
            let ax = list(w[1]).first().map(|&x| x as isize);
            let how = r.us(0, 5);
            let res = $m::join(w[0], how, &ts, &ds, ax);
            jo! { e: "join", op: w[0], parts: parts, axis: ax.iter().map(|&x| x as i64).collect::<Vec<_>>(), order: oname(g.o), nt: g.nt, how: how, mix: false, same: same(&old, &ts), inf: $m::join_inf(how, inf3), r: res }
        },
        "unstack" => {
            let ax = list(w[1]).first().map(|&x| x as isize);
            let how = r.us(0, 4);
            let st = how == 4 && (1..=3).contains(&ts[0].lay.sh.len());
            let res = $m::unstack(how, &ts[0], ax, &d);
            jo! { e: "unstack", a: ts[0].j(), axis: ax.iter().map(|&x| x as i64).collect::<Vec<_>>(), order: oname(g.o), how: how, same: same(&old, &ts), inf: how == 1 && !st, r: res }
        },
        "grid" => {
            let how = r.us(0, 3);
            let res = $m::grid(how, &ts, &ds, Some(w[1]), Some(true));
            jo! { e: "grid", parts: parts, xy: w[1] == "xy", bad: false, copy: vec![1i64], order: oname(g.o), how: how, mix: false, same: same(&old, &ts), inf: how == 1, r: res }
        },
        "diag" => {
            let off = list(w[1])[0];
            let how = r.us(0, 4);
            let res = $m::diag(how, &ts[0], off as isize, &d);
            jo! { e: "diag", a: ts[0].j(), off: off, order: oname(g.o), how: how, same: same(&old, &ts), inf: how == 1, r: res }
        },
        "atleast" => {
            let (n, how) = (list(w[1])[0] as usize, r.us(0, 2));
            let res = $m::atleast(how, &ts[0], n, &d);
            jo! { e: "atleast", a: ts[0].j(), n: n, order: oname(g.o), how: how, same: same(&old, &ts), inf: false, r: res }
        },
        "sel" => {
            let ax = list(w[1])[0];
            let idx: Vec<isize> = list(w[2]).iter().map(|&x| x as isize).collect();
            let how = if idx.is_empty() { r.us(0, 8) } else { r.us(0, 9) };
            let res = $m::sel(how, &ts[0], ax as isize, &idx, &d);
            jo! { e: "sel", a: ts[0].j(), axis: ax, idx: list(w[2]), order: oname(g.o), nt: g.nt, how: how, same: same(&old, &ts), inf: $m::SEL_INF.contains(&how), r: res }
        },
        _ => {
            let ax = list(w[1])[0];
            let mask: Vec<bool> = list(w[2]).iter().map(|&x| x == 1).collect();
            let how = r.us(0, 4);
            let res = $m::mask(how, &ts[0], ax as isize, &mask, &d);
            jo! { e: "mask", a: ts[0].j(), axis: ax, mask: list(w[2]), order: oname(g.o), nt: g.nt, how: how, same: same(&old, &ts), inf: $m::MASK_INF.contains(&how), r: res }
        },
    }
}} }
mod devs {
    use super::*;
    macro_rules! d { ($($s:ident)*; $($p:ident)*) => {
        $(pub fn $s(_nt: usize, o: FlagOrder) -> Ser { ser(o) })*
        $(pub fn $p(nt: usize, o: FlagOrder) -> Fae { fae(nt, o) })*
    } }
    d!(is fs us hs; ip fp up hp);
}

fn main() {
    let a = args();
    let prof = a.input.clone().unwrap();
    let mut out = Out::create(&a.out);
    let mut r = Rng::new(a.seed.wrapping_mul(1013) + if prof == "P12" { 3 } else { 4 });
    let n = if a.thorough { 40000 } else { 9000 };
    let nbig = if a.thorough { 400 } else { 48 };
    let mut ev = vec![];
    if let Some(f) = std::env::args().nth(5) {
        for line in std::fs::read_to_string(f).unwrap().lines() {
            let g = G { o: *r.pick(&ORD), nt: if r.chance(50) { 0 } else { r.us(1, 8) }, big: false };
            ev.push(match (r.int(0, 1), g.nt) {
                (0, 0) => replay!(is, i32, &g, &mut r, line),
                (0, _) => replay!(ip, i32, &g, &mut r, line),
                (_, 0) => replay!(fs, f64, &g, &mut r, line),
                _ => replay!(fp, f64, &g, &mut r, line),
            });
            if ev.len() >= 60 {
                out.session(std::mem::take(&mut ev));
            }
        }
    }
    for i in 0..n + nbig {
        let g = G { o: *r.pick(&ORD), nt: if r.chance(if i >= n { 15 } else { 50 }) { 0 } else { r.us(1, 8) }, big: i >= n };
        macro_rules! go { ($m:ident, $T:ty) => { if prof == "P12" { p12!($m, $T, &g, &mut r) } else { p13!($m, $T, &g, &mut r) } } }
        let kind = if !g.big && r.chance(8) { 3 } else { r.int(0, 2) };
        let e = match (kind, g.nt) {
            (3, 0) => heap!(hs, prof, &g, &mut r),
            (3, _) => heap!(hp, prof, &g, &mut r),
            (0, 0) => go!(is, i32),
            (0, _) => go!(ip, i32),
            (1, 0) => go!(fs, f64),
            (1, _) => go!(fp, f64),
            (_, 0) => go!(us, u8),
            _ => go!(up, u8),
        };
        ev.push(e);
        if ev.len() >= if i >= n { 2 } else { 60 } {
            out.session(std::mem::take(&mut ev));
        }
    }
    if !ev.is_empty() {
        out.session(ev);
    }
    out.finish();
}
