//! Driver for the parallel loops: elements that know which cell they come from, and outputs that count how often
//! they are written.  `par OUT SEED TIER`
use std::ops::{Add, AddAssign};
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use vh::*;
#[allow(unused)]
use vh::dev::{Ix0, Ix1, Ix2, Ix3};

const CAP: usize = 1 << 18;
static READS: [AtomicU32; CAP] = [const { AtomicU32::new(0) }; CAP];
static CALLS: AtomicU32 = AtomicU32::new(0);
fn jig(x: u32) { if x % 61 == 7 { std::thread::yield_now(); } }

/// a source element: the number of its cell; cloning it is counted as reading
#[derive(Debug, PartialEq)]
pub struct Q(u32);
impl Clone for Q {
    fn clone(&self) -> Q { if (self.0 as usize) < CAP { READS[self.0 as usize].fetch_add(1, Relaxed); } jig(self.0); Q(self.0) }
}
/// a destination element: how often it was written, and from which source cells
#[derive(Debug, Clone, PartialEq)]
pub struct W { n: u32, a: u32, b: u32 }
fn comb(a: u32, b: u32) -> W { CALLS.fetch_add(1, Relaxed); jig(a + b); W { n: 1, a: a + 1, b: b + 1 } }
impl Add<Q> for Q { type Output = W; fn add(self, o: Q) -> W { comb(self.0, o.0) } }
impl AddAssign<Q> for W {
    fn add_assign(&mut self, o: Q) { CALLS.fetch_add(1, Relaxed); let n = self.n; jig(o.0); self.n = n + 1; self.b = o.0 + 1; }
}
fn qs(n: usize) -> Vec<Q> { (0..n as u32).map(Q).collect() }
fn ws(n: usize) -> Vec<W> { vec![W { n: 0, a: 0, b: 0 }; n] }
fn reset(n: usize) { for i in 0..n.min(CAP) { READS[i].store(0, Relaxed); } CALLS.store(0, Relaxed); }
fn reads(n: usize) -> J { J::A((0..n).map(|i| J::I(READS[i].load(Relaxed) as i64)).collect()) }
/// another shape with as many elements
fn refold(r: &mut Rng, n: usize) -> Vec<usize> {
    if n == 0 { return if r.chance(50) { vec![0] } else { vec![2, 0] } }
    let (mut v, mut m) = (vec![], n);
    for _ in 0..r.us(0, 2) { let d: Vec<usize> = (1..=m.min(200)).filter(|k| m % k == 0).collect(); let k = *r.pick(&d); v.push(k); m /= k; }
    let at = r.us(0, v.len());
    v.insert(at, m);
    v
}
fn jl(l: &Lay) -> J { jo! { sh: &l.sh, st: &l.st, of: l.of, len: l.len } }
fn jws(v: &[&W]) -> J { jo! { k: "ok", n: J::A(v.iter().map(|w| J::I(w.n as i64)).collect()), a: J::A(v.iter().map(|w| J::I(w.a as i64)).collect()), b: J::A(v.iter().map(|w| J::I(w.b as i64)).collect()) } }
fn bad<R>(x: &Res<R>) -> J { jo! { k: x.kind(), msg: x.msg() } }

pub mod par { use super::*; type B = Fae; include!("../body/par.rs"); }
pub mod one { use super::*; type B = Ser; include!("../body/par.rs"); }

/// shapes around the sizes where the loops are switched to threads
fn shape(r: &mut Rng, big: usize) -> Vec<usize> {
    if big == 0 { return rand_shape(r, 4, 5, 120, 3) }
    loop {
        let nd = r.us(1, 4);
        let sh: Vec<usize> = (0..nd).map(|_| match r.int(0, 6) { 0 => 1, 1 => r.us(2, 5), 2 => r.us(14, 18), 3 => r.us(30, 34), 4 => r.us(62, 66), 5 => r.us(7, 60), _ => *r.pick(&[4095, 4096, 4097, 1025, 300]) }).collect();
        let n = prod(&sh);
        let (lo, hi) = if big == 1 { (3900, 5200) } else { (16000, 18000) };
        if n >= lo && n <= hi { return sh }
    }
}
fn bcast_to(r: &mut Rng, sh: &[usize], o: FlagOrder) -> Vec<usize> {
    let mut v = sh.to_vec();
    if r.chance(60) { return v }
    for k in 0..v.len() { if r.chance(30) { v[k] = 1; } }
    if r.chance(30) && !v.is_empty() { if o == FlagOrder::C { v.remove(0); } else { v.pop(); } }
    v
}

fn main() {
    let a = args();
    let mut out = Out::create(&a.out);
    let mut r = Rng::new(a.seed.wrapping_mul(733) + 3);
    let n = if a.thorough { 9000 } else { 1500 };
    let nbig = if a.thorough { 900 } else { 240 };
    let mut ev = vec![];
    for i in 0..n + nbig {
        let op = *r.pick(&["add", "addout", "addassign", "map", "mapi", "mapb", "assign", "fill", "copy", "select", "tr", "reshape", "scal", "scal", "numl", "scalas"]);
        let big = if i < n { 0 } else if matches!(op, "assign" | "fill" | "copy" | "select" | "reshape") { 2 } else { 1 };
        let o = *r.pick(&ORD);
        let nt = if r.chance(8) { 0 } else { r.us(1, 8) };
        let ctx = r.us(0, 24);
        set_ctx(ctx);
        let sh = if op == "tr" && big > 0 { let n = *r.pick(&[64, 65, 130, 200, 250]); let mut m = (16 * 64 * 64) / n + 3; if n < 100 { m = m.min(300); } vec![n, m] } else if op == "tr" { vec![r.us(0, 6), r.us(0, 6)] } else { shape(&mut r, big) };
        let e = if nt == 0 { let d = ser(o); one::go(&mut r, op, &sh, o, nt, &d) } else { let d = fae(nt, o); par::go(&mut r, op, &sh, o, nt, &d) };
        ev.push(e);
        if ev.len() >= if big > 0 { 3 } else { 40 } { out.session(std::mem::take(&mut ev)); }
    }
    if !ev.is_empty() { out.session(ev); }
    out.finish();
}
