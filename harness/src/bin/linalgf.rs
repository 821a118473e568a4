//! Driver for linear algebra on the faer device.  `linalgf OUT SEED TIER`
macro_rules! dispatch { ($go:ident, $single:expr, $cplx:expr, $nt:expr, $o:expr, $o2:expr) => { match ($single, $cplx) {
    (true, false) => $go!(f32, self::faer::s, fae($nt, $o), fae($nt, $o2)),
    (true, true) => $go!(C32, self::faer::c, fae($nt, $o), fae($nt, $o2)),
    (false, false) => $go!(f64, self::faer::d, fae($nt, $o), fae($nt, $o2)),
    (false, true) => $go!(C64, self::faer::z, fae($nt, $o), fae($nt, $o2)),
} } }
include!("../body/la.rs");
const BLAS: bool = false;
const SINGLE: Option<bool> = None;
macro_rules! mutarm { ($e:expr) => { unreachable!() } }
macro_rules! noblas { () => { fn blas_call(_: &Call, _: &mut Ti<T>, _: &mut Ti<T>, _: &B, _: &B, _: Option<FlagUpLo>, _: FlagUpLo, _: f64, _: bool, _: usize) -> J { unreachable!() } } }
pub mod faer {
    use super::*;
    pub mod d { use super::*; type T = f64; type R = f64; type B = Fae; noblas!(); include!("../body/linalg.rs"); }
    pub mod s { use super::*; type T = f32; type R = f32; type B = Fae; noblas!(); include!("../body/linalg.rs"); }
    pub mod c { use super::*; type T = C32; type R = f32; type B = Fae; noblas!(); include!("../body/linalg.rs"); }
    pub mod z { use super::*; type T = C64; type R = f64; type B = Fae; noblas!(); include!("../body/linalg.rs"); }
}

fn main() {
    let a = args();
    let mut out = Out::create(&a.out);
    let mut r = Rng::new(a.seed.wrapping_mul(913) + 7);
    let n = if a.thorough { 20000 } else { 3000 };
    let mut evs = vec![];
    for _ in 0..n {
        evs.push(ev(&mut r));
        if evs.len() >= 40 { out.session(std::mem::take(&mut evs)); }
    }
    if !evs.is_empty() { out.session(evs); }
    out.finish();
}
