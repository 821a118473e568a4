//! Driver for the ownership machine: sequences of conversions, clones, writes and drops over a set of
//! handles.  `own OUT SEED TIER PROFILE [CHAINS]`
use std::collections::HashMap;
use std::sync::Arc;
use vh::dev::{DataArc, TensorArc, TensorCow};
use vh::*;

/// element types negation and subtraction work on
macro_rules! inst { ($m:ident, $T:ty, $B:ty) => { mod $m {
    use super::*;
    type T = $T; type B = $B;
    include!("../body/own.rs");
} } }
inst!(si, i32, Ser);
inst!(ff, f64, Fae);

fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::create(&a.out);
    let mut r = Rng::new(a.seed.wrapping_mul(77) + 15);
    // behaviours generated by TLC
    if let Some(p) = &a.input {
        for (i, line) in std::fs::read_to_string(p).unwrap().lines().enumerate() {
            let steps: Vec<&str> = line.split(';').collect();
            let o = FlagOrder::C;
            let ev = if i % 2 == 0 { si::replay(ser(o), &steps, &mut r) } else { ff::replay(fae(2, o), &steps, &mut r) };
            out.session(ev);
        }
    }
    // long random histories
    let n = if a.thorough { 6000 } else { 1500 };
    for i in 0..n {
        let o = if r.chance(50) { FlagOrder::C } else { FlagOrder::F };
        let ev = if i % 2 == 0 { si::random(ser(o), &mut r) } else { ff::random(fae(2, o), &mut r) };
        out.session(ev);
    }
    out.finish();
}
