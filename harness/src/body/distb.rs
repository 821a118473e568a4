// metrics of rows of truth values, and Hamming on whole numbers
include!("dist.rs");
pub fn metric(met: &str, a: &Ti<T>, b: &Ti<T>, w: Option<&Ti<f64>>, fixed: bool, inf: bool, da: &B, db: &B, s: f64) -> J {
    macro_rules! c { ($k:expr) => { call!($k, f64, a, b, w, fixed, inf, da, db, |x: f64| x, s) } }
    sel!(met, c)
}
