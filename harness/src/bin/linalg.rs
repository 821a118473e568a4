//! Driver for linear algebra on the BLAS devices, double precision.  `linalg OUT SEED TIER`
type FR = f64;
type FC = num::Complex<f64>;
const SINGLE: Option<bool> = Some(false);
const N: usize = 4800;
include!("../body/la_blas.rs");
