//! Driver for linear algebra on the BLAS devices, single precision.  `linalgs OUT SEED TIER`
type FR = f32;
type FC = num::Complex<f32>;
const SINGLE: Option<bool> = Some(true);
const N: usize = 2000;
include!("../body/la_blas.rs");
