// metrics of floating point rows
include!("dist.rs");
pub fn metric(met: &str, p: i64, a: &Ti<T>, b: &Ti<T>, w: Option<&Ti<T>>, fixed: bool, inf: bool, da: &B, db: &B, s: f64) -> J {
    macro_rules! c { ($k:expr, $f:expr) => { call!($k, T, a, b, w, fixed, inf, da, db, $f, s) } }
    let id = |x: f64| x;
    let sg = |x: f64| (1.0 - x) * (1.0 - x).abs();
    match met {
        "euclidean" if w.is_none() && !fixed && p == 1 => {
            // the metric left out
            let (va, vb) = (a.view::<B>(da), b.view::<B>(db));
            enc::<T>(if inf { run_p(|| cdist((va, vb))) } else { run(|| cdist_f((va, vb))) }, |x| x * x, s)
        },
        "euclidean" => c!(MetricEuclidean, |x: f64| x * x),
        "sqeuclidean" => c!(MetricSqEuclidean, id),
        "cityblock" => c!(MetricCityBlock, id),
        "minkowski" if p == 2 => c!(MetricMinkowski::<T>::default(), |x: f64| x * x),
        "minkowski" => c!(MetricMinkowski::<T>::new(p as T), |x: f64| x.powi(p as i32)),
        "chebyshev" => c!(MetricChebyshev, id),
        "canberra" => c!(MetricCanberra, id),
        "braycurtis" => c!(MetricBrayCurtis, id),
        "cosine" => c!(MetricCosine::<Vec<T>>::new(), sg),
        "correlation" => c!(MetricCorrelation::<Vec<T>>::new(), sg),
        "hamming" => {
            // its distances, and so its weights, are f64
            let w64 = w.map(|w| Ti::<f64> { lay: w.lay.clone(), buf: w.buf.iter().map(|x| *x as f64).collect() });
            call!(MetricHamming, f64, a, b, w64.as_ref(), fixed, inf, da, db, id, s)
        },
        _ => { // jensenshannon has no weighted form
            let (va, vb) = (a.view::<B>(da), b.view::<B>(db));
            let k = MetricJensenShannon::<Vec<T>>::new();
            let x = match (fixed, inf) {
                (false, false) => run(|| cdist_f((va, vb, k))),
                (false, true) => run_p(|| cdist((va, vb, k))),
                (true, false) => run(|| cdist_f((va.into_dim::<Ix2>(), vb.into_dim::<Ix2>(), k)).map(|x| x.into_dim::<IxD>())),
                (true, true) => run_p(|| cdist((va.into_dim::<Ix2>(), vb.into_dim::<Ix2>(), k)).into_dim::<IxD>()),
            };
            enc::<T>(x, |x| x * x, s)
        },
    }
}
