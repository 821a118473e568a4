//! Driver for quadrature rules on the sphere.  `leb OUT SEED TIER`
//! Numbers are recorded as pairs of whole numbers (units of 1e-7 and 1e-14).
use rstsr_sci_traits::integrate::lebedev::*;
use vh::*;

const ORDERS: [usize; 32] = [3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23, 25, 27, 29, 31, 35, 41, 47, 53, 59, 65, 71, 77, 83, 89, 95, 101, 107, 113, 119, 125, 131];
const DIRS: [[i64; 3]; 16] = [[0, 0, 1], [0, 3, 4], [1, 2, 2], [2, 3, 6], [1, 4, 8], [4, 4, 7], [2, 6, 9], [6, 6, 7], [3, 4, 12], [2, 5, 14], [2, 10, 11],
    [1, 12, 12], [8, 9, 12], [1, 6, 18], [6, 10, 15], [4, 5, 20]];

fn limbs(x: f64) -> [i64; 2] {
    if !x.is_finite() || x.abs() > 200. { return [2_000_000_000, 0]; }
    let a = (x * 1e7).trunc();
    [a as i64, ((x * 1e7 - a) * 1e7).round() as i64]
}
fn jl(x: f64) -> J { J::from(limbs(x).to_vec()) }
#[derive(Clone)]
struct Rule { q: Vec<f64>, w: Vec<f64>, qs: Vec<usize>, qt: Vec<isize>, ws: Vec<usize>, col: bool }
fn get<B>(how: usize, n: usize, pts: usize, d: &B) -> Res<Rule>
where
    B: DeviceAPI<f64, Raw = Vec<f64>> + LebedevRuleAPI,
{
    let f = |l: LebedevQuad<B>| {
        let (q, w): (Tensor<f64, B, IxD>, Tensor<f64, B, IxD>) = l.into();
        let (m, c) = (q.shape()[0], q.shape().get(1).copied().unwrap_or(0));
        let (ql, wl) = (q.layout().clone(), w.layout().clone());
        let at = |l: &Layout<IxD>, ix: &[isize]| l.index_f(ix).unwrap();
        let qv = (0..m).flat_map(|i| (0..c).map(move |j| (i, j))).map(|(i, j)| q.raw()[at(&ql, &[i as isize, j as isize])]).collect();
        let wv = (0..w.shape()[0]).map(|i| w.raw()[at(&wl, &[i as isize])]).collect();
        Rule { q: qv, w: wv, qs: q.shape().to_vec(), qt: q.stride().to_vec(), ws: w.shape().to_vec(), col: d.default_order() == FlagOrder::F }
    };
    match how {
        0 => run_p(|| lebedev_rule(n, d)).map(f),
        1 => run(|| lebedev_rule_f(n, d)).map(f),
        2 => run_p(|| lebedev_rule_from_degree(pts, d)).map(f),
        3 => run(|| lebedev_rule_from_degree_f(pts, d)).map(f),
        4 => run_p(|| LebedevRuleAPI::lebedev_rule(d, n)).map(f),
        _ => run(|| LebedevRuleAPI::lebedev_rule_f(d, n)).map(f),
    }
}
fn rule(how: usize, n: usize, pts: usize, dev: usize) -> Res<Rule> {
    match dev { 0 => get(how, n, pts, &ser(FlagOrder::C)), 1 => get(how, n, pts, &ser(FlagOrder::F)), 2 => get(how, n, pts, &fae(2, FlagOrder::C)), _ => get(how, n, pts, &fae(3, FlagOrder::F)) }
}
fn map_ev(n: usize, back: bool) -> J {
    let r = run(|| if back { lebedev_degree_to_order(n) } else { lebedev_order_to_degree(n) });
    jo! { e: "map", back: back, n: n, r: enc_res(r.map(|v| jo! { k: "ok", v: v })) }
}
fn main() {
    let a = args();
    let mut out = Out::create(&a.out);
    let mut r = Rng::new(a.seed ^ 0x1eb);
    let pts = |n: usize| lebedev_order_to_degree(n).unwrap_or(0);
    // every order and number of points, and what lies between them
    for c in (0..140).collect::<Vec<usize>>().chunks(20) { out.session(c.iter().map(|&n| map_ev(n, false)).collect()); }
    let mut ns: Vec<usize> = (0..100).chain(ORDERS.iter().flat_map(|&n| { let p = pts(n); [p.saturating_sub(1), p, p + 1] })).chain([5802, usize::MAX]).collect();
    for _ in 0..50 { ns.push(r.us(0, 6000)); }
    for c in ns.chunks(20) { out.session(c.iter().map(|&n| map_ev(n, true)).collect()); }
    for i in 0..40 {
        let n = if i < 20 { r.us(0, 140) } else { *r.pick(&[0, 1, 2, 4, 33, 37, 129, 130, 132, usize::MAX]) };
        if ORDERS.contains(&n) { continue }
        let (how, dev) = (*r.pick(&[0, 1, 4, 5]), r.us(0, 3));
        out.session(vec![jo! { e: "none", how: how, order: n, r: enc_res(rule(how, n, 0, dev).map(|_| jo! { k: "ok" })) }]);
        let (how, dev) = (*r.pick(&[2, 3]), r.us(0, 3));
        out.session(vec![jo! { e: "none", how: how, order: n, r: enc_res(rule(how, 0, n, dev).map(|_| jo! { k: "ok" })) }]);
    }
    for &n in &ORDERS {
        let full = if a.thorough { vec![0, 1, 2, 3] } else { vec![r.us(0, 3)] };
        for dev in full {
            let how = r.us(0, 5);
            let res = rule(how, n, pts(n), dev);
            let Res::Ok(u) = &res else {
                out.session(vec![jo! { e: "grid", order: n, how: how, dev: dev, r: enc_res(res.map(|_| jo! { k: "ok" })) }]);
                continue
            };
            let m = u.w.len();
            let p: Vec<J> = (0..m).map(|i| { let mut v: Vec<i64> = (0..3).map(|k| (u.q[3 * i + k] * 1e8).round() as i64).collect(); v.push((u.w[i] * 1e9).round() as i64); J::from(v) }).collect();
            let nn: Vec<J> = (0..m).map(|i| jl((0..3).map(|k| u.q[3 * i + k].powi(2)).sum())).collect();
            out.session(vec![jo! { e: "grid", order: n, how: how, dev: dev, r: jo! { k: "ok", qs: &u.qs, qt: &u.qt, ws: &u.ws, p: J::A(p), nn: J::A(nn) } }]);
            // moments: all of low degree, some of every degree
            let mut mo: Vec<[i32; 3]> = vec![];
            let lim = if a.thorough { 20 } else { 8 };
            for i in 0..=lim { for j in 0..=lim - i { for k in 0..=lim - i - j { mo.push([i, j, k]); } } }
            for _ in 0..60 { let t = r.us(0, n) as i32; let i = r.int(0, t as i64) as i32; let j = r.int(0, (t - i) as i64) as i32; let mut v = [i, j, t - i - j]; if r.chance(70) { for x in &mut v { *x &= !1; } } mo.push(v); }
            for l in 0..=n as i32 { let mut v = [l, 0, 0]; r.shuffle(&mut v); mo.push(v); }
            for c in mo.chunks(200) {
                let x: Vec<J> = c.iter().map(|e| {
                    let s: f64 = (0..m).map(|i| u.w[i] * (0..3).map(|k| u.q[3 * i + k].powi(e[k])).product::<f64>()).sum();
                    J::A(vec![J::from(e.to_vec()), jl(s)]) }).collect();
                out.session(vec![jo! { e: "mom", order: n, x: J::A(x) }]);
            }
            // zonal functions: Legendre polynomials of every degree along a direction
            for d in &DIRS {
                let mut d = *d;
                r.shuffle(&mut d);
                for x in &mut d { if r.chance(50) { *x = -*x; } }
                let len = ((d[0] * d[0] + d[1] * d[1] + d[2] * d[2]) as f64).sqrt();
                let mut acc = vec![0f64; n + 1];
                for i in 0..m {
                    let t = (0..3).map(|k| d[k] as f64 * u.q[3 * i + k]).sum::<f64>() / len;
                    let (mut p0, mut p1) = (1f64, t);
                    for (l, s) in acc.iter_mut().enumerate() {
                        *s += u.w[i] * p0;
                        let p2 = ((2 * l + 3) as f64 * t * p1 - (l + 1) as f64 * p0) / (l + 2) as f64;
                        p0 = p1;
                        p1 = p2;
                    }
                }
                out.session(vec![jo! { e: "zonal", order: n, dir: d.to_vec(), x: J::A(acc.iter().map(|&v| jl(v)).collect()) }]);
            }
        }
    }
    out.finish();
}
