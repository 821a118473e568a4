pub fn unpack(how: usize, a: &Ti<T>, u: FlagUpLo, y: dev::FlagSymm, d: &B) -> J {
    for k in [1, 4, 9, 16, 25, 12, 18, 27] { poison::<T>(k); }
    macro_rules! st { ($D:ty) => { run(|| a.view::<B>(d).into_dim::<$D>().unpack_tri_f(u, y)).map(|t| obs(&t)) } }
    res_jc(&match (how, u) {
        (0, _) => run(|| a.view::<B>(d).unpack_tri_f(u, y)).map(|t| obs(&t)),
        (1, _) => run_p(|| a.owned::<B>(d).unpack_tri(u, y)).map(|t| obs(&t)),
        (2, FlagUpLo::L) => run(|| a.view::<B>(d).unpack_tril_f(y)).map(|t| obs(&t)),
        (2, FlagUpLo::U) => run(|| a.view::<B>(d).unpack_triu_f(y)).map(|t| obs(&t)),
        (3, FlagUpLo::L) => run_p(|| a.owned::<B>(d).unpack_tril(y)).map(|t| obs(&t)),
        (3, FlagUpLo::U) => run_p(|| a.owned::<B>(d).unpack_triu(y)).map(|t| obs(&t)),
        (_, _) if a.lay.sh.len() == 1 => st!(Ix1),
        (_, _) if a.lay.sh.len() == 2 => st!(Ix2),
        _ => run(|| a.owned::<B>(d).unpack_tri_f(u, y)).map(|t| obs(&t)),
    })
}
