// Triangular masks and packing for one concrete element type T and device type B.
pub fn pack(how: usize, a: &Ti<T>, u: FlagUpLo, d: &B) -> J {
    for k in [1, 3, 6, 10, 12, 20] { poison::<T>(k); }
    macro_rules! st { ($D:ty) => { run(|| a.view::<B>(d).into_dim::<$D>().pack_tri_f(u)).map(|t| obs(&t)) } }
    res_jc(&match (how, u) {
        (0, _) => run(|| a.view::<B>(d).pack_tri_f(u)).map(|t| obs(&t)),
        (1, _) => run_p(|| a.owned::<B>(d).pack_tri(u)).map(|t| obs(&t)),
        (2, FlagUpLo::L) => run(|| a.view::<B>(d).pack_tril_f()).map(|t| obs(&t)),
        (2, FlagUpLo::U) => run(|| a.view::<B>(d).pack_triu_f()).map(|t| obs(&t)),
        (3, FlagUpLo::L) => run_p(|| a.owned::<B>(d).pack_tril()).map(|t| obs(&t)),
        (3, FlagUpLo::U) => run_p(|| a.owned::<B>(d).pack_triu()).map(|t| obs(&t)),
        (_, _) if a.lay.sh.len() == 2 => st!(Ix2),
        (_, _) if a.lay.sh.len() == 3 => st!(Ix3),
        _ => run(|| a.owned::<B>(d).pack_tri_f(u)).map(|t| obs(&t)),
    })
}
/// which: tril or triu
pub fn tri(how: usize, a: &Ti<T>, u: FlagUpLo, k: isize, d: &B) -> J {
    for k in [1, 3, 6, 10, 12, 20] { poison::<T>(k); }
    macro_rules! st { ($D:ty) => { if u == FlagUpLo::L { run(|| rt::tril_f((&a.view::<B>(d).into_dim::<$D>(), k))).map(|t| obs(&t)) } else { run(|| rt::triu_f((&a.view::<B>(d).into_dim::<$D>(), k))).map(|t| obs(&t)) } } }
    res_jc(&match (how, u) {
        (0, FlagUpLo::L) if k == 0 => run(|| rt::tril_f(a.view::<B>(d))).map(|t| obs(&t)),
        (0, FlagUpLo::U) if k == 0 => run(|| rt::triu_f(a.view::<B>(d))).map(|t| obs(&t)),
        (0, FlagUpLo::L) => run(|| rt::tril_f((a.view::<B>(d), k))).map(|t| obs(&t)),
        (0, FlagUpLo::U) => run(|| rt::triu_f((a.view::<B>(d), k))).map(|t| obs(&t)),
        (1, FlagUpLo::L) => run_p(|| rt::tril((a.owned::<B>(d), k))).map(|t| obs(&t)),
        (1, FlagUpLo::U) => run_p(|| rt::triu((a.owned::<B>(d), k))).map(|t| obs(&t)),
        (2, FlagUpLo::L) => run(|| rt::tril_f((&a.owned::<B>(d), k))).map(|t| obs(&t)),
        (2, FlagUpLo::U) => run(|| rt::triu_f((&a.owned::<B>(d), k))).map(|t| obs(&t)),
        (3, FlagUpLo::L) if k == 0 => run_p(|| rt::tril(&a.view::<B>(d))).map(|t| obs(&t)),
        (3, FlagUpLo::U) if k == 0 => run_p(|| rt::triu(&a.view::<B>(d))).map(|t| obs(&t)),
        (3, FlagUpLo::L) => run_p(|| rt::tril((&a.view::<B>(d), k))).map(|t| obs(&t)),
        (3, FlagUpLo::U) => run_p(|| rt::triu((&a.view::<B>(d), k))).map(|t| obs(&t)),
        (4, _) if a.lay.sh.len() == 2 => st!(Ix2),
        (4, _) if a.lay.sh.len() == 3 => st!(Ix3),
        (_, FlagUpLo::L) => run(|| rt::tril_f((a.owned::<B>(d), k))).map(|t| obs(&t)),
        (_, FlagUpLo::U) => run(|| rt::triu_f((a.owned::<B>(d), k))).map(|t| obs(&t)),
    })
}
pub fn trimut(how: usize, c: &mut Ti<T>, u: FlagUpLo, k: isize, d: &B) -> J {
    let x: Res<()> = match (how, u) {
        (0, FlagUpLo::L) if k == 0 => run(|| rt::tril_f(c.view_mut::<B>(d)).map(|_| ())),
        (0, FlagUpLo::U) if k == 0 => run(|| rt::triu_f(c.view_mut::<B>(d)).map(|_| ())),
        (1, FlagUpLo::L) => run_p(|| { rt::tril((c.view_mut::<B>(d), k)); }),
        (1, FlagUpLo::U) => run_p(|| { rt::triu((c.view_mut::<B>(d), k)); }),
        (_, FlagUpLo::L) => run(|| rt::tril_f((c.view_mut::<B>(d), k)).map(|_| ())),
        (_, FlagUpLo::U) => run(|| rt::triu_f((c.view_mut::<B>(d), k)).map(|_| ())),
    };
    match x {
        Res::Ok(()) => jo! { k: "ok", buf: jv(&c.buf), bim: jim(&c.buf) },
        _ => jo! { k: x.kind(), msg: x.msg() },
    }
}
