// Matrix products and vector dots for one concrete element type T and device type B.
pub fn mm_new(how: usize, a: &Ti<T>, b: &Ti<T>, same: bool, d: &B) -> J {
    macro_rules! st { ($DA:ty, $DB:ty) => {{
        let (va, vb) = (a.view::<B>(d).into_dim::<$DA>(), b.view::<B>(d).into_dim::<$DB>());
        match how { 8 => run(|| rt::matmul_f(&va, &vb)).map(|t| obs(&t)), _ => run_p(|| va % vb).map(|t| obs(&t)) }
    }} }
    let n = prod(&a.lay.sh) + 4;
    for k in [n, 1, 2, 4, 8, 16] { poison::<T>(k); }
    if same {
        // both operands in one buffer: a and its mirror, or parts of them
        let va = a.view::<B>(d);
        let vb = view_of(&a.buf, b.lay.layout(), d);
        let x = match how % 3 {
            0 => run(|| rt::matmul_f(&va, &vb)).map(|t| obs(&t)),
            1 => run_p(|| &va % &vb).map(|t| obs(&t)),
            _ => run_p(|| va % vb).map(|t| obs(&t)),
        };
        return res_jc(&x);
    }
    let x: Res<Obs<T>> = match how {
        0 => run(|| rt::matmul_f(a.view::<B>(d), b.view::<B>(d))).map(|t| obs(&t)),
        1 => run_p(|| rt::matmul(&a.owned::<B>(d), b.view::<B>(d))).map(|t| obs(&t)),
        2 => run_p(|| a.owned::<B>(d) % b.owned::<B>(d)).map(|t| obs(&t)),
        3 => run_p(|| &a.owned::<B>(d) % b.view::<B>(d)).map(|t| obs(&t)),
        4 => run_p(|| a.view::<B>(d) % &b.owned::<B>(d)).map(|t| obs(&t)),
        5 => run_p(|| &a.view::<B>(d) % &b.view::<B>(d)).map(|t| obs(&t)),
        6 => run(|| a.view::<B>(d).matmul_f(&b.view::<B>(d))).map(|t| obs(&t)),
        7 => run_p(|| a.owned::<B>(d).matmul(b.view::<B>(d))).map(|t| obs(&t)),
        _ => match (a.lay.sh.len(), b.lay.sh.len()) {
            (1, 1) => st!(Ix1, Ix1),
            (2, 2) => st!(Ix2, Ix2),
            (1, 2) => st!(Ix1, Ix2),
            (2, 1) => st!(Ix2, Ix1),
            (3, 2) => st!(Ix3, Ix2),
            (1, 3) => st!(Ix1, Ix3),
            (2, 3) => st!(Ix2, Ix3),
            (3, 3) => st!(Ix3, Ix3),
            _ => run(|| rt::matmul_f(a.view::<B>(d), b.view::<B>(d))).map(|t| obs(&t)),
        },
    };
    res_jc(&x)
}
pub const MM_PANICS: [usize; 7] = [1, 2, 3, 4, 5, 7, 9];
fn cells(x: Res<()>, c: &Ti<T>) -> J {
    match x {
        Res::Ok(()) => jo! { k: "ok", buf: jv(&c.buf), bim: jim(&c.buf) },
        _ => jo! { k: x.kind(), msg: x.msg() },
    }
}
pub fn mm_into(how: usize, a: &Ti<T>, b: &Ti<T>, c: &mut Ti<T>, alpha: T, beta: T, same: bool, d: &B) -> J {
    if same {
        let (va, vb) = (a.view::<B>(d), view_of(&a.buf, b.lay.layout(), d));
        let x: Res<()> = match how {
            0 | 2 => run(|| rt::matmul_from_f(c.view_mut::<B>(d), &va, &vb, alpha, beta)),
            1 | 3 => run_p(|| c.view_mut::<B>(d).matmul_from(va, &vb, alpha, beta)),
            4 | 6 => run(|| rt::matmul_with_output_f(&va, vb, c.view_mut::<B>(d))),
            _ => run_p(|| va.matmul_with_output(&vb, c.view_mut::<B>(d))),
        };
        return cells(x, c);
    }
    let x: Res<()> = match how {
        0 => run(|| rt::matmul_from_f(c.view_mut::<B>(d), a.view::<B>(d), b.view::<B>(d), alpha, beta)),
        1 => run_p(|| rt::matmul_from(&mut c.view_mut::<B>(d), &a.owned::<B>(d), b.view::<B>(d), alpha, beta)),
        2 => run(|| c.view_mut::<B>(d).matmul_from_f(a.view::<B>(d), b.view::<B>(d), alpha, beta)),
        3 => run_p(|| c.view_mut::<B>(d).matmul_from(a.view::<B>(d), &b.owned::<B>(d), alpha, beta)),
        4 => run(|| rt::matmul_with_output_f(a.view::<B>(d), b.view::<B>(d), c.view_mut::<B>(d))),
        5 => run_p(|| rt::matmul_with_output(a.owned::<B>(d), b.view::<B>(d), c.view_mut::<B>(d))),
        6 => run(|| a.view::<B>(d).matmul_with_output_f(b.view::<B>(d), &mut c.view_mut::<B>(d))),
        _ => run_p(|| a.view::<B>(d).matmul_with_output(&b.owned::<B>(d), c.view_mut::<B>(d))),
    };
    cells(x, c)
}
pub fn vd_new(how: usize, a: &Ti<T>, b: &Ti<T>, ax: dev::AxesPairIndex<isize>, d: &B) -> J {
    for k in [1, 2, 4, 8, 16] { poison::<T>(k); }
    let x: Res<Obs<T>> = match how {
        0 => run(|| rt::vecdot_f(a.view::<B>(d), b.view::<B>(d), ax)).map(|t| obs(&t)),
        1 => run_p(|| rt::vecdot(&a.owned::<B>(d), b.view::<B>(d), ax)).map(|t| obs(&t)),
        2 => run(|| a.view::<B>(d).vecdot_f(&b.view::<B>(d), ax)).map(|t| obs(&t)),
        _ => run_p(|| a.owned::<B>(d).vecdot(b.view::<B>(d), ax)).map(|t| obs(&t)),
    };
    res_jc(&x)
}
pub fn vd_into(how: usize, a: &Ti<T>, b: &Ti<T>, c: &mut Ti<T>, ax: dev::AxesPairIndex<isize>, d: &B) -> J {
    let x: Res<()> = match how {
        0 => run(|| rt::vecdot_from_f(c.view_mut::<B>(d), a.view::<B>(d), b.view::<B>(d), ax)),
        1 => run_p(|| rt::vecdot_from(&mut c.view_mut::<B>(d), &a.owned::<B>(d), b.view::<B>(d), ax)),
        2 => run(|| c.view_mut::<B>(d).vecdot_from_f(a.view::<B>(d), b.view::<B>(d), ax)),
        _ => run_p(|| c.view_mut::<B>(d).vecdot_from(a.view::<B>(d), &b.owned::<B>(d), ax)),
    };
    cells(x, c)
}
