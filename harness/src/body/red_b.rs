// truth values
red_fn!(r_any, sb, any_all, any_all_f, any_axes, any_axes_f, any, any_f);
red_fn!(r_all, sb, all_all, all_all_f, all_axes, all_axes_f, all, all_f);
/// the number of true elements; a trait of its own in the library
fn r_sumb(how: usize, a: &Ti<T>, ax: &Option<Vec<isize>>, d: &B) -> J {
    use rstsr_core::tensor::reduction::TensorSumBoolAPI as S;
    match ax {
        None => match how {
            1 | 9 => sc(run_p(|| S::sum_all(&a.view::<B>(d))).map(|x| su(x, 1.))),
            3 | 7 => sc(run_p(|| S::sum(&a.owned::<B>(d))).map(|x| su(x, 1.))),
            5 => enc_res(run_p(|| S::sum_axes(&a.view::<B>(d), None)).map(|x| obs_any(&x, |x| x as i64))),
            4 | 6 => enc_res(run(|| S::sum_axes_f(&a.view::<B>(d), None)).map(|x| obs_any(&x, |x| x as i64))),
            0 => sc(run(|| S::sum_f(&a.view::<B>(d))).map(|x| su(x, 1.))),
            _ => sc(run(|| S::sum_all_f(&a.view::<B>(d))).map(|x| su(x, 1.))),
        },
        Some(v) => match how % 6 {
            1 | 3 | 5 => enc_res(run_p(|| S::sum_axes(&a.view::<B>(d), v)).map(|x| obs_any(&x, |x| x as i64))),
            _ => enc_res(run(|| S::sum_axes_f(&a.owned::<B>(d), v)).map(|x| obs_any(&x, |x| x as i64))),
        },
    }
}
pub fn bol(op: &str, how: usize, a: &Ti<T>, ax: &Option<Vec<isize>>, d: &B) -> J {
    match op {
        "any" => r_any(how, 1., a, ax, d),
        "all" => r_all(how, 1., a, ax, d),
        _ => r_sumb(how, a, ax, d),
    }
}
