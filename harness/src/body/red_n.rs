// numeric element types
red_fn!(r_sum, st, sum_all, sum_all_f, sum_axes, sum_axes_f, sum, sum_f);
red_fn!(r_prod, st, prod_all, prod_all_f, prod_axes, prod_axes_f, prod, prod_f);
red_fn!(r_min, st, min_all, min_all_f, min_axes, min_axes_f, min, min_f);
red_fn!(r_max, st, max_all, max_all_f, max_axes, max_axes_f, max, max_f);
red_fn!(r_cnz, su, count_nonzero_all, count_nonzero_all_f, count_nonzero_axes, count_nonzero_axes_f, count_nonzero, count_nonzero_f);
red_fn!(r_argmin, su, argmin_all, argmin_all_f, argmin_axes, argmin_axes_f, argmin, argmin_f);
red_fn!(r_argmax, su, argmax_all, argmax_all_f, argmax_axes, argmax_axes_f, argmax, argmax_f);
ured_fn!(r_uargmin, unraveled_argmin_all, unraveled_argmin_all_f, unraveled_argmin_axes, unraveled_argmin_axes_f);
ured_fn!(r_uargmax, unraveled_argmax_all, unraveled_argmax_all_f, unraveled_argmax_axes, unraveled_argmax_axes_f);
pub fn num(op: &str, how: usize, a: &Ti<T>, ax: &Option<Vec<isize>>, d: &B) -> J {
    match op {
        "sum" => r_sum(how, 1., a, ax, d),
        "prod" => r_prod(how, 1., a, ax, d),
        "min" => r_min(how, 1., a, ax, d),
        "max" => r_max(how, 1., a, ax, d),
        "count_nonzero" => r_cnz(how, 1., a, ax, d),
        "argmin" => r_argmin(how, 1., a, ax, d),
        "argmax" => r_argmax(how, 1., a, ax, d),
        "uargmin" => r_uargmin(how, a, ax, d),
        "uargmax" => r_uargmax(how, a, ax, d),
        _ => unreachable!("{op}"),
    }
}
