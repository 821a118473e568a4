// floating-point element types
red_fn!(r_mean, sf, mean_all, mean_all_f, mean_axes, mean_axes_f, mean, mean_f);
red_fn!(r_var, sf, var_all, var_all_f, var_axes, var_axes_f, var, var_f);
red_fn!(r_std, sf, std_all, std_all_f, std_axes, std_axes_f, std, std_f);
red_fn!(r_norm, sf, l2_norm_all, l2_norm_all_f, l2_norm_axes, l2_norm_axes_f, l2_norm, l2_norm_f);
pub fn flt(op: &str, how: usize, a: &Ti<T>, ax: &Option<Vec<isize>>, d: &B) -> J {
    match op {
        "mean" => r_mean(how, 1000., a, ax, d),
        "var" => r_var(how, 100., a, ax, d),
        "std" => r_std(how, 100., a, ax, d),
        "l2_norm" => r_norm(how, 100., a, ax, d),
        _ => unreachable!("{op}"),
    }
}
