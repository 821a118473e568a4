// integer-only operations
bin_forms!(f_rem, %, rem, rem_f, rem_with_output, rem_with_output_f);
bin_forms!(f_and, &, bitand, bitand_f, bitand_with_output, bitand_with_output_f);
bin_forms!(f_or, |, bitor, bitor_f, bitor_with_output, bitor_with_output_f);
bin_forms!(f_xor, ^, bitxor, bitxor_f, bitxor_with_output, bitxor_with_output_f);
bin_forms!(f_shl, <<, shl, shl_f, shl_with_output, shl_with_output_f);
bin_forms!(f_shr, >>, shr, shr_f, shr_with_output, shr_with_output_f);
pub const OPS: [&str; 10] = ["add", "sub", "mul", "div", "rem", "bitand", "bitor", "bitxor", "shl", "shr"];
fn other(op: &str, how: usize, k: &mut Case, d: &B, d2: &B) -> J {
    match op {
        "rem" => f_rem(how, k, d, d2),
        "bitand" => f_and(how, k, d, d2),
        "bitor" => f_or(how, k, d, d2),
        "bitxor" => f_xor(how, k, d, d2),
        "shl" => f_shl(how, k, d, d2),
        _ => f_shr(how, k, d, d2),
    }
}
pub const FUNS: [&str; 9] = ["maximum", "minimum", "equal", "not_equal", "less", "less_equal", "greater", "greater_equal", "floor_divide"];
fn fun(op: &str, how: usize, k: &mut Case, d: &B, d2: &B) -> J {
    match op {
        "maximum" => fun_forms!(how, k, d, d2, maximum, maximum_f, El::ti),
        "minimum" => fun_forms!(how, k, d, d2, minimum, minimum_f, El::ti),
        "equal" => fun_forms!(how, k, d, d2, equal, equal_f, El::ti),
        "not_equal" => fun_forms!(how, k, d, d2, not_equal, not_equal_f, El::ti),
        "less" => fun_forms!(how, k, d, d2, less, less_f, El::ti),
        "less_equal" => fun_forms!(how, k, d, d2, less_equal, less_equal_f, El::ti),
        "greater" => fun_forms!(how, k, d, d2, greater, greater_f, El::ti),
        "greater_equal" => fun_forms!(how, k, d, d2, greater_equal, greater_equal_f, El::ti),
        _ => fun_forms!(how, k, d, d2, floor_divide, floor_divide_f, El::ti),
    }
}
pub const UNS: [(&str, bool); 9] = [("neg", true), ("not", true), ("abs", true), ("sign", true), ("square", true), ("signbit", false), ("real", true), ("isqrt", false), ("isin", false)];
fn un(op: &str, how: usize, a: &Ti<T>, d: &B) -> J {
    match op {
        "neg" => un_forms!(own how, a, d, neg, neg_f, El::ti),
        "not" => un_forms!(own how, a, d, not, not_f, El::ti),
        "abs" => un_forms!(own how, a, d, abs, abs_f, El::ti),
        "sign" => un_forms!(own how, a, d, sign, sign_f, El::ti),
        "square" => un_forms!(own how, a, d, square, square_f, El::ti),
        "real" => un_forms!(own how, a, d, real, real_f, El::ti),
        "signbit" => un_forms!(how, a, d, signbit, signbit_f, El::ti),
        "isqrt" => un_forms!(how, a, d, sqrt, sqrt_f, hashq),
        _ => un_forms!(how, a, d, sin, sin_f, hashq),
    }
}
fn map1_mut(how: usize, mut a: Ti<T>, d: &Ser) -> J {
    let ja = a.j();
    let before = a.buf.clone();
    let mut calls = 0i64;
    let r = match how {
        8 => run(|| a.view::<Ser>(d).map_fnmut_f(|x| { calls += 1; uf(*x) }).map(|x| obs(&x))),
        9 => run_p(|| obs(&a.view::<Ser>(d).mapv_fnmut(|x| { calls += 1; uf(x) }))),
        10 => run(|| { a.view_mut::<Ser>(d).mapi_fnmut_f(|x| { calls += 1; *x = uf(*x) })?; Ok::<_, dev::Error>(obs_raw(&a.buf, &a.lay.layout())) }),
        _ => run_p(|| { a.view_mut::<Ser>(d).mapvi_fnmut(|x| { calls += 1; uf(x) }); obs_raw(&a.buf, &a.lay.layout()) }),
    };
    jo! { e: "map", how: how, inplace: how >= 10, order: oname(d.default_order()), ty: T::NAME, a: ja, before: jv(&before), after: jv(&a.buf), calls: vec![calls], r: res_j(&r) }
}
