// floating-point operations
pub const OPS: [&str; 4] = ["add", "sub", "mul", "div"];
fn other(_: &str, _: usize, _: &mut Case, _: &B, _: &B) -> J { unreachable!() }
pub const FUNS: [&str; 15] = ["maximum", "minimum", "equal", "not_equal", "less", "less_equal", "greater", "greater_equal", "floor_divide",
    "atan2", "copysign", "hypot", "log_add_exp", "nextafter", "pow"];
fn fun(op: &str, how: usize, k: &mut Case, d: &B, d2: &B) -> J {
    match op {
        "maximum" => fun_forms!(how, k, d, d2, maximum, maximum_f, El::ti),
        "minimum" => fun_forms!(how, k, d, d2, minimum, minimum_f, El::ti),
        "equal" => fun_forms!(how, k, d, d2, equal, equal_f, El::ti),
        "not_equal" => fun_forms!(how, k, d, d2, not_equal, not_equal_f, El::ti),
        "less" => fun_forms!(how, k, d, d2, less, less_f, El::ti),
        "less_equal" => fun_forms!(how, k, d, d2, less_equal, less_equal_f, El::ti),
        "greater" => fun_forms!(how, k, d, d2, greater, greater_f, El::ti),
        "greater_equal" => fun_forms!(how, k, d, d2, greater_equal, greater_equal_f, El::ti),
        "floor_divide" => fun_forms!(how, k, d, d2, floor_divide, floor_divide_f, El::ti),
        "atan2" => fun_forms!(how, k, d, d2, atan2, atan2_f, hashq),
        "copysign" => fun_forms!(how, k, d, d2, copysign, copysign_f, hashq),
        "hypot" => fun_forms!(how, k, d, d2, hypot, hypot_f, hashq),
        "log_add_exp" => fun_forms!(how, k, d, d2, log_add_exp, log_add_exp_f, hashq),
        "nextafter" => fun_forms!(how, k, d, d2, nextafter, nextafter_f, hashf),
        _ => fun_forms!(how, k, d, d2, pow, pow_f, hashq),
    }
}
/// the second component says whether an owned operand may be consumed
pub const UNS: [(&str, bool); 34] = [("neg", true), ("abs", true), ("sign", true), ("square", true), ("floor", true), ("ceil", true), ("round", true), ("trunc", true),
    ("real", true), ("conj", true), ("imag", true), ("signbit", false), ("is_nan", false), ("is_inf", false), ("is_finite", false),
    ("acos", true), ("acosh", true), ("asin", true), ("asinh", true), ("atan", true), ("atanh", true), ("cos", true), ("cosh", true), ("exp", true), ("expm1", true),
    ("inv", true), ("reciprocal", true), ("log", true), ("log2", true), ("log10", true), ("sin", true), ("sinh", true), ("sqrt", true), ("tanh", true)];
/// operands of unary functions are recorded in half units, results as hashes of their bits, or (exact
/// functions) in half units
fn half(x: f64) -> i64 { (x * 4.0).ti() }
fn un(op: &str, how: usize, a: &Ti<T>, d: &B) -> J {
    match op {
        "neg" => un_forms!(own how, a, d, neg, neg_f, half),
        "abs" => un_forms!(own how, a, d, abs, abs_f, half),
        "sign" => un_forms!(own how, a, d, sign, sign_f, half),
        "square" => un_forms!(own how, a, d, square, square_f, half),
        "floor" => un_forms!(own how, a, d, floor, floor_f, half),
        "ceil" => un_forms!(own how, a, d, ceil, ceil_f, half),
        "round" => un_forms!(own how, a, d, round, round_f, half),
        "trunc" => un_forms!(own how, a, d, trunc, trunc_f, half),
        "real" => un_forms!(own how, a, d, real, real_f, half),
        "conj" => un_forms!(own how, a, d, conj, conj_f, half),
        "imag" => un_forms!(own how, a, d, imag, imag_f, half),
        "signbit" => un_forms!(how, a, d, signbit, signbit_f, El::ti),
        "is_nan" => un_forms!(how, a, d, is_nan, is_nan_f, El::ti),
        "is_inf" => un_forms!(how, a, d, is_inf, is_inf_f, El::ti),
        "is_finite" => un_forms!(how, a, d, is_finite, is_finite_f, El::ti),
        "acos" => un_forms!(own how, a, d, acos, acos_f, hashq),
        "acosh" => un_forms!(own how, a, d, acosh, acosh_f, hashq),
        "asin" => un_forms!(own how, a, d, asin, asin_f, hashq),
        "asinh" => un_forms!(own how, a, d, asinh, asinh_f, hashq),
        "atan" => un_forms!(own how, a, d, atan, atan_f, hashq),
        "atanh" => un_forms!(own how, a, d, atanh, atanh_f, hashq),
        "cos" => un_forms!(own how, a, d, cos, cos_f, hashq),
        "cosh" => un_forms!(own how, a, d, cosh, cosh_f, hashq),
        "exp" => un_forms!(own how, a, d, exp, exp_f, hashq),
        "expm1" => un_forms!(own how, a, d, expm1, expm1_f, hashq),
        "inv" => un_forms!(own how, a, d, inv, inv_f, hashq),
        "reciprocal" => un_forms!(own how, a, d, reciprocal, reciprocal_f, hashq),
        "log" => un_forms!(own how, a, d, log, log_f, hashq),
        "log2" => un_forms!(own how, a, d, log2, log2_f, hashq),
        "log10" => un_forms!(own how, a, d, log10, log10_f, hashq),
        "sin" => un_forms!(own how, a, d, sin, sin_f, hashq),
        "sinh" => un_forms!(own how, a, d, sinh, sinh_f, hashq),
        "sqrt" => un_forms!(own how, a, d, sqrt, sqrt_f, hashq),
        _ => un_forms!(own how, a, d, tanh, tanh_f, hashq),
    }
}
fn map1_mut(how: usize, a: Ti<T>, d: &B) -> J { map1(how % 8, a, d) }
