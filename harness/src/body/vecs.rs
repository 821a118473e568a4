// Vectors, scalars and arrays on device type B.
fn resv(x: Res<Vec<i32>>) -> J { match x { Res::Ok(v) => jo! { k: "ok", v: jv(&v) }, _ => jo! { k: x.kind(), msg: x.msg() } } }
pub fn ev(r: &mut Rng) -> J {
    let d = <B as Dv>::mk(r);
    let op = *r.pick(&["to_raw", "into_raw", "into_vec", "to_scalar"]);
    let sh = if op == "to_scalar" { let n = r.us(0, 3); if r.chance(70) { vec![1; n] } else { rand_shape(r, 3, 2, 4, 10) } }
        else if r.chance(80) { vec![r.us(0, 6)] } else { rand_shape(r, 3, 3, 12, 4) };
    let form = *r.pick(&["owned", "view", "mut", "arc", "cow"]);
    let form = if op.starts_with("into") { "owned" } else { form };
    let lay = Lay::random(r, &sh, true);
    let mut a = Ti::<i32>::new(lay, |p| 100 + p as i64);
    let inf = r.chance(40);
    let j = a.jb();
    let fix = sh.len() == 1 && r.chance(40);
    macro_rules! go { ($t:expr) => {{ let t = $t; match (op, inf) {
        ("to_raw", false) => resv(run(|| t.to_raw_f())), ("to_raw", true) => resv(run_p(|| t.to_vec())),
        (_, false) => resv(run(|| t.to_scalar_f()).map(|x| vec![x])), (_, true) => resv(run_p(|| t.to_scalar()).map(|x| vec![x])),
    } }} }
    macro_rules! own { ($t:expr) => {{ let t = $t; match (op, inf) {
        ("into_raw", false) => resv(run(|| t.into_raw_f())), ("into_raw", true) => resv(run_p(|| t.into_raw())),
        ("into_vec", false) => resv(run(|| t.into_vec_f())), _ => resv(run_p(|| t.into_vec())),
    } }} }
    let c = if op.starts_with("into") { if fix { own!(a.owned(&d).into_dim::<vh::dev::Ix1>()) } else { own!(a.owned(&d)) } }
        else { match form { "owned" => go!(a.owned(&d)), "view" if fix => go!(a.view(&d).into_dim::<vh::dev::Ix1>()), "view" => go!(a.view(&d)), "mut" => go!(a.view_mut(&d)),
            "arc" => go!(a.owned(&d).into_shared()), _ => go!(a.view(&d).into_cow()) } };
    jo! { e: "vec", op: op, form: form, a: j, inf: inf, dev: dj(&d), c: c, after: jv(&a.buf) }
}
fn flat<R: vh::dev::DataAPI<Data = Vec<[i32; N]>>, const N: usize>(t: &TensorAny<R, [i32; N], B, IxD>) -> J {
    let ad = addrs(t.shape(), t.stride(), t.offset(), 1 << 16);
    if ad.iter().any(|&p| p < 0 || p as usize >= t.raw().len()) { return jo! { k: "oob", sh: t.shape().to_vec() } }
    jo! { k: "ok", sh: t.shape().to_vec(), v: J::A(ad.iter().flat_map(|&p| t.raw()[p as usize].iter().map(|&x| J::I(x as i64)).collect::<Vec<_>>()).collect()) }
}
fn pack_n<const N: usize>(r: &mut Rng) -> J {
    let d = <B as Dv>::mk(r);
    // mostly layouts that can be packed
    let nd = r.us(1, 3);
    let mut sh: Vec<usize> = (0..nd).map(|_| r.us(0, 3).max(r.us(0, 1))).collect();
    let at = r.us(0, nd - 1);
    if r.chance(92) { sh[at] = N; }
    let lay = if r.chance(20) { Lay::random(r, &sh, true) } else {
        let mut order: Vec<usize> = (0..nd).filter(|&k| k != at).collect();
        r.shuffle(&mut order);
        let mut st = vec![0isize; nd];
        st[at] = 1;
        let mut acc = N.max(1).max(sh[at].div_ceil(N.max(1)) * N.max(1)) as isize;
        if r.chance(30) { acc += if r.chance(50) { N as isize } else { 1 }; }
        let mut of = 0isize;
        for k in order { let s = if r.chance(25) { -1 } else { 1 }; st[k] = acc * s; if s < 0 && sh[k] > 0 { of += acc * (sh[k] as isize - 1); } acc *= sh[k].max(1) as isize;
            if r.chance(20) { acc += if r.chance(70) { N as isize } else { 1 }; } }
        let lead = if r.chance(30) { N * r.us(0, 2) + r.chance(25) as usize } else { 0 };
        let span: isize = (0..nd).map(|k| (sh[k].max(1) as isize - 1) * st[k].abs()).sum();
        let n1 = N.max(1);
        let mut len = lead + span as usize + 1;
        if r.chance(80) { len = len.div_ceil(n1) * n1; }
        Lay { sh: sh.clone(), st, of: lead + if sh.contains(&0) { 0 } else { of as usize }, len }
    };
    let axis = if r.chance(85) { at as isize - if r.chance(50) { nd as isize } else { 0 } } else { r.int(-4, 4) as isize };
    let form = *r.pick(&["owned", "view", "mut", "cow", "cowv"]);
    let inf = r.chance(30);
    let mut a = Ti::<i32>::new(lay, |p| 100 + p as i64);
    let ja = a.jb();
    let nd1 = nd as i64;
    let ax2 = r.int(-nd1 - 1, nd1) as isize;
    let write = r.chance(50) && form == "mut";
    macro_rules! go { ($t:expr, $w:expr) => {{
        let t = $t;
        let x = if inf { run_p(|| t.into_pack_array::<N>(axis)) } else { run(|| t.into_pack_array_f::<N>(axis)) };
        match x {
            Res::Ok(t) => {
                let c = flat(&t.view().into_dim::<IxD>());
                let t = t.into_dim::<IxD>();
                let dd = if N == 0 { jo! { k: "none" } } else {
                    let y = if inf { run_p(|| t.into_unpack_array(ax2)) } else { run(|| t.into_unpack_array_f(ax2)) };
                    match y { Res::Ok(y) => { let y = $w(y); y }, _ => jo! { k: y.kind(), msg: y.msg() } } };
                (c, dd)
            },
            _ => (jo! { k: x.kind(), msg: x.msg() }, jo! { k: "none" }),
        }
    }} }
    macro_rules! rd { () => { |y| obs(&y).ok_j() } }
    let (c, dd) = match form {
        "owned" => go!(a.owned(&d), rd!()), "view" => go!(a.view(&d), rd!()), "cow" => go!(a.owned(&d).into_cow(), rd!()), "cowv" => go!(a.view(&d).into_cow(), rd!()),
        _ => { go!(a.view_mut(&d), |y: TensorMut<'_, i32, B, IxD>| { let mut y = y; let o = obs(&y).ok_j(); if write { let sh = y.shape().to_vec(); if prod(&sh) > 0 && !y.layout().is_broadcasted() { let i = vec![0usize; sh.len()]; y[i.as_slice()] = 777; } } o }) },
    };
    jo! { e: "pack", n: N, axis: axis, ax2: ax2, form: form, a: ja, inf: inf, c: c, d: dd, write: write, after: jv(&a.buf) }
}
pub fn pack(r: &mut Rng) -> J {
    match r.us(0, 9) { 0 => pack_n::<0>(r), 1 => pack_n::<1>(r), 2..=4 => pack_n::<2>(r), 5..=7 => pack_n::<3>(r), _ => pack_n::<4>(r) }
}
