// One parallel loop on instrumented elements, on device type B.
pub fn go(r: &mut Rng, op: &str, sh: &[usize], o: FlagOrder, nt: usize, d: &B) -> J {
    let (sa, sb) = (if op == "add" || op == "addout" || op == "mapb" { bcast_to(r, sh, o) } else { sh.to_vec() }, bcast_to(r, sh, o));
    let mut la = Lay::random(r, &sa, true);
    let lb = Lay::random(r, &sb, true);
    let lc = Lay::random(r, sh, false);
    if op == "tr" && r.chance(70) || op == "reshape" && r.chance(60) { la = Lay::contig(sh, if o == FlagOrder::C { FlagOrder::F } else { FlagOrder::C }); }
    let (qa, qb) = (qs(la.len), qs(lb.len));
    let va = view_of(&qa, la.layout(), d);
    let vb = view_of(&qb, lb.layout(), d);
    reset(la.len.max(lb.len));
    let fresh = |t: &Tensor<W, B, IxD>| -> J {
        let ad = addrs(t.shape(), t.stride(), t.offset(), 1 << 20);
        let raw = t.raw();
        let v: Vec<&W> = ad.iter().map(|&x| &raw[x as usize]).collect();
        let mut j = jws(&v);
        if let J::O(m) = &mut j { m.push(("sh".into(), J::from(t.shape().to_vec()))); }
        j
    };
    let copied = |t: &Tensor<Q, B, IxD>| -> J {
        let ad = addrs(t.shape(), t.stride(), t.offset(), 1 << 20);
        let raw = t.raw();
        jo! { k: "ok", sh: t.shape().to_vec(), a: J::A(ad.iter().map(|&x| J::I(raw[x as usize].0 as i64 + 1)).collect()) }
    };
    let rec = |res: J, dst: J, axis: i64, idx: Vec<i64>, rd: J| jo! { e: "par", op: op, nt: nt, order: oname(o), src: J::A(vec![jl(&la), jl(&lb)]), dst: dst, calls: CALLS.load(Relaxed), reads: rd, axis: axis, idx: idx, r: res };
    let none = || J::A(vec![]);
    match op {
        "add" => {
            let x: Res<Tensor<W, B, IxD>> = match r.us(0, 2) { 0 => run(|| rt::add_f(&va, &vb)), 1 => run_p(|| &va + &vb), _ => run_p(|| va.view() + vb.view()) };
            let j = x.as_ok().map(fresh).unwrap_or_else(|| bad(&x));
            rec(j, none(), 0, vec![], none())
        },
        "mapb" => {
            let x: Res<Tensor<W, B, IxD>> = run(|| va.mapb_f(&vb, |a: &Q, b: &Q| comb(a.0, b.0)));
            let j = x.as_ok().map(fresh).unwrap_or_else(|| bad(&x));
            rec(j, none(), 0, vec![], none())
        },
        "map" => {
            let x: Res<Tensor<W, B, IxD>> = run(|| va.map_f(|a: &Q| comb(a.0, 0)));
            let j = x.as_ok().map(fresh).unwrap_or_else(|| bad(&x));
            rec(j, none(), 0, vec![], none())
        },
        "addout" | "addassign" | "mapi" => {
            let mut w = ws(lc.len);
            let x: Res<()> = {
                let mut c = mut_of(&mut w, lc.layout(), d);
                match op {
                    "addout" => run(|| rt::add_with_output_f(&va, &vb, &mut c)),
                    "addassign" => if r.chance(50) { run(|| rt::add_assign_f(&mut c, &vb)) } else { run_p(|| c += &vb) },
                    _ => run(|| c.mapi_f(|x: &mut W| { CALLS.fetch_add(1, Relaxed); let n = x.n; jig(n); x.n = n + 1; })),
                }
            };
            let j = match x { Res::Ok(()) => jws(&w.iter().collect::<Vec<_>>()), _ => bad(&x) };
            rec(j, jl(&lc), 0, vec![], none())
        },
        "assign" | "fill" => {
            let mut c: Vec<Q> = (0..lc.len as u32).map(|k| Q(900000 + k)).collect();
            let x: Res<()> = {
                let mut t = mut_of(&mut c, lc.layout(), d);
                if op == "assign" { if r.chance(50) { run(|| t.assign_f(&vb)) } else { run_p(|| { t.assign(vb.view()); }) } }
                else { run(|| t.fill_f(Q(4))) }
            };
            let j = match x { Res::Ok(()) => jo! { k: "ok", a: J::A(c.iter().map(|q| J::I(q.0 as i64 + 1)).collect()) }, _ => bad(&x) };
            rec(j, jl(&lc), 0, vec![], reads(lb.len))
        },
        "reshape" => {
            let to = if r.chance(40) { vec![prod(&la.sh)] } else { refold(r, prod(&la.sh)) };
            let x: Res<Tensor<Q, B, IxD>> = match r.us(0, 2) { 0 => run(|| va.view().change_shape_f(to.clone()).map(|t| t.into_owned())), 1 => run_p(|| va.reshape(to.clone()).into_owned()), _ => run_p(|| va.view().into_shape(to.clone())) };
            let j = match x.as_ok() { None => bad(&x), Some(t) => {
                let (mut sh, mut st) = (t.shape().to_vec(), t.stride().to_vec());
                let ad = { if o == FlagOrder::F { sh.reverse(); st.reverse(); } addrs(&sh, &st, t.offset(), 1 << 20) };
                let raw = t.raw();
                jo! { k: "ok", sh: t.shape().to_vec(), a: J::A(ad.iter().map(|&x| J::I(raw[x as usize].0 as i64 + 1)).collect()) } } };
            rec(j, none(), 0, to.iter().map(|&x| x as i64).collect(), none())
        },
        // a number on one side: the elements are their cell numbers
        "scal" | "numl" | "scalas" => {
            let s: i64 = 1_000_000;
            let xs: Vec<i64> = (0..la.len as i64).collect();
            let v = view_of(&xs, la.layout(), d);
            let enc = |t: &Tensor<i64, B, IxD>| { let ad = addrs(t.shape(), t.stride(), t.offset(), 1 << 20); jo! { k: "ok", sh: t.shape().to_vec(), a: J::A(ad.iter().map(|&x| J::I(t.raw()[x as usize])).collect()) } };
            if op == "scalas" {
                let mut c: Vec<i64> = (0..lc.len as i64).collect();
                let x: Res<()> = { let mut t = mut_of(&mut c, lc.layout(), d);
                    match r.us(0, 2) { 0 => run_p(|| t += s), 1 => run_p(|| t -= -s), _ => run(|| rt::add_assign_f(&mut t, s)) } };
                let j = match x { Res::Ok(()) => jo! { k: "ok", a: J::A(c.iter().map(|&q| J::I(q)).collect()) }, _ => bad(&x) };
                return rec(j, jl(&lc), 0, vec![], none())
            }
            let how = r.us(0, 3);
            let x: Res<Tensor<i64, B, IxD>> = if op == "scal" { match how { 0 => run(|| rt::add_f(&v, s)), 1 => run_p(|| &v + s), 2 => run_p(|| v.view() - (-s)), _ => run_p(|| owned_of(xs.clone(), la.layout(), d) + s) } }
                else { match how { 0 => run_p(|| s - &v), 1 => run_p(|| s - v.view()), 2 => run_p(|| s - owned_of(xs.clone(), la.layout(), d)), _ => run(|| rt::sub_f(s, &v)) } };
            let j = x.as_ok().map(enc).unwrap_or_else(|| bad(&x));
            rec(j, none(), 0, vec![], none())
        },
        "copy" | "tr" => {
            let x: Res<Tensor<Q, B, IxD>> = match r.us(0, 2) {
                0 => run(|| va.view().change_contig_f(o).map(|t| t.into_owned())),
                1 => run_p(|| va.view().into_contig(o).into_owned()),
                _ => { let l = Lay::contig(&la.sh, o).layout(); run(|| va.view().into_layout_f(l).map(|t| t.into_owned())) },
            };
            let j = x.as_ok().map(copied).unwrap_or_else(|| bad(&x));
            rec(j, none(), 0, vec![], none())
        },
        _ => {
            let nd = la.sh.len();
            if nd == 0 { return rec(jo! { k: "none" }, none(), 0, vec![], none()) }
            let ax = r.us(0, nd - 1);
            let m = la.sh[ax];
            let k = if m == 0 { 0 } else { r.us(0, m + 3) };
            let idx: Vec<i64> = (0..k).map(|_| r.int(-(m as i64), m as i64 - 1)).collect();
            let ii: Vec<isize> = idx.iter().map(|&x| x as isize).collect();
            let x: Res<Tensor<Q, B, IxD>> = run(|| rt::index_select_f(&va, ax as isize, &ii));
            let j = x.as_ok().map(copied).unwrap_or_else(|| bad(&x));
            rec(j, none(), ax as i64, idx, none())
        },
    }
}
