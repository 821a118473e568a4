//! Driver for layouts: admission, predicates, addressing, and the rearrangements used for traversal.
//! `lay OUT SEED TIER [LAYOUTS]`
use vh::dev::{
    DimDevAPI, DimLayoutContigAPI, DimShapeAPI, TensorIterOrder, get_layout_for_binary_op, layout_for_array_copy, layout_reshapeable,
    translate_to_col_major, translate_to_col_major_unary, translate_to_col_major_with_contig,
};
#[allow(unused)]
use vh::dev::{Ix0, Ix1, Ix2, Ix3, Ix4, Ix5, Ix6};
use vh::*;
use TensorIterOrder as Io;

#[derive(Clone, Debug)]
struct Raw { sh: Vec<usize>, st: Vec<isize>, of: usize }
fn jr(x: &Raw) -> J { jo! { sh: &x.sh, st: &x.st, of: x.of } }
fn jl<D: DimAPI>(l: &Layout<D>) -> J {
    let st: Vec<i64> = l.stride().as_ref().iter().map(|&s| cl(s as i128)).collect();
    jo! { sh: l.shape().as_ref().to_vec(), st: st, of: l.offset() }
}
fn jls<D: DimAPI>(v: &[Layout<D>]) -> J { J::A(v.iter().map(jl).collect()) }
fn props<D: DimAPI>(l: &Layout<D>) -> J {
    let b = run(|| l.bounds_index());
    let (bk, lo, hi) = match &b { Res::Ok((a, b)) => ("ok", *a as i128, *b as i128), x => (x.kind(), -1, -1) };
    jo! { k: "ok", cc: l.c_contig(), fc: l.f_contig(), cp: l.c_prefer(), fp: l.f_prefer(), nc: l.ndim_of_c_contig(), nf: l.ndim_of_f_contig(),
          size: l.size(), bk: bk, lo: cl(lo), hi: cl(hi), bc: l.is_broadcasted(), nb: l.size_non_broadcast(), lay: jl(l) }
}
fn enc(r: Res<J>) -> J { enc_res(r) }
/// evaluate an expression with the layout's rank known to the compiler
macro_rules! with_dim { ($fix:expr, $n:expr, $d:ident => $e:expr) => { match ($fix, $n) {
    (true, 0) => { type $d = Ix0; $e } (true, 1) => { type $d = Ix1; $e } (true, 2) => { type $d = Ix2; $e } (true, 3) => { type $d = Ix3; $e }
    (true, 4) => { type $d = Ix4; $e } (true, 5) => { type $d = Ix5; $e } _ => { type $d = IxD; $e }
} } }
fn mk<D: DimAPI>(x: &Raw) -> Layout<D> {
    unsafe { Layout::<IxD>::new_unchecked(x.sh.clone(), x.st.clone(), x.of) }.into_dim::<D>().unwrap_or_else(|_| panic!("dim"))
}
fn new_l<D>(x: &Raw) -> Res<J> where D: DimAPI + TryFrom<Vec<usize>>, D::Stride: TryFrom<Vec<isize>> {
    let (Ok(sh), Ok(st)) = (D::try_from(x.sh.clone()), <D::Stride as TryFrom<Vec<isize>>>::try_from(x.st.clone())) else { panic!("dim") };
    run(|| Layout::<D>::new(sh, st, x.of)).map(|l| props(&l))
}

/// an arbitrary layout, admissible or nearly so
fn arb(r: &mut Rng, ndmax: usize) -> Raw {
    let sh = rand_shape(r, ndmax, 4, 60, 8);
    let l = Lay::random(r, &sh, true);
    let mut x = Raw { sh: l.sh, st: l.st, of: l.of };
    let n = x.sh.len();
    match r.int(0, 9) {
        0 | 1 if n > 0 => { let k = r.us(0, n - 1); x.st[k] += r.int(-2, 2) as isize; },
        2 if n > 0 => { let k = r.us(0, n - 1); x.st[k] = r.int(-8, 8) as isize; },
        3 if n > 1 => { let (a, b) = (r.us(0, n - 1), r.us(0, n - 1)); x.st.swap(a, b); },
        4 => { x.of = r.us(0, 4); },
        5 if n > 0 => { let k = r.us(0, n - 1); x.sh[k] = r.us(1, 4); },
        6 if n > 0 => { let k = r.us(0, n - 1); x.st[k] = -x.st[k]; },
        _ => {},
    }
    x
}
fn good(r: &mut Rng, sh: &[usize], bc: bool) -> Raw { let l = Lay::random(r, sh, bc); Raw { sh: l.sh, st: l.st, of: l.of } }
fn it(r: &mut Rng) -> (Io, &'static str) { *r.pick(&[(Io::C, "C"), (Io::F, "F"), (Io::A, "A"), (Io::K, "K"), (Io::G, "G"), (Io::B, "B")]) }

fn ev_new(r: &mut Rng, x: &Raw) -> J {
    let fix = x.sh.len() == x.st.len() && r.chance(50);
    let res = with_dim!(fix, x.sh.len(), D => new_l::<D>(x));
    jo! { e: "new", fix: fix, x: jr(x), r: enc(res) }
}
fn ev_index(r: &mut Rng, x: &Raw) -> J {
    let n = x.sh.len();
    let m = if r.chance(5) { r.us(0, n + 1) } else { n };
    let ix: Vec<isize> = (0..m).map(|k| { let d = *x.sh.get(k).unwrap_or(&2) as i64; if r.chance(6) { r.int(-d - 2, d + 1) } else if d > 0 { r.int(-d, d - 1) } else { 0 } } as isize).collect();
    let (fix, inf) = (r.chance(50), r.chance(20));
    let res = with_dim!(fix, n, D => { let l = mk::<D>(x); if inf { run_p(|| l.index(&ix)) } else { run(|| l.index_f(&ix)) } });
    jo! { e: "index", inf: inf, x: jr(x), ix: &ix, r: enc(res.map(|a| jo! { k: "ok", a: cl(a as i128) })) }
}
fn ev_unravel(r: &mut Rng) -> J {
    let sh = loop { let s = rand_shape(r, 5, 5, 400, 0); if prod(&s) > 0 { break s } };
    let (p, o, fix) = (r.us(0, prod(&sh) - 1), r.chance(50), r.chance(50));
    let res = with_dim!(fix, sh.len(), D => { let Ok(d) = D::try_from(sh.clone()) else { panic!() };
        run_p(|| unsafe { if o { d.unravel_index_c(p) } else { d.unravel_index_f(p) } }).map(|v| jo! { k: "ok", ix: AsRef::<[usize]>::as_ref(&v).to_vec() }) });
    jo! { e: "unravel", sh: &sh, p: p, ord: if o { "C" } else { "F" }, r: enc(res) }
}
fn ev_contig(r: &mut Rng) -> J {
    let sh = rand_shape(r, 5, 5, 200, 12);
    let (o, fix, of) = (*r.pick(&ORD), r.chance(50), if r.chance(50) { None } else { Some(r.us(0, 5)) });
    let how = r.us(0, 2);
    let res = with_dim!(fix, sh.len(), D => { let Ok(d) = D::try_from(sh.clone()) else { panic!() };
        run_p(|| match (how, o, of) { (0, FlagOrder::C, None) => d.c(), (0, FlagOrder::F, None) => d.f(), (1, FlagOrder::C, _) => d.new_c_contig(of),
            (1, FlagOrder::F, _) => d.new_f_contig(of), _ => d.new_contig(of, o) }).map(|l| props(&l)) });
    jo! { e: "contig", sh: &sh, of: of.unwrap_or(0), ord: oname(o), r: enc(res) }
}
/// a tensor over a storage of `len` elements that hold their own addresses
fn ev_tensor(r: &mut Rng, x: &Raw) -> J {
    let hi = 1 + x.of as i64 + x.sh.iter().zip(&x.st).map(|(&d, &s)| if s > 0 && d > 0 { (d as i64 - 1) * s as i64 } else { 0 }).sum::<i64>();
    let len = (hi + r.int(-2, 2)).max(0) as usize;
    let buf: Vec<i32> = (0..len as i32).collect();
    let d = ser(FlagOrder::C);
    let how = r.us(0, 4);
    let mut b2 = buf.clone();
    let fix = r.chance(40);
    let res = with_dim!(fix, x.sh.len(), D => { let l = mk::<D>(x); match how {
        0 => run(|| Tensor::<i32, Ser, D>::new_f(Storage::new(buf.clone().into(), d.clone()), l)).map(|t| obs(&t).ok_j()),
        1 => run(|| rt::asarray_f((buf.clone(), l, &d))).map(|t| obs(&t).ok_j()),
        2 => run(|| rt::asarray_f((&buf, l, &d))).map(|t| obs(&t).ok_j()),
        3 => run(|| rt::asarray_f((buf.as_slice(), l, &d))).map(|t| obs(&t).ok_j()),
        _ => run(|| rt::asarray_f((&mut b2, l, &d))).map(|t| obs(&t.view()).ok_j()),
    } });
    jo! { e: "tensor", how: how as i64, x: jr(x), len: len, r: enc(res) }
}
fn ev_trans(r: &mut Rng, big: bool) -> J {
    let sh = rand_shape(r, if big { 7 } else { 4 }, 4, if big { 150 } else { 40 }, 4);
    let m = *r.pick(&[1, 1, 2, 2, 3]);
    let same = r.chance(30);
    let xs: Vec<Raw> = (0..m).scan(None, |p: &mut Option<Raw>, _| { let x = match p { Some(y) if same => { let mut y = y.clone(); y.of += 1; y }, _ => good(r, &sh, true) }; *p = Some(x.clone()); Some(x) }).collect();
    let (o, on) = it(r);
    let unary = m == 1 && r.chance(70);
    let (fix, contig) = (r.chance(50), r.chance(40));
    let mut n = -1i64;
    let res = with_dim!(fix, sh.len(), D => {
        let ls: Vec<Layout<D>> = xs.iter().map(mk::<D>).collect();
        let refs: Vec<&Layout<D>> = ls.iter().collect();
        run(|| if unary { translate_to_col_major_unary(&ls[0], o).map(|l| vec![l]) } else { translate_to_col_major(&refs, o) }).map(|v| {
            let y = jls(&v);
            let mut z = J::A(vec![]);
            if contig { let rf: Vec<&Layout<D>> = v.iter().collect(); let (w, k) = translate_to_col_major_with_contig(&rf); n = k as i64; z = jls(&w); }
            jo! { k: "ok", y: y, z: z, n: n }
        }) });
    jo! { e: "trans", ord: on, unary: unary, x: J::A(xs.iter().map(jr).collect()), r: enc(res) }
}
fn ev_binop(r: &mut Rng) -> J {
    let sh = rand_shape(r, 5, 4, 80, 4);
    let mut s2 = sh.clone();
    if r.chance(5) && !s2.is_empty() { let k = r.us(0, s2.len() - 1); s2[k] += 1; }
    let (a, o, fix) = (good(r, &sh, true), *r.pick(&ORD), r.chance(50));
    let b = if r.chance(25) && s2 == sh { a.clone() } else { good(r, &s2, true) };
    let res = with_dim!(fix, sh.len(), D => { let (la, lb) = (mk::<D>(&a), mk::<D>(&b)); run(|| get_layout_for_binary_op(&la, &lb, o)).map(|l| props(&l)) });
    jo! { e: "binop", ord: oname(o), a: jr(&a), b: jr(&b), r: enc(res) }
}
fn ev_copy(r: &mut Rng) -> J {
    let sh = rand_shape(r, 5, 4, 80, 4);
    let (a, fix) = (good(r, &sh, true), r.chance(50));
    let (o, on) = it(r);
    let res = with_dim!(fix, sh.len(), D => { let la = mk::<D>(&a); run(|| layout_for_array_copy(&la, o)).map(|l| props(&l)) });
    jo! { e: "copy", ord: on, x: jr(&a), r: enc(res) }
}
/// a shape with the same number of elements (most of the time)
fn refactor(r: &mut Rng, sh: &[usize]) -> Vec<usize> {
    let mut p: Vec<usize> = vec![];
    for &d in sh { let mut d = d; let mut q = 2; while d > 1 && q <= d { if d % q == 0 && r.chance(60) { p.push(q); d /= q; } else { q += 1; } } if d != 1 { p.push(d); } }
    let mut i = 0;
    while i + 1 < p.len() { if r.chance(45) { let x = p.remove(i + 1); p[i] *= x; } else { i += 1; } }
    for _ in 0..r.us(0, 2) { let k = r.us(0, p.len()); p.insert(k, 1); }
    if r.chance(4) { p.push(2); }
    p
}
fn ev_reshape(r: &mut Rng) -> J {
    let sh = rand_shape(r, 5, 6, 150, 4);
    let a = good(r, &sh, true);
    let to = refactor(r, &sh);
    let o = *r.pick(&ORD);
    let l = mk::<IxD>(&a);
    let res = run(|| layout_reshapeable(&l, &to, o)).map(|v| match v { Some(l) => jo! { k: "ok", y: J::A(vec![jl(&l)]) }, None => jo! { k: "ok", y: J::A(vec![]) } });
    jo! { e: "reshape", ord: oname(o), x: jr(&a), to: &to, r: enc(res) }
}
fn ev_eq(r: &mut Rng) -> J {
    let a = arb(r, 4);
    let mut b = a.clone();
    if !b.sh.is_empty() && r.chance(60) { let k = r.us(0, b.sh.len() - 1); b.st[k] += r.int(-1, 1) as isize; }
    if !b.sh.is_empty() && r.chance(15) { let k = r.us(0, b.sh.len() - 1); b.sh[k] = r.us(0, 3); }
    if r.chance(15) { b.of += 1; }
    if r.chance(10) { b.sh.push(1); b.st.push(1); }
    let (la, lb) = (mk::<IxD>(&a), mk::<IxD>(&b));
    jo! { e: "eq", a: jr(&a), b: jr(&b), r: enc(run_p(|| la == lb).map(|v| jo! { k: "ok", v: v })) }
}
fn parse(line: &str) -> Raw {
    let p: Vec<&str> = line.split(',').collect();
    Raw { sh: p[0].split_whitespace().map(|x| x.parse().unwrap()).collect(), st: p[1].split_whitespace().map(|x| x.parse().unwrap()).collect(), of: p[2].trim().parse().unwrap() }
}

fn main() {
    let a = args();
    let mut out = Out::create(&a.out);
    let mut r = Rng::new(a.seed ^ 0x1a70);
    if let Some(f) = &a.input {
        for line in std::fs::read_to_string(f).unwrap().lines().filter(|l| !l.trim().is_empty()) {
            let x = parse(line);
            let mut ev = vec![ev_new(&mut r, &x)];
            if r.chance(40) { ev.push(ev_tensor(&mut r, &x)); }
            out.session(ev);
        }
        return out.finish();
    }
    let n = if a.thorough { 30_000 } else { 3_500 };
    for i in 0..n {
        let mut ev = vec![];
        let mut x = arb(&mut r, 5);
        if r.chance(3) { if r.chance(50) { x.st.push(1); } else { x.sh.push(2); } ev.push(ev_new(&mut r, &x)); out.session(ev); continue }
        ev.push(ev_new(&mut r, &x));
        ev.push(ev_tensor(&mut r, &x));
        if ev[0].str().contains("\"cc\"") { ev.push(ev_index(&mut r, &x)); }
        ev.push(ev_trans(&mut r, i % 4 == 0));
        ev.push(ev_trans(&mut r, i % 4 == 1));
        match i % 3 { 0 => { ev.push(ev_unravel(&mut r)); ev.push(ev_eq(&mut r)); }, 1 => { ev.push(ev_contig(&mut r)); ev.push(ev_copy(&mut r)); }, _ => { ev.push(ev_binop(&mut r)); ev.push(ev_reshape(&mut r)); } }
        out.session(ev);
    }
    out.finish();
}
