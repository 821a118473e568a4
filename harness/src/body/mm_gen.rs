// Generation of operands of matrix products and vector dots (shared by every device).
/// `fix`: shapes (and the axis of a dot) given by the specification
pub struct Gen { pub o: FlagOrder, pub nt: usize, pub big: bool, pub fix: Option<(Vec<usize>, Vec<usize>, isize)> }
fn small(r: &mut Rng) -> usize { match r.int(0, 15) { 0 => 0, 1 | 2 => 1, _ => r.us(2, 5) } }
fn rev(v: &[usize]) -> Vec<usize> { v.iter().rev().cloned().collect() }
/// batch shapes that usually fit together
fn batches(r: &mut Rng, nd: usize, dmax: usize, zero: u64) -> (Vec<usize>, Vec<usize>) {
    let full: Vec<usize> = (0..nd).map(|_| if r.chance(zero) { 0 } else { r.us(1, dmax) }).collect();
    let mut x = full.clone();
    let mut y = full;
    for k in 0..nd { match r.int(0, 7) { 0 => x[k] = 1, 1 => y[k] = 1, _ => {} } }
    (x, y)
}
/// shapes of a product, row-major convention
pub fn mm_shapes(r: &mut Rng, g: &Gen) -> (Vec<usize>, Vec<usize>) {
    let d = |r: &mut Rng| if g.big { *r.pick(&[1, 2, 3, 5, 8, 17, 40, 63, 64, 65, 70]) } else { small(r) };
    let (m, n, k) = loop { let x = (d(r), d(r), d(r)); if x.0 * x.2 <= 1500 && x.1 * x.2 <= 1500 && x.0 * x.1 * x.2 < 30000 { break x } };
    let (mut ba, mut bb) = if g.big && m * n * k > 200 { batches(r, 1, 2, 0) } else if g.big { let x = r.us(1, 3); { let q = *r.pick(&[2, 4, 40]); batches(r, x, q, 0) } } else { let x = r.us(1, 2); batches(r, x, 3, 4) };
    while ba.iter().chain(bb.iter()).product::<usize>() * m.max(n) * k > 5000 && g.big { ba.pop(); bb.pop(); }
    let (mut sa, mut sb) = match r.int(0, 8) {
        0 => (vec![k], vec![k]),
        1 | 2 => (vec![m, k], vec![k, n]),
        3 => (vec![k], [&bb[..], &[k, n][..]].concat()),
        4 => ([&ba[..], &[m, k][..]].concat(), vec![k]),
        5 => (vec![m, k], [&bb[..], &[k, n][..]].concat()),
        6 => ([&ba[..], &[m, k][..]].concat(), vec![k, n]),
        _ => {
            // batch ranks may differ
            if r.chance(40) && !ba.is_empty() { if r.chance(50) { ba.remove(0); } else { bb.remove(0); } }
            ([&ba[..], &[m, k][..]].concat(), [&bb[..], &[k, n][..]].concat())
        },
    };
    if r.chance(3) { match r.int(0, 3) {
        0 => sa = vec![],
        1 => sb = vec![],
        _ => { let w = if r.chance(50) { &mut sa } else { &mut sb }; let i = r.us(0, w.len() - 1); w[i] += 1; },
    } }
    (sa, sb)
}
fn mm_out(sa: &[usize], sb: &[usize]) -> Option<Vec<usize>> {
    // only a proposal for an output shape; the specification decides what is right
    if sa.is_empty() || sb.is_empty() { return None }
    let (na, nb) = (sa.len(), sb.len());
    let ba = if na > 1 { &sa[..na - 2] } else { &sa[..0] };
    let bb = if nb > 1 { &sb[..nb - 2] } else { &sb[..0] };
    let n = ba.len().max(bb.len());
    let at = |s: &[usize], i: usize| { if i + s.len() >= n { s[i + s.len() - n] } else { 1 } };
    let mut v: Vec<usize> = (0..n).map(|i| if at(ba, i) == 1 { at(bb, i) } else { at(ba, i) }).collect();
    if na > 1 { v.push(sa[na - 2]); }
    if nb > 1 { v.push(sb[nb - 1]); }
    Some(v)
}
fn narrow(r: &mut Rng, l: &mut Lay, ax: usize) {
    let n = l.sh[ax];
    if n < 2 { return }
    let lo = if r.chance(60) { 0 } else { r.us(0, n - 1) };
    let hi = r.us(lo + 1, n);
    l.of = (l.of as isize + lo as isize * l.st[ax] as isize) as _;
    l.sh[ax] = hi - lo;
}
pub fn ti<T: El>(r: &mut Rng, lay: Lay, lo: i64, hi: i64) -> Ti<T> {
    Ti::newc(lay, |_| (r.int(lo, hi), r.int(lo, hi)))
}
/// output placed somewhere in a larger buffer, sometimes full of values that are not numbers
pub fn out_ti<T: El>(r: &mut Rng, sh: &[usize], nan: bool) -> Ti<T> {
    let lay = Lay::random(r, sh, false);
    let mut t: Ti<T> = ti(r, lay, -4, 4);
    if nan { for a in addrs(&t.lay.sh, &t.lay.st, t.lay.of, 1 << 20) { t.buf[a as usize] = T::nan(); } }
    t
}
pub fn vd_case(r: &mut Rng, g: &Gen) -> (Vec<usize>, Vec<usize>, Vec<isize>, Vec<isize>, i64, Vec<usize>) {
    // kind: 0 = None, 1 = one number for both, 2 = a pair of lists
    let lim = if g.big { 9000 } else { 60 };
    loop {
        let nm = r.us(0, if g.big { 2 } else { 3 });
        let kind = r.int(0, 3).min(2);
        let nk = if kind == 2 { r.us(0, 3) } else { 1 };
        let d = |r: &mut Rng| if g.big { *r.pick(&[1, 2, 3, 4, 8, 31, 64, 65, 130, 300]) } else { small(r) };
        let ks: Vec<usize> = (0..nk).map(|_| d(r)).collect();
        let full: Vec<usize> = (0..nm).map(|_| d(r)).collect();
        let mut x = full.clone();
        let mut y = full.clone();
        for k in 0..nm { match r.int(0, 8) { 0 => x[k] = 1, 1 => y[k] = 1, _ => {} } }
        // ranks may differ: drop leading (or trailing) axes of one operand
        let c = g.o == FlagOrder::C;
        if r.chance(30) && nm > 0 { let w = if r.chance(50) { &mut x } else { &mut y }; let n = r.us(1, nm); for _ in 0..n { if c { w.remove(0); } else { w.pop(); } } }
        let (mut sa, mut sb) = (x.clone(), y.clone());
        let (mut aa, mut ab): (Vec<isize>, Vec<isize>) = (vec![], vec![]);
        match kind {
            0 => { sa.push(ks[0]); sb.push(ks[0]); },
            1 => {
                let n = sa.len().min(sb.len());
                if r.chance(50) {
                    let p = r.us(0, n);
                    let (la, lb) = (sa.len(), sb.len());
                    sa.insert(la - p, ks[0]); sb.insert(lb - p, ks[0]);
                    aa = vec![-(p as isize) - 1];
                } else {
                    let p = r.us(0, n);
                    sa.insert(p, ks[0]); sb.insert(p, ks[0]);
                    aa = vec![p as isize];
                }
            },
            _ => {
                // contracted axes at arbitrary places, in an arbitrary order
                let mut put = |r: &mut Rng, s: &mut Vec<usize>| -> Vec<isize> {
                    let n = s.len() + nk;
                    let mut at: Vec<usize> = r.perm(n).into_iter().take(nk).collect();
                    if r.chance(50) { at.sort(); }
                    let mut res = vec![usize::MAX; n];
                    for (j, &p) in at.iter().enumerate() { res[p] = ks[j]; }
                    let mut it = s.clone().into_iter();
                    for v in res.iter_mut() { if *v == usize::MAX { *v = it.next().unwrap(); } }
                    *s = res;
                    at.into_iter().map(|p| if r.chance(40) { p as isize - n as isize } else { p as isize }).collect()
                };
                aa = put(r, &mut sa);
                ab = put(r, &mut sb);
            },
        }
        if r.chance(3) { match r.int(0, 3) {
            0 => { if !aa.is_empty() { aa[0] += *r.pick(&[-9, 9, 1]); } },
            1 => { ab.push(0); },
            _ => { let w = if r.chance(50) { &mut sa } else { &mut sb }; if !w.is_empty() { let i = r.us(0, w.len() - 1); w[i] += 1; } },
        } }
        let outn = prod(&full) * prod(&ks);
        if outn <= lim && prod(&sa) <= lim / 2 + 50 && prod(&sb) <= lim / 2 + 50 && (!g.big || prod(&sa).max(prod(&sb)) >= 300) {
            let pad = x.len().max(y.len());
            let at = |s: &[usize], i: usize| -> usize { if c { if i + s.len() >= pad { s[i + s.len() - pad] } else { 1 } } else { *s.get(i).unwrap_or(&1) } };
            let co: Vec<usize> = (0..pad).map(|i| if at(&x, i) == 1 { at(&y, i) } else { at(&x, i) }).collect();
            return (sa, sb, aa, ab, kind, co);
        }
    }
}
macro_rules! go { ($m:ident, $T:ty, $d:expr, $g:expr, $r:expr, $vd:expr) => {{
    let (g, d): (&Gen, _) = (&$g, $d);
    let r: &mut Rng = $r;
    let into = r.chance(40) && !($vd && g.fix.is_some());
    let ty = <$T as El>::NAME;
    if !$vd {
        let (mut sa, mut sb) = mm_shapes(r, g);
        let mut same = r.chance(if g.big { 25 } else { 12 });
        if let Some(f) = &g.fix { same = false; sa = f.0.clone(); sb = f.1.clone(); }
        if same { if sa.len() > 2 { sa = sa[sa.len() - 2..].to_vec() } sb = rev(&sa); }
                if g.o == FlagOrder::F && g.fix.is_none() { let t = rev(&sa); sa = rev(&sb); sb = t; }
                let mut a: Ti<$T> = { let l = Lay::random(r, &sa, true); ti(r, l, -4, 4) };
        let b: Ti<$T> = if same {
            let mut l = Lay { sh: rev(&a.lay.sh), st: a.lay.st.iter().rev().cloned().collect(), of: a.lay.of, len: a.lay.len };
            // parts of the two: rows of one, columns of the other
            if a.lay.sh.len() == 2 && r.chance(50) {
                if r.chance(60) { narrow(r, &mut a.lay, 0); }
                if r.chance(60) { narrow(r, &mut l, 1); }
            }
            Ti { lay: l, buf: a.buf.clone() }
        } else { let l = Lay::random(r, &sb, true); ti(r, l, -4, 4) };
        let out = if g.o == FlagOrder::F { mm_out(&rev(&b.lay.sh), &rev(&a.lay.sh)).map(|v| rev(&v)) } else { mm_out(&a.lay.sh, &b.lay.sh) };
        if into && out.is_some() {
            let mut cs = out.unwrap();
            if r.chance(8) { match r.int(0, 4) { 4 => if !cs.is_empty() { let i = r.us(0, cs.len() - 1); cs[i] = 1; }, 0 => cs.insert(0, r.us(1, 2)), 1 => { cs.pop(); }, _ => if !cs.is_empty() { let i = r.us(0, cs.len() - 1); cs[i] += 1; } } }
            let how = r.us(0, 7);
            let (al, be) = if how < 4 { (r.int(-2, 2), *r.pick(&[0, 0, 1, 1, -1, 2])) } else { (1, 0) };
            let nan = be == 0 && r.chance(40); let mut c: Ti<$T> = out_ti(r, &cs, nan);
            let cj = c.jb();
            let res = $m::mm_into(how, &a, &b, &mut c, <$T>::fi(al), <$T>::fi(be), same, &d);
            jo! { e: "mminto", ty: ty, nt: g.nt, order: oname(g.o), how: how, same: same, inf: how % 2 == 1, alpha: al, beta: be, a: a.jc(), b: b.jc(), c: cj, r: res }
        } else {
            let how = r.us(0, 9);
            let inf = if same { how % 3 != 0 } else {
                $m::MM_PANICS.contains(&how) && !(how == 9 && { let (x, y) = (a.lay.sh.len(), b.lay.sh.len()); x == 0 || y == 0 || x > 3 || y > 3 || (x, y) == (3, 1) }) };
            let res = $m::mm_new(how, &a, &b, same, &d);
            jo! { e: "mm", ty: ty, nt: g.nt, order: oname(g.o), how: how, same: same, inf: inf, a: a.jc(), b: b.jc(), r: res }
        }
    } else {
        let (sa, sb, aa, ab, kind, co) = match &g.fix { Some(f) => (f.0.clone(), f.1.clone(), vec![f.2], vec![], 1, vec![]), None => vd_case(r, g) };
        let ax = match kind { 0 => AxesPairIndex::None, 1 => AxesPairIndex::Val(aa[0]), _ => AxesPairIndex::Pair(aa.clone().into(), ab.clone().into()) };
        let a: Ti<$T> = { let l = Lay::random(r, &sa, true); ti(r, l, -3, 3) };
        let b: Ti<$T> = { let l = Lay::random(r, &sb, true); ti(r, l, -3, 3) };
        let how = r.us(0, 3);
        if into {
            let mut cs = co;
            if r.chance(8) { match r.int(0, 4) { 4 => if !cs.is_empty() { let i = r.us(0, cs.len() - 1); cs[i] = 1; }, 0 => cs.insert(0, r.us(1, 2)), 1 => { cs.pop(); }, _ => if !cs.is_empty() { let i = r.us(0, cs.len() - 1); cs[i] += 1; } } }
            let nan = r.chance(30);
            let mut c: Ti<$T> = out_ti(r, &cs, nan);
            let cj = c.jb();
            let res = $m::vd_into(how, &a, &b, &mut c, ax, &d);
            jo! { e: "vdinto", ty: ty, nt: g.nt, order: oname(g.o), how: how, inf: how % 2 == 1, kind: kind, axa: aa, axb: ab, a: a.jc(), b: b.jc(), c: cj, r: res }
        } else {
            let res = $m::vd_new(how, &a, &b, ax, &d);
            jo! { e: "vd", ty: ty, nt: g.nt, order: oname(g.o), how: how, inf: how % 2 == 1, kind: kind, axa: aa, axb: ab, a: a.jc(), b: b.jc(), r: res }
        }
    }
}} }
