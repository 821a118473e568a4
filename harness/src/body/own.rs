// One session over handles, for a concrete element type T and device type B.
pub enum H {
    Own(Box<Tensor<T, B, IxD>>),
    Shr(Box<TensorArc<T, B, IxD>>),
    Cow(Box<TensorCow<'static, T, B, IxD>>, usize),
    Plain(Vec<T>),
    Ext(Arc<Vec<T>>, Lay),
}
use H::*;
macro_rules! each { ($h:expr, $t:ident => $e:expr, else $z:expr) => { match $h {
    Own($t) => $e, Shr($t) => $e, Cow($t, _) => $e, _ => $z,
} } }
pub struct Ses {
    d: B,
    h: HashMap<usize, H>,
    next: usize,
    ids: HashMap<usize, usize>, // live buffer pointer -> id
    nextb: usize,
    ev: Vec<J>,
}
impl H {
    fn kind(&self) -> &'static str {
        match self {
            Own(_) => "owned",
            Shr(_) => "arc",
            Cow(t, _) => if t.data().is_owned() { "cowO" } else { "cowR" },
            Plain(_) => "vec",
            Ext(..) => "ext",
        }
    }
    fn raw(&self) -> &Vec<T> {
        match self {
            Own(t) => t.raw(),
            Shr(t) => t.raw(),
            Cow(t, _) => t.raw(),
            Plain(v) => v,
            Ext(v, _) => v,
        }
    }
    fn lay(&self) -> Lay {
        let of = |l: &Layout<IxD>| Lay { sh: l.shape().clone(), st: l.stride().clone(), of: l.offset(), len: 0 };
        match self {
            Own(t) => of(t.layout()),
            Shr(t) => of(t.layout()),
            Cow(t, _) => of(t.layout()),
            Plain(v) => Lay { sh: vec![v.len()], st: vec![1], of: 0, len: 0 },
            Ext(_, l) => l.clone(),
        }
    }
}
/// extend a borrow; the session keeps the lender in a box, unmoved and unwritten, while it lasts
unsafe fn borrow_of(h: &H) -> TensorCow<'static, T, B, IxD> {
    let c: TensorCow<'_, T, B, IxD> = each!(h, t => t.view().into_cow(), else unreachable!());
    std::mem::transmute(c)
}
impl Ses {
    pub fn new(d: B, sh: &[usize], lay: &Lay, ext: bool) -> Ses {
        let mut s = Ses { d, h: HashMap::new(), next: 2, ids: HashMap::new(), nextb: 1, ev: vec![] };
        let buf: Vec<T> = (0..lay.len).map(|i| T::fi(i as i64 + 1)).collect();
        let _ = sh;
        let h = if ext { Ext(Arc::new(buf), lay.clone()) } else { Own(Box::new(owned_of(buf, lay.layout(), &s.d))) };
        s.h.insert(1, h);
        let e = jo! { e: "new", op: "new", h: 1, g: 0, x: 0, t: 1, r: jo!{ k: "ok" } };
        s.snap(e);
        s
    }
    fn snap(&mut self, e: J) {
        let mut keys: Vec<usize> = self.h.keys().cloned().collect();
        keys.sort();
        let mut ids = HashMap::new();
        let mut env = vec![];
        let mut heap = vec![];
        for t in keys {
            let h = &self.h[&t];
            // empty vectors have no storage to share: identify them by their handle
            let p = if h.raw().is_empty() { usize::MAX - t } else { h.raw().as_ptr() as usize };
            let b = match ids.get(&p) {
                Some(b) => *b,
                None => {
                    let b = self.ids.get(&p).cloned().unwrap_or_else(|| { let b = self.nextb; self.nextb += 1; b });
                    ids.insert(p, b);
                    heap.push(jo! { b: b, v: jv(h.raw()) });
                    b
                },
            };
            let l = h.lay();
            let ad: Vec<i64> = addrs(&l.sh, &l.st, l.of, 1000).iter().map(|x| x + 1).collect();
            let cnt = match h { Shr(t) => t.data().strong_count(), _ => 0 };
            let from = match h { Cow(_, f) => *f, _ => 0 };
            env.push(jo! { t: t, k: h.kind(), b: b, sh: &l.sh, ad: ad, cnt: cnt, from: from });
        }
        self.ids = ids;
        self.ev.push(e.with("env", env).with("heap", heap));
    }
    fn frozen(&self, t: usize) -> bool {
        self.h.values().any(|h| matches!(h, Cow(_, f) if *f == t))
    }
    fn tens(&self, t: usize) -> bool {
        self.h.get(&t).map_or(false, |h| matches!(h, Own(_) | Shr(_) | Cow(..)))
    }
    /// is this step possible for these handles (what the borrow checker and the types allow)?
    pub fn can(&self, op: &str, h: usize, g: usize, x: i64) -> bool {
        let Some(a) = self.h.get(&h) else { return false };
        let k = a.kind();
        let free = !self.frozen(h);
        let t = self.tens(h);
        let sh = a.lay().sh;
        let same = |g: usize| g != h && self.tens(g) && self.h[&g].lay().sh == sh;
        match op {
            "own" | "ownk" | "share" | "sharek" | "T" => t && free,
            "row" => t && free && sh.len() >= 1 && sh[0] as i64 > x,
            "cow" => matches!(k, "owned" | "arc" | "cowO") && free,
            "borrow" => matches!(k, "owned" | "arc" | "cowO"),
            "copy" => t,
            "clone" => matches!(k, "cowO" | "cowR"),
            "dup" => k == "ext",
            "neg" => (k == "owned" && free) || (t && x == 1),
            "sub" => t && same(g) && (x & 1 == 0 || (free && k != "arc")) && (x & 2 == 0 || (!self.frozen(g) && self.h[&g].kind() != "arc")),
            "vec" => k == "owned" && free && sh.len() == 1,
            "drop" => free,
            "set" | "fill" | "add" => matches!(k, "owned" | "arc") && free && prod(&sh) > 0,
            "assign" | "addt" => matches!(k, "owned" | "arc") && free && same(g),
            _ => false,
        }
    }
    /// perform the step and record it; false ends the session
    pub fn step(&mut self, op: &str, h: usize, g: usize, x: i64, how: u64) -> bool {
        let write = matches!(op, "set" | "fill" | "add" | "assign" | "addt");
        let e = jo! { e: if write { "write" } else { "step" }, op: op, h: h, g: g, x: x, how: how };
        if write {
            let mut a = self.h.remove(&h).unwrap();
            let gg = self.h.get(&g);
            let r = write_to(op, &mut a, gg, x, how, &self.d);
            self.h.insert(h, a);
            let ok = matches!(r, Res::Ok(_));
            self.snap(e.with("t", h).with("r", jo! { k: r.kind(), msg: r.msg() }));
            return ok;
        }
        let consumed = match op {
            "borrow" | "copy" | "clone" | "dup" => false,
            "neg" => x == 0,
            "sub" => x & 1 == 1,
            _ => true,
        };
        let t = if op == "drop" { 0 } else { self.next };
        let r = if op == "sub" {
            let a = if x & 1 == 1 { self.h.remove(&h) } else { None };
            let b = if x & 2 == 2 { self.h.remove(&g) } else { None };
            let (ra, rb) = (self.h.get(&h), self.h.get(&g));
            run_p(|| Some(Own(Box::new(sub(a, ra, b, rb)))))
        } else if consumed {
            let a = self.h.remove(&h).unwrap();
            run_p(|| consume(op, a, x, how))
        } else {
            let a = &self.h[&h];
            let d = &self.d;
            run_p(|| Some(refer(op, a, h, how, d)))
        };
        let (k, m) = (r.kind(), r.msg());
        let ok = match r {
            Res::Ok(Some(v)) => { self.h.insert(t, v); self.next += 1; true },
            Res::Ok(None) => true,
            _ => false,
        };
        self.snap(e.with("t", t).with("r", jo! { k: k, msg: m }));
        ok
    }
}
fn consume(op: &str, a: H, x: i64, how: u64) -> Option<H> {
    Some(match op {
        "own" => Own(Box::new(each!(a, t => if how % 2 == 0 { t.into_owned() } else { dev::TensorIntoOwnedAPI::into_owned(*t) }, else unreachable!()))),
        "ownk" => Own(Box::new(each!(a, t => t.into_owned_keep_layout(), else unreachable!()))),
        "share" => Shr(Box::new(each!(a, t => t.into_shared(), else unreachable!()))),
        "sharek" => Shr(Box::new(each!(a, t => t.into_shared_keep_layout(), else unreachable!()))),
        "cow" => match a {
            Own(t) => Cow(Box::new(t.into_cow()), 0),
            Shr(t) => Cow(Box::new(t.into_cow()), 0),
            Cow(t, f) => Cow(Box::new(t.into_cow()), f),
            _ => unreachable!(),
        },
        "row" => { let x = x as isize; match a {
            Own(t) => Own(Box::new(t.into_slice(x))),
            Shr(t) => Shr(Box::new(t.into_slice(x))),
            Cow(t, f) => Cow(Box::new(t.into_slice(x)), f),
            _ => unreachable!(),
        } },
        "T" => match a {
            Own(t) => Own(Box::new(t.into_reverse_axes())),
            Shr(t) => Shr(Box::new(t.into_reverse_axes())),
            Cow(t, f) => Cow(Box::new(t.into_reverse_axes()), f),
            _ => unreachable!(),
        },
        "neg" => match a { Own(t) => Own(Box::new(-*t)), _ => unreachable!() },
        "vec" => match a {
            Own(t) => Plain(match how % 4 {
                0 => t.into_vec(),
                1 => t.into_vec_f().unwrap(),
                2 => t.into_raw(),
                _ => (*t).into_dim::<Ix1>().into_vec(),
            }),
            _ => unreachable!(),
        },
        "drop" => { drop(a); return None },
        _ => unreachable!(),
    })
}
fn refer(op: &str, a: &H, h: usize, how: u64, d: &B) -> H {
    match op {
        "borrow" => Cow(Box::new(unsafe { borrow_of(a) }), h),
        "copy" => match (a, how % 3) {
            (Own(t), 1) => Own(Box::new((**t).clone())),
            (_, 2) => Own(Box::new(each!(a, t => rt::asarray((&**t, dev::TensorIterOrder::C)), else unreachable!()))),
            _ => Own(Box::new(each!(a, t => (**t).to_owned(), else unreachable!()))),
        },
        "clone" => match a { Cow(t, _) => Cow(Box::new((**t).clone()), 0), _ => unreachable!() },
        "neg" => Own(Box::new(each!(a, t => -&**t, else unreachable!()))),
        "dup" => match a {
            Ext(p, l) => {
                let st = Storage::new(DataArc::from(p.clone()), d.clone());
                Shr(Box::new(TensorArc::new(st, l.layout())))
            },
            _ => unreachable!(),
        },
        _ => unreachable!(),
    }
}
fn sub(a: Option<H>, ra: Option<&H>, b: Option<H>, rb: Option<&H>) -> Tensor<T, B, IxD> {
    match (a, b) {
        (None, None) => each!(ra.unwrap(), s => each!(rb.unwrap(), t => &**s - &**t, else unreachable!()), else unreachable!()),
        (Some(Own(s)), None) => each!(rb.unwrap(), t => *s - &**t, else unreachable!()),
        (Some(Cow(s, _)), None) => each!(rb.unwrap(), t => *s - &**t, else unreachable!()),
        (None, Some(Own(t))) => each!(ra.unwrap(), s => &**s - *t, else unreachable!()),
        (None, Some(Cow(t, _))) => each!(ra.unwrap(), s => &**s - *t, else unreachable!()),
        (Some(Own(s)), Some(Own(t))) => *s - *t,
        (Some(Own(s)), Some(Cow(t, _))) => *s - *t,
        (Some(Cow(s, _)), Some(Own(t))) => *s - *t,
        (Some(Cow(s, _)), Some(Cow(t, _))) => *s - *t,
        _ => unreachable!(),
    }
}
macro_rules! wr { ($t:expr, $g:expr, $op:expr, $x:expr, $how:expr, $n:expr) => {{
    let t = $t; let v = T::fi($x);
    let zero = vec![0usize; $n];
    match ($op, $how % 3) {
        ("set", 0) => run_p(|| unsafe { t.view_mut().index_mut_uncheck(&zero).clone_from(&v) }),
        ("set", 1) => run_p(|| { let mut m = t.view_mut(); m[zero.as_slice()] = v; }),
        ("set", _) => run_p(|| { let mut m = t.view_mut(); let mut it = m.iter_mut_with_order(dev::TensorIterOrder::C); if let Some(p) = it.next() { *p = v } }),
        ("fill", 0) => run(|| t.fill_f(v)),
        ("fill", 1) => run_p(|| t.view_mut().fill(v)),
        ("fill", _) => run_p(|| t.iter_mut().for_each(|p| *p = v)),
        ("add", 0) => run(|| rt::add_assign_f(&mut *t, v)),
        ("add", 1) => run_p(|| { let mut m = t.view_mut(); m += v; }),
        ("add", _) => run_p(|| t.mapvi(|p| p + v)),
        ("assign", 0) => run(|| each!($g.unwrap(), s => t.assign_f(&**s), else unreachable!())),
        ("assign", _) => run_p(|| each!($g.unwrap(), s => t.view_mut().assign(&**s), else unreachable!())),
        ("addt", 0) => run(|| each!($g.unwrap(), s => rt::add_assign_f(&mut *t, &**s), else unreachable!())),
        (_, _) => run_p(|| each!($g.unwrap(), s => { let mut m = t.view_mut(); m += &**s; }, else unreachable!())),
    }
}} }
fn write_to(op: &str, a: &mut H, g: Option<&H>, x: i64, how: u64, _d: &B) -> Res<()> {
    let n = a.lay().sh.len();
    match a {
        Own(t) => wr!(&mut **t, g, op, x, how, n),
        Shr(t) => wr!(&mut **t, g, op, x, how, n),
        _ => unreachable!(),
    }
}
fn start(d: B, init: &str) -> Ses {
    let sh = [2usize, 2];
    let l = match init {
        "F" => Lay::contig(&sh, FlagOrder::F),
        "gap" => Lay { sh: sh.to_vec(), st: vec![4, 2], of: 1, len: 9 },
        _ => Lay::contig(&sh, FlagOrder::C),
    };
    Ses::new(d, &sh, &l, init == "ext")
}
pub fn replay(d: B, steps: &[&str], r: &mut Rng) -> Vec<J> {
    let mut s = start(d, steps[0]);
    for st in &steps[1..] {
        let p: Vec<&str> = st.split(',').collect();
        let (h, g, x): (usize, usize, i64) = (p[1].parse().unwrap(), p[2].parse().unwrap(), p[3].parse().unwrap());
        if !s.can(p[0], h, g, x) {
            // the specification offers only what the types allow
            s.snap(jo! { e: "step", op: p[0], h: h, g: g, x: x, t: 0, r: jo!{ k: "impossible" } });
            break;
        }
        if !s.step(p[0], h, g, x, r.next() >> 8) {
            break;
        }
    }
    s.finish()
}
pub fn random(d: B, r: &mut Rng) -> Vec<J> {
    let sh = rand_shape(r, 3, 3, 12, 8);
    let ext = r.chance(40);
    let l = if ext { Lay::contig(&sh, if r.chance(50) { FlagOrder::C } else { FlagOrder::F }) } else { Lay::random(r, &sh, false) };
    let mut s = Ses::new(d, &sh, &l, ext && l.len > 0);
    let ops = ["own", "ownk", "share", "sharek", "cow", "borrow", "copy", "clone", "dup", "dup", "row", "T", "neg", "sub", "sub", "vec", "drop", "set", "fill", "add", "assign", "addt"];
    for _ in 0..14 {
        let live: Vec<usize> = { let mut k: Vec<usize> = s.h.keys().cloned().collect(); k.sort(); k };
        if live.is_empty() { break; }
        for _ in 0..30 {
            let op = *r.pick(&ops);
            if live.len() >= 6 && matches!(op, "borrow" | "copy" | "clone" | "dup") { continue; }
            let (h, g) = (*r.pick(&live), *r.pick(&live));
            let x = match op { "sub" => r.int(0, 3), "neg" => r.int(0, 1), "row" => r.int(0, 2), "set" | "fill" | "add" => r.int(-20, 20), _ => 0 };
            if !s.can(op, h, g, x) { continue; }
            if s.h[&h].raw().is_empty() && op != "drop" { continue; }
            if !s.step(op, h, g, x, r.next() >> 8) { return s.finish(); }
            break;
        }
    }
    s.finish()
}
impl Ses {
    fn finish(mut self) -> Vec<J> {
        // borrows end before their lenders
        let cows: Vec<usize> = self.h.iter().filter(|(_, h)| matches!(h, Cow(_, f) if *f > 0)).map(|(k, _)| *k).collect();
        for c in cows { self.h.remove(&c); }
        self.ev
    }
}
