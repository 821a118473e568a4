//! Driver for the tensor-machine properties: sessions of views, copies, reads and writes over a few
//! shared buffers.  `machine OUT SEED TIER PROFILE [CHAINS]`
use vh::viewop::*;
use vh::*;

struct Ent {
    b: usize,
    lay: Layout<IxD>,
}
struct Sess<T: El, B: DeviceAPI<T, Raw = Vec<T>>> {
    d: B,
    o: FlagOrder,
    bufs: Vec<Box<Vec<T>>>,
    env: Vec<Ent>,
    ev: Vec<J>,
}
fn lay_j(l: &Layout<IxD>) -> (J, J, J) {
    let sh: Vec<usize> = l.shape().clone();
    let st: Vec<isize> = l.stride().clone();
    (
        J::A(sh.iter().map(|&x| J::I(cl(x as i128))).collect()),
        J::A(st.iter().map(|&x| J::I(cl(x as i128))).collect()),
        J::I(cl(l.offset() as i128)),
    )
}
impl<T: El, B: DeviceAPI<T, Raw = Vec<T>>> Sess<T, B> {
    fn new(d: B, o: FlagOrder) -> Self {
        Sess { d, o, bufs: vec![], env: vec![], ev: vec![] }
    }
    /// a fresh buffer holding its own cell numbers (+base), with one tensor over it
    fn alloc(&mut self, lay: &Lay, base: i64) {
        let buf: Vec<T> = (0..lay.len).map(|i| T::fi(base + i as i64)).collect();
        self.bufs.push(Box::new(buf));
        let b = self.bufs.len();
        self.env.push(Ent { b: b - 1, lay: lay.layout() });
        let data = jv(&self.bufs[b - 1]);
        self.ev.push(jo! { e: "new", t: self.env.len(), b: b, data: data, sh: &lay.sh, st: &lay.st, of: lay.of });
    }
    fn shape(&self, i: usize) -> Vec<usize> {
        self.env[i].lay.shape().clone()
    }
    /// returns false when the request was refused
    fn view(&mut self, src: usize, op: &VOp, how: usize, fixed: bool) -> bool {
        let (b, lay) = (self.env[src].b, self.env[src].lay.clone());
        let r = exec(op, &mut self.bufs[b], &lay, &self.d, how, fixed);
        let inf = is_infallible(op, how);
        let mut e = jo! { e: "view", op: op.name(), a: op.args(), o: oname(self.o), src: src + 1, how: how, inf: inf };
        let ok = matches!(r, Res::Ok(_));
        match r {
            Res::Ok((l, p)) => {
                let same = p == self.bufs[b].as_ptr() as usize;
                let (sh, st, of) = lay_j(&l);
                self.env.push(Ent { b, lay: l });
                e = e.with("t", self.env.len()).with("r", jo! { k: "ok", b: if same { b + 1 } else { 0 }, sh: sh, st: st, of: of });
            },
            ref x => e = e.with("t", 0).with("r", jo! { k: x.kind(), msg: x.msg() }),
        }
        self.ev.push(e);
        ok
    }
    /// read every element through element access
    fn read(&mut self, i: usize, how: usize) {
        let (b, lay) = (self.env[i].b, self.env[i].lay.clone());
        let sh = lay.shape().clone();
        let n = prod(&sh);
        if n > 200 {
            return;
        }
        let buf: &mut Vec<T> = &mut self.bufs[b];
        let d = &self.d;
        let r: Res<Vec<T>> = match how {
            0 => run_p(|| {
                let t = view_of(&*buf, lay.clone(), d);
                (0..n).map(|p| t[unravel(p, &sh)]).collect()
            }),
            1 => run_p(|| {
                let t = mut_of(buf, lay.clone(), d);
                (0..n).map(|p| t[unravel(p, &sh).as_slice()]).collect()
            }),
            2 => run_p(|| {
                let t = view_of(&*buf, lay.clone(), d);
                (0..n).map(|p| unsafe { *t.index_uncheck(unravel(p, &sh)) }).collect()
            }),
            _ => run_p(|| {
                let mut t = mut_of(buf, lay.clone(), d);
                (0..n).map(|p| t.index_mut_uncheck_safe(unravel(p, &sh))).collect()
            }),
        };
        let rj = match &r {
            Res::Ok(v) => jo! { k: "ok", v: jv(v) },
            x => jo! { k: x.kind(), msg: x.msg() },
        };
        self.ev.push(jo! { e: "read", t: i + 1, how: how, r: rj });
    }
    /// access one element out of range: must panic
    fn read_bad(&mut self, i: usize, idx: Vec<usize>) {
        let (b, lay) = (self.env[i].b, self.env[i].lay.clone());
        let buf: &Vec<T> = &self.bufs[b];
        let d = &self.d;
        let r = run_p(|| view_of(buf, lay.clone(), d)[idx.clone()]);
        self.ev.push(jo! { e: "elem", t: i + 1, idx: &idx, k: r.kind(), v: match r { Res::Ok(x) => x.ti(), _ => 0 } });
    }
}
trait MutUnc<T> {
    fn index_mut_uncheck_safe(&mut self, i: Vec<usize>) -> T;
}
impl<'a, T: El, B: DeviceAPI<T, Raw = Vec<T>>> MutUnc<T> for rstsr_core::TensorViewMut<'a, T, B, IxD> {
    fn index_mut_uncheck_safe(&mut self, i: Vec<usize>) -> T {
        unsafe { *self.index_mut_uncheck(i) }
    }
}

fn hows(r: &mut Rng) -> usize {
    match r.int(0, 9) {
        0..=5 => r.us(0, 5),
        6 => 10 + r.us(0, 1),
        7 | 8 => 20 + r.us(0, 1),
        _ => 30 + r.us(0, 3),
    }
}

fn views_session<T: El, B: DeviceAPI<T, Raw = Vec<T>>>(r: &mut Rng, d: B, o: FlagOrder, prof: &str, out: &mut Out) {
    let mut s = Sess::<T, B>::new(d, o);
    let nd = if r.chance(20) { 6 } else { 4 };
    let sh = rand_shape(r, nd, 5, 60, 5);
    let lay = Lay::random(r, &sh, true);
    s.alloc(&lay, 1);
    let steps = r.us(3, 9);
    for _ in 0..steps {
        // mostly continue the chain, sometimes branch
        let src = if r.chance(75) { s.env.len() - 1 } else { r.us(0, s.env.len() - 1) };
        let sh = s.shape(src);
        if sh.iter().any(|&d| d > 1000) {
            break;
        }
        let slicing = match prof {
            "P01" => 75,
            _ => 20,
        };
        let op = if r.chance(slicing) {
            VOp::rand_slice(r, &sh)
        } else if r.chance(6) {
            if r.chance(50) { VOp::Dyn } else { VOp::ToDim(if r.chance(70) && sh.len() <= 6 { sh.len() } else { r.us(0, 6) }) }
        } else if r.chance(12) {
            VOp::rand_broadcast(r, &sh, o, 200)
        } else {
            VOp::rand_axis_op(r, &sh)
        };
        let how = hows(r);
        let fixed = r.chance(50);
        s.view(src, &op, how, fixed);
        if r.chance(40) {
            let i = s.env.len() - 1;
            let h = r.us(0, 3);
            s.read(i, h);
        }
        if prof == "P01" && r.chance(25) {
            let i = s.env.len() - 1;
            let sh = s.shape(i);
            let mut idx: Vec<usize> = sh.iter().map(|&d| r.us(0, d)).collect();
            if r.chance(10) {
                idx.push(0);
            }
            s.read_bad(i, idx);
        }
    }
    out.session(s.ev);
}

macro_rules! inst {
    ($m:ident, $t:ty, $b:ty, $($x:item)*) => {
        mod $m {
            use super::*;
            type T = $t;
            type B = $b;
            $($x)*
            include!("../body/mat.rs");
        }
    };
}
inst!(si, i32, Ser,
    fn map_plain<R: vh::dev::DataMutAPI<Data = Vec<T>>>(t: &mut TensorAny<R, T, B, IxD>) { t.mapi_fnmut(|x| *x = *x * 2 + 1) }
    fn map_val<R: vh::dev::DataMutAPI<Data = Vec<T>>>(t: &mut TensorAny<R, T, B, IxD>) -> vh::dev::Result<()> { t.mapvi_fnmut_f(|x| x * 2 + 1) }
);
inst!(ff, f64, Fae,
    fn map_plain<R: vh::dev::DataMutAPI<Data = Vec<T>>>(t: &mut TensorAny<R, T, B, IxD>) { t.mapi(|x| *x = *x * 2. + 1.) }
    fn map_val<R: vh::dev::DataMutAPI<Data = Vec<T>>>(t: &mut TensorAny<R, T, B, IxD>) -> vh::dev::Result<()> { t.mapvi_f(|x| x * 2. + 1.) }
);

fn main() {
    let a = args();
    let prof = a.input.clone().unwrap_or("P01".into());
    let chains = std::env::args().nth(5);
    let mut out = Out::create(&a.out);
    let mut r = Rng::new(a.seed);
    // behaviours generated from the specification
    if let Some(f) = chains {
        for (i, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            if line.starts_with("n ") {
                let o = ORD[i % 2];
                if r.chance(50) { si::replay(&mut r, ser(o), o, line, &mut out) } else { ff::replay(&mut r, fae(2, o), o, line, &mut out) }
                continue;
            }
            // "2,3|slice i:0;flip 0"
            let (sh, ops) = line.split_once('|').unwrap();
            let sh: Vec<usize> = sh.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            let o = FlagOrder::C;
            let mut s = Sess::<i32, Ser>::new(ser(o), o);
            let lay = if r.chance(50) { Lay::contig(&sh, FlagOrder::C) } else { Lay::random(&mut r, &sh, false) };
            s.alloc(&lay, 1);
            for t in ops.split(';') {
                let src = s.env.len() - 1;
                let how = hows(&mut r);
                let fixed = r.chance(30);
                if !s.view(src, &VOp::parse(t), how, fixed) {
                    break;
                }
            }
            out.session(s.ev);
        }
    }
    let n = if a.thorough { 40000 } else { 4000 };
    for k in 0..n {
        let o = ORD[k % 2];
        let q = k / 2;
        match (prof.as_str(), q % 2) {
            ("P03", 0) => si::p03_session(&mut r, ser(o), o, &mut out),
            ("P03", _) => ff::p03_session(&mut r, fae(2, o), o, &mut out),
            ("P06", 0) => si::p06_session(&mut r, ser(o), o, &mut out),
            ("P06", _) => ff::p06_session(&mut r, fae(2, o), o, &mut out),
            _ => {},
        }
        if prof == "P03" || prof == "P06" {
            continue;
        }
        match k % 3 {
            0 => views_session::<f64, Fae>(&mut r, fae(2, o), o, &prof, &mut out),
            1 => views_session::<i32, Ser>(&mut r, ser(o), o, &prof, &mut out),
            _ => views_session::<f64, Ser>(&mut r, ser(o), o, &prof, &mut out),
        }
    }
    out.finish();
}
