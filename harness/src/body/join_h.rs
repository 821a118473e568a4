// Joins and selections of elements that own memory; `live` holds one handle of every element.
type T = std::sync::Arc<i64>;
fn enc(x: T) -> i64 { *x }
pub struct Heap { pub ti: Ti<i32>, pub live: Vec<T> }
impl Heap {
    pub fn new(ti: Ti<i32>) -> Heap { Heap { live: ti.buf.iter().map(|&x| T::new(x as i64)).collect(), ti } }
    fn view<'a>(&'a self, d: &B) -> TensorView<'a, T, B, IxD> { view_of(&self.live, self.ti.lay.layout(), d) }
    /// handles of elements that are still alive apart from our own
    pub fn leak(&self) -> i64 { self.live.iter().map(|x| T::strong_count(x) as i64 - 1).max().unwrap_or(0) }
}
pub fn heap(op: &str, hs: &[Heap], ax: isize, idx: &[isize], d: &B) -> J {
    for k in [1, 2, 4, 8, 12, 24] { poison::<i64>(k); }
    let v = || hs.iter().map(|h| h.view(d)).collect::<Vec<_>>();
    enc_res(match op {
        "concat" => run(|| rt::concat_f((v(), ax))).map(|t| obs_any(&t, enc)),
        "stack" => run(|| rt::stack_f((v(), ax))).map(|t| obs_any(&t, enc)),
        "diag" => run(|| rt::diag_f((&hs[0].view(d), ax))).map(|t| obs_any(&t, enc)),
        _ => run(|| rt::index_select_f(&hs[0].view(d), ax, idx)).map(|t| obs_any(&t, enc)),
    })
}
