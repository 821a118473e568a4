// Moves of tensors from device type A to device type B.
use vh::dev::DataCloneAPI;
fn add<R: DataCloneAPI<Data = Vec<i32>>>(t: &TensorAny<R, i32, B, IxD>, other: &[i32], d: &B) -> J {
    let b = owned_of(other.to_vec(), t.shape().to_vec().c(), d);
    match run(|| add_f(t, &b)) { Res::Ok(x) => obs(&x).ok_j(), x => jo! { k: x.kind(), msg: x.msg() } }
}
/// what a moved tensor looks like and whether it works with another tensor of the target device
fn look<R: DataCloneAPI<Data = Vec<i32>>>(x: &Res<TensorAny<R, i32, B, IxD>>, other: &[i32], d: &B) -> (J, J, J, bool) {
    match x {
        Res::Ok(t) => (obs(t).ok_j(), add(t, other, d), dj(t.device()), t.device().same_device(d)),
        _ => (jo! { k: x.kind(), msg: x.msg() }, jo! { k: "none" }, jo! { k: "none" }, false),
    }
}
/// a write through the result, the result afterwards
macro_rules! put { ($t:expr, $w:expr) => {{
    let mut t = $t; let sh = t.shape().to_vec();
    if prod(&sh) > 0 { let i = unravel($w % prod(&sh), &sh); t[i.as_slice()] = 777; }
    obs(&t).ok_j()
}} }
pub fn ev(r: &mut Rng) -> J {
    let (da, db) = (<A as Dv>::mk(r), <B as Dv>::mk(r));
    let sh = rand_shape(r, 4, 3, 24, 5);
    let op = *r.pick(&["to", "into", "change"]);
    let form = *r.pick(&["owned", "view", "mut", "arc", "cow", "cowv"]);
    let form = if form == "mut" && op != "to" { "view" } else { form };
    let lay = Lay::random(r, &sh, true);
    let write = r.chance(50) && !lay.st.iter().any(|&s| s == 0);
    let mut a = Ti::<i32>::new(lay, |p| 100 + p as i64);
    let other: Vec<i32> = (0..prod(&sh)).map(|p| 1000 * (p as i32 % 7)).collect();
    let w = r.us(0, 23);
    let inf = r.chance(40);
    let ja = a.jb();
    let mut wj: Option<J> = None;
    macro_rules! go { ($t:expr, $m:ident, $mf:ident) => {{
        let t = $t;
        let x = if inf { run_p(|| t.$m(&db)) } else { run(|| t.$mf(&db)) };
        let l = look(&x, &other, &db);
        (l, x)
    }} }
    macro_rules! own { ($x:expr) => { if write { if let Res::Ok(t) = $x { wj = Some(put!(t, w)); } } } }
    let (c, u, rd, same) = match op {
        "to" => match form {
            "owned" | "arc" | "cow" => {
                let t = a.owned(&da);
                macro_rules! to { ($t:expr) => {{ let t = $t; let before = t.raw().clone(); let l = { let x = if inf { run_p(|| t.to_device(&db)) } else { run(|| t.to_device_f(&db)) }; look(&x, &other, &db) };
                    if *t.raw() != before { a.buf = t.raw().clone(); a.buf.push(-1); } l }} }
                match form { "owned" => to!(t), "arc" => to!(t.into_shared()), _ => to!(t.into_cow()) }
            },
            "mut" => { let t = a.view_mut(&da); let x = if inf { run_p(|| t.to_device(&db)) } else { run(|| t.to_device_f(&db)) }; look(&x, &other, &db) },
            _ => { let t = a.view(&da); let x = if inf { run_p(|| t.to_device(&db)) } else { run(|| t.to_device_f(&db)) }; look(&x, &other, &db) },
        },
        "into" => match form {
            "owned" => { let (l, x) = go!(a.owned(&da), into_device, into_device_f); own!(x); l },
            "arc" => { let (l, x) = go!(a.owned(&da).into_shared(), into_device, into_device_f); own!(x); l },
            "cow" => { let (l, x) = go!(a.owned(&da).into_cow(), into_device, into_device_f); own!(x); l },
            "cowv" => { let (l, x) = go!(a.view(&da).into_cow(), into_device, into_device_f); own!(x); l },
            _ => { let (l, x) = go!(a.view(&da), into_device, into_device_f); own!(x); l },
        },
        _ => match form {
            "owned" => { let (l, x) = go!(a.owned(&da), change_device, change_device_f); own!(x); l },
            "arc" => { let (l, x) = go!(a.owned(&da).into_shared(), change_device, change_device_f); own!(x.map(|t| t.into_owned())); l },
            "cow" => { let (l, x) = go!(a.owned(&da).into_cow(), change_device, change_device_f); own!(x.map(|t| t.into_owned())); l },
            "cowv" => { let (l, x) = go!(a.view(&da).into_cow(), change_device, change_device_f); own!(x.map(|t| t.into_owned())); l },
            _ => { let (l, x) = go!(a.view(&da), change_device, change_device_f); own!(x.map(|t| t.into_owned())); l },
        },
    };
    jo! { e: "move", op: op, form: form, from: dj(&da), to: dj(&db), a: ja, inf: inf, c: c, u: u, rd: rd, same: same, other: other, wr: w, w: wj, after: jv(&a.buf) }
}
