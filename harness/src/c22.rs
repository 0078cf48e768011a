//! C22: the exported combinator macros, run with expressions that record their evaluation.
use crate::ctx::*;
use crate::model::*;
use dist_saver::{concat_slices, impl_deref, impl_into_iter, impl_iter, join};
use std::sync::Mutex;

/// What was evaluated, in the order of completion
#[derive(Default)]
struct Log(Mutex<Vec<usize>>);
impl Log {
    /// An expression with a trace: its number, some work, its value
    fn ev<T>(&self, i: usize, work: u64, v: T) -> T {
        let mut x = work;
        for _ in 0..work * 50 { x = std::hint::black_box(x.wrapping_mul(6364136223846793005).wrapping_add(1)); }
        if work % 7 == 3 { std::thread::yield_now(); }
        self.0.lock().unwrap().push(i);
        v
    }
    fn once(&self, what: &str, n: usize) -> R {
        let mut v = self.0.lock().unwrap().clone();
        v.sort();
        ensure!(v == (0..n).collect::<Vec<_>>(), "{what}: evaluated {v:?}, expected each of {n} expressions once");
        Ok(())
    }
}
struct Wrapped<T: Clone>(Vec<T>);
impl_deref! { Wrapped<T: Clone>(Vec<T>) }
struct Plain(G1Affine);
impl_deref! { Plain(G1Affine) }

fn evens(n: u64) -> impl_iter!(<Item = u64>) {
    #[cfg(feature = "parallel")]
    { use rayon::prelude::*; (0..n).into_par_iter().map(|x| 2 * x) }
    #[cfg(not(feature = "parallel"))]
    { (0..n).map(|x| 2 * x) }
}
fn total(it: impl_into_iter!(<Item = u64>)) -> u64 {
    #[cfg(feature = "parallel")]
    { use rayon::prelude::*; it.into_par_iter().sum() }
    #[cfg(not(feature = "parallel"))]
    { it.into_iter().sum() }
}

/// Runs `f` in a pool of so many threads where the crate uses one
fn in_pool<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    #[cfg(feature = "pool")]
    { rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("pool").install(f) }
    #[cfg(not(feature = "pool"))]
    { let _ = n; f() }
}

fn joins(c: &mut Case) -> R {
    let threads = [1usize, 2, 3, 8][c.idx as usize % 4];
    let w: Vec<u64> = (0..6).map(|_| match c.rng.gen_range(0..4) { 0 => 0, 1 => c.rng.gen_range(0..2000), _ => c.rng.gen_range(0..60) }).collect();
    let x: Vec<u64> = (0..6).map(|_| c.rng.next_u64()).collect();
    let p = G1Affine::rand(&mut c.rng);
    let m = c.rng.gen_range(1usize..=6);
    let what = format!("join! of {m} expressions, {threads} threads");
    let l = Log::default();
    in_pool(threads, || -> R {
        match m {
            1 => ensure!(join!(l.ev(0, w[0], x[0])) == x[0], "{what}: another value"),
            2 => { let (a, b) = join!(l.ev(0, w[0], x[0]), l.ev(1, w[1], x[1])); ensure!([a, b] == x[..2], "{what}: values out of order"); }
            3 => { let (a, b, d) = join!(l.ev(0, w[0], x[0]), l.ev(1, w[1], x[1]), l.ev(2, w[2], x[2])); ensure!([a, b, d] == x[..3], "{what}: values out of order"); }
            4 => { let (a, b, d, e) = join!(l.ev(0, w[0], x[0]), l.ev(1, w[1], x[1]), l.ev(2, w[2], x[2]), l.ev(3, w[3], x[3])); ensure!([a, b, d, e] == x[..4], "{what}: values out of order"); }
            5 => { let (a, b, d, e, f) = join!(l.ev(0, w[0], x[0]), l.ev(1, w[1], x[1]), l.ev(2, w[2], x[2]), l.ev(3, w[3], x[3]), l.ev(4, w[4], x[4])); ensure!([a, b, d, e, f] == x[..5], "{what}: values out of order"); }
            // values of different types, one of them a join of its own
            _ => {
                let inner = Log::default();
                let (a, b, d, e, f, g) = join!(l.ev(0, w[0], x[0]), l.ev(1, w[1], x[1].to_string()), l.ev(2, w[2], vec![x[2]; 3]), l.ev(3, w[3], mul1(p, &small(x[3])).into_affine()),
                    l.ev(4, w[4], join!(inner.ev(0, w[1], x[0]), inner.ev(1, w[0], x[1]))), l.ev(5, w[5], Some(x[5])));
                ensure!(a == x[0] && b == x[1].to_string() && d == vec![x[2]; 3] && e == mul1(p, &small(x[3])).into_affine() && f == (x[0], x[1]) && g == Some(x[5]), "{what}: values out of order");
                inner.once(&what, 2)?;
            }
        }
        Ok(())
    })?;
    l.once(&what, m)?;
    c.count("join.expressions", m as u64);
    c.seen(("join", m, threads, &x));
    Ok(())
}
/// Each expression has its own part of the data to itself
fn parts(c: &mut Case) -> R {
    let mut data: Vec<u64> = (0..600).map(|_| c.rng.next_u64()).collect();
    let before = data.clone();
    let t = [1usize, 2, 4][c.idx as usize % 3];
    {
        let (a, r) = data.split_at_mut(100);
        let (b, d) = r.split_at_mut(200);
        let f = |k: u64, s: &mut [u64]| { for x in s.iter_mut() { *x = x.rotate_left(k as u32) ^ k; } s.len() };
        let (x, y, z) = in_pool(t, || join!(f(1, a), f(2, b), f(3, d)));
        ensure!((x, y, z) == (100, 200, 300), "join! of three expressions over parts of a vector: {x} {y} {z}");
    }
    for (i, (x, y)) in data.iter().zip(&before).enumerate() {
        let k = if i < 100 { 1 } else if i < 300 { 2 } else { 3 };
        ensure!(*x == y.rotate_left(k) ^ k as u64, "join! over parts of a vector: element {i} changed by another number of expressions than one");
    }
    // a failure of any expression reaches the caller, and it is that failure
    let bad = c.rng.gen_range(0..4u64);
    let ev = |i: u64| if i == bad { panic!("expression {i}") } else { i };
    let r = guard(|| in_pool(t, || join!(ev(0), ev(1), ev(2), ev(3))));
    match r {
        Ok(v) => return Err(format!("join! of four expressions, the {bad}th panicking, returned {v:?}")),
        Err(m) => ensure!(m.contains(&format!("expression {bad}")), "join! with expression {bad} panicking ended with {m:?}"),
    }
    // the next use is not affected
    ensure!(in_pool(t, || join!(1, 2, 3, 4)) == (1, 2, 3, 4), "join! after a panic gives other values");
    c.count("join.parts", 1);
    c.seen(("parts", bad, t, c.idx));
    Ok(())
}
fn slices(c: &mut Case) -> R {
    let rng = &mut c.rng;
    let mut part = |max: usize| -> Vec<u8> { let n = match rng.gen_range(0..4) { 0 => 0, 1 => 1, _ => rng.gen_range(0..max) }; (0..n).map(|_| rng.gen()).collect() };
    let (a, b, d) = (part(300), part(20), part(5000));
    let e: [u8; 8] = a.len().to_le_bytes();
    let l = Log::default();
    let what = format!("concat_slices! of {}, {} and {} bytes", a.len(), b.len(), d.len());
    ensure!(concat_slices!(l.ev(0, 0, a.clone())) == a, "{what}: one slice is another one");
    ensure!(concat_slices!(a, b) == [&a[..], &b[..]].concat(), "{what}: two slices");
    ensure!(concat_slices!(b, l.ev(1, 0, &d[..]), b" : G", e) == [&b[..], &d[..], &b" : G"[..], &e[..]].concat(), "{what}: four slices");
    ensure!(concat_slices![l.ev(2, 0, &a), l.ev(3, 0, &a), l.ev(4, 0, &b)] == [&a[..], &a[..], &b[..]].concat(), "{what}: a slice twice");
    l.once(&what, 5)?;
    let f: Vec<Fr> = (0..c.idx % 5).map(|_| Fr::rand(&mut c.rng)).collect();
    ensure!(concat_slices!(f, f) == [&f[..], &f[..]].concat(), "concat_slices! of field elements");
    c.count("slices", 5);
    c.seen(("slices", a, b));
    Ok(())
}
fn wrappers(c: &mut Case) -> R {
    let v: Vec<u64> = (0..c.idx % 40).map(|_| c.rng.next_u64()).collect();
    let mut w = Wrapped(v.clone());
    ensure!(*w == v && w.len() == v.len() && w.0 == v, "a wrapper derefs to something else");
    w.push(7);
    w.reverse();
    let mut e = v.clone();
    e.push(7);
    e.reverse();
    ensure!(*w == e && w.0 == e, "a change through a wrapper's deref is lost");
    let p = G1Affine::rand(&mut c.rng);
    let mut q = Plain(p);
    ensure!(*q == p && q.x == p.x, "a wrapper derefs to another point");
    *q = (-p.into_group()).into_affine();
    ensure!(q.0 == (-p.into_group()).into_affine(), "a change through a wrapper's deref is lost");
    let n = c.rng.gen_range(0..3000u64);
    let t = [1usize, 2, 8][c.idx as usize % 3];
    ensure!(in_pool(t, || total((0..n).collect::<Vec<u64>>())) == n * n.saturating_sub(1) / 2, "a sum over impl_into_iter! of {n} numbers");
    #[cfg(feature = "parallel")]
    let got: Vec<u64> = { use rayon::prelude::*; in_pool(t, || evens(n).collect()) };
    #[cfg(not(feature = "parallel"))]
    let got: Vec<u64> = evens(n).collect();
    ensure!(got == (0..n).map(|x| 2 * x).collect::<Vec<_>>(), "impl_iter! gives other items");
    c.count("wrappers", 1);
    c.seen(("wrap", v, n));
    Ok(())
}
pub fn c22(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("each evaluation runs one exported macro on expressions that log their evaluation and compares value, order and the log with the plain expressions; distinct_nontrivial counts distinct (macro, shape, values)");
    ctx.cases("join", ctx.n(4000, 60000), joins);
    ctx.cases("parts", ctx.n(600, 6000), parts);
    ctx.cases("concat_slices", ctx.n(4000, 40000), slices);
    ctx.cases("wrappers", ctx.n(400, 4000), wrappers);
    ctx.require("join.expressions", 5000);
    ctx.require("join.parts", 300);
    ctx.require("slices", 5000);
    ctx.require("wrappers", 200);
    Ok(())
}
