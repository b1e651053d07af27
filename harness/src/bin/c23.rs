use harness::*;
use ndarray::{ArrayD, IxDyn};
use sci_rs::special::Bessel;

// the published Chebyshev coefficients of exp(-x) I0(x) (Cephes), highest order first
#[allow(clippy::excessive_precision)]
const A: [f64; 30] = [-4.41534164647933937950E-18, 3.33079451882223809783E-17, -2.43127984654795469359E-16, 1.71539128555513303061E-15, -1.16853328779934516808E-14, 7.67618549860493561688E-14, -4.85644678311192946090E-13, 2.95505266312963983461E-12, -1.72682629144155570723E-11, 9.67580903537323691224E-11, -5.18979560163526290666E-10, 2.65982372468238665035E-9, -1.30002500998624804212E-8, 6.04699502254191894932E-8, -2.67079385394061173391E-7, 1.11738753912010371815E-6, -4.41673835845875056359E-6, 1.64484480707288970893E-5, -5.75419501008210370398E-5, 1.88502885095841655729E-4, -5.76375574538582365885E-4, 1.63947561694133579842E-3, -4.32430999505057594430E-3, 1.05464603945949983183E-2, -2.37374148058994688156E-2, 4.93052842396707084878E-2, -9.49010970480476444210E-2, 1.71620901522208775349E-1, -3.04682672343198398683E-1, 6.76795274409476084995E-1];
#[allow(clippy::excessive_precision)]
const B: [f64; 25] = [-7.23318048787475395456E-18, -4.83050448594418207126E-18, 4.46562142029675999901E-17, 3.46122286769746109310E-17, -2.82762398051658348494E-16, -3.42548561967721913462E-16, 1.77256013305652638360E-15, 3.81168066935262242075E-15, -9.55484669882830764870E-15, -4.15056934728722208663E-14, 1.54008621752140982691E-14, 3.85277838274214270114E-13, 7.18012445138366623367E-13, -1.79417853150680611778E-12, -1.32158118404477131188E-11, -3.14991652796324136454E-11, 1.18891471078464383424E-11, 4.94060238822496958910E-10, 3.39623202570838634515E-9, 2.26666899049817806459E-8, 2.04891858946906374183E-7, 2.89137052083475648297E-6, 6.88975834691682398426E-5, 3.36911647825569408990E-3, 8.04490411014108831608E-1];

/// sum of c_i T_i(y/2), the zero-order coefficient halved
fn cheb(y: f64, t: &[f64]) -> f64 {
    let x = y / 2.0;
    let n = t.len();
    let (mut t0, mut t1) = (1.0, x);
    let mut s = 0.5 * t[n - 1];
    for i in 1..n {
        s += t[n - 1 - i] * t1;
        let t2 = 2.0 * x * t1 - t0;
        t0 = t1;
        t1 = t2;
    }
    s
}
fn i0e(x: f64) -> f64 {
    let x = x.abs();
    if x <= 8.0 { cheb(x / 2.0 - 2.0, &A) } else { cheb(32.0 / x - 2.0, &B) / x.sqrt() }
}
fn i0(x: f64) -> f64 { x.abs().exp() * i0e(x) }
fn one(ctx: &mut Ctx, x: f64) {
    ctx.case(format!("i0/i0e f64 at {x:?}"), || {
        let (g, e) = (Bessel::i0e(&x), i0e(x));
        ensure(close(g, e, 2e-14, 0.0), || format!("i0e is {g:e} instead of {e:e}"))?;
        let (g, e) = (Bessel::i0(&x), i0(x));
        ensure(close(g, e, 1e-13, 0.0), || format!("i0 is {g:e} instead of {e:e}"))?;
        ensure(Bessel::i0(&x) == Bessel::i0(&-x) && Bessel::i0e(&x) == Bessel::i0e(&-x), || "not even".into())
    });
    let y = x as f32;
    if !y.is_finite() || (y != 0.0 && y.abs() < 1e-30) { return; }
    ctx.case(format!("i0/i0e f32 at {y:?}"), || {
        let (g, e) = (Bessel::i0e(&y) as f64, i0e(y as f64));
        ensure(close(g, e, 4e-6, 0.0), || format!("i0e is {g:e} instead of {e:e}"))?;
        if y.abs() < 85.0 {
            let (g, e) = (Bessel::i0(&y) as f64, i0(y as f64));
            ensure(close(g, e, 4e-5, 0.0), || format!("i0 is {g:e} instead of {e:e}"))?;
        }
        ensure(Bessel::i0(&y) == Bessel::i0(&-y) && Bessel::i0e(&y) == Bessel::i0e(&-y), || "not even".into())
    });
}
fn main() {
    run(|ctx| {
        for i in 0..=ctx.reps(4000, 40000) { one(ctx, i as f64 * 30.0 / ctx.reps(4000, 40000) as f64); }
        for x in [0.0, 8.0, 8.000000000000002, 7.999999999999999, 1e-300, 1e-8, 100.0, 500.0, 700.0, 713.0, 720.0, 1e3, 1e6, 1e15, 1e100, 1e300, f64::MAX] { one(ctx, x); one(ctx, -x); }
        for l in ctx.lit_floats() { one(ctx, l); }
        for _ in 0..ctx.reps(8000, 200000) {
            let r = &mut ctx.rng;
            let x = match r.below(4) { 0 => r.f(-8.5, 8.5), 1 => r.f(7.9, 8.1), 2 => r.f(-700.0, 700.0), _ => 10f64.powf(r.f(-12.0, 14.0)) };
            one(ctx, x);
        }
        for n in [0usize, 1, 2, 3, 7, 8, 16, 17, 100, 1000, 5000, 70000] {
            let v: Vec<f64> = (0..n).map(|_| ctx.rng.f(-20.0, 20.0)).collect();
            let vf: Vec<f32> = v.iter().map(|x| *x as f32).collect();
            let d = if n <= 100 { format!("{v:?}") } else { format!("of {n} values") };
            ctx.case(format!("vector {d}"), || {
                close_all(&Bessel::i0(&v), &v.iter().map(|x| i0(*x)).collect::<Vec<_>>(), 1e-13, 0.0)?;
                close_all(&Bessel::i0e(&v), &v.iter().map(|x| i0e(*x)).collect::<Vec<_>>(), 1e-13, 0.0)?;
                let w = |v: Vec<f32>| v.iter().map(|x| *x as f64).collect::<Vec<_>>();
                close_all(&w(Bessel::i0(&vf)), &vf.iter().map(|x| i0(*x as f64)).collect::<Vec<_>>(), 1e-4, 0.0)?;
                close_all(&w(Bessel::i0e(&vf)), &vf.iter().map(|x| i0e(*x as f64)).collect::<Vec<_>>(), 1e-4, 0.0)?;
                let vv = vec![v.clone(), v.clone()];
                ensure(Bessel::i0(&vv).len() == 2, || "nested".into())
            });
        }
        for shape in [vec![], vec![3], vec![2, 3], vec![2, 3, 4], vec![0, 2], vec![5000], vec![80, 70]] {
            let n: usize = shape.iter().product();
            let v: Vec<f64> = (0..n).map(|_| ctx.rng.f(-20.0, 20.0)).collect();
            let d = if n <= 100 { format!("{v:?}") } else { String::new() };
            ctx.case(format!("array {shape:?} {d}"), || {
                let a = ArrayD::from_shape_vec(IxDyn(&shape), v.clone()).unwrap();
                let (g, h) = (a.i0(), a.i0e());
                ensure(g.shape() == &shape[..] && h.shape() == &shape[..], || format!("shape {:?}", g.shape()))?;
                close_all(&g.iter().copied().collect::<Vec<_>>(), &v.iter().map(|x| i0(*x)).collect::<Vec<_>>(), 1e-13, 0.0)?;
                close_all(&h.iter().copied().collect::<Vec<_>>(), &v.iter().map(|x| i0e(*x)).collect::<Vec<_>>(), 1e-13, 0.0)?;
                if shape.len() == 2 {
                    let t = a.clone().reversed_axes();
                    let tg = t.i0();
                    for i in 0..shape[0] { for j in 0..shape[1] { ensure(close(tg[[j, i]], i0(a[[i, j]]), 1e-13, 0.0), || "transposed".into())?; } }
                }
                Ok(())
            });
        }
    });
}
