use harness::*;
use ndarray::{s, Array, Array1, Array2, ArrayD, IxDyn};
use sci_rs::signal::wave::square;
use std::f64::consts::PI;

/// expected value, None within rounding of a threshold
fn want(t: f64, duty: f64, margin: f64) -> Option<f64> {
    if t == 0.0 { return Some(if duty > 0.0 { 1.0 } else { -1.0 }); }
    if duty == 0.0 { return Some(-1.0); }
    let tp = 2.0 * PI;
    let x = t - tp * (t / tp).floor();
    let m = margin * (1.0 + t.abs());
    if x < m || tp - x < m { return None; }
    if (x - tp * duty).abs() < m { return None; }
    Some(if x < tp * duty { 1.0 } else { -1.0 })
}
fn one(ctx: &mut Ctx, t: &[f64], duty: f64) {
    ctx.case(format!("square f64 duty={duty} t={t:?}"), || {
        let g = square(&Array1::from(t.to_vec()), duty);
        ensure(g.len() == t.len(), || format!("{} values", g.len()))?;
        for i in 0..t.len() { ensure(want(t[i], duty, 1e-12).map_or(g[i] == 1.0 || g[i] == -1.0, |e| g[i] == e), || format!("value {i} is {}", g[i]))?; }
        Ok(())
    });
    let tf: Vec<f32> = t.iter().map(|x| *x as f32).collect();
    ctx.case(format!("square f32 duty={duty} t={tf:?}"), || {
        let g = square(&Array1::from(tf.clone()), duty as f32);
        ensure(g.len() == t.len(), || format!("{} values", g.len()))?;
        for i in 0..t.len() { ensure(want(tf[i] as f64, duty as f32 as f64, 1e-5).map_or(g[i] == 1.0 || g[i] == -1.0, |e| g[i] as f64 == e), || format!("value {i} is {}", g[i]))?; }
        Ok(())
    });
}
fn main() {
    run(|ctx| {
        let mut duties = vec![0.0, 1.0, 0.5, 0.25, 0.75, 0.1, 0.9, 0.01, 0.99, 1e-9, 1.0 - 1e-9];
        duties.extend(ctx.lit_floats().into_iter().filter(|x| *x >= 0.0 && *x <= 1.0));
        for _ in 0..20 { let d = ctx.rng.unit(); duties.push(d); }
        let lf = ctx.lit_floats();
        for duty in duties {
            for rep in 0..ctx.reps(30, 300) {
                let r = &mut ctx.rng;
                let n = r.range(0, 40);
                let mut t: Vec<f64> = (0..n).map(|_| match rep % 5 {
                    0 => r.f(-10.0, 10.0),
                    1 => r.f(-1000.0, 1000.0),
                    2 => (r.range(0, 40) as f64 - 20.0) * PI / 4.0,
                    3 => (r.range(0, 20) as f64 - 10.0) * 2.0 * PI + 2.0 * PI * duty + r.f(-0.01, 0.01),
                    _ => r.f(-1.0, 1.0) * 10f64.powi(r.range(0, 9) as i32 - 4),
                }).collect();
                if n > 0 { t[0] = 0.0; }
                // just below a multiple of the period: the residue rounds to the period itself
                if n > 2 { t[1] = -*r.pick(&[1e-15, 1e-16, 1e-17, 1e-30, 5e-324, 1e-7, 1e-8]); t[2] = -(r.range(0, 9) as f64) * 2.0 * PI; }
                if rep < 3 { t.extend(lf.iter().filter(|x| x.abs() < 1e6)); }
                one(ctx, &t, duty);
            }
        }
        ctx.case("square at t = pi, duty 1/2, and at t = 0".into(), || {
            let g = square(&Array1::from(vec![PI, -PI, 0.0, -0.0]), 0.5);
            ensure(g.to_vec() == vec![-1.0, -1.0, 1.0, 1.0], || format!("{g:?}"))
        });
        for (r, k) in [(0usize, 3usize), (1, 1), (3, 4), (5, 2)] {
            let a = Array2::from_shape_fn((r, k), |(i, j)| (i as f64) * 1.7 - (j as f64) * 0.9 + 0.05);
            ctx.case(format!("2-d arrays and views {r}x{k}"), || {
                let g = square(&a, 0.3);
                ensure(g.shape() == a.shape(), || format!("shape {:?}", g.shape()))?;
                let gt = square(&a.t(), 0.3);
                let gs = square(&a.slice(s![..;-1, ..]), 0.3);
                for i in 0..r { for j in 0..k {
                    let e = want(a[(i, j)], 0.3, 1e-12).unwrap();
                    ensure(g[(i, j)] == e && gt[(j, i)] == e && gs[(r - 1 - i, j)] == e, || format!("entry ({i}, {j})"))?;
                } }
                Ok(())
            });
        }
        ctx.case("dynamic and 3-d shapes".into(), || {
            let a = ArrayD::from_shape_fn(IxDyn(&[2, 3, 2]), |i| i[0] as f64 * 1.3 + i[1] as f64 * 0.4 - i[2] as f64 * 2.2 + 0.01);
            let g = square(&a, 0.6);
            ensure(g.shape() == a.shape() && a.iter().zip(g.iter()).all(|(t, v)| want(*t, 0.6, 1e-12).unwrap() == *v), || format!("{g:?}"))?;
            let z = Array::from_elem((), 1.0f64);
            ensure(square(&z, 0.5)[()] == 1.0, || "0-d".into())
        });
        for d in [-0.1, -1e-12, 1.0 + 1e-9, 1.1, 2.0, -1.0, 50.0, f64::NAN, f64::INFINITY] {
            ctx.case(format!("duty {d} must be rejected"), || {
                ensure(panics(|| square(&Array1::from(vec![0.5]), d)), || "accepted".into())?;
                ensure(panics(|| square(&Array1::<f64>::from(vec![]), d)), || "accepted for an empty array".into())
            });
        }
    });
}
