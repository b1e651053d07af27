use harness::*;
use sci_rs::linalg::companion_dyn;
#[global_allocator]
static A: Guarded = Guarded;

fn check(c: &[f64], m: usize, got: &nalgebra::DMatrix<f64>, tol: f64) -> Result<(), String> {
    ensure(got.shape() == (m - 1, m - 1), || format!("shape {:?}", got.shape()))?;
    for i in 0..m - 1 {
        for j in 0..m - 1 {
            let e = if i == 0 { if j + 1 < c.len() { -c[j + 1] / c[0] } else { 0.0 } } else if i == j + 1 { 1.0 } else { 0.0 };
            ensure(close(got[(i, j)], e, tol, 0.0), || format!("entry ({i}, {j}) is {} instead of {e}", got[(i, j)]))?;
        }
    }
    Ok(())
}
fn main() {
    run(|ctx| {
        let mut ms: Vec<usize> = (2..=ctx.reps(33, 80)).collect();
        ms.extend([50, 64, 65, 100]);
        ms.extend(ctx.lit_sizes(128));
        ms.retain(|m| *m >= 2);
        ms.sort();
        ms.dedup();
        let lf = ctx.lit_floats();
        for &m in &ms {
            for rep in 0..ctx.reps(12, 60) {
                let r = &mut ctx.rng;
                let extra = if rep % 3 == 2 { *r.pick(&[1usize, 2, 3, 10, 100, 1000]) } else { 0 };
                let mut c: Vec<f64> = (0..m + extra).map(|_| if rep % 2 == 0 { r.range(0, 12) as f64 - 6.0 } else { r.f(-3.0, 3.0) }).collect();
                if c[0] == 0.0 { c[0] = 2.0; }
                if rep == 4 { c[0] = 1.0; }
                if rep == 6 { c[0] = -1.0; }
                if rep == 8 && !lf.is_empty() { let l = *r.pick(&lf); if l != 0.0 { c[0] = l; } }
                ctx.case(format!("companion_dyn m={m} f64 {c:?}"), || {
                    check(&c[..m], m, &companion_dyn::<f64, _, _>(c.iter(), m), 1e-14)?;
                    check(&c[..m], m, &companion_dyn::<f64, _, _>(c.iter().copied().filter(|_| true), m), 1e-14)
                });
                let f: Vec<f32> = c.iter().map(|x| *x as f32).collect();
                ctx.case(format!("companion_dyn m={m} f32 {f:?}"), || check(&f[..m].iter().map(|x| *x as f64).collect::<Vec<_>>(), m, &companion_dyn::<f32, _, _>(f.iter(), m).map(|x| x as f64), 1e-6));
                let lead = if c[0] > 0.0 { 1 } else { -1 } * [1i64, 2, 5][rep as usize % 3];
                let w: Vec<i64> = c.iter().enumerate().map(|(i, x)| if i == 0 { lead } else { (*x * 3.0) as i64 * lead }).collect();
                ctx.case(format!("companion_dyn m={m} i64 {w:?}"), || check(&w[..m].iter().map(|x| *x as f64).collect::<Vec<_>>(), m, &companion_dyn::<i64, _, _>(w.iter(), m).map(|x| x as f64), 1e-14));
            }
        }
        // shorter sequences: whatever the answer, no write outside the matrix
        for m in 2..=40usize {
            for n in 0..m {
                let c: Vec<f64> = (0..n).map(|i| 1.0 + i as f64).collect();
                ctx.case(format!("companion_dyn m={m} with only {n} coefficients"), || { let _ = panics(|| companion_dyn::<f64, _, _>(c.iter(), m)); Ok(()) });
            }
        }
        for m in 0..2usize {
            for n in [1usize, 2, 3, 10] {
                let c: Vec<f64> = (0..n).map(|i| 1.0 + i as f64).collect();
                ctx.case(format!("companion_dyn m={m} {c:?} must be rejected"), || ensure(panics(|| companion_dyn::<f64, _, _>(c.iter(), m)), || "accepted".into()));
            }
        }
    });
}
