use harness::*;
use sci_rs::signal::resample::resample;
use std::f64::consts::PI;

// only the bins that are kept are computed
fn expect(x: &[f64], n: usize) -> Vec<f64> {
    let m = x.len();
    let w = |k: usize, t: usize, n: usize| { let th = 2.0 * PI * ((k * t) % n) as f64 / n as f64; c(th.cos(), th.sin()) };
    let h = m.min(n) / 2;
    // a bin of the target that both halves address (never, since 2h <= n) would be taken from the upper one
    let bins: Vec<(usize, C)> = (0..h).map(|i| (i, i)).chain((0..h).map(|i| (n - 1 - i, m - 1 - i)))
        .map(|(to, from)| (to, (0..m).fold(c(0.0, 0.0), |a, t| a + x[t] * w(from, t, m).conj()))).collect();
    (0..n).map(|t| bins.iter().fold(0.0, |a, (k, b)| a + (b * w(*k, t, n)).re) / m as f64).collect()
}
fn one(ctx: &mut Ctx, x: &[f64], n: usize) {
    let e = expect(x, n);
    let sc = norm(x) + 1e-300;
    ctx.case(format!("resample to {n} of {x:?}"), || close_all(&resample(x, n), &e, 1e-11, sc));
    let f: Vec<f32> = x.iter().map(|v| *v as f32).collect();
    ctx.case(format!("resample f32 to {n} of {x:?}"), || close_all(&resample(&f, n).iter().map(|v| *v as f64).collect::<Vec<_>>(), &e, 1e-4, sc));
}
fn main() {
    run(|ctx| {
        let mut lens: Vec<usize> = (1..=26).collect();
        lens.extend([31, 32, 33, 63, 64, 65, 100]);
        lens.extend(ctx.lit_sizes(150).into_iter().filter(|x| *x > 0));
        lens.sort();
        lens.dedup();
        for _ in 0..ctx.reps(2, 20) { for &m in &lens { for &n in &lens {
            if !ctx.more() { return; }
            if m + n > 90 && ctx.rng.below(3) > 0 { continue; }
            let x = scaled_signal(&mut ctx.rng, m);
            one(ctx, &x, n);
            let k = ctx.rng.f(-3.0, 3.0) * *ctx.rng.pick(&[1.0, 1.0, 1e-12, 1e9]);
            if m >= 2 && n >= 2 {
                ctx.case(format!("resample to {n} of {m} times {k}"), || close_all(&resample(&vec![k; m], n), &vec![k; n], 1e-11, k.abs()));
            }
        } } }
        // long signals and targets: the expected values come from a sparse input or a short target
        let mut long: Vec<(usize, usize)> = vec![(1000, 777), (777, 1000), (1024, 512), (512, 1025), (2048, 3), (3, 2048), (1001, 2), (2, 1500)];
        for l in ctx.lit_sizes(5000) { if l > 150 { long.extend([(l, 7), (7, l), (l, l), (l, l / 2 + 1), (l / 2, l)]); } }
        for l in ctx.lit_sizes(140000) { if l > 5000 { long.extend([(7, l), (l, 7)]); } }
        for (m, n) in long {
            if !ctx.more() { return; }
            let x = scaled_signal(&mut ctx.rng, m);
            one(ctx, &x, n);
        }
    });
}
