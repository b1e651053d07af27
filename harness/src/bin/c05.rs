use harness::*;
use sci_rs::stats::*;

fn mean_(v: &[f64]) -> f64 { if v.is_empty() { 0.0 } else { v.iter().sum::<f64>() / v.len() as f64 } }
fn var_(v: &[f64]) -> f64 {
    if v.is_empty() { return 0.0; }
    let m = mean_(v);
    v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / v.len() as f64
}
fn med_(v: &[f64]) -> f64 {
    let mut s = v.to_vec();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n = s.len();
    if n == 0 { 0.0 } else if n % 2 == 1 { s[n / 2] } else { (s[n / 2 - 1] + s[n / 2]) / 2.0 }
}
macro_rules! one { ($ctx:ident, $F:ident, $v:expr, $tol:expr) => {{
    let ctx: &mut Ctx = $ctx;
    let v: Vec<$F> = $v.iter().map(|x| *x as $F).collect();
    let w: Vec<f64> = v.iter().map(|x| *x as f64).collect();
    let n = w.len();
    let tol: f64 = $tol;
    let sc = w.iter().fold(0.0f64, |a, x| a.max(x.abs())).max(1e-300);
    let name = stringify!($F);
    let d = if n <= 100 { format!("{name} {w:?}") } else { format!("{name} {n} samples {:?} ...", &w[..20]) };
    ctx.case(format!("mean/variance/stdev {d}"), || {
        let (m, c) = mean::<_, $F>(v.iter());
        ensure(c == n, || format!("mean count {c} instead of {n}"))?;
        ensure(close(m as f64, mean_(&w), tol, sc), || format!("mean {m} instead of {}", mean_(&w)))?;
        let (m, c) = mean::<_, $F>(v.iter().copied().filter(|_| true));
        ensure(c == n && close(m as f64, mean_(&w), tol, sc), || format!("mean by value ({m}, {c}) instead of ({}, {n})", mean_(&w)))?;
        let (m, c) = variance::<_, $F>(v.iter());
        ensure(c == n, || format!("variance count {c} instead of {n}"))?;
        ensure(close(m as f64, var_(&w), tol, sc * sc), || format!("variance {m} instead of {}", var_(&w)))?;
        let (m, c) = stdev::<_, $F>(v.iter());
        ensure(c == n, || format!("stdev count {c} instead of {n}"))?;
        let e = var_(&w).sqrt();
        let t = if e > sc * 1e-3 { tol * 1e3 } else { tol.sqrt() * 4.0 };
        ensure(close(m as f64, e, t, sc), || format!("stdev {m} instead of {e}"))
    });
    ctx.case(format!("lag_diff/rmssd {d}"), || {
        let g: Vec<f64> = lag_diff::<_, $F>(v.iter()).map(|x| x as f64).collect();
        let e: Vec<f64> = (1..n).map(|i| w[i] - w[i - 1]).collect();
        close_all(&g, &e, tol, sc)?;
        let g = rmssd::<_, $F>(v.iter()) as f64;
        let r = mean_(&e.iter().map(|x| x * x).collect::<Vec<_>>()).sqrt();
        ensure(close(g, r, tol.sqrt().min(tol * 1e3), sc), || format!("rmssd {g} instead of {r}"))
    });
    let var = var_(&w);
    if n > 0 && var > sc * sc * 1e-4 {
        let m = mean_(&w);
        ctx.case(format!("zscore {d}"), || {
            let g: Vec<f64> = zscore::<_, $F>(v.iter()).map(|x| x as f64).collect();
            let e: Vec<f64> = w.iter().map(|x| (x - m) / var.sqrt()).collect();
            close_all(&g, &e, tol * 1e3, 10.0)
        });
        let mut lags: Vec<usize> = (0..n.min(12)).collect();
        lags.extend([n / 2, n - 1, n, n + 3]);
        lags.extend(ctx.lit_sizes(n));
        for k in lags {
            ctx.case(format!("autocorr lag {k} {d}"), || {
                let g = autocorr::<_, $F>(v.iter(), k) as f64;
                let e = (0..n.saturating_sub(k)).map(|t| (w[t] - m) * (w[t + k] - m)).sum::<f64>() / n as f64 / var;
                ensure(close(g, e, tol * 1e4, 1.0), || format!("autocorr {g} instead of {e}"))
            });
        }
        let med = med_(&w);
        let mad = med_(&w.iter().map(|x| (x - med).abs()).collect::<Vec<_>>());
        if mad == 0.0 {
            // more than half of the samples equal: every other sample is infinitely far
            ctx.case(format!("mod_zscore without spread {d}"), || {
                let g: Vec<f64> = mod_zscore::<_, $F>(v.iter()).map(|x| x as f64).collect();
                ensure(g.len() == n, || format!("{} values", g.len()))?;
                for i in 0..n { if w[i] != med { ensure(!g[i].is_finite(), || format!("value {i} is {} instead of {}", g[i], (w[i] - med) / 0.0))?; } }
                Ok(())
            });
        }
        if mad > sc * 1e-2 {
            ctx.case(format!("mod_zscore {d}"), || {
                let g: Vec<f64> = mod_zscore::<_, $F>(v.iter()).map(|x| x as f64).collect();
                let e: Vec<f64> = w.iter().map(|x| 0.6745 * (x - med) / mad).collect();
                close_all(&g, &e, tol * 1e3, 10.0)
            });
        }
    }
}} }
fn main() {
    run(|ctx| {
        let mut sizes: Vec<usize> = (0..=70).collect();
        sizes.extend([100, 127, 128, 129, 255, 256, 257, 300, 1000, 1024, 1025]);
        sizes.extend(ctx.lit_sizes(2000));
        for round in 0..ctx.reps(3, 30) {
            for &n in &sizes {
                if !ctx.more() { return; }
                for kind in 0..5 {
                    if n > 300 && kind > 2 { continue; }
                    let r = &mut ctx.rng;
                    let v: Vec<f64> = match kind {
                        0 => signal(r, n),
                        1 => (0..n).map(|_| r.f(-1.0, 1.0)).collect(),
                        2 => (0..n).map(|_| r.range(0, 10) as f64 - 5.0).collect(),
                        3 => (0..n).map(|_| 10.0 + r.f(0.0, 5.0)).collect(),
                        _ if n > 2 && n < 40 && r.below(2) == 0 => { let c = r.f(-3.0, 3.0); let k = n / 2 + 1; (0..n).map(|i| if i < k { c } else { r.f(-3.0, 3.0) }).collect() }
                        _ => { let s = *r.pick(&[1e-20, 1e15, -1e3]); (0..n).map(|_| s * r.f(0.1, 1.0)).collect() }
                    };
                    one!(ctx, f64, v, 1e-12);
                    if round == 0 && kind < 4 { one!(ctx, f32, v, 2e-5); }
                }
            }
        }
        for n in [65535usize, 65536, 65537, 70000, 140000] {
            let v: Vec<f64> = (0..n).map(|_| 3.0 + ctx.rng.f(-1.0, 2.0)).collect();
            let (m, va) = (mean_(&v), var_(&v));
            ctx.case(format!("long sample of {n}"), || {
                ensure(mean::<_, f64>(v.iter()).1 == n && close(mean::<_, f64>(v.iter()).0, m, 1e-10, 1.0), || "mean".into())?;
                ensure(variance::<_, f64>(v.iter()).1 == n && close(variance::<_, f64>(v.iter()).0, va, 1e-9, 1.0), || "variance".into())?;
                ensure(stdev::<_, f64>(v.iter()).1 == n && close(stdev::<_, f64>(v.iter()).0, va.sqrt(), 1e-9, 1.0), || "stdev".into())?;
                let e: Vec<f64> = v.windows(2).map(|x| x[1] - x[0]).collect();
                close_all(&lag_diff::<_, f64>(v.iter()).collect::<Vec<_>>(), &e, 0.0, 0.0)?;
                ensure(close(rmssd::<_, f64>(v.iter()), mean_(&e.iter().map(|x| x * x).collect::<Vec<_>>()).sqrt(), 1e-9, 1.0), || "rmssd".into())?;
                close_all(&zscore::<_, f64>(v.iter()).collect::<Vec<_>>(), &v.iter().map(|x| (x - m) / va.sqrt()).collect::<Vec<_>>(), 1e-9, 1.0)?;
                for k in [1, n / 2, n - 1, n - 2] {
                    let e = (0..n - k).map(|t| (v[t] - m) * (v[t + k] - m)).sum::<f64>() / n as f64 / va;
                    ensure(close(autocorr::<_, f64>(v.iter(), k), e, 1e-9, 1.0), || format!("autocorr lag {k}"))?;
                }
                Ok(())
            });
        }
        for l in ctx.lit_floats() {
            let v: Vec<f64> = (0..7).map(|i| l * (1.0 + (i % 3) as f64) + (i as f64) * 0.5).collect();
            one!(ctx, f64, v, 1e-12);
        }
    });
}
