use harness::*;
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::*;
#[global_allocator]
static A: Guarded = Guarded;

fn check(b: &[f64], a: &[f64], zi: &[f64], tol: f64) -> Result<(), String> {
    let m = b.len();
    ensure(zi.len() == m - 1, || format!("{} initial values instead of {}", zi.len(), m - 1))?;
    let b: Vec<f64> = b.iter().map(|x| x / a[0]).collect();
    let a: Vec<f64> = a.iter().map(|x| x / a[0]).collect();
    let sa = a.iter().sum::<f64>();
    let g = b.iter().sum::<f64>() / sa;
    let sc = b.iter().chain(&a).chain(zi).fold(g.abs(), |x, y| x.max(y.abs())) * (1.0 + 1.0 / sa.abs());
    // one step of the transposed form on input 1 from zi
    let y = b[0] + zi[0];
    ensure(close(y, g, tol, sc), || format!("first output {y} instead of the DC gain {g}"))?;
    for k in 0..m - 1 {
        let nxt = if k + 1 < m - 1 { zi[k + 1] } else { 0.0 };
        let s = b[k + 1] - a[k + 1] * y + nxt;
        ensure(close(s, zi[k], tol, sc), || format!("state {k} moves from {} to {s}", zi[k]))?;
    }
    Ok(())
}
fn coef(r: &mut Rng, m: usize) -> (Vec<f64>, Vec<f64>) {
    loop {
        let lead = *r.pick(&[1.0, 1.0, 2.0, -1.0, 0.5, -3.25]);
        let int = r.coin();
        let mut g = |r: &mut Rng| if int { r.range(0, 8) as f64 - 4.0 } else { r.f(-2.0, 2.0) };
        let b: Vec<f64> = (0..m).map(|_| g(r)).collect();
        let mut a: Vec<f64> = (0..m).map(|_| g(r)).collect();
        a[0] = lead;
        match r.below(6) {
            0 => a[m - 1] = 0.0,
            1 => { for x in a.iter_mut().skip(1) { *x = 0.0; } }
            _ => {}
        }
        if m == 2 && r.coin() { a[1] = 0.0; }
        let s: f64 = a.iter().sum();
        if s.abs() > 0.05 { return (b, a); }
    }
}
fn main() {
    run(|ctx| {
        let mut ms: Vec<usize> = (2..=20).collect();
        ms.extend(ctx.lit_sizes(64));
        ms.retain(|m| *m >= 2);
        ms.sort();
        ms.dedup();
        for &m in &ms {
            for _ in 0..ctx.reps(120, 2000) {
                if !ctx.more() { return; }
                let (mut b, mut a) = coef(&mut ctx.rng, m);
                if ctx.rng.below(5) == 0 { let s = *ctx.rng.pick(&[1e-12, 1e-5, 1e7]); b.iter_mut().for_each(|x| *x *= s); }
                if ctx.rng.below(8) == 0 { let s = *ctx.rng.pick(&[1e-9, 1e-4, 1e6]); a.iter_mut().for_each(|x| *x *= s); }
                ctx.case(format!("lfilter_zi_dyn::<f64> b={b:?} a={a:?}"), || check(&b, &a, &lfilter_zi_dyn(&b, &a), 1e-10));
                let (bf, af): (Vec<f32>, Vec<f32>) = (b.iter().map(|x| *x as f32).collect(), a.iter().map(|x| *x as f32).collect());
                ctx.case(format!("lfilter_zi_dyn::<f32> b={b:?} a={a:?}"), || {
                    let z: Vec<f64> = lfilter_zi_dyn(&bf, &af).iter().map(|x| *x as f64).collect();
                    check(&bf.iter().map(|x| *x as f64).collect::<Vec<_>>(), &af.iter().map(|x| *x as f64).collect::<Vec<_>>(), &z, 1e-3)
                });
            }
        }
        for l in ctx.lit_floats() {
            if l.abs() > 1e6 || l.abs() < 1e-6 { continue; }
            for m in 2..5 {
                let (b, mut a) = coef(&mut ctx.rng, m);
                a[0] = l;
                if (a.iter().sum::<f64>() / l).abs() < 0.05 { continue; }
                ctx.case(format!("lfilter_zi_dyn::<f64> b={b:?} a={a:?}"), || check(&b, &a, &lfilter_zi_dyn(&b, &a), 1e-9));
            }
        }
        let mut secs: Vec<usize> = (0..=12).collect();
        secs.extend(ctx.lit_sizes(24));
        for ns in secs {
            for _ in 0..ctx.reps(60, 600) {
                let r = &mut ctx.rng;
                let mut ba: Vec<([f64; 3], [f64; 3])> = sections(r, ns);
                // band-edge sections: no response at zero frequency
                if ns > 0 && r.below(3) == 0 {
                    let k = r.below(ns);
                    ba[k].0 = *r.pick(&[[1.0, -2.0, 1.0], [0.5, -0.5, 0.0], [1.0, 0.0, -1.0], [0.0, 0.0, 0.0]]);
                }
                if ns > 0 && r.below(4) == 0 { let k = r.below(ns); ba[k].0 = ba[k].0.map(|x| x * 1e-9); }
                if ba.iter().any(|x| x.1.iter().sum::<f64>().abs() < 0.02) { continue; }
                let mut s: Vec<Sos<f64>> = ba.iter().map(|(b, a)| { let mut s = Sos::new(*b, *a); s.zi0 = r.f(-9.0, 9.0); s.zi1 = r.f(-9.0, 9.0); s }).collect();
                ctx.case(format!("sosfilt_zi_dyn {s:?}"), || {
                    sosfilt_zi_dyn::<_, _, Sos<f64>>(s.iter_mut());
                    let mut x = 1.0;
                    for (k, sec) in s.iter().enumerate() {
                        let (b, a) = ba[k];
                        ensure(sec.b == b && sec.a == a, || format!("coefficients of section {k} changed"))?;
                        let g = b.iter().sum::<f64>() / a.iter().sum::<f64>();
                        let y = b[0] * x + sec.zi0;
                        let (z0, z1) = (b[1] * x - a[1] * y + sec.zi1, b[2] * x - a[2] * y);
                        let sc = x.abs() * (1.0 + g.abs()) * 4.0;
                        ensure(close(y, g * x, 1e-9, sc), || format!("section {k} answers {y} instead of {}", g * x))?;
                        ensure(close(z0, sec.zi0, 1e-9, sc) && close(z1, sec.zi1, 1e-9, sc), || format!("state of section {k} moves from ({}, {}) to ({z0}, {z1})", sec.zi0, sec.zi1))?;
                        x *= g;
                    }
                    Ok(())
                });
            }
        }
    });
}
