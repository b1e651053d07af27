use harness::*;
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::*;

type S = ([f64; 3], [f64; 3]);
/// initial delays of each section for a unit step through the cascade
fn zi(sos: &[S]) -> Vec<(f64, f64)> {
    let mut scale = 1.0;
    sos.iter().map(|(b, a)| {
        let g = b.iter().sum::<f64>() / a.iter().sum::<f64>();
        let z1 = b[2] - a[2] * g;
        let z0 = b[1] - a[1] * g + z1;
        let r = (z0 * scale, z1 * scale);
        scale *= g;
        r
    }).collect()
}
fn filt(x: &[f64], sos: &[S], x0: f64) -> Vec<f64> {
    let mut st: Vec<(f64, f64)> = zi(sos).iter().map(|z| (z.0 * x0, z.1 * x0)).collect();
    x.iter().map(|v| {
        let mut x = *v;
        for (k, (b, a)) in sos.iter().enumerate() {
            let o = b[0] * x + st[k].0;
            st[k] = (b[1] * x - a[1] * o + st[k].1, b[2] * x - a[2] * o);
            x = o;
        }
        x
    }).collect()
}
fn edge(sos: &[S]) -> usize {
    let bz = sos.iter().filter(|s| s.0[2] == 0.0).count();
    let az = sos.iter().filter(|s| s.1[2] == 0.0).count();
    3 * (2 * sos.len() + 1 - bz.min(az))
}
fn expect(y: &[f64], sos: &[S]) -> Vec<f64> {
    let (n, e) = (y.len(), edge(sos));
    let mut x: Vec<f64> = (0..e).map(|i| 2.0 * y[0] - y[e - i]).collect();
    x.extend(y);
    x.extend((0..e).map(|d| 2.0 * y[n - 1] - y[n - 2 - d]));
    let mut f = filt(&x, sos, x[0]);
    f.reverse();
    let f0 = f[0];
    let mut z = filt(&f, sos, f0);
    z.reverse();
    z[e..e + n].to_vec()
}
fn one(ctx: &mut Ctx, y: &[f64], sos: &[S]) {
    let r = &mut ctx.rng;
    let s: Vec<Sos<f64>> = sos.iter().map(|(b, a)| { let mut s = Sos::new(*b, *a); if r.coin() { s.zi0 = r.f(-9.0, 9.0); s.zi1 = r.f(-9.0, 9.0); } s }).collect();
    let e = expect(y, sos);
    let sc = e.iter().chain(y).fold(0f64, |m, x| m.max(x.abs()));
    let s0 = s.clone();
    ctx.case(format!("sosfiltfilt_dyn::<f64> sections {s:?} input {y:?}"), || {
        close_all(&sosfiltfilt_dyn(y.iter(), &s), &e, 1e-8, sc)?;
        close_all(&sosfiltfilt_dyn(y.iter().copied().filter(|_| true), &s), &e, 1e-8, sc)?;
        for (k, (x, y)) in s.iter().zip(&s0).enumerate() {
            ensure(x.b == y.b && x.a == y.a && x.zi0 == y.zi0 && x.zi1 == y.zi1, || format!("section {k} changed"))?;
        }
        if y.iter().all(|v| *v == y[0]) {
            let g: f64 = sos.iter().map(|(b, a)| b.iter().sum::<f64>() / a.iter().sum::<f64>()).product();
            close_all(&sosfiltfilt_dyn(y.iter(), &s), &vec![y[0] * g * g; y.len()], 1e-8, sc)?;
        }
        Ok(())
    });
    if sos.len() <= 3 {
        let sf: Vec<Sos<f32>> = s.iter().map(|s| Sos::new(s.b.map(|x| x as f32), s.a.map(|x| x as f32))).collect();
        let yf: Vec<f32> = y.iter().map(|x| *x as f32).collect();
        if sos.iter().any(|(_, a)| a.iter().sum::<f64>().abs() < 0.1) { return; }
        ctx.case(format!("sosfiltfilt_dyn::<f32> sections {sf:?} input {yf:?}"), || {
            let g: Vec<f64> = sosfiltfilt_dyn(yf.iter(), &sf).iter().map(|x| *x as f64).collect();
            close_all(&g, &e, 2e-2, sc + 1e-3)
        });
    }
}
fn main() {
    run(|ctx| {
        let mut secs: Vec<usize> = (0..=8).collect();
        secs.extend([10, 12]);
        secs.extend(ctx.lit_sizes(22));
        secs.sort();
        secs.dedup();
        for ns in secs {
            for _ in 0..ctx.reps(60, 500) {
                if !ctx.more() { return; }
                let mut sos = sections(&mut ctx.rng, ns);
                for s in sos.iter_mut() {
                    let mut t = 0;
                    while s.1.iter().sum::<f64>().abs() < 0.02 { *s = sections(&mut ctx.rng, 1)[0]; t += 1; if t > 50 { break; } }
                }
                if ctx.rng.below(4) == 0 { for s in sos.iter_mut() { s.0[2] = 0.0; s.1 = [1.0, s.1[1].clamp(-0.6, 0.6), 0.0]; } }
                let e = edge(&sos);
                let mut lens = vec![e + 1, e + 2, e + ctx.rng.range(1, 20), e + ctx.rng.range(1, 120)];
                if ctx.rng.below(10) == 0 { lens.extend([e + 256, 2 * e, 2 * e + 1]); }
                let l = ctx.lit_sizes(600);
                if !l.is_empty() { lens.push(*ctx.rng.pick(&l)); }
                for n in lens {
                    if n <= e { continue; }
                    let y = scaled_signal(&mut ctx.rng, n);
                    one(ctx, &y, &sos);
                }
                let k = ctx.rng.f(-5.0, 5.0) * *ctx.rng.pick(&[1.0, 1.0, 1e-12, 1e9]);
                one(ctx, &vec![k; e + 5], &sos);
            }
        }
    });
}
