use harness::*;
use sci_rs::signal::filter::design::*;

fn main() {
    run(|ctx| {
        let mut ns: Vec<usize> = (0..=14).collect();
        ns.extend([20, 32, 33]);
        ns.extend(ctx.lit_sizes(24));
        ns.sort();
        ns.dedup();
        let lf: Vec<f64> = ctx.lit_floats().into_iter().filter(|x| *x > 1e-9 && *x < 1e9).collect();
        for _ in 0..ctx.reps(25, 250) {
            for &n in &ns {
                if !ctx.more() { return; }
                let r = &mut ctx.rng;
                let fs = if !lf.is_empty() && r.below(4) == 0 { *r.pick(&lf) } else { *r.pick(&[2.0, 1.0, 0.5, 48000.0, 7.3, 1e-5, 2e8]) };
                // long products of very large or small factors leave the range of the format
                let fs = if n > 6 && (fs > 1e6 || fs < 1e-4) || n > 14 { 2.0 } else { fs };
                let sc = fs * *r.pick(&[1.0, 0.1, 3.0, 1e-3, 50.0]);
                let gp = |r: &mut Rng| { let m = r.f(0.1, 3.0) * sc; let t = r.f(1.6, 3.14); c(m * t.cos(), m * t.sin()) };
                let gz = |r: &mut Rng| { let m = r.f(0.1, 3.0) * sc; let t = r.f(0.0, 6.28); if r.coin() { c(0.0, m) } else { c(-(m * t.cos()).abs(), m * t.sin()) } };
                let m = r.below(n + 1);
                let (pp, zp) = (r.below(n / 2 + 1), r.below(m / 2 + 1));
                let mut p = conj_set(r, pp, n - 2 * pp, gp);
                let mut z = conj_set(r, zp, m - 2 * zp, gz);
                if m > 0 && r.below(3) == 0 { for x in z.iter_mut() { *x = c(0.0, 0.0); } }
                // roots in the right half plane, away from the pole of the transform at 2 fs
                if r.below(3) == 0 { for x in z.iter_mut() { if r.coin() && x.im == 0.0 { let y = -x.re; if (y - 2.0 * fs).abs() > 0.1 * fs { x.re = y; } } } }
                if r.below(6) == 0 { for x in p.iter_mut() { if r.coin() && x.im == 0.0 { let y = -x.re; if (y - 2.0 * fs).abs() > 0.1 * fs { x.re = y; } } } }
                let stable = p.iter().all(|x| x.re < 0.0);
                let k = *r.pick(&[1.0, 0.25, -2.0, 3.5, 0.0, 1e-9, 1e9]);
                let pts: Vec<C> = (0..5).map(|_| { let q = r.f(1.1, 2.5); let t = r.f(-3.0, 3.0); c(q * t.cos(), q * t.sin()) }).collect();
                ctx.case(format!("bilinear_zpk_dyn zeros {z:?} poles {p:?} k={k} fs={fs}"), || {
                    let f = bilinear_zpk_dyn(ZpkFormatFilter::new(z.clone(), p.clone(), k), fs);
                    ensure(f.p.len() == n && f.z.len() == n, || format!("{} zeros and {} poles instead of {n}", f.z.len(), f.p.len()))?;
                    ensure(f.z.iter().filter(|x| (**x + 1.0).norm() < 1e-12).count() >= n - m, || "extra zeros not at -1".into())?;
                    for x in &f.p { ensure(!stable || x.norm() < 1.0, || format!("pole {x} not inside the unit circle"))?; }
                    for q in &pts {
                        let sq = 2.0 * fs * (q - 1.0) / (q + 1.0);
                        if z.iter().chain(p.iter()).any(|x| (sq - x).norm() < 1e-3 * (sq.norm() + x.norm())) { continue; }
                        let e = heval(&z, &p, k, sq);
                        let g = heval(&f.z, &f.p, f.k, *q);
                        ensure(cclose(g, e, 1e-7, 1e-280), || format!("at z = {q} the result is {g} instead of {e}"))?;
                    }
                    if n <= 4 && fs < 10.0 && fs > 0.1 {
                        let f32v = |v: &Vec<C>| v.iter().map(|x| nalgebra::Complex::new(x.re as f32, x.im as f32)).collect::<Vec<_>>();
                        let f = bilinear_zpk_dyn(ZpkFormatFilter::new(f32v(&z), f32v(&p), k as f32), fs as f32);
                        let w = |v: &Vec<nalgebra::Complex<f32>>| v.iter().map(|x| c(x.re as f64, x.im as f64)).collect::<Vec<_>>();
                        for q in &pts {
                            let sq = 2.0 * fs * (q - 1.0) / (q + 1.0);
                            if z.iter().chain(p.iter()).any(|x| (sq - x).norm() < 5e-2 * (sq.norm() + x.norm())) { continue; }
                            let e = heval(&z, &p, k, sq);
                            let g = heval(&w(&f.z), &w(&f.p), f.k as f64, *q);
                            ensure(cclose(g, e, 2e-2, 1e-30), || format!("f32: at z = {q} the result is {g} instead of {e}"))?;
                        }
                    }
                    Ok(())
                });
                let r = &mut ctx.rng;
                let more = n + 1 + r.below(4);
                let zz: Vec<C> = (0..more).map(|_| gz(r)).collect();
                ctx.case(format!("improper: {more} zeros, {n} poles"), || ensure(panics(|| bilinear_zpk_dyn(ZpkFormatFilter::new(zz.clone(), p.clone(), k), fs)), || "accepted".into()));
            }
        }
    });
}
