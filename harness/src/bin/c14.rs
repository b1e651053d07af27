use harness::*;
use sci_rs::signal::filter::design::*;

fn zpk(z: &[C], p: &[C], k: f64) -> ZpkFormatFilter<f64> {
    ZpkFormatFilter::new(z.to_vec(), p.to_vec(), k)
}
fn zpk32(z: &[C], p: &[C], k: f64) -> ZpkFormatFilter<f32> {
    let f = |v: &[C]| v.iter().map(|x| nalgebra::Complex::new(x.re as f32, x.im as f32)).collect();
    ZpkFormatFilter::new(f(z), f(p), k as f32)
}
fn w32(f: ZpkFormatFilter<f32>) -> ZpkFormatFilter<f64> {
    let g = |v: Vec<nalgebra::Complex<f32>>| v.iter().map(|x| c(x.re as f64, x.im as f64)).collect();
    ZpkFormatFilter::new(g(f.z), g(f.p), f.k as f64)
}
/// compares the transformed filter with h(g(s)) at a few points
fn cmp(f: &ZpkFormatFilter<f64>, nz: usize, np: usize, pts: &[C], tol: f64, h: impl Fn(C) -> C) -> Result<(), String> {
    ensure(f.z.len() == nz && f.p.len() == np, || format!("{} zeros and {} poles instead of {nz} and {np}", f.z.len(), f.p.len()))?;
    for s in pts {
        let e = h(*s);
        let g = heval(&f.z, &f.p, f.k, *s);
        ensure(cclose(g, e, tol, 1e-280), || format!("at s = {s} the result is {g} instead of {e}"))?;
    }
    Ok(())
}
fn main() {
    run(|ctx| {
        let mut ns: Vec<usize> = (0..=12).collect();
        ns.extend([15, 20, 33, 64, 130]);
        ns.extend(ctx.lit_sizes(30));
        ns.sort();
        ns.dedup();
        let lf: Vec<f64> = ctx.lit_floats().into_iter().filter(|x| *x > 1e-9 && *x < 1e9).collect();
        for _ in 0..ctx.reps(8, 80) {
            for &n in &ns {
                if !ctx.more() { return; }
                let r = &mut ctx.rng;
                let gen = |r: &mut Rng| { let m = r.f(0.3, 1.6); let t = r.f(1.65, 3.1); c(m * t.cos(), m * t.sin()) };
                let genz = |r: &mut Rng| { let m = r.f(0.3, 2.0); let t = r.f(0.1, 3.1); if r.coin() { c(0.0, m) } else { c(m * t.cos(), m * t.sin()) } };
                let pairs = r.below(n / 2 + 1);
                let p = conj_set(r, pairs, n - 2 * pairs, gen);
                let k = *r.pick(&[1.0, 0.25, -2.0, 3.5, 0.0, 1e-9, 1e9]);
                let wo = if r.coin() { *r.pick(&[1.0, 0.5, 2.0, 10.0, 0.01, 300.0, 1e-7, 1e6]) } else { r.f(0.2, 5.0) };
                let wo = if n > 20 { r.f(0.8, 1.25) } else { wo };
                let wo = if n > 8 && !(1e-2..=300.0).contains(&wo) { 3.0 } else { wo };
                let wo = if n <= 8 && !lf.is_empty() && r.below(4) == 0 { *r.pick(&lf) } else { wo };
                let bw = if n <= 8 && !lf.is_empty() && r.below(4) == 0 { *r.pick(&lf) } else { wo * *r.pick(&[1.0, 0.1, 0.5, 2.0, 3.7]) };
                let pts: Vec<C> = (0..5).map(|_| { let m = r.f(0.4, 2.5) * wo; let t = r.f(-1.5, 1.5); c(m * t.cos() + 0.05 * wo, m * t.sin()) }).collect();
                let d = format!("poles {p:?} k={k} wo={wo} bw={bw}");
                let h = |s: C| heval(&[], &p, k, s);
                let tol = if n <= 12 { 1e-7 } else if n <= 20 { 1e-5 } else { 1e-4 };
                let f32ok = n <= 4 && wo > 0.05 && wo < 50.0 && bw > 0.05 && bw < 50.0;
                ctx.case(format!("lp2lp_zpk_dyn {d}"), || { cmp(&lp2lp_zpk_dyn(zpk(&[], &p, k), Some(wo)), 0, n, &pts, tol, |s| h(s / wo))?; if f32ok { cmp(&w32(lp2lp_zpk_dyn(zpk32(&[], &p, k), Some(wo as f32))), 0, n, &pts, 5e-2, |s| h(s / wo))?; } Ok(()) });
                ctx.case(format!("lp2hp_zpk_dyn {d}"), || { cmp(&lp2hp_zpk_dyn(zpk(&[], &p, k), Some(wo)), n, n, &pts, tol, |s| h(c(wo, 0.0) / s))?; if f32ok { cmp(&w32(lp2hp_zpk_dyn(zpk32(&[], &p, k), Some(wo as f32))), n, n, &pts, 5e-2, |s| h(c(wo, 0.0) / s))?; } Ok(()) });
                if n > 40 { continue; }
                ctx.case(format!("lp2bp_zpk_dyn {d}"), || { cmp(&lp2bp_zpk_dyn(zpk(&[], &p, k), Some(wo), Some(bw)), n, 2 * n, &pts, tol, |s| h((s * s + wo * wo) / (s * bw)))?; if f32ok { cmp(&w32(lp2bp_zpk_dyn(zpk32(&[], &p, k), Some(wo as f32), Some(bw as f32))), n, 2 * n, &pts, 5e-2, |s| h((s * s + wo * wo) / (s * bw)))?; } Ok(()) });
                ctx.case(format!("lp2bs_zpk_dyn {d}"), || { cmp(&lp2bs_zpk_dyn(zpk(&[], &p, k), Some(wo), Some(bw)), 2 * n, 2 * n, &pts, tol, |s| h((s * bw) / (s * s + wo * wo)))?; if f32ok { cmp(&w32(lp2bs_zpk_dyn(zpk32(&[], &p, k), Some(wo as f32), Some(bw as f32))), 2 * n, 2 * n, &pts, 5e-2, |s| h((s * bw) / (s * s + wo * wo)))?; } Ok(()) });
                let one: Vec<C> = pts.iter().map(|s| s / wo).collect();
                ctx.case(format!("omitted parameters {d}"), || {
                    cmp(&lp2lp_zpk_dyn(zpk(&[], &p, k), None), 0, n, &one, tol, &h)?;
                    cmp(&lp2hp_zpk_dyn(zpk(&[], &p, k), None), n, n, &one, tol, |s| h(c(1.0, 0.0) / s))?;
                    cmp(&lp2bp_zpk_dyn(zpk(&[], &p, k), None, None), n, 2 * n, &one, tol, |s| h((s * s + 1.0) / s))?;
                    cmp(&lp2bp_zpk_dyn(zpk(&[], &p, k), Some(wo), None), n, 2 * n, &pts, tol * 10.0, |s| h((s * s + wo * wo) / s))?;
                    cmp(&lp2bp_zpk_dyn(zpk(&[], &p, k), None, Some(bw / wo)), n, 2 * n, &one, tol, |s| h((s * s + 1.0) / (s * bw / wo)))?;
                    cmp(&lp2bs_zpk_dyn(zpk(&[], &p, k), None, None), 2 * n, 2 * n, &one, tol, |s| h(s / (s * s + 1.0)))?;
                    cmp(&lp2bs_zpk_dyn(zpk(&[], &p, k), None, Some(bw / wo)), 2 * n, 2 * n, &one, tol, |s| h((s * bw / wo) / (s * s + 1.0)))
                });
                // with finite zeros: low-pass and band-pass
                let r = &mut ctx.rng;
                let m = r.below(n + 1);
                let zp = r.below(m / 2 + 1);
                let z = conj_set(r, zp, m - 2 * zp, genz);
                let hz = |s: C| heval(&z, &p, k, s);
                let d = format!("zeros {z:?} {d}");
                ctx.case(format!("lp2lp_zpk_dyn {d}"), || cmp(&lp2lp_zpk_dyn(zpk(&z, &p, k), Some(wo)), m, n, &pts, tol, |s| hz(s / wo)));
                ctx.case(format!("lp2bp_zpk_dyn {d}"), || cmp(&lp2bp_zpk_dyn(zpk(&z, &p, k), Some(wo), Some(bw)), n + m, 2 * n, &pts, tol * 10.0, |s| hz((s * s + wo * wo) / (s * bw))));
                let r = &mut ctx.rng;
                let more = n + 1 + r.below(4);
                let zz: Vec<C> = (0..more).map(|_| genz(r)).collect();
                ctx.case(format!("improper: {more} zeros, {n} poles"), || {
                    ensure(panics(|| lp2lp_zpk_dyn(zpk(&zz, &p, k), Some(wo))), || "lp2lp accepted".into())?;
                    ensure(panics(|| lp2hp_zpk_dyn(zpk(&zz, &p, k), Some(wo))), || "lp2hp accepted".into())?;
                    ensure(panics(|| lp2bp_zpk_dyn(zpk(&zz, &p, k), Some(wo), Some(bw))), || "lp2bp accepted".into())?;
                    ensure(panics(|| lp2bs_zpk_dyn(zpk(&zz, &p, k), Some(wo), Some(bw))), || "lp2bs accepted".into())
                });
            }
        }
        // the two transformations that are wrong for finite zeros: see known-findings
        let (z, p) = (vec![c(0.0, 1.5), c(0.0, -1.5)], vec![c(-0.5, 0.5), c(-0.5, -0.5), c(-1.0, 0.0)]);
        let pts = [c(0.7, 0.3), c(1.3, -0.8)];
        ctx.keyed("finite-zeros-lp2hp", format!("lp2hp_zpk_dyn zeros {z:?} poles {p:?} k=1 wo=2"), || cmp(&lp2hp_zpk_dyn(zpk(&z, &p, 1.0), Some(2.0)), 3, 3, &pts, 1e-9, |s| heval(&z, &p, 1.0, c(2.0, 0.0) / s)));
        ctx.keyed("finite-zeros-lp2bs", format!("lp2bs_zpk_dyn zeros {z:?} poles {p:?} k=1 wo=2 bw=1"), || cmp(&lp2bs_zpk_dyn(zpk(&z, &p, 1.0), Some(2.0), Some(1.0)), 6, 6, &pts, 1e-9, |s| heval(&z, &p, 1.0, s / (s * s + 4.0))));
    });
}
