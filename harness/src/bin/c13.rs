use harness::*;
use sci_rs::signal::filter::design::*;
use std::f64::consts::PI;

fn set_close(g: &[C], e: &[C], tol: f64) -> Result<(), String> {
    ensure(g.len() == e.len(), || format!("{} values instead of {}", g.len(), e.len()))?;
    let mut left = e.to_vec();
    for x in g {
        let (i, d) = left.iter().enumerate().map(|(i, y)| (i, (x - y).norm())).fold((0, f64::INFINITY), |a, b| if b.1 < a.1 { b } else { a });
        ensure(d <= tol * (1.0 + x.norm()), || format!("{x} is not one of the expected values (nearest {:?})", left.get(i)))?;
        left.remove(i);
    }
    Ok(())
}
fn ms(n: usize) -> Vec<f64> {
    (0..n).map(|i| -(n as f64) + 1.0 + 2.0 * i as f64).collect()
}
fn wide<F: nalgebra::RealField + Copy + Into<f64>>(z: &ZpkFormatFilter<F>) -> (Vec<C>, Vec<C>, f64) {
    (z.z.iter().map(|x| c(x.re.into(), x.im.into())).collect(), z.p.iter().map(|x| c(x.re.into(), x.im.into())).collect(), z.k.into())
}
fn butt(n: usize) -> (Vec<C>, Vec<C>, f64) {
    (vec![], ms(n).iter().map(|m| -(c(0.0, PI * m / (2.0 * n as f64))).exp()).collect(), 1.0)
}
fn cheb1(n: usize, rp: f64) -> (Vec<C>, Vec<C>, f64) {
    if n == 0 { return (vec![], vec![], 10f64.powf(-rp / 20.0)); }
    let eps = (10f64.powf(rp / 10.0) - 1.0).sqrt();
    let mu = (1.0 / eps).asinh() / n as f64;
    let p: Vec<C> = ms(n).iter().map(|m| { let t = PI * m / (2.0 * n as f64); c(-mu.sinh() * t.cos(), -mu.cosh() * t.sin()) }).collect();
    let mut k = p.iter().fold(c(1.0, 0.0), |a, x| a * -x).re;
    if n % 2 == 0 { k /= (1.0 + eps * eps).sqrt(); }
    (vec![], p, k)
}
fn cheb2(n: usize, rs: f64) -> (Vec<C>, Vec<C>, f64) {
    if n == 0 { return (vec![], vec![], 1.0); }
    let mu = (10f64.powf(rs / 10.0) - 1.0).sqrt().asinh() / n as f64;
    let z: Vec<C> = ms(n).iter().filter(|m| **m != 0.0).map(|m| c(0.0, 1.0 / (PI * m / (2.0 * n as f64)).sin())).collect();
    let p: Vec<C> = ms(n).iter().map(|m| { let t = PI * m / (2.0 * n as f64); c(1.0, 0.0) / c(-mu.sinh() * t.cos(), -mu.cosh() * t.sin()) }).collect();
    let k = (p.iter().fold(c(1.0, 0.0), |a, x| a * -x) / z.iter().fold(c(1.0, 0.0), |a, x| a * -x)).re;
    (z, p, k)
}
fn same(g: (Vec<C>, Vec<C>, f64), e: (Vec<C>, Vec<C>, f64), tol: f64) -> Result<(), String> {
    set_close(&g.0, &e.0, tol).map_err(|m| format!("zeros: {m}"))?;
    set_close(&g.1, &e.1, tol).map_err(|m| format!("poles: {m}"))?;
    ensure(close(g.2, e.2, tol, 0.0), || format!("gain {} instead of {}", g.2, e.2))?;
    for p in &g.1 {
        ensure(p.re < 0.0, || format!("pole {p} is not in the left half plane"))?;
    }
    Ok(())
}
fn main() {
    run(|ctx| {
        let mut orders: Vec<usize> = (0..=ctx.reps(40, 80)).collect();
        orders.extend(ctx.lit_sizes(100));
        orders.sort();
        orders.dedup();
        let mut rips = vec![1e-8, 1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.1, 0.5, 1.0, 2.0, 3.0, 5.0, 10.0, 20.0, 26.0, 40.0, 60.0, 80.0, 120.0];
        rips.extend(ctx.lit_floats().into_iter().filter(|x| *x > 1e-9 && *x < 150.0));
        for &n in &orders {
            ctx.case(format!("Butterworth prototype order {n}"), || {
                for f32_ in [false, true] {
                    let tol = if f32_ { 1e-4 } else { 1e-9 };
                    let g = if f32_ {
                        let DigitalFilter::Zpk(z) = butter_dyn::<f32>(n, vec![1.0], Some(FilterBandType::Lowpass), Some(true), Some(FilterOutputType::Zpk), None) else { return Err("not zpk".into()) };
                        wide(&z)
                    } else {
                        let DigitalFilter::Zpk(z) = butter_dyn::<f64>(n, vec![1.0], Some(FilterBandType::Lowpass), Some(true), Some(FilterOutputType::Zpk), None) else { return Err("not zpk".into()) };
                        wide(&z)
                    };
                    for p in &g.1 { ensure((p.norm() - 1.0).abs() < tol, || format!("pole {p} off the unit circle"))?; }
                    same(g, butt(n), tol)?;
                }
                Ok(())
            });
            let rips2: Vec<f64> = if ctx.thorough || n <= 12 { rips.clone() } else { (0..4).map(|_| *ctx.rng.pick(&rips)).collect() };
            for rp in rips2 {
                ctx.case(format!("cheb1ap_dyn({n}, {rp})"), || {
                    let g = wide(&cheb1ap_dyn::<f64>(n, rp));
                    let dc = heval(&g.0, &g.1, g.2, c(0.0, 0.0)).re;
                    let e = if n % 2 == 0 { 10f64.powf(-rp / 20.0) } else { 1.0 };
                    ensure(close(dc, e, 1e-7, 0.0), || format!("DC gain {dc} instead of {e}"))?;
                    same(g, cheb1(n, rp), 1e-7)?;
                    if rp >= 0.1 && n <= 8 && rp <= 40.0 { same(wide(&cheb1ap_dyn::<f32>(n, rp as f32)), cheb1(n, rp), 1e-2)?; }
                    Ok(())
                });
                ctx.case(format!("cheb2ap_dyn({n}, {rp})"), || {
                    let g = wide(&cheb2ap_dyn::<f64>(n, rp));
                    let dc = heval(&g.0, &g.1, g.2, c(0.0, 0.0)).re;
                    ensure(close(dc, 1.0, 1e-7, 0.0), || format!("DC gain {dc} instead of 1"))?;
                    same(g, cheb2(n, rp), 1e-7)?;
                    if rp >= 0.1 && n <= 8 && rp <= 40.0 { same(wide(&cheb2ap_dyn::<f32>(n, rp as f32)), cheb2(n, rp), 1e-2)?; }
                    Ok(())
                });
            }
        }
    });
}
