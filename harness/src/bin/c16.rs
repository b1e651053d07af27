use harness::*;
use sci_rs::signal::filter::design::*;

/// monic polynomial with the given roots, highest degree first, by repeated multiplication
fn poly(z: &[C]) -> (Vec<C>, Vec<f64>) {
    let mut a = vec![c(1.0, 0.0)];
    let mut m = vec![1.0f64];
    for r in z {
        let mut b = a.clone();
        b.push(c(0.0, 0.0));
        let mut k = m.clone();
        k.push(0.0);
        for i in 0..a.len() {
            b[i + 1] -= a[i] * r;
            k[i + 1] += m[i] * r.norm();
        }
        a = b;
        m = k;
    }
    (a, m)
}
fn cmp(g: &[C], e: &[C], m: &[f64], tol: f64) -> Result<(), String> {
    ensure(g.len() == e.len(), || format!("{} coefficients instead of {}", g.len(), e.len()))?;
    for i in 0..e.len() {
        ensure((g[i] - e[i]).norm() <= tol * m[i], || format!("coefficient {i} is {} instead of {}", g[i], e[i]))?;
    }
    Ok(())
}
fn roots(r: &mut Rng, n: usize) -> Vec<C> {
    let kind = r.below(7);
    let g = |r: &mut Rng| match kind {
        0 => c(r.range(0, 8) as f64 - 4.0, r.range(0, 8) as f64 - 4.0),
        1 => c(r.range(0, 4) as f64 - 2.0, 0.0),
        2 => c(0.0, r.range(0, 4) as f64 - 2.0),
        3 => c(r.f(-1.5, 1.5), 0.0),
        _ => c(r.f(-1.5, 1.5), r.f(-1.5, 1.5)),
    };
    if r.coin() {
        let p = r.below(n / 2 + 1);
        conj_set(r, p, n - 2 * p, g)
    } else {
        (0..n).map(|_| g(r)).collect()
    }
}
fn main() {
    run(|ctx| {
        let mut ns: Vec<usize> = (0..=16).collect();
        ns.extend(ctx.lit_sizes(40));
        ns.extend([20, 24, 33, 40, 47, 63, 64, 66, 100]);
        ns.sort();
        ns.dedup();
        for _ in 0..ctx.reps(60, 600) {
            for &n in &ns {
                if !ctx.more() { return; }
                let mut z = roots(&mut ctx.rng, n);
                if n >= 2 && ctx.rng.below(4) == 0 { let x = z[0]; for i in 1..n { if ctx.rng.coin() { z[i] = x; } } }
                if n <= 16 && ctx.rng.below(5) == 0 { let s = *ctx.rng.pick(&[1e-9, 1e-4, 1e5]); z.iter_mut().for_each(|x| *x *= s); }
                let (e, m) = poly(&z);
                ctx.case(format!("poly_dyn complex {z:?}"), || cmp(&poly_dyn(&z), &e, &m, 1e-11));
                let re: Vec<f64> = z.iter().map(|x| x.re).collect();
                ctx.case(format!("poly_dyn real {re:?}"), || {
                    let (e, m) = poly(&re.iter().map(|x| c(*x, 0.0)).collect::<Vec<_>>());
                    let g: Vec<C> = poly_dyn(&re).iter().map(|x| c(*x, 0.0)).collect();
                    cmp(&g, &e, &m, 1e-11)
                });
                if n > 40 && ctx.rng.below(8) > 0 { continue; }
                let np = ctx.rng.below(9);
                let p = roots(&mut ctx.rng, np);
                let k = *ctx.rng.pick(&[1.0, -2.0, 0.125, 3.3, 0.0, 1e-12, -1e9]);
                let mut orders = vec![n.max(np), n.max(np) + 1, 2 * n.max(np), ctx.rng.below(12)];
                orders.push(2);
                for order in orders {
                    ctx.case(format!("zpk2tf_dyn order={order} z={z:?} p={p:?} k={k}"), || {
                        let f = zpk2tf_dyn(order, &z, &p, k);
                        for (name, g, roots, k) in [("b", &f.b, &z, k), ("a", &f.a, &p, 1.0)] {
                            ensure(g.len() == order + 1, || format!("{} coefficients in {name} instead of {}", g.len(), order + 1))?;
                            let (e, m) = poly(roots);
                            for i in 0..=order {
                                let x = if i < e.len() { k * e[i].re } else { 0.0 };
                                let t = if i < m.len() { 1e-11 * m[i] * k.abs() } else { 0.0 };
                                ensure((g[i] - x).abs() <= t, || format!("{name}[{i}] is {} instead of {x}", g[i]))?;
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    });
}
