use harness::*;
use sci_rs::signal::filter::design::*;

fn hs(sos: &[Sos<f64>], q: C) -> C {
    let w = c(1.0, 0.0) / q;
    sos.iter().fold(c(1.0, 0.0), |h, s| h * (c(s.b[0], 0.0) + w * s.b[1] + w * w * s.b[2]) / (c(s.a[0], 0.0) + w * s.a[1] + w * w * s.a[2]))
}
fn quad_roots(a: [f64; 3]) -> [C; 2] {
    // a0 z^2 + a1 z + a2
    let d = c(a[1] * a[1] - 4.0 * a[0] * a[2], 0.0).sqrt();
    [(-a[1] + d) / (2.0 * a[0]), (-a[1] - d) / (2.0 * a[0])]
}
fn main() {
    run(|ctx| {
        let mut shapes: Vec<(usize, usize)> = vec![];
        for n in 0..=11usize { for m in 0..=11usize { shapes.push((m, n)); } }
        shapes.extend([(12, 12), (16, 16), (20, 20), (15, 16), (82, 82), (90, 85), (3, 101), (130, 130), (64, 66)]);
        for l in ctx.lit_sizes(24) { shapes.push((l, l)); }
        for rep in 0..ctx.reps(8, 100) {
            for &(m, n) in &shapes {
                if !ctx.more() { return; }
                let r = &mut ctx.rng;
                let (zp, pp) = match rep { 0 => (m / 2, n / 2), 1 => (0, n / 2), 2 => (m / 2, 0), _ => (r.below(m / 2 + 1), r.below(n / 2 + 1)) };
                let outside = r.below(5) == 0;
                let gp = |r: &mut Rng| { let q = if outside { r.f(0.05, 1.9) } else { r.f(0.05, 0.99) }; let t = r.f(0.05, 3.1); c(q * t.cos(), q * t.sin()) };
                let style = r.below(4);
                let gz = |r: &mut Rng| { let t = r.f(0.05, 3.1); match style { 0 => c(t.cos(), t.sin()), 1 => c(if r.coin() { 1.0 } else { -1.0 }, 0.0), 2 => c(-1.0, 0.0), _ => { let q = r.f(0.1, 1.5); c(q * t.cos(), q * t.sin()) } } };
                // style 1 and 2: all zeros real
                let zp = if style == 1 || style == 2 { 0 } else { zp };
                let mut z = conj_set(r, zp, m - 2 * zp, gz);
                if style == 1 || style == 2 { for x in z.iter_mut() { x.im = 0.0; } }
                let p = conj_set(r, pp, n - 2 * pp, gp);
                let (mut z, mut p) = (z, p);
                // conjugates equal up to rounding, several with nearly the same real part
                let rough = r.below(4) == 0;
                if rough {
                    let share = if p.is_empty() { 0.3 } else { p[0].re };
                    let same = r.coin();
                    for (l, sh) in [(&mut p, Some(share)), (&mut z, None)] {
                        // pairs of conjugates still standing exactly
                        let mut left: Vec<usize> = (0..l.len()).collect();
                        while let Some(i) = left.pop() {
                            let pos = left.iter().position(|&j| l[j].im == -l[i].im && l[j].re == l[i].re && l[i].im != 0.0);
                            if let Some(q) = pos {
                                let j = left.remove(q);
                                let re = if let (true, Some(x)) = (same, sh) { if l[i].im.abs() < 0.7 { x.clamp(-0.6, 0.6) } else { l[i].re } } else { l[i].re };
                                let e = f64::EPSILON;
                                let im = l[i].im;
                                match r.below(3) {
                                    0 => { l[i] = c(re * (1.0 + e), im); l[j] = c(re, -im); }
                                    1 => { l[i] = c(re, im); l[j] = c(re * (1.0 + e), -im); }
                                    _ => { l[i] = c(re, im * (1.0 + e)); l[j] = c(re, -im); }
                                }
                            }
                        }
                        // a numerically real pair
                        let re: Vec<usize> = (0..l.len()).filter(|&i| l[i].im == 0.0 && l[i].re != 0.0).collect();
                        if re.len() >= 2 && r.coin() {
                            let x = l[re[0]].re;
                            l[re[0]] = c(x, x.abs() * 2e-16);
                            l[re[1]] = c(x, -x.abs() * 2e-16);
                        } else if !re.is_empty() && r.coin() {
                            let x = l[re[0]].re;
                            l[re[0]] = c(x, x * *r.pick(&[2e-16, -2e-16, 1e-14]));
                        }
                    }
                }
                // roots far inside or outside the circle
                if m.max(n) <= 12 && r.below(4) == 0 {
                    let sc = *r.pick(&[1.0 / 1024.0, 1.0 / 1048576.0, 32.0, 1024.0, 16384.0]);
                    for x in z.iter_mut().chain(p.iter_mut()) { *x = *x * sc; }
                }
                let tol = if rough { 1e-5 } else { 1e-7 };
                // a few exact repetitions
                let k = *r.pick(&[1.0, -2.0, 0.125, 1e-6, 40.0, 0.0, 1e-12, -1e8]);
                let order = *r.pick(&[n, n / 2, 2 * n]);
                let pairing = r.coin();
                let pts: Vec<C> = (0..5).map(|_| { let q = r.f(1.05, 1.6); let t = r.f(-3.1, 3.1); c(q * t.cos(), q * t.sin()) }).collect();
                ctx.case(format!("zpk2sos_dyn order={order} z={z:?} p={p:?} k={k} pairing={}", if pairing { "Nearest" } else { "default" }), || {
                    let f = zpk2sos_dyn(order, ZpkFormatFilter::new(z.clone(), p.clone(), k), if pairing { Some(ZpkPairing::Nearest) } else { None }, if pairing { None } else { Some(false) }).sos;
                    let e = if n.max(m) == 0 { 1 } else { (n.max(m) + 1) / 2 };
                    ensure(f.len() == e, || format!("{} sections instead of {e}", f.len()))?;
                    for (i, s) in f.iter().enumerate() {
                        ensure(close(s.a[0], 1.0, 1e-14, 0.0), || format!("a[0] of section {i} is {}", s.a[0]))?;
                        ensure(s.zi0 == 0.0 && s.zi1 == 0.0, || "delays not zero".into())?;
                    }
                    for q in &pts {
                        let e = heval(&z, &p, k, *q) * q.powi(n as i32 - m as i32);
                        let e = if m > n { heval(&z, &p, k, *q) / q.powi((m - n) as i32) } else if n > m { heval(&z, &p, k, *q) * q.powi((n - m) as i32) } else { e };
                        let g = hs(&f, *q);
                        ensure(cclose(g, e, tol, 1e-280), || format!("at z = {q} the cascade is {g} instead of {e}"))?;
                    }
                    if n > 0 {
                        let worst = p.iter().chain(if 2 * e > n { Some(c(0.0, 0.0)) } else { None }.iter()).map(|x| (1.0 - x.norm()).abs()).fold(f64::INFINITY, f64::min);
                        let last = quad_roots(f[e - 1].a).iter().map(|x| (1.0 - x.norm()).abs()).fold(f64::INFINITY, f64::min);
                        ensure((last - worst).abs() < 1e-6 * (1.0 + worst), || format!("the last section's pole is {last} from the unit circle, the closest pole {worst}"))?;
                    }
                    Ok(())
                });
            }
        }
    });
}
