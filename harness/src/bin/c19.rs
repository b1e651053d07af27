use harness::*;
use sci_rs::signal::filter::{savgol_coeffs_dyn, savgol_filter_dyn};

/// minimum-norm solution of the moment equations, by Gaussian elimination on A A^T (rows scaled)
fn coeffs(w: usize, po: usize, deriv: usize, delta: f64) -> Vec<f64> {
    if deriv > po { return vec![0.0; w]; }
    let h = (w as f64 - 1.0) / 2.0;
    let pos: Vec<f64> = (0..w).map(|i| h - i as f64).collect();
    let sc = h.max(1.0);
    let rows: Vec<Vec<f64>> = (0..=po).map(|i| pos.iter().map(|p| (p / sc).powi(i as i32)).collect()).collect();
    let mut y = vec![0.0; po + 1];
    y[deriv] = (1..=deriv).map(|x| x as f64).product::<f64>() / delta.powi(deriv as i32) / sc.powi(deriv as i32);
    let n = po + 1;
    let mut m: Vec<Vec<f64>> = (0..n).map(|i| { let mut r: Vec<f64> = (0..n).map(|j| rows[i].iter().zip(&rows[j]).map(|(a, b)| a * b).sum()).collect(); r.push(y[i]); r }).collect();
    for i in 0..n {
        let p = (i..n).max_by(|a, b| m[*a][i].abs().partial_cmp(&m[*b][i].abs()).unwrap()).unwrap();
        m.swap(i, p);
        for r in 0..n { if r != i { let f = m[r][i] / m[i][i]; for k in i..=n { let v = m[i][k]; m[r][k] -= f * v; } } }
    }
    let x: Vec<f64> = (0..n).map(|i| m[i][n] / m[i][i]).collect();
    (0..w).map(|j| (0..n).map(|i| x[i] * rows[i][j]).sum()).collect()
}
fn main() {
    run(|ctx| {
        let mut ws: Vec<usize> = (1..=25).collect();
        ws.extend([31, 51]);
        ws.extend(ctx.lit_sizes(61).into_iter().filter(|x| *x >= 1));
        ws.sort();
        ws.dedup();
        for &w in &ws { for po in 0..=5usize.min(w - 1) {
            if po == w - 1 && po > 3 { continue; }
            for deriv in 0..=po + 2 { for delta in [None, Some(1.0), Some(0.5), Some(2.0), Some(0.1), Some(-1.0), Some(-0.4)] {
                if !ctx.more() { return; }
                let dv = if deriv == 0 && delta.is_none() { None } else { Some(deriv) };
                let e = coeffs(w, po, deriv, delta.unwrap_or(1.0));
                let sc = norm(&e);
                let tol = if po >= 4 { 1e-4 } else { 1e-7 };
                ctx.case(format!("savgol_coeffs_dyn({w}, {po}, {dv:?}, {delta:?})"), || {
                    close_all(&savgol_coeffs_dyn::<f64>(w, po, dv, delta), &e, tol, sc)?;
                    if deriv == 0 { close_all(&savgol_coeffs_dyn::<f64>(w, po, None, delta), &e, tol, sc)?; }
                    if po <= 2 && w <= 15 {
                        let g: Vec<f64> = savgol_coeffs_dyn::<f32>(w, po, dv, delta.map(|x| x as f32)).iter().map(|x| *x as f64).collect();
                        close_all(&g, &e, 1e-2, sc)?;
                    }
                    Ok(())
                });
                if w % 2 == 1 && w >= po + 2 {
                    let mut lens: Vec<usize> = vec![0, 1, 2, 3, w / 2, w / 2 + 1, w - 1, w, w + 1, 2 * w, 40];
                    if deriv == 0 { lens.extend(ctx.lit_sizes(64)); }
                    lens.sort();
                    lens.dedup();
                    for n in lens {
                        let y = scaled_signal(&mut ctx.rng, n);
                        ctx.case(format!("savgol_filter_dyn window={w} polyorder={po} deriv={dv:?} delta={delta:?} input {y:?}"), || {
                            let g = savgol_filter_dyn::<_, f64>(y.iter(), w, po, dv, delta);
                            let h = w / 2;
                            let x: Vec<f64> = (0..n).map(|i| (0..w).map(|j| { let k = (i + j).saturating_sub(h).min(n.saturating_sub(1)); y[k] * e[w - 1 - j] }).sum()).collect();
                            let s2 = sc * norm(&y) + 1e-300;
                            close_all(&g, &x, tol * 10.0, s2)?;
                            close_all(&savgol_filter_dyn::<_, f64>(y.iter().copied().filter(|_| true), w, po, dv, delta), &x, tol * 10.0, s2)
                        });
                    }
                }
            } }
        } }
        // wide windows, high derivatives and orders
        for (w, po, d) in [(101usize, 3usize, 0usize), (103, 2, 0), (127, 4, 0), (201, 3, 1), (255, 2, 0), (501, 3, 0), (1001, 2, 0), (1025, 1, 1), (9, 6, 6), (13, 7, 6), (15, 7, 7), (21, 8, 8), (12, 6, 6), (100, 3, 2), (102, 2, 0), (8, 6, 0), (10, 7, 2), (9, 7, 0)] {
            for delta in [None, Some(0.5), Some(-2.0)] {
                let e = coeffs(w, po, d, delta.unwrap_or(1.0));
                let sc = norm(&e);
                ctx.case(format!("savgol_coeffs_dyn({w}, {po}, Some({d}), {delta:?})"), || close_all(&savgol_coeffs_dyn::<f64>(w, po, Some(d), delta), &e, 1e-3, sc));
            }
        }
        for w in 1..=12usize { for po in w..=w + 3 { for deriv in [None, Some(1), Some(po)] {
            ctx.case(format!("savgol_coeffs_dyn({w}, {po}, {deriv:?}, None) must be rejected"), || ensure(panics(|| savgol_coeffs_dyn::<f64>(w, po, deriv, None)), || "accepted".into()));
        } } }
        for w in 1..=16usize { for po in 0..=8usize {
            if w % 2 == 0 || w < po + 2 {
                let y = [1.0, 2.0, 4.0, 3.0, 5.0, 1.0, 0.0];
                ctx.case(format!("savgol_filter_dyn window={w} polyorder={po} must be rejected"), || {
                    ensure(panics(|| savgol_filter_dyn::<_, f64>(y.iter(), w, po, None, None)), || "accepted".into())?;
                    ensure(panics(|| savgol_filter_dyn::<_, f64>(y[..0].iter(), w, po, Some(1), Some(0.5))), || "accepted (empty input)".into())
                });
            }
        } }
    });
}
