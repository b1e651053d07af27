use harness::*;
use sci_rs::stats::{autocorr_fast32, rms_fast32};

fn ac<const N: usize, const M: usize, const S: usize>(ctx: &mut Ctx) {
    for kind in 0..ctx.reps(4, 20) {
        let mut y = [0f32; N];
        let r = &mut ctx.rng;
        match kind {
            0 => { let s = signal(r, N); for i in 0..N { y[i] = s[i] as f32; } }
            1 => { for i in 0..N { y[i] = (r.range(0, 16) as f32) - 8.0; } }
            2 => { let s = *r.pick(&[1e-3, 1e-8, 1e-12, 1e6, 1e12]); for i in 0..N { y[i] = (s * r.f(0.2, 3.0)) as f32; } }
            _ => { for i in 0..N { y[i] = r.f(-2.0, 3.0) as f32; } }
        }
        let y0 = y;
        ctx.case(format!("autocorr_fast32 N={N} M={M} SKIP={S} y={y0:?}"), move || {
            let w: Vec<f64> = y0.iter().map(|x| *x as f64).collect();
            let m = w.iter().sum::<f64>() / N as f64;
            let d: Vec<f64> = w.iter().map(|x| x - m).collect();
            let sc = d.iter().map(|x| x * x).sum::<f64>();
            let mx = w.iter().fold(0f64, |a, x| a.max(x.abs()));
            let mut x = [f32::NAN; M];
            let v = autocorr_fast32::<N, M, S>(&mut y, &mut x) as f64;
            close_all(&y.iter().map(|x| *x as f64).collect::<Vec<_>>(), &d, 1e-4, mx).map_err(|e| format!("y after the call: {e}"))?;
            ensure(close(v, sc / N as f64, 1e-4, mx * mx * 1e-2), || format!("variance {v} instead of {}", sc / N as f64))?;
            let e: Vec<f64> = (0..M).map(|i| (0..N - S - i).map(|t| d[t] * d[t + S + i]).sum()).collect();
            close_all(&x.iter().map(|x| *x as f64).collect::<Vec<_>>(), &e, 1e-4, sc + mx * mx * 1e-2).map_err(|e| format!("x: {e}"))
        });
    }
}
fn rms<const N: usize>(ctx: &mut Ctx) {
    for kind in 0..ctx.reps(6, 40) {
        let mut y = [0f32; N];
        let r = &mut ctx.rng;
        match kind {
            0 => { let s = signal(r, N); for i in 0..N { y[i] = s[i] as f32; } }
            1 => { y[N - 1] = 3.0; }
            2 => { for i in 0..N { y[i] = (r.range(0, 16) as f32) - 8.0; } }
            _ => { let sc = *r.pick(&[1.0, 1e-6, 1e6]); for i in 0..N { y[i] = (r.f(-2.0, 3.0) * sc) as f32; } }
        }
        ctx.case(format!("rms_fast32 N={N} y={y:?}"), move || {
            let e = (y.iter().map(|x| (*x as f64) * (*x as f64)).sum::<f64>() / N as f64).sqrt();
            let g = rms_fast32::<N>(&y) as f64;
            ensure(close(g, e, 1e-4, 0.0), || format!("got {g}, expected {e}"))
        });
    }
    for k in 0..N {
        let mut y = [0f32; N];
        y[k] = 2.0;
        ctx.case(format!("rms_fast32 N={N} y={y:?}"), move || {
            let e = (4.0 / N as f64).sqrt();
            let g = rms_fast32::<N>(&y) as f64;
            ensure(close(g, e, 1e-4, 0.0), || format!("got {g}, expected {e}"))
        });
    }
}
fn main() {
    run(|ctx| {
        ac::<1, 0, 0>(ctx);
        ac::<1, 0, 1>(ctx);
        ac::<1, 1, 0>(ctx);
        ac::<2, 0, 0>(ctx);
        ac::<2, 1, 0>(ctx);
        ac::<2, 1, 1>(ctx);
        ac::<2, 2, 0>(ctx);
        ac::<3, 1, 0>(ctx);
        ac::<3, 1, 1>(ctx);
        ac::<3, 1, 2>(ctx);
        ac::<3, 2, 1>(ctx);
        ac::<3, 3, 0>(ctx);
        ac::<4, 1, 0>(ctx);
        ac::<4, 1, 1>(ctx);
        ac::<4, 1, 3>(ctx);
        ac::<4, 2, 0>(ctx);
        ac::<4, 2, 1>(ctx);
        ac::<4, 2, 2>(ctx);
        ac::<4, 3, 1>(ctx);
        ac::<4, 4, 0>(ctx);
        ac::<5, 1, 0>(ctx);
        ac::<5, 1, 1>(ctx);
        ac::<5, 1, 4>(ctx);
        ac::<5, 2, 0>(ctx);
        ac::<5, 2, 1>(ctx);
        ac::<5, 2, 2>(ctx);
        ac::<5, 4, 1>(ctx);
        ac::<5, 5, 0>(ctx);
        ac::<6, 1, 0>(ctx);
        ac::<6, 1, 5>(ctx);
        ac::<6, 2, 2>(ctx);
        ac::<6, 3, 0>(ctx);
        ac::<6, 3, 1>(ctx);
        ac::<6, 3, 3>(ctx);
        ac::<6, 5, 0>(ctx);
        ac::<6, 5, 1>(ctx);
        ac::<6, 6, 0>(ctx);
        ac::<7, 1, 0>(ctx);
        ac::<7, 1, 6>(ctx);
        ac::<7, 2, 2>(ctx);
        ac::<7, 3, 0>(ctx);
        ac::<7, 3, 1>(ctx);
        ac::<7, 3, 3>(ctx);
        ac::<7, 5, 0>(ctx);
        ac::<7, 6, 1>(ctx);
        ac::<7, 7, 0>(ctx);
        ac::<8, 1, 0>(ctx);
        ac::<8, 1, 7>(ctx);
        ac::<8, 2, 2>(ctx);
        ac::<8, 4, 0>(ctx);
        ac::<8, 4, 1>(ctx);
        ac::<8, 4, 3>(ctx);
        ac::<8, 5, 0>(ctx);
        ac::<8, 7, 1>(ctx);
        ac::<8, 8, 0>(ctx);
        ac::<9, 1, 0>(ctx);
        ac::<9, 1, 8>(ctx);
        ac::<9, 3, 3>(ctx);
        ac::<9, 4, 0>(ctx);
        ac::<9, 4, 1>(ctx);
        ac::<9, 4, 3>(ctx);
        ac::<9, 5, 0>(ctx);
        ac::<9, 8, 1>(ctx);
        ac::<9, 9, 0>(ctx);
        ac::<10, 1, 0>(ctx);
        ac::<10, 1, 9>(ctx);
        ac::<10, 3, 3>(ctx);
        ac::<10, 5, 0>(ctx);
        ac::<10, 5, 1>(ctx);
        ac::<10, 5, 3>(ctx);
        ac::<10, 9, 1>(ctx);
        ac::<10, 10, 0>(ctx);
        ac::<11, 1, 0>(ctx);
        ac::<11, 1, 10>(ctx);
        ac::<11, 3, 3>(ctx);
        ac::<11, 5, 0>(ctx);
        ac::<11, 5, 1>(ctx);
        ac::<11, 5, 3>(ctx);
        ac::<11, 10, 1>(ctx);
        ac::<11, 11, 0>(ctx);
        ac::<12, 1, 0>(ctx);
        ac::<12, 1, 11>(ctx);
        ac::<12, 4, 4>(ctx);
        ac::<12, 5, 0>(ctx);
        ac::<12, 6, 0>(ctx);
        ac::<12, 6, 1>(ctx);
        ac::<12, 6, 3>(ctx);
        ac::<12, 11, 1>(ctx);
        ac::<12, 12, 0>(ctx);
        ac::<13, 1, 0>(ctx);
        ac::<13, 1, 12>(ctx);
        ac::<13, 4, 4>(ctx);
        ac::<13, 5, 0>(ctx);
        ac::<13, 6, 0>(ctx);
        ac::<13, 6, 1>(ctx);
        ac::<13, 6, 3>(ctx);
        ac::<13, 12, 1>(ctx);
        ac::<13, 13, 0>(ctx);
        ac::<14, 1, 0>(ctx);
        ac::<14, 1, 13>(ctx);
        ac::<14, 4, 4>(ctx);
        ac::<14, 5, 0>(ctx);
        ac::<14, 7, 0>(ctx);
        ac::<14, 7, 1>(ctx);
        ac::<14, 7, 3>(ctx);
        ac::<14, 13, 1>(ctx);
        ac::<14, 14, 0>(ctx);
        ac::<15, 1, 0>(ctx);
        ac::<15, 1, 14>(ctx);
        ac::<15, 5, 0>(ctx);
        ac::<15, 5, 5>(ctx);
        ac::<15, 7, 0>(ctx);
        ac::<15, 7, 1>(ctx);
        ac::<15, 7, 3>(ctx);
        ac::<15, 14, 1>(ctx);
        ac::<15, 15, 0>(ctx);
        ac::<16, 1, 0>(ctx);
        ac::<16, 1, 15>(ctx);
        ac::<16, 5, 0>(ctx);
        ac::<16, 5, 5>(ctx);
        ac::<16, 7, 3>(ctx);
        ac::<16, 8, 0>(ctx);
        ac::<16, 8, 1>(ctx);
        ac::<16, 15, 1>(ctx);
        ac::<16, 16, 0>(ctx);
        ac::<17, 1, 0>(ctx);
        ac::<17, 1, 16>(ctx);
        ac::<17, 5, 0>(ctx);
        ac::<17, 5, 5>(ctx);
        ac::<17, 7, 3>(ctx);
        ac::<17, 8, 0>(ctx);
        ac::<17, 8, 1>(ctx);
        ac::<17, 16, 1>(ctx);
        ac::<17, 17, 0>(ctx);
        ac::<18, 1, 0>(ctx);
        ac::<18, 1, 17>(ctx);
        ac::<18, 5, 0>(ctx);
        ac::<18, 6, 6>(ctx);
        ac::<18, 7, 3>(ctx);
        ac::<18, 9, 0>(ctx);
        ac::<18, 9, 1>(ctx);
        ac::<18, 17, 1>(ctx);
        ac::<18, 18, 0>(ctx);
        ac::<19, 1, 0>(ctx);
        ac::<19, 1, 18>(ctx);
        ac::<19, 5, 0>(ctx);
        ac::<19, 6, 6>(ctx);
        ac::<19, 7, 3>(ctx);
        ac::<19, 9, 0>(ctx);
        ac::<19, 9, 1>(ctx);
        ac::<19, 18, 1>(ctx);
        ac::<19, 19, 0>(ctx);
        ac::<20, 1, 0>(ctx);
        ac::<20, 1, 19>(ctx);
        ac::<20, 5, 0>(ctx);
        ac::<20, 6, 6>(ctx);
        ac::<20, 7, 3>(ctx);
        ac::<20, 10, 0>(ctx);
        ac::<20, 10, 1>(ctx);
        ac::<20, 19, 1>(ctx);
        ac::<20, 20, 0>(ctx);
        ac::<21, 1, 0>(ctx);
        ac::<21, 1, 20>(ctx);
        ac::<21, 5, 0>(ctx);
        ac::<21, 7, 3>(ctx);
        ac::<21, 7, 7>(ctx);
        ac::<21, 10, 0>(ctx);
        ac::<21, 10, 1>(ctx);
        ac::<21, 20, 1>(ctx);
        ac::<21, 21, 0>(ctx);
        ac::<22, 1, 0>(ctx);
        ac::<22, 1, 21>(ctx);
        ac::<22, 5, 0>(ctx);
        ac::<22, 7, 3>(ctx);
        ac::<22, 7, 7>(ctx);
        ac::<22, 11, 0>(ctx);
        ac::<22, 11, 1>(ctx);
        ac::<22, 21, 1>(ctx);
        ac::<22, 22, 0>(ctx);
        ac::<23, 1, 0>(ctx);
        ac::<23, 1, 22>(ctx);
        ac::<23, 5, 0>(ctx);
        ac::<23, 7, 3>(ctx);
        ac::<23, 7, 7>(ctx);
        ac::<23, 11, 0>(ctx);
        ac::<23, 11, 1>(ctx);
        ac::<23, 22, 1>(ctx);
        ac::<23, 23, 0>(ctx);
        ac::<24, 1, 0>(ctx);
        ac::<24, 1, 23>(ctx);
        ac::<24, 5, 0>(ctx);
        ac::<24, 7, 3>(ctx);
        ac::<24, 8, 8>(ctx);
        ac::<24, 12, 0>(ctx);
        ac::<24, 12, 1>(ctx);
        ac::<24, 23, 1>(ctx);
        ac::<24, 24, 0>(ctx);
        ac::<25, 1, 0>(ctx);
        ac::<25, 1, 24>(ctx);
        ac::<25, 5, 0>(ctx);
        ac::<25, 7, 3>(ctx);
        ac::<25, 8, 8>(ctx);
        ac::<25, 12, 0>(ctx);
        ac::<25, 12, 1>(ctx);
        ac::<25, 24, 1>(ctx);
        ac::<25, 25, 0>(ctx);
        ac::<26, 1, 0>(ctx);
        ac::<26, 1, 25>(ctx);
        ac::<26, 5, 0>(ctx);
        ac::<26, 7, 3>(ctx);
        ac::<26, 8, 8>(ctx);
        ac::<26, 13, 0>(ctx);
        ac::<26, 13, 1>(ctx);
        ac::<26, 25, 1>(ctx);
        ac::<26, 26, 0>(ctx);
        ac::<27, 1, 0>(ctx);
        ac::<27, 1, 26>(ctx);
        ac::<27, 5, 0>(ctx);
        ac::<27, 7, 3>(ctx);
        ac::<27, 9, 9>(ctx);
        ac::<27, 13, 0>(ctx);
        ac::<27, 13, 1>(ctx);
        ac::<27, 26, 1>(ctx);
        ac::<27, 27, 0>(ctx);
        ac::<28, 1, 0>(ctx);
        ac::<28, 1, 27>(ctx);
        ac::<28, 5, 0>(ctx);
        ac::<28, 7, 3>(ctx);
        ac::<28, 9, 9>(ctx);
        ac::<28, 14, 0>(ctx);
        ac::<28, 14, 1>(ctx);
        ac::<28, 27, 1>(ctx);
        ac::<28, 28, 0>(ctx);
        ac::<29, 1, 0>(ctx);
        ac::<29, 1, 28>(ctx);
        ac::<29, 5, 0>(ctx);
        ac::<29, 7, 3>(ctx);
        ac::<29, 9, 9>(ctx);
        ac::<29, 14, 0>(ctx);
        ac::<29, 14, 1>(ctx);
        ac::<29, 28, 1>(ctx);
        ac::<29, 29, 0>(ctx);
        ac::<30, 1, 0>(ctx);
        ac::<30, 1, 29>(ctx);
        ac::<30, 5, 0>(ctx);
        ac::<30, 7, 3>(ctx);
        ac::<30, 10, 10>(ctx);
        ac::<30, 15, 0>(ctx);
        ac::<30, 15, 1>(ctx);
        ac::<30, 29, 1>(ctx);
        ac::<30, 30, 0>(ctx);
        ac::<31, 1, 0>(ctx);
        ac::<31, 1, 30>(ctx);
        ac::<31, 5, 0>(ctx);
        ac::<31, 7, 3>(ctx);
        ac::<31, 10, 10>(ctx);
        ac::<31, 15, 0>(ctx);
        ac::<31, 15, 1>(ctx);
        ac::<31, 30, 1>(ctx);
        ac::<31, 31, 0>(ctx);
        ac::<32, 1, 0>(ctx);
        ac::<32, 1, 31>(ctx);
        ac::<32, 5, 0>(ctx);
        ac::<32, 7, 3>(ctx);
        ac::<32, 10, 10>(ctx);
        ac::<32, 16, 0>(ctx);
        ac::<32, 16, 1>(ctx);
        ac::<32, 31, 1>(ctx);
        ac::<32, 32, 0>(ctx);
        ac::<33, 1, 0>(ctx);
        ac::<33, 1, 32>(ctx);
        ac::<33, 5, 0>(ctx);
        ac::<33, 7, 3>(ctx);
        ac::<33, 11, 11>(ctx);
        ac::<33, 16, 0>(ctx);
        ac::<33, 16, 1>(ctx);
        ac::<33, 32, 1>(ctx);
        ac::<33, 33, 0>(ctx);
        ac::<34, 1, 0>(ctx);
        ac::<34, 1, 33>(ctx);
        ac::<34, 5, 0>(ctx);
        ac::<34, 7, 3>(ctx);
        ac::<34, 11, 11>(ctx);
        ac::<34, 17, 0>(ctx);
        ac::<34, 17, 1>(ctx);
        ac::<34, 33, 1>(ctx);
        ac::<34, 34, 0>(ctx);
        ac::<35, 1, 0>(ctx);
        ac::<35, 1, 34>(ctx);
        ac::<35, 5, 0>(ctx);
        ac::<35, 7, 3>(ctx);
        ac::<35, 11, 11>(ctx);
        ac::<35, 17, 0>(ctx);
        ac::<35, 17, 1>(ctx);
        ac::<35, 34, 1>(ctx);
        ac::<35, 35, 0>(ctx);
        ac::<36, 1, 0>(ctx);
        ac::<36, 1, 35>(ctx);
        ac::<36, 5, 0>(ctx);
        ac::<36, 7, 3>(ctx);
        ac::<36, 12, 12>(ctx);
        ac::<36, 18, 0>(ctx);
        ac::<36, 18, 1>(ctx);
        ac::<36, 35, 1>(ctx);
        ac::<36, 36, 0>(ctx);
        ac::<37, 1, 0>(ctx);
        ac::<37, 1, 36>(ctx);
        ac::<37, 5, 0>(ctx);
        ac::<37, 7, 3>(ctx);
        ac::<37, 12, 12>(ctx);
        ac::<37, 18, 0>(ctx);
        ac::<37, 18, 1>(ctx);
        ac::<37, 36, 1>(ctx);
        ac::<37, 37, 0>(ctx);
        ac::<38, 1, 0>(ctx);
        ac::<38, 1, 37>(ctx);
        ac::<38, 5, 0>(ctx);
        ac::<38, 7, 3>(ctx);
        ac::<38, 12, 12>(ctx);
        ac::<38, 19, 0>(ctx);
        ac::<38, 19, 1>(ctx);
        ac::<38, 37, 1>(ctx);
        ac::<38, 38, 0>(ctx);
        ac::<39, 1, 0>(ctx);
        ac::<39, 1, 38>(ctx);
        ac::<39, 5, 0>(ctx);
        ac::<39, 7, 3>(ctx);
        ac::<39, 13, 13>(ctx);
        ac::<39, 19, 0>(ctx);
        ac::<39, 19, 1>(ctx);
        ac::<39, 38, 1>(ctx);
        ac::<39, 39, 0>(ctx);
        ac::<40, 1, 0>(ctx);
        ac::<40, 1, 39>(ctx);
        ac::<40, 5, 0>(ctx);
        ac::<40, 7, 3>(ctx);
        ac::<40, 13, 13>(ctx);
        ac::<40, 20, 0>(ctx);
        ac::<40, 20, 1>(ctx);
        ac::<40, 39, 1>(ctx);
        ac::<40, 40, 0>(ctx);
        ac::<41, 1, 0>(ctx);
        ac::<41, 1, 40>(ctx);
        ac::<41, 5, 0>(ctx);
        ac::<41, 7, 3>(ctx);
        ac::<41, 13, 13>(ctx);
        ac::<41, 20, 0>(ctx);
        ac::<41, 20, 1>(ctx);
        ac::<41, 40, 1>(ctx);
        ac::<41, 41, 0>(ctx);
        ac::<42, 1, 0>(ctx);
        ac::<42, 1, 41>(ctx);
        ac::<42, 5, 0>(ctx);
        ac::<42, 7, 3>(ctx);
        ac::<42, 14, 14>(ctx);
        ac::<42, 21, 0>(ctx);
        ac::<42, 21, 1>(ctx);
        ac::<42, 41, 1>(ctx);
        ac::<42, 42, 0>(ctx);
        ac::<43, 1, 0>(ctx);
        ac::<43, 1, 42>(ctx);
        ac::<43, 5, 0>(ctx);
        ac::<43, 7, 3>(ctx);
        ac::<43, 14, 14>(ctx);
        ac::<43, 21, 0>(ctx);
        ac::<43, 21, 1>(ctx);
        ac::<43, 42, 1>(ctx);
        ac::<43, 43, 0>(ctx);
        ac::<44, 1, 0>(ctx);
        ac::<44, 1, 43>(ctx);
        ac::<44, 5, 0>(ctx);
        ac::<44, 7, 3>(ctx);
        ac::<44, 14, 14>(ctx);
        ac::<44, 22, 0>(ctx);
        ac::<44, 22, 1>(ctx);
        ac::<44, 43, 1>(ctx);
        ac::<44, 44, 0>(ctx);
        ac::<45, 1, 0>(ctx);
        ac::<45, 1, 44>(ctx);
        ac::<45, 5, 0>(ctx);
        ac::<45, 7, 3>(ctx);
        ac::<45, 15, 15>(ctx);
        ac::<45, 22, 0>(ctx);
        ac::<45, 22, 1>(ctx);
        ac::<45, 44, 1>(ctx);
        ac::<45, 45, 0>(ctx);
        ac::<46, 1, 0>(ctx);
        ac::<46, 1, 45>(ctx);
        ac::<46, 5, 0>(ctx);
        ac::<46, 7, 3>(ctx);
        ac::<46, 15, 15>(ctx);
        ac::<46, 23, 0>(ctx);
        ac::<46, 23, 1>(ctx);
        ac::<46, 45, 1>(ctx);
        ac::<46, 46, 0>(ctx);
        ac::<47, 1, 0>(ctx);
        ac::<47, 1, 46>(ctx);
        ac::<47, 5, 0>(ctx);
        ac::<47, 7, 3>(ctx);
        ac::<47, 15, 15>(ctx);
        ac::<47, 23, 0>(ctx);
        ac::<47, 23, 1>(ctx);
        ac::<47, 46, 1>(ctx);
        ac::<47, 47, 0>(ctx);
        ac::<48, 1, 0>(ctx);
        ac::<48, 1, 47>(ctx);
        ac::<48, 5, 0>(ctx);
        ac::<48, 7, 3>(ctx);
        ac::<48, 16, 16>(ctx);
        ac::<48, 24, 0>(ctx);
        ac::<48, 24, 1>(ctx);
        ac::<48, 47, 1>(ctx);
        ac::<48, 48, 0>(ctx);
        ac::<49, 1, 0>(ctx);
        ac::<49, 1, 48>(ctx);
        ac::<49, 5, 0>(ctx);
        ac::<49, 7, 3>(ctx);
        ac::<49, 16, 16>(ctx);
        ac::<49, 24, 0>(ctx);
        ac::<49, 24, 1>(ctx);
        ac::<49, 48, 1>(ctx);
        ac::<49, 49, 0>(ctx);
        ac::<50, 1, 0>(ctx);
        ac::<50, 1, 49>(ctx);
        ac::<50, 5, 0>(ctx);
        ac::<50, 7, 3>(ctx);
        ac::<50, 16, 16>(ctx);
        ac::<50, 25, 0>(ctx);
        ac::<50, 25, 1>(ctx);
        ac::<50, 49, 1>(ctx);
        ac::<50, 50, 0>(ctx);
        ac::<51, 1, 0>(ctx);
        ac::<51, 1, 50>(ctx);
        ac::<51, 5, 0>(ctx);
        ac::<51, 7, 3>(ctx);
        ac::<51, 17, 17>(ctx);
        ac::<51, 25, 0>(ctx);
        ac::<51, 25, 1>(ctx);
        ac::<51, 50, 1>(ctx);
        ac::<51, 51, 0>(ctx);
        ac::<52, 1, 0>(ctx);
        ac::<52, 1, 51>(ctx);
        ac::<52, 5, 0>(ctx);
        ac::<52, 7, 3>(ctx);
        ac::<52, 17, 17>(ctx);
        ac::<52, 26, 0>(ctx);
        ac::<52, 26, 1>(ctx);
        ac::<52, 51, 1>(ctx);
        ac::<52, 52, 0>(ctx);
        ac::<53, 1, 0>(ctx);
        ac::<53, 1, 52>(ctx);
        ac::<53, 5, 0>(ctx);
        ac::<53, 7, 3>(ctx);
        ac::<53, 17, 17>(ctx);
        ac::<53, 26, 0>(ctx);
        ac::<53, 26, 1>(ctx);
        ac::<53, 52, 1>(ctx);
        ac::<53, 53, 0>(ctx);
        ac::<54, 1, 0>(ctx);
        ac::<54, 1, 53>(ctx);
        ac::<54, 5, 0>(ctx);
        ac::<54, 7, 3>(ctx);
        ac::<54, 18, 18>(ctx);
        ac::<54, 27, 0>(ctx);
        ac::<54, 27, 1>(ctx);
        ac::<54, 53, 1>(ctx);
        ac::<54, 54, 0>(ctx);
        ac::<55, 1, 0>(ctx);
        ac::<55, 1, 54>(ctx);
        ac::<55, 5, 0>(ctx);
        ac::<55, 7, 3>(ctx);
        ac::<55, 18, 18>(ctx);
        ac::<55, 27, 0>(ctx);
        ac::<55, 27, 1>(ctx);
        ac::<55, 54, 1>(ctx);
        ac::<55, 55, 0>(ctx);
        ac::<56, 1, 0>(ctx);
        ac::<56, 1, 55>(ctx);
        ac::<56, 5, 0>(ctx);
        ac::<56, 7, 3>(ctx);
        ac::<56, 18, 18>(ctx);
        ac::<56, 28, 0>(ctx);
        ac::<56, 28, 1>(ctx);
        ac::<56, 55, 1>(ctx);
        ac::<56, 56, 0>(ctx);
        ac::<57, 1, 0>(ctx);
        ac::<57, 1, 56>(ctx);
        ac::<57, 5, 0>(ctx);
        ac::<57, 7, 3>(ctx);
        ac::<57, 19, 19>(ctx);
        ac::<57, 28, 0>(ctx);
        ac::<57, 28, 1>(ctx);
        ac::<57, 56, 1>(ctx);
        ac::<57, 57, 0>(ctx);
        ac::<58, 1, 0>(ctx);
        ac::<58, 1, 57>(ctx);
        ac::<58, 5, 0>(ctx);
        ac::<58, 7, 3>(ctx);
        ac::<58, 19, 19>(ctx);
        ac::<58, 29, 0>(ctx);
        ac::<58, 29, 1>(ctx);
        ac::<58, 57, 1>(ctx);
        ac::<58, 58, 0>(ctx);
        ac::<59, 1, 0>(ctx);
        ac::<59, 1, 58>(ctx);
        ac::<59, 5, 0>(ctx);
        ac::<59, 7, 3>(ctx);
        ac::<59, 19, 19>(ctx);
        ac::<59, 29, 0>(ctx);
        ac::<59, 29, 1>(ctx);
        ac::<59, 58, 1>(ctx);
        ac::<59, 59, 0>(ctx);
        ac::<60, 1, 0>(ctx);
        ac::<60, 1, 59>(ctx);
        ac::<60, 5, 0>(ctx);
        ac::<60, 7, 3>(ctx);
        ac::<60, 20, 20>(ctx);
        ac::<60, 30, 0>(ctx);
        ac::<60, 30, 1>(ctx);
        ac::<60, 59, 1>(ctx);
        ac::<60, 60, 0>(ctx);
        ac::<61, 1, 0>(ctx);
        ac::<61, 1, 60>(ctx);
        ac::<61, 5, 0>(ctx);
        ac::<61, 7, 3>(ctx);
        ac::<61, 20, 20>(ctx);
        ac::<61, 30, 0>(ctx);
        ac::<61, 30, 1>(ctx);
        ac::<61, 60, 1>(ctx);
        ac::<61, 61, 0>(ctx);
        ac::<62, 1, 0>(ctx);
        ac::<62, 1, 61>(ctx);
        ac::<62, 5, 0>(ctx);
        ac::<62, 7, 3>(ctx);
        ac::<62, 20, 20>(ctx);
        ac::<62, 31, 0>(ctx);
        ac::<62, 31, 1>(ctx);
        ac::<62, 61, 1>(ctx);
        ac::<62, 62, 0>(ctx);
        ac::<63, 1, 0>(ctx);
        ac::<63, 1, 62>(ctx);
        ac::<63, 5, 0>(ctx);
        ac::<63, 7, 3>(ctx);
        ac::<63, 21, 21>(ctx);
        ac::<63, 31, 0>(ctx);
        ac::<63, 31, 1>(ctx);
        ac::<63, 62, 1>(ctx);
        ac::<63, 63, 0>(ctx);
        ac::<64, 1, 0>(ctx);
        ac::<64, 1, 63>(ctx);
        ac::<64, 5, 0>(ctx);
        ac::<64, 7, 3>(ctx);
        ac::<64, 21, 21>(ctx);
        ac::<64, 32, 0>(ctx);
        ac::<64, 32, 1>(ctx);
        ac::<64, 63, 1>(ctx);
        ac::<64, 64, 0>(ctx);
        ac::<65, 1, 0>(ctx);
        ac::<65, 1, 64>(ctx);
        ac::<65, 5, 0>(ctx);
        ac::<65, 7, 3>(ctx);
        ac::<65, 21, 21>(ctx);
        ac::<65, 32, 0>(ctx);
        ac::<65, 32, 1>(ctx);
        ac::<65, 64, 1>(ctx);
        ac::<65, 65, 0>(ctx);
        ac::<66, 1, 0>(ctx);
        ac::<66, 1, 65>(ctx);
        ac::<66, 5, 0>(ctx);
        ac::<66, 7, 3>(ctx);
        ac::<66, 22, 22>(ctx);
        ac::<66, 33, 0>(ctx);
        ac::<66, 33, 1>(ctx);
        ac::<66, 65, 1>(ctx);
        ac::<66, 66, 0>(ctx);
        ac::<67, 1, 0>(ctx);
        ac::<67, 1, 66>(ctx);
        ac::<67, 5, 0>(ctx);
        ac::<67, 7, 3>(ctx);
        ac::<67, 22, 22>(ctx);
        ac::<67, 33, 0>(ctx);
        ac::<67, 33, 1>(ctx);
        ac::<67, 66, 1>(ctx);
        ac::<67, 67, 0>(ctx);
        ac::<68, 1, 0>(ctx);
        ac::<68, 1, 67>(ctx);
        ac::<68, 5, 0>(ctx);
        ac::<68, 7, 3>(ctx);
        ac::<68, 22, 22>(ctx);
        ac::<68, 34, 0>(ctx);
        ac::<68, 34, 1>(ctx);
        ac::<68, 67, 1>(ctx);
        ac::<68, 68, 0>(ctx);
        ac::<69, 1, 0>(ctx);
        ac::<69, 1, 68>(ctx);
        ac::<69, 5, 0>(ctx);
        ac::<69, 7, 3>(ctx);
        ac::<69, 23, 23>(ctx);
        ac::<69, 34, 0>(ctx);
        ac::<69, 34, 1>(ctx);
        ac::<69, 68, 1>(ctx);
        ac::<69, 69, 0>(ctx);
        ac::<70, 1, 0>(ctx);
        ac::<70, 1, 69>(ctx);
        ac::<70, 5, 0>(ctx);
        ac::<70, 7, 3>(ctx);
        ac::<70, 23, 23>(ctx);
        ac::<70, 35, 0>(ctx);
        ac::<70, 35, 1>(ctx);
        ac::<70, 69, 1>(ctx);
        ac::<70, 70, 0>(ctx);
        ac::<95, 1, 0>(ctx);
        ac::<95, 1, 94>(ctx);
        ac::<95, 5, 0>(ctx);
        ac::<95, 7, 3>(ctx);
        ac::<95, 31, 31>(ctx);
        ac::<95, 47, 0>(ctx);
        ac::<95, 47, 1>(ctx);
        ac::<95, 94, 1>(ctx);
        ac::<95, 95, 0>(ctx);
        ac::<96, 1, 0>(ctx);
        ac::<96, 1, 95>(ctx);
        ac::<96, 5, 0>(ctx);
        ac::<96, 7, 3>(ctx);
        ac::<96, 32, 32>(ctx);
        ac::<96, 48, 0>(ctx);
        ac::<96, 48, 1>(ctx);
        ac::<96, 95, 1>(ctx);
        ac::<96, 96, 0>(ctx);
        ac::<97, 1, 0>(ctx);
        ac::<97, 1, 96>(ctx);
        ac::<97, 5, 0>(ctx);
        ac::<97, 7, 3>(ctx);
        ac::<97, 32, 32>(ctx);
        ac::<97, 48, 0>(ctx);
        ac::<97, 48, 1>(ctx);
        ac::<97, 96, 1>(ctx);
        ac::<97, 97, 0>(ctx);
        ac::<100, 1, 0>(ctx);
        ac::<100, 1, 99>(ctx);
        ac::<100, 5, 0>(ctx);
        ac::<100, 7, 3>(ctx);
        ac::<100, 33, 33>(ctx);
        ac::<100, 50, 0>(ctx);
        ac::<100, 50, 1>(ctx);
        ac::<100, 99, 1>(ctx);
        ac::<100, 100, 0>(ctx);
        ac::<127, 1, 0>(ctx);
        ac::<127, 1, 126>(ctx);
        ac::<127, 5, 0>(ctx);
        ac::<127, 7, 3>(ctx);
        ac::<127, 42, 42>(ctx);
        ac::<127, 63, 0>(ctx);
        ac::<127, 63, 1>(ctx);
        ac::<127, 126, 1>(ctx);
        ac::<127, 127, 0>(ctx);
        ac::<128, 1, 0>(ctx);
        ac::<128, 1, 127>(ctx);
        ac::<128, 5, 0>(ctx);
        ac::<128, 7, 3>(ctx);
        ac::<128, 42, 42>(ctx);
        ac::<128, 64, 0>(ctx);
        ac::<128, 64, 1>(ctx);
        ac::<128, 127, 1>(ctx);
        ac::<128, 128, 0>(ctx);
        ac::<129, 1, 0>(ctx);
        ac::<129, 1, 128>(ctx);
        ac::<129, 5, 0>(ctx);
        ac::<129, 7, 3>(ctx);
        ac::<129, 43, 43>(ctx);
        ac::<129, 64, 0>(ctx);
        ac::<129, 64, 1>(ctx);
        ac::<129, 128, 1>(ctx);
        ac::<129, 129, 0>(ctx);
        ac::<150, 1, 0>(ctx);
        ac::<150, 1, 149>(ctx);
        ac::<150, 5, 0>(ctx);
        ac::<150, 7, 3>(ctx);
        ac::<150, 50, 50>(ctx);
        ac::<150, 75, 0>(ctx);
        ac::<150, 75, 1>(ctx);
        ac::<150, 149, 1>(ctx);
        ac::<150, 150, 0>(ctx);
        ac::<200, 1, 0>(ctx);
        ac::<200, 1, 199>(ctx);
        ac::<200, 5, 0>(ctx);
        ac::<200, 7, 3>(ctx);
        ac::<200, 66, 66>(ctx);
        ac::<200, 100, 0>(ctx);
        ac::<200, 100, 1>(ctx);
        ac::<200, 199, 1>(ctx);
        ac::<200, 200, 0>(ctx);
        ac::<255, 1, 0>(ctx);
        ac::<255, 1, 254>(ctx);
        ac::<255, 5, 0>(ctx);
        ac::<255, 7, 3>(ctx);
        ac::<255, 85, 85>(ctx);
        ac::<255, 127, 0>(ctx);
        ac::<255, 127, 1>(ctx);
        ac::<255, 254, 1>(ctx);
        ac::<255, 255, 0>(ctx);
        ac::<256, 1, 0>(ctx);
        ac::<256, 1, 255>(ctx);
        ac::<256, 5, 0>(ctx);
        ac::<256, 7, 3>(ctx);
        ac::<256, 85, 85>(ctx);
        ac::<256, 128, 0>(ctx);
        ac::<256, 128, 1>(ctx);
        ac::<256, 255, 1>(ctx);
        ac::<256, 256, 0>(ctx);
        ac::<257, 1, 0>(ctx);
        ac::<257, 1, 256>(ctx);
        ac::<257, 5, 0>(ctx);
        ac::<257, 7, 3>(ctx);
        ac::<257, 85, 85>(ctx);
        ac::<257, 128, 0>(ctx);
        ac::<257, 128, 1>(ctx);
        ac::<257, 256, 1>(ctx);
        ac::<257, 257, 0>(ctx);
        ac::<300, 1, 0>(ctx);
        ac::<300, 1, 299>(ctx);
        ac::<300, 5, 0>(ctx);
        ac::<300, 7, 3>(ctx);
        ac::<300, 100, 100>(ctx);
        ac::<300, 150, 0>(ctx);
        ac::<300, 150, 1>(ctx);
        ac::<300, 299, 1>(ctx);
        ac::<300, 300, 0>(ctx);
        ac::<500, 1, 0>(ctx);
        ac::<500, 1, 499>(ctx);
        ac::<500, 5, 0>(ctx);
        ac::<500, 7, 3>(ctx);
        ac::<500, 166, 166>(ctx);
        ac::<500, 250, 0>(ctx);
        ac::<500, 250, 1>(ctx);
        ac::<500, 499, 1>(ctx);
        ac::<500, 500, 0>(ctx);
        ac::<512, 1, 0>(ctx);
        ac::<512, 1, 511>(ctx);
        ac::<512, 5, 0>(ctx);
        ac::<512, 7, 3>(ctx);
        ac::<512, 170, 170>(ctx);
        ac::<512, 256, 0>(ctx);
        ac::<512, 256, 1>(ctx);
        ac::<512, 511, 1>(ctx);
        ac::<512, 512, 0>(ctx);
        ac::<1000, 1, 0>(ctx);
        ac::<1000, 1, 999>(ctx);
        ac::<1000, 5, 0>(ctx);
        ac::<1000, 7, 3>(ctx);
        ac::<1000, 333, 333>(ctx);
        ac::<1000, 500, 0>(ctx);
        ac::<1000, 500, 1>(ctx);
        ac::<1000, 999, 1>(ctx);
        ac::<1000, 1000, 0>(ctx);
        rms::<1>(ctx);
        rms::<2>(ctx);
        rms::<3>(ctx);
        rms::<4>(ctx);
        rms::<5>(ctx);
        rms::<6>(ctx);
        rms::<7>(ctx);
        rms::<8>(ctx);
        rms::<9>(ctx);
        rms::<10>(ctx);
        rms::<11>(ctx);
        rms::<12>(ctx);
        rms::<13>(ctx);
        rms::<14>(ctx);
        rms::<15>(ctx);
        rms::<16>(ctx);
        rms::<17>(ctx);
        rms::<18>(ctx);
        rms::<19>(ctx);
        rms::<20>(ctx);
        rms::<21>(ctx);
        rms::<22>(ctx);
        rms::<23>(ctx);
        rms::<24>(ctx);
        rms::<25>(ctx);
        rms::<26>(ctx);
        rms::<27>(ctx);
        rms::<28>(ctx);
        rms::<29>(ctx);
        rms::<30>(ctx);
        rms::<31>(ctx);
        rms::<32>(ctx);
        rms::<33>(ctx);
        rms::<34>(ctx);
        rms::<35>(ctx);
        rms::<36>(ctx);
        rms::<37>(ctx);
        rms::<38>(ctx);
        rms::<39>(ctx);
        rms::<40>(ctx);
        rms::<41>(ctx);
        rms::<42>(ctx);
        rms::<43>(ctx);
        rms::<44>(ctx);
        rms::<45>(ctx);
        rms::<46>(ctx);
        rms::<47>(ctx);
        rms::<48>(ctx);
        rms::<49>(ctx);
        rms::<50>(ctx);
        rms::<51>(ctx);
        rms::<52>(ctx);
        rms::<53>(ctx);
        rms::<54>(ctx);
        rms::<55>(ctx);
        rms::<56>(ctx);
        rms::<57>(ctx);
        rms::<58>(ctx);
        rms::<59>(ctx);
        rms::<60>(ctx);
        rms::<61>(ctx);
        rms::<62>(ctx);
        rms::<63>(ctx);
        rms::<64>(ctx);
        rms::<65>(ctx);
        rms::<66>(ctx);
        rms::<67>(ctx);
        rms::<68>(ctx);
        rms::<69>(ctx);
        rms::<70>(ctx);
        rms::<95>(ctx);
        rms::<96>(ctx);
        rms::<97>(ctx);
        rms::<100>(ctx);
        rms::<127>(ctx);
        rms::<128>(ctx);
        rms::<129>(ctx);
        rms::<150>(ctx);
        rms::<200>(ctx);
        rms::<255>(ctx);
        rms::<256>(ctx);
        rms::<257>(ctx);
        rms::<300>(ctx);
        rms::<500>(ctx);
        rms::<512>(ctx);
        rms::<1000>(ctx);
    });
}
