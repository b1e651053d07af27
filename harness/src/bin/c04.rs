use harness::*;
use sci_rs::stats::{median, median_abs_deviation};

fn med_f(v: &[f64]) -> f64 {
    let mut s = v.to_vec();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n = s.len();
    if n == 0 {
        0.0
    } else if n % 2 == 1 {
        s[n / 2]
    } else {
        (s[n / 2 - 1] + s[n / 2]) / 2.0
    }
}
fn mad(v: &[f64]) -> f64 {
    let m = med_f(v);
    med_f(&v.iter().map(|x| (x - m).abs()).collect::<Vec<_>>())
}
fn one(ctx: &mut Ctx, v: &[f64], all: bool) {
    let e = med_f(v);
    let n = v.len();
    let d = if n <= 64 { format!("{v:?}") } else { format!("{n} samples {:?}...", &v[..12]) };
    let d2 = if n <= 4000 { format!("{v:?}") } else { d.clone() };
    let d = if n <= 64 { d } else { d2 };
    ctx.case(format!("median f64 {d}"), || {
        let (g, c) = median::<_, f64>(v.iter());
        ensure(c == n, || format!("count {c} instead of {n}"))?;
        ensure(close(g, e, 1e-15, 0.0), || format!("got {g}, expected {e}"))
    });
    ctx.case(format!("median_abs_deviation f64 {d}"), || {
        let e = mad(v);
        let (g, c) = median_abs_deviation::<_, f64>(v.iter());
        ensure(c == n, || format!("count {c} instead of {n}"))?;
        ensure(close(g, e, 1e-13, med_f(v).abs()), || format!("got {g}, expected {e}"))
    });
    if !all {
        return;
    }
    ctx.case(format!("median f64 by value {d}"), || {
        let (g, c) = median::<_, f64>(v.iter().copied().filter(|_| true));
        ensure(c == n && close(g, e, 1e-15, 0.0), || format!("got ({g}, {c}), expected ({e}, {n})"))
    });
    let vf: Vec<f32> = v.iter().map(|x| *x as f32).collect();
    ctx.case(format!("median f32 {d}"), || {
        let e = med_f(&vf.iter().map(|x| *x as f64).collect::<Vec<_>>());
        let (g, c) = median::<_, f32>(vf.iter());
        ensure(c == n && close(g as f64, e, 1e-6, 0.0), || format!("got ({g}, {c}), expected ({e}, {n})"))
    });
    if v.iter().all(|x| x.abs() < 1e6) {
        let mut w: Vec<i64> = v.iter().map(|x| (*x * 4.0) as i64).collect();
        let (wi, w8): (Vec<i32>, Vec<u8>) = (w.iter().map(|x| *x as i32).collect(), w.iter().map(|x| (x.rem_euclid(128)) as u8).collect());
        ctx.case(format!("median i64/i32/u8 of 4x {d}"), || {
            let (g, c) = median::<_, i64>(w.iter());
            let (h, c2) = median::<_, i32>(wi.iter());
            let (u, c3) = median::<_, u8>(w8.iter());
            let mid = |s: &mut Vec<i64>| { s.sort(); if s.is_empty() { 0 } else if n % 2 == 1 { s[n / 2] } else { (s[n / 2 - 1] + s[n / 2]) / 2 } };
            let e = mid(&mut w);
            let e8 = mid(&mut w8.iter().map(|x| *x as i64).collect());
            ensure(c == n && c2 == n && c3 == n && g == e && h as i64 == e && u as i64 == e8, || format!("got {g} {h} {u}, expected {e} {e} {e8}"))
        });
    }
}
fn main() {
    run(|ctx| {
        // every sequence over a small alphabet
        for n in 0..=ctx.reps(6, 8) {
            for code in 0..4usize.pow(n as u32) {
                let mut x = code;
                let v: Vec<f64> = (0..n).map(|_| { let d = x % 4; x /= 4; [-1.0, 0.0, 0.5, 3.0][d] }).collect();
                one(ctx, &v, n <= 5);
            }
        }
        let mut sizes: Vec<usize> = (1..=80).collect();
        sizes.extend([99, 100, 127, 128, 129, 255, 256, 257, 500, 999, 1000, 1024]);
        sizes.extend(ctx.lit_sizes(3000));
        for n in sizes {
            for kind in 0..9 {
                let r = &mut ctx.rng;
                let v: Vec<f64> = match kind {
                    0 => (0..n).map(|i| i as f64).collect(),
                    1 => (0..n).map(|i| (n - i) as f64).collect(),
                    2 => (0..n).map(|i| if i < n / 2 { i as f64 } else { (n - i) as f64 }).collect(),
                    3 => (0..n).map(|_| 7.25).collect(),
                    4 => (0..n).map(|_| r.below(3) as f64).collect(),
                    5 => (0..n).map(|_| r.f(-1e12, 1e12)).collect(),
                    6 => (0..n).map(|_| -(r.below(n) as f64)).collect(),
                    7 => (0..n).map(|_| r.f(-1.0, 1.0) * 10f64.powi(r.range(0, 60) as i32 - 30)).collect(),
                    _ => (0..n).map(|_| r.range(0, 20) as f64 - 10.0).collect(),
                };
                one(ctx, &v, n <= 80);
            }
        }
        for n in [65535usize, 65536, 65537, 140001] {
            let v: Vec<f64> = (0..n).map(|_| ctx.rng.f(-1e12, 1e12)).collect();
            one(ctx, &v, false);
        }
        for l in ctx.lit_floats() {
            let mut v: Vec<f64> = (0..5).map(|i| l + i as f64 - 2.0).collect();
            one(ctx, &v, false);
            v.push(l);
            one(ctx, &v, false);
        }
        for _ in 0..ctx.reps(3000, 100000) {
            if !ctx.more() { break; }
            let n = ctx.rng.range(1, 40);
            let m = ctx.rng.range(1, 12);
            let v: Vec<f64> = (0..n).map(|_| ctx.rng.below(m) as f64 - 3.0).collect();
            one(ctx, &v, true);
        }
    });
}
