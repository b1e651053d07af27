use harness::*;
use sci_rs::signal::convolve::*;

fn full(a: &[f64], b: &[f64]) -> Vec<f64> {
    let mut r = vec![0.0; a.len() + b.len() - 1];
    for i in 0..a.len() { for j in 0..b.len() { r[i + j] += a[i] * b[j]; } }
    r
}
fn cut(f: &[f64], n1: usize, n2: usize, m: usize) -> Vec<f64> {
    match m {
        0 => f.to_vec(),
        1 => f[n1.min(n2) - 1..n1.max(n2)].to_vec(),
        _ => f[(n2 - 1) / 2..(n2 - 1) / 2 + n1].to_vec(),
    }
}
fn mode(m: usize) -> ConvolveMode { match m { 0 => ConvolveMode::Full, 1 => ConvolveMode::Valid, _ => ConvolveMode::Same } }
fn one(ctx: &mut Ctx, a: &[f64], b: &[f64]) {
    let (n1, n2) = (a.len(), b.len());
    let sc = norm(a) * norm(b) + 1e-300;
    let mut br = b.to_vec();
    br.reverse();
    for m in 0..3 {
        let name = ["Full", "Valid", "Same"][m];
        let d = if n1 + n2 <= 400 { format!("{name} in1={a:?} in2={b:?}") } else { format!("{name} in1={n1} samples {:?}.. in2={n2} samples {:?}..", &a[..n1.min(8)], &b[..n2.min(8)]) };
        let (e, ec) = (cut(&full(a, b), n1, n2, m), cut(&full(a, &br), n1, n2, m));
        ctx.case(format!("fftconvolve {d}"), || close_all(&fftconvolve(a, b, mode(m)), &e, 1e-12, sc));
        ctx.case(format!("convolve {d}"), || close_all(&convolve(a, b, mode(m)), &e, 1e-12, sc));
        ctx.case(format!("correlate {d}"), || close_all(&correlate(a, b, mode(m)), &ec, 1e-12, sc));
        let (af, bf): (Vec<f32>, Vec<f32>) = (a.iter().map(|x| *x as f32).collect(), b.iter().map(|x| *x as f32).collect());
        ctx.case(format!("f32 {d}"), || {
            let w = |v: Vec<f32>| v.iter().map(|x| *x as f64).collect::<Vec<_>>();
            close_all(&w(fftconvolve(&af, &bf, mode(m))), &e, 1e-4, sc)?;
            close_all(&w(convolve(&af, &bf, mode(m))), &e, 1e-4, sc)?;
            close_all(&w(correlate(&af, &bf, mode(m))), &ec, 1e-4, sc)
        });
    }
}
fn main() {
    run(|ctx| {
        let mut lens: Vec<usize> = (1..=18).collect();
        lens.extend([31, 32, 33, 64, 65]);
        lens.extend(ctx.lit_sizes(200).into_iter().filter(|x| *x > 0));
        lens.sort();
        lens.dedup();
        for _ in 0..ctx.reps(4, 30) { for &i in &lens { for &j in &lens {
            if !ctx.more() { return; }
            if i * j > 2000 && ctx.rng.below(4) > 0 { continue; }
            let (a, b) = (scaled_signal(&mut ctx.rng, i), scaled_signal(&mut ctx.rng, j));
            one(ctx, &a, &b);
        } } }
        for (i, j) in [(1usize, 300usize), (300, 1), (257, 129), (100, 500), (1000, 3), (256, 256), (255, 257), (257, 257), (512, 512), (511, 2), (128, 1), (1, 128), (1024, 1024), (1025, 1000), (4096, 7), (7, 4096)] {
            let (a, b) = (scaled_signal(&mut ctx.rng, i), scaled_signal(&mut ctx.rng, j));
            one(ctx, &a, &b);
        }
        for l in ctx.lit_sizes(140000) {
            if l <= 200 || !ctx.more() { continue; }
            for (i, j) in [(l, 5usize), (5, l), (l / 2, l - l / 2), (l / 2 + 1, l - l / 2)] {
                if i.min(j) > 10000 { continue; }
                let (a, b) = (scaled_signal(&mut ctx.rng, i), scaled_signal(&mut ctx.rng, j));
                one(ctx, &a, &b);
            }
        }
        for l in ctx.lit_floats() {
            if l.abs() > 1e100 { continue; }
            one(ctx, &[l, 1.0, -l], &[2.0, l]);
        }
    });
}
