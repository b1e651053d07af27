use harness::*;
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::*;

fn step64(which: usize, y: &[f64], s: &mut [Sos<f64>]) -> Vec<f64> {
    match which % 3 {
        0 => sosfilt_dyn(y.iter(), s),
        1 => sosfilt_st(y.iter(), s).collect(),
        _ => y.iter().map(|x| sosfilt_item(*x, s)).collect(),
    }
}
fn step32(which: usize, y: &[f32], s: &mut [Sos<f32>]) -> Vec<f32> {
    match which % 5 {
        0 => sosfilt_dyn(y.iter(), s),
        1 => sosfilt_st(y.iter(), s).collect(),
        2 => y.iter().map(|x| sosfilt_item(*x, s)).collect(),
        3 => {
            let mut z = vec![f32::NAN; y.len()];
            sosfilt_fast32_st(y, s, &mut z);
            z
        }
        _ => {
            let yi: Vec<i16> = y.iter().map(|x| *x as i16).collect();
            let mut z = vec![f32::NAN; y.len()];
            sosfilt_ifast32_st(&yi, s, &mut z);
            z
        }
    }
}
macro_rules! one { ($ctx:ident, $F:ident, $step:ident, $nent:expr, $sos:expr, $st:expr, $y:expr, $pieces:expr, $tol:expr) => {{
    let ctx: &mut Ctx = $ctx;
    let y: Vec<$F> = $y.iter().map(|x| *x as $F).collect();
    let s0: Vec<Sos<$F>> = $sos.iter().zip($st.iter()).map(|((b, a), z): (&([f64; 3], [f64; 3]), &(f64, f64))| { let mut s = Sos::new(b.map(|x| x as $F), a.map(|x| x as $F)); s.zi0 = z.0 as $F; s.zi1 = z.1 as $F; s }).collect();
    for whole in 0..$nent {
        let d = format!("{} whole by entry point {whole}, pieces (length, entry point) {:?}, sections {:?} input {:?}", stringify!($F), $pieces, s0, y);
        let (mut s1, mut s2) = (s0.clone(), s0.clone());
        ctx.case(d, || {
            let a: Vec<f64> = $step(whole, &y, &mut s1).iter().map(|x| *x as f64).collect();
            let mut b: Vec<f64> = vec![];
            let mut i = 0;
            for (l, e) in $pieces.iter() {
                b.extend($step(if *e == 99 { whole } else { *e }, &y[i..i + l], &mut s2).iter().map(|x| *x as f64));
                i += l;
            }
            let sc = a.iter().fold(0f64, |m, x| m.max(x.abs())) + s1.iter().fold(0f64, |m, s| m.max((s.zi0 as f64).abs()).max((s.zi1 as f64).abs())) + y.iter().fold(0f64, |m, x| m.max((*x as f64).abs()));
            close_all(&b, &a, $tol, sc).map_err(|m| format!("pieces give: {m}"))?;
            for k in 0..s1.len() {
                ensure(close(s1[k].zi0 as f64, s2[k].zi0 as f64, $tol, sc) && close(s1[k].zi1 as f64, s2[k].zi1 as f64, $tol, sc), || format!("state of section {k}: ({}, {}) in pieces, ({}, {}) whole", s2[k].zi0, s2[k].zi1, s1[k].zi0, s1[k].zi1))?;
            }
            Ok(())
        });
    }
}} }
fn main() {
    run(|ctx| {
        let mut secs: Vec<usize> = (0..=12).collect();
        secs.extend([14, 16, 18, 20, 24]);
        secs.extend(ctx.lit_sizes(40));
        secs.sort();
        secs.dedup();
        let mut lens: Vec<usize> = (0..=24).collect();
        lens.extend([32, 33, 64, 65, 128, 200]);
        lens.extend(ctx.lit_sizes(300));
        lens.sort();
        lens.dedup();
        for rep in 0..ctx.reps(2, 10) {
            for &ns in &secs {
                for &n in &lens {
                    if !ctx.more() { return; }
                    let r = &mut ctx.rng;
                    let sos = sections(r, ns);
                    let st: Vec<(f64, f64)> = (0..ns).map(|_| if rep == 0 { (0.0, 0.0) } else { (r.f(-1.0, 1.0), r.f(-1.0, 1.0)) }).collect();
                    let mut y: Vec<f64> = (0..n).map(|_| r.range(0, 20) as f64 - 10.0).collect();
                    silence(r, &mut y);
                    // cut into pieces, some empty, some multiples of 4
                    let mut pieces: Vec<(usize, usize)> = vec![];
                    let mut left = n;
                    let same = r.coin();
                    while left > 0 {
                        let l = match r.below(6) { 0 => 0, 1 => 4.min(left), 2 => 8.min(left), 3 => 1, 4 => left, _ => r.range(1, left) };
                        pieces.push((l, if same { 99 } else { r.below(15) }));
                        left -= l;
                    }
                    if r.coin() { pieces.push((0, 99)); }
                    one!(ctx, f64, step64, 3, sos, st, y, pieces, 1e-11);
                    if rep > 0 {
                        let r = &mut ctx.rng;
                        let sc = *r.pick(&[1.0, 1e-25, 1e12, 1e-5]);
                        let y: Vec<f64> = y.iter().map(|x| sc * (x + if *x == 0.0 { 0.0 } else { r.f(-0.5, 0.5) })).collect();
                        let st: Vec<(f64, f64)> = st.iter().map(|x| (x.0 * sc, x.1 * sc)).collect();
                        one!(ctx, f64, step64, 3, sos, st, y, pieces, 1e-11);
                    }
                    one!(ctx, f32, step32, 5, sos, st, y, pieces, 1e-3);
                }
            }
        }
    });
}
