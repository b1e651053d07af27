use harness::*;
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::*;

/// reference cascade; returns the largest magnitude met
fn cascade(y: &[f64], sos: &[([f64; 3], [f64; 3])], st: &mut [(f64, f64)]) -> (Vec<f64>, f64) {
    let mut mx = 0f64;
    let out = y.iter().map(|x0| {
        let mut x = *x0;
        for (k, (b, a)) in sos.iter().enumerate() {
            let o = b[0] * x + st[k].0;
            mx = mx.max((b[0] * x).abs()).max((b[1] * x).abs()).max((b[2] * x).abs()).max((a[1] * o).abs()).max((a[2] * o).abs()).max(st[k].0.abs()).max(st[k].1.abs());
            st[k].0 = b[1] * x - a[1] * o + st[k].1;
            st[k].1 = b[2] * x - a[2] * o;
            x = o;
        }
        x
    }).collect();
    (out, mx)
}
macro_rules! one { ($ctx:ident, $F:ident, $sos:expr, $st:expr, $y:expr, $tol:expr, $names:expr, $run:expr) => {{
    let ctx: &mut Ctx = $ctx;
    let ba: Vec<([$F; 3], [$F; 3])> = $sos.iter().map(|(b, a): &([f64; 3], [f64; 3])| (b.map(|x| x as $F), a.map(|x| x as $F))).collect();
    let wide: Vec<([f64; 3], [f64; 3])> = ba.iter().map(|(b, a)| (b.map(|x| x as f64), a.map(|x| x as f64))).collect();
    let st0: Vec<($F, $F)> = $st.iter().map(|(a, b): &(f64, f64)| (*a as $F, *b as $F)).collect();
    let y: Vec<$F> = $y.iter().map(|x| *x as $F).collect();
    let yw: Vec<f64> = y.iter().map(|x| *x as f64).collect();
    let mut st: Vec<(f64, f64)> = st0.iter().map(|x| (x.0 as f64, x.1 as f64)).collect();
    let (e, mx) = cascade(&yw, &wide, &mut st);
    let n = y.len();
    for name in $names {
        let d = format!("{name} {} sections {:?} state {:?} input {:?}", stringify!($F), if ba.len() <= 4 { format!("{ba:?}") } else { format!("{} of them: {ba:?}", ba.len()) }, st0, if n <= 600 { format!("{yw:?}") } else { format!("{n} samples") });
        let mut s: Vec<Sos<$F>> = ba.iter().zip(&st0).map(|((b, a), z)| { let mut s = Sos::new(*b, *a); s.zi0 = z.0; s.zi1 = z.1; s }).collect();
        ctx.case(d, || {
            let g: Vec<$F> = $run(name, &y, &mut s);
            let g: Vec<f64> = g.iter().map(|x| *x as f64).collect();
            close_all(&g, &e, $tol, mx).map_err(|m| format!("output: {m}"))?;
            for (k, s) in s.iter().enumerate() {
                ensure(s.b == ba[k].0 && s.a == ba[k].1, || format!("coefficients of section {k} changed"))?;
                ensure(close(s.zi0 as f64, st[k].0, $tol, mx) && close(s.zi1 as f64, st[k].1, $tol, mx), || format!("state of section {k} is ({}, {}) instead of {:?}", s.zi0, s.zi1, st[k]))?;
            }
            ensure(s.len() == ba.len(), || "sections lost".into())
        });
    }
}} }
fn run64(name: &str, y: &Vec<f64>, s: &mut Vec<Sos<f64>>) -> Vec<f64> {
    match name {
        "sosfilt_dyn" => sosfilt_dyn(y.iter(), s),
        "sosfilt_dyn by value" => sosfilt_dyn(y.iter().copied().filter(|_| true), s),
        "sosfilt_st" => sosfilt_st(y.iter(), s).collect(),
        _ => y.iter().map(|x| sosfilt_item(*x, s)).collect(),
    }
}
fn run32(name: &str, y: &Vec<f32>, s: &mut Vec<Sos<f32>>) -> Vec<f32> {
    match name {
        "sosfilt_dyn" => sosfilt_dyn(y.iter(), s),
        "sosfilt_dyn by value" => sosfilt_dyn(y.iter().copied().filter(|_| true), s),
        "sosfilt_st" => sosfilt_st(y.iter(), s).collect(),
        "sosfilt_item" => y.iter().map(|x| sosfilt_item(*x, s)).collect(),
        "sosfilt_fast32_st" => {
            let mut z = vec![f32::NAN; y.len()];
            sosfilt_fast32_st(y, s, &mut z);
            z
        }
        _ => unreachable!(),
    }
}
fn runi<I: Copy + Into<isize>>(y: &[I], s: &mut [Sos<f32>]) -> Vec<f32> {
    let mut z = vec![f32::NAN; y.len()];
    sosfilt_ifast32_st(y, s, &mut z);
    z
}
fn main() {
    run(|ctx| {
        let mut secs: Vec<usize> = (0..=24).collect();
        secs.extend(ctx.lit_sizes(70));
        secs.sort();
        secs.dedup();
        let mut lens: Vec<usize> = (0..=37).collect();
        lens.extend([40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]);
        lens.extend([511, 1000, 1024, 1027, 4100]);
        lens.extend(ctx.lit_sizes(140000));
        lens.sort();
        lens.dedup();
        for rep in 0..ctx.reps(2, 12) {
            for &ns in &secs {
                if !ctx.more() { return; }
                for &n in &lens {
                    if n > 40 && ns > 12 && rep == 0 && ns % 4 != 0 { continue; }
                    if n > 300 && ns % 5 != 2 && ctx.rng.below(4) > 0 { continue; }
                    let r = &mut ctx.rng;
                    let sos = sections(r, ns);
                    let mut y = signal(r, n);
                    silence(r, &mut y);
                    let zero = r.below(3) == 0;
                    let mut st: Vec<(f64, f64)> = (0..ns).map(|_| if zero { (0.0, 0.0) } else { (r.f(-1.0, 1.0), r.f(-1.0, 1.0)) }).collect();
                    let intin = y.iter().all(|x| x.fract() == 0.0);
                    let sc = *r.pick(&[1.0, 1.0, 1.0, 1e-25, 1e12]);
                    if !intin {
                        y.iter_mut().for_each(|x| *x *= sc);
                        st.iter_mut().for_each(|x| { x.0 *= sc; x.1 *= sc });
                    }
                    one!(ctx, f64, sos, st, y, 1e-10, ["sosfilt_dyn", "sosfilt_dyn by value", "sosfilt_st", "sosfilt_item"], run64);
                    one!(ctx, f32, sos, st, y, 2e-3, ["sosfilt_dyn", "sosfilt_dyn by value", "sosfilt_st", "sosfilt_item", "sosfilt_fast32_st"], run32);
                    let r = &mut ctx.rng;
                    let mut yi: Vec<f64> = (0..n).map(|_| r.range(0, 200) as f64 - 100.0).collect();
                    silence(r, &mut yi);
                    if n <= 40 {
                        // integers beyond the 16 bit range, and its ends
                        let yb: Vec<f64> = (0..n).map(|_| *r.pick(&[32767.0, -32768.0, 32768.0, -32769.0, 65535.0, 65536.0, -70000.0, 1e6, -8388608.0, 16777216.0, 2147483648.0, -4294967296.0, 1099511627776.0])).collect();
                        let y16: Vec<f64> = yb.iter().map(|x| x.clamp(-32768.0, 32767.0)).collect();
                        one!(ctx, f32, sos, st, yb, 2e-3, ["sosfilt_ifast32_st isize"], |_: &str, y: &Vec<f32>, s: &mut Vec<Sos<f32>>| runi(&y.iter().map(|x| *x as isize).collect::<Vec<_>>(), s));
                        one!(ctx, f32, sos, st, y16, 2e-3, ["sosfilt_ifast32_st i16"], |_: &str, y: &Vec<f32>, s: &mut Vec<Sos<f32>>| runi(&y.iter().map(|x| *x as i16).collect::<Vec<_>>(), s));
                    }
                    let yu: Vec<f64> = yi.iter().map(|x| x.abs() * 1.2 + 3.0).map(|x| x.trunc()).collect();
                    one!(ctx, f32, sos, st, yu, 2e-3, ["sosfilt_ifast32_st u8", "sosfilt_ifast32_st i8"], |name: &str, y: &Vec<f32>, s: &mut Vec<Sos<f32>>| if name.ends_with("u8") { runi(&y.iter().map(|x| *x as u8).collect::<Vec<_>>(), s) } else { runi(&y.iter().map(|x| *x as i8).collect::<Vec<_>>(), s) });
                    one!(ctx, f32, sos, st, yi, 2e-3, ["sosfilt_ifast32_st i16", "sosfilt_ifast32_st isize", "sosfilt_ifast32_st u8"], |name: &str, y: &Vec<f32>, s: &mut Vec<Sos<f32>>| match name {
                        "sosfilt_ifast32_st i16" => runi(&y.iter().map(|x| *x as i16).collect::<Vec<_>>(), s),
                        "sosfilt_ifast32_st isize" => runi(&y.iter().map(|x| *x as isize).collect::<Vec<_>>(), s),
                        _ => {
                            // unsigned samples: check only what is non-negative
                            if y.iter().all(|x| *x >= 0.0) { runi(&y.iter().map(|x| *x as u8).collect::<Vec<_>>(), s) } else { runi(&y.iter().map(|x| *x as isize).collect::<Vec<_>>(), s) }
                        }
                    });
                }
            }
        }
        for l in ctx.lit_floats() {
            let ns = 1 + ctx.rng.below(5);
            let sos = sections(&mut ctx.rng, ns);
            let st: Vec<(f64, f64)> = vec![(0.0, 0.0); ns];
            let y: Vec<f64> = (0..9).map(|i| if i % 2 == 0 { l } else { -l * 0.5 }).collect();
            one!(ctx, f64, sos, st, y, 1e-10, ["sosfilt_dyn", "sosfilt_st", "sosfilt_item"], run64);
        }
    });
}
