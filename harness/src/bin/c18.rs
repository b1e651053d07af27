use harness::*;
use sci_rs::signal::filter::design::*;
use std::f64::consts::PI;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fam { Butter, Cheb1(f64), Cheb2(f64) }
use Fam::*;

fn ms(n: usize) -> Vec<f64> { (0..n).map(|i| -(n as f64) + 1.0 + 2.0 * i as f64).collect() }
fn proto(n: usize, f: Fam) -> (Vec<C>, Vec<C>, f64) {
    let th = |m: &f64| PI * m / (2.0 * n as f64);
    match f {
        Butter => (vec![], ms(n).iter().map(|m| c(-th(m).cos(), -th(m).sin())).collect(), 1.0),
        Cheb1(rp) => {
            if n == 0 { return (vec![], vec![], 10f64.powf(-rp / 20.0)); }
            let eps = (10f64.powf(rp / 10.0) - 1.0).sqrt();
            let mu = (1.0 / eps).asinh() / n as f64;
            let p: Vec<C> = ms(n).iter().map(|m| c(-mu.sinh() * th(m).cos(), -mu.cosh() * th(m).sin())).collect();
            let mut k = p.iter().fold(c(1.0, 0.0), |a, x| a * -x).re;
            if n % 2 == 0 { k /= (1.0 + eps * eps).sqrt(); }
            (vec![], p, k)
        }
        Cheb2(rs) => {
            if n == 0 { return (vec![], vec![], 1.0); }
            let mu = (10f64.powf(rs / 10.0) - 1.0).sqrt().asinh() / n as f64;
            let z: Vec<C> = ms(n).iter().filter(|m| **m != 0.0).map(|m| c(0.0, 1.0 / th(m).sin())).collect();
            let p: Vec<C> = ms(n).iter().map(|m| c(1.0, 0.0) / c(-mu.sinh() * th(m).cos(), -mu.cosh() * th(m).sin())).collect();
            let k = (p.iter().fold(c(1.0, 0.0), |a, x| a * -x) / z.iter().fold(c(1.0, 0.0), |a, x| a * -x)).re;
            (z, p, k)
        }
    }
}
/// the designed response at s (analog) or z (digital), wn already scaled to Nyquist = 1
fn want(n: usize, f: Fam, bt: FilterBandType, wn: &[f64], analog: bool, q: C) -> C {
    let (z, p, k) = proto(n, f);
    let (s, w): (C, Vec<f64>) = if analog { (q, wn.to_vec()) } else { (4.0 * (q - 1.0) / (q + 1.0), wn.iter().map(|w| 4.0 * (PI * w / 2.0).tan()).collect()) };
    let t = match bt {
        FilterBandType::Lowpass => s / w[0],
        FilterBandType::Highpass => c(w[0], 0.0) / s,
        FilterBandType::Bandpass => (s * s + w[0] * w[1]) / (s * (w[1] - w[0])),
        FilterBandType::Bandstop => (s * (w[1] - w[0])) / (s * s + w[0] * w[1]),
    };
    heval(&z, &p, k, t)
}
fn rel(g: C, e: C, tol: f64, q: C, what: &str) -> Result<(), String> {
    ensure(cclose(g, e, tol, 1e-250), || format!("{what}: response at {q} is {g} instead of {e}"))
}
fn poly(z: &[C]) -> Vec<f64> {
    let mut a = vec![c(1.0, 0.0)];
    for r in z {
        let mut b = a.clone();
        b.push(c(0.0, 0.0));
        for i in 0..a.len() { b[i + 1] -= a[i] * r; }
        a = b;
    }
    a.iter().map(|x| x.re).collect()
}
#[derive(Clone, Debug)]
struct Req { n: usize, fam: Fam, bt: FilterBandType, wn: Vec<f64>, analog: bool, fs: Option<f64> }
fn call(r: &Req, out: Option<FilterOutputType>, front: usize) -> DigitalFilter<f64> {
    let a = Some(r.analog);
    match (r.fam, front) {
        (Butter, 0) => butter_dyn(r.n, r.wn.clone(), Some(r.bt), a, out, r.fs),
        (Cheb1(x), 0) => cheby1_dyn(r.n, x, r.wn.clone(), Some(r.bt), a, out, r.fs),
        (Cheb2(x), 0) => cheby2_dyn(r.n, x, r.wn.clone(), Some(r.bt), a, out, r.fs),
        (Butter, 1) => iirfilter_dyn(r.n, r.wn.clone(), None, None, Some(r.bt), Some(FilterType::Butterworth), a, out, r.fs),
        (Butter, _) => iirfilter_dyn(r.n, r.wn.clone(), None, None, Some(r.bt), None, a, out, r.fs),
        (Cheb1(x), 1) => iirfilter_dyn(r.n, r.wn.clone(), Some(x), None, Some(r.bt), Some(FilterType::ChebyshevI), a, out, r.fs),
        (Cheb1(x), _) => iirfilter_dyn(r.n, r.wn.clone(), Some(x), Some(40.0), Some(r.bt), Some(FilterType::ChebyshevI), a, out, r.fs),
        (Cheb2(x), 1) => iirfilter_dyn(r.n, r.wn.clone(), None, Some(x), Some(r.bt), Some(FilterType::ChebyshevII), a, out, r.fs),
        (Cheb2(x), _) => iirfilter_dyn(r.n, r.wn.clone(), Some(1.0), Some(x), Some(r.bt), Some(FilterType::ChebyshevII), a, out, r.fs),
    }
}
fn band2(b: FilterBandType) -> bool { matches!(b, FilterBandType::Bandpass | FilterBandType::Bandstop) }
fn valid(ctx: &mut Ctx, r: Req) {
    let wn: Vec<f64> = match r.fs { Some(fs) => r.wn.iter().map(|w| 2.0 * w / fs).collect(), None => r.wn.clone() };
    let bad = matches!(r.fam, Cheb2(_)) && r.n > 1 && matches!(r.bt, FilterBandType::Highpass | FilterBandType::Bandstop);
    let ks = if bad { "cheby2-highpass-bandstop" } else { "" };
    let g = &mut ctx.rng;
    let pts: Vec<C> = (0..4).map(|_| if r.analog { let m = g.f(0.5, 2.0) * wn[0]; let t = g.f(0.1, 1.4); c(m * t.cos(), m * t.sin()) } else { let m = g.f(1.05, 1.5); let t = g.f(0.1, 3.0); c(m * t.cos(), m * t.sin()) }).collect();
    let tol = if r.n <= 6 { 1e-6 } else { 1e-4 };
    let np = if band2(r.bt) { 2 * r.n } else { r.n };
    for front in 0..3 {
        ctx.keyed(ks, format!("Zpk front={front} {r:?}"), || {
            let DigitalFilter::Zpk(f) = call(&r, Some(FilterOutputType::Zpk), front) else { return Err("not Zpk".into()) };
            ensure(f.p.len() == np && (r.analog || f.z.len() == np), || format!("{} zeros, {} poles, expected {np}", f.z.len(), f.p.len()))?;
            for q in &pts { rel(heval(&f.z, &f.p, f.k, *q), want(r.n, r.fam, r.bt, &wn, r.analog, *q), tol, *q, "zpk")?; }
            if !r.analog { for p in &f.p { ensure(p.norm() < 1.0, || format!("unstable pole {p}"))?; } }
            // default output and explicit Ba hold the coefficients of exactly this zpk
            for out in [None, Some(FilterOutputType::Ba)] {
                let DigitalFilter::Ba(ba) = call(&r, out, front) else { return Err("not Ba".into()) };
                let (b, a) = (poly(&f.z), poly(&f.p));
                ensure(ba.b.len() == 2 * r.n + 1 && ba.a.len() == 2 * r.n + 1, || format!("{} and {} coefficients", ba.b.len(), ba.a.len()))?;
                let sc = |v: &[f64]| v.iter().fold(0f64, |m, x| m.max(x.abs()));
                for i in 0..2 * r.n + 1 {
                    let (eb, ea) = (if i < b.len() { f.k * b[i] } else { 0.0 }, if i < a.len() { a[i] } else { 0.0 });
                    ensure(close(ba.b[i], eb, 1e-9, sc(&b) * f.k.abs()), || format!("b[{i}] is {} instead of {eb}", ba.b[i]))?;
                    ensure(close(ba.a[i], ea, 1e-9, sc(&a)), || format!("a[{i}] is {} instead of {ea}", ba.a[i]))?;
                }
            }
            Ok(())
        });
        ctx.keyed(ks, format!("Sos front={front} {r:?}"), || {
            let DigitalFilter::Sos(f) = call(&r, Some(FilterOutputType::Sos), front) else { return Err("not Sos".into()) };
            let e = ((np + 1) / 2).max(1);
            ensure(f.sos.len() == e, || format!("{} sections instead of {e}", f.sos.len()))?;
            for q in &pts {
                let h = f.sos.iter().fold(c(1.0, 0.0), |h, s| if r.analog {
                    h * (*q * *q * s.b[0] + *q * s.b[1] + s.b[2]) / (*q * *q * s.a[0] + *q * s.a[1] + s.a[2])
                } else {
                    let w = c(1.0, 0.0) / q;
                    h * (c(s.b[0], 0.0) + w * s.b[1] + w * w * s.b[2]) / (c(s.a[0], 0.0) + w * s.a[1] + w * w * s.a[2])
                });
                rel(h, want(r.n, r.fam, r.bt, &wn, r.analog, *q), tol, *q, "sos")?;
            }
            Ok(())
        });
    }
}
fn main() {
    run(|ctx| {
        let bts = [FilterBandType::Lowpass, FilterBandType::Highpass, FilterBandType::Bandpass, FilterBandType::Bandstop];
        let mut orders: Vec<usize> = (0..=8).collect();
        orders.extend(ctx.lit_sizes(10));
        orders.sort();
        orders.dedup();
        let lf = ctx.lit_floats();
        for _ in 0..ctx.reps(6, 60) {
            for &n in &orders { for bt in bts { for f in 0..3 { for analog in [false, true] {
                if !ctx.more() { return; }
                let r = &mut ctx.rng;
                let rp = *r.pick(&[0.1, 0.5, 1.0, 3.0, 5.0]);
                let rs = *r.pick(&[10.0, 20.0, 40.0, 60.0]);
                let fam = match f { 0 => Butter, 1 => Cheb1(rp), _ => Cheb2(rs) };
                let fs = if analog || r.coin() { None } else { Some(*r.pick(&[2.0, 1.0, 100.0, 44100.0, 666.0, 0.5, 0.03, 1e-3, 3e6])) };
                let (a, b) = if analog { let a = r.f(0.2, 4.0) * *r.pick(&[1.0, 100.0]); (a, a * r.f(1.3, 4.0)) } else { let a = r.f(0.08, 0.55); (a, a + r.f(0.12, 0.35)) };
                let (mut a, b) = (a, b);
                if !lf.is_empty() && r.below(5) == 0 { let l = *r.pick(&lf); if l > 0.05 && l < 0.9 && l < b - 0.05 { a = l; } }
                let mut wn = if band2(bt) { vec![a, b] } else { vec![a] };
                if let Some(fs) = fs { for w in wn.iter_mut() { *w *= fs / 2.0; } }
                valid(ctx, Req { n, fam, bt, wn, analog, fs });
            } } } }
        }
        // low and high edges
        let mut ws = vec![1e-5, 3e-5, 1e-4, 1e-3, 4e-3, 0.01, 0.03, 0.06, 0.9, 0.95, 0.98, 0.99, 0.995];
        ws.extend(lf.iter().copied().filter(|x| *x > 1e-5 && *x < 0.995));
        for w in ws { for n in 1..=2 { for bt in [FilterBandType::Lowpass, FilterBandType::Highpass] { for f in 0..3 { for fs in [None, Some(2.0), Some(500.0)] {
            let fam = match f { 0 => Butter, 1 => Cheb1(1.0), _ => Cheb2(30.0) };
            valid(ctx, Req { n, fam, bt, wn: vec![w * fs.map_or(1.0, |x| x / 2.0)], analog: false, fs });
        } } } } }
        // extreme ripples
        for x in [1e-6, 1e-5, 1e-4, 1e-3, 0.02, 8.0, 15.0, 30.0] { for n in 1..=4 { for bt in bts { for analog in [false, true] {
            let wn = if band2(bt) { vec![0.3, 0.6] } else { vec![0.4] };
            valid(ctx, Req { n, fam: Cheb1(x), bt, wn: wn.clone(), analog, fs: None });
            valid(ctx, Req { n, fam: Cheb2(x.max(0.02) * 4.0), bt, wn, analog, fs: None });
        } } } }
        // ripple parameters a family does not use
        for (rp, rs) in [(Some(0.0), None), (None, Some(0.0)), (Some(0.0), Some(0.0)), (Some(3.0), None), (Some(3.0), Some(20.0))] { for bt in bts {
            let wn = if band2(bt) { vec![0.3, 0.6] } else { vec![0.4] };
            ctx.case(format!("unused ripple parameters {rp:?} {rs:?} {bt:?}"), || {
                for i in 0..4 {
                    let ft = || [None, Some(FilterType::Butterworth), Some(FilterType::ChebyshevI), Some(FilterType::ChebyshevII)].into_iter().nth(i).unwrap();
                    let (rp, rs) = match ft() { Some(FilterType::ChebyshevI) => (Some(1.0), rs), Some(FilterType::ChebyshevII) => (rp, Some(30.0)), _ => (rp, rs) };
                    let (np, ns) = match ft() { Some(FilterType::ChebyshevI) => (rp, None), Some(FilterType::ChebyshevII) => (None, rs), _ => (None, None) };
                    let (DigitalFilter::Ba(g), DigitalFilter::Ba(e)) = (
                        iirfilter_dyn::<f64>(3, wn.clone(), rp, rs, Some(bt), ft(), None, None, None),
                        iirfilter_dyn::<f64>(3, wn.clone(), np, ns, Some(bt), ft(), None, None, None),
                    ) else { return Err("not Ba".into()) };
                    close_all(&g.b, &e.b, 0.0, 0.0)?;
                    close_all(&g.a, &e.a, 0.0, 0.0)?;
                }
                Ok(())
            });
        } }
        // omitted arguments
        for n in 1..=5 {
            ctx.case(format!("butter_dyn defaults, order {n}"), || {
                let DigitalFilter::Ba(g) = butter_dyn::<f64>(n, vec![0.3], None, None, None, None) else { return Err("not Ba".into()) };
                let DigitalFilter::Ba(e) = butter_dyn::<f64>(n, vec![0.3], Some(FilterBandType::Lowpass), Some(false), Some(FilterOutputType::Ba), None) else { return Err("not Ba".into()) };
                close_all(&g.b, &e.b, 0.0, 0.0)?;
                close_all(&g.a, &e.a, 0.0, 0.0)
            });
            ctx.case(format!("iirfilter_dyn/cheby defaults, order {n}"), || {
                let pairs = [
                    (iirfilter_dyn::<f64>(n, vec![0.2, 0.5], None, None, None, None, None, None, None), iirfilter_dyn::<f64>(n, vec![0.2, 0.5], None, None, Some(FilterBandType::Bandpass), Some(FilterType::Butterworth), Some(false), Some(FilterOutputType::Ba), None)),
                    (cheby1_dyn::<f64>(n, 1.0, vec![0.3], None, None, None, None), cheby1_dyn::<f64>(n, 1.0, vec![0.3], Some(FilterBandType::Lowpass), Some(false), Some(FilterOutputType::Ba), None)),
                    (cheby2_dyn::<f64>(n, 30.0, vec![0.3], None, None, None, None), cheby2_dyn::<f64>(n, 30.0, vec![0.3], Some(FilterBandType::Lowpass), Some(false), Some(FilterOutputType::Ba), None)),
                ];
                for (g, e) in pairs {
                    let (DigitalFilter::Ba(g), DigitalFilter::Ba(e)) = (g, e) else { return Err("not Ba".into()) };
                    close_all(&g.b, &e.b, 0.0, 0.0)?;
                    close_all(&g.a, &e.a, 0.0, 0.0)?;
                }
                Ok(())
            });
        }
        // extreme but valid frequencies are accepted, whatever becomes of the numbers
        for n in [1usize, 2, 3] { for bt in bts { for f in 0..3 { for analog in [false, true] { for fs in [None, Some(2.0), Some(96000.0)] {
            if analog && fs.is_some() { continue; }
            let fam = match f { 0 => Butter, 1 => Cheb1(1.0), _ => Cheb2(30.0) };
            let mut wns: Vec<Vec<f64>> = vec![];
            if band2(bt) {
                for d in [1e-4, 1e-5, 1e-6, 1e-7, 1e-9, 1e-12] { wns.extend([vec![0.3, 0.3 + d], vec![d, 2.0 * d], vec![d, 0.5], vec![0.5, 1.0 - d], vec![1.0 - 2.0 * d, 1.0 - d]]); }
            } else {
                for d in [1e-4, 1e-6, 1e-9, 1e-12, 1e-100] { wns.push(vec![d]); }
                for d in [1e-4, 1e-6, 1e-9, 1e-12] { wns.push(vec![1.0 - d]); }
            }
            if analog { wns.extend(if band2(bt) { [vec![1.0, 2.0], vec![1e5, 1e9]] } else { [vec![1.0], vec![1e9]] }); }
            for wn in wns {
                let wn: Vec<f64> = wn.iter().map(|w| w * fs.map_or(1.0, |x| x / 2.0)).collect();
                let scaled = |w: f64| fs.map_or(w, |x| 2.0 * w / x);
                if !analog && wn.iter().any(|w| scaled(*w) >= 1.0) { continue; }
                if band2(bt) && scaled(wn[0]) >= scaled(wn[1]) { continue; }
                let r = Req { n, fam, bt, wn, analog, fs };
                for front in 0..2 { ctx.case(format!("must be accepted: front={front} {r:?}"), || ensure(!panics(|| call(&r, Some(FilterOutputType::Zpk), front)), || "rejected".into())); }
            }
        } } } } }
        // requests that must be rejected
        for n in [1usize, 2, 3, 5] { for bt in bts { for f in 0..3 { for analog in [false, true] { for out in [FilterOutputType::Ba, FilterOutputType::Zpk, FilterOutputType::Sos] {
            let fam = match f { 0 => Butter, 1 => Cheb1(1.0), _ => Cheb2(30.0) };
            let ok: Vec<f64> = if band2(bt) { vec![0.2, 0.5] } else { vec![0.3] };
            let mut wns: Vec<(Vec<f64>, Option<f64>)> = vec![];
            for i in 0..ok.len() { for w in [0.0, -0.1, -1e-300, -5.0] { let mut v = ok.clone(); v[i] = w; wns.push((v, None)); } }
            if !analog {
                for i in 0..ok.len() { for w in [1.0, 1.5, 100.0] { let mut v = ok.clone(); v[i] = w; wns.push((v, None)); } }
                for i in 0..ok.len() { for w in [50.0, 50.001, 99.0, 0.0, -3.0] { let mut v: Vec<f64> = ok.iter().map(|x| x * 50.0).collect(); v[i] = w; wns.push((v, Some(100.0))); } }
            } else { wns.push((ok.clone(), Some(100.0))); wns.push((ok.clone(), Some(2.0))); }
            if band2(bt) { wns.extend([(vec![0.5, 0.2], None), (vec![0.3, 0.3], None), (vec![0.3], None)]); } else { wns.push((vec![0.2, 0.5], None)); wns.push((vec![0.5, 0.2], None)); }
            wns.extend([(vec![], None), (vec![0.1, 0.2, 0.3], None), (vec![0.1, 0.2, 0.3, 0.4], None)]);
            for (wn, fs) in wns {
                for front in 0..2 {
                    let r = Req { n, fam, bt, wn: wn.clone(), analog, fs };
                    ctx.case(format!("must be rejected: front={front} {out:?} {r:?}"), || ensure(panics(|| call(&r, Some(out), front)), || "accepted".into()));
                }
            }
            let mk = |rp: Option<f64>, rs: Option<f64>, ft: FilterType| panics(|| iirfilter_dyn::<f64>(n, ok.clone(), rp, rs, Some(bt), Some(ft), Some(analog), Some(out), None));
            ctx.case(format!("ripple parameters n={n} {bt:?} analog={analog} {out:?}"), || {
                ensure(mk(Some(-1.0), None, FilterType::ChebyshevI), || "negative rp accepted".into())?;
                ensure(mk(Some(-1.0), None, FilterType::Butterworth), || "negative rp accepted".into())?;
                ensure(mk(None, Some(-1.0), FilterType::ChebyshevII), || "negative rs accepted".into())?;
                ensure(mk(Some(1.0), Some(-1.0), FilterType::ChebyshevI), || "negative rs accepted".into())?;
                ensure(mk(Some(-1e-12), Some(30.0), FilterType::ChebyshevII), || "negative rp accepted".into())?;
                ensure(mk(None, None, FilterType::ChebyshevI), || "missing rp accepted".into())?;
                ensure(mk(None, Some(30.0), FilterType::ChebyshevI), || "missing rp accepted".into())?;
                ensure(mk(None, None, FilterType::ChebyshevII), || "missing rs accepted".into())?;
                ensure(mk(Some(1.0), None, FilterType::ChebyshevII), || "missing rs accepted".into())?;
                ensure(panics(|| cheby1_dyn::<f64>(n, -0.5, ok.clone(), Some(bt), Some(analog), Some(out), None)), || "cheby1 accepts a negative ripple".into())?;
                ensure(panics(|| cheby2_dyn::<f64>(n, -0.5, ok.clone(), Some(bt), Some(analog), Some(out), None)), || "cheby2 accepts a negative attenuation".into())
            });
        } } } } }
    });
}
