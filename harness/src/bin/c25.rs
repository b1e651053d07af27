use harness::*;
use sci_rs::signal::filter::design::Sos;
#[global_allocator]
static A: Guarded = Guarded;

fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn main() {
    run(|ctx| {
        let lf = ctx.lit_floats();
        let mut ns: Vec<usize> = (0..=ctx.reps(40, 120)).collect();
        ns.extend([64, 65, 100, 128, 129, 255, 256, 257, 1000]);
        ns.extend(ctx.lit_sizes(512));
        ns.sort();
        ns.dedup();
        for &n in &ns {
            for rep in 0..ctx.reps(6, 24) {
                let r = &mut ctx.rng;
                let mut l: Vec<f64> = (0..6 * n)
                    .map(|i| match rep % 6 {
                        0 => i as f64 + 1.0,
                        1 => r.f(-3.0, 3.0),
                        2 => if i % 6 == 3 { *r.pick(&[1.0, 2.0, -0.5, 0.0]) } else { r.f(-2.0, 2.0) },
                        3 => *r.pick(&[0.0, -0.0, 1.0, -1.0, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]),
                        4 => if r.below(3) == 0 { 0.0 } else { r.f(-1.0, 1.0) },
                        _ => if !lf.is_empty() && r.below(2) == 0 { *r.pick(&lf) } else { r.f(-1e3, 1e3) },
                    })
                    .collect();
                if rep % 6 == 2 && n > 0 { let q = r.below(n); for j in 0..3 { l[6 * q + j] = 0.0; } }
                ctx.case(format!("Sos::<f64>::from_scipy_dyn({n}, {l:?})"), || {
                    let s = Sos::from_scipy_dyn(n, l.clone());
                    ensure(s.len() == n, || format!("{} sections", s.len()))?;
                    for (i, q) in s.iter().enumerate() {
                        for j in 0..3 {
                            ensure(same(q.b[j], l[6 * i + j]), || format!("section {i} b[{j}] is {} instead of {}", q.b[j], l[6 * i + j]))?;
                            ensure(same(q.a[j], l[6 * i + 3 + j]), || format!("section {i} a[{j}] is {} instead of {}", q.a[j], l[6 * i + 3 + j]))?;
                        }
                        ensure(q.zi0 == 0.0 && q.zi1 == 0.0, || format!("section {i} delays {} {}", q.zi0, q.zi1))?;
                    }
                    Ok(())
                });
                let f: Vec<f32> = l.iter().map(|x| *x as f32).collect();
                ctx.case(format!("Sos::<f32>::from_scipy_dyn({n}, {f:?})"), || {
                    let s = Sos::from_scipy_dyn(n, f.clone());
                    ensure(s.len() == n, || format!("{} sections", s.len()))?;
                    for (i, q) in s.iter().enumerate() {
                        for j in 0..3 {
                            ensure(same(q.b[j] as f64, f[6 * i + j] as f64), || format!("section {i} b[{j}] is {}", q.b[j]))?;
                            ensure(same(q.a[j] as f64, f[6 * i + 3 + j] as f64), || format!("section {i} a[{j}] is {}", q.a[j]))?;
                        }
                        ensure(q.zi0 == 0.0 && q.zi1 == 0.0, || format!("section {i} delays {} {}", q.zi0, q.zi1))?;
                    }
                    Ok(())
                });
                let (b, a) = ([l.first().copied().unwrap_or(1.5), l.get(1).copied().unwrap_or(-2.0), l.get(2).copied().unwrap_or(0.25)], [l.get(3).copied().unwrap_or(2.0), l.get(4).copied().unwrap_or(0.5), l.get(5).copied().unwrap_or(7.0)]);
                ctx.case(format!("Sos::new({b:?}, {a:?})"), || {
                    let q = Sos::new(b, a);
                    ensure((0..3).all(|j| same(q.b[j], b[j]) && same(q.a[j], a[j])) && q.zi0 == 0.0 && q.zi1 == 0.0, || format!("{q:?}"))
                });
            }
            for d in [-13i64, -12, -7, -6, -5, -1, 1, 2, 5, 6, 7, 11, 12, 13, 600] {
                let m = 6 * n as i64 + d;
                if m < 0 { continue; }
                let l: Vec<f64> = (0..m).map(|i| i as f64).collect();
                ctx.case(format!("Sos::from_scipy_dyn({n}, {m} values) must be rejected"), || ensure(panics(|| Sos::from_scipy_dyn(n, l)), || "accepted".into()));
            }
        }
    });
}
