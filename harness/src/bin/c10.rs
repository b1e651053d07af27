use harness::*;
use nalgebra::{DMatrix, DVector, SMatrix};
use sci_rs::signal::filter::{odd_ext_dyn, pad, Pad};
#[global_allocator]
static A: Guarded = Guarded;

fn expect(x: &DMatrix<f64>, n: usize, axis: usize) -> DMatrix<f64> {
    let (r, c) = x.shape();
    let line = |len: usize, get: &dyn Fn(usize) -> f64, i: usize| -> f64 {
        if i < n {
            2.0 * get(0) - get(n - i)
        } else if i < n + len {
            get(i - n)
        } else {
            let d = i - n - len;
            2.0 * get(len - 1) - get(len - 2 - d)
        }
    };
    if axis == 0 {
        DMatrix::from_fn(r + 2 * n, c, |i, j| line(r, &|k| x[(k, j)], i))
    } else {
        DMatrix::from_fn(r, c + 2 * n, |i, j| line(c, &|k| x[(i, k)], j))
    }
}
fn same(g: &DMatrix<f64>, e: &DMatrix<f64>) -> Result<(), String> {
    ensure(g.shape() == e.shape(), || format!("shape {:?} instead of {:?}", g.shape(), e.shape()))?;
    for i in 0..e.nrows() {
        for j in 0..e.ncols() {
            ensure(close(g[(i, j)], e[(i, j)], 1e-12, 0.0), || format!("entry ({i}, {j}) is {} instead of {}", g[(i, j)], e[(i, j)]))?;
        }
    }
    Ok(())
}
fn one(ctx: &mut Ctx, x: &DMatrix<f64>, n: usize, axis: usize) {
    let e = expect(x, n, axis);
    let d = format!("{}x{} matrix {:?}", x.nrows(), x.ncols(), x.as_slice());
    ctx.case(format!("odd_ext_dyn n={n} axis={axis} {d}"), || same(&odd_ext_dyn(x.clone(), n, axis), &e));
    ctx.case(format!("pad Odd Some({n}) axis={axis} {d}"), || {
        for taps in [0, 1, 5] {
            let (edge, g) = pad(Pad::Odd, Some(n), x.clone(), axis, taps);
            ensure(edge == n, || format!("edge {edge} instead of {n}"))?;
            same(&g, &e)?;
        }
        Ok(())
    });
    if n % 3 == 0 {
        ctx.case(format!("pad Odd None ntaps={} axis={axis} {d}", n / 3), || {
            let (edge, g) = pad(Pad::Odd, None, x.clone(), axis, n / 3);
            ensure(edge == n, || format!("edge {edge} instead of {n}"))?;
            same(&g, &e)
        });
    }
    ctx.case(format!("pad None axis={axis} {d}"), || {
        for pl in [None, Some(0), Some(n), Some(1000)] {
            let (edge, g) = pad(Pad::None, pl, x.clone(), axis, n);
            ensure(edge == 0, || format!("edge {edge} instead of 0"))?;
            same(&g, x)?;
        }
        Ok(())
    });
}
fn fixed<const R: usize, const K: usize>(ctx: &mut Ctx) {
    for axis in 0..2 {
        for n in 0..(if axis == 0 { R } else { K }) {
            let s = SMatrix::<f64, R, K>::from_fn(|i, j| (i * 7 + j * j) as f64 - 3.5);
            let x = DMatrix::from_fn(R, K, |i, j| s[(i, j)]);
            ctx.case(format!("static {R}x{K} n={n} axis={axis}"), || {
                same(&odd_ext_dyn(s, n, axis), &expect(&x, n, axis))?;
                let (e, g) = pad(Pad::Odd, Some(n), s, axis, 1);
                ensure(e == n, || format!("edge {e}"))?;
                same(&g, &expect(&x, n, axis))
            });
        }
    }
}
fn main() {
    run(|ctx| {
        let top = ctx.reps(7, 12);
        for r in 1..=top {
            for k in 1..=top {
                let mut v: Vec<f64> = signal(&mut ctx.rng, r * k);
                for (i, x) in v.iter_mut().enumerate() { *x += i as f64 * 1.25; }
                let x = DMatrix::from_vec(r, k, v);
                for n in 0..r { one(ctx, &x, n, 0); }
                for n in 0..k { one(ctx, &x, n, 1); }
            }
        }
        let mut lens: Vec<usize> = (8..=40).collect();
        lens.extend([63, 64, 65, 100, 128, 200]);
        lens.extend(ctx.lit_sizes(300));
        for l in lens {
            if l == 0 { continue; }
            let (v, w) = (signal(&mut ctx.rng, l), signal(&mut ctx.rng, 2 * l));
            let (a, b, c, d) = (DMatrix::from_vec(l, 1, v.clone()), DMatrix::from_vec(1, l, v.clone()), DMatrix::from_vec(l, 2, w.clone()), DMatrix::from_vec(2, l, w));
            let mut ns: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 6, 9, 12, 15, l / 2, l.saturating_sub(2), l - 1];
            ns.extend(ctx.lit_sizes(l));
            ns.sort();
            ns.dedup();
            for n in ns {
                if n >= l { continue; }
                one(ctx, &a, n, 0);
                one(ctx, &b, n, 1);
                one(ctx, &c, n, 0);
                one(ctx, &d, n, 1);
                let dv = DVector::from_vec(v.clone());
                ctx.case(format!("DVector length {l} n={n}"), || same(&odd_ext_dyn(dv, n, 0), &expect(&a, n, 0)));
            }
        }
        fixed::<1, 1>(ctx); fixed::<2, 3>(ctx); fixed::<4, 2>(ctx); fixed::<5, 5>(ctx); fixed::<1, 6>(ctx); fixed::<6, 1>(ctx);
        for (r, k) in [(3usize, 4usize), (5, 2), (4, 4)] {
            let x = DMatrix::<i64>::from_fn(r, k, |i, j| (i * i * 3 + j) as i64 - 4);
            let xf = x.map(|v| v as f64);
            for axis in 0..2 { for n in 0..(if axis == 0 { r } else { k }) {
                let x = x.clone();
                ctx.case(format!("i64 {r}x{k} n={n} axis={axis}"), || same(&odd_ext_dyn(x, n, axis).map(|v| v as f64), &expect(&xf, n, axis)));
            } }
        }
    });
}
