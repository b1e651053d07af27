use harness::*;
use sci_rs::special::Factorial;

/// n (n-k) (n-2k) ..., None beyond u128
fn fk(n: u128, k: u128) -> Option<u128> {
    let (mut r, mut i) = (1u128, n);
    while i > 0 {
        r = r.checked_mul(i)?;
        if i <= k {
            break;
        }
        i -= k;
    }
    Some(r)
}
macro_rules! go { ($ctx:ident, $($T:ident)*) => { $( {
    let ctx: &mut Ctx = $ctx;
    let lits: Vec<u128> = ctx.lits.iter().filter(|l| **l >= 0.0).map(|l| *l as u128).collect();
    let max = <$T>::MAX as u128;
    let mut ns: Vec<u128> = (0..=ctx.reps(300, 1000) as u128).collect();
    for l in lits { for d in 0..4 { ns.push(l.saturating_add(d)); ns.push(l.saturating_sub(d)); } }
    for d in 0..6u128 { ns.push(max - d); ns.push(max / 2 - d.min(max / 2)); ns.push(max / 2 + d); ns.push(max / 3 + d); }
    ns.retain(|n| *n <= max); ns.sort(); ns.dedup();
    let mut ks = ns.clone();
    for _ in 0..60 { let s = ctx.rng.below(<$T>::BITS as usize); ks.push(1 + (((ctx.rng.next() as u128) << 64 | ctx.rng.next() as u128) & max) >> s); }
    ks.retain(|k| *k > 0 && *k <= max); ks.sort(); ks.dedup();
    for &n in &ns {
        for (name, k, f) in [("factorial", 1u128, <$T as Factorial>::factorial as fn($T) -> $T), ("factorial2", 2, <$T as Factorial>::factorial2)] {
            if let Some(e) = fk(n, k) { if e <= max {
                ctx.case(format!("({n} as {}).{name}()", stringify!($T)), || { let g = f(n as $T); ensure(g == e as $T, || format!("got {g}, expected {e}")) });
            } }
        }
        for &k in &ks {
            if let Some(e) = fk(n, k) { if e <= max {
                ctx.case(format!("({n} as {}).factorialk({k})", stringify!($T)), || { let g = (n as $T).factorialk(k as $T); ensure(g == e as $T, || format!("got {g}, expected {e}")) });
            } }
        }
    }
    for _ in 0..ctx.reps(300, 3000) {
        let s = ctx.rng.below(<$T>::BITS as usize);
        let n = ((ctx.rng.next() as u128) << 64 | ctx.rng.next() as u128) & max >> s;
        let k = (n / (1 + ctx.rng.below(12) as u128)).max(1);
        if let Some(e) = fk(n, k) { if e <= max {
            ctx.case(format!("({n} as {}).factorialk({k})", stringify!($T)), || { let g = (n as $T).factorialk(k as $T); ensure(g == e as $T, || format!("got {g}, expected {e}")) });
        } }
    }
    if <$T>::MIN != 0 {
        for &n in ns.iter().filter(|n| **n > 0) {
            let m = (0 as $T).wrapping_sub(n as $T);
            for m in [m, m.wrapping_sub(1)] {
                if m >= 0 as $T { continue; }
                ctx.case(format!("({m} as {}) negative", stringify!($T)), || ensure(m.factorial() == 0 && m.factorial2() == 0 && m.factorialk(1) == 0 && m.factorialk(3) == 0 && m.factorialk(<$T>::MAX) == 0, || "not 0".into()));
            }
        }
    }
} )* } }
fn main() {
    run(|ctx| {
        go!(ctx, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    });
}
