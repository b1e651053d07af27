use harness::*;
use sci_rs::special::Combinatoric;

fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 { a } else { gcd(b, a % b) }
}
/// binomial coefficient, None beyond u128
fn binom(n: u128, k: u128) -> Option<u128> {
    if k > n {
        return Some(0);
    }
    let k = k.min(n - k);
    let mut r = 1u128;
    let mut i = 1u128;
    while i <= k {
        let mut num = n - (i - 1);
        let mut den = i;
        let g = gcd(num, den);
        num /= g;
        den /= g;
        r /= den; // den divides r: gcd(num, den) = 1 and den | r * num
        r = r.checked_mul(num)?;
        i += 1;
    }
    Some(r)
}
macro_rules! go { ($ctx:ident, $($T:ident)*) => { $( {
    let ctx: &mut Ctx = $ctx;
    let max = <$T>::MAX as u128;
    let mut ns: Vec<u128> = (0..=ctx.reps(140, 400) as u128).collect();
    if <$T>::BITS == 8 { ns = (0..=max).collect(); }
    for l in ctx.lits.iter().filter(|l| **l >= 0.0).map(|l| *l as u128).collect::<Vec<_>>() { for d in 0..3 { ns.push(l.saturating_add(d)); ns.push(l.saturating_sub(d)); } }
    for d in 0..5u128 { ns.push(max - d); ns.push(max / 2 - d); ns.push(max / 2 + d); ns.push(max / 3 + d); ns.push(max / 7 + d);
        for s in [8u32, 16, 31, 32, 33, 63, 64, 65, 100] { if s < <$T>::BITS { ns.push((1u128 << s) + d); ns.push((1u128 << s) - d); } } }
    for s in 2..<$T>::BITS { ns.push(1u128 << (s - 1)); let x = (ctx.rng.next() as u128) << 64 | ctx.rng.next() as u128; ns.push((x & max) >> (<$T>::BITS - s)); }
    ns.retain(|n| *n <= max); ns.sort(); ns.dedup();
    for i in 0..ns.len() { for j in 0..ns.len() {
        let (n, k) = (ns[i], ns[j]);
        if binom(n, k).map_or(true, |e| e > max) { continue; }
        let e = binom(n, k).unwrap();
        ctx.case(format!("({n} as {}).comb({k})", stringify!($T)), || { let g = (n as $T).comb(k as $T); ensure(g == e as $T, || format!("got {g}, expected {e}")) });
    } }
    for &n in &ns { for d in 0..6u128 { if d <= n {
        let k = n - d;
        if let Some(e) = binom(n, k) { if e <= max {
            ctx.case(format!("({n} as {}).comb({k})", stringify!($T)), || { let g = (n as $T).comb(k as $T); ensure(g == e as $T, || format!("got {g}, expected {e}")) });
        } }
    } } }
    for &n in &ns { for &k in &ns {
        let e = if n == 0 { Some(0) } else { (n - 1).checked_add(k).and_then(|m| if k == 0 || n == 1 { Some(1) } else { binom(m, k) }) };
        if let Some(e) = e { if e <= max {
            ctx.case(format!("({n} as {}).comb_rep({k})", stringify!($T)), || { let g = (n as $T).comb_rep(k as $T); ensure(g == e as $T, || format!("got {g}, expected {e}")) });
        } }
    } }
    if <$T>::MIN != 0 {
        let z = 0 as $T;
        let mut neg: Vec<$T> = ns.iter().filter(|n| **n > 0 && **n < 12).map(|n| z.wrapping_sub(*n as $T)).collect();
        neg.extend([<$T>::MIN, <$T>::MIN + 1, <$T>::MIN / 2]);
        let mut all: Vec<$T> = neg.clone();
        all.extend([z, 1, 2, 3, 5, 17, 100, <$T>::MAX]);
        for &n in &all { for &k in &all { if n < z || k < z {
            ctx.case(format!("({n} as {}).comb/comb_rep({k})", stringify!($T)), || ensure(n.comb(k) == 0 && n.comb_rep(k) == 0, || format!("got {} and {}, expected 0", n.comb(k), n.comb_rep(k))));
        } } }
    }
} )* } }
fn main() {
    run(|ctx| {
        go!(ctx, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    });
}
