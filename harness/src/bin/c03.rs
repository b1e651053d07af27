use harness::*;
use sci_rs::special::Combinatoric;

fn perm(n: u128, k: u128) -> Option<u128> {
    if k > n {
        return Some(0);
    }
    let mut r = 1u128;
    for i in 0..k {
        r = r.checked_mul(n - i)?;
    }
    Some(r)
}
macro_rules! go { ($ctx:ident, $st:ident, $($T:ident)*) => { $( {
    let ctx: &mut Ctx = $ctx;
    let max = <$T>::MAX as u128;
    let mut ns: Vec<u128> = (0..=ctx.reps(200, 400) as u128).collect();
    if <$T>::BITS == 8 { ns = (0..=max).collect(); }
    for l in ctx.lits.iter().filter(|l| **l >= 0.0).map(|l| *l as u128).collect::<Vec<_>>() { for d in 0..3 { ns.push(l.saturating_add(d)); ns.push(l.saturating_sub(d)); } }
    for d in 0..5u128 { ns.push(max - d); ns.push(max / 2 - d); ns.push(max / 2 + d); ns.push(max / 3 + d);
        for s in [8u32, 16, 31, 32, 33, 63, 64, 65, 100] { if s < <$T>::BITS { ns.push((1u128 << s) + d); ns.push((1u128 << s) - d); } } }
    for s in 2..<$T>::BITS { ns.push(1u128 << (s - 1)); let x = (ctx.rng.next() as u128) << 64 | ctx.rng.next() as u128; ns.push((x & max) >> (<$T>::BITS - s)); }
    ns.retain(|n| *n <= max); ns.sort(); ns.dedup();
    for &n in &ns { for &k in &ns {
        if let Some(e) = perm(n, k) { if e <= max {
            ctx.case(format!("({n} as {}).perm({k})", stringify!($T)), || { let g = (n as $T).perm(k as $T); ensure(g == e as $T, || format!("got {g}, expected {e}")) });
        } }
        // the recursion costs about C(n, k) calls: k close to 1 or n, or n moderate
        let cheap = k > n || n == k || k == 0 || n <= 20 || (k == 1 && n <= 3000) || (n - k <= 3 && n < 300) || (k <= 3 && n <= 100);
        if cheap {
            let e = if k > n { Some(0) } else if k == n { Some(1) } else if k == 0 { Some(0) } else if k == 1 { Some(1) } else { $st.get(n as usize).and_then(|r| r[k as usize]) };
            if let Some(e) = e { if e <= max {
                ctx.case(format!("({n} as {}).stirling2({k})", stringify!($T)), || { let g = (n as $T).stirling2(k as $T); ensure(g == e as $T, || format!("got {g}, expected {e}")) });
            } }
        }
    } }
    if <$T>::MIN != 0 {
        let z = 0 as $T;
        let mut all: Vec<$T> = (1..12 as $T).map(|n| z - n).collect();
        all.extend([<$T>::MIN, <$T>::MIN + 1, <$T>::MIN / 2]);
        all.extend([z, 1, 2, 3, 5, 17, 100, <$T>::MAX]);
        for &n in &all { for &k in &all { if n < z || k < z {
            ctx.case(format!("({n} as {}).perm/stirling2({k})", stringify!($T)), || ensure(n.perm(k) == 0 && n.stirling2(k) == 0, || format!("got {} and {}, expected 0", n.perm(k), n.stirling2(k))));
        } } }
    }
} )* } }
fn main() {
    run(|ctx| {
        let mut st: Vec<Vec<Option<u128>>> = vec![vec![Some(0); 302]; 302];
        st[0][0] = Some(1);
        for n in 1..302usize {
            for k in 1..=n {
                st[n][k] = match (st[n - 1][k], st[n - 1][k - 1]) {
                    (Some(a), Some(b)) => a.checked_mul(k as u128).and_then(|x| x.checked_add(b)),
                    _ => None,
                };
            }
        }
        go!(ctx, st, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    });
}
