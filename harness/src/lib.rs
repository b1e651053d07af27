//! Replay side of the checks: runs the real code on concrete inputs and compares it with the
//! specification of a property, evaluated independently.  A contract that fails to verify is
//! looked up here for a failing input.
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static CURRENT: Mutex<String> = Mutex::new(String::new());
static TICK: AtomicU64 = AtomicU64::new(0);
static EVALS: AtomicU64 = AtomicU64::new(0);
static OOB: AtomicU64 = AtomicU64::new(0);

/// Allocator with guard zones: a write outside a heap block is noticed when the block is freed.
pub struct Guarded;
const ZONE: usize = 4096;
extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, n: usize) -> i32;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}
/// blocks of words end at an inaccessible page, so a read beyond them stops the process (the case is then found by a traced run)
fn paged(l: &Layout) -> Option<usize> {
    if l.align() == 8 && l.size() > 0 && l.size() <= 1 << 16 && l.size() % 8 == 0 { Some((l.size() + 4095) / 4096 * 4096) } else { None }
}
unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if let Some(n) = paged(&l) {
            let p = mmap(std::ptr::null_mut(), n + 4096, 3, 0x22, -1, 0);
            if p as isize == -1 {
                return std::ptr::null_mut();
            }
            mprotect(p.add(n), 4096, 0);
            std::ptr::write_bytes(p, 0xA5, n);
            return p.add(n - l.size());
        }
        let l2 = Layout::from_size_align(l.size() + 2 * ZONE, l.align().max(16)).unwrap();
        let p = System.alloc(l2);
        if p.is_null() {
            return p;
        }
        std::ptr::write_bytes(p, 0xA5, l.size() + 2 * ZONE);
        p.add(ZONE)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if let Some(n) = paged(&l) {
            let base = p.sub(n - l.size());
            if (0..n - l.size()).any(|i| *base.add(i) != 0xA5) {
                OOB.fetch_add(1, Ordering::SeqCst);
            }
            munmap(base, n + 4096);
            return;
        }
        let l2 = Layout::from_size_align(l.size() + 2 * ZONE, l.align().max(16)).unwrap();
        let base = p.sub(ZONE);
        let bad = (0..ZONE).any(|i| *base.add(i) != 0xA5 || *base.add(ZONE + l.size() + i) != 0xA5);
        if bad {
            OOB.fetch_add(1, Ordering::SeqCst);
        }
        System.dealloc(base, l2)
    }
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// below n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    pub fn coin(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

struct Fail {
    case: String,
    msg: String,
    key: String,
}

pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    pub lits: Vec<f64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    fails: Vec<Fail>,
    nfails: u64,
    start: Instant,
    budget: f64,
    out: String,
    trace: Option<String>,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    }
}

/// true if f panics
pub fn panics<R>(f: impl FnOnce() -> R) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

impl Ctx {
    fn new() -> Ctx {
        let get = |k: &str| std::env::var(k).ok();
        let seed: u64 = get("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = get("FALS_TIER").map(|s| s == "thorough").unwrap_or(false);
        let lits = get("FALS_LITS")
            .map(|s| s.split(',').filter_map(|x| x.parse::<f64>().ok()).collect())
            .unwrap_or_default();
        Ctx {
            rng: Rng(seed.wrapping_mul(0x1234_5678_9ABC_DEF1)),
            thorough,
            lits,
            distinct: HashSet::new(),
            samples: vec![],
            fails: vec![],
            nfails: 0,
            start: Instant::now(),
            budget: get("FALS_BUDGET").and_then(|s| s.parse().ok()).unwrap_or(60.0),
            out: get("FALS_OUT").unwrap_or_default(),
            trace: get("FALS_TRACE"),
        }
    }
    /// number of random repetitions, by tier
    pub fn reps(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn more(&self) -> bool {
        self.start.elapsed().as_secs_f64() < self.budget && self.nfails < 200
    }
    /// integer literals of the sources (and neighbours) in 0..=max
    pub fn lit_sizes(&self, max: usize) -> Vec<usize> {
        let mut v: Vec<usize> = vec![];
        for l in &self.lits {
            if *l >= 0.0 && *l <= max as f64 + 1.0 && l.fract() == 0.0 {
                let n = *l as usize;
                for d in [n.wrapping_sub(1), n, n + 1, 2 * n] {
                    if d <= max {
                        v.push(d);
                    }
                }
            }
        }
        v.sort();
        v.dedup();
        v
    }
    /// float literals of the sources and their neighbours
    pub fn lit_floats(&self) -> Vec<f64> {
        let mut v = vec![];
        for l in &self.lits {
            for d in [*l, -*l, l * (1.0 + 1e-9), l * (1.0 - 1e-9), l + 1.0, l - 1.0, l + 0.5, l - 0.5] {
                if d.is_finite() {
                    v.push(d);
                }
            }
        }
        v
    }
    pub fn case(&mut self, desc: String, f: impl FnOnce() -> Result<(), String>) {
        self.keyed("", desc, f)
    }
    pub fn keyed(&mut self, key: &str, desc: String, f: impl FnOnce() -> Result<(), String>) {
        if self.nfails >= 200 {
            return;
        }
        EVALS.fetch_add(1, Ordering::Relaxed);
        let mut h = DefaultHasher::new();
        desc.hash(&mut h);
        let new = self.distinct.insert(h.finish());
        if new && (self.samples.len() < 3 || (self.distinct.len().is_power_of_two() && self.samples.len() < 12)) {
            self.samples.push(clip(&desc, 300));
        }
        if let Some(t) = &self.trace {
            let _ = std::fs::write(t, &desc);
        }
        {
            let mut c = CURRENT.lock().unwrap();
            c.clear();
            c.push_str(&desc);
        }
        TICK.fetch_add(1, Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        let oob = OOB.swap(0, Ordering::SeqCst);
        let msg = match r {
            Ok(Ok(())) if oob == 0 => return,
            Ok(Ok(())) => "memory outside a heap block was written".to_string(),
            Ok(Err(m)) => m,
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                format!("panicked: {m}")
            }
        };
        if key.is_empty() {
            self.nfails += 1;
        }
        let same = self.fails.iter().filter(|f| f.key == key).count();
        if same < 5 {
            self.fails.push(Fail { case: desc, msg, key: key.to_string() });
        }
    }
    fn finish(&self, extra: Option<Fail>) {
        let mut s = String::new();
        s.push_str(&format!(
            "{{\"evaluations\":{},\"distinct\":{},\"seconds\":{:.3},\"samples\":[",
            EVALS.load(Ordering::Relaxed),
            self.distinct.len(),
            self.start.elapsed().as_secs_f64()
        ));
        s.push_str(&self.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","));
        s.push_str("],\"failures\":[");
        let all: Vec<&Fail> = self.fails.iter().chain(extra.as_ref()).collect();
        s.push_str(
            &all.iter()
                .map(|f| {
                    format!(
                        "{{\"key\":{},\"case\":{},\"message\":{}}}",
                        esc(&f.key),
                        esc(&clip(&f.case, 20000)),
                        esc(&clip(&f.msg, 2000))
                    )
                })
                .collect::<Vec<_>>()
                .join(","),
        );
        s.push_str("]}\n");
        if self.out.is_empty() {
            print!("{s}");
        } else {
            std::fs::write(&self.out, s).unwrap();
        }
    }
}

pub fn run(f: impl FnOnce(&mut Ctx)) {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| {
        let mut last = 0;
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let t = TICK.load(Ordering::SeqCst);
            if t != last {
                last = t;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(60) && t > 0 {
                let case = CURRENT.lock().unwrap().clone();
                let c = Ctx::new();
                c.finish(Some(Fail { case, msg: "no result after 60 s".into(), key: String::new() }));
                std::process::exit(3);
            }
        }
    });
    let mut c = Ctx::new();
    f(&mut c);
    TICK.fetch_add(1, Ordering::SeqCst);
    c.finish(None);
}

// ---------------------------------------------------------------- comparing floats
/// |a-b| <= tol * (scale + max(|a|,|b|)); equal infinities and two NaN agree
pub fn close(a: f64, b: f64, tol: f64, scale: f64) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) {
        return true;
    }
    if !a.is_finite() || !b.is_finite() {
        return false;
    }
    (a - b).abs() <= tol * (scale + a.abs().max(b.abs()))
}
pub fn close_all(a: &[f64], b: &[f64], tol: f64, scale: f64) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("length {} instead of {}", a.len(), b.len()));
    }
    for i in 0..a.len() {
        if !close(a[i], b[i], tol, scale) {
            return Err(format!("element {i} is {:e} instead of {:e}", a[i], b[i]));
        }
    }
    Ok(())
}
pub fn ensure(c: bool, m: impl FnOnce() -> String) -> Result<(), String> {
    if c {
        Ok(())
    } else {
        Err(m())
    }
}

pub type C = nalgebra::Complex<f64>;
pub fn c(re: f64, im: f64) -> C {
    C::new(re, im)
}
pub fn cclose(a: C, b: C, tol: f64, scale: f64) -> bool {
    if !(a.re.is_finite() && a.im.is_finite()) {
        return false;
    }
    (a - b).norm() <= tol * (scale + a.norm().max(b.norm()))
}
/// k * prod(s - z) / prod(s - p)
pub fn heval(z: &[C], p: &[C], k: f64, s: C) -> C {
    let mut h = c(k, 0.0);
    let n = z.len().max(p.len());
    for i in 0..n {
        if i < z.len() {
            h *= s - z[i];
        }
        if i < p.len() {
            h /= s - p[i];
        }
    }
    h
}
/// a set closed under conjugation: real and conjugate pairs, reordered
pub fn conj_set(r: &mut Rng, pairs: usize, reals: usize, mut g: impl FnMut(&mut Rng) -> C) -> Vec<C> {
    let mut v = vec![];
    for _ in 0..pairs {
        let x = g(r);
        let x = if x.im == 0.0 { c(x.re, 0.5) } else { x };
        v.push(x);
        v.push(x.conj());
    }
    for _ in 0..reals {
        let x = g(r);
        v.push(c(x.re, 0.0));
    }
    for i in (1..v.len()).rev() {
        let j = r.below(i + 1);
        v.swap(i, j);
    }
    v
}
pub fn norm(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}
/// sometimes silences a stretch, or everything but a few samples
pub fn silence(r: &mut Rng, y: &mut [f64]) {
    let n = y.len();
    if n == 0 { return; }
    match r.below(6) {
        0 => { let a = r.below(n); let b = r.range(a, n - 1); y[a..=b].iter_mut().for_each(|x| *x = 0.0); }
        1 => { let k = r.below(n); for i in 0..n { if i > k { y[i] = 0.0; } } }
        2 => y.iter_mut().for_each(|x| if r.below(3) > 0 { *x = 0.0 }),
        3 if r.coin() => y.iter_mut().for_each(|x| *x = 0.0),
        _ => {}
    }
}
/// signals of several kinds
pub fn signal(r: &mut Rng, n: usize) -> Vec<f64> {
    match r.below(8) {
        0 => (0..n).map(|_| r.range(0, 6) as f64 - 3.0).collect(),
        1 => (0..n).map(|i| i as f64).collect(),
        2 => (0..n).map(|i| if i == 0 { 1.0 } else { 0.0 }).collect(),
        3 => (0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect(),
        4 => {
            let k = r.below(n.max(1));
            (0..n).map(|i| if i == k { -2.5 } else { 0.0 }).collect()
        }
        5 => {
            let x = r.f(-4.0, 4.0);
            (0..n).map(|_| x).collect()
        }
        _ => (0..n).map(|_| r.f(-3.0, 3.0)).collect(),
    }
}
/// a signal, sometimes very quiet or very loud
pub fn scaled_signal(r: &mut Rng, n: usize) -> Vec<f64> {
    let s = *r.pick(&[1.0, 1.0, 1.0, 1.0, 1e-14, 1e-7, 1e12]);
    signal(r, n).into_iter().map(|x| x * s).collect()
}
/// b, a of stable sections; a[0] = 1
pub fn sections(r: &mut Rng, n: usize) -> Vec<([f64; 3], [f64; 3])> {
    (0..n)
        .map(|_| {
            // long cascades get milder sections: rounding must stay small
            let top = if n <= 4 { 0.95 } else { 0.5 };
            let rad = r.f(0.0, top);
            let th = r.f(0.0, 3.14159);
            let mut a = if r.coin() {
                [1.0, -2.0 * rad * th.cos(), rad * rad]
            } else {
                let q = r.f(-top, top);
                let p = r.f(-top, top);
                [1.0, -(q + p), q * p]
            };
            let mut b = [r.f(-1.2, 1.2), r.f(-1.2, 1.2), r.f(-1.2, 1.2)];
            match r.below(8) {
                0 => a = [1.0, a[1].clamp(-top, top), 0.0],
                1 => b[2] = 0.0,
                2 => {
                    a = [1.0, a[1].clamp(-top, top), 0.0];
                    b[2] = 0.0
                }
                3 if n <= 4 => b = [1.0, 2.0, 1.0],
                4 => a = [1.0, 0.0, 0.0],
                _ => {}
            }
            if n > 4 {
                let s = (b[0].abs() + b[1].abs() + b[2].abs()).max(0.5);
                b = b.map(|x| x / s);
            }
            (b, a)
        })
        .collect()
}
