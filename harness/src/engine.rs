//! Property-based testing engine: choice-sequence source, integrated shrinking, case
//! statistics. A case is fully determined by its list of choices, so a failing case can be
//! stored, replayed and shrunk without knowing how the generator works.
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! bail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

#[inline]
pub fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = splitmix(seed ^ 0x5151_7171 ^ (b.len() as u64));
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        let mut a = [0u8; 8];
        a.copy_from_slice(c);
        h = splitmix(h ^ u64::from_le_bytes(a));
    }
    for x in it.remainder() {
        h = splitmix(h ^ *x as u64);
    }
    h
}

/// More choices than any case needs.
const MOST_CHOICES: usize = 1 << 23;
struct Endless;

/// Source of choices.
pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pub rec: Vec<u64>,
    index: u64,
    /// Choices beyond the end of a replayed list are random instead of zero.
    random_tail: bool,
    /// How often random choices repeat earlier ones: never, single ones, runs of them.
    echo: u8,
    /// Where the choices that are being repeated stand, and how many are left.
    run: (usize, usize),
    /// Texts and numbers generated earlier in the case, to be used again.
    pub texts: Vec<String>,
    pub ints: Vec<u64>,
    /// The size of an enumeration the case took part in.
    pub enumerated: Option<u64>,
    /// Every choice is written here at once, so that it survives a crash.
    pub trace: Option<std::fs::File>,
}

impl Src {
    fn new(state: u64, replay: Option<Vec<u64>>, index: u64, random_tail: bool) -> Src {
        Src {
            state, replay, rec: Vec::new(), index, random_tail, echo: 0, run: (0, 0), texts: Vec::new(), ints: Vec::new(),
            enumerated: None, trace: None,
        }
    }
    pub fn random(seed: u64, index: u64) -> Src {
        let mut s = Src::new(seed, None, index, false);
        s.echo = match splitmix(seed ^ 0x6563_686f) % 8 {
            6 => 1,
            7 => 2,
            _ => 0,
        };
        s
    }
    pub fn replay(choices: Vec<u64>) -> Src {
        Src::new(0, Some(choices), 0, false)
    }
    /// The given choices, then random ones.
    pub fn mixed(choices: Vec<u64>, seed: u64) -> Src {
        Src::new(seed, Some(choices), 0, true)
    }
    fn push(&mut self, v: u64) {
        if self.rec.len() >= MOST_CHOICES {
            // a generator that does not come to an end says nothing about the code under test
            std::panic::panic_any(Endless);
        }
        self.rec.push(v);
        if let Some(f) = &mut self.trace {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
    }
    /// Some cases repeat choices, so that equal values meet more often than by chance.
    fn echoed(&mut self) -> Option<u64> {
        if self.echo == 0 || self.rec.is_empty() {
            return None;
        }
        if self.run.1 > 0 {
            self.run = (self.run.0 + 1, self.run.1 - 1);
            return Some(self.rec[self.run.0 - 1]);
        }
        let r = self.raw();
        let n = self.rec.len() as u64;
        let back = match r >> 8 & 1 {
            0 => 1 + (r >> 16) % n.min(24),
            _ => 1 + (r >> 16) % n,
        };
        let at = (n - back) as usize;
        match self.echo {
            1 if r % 3 == 0 => Some(self.rec[at]),
            2 if r % 12 == 0 => {
                self.run = (at + 1, ((r >> 40) % 40) as usize);
                Some(self.rec[at])
            }
            _ => None,
        }
    }
    fn raw(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        splitmix(self.state)
    }
    /// The next choice of the list that is replayed.
    fn given(&self) -> Option<u64> {
        let r = self.replay.as_ref()?;
        match r.get(self.rec.len()) {
            Some(v) => Some(*v),
            None if self.random_tail => None,
            None => Some(0),
        }
    }
    /// A choice in `0..n`; zero is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match self.given() {
            Some(v) => {
                if v < n {
                    v
                } else {
                    v % n
                }
            }
            None => match self.echoed() {
                Some(v) => v % n,
                None => {
                    let r = self.raw();
                    ((r as u128 * n as u128) >> 64) as u64
                }
            },
        };
        self.push(v);
        v
    }
    pub fn u64(&mut self) -> u64 {
        let v = self.given().or_else(|| self.echoed()).unwrap_or_else(|| self.raw());
        self.push(v);
        v
    }
    /// In a search this is the index of the case (mod `n`), so that an enumeration of `n` cases
    /// visits each one; recorded as a choice, so that replays need no index.
    pub fn enum_index(&mut self, n: u64) -> u64 {
        self.enumerated = Some(n);
        if self.replay.is_some() {
            return self.below(n);
        }
        let v = if n == 0 { 0 } else { self.index % n };
        if n > 1 {
            self.push(v);
        }
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// True with probability `num/den`; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.below(den);
        v >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.usize(xs.len());
        &xs[i]
    }
    /// Index chosen with the given weights; shrinks to the first.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        w.len() - 1
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            // zero keeps the order
            let j = i - self.usize(i + 1);
            xs.swap(i, j);
        }
    }
}

/// What a case reports about itself.
#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<&'static str, u64>,
    /// Additional oracle evaluations beyond the case itself (for example one per mutation).
    pub evals: u64,
    pub nontrivial: Vec<u64>,
    pub want_desc: bool,
    pub desc: Option<String>,
    pub thorough: bool,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn hit(&mut self, h: u64) {
        self.nontrivial.push(h);
    }
    pub fn desc<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_desc {
            self.desc = Some(f());
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Res;

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
    /// Stack size of the threads that run the cases.
    pub stack: usize,
}

pub fn case_seed(seed: u64, id: &str, sub: &str, index: u64) -> u64 {
    let a = hash_bytes(seed, id.as_bytes());
    let b = hash_bytes(a, sub.as_bytes());
    splitmix(b ^ splitmix(index))
}

pub fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> Res {
    let r = catch_unwind(AssertUnwindSafe(|| f(src, ctx)));
    match r {
        Ok(r) => r,
        Err(e) if e.is::<Endless>() => {
            ctx.label("generation given up");
            Ok(())
        }
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            let loc = LAST_PANIC.with(|l| l.borrow().clone());
            Err(format!("panic: {} at {}", m, loc))
        }
    }
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = s);
    }));
}

/// Shrink a failing choice list. `run` returns the choices used and the message when the
/// candidate fails, `None` when it passes.
pub fn shrink(
    run: &mut dyn FnMut(Vec<u64>) -> Option<(Vec<u64>, String)>,
    start: Vec<u64>,
    msg: String,
    budget: Duration,
    max_evals: u64,
) -> (Vec<u64>, String, u64) {
    let t0 = Instant::now();
    let mut best = start;
    let mut best_msg = msg;
    let mut evals = 0u64;
    let mut seen: HashSet<u64> = HashSet::new();
    fn key(c: &[u64]) -> u64 {
        let mut h = splitmix(c.len() as u64);
        for x in c {
            h = splitmix(h ^ *x);
        }
        h
    }
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if evals >= max_evals || t0.elapsed() > budget {
                return (best, best_msg, evals);
            }
            if !seen.insert(key(&cand)) {
                false
            } else {
                evals += 1;
                match run(cand) {
                    Some((mut rec, m)) => {
                        while rec.last() == Some(&0) {
                            rec.pop();
                        }
                        if rec.len() < best.len() || (rec.len() == best.len() && rec < best) {
                            best = rec;
                            best_msg = m;
                            true
                        } else {
                            false
                        }
                    }
                    None => false,
                }
            }
        }};
    }
    while best.last() == Some(&0) {
        best.pop();
    }
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = best.len().max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..end);
                if !attempt!(c) {
                    i += size.max(1);
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..end].iter_mut().for_each(|x| *x = 0);
                    attempt!(c);
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // minimise single choices; delete one further on while decrementing (counts)
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                let mut lo = 0u64;
                let mut hi = best[i];
                while lo < hi && i < best.len() {
                    let mid = lo + (hi - lo) / 2;
                    let mut c = best.clone();
                    c[i] = mid;
                    if attempt!(c) {
                        if i >= best.len() {
                            break;
                        }
                        hi = best[i].min(mid);
                    } else {
                        lo = mid + 1;
                    }
                }
                let mut k = 1;
                while k <= 6 && i < best.len() && best[i] > 0 && i + 1 + k <= best.len() {
                    let mut c = best.clone();
                    c[i] -= 1;
                    c.drain(i + 1..i + 1 + k);
                    attempt!(c);
                    k += 1;
                }
            }
            i += 1;
        }
        if best == before {
            return (best, best_msg, evals);
        }
    }
}
