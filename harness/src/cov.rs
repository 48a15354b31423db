//! Coverage of the code under test: the callbacks of LLVM's sanitizer coverage. Only the second
//! build of the harness has the crate under test instrumented; in the plain build nothing calls
//! these. What a thread reaches is collected per thread, and only while it asks for it.
use std::cell::Cell;
use std::ptr::null_mut;
use std::sync::atomic::{AtomicU32, Ordering};

const EDGES: usize = 1 << 16;
const COMPARISONS: usize = 1 << 18;
const CONSTANTS: usize = 1024;

pub struct Map {
    edges: Vec<u8>,
    edges_hit: Vec<u32>,
    comparisons: Vec<u8>,
    comparisons_hit: Vec<u32>,
    last: u32,
    /// Constants of comparisons.
    table: Vec<u64>,
    pub constants: Vec<u64>,
}

thread_local! {
    static MAP: Cell<*mut Map> = const { Cell::new(null_mut()) };
}
static NEXT: AtomicU32 = AtomicU32::new(1);

/// The number of instrumented edges; zero in the plain build.
pub fn edges() -> u32 {
    NEXT.load(Ordering::Relaxed) - 1
}

impl Map {
    pub fn new() -> Box<Map> {
        Box::new(Map {
            edges: vec![0; EDGES],
            edges_hit: Vec::with_capacity(EDGES),
            comparisons: vec![0; COMPARISONS],
            comparisons_hit: Vec::with_capacity(COMPARISONS),
            last: 0,
            table: vec![0; 4 * CONSTANTS],
            constants: Vec::with_capacity(CONSTANTS),
        })
    }

    /// Runs `f` and returns the features it reached: edges with the logarithm of how often, and
    /// how near the two sides of comparisons came to each other.
    pub fn record<T>(self: &mut Box<Map>, features: &mut Vec<u32>, f: impl FnOnce() -> T) -> T {
        let p: *mut Map = &mut **self;
        MAP.with(|m| m.set(p));
        let r = f();
        MAP.with(|m| m.set(null_mut()));
        features.clear();
        for i in self.edges_hit.drain(..) {
            let n = std::mem::take(&mut self.edges[i as usize]);
            let bucket = match n {
                1 => 0,
                2 => 1,
                3 => 2,
                4..=7 => 3,
                8..=15 => 4,
                16..=31 => 5,
                32..=127 => 6,
                _ => 7,
            };
            features.push(i << 3 | bucket);
        }
        for i in self.comparisons_hit.drain(..) {
            self.comparisons[i as usize] = 0;
            features.push((EDGES as u32) << 3 | i);
        }
        self.last = 0;
        r
    }
}

pub const FEATURES: usize = (EDGES << 3) + COMPARISONS;

/// Whether a feature is an edge (rather than a comparison).
pub fn is_edge(f: u32) -> bool {
    (f as usize) < EDGES << 3
}

fn comparison(a: u64, b: u64) {
    let m = MAP.with(|m| m.get());
    if m.is_null() {
        return;
    }
    let m = unsafe { &mut *m };
    let place = m.last.wrapping_mul(0x9E37_79B1) >> 7;
    for k in [(a ^ b).count_ones(), 65 + 64 - a.wrapping_sub(b).min(b.wrapping_sub(a)).leading_zeros()] {
        let i = (place ^ k.wrapping_mul(2057)) as usize % COMPARISONS;
        if m.comparisons[i] == 0 {
            m.comparisons[i] = 1;
            m.comparisons_hit.push(i as u32);
        }
    }
}

fn constant(c: u64) {
    let m = MAP.with(|m| m.get());
    if m.is_null() || c < 4 || c > u32::MAX as u64 {
        return;
    }
    let m = unsafe { &mut *m };
    if m.constants.len() == CONSTANTS {
        return;
    }
    let mut i = c.wrapping_mul(0x9E37_79B9_7F4A_7C15) as usize >> 40;
    loop {
        i %= m.table.len();
        if m.table[i] == c {
            return;
        }
        if m.table[i] == 0 {
            m.table[i] = c;
            m.constants.push(c);
            return;
        }
        i += 1;
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            *p = NEXT.fetch_add(1, Ordering::Relaxed);
        }
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let m = MAP.with(|m| m.get());
    if m.is_null() {
        return;
    }
    let m = &mut *m;
    let i = *guard as usize % EDGES;
    m.last = i as u32;
    let c = &mut m.edges[i];
    if *c == 0 {
        m.edges_hit.push(i as u32);
    }
    *c = c.saturating_add(1);
}

macro_rules! hooks {
    ($($cmp:ident $const_cmp:ident $t:ty;)*) => {
        $(
            #[no_mangle]
            pub extern "C" fn $cmp(a: $t, b: $t) {
                comparison(a as u64, b as u64)
            }
            #[no_mangle]
            pub extern "C" fn $const_cmp(a: $t, b: $t) {
                constant(a as u64);
                comparison(a as u64, b as u64)
            }
        )*
    };
}
hooks! {
    __sanitizer_cov_trace_cmp1 __sanitizer_cov_trace_const_cmp1 u8;
    __sanitizer_cov_trace_cmp2 __sanitizer_cov_trace_const_cmp2 u16;
    __sanitizer_cov_trace_cmp4 __sanitizer_cov_trace_const_cmp4 u32;
    __sanitizer_cov_trace_cmp8 __sanitizer_cov_trace_const_cmp8 u64;
}

/// `cases` is the number of cases, the width of the value and the cases.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(value: u64, cases: *const u64) {
    let n = *cases as usize;
    for k in 0..n.min(32) {
        constant(*cases.add(2 + k));
        comparison(value, *cases.add(2 + k));
    }
}
