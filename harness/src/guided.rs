//! Coverage-guided search over choice sequences, in the build whose code under test is
//! instrumented (`cov.rs`). What it finds is only a candidate: the plain build confirms it.
use crate::{cut, esc};
use dbus_pbt::checks;
use dbus_pbt::cov;
use dbus_pbt::dict;
use dbus_pbt::engine::*;
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Barrier, Mutex};
use std::time::{Duration, Instant};

const THREADS: usize = 8;
const ROUND: Duration = Duration::from_millis(40);
const LONGEST: usize = 20_000;

struct Entry {
    choices: Vec<u64>,
    features: Vec<u32>,
    edge: bool,
    micros: u64,
}

struct Rng(u64);

impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        splitmix(self.0)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}

fn choose<'a>(corpus: &'a [Entry], r: &mut Rng) -> &'a [u64] {
    let n = corpus.len();
    let pick = match r.below(4) {
        0 => n - 1 - r.below(n.min(16)),
        1 => n - 1 - r.below(n.min(200)),
        _ => r.below(n),
    };
    // of three, rather one that reached an edge, and rather a quick one
    let mut best = pick;
    for _ in 0..2 {
        let other = match r.below(2) {
            0 => n - 1 - r.below(n.min(64)),
            _ => r.below(n),
        };
        let better = if corpus[other].edge != corpus[best].edge && r.below(2) == 0 {
            corpus[other].edge
        } else {
            corpus[other].micros < corpus[best].micros && r.below(4) != 0
        };
        if better {
            best = other;
        }
    }
    &corpus[best].choices
}

/// A changed sequence; whether what lies beyond its end is random.
fn mutate(corpus: &[Entry], constants: &[u64], new: &[u64], r: &mut Rng) -> (Vec<u64>, bool) {
    let mut c = choose(corpus, r).to_vec();
    let mut tail = r.below(2) == 0;
    let times = 1 + [0, 0, 0, 1, 1, 2, 3, 6][r.below(8)];
    for _ in 0..times {
        if c.is_empty() {
            return (c, true);
        }
        let at = r.below(c.len());
        let len = |r: &mut Rng, c: &[u64]| {
            let n = if r.below(4) == 0 { 1 + r.below(64) } else { 1 + r.below(8) };
            n.min(c.len() - at)
        };
        match r.below(14) {
            0 | 1 | 2 => c[at] = r.next(),
            3 => c[at] = c[at].wrapping_add(1 + r.below(4) as u64),
            4 => c[at] = c[at].saturating_sub(1 + r.below(4) as u64),
            5 => {
                let n = len(r, &c);
                c.drain(at..at + n);
            }
            6 => {
                let n = len(r, &c);
                let part = c[at..at + n].to_vec();
                let to = r.below(c.len() + 1);
                c.splice(to..to, part);
            }
            7 => {
                let n = 1 + r.below(6);
                let part: Vec<u64> = (0..n).map(|_| r.next()).collect();
                c.splice(at..at, part);
            }
            8 => {
                let n = len(r, &c);
                for x in &mut c[at..at + n] {
                    *x = r.next();
                }
            }
            9 => {
                let o = choose(corpus, r);
                let from = r.below(o.len() + 1);
                c.truncate(at);
                c.extend_from_slice(&o[from..]);
            }
            10 => {
                c.truncate(at);
                tail = true;
            }
            11 => c[at] = c[r.below(c.len())],
            12 => {
                let from = if !new.is_empty() && r.below(2) == 0 { new } else { constants };
                if !from.is_empty() {
                    c[at] = from[r.below(from.len())].wrapping_add(1).wrapping_sub(r.below(3) as u64);
                }
            }
            _ => {
                let o = choose(corpus, r);
                if !o.is_empty() {
                    let from = r.below(o.len());
                    let n = (1 + r.below(16)).min(o.len() - from);
                    let m = len(r, &c).min(n);
                    c.splice(at..at + m, o[from..from + n].iter().copied());
                }
            }
        }
    }
    c.truncate(LONGEST);
    (c, tail)
}

fn write_trace(f: &std::fs::File, si: usize, seed: u64, tail: bool, c: &[u64]) {
    let mut b = Vec::with_capacity(32 + 8 * c.len());
    for x in [si as u64 + 1, tail as u64, seed, c.len() as u64].iter().chain(c) {
        b.extend_from_slice(&x.to_le_bytes());
    }
    let _ = f.write_all_at(&b, 0);
}

/// What a thread was running: the sub-check, the choices and the seed of the random ones after
/// them.
pub fn read_trace(p: &Path) -> Option<(usize, Vec<u64>, Option<u64>)> {
    let b = std::fs::read(p).ok()?;
    let w: Vec<u64> = b
        .chunks_exact(8)
        .map(|c| {
            let mut a = [0u8; 8];
            a.copy_from_slice(c);
            u64::from_le_bytes(a)
        })
        .collect();
    let (si, tail, seed, n) = (*w.first()?, *w.get(1)?, *w.get(2)?, *w.get(3)? as usize);
    if si == 0 {
        return None;
    }
    let c = w.get(4..4 + n)?.to_vec();
    Some((si as usize - 1, c, (tail == 1).then_some(seed)))
}

/// Writes `dir/trace-T` while it runs, `dir/fail-SUB` for a failing case and `dir/report`.
pub fn worker(id: &str, tier: &str, seed: u64, dir: &Path, seconds: f64) -> i32 {
    let check = checks::find(id).expect("unknown property");
    let thorough = tier == "thorough";
    let t0 = Instant::now();
    let n = check.subs.len();
    let only = std::env::var("PBT_ONLY").ok();
    let new_ints = &dict::split().new.1;
    // Sub-checks whose plain run visits every case there is have nothing left to search.
    let open: Vec<usize> = (0..n)
        .filter(|si| {
            let sub = &check.subs[*si];
            let total = if thorough { sub.thorough } else { sub.quick };
            if only.as_ref().map_or(false, |o| o != sub.name) {
                return false;
            }
            (0..8).any(|k| {
                let mut src = Src::random(case_seed(seed, check.id, sub.name, k), k);
                let mut ctx = Ctx { thorough, ..Default::default() };
                let _ = run_case(sub.f, &mut src, &mut ctx);
                src.rec.len() > 1 || src.enumerated.map_or(true, |n| n > total)
            })
        })
        .collect();
    let open = &open;
    let barrier = Barrier::new(THREADS);
    let slots: Vec<Mutex<Vec<Entry>>> = (0..THREADS).map(|_| Mutex::new(Vec::new())).collect();
    let done = AtomicBool::new(false);
    let failed = AtomicBool::new(false);
    let report = Mutex::new(Vec::<(usize, usize, usize)>::new());
    let executions: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    std::thread::scope(|s| {
        for t in 0..THREADS {
            let (check, barrier, slots, done, failed, report, executions) =
                (&check, &barrier, &slots, &done, &failed, &report, &executions);
            std::thread::Builder::new()
                .stack_size(check.stack * 16)
                .spawn_scoped(s, move || {
                    let trace = std::fs::File::create(dir.join(format!("trace-{}", t))).unwrap();
                    let mut map = cov::Map::new();
                    let mut hit: Vec<u32> = Vec::new();
                    for (k, si) in open.iter().copied().enumerate() {
                        let sub = &check.subs[si];
                        let left = (seconds - t0.elapsed().as_secs_f64()).max(0.0);
                        let until = Instant::now() + Duration::from_secs_f64(left / (open.len() - k) as f64);
                        let mut seen = vec![false; cov::FEATURES];
                        let mut corpus: Vec<Entry> = Vec::new();
                        let mut r = Rng(case_seed(seed ^ 0x6775_6964_6564, check.id, sub.name, t as u64));
                        let mut runs = 0u64;
                        barrier.wait();
                        if t == 0 {
                            done.store(false, Ordering::SeqCst);
                            failed.store(false, Ordering::SeqCst);
                        }
                        barrier.wait();
                        loop {
                            let mut new: Vec<Entry> = Vec::new();
                            let mut fresh: std::collections::HashSet<u32> = Default::default();
                            let end = until.min(Instant::now() + ROUND);
                            loop {
                                let begin = Instant::now();
                                if begin > end || failed.load(Ordering::Relaxed) {
                                    break;
                                }
                                let random = corpus.is_empty() || r.below(if corpus.len() < 64 { 4 } else { 12 }) == 0;
                                let (c, tail) = if random { (Vec::new(), true) } else { mutate(&corpus, &map.constants, new_ints, &mut r) };
                                let tail_seed = r.next();
                                write_trace(&trace, si, tail_seed, tail, &c);
                                let mut src = if tail { Src::mixed(c, tail_seed) } else { Src::replay(c) };
                                let mut ctx = Ctx { thorough, ..Default::default() };
                                let res = map.record(&mut hit, || run_case(sub.f, &mut src, &mut ctx));
                                runs += 1;
                                if let Err(m) = res {
                                    if !failed.swap(true, Ordering::SeqCst) {
                                        let l: Vec<String> = src.rec.iter().map(|x| x.to_string()).collect();
                                        let _ = std::fs::write(dir.join(format!("fail-{}", si)), l.join(","));
                                        let _ = std::fs::write(dir.join(format!("why-{}", si)), cut(&m, 2000));
                                    }
                                    break;
                                }
                                let micros = begin.elapsed().as_micros() as u64;
                                if src.rec.len() > LONGEST || micros > 200_000 {
                                    continue;
                                }
                                hit.retain(|f| !seen[*f as usize] && !fresh.contains(f));
                                if !hit.is_empty() {
                                    fresh.extend(hit.iter().copied());
                                    new.push(Entry {
                                        choices: src.rec,
                                        edge: hit.iter().any(|f| cov::is_edge(*f)),
                                        features: hit.clone(),
                                        micros,
                                    });
                                }
                            }
                            *slots[t].lock().unwrap() = new;
                            barrier.wait();
                            for slot in slots.iter() {
                                for e in slot.lock().unwrap().iter() {
                                    let mut any = false;
                                    let mut edge = false;
                                    for f in &e.features {
                                        if !seen[*f as usize] {
                                            seen[*f as usize] = true;
                                            any = true;
                                            edge |= cov::is_edge(*f);
                                        }
                                    }
                                    if any {
                                        corpus.push(Entry { choices: e.choices.clone(), features: Vec::new(), edge, micros: e.micros });
                                    }
                                }
                            }
                            if t == 0 && (Instant::now() > until || failed.load(Ordering::SeqCst)) {
                                done.store(true, Ordering::SeqCst);
                            }
                            barrier.wait();
                            if done.load(Ordering::SeqCst) {
                                break;
                            }
                        }
                        executions[si].fetch_add(runs, Ordering::Relaxed);
                        if t == 0 {
                            let edges = (0..cov::FEATURES).filter(|f| seen[*f] && cov::is_edge(*f as u32));
                            let edges: std::collections::HashSet<usize> = edges.map(|f| f >> 3).collect();
                            report.lock().unwrap().push((si, corpus.len(), edges.len()));
                        }
                    }
                    let _ = trace.set_len(0);
                })
                .unwrap();
        }
    });
    let mut s = String::new();
    let mut total = 0;
    for (si, corpus, edges) in report.into_inner().unwrap() {
        let runs = executions[si].load(Ordering::Relaxed);
        total += runs;
        if !s.is_empty() {
            s.push_str(", ");
        }
        let _ = write!(
            s,
            "{}: {{\"executions\": {}, \"kept\": {}, \"edges\": {}}}",
            esc(check.subs[si].name), runs, corpus, edges
        );
    }
    let s = format!("{{\"instrumented_edges\": {}, \"executions\": {}, \"subchecks\": {{{}}}}}", cov::edges(), total, s);
    let _ = std::fs::write(dir.join("report"), s);
    0
}
