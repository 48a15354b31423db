//! Runner. `run` is the check itself: it starts a worker process, watches it, confirms and
//! reports violations and makes sure the evidence file is written even if the code under test
//! crashes or hangs.
mod guided;
use dbus_pbt::checks;
use dbus_pbt::dict;
use dbus_pbt::engine::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static A: dbus_pbt::alloc::Counting = dbus_pbt::alloc::Counting;

const THREADS: u64 = 8;
const REC: u64 = 24;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn cut(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str("...");
        t
    }
}

struct Failure {
    sub: String,
    index: u64,
    choices: Option<Vec<u64>>,
    msg: String,
    case: String,
    note: String,
}

fn describe(f: CaseFn, choices: &[u64], thorough: bool) -> String {
    let mut src = Src::replay(choices.to_vec());
    let mut ctx = Ctx { want_desc: true, thorough, ..Default::default() };
    let _ = run_case(f, &mut src, &mut ctx);
    ctx.desc.unwrap_or_default()
}

fn write_replay(id: &str, tier: &str, seed: u64, f: &Failure) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let mut s = String::from("{\n");
    let _ = writeln!(s, "  \"property\": {},", esc(id));
    let _ = writeln!(s, "  \"tier\": {},", esc(tier));
    let _ = writeln!(s, "  \"seed\": {},", seed);
    let _ = writeln!(s, "  \"subcheck\": {},", esc(&f.sub));
    let _ = writeln!(s, "  \"index\": {},", f.index);
    if let Some(c) = &f.choices {
        let l: Vec<String> = c.iter().map(|x| x.to_string()).collect();
        let _ = writeln!(s, "  \"choices\": [{}],", l.join(","));
    }
    let d = dict::dump_new();
    if !d.is_empty() {
        let _ = writeln!(s, "  \"dictionary\": {},", esc(&d));
    }
    let _ = writeln!(s, "  \"message\": {},", esc(&cut(&f.msg, 4000)));
    let _ = writeln!(s, "  \"case\": {},", esc(&cut(&f.case, 8000)));
    let _ = writeln!(s, "  \"note\": {},", esc(&f.note));
    let _ = writeln!(s, "  \"replay\": {}", esc("./check.sh replay <this file>"));
    s.push_str("}\n");
    let h = hash_bytes(1, s.as_bytes());
    let p = dir.join(format!("{}-{}-{:08x}.json", id, f.sub.replace(|c: char| !c.is_ascii_alphanumeric(), "_"), h as u32));
    let _ = std::fs::write(&p, s);
    p
}

fn field<'a>(s: &'a str, key: &str) -> Option<&'a str> {
    let k = format!("\"{}\":", key);
    let p = s.find(&k)? + k.len();
    Some(s[p..].trim_start())
}
fn field_num(s: &str, key: &str) -> Option<u64> {
    let v = field(s, key)?;
    let e = v.find(|c: char| !c.is_ascii_digit()).unwrap_or(v.len());
    v[..e].parse().ok()
}
fn field_str(s: &str, key: &str) -> Option<String> {
    let v = field(s, key)?.strip_prefix('"')?;
    Some(v[..v.find('"')?].to_string())
}
fn field_list(s: &str, key: &str) -> Option<Vec<u64>> {
    let v = field(s, key)?.strip_prefix('[')?;
    let v = &v[..v.find(']')?];
    Some(v.split(',').filter(|x| !x.trim().is_empty()).filter_map(|x| x.trim().parse().ok()).collect())
}

fn find_sub<'a>(c: &'a Check, name: &str) -> Option<&'a Sub> {
    c.subs.iter().find(|s| s.name == name)
}

/// Runs one case in a thread with the stack of the check.
fn run_on_stack(f: CaseFn, stack: usize, mut src: Src, thorough: bool, want: bool) -> (Res, Vec<u64>, Option<String>) {
    let h = std::thread::Builder::new()
        .stack_size(stack)
        .spawn(move || {
            let mut ctx = Ctx { thorough, want_desc: want, ..Default::default() };
            let r = run_case(f, &mut src, &mut ctx);
            (r, src.rec, ctx.desc)
        })
        .unwrap();
    h.join().unwrap_or_else(|_| (Err("case thread died".into()), vec![], None))
}

// ---------------------------------------------------------------------------------------------

fn worker(id: &str, tier: &str, seed: u64, out: &Path, progress: &Path, pending: &Path) -> i32 {
    let check = checks::find(id).expect("unknown property");
    let thorough = tier == "thorough";
    let t0 = Instant::now();
    let prog = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(progress).unwrap();
    let stop = AtomicBool::new(false);
    let failures: Mutex<Vec<Failure>> = Mutex::new(Vec::new());
    #[derive(Default)]
    struct Stat {
        cases: u64,
        evals: u64,
        labels: BTreeMap<&'static str, u64>,
        distinct: HashSet<u64>,
        samples: Vec<String>,
        nontrivial_cases: u64,
    }
    let n = check.subs.len();
    let stats: Mutex<Vec<Stat>> = Mutex::new((0..n).map(|_| Stat::default()).collect());
    let tick = AtomicU64::new(0);
    let scale: f64 = std::env::var("PBT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("PBT_ONLY").ok();
    // No new case starts after this much time, so that a slow machine shortens the search
    // instead of losing its verdict.
    let budget = Duration::from_secs(if thorough { 720 } else { 300 });
    std::thread::scope(|s| {
        for t in 0..THREADS {
            let (check, stop, failures, stats, prog, tick, only) =
                (&check, &stop, &failures, &stats, &prog, &tick, &only);
            std::thread::Builder::new()
                .stack_size(check.stack)
                .spawn_scoped(s, move || {
                    for (si, sub) in check.subs.iter().enumerate() {
                        if let Some(o) = only {
                            if o != sub.name {
                                continue;
                            }
                        }
                        let total = if thorough { sub.thorough } else { sub.quick };
                        let total = if scale != 1.0 { (total as f64 * scale).ceil() as u64 } else { total };
                        let mut st = Stat::default();
                        let mut i = t;
                        let left = budget.saturating_sub(t0.elapsed());
                        let until = Instant::now() + left / (check.subs.len() - si) as u32;
                        while i < total {
                            if stop.load(Ordering::Relaxed) || Instant::now() > until {
                                break;
                            }
                            let mark = |k: u64| {
                                let mut rec = [0u8; REC as usize];
                                rec[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
                                rec[8..16].copy_from_slice(&i.to_le_bytes());
                                rec[16..].copy_from_slice(&k.to_le_bytes());
                                let _ = prog.write_all_at(&rec, t * REC);
                            };
                            mark(tick.fetch_add(1, Ordering::Relaxed));
                            let cs = case_seed(seed, check.id, sub.name, i);
                            let mut src = Src::random(cs, i);
                            let mut ctx = Ctx {
                                thorough,
                                want_desc: t == 0 && st.samples.len() < 2 && i >= t + THREADS,
                                ..Default::default()
                            };
                            let r = run_case(sub.f, &mut src, &mut ctx);
                            st.cases += 1;
                            st.evals += ctx.evals;
                            for (k, v) in ctx.labels {
                                *st.labels.entry(k).or_insert(0) += v;
                            }
                            if !ctx.nontrivial.is_empty() {
                                st.nontrivial_cases += 1;
                                if let Some(d) = ctx.desc {
                                    st.samples.push(cut(&d, 500));
                                }
                            }
                            st.distinct.extend(ctx.nontrivial);
                            if let Err(m) = r {
                                if stop.swap(true, Ordering::SeqCst) {
                                    break;
                                }
                                let mut fl = Failure {
                                    sub: sub.name.to_string(),
                                    index: i,
                                    choices: Some(src.rec.clone()),
                                    msg: m.clone(),
                                    case: String::new(),
                                    note: "not shrunk".into(),
                                };
                                let p = write_replay(check.id, tier, seed, &fl);
                                let _ = std::fs::write(pending, p.to_str().unwrap());
                                let f = sub.f;
                                let mut run = |c: Vec<u64>| {
                                    mark(tick.fetch_add(1, Ordering::Relaxed));
                                    let mut src = Src::replay(c);
                                    let mut ctx = Ctx { thorough, ..Default::default() };
                                    match run_case(f, &mut src, &mut ctx) {
                                        Err(m) => Some((src.rec, m)),
                                        Ok(()) => None,
                                    }
                                };
                                let orig_len = src.rec.len();
                                let reproduced = run(src.rec.clone()).is_some();
                                if reproduced {
                                    let (c, m, e) =
                                        shrink(&mut run, src.rec, m, Duration::from_secs(40), 20000);
                                    fl.case = describe(f, &c, thorough);
                                    fl.note = format!(
                                        "shrunk from {} to {} choices in {} runs",
                                        orig_len,
                                        c.len(),
                                        e
                                    );
                                    fl.choices = Some(c);
                                    fl.msg = m;
                                } else {
                                    fl.note = "the case fails only after the cases run before it on \
                                               the same thread; replay runs that sequence"
                                        .into();
                                    fl.choices = None;
                                }
                                let np = write_replay(check.id, tier, seed, &fl);
                                if np != p {
                                    let _ = std::fs::remove_file(&p);
                                }
                                let _ = std::fs::write(pending, np.to_str().unwrap());
                                failures.lock().unwrap().push(fl);
                                break;
                            }
                            i += THREADS;
                        }
                        let mut all = stats.lock().unwrap();
                        let a = &mut all[si];
                        a.cases += st.cases;
                        a.evals += st.evals;
                        a.nontrivial_cases += st.nontrivial_cases;
                        for (k, v) in st.labels {
                            *a.labels.entry(k).or_insert(0) += v;
                        }
                        a.distinct.extend(st.distinct);
                        a.samples.extend(st.samples);
                        drop(all);
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                    }
                    let _ = prog.write_all_at(&[0u8; REC as usize], t * REC);
                })
                .unwrap();
        }
    });
    let stats = stats.into_inner().unwrap();
    let failures = failures.into_inner().unwrap();
    let mut evals = 0;
    let mut distinct = 0;
    let mut samples: Vec<String> = Vec::new();
    let mut subs = String::new();
    for (sub, st) in check.subs.iter().zip(&stats) {
        evals += st.cases + st.evals;
        distinct += st.distinct.len() as u64;
        for s in &st.samples {
            if samples.len() < 40 {
                samples.push(format!("{}: {}", sub.name, s));
            }
        }
        let labels: Vec<String> =
            st.labels.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
        if !subs.is_empty() {
            subs.push_str(",\n      ");
        }
        let _ = write!(
            subs,
            "{}: {{\"cases\": {}, \"derived_evaluations\": {}, \"nontrivial_cases\": {}, \"distinct_nontrivial\": {}, \"labels\": {{{}}}}}",
            esc(sub.name), st.cases, st.evals, st.nontrivial_cases, st.distinct.len(), labels.join(", ")
        );
    }
    if samples.is_empty() {
        samples.push("no case completed".into());
    }
    let samples: Vec<String> = samples.iter().map(|s| esc(s)).collect();
    let assumptions: Vec<String> = check.assumptions.iter().map(|s| esc(s)).collect();
    let ev = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"subchecks\": {{\n      {}\n    }},\n    \"samples\": [\n      {}\n    ]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        esc(id), esc(tier), seed, evals, distinct, esc(check.rule), subs,
        samples.join(",\n      "), assumptions.join(", "), t0.elapsed().as_secs_f64(), failures.len()
    );
    std::fs::write(out, ev).unwrap();
    if failures.is_empty() {
        0
    } else {
        for f in &failures {
            println!("{} {} case {}: {}", id, f.sub, f.index, cut(&f.msg, 2000));
            println!("  {}", cut(&f.case, 2000));
            println!("  {}", f.note);
        }
        10
    }
}

fn spawn_limited(args: &[String], secs: u64, quiet: bool) -> Option<std::process::ExitStatus> {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new("/bin/sh");
    c.arg("-c").arg("ulimit -c 0; ulimit -v 25165824; exec \"$0\" \"$@\"").arg(&exe).args(args);
    if quiet {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    }
    let mut ch = c.spawn().ok()?;
    let t0 = Instant::now();
    loop {
        if let Ok(Some(st)) = ch.try_wait() {
            return Some(st);
        }
        if t0.elapsed() > Duration::from_secs(secs) {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// Case run in a child: Ok(passed?) or Err(description of the crash or hang).
enum Child {
    Pass,
    Fail,
    Crash(String),
}

fn child_case(args: &[String], secs: u64, quiet: bool) -> Child {
    match spawn_limited(args, secs, quiet) {
        None => Child::Crash(format!("no result after {} s", secs)),
        Some(st) => match (st.code(), st.signal()) {
            (Some(0), _) => Child::Pass,
            (Some(3), _) => Child::Fail,
            (Some(c), _) => Child::Crash(format!("exit status {}", c)),
            (_, Some(s)) => Child::Crash(format!("killed by signal {}", s)),
            _ => Child::Crash("died".into()),
        },
    }
}

/// Runs a case that may have ended a worker alone, in a child, and when it crashes or hangs there
/// too shrinks it and writes the replay file.
fn blame(
    check: &Check,
    tier: &str,
    seed: u64,
    si: usize,
    index: u64,
    what: Vec<String>,
    hung: bool,
    tmp: &Path,
) -> Option<PathBuf> {
    let id = check.id;
    let sub = &check.subs[si];
    let trace = tmp.join("trace");
    let args = |extra: &[String]| -> Vec<String> {
        let mut v: Vec<String> =
            vec!["one".into(), id.into(), tier.into(), sub.name.into(), trace.display().to_string()];
        v.extend_from_slice(extra);
        v
    };
    let why = match child_case(&args(&what), 120, true) {
        Child::Pass => return None,
        Child::Fail => "fails".to_string(),
        Child::Crash(w) => w,
    };
    let read_trace = || -> Vec<u64> {
        std::fs::read(&trace)
            .unwrap_or_default()
            .chunks_exact(8)
            .map(|c| {
                let mut a = [0u8; 8];
                a.copy_from_slice(c);
                u64::from_le_bytes(a)
            })
            .collect()
    };
    let start = read_trace();
    let list = tmp.join("choices");
    let failing = why == "fails";
    let mut run = |c: Vec<u64>| -> Option<(Vec<u64>, String)> {
        let l: Vec<String> = c.iter().map(|x| x.to_string()).collect();
        std::fs::write(&list, l.join(",")).ok()?;
        match child_case(&args(&["choices".into(), list.display().to_string()]), 10, true) {
            Child::Crash(w) => Some((read_trace(), w)),
            Child::Fail if failing => Some((read_trace(), "fails".into())),
            _ => None,
        }
    };
    let (c, msg, e) = if hung {
        (start, why.clone(), 0)
    } else {
        shrink(&mut run, start, why.clone(), Duration::from_secs(60), 1500)
    };
    let f = Failure {
        sub: sub.name.to_string(),
        index,
        choices: Some(c),
        msg: if failing {
            "the oracle refuses this case".into()
        } else {
            format!("the process running this case ended abnormally: {}", msg)
        },
        case: String::new(),
        note: format!("shrunk in {} child runs", e),
    };
    let p = write_replay(id, tier, seed, &f);
    println!("{} {} case {}: {}", id, f.sub, f.index, f.msg);
    Some(p)
}

/// The coverage-guided search, in the instrumented build, if there is one. Its candidates count
/// only when they fail in this build too.
fn guided_search(check: &Check, tier: &str, seed: u64, evidence: &Path, tmp: &Path) -> Option<PathBuf> {
    let exe = std::env::current_exe().ok()?;
    let exe = exe.parent()?.join("../cov/release/dbus-pbt");
    let mut seconds = if tier == "thorough" { 240.0 } else { 20.0 };
    if let Some(s) = std::env::var("PBT_GUIDED").ok().and_then(|s| s.parse().ok()) {
        seconds = s;
    }
    let mut report = String::from("\"no instrumented build\"");
    let mut found = None;
    if exe.exists() && seconds > 0.0 {
        let dir = tmp.join("guided");
        std::fs::create_dir_all(&dir).ok()?;
        let mut c = Command::new("/bin/sh");
        c.arg("-c").arg("ulimit -c 0; ulimit -v 25165824; exec \"$0\" \"$@\"").arg(&exe);
        c.args(["guided", check.id, tier, &seed.to_string()]).arg(&dir).arg(seconds.to_string());
        c.stdout(Stdio::null()).stderr(Stdio::null());
        let mut ch = c.spawn().ok()?;
        let t0 = Instant::now();
        let status = loop {
            if let Ok(Some(st)) = ch.try_wait() {
                break Some(st);
            }
            if t0.elapsed() > Duration::from_secs_f64(seconds + 100.0) {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(10));
        };
        report = std::fs::read_to_string(dir.join("report")).unwrap_or_else(|_| "\"ended early\"".into());
        for (si, sub) in check.subs.iter().enumerate() {
            if found.is_some() {
                break;
            }
            let l = match std::fs::read_to_string(dir.join(format!("fail-{}", si))) {
                Ok(l) => l,
                Err(_) => continue,
            };
            let choices: Vec<u64> = l.split(',').filter_map(|x| x.parse().ok()).collect();
            let f = Failure {
                sub: sub.name.to_string(),
                index: 0,
                choices: Some(choices),
                msg: std::fs::read_to_string(dir.join(format!("why-{}", si))).unwrap_or_default(),
                case: String::new(),
                note: "found by the coverage-guided search".into(),
            };
            let p = write_replay(check.id, tier, seed, &f);
            let shrunk = tmp.join("shrunk");
            let _ = std::fs::remove_file(&shrunk);
            let args: Vec<String> = vec!["reduce".into(), p.display().to_string(), shrunk.display().to_string()];
            match child_case(&args, 200, false) {
                Child::Pass => {
                    println!("note: a candidate of the coverage-guided search in {} passes in the plain build", sub.name);
                    let _ = std::fs::remove_file(&p);
                }
                _ => {
                    let q = std::fs::read_to_string(&shrunk).ok().map(PathBuf::from);
                    found = Some(q.unwrap_or(p));
                }
            }
        }
        if found.is_none() && status.map_or(true, |s| !s.success()) {
            println!("note: the coverage-guided search ended early");
            for t in 0..THREADS {
                if let Some((si, c, tail)) = guided::read_trace(&dir.join(format!("trace-{}", t))) {
                    let list = tmp.join("candidate");
                    let l: Vec<String> = c.iter().map(|x| x.to_string()).collect();
                    let _ = std::fs::write(&list, l.join(","));
                    let mut what = vec!["choices".to_string(), list.display().to_string()];
                    what.extend(tail.map(|s| s.to_string()));
                    found = blame(check, tier, seed, si, 0, what, status.is_none(), tmp);
                    if found.is_some() {
                        break;
                    }
                }
            }
        }
    }
    if let Ok(e) = std::fs::read_to_string(evidence) {
        let e = e.replacen("    \"subchecks\": {", &format!("    \"coverage_guided\": {},\n    \"subchecks\": {{", report), 1);
        let e = if found.is_some() { e.replacen("\"violations\": 0", "\"violations\": 1", 1) } else { e };
        let _ = std::fs::write(evidence, e);
    }
    found
}

/// Shrinks the case of a replay file; writes the path of the new one to `out`.
fn reduce(file: &str, out: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let id = field_str(&s, "property").expect("property");
    let tier = field_str(&s, "tier").unwrap_or_else(|| "quick".into());
    let seed = field_num(&s, "seed").unwrap_or(1);
    let name = field_str(&s, "subcheck").expect("subcheck");
    let choices = field_list(&s, "choices").expect("choices");
    let check = checks::find(&id).expect("unknown property");
    let thorough = tier == "thorough";
    let sub = find_sub(&check, &name).expect("subcheck");
    let f = sub.f;
    let stack = check.stack;
    let h = std::thread::Builder::new()
        .stack_size(stack)
        .spawn(move || {
            let mut run = |c: Vec<u64>| {
                let mut src = Src::replay(c);
                let mut ctx = Ctx { thorough, ..Default::default() };
                run_case(f, &mut src, &mut ctx).err().map(|m| (src.rec, m))
            };
            let (rec, m) = run(choices)?;
            let n = rec.len();
            let (c, m, e) = shrink(&mut run, rec, m, Duration::from_secs(40), 20000);
            Some((describe(f, &c, thorough), n, c, m, e))
        })
        .unwrap();
    let (case, n, c, msg, e) = match h.join().unwrap() {
        Some(x) => x,
        None => return 0,
    };
    let fl = Failure {
        sub: name,
        index: 0,
        msg,
        case,
        note: format!("found by the coverage-guided search, shrunk from {} to {} choices in {} runs", n, c.len(), e),
        choices: Some(c),
    };
    let p = write_replay(&id, &tier, seed, &fl);
    if p.to_str() != Some(file) {
        let _ = std::fs::remove_file(file);
    }
    let _ = std::fs::write(out, p.display().to_string());
    println!("{} {}: {}", id, fl.sub, cut(&fl.msg, 2000));
    println!("  {}", cut(&fl.case, 2000));
    println!("  {}", fl.note);
    3
}

fn run(id: &str, tier: &str, seed: u64) -> i32 {
    let check = match checks::find(id) {
        Some(c) => c,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let t0 = Instant::now();
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let evidence = dir.join(format!("{}.json", id));
    let _ = std::fs::remove_file(&evidence);
    let tmp = std::env::temp_dir().join(format!("dbus-pbt-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let progress = tmp.join("progress");
    let pending = tmp.join("pending");
    let r = run_in(&check, tier, seed, &evidence, &tmp, &progress, &pending);
    let r = r.and_then(|()| match guided_search(&check, tier, seed, &evidence, &tmp) {
        Some(p) => Err(Some(p)),
        None => Ok(()),
    });
    let _ = std::fs::remove_dir_all(&tmp);
    match r {
        Ok(()) => {
            println!("OK property={} tier={} wall={:.1}s", id, tier, t0.elapsed().as_secs_f64());
            0
        }
        Err(Some(p)) => {
            if !evidence.exists() {
                let ev = format!(
                    "{{\n  \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n  \"coverage\": {{\"evaluations\": 0, \"distinct_nontrivial\": 0, \"rule\": {}, \"samples\": [{}]}},\n  \"assumptions\": [], \"wall_s\": {:.2}, \"violations\": 1\n}}\n",
                    esc(id), esc(tier), seed, esc(check.rule),
                    esc("the run ended with a crash or hang of the code under test, see the replay file"),
                    t0.elapsed().as_secs_f64()
                );
                let _ = std::fs::write(&evidence, ev);
            }
            println!("VIOLATION property={} replay={}", id, p.display());
            1
        }
        Err(None) => 2,
    }
}

fn run_in(
    check: &Check,
    tier: &str,
    seed: u64,
    evidence: &Path,
    tmp: &Path,
    progress: &Path,
    pending: &Path,
) -> Result<(), Option<PathBuf>> {
    let id = check.id;
    let mut patience = 150u64;
    for attempt in 0..2 {
        let _ = std::fs::remove_file(pending);
        let exe = std::env::current_exe().unwrap();
        let mut ch = Command::new("/bin/sh")
            .arg("-c")
            .arg("ulimit -c 0; ulimit -v 25165824; exec \"$0\" \"$@\"")
            .arg(&exe)
            .args(["worker", id, tier, &seed.to_string()])
            .arg(evidence)
            .arg(progress)
            .arg(pending)
            .spawn()
            .map_err(|e| {
                eprintln!("cannot start worker: {}", e);
                None
            })?;
        let mut last: Vec<u8> = Vec::new();
        let mut since: Vec<Instant> = vec![Instant::now(); THREADS as usize];
        let mut hung: Option<usize> = None;
        let status = loop {
            if let Ok(Some(st)) = ch.try_wait() {
                break Some(st);
            }
            std::thread::sleep(Duration::from_millis(20));
            let now = std::fs::read(progress).unwrap_or_default();
            for t in 0..THREADS as usize {
                let r = t * REC as usize..(t + 1) * REC as usize;
                let (a, b) = (now.get(r.clone()), last.get(r));
                let idle = a.map(|a| a.iter().all(|x| *x == 0)).unwrap_or(true);
                if a != b || idle {
                    since[t] = Instant::now();
                } else if since[t].elapsed() > Duration::from_secs(patience) {
                    hung = Some(t);
                }
            }
            last = now;
            if hung.is_some() {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
        };
        if let Some(st) = status {
            if st.code() == Some(0) {
                return Ok(());
            }
            if st.code() == Some(10) {
                let p = PathBuf::from(std::fs::read_to_string(pending).unwrap_or_default());
                let again = child_case(&["replay".into(), p.display().to_string()], 300, true);
                match again {
                    Child::Pass => println!("note: the replay passes in a fresh process"),
                    _ => println!("replay confirmed in a fresh process"),
                }
                return Err(Some(p));
            }
        }
        // crash or hang
        if let Ok(p) = std::fs::read_to_string(pending) {
            println!("a violation was found, then the process died while shrinking it");
            return Err(Some(PathBuf::from(p)));
        }
        match &status {
            Some(st) => println!("worker died: {:?}; looking for the case", st),
            None => println!("worker made no progress for {} s; looking for the case", patience),
        }
        let rec = std::fs::read(progress).unwrap_or_default();
        let mut cands: Vec<(usize, u64)> = Vec::new();
        for t in 0..THREADS as usize {
            let r = match rec.get(t * REC as usize..(t + 1) * REC as usize) {
                Some(r) => r,
                None => continue,
            };
            let mut a = [0u8; 8];
            a.copy_from_slice(&r[..8]);
            let si = u64::from_le_bytes(a);
            a.copy_from_slice(&r[8..16]);
            if si > 0 {
                if hung.is_some() && hung != Some(t) {
                    continue;
                }
                cands.push((si as usize - 1, u64::from_le_bytes(a)));
            }
        }
        for (si, index) in cands {
            let what = vec!["index".into(), seed.to_string(), index.to_string()];
            if let Some(p) = blame(check, tier, seed, si, index, what, hung.is_some(), tmp) {
                return Err(Some(p));
            }
        }
        println!("no single case reproduces it");
        if attempt == 1 {
            if let Some(st) = status {
                // Died twice by a signal with no single case to blame: depends on the history.
                if st.signal().is_some() {
                    let f = Failure {
                        sub: "process".into(),
                        index: 0,
                        choices: None,
                        msg: format!("the process ended abnormally twice: {:?}", st),
                        case: String::new(),
                        note: "rerun the check with the same seed".into(),
                    };
                    return Err(Some(write_replay(id, tier, seed, &f)));
                }
            }
        }
        patience *= 2;
    }
    Err(None)
}

fn one(a: &[String]) -> i32 {
    let check = checks::find(&a[0]).expect("property");
    let thorough = a[1] == "thorough";
    let sub = find_sub(&check, &a[2]).expect("subcheck");
    let trace = std::fs::File::create(&a[3]).unwrap();
    let mut src = if a[4] == "index" {
        let seed: u64 = a[5].parse().unwrap();
        let index: u64 = a[6].parse().unwrap();
        Src::random(case_seed(seed, check.id, sub.name, index), index)
    } else {
        let s = std::fs::read_to_string(&a[5]).unwrap();
        let c = s.split(',').filter_map(|x| x.parse().ok()).collect();
        match a.get(6).and_then(|s| s.parse().ok()) {
            Some(seed) => Src::mixed(c, seed),
            None => Src::replay(c),
        }
    };
    src.trace = Some(trace);
    match run_on_stack(sub.f, check.stack, src, thorough, false).0 {
        Ok(()) => 0,
        Err(_) => 3,
    }
}

fn replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let id = field_str(&s, "property").expect("property");
    dict::set_new(&field_str(&s, "dictionary").unwrap_or_default());
    let tier = field_str(&s, "tier").unwrap_or_else(|| "quick".into());
    let seed = field_num(&s, "seed").unwrap_or(1);
    let name = field_str(&s, "subcheck").expect("subcheck");
    let index = field_num(&s, "index").unwrap_or(0);
    let check = checks::find(&id).expect("unknown property");
    let thorough = tier == "thorough";
    let sub = match find_sub(&check, &name) {
        Some(s) => s,
        None => return run(&id, &tier, seed),
    };
    let fail = |m: String, d: Option<String>| {
        println!("case: {}", cut(&d.unwrap_or_default(), 8000));
        println!("fails: {}", m);
        println!("VIOLATION property={} replay={}", id, file);
        3
    };
    if let Some(c) = field_list(&s, "choices") {
        let (r, _, d) = run_on_stack(sub.f, check.stack, Src::replay(c), thorough, true);
        return match r {
            Err(m) => fail(m, d),
            Ok(()) => {
                println!("case: {}", cut(&d.unwrap_or_default(), 8000));
                println!("passes");
                0
            }
        };
    }
    // the whole sequence of the thread
    let (f, subname, cid) = (sub.f, sub.name, check.id);
    let h = std::thread::Builder::new()
        .stack_size(check.stack)
        .spawn(move || {
            let mut i = index % THREADS;
            while i <= index {
                let mut src = Src::random(case_seed(seed, cid, subname, i), i);
                let mut ctx = Ctx { thorough, ..Default::default() };
                if let Err(m) = run_case(f, &mut src, &mut ctx) {
                    return Some((m, i));
                }
                i += THREADS;
            }
            None
        })
        .unwrap();
    match h.join().unwrap() {
        Some((m, i)) => fail(format!("case {} of the sequence: {}", i, m), None),
        None => {
            println!("passes");
            0
        }
    }
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match a.first().map(|s| s.as_str()) {
        Some("run") => {
            let tier = a
                .get(2)
                .cloned()
                .or_else(|| std::env::var("VERIF_TIER").ok())
                .unwrap_or_else(|| "quick".into());
            run(&a[1], &tier, seed)
        }
        Some("worker") => worker(
            &a[1],
            &a[2],
            a[3].parse().unwrap(),
            Path::new(&a[4]),
            Path::new(&a[5]),
            Path::new(&a[6]),
        ),
        Some("guided") => guided::worker(&a[1], &a[2], a[3].parse().unwrap(), Path::new(&a[4]), a[5].parse().unwrap()),
        Some("reduce") => reduce(&a[1], &a[2]),
        Some("one") => one(&a[1..]),
        Some("replay") => match replay(&a[1]) {
            3 => 1,
            c => c,
        },
        Some("literals") => {
            println!("{}", dict::of_tree().dump().replace(' ', "\n"));
            0
        }
        Some("list") => {
            for c in checks::all() {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            eprintln!("usage: dbus-pbt run ID [TIER] | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
