//! C16: object path operations against the list of path elements.
use super::*;
use crate::gen;
use crate::names;
use dbus_message_parser::value::ObjectPath;
use std::convert::TryFrom;

type Path = Vec<String>;

fn text(p: &Path) -> String {
    if p.is_empty() {
        "/".into()
    } else {
        p.iter().map(|e| format!("/{}", e)).collect()
    }
}

fn elements(s: &str) -> Path {
    s.split('/').filter(|e| !e.is_empty()).map(|e| e.to_string()).collect()
}

fn good_element(e: &str) -> bool {
    !e.is_empty() && e.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_')
}

fn lib(p: &Path) -> Result<ObjectPath, String> {
    let t = text(p);
    ObjectPath::try_from(t.as_str()).map_err(|e| format!("valid path {:?} refused: {:?}", t, e))
}

/// The library's path must be exactly the model's.
fn same(x: &ObjectPath, p: &Path) -> Res {
    let t = text(p);
    ensure!(x.as_ref() as &str == t.as_str(), "path is {:?}, expected {:?}", x, t);
    ensure!(names::is_path(x.to_string().as_bytes()), "{:?} is not a valid path", x);
    ensure!(ObjectPath::try_from(x.to_string()).as_ref() == Ok(x), "{:?} does not parse back", x);
    Ok(())
}

fn relation(a: &Path, b: &Path, x: &ObjectPath, y: &ObjectPath) -> Result<bool, String> {
    let proper = a.len() > b.len() && a[..b.len()] == b[..];
    ensure!(
        x.starts_with(y) == proper,
        "{:?}.starts_with({:?}) is {}", text(a), text(b), !proper
    );
    match x.strip_prefix_elements(y) {
        None => ensure!(!proper, "{:?} without {:?} gives nothing", text(a), text(b)),
        Some(it) => {
            // bounded, so that a wrong iterator cannot run away
            let got: Vec<&str> = it.take(a.len() + 3).collect();
            ensure!(proper, "{:?} without {:?} gives {:?}, expected nothing", text(a), text(b), got);
            ensure!(got == a[b.len()..], "{:?} without {:?} gives {:?}", text(a), text(b), got);
            let mut back: Vec<&str> = x.strip_prefix_elements(y).unwrap().rev().collect();
            back.reverse();
            ensure!(got == back, "{:?} without {:?} from the back gives {:?}", text(a), text(b), back);
        }
    }
    same(x, a)?;
    same(y, b)?;
    Ok(proper)
}

const SMALL: [&str; 5] = ["a", "b", "aa", "a_", "_"];

fn nth(mut n: u64, words: &[&str]) -> Path {
    // paths in order of length
    let k = words.len() as u64;
    let mut len = 0;
    let mut count = 1;
    while n >= count {
        n -= count;
        count *= k;
        len += 1;
    }
    let mut p = vec![];
    for _ in 0..len {
        p.push(words[(n % k) as usize].to_string());
        n /= k;
    }
    p
}

/// All pairs of paths of up to three elements.
fn small_pairs(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = 1 + 5 + 25 + 125;
    let a = nth(src.enum_index(n), &SMALL);
    ctx.desc(|| format!("{} against all paths of up to three elements", text(&a)));
    let x = lib(&a)?;
    for k in 0..n {
        let b = nth(k, &SMALL);
        let y = lib(&b)?;
        ctx.evals += 1;
        ctx.label(if relation(&a, &b, &x, &y)? { "proper prefix" } else { "not a proper prefix" });
        ctx.hit(hash_bytes(1, format!("{} {}", text(&a), text(&b)).as_bytes()));
    }
    for e in SMALL.iter().chain(&["", "/", "a/", "/a", "a/b", ".", "-", "a-", "a b", "\u{e9}", "\0"]) {
        let mut z = x.clone();
        let r = z.append(e);
        ensure!(r == good_element(e), "appending {:?} to {:?} returns {}", e, text(&a), r);
        let mut p = a.clone();
        if r {
            p.push(e.to_string());
        }
        same(&z, &p)?;
        same(&x, &a)?;
    }
    Ok(())
}

fn word(src: &mut Src) -> String {
    match src.weighted(&[6, 3, 2, 1]) {
        0 => src.pick(&SMALL).to_string(),
        1 => match src.below(4) {
            // of any length, and close to another one of the same length
            0 => {
                let n = 1 + src.usize(80);
                let mut s = "e".repeat(n);
                if src.bool() {
                    s.pop();
                    s.push(*src.pick(&['0', '7', '9', '_', 'A', 'Z', 'x']));
                }
                s
            }
            _ => gen::member(src),
        },
        2 => (0..1 + src.below(3)).map(|_| *src.pick(&['0', '9', 'A', 'Z', '_', 'z'])).collect(),
        _ => "e".repeat(*src.pick(&[255usize, 256, 1000])),
    }
}

fn any_element(src: &mut Src) -> String {
    if src.chance(1, 2) {
        return word(src);
    }
    match src.below(6) {
        0 => String::new(),
        1 => gen::string(src),
        2 => {
            // one wrong character among good ones
            let mut s = word(src);
            let i = src.usize(s.len() + 1);
            s.insert(i, *src.pick(&['/', '-', '.', ' ', '\0', '\u{e9}', ':', '@', '[', '`', '{', '^', '\u{663}']));
            s
        }
        3 => gen::path(src),
        4 => format!("{}/{}", word(src), word(src)),
        _ => char::from_u32(src.below(256) as u32).unwrap().to_string(),
    }
}

/// A path related to `p`.
fn relative(src: &mut Src, p: &Path) -> Path {
    let mut q = p.clone();
    match src.below(8) {
        7 => {
            // one character of one element
            if !q.is_empty() {
                let i = src.usize(q.len());
                let mut b = q[i].clone().into_bytes();
                let at = if src.bool() { b.len() - 1 } else { src.usize(b.len()) };
                b[at] = match src.below(3) {
                    0 if b[at].is_ascii_alphabetic() => b[at] ^ 0x20,
                    _ => *src.pick(b"_0zA9k"),
                };
                q[i] = String::from_utf8(b).unwrap();
                if src.bool() {
                    q.truncate(i + 1);
                }
            }
        }
        0 => {
            q.truncate(src.usize(p.len() + 1));
        }
        1 => q.push(word(src)),
        2 => {
            // the last element shortened or lengthened: a textual but not an elementwise prefix
            q.truncate(1 + src.usize(p.len().max(1)));
            if let Some(l) = q.last_mut() {
                if l.len() > 1 && src.bool() {
                    l.pop();
                } else {
                    l.push('x');
                }
            }
        }
        3 => {
            if !q.is_empty() {
                let i = src.usize(q.len());
                q[i] = word(src);
            }
        }
        4 => {
            if !q.is_empty() {
                q.remove(src.usize(p.len()));
            }
        }
        5 => q.clear(),
        _ => q = elements(&gen::path(src)),
    }
    q
}

fn histories(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut p: Path = match src.below(3) {
        0 => vec![],
        1 => (0..src.below(5)).map(|_| word(src)).collect(),
        _ => elements(&gen::path(src)),
    };
    let mut x = if p.is_empty() && src.bool() { ObjectPath::default() } else { lib(&p)? };
    let steps = 1 + src.below(12);
    let mut log = text(&p);
    for _ in 0..steps {
        match src.weighted(&[5, 4, 1, 1]) {
            0 => {
                let e = any_element(src);
                let want = good_element(&e);
                let r = x.append(&e);
                log.push_str(&format!(" append({})", show_str(&e)));
                ensure!(r == want, "{}: append returns {}", cut(&log), r);
                if r {
                    p.push(e);
                    ctx.label("appended");
                } else {
                    ctx.label("append refused");
                }
            }
            1 => {
                let q = relative(src, &p);
                let y = lib(&q)?;
                ctx.label(if relation(&p, &q, &x, &y)? { "proper prefix" } else { "not a proper prefix" });
                relation(&q, &p, &y, &x)?;
                log.push_str(&format!(" base({})", show_str(&text(&q))));
            }
            2 => {
                // changing a clone leaves the original alone
                let mut c = x.clone();
                c.append("clone");
                let y = x.clone();
                ensure!(!y.starts_with(&x) && y == x, "clone of {:?}", x);
            }
            _ => {
                // continue from the parsed text or from the stripped rest
                if src.bool() {
                    x = lib(&p)?;
                } else {
                    let n = src.usize(p.len() + 1);
                    let base = lib(&p[..n].to_vec())?;
                    let mut rebuilt = base.clone();
                    if let Some(it) = x.strip_prefix_elements(&base) {
                        for e in it {
                            ensure!(rebuilt.append(e), "stripped element {:?} cannot be appended", e);
                        }
                    }
                    ensure!(rebuilt == x, "{:?} rebuilt from base {:?} gives {:?}", x, base, rebuilt);
                }
            }
        }
        same(&x, &p).map_err(|e| format!("{}: {}", cut(&log), e))?;
        if p.len() > 40 || x.as_ref().len() > 70_000 {
            break;
        }
    }
    ctx.desc(|| cut(&log));
    ctx.hit(hash_bytes(2, log.as_bytes()));
    Ok(())
}

fn cut(s: &str) -> String {
    s.chars().take(600).collect()
}

/// Every single character as an element, and as part of one.
fn characters(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.enum_index(0x11_0000 / 64) * 64;
    ctx.desc(|| format!("append of the characters from {:#x}", n));
    let bases = [ObjectPath::default(), ObjectPath::try_from("/a").unwrap()];
    for c in n..n + 64 {
        let c = match char::from_u32(c as u32) {
            Some(c) => c,
            None => continue,
        };
        for s in [c.to_string(), format!("a{}", c), format!("{}9", c), format!("x{}y", c)] {
            for b in &bases {
                let mut z = b.clone();
                let r = z.append(&s);
                ctx.evals += 1;
                let want = good_element(&s);
                ensure!(r == want, "appending {:?} returns {}", s, r);
                if r {
                    let mut p = elements(b.as_ref());
                    p.push(s.clone());
                    same(&z, &p)?;
                } else {
                    ensure!(&z == b, "the refused {:?} changed {:?} to {:?}", s, b, z);
                }
            }
        }
        ctx.hit(c as u64);
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C16",
        rule: "all ordered pairs of paths of up to three elements over five words that are prefixes of one another; histories of appends (valid, empty, with wrong characters), comparisons with related bases in both directions, clones and rebuilding from stripped elements, each step compared with the list of elements; every Unicode character as or in an appended element (thorough: all, quick: the first 128000). Non-trivial: distinct pairs, histories and characters.",
        assumptions: &["a path is the list of its elements (harness/src/checks/paths.rs)"],
        stack: 16 * MB,
        subs: vec![
            sub("small pairs", 156, 156, small_pairs),
            sub("histories", 800_000, 10_000_000, histories),
            sub("characters", 2_000, 0x11_0000 / 64, characters),
        ],
    }]
}
