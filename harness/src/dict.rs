//! Dictionary of the constants of the code under test, as coverage-guided fuzzers extract it
//! from a binary: texts, characters and numbers that appear as literals in its sources. It only
//! steers the generators towards values that some branch may single out; no oracle looks at it.
use crate::engine::Src;
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

/// Literals of the tree this harness was written for.
const KNOWN: &str = include_str!("literals.txt");

#[derive(Default, Clone)]
pub struct Dict {
    pub texts: BTreeSet<String>,
    pub ints: BTreeSet<u64>,
}

pub struct Split {
    /// literals of the known tree
    pub base: (Vec<String>, Vec<u64>),
    /// literals that only the tree at hand has
    pub new: (Vec<String>, Vec<u64>),
}

static OVERRIDE: OnceLock<Dict> = OnceLock::new();
static SPLIT: OnceLock<Split> = OnceLock::new();

fn hex(s: &[u8]) -> String {
    s.iter().map(|b| format!("{:02x}", b)).collect()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

impl Dict {
    pub fn dump(&self) -> String {
        let mut s = String::new();
        for t in &self.texts {
            s.push_str(&format!("t{} ", hex(t.as_bytes())));
        }
        for i in &self.ints {
            s.push_str(&format!("i{} ", i));
        }
        s.trim_end().to_string()
    }

    pub fn load(s: &str) -> Dict {
        let mut d = Dict::default();
        for w in s.split_whitespace() {
            if let Some(h) = w.strip_prefix('t') {
                if let Ok(t) = String::from_utf8(unhex(h)) {
                    d.texts.insert(t);
                }
            } else if let Some(Ok(n)) = w.strip_prefix('i').map(|n| n.parse()) {
                d.ints.insert(n);
            }
        }
        d
    }

    fn text(&mut self, t: &[u8]) {
        let t = String::from_utf8_lossy(t).to_string();
        if t.len() <= 200 && !t.is_empty() {
            // pieces of format strings
            if t.contains('{') {
                for p in t.split(['{', '}']) {
                    let p = p.trim();
                    if p.len() > 1 {
                        self.texts.insert(p.to_string());
                    }
                }
            }
            self.texts.insert(t);
        }
    }

    /// Reads the tokens of one source file.
    pub fn scan(&mut self, src: &[u8]) {
        let mut i = 0;
        let at = |i: usize| src.get(i).copied().unwrap_or(0);
        // the last two numbers with the operator between them, for `64 * 1024` and `1 << 20`
        let mut last: Option<(u64, usize)> = None;
        while i < src.len() {
            let c = at(i);
            if c == b'/' && at(i + 1) == b'/' {
                while i < src.len() && at(i) != b'\n' {
                    i += 1;
                }
            } else if c == b'/' && at(i + 1) == b'*' {
                i += 2;
                while i < src.len() && !(at(i) == b'*' && at(i + 1) == b'/') {
                    i += 1;
                }
                i += 2;
            } else if c == b'r' && (at(i + 1) == b'"' || (at(i + 1) == b'#' && (at(i + 2) == b'"' || at(i + 2) == b'#'))) {
                let mut n = 0;
                i += 1;
                while at(i) == b'#' {
                    n += 1;
                    i += 1;
                }
                i += 1;
                let start = i;
                loop {
                    if i >= src.len() {
                        break;
                    }
                    if at(i) == b'"' && (0..n).all(|k| at(i + 1 + k) == b'#') {
                        break;
                    }
                    i += 1;
                }
                self.text(&src[start.min(src.len())..i.min(src.len())]);
                i += 1 + n;
            } else if c == b'"' {
                i += 1;
                let mut t = Vec::new();
                while i < src.len() && at(i) != b'"' {
                    if at(i) == b'\\' {
                        i = escape(src, i, &mut t);
                    } else {
                        t.push(at(i));
                        i += 1;
                    }
                }
                i += 1;
                self.text(&t);
            } else if c == b'\'' {
                // a character, or a lifetime
                let mut t = Vec::new();
                let mut j = i + 1;
                if at(j) == b'\\' {
                    j = escape(src, j, &mut t);
                } else {
                    t.push(at(j));
                    j += 1;
                    while at(j) & 0xc0 == 0x80 {
                        t.push(at(j));
                        j += 1;
                    }
                }
                if at(j) == b'\'' {
                    self.text(&t);
                    i = j + 1;
                } else {
                    i += 1;
                }
            } else if c.is_ascii_alphabetic() || c == b'_' {
                // an identifier; `b'x'` and `b"x"` leave their prefix here
                while at(i).is_ascii_alphanumeric() || at(i) == b'_' {
                    i += 1;
                }
            } else if c.is_ascii_digit() {
                let start = i;
                while at(i).is_ascii_alphanumeric() || at(i) == b'_' {
                    i += 1;
                }
                // a float keeps its integer part
                let w: String = src[start..i].iter().filter(|b| **b != b'_').map(|b| *b as char).collect();
                let cut = |s: &str, r: u32| {
                    let e = s.find(|c: char| !c.is_digit(r)).unwrap_or(s.len());
                    u64::from_str_radix(&s[..e], r).ok()
                };
                let v = if let Some(h) = w.strip_prefix("0x") {
                    // a suffix such as u8 has no hexadecimal letter in front
                    cut(h, 16)
                } else if let Some(b) = w.strip_prefix("0b") {
                    cut(b, 2)
                } else if let Some(o) = w.strip_prefix("0o") {
                    cut(o, 8)
                } else {
                    cut(&w, 10)
                };
                if let Some(v) = v {
                    self.ints.insert(v);
                    if let Some((p, e)) = last {
                        let op: String = src[e..start].iter().map(|b| *b as char).filter(|c| !c.is_whitespace()).collect();
                        let x = match op.as_str() {
                            "*" => p.checked_mul(v),
                            "<<" if v < 64 => Some(p << v),
                            "+" => p.checked_add(v),
                            "-" => p.checked_sub(v),
                            _ => None,
                        };
                        if let Some(x) = x {
                            self.ints.insert(x);
                            last = Some((x, i));
                            continue;
                        }
                    }
                    last = Some((v, i));
                }
            } else {
                i += 1;
            }
        }
    }

    fn scan_dir(&mut self, dir: &Path) {
        let mut l: Vec<_> = match std::fs::read_dir(dir) {
            Ok(d) => d.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
            Err(_) => return,
        };
        l.sort();
        for p in l {
            let name = p.file_name().map(|n| n.to_string_lossy().to_string()).unwrap_or_default();
            if p.is_dir() {
                if name != "tests" && name != "target" {
                    self.scan_dir(&p);
                }
            } else if name.ends_with(".rs") && name != "tests.rs" {
                if let Ok(s) = std::fs::read(&p) {
                    self.scan(&s);
                }
            }
        }
    }
}

fn escape(src: &[u8], i: usize, out: &mut Vec<u8>) -> usize {
    let at = |i: usize| src.get(i).copied().unwrap_or(0);
    match at(i + 1) {
        b'n' => out.push(b'\n'),
        b't' => out.push(b'\t'),
        b'r' => out.push(b'\r'),
        b'0' => out.push(0),
        b'x' => {
            let h = String::from_utf8_lossy(&src[(i + 2).min(src.len())..(i + 4).min(src.len())]).to_string();
            if let Ok(v) = u8::from_str_radix(&h, 16) {
                out.push(v);
            }
            return i + 4;
        }
        b'u' => {
            let mut j = i + 3;
            let mut v = 0u32;
            while j < src.len() && at(j) != b'}' {
                v = v.wrapping_mul(16).wrapping_add((at(j) as char).to_digit(16).unwrap_or(0));
                j += 1;
            }
            let mut b = [0; 4];
            if let Some(c) = char::from_u32(v) {
                out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
            }
            return j + 1;
        }
        b'\n' => {
            let mut j = i + 2;
            while at(j).is_ascii_whitespace() {
                j += 1;
            }
            return j;
        }
        c => out.push(c),
    }
    i + 2
}

/// Every literal of the tree at hand.
pub fn of_tree() -> Dict {
    let mut d = Dict::default();
    let root = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
    d.scan_dir(&Path::new(&root).join("src"));
    d
}

/// The new literals of another tree, for a replay.
pub fn set_new(s: &str) {
    let _ = OVERRIDE.set(Dict::load(s));
}

pub fn split() -> &'static Split {
    SPLIT.get_or_init(|| {
        let known = Dict::load(KNOWN);
        let new = match OVERRIDE.get() {
            Some(d) => d.clone(),
            None => of_tree(),
        };
        let texts = new.texts.difference(&known.texts).take(200).cloned().collect();
        let ints = new.ints.difference(&known.ints).take(200).copied().collect();
        Split {
            base: (known.texts.into_iter().collect(), known.ints.into_iter().collect()),
            new: (texts, ints),
        }
    })
}

/// The new literals, as a replay keeps them.
pub fn dump_new() -> String {
    let s = split();
    Dict { texts: s.new.0.iter().cloned().collect(), ints: s.new.1.iter().copied().collect() }.dump()
}

pub fn texts() -> impl Iterator<Item = &'static String> {
    let s = split();
    s.base.0.iter().chain(s.new.0.iter())
}

/// A text of the dictionary, the new ones preferred.
pub fn text(src: &mut Src) -> &'static str {
    let s = split();
    if !s.new.0.is_empty() && src.chance(3, 4) {
        return src.pick(&s.new.0);
    }
    if s.base.0.is_empty() {
        return "";
    }
    src.pick(&s.base.0)
}

/// Numbers of the dictionary and their neighbours.
pub fn ints(bits: u32) -> Vec<u64> {
    let mask = if bits >= 64 { u64::MAX } else { (1 << bits) - 1 };
    let s = split();
    let mut v = Vec::new();
    for x in s.base.1.iter().chain(s.new.1.iter()) {
        for y in [*x, x.wrapping_add(1), x.wrapping_sub(1)] {
            let y = y & mask;
            if !v.contains(&y) {
                v.push(y);
            }
        }
    }
    v
}

/// A number of the dictionary or a neighbour of one.
pub fn int(src: &mut Src) -> u64 {
    let s = split();
    let x = if !s.new.1.is_empty() && src.chance(3, 4) {
        *src.pick(&s.new.1)
    } else if s.base.1.is_empty() {
        0
    } else {
        *src.pick(&s.base.1)
    };
    match src.weighted(&[4, 2, 2, 1]) {
        0 => x,
        1 => x.wrapping_add(1),
        2 => x.wrapping_sub(1),
        _ => x.swap_bytes(),
    }
}

/// The new numbers that can be sizes, with what is around them and their doubles.
pub fn sizes(max: usize) -> Vec<usize> {
    let mut v = BTreeSet::new();
    for m in 1..=2 {
        for x in &split().new.1 {
            let x = x.saturating_mul(m);
            for y in [x.wrapping_sub(1), x, x.wrapping_add(1)] {
                // not too many large ones
                let large = v.iter().filter(|n| **n > 2000).count() >= 18;
                if y > 0 && y <= max as u64 && (y <= 2000 || !large) {
                    v.insert(y as usize);
                }
            }
        }
    }
    v.into_iter().collect()
}
