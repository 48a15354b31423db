//! Structured generators.
use crate::dict;
use crate::engine::Src;
use crate::model::*;
use crate::names;

pub const LEN_EDGES: [usize; 30] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256,
    257, 511, 512, 1000, 4096,
];

/// A length: mostly small, sometimes an edge value, at most `max`.
pub fn len(src: &mut Src, typical: u64, max: usize) -> usize {
    let l = match src.weighted(&[12, 4, 1, 1]) {
        0 => src.below(typical + 1) as usize,
        1 => *src.pick(&LEN_EDGES),
        3 => {
            let n = dict::int(src);
            if n > max as u64 {
                src.below(typical + 1) as usize
            } else {
                n as usize
            }
        }
        _ => src.below(300) as usize,
    };
    l.min(max)
}

/// Integers of `bits` bits with emphasis on edge values.
pub fn int(src: &mut Src, bits: u32) -> u64 {
    let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let v = match src.weighted(&[5, 3, 4, 5, 1, 1, 1]) {
        0 => src.below(4),
        5 => src.below(256) * src.below(300),
        6 => {
            // one that was there before, or next to it
            let n = src.ints.len();
            let old = if n == 0 { 0 } else { let i = n - 1 - src.usize(n); src.ints[i] };
            old.wrapping_add([0, 0, 0, 1, u64::MAX][src.usize(5)])
        }
        4 => dict::int(src),
        1 => {
            // around powers of two
            let p = src.below(bits as u64 + 1) as u32;
            let base = if p >= 64 { 0 } else { 1u64 << p };
            let d = [0, u64::MAX, 1, u64::MAX - 1, 2, u64::MAX - 2][src.weighted(&[4, 4, 4, 2, 1, 1])];
            base.wrapping_add(d)
        }
        2 => {
            // every byte different, so that byte swaps and truncation show
            let mut x = 0x0102_0304_0506_0708u64;
            let r = src.below(64) as u32;
            x = x.rotate_left(r);
            x ^ src.below(256)
        }
        _ => src.u64(),
    };
    if src.ints.len() < 32 {
        src.ints.push(v & mask);
    }
    v & mask
}

/// Remembers a text for `again`.
fn keep(src: &mut Src, s: String) -> String {
    if src.texts.len() < 24 && s.len() < 400 {
        src.texts.push(s.clone());
    }
    s
}

/// A text generated earlier in the case.
fn again(src: &mut Src) -> Option<String> {
    let n = src.texts.len();
    if n == 0 {
        return None;
    }
    let i = n - 1 - src.usize(n);
    Some(src.texts[i].clone())
}

/// A few symbols of `all`, most likely the rare ones among them: texts of few symbols hold many of
/// the same.
fn few<'a, T: Copy>(src: &mut Src, all: &[T]) -> Vec<T> {
    let n = 1 + src.below(4) as usize;
    (0..n).map(|_| *src.pick(all)).collect()
}

/// Numbers up to `max` of every magnitude.
fn spread(src: &mut Src, max: usize) -> usize {
    let bits = usize::BITS - max.leading_zeros();
    let b = src.below(bits as u64 + 1);
    (src.below(1 << b) as usize).min(max)
}

pub fn f64_bits(src: &mut Src) -> u64 {
    match src.weighted(&[3, 4, 4]) {
        0 => (src.below(2000) as f64 / 8.0).to_bits(),
        1 => *src.pick(&[
            0,
            0x8000_0000_0000_0000, // -0.0
            0x7ff0_0000_0000_0000, // inf
            0xfff0_0000_0000_0000,
            0x7ff8_0000_0000_0000, // quiet NaN
            0x7ff0_0000_0000_0001, // signalling NaN
            0xfff8_dead_beef_0001,
            1,                     // subnormal
            0x7fef_ffff_ffff_ffff,
            0x3ff0_0000_0000_0000,
        ]),
        _ => src.u64(),
    }
}

const UNI: [char; 22] = [
    'a', 'Z', '0', ' ', '\'', '"', '\\', ',', '=', '.', '/', ':', '\n', '\t', '\u{7f}', 'é', 'ß',
    '\u{20ac}', '\u{ffff}', '\u{10ffff}', '😀', '\u{fdd0}',
];

/// Any UTF-8 text without NUL.
pub fn string(src: &mut Src) -> String {
    let s = new_string(src);
    keep(src, s)
}

fn new_string(src: &mut Src) -> String {
    match src.weighted(&[8, 3, 3, 1, 3, 1, 2, 1]) {
        6 => {
            let cs = few(src, &UNI);
            let n = spread(src, 80);
            (0..n).map(|_| *src.pick(&cs)).collect()
        }
        7 => {
            // an earlier text, whole, cut, doubled or continued
            let s = again(src).unwrap_or_default();
            match src.below(6) {
                0 | 1 => s,
                2 => s.chars().take(s.chars().count().saturating_sub(1)).collect(),
                3 => format!("{}{}", s, s),
                4 => s.chars().rev().collect(),
                _ => format!("{}{}", s, src.pick(&UNI)),
            }
        }
        k @ 4..=5 => {
            // a special piece at the start, in the middle or at the end
            let t = if k == 5 { dict::text(src) } else { *src.pick(crate::checks::edges::TOKENS) };
            if t.contains('\0') {
                return String::new();
            }
            let n = src.below(4) as usize;
            let a: String = (0..n).map(|_| (b'a' + src.below(26) as u8) as char).collect();
            let n = src.below(4) as usize;
            let b: String = (0..n).map(|_| (b'a' + src.below(26) as u8) as char).collect();
            format!("{}{}{}", a, t, b)
        }
        0 => {
            let n = len(src, 12, 300);
            match src.below(3) {
                0 => (0..n).map(|_| (b'a' + src.below(26) as u8) as char).collect(),
                // letters, digits and now and then a sign
                1 => (0..n)
                    .map(|_| match src.below(8) {
                        0..=3 => (b'a' + src.below(26) as u8) as char,
                        4 => (b'A' + src.below(26) as u8) as char,
                        5 | 6 => (b'0' + src.below(10) as u8) as char,
                        _ => (b' ' + src.below(95) as u8) as char,
                    })
                    .collect(),
                _ => (0..n).map(|_| (b' ' + src.below(95) as u8) as char).collect(),
            }
        }
        1 => {
            let n = src.below(9) as usize;
            (0..n).map(|_| *src.pick(&UNI)).collect()
        }
        2 => {
            let n = src.below(6) as usize;
            (0..n)
                .map(|_| {
                    let c = match src.below(4) {
                        0 => src.below(0x7f) + 1,
                        1 => src.below(0x7ff) + 1,
                        2 => src.below(0xffff) + 1,
                        _ => src.below(0x10ffff) + 1,
                    };
                    char::from_u32(c as u32).unwrap_or('\u{fffd}')
                })
                .collect()
        }
        _ => {
            // long text made from one repeated letter: cheap in choices
            let n = *src.pick(&[255usize, 256, 257, 300, 1023, 1024, 4095, 4096, 5000, 65535, 65536, 65537]);
            let c = *src.pick(&['x', 'é', '€', '😀']);
            let mut s = String::new();
            while s.len() + c.len_utf8() <= n {
                s.push(c);
            }
            while s.len() < n {
                s.push('y');
            }
            s
        }
    }
}

/// String that may also hold NUL characters.
pub fn string_nul(src: &mut Src) -> String {
    let mut s = string(src);
    if src.chance(1, 20) && s.len() < 300 {
        let p = src.usize(s.chars().count() + 1);
        let mut t: Vec<char> = s.chars().collect();
        t.insert(p, '\0');
        s = t.into_iter().collect();
    }
    s
}

const WORD: &[u8] = b"aAzZ_09bcdefghijklmnopqrstuvwxyBCDEFGHIJKLMNOPQRSTUVWXY12345678-";

fn element(src: &mut Src, n: usize, digit_first: bool, hyphen: bool) -> String {
    let all = WORD.len() as u64 - if hyphen { 0 } else { 1 };
    let mut s = String::new();
    for i in 0..n {
        let mut c = WORD[src.below(all) as usize];
        if i == 0 && !digit_first && c.is_ascii_digit() {
            c = b'q';
        }
        s.push(c as char);
    }
    s
}

fn few_word(src: &mut Src, hyphen: bool) -> Vec<u8> {
    let all = b"_-0919azAZ_-mNk7";
    let mut cs = few(src, all);
    if !hyphen {
        cs.retain(|c| *c != b'-');
    }
    if cs.is_empty() {
        cs.push(b'_');
    }
    cs
}

fn few_element(src: &mut Src, cs: &[u8], n: usize, digit_first: bool) -> String {
    let mut s = String::new();
    for i in 0..n {
        let mut c = *src.pick(cs);
        if i == 0 && !digit_first && c.is_ascii_digit() {
            c = b'_';
        }
        s.push(c as char);
    }
    s
}

/// A text of the dictionary with what cannot stand in a name left out.
fn dict_name(src: &mut Src, digit_first: bool, hyphen: bool) -> String {
    let mut s = String::new();
    let t = dict::text(src);
    for e in t.split(['.', '/', ':']) {
        let e: String = e.chars().filter(|c| c.is_ascii_alphanumeric() || *c == '_' || (hyphen && *c == '-')).collect();
        if e.is_empty() || s.len() + e.len() > 200 {
            continue;
        }
        if !s.is_empty() {
            s.push('.');
        }
        if !digit_first && e.starts_with(|c: char| c.is_ascii_digit()) {
            s.push('_');
        }
        s.push_str(&e);
    }
    if s.is_empty() {
        s.push('d');
    }
    s
}

/// Dotted name with the given element rules; sometimes exactly at or near 255 bytes.
fn dotted(src: &mut Src, prefix: &str, digit_first: bool, hyphen: bool) -> String {
    let mut s = prefix.to_string();
    match src.weighted(&[12, 2, 1, 1, 4]) {
        4 => {
            // elements of few symbols, few or many of them, short or long
            let k = 2 + spread(src, 40);
            let most = 1 + spread(src, 60);
            let cs = few_word(src, hyphen);
            for i in 0..k {
                if i > 0 {
                    s.push('.');
                }
                let n = if src.bool() { most } else { 1 + src.usize(most) };
                let n = n.min(255usize.saturating_sub(s.len() + 2 * (k - i - 1))).max(1);
                s.push_str(&few_element(src, &cs, n, digit_first));
            }
        }
        3 => {
            // constants as elements, alone or before or behind others
            let k = src.below(3);
            if k == 0 {
                s.push_str(&element(src, 3, digit_first, hyphen));
                s.push('.');
            }
            s.push_str(&dict_name(src, digit_first, hyphen));
            if k == 1 || !s.contains('.') {
                s.push('.');
                s.push_str(&element(src, 3, digit_first, hyphen));
            }
        }
        0 => {
            let k = 2 + src.below(4) as usize;
            for i in 0..k {
                if i > 0 {
                    s.push('.');
                }
                let n = 1 + src.below(9) as usize;
                s.push_str(&element(src, n, digit_first, hyphen));
            }
        }
        1 => {
            // near the limit: two elements, filler letters
            let total = *src.pick(&[255usize, 254, 253, 128, 127, 64]);
            let a = 1 + src.usize(total - prefix.len() - 2);
            let b = total - prefix.len() - 1 - a;
            s.push_str(&"a".repeat(a));
            s.push('.');
            s.push_str(&"b".repeat(b));
        }
        _ => {
            // many one-letter elements
            let total = *src.pick(&[255usize, 253, 101, 21]);
            while s.len() < total {
                s.push('c');
                if s.len() + 1 < total {
                    s.push('.');
                }
            }
            if !s.contains('.') {
                s.push_str(".d");
            }
        }
    }
    s
}

pub fn unique_name(src: &mut Src) -> String {
    if src.chance(1, 2) {
        return format!(":1.{}", src.below(1000));
    }
    dotted(src, ":", true, true)
}
pub fn well_known(src: &mut Src) -> String {
    dotted(src, "", false, true)
}
pub fn bus(src: &mut Src) -> String {
    let s = match src.below(9) {
        0..=3 => well_known(src),
        8 => match again(src) {
            Some(s) if names::is_bus(s.as_bytes()) => s,
            Some(s) if names::is_unique(format!(":{}", s).as_bytes()) => format!(":{}", s),
            _ => unique_name(src),
        },
        _ => unique_name(src),
    };
    keep(src, s)
}
pub fn interface(src: &mut Src) -> String {
    let s = match src.below(12) {
        9..=10 => src.pick(&["a.b", "org.freedesktop.DBus", "interface.name"]).to_string(),
        11 => match again(src) {
            Some(s) if names::is_interface(s.as_bytes()) => s,
            _ => dotted(src, "", false, false),
        },
        _ => dotted(src, "", false, false),
    };
    keep(src, s)
}
pub fn member(src: &mut Src) -> String {
    let s = new_member(src);
    keep(src, s)
}
fn new_member(src: &mut Src) -> String {
    let n = match src.weighted(&[8, 1, 1, 2, 1]) {
        0 => 1 + src.below(12) as usize,
        3 => {
            let cs = few_word(src, false);
            let n = 1 + spread(src, 254);
            return few_element(src, &cs, n, false);
        }
        4 => {
            let s = again(src).unwrap_or_default();
            let s = s.rsplit('.').next().unwrap_or("").to_string();
            return if names::is_member(s.as_bytes()) { s } else { "M".into() };
        }
        2 => {
            let s = dict_name(src, false, false);
            return s.replace('.', if src.bool() { "_" } else { "" });
        }
        _ => *src.pick(&[255usize, 254, 128, 64, 32]),
    };
    if n > 30 {
        return "M".repeat(n);
    }
    element(src, n, false, false)
}
pub fn path(src: &mut Src) -> String {
    let s = new_path(src);
    keep(src, s)
}
fn new_path(src: &mut Src) -> String {
    match src.weighted(&[2, 10, 1, 1, 3, 1]) {
        4 => {
            let k = 1 + spread(src, 60);
            let most = 1 + spread(src, 60);
            let cs = few_word(src, false);
            let mut s = String::new();
            for _ in 0..k {
                s.push('/');
                let n = if src.bool() { most } else { 1 + src.usize(most) };
                s.push_str(&few_element(src, &cs, n, true));
                if s.len() > 600 {
                    break;
                }
            }
            s
        }
        5 => {
            let s = again(src).unwrap_or_default();
            if names::is_path(s.as_bytes()) {
                match src.below(4) {
                    0 if s.len() > 1 => format!("{}{}", s, s),
                    1 if s.len() > 1 => s[..s.rfind('/').unwrap_or(0).max(1)].to_string(),
                    _ => s,
                }
            } else {
                let p = format!("/{}", s.trim_start_matches(':').replace(['.', '-'], "/"));
                if names::is_path(p.as_bytes()) { p } else { "/".into() }
            }
        }
        0 => "/".to_string(),
        3 => {
            let mut s = String::new();
            let k = src.below(4);
            if k == 1 {
                s = format!("/{}", element(src, 2, true, false));
            }
            s.push_str(&format!("/{}", dict_name(src, true, false).replace('.', "/")));
            if k == 2 {
                s.push_str(&format!("/{}", element(src, 2, true, false)));
            }
            s
        }
        1 => {
            let k = 1 + src.below(4) as usize;
            let mut s = String::new();
            for _ in 0..k {
                s.push('/');
                let n = 1 + src.below(8) as usize;
                s.push_str(&element(src, n, true, false));
            }
            s
        }
        _ => {
            let n = *src.pick(&[255usize, 256, 257, 300, 1000, 5000, 65536]);
            if src.bool() {
                "/p".repeat(n / 2 + 1)
            } else {
                format!("/{}", "e".repeat(n))
            }
        }
    }
}

#[derive(Clone, Copy)]
pub struct Opts {
    /// dict entries outside arrays / container keys
    pub free_dict: bool,
    pub fds: usize,
    pub nul: bool,
}

pub const STD: Opts = Opts { free_dict: false, fds: 4, nul: false };
pub const NOFD: Opts = Opts { free_dict: false, fds: 0, nul: false };

fn basic_ty(src: &mut Src, o: &Opts) -> Ty {
    loop {
        let t = src.pick(&[
            Ty::Y, Ty::S, Ty::U, Ty::B, Ty::I, Ty::N, Ty::Q, Ty::X, Ty::T, Ty::D, Ty::O, Ty::G, Ty::H,
        ]);
        if *t == Ty::H && o.fds == 0 {
            return Ty::U;
        }
        return t.clone();
    }
}

/// One complete type. `depth` bounds the nesting.
pub fn ty(src: &mut Src, depth: u32, o: &Opts) -> Ty {
    ty_in(src, depth, o, false)
}

fn ty_in(src: &mut Src, depth: u32, o: &Opts, elem: bool) -> Ty {
    if depth == 0 {
        return basic_ty(src, o);
    }
    let dict = if elem || o.free_dict { 4 } else { 0 };
    match src.weighted(&[10, 5, 4, dict, 3]) {
        0 => basic_ty(src, o),
        1 => Ty::A(Box::new(ty_in(src, depth - 1, o, true))),
        2 => {
            let n = 1 + len_small(src, 4);
            Ty::R((0..n).map(|_| ty_in(src, depth - 1, o, false)).collect())
        }
        3 => {
            let k = if o.free_dict && src.chance(1, 3) {
                ty_in(src, depth - 1, o, false)
            } else {
                basic_ty(src, o)
            };
            let v = ty_in(src, depth - 1, o, false);
            Ty::E(Box::new((k, v)))
        }
        _ => Ty::V,
    }
}

fn len_small(src: &mut Src, max: u64) -> usize {
    src.below(max) as usize
}

/// Deeply nested type: a chain of `a`, `(` and `{s` wrappers around a leaf.
pub fn deep_ty(src: &mut Src, o: &Opts) -> Ty {
    let mut t = basic_ty(src, o);
    let (mut a, mut r, mut d) = (0, 0, 0);
    let n = 1 + src.below(90);
    for _ in 0..n {
        match src.below(3) {
            0 if a < 32 => {
                a += 1;
                t = Ty::A(Box::new(t));
            }
            1 if r < 32 => {
                r += 1;
                t = Ty::R(vec![t]);
            }
            2 if d < 32 && a < 32 => {
                d += 1;
                a += 1;
                t = Ty::A(Box::new(Ty::E(Box::new((Ty::Y, t)))));
            }
            _ => (),
        }
        if t.text().len() > 240 {
            break;
        }
    }
    t
}

pub struct Budget(pub i64);

/// A value of the type; `vd` is the number of variants already around it.
pub fn val(src: &mut Src, t: &Ty, vd: usize, b: &mut Budget, o: &Opts) -> Val {
    b.0 -= 1;
    match t {
        Ty::Y => Val::Y(int(src, 8) as u8),
        Ty::B => Val::B(src.bool()),
        Ty::N => Val::N(int(src, 16) as i16),
        Ty::Q => Val::Q(int(src, 16) as u16),
        Ty::I => Val::I(int(src, 32) as i32),
        Ty::U => Val::U(int(src, 32) as u32),
        Ty::X => Val::X(int(src, 64) as i64),
        Ty::T => Val::T(int(src, 64)),
        Ty::D => Val::D(f64_bits(src)),
        Ty::H => Val::H(src.below(o.fds.max(1) as u64) as u32),
        Ty::S => Val::S(if o.nul { string_nul(src) } else { string(src) }),
        Ty::O => Val::O(path(src)),
        Ty::G => Val::G(signature(src, o)),
        Ty::V => {
            if vd >= 4 {
                // cannot happen for callers that respect the limit
                return Val::V(Box::new(Val::Y(0)));
            }
            let depth = if b.0 > 0 { 2 } else { 0 };
            let mut t = ty_variant(src, depth, o, vd);
            if t.text().len() > 255 {
                t = Ty::Y;
            }
            Val::V(Box::new(val(src, &t, vd + 1, b, o)))
        }
        Ty::A(t) => {
            let n = if vd >= 4 && contains_variant(t) {
                0
            } else if b.0 <= 0 {
                src.below(2) as usize
            } else if t.is_basic() && src.chance(1, 8) {
                len(src, 40, 1000)
            } else if src.chance(1, 24) {
                spread(src, 40)
            } else {
                src.below(4) as usize
            };
            let mut xs = Vec::new();
            for _ in 0..n {
                xs.push(val(src, t, vd, b, o));
                if b.0 < -400 {
                    break;
                }
            }
            Val::A((**t).clone(), xs)
        }
        Ty::R(ts) => Val::R(ts.iter().map(|t| val(src, t, vd, b, o)).collect()),
        Ty::E(e) => {
            let k = val(src, &e.0, vd, b, o);
            let v = val(src, &e.1, vd, b, o);
            Val::E(Box::new((k, v)))
        }
    }
}

/// A type usable inside `vd + 1` variants: without variants once the limit is reached, except
/// inside arrays (which are then left empty).
fn ty_variant(src: &mut Src, depth: u32, o: &Opts, vd: usize) -> Ty {
    for _ in 0..4 {
        let t = if src.chance(1, 5) { Ty::V } else { ty(src, depth, o) };
        if vd + 1 < 4 || !variant_outside_array(&t) {
            return t;
        }
    }
    Ty::Y
}

pub fn contains_variant(t: &Ty) -> bool {
    match t {
        Ty::V => true,
        Ty::A(t) => contains_variant(t),
        Ty::R(ts) => ts.iter().any(contains_variant),
        Ty::E(e) => contains_variant(&e.0) || contains_variant(&e.1),
        _ => false,
    }
}

fn variant_outside_array(t: &Ty) -> bool {
    match t {
        Ty::V => true,
        Ty::A(_) => false,
        Ty::R(ts) => ts.iter().any(variant_outside_array),
        Ty::E(e) => variant_outside_array(&e.0) || variant_outside_array(&e.1),
        _ => false,
    }
}

/// A signature value: any list of types with at most 255 characters.
pub fn signature(src: &mut Src, o: &Opts) -> Vec<Ty> {
    match src.weighted(&[10, 1, 1]) {
        0 => {
            let n = src.below(4) as usize;
            let o2 = Opts { fds: 1, ..*o };
            let mut out: Vec<Ty> = Vec::new();
            for _ in 0..n {
                let t = ty(src, 3, &o2);
                out.push(t);
                if sig_text(&out).len() > 255 {
                    out.pop();
                    break;
                }
            }
            out
        }
        1 => {
            let n = *src.pick(&[255usize, 254, 128, 127, 64]);
            let t = basic_ty(src, o);
            vec![t; n]
        }
        _ => vec![deep_ty(src, &Opts { fds: 1, ..*o })],
    }
}

/// Body values whose signature has at most 255 characters.
pub fn body(src: &mut Src, o: &Opts) -> Vec<Val> {
    let mut out = Vec::new();
    let mut used = 0usize;
    match src.weighted(&[20, 2, 2]) {
        0 => {
            let n = match src.weighted(&[8, 1]) {
                0 => src.below(5) as usize,
                _ => src.below(24) as usize,
            };
            let mut b = Budget(60);
            for _ in 0..n {
                let depth = src.below(4) as u32;
                let t = ty(src, depth, o);
                let l = t.text().len();
                if used + l > 255 {
                    break;
                }
                used += l;
                out.push(val(src, &t, 0, &mut b, o));
            }
        }
        1 => {
            // many values of one basic type
            let n = *src.pick(&[255usize, 254, 129, 128, 127, 64]);
            let t = basic_ty(src, o);
            for _ in 0..n {
                let mut b = Budget(0);
                let v = match &t {
                    Ty::S => Val::S("s".repeat(src.below(6) as usize)),
                    Ty::O => Val::O("/o".to_string()),
                    Ty::G => Val::G(vec![]),
                    t => val(src, t, 0, &mut b, o),
                };
                out.push(v);
            }
        }
        _ => {
            let t = deep_ty(src, o);
            let mut b = Budget(40);
            out.push(val(src, &t, 0, &mut b, o));
        }
    }
    out
}

fn opt<T>(src: &mut Src, req: bool, f: fn(&mut Src) -> T) -> Option<T> {
    if req || src.chance(2, 5) {
        Some(f(src))
    } else {
        None
    }
}

fn serial(src: &mut Src) -> u32 {
    int(src, 32) as u32
}

pub fn header(src: &mut Src, mtype: u8) -> Hdr {
    let r = |c: u8| required(mtype).contains(&c);
    Hdr {
        path: opt(src, r(PATH), path),
        interface: opt(src, r(INTERFACE), interface),
        member: opt(src, r(MEMBER), member),
        error_name: opt(src, r(ERROR_NAME), interface),
        reply_serial: opt(src, r(REPLY_SERIAL), serial),
        destination: opt(src, false, bus),
        sender: opt(src, false, bus),
        unix_fds: if src.chance(1, 6) { Some(serial(src)) } else { None },
    }
}

/// A well-formed message. Descriptor values index a table of `o.fds` entries.
pub fn msg(src: &mut Src, o: &Opts) -> Msg {
    let mtype = 1 + src.below(4) as u8;
    let le = !src.bool();
    let flags = src.below(8) as u8;
    let version = if src.chance(1, 4) { int(src, 8) as u8 } else { 1 };
    let serial = serial(src);
    let h = header(src, mtype);
    let body = body(src, o);
    Msg { le, mtype, flags, version, serial, h, body }
}

/// Small message, for checks that derive many variants of one message.
pub fn small_msg(src: &mut Src, o: &Opts) -> Msg {
    let mtype = 1 + src.below(4) as u8;
    let le = !src.bool();
    let flags = src.below(8) as u8;
    let serial = serial(src);
    let h = header(src, mtype);
    let version = if src.chance(1, 8) { [0, 2, 3, 255][src.usize(4)] } else { 1 };
    let n = src.below(4);
    let mut body = Vec::new();
    let mut b = Budget(14);
    for _ in 0..n {
        let t = ty(src, 2, o);
        body.push(val(src, &t, 0, &mut b, o));
    }
    Msg { le, mtype, flags, version, serial, h, body }
}

/// Distinct descriptors (numbers only; nothing is ever opened).
pub fn fd_table(src: &mut Src, n: usize) -> Vec<i32> {
    let mut out = Vec::new();
    let mut next = src.below(50) as i32;
    for _ in 0..n {
        out.push(next);
        next += 1 + src.below(20) as i32;
    }
    match src.below(4) {
        0 | 1 => src.shuffle(&mut out),
        2 => (),
        _ => out.reverse(),
    }
    if !out.is_empty() && src.chance(1, 10) {
        let k = src.usize(out.len());
        out[k] = i32::MAX;
    }
    if !out.is_empty() && src.chance(1, 10) {
        let k = src.usize(out.len());
        if !out.contains(&-1) {
            out[k] = -1;
        }
    }
    out
}

/// Random order of the header fields present, the body signature included when there is a body
/// (or, on request, an empty signature field without one).
pub fn order(src: &mut Src, m: &Msg) -> Vec<u8> {
    let mut c = m.canonical_order();
    if m.body.is_empty() && src.chance(1, 5) {
        c.push(SIGNATURE);
    }
    src.shuffle(&mut c);
    c
}
