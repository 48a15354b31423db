//! Enumerated messages: edge values of every basic type in every kind of container, element
//! counts and text lengths one by one, and edge values of every header field.
use crate::dict;
use crate::model::*;
use std::sync::OnceLock;

/// Pieces of text that code likes to treat specially.
pub const TOKENS: &[&str] = &[
    "\u{feff}", "\r\n", "\n", "\r", "\t", " ", "  ", "\u{a0}", "\u{2028}", "\u{200b}", "\u{7f}", "\u{80}", "\u{85}",
    "\u{7ff}", "\u{800}", "\u{d7ff}", "\u{e000}", "\u{fffd}", "\u{fffe}", "\u{ffff}", "\u{10000}", "\u{1ffff}",
    "\u{10fffe}", "\u{10ffff}", "\u{fdd0}", "e\u{301}", "\u{e9}", "\u{1b}", "\u{1}", "\\", "\\0", "\\n", "\"", "'", "''",
    ",", "=", ":", ".", "..", "/", "//", "%", "%s", "%00", "$", "{}", "{0}", "{", "}", "(", ")", "<", ">", "&amp;",
    "null", "true", "0", "-0", "+1", "00", "1e5", "A", "a", "Z", "z", "İ", "ß", "ﬁ", "Ω", "😀", "👩‍👩‍👧", "שלום", "-", "_",
    "*", "?", "#", ";", "|", "~", "@", "!", "^", "`",
];

pub fn texts() -> Vec<String> {
    let mut v = vec![String::new()];
    for t in TOKENS {
        v.push(t.to_string());
        v.push(format!("{}ab", t));
        v.push(format!("ab{}", t));
        v.push(format!("a{}b", t));
        v.push(format!("{}{}", t, t));
        v.push(format!("{} {}", t, t));
    }
    for n in 1..=600 {
        v.push("abcdefghij".chars().cycle().take(n).collect());
    }
    for n in 1..=40 {
        v.push("é".repeat(n));
        v.push(format!("x{}", "€".repeat(n)));
        v.push("😀".repeat(n));
    }
    for t in dict::texts().filter(|t| !t.contains('\0')) {
        v.push(t.to_string());
        v.push(format!("{}a", t));
        v.push(format!("a{}", t));
        v.push(format!("{} {}", t, t));
        v.push(t.to_ascii_uppercase());
        v.push(t[..t.char_indices().last().map_or(0, |x| x.0)].to_string());
    }
    for n in dict::sizes(200_000) {
        v.push("abcdefghij".chars().cycle().take(n).collect());
    }
    v
}

/// Number of texts, and of texts (with some for NUL) and 32-bit numbers.
pub fn text_count() -> u64 {
    texts().len() as u64
}
pub fn text_and_int_count() -> u64 {
    (texts().len() + 4 + ints(32).len()) as u64
}

/// Every integer of `bits` bits with few bit runs, and patterns with distinct bytes.
pub fn ints(bits: u32) -> Vec<u64> {
    let mask = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    let mut v = vec![0, 1, 2, 3, mask, mask - 1, mask - 2, mask - 3, (mask >> 1) - 1, mask >> 1, (mask >> 1) + 1, 1000, 10, 100, 12345];
    for k in 0..bits {
        let p = 1u64 << k;
        for x in [p, p.wrapping_sub(1), p.wrapping_add(1), !p, p.wrapping_neg()] {
            v.push(x & mask);
        }
    }
    for r in 0..8 {
        v.push(0x0102_0304_0506_0708u64.rotate_left(8 * r) & mask);
        v.push(0xf1e2_d3c4_b5a6_9788u64.rotate_left(8 * r) & mask);
        v.push((0xffu64 << (8 * r)) & mask);
        v.push((0x80u64 << (8 * r)) & mask);
    }
    v.extend(dict::ints(bits));
    if bits > 8 {
        v.extend(dict::ints(bits).iter().map(|x| x.swap_bytes() >> (64 - bits)));
    }
    v.sort_unstable();
    v.dedup();
    v
}

pub fn doubles() -> Vec<u64> {
    let mut v: Vec<u64> = Vec::new();
    for x in [
        0.0, 1.0, 2.0, 0.5, 0.1, 1.5, 1e10, 1e300, 1e-300, 1e308, 5e-324, f64::MAX, f64::MIN_POSITIVE, f64::EPSILON,
        f64::INFINITY, 4294967295.0, 4294967296.0, 9007199254740992.0, 9007199254740993.0, 9223372036854775807.0,
        18446744073709551615.0, std::f64::consts::PI,
    ] {
        v.push((x as f64).to_bits());
        v.push((-x as f64).to_bits());
    }
    for b in [
        0x7ff8_0000_0000_0000u64, 0x7ff0_0000_0000_0001, 0x7ff8_0000_0000_0001, 0x7fff_ffff_ffff_ffff,
        0x7ff4_0000_0000_0000, 0x7ff8_dead_beef_cafe, 0x7ff0_dead_beef_cafe, 0x000f_ffff_ffff_ffff,
        0x0010_0000_0000_0000, 0x0102_0304_0506_0708,
    ] {
        v.push(b);
        v.push(b | 1 << 63);
    }
    v.extend(dict::ints(53).iter().map(|x| (*x as f64).to_bits()));
    v
}

/// (value, may hold what only this library and not the specification allows)
fn values() -> Vec<(Val, bool)> {
    let mut v: Vec<Val> = Vec::new();
    v.extend((0..=255).map(Val::Y));
    v.extend([Val::B(false), Val::B(true)]);
    v.extend(ints(16).iter().map(|x| Val::N(*x as i16)));
    v.extend(ints(16).iter().map(|x| Val::Q(*x as u16)));
    v.extend(ints(32).iter().map(|x| Val::I(*x as i32)));
    v.extend(ints(32).iter().map(|x| Val::U(*x as u32)));
    v.extend(ints(64).iter().map(|x| Val::X(*x as i64)));
    v.extend(ints(64).iter().map(|x| Val::T(*x)));
    v.extend(doubles().into_iter().map(Val::D));
    v.extend(texts().into_iter().map(Val::S));
    for p in ["/", "/_", "/0", "/a/b/c/d/e/f/g/h", "/_/_/_", "/org/freedesktop/DBus", "/A1_/0"] {
        v.push(Val::O(p.into()));
    }
    for n in 1..=300usize {
        let mut p: String = "/abcdefg".chars().cycle().take(n).collect();
        if p.ends_with('/') && n > 1 {
            p.pop();
        }
        v.push(Val::O(p));
    }
    for t in dict::texts() {
        let e: Vec<String> = t
            .split(['.', '/', ' '])
            .map(|e| e.chars().filter(|c| c.is_ascii_alphanumeric() || *c == '_').collect::<String>())
            .filter(|e| !e.is_empty())
            .collect();
        if !e.is_empty() {
            v.push(Val::O(format!("/{}", e.join("/"))));
        }
    }
    for n in dict::sizes(200_000) {
        if n > 2 {
            v.push(Val::O(format!("/{}", "e".repeat(n - 1))));
            v.push(Val::O("/p".repeat(n)));
        }
    }
    let mut single: Vec<Ty> = BASIC.to_vec();
    single.push(Ty::V);
    v.push(Val::G(vec![]));
    for a in &single {
        v.push(Val::G(vec![a.clone()]));
        v.push(Val::G(vec![Ty::A(Box::new(a.clone()))]));
        v.push(Val::G(vec![Ty::R(vec![a.clone()])]));
        v.push(Val::G(vec![Ty::A(Box::new(Ty::E(Box::new((Ty::S, a.clone())))))]));
        for b in &single {
            v.push(Val::G(vec![a.clone(), b.clone()]));
        }
    }
    for n in 1..=255usize {
        v.push(Val::G(vec![Ty::Y; n]));
    }
    for n in 1..=32 {
        let mut a = Ty::S;
        let mut r = Ty::V;
        for _ in 0..n {
            a = Ty::A(Box::new(a));
            r = Ty::R(vec![r]);
        }
        v.push(Val::G(vec![a]));
        v.push(Val::G(vec![r]));
    }
    let mut v: Vec<(Val, bool)> = v.into_iter().map(|x| (x, false)).collect();
    for s in ["\0", "a\0", "\0a", "a\0b", "\0\0", "ab\0\0cd"] {
        v.push((Val::S(s.into()), true));
    }
    v
}

fn bare(body: Vec<Val>) -> Msg {
    Msg {
        le: true,
        mtype: 2,
        flags: 0,
        version: 1,
        serial: 7,
        h: Hdr { reply_serial: Some(3), ..Default::default() },
        body,
    }
}

fn wrapped() -> Vec<(Msg, bool)> {
    let mut out = Vec::new();
    let y = Val::Y(0xee);
    for (v, odd) in values() {
        let t = v.ty();
        let mut put = |body: Vec<Val>| out.push((bare(body), odd));
        put(vec![v.clone()]);
        put(vec![Val::V(Box::new(v.clone())), y.clone()]);
        put(vec![Val::A(t.clone(), vec![v.clone(), v.clone()]), y.clone()]);
        put(vec![Val::R(vec![y.clone(), v.clone(), y.clone()]), y.clone()]);
        let e = Ty::E(Box::new((t.clone(), Ty::V)));
        put(vec![Val::A(e, vec![Val::E(Box::new((v.clone(), Val::V(Box::new(v)))))]), y.clone()]);
    }
    out
}

/// Every element count.
fn counts() -> Vec<Msg> {
    let mut out = Vec::new();
    let mk = |t: &Ty, i: usize| match t {
        Ty::Y => Val::Y(i as u8),
        Ty::Q => Val::Q(i as u16),
        Ty::U => Val::U(i as u32),
        Ty::T => Val::T(i as u64),
        Ty::V => Val::V(Box::new(Val::Y(i as u8))),
        Ty::R(_) => Val::R(vec![Val::T(i as u64), Val::Y(i as u8)]),
        _ => Val::S("s".repeat(i % 5)),
    };
    for t in [Ty::Y, Ty::Q, Ty::U, Ty::T, Ty::S, Ty::V, Ty::R(vec![Ty::T, Ty::Y])] {
        for n in 0..=300 {
            out.push(bare(vec![Val::A(t.clone(), (0..n).map(|i| mk(&t, i)).collect()), Val::U(9)]));
        }
    }
    for n in 1..=4u16 {
        let mut v = Val::Q(n);
        for _ in 0..n {
            v = Val::V(Box::new(v));
        }
        out.push(bare(vec![v.clone()]));
        out.push(bare(vec![Val::R(vec![Val::Y(1), v.clone()]), v.clone()]));
        out.push(bare(vec![Val::A(Ty::V, vec![v.clone(), Val::V(Box::new(Val::Y(2))), v])]));
    }
    // falling, scattered and repeated elements and keys: nothing is sorted or merged
    let at = |t: &Ty, x: u64| match t {
        Ty::Y => Val::Y(x as u8),
        Ty::B => Val::B(x % 3 == 0),
        Ty::N => Val::N(x as i16),
        Ty::Q => Val::Q(x as u16),
        Ty::I => Val::I(x as i32),
        Ty::U => Val::U(x as u32),
        Ty::X => Val::X(x as i64),
        Ty::T => Val::T(x),
        Ty::D => Val::D((x as f64).to_bits()),
        Ty::O => Val::O(format!("/p{}", x)),
        Ty::G => Val::G(vec![Ty::Y; (x % 200) as usize]),
        Ty::V => Val::V(Box::new(Val::U(x as u32))),
        _ => Val::S(format!("{}", x)),
    };
    let mut basic: Vec<Ty> = BASIC.iter().filter(|t| **t != Ty::H).cloned().collect();
    basic.push(Ty::V);
    for t in &basic {
        for n in [2u64, 3, 5, 8, 9, 16, 17, 33, 65, 100, 129, 257] {
            for order in 0..4 {
                let x = |i: u64| match order {
                    0 => n - i,
                    1 => (i * 7 + 3) % 11,
                    2 => (i * 0x9e37) % 251,
                    _ => i / 2,
                };
                out.push(bare(vec![Val::A(t.clone(), (0..n).map(|i| at(t, x(i))).collect()), Val::U(9)]));
                if *t != Ty::V {
                    let (kt, vt) = (t.clone(), if order == 0 { Ty::S } else { Ty::V });
                    let e = Ty::E(Box::new((kt, vt.clone())));
                    let l = (0..n).map(|i| Val::E(Box::new((at(t, x(i)), at(&vt, i))))).collect();
                    out.push(bare(vec![Val::A(e, l), Val::U(9)]));
                }
                let st = Ty::R(vec![t.clone(), Ty::Y]);
                let l = (0..n).map(|i| Val::R(vec![at(t, x(i)), Val::Y(i as u8)])).collect();
                out.push(bare(vec![Val::A(st, l), Val::U(9)]));
            }
        }
    }
    for n in 0..=255 {
        out.push(bare((0..n).map(|i| Val::Y(i as u8)).collect()));
        out.push(bare((0..n).map(|i| Val::S("x".repeat(i % 4))).collect()));
    }
    for n in 1..=253 {
        out.push(bare(vec![Val::R((0..n).map(|i| Val::Q(i as u16)).collect())]));
    }
    for n in dict::sizes(70_000) {
        for t in [Ty::Y, Ty::U, Ty::T, Ty::S, Ty::V, Ty::R(vec![Ty::T, Ty::Y])] {
            if n > 300 {
                out.push(bare(vec![Val::A(t.clone(), (0..n).map(|i| mk(&t, i)).collect()), Val::U(9)]));
            }
        }
        let e = Ty::E(Box::new((Ty::U, Ty::Q)));
        let l = (0..n).map(|i| Val::E(Box::new((Val::U(i as u32), Val::Q(i as u16))))).collect();
        out.push(bare(vec![Val::A(e, l), Val::U(9)]));
    }
    // array, body, header and message lengths of such sizes
    for n in dict::sizes(300_000) {
        for (w, t) in [(1, Ty::Y), (4, Ty::U), (8, Ty::T)] {
            let c = n / w;
            out.push(bare(vec![Val::A(t.clone(), (0..c).map(|i| mk(&t, i)).collect())]));
            if c > 4 / w {
                let c = (n - 4) / w;
                out.push(bare(vec![Val::A(t.clone(), (0..c).map(|i| mk(&t, i)).collect())]));
            }
        }
        if n > 5 {
            out.push(bare(vec![Val::S("x".repeat(n - 5))]));
            out.push(bare(vec![Val::S("x".repeat(n - 5)), Val::Y(1)]));
        }
        let len = bare(vec![Val::S(String::new())]).encode_fast().buf.len();
        if n > len {
            out.push(bare(vec![Val::S("x".repeat(n - len))]));
        }
        let mut m = bare(vec![]);
        for d in 0..3 {
            m.h.path = Some("/p".into());
            let b = m.encode_fast().buf;
            let have = [b.len(), u32::from_le_bytes([b[12], b[13], b[14], b[15]]) as usize, b.len() + 16][d];
            if n > have {
                m.h.path = Some(format!("/p{}", "q".repeat(n - have)));
                out.push(m.clone());
            }
        }
    }
    // containers in one another, four variants deep at the most
    for n in 1..=32 {
        let (mut a, mut t) = (Val::Y(1), Ty::Y);
        let mut r = Val::Q(1);
        for _ in 0..n {
            a = Val::A(t.clone(), vec![a]);
            t = Ty::A(Box::new(t));
            r = Val::R(vec![r]);
        }
        out.push(bare(vec![a, Val::Y(2)]));
        out.push(bare(vec![Val::Y(1), r, Val::Y(2)]));
    }
    out
}

fn headers() -> Vec<Msg> {
    let mut out = Vec::new();
    let full = |mtype: u8| Msg {
        le: true,
        mtype,
        flags: 0,
        version: 1,
        serial: 7,
        h: Hdr {
            path: Some("/p".into()),
            interface: Some("i.f".into()),
            member: Some("M".into()),
            error_name: Some("e.r".into()),
            reply_serial: Some(3),
            ..Default::default()
        },
        body: vec![],
    };
    for mtype in 1..=4 {
        for x in ints(32) {
            let x = x as u32;
            let mut m = full(mtype);
            m.serial = x;
            out.push(m);
            let mut m = full(mtype);
            m.h.reply_serial = Some(x);
            out.push(m);
            let mut m = full(mtype);
            m.h.unix_fds = Some(x);
            out.push(m);
            let mut m = full(mtype);
            m.h.unix_fds = Some(x);
            m.body = vec![Val::Y(1)];
            out.push(m);
        }
        for x in 0..=255 {
            let mut m = full(mtype);
            m.version = x;
            m.flags = x % 8;
            out.push(m);
        }
        for flags in 0..8 {
            let mut m = full(mtype);
            m.flags = flags;
            m.body = vec![Val::T(u64::from(flags))];
            out.push(m);
        }
    }
    // names of every length, and with every character in each place
    let name = |n: usize, cs: &str, prefix: &str| -> String {
        let mut s = prefix.to_string();
        s.push_str("a.");
        for c in cs.chars().cycle() {
            if s.len() >= n {
                break;
            }
            s.push(c);
        }
        s
    };
    const CS: &str = "aZ_9bY0cX1dW2eV3fU4gT5hS6iR7jQ8kPlOmNnMoLpKqJrIsHtGuFvEwDxCyBzA";
    for n in 3..=255usize {
        let mut m = full(1);
        m.h.interface = Some(name(n, CS, ""));
        m.h.member = Some(name(n + 2, CS, "").replace("a.", ""));
        out.push(m);
        let mut m = full(3);
        m.h.error_name = Some(name(n, "a_.Z", "").trim_end_matches('.').to_string() + "");
        if m.h.error_name.as_ref().map_or(0, |s| s.len()) >= 3 {
            out.push(m);
        }
        let mut m = full(4);
        m.h.destination = Some(name(n, &format!("{}-", CS), ""));
        m.h.sender = Some(name(n.max(4), &format!("{}-", CS), ":"));
        out.push(m);
    }
    for t in dict::texts() {
        // constants as names
        let e: Vec<String> = t
            .split(['.', '/', ':'])
            .map(|e| e.chars().filter(|c| c.is_ascii_alphanumeric() || *c == '_').collect::<String>())
            .filter(|e| !e.is_empty() && !e.starts_with(|c: char| c.is_ascii_digit()))
            .collect();
        if e.is_empty() || e.join(".").len() > 240 {
            continue;
        }
        let dotted = if e.len() > 1 { e.join(".") } else { format!("{}.x", e[0]) };
        for mtype in 1..=4 {
            let mut m = full(mtype);
            m.h.interface = Some(dotted.clone());
            m.h.member = e.last().cloned();
            m.h.error_name = Some(dotted.clone());
            out.push(m.clone());
            m.h.path = Some(format!("/{}", e.join("/")));
            m.h.destination = Some(dotted.clone());
            m.h.sender = Some(format!(":{}", dotted));
            out.push(m.clone());
            m.h.interface = Some("x.y".into());
            m.h.member = e.first().cloned();
            m.h.sender = Some(dotted.clone());
            out.push(m);
        }
    }
    for n in 1..=300usize {
        let mut m = full(1 + (n % 4) as u8);
        m.h.path = Some(if n == 1 { "/".into() } else { format!("/{}", "p/".repeat(n)[..n - 1].trim_end_matches('/')) });
        out.push(m);
    }
    for (d, s) in [(":1.0", ":1.0"), (":1.42", "a.b"), ("a-b.c-d", ":0.0"), (":-._", "_._"), ("a.b", "a.b")] {
        for mtype in 1..=4 {
            let mut m = full(mtype);
            m.h.destination = Some(d.into());
            m.h.sender = Some(s.into());
            out.push(m);
        }
    }
    out
}

fn build() -> Vec<(Msg, bool)> {
    let mut v = wrapped();
    v.extend(counts().into_iter().chain(headers()).map(|m| (m, false)));
    v
}

fn all() -> &'static Vec<(Msg, bool)> {
    static ALL: OnceLock<Vec<(Msg, bool)>> = OnceLock::new();
    ALL.get_or_init(build)
}

/// Number of messages, both byte orders counted.
pub fn count() -> u64 {
    2 * all().len() as u64
}

/// Number of messages the specification allows; they come first.
pub fn edge(k: u64) -> (Msg, bool) {
    let (m, odd) = &all()[(k / 2) as usize];
    let mut m = m.clone();
    m.le = k % 2 == 0;
    (m, *odd)
}
