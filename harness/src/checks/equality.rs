//! C28: equality, order and hash of values, types, headers, messages and rules follow the content.
use super::*;
use crate::gen::{self, Budget, Opts};
use crate::rules::{self, Rule};
use dbus_message_parser::message::{MessageFlags, MessageHeader, MessageHeaderFields, MessageType};
use dbus_message_parser::value::{Array, Struct, Type, Value};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};

const O: Opts = Opts { free_dict: true, fds: 4, nul: true };
const FDS: [i32; 4] = [8, 3, 0, -1];

/// Equality of contents: doubles compare as numbers, arrays also by element type.
fn same(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::D(x), Val::D(y)) => f64::from_bits(*x) == f64::from_bits(*y),
        (Val::V(x), Val::V(y)) => same(x, y),
        (Val::A(t, x), Val::A(u, y)) => t == u && same_all(x, y),
        (Val::R(x), Val::R(y)) => same_all(x, y),
        (Val::E(x), Val::E(y)) => same(&x.0, &y.0) && same(&x.1, &y.1),
        _ => a == b,
    }
}

fn same_all(a: &[Val], b: &[Val]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))
}

fn nan(v: &Val) -> bool {
    let mut r = false;
    v.each(&mut |x| {
        if let Val::D(d) = x {
            r |= f64::from_bits(*d).is_nan();
        }
    });
    r
}

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn tweak_text(src: &mut Src, s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut c = c;
    match src.below(7) {
        0 => c.push(' '),
        1 => c.push('\0'),
        2 => {
            c.pop();
        }
        3 if !c.is_empty() => {
            c.remove(0);
        }
        4 if c.len() > 1 => {
            let i = src.usize(c.len() - 1);
            c.swap(i, i + 1);
        }
        _ if !c.is_empty() => {
            let i = src.usize(c.len());
            c[i] = match c[i] {
                x if x.is_ascii_lowercase() => x.to_ascii_uppercase(),
                x if x.is_ascii_uppercase() => x.to_ascii_lowercase(),
                '0' => '1',
                _ => 'e',
            };
        }
        _ => c.push('\u{301}'),
    }
    c.into_iter().collect()
}

/// A valid name close to the given one, or the same one when the edit is not valid.
fn tweak_name(src: &mut Src, s: &str, ok: fn(&[u8]) -> bool) -> String {
    let mut b = s.as_bytes().to_vec();
    let i = src.usize(b.len());
    match src.below(5) {
        0 => b.push(b'a'),
        1 => {
            b.pop();
        }
        2 => b[i] = if b[i].is_ascii_lowercase() { b[i].to_ascii_uppercase() } else { b[i].to_ascii_lowercase() },
        3 => b[i] = b'_',
        _ => b[i] = b'7',
    }
    if ok(&b) {
        String::from_utf8(b).unwrap()
    } else {
        s.to_string()
    }
}

fn bit(src: &mut Src, n: u32) -> u64 {
    1u64 << src.below(n as u64)
}

fn tweak_ty(src: &mut Src, t: &Ty) -> Ty {
    match t {
        Ty::A(x) if src.bool() => Ty::A(Box::new(tweak_ty(src, x))),
        Ty::R(ts) if src.chance(3, 4) => {
            let mut ts = ts.clone();
            let i = src.usize(ts.len());
            match src.below(4) {
                0 => ts.push(Ty::Y),
                1 if ts.len() > 1 => {
                    ts.pop();
                }
                2 if ts.len() > 1 => ts.swap(0, i),
                _ => ts[i] = tweak_ty(src, &ts[i].clone()),
            }
            Ty::R(ts)
        }
        Ty::E(e) if src.chance(3, 4) => {
            let mut e = e.clone();
            if src.bool() {
                e.1 = tweak_ty(src, &e.1.clone());
            } else if e.1.is_basic() {
                *e = (e.1.clone(), e.0.clone());
            }
            Ty::E(e)
        }
        _ => {
            let i = src.usize(14);
            if i == 13 {
                Ty::V
            } else {
                BASIC[i].clone()
            }
        }
    }
}

/// Change one aspect of a value; `fixed`: its type must stay.
fn tweak(src: &mut Src, v: &Val, fixed: bool) -> Val {
    if !fixed && src.chance(1, 12) {
        // another type, the same digits
        return match v {
            Val::U(x) => Val::I(*x as i32),
            Val::I(x) => Val::U(*x as u32),
            Val::X(x) => Val::T(*x as u64),
            Val::T(x) => Val::D(*x),
            Val::D(x) => Val::T(*x),
            Val::O(s) => Val::S(s.clone()),
            Val::G(s) => Val::S(sig_text(s)),
            Val::H(x) => Val::U(*x),
            Val::Y(x) => Val::B(*x != 0),
            Val::R(xs) if xs.len() == 2 => Val::E(Box::new((xs[0].clone(), xs[1].clone()))),
            Val::E(e) => Val::R(vec![e.0.clone(), e.1.clone()]),
            Val::A(_, xs) if !xs.is_empty() => Val::R(xs.clone()),
            Val::V(x) => (**x).clone(),
            x => Val::V(Box::new(x.clone())),
        };
    }
    match v {
        Val::Y(x) => Val::Y(x ^ bit(src, 8) as u8),
        Val::B(x) => Val::B(!x),
        Val::N(x) => Val::N(x ^ bit(src, 16) as i16),
        Val::Q(x) => Val::Q(x ^ bit(src, 16) as u16),
        Val::I(x) => Val::I(x ^ bit(src, 32) as i32),
        Val::U(x) => Val::U(x ^ bit(src, 32) as u32),
        Val::X(x) => Val::X(x ^ bit(src, 64) as i64),
        Val::T(x) => Val::T(x ^ bit(src, 64)),
        Val::D(x) => Val::D(x ^ bit(src, 64)),
        Val::H(x) => Val::H((x + 1 + src.below(3) as u32) % 4),
        Val::S(s) => Val::S(tweak_text(src, s)),
        Val::O(s) => Val::O(tweak_name(src, s, crate::names::is_path)),
        Val::G(ts) => {
            let mut ts = ts.clone();
            match src.below(3) {
                0 => {
                    ts.pop();
                }
                1 if !ts.is_empty() => {
                    let i = src.usize(ts.len());
                    ts[i] = tweak_ty(src, &ts[i].clone());
                }
                _ => ts.push(Ty::Y),
            }
            Val::G(ts)
        }
        Val::V(x) => Val::V(Box::new(tweak(src, x, false))),
        Val::A(t, xs) => {
            let mut xs = xs.clone();
            if xs.is_empty() || (!fixed && src.chance(1, 6)) {
                return if fixed { v.clone() } else { Val::A(tweak_ty(src, t), Vec::new()) };
            }
            let i = src.usize(xs.len());
            match src.below(5) {
                0 => {
                    xs.remove(i);
                }
                1 => {
                    let x = xs[i].clone();
                    xs.push(x);
                }
                2 => xs.swap(0, i),
                _ => xs[i] = tweak(src, &xs[i].clone(), true),
            }
            Val::A(t.clone(), xs)
        }
        Val::R(xs) => {
            let mut xs = xs.clone();
            let i = src.usize(xs.len());
            match src.below(6) {
                0 if !fixed && xs.len() > 1 => {
                    xs.remove(i);
                }
                1 if !fixed => {
                    let x = xs[i].clone();
                    xs.insert(i, x);
                }
                2 if !fixed => xs.swap(0, i),
                _ => xs[i] = tweak(src, &xs[i].clone(), fixed),
            }
            Val::R(xs)
        }
        Val::E(e) => {
            let mut e = e.clone();
            if src.bool() {
                e.0 = tweak(src, &e.0.clone(), true);
            } else {
                e.1 = tweak(src, &e.1.clone(), fixed);
            }
            Val::E(e)
        }
    }
}

fn pair<T: PartialEq + PartialOrd>(what: &str, a: &T, b: &T, want: bool) -> Res {
    ensure!((a == b) == want, "{}: == gives {}, the contents are {}", what, a == b, if want { "equal" } else { "different" });
    ensure!((b == a) == want, "{}: == is not symmetric", what);
    ensure!((a != b) != want, "{}: != contradicts ==", what);
    let (x, y) = (a.partial_cmp(b), b.partial_cmp(a));
    ensure!(x == y.map(Ordering::reverse), "{}: order {:?} one way, {:?} the other", what, x, y);
    ensure!((x == Some(Ordering::Equal)) == want, "{}: order {:?}, equality {}", what, x, want);
    ensure!(
        (a < b, a > b, a <= b, a >= b)
            == (
                x == Some(Ordering::Less),
                x == Some(Ordering::Greater),
                matches!(x, Some(Ordering::Less | Ordering::Equal)),
                matches!(x, Some(Ordering::Greater | Ordering::Equal))
            ),
        "{}: comparison operators contradict {:?}",
        what,
        x
    );
    Ok(())
}

fn total<T: Ord>(what: &str, a: &T, b: &T) -> Res {
    ensure!(
        Some(a.cmp(b)) == a.partial_cmp(b),
        "{}: cmp {:?}, partial_cmp {:?}",
        what,
        a.cmp(b),
        a.partial_cmp(b)
    );
    Ok(())
}

/// a <= b and b <= c give a <= c, for every arrangement.
fn transitive<T: PartialOrd>(what: &str, v: [&T; 3]) -> Res {
    for (i, j, k) in [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)] {
        if v[i] <= v[j] && v[j] <= v[k] {
            ensure!(v[i] <= v[k], "{}: order is not transitive ({} <= {} <= {})", what, i, j, k);
            if v[i] < v[j] || v[j] < v[k] {
                ensure!(v[i] < v[k], "{}: strict order is not transitive ({}, {}, {})", what, i, j, k);
            }
        }
    }
    Ok(())
}

fn value(src: &mut Src) -> Val {
    let mut b = Budget(16);
    let t = if src.chance(1, 3) { BASIC[src.usize(13)].clone() } else { gen::ty(src, 3, &O) };
    gen::val(src, &t, 0, &mut b, &O)
}

fn other(src: &mut Src, a: &Val, fresh: fn(&mut Src) -> Val) -> Val {
    match src.weighted(&[2, 8, 2, 1]) {
        0 => a.clone(),
        1 => tweak(src, a, false),
        2 => {
            let b = tweak(src, a, false);
            tweak(src, &b, false)
        }
        _ => fresh(src),
    }
}

fn values(src: &mut Src, ctx: &mut Ctx) -> Res {
    let a = value(src);
    let b = other(src, &a, value);
    let c = other(src, &b, value);
    ctx.desc(|| format!("{} / {} / {}", show_val(&a), show_val(&b), show_val(&c)));
    let m = [&a, &b, &c];
    let l: Vec<Value> = m.iter().map(|v| v.to_lib(&FDS)).collect();
    // descriptors are compared as numbers: resolve the indices
    let r = resolve(&[a.clone(), b.clone(), c.clone()], &FDS);
    for i in 0..3 {
        for j in 0..3 {
            pair("values", &l[i], &l[j], same(&r[i], &r[j]))?;
            ctx.evals += 1;
        }
        let cl = l[i].clone();
        pair("value and its clone", &cl, &l[i], !nan(&r[i]))?;
        ensure!(Val::from_lib(&cl) == r[i], "clone of {} is {}", show_val(&r[i]), show_val(&Val::from_lib(&cl)));
    }
    transitive("values", [&l[0], &l[1], &l[2]])?;
    if same(&r[0], &r[1]) {
        ctx.label("equal");
    } else {
        ctx.label("different");
        ctx.hit(hash_bytes(1, format!("{:?}{:?}", a, b).as_bytes()));
    }
    if let (Val::A(t, x), Val::A(u, y)) = (&r[0], &r[1]) {
        let p = Array::new(x.iter().map(|v| v.to_lib(&[])).collect(), t.to_lib());
        let q = Array::new(y.iter().map(|v| v.to_lib(&[])).collect(), u.to_lib());
        if let (Ok(p), Ok(q)) = (p, q) {
            pair("arrays", &p, &q, same(&unres(&p), &unres(&q)))?;
        }
        ctx.label("arrays");
    }
    if let (Value::Struct(p), Value::Struct(q)) = (&l[0], &l[1]) {
        let _: (&Struct, &Struct) = (p, q);
        pair("structs", p, q, same(&r[0], &r[1]))?;
        ctx.label("structs");
    }
    // containers of values compare element by element
    pair("lists of values", &vec![l[0].clone(), l[1].clone()], &vec![l[0].clone(), l[2].clone()], !nan(&r[0]) && same(&r[1], &r[2]))?;
    Ok(())
}

fn unres(a: &Array) -> Val {
    Val::A(Ty::from_lib(a.get_type()), a.as_ref().iter().map(Val::from_lib).collect())
}

fn types(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut ts = vec![gen::ty(src, 4, &O)];
    let n = 2 + src.usize(6);
    for _ in 0..n {
        let i = src.usize(ts.len());
        let t = match src.below(6) {
            0 => ts[i].clone(),
            1 => gen::ty(src, 3, &O),
            _ => tweak_ty(src, &ts[i].clone()),
        };
        ts.push(t);
    }
    ctx.desc(|| ts.iter().map(|t| t.text()).collect::<Vec<_>>().join(" "));
    let l: Vec<Type> = ts.iter().map(|t| t.to_lib()).collect();
    for i in 0..l.len() {
        for j in 0..l.len() {
            pair("types", &l[i], &l[j], ts[i] == ts[j])?;
            total("types", &l[i], &l[j])?;
            if ts[i] == ts[j] {
                ensure!(hash(&l[i]) == hash(&l[j]), "types {}: equal with different hashes", ts[i].text());
            }
            ctx.evals += 1;
        }
        ensure!(l[i].clone() == l[i], "type {} differs from its clone", ts[i].text());
    }
    transitive("types", [&l[0], &l[1], &l[2]])?;
    let distinct = ts.iter().collect::<HashSet<_>>().len();
    ensure!(l.iter().collect::<HashSet<_>>().len() == distinct, "hash set of types has the wrong size");
    ensure!(l.iter().collect::<BTreeSet<_>>().len() == distinct, "ordered set of types has the wrong size");
    if distinct > 1 {
        ctx.hit(hash_bytes(2, format!("{:?}", ts).as_bytes()));
    }
    Ok(())
}

/// One aspect of a message changed.
fn tweak_msg(src: &mut Src, m: &Msg, sig: &mut Option<Vec<Ty>>) -> Msg {
    use crate::names::*;
    let mut m = m.clone();
    macro_rules! field {
        ($f:ident, $new:expr, $ok:expr) => {{
            m.h.$f = match &m.h.$f {
                Some(s) if src.chance(3, 4) => Some(tweak_name(src, s, $ok)),
                Some(_) => Some($new(src)),
                None => Some($new(src)),
            };
        }};
    }
    match src.below(16) {
        0 => m.le = !m.le,
        1 => {
            let t = 1 + src.below(4) as u8;
            if required(t).iter().all(|c| m.h.value(*c).is_some()) {
                m.mtype = t;
            }
        }
        2 => m.flags ^= 1 << src.below(3),
        3 => m.version ^= bit(src, 8) as u8,
        4 => m.serial ^= bit(src, 32) as u32,
        5 => field!(path, gen::path, is_path),
        6 => field!(interface, gen::interface, is_interface),
        7 => field!(member, gen::member, is_member),
        8 => field!(error_name, gen::interface, is_interface),
        9 => m.h.reply_serial = Some(m.h.reply_serial.unwrap_or(0) ^ bit(src, 32) as u32),
        10 => field!(destination, gen::bus, is_bus),
        11 => field!(sender, gen::bus, is_bus),
        12 => {
            m.h.unix_fds = match m.h.unix_fds {
                Some(_) if src.bool() => None,
                x => Some(x.unwrap_or(0) ^ bit(src, 32) as u32),
            }
        }
        13 => {
            // drop a field that is not required
            let c: Vec<u8> = m.h.codes().into_iter().filter(|c| !required(m.mtype).contains(c)).collect();
            if !c.is_empty() {
                match c[src.usize(c.len())] {
                    PATH => m.h.path = None,
                    INTERFACE => m.h.interface = None,
                    MEMBER => m.h.member = None,
                    ERROR_NAME => m.h.error_name = None,
                    REPLY_SERIAL => m.h.reply_serial = None,
                    DESTINATION => m.h.destination = None,
                    SENDER => m.h.sender = None,
                    _ => m.h.unix_fds = None,
                }
            }
        }
        14 => {
            *sig = match sig {
                None => Some(vec![Ty::S]),
                Some(s) if s.is_empty() => None,
                Some(s) => {
                    let mut s = s.clone();
                    let i = src.usize(s.len());
                    match src.below(3) {
                        0 => {
                            s.pop();
                        }
                        1 => s.push(Ty::V),
                        _ => s[i] = tweak_ty(src, &s[i].clone()),
                    }
                    Some(s)
                }
            }
        }
        _ => {
            if m.body.is_empty() || src.chance(1, 5) {
                m.body.push(value(src));
            } else {
                let i = src.usize(m.body.len());
                match src.below(4) {
                    0 => {
                        m.body.pop();
                    }
                    1 => m.body.swap(0, i),
                    _ => m.body[i] = tweak(src, &m.body[i].clone(), false),
                }
            }
        }
    }
    m
}

type Full = (Msg, Option<Vec<Ty>>);

fn messages(src: &mut Src, ctx: &mut Ctx) -> Res {
    let a = gen::small_msg(src, &O);
    let s = if src.chance(1, 3) { Some(vec![Ty::S, Ty::A(Box::new(Ty::V))]) } else { None };
    let mut ms: Vec<Full> = vec![(a, s)];
    for _ in 0..2 {
        let (m, mut s) = ms[ms.len() - 1].clone();
        let k = src.weighted(&[2, 7, 2, 1]);
        let m = match k {
            0 => m,
            1 | 2 => {
                let mut x = m;
                for _ in 0..k {
                    x = tweak_msg(src, &x, &mut s);
                }
                x
            }
            _ => gen::small_msg(src, &O),
        };
        ms.push((m, s));
    }
    ctx.desc(|| ms.iter().map(|m| m.0.show()).collect::<Vec<_>>().join(" / "));
    let mut hs: Vec<MessageHeader> = Vec::new();
    let mut fs: Vec<MessageHeaderFields> = Vec::new();
    let mut ls: Vec<Message> = Vec::new();
    for (m, s) in &ms {
        fs.push(m.h.to_lib(s.as_deref())?);
        let h = m.header_lib(s.as_deref())?;
        hs.push(h.clone());
        ls.push(Message::new(h, m.body.iter().map(|v| v.to_lib(&FDS)).collect()));
    }
    for i in 0..3 {
        for j in 0..3 {
            let ((x, s), (y, t)) = (&ms[i], &ms[j]);
            let fields = x.h == y.h && s == t;
            let head = fields
                && (x.le, x.mtype, x.flags, x.version, x.serial) == (y.le, y.mtype, y.flags, y.version, y.serial);
            let all = head && same_all(&resolve(&x.body, &FDS), &resolve(&y.body, &FDS));
            pair("header fields", &fs[i], &fs[j], fields)?;
            total("header fields", &fs[i], &fs[j])?;
            pair("headers", &hs[i], &hs[j], head)?;
            total("headers", &hs[i], &hs[j])?;
            pair("messages", &ls[i], &ls[j], all)?;
            ctx.evals += 3;
            if i < j {
                ctx.label(if all { "equal" } else { "different" });
                if !all {
                    ctx.hit(x.hash64() ^ y.hash64().rotate_left(1));
                }
            }
        }
        let n = ms[i].0.body.iter().any(nan);
        pair("message and its clone", &ls[i].clone(), &ls[i], !n)?;
        // a copy made the long way: from the parts of the message
        let (h, b) = ls[i].clone().split().map_err(|e| format!("split: {:?}", e))?;
        let again = Message::new(h.clone(), b);
        let want = ms[i].0.sig();
        let asis = if want.is_empty() { ms[i].1.is_none() } else { ms[i].1.as_deref() == Some(&want[..]) };
        if asis {
            pair("message and its parts", &again, &ls[i], !n)?;
        }
    }
    transitive("header fields", [&fs[0], &fs[1], &fs[2]])?;
    transitive("headers", [&hs[0], &hs[1], &hs[2]])?;
    transitive("messages", [&ls[0], &ls[1], &ls[2]])?;
    Ok(())
}

fn tweak_rule(src: &mut Src, r: &Rule) -> Rule {
    // the same value under another key, or a close value under the same key
    let (mut k, mut v) = (r.key(), r.value());
    if src.chance(1, 3) {
        k = match src.below(4) {
            0 => src.pick(&["sender", "interface", "member", "path", "path_namespace", "destination", "arg0namespace", "eavesdrop", "type"]).to_string(),
            1 => format!("arg{}", src.below(64)),
            2 => format!("arg{}path", src.below(64)),
            _ => "interface".to_string(),
        };
    } else {
        v = tweak_text(src, &v);
    }
    match rules::read_entry(&k, &v) {
        Ok(Some(n)) => n,
        _ => r.clone(),
    }
}

fn match_rules(src: &mut Src, ctx: &mut Ctx) -> Res {
    let a = rules::rule(src);
    let b = match src.weighted(&[2, 6, 2]) {
        0 => a.clone(),
        1 => tweak_rule(src, &a),
        _ => rules::rule(src),
    };
    ctx.desc(|| format!("{:?} / {:?}", a, b));
    let (x, y) = (a.to_lib()?, b.to_lib()?);
    let want = a == b;
    ensure!((x == y) == want && (y == x) == want && (x != y) != want, "rules {:?} and {:?}: == gives {}", x, y, x == y);
    ensure!(x == a.to_lib()?, "the same rule made twice differs: {:?}", x);
    let (p, q) = (vec![a.to_lib()?, b.to_lib()?], vec![b.to_lib()?, a.to_lib()?]);
    ensure!((p == q) == want, "lists of two rules in both orders: == gives {}", p == q);
    ctx.label(if want { "equal" } else { "different" });
    if !want {
        ctx.hit(hash_bytes(3, format!("{:?}{:?}", a, b).as_bytes()));
    }
    Ok(())
}

/// All pairs of message types and flag sets, their numbers and their names.
fn kinds(src: &mut Src, ctx: &mut Ctx) -> Res {
    let i = src.enum_index(256) as u8;
    match MessageType::try_from(i) {
        Ok(t) => {
            ensure!((1..=4).contains(&i) && t == mtype_lib(i) && t as u8 == i, "number {} gives {:?}", i, t);
            let name = rules::TYPES[i as usize - 1];
            ensure!(t.to_string() == name, "{:?} prints as {}", t, t);
            ensure!(MessageType::try_from(name) == Ok(t), "{} does not give {:?}", name, t);
            for j in 1..=4u8 {
                let u = mtype_lib(j);
                pair("message types", &t, &u, i == j)?;
                total("message types", &t, &u)?;
            }
        }
        Err(e) => ensure!(!(1..=4).contains(&i) && e == i, "number {} is refused with {}", i, e),
    }
    match MessageFlags::from_bits(i) {
        Some(f) => {
            ensure!(i < 8 && f == flags_lib(i) && f.bits() == i, "bits {} give {:?}", i, f);
            for j in 0..8u8 {
                let g = flags_lib(j);
                pair("flags", &f, &g, i == j)?;
                total("flags", &f, &g)?;
                ensure!(f.contains(g) == (i & j == j), "{:?} contains {:?}", f, g);
                ensure!((f | g).bits() == i | j && (f & g).bits() == i & j, "{:?} combined with {:?}", f, g);
            }
        }
        None => ensure!(i >= 8, "flags {} are refused", i),
    }
    ctx.hit(i as u64);
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C28",
        rule: "a pair of values, types, messages or rules with different contents",
        assumptions: &[
            "doubles compare as IEEE numbers: NaN differs from itself, both zeros are equal",
            "which of two different things is the smaller is not specified, only that the order is one",
        ],
        stack: 2 * MB,
        subs: vec![
            sub("values", 500_000, 6_000_000, values),
            sub("types", 150_000, 1_500_000, types),
            sub("messages and headers", 250_000, 2_500_000, messages),
            sub("match rules", 200_000, 2_500_000, match_rules),
            sub("message types and flags", 256, 256, kinds),
        ],
    }]
}
