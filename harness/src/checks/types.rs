//! C17, C18: signatures and types.
use super::*;
use crate::gen::{self, Budget, Opts};
use crate::wire::{encode_raw, parse_sig};
use dbus_message_parser::value::{Array, ArrayError, Struct, StructError, Type, Value};
use std::collections::hash_map::DefaultHasher;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};

const FREE: Opts = Opts { free_dict: true, fds: 3, nul: false };

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// The library's reading of the text against the reference parser. True when it is a signature.
pub fn compare_text(s: &[u8]) -> Result<bool, String> {
    let want = parse_sig(s);
    let got = Type::from_bytes_to_signature(s);
    let show = String::from_utf8_lossy(s).into_owned();
    match (&got, &want) {
        (Ok(g), Ok(w)) => {
            let g2: Vec<Ty> = g.iter().map(Ty::from_lib).collect();
            ensure!(g2 == *w, "signature {:?} parsed as {:?}", show, g);
            let back = Type::from_signature_to_string(g)
                .map_err(|e| format!("parsed signature {:?} cannot be printed: {:?}", show, e))?;
            ensure!(back.as_bytes() == s, "signature {:?} printed as {:?}", show, back);
            let disp: String = g.iter().map(|t| t.to_string()).collect();
            ensure!(disp.as_bytes() == s, "types of {:?} display as {:?}", show, disp);
        }
        (Err(_), Err(_)) => (),
        (Ok(g), Err(e)) => bail!("{:?} is no signature ({}) but parses as {:?}", show, e, g),
        (Err(e), Ok(_)) => bail!("signature {:?} refused: {:?}", show, e),
    }
    if let Ok(t) = std::str::from_utf8(s) {
        let g = Type::from_string_to_signature(t);
        ensure!(g == got, "string form of {:?} gives {:?}, bytes {:?}", show, g, got);
        ensure!(Type::try_from(t) == Type::try_from(s), "single type {:?}: string and bytes differ", show);
    }
    let single = Type::try_from(s);
    match (&single, &want) {
        (Ok(t), Ok(w)) if w.len() == 1 => {
            ensure!(Ty::from_lib(t) == w[0], "type {:?} parsed as {:?}", show, t);
            ensure!(t.to_string().as_bytes() == s, "type {:?} displays as {}", show, t);
        }
        (Ok(t), _) => bail!("{:?} is not exactly one type but is read as {:?}", show, t),
        (Err(e), Ok(w)) if w.len() == 1 => bail!("type {:?} refused: {:?}", show, e),
        _ => (),
    }
    Ok(want.is_ok())
}

const ALPHA: &[u8] = b"ya(){}vs";
const FULL: &[u8] = b"ybnqiuxtdhsogva(){}";

/// All texts of up to six characters over `ya(){}vs`: numbered by length.
fn texts_enum(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = ALPHA.len() as u64;
    let chunk = k * k * k;
    // chunk index picks the first characters, the last three are all tried
    let total = 1 + k + k * k + k * k * k + k * k * k * k;
    let mut i = src.enum_index(total);
    let mut n = 0;
    let mut span = 1;
    while i >= span {
        i -= span;
        span *= k;
        n += 1;
    }
    let mut pre = Vec::new();
    for _ in 0..n {
        pre.push(ALPHA[(i % k) as usize]);
        i /= k;
    }
    ctx.desc(|| format!("all signatures of {:?} and up to three of {:?}", String::from_utf8_lossy(&pre), "ya(){}vs"));
    for j in 0..chunk {
        let mut s = pre.clone();
        s.push(ALPHA[(j % k) as usize]);
        s.push(ALPHA[(j / k % k) as usize]);
        s.push(ALPHA[(j / k / k % k) as usize]);
        ctx.evals += 1;
        if compare_text(&s)? {
            ctx.hit(hash_bytes(1, &s));
        }
    }
    compare_text(&pre)?;
    Ok(())
}

/// Every byte in every position of short templates.
fn bytes_enum(src: &mut Src, ctx: &mut Ctx) -> Res {
    let b = src.enum_index(256) as u8;
    ctx.desc(|| format!("byte {:#04x} in templates", b));
    for t in ["?", "a?", "?y", "(?)", "(y?", "(y?)", "{?y}", "{y?}", "a{y?}", "a{s?}i", "y?y", "((y)?)", "{yy?", "a(?s)", "aa?", "??", "(??)", "{??}"] {
        let s: Vec<u8> = t.bytes().map(|c| if c == b'?' { b } else { c }).collect();
        ctx.evals += 1;
        compare_text(&s)?;
        ctx.hit(hash_bytes(1, &s));
    }
    Ok(())
}

fn texts(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut s: Vec<u8> = match src.weighted(&[6, 2, 2, 1]) {
        0 => {
            let n = src.below(5);
            let mut t = Vec::new();
            for _ in 0..n {
                t.push(gen::ty(src, 4, &FREE));
            }
            sig_text(&t).into_bytes()
        }
        1 => gen::deep_ty(src, &FREE).text().into_bytes(),
        2 => {
            let n = src.below(12) as usize;
            (0..n).map(|_| *src.pick(FULL)).collect()
        }
        _ => {
            let n = src.below(8) as usize;
            (0..n).map(|_| src.below(256) as u8).collect()
        }
    };
    let edits = src.weighted(&[6, 4, 2, 1]);
    for _ in 0..edits {
        let p = src.usize(s.len() + 1);
        match src.below(5) {
            0 if p < s.len() => {
                s.remove(p);
            }
            1 => {
                let c = *src.pick(FULL);
                s.insert(p, c)
            }
            2 if p < s.len() => s[p] = *src.pick(FULL),
            3 if p < s.len() => {
                let q = src.usize(s.len());
                s.swap(p, q)
            }
            _ if p < s.len() => s[p] = src.below(256) as u8,
            _ => (),
        }
    }
    ctx.desc(|| format!("{:?}", String::from_utf8_lossy(&s)));
    ctx.hit(hash_bytes(1, &s));
    if compare_text(&s)? {
        ctx.label("a signature");
    } else {
        ctx.label("not a signature");
    }
    Ok(())
}

/// Texts around and beyond the limits: 250 to 260 characters, also up to 700, nesting 30 to 35.
fn texts_long(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut s = Vec::new();
    let (a, r, d) = match src.below(4) {
        0 => (src.range(30, 35), 0, 0),
        1 => (src.below(3), src.range(30, 35), 0),
        2 => (src.below(3), 0, src.range(30, 35)),
        _ => (src.range(28, 34), src.range(28, 34), src.range(28, 34)),
    };
    let mut open: Vec<u8> = Vec::new();
    open.extend(std::iter::repeat(b'a').take(a as usize));
    open.extend(std::iter::repeat(b'(').take(r as usize));
    open.extend(std::iter::repeat(b'{').take(d as usize));
    src.shuffle(&mut open);
    let mut stack = Vec::new();
    let front = src.below(4);
    for _ in 0..front {
        s.push(*src.pick(b"ysx"));
    }
    for c in open {
        s.push(c);
        match c {
            b'(' => stack.push(b')'),
            b'{' => {
                s.push(b'y');
                stack.push(b'}')
            }
            _ => (),
        }
    }
    s.push(b'i');
    while let Some(c) = stack.pop() {
        if c == b')' && src.chance(1, 8) {
            s.push(b'q');
        }
        s.push(c);
    }
    match src.below(4) {
        0 | 1 => {
            let want = if src.bool() { src.range(250, 260) } else { src.range(200, 700) } as usize;
            if src.bool() {
                while s.len() < want {
                    s.push(b'y');
                }
            } else {
                // any types, in front or behind
                let before = src.chance(1, 3);
                let mut more = Vec::new();
                let kinds: Vec<Ty> = (0..1 + src.usize(4)).map(|_| gen::ty(src, 2, &FREE)).collect();
                while s.len() + more.len() < want {
                    let room = want - s.len() - more.len();
                    match src.pick(&kinds).text() {
                        t if t.len() <= room => more.extend_from_slice(t.as_bytes()),
                        _ => more.push(b'u'),
                    }
                }
                if before {
                    more.append(&mut s);
                    s = more;
                } else {
                    s.append(&mut more);
                }
            }
        }
        2 => {
            // one single type of about the longest length
            s.drain(..front as usize);
            let want = src.range(252, 258) as usize;
            let inside = s.contains(&b'(');
            if !inside {
                let at = s.iter().take_while(|c| **c == b'a').count().min(src.below(40) as usize);
                s.insert(at, b'(');
                s.push(b')');
            }
            let last = s.iter().rposition(|c| *c == b')').unwrap_or(0);
            let n = want.saturating_sub(s.len());
            for _ in 0..n {
                s.insert(last, *src.pick(b"yyysv"));
            }
        }
        _ => (),
    }
    ctx.desc(|| String::from_utf8_lossy(&s).into_owned());
    ctx.hit(hash_bytes(1, &s));
    if compare_text(&s)? {
        ctx.label("within the limits");
    } else {
        ctx.label("beyond a limit");
    }
    Ok(())
}

/// Any type value, also those no text stands for.
fn wild_ty(src: &mut Src, depth: u32) -> Ty {
    let k = if depth == 0 { 0 } else { src.weighted(&[6, 3, 4, 2]) };
    match k {
        0 => gen::ty(src, 0, &FREE),
        1 => Ty::A(Box::new(wild_ty(src, depth - 1))),
        2 => {
            let n = src.below(4);
            Ty::R((0..n).map(|_| wild_ty(src, depth - 1)).collect())
        }
        _ => Ty::E(Box::new((wild_ty(src, depth - 1), wild_ty(src, depth - 1)))),
    }
}

/// Types to text: the text parses back to the types, or there is none.
fn printing(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut ts: Vec<Ty> = Vec::new();
    let n = 1 + src.below(3);
    for _ in 0..n {
        ts.push(match src.weighted(&[5, 2, 2, 1]) {
            0 => wild_ty(src, 4),
            1 => gen::ty(src, 4, &FREE),
            2 => {
                let mut t = wild_ty(src, 1);
                let k = src.range(28, 36);
                let f = src.below(4);
                for _ in 0..k {
                    t = match if f == 3 { src.below(3) } else { f } {
                        0 => Ty::A(Box::new(t)),
                        1 => Ty::R(vec![t]),
                        _ => Ty::E(Box::new((Ty::S, t))),
                    };
                }
                t
            }
            _ => {
                let k = if src.bool() { src.range(120, 260) } else { src.range(240, 700) } as usize;
                let mut l: Vec<Ty> = vec![gen::ty(src, 1, &FREE); k];
                for _ in 0..src.below(4) {
                    let i = src.usize(l.len());
                    l[i] = gen::ty(src, 1, &FREE);
                }
                if src.bool() {
                    ts.extend(l);
                    continue;
                }
                Ty::R(l)
            }
        });
    }
    let text = sig_text(&ts);
    ctx.desc(|| format!("{:?}", text));
    ctx.hit(hash_bytes(3, text.as_bytes()));
    let lib: Vec<Type> = ts.iter().map(|t| t.to_lib()).collect();
    let readable = parse_sig(text.as_bytes());
    let printed = Type::from_signature_to_string(&lib);
    match (&printed, &readable) {
        (Ok(p), Ok(w)) => {
            ensure!(*p == text, "types of {:?} printed as {:?}", text, p);
            ensure!(*w == ts, "reference parser disagrees");
            let back = Type::from_string_to_signature(p).map_err(|e| format!("{:?}: {:?}", p, e))?;
            ensure!(back == lib, "{:?} parsed back as {:?}", p, back);
            ctx.label("printed");
        }
        (Ok(p), Err(e)) => bail!("printed as {:?}, which does not parse ({})", p, e),
        (Err(e), Ok(_)) => bail!("signature {:?} could not be printed: {:?}", text, e),
        (Err(_), Err(_)) => ctx.label("refused"),
    }
    // the same for a signature value inside a message body
    let m = Message::new(
        Msg { le: true, mtype: 2, flags: 0, version: 1, serial: 1, h: Hdr { reply_serial: Some(1), ..Default::default() }, body: vec![] }
            .header_lib(None)?,
        vec![Value::Signature(lib.clone())],
    );
    match m.encode() {
        Ok(b) => {
            ensure!(readable.is_ok(), "signature value {:?} was encoded but cannot be parsed", text);
            let (d, _) = dec(&b).map_err(|e| format!("signature value {:?} does not decode: {:?}", text, e))?;
            ensure!(d.get_body() == [Value::Signature(lib)], "signature value {:?} decodes as {:?}", text, d.get_body());
        }
        Err(e) => ensure!(readable.is_err(), "signature value {:?} refused: {:?}", text, e),
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------
// C18

fn value_types(src: &mut Src, ctx: &mut Ctx) -> Res {
    let t = if src.chance(1, 8) { gen::deep_ty(src, &FREE) } else { gen::ty(src, 4, &FREE) };
    if t.text().len() > 255 {
        return Ok(());
    }
    let v = gen::val(src, &t, 0, &mut Budget(60), &FREE);
    let fds = [4, 9, 2];
    let lib = v.to_lib(&fds);
    ctx.desc(|| format!("{} : {}", show_val(&v), t.text()));
    if !t.is_basic() {
        ctx.hit(hash_bytes(1, format!("{:?}", v).as_bytes()));
    }
    let got = lib.get_type().map_err(|e| format!("{:?} has no type: {:?}", lib, e))?;
    ensure!(got == t.to_lib(), "{} has type {} but reports {}", show_val(&v), t.text(), got);
    ensure!(hash_of(&got) == hash_of(&t.to_lib()), "equal types hash differently");
    let o = Opts { free_dict: true, ..FREE };
    let v2 = {
        let t2 = gen::ty(src, 2, &o);
        gen::val(src, &t2, 0, &mut Budget(10), &o)
    };
    let mut body = vec![v, v2];
    if sig_text(&[t.clone(), body[1].ty()]).len() > 255 {
        body.pop();
    }
    let m = Msg {
        le: src.bool(), mtype: 4, flags: 0, version: 1, serial: 7,
        h: Hdr { path: Some("/".into()), interface: Some("a.b".into()), member: Some("m".into()), ..Default::default() },
        body,
    };
    let msg = m.to_lib(&fds)?;
    let want: Vec<Type> = m.sig().iter().map(|t| t.to_lib()).collect();
    ensure!(msg.get_signature().as_ref() == Ok(&want), "message signature {:?}, expected {:?}", msg.get_signature(), want);
    // the reference marshaller's bytes, decoded under that type
    let (body, list) = crate::wire::canonical_fds(&m.body, &fds);
    let m2 = Msg { body: body.clone(), ..m.clone() };
    let b = encode_raw(&m2.raw(&m2.canonical_order()), false).buf;
    let (d, _, _) = dec_fds(&b, &list).map_err(|e| format!("does not decode: {:?} ({})", e, hex(&b)))?;
    ensure!(d.get_signature().as_ref() == Ok(&want), "signature after decoding {:?}, expected {:?}", d.get_signature(), want);
    ensure!(
        body_from_lib(d.get_body()) == resolve(&m.body, &fds),
        "decoding the bytes under the type gives {:?}",
        d.get_body()
    );
    // and through the library's own encoder
    let (b, l) = msg.encode_with_fds().map_err(|e| format!("{:?}", e))?;
    let (d, _, _) = dec_fds(&b, &l).map_err(|e| format!("does not decode: {:?} ({})", e, hex(&b)))?;
    ensure!(d.get_signature().as_ref() == Ok(&want), "signature over the wire {:?}, expected {:?}", d.get_signature(), want);
    let (h, _) = d.split().map_err(|e| format!("{:?}", e))?;
    ensure!(h.has_signature(), "split header has no signature");
    Ok(())
}

/// Messages of any number of values: more than a signature on the wire can describe, too.
fn many_values(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = gen::len(src, 40, 3000);
    let mut pool = Vec::new();
    for _ in 0..1 + src.below(4) {
        let t = gen::ty(src, 1, &FREE);
        pool.push(gen::val(src, &t, 0, &mut Budget(4), &FREE));
    }
    let body: Vec<Val> = (0..n).map(|i| pool[(i * i + i / 7) % pool.len()].clone()).collect();
    ctx.desc(|| format!("{} values: {} ...", n, body.iter().take(3).map(show_val).collect::<Vec<_>>().join(" ")));
    let m = Msg {
        le: true, mtype: 4, flags: 0, version: 1, serial: 7,
        h: Hdr { path: Some("/".into()), interface: Some("a.b".into()), member: Some("m".into()), ..Default::default() },
        body,
    };
    let fds = [4, 9, 2];
    let msg = m.to_lib(&fds)?;
    let want: Vec<Type> = m.sig().iter().map(|t| t.to_lib()).collect();
    let got = msg.get_signature().map_err(|e| format!("{} values: {:?}", n, e))?;
    ensure!(got.len() == n, "signature of {} values has {} types", n, got.len());
    ensure!(got == want, "signature of {} values differs", n);
    ensure!(body_from_lib(msg.get_body()) == resolve(&m.body, &fds), "body of {} values differs", n);
    let s = Struct::try_from(msg.get_body().to_vec());
    ensure!(s.is_ok() == (n > 0), "a struct of {} values: {:?}", n, s.err());
    if let Ok(s) = s {
        ensure!(s.as_ref() == msg.get_body() || body_from_lib(s.as_ref()) == resolve(&m.body, &fds), "struct of {} values differs", n);
    }
    let (h, b) = msg.split().map_err(|e| format!("{:?}", e))?;
    ensure!(h.get_signature() == Some(&want[..]) || n == 0, "split header of {} values has another signature", n);
    ensure!(body_from_lib(&b) == resolve(&m.body, &fds), "split body of {} values differs", n);
    if n > 1 {
        ctx.hit(m.hash64());
    }
    Ok(())
}

/// A type that differs little from `t`.
fn near_ty(src: &mut Src, t: &Ty) -> Ty {
    match t {
        Ty::A(x) if src.chance(2, 3) => Ty::A(Box::new(near_ty(src, x))),
        Ty::R(xs) => {
            let mut xs = xs.clone();
            let i = src.usize(xs.len());
            match src.below(4) {
                0 => xs.push(Ty::Y),
                1 if xs.len() > 1 => {
                    xs.remove(i);
                }
                2 => xs.reverse(),
                _ => {
                    let n = near_ty(src, &xs[i]);
                    xs[i] = n;
                }
            }
            Ty::R(xs)
        }
        Ty::E(e) => match src.below(3) {
            0 => Ty::E(Box::new((near_ty(src, &e.0), e.1.clone()))),
            1 => Ty::E(Box::new((e.1.clone(), e.0.clone()))),
            _ => Ty::E(Box::new((e.0.clone(), near_ty(src, &e.1)))),
        },
        Ty::S => src.pick(&[Ty::O, Ty::G, Ty::V]).clone(),
        Ty::O => Ty::S,
        Ty::U => src.pick(&[Ty::I, Ty::B, Ty::H]).clone(),
        Ty::X => src.pick(&[Ty::T, Ty::D]).clone(),
        Ty::V => Ty::S,
        _ => gen::ty(src, 1, &FREE),
    }
}

fn arrays(src: &mut Src, ctx: &mut Ctx) -> Res {
    let t = gen::ty(src, 3, &FREE);
    let n = src.below(7) as usize;
    let mut xs: Vec<Val> = Vec::new();
    let bad = src.below(3);
    if src.chance(1, 40) {
        // a long array, at most one element of another type anywhere in it
        let x = gen::val(src, &t, 0, &mut Budget(4), &FREE);
        xs = vec![x; gen::len(src, 300, 1100)];
        if bad > 0 && !xs.is_empty() {
            let u = near_ty(src, &t);
            let i = src.usize(xs.len());
            xs[i] = gen::val(src, &u, 0, &mut Budget(4), &FREE);
        }
        ctx.label("long array");
    }
    for i in 0..n {
        let u = if bad > 0 && src.chance(1, 3) || bad == 2 && i + 1 == n { near_ty(src, &t) } else { t.clone() };
        xs.push(gen::val(src, &u, 0, &mut Budget(8), &FREE));
    }
    let fds = [4, 9, 2];
    let lib: Vec<Value> = xs.iter().map(|x| x.to_lib(&fds)).collect();
    ctx.desc(|| format!("array of {} from {:?}", t.text(), xs.iter().map(|x| x.ty().text()).collect::<Vec<_>>()));
    let others: Vec<Ty> = xs.iter().map(|x| x.ty()).filter(|u| *u != t).collect();
    ctx.hit(hash_bytes(2, format!("{:?}{:?}{}", t, &xs[..xs.len().min(12)], xs.len()).as_bytes()));
    match Array::new(lib.clone(), t.to_lib()) {
        Ok(a) => {
            ctx.label("created");
            ensure!(others.is_empty(), "array of {} created from elements of type {:?}", t.text(), others);
            ensure!(*a.get_type() == t.to_lib(), "array reports element type {}", a.get_type());
            ensure!(body_from_lib(a.as_ref()) == body_from_lib(&lib), "array elements changed: {:?}", a);
            let v = Value::Array(a.clone());
            ensure!(v.get_type() == Ok(Ty::A(Box::new(t.clone())).to_lib()), "array value reports type {:?}", v.get_type());
            let back: Vec<Value> = a.into();
            ensure!(body_from_lib(&back) == body_from_lib(&lib), "array gave back {:?}", back);
        }
        Err(ArrayError::TypeMismatch(want, got)) => {
            ctx.label("refused");
            ensure!(!others.is_empty(), "well-typed array of {} refused: expected {} got {}", t.text(), want, got);
            ensure!(want == t.to_lib() && others.contains(&Ty::from_lib(&got)), "mismatch names {} and {}", want, got);
        }
        Err(e) => bail!("array of {} refused: {:?}", t.text(), e),
    }
    match Struct::try_from(lib.clone()) {
        Ok(s) => {
            ensure!(!lib.is_empty(), "empty struct created");
            ensure!(body_from_lib(s.as_ref()) == body_from_lib(&lib), "struct elements changed: {:?}", s);
            let v = Value::Struct(s.clone());
            let want = Ty::R(xs.iter().map(|x| x.ty()).collect());
            ensure!(v.get_type() == Ok(want.to_lib()), "struct value reports type {:?}", v.get_type());
            let back: Vec<Value> = s.into();
            ensure!(body_from_lib(&back) == body_from_lib(&lib), "struct gave back {:?}", back);
        }
        Err(StructError::Empty) => ensure!(lib.is_empty(), "non-empty struct refused"),
    }
    Ok(())
}

fn alignments(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.enum_index(14);
    let t = if k < 13 { BASIC[k as usize].clone() } else { Ty::V };
    let more = [
        t.clone(),
        Ty::A(Box::new(t.clone())),
        Ty::R(vec![t.clone()]),
        Ty::E(Box::new((Ty::Y, t.clone()))),
        Ty::A(Box::new(Ty::R(vec![t.clone(), Ty::X]))),
        Ty::A(Box::new(Ty::A(Box::new(t.clone())))),
        gen::ty(src, 4, &FREE),
    ];
    ctx.desc(|| format!("alignment of {} and containers of it", t.text()));
    for t in more {
        ctx.evals += 1;
        ctx.hit(hash_bytes(4, t.text().as_bytes()));
        let a = t.to_lib().get_alignment();
        ensure!(a == t.align(), "alignment of {} is {}, specification says {}", t.text(), a, t.align());
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    const MODEL: &str = "the reference signature parser and alignment table of the harness follow the D-Bus specification";
    vec![
        Check {
            id: "C17",
            rule: "every text of up to seven characters over 'ya(){}vs', every byte in templates, generated and edited signatures, texts around the length and nesting limits, and arbitrary type trees (also ones no text stands for) compared with a reference parser and printer. Non-trivial: distinct texts (in the enumeration: those that are signatures).",
            assumptions: &[MODEL, "whether a dict entry stands directly in an array and has a basic key is not checked by the library and not part of the property"],
            stack: 16 * MB,
            subs: vec![
                sub("texts up to seven characters", 4681, 4681, texts_enum),
                sub("bytes in templates", 256, 256, bytes_enum),
                sub("texts", 1_800_000, 40_000_000, texts),
                sub("limits", 200_000, 5_000_000, texts_long),
                sub("printing", 500_000, 8_000_000, printing),
            ],
        },
        Check {
            id: "C18",
            rule: "generated values of any type: reported type, decoding of the reference bytes under that type, message signature before and after the wire; element lists with none or some elements of a different (often nearly equal) type for arrays and structs; alignment of every type. Non-trivial: distinct container values and element lists.",
            assumptions: &[MODEL],
            stack: 16 * MB,
            subs: vec![
                sub("alignments", 280, 14_000, alignments),
                sub("value types", 150_000, 6_000_000, value_types),
                sub("many values", 12_000, 400_000, many_values),
                sub("arrays and structs", 250_000, 10_000_000, arrays),
            ],
        },
    ]
}
