//! C09, C10: size and nesting limits.
use super::*;
use crate::gen::{self, Opts};
use crate::wire::*;
use dbus_message_parser::value::{Array, ObjectPath, Struct, Type, Value};
use std::convert::{TryFrom, TryInto};

fn base_msg(src: &mut Src) -> Msg {
    Msg {
        le: !src.bool(),
        mtype: 2,
        flags: 0,
        version: 1,
        serial: 1,
        h: Hdr { reply_serial: Some(1), ..Default::default() },
        body: vec![],
    }
}

// --------------------------------------------------------------------------------------------
// C09

/// Array value whose content takes exactly `size` bytes when it starts at an address that is a
/// multiple of eight; None when the layout cannot have that size.
pub fn array_of(kind: u64, size: usize) -> Option<Val> {
    let text = |n: usize| "t".repeat(n);
    match kind {
        // one string
        0 => Some(Val::A(Ty::S, vec![Val::S(text(size - 5))])),
        // three strings
        1 => {
            // 4 + 1003 + 1 = 1008, then 4 + 2 + 1 = 7 (+1 padding), then the rest
            let rest = size - 1008 - 8 - 5;
            Some(Val::A(Ty::S, vec![Val::S(text(1003)), Val::S(text(2)), Val::S(text(rest))]))
        }
        // path
        2 => Some(Val::A(Ty::O, vec![Val::O(format!("/{}", text(size - 6)))])),
        // struct (y s): 1 + 3 padding + 4 + n + 1
        3 => Some(Val::A(Ty::R(vec![Ty::Y, Ty::S]), vec![Val::R(vec![Val::Y(1), Val::S(text(size - 9))])])),
        // variant of string: 1 "s" nul = 3, 1 padding, 4 + n + 1
        4 => Some(Val::A(Ty::V, vec![Val::V(Box::new(Val::S(text(size - 9))))])),
        // dict entry {s y}: 4 + n + 1, then one byte
        5 => Some(Val::A(Ty::E(Box::new((Ty::S, Ty::Y))), vec![Val::E(Box::new((Val::S(text(size - 6)), Val::Y(9))))])),
        // array in an array: outer = 4 + inner
        _ => Some(Val::A(Ty::A(Box::new(Ty::S)), vec![Val::A(Ty::S, vec![Val::S(text(size - 9))])])),
    }
}

fn with_room<T>(f: impl FnOnce() -> T) -> T {
    // at most four cases that need hundreds of megabytes at a time
    use std::sync::{Condvar, Mutex};
    static N: Mutex<u32> = Mutex::new(0);
    static C: Condvar = Condvar::new();
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            *N.lock().unwrap() -= 1;
            C.notify_one();
        }
    }
    let mut n = N.lock().unwrap();
    while *n >= 5 {
        n = C.wait(n).unwrap();
    }
    *n += 1;
    drop(n);
    let _g = G;
    f()
}

fn same(a: &[u8], b: &[u8]) -> Res {
    ensure!(a.len() == b.len(), "{} bytes, expected {}", a.len(), b.len());
    ensure!(a == b, "bytes differ: {}", first_diff(a, b));
    Ok(())
}

/// Arrays around 64 MiB.
fn arrays(src: &mut Src, ctx: &mut Ctx) -> Res {
    with_room(|| {
        let mut m = base_msg(src);
        let k = src.enum_index(7 * 7);
        let kind = k % 7;
        let delta = [0i64, 1, -1, 2, 8, -8, 1000][(k / 7) as usize];
        let size = (MAX_ARRAY as i64 + delta) as usize;
        // the array header ends at a multiple of eight or not
        let lead = src.below(3);
        if lead == 1 {
            m.body.push(Val::Y(1));
        } else if lead == 2 {
            m.body.push(Val::U(7));
        }
        let mut v = array_of(kind, size).unwrap();
        let wrap = src.below(4);
        // inside a variant or a struct the limits are the same
        if wrap == 1 {
            v = Val::V(Box::new(v));
        } else if wrap == 2 {
            v = Val::R(vec![v]);
        }
        m.body.push(v);
        if src.bool() {
            m.body.push(Val::S("end".into()));
        }
        let ok = size <= MAX_ARRAY;
        ctx.desc(|| format!("array kind {} of {} bytes (limit {}), wrap {}, lead {}", kind, size, MAX_ARRAY, wrap, lead));
        ctx.hit(k * 100 + wrap * 10 + lead);
        ctx.label(if ok { "within the limit" } else { "beyond the limit" });
        let lib = m.to_lib(&[])?;
        let r = lib.encode();
        match (r, ok) {
            (Err(e), true) => bail!("array of {} bytes refused by the encoder: {:?}", size, e),
            (Ok(b), false) => bail!("array of {} bytes encoded ({} bytes)", size, b.len()),
            (Ok(b), true) => {
                let want = m.encode_fast().buf;
                same(&b, &want)?;
                let n = want.len();
                drop(want);
                let (d, used) = Message::decode(b.freeze()).map_err(|e| format!("array of {} bytes does not decode: {:?}", size, e))?;
                ensure!(used == n, "consumed {} of {}", used, n);
                ensure!(d.get_body() == lib.get_body(), "decoded array of {} bytes differs", size);
            }
            (Err(_), false) => {
                drop(lib);
                // the decoder sees the declared length
                let want = m.encode_fast().buf;
                let r = Message::decode(want.into());
                match r {
                    Err(DecodeError::ArrayTooBig(n)) if n as usize == size || kind == 6 => (),
                    r => bail!("declared array length {}: decoder gives {:?}", size, r.map(|x| x.1)),
                }
            }
        }
        Ok(())
    })
}

/// Header field arrays around 64 MiB.
fn header_arrays(src: &mut Src, ctx: &mut Ctx) -> Res {
    with_room(|| {
        let k = src.enum_index(7);
        let delta = [0i64, 1, -1, 2, 8, -8, 5000][k as usize];
        let mut m = base_msg(src);
        m.mtype = 1;
        m.h.member = Some("m".into());
        m.h.path = Some("/".into());
        // length of the header array with the shortest path
        let small = m.encode_fast();
        let h0 = get32(&small.buf, m.le, 12) as usize;
        // grow by multiples of 8 only changes the path field itself
        let grow = (MAX_ARRAY as i64 + delta) as usize - h0;
        let _ = h0;
        m.h.path = Some(format!("/{}", "p".repeat(grow)));
        let want = m.encode_fast().buf;
        let size = get32(&want, m.le, 12) as usize;
        let ok = size <= MAX_ARRAY;
        ctx.desc(|| format!("header field array of {} bytes (limit {})", size, MAX_ARRAY));
        ctx.hit(size as u64 * 2 + m.le as u64);
        ctx.label(if ok { "within the limit" } else { "beyond the limit" });
        let lib = m.to_lib(&[])?;
        match (lib.encode(), ok) {
            (Err(e), true) => bail!("header array of {} bytes refused: {:?}", size, e),
            (Ok(_), false) => bail!("header array of {} bytes encoded", size),
            (Ok(b), true) => {
                same(&b, &want)?;
                let (d, used) = Message::decode(b.freeze()).map_err(|e| format!("header array of {} bytes does not decode: {:?}", size, e))?;
                ensure!(used == want.len() && d.get_path() == lib.get_path(), "decoded header differs");
            }
            (Err(_), false) => match Message::decode(want.into()) {
                Err(DecodeError::ArrayTooBig(n)) if n as usize == size => (),
                r => bail!("declared header array length {}: decoder gives {:?}", size, r.map(|x| x.1)),
            },
        }
        Ok(())
    })
}

/// Messages around 128 MiB in total.
fn totals(src: &mut Src, ctx: &mut Ctx) -> Res {
    with_room(|| {
        let k = src.enum_index(8 * 3);
        let delta = [0i64, 1, -1, 2, 8, -8, 100_000, 40_000_000][(k % 8) as usize];
        let total = (MAX_MESSAGE as i64 + delta) as usize;
        let m = base_msg(src);
        // reply_serial + signature: 16 + 8 + .. computed on a small message of the same shape
        let shape = k / 8;
        // descriptors in front, some of them the same one
        let nfds = *src.pick(&[0usize, 0, 1, 2, 3]);
        let fds: &[i32] = &[5, 9, 5][..nfds];
        let fill = |n: usize| {
            let mut m = m.clone();
            m.body = (0..nfds).map(|i| Val::H(i as u32)).collect();
            m.body.extend(match shape {
                0 => vec![Val::S("s".repeat(n))],
                1 => vec![Val::S("a".repeat(60_000_003)), Val::R(vec![Val::S("s".repeat(n))])],
                _ => vec![
                    Val::A(Ty::S, vec![Val::S("a".repeat(60_000_000))]),
                    Val::V(Box::new(Val::S("s".repeat(n)))),
                ],
            });
            m
        };
        let b0 = after_wire(&fill(0), fds).0.encode_fast().buf.len();
        let m = fill(total - b0);
        let (w, list) = after_wire(&m, fds);
        ctx.desc(|| format!("message of {} bytes (limit {}), shape {}, {} descriptors", total, MAX_MESSAGE, shape, nfds));
        ctx.hit((k * 2 + m.le as u64) * 4 + nfds as u64);
        let ok = total <= MAX_MESSAGE;
        ctx.label(if ok { "within the limit" } else { "beyond the limit" });
        let lib = m.to_lib(fds)?;
        match (lib.encode(), ok) {
            (Err(e), true) => bail!("message of {} bytes refused: {:?}", total, e),
            (Ok(b), false) => bail!("message of {} bytes encoded as {} bytes", total, b.len()),
            (Err(_), false) => {
                let r = lib.encode_with_fds();
                ensure!(r.is_err(), "message of {} bytes encoded with descriptors", total);
            }
            (Ok(b), true) => {
                ensure!(b.len() == total, "{} bytes, expected {}", b.len(), total);
                let mut want = w.encode_fast().buf;
                same(&b, &want)?;
                drop(b);
                // bytes after the message, also beyond 128 MiB, do not matter
                let extra = *src.pick(&[0usize, 1, 9, 4096]);
                want.resize(total + extra, 0x5a);
                let (d, used, _) = Message::decode_with_fds(want.into(), &list)
                    .map_err(|e| format!("message of {} bytes with {} more behind it does not decode: {:?}", total, extra, e))?;
                ensure!(used == total, "consumed {} of {}", used, total);
                ensure!(d.get_body() == lib.get_body(), "decoded message of {} bytes differs", total);
            }
        }
        Ok(())
    })
}

/// A declared array length beyond 64 MiB is too big whatever follows.
fn declared(src: &mut Src, ctx: &mut Ctx) -> Res {
    let o = Opts { free_dict: false, fds: 2, nul: false };
    let mut m = gen::small_msg(src, &o);
    let t = gen::ty(src, 2, &o);
    let n = src.below(3);
    let mut xs = Vec::new();
    for _ in 0..n {
        xs.push(gen::val(src, &t, 0, &mut gen::Budget(4), &o));
    }
    let a = Val::A(t, xs);
    m.body.push(match src.below(4) {
        0 => Val::R(vec![a]),
        1 if a.variant_depth() < 4 => Val::V(Box::new(a)),
        _ => a,
    });
    let e = m.encode();
    let lens: Vec<usize> = e.sites.iter().filter_map(|s| if let Site::ArrLen { off, .. } = s { Some(*off) } else { None }).collect();
    let off = if src.chance(1, 5) { 12 } else { *src.pick(&lens) };
    let len = match src.below(4) {
        0 => MAX_ARRAY as u32 + 1,
        1 => u32::MAX - src.below(9) as u32,
        2 => MAX_ARRAY as u32 + 1 + src.below(64) as u32,
        _ => MAX_ARRAY as u32 + 1 + src.below((u32::MAX - MAX_ARRAY as u32 - 1) as u64) as u32,
    };
    let mut b = e.buf.clone();
    put32(&mut b, m.le, off, len);
    // what follows: the rest of the message, part of it, nothing, or noise
    match src.below(4) {
        0 => b.truncate(off + 4),
        1 => {
            let k = off + 4 + src.usize(b.len() - off - 3);
            b.truncate(k)
        }
        2 => {
            let k = src.usize(40);
            b.truncate(off + 4);
            for _ in 0..k {
                b.push(src.below(256) as u8);
            }
        }
        _ => (),
    }
    ctx.desc(|| format!("array length {} at byte {} of {} ({})", len, off, b.len(), m.show()));
    ctx.hit(hash_bytes(1, &b));
    match dec_fds(&b, &[3, 4]) {
        Err(DecodeError::ArrayTooBig(n)) if n == len => Ok(()),
        r => bail!("array length {} at byte {}: {:?} ({})", len, off, r.map(|x| x.1), hex(&b)),
    }
}

/// A declared length up to the limit is never "too big".
fn declared_ok(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = base_msg(src);
    let t = *src.pick(&["y", "s", "x", "(yv)", "v", "as", "{sv}", "o"]);
    let ty = parse_sig(t.as_bytes()).unwrap()[0].clone();
    m.body = vec![Val::A(ty, vec![])];
    let e = m.encode();
    let off = e.sites.iter().rev().find_map(|s| if let Site::ArrLen { off, .. } = s { Some(*off) } else { None }).unwrap();
    let len = *src.pick(&[MAX_ARRAY as u32, MAX_ARRAY as u32 - 1, MAX_ARRAY as u32 / 2 + 1, 1 << 16]);
    let mut b = e.buf;
    put32(&mut b, m.le, off, len);
    let k = src.usize(30);
    b.extend(std::iter::repeat(0).take(k));
    ctx.desc(|| format!("declared array length {} of {} with {} bytes behind it", len, t, k));
    ctx.hit(len as u64 * 100 + k as u64);
    match dec(&b) {
        Ok(_) => bail!("array of {} bytes decoded from {} bytes", len, b.len()),
        Err(DecodeError::ArrayTooBig(n)) => bail!("array length {} is too big? ({})", n, len),
        Err(_) => Ok(()),
    }
}

// --------------------------------------------------------------------------------------------
// C10

/// Library value, or None when some constructor refuses.
fn try_lib(v: &Val) -> Option<Value> {
    Some(match v {
        Val::A(t, xs) => {
            let xs: Option<Vec<Value>> = xs.iter().map(try_lib).collect();
            Value::Array(Array::new(xs?, t.to_lib()).ok()?)
        }
        Val::R(xs) => {
            let xs: Option<Vec<Value>> = xs.iter().map(try_lib).collect();
            Value::Struct(Struct::try_from(xs?).ok()?)
        }
        Val::E(e) => Value::DictEntry(Box::new((try_lib(&e.0)?, try_lib(&e.1)?))),
        Val::V(x) => Value::Variant(Box::new(try_lib(x)?)),
        v => v.to_lib(&[]),
    })
}

fn lib_msg(m: &Msg) -> Result<Option<Message>, String> {
    let h = m.header_lib(None)?;
    let mut b = Vec::new();
    for v in &m.body {
        match try_lib(v) {
            Some(v) => b.push(v),
            None => return Ok(None),
        }
    }
    Ok(Some(Message::new(h, b)))
}

/// Nested value of the type: arrays hold one element each or (with `empty`) are empty.
fn value_of(t: &Ty, empty: bool) -> Val {
    match t {
        Ty::A(t) => Val::A((**t).clone(), if empty { vec![] } else { vec![value_of(t, empty)] }),
        Ty::R(ts) => Val::R(ts.iter().map(|t| value_of(t, empty)).collect()),
        Ty::E(e) => Val::E(Box::new((value_of(&e.0, empty), value_of(&e.1, empty)))),
        Ty::V => Val::V(Box::new(Val::Y(3))),
        Ty::S => Val::S("x".into()),
        Ty::U => Val::U(5),
        Ty::X => Val::X(-1),
        _ => Val::Y(7),
    }
}

fn within(ts: &[Ty]) -> bool {
    sig_text(ts).len() <= 255
        && ts.iter().all(|t| {
            let d = t.depths();
            d.0 <= 32 && d.1 <= 32 && d.2 <= 32
        })
}

/// A body with these values: every way in and out agrees on whether it is allowed.
fn everywhere(m: &Msg, ok: bool, ctx: &mut Ctx) -> Res {
    let what = m.sig();
    let text = sig_text(&what);
    ctx.evals += 1;
    // encoder
    match lib_msg(m)? {
        None => ensure!(!ok, "constructor refused a value within the limits: {:?}", text),
        Some(lib) => match (lib.encode(), ok) {
            (Ok(b), true) => {
                same(&b, &m.encode_fast().buf)?;
            }
            (Err(_), false) => (),
            (Err(e), true) => bail!("body of signature {:?} (within the limits) refused: {:?}", text, e),
            (Ok(b), false) => bail!("body beyond the limits was encoded: {:?} ({})", text, hex(&b)),
        },
    }
    // decoder (a signature of more than 255 bytes has no wire form)
    let mut long = text.len() > 255;
    for v in &m.body {
        v.each(&mut |v| match v {
            Val::V(x) => long |= x.ty().text().len() > 255,
            Val::G(ts) => long |= sig_text(ts).len() > 255,
            _ => (),
        });
    }
    if long {
        return Ok(());
    }
    let b = m.encode_fast().buf;
    match (dec(&b), ok) {
        (Ok((d, used)), true) => {
            ensure!(used == b.len(), "consumed {} of {}", used, b.len());
            check_message(&d, m, &m.body)
        }
        (Err(_), false) => Ok(()),
        (Err(e), true) => bail!("body of signature {:?} (within the limits) does not decode: {:?} ({})", text, e, hex(&b)),
        (Ok(_), false) => bail!("body beyond the limits decodes: {:?} ({})", text, hex(&b)),
    }
}

/// A type made of `a`, `r`, `d` nested arrays, structs and dict entries in random order.
fn tower(src: &mut Src, a: usize, r: usize, d: usize) -> Ty {
    let mut kinds: Vec<u8> = Vec::new();
    kinds.extend(std::iter::repeat(0).take(a));
    kinds.extend(std::iter::repeat(1).take(r));
    kinds.extend(std::iter::repeat(2).take(d));
    if src.bool() {
        src.shuffle(&mut kinds);
    }
    let mut t = src.pick(&[Ty::Y, Ty::S, Ty::X, Ty::V]).clone();
    for k in kinds {
        t = match k {
            0 => Ty::A(Box::new(t)),
            1 => {
                if src.chance(1, 10) {
                    Ty::R(vec![Ty::Y, t])
                } else {
                    Ty::R(vec![t])
                }
            }
            _ => {
                if src.chance(1, 6) {
                    Ty::E(Box::new((t, Ty::Y)))
                } else {
                    Ty::E(Box::new((Ty::Y, t)))
                }
            }
        };
    }
    t
}

fn type_everywhere(t: &Ty, src: &mut Src, ctx: &mut Ctx) -> Res {
    let text = t.text();
    let ok = within(std::slice::from_ref(t));
    // parsing
    ctx.evals += 3;
    ensure!(parse_sig(text.as_bytes()).is_ok() == ok, "harness: parser and limits disagree on {:?}", text);
    let p = Type::from_string_to_signature(&text);
    ensure!(p.is_ok() == ok, "parsing {:?} (within the limits: {}): {:?}", text, ok, p);
    let p = Type::try_from(text.as_str());
    ensure!(p.is_ok() == ok, "parsing the single type {:?} (within the limits: {}): {:?}", text, ok, p);
    // printing
    let p = Type::from_signature_to_string(&[t.to_lib()]);
    ensure!(p.is_ok() == ok, "printing {:?} (within the limits: {}): {:?}", text, ok, p);
    let mut m = base_msg(src);
    let empty = src.bool();
    let v = value_of(t, empty);
    // body, variant, variant within deep containers, signature value, array of signatures
    m.body = vec![v.clone()];
    everywhere(&m, ok, ctx)?;
    m.body = vec![Val::Y(1), Val::V(Box::new(v.clone()))];
    everywhere(&m, ok, ctx)?;
    let mut w = Val::V(Box::new(v.clone()));
    let k = src.range(28, 32);
    let style = src.below(3);
    for _ in 0..k {
        w = match style {
            0 => Val::A(w.ty(), vec![w]),
            1 => Val::R(vec![w]),
            _ => Val::A(Ty::E(Box::new((Ty::Y, w.ty()))), vec![Val::E(Box::new((Val::Y(1), w)))]),
        };
    }
    m.body = vec![w];
    everywhere(&m, ok, ctx)?;
    m.body = vec![Val::G(vec![t.clone()])];
    everywhere(&m, ok, ctx)?;
    m.body = vec![Val::A(Ty::G, vec![Val::G(vec![]), Val::G(vec![Ty::Y, t.clone()])])];
    everywhere(&m, within(&[Ty::Y, t.clone()]), ctx)?;
    // empty array of the type: only the type is there
    m.body = vec![Val::A(t.clone(), vec![])];
    everywhere(&m, within(&[Ty::A(Box::new(t.clone()))]), ctx)?;
    Ok(())
}

/// Nesting depths 29 to 36 of each kind.
fn nesting_enum(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.enum_index(8 * 3);
    let n = 29 + (k / 3) as usize;
    let t = match k % 3 {
        0 => tower(src, n, 0, 0),
        1 => tower(src, 0, n, 0),
        _ => tower(src, 0, 0, n),
    };
    ctx.desc(|| t.text());
    ctx.hit(hash_bytes(1, t.text().as_bytes()));
    ctx.label(if n <= 32 { "within" } else { "beyond" });
    // the type of a value that is nested by itself (an array states the type of its elements)
    if k % 3 != 0 {
        for inner in [Val::Y(1), Val::S("x".into()), Val::V(Box::new(Val::Y(1)))] {
            let mut v = inner;
            for _ in 0..n {
                v = if k % 3 == 1 {
                    Val::R(if src.bool() { vec![v] } else { vec![Val::Y(0), v] })
                } else if src.bool() {
                    Val::E(Box::new((Val::Y(0), v)))
                } else {
                    Val::E(Box::new((v, Val::Y(0))))
                };
            }
            if let Some(x) = try_lib(&v) {
                ctx.evals += 1;
                ensure!(
                    x.get_type().is_ok() == (n <= 32),
                    "type of a value with {} containers in one another: {:?}", n, x.get_type()
                );
                let m = Message::method_call(
                    "a.b".try_into().unwrap(), "/".try_into().unwrap(),
                    "a.b".try_into().unwrap(), "M".try_into().unwrap(),
                );
                let mut m = m;
                m.add_value(x);
                ensure!(
                    m.get_signature().is_ok() == (n <= 32),
                    "signature of a body with {} containers in one another: {:?}", n, m.get_signature()
                );
            }
        }
    }
    type_everywhere(&t, src, ctx)
}

fn nesting(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut n = [0usize; 3];
    for x in n.iter_mut() {
        *x = match src.below(3) {
            0 => src.below(4) as usize,
            1 => src.range(30, 34) as usize,
            _ => src.below(33) as usize,
        };
    }
    let t = tower(src, n[0], n[1], n[2]);
    ctx.desc(|| t.text());
    ctx.hit(hash_bytes(1, t.text().as_bytes()));
    ctx.label(if within(std::slice::from_ref(&t)) { "within" } else { "beyond" });
    type_everywhere(&t, src, ctx)
}

/// Signatures of 250 to 260 characters.
fn lengths(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = if src.chance(2, 3) { src.range(250, 260) } else { src.range(220, 700) } as usize;
    let c = src.pick(&[Ty::Y, Ty::S, Ty::V, Ty::X]).clone();
    let mut m = base_msg(src);
    ctx.hit(n as u64 * 10 + c.align() as u64);
    ctx.desc(|| format!("signatures of {} characters, {}", n, c.text()));
    ctx.label(if n <= 255 { "within" } else { "beyond" });
    let st = Ty::R(vec![c.clone(); n - 2]);
    type_everywhere(&st, src, ctx)?;
    let at = Ty::A(Box::new(Ty::R(vec![c.clone(); n - 3])));
    type_everywhere(&at, src, ctx)?;
    let et = Ty::A(Box::new(Ty::E(Box::new((Ty::S, Ty::R(vec![c.clone(); n - 6]))))));
    type_everywhere(&et, src, ctx)?;
    // the whole body
    let many = vec![value_of(&c, false); n];
    m.body = many.clone();
    everywhere(&m, n <= 255, ctx)?;
    // split over several values
    let k = src.range(1, 200) as usize;
    m.body = vec![Val::R(many[..k].to_vec())];
    m.body.extend(many[..n - k - 2].iter().cloned());
    everywhere(&m, n <= 255, ctx)?;
    // a signature value
    m.body = vec![Val::G(vec![c.clone(); n])];
    everywhere(&m, n <= 255, ctx)?;
    // printing a list
    let p = Type::from_signature_to_string(&vec![c.to_lib(); n]);
    ensure!(p.is_ok() == (n <= 255), "printing {} types: {:?}", n, p.is_ok());
    for last in [Ty::Y, Ty::B, Ty::N, Ty::Q, Ty::I, Ty::U, Ty::X, Ty::T, Ty::D, Ty::S, Ty::O, Ty::G, Ty::H, Ty::V] {
        let mut l = vec![c.clone(); n - 1];
        l.push(last.clone());
        ctx.evals += 1;
        let p = Type::from_signature_to_string(&l.iter().map(|t| t.to_lib()).collect::<Vec<_>>());
        ensure!(p.is_ok() == (n <= 255), "printing {} types, the last one {}: {:?}", n, last.text(), p.is_ok());
        let v = Value::Signature(l.iter().map(|t| t.to_lib()).collect());
        let mut x = m.to_lib(&[])?;
        x.add_value(v);
        ensure!(x.encode().is_ok() == (n <= 255), "encoding a signature of {} types, the last one {}: {:?}", n, last.text(), x.encode().is_ok());
        let v = value_of(&last, false);
        m.body = many[..n - 1].to_vec();
        m.body.push(v);
        let x = m.to_lib(&[1, 2, 3])?;
        ensure!(x.encode().is_ok() == (n <= 255), "encoding {} values, the last one {}: {:?}", n, last.text(), x.encode().is_ok());
        m.body.clear();
    }
    let t = c.text().repeat(n);
    let p = Type::from_string_to_signature(&t);
    ensure!(p.is_ok() == (n <= 255), "parsing {} types: {:?}", n, p.is_ok());
    Ok(())
}

/// Variants up to four deep decode, a fifth level does not.
fn variants(src: &mut Src, ctx: &mut Ctx) -> Res {
    let depth = src.range(1, 8) as usize;
    let mut v = gen::val(src, &Ty::U, 0, &mut gen::Budget(1), &gen::NOFD);
    let mut inner = 0;
    // whether a dict key with a variant in it is fine is not said here: it must not hide depth
    let mut in_key = false;
    for _ in 0..depth {
        // containers between the variants do not matter
        let k = src.below(3);
        for _ in 0..k {
            v = match src.below(8) {
                6 => Val::R(vec![v]),
                7 => Val::A(Ty::R(vec![v.ty()]), vec![Val::R(vec![v])]),
                4 if src.bool() => {
                    in_key = true;
                    Val::A(Ty::E(Box::new((v.ty(), Ty::Y))), vec![Val::E(Box::new((v, Val::Y(3))))])
                }
                5 => Val::R(vec![Val::Y(1), v, Val::Y(2)]),
                0 => Val::R(vec![Val::Y(1), v]),
                1 => {
                    // siblings: as deep as the main line or flatter
                    let extra = match &v {
                        Val::V(_) if src.bool() => vec![Val::V(Box::new(Val::S("flat".into())))],
                        _ => vec![],
                    };
                    let mut xs = vec![v.clone()];
                    xs.extend(extra);
                    let last = v.clone();
                    let t = v.ty();
                    if src.bool() {
                        xs.push(last);
                    }
                    Val::A(t, xs)
                }
                2 => Val::A(Ty::E(Box::new((Ty::S, v.ty()))), vec![Val::E(Box::new((Val::S("k".into()), v)))]),
                _ => Val::R(vec![v, Val::S("t".into())]),
            };
        }
        if v.ty().text().len() > 200 {
            return Ok(());
        }
        inner += 1;
        v = Val::V(Box::new(v));
    }
    let _ = inner;
    let mut m = base_msg(src);
    if src.bool() {
        m.body.push(Val::V(Box::new(Val::V(Box::new(Val::V(Box::new(Val::V(Box::new(Val::Y(1))))))))));
    }
    match src.below(3) {
        0 => m.body.push(Val::R(vec![v])),
        1 => m.body.push(Val::A(v.ty(), vec![v])),
        _ => m.body.push(v),
    }
    if src.bool() {
        m.body.push(Val::V(Box::new(Val::S("x".into()))));
    }
    let d = m.body.iter().map(|v| v.variant_depth()).max().unwrap();
    ctx.desc(|| format!("variant depth {}: {}", d, m.show()));
    ctx.hit(m.hash64());
    ctx.label(match d {
        0..=3 => "depth up to 3",
        4 => "depth 4",
        5 => "depth 5",
        _ => "depth 6 and more",
    });
    let b = m.encode_fast().buf;
    match dec(&b) {
        Ok((got, used)) => {
            ensure!(d <= 4, "variants nested {} deep decode", d);
            ensure!(used == b.len(), "consumed {} of {}", used, b.len());
            check_message(&got, &m, &m.body)
        }
        Err(_) if in_key => Ok(()),
        Err(e) => {
            ensure!(d > 4, "variants nested {} deep do not decode: {:?} ({})", d, e, hex(&b));
            ensure!(e == DecodeError::VariantDepth(5), "variants nested {} deep: error {:?}", d, e);
            Ok(())
        }
    }
}

/// The encoder never emits a signature that does not parse, whatever types it is given.
fn odd_types(src: &mut Src, ctx: &mut Ctx) -> Res {
    fn odd(src: &mut Src, depth: u32) -> Ty {
        match if depth == 0 { 0 } else { src.weighted(&[3, 3, 4, 3]) } {
            0 => {
                if src.bool() {
                    Ty::R(vec![])
                } else {
                    gen::ty(src, 0, &gen::NOFD)
                }
            }
            1 => Ty::A(Box::new(odd(src, depth - 1))),
            2 => {
                let n = src.below(3);
                Ty::R((0..n).map(|_| odd(src, depth - 1)).collect())
            }
            _ => Ty::E(Box::new((odd(src, depth - 1), odd(src, depth - 1)))),
        }
    }
    let t = odd(src, 3);
    let text = t.text();
    let ok = parse_sig(text.as_bytes()).is_ok();
    ctx.desc(|| format!("type {:?}", text));
    ctx.hit(hash_bytes(1, text.as_bytes()));
    ctx.label(if ok { "has a signature" } else { "has no signature" });
    let p = Type::from_signature_to_string(&[t.to_lib()]);
    ensure!(p.is_ok() == ok, "printing {:?}: {:?}", text, p);
    let mut m = base_msg(src);
    for body in [
        vec![Val::A(t.clone(), vec![])],
        vec![Val::V(Box::new(Val::A(t.clone(), vec![])))],
        vec![Val::G(vec![t.clone()])],
        vec![Val::R(vec![Val::A(t.clone(), vec![]), Val::Y(1)])],
        vec![Val::A(Ty::A(Box::new(t.clone())), vec![Val::A(t.clone(), vec![])])],
        vec![Val::Y(1), Val::V(Box::new(Val::G(vec![Ty::Y, t.clone()])))],
    ] {
        m.body = body;
        everywhere(&m, ok, ctx)?;
    }
    // and in the header
    let h = m.header_lib(Some(&[t.clone()]));
    if let Ok(h) = h {
        m.body = vec![Val::Y(1)];
        let b = Message::new(h, vec![Value::Byte(1)]).encode().map_err(|e| format!("{:?}", e))?;
        same(&b, &m.encode_fast().buf)?;
    }
    Ok(())
}

fn paths_have_no_limit(src: &mut Src, ctx: &mut Ctx) -> Res {
    // strings and paths are limited by the message only
    let n = *src.pick(&[65_535usize, 65_536, 1 << 20, (1 << 20) + 3, 5_000_000]);
    let mut m = base_msg(src);
    m.body = vec![Val::O(format!("/{}", "p".repeat(n))), Val::S("s".repeat(n)), Val::A(Ty::Y, vec![Val::Y(3); 2000])];
    ctx.desc(|| format!("path and string of {} bytes", n));
    ctx.hit(n as u64);
    ensure!(ObjectPath::try_from(format!("/{}", "p".repeat(n))).is_ok(), "long path refused");
    everywhere(&m, true, ctx)
}

pub fn checks() -> Vec<Check> {
    const MODEL: &str = "the reference marshaller and the limits of the D-Bus specification as restated by the harness";
    vec![
        Check {
            id: "C09",
            rule: "arrays (seven element layouts, bare, in variants, in structs, at different alignments), header field arrays and whole messages whose size is at, one or more bytes below and above the limit: encoder verdict and bytes, decoder verdict; declared array lengths anywhere in a message from 64 MiB + 1 to 2^32 - 1 followed by any data. Non-trivial: distinct size/layout combinations and damaged messages.",
            assumptions: &[MODEL],
            stack: 16 * MB,
            subs: vec![
                sub("arrays", 49, 980, arrays),
                sub("header arrays", 14, 280, header_arrays),
                sub("totals", 24, 480, totals),
                sub("declared lengths", 150_000, 6_000_000, declared),
                sub("declared lengths within the limit", 5_000, 200_000, declared_ok),
                sub("no other limit", 16, 320, paths_have_no_limit),
            ],
        },
        Check {
            id: "C10",
            rule: "types nested 29 to 36 deep in each and in every mixture of containers, signatures of 250 to 260 characters, and types no text stands for, each parsed, printed, encoded and decoded as body, variant content (also inside deep containers), signature value and empty-array element; variants one to eight deep with containers between and beside them. Non-trivial: distinct types and messages.",
            assumptions: &[MODEL],
            stack: 16 * MB,
            subs: vec![
                sub("nesting of one kind", 24 * 8, 24 * 100, nesting_enum),
                sub("nesting", 60_000, 1_000_000, nesting),
                sub("signature lengths", 2_000, 50_000, lengths),
                sub("variants", 200_000, 4_000_000, variants),
                sub("types without text", 100_000, 1_500_000, odd_types),
            ],
        },
    ]
}
