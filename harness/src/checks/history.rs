//! C24: messages expose exactly what was put into them.
use super::*;
use crate::gen::{self, Budget, Opts};
use dbus_message_parser::message::MessageHeader;
use dbus_message_parser::value::{Bus, Interface, Member, ObjectPath, Type};
use std::convert::TryFrom;

const O: Opts = Opts { free_dict: true, fds: 3, nul: true };
const FDS: [i32; 3] = [6, 3, 19];

#[derive(Clone)]
struct State {
    m: Msg,
    /// Signature the header object carries; outer None: not specified (after decoding).
    sig: Option<Option<Vec<Ty>>>,
}

macro_rules! check_fields {
    ($x:expr, $h:expr, $on:expr) => {{
        let x = $x;
        let h: &Hdr = $h;
        macro_rules! one {
            ($get:ident, $has:ident, $f:ident) => {
                let g = x.$get().map(|v| v.to_string());
                let w = h.$f.as_ref().map(|v| v.to_string());
                ensure!(g == w, "{}: {} is {:?}, expected {:?}", $on, stringify!($get), g, w);
                ensure!(x.$has() == w.is_some(), "{}: {} is {}", $on, stringify!($has), x.$has());
            };
        }
        one!(get_path, has_path, path);
        one!(get_interface, has_interface, interface);
        one!(get_member, has_member, member);
        one!(get_error_name, has_error_name, error_name);
        one!(get_reply_serial, has_reply_serial, reply_serial);
        one!(get_destination, has_destination, destination);
        one!(get_sender, has_sender, sender);
        one!(get_unix_fds, has_unix_fds, unix_fds);
    }};
}

fn check_header_obj(h: &MessageHeader, s: &State, sig: &Option<Option<Vec<Ty>>>, on: &str) -> Res {
    check_fields!(h, &s.m.h, on);
    ensure!(h.get_serial() == s.m.serial, "{}: serial {} expected {}", on, h.get_serial(), s.m.serial);
    ensure!(mtype_num(h.get_type()) == s.m.mtype, "{}: type {:?}", on, h.get_type());
    if let Some(sig) = sig {
        let got: Option<Vec<Ty>> = h.get_signature().map(|s| s.iter().map(Ty::from_lib).collect());
        ensure!(got == *sig, "{}: header signature {:?}, expected {:?}", on, got, sig);
        ensure!(h.has_signature() == sig.is_some(), "{}: has_signature {}", on, h.has_signature());
    }
    Ok(())
}

fn check_state(x: &Message, s: &State) -> Res {
    check_fields!(x, &s.m.h, "message");
    ensure!(x.get_serial() == s.m.serial, "serial {} expected {}", x.get_serial(), s.m.serial);
    ensure!(mtype_num(x.get_type()) == s.m.mtype, "type {:?}", x.get_type());
    let body = resolve(&s.m.body, &FDS);
    let got = body_from_lib(x.get_body());
    ensure!(
        got == body,
        "body is {:?}, expected {:?}",
        got.iter().map(show_val).collect::<Vec<_>>(),
        body.iter().map(show_val).collect::<Vec<_>>()
    );
    let want: Vec<Type> = s.m.sig().iter().map(|t| t.to_lib()).collect();
    ensure!(x.get_signature() == Ok(want), "signature {:?}, expected {:?}", x.get_signature(), sig_text(&s.m.sig()));
    if let Some(sig) = &s.sig {
        ensure!(x.has_signature() == sig.is_some(), "has_signature {}", x.has_signature());
    }
    Ok(())
}

/// Byte order, flags, version and body are only visible on the wire.
fn check_wire(x: &Message, s: &State) -> Res {
    if sig_text(&s.m.sig()).len() > 255 {
        return Ok(());
    }
    let (b, l) = x.encode_with_fds().map_err(|e| format!("does not encode: {:?}", e))?;
    let (want, _) = after_wire(&s.m, &FDS);
    let (d, _, _) = dec_fds(&b, &l).map_err(|e| format!("does not decode: {:?}", e))?;
    check_message(&d, &want, &resolve(&s.m.body, &FDS))
}

fn split_state(x: Message, s: &State) -> Result<(MessageHeader, Vec<dbus_message_parser::value::Value>, State), String> {
    let before = resolve(&s.m.body, &FDS);
    let (h, body) = x.split().map_err(|e| format!("split failed: {:?}", e))?;
    ensure!(body_from_lib(&body) == before, "split gave another body: {:?}", body);
    let sig = if s.m.body.is_empty() { s.sig.clone() } else { Some(Some(s.m.sig())) };
    check_header_obj(&h, s, &sig, "split header")?;
    let copy = h.clone();
    ensure!(copy == h, "cloned header differs");
    Ok((h, body, State { m: s.m.clone(), sig }))
}

fn value(src: &mut Src) -> Val {
    let t = gen::ty(src, 2, &O);
    gen::val(src, &t, 0, &mut Budget(6), &O)
}

fn fresh(src: &mut Src, ctx: &mut Ctx) -> Result<(Message, State), String> {
    let kind = src.below(8);
    fresh_of(src, ctx, kind)
}

/// Every helper constructor with any arguments.
fn constructors(src: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = 3 + src.below(5);
    let (x, s) = fresh_of(src, ctx, kind)?;
    ctx.desc(|| format!("constructor {}: {}", kind, s.m.show()));
    ctx.hit(s.m.hash64());
    check_state(&x, &s)?;
    if src.chance(1, 8) {
        check_wire(&x, &s)?;
    }
    Ok(())
}

fn fresh_of(src: &mut Src, ctx: &mut Ctx, kind: u64) -> Result<(Message, State), String> {
    fn n<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
        r.map_err(|e| format!("valid name refused: {:?}", e))
    }
    if kind <= 1 {
        ctx.label("Message::new");
        let m = gen::small_msg(src, &O);
        let sig = match src.below(3) {
            0 => Some(gen::signature(src, &O)),
            1 => None,
            _ => Some(m.sig()),
        };
        let h = m.header_lib(sig.as_deref())?;
        check_header_obj(&h, &State { m: m.clone(), sig: None }, &Some(sig.clone()), "new header")?;
        let x = Message::new(h, m.body.iter().map(|v| v.to_lib(&FDS)).collect());
        return Ok((x, State { m, sig: Some(sig) }));
    }
    if kind == 2 {
        ctx.label("decoded");
        let m = gen::small_msg(src, &O);
        let (w, l) = after_wire(&m, &FDS);
        let order = gen::order(src, &w);
        let b = crate::wire::encode_raw(&w.raw(&order), false).buf;
        let (x, _, _) = dec_fds(&b, &l).map_err(|e| format!("does not decode: {:?} ({})", e, hex(&b)))?;
        // the body keeps the indices of the original table
        return Ok((x, State { m: Msg { h: w.h, ..m }, sig: None }));
    }
    let dest = gen::bus(src);
    let path = gen::path(src);
    let interface = gen::interface(src);
    let member = gen::member(src);
    let prop = gen::string(src);
    let d = || n(Bus::try_from(dest.as_str()));
    let p = || n(ObjectPath::try_from(path.as_str()));
    let i = || n(Interface::try_from(interface.as_str()));
    let mut m = Msg {
        le: true,
        mtype: 1,
        flags: 0,
        version: 1,
        serial: 0,
        h: Hdr { path: Some(path.clone()), destination: Some(dest.clone()), ..Default::default() },
        body: vec![],
    };
    let props = |m: &mut Msg, member: &str| {
        m.h.interface = Some("org.freedesktop.DBus.Properties".into());
        m.h.member = Some(member.into());
    };
    let x = match kind {
        3 => {
            ctx.label("method_call");
            m.h.interface = Some(interface.clone());
            m.h.member = Some(member.clone());
            Message::method_call(d()?, p()?, i()?, n(Member::try_from(member.as_str()))?)
        }
        4 => {
            ctx.label("signal");
            m.mtype = 4;
            m.flags = 1;
            m.h.destination = None;
            m.h.interface = Some(interface.clone());
            m.h.member = Some(member.clone());
            Message::signal(p()?, i()?, n(Member::try_from(member.as_str()))?)
        }
        5 => {
            ctx.label("property_get");
            props(&mut m, "Get");
            m.body = vec![Val::S(interface.clone()), Val::S(prop.clone())];
            Message::property_get(d()?, p()?, i()?, &prop)
        }
        6 => {
            ctx.label("property_set");
            props(&mut m, "Set");
            let mut v = value(src);
            if v.variant_depth() >= 4 {
                v = Val::Y(1);
            }
            m.body = vec![Val::S(interface.clone()), Val::S(prop.clone()), Val::V(Box::new(v.clone()))];
            Message::property_set(d()?, p()?, i()?, &prop, v.to_lib(&FDS))
        }
        _ => {
            ctx.label("properties_get_all");
            props(&mut m, "GetAll");
            m.body = vec![Val::S(interface.clone())];
            Message::properties_get_all(d()?, p()?, i()?)
        }
    };
    Ok((x, State { m, sig: Some(None) }))
}

fn histories(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut log: Vec<String> = Vec::new();
    let mut pool: Vec<(Message, State)> = Vec::new();
    let mut headers: Vec<(MessageHeader, State)> = Vec::new();
    let r = steps(src, ctx, &mut log, &mut pool, &mut headers);
    ctx.desc(|| format!("{}; pool of {} messages", log.join(", "), pool.len()));
    ctx.hit(hash_bytes(pool.len() as u64, format!("{:?}", pool.iter().map(|p| p.1.m.hash64()).collect::<Vec<_>>()).as_bytes()) ^ hash_bytes(1, log.join(" ").as_bytes()));
    r.map_err(|e| format!("after {}: {}", log.join(", "), e))
}

fn steps(
    src: &mut Src,
    ctx: &mut Ctx,
    log: &mut Vec<String>,
    pool: &mut Vec<(Message, State)>,
    headers: &mut Vec<(MessageHeader, State)>,
) -> Res {
    let x = fresh(src, ctx)?;
    check_state(&x.0, &x.1)?;
    check_wire(&x.0, &x.1)?;
    pool.push(x);
    log.push("new 0".into());
    let n = src.below(10);
    for _ in 0..n {
        let k = src.usize(pool.len());
        match src.below(9) {
            0 => {
                let s = gen::int(src, 32) as u32;
                pool[k].0.set_serial(s);
                pool[k].1.m.serial = s;
                log.push(format!("{}.set_serial({})", k, s));
            }
            1 if src.chance(1, 12) => {
                // many values at once, up to the longest signature and beyond
                let n = match src.below(4) {
                    0 => src.below(40),
                    1 => 60 + src.below(10),
                    2 => 120 + src.below(140),
                    _ => 250u64.saturating_sub(pool[k].1.m.body.len() as u64) + src.below(8),
                };
                if pool[k].1.m.body.len() as u64 + n > 400 {
                    continue;
                }
                let one = src.bool();
                for j in 0..n {
                    let v = match if one { 0 } else { src.below(4) } {
                        0 => Val::Y(j as u8),
                        1 => Val::S(j.to_string()),
                        2 => Val::V(Box::new(Val::Q(j as u16))),
                        _ => Val::B(j % 2 == 0),
                    };
                    pool[k].0.add_value(v.to_lib(&FDS));
                    pool[k].1.m.body.push(v);
                }
                log.push(format!("{}.add {} small values", k, n));
            }
            1 | 2 => {
                let v = value(src);
                pool[k].0.add_value(v.to_lib(&FDS));
                log.push(format!("{}.add({})", k, show_val(&v)));
                pool[k].1.m.body.push(v);
            }
            3 => {
                let c = pool[k].0.clone();
                let s = pool[k].1.clone();
                log.push(format!("{} = clone {}", pool.len(), k));
                pool.push((c, s));
            }
            4 => {
                // split and join again
                let (x, s) = pool.swap_remove(k);
                log.push(format!("split {} and join (the last takes its number)", k));
                let (h, body, s) = split_state(x, &s)?;
                headers.push((h.clone(), s.clone()));
                pool.push((Message::new(h, body), s));
            }
            5 => {
                // split a clone
                let (h, body, s) = split_state(pool[k].0.clone(), &pool[k].1)?;
                log.push(format!("split a clone of {}", k));
                let _ = body;
                headers.push((h, s));
            }
            6 if !headers.is_empty() => {
                // a header gets another body
                let j = src.usize(headers.len());
                let (h, s) = (headers[j].0.clone(), headers[j].1.clone());
                let nb = src.below(3);
                let body: Vec<Val> = (0..nb).map(|_| value(src)).collect();
                log.push(format!("{} = header {} with {} new values", pool.len(), j, nb));
                let x = Message::new(h, body.iter().map(|v| v.to_lib(&FDS)).collect());
                pool.push((x, State { m: Msg { body, ..s.m }, sig: s.sig }));
            }
            7 => {
                log.push(format!("{} = new", pool.len()));
                let x = fresh(src, ctx)?;
                pool.push(x);
            }
            _ => {
                // calls that must change nothing
                log.push(format!("encode and replies of {}", k));
                let _ = pool[k].0.encode();
                let _ = super::replies::all_replies(&pool[k].0);
                let _ = pool[k].0.get_signature();
            }
        }
        ctx.evals += pool.len() as u64;
        for (i, (x, s)) in pool.iter().enumerate() {
            check_state(x, s).map_err(|e| format!("message {}: {}", i, e))?;
        }
        for (i, (h, s)) in headers.iter().enumerate() {
            check_header_obj(h, s, &s.sig, "kept header").map_err(|e| format!("header {}: {}", i, e))?;
        }
    }
    for (i, (x, s)) in pool.iter().enumerate() {
        check_wire(x, s).map_err(|e| format!("message {}: {}", i, e))?;
        let (_, _, _) = split_state(x.clone(), s).map_err(|e| format!("message {}: {}", i, e))?;
    }
    Ok(())
}

/// Edge values of every setter and getter, and edge texts in the property helpers.
fn edge_values(src: &mut Src, ctx: &mut Ctx) -> Res {
    static TEXTS: std::sync::OnceLock<(Vec<String>, Vec<u64>)> = std::sync::OnceLock::new();
    let (texts, ints) = TEXTS.get_or_init(|| {
        let mut t = edges::texts();
        t.extend(["\0", "a\0", "\0a", "a\0b"].iter().map(|s| s.to_string()));
        (t, edges::ints(32))
    });
    let k = src.enum_index((texts.len() + ints.len()) as u64) as usize;
    if let Some(t) = texts.get(k) {
        ctx.desc(|| format!("property {}", show_str(t)));
        ctx.hit(hash_bytes(6, t.as_bytes()));
        let n = |e: &str| e.to_string();
        let (d, p, i) = ("a.b", "/p", "i.f");
        let conv = || -> Result<(Bus, ObjectPath, Interface), String> {
            Ok((
                Bus::try_from(d).map_err(|e| format!("{:?}", e))?,
                ObjectPath::try_from(p).map_err(|e| format!("{:?}", e))?,
                Interface::try_from(i).map_err(|e| format!("{:?}", e))?,
            ))
        };
        for set in [false, true] {
            ctx.evals += 1;
            let mut m = Msg {
                le: true,
                mtype: 1,
                flags: 0,
                version: 1,
                serial: 0,
                h: Hdr {
                    path: Some(n(p)),
                    destination: Some(n(d)),
                    interface: Some(n("org.freedesktop.DBus.Properties")),
                    member: Some(n(if set { "Set" } else { "Get" })),
                    ..Default::default()
                },
                body: vec![Val::S(n(i)), Val::S(t.clone())],
            };
            let (d, p, i) = conv()?;
            let mut x = if set {
                m.body.push(Val::V(Box::new(Val::S(t.clone()))));
                Message::property_set(d, p, i, t, Val::S(t.clone()).to_lib(&FDS))
            } else {
                Message::property_get(d, p, i, t)
            };
            let mut s = State { m, sig: Some(None) };
            check_state(&x, &s)?;
            check_wire(&x, &s)?;
            x.add_value(Val::S(t.clone()).to_lib(&FDS));
            s.m.body.push(Val::S(t.clone()));
            check_state(&x, &s)?;
            let (h, b, s) = split_state(x, &s)?;
            check_state(&Message::new(h, b), &s)?;
        }
    } else {
        let v = ints[k - texts.len()] as u32;
        ctx.desc(|| format!("serial and numbers {}", v));
        ctx.hit(u64::from(v) | 1 << 40);
        for mtype in 1..=4 {
            ctx.evals += 1;
            let m = Msg {
                le: v % 2 == 0,
                mtype,
                flags: 0,
                version: v as u8,
                serial: v,
                h: Hdr {
                    path: Some("/p".into()),
                    interface: Some("i.f".into()),
                    member: Some("M".into()),
                    error_name: Some("e.r".into()),
                    reply_serial: Some(v),
                    unix_fds: Some(v),
                    ..Default::default()
                },
                body: vec![Val::U(v)],
            };
            let mut s = State { m: m.clone(), sig: Some(None) };
            let h = m.header_lib(None)?;
            check_header_obj(&h, &s, &s.sig, "new header")?;
            let mut x = Message::new(h, m.body.iter().map(|v| v.to_lib(&FDS)).collect());
            check_state(&x, &s)?;
            check_wire(&x, &s)?;
            for w in [v.wrapping_neg(), v, !v] {
                x.set_serial(w);
                s.m.serial = w;
                check_state(&x, &s)?;
            }
            check_wire(&x, &s)?;
            split_state(x, &s)?;
        }
    }
    Ok(())
}

/// Every subset of fields through `MessageHeader::new`.
fn subsets(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.enum_index(4 * 512);
    let mtype = 1 + (k % 4) as u8;
    let s = k / 4;
    let has = |b: u64, c: u8| s >> b & 1 == 1 || required(mtype).contains(&c);
    let m = Msg {
        le: src.bool(),
        mtype,
        flags: src.below(8) as u8,
        version: src.below(256) as u8,
        serial: gen::int(src, 32) as u32,
        h: Hdr {
            path: if has(0, PATH) { Some(gen::path(src)) } else { None },
            interface: if has(1, INTERFACE) { Some(gen::interface(src)) } else { None },
            member: if has(2, MEMBER) { Some(gen::member(src)) } else { None },
            error_name: if has(3, ERROR_NAME) { Some(gen::interface(src)) } else { None },
            reply_serial: if has(4, REPLY_SERIAL) { Some(gen::int(src, 32) as u32) } else { None },
            destination: if has(5, DESTINATION) { Some(gen::bus(src)) } else { None },
            sender: if has(6, SENDER) { Some(gen::bus(src)) } else { None },
            unix_fds: if has(7, UNIX_FDS) { Some(gen::int(src, 32) as u32) } else { None },
        },
        body: vec![],
    };
    let sig = if s >> 8 & 1 == 1 { Some(gen::signature(src, &O)) } else { None };
    ctx.desc(|| format!("{} signature {:?}", m.show(), sig.as_ref().map(|s| sig_text(s))));
    ctx.hit(m.hash64());
    let st = State { m: m.clone(), sig: Some(sig.clone()) };
    let h = m.header_lib(sig.as_deref())?;
    check_header_obj(&h, &st, &st.sig, "new header")?;
    let x = Message::new(h, vec![]);
    check_state(&x, &st)?;
    check_wire(&x, &st)?;
    let mut y = x.clone();
    y.set_serial(m.serial.wrapping_add(1));
    y.add_value(Val::S("only in the clone".into()).to_lib(&[]));
    check_state(&x, &st).map_err(|e| format!("after changing a clone: {}", e))?;
    split_state(x, &st)?;
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C24",
        rule: "helper constructors with any arguments; model-based histories: a pool of messages made by every constructor or decoded, changed by set_serial, add_value, clone, split, rejoining and giving headers new bodies; after every step every getter and presence test of every message and kept header is compared with the model, at the end also over the wire; every subset of header fields x type; every edge text and number through the property helpers, headers and setters. Non-trivial: distinct histories / headers.",
        assumptions: &["has_signature of a freshly decoded message is not part of the property (the wire has one, the split header has one)"],
        stack: 16 * MB,
        subs: vec![
            sub("header fields", 2048 * 4, 2048 * 100, subsets),
            sub("edge values", edges::text_and_int_count(), edges::text_and_int_count(), edge_values),
            sub("constructors", 500_000, 10_000_000, constructors),
            sub("histories", 300_000, 3_000_000, histories),
        ],
    }]
}
