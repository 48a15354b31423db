//! C11 (required header fields) and C12 (header fields and their wire codes).
use super::*;
use crate::checks::faults::{field_value, other_type_value, valid_field};
use crate::gen::{self, NOFD};
use crate::names;
use crate::wire::*;
use dbus_message_parser::message::{MessageHeader, MessageHeaderError, MessageHeaderFields};
use dbus_message_parser::value::Value;
use std::convert::TryFrom;

fn missing_code(e: &MessageHeaderError) -> u8 {
    match e {
        MessageHeaderError::MissingPath => PATH,
        MessageHeaderError::MissingInterface => INTERFACE,
        MessageHeaderError::MissingMember => MEMBER,
        MessageHeaderError::MissingErrorName => ERROR_NAME,
        MessageHeaderError::MissingReplySerial => REPLY_SERIAL,
    }
}

/// Header fields from values for the codes in `mask` (bit c - 1 for code c; 8 is ignored).
fn subset(src: &mut Src, mask: u64) -> Hdr {
    let on = |c: u8| mask >> (c - 1) & 1 == 1;
    let mut h = Hdr::default();
    if on(PATH) {
        h.path = Some(gen::path(src));
    }
    if on(INTERFACE) {
        h.interface = Some(gen::interface(src));
    }
    if on(MEMBER) {
        h.member = Some(gen::member(src));
    }
    if on(ERROR_NAME) {
        h.error_name = Some(gen::interface(src));
    }
    if on(REPLY_SERIAL) {
        h.reply_serial = Some(gen::int(src, 32) as u32);
    }
    if on(DESTINATION) {
        h.destination = Some(gen::bus(src));
    }
    if on(SENDER) {
        h.sender = Some(gen::bus(src));
    }
    if on(UNIX_FDS) {
        h.unix_fds = Some(gen::int(src, 32) as u32);
    }
    h
}

fn required_fields(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.enum_index(4 * 512);
    let mtype = 1 + (k % 4) as u8;
    let mask = k / 4;
    let h = subset(src, mask);
    let with_sig = mask >> 7 & 1 == 1;
    let flags = src.below(8) as u8;
    let version = gen::int(src, 8) as u8;
    let serial = gen::int(src, 32) as u32;
    let le = src.bool();
    let body: Vec<Val> = if with_sig {
        let n = 1 + src.below(3);
        (0..n)
            .map(|_| {
                let t = gen::ty(src, 1, &NOFD);
                gen::val(src, &t, 0, &mut gen::Budget(6), &NOFD)
            })
            .collect()
    } else {
        vec![]
    };
    let m = Msg { le, mtype, flags, version, serial, h, body };
    let absent: Vec<u8> =
        required(mtype).iter().copied().filter(|c| !m.h.codes().contains(c)).collect();
    ctx.desc(|| format!("{} lacking {:?}", m.show(), absent));
    ctx.hit(m.hash64());
    ctx.label(if absent.is_empty() { "complete" } else { "incomplete" });
    // created
    let sig = m.sig();
    let fields = m.h.to_lib(if with_sig { Some(&sig) } else { None })?;
    let made = MessageHeader::new(le, mtype_lib(mtype), flags_lib(flags), version, serial, fields.clone());
    match &made {
        Ok(h) => {
            ensure!(absent.is_empty(), "header created although {:?} are missing: {}", absent, m.show());
            ensure!(
                h.get_serial() == serial && mtype_num(h.get_type()) == mtype,
                "created header has serial {} and type {:?}", h.get_serial(), h.get_type()
            );
        }
        Err(e) => ensure!(
            absent.contains(&missing_code(e)),
            "creating a header lacking {:?} fails with {:?}: {}", absent, e, m.show()
        ),
    }
    // decoded
    let mut order = m.h.codes();
    if with_sig {
        order.push(SIGNATURE);
    }
    src.shuffle(&mut order);
    let b = encode_raw(&m.raw(&order), false).buf;
    ctx.evals += 1;
    match dec(&b) {
        Ok((x, n)) => {
            ensure!(absent.is_empty(), "decoded although {:?} are missing: {}", absent, hex(&b));
            ensure!(n == b.len(), "consumed {} of {} bytes", n, b.len());
            check_message(&x, &m, &m.body)?;
        }
        Err(DecodeError::MessageHeaderError(e)) => ensure!(
            absent.contains(&missing_code(&e)),
            "decoding a message lacking {:?} fails with {:?}: {}", absent, e, hex(&b)
        ),
        Err(e) => bail!("decoding a message lacking {:?} fails with {:?}: {}", absent, e, hex(&b)),
    }
    Ok(())
}

fn entry(code: u8, v: &Val) -> Val {
    Val::R(vec![Val::Y(code), Val::V(Box::new(v.clone()))])
}

/// Sets of fields to values and back.
fn sets(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mask = src.enum_index(512);
    let h = subset(src, mask);
    let sig = if mask >> 7 & 1 == 1 { Some(gen::signature(src, &NOFD)) } else { None };
    ctx.desc(|| format!("fields {:?} signature {:?}", h, sig));
    let fields = h.to_lib(sig.as_deref())?;
    let mut want: Vec<(u8, Val)> = h.codes().iter().map(|c| (*c, h.value(*c).unwrap())).collect();
    if let Some(s) = &sig {
        want.push((SIGNATURE, Val::G(s.clone())));
    }
    want.sort_by_key(|x| x.0);
    ctx.hit(hash_bytes(1, format!("{:?}", want).as_bytes()));
    let values: Vec<Value> = fields.clone().into();
    let mut got = body_from_lib(&values);
    let wanted: Vec<Val> = want.iter().map(|(c, v)| entry(*c, v)).collect();
    got.sort_by_key(|v| match v {
        Val::R(f) => match f.first() {
            Some(Val::Y(c)) => *c as i32,
            _ => -1,
        },
        _ => -1,
    });
    ensure!(got == wanted, "fields {:?} became {:?}", fields, values);
    ensure!(
        MessageHeaderFields::try_from(values.clone()) == Ok(fields.clone()),
        "the values of {:?} convert back to {:?}", fields, MessageHeaderFields::try_from(values)
    );
    for _ in 0..3 {
        let mut w = wanted.clone();
        src.shuffle(&mut w);
        ctx.evals += 1;
        let w: Vec<Value> = w.iter().map(|v| v.to_lib(&[])).collect();
        let r = MessageHeaderFields::try_from(w.clone());
        ensure!(r.as_ref() == Ok(&fields), "{:?} converts to {:?}, not {:?}", w, r, fields);
        let again: Vec<Value> = r.unwrap().into();
        ensure!(again == values, "converting twice gives {:?} and {:?}", values, again);
    }
    Ok(())
}

/// What a list of entries means: the fields, or the reason to refuse.
fn read(entries: &[Val]) -> Result<Vec<(u8, Val)>, &'static str> {
    let mut out: Vec<(u8, Val)> = Vec::new();
    for e in entries {
        let (code, v) = match e {
            Val::R(f) if f.len() == 2 => match (&f[0], &f[1]) {
                (Val::Y(c), Val::V(v)) => (*c, (**v).clone()),
                _ => return Err("not a byte and a variant"),
            },
            Val::R(_) => return Err("not two members"),
            _ => return Err("not a struct"),
        };
        if out.iter().any(|x| x.0 == code) {
            return Err("repeated");
        }
        match (code, &v) {
            (PATH, Val::O(_)) | (REPLY_SERIAL, Val::U(_)) | (SIGNATURE, Val::G(_)) | (UNIX_FDS, Val::U(_)) => (),
            (INTERFACE, Val::S(s)) | (ERROR_NAME, Val::S(s)) if names::is_interface(s.as_bytes()) => (),
            (MEMBER, Val::S(s)) if names::is_member(s.as_bytes()) => (),
            (DESTINATION, Val::S(s)) | (SENDER, Val::S(s)) if names::is_bus(s.as_bytes()) => (),
            (INTERFACE | ERROR_NAME | MEMBER | DESTINATION | SENDER, Val::S(_)) => return Err("invalid name"),
            (1..=9, _) => return Err("wrong type"),
            _ => return Err("unknown code"),
        }
        out.push((code, v));
    }
    Ok(out)
}

fn hdr_from(l: &[(u8, Val)]) -> (Hdr, Option<Vec<Ty>>) {
    let mut h = Hdr::default();
    let mut g = None;
    for (c, v) in l {
        match (c, v.clone()) {
            (1, Val::O(s)) => h.path = Some(s),
            (2, Val::S(s)) => h.interface = Some(s),
            (3, Val::S(s)) => h.member = Some(s),
            (4, Val::S(s)) => h.error_name = Some(s),
            (5, Val::U(x)) => h.reply_serial = Some(x),
            (6, Val::S(s)) => h.destination = Some(s),
            (7, Val::S(s)) => h.sender = Some(s),
            (8, Val::G(t)) => g = Some(t),
            (9, Val::U(x)) => h.unix_fds = Some(x),
            _ => unreachable!(),
        }
    }
    (h, g)
}

fn check_entries(entries: &[Val], ctx: &mut Ctx) -> Res {
    let values: Vec<Value> = entries.iter().map(|v| v.to_lib(&[1, 2, 3, 4])).collect();
    let got = MessageHeaderFields::try_from(values);
    match read(entries) {
        Ok(l) => {
            ctx.label("accepted");
            let (h, g) = hdr_from(&l);
            let want = h.to_lib(g.as_deref())?;
            ensure!(got.as_ref() == Ok(&want), "{:?} gives {:?}, expected {:?}", entries, got, want);
        }
        Err(why) => {
            ctx.label(why);
            ensure!(got.is_err(), "{:?} ({}) is accepted as {:?}", entries, why, got);
        }
    }
    Ok(())
}

/// Every code with values of every kind, alone and behind a set of valid fields.
fn codes(src: &mut Src, ctx: &mut Ctx) -> Res {
    let code = src.enum_index(256) as u8;
    let mut vals: Vec<Val> = (1..=9).map(|c| valid_field(src, c)).collect();
    vals.extend([
        Val::Y(1), Val::B(true), Val::N(-1), Val::Q(1), Val::I(-1), Val::X(1), Val::T(1), Val::D(0), Val::S("a.b".into()),
        Val::S("a".into()), Val::S(String::new()), Val::S("/a".into()), Val::S(":1.2".into()), Val::H(0),
        Val::V(Box::new(Val::U(1))), Val::V(Box::new(Val::S("a.b".into()))), Val::R(vec![Val::U(1)]),
        Val::A(Ty::U, vec![Val::U(1)]), Val::A(Ty::Y, vec![]), Val::G(vec![]), Val::G(vec![Ty::S]),
    ]);
    for c in 1..=9u8 {
        vals.push(other_type_value(src, c));
    }
    let mask = src.below(512);
    let before = subset(src, mask);
    ctx.desc(|| format!("code {} with values of every type", code));
    let prefix: Vec<Val> = before.codes().iter().map(|c| entry(*c, &before.value(*c).unwrap())).collect();
    for v in vals {
        ctx.evals += 2;
        let e = entry(code, &v);
        ctx.hit(hash_bytes(2, format!("{:?}", e).as_bytes()));
        check_entries(&[e.clone()], ctx)?;
        let mut l = prefix.clone();
        l.insert(src.usize(l.len() + 1), e);
        check_entries(&l, ctx)?;
    }
    Ok(())
}

/// Lists of mostly valid entries in any order with repetitions and misshapen entries.
fn entries(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut l: Vec<Val> = Vec::new();
    let mut cs: Vec<u8> = (1..=9).collect();
    src.shuffle(&mut cs);
    cs.truncate(src.below(10) as usize);
    for c in cs {
        let v = valid_field(src, c);
        l.push(entry(c, &v));
    }
    for _ in 0..src.below(3) {
        let bad = match src.below(7) {
            0 => {
                let c = 1 + src.below(9) as u8;
                let v = valid_field(src, c);
                entry(c, &v)
            }
            1 => {
                let v = field_value(src);
                entry(src.below(12) as u8, &v)
            }
            2 => {
                let v = field_value(src);
                entry(gen::int(src, 8) as u8, &v)
            }
            3 => {
                // wrong number of members
                let c = 1 + src.below(9) as u8;
                let v = valid_field(src, c);
                match src.below(4) {
                    0 => Val::R(vec![Val::Y(c)]),
                    1 => Val::R(vec![Val::V(Box::new(v))]),
                    2 => Val::R(vec![Val::Y(c), Val::V(Box::new(v)), Val::Y(0)]),
                    _ => Val::R(vec![Val::Y(0), Val::Y(c), Val::V(Box::new(v))]),
                }
            }
            4 => {
                // members of the wrong type
                let c = 1 + src.below(9) as u8;
                let v = valid_field(src, c);
                match src.below(5) {
                    0 => Val::R(vec![Val::Y(c), v]),
                    1 => Val::R(vec![Val::U(c as u32), Val::V(Box::new(v))]),
                    2 => Val::R(vec![Val::V(Box::new(v)), Val::Y(c)]),
                    3 => Val::R(vec![Val::V(Box::new(Val::Y(c))), Val::V(Box::new(v))]),
                    _ => Val::R(vec![Val::Y(c), Val::V(Box::new(Val::V(Box::new(v))))]),
                }
            }
            5 => {
                // not a struct
                let c = 1 + src.below(9) as u8;
                let v = valid_field(src, c);
                match src.below(5) {
                    0 => v,
                    1 => Val::V(Box::new(v)),
                    2 => Val::E(Box::new((Val::Y(c), Val::V(Box::new(v))))),
                    3 => Val::V(Box::new(entry(c, &v))),
                    _ => Val::A(entry(c, &v).ty(), vec![entry(c, &v)]),
                }
            }
            _ => {
                let c = 1 + src.below(9) as u8;
                let v = other_type_value(src, c);
                entry(c, &v)
            }
        };
        l.insert(src.usize(l.len() + 1), bad);
    }
    ctx.desc(|| format!("entries {:?}", l));
    ctx.hit(hash_bytes(3, format!("{:?}", l).as_bytes()));
    check_entries(&l, ctx)
}

/// The same over the wire: codes and order on the wire against the decoded getters.
fn on_the_wire(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen::small_msg(src, &NOFD);
    let mut order = m.canonical_order();
    src.shuffle(&mut order);
    ctx.desc(|| format!("{} with fields in order {:?}", m.show(), order));
    ctx.hit(m.hash64());
    let b = encode_raw(&m.raw(&order), false).buf;
    let (x, _) = dec(&b).map_err(|e| format!("{:?}: {}", e, hex(&b)))?;
    check_message(&x, &m, &m.body)?;
    // and encoded by the library: the reference finds the same fields
    let e = x.encode().map_err(|e| format!("{:?}", e))?;
    let r = decode(&e, 0).map_err(|e| format!("the reference refuses the encoded message: {}", e))?;
    ensure!(r.msg.h == m.h, "fields on the wire {:?}, expected {:?}", r.msg.h, m.h);
    Ok(())
}

pub fn checks() -> Vec<Check> {
    const MODEL: &str = "required fields, field codes, field types and name grammars as listed in the D-Bus specification";
    vec![
        Check {
            id: "C11",
            rule: "all 512 subsets of the nine header fields with each of the four message types, with generated values, flags, versions, serials and byte orders: the verdict of creating the header and of decoding reference bytes of it, and the field an error names. Non-trivial: distinct messages.",
            assumptions: &[MODEL],
            stack: 16 * MB,
            subs: vec![sub("every subset of fields", 2048 * 300, 2048 * 3000, required_fields)],
        },
        Check {
            id: "C12",
            rule: "all 512 subsets of fields converted to values and back in several orders; every code 0 to 255 with valid, other and misshapen values alone and among other fields; lists of valid entries with up to two repeated, misshapen or mistyped ones; each compared with a table of codes and types. Non-trivial: distinct entry lists.",
            assumptions: &[MODEL],
            stack: 16 * MB,
            subs: vec![
                sub("every subset of fields", 512 * 200, 512 * 4000, sets),
                sub("every code", 256 * 20, 256 * 500, codes),
                sub("entry lists", 800_000, 10_000_000, entries),
                sub("on the wire", 350_000, 2_000_000, on_the_wire),
            ],
        },
    ]
}
