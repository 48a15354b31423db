//! C23: replies and errors.
use super::*;
use crate::gen::{self, Opts};
use dbus_message_parser::value::Error;
use std::convert::TryFrom;

const PROPERTY: &str = "Some property";
const REASON: &str = "the reason";

/// Every reply and error the message offers.
pub fn all_replies(m: &Message) -> Vec<(&'static str, Message)> {
    let mut v = vec![
        ("method_return", match m.method_return() {
            Ok(r) => r,
            Err(r) => r,
        }),
        ("unknown_property", m.unknown_property(PROPERTY)),
        ("invalid_args", m.invalid_args(REASON.to_string())),
        ("error", m.error(Error::try_from("a.b").unwrap(), REASON.to_string())),
    ];
    if let Some(r) = m.unknown_path() {
        v.push(("unknown_path", r));
    }
    if let Some(r) = m.unknown_interface() {
        v.push(("unknown_interface", r));
    }
    if let Some(r) = m.unknown_member() {
        v.push(("unknown_member", r));
    }
    v
}

fn base(m: &Msg, mtype: u8, error: Option<&str>, body: Vec<Val>) -> Msg {
    Msg {
        le: m.le,
        mtype,
        flags: 1,
        version: 1,
        serial: 0,
        h: Hdr {
            error_name: error.map(|s| s.to_string()),
            reply_serial: Some(m.serial),
            destination: m.h.sender.clone(),
            sender: m.h.destination.clone(),
            ..Default::default()
        },
        body,
    }
}

/// The text names the thing it is about.
fn names(text: &str, what: &str) -> bool {
    text.contains(what)
}

/// The reply is `want` (whose body is compared with `text` unless None), and survives the wire.
fn check(what: &str, r: &Message, want: &Msg, about: Option<&str>) -> Res {
    let mut want = want.clone();
    if let Some(about) = about {
        ensure!(r.get_body().len() == 1, "{}: {} body values", what, r.get_body().len());
        match Val::from_lib(&r.get_body()[0]) {
            Val::S(s) => {
                ensure!(names(&s, about), "{}: text {:?} does not name {:?}", what, s, about);
                want.body = vec![Val::S(s)];
            }
            v => bail!("{}: body is {}", what, show_val(&v)),
        }
    }
    check_message(r, &want, &want.body).map_err(|e| format!("{}: {}", what, e))?;
    ensure!(!r.has_path() && !r.has_interface() && !r.has_member(), "{}: has a path, interface or member", what);
    let b = r.encode().map_err(|e| format!("{} does not encode: {:?}", what, e))?;
    ensure!(b[0] == if want.le { b'l' } else { b'B' }, "{}: byte order mark {:#x}", what, b[0]);
    ensure!(b[1] == want.mtype, "{}: message type {}", what, b[1]);
    ensure!(b[2] & 1 == 1, "{}: does not say that no reply is expected (flags {})", what, b[2]);
    ensure!(b[2] == 1 && b[3] == 1, "{}: flags {} version {}", what, b[2], b[3]);
    let (d, used) = dec(&b).map_err(|e| format!("{} does not decode: {:?} ({})", what, e, hex(&b)))?;
    ensure!(used == b.len(), "{}: consumed {} of {}", what, used, b.len());
    check_message(&d, &want, &want.body).map_err(|e| format!("{} over the wire: {}", what, e))
}

fn text(src: &mut Src) -> String {
    match src.below(4) {
        0 => gen::member(src),
        1 => String::new(),
        _ => gen::string(src),
    }
}

fn replies(src: &mut Src, ctx: &mut Ctx) -> Res {
    let o = Opts { free_dict: false, fds: 3, nul: false };
    let m = if src.chance(1, 8) { gen::msg(src, &o) } else { gen::small_msg(src, &o) };
    let fds = [9, 5, 11];
    let mut lib = m.to_lib(&fds)?;
    let mut m = m;
    if src.chance(1, 3) {
        m.serial = gen::int(src, 32) as u32;
        lib.set_serial(m.serial);
    }
    if src.chance(1, 4) {
        // as it arrives from the wire
        let (b, l) = lib.encode_with_fds().map_err(|e| format!("{:?}", e))?;
        let (d, _, _) = dec_fds(&b, &l).map_err(|e| format!("{:?}", e))?;
        lib = d;
    }
    let before = lib.clone();
    let prop = text(src);
    let reason = text(src);
    let name = gen::interface(src);
    let error = Error::try_from(name.as_str()).map_err(|e| format!("{:?}", e))?;
    ctx.desc(|| format!("replies to {} property {} reason {} error {}", m.show(), show_str(&prop), show_str(&reason), name));
    ctx.hit(m.hash64());
    let (header, _) = lib.clone().split().map_err(|e| format!("{:?}", e))?;
    let empty: Vec<Val> = vec![];
    for on_header in [false, true] {
        ctx.evals += 1;
        let w = if on_header { "header " } else { "" };
        macro_rules! call {
            ($f:ident $(, $a:expr)*) => {
                if on_header { header.$f($($a),*) } else { lib.$f($($a),*) }
            };
        }
        match (call!(method_return), m.mtype == 1) {
            (Ok(r), true) => check(&format!("{}method return", w), &r, &base(&m, 2, None, empty.clone()), None)?,
            (Err(r), false) => {
                ensure!(r.get_error_name().is_some(), "no error name");
                let n = r.get_error_name().unwrap().to_string();
                ensure!(n == "org.freedesktop.DBus.Error.MessageType", "error name {:?}", n);
                check(&format!("{}method return", w), &r, &base(&m, 3, Some(&n), empty.clone()), Some(""))?
            }
            (Ok(_), false) => bail!("method return for message type {}", m.mtype),
            (Err(_), true) => bail!("no method return for a method call"),
        }
        let r = call!(unknown_property, &prop);
        check(&format!("{}unknown property", w), &r, &base(&m, 3, Some("org.freedesktop.DBus.Error.UnknownProperty"), empty.clone()), Some(&prop))?;
        let r = call!(invalid_args, reason.clone());
        check(&format!("{}invalid args", w), &r, &base(&m, 3, Some("org.freedesktop.DBus.Error.InvalidArgs"), vec![Val::S(reason.clone())]), None)?;
        let r = call!(error, error.clone(), reason.clone());
        check(&format!("{}error", w), &r, &base(&m, 3, Some(&name), vec![Val::S(reason.clone())]), None)?;
        for (what, r, field, en) in [
            ("unknown path", call!(unknown_path), &m.h.path, "org.freedesktop.DBus.Error.UnknownPath"),
            ("unknown interface", call!(unknown_interface), &m.h.interface, "org.freedesktop.DBus.Error.UnknownInterface"),
            ("unknown member", call!(unknown_member), &m.h.member, "org.freedesktop.DBus.Error.UnknownMember"),
        ] {
            match (&r, field) {
                (Some(r), Some(f)) => {
                    check(&format!("{}{}", w, what), r, &base(&m, 3, Some(en), empty.clone()), Some(f))?;
                    ctx.label("field error");
                }
                (None, None) => ctx.label("nothing for an absent field"),
                (Some(_), None) => bail!("{}{} for a message without that field", w, what),
                (None, Some(_)) => bail!("{}{} gives nothing although the field is present", w, what),
            }
        }
    }
    // a reply to a reply (never a method return)
    for (n, r) in all_replies(&lib) {
        ensure!(r.get_reply_serial() == Some(m.serial), "{}: reply serial {:?}", n, r.get_reply_serial());
        ensure!(r.method_return().is_err(), "method return for the reply {}", n);
    }
    ensure!(format!("{:?}", before) == format!("{:?}", lib), "the message was changed by making replies");
    Ok(())
}

/// Field subsets, types and orders.
fn subsets(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.enum_index(4 * 2 * 128);
    let mtype = 1 + (k % 4) as u8;
    let le = k / 4 % 2 == 0;
    let s = k / 8;
    let req = |c: u8| required(mtype).contains(&c);
    let pick = |bit: u64, c: u8| s >> bit & 1 == 1 || req(c);
    let m = Msg {
        le,
        mtype,
        flags: src.below(8) as u8,
        version: [1, 1, 0, 2, 3, 4, 255, 128][src.usize(8)],
        serial: match src.below(3) {
            0 => src.below(10) as u32,
            1 => *src.pick(&[1u32, 0, 7, 256, 65536, u32::MAX, 0x01020304]),
            _ => gen::int(src, 32) as u32,
        },
        h: Hdr {
            path: if pick(0, PATH) { Some(gen::path(src)) } else { None },
            interface: if pick(1, INTERFACE) { Some(gen::interface(src)) } else { None },
            member: if pick(2, MEMBER) { Some(gen::member(src)) } else { None },
            error_name: if pick(3, ERROR_NAME) { Some(gen::interface(src)) } else { None },
            reply_serial: if pick(4, REPLY_SERIAL) { Some(77) } else { None },
            destination: if pick(5, DESTINATION) { Some(gen::bus(src)) } else { None },
            sender: if pick(6, SENDER) { Some(gen::bus(src)) } else { None },
            unix_fds: None,
        },
        body: vec![],
    };
    ctx.desc(|| m.show());
    ctx.hit(m.hash64());
    let lib = m.to_lib(&[])?;
    for (n, r) in all_replies(&lib) {
        ctx.evals += 1;
        let kind = r.get_type();
        let (mt, body) = match n {
            "method_return" if mtype == 1 => (2, vec![]),
            _ => (3, body_from_lib(r.get_body())),
        };
        ensure!(mtype_num(kind) == mt, "{} is of type {:?}", n, kind);
        let en = if mt == 3 { Some(r.get_error_name().map(|e| e.to_string()).unwrap_or_default()) } else { None };
        let w = base(&m, mt, en.as_deref(), body);
        check(n, &r, &w, None)?;
    }
    let has = |n: &str| all_replies(&lib).iter().any(|x| x.0 == n);
    ensure!(has("unknown_path") == m.h.path.is_some(), "unknown path offered: {}", has("unknown_path"));
    ensure!(has("unknown_interface") == m.h.interface.is_some(), "unknown interface offered: {}", has("unknown_interface"));
    ensure!(has("unknown_member") == m.h.member.is_some(), "unknown member offered: {}", has("unknown_member"));
    Ok(())
}

/// Edge texts in error messages, edge serials.
fn edge_values(src: &mut Src, ctx: &mut Ctx) -> Res {
    static TEXTS: std::sync::OnceLock<(Vec<String>, Vec<u64>)> = std::sync::OnceLock::new();
    let (texts, ints) = TEXTS.get_or_init(|| {
        let mut t = edges::texts();
        t.extend(["\0", "a\0", "\0a", "a\0b"].iter().map(|s| s.to_string()));
        (t, edges::ints(32))
    });
    let k = src.enum_index((texts.len() + ints.len()) as u64) as usize;
    let text = texts.get(k).cloned().unwrap_or_default();
    let serial = if k < texts.len() { 7 } else { ints[k - texts.len()] as u32 };
    ctx.desc(|| format!("text {} serial {}", show_str(&text), serial));
    ctx.hit(hash_bytes(u64::from(serial), text.as_bytes()));
    for mtype in 1..=4 {
        ctx.evals += 1;
        let m = Msg {
            le: src.bool(),
            mtype,
            flags: 0,
            version: 1,
            serial,
            h: Hdr {
                path: Some("/p".into()),
                interface: Some("i.f".into()),
                member: Some("M".into()),
                error_name: Some("e.r".into()),
                reply_serial: Some(serial ^ 5),
                destination: Some("a.b".into()),
                sender: Some(":1.7".into()),
                ..Default::default()
            },
            body: vec![],
        };
        let lib = m.to_lib(&[])?;
        let e = |n: &str, body: Vec<Val>| base(&m, 3, Some(n), body);
        let empty = std::vec::Vec::new;
        check("unknown property", &lib.unknown_property(&text), &e("org.freedesktop.DBus.Error.UnknownProperty", empty()), Some(&text))?;
        check("invalid args", &lib.invalid_args(text.clone()), &e("org.freedesktop.DBus.Error.InvalidArgs", vec![Val::S(text.clone())]), None)?;
        let name = Error::try_from("x.y").map_err(|e| format!("{:?}", e))?;
        check("error", &lib.error(name, text.clone()), &e("x.y", vec![Val::S(text.clone())]), None)?;
        for (n, r) in all_replies(&lib) {
            ensure!(r.get_reply_serial() == Some(serial), "{}: reply serial {:?}", n, r.get_reply_serial());
        }
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C23",
        rule: "every reply and error helper, on the message and on its header, for every subset of header fields x type x byte order, for edge texts and serials and for random messages (built, re-serialled or decoded), compared field by field with the expected reply and sent over the wire. Non-trivial: distinct messages replied to.",
        assumptions: &["error names and that the text contains the offending name are fixed; the exact wording is not"],
        stack: 16 * MB,
        subs: vec![
            sub("field subsets", 1024 * 60, 1024 * 1000, subsets),
            sub("edge values", edges::text_and_int_count(), edges::text_and_int_count(), edge_values),
            sub("messages", 150_000, 3_000_000, replies),
        ],
    }]
}
