//! C04 (malformed bytes are never accepted, accepted bytes are read as the reference reads
//! them) and C26 (the error names the fault).
use super::*;
use crate::gen::{self, Opts};
use crate::wire::*;
use bytes::Bytes;
use dbus_message_parser::decode::DecodeError;
use dbus_message_parser::message::{MessageHeaderError, MessageHeaderFieldsError as FE};
use dbus_message_parser::value::{
    Bus, Error, Interface, Member, ObjectPathError, Type, TypeError, Value,
};
use std::convert::TryFrom;

const CODES: &[u8] = b"ybnqiuxtdhsogva(){}";

fn site_off(s: &Site) -> usize {
    match s {
        Site::Endian => 0,
        Site::MType => 1,
        Site::Flags => 2,
        Site::BodyLen => 4,
        Site::HdrLen => 12,
        Site::Code { off, .. }
        | Site::Pad { off }
        | Site::Nul { off }
        | Site::StrLen { off, .. }
        | Site::Text { off, .. }
        | Site::SigLen { off, .. }
        | Site::Sig { off, .. }
        | Site::Bool { off }
        | Site::ArrLen { off, .. }
        | Site::Fd { off } => *off,
    }
}

fn num(src: &mut Src, old: u32, len: usize) -> u32 {
    match src.below(8) {
        0 => old.wrapping_add(1),
        1 => old.wrapping_sub(1),
        2 => old.wrapping_add(src.below(17) as u32).wrapping_sub(8),
        3 => src.below(len as u64 + 9) as u32,
        4 => 0,
        5 => *src.pick(&[
            0x0400_0000, 0x0400_0001, 0x0800_0000, 0x0800_0001, 0x7fff_ffff, 0x8000_0000, u32::MAX,
            0x00ff_ffff, 0x0100_0000,
        ]),
        6 => old.swap_bytes(),
        _ => gen::int(src, 32) as u32,
    }
}

/// One to three edits; each is aimed at a structural place of the message or at any byte.
pub fn mutate(src: &mut Src, b: &mut Vec<u8>, sites: &[Site], le: bool) {
    let n = match src.weighted(&[6, 2, 1]) {
        0 => 1,
        1 => 2,
        _ => 3,
    };
    for _ in 0..n {
        mutate_one(src, b, sites, le);
    }
}

pub fn mutate_one(src: &mut Src, b: &mut Vec<u8>, sites: &[Site], le: bool) {
    if b.len() < 16 {
        b.push(src.below(256) as u8);
        return;
    }
    match src.weighted(&[14, 3, 3, 2, 2, 1, 1]) {
        0 => {
            let s = src.pick(sites).clone();
            let off = site_off(&s);
            if off + 4 > b.len() {
                return;
            }
            match s {
                Site::Endian => b[0] = *src.pick(&[b'l', b'B', b'L', b'b', 0, 0xff]),
                Site::MType => b[1] = src.below(7) as u8,
                Site::Flags => b[2] = gen::int(src, 8) as u8,
                Site::BodyLen | Site::HdrLen | Site::StrLen { .. } | Site::ArrLen { .. } | Site::Fd { .. } => {
                    let old = get32(b, le, off);
                    let x = num(src, old, b.len());
                    put32(b, le, off, x);
                }
                Site::Bool { .. } => {
                    let x = match src.below(3) {
                        0 => src.below(4) as u32,
                        1 => 0x0100_0000 << src.below(1),
                        _ => gen::int(src, 32) as u32,
                    };
                    put32(b, le, off, x);
                }
                Site::Code { .. } => {
                    b[off] = if src.chance(1, 5) { gen::int(src, 8) as u8 } else { src.below(11) as u8 }
                }
                Site::Pad { .. } | Site::Nul { .. } => {
                    b[off] = *src.pick(&[0, 1, 0x80, 0xff, b'a']);
                }
                Site::SigLen { .. } => {
                    b[off] = match src.below(4) {
                        0 => b[off].wrapping_add(1),
                        1 => b[off].wrapping_sub(1),
                        2 => 0,
                        _ => src.below(256) as u8,
                    }
                }
                Site::Sig { len, .. } => {
                    if len > 0 {
                        let i = off + src.usize(len);
                        if i < b.len() {
                            b[i] = if src.chance(1, 12) { src.below(256) as u8 } else { *src.pick(CODES) };
                        }
                    }
                }
                Site::Text { len, .. } => {
                    if len > 0 {
                        let i = off + src.usize(len);
                        if i < b.len() {
                            b[i] = match src.below(3) {
                                0 => *src.pick(b"./:a0_-Z!"),
                                1 => *src.pick(&[0, 0x7f, 0x80, 0xc0, 0xc3, 0xe2, 0xed, 0xf0, 0xf4, 0xff]),
                                _ => src.below(256) as u8,
                            };
                        }
                    }
                }
            }
        }
        1 => {
            let i = src.usize(b.len());
            b[i] ^= 1 << src.below(8);
        }
        2 => {
            let i = src.usize(b.len());
            b[i] = gen::int(src, 8) as u8;
        }
        3 => {
            let i = src.usize(b.len());
            let k = 1 + src.below(9) as usize;
            b.drain(i..(i + k).min(b.len()));
        }
        4 => {
            let i = src.usize(b.len() + 1);
            let k = 1 + src.below(9) as usize;
            let fill = *src.pick(&[0u8, 0, 1, 0xff, b's']);
            for _ in 0..k {
                b.insert(i, fill);
            }
        }
        5 => {
            let i = src.usize(b.len());
            let k = (1 + src.below(16) as usize).min(b.len() - i);
            let part = b[i..i + k].to_vec();
            let j = src.usize(b.len() + 1);
            for (n, x) in part.into_iter().enumerate() {
                b.insert((j + n).min(b.len()), x);
            }
        }
        _ => {
            let k = src.usize(b.len());
            b.truncate(k);
        }
    }
}

/// Library against reference on the same bytes. Returns whether the library accepts.
pub fn differential(b: &[u8], fds: &[i32]) -> Result<bool, String> {
    let lib = dec_fds(b, fds);
    let reference = decode(b, fds.len());
    match (lib, reference) {
        (Ok((m, used, nf)), Ok(d)) => {
            ensure!(used == d.consumed, "consumed {} bytes, the message has {} ({})", used, d.consumed, hex(b));
            ensure!(nf == d.fds_used, "{} descriptors reported as used, expected {} ({})", nf, d.fds_used, hex(b));
            check_message(&m, &d.msg, &resolve(&d.msg.body, fds)).map_err(|e| format!("{} ({})", e, hex(b)))?;
            Ok(true)
        }
        (Ok((m, _, _)), Err(e)) => {
            bail!("malformed bytes ({}) were accepted as {:?} ({})", e, m, hex(b))
        }
        (Err(_), _) => Ok(false),
    }
}

/// Bytes the reference accepts (and on which the specification leaves no choice) must decode.
pub fn completeness(b: &[u8], fds: &[i32]) -> Result<bool, String> {
    match decode(b, fds.len()) {
        Ok(d) if d.strict => match dec_fds(b, fds) {
            Ok((m, used, nf)) => {
                ensure!(used == d.consumed && nf == d.fds_used, "consumed {} / {} ({})", used, d.consumed, hex(b));
                check_message(&m, &d.msg, &resolve(&d.msg.body, fds)).map_err(|e| format!("{} ({})", e, hex(b)))?;
                Ok(true)
            }
            Err(e) => bail!("a well-formed message was refused: {:?} ({})", e, hex(b)),
        },
        _ => Ok(false),
    }
}

const O: Opts = Opts { free_dict: false, fds: 4, nul: false };

fn base(src: &mut Src) -> (Msg, Vec<i32>, Encoded) {
    let mut m = gen::small_msg(src, &O);
    if src.chance(1, 6) {
        m.body = gen::body(src, &O);
    }
    if m.encode_fast().buf.len() > 3000 {
        m.body.clear();
        m.h.path = m.h.path.map(|_| "/x".into());
    }
    let order = gen::order(src, &m);
    let fds = gen::fd_table(src, 4);
    let e = encode_raw(&m.raw(&order), true);
    (m, fds, e)
}

/// Every padding, terminator and boolean byte of a message, every wrong mark, type and flag.
fn every_byte(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (m, fds, e) = base(src);
    ctx.desc(|| format!("each padding, NUL and boolean byte of {}", m.show()));
    let mut b = e.buf.clone();
    if let Err(x) = dec_fds(&b, &fds) {
        bail!("a well-formed message was refused: {:?} ({})", x, hex(&b));
    }
    let other = match crate::dict::int(src) as u8 {
        x if x != 0 && src.chance(1, 4) => x,
        _ => 1 + src.below(255) as u8,
    };
    let try_byte = |b: &mut Vec<u8>, i: usize, x: u8, what: &str, ctx: &mut Ctx| -> Res {
        let old = b[i];
        b[i] = x;
        ctx.evals += 1;
        let r = dec_fds(b, &fds);
        let s = if r.is_ok() { hex(b) } else { String::new() };
        b[i] = old;
        match r {
            Err(_) => Ok(()),
            Ok(_) => bail!("{} byte {} changed from {:#x} to {:#x} was not noticed ({})", what, i, old, x, s),
        }
    };
    let mut pads = 0;
    for s in &e.sites {
        match s {
            Site::Pad { off } => {
                pads += 1;
                ctx.label("padding byte");
                for x in [1, 0x80, 0xff, other] {
                    try_byte(&mut b, *off, x, "padding", ctx)?;
                }
            }
            Site::Nul { off } => {
                ctx.label("terminator");
                for x in [1, 0x80, b's', other] {
                    try_byte(&mut b, *off, x, "terminator", ctx)?;
                }
            }
            Site::Bool { off } => {
                ctx.label("boolean");
                let low = if m.le { *off } else { *off + 3 };
                for x in [2, 3, 0x80, 0xff] {
                    try_byte(&mut b, low, x, "boolean", ctx)?;
                }
                for i in *off..*off + 4 {
                    if i != low {
                        for x in [1, 2, 0x80, other] {
                            try_byte(&mut b, i, x, "boolean", ctx)?;
                        }
                    }
                }
            }
            Site::Code { off, .. } => {
                for x in [0, 10, 11, 127, 128, 255] {
                    try_byte(&mut b, *off, x, "field code", ctx)?;
                }
            }
            _ => (),
        }
    }
    for x in [0, b'L', b'b', b'B' + 1, b'l' + 1, 0xff, other] {
        if x != b'l' && x != b'B' {
            try_byte(&mut b, 0, x, "byte order", ctx)?;
        }
    }
    for x in [0, 5, 6, 0x81, 0xff, other] {
        if !(1..=4).contains(&x) {
            try_byte(&mut b, 1, x, "message type", ctx)?;
        }
    }
    for x in [8, 0x10, 0x20, 0x40, 0x80, 9, 0xff, other] {
        if x & !7 != 0 {
            try_byte(&mut b, 2, x, "flags", ctx)?;
        }
    }
    if pads > 0 {
        ctx.hit(hash_bytes(1, &b));
    }
    Ok(())
}

/// All other values of the terminator behind texts of every length up to 300, and of each byte of
/// the padding in front of a value of alignment 8.
fn every_terminator(src: &mut Src, ctx: &mut Ctx) -> Res {
    let i = src.enum_index(5 * 301) as usize;
    let (kind, n) = (i / 301, i % 301);
    let mut m = Msg {
        le: i % 2 == 0, mtype: 1, flags: 0, version: 1, serial: 3,
        h: Hdr { path: Some("/".into()), member: Some("m".into()), ..Default::default() },
        body: vec![Val::Y(1)],
    };
    match kind {
        0 => m.body = vec![Val::S("s".repeat(n)), Val::T(5)],
        1 if n > 0 => m.h.path = Some(if n == 1 { "/".into() } else { format!("/{}", "p".repeat(n - 1)) }),
        2 if n > 0 && n < 256 => m.h.member = Some("m".repeat(n)),
        3 if n < 256 => m.body = vec![Val::G(vec![Ty::Y; n]), Val::T(5)],
        4 if n > 0 && n < 256 => {
            // a signature of n bytes in front of a variant's content
            let t = if n > 2 { Ty::R(vec![Ty::Y; n - 2]) } else { Ty::Y };
            let v = match &t {
                Ty::R(ts) => Val::R(vec![Val::Y(7); ts.len()]),
                _ => Val::Y(7),
            };
            m.body = vec![Val::V(Box::new(v))];
        }
        _ => return Ok(()),
    }
    ctx.desc(|| format!("all values of each terminator and padding byte of {}", m.show()));
    let e = encode_raw(&m.raw(&m.canonical_order()), true);
    let mut b = e.buf.clone();
    if let Err(x) = dec(&b) {
        bail!("a well-formed message was refused: {:?} ({})", x, hex(&b));
    }
    for s in &e.sites {
        let (off, what) = match s {
            Site::Pad { off } => (*off, "padding"),
            Site::Nul { off } => (*off, "terminator"),
            _ => continue,
        };
        for x in 1..=255u8 {
            b[off] = x;
            ctx.evals += 1;
            if dec(&b).is_ok() {
                bail!("{} byte {} changed to {:#x} was not noticed ({})", what, off, x, hex(&b));
            }
        }
        b[off] = 0;
    }
    ctx.hit(i as u64);
    Ok(())
}

/// Lengths of every magnitude up to 2^17, with the neighbours of powers of two and of a few round
/// numbers.
pub fn long_len(src: &mut Src) -> usize {
    let n = match src.weighted(&[6, 3, 2, 1]) {
        0 => {
            let p = 4 + src.below(13);
            (1u64 << p) + src.below(1 << p)
        }
        1 => (1u64 << (4 + src.below(14))) + src.below(5) - 2,
        2 => *src.pick(&[100u64, 1000, 1024, 5000, 10_000, 20_000, 50_000, 100_000]) + src.below(3) - 1,
        _ => crate::dict::int(src) % (1 << 17),
    };
    n as usize
}

/// Sequences that no UTF-8 text holds.
const NOT_UTF8: &[&[u8]] = &[
    &[0xff], &[0xfe], &[0x80], &[0xbf], &[0xc0, 0x80], &[0xc1, 0xbf], &[0xc3], &[0xe2, 0x82], &[0xe0, 0x80, 0x80],
    &[0xe0, 0x9f, 0xbf], &[0xed, 0xa0, 0x80], &[0xed, 0xbf, 0xbf], &[0xf0, 0x80, 0x80, 0x80], &[0xf0, 0x9f, 0x98],
    &[0xf4, 0x90, 0x80, 0x80], &[0xf5, 0x80, 0x80, 0x80], &[0xf8, 0x88, 0x80, 0x80, 0x80], &[0xf0], &[0xe2], &[0xc3, 0xa9, 0xa9],
];

/// Long texts, paths and arrays, well formed but for one place.
fn long_values(src: &mut Src, ctx: &mut Ctx) -> Res {
    let le = !src.bool();
    let n = long_len(src);
    let kind = src.below(7);
    let pad = src.below(9) as usize;
    let fill = |n: usize, c: char| -> String {
        let mut s = String::with_capacity(n);
        while s.len() + c.len_utf8() <= n {
            s.push(c);
        }
        while s.len() < n {
            s.push('y');
        }
        s
    };
    let mut h = Hdr { path: Some("/".into()), member: Some("m".into()), ..Default::default() };
    let text = |src: &mut Src| fill(n, *src.pick(&['x', '0', '\u{e9}', '\u{20ac}', '\u{1f600}']));
    let path = |src: &mut Src| {
        let every = *src.pick(&[1usize, 2, 7, 64, usize::MAX]);
        let mut s = String::with_capacity(n + 1);
        s.push('/');
        while s.len() < n {
            s.push(if s.len() % every == 0 && !s.ends_with('/') { '/' } else { 'a' });
        }
        if s.len() > 1 && s.ends_with('/') {
            s.pop();
            s.push('z');
        }
        s
    };
    let v = match kind {
        0 | 1 => Val::S(text(src)),
        2 => Val::O(path(src)),
        3 => {
            h.path = Some(path(src));
            Val::Y(0)
        }
        4 => Val::A(Ty::B, (0..n.min(20_000)).map(|i| Val::B(i % 3 == 0)).collect()),
        5 => Val::A(Ty::S, (0..n / 8 + 1).map(|i| Val::S(fill(i % 9, 'x'))).collect()),
        _ => {
            let t = Ty::R(vec![Ty::Y, Ty::T]);
            Val::A(t, (0..(n / 16 + 1).min(4000)).map(|i| Val::R(vec![Val::Y(i as u8), Val::T(i as u64)])).collect())
        }
    };
    let v = match src.below(6) {
        0 => Val::V(Box::new(v)),
        1 => Val::R(vec![Val::Y(1), v]),
        2 => Val::A(v.ty(), vec![v]),
        3 => {
            let t = Ty::E(Box::new((Ty::Y, v.ty())));
            Val::A(t, vec![Val::E(Box::new((Val::Y(3), v)))])
        }
        _ => v,
    };
    let mut body = vec![Val::Y(7); pad];
    body.push(v);
    if src.bool() {
        body.push(Val::T(u64::MAX));
    }
    let m = Msg { le, mtype: 1 + 3 * src.below(2) as u8, flags: src.below(8) as u8, version: 1, serial: 3, h, body };
    let mut m = m;
    if m.mtype == 4 {
        m.h.interface = Some("a.b".into());
    }
    let e = encode_raw(&m.raw(&m.canonical_order()), true);
    let mut b = e.buf.clone();
    ctx.desc(|| format!("one wrong place in a {} of length {} behind {} bytes, {} bytes in all", ["text", "text", "path", "header path", "array of booleans", "array of texts", "array of structs"][kind as usize], n, pad, b.len()));
    if let Err(x) = dec(&b) {
        bail!("a well-formed message was refused: {:?} ({})", x, hex(&b));
    }
    // the sites worth a change: those of the long value
    let long: Vec<&Site> = e
        .sites
        .iter()
        .filter(|s| match s {
            Site::Text { len, field, .. } => *len > 0 && match kind {
                0..=2 => *len == n.max(1),
                3 => *field == 1,
                _ => *field == 0,
            },
            Site::Bool { .. } => kind == 4,
            Site::Pad { .. } => kind == 6,
            Site::Nul { .. } => kind == 5,
            _ => false,
        })
        .collect();
    if long.is_empty() {
        return Ok(());
    }
    for _ in 0..6 {
        // first, last or any; then the start, the end or any place of it
        let s = match src.below(4) {
            0 => long[0],
            1 => long[long.len() - 1],
            _ => long[src.usize(long.len())],
        };
        let (off, new): (usize, Vec<u8>) = match s {
            Site::Text { off, len, kind, .. } => {
                let bad: Vec<u8> = match kind {
                    TextKind::Str => src.pick(NOT_UTF8).to_vec(),
                    _ => vec![*src.pick(&[b'!', b'-', b'.', b' ', 0, 0x7f, 0x80, 0xc3, 0xff, b'@', b'[', b'`', b'{', b':'])],
                };
                if bad.len() > *len {
                    continue;
                }
                let last = len - bad.len();
                let i = match src.below(4) {
                    0 => src.usize(last.min(16) + 1),
                    1 => last - src.usize(last.min(16) + 1),
                    2 => last.min((1usize << src.below(17)).saturating_sub(src.usize(5))),
                    _ => src.usize(last + 1),
                };
                (off + i, bad)
            }
            Site::Bool { off } => {
                let mut x = *src.pick(&[2u32, 3, 0x100, 0x101, 0x1_0000, 0x0100_0000, 0x8000_0000, u32::MAX]);
                if !le {
                    x = x.swap_bytes();
                }
                (*off, x.to_le_bytes().to_vec())
            }
            Site::Pad { off } | Site::Nul { off } => (*off, vec![1 + src.below(255) as u8]),
            _ => continue,
        };
        let old = b[off..off + new.len()].to_vec();
        b[off..off + new.len()].copy_from_slice(&new);
        ctx.evals += 1;
        // an overwritten multi-byte character may complete what was put there
        let wrong = decode(&b, 0).is_err();
        if wrong {
            ctx.hit(hash_bytes(off as u64, &new) ^ b.len() as u64);
            if dec(&b).is_ok() {
                bail!("{:?} at byte {} of {} was not noticed ({})", new, off, b.len(), hex(&b));
            }
            let shared = Bytes::copy_from_slice(&b);
            if dbus_message_parser::message::Message::decode_with_fds(shared, &[]).is_ok() {
                bail!("{:?} at byte {} of {} was not noticed ({})", new, off, b.len(), hex(&b));
            }
        } else {
            ctx.label("change that is no fault");
        }
        b[off..off + old.len()].copy_from_slice(&old);
    }
    Ok(())
}

fn structural(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (m, fds, e) = base(src);
    ctx.desc(|| format!("mutants of {}", m.show()));
    for _ in 0..24 {
        let mut b = e.buf.clone();
        mutate(src, &mut b, &e.sites, m.le);
        ctx.evals += 1;
        if differential(&b, &fds)? {
            ctx.label("mutant accepted by both");
        } else {
            ctx.label("mutant refused");
        }
        if b != e.buf {
            ctx.hit(hash_bytes(2, &b));
        }
    }
    Ok(())
}

pub fn complete_mutants(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (m, fds, e) = base(src);
    ctx.desc(|| format!("mutants that stay well formed of {}", m.show()));
    for _ in 0..24 {
        let mut b = e.buf.clone();
        mutate(src, &mut b, &e.sites, m.le);
        ctx.evals += 1;
        if completeness(&b, &fds)? {
            ctx.label("well-formed mutant");
            if b != e.buf {
                ctx.hit(hash_bytes(3, &b));
            }
        }
    }
    Ok(())
}

/// A plausible message grammar filled with arbitrary bytes: valid fixed header and fields, body
/// signature chosen freely, body bytes from a small pool.
fn forged(src: &mut Src, ctx: &mut Ctx) -> Res {
    let le = !src.bool();
    let n = src.below(4) as usize;
    let mut sig = String::new();
    for _ in 0..n + 1 {
        if src.chance(1, 3) {
            for _ in 0..1 + src.below(4) {
                sig.push(*src.pick(CODES) as char);
            }
        } else {
            sig.push_str(&gen::ty(src, 3, &O).text());
        }
    }
    sig.truncate(255);
    let mut e = Enc::new(le);
    e.buf.extend_from_slice(&[if le { b'l' } else { b'B' }, 2, 0, 1]);
    e.buf.extend_from_slice(&[0; 12]);
    // reply serial and signature
    e.buf.extend_from_slice(&[5, 1, b'u', 0]);
    e.buf.extend_from_slice(&[1; 4]);
    e.buf.extend_from_slice(&[8, 1, b'g', 0]);
    e.sig(&sig, SigKind::Value);
    let hdr = e.buf.len() - 16;
    e.align(8);
    let start = e.buf.len();
    put32(&mut e.buf, le, 8, 9);
    put32(&mut e.buf, le, 12, hdr as u32);
    let k = src.below(64) as usize;
    let style = src.below(4);
    for i in 0..k {
        let x = match style {
            0 => 0,
            1 => *src.pick(&[0u8, 0, 0, 0, 1, 2, 4, 8]),
            2 => *src.pick(&[0u8, 0, 0, 1, 1, b's', b'a', b'y', b'/', b'v', b'(', b')', b'u', 2, 3, 5]),
            _ => src.below(256) as u8,
        };
        let _ = i;
        e.buf.push(x);
    }
    // a body length that fits: try the declared length of every possible end
    let fds = [3, 4, 5];
    ctx.desc(|| format!("forged body for signature {:?}: {}", sig, hex(&e.buf[start..])));
    let mut b = e.buf;
    let mut any = false;
    for l in 0..=k {
        put32(&mut b, le, 4, l as u32);
        ctx.evals += 1;
        any |= differential(&b, &fds)?;
        completeness(&b, &fds)?;
    }
    ctx.label(if any { "some length accepted" } else { "no length accepted" });
    ctx.hit(hash_bytes(4, &b));
    Ok(())
}

/// Arbitrary bytes, optionally after a valid start.
fn noise(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut b: Vec<u8> = Vec::new();
    let style = src.below(4);
    if style > 0 {
        b.extend_from_slice(&[if src.bool() { b'l' } else { b'B' }, 1 + src.below(4) as u8, src.below(8) as u8, 1]);
    }
    if style > 1 {
        let le = b[0] == b'l';
        let bl = src.below(40) as u32;
        let hl = src.below(60) as u32;
        b.extend_from_slice(&[0; 12]);
        put32(&mut b, le, 4, bl);
        put32(&mut b, le, 8, 1);
        put32(&mut b, le, 12, hl);
    }
    let k = src.below(120) as usize;
    for _ in 0..k {
        let x = if style == 3 {
            *src.pick(&[0u8, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, b's', b'o', b'u', b'g', b'/', b'a', b'.'])
        } else {
            gen::int(src, 8) as u8
        };
        b.push(x);
    }
    ctx.desc(|| hex(&b));
    ctx.hit(hash_bytes(5, &b));
    differential(&b, &[1, 2])?;
    completeness(&b, &[1, 2])?;
    Ok(())
}

/// Header entries of arbitrary codes and values, and arbitrary bodies, marshalled correctly.
fn raw_fields(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (m, fds, _) = base(src);
    let mut raw = m.raw(&m.canonical_order());
    for _ in 0..1 + src.below(3) {
        match src.below(4) {
            0 if !raw.fields.is_empty() => {
                let i = src.usize(raw.fields.len());
                raw.fields[i].0 = src.below(12) as u8;
            }
            1 if !raw.fields.is_empty() => {
                let i = src.usize(raw.fields.len());
                raw.fields.remove(i);
            }
            2 if !raw.fields.is_empty() => {
                let i = src.usize(raw.fields.len());
                let f = raw.fields[i].clone();
                raw.fields.push(f);
            }
            _ => {
                let v = field_value(src);
                let i = src.usize(raw.fields.len() + 1);
                raw.fields.insert(i, (src.below(11) as u8, v));
            }
        }
    }
    if src.chance(1, 4) {
        raw.body = gen::small_msg(src, &O).body;
    }
    ctx.desc(|| format!("{:?}", raw));
    let b = encode_raw(&raw, false).buf;
    ctx.hit(hash_bytes(6, &b));
    let a = differential(&b, &fds)?;
    completeness(&b, &fds)?;
    ctx.label(if a { "accepted" } else { "refused" });
    Ok(())
}

/// Texts and values that header fields carry, right and wrong.
pub fn field_value(src: &mut Src) -> Val {
    match src.below(10) {
        0 => Val::O(gen::path(src)),
        1 => Val::S(gen::interface(src)),
        2 => Val::S(gen::member(src)),
        3 => Val::S(gen::bus(src)),
        4 => Val::U(src.below(100) as u32),
        5 => Val::G(gen::signature(src, &O)),
        6 => Val::S(gen::path(src)),
        7 => Val::S(bad_name(src)),
        8 => Val::V(Box::new(Val::U(1))),
        _ => {
            let t = gen::ty(src, 2, &O);
            let mut b = gen::Budget(4);
            // inside the (yv) entry one variant is already used up
            gen::val(src, &t, 1, &mut b, &O)
        }
    }
}

fn bad_name(src: &mut Src) -> String {
    let mut s = match src.below(3) {
        0 => gen::interface(src),
        1 => gen::member(src),
        _ => gen::bus(src),
    };
    match src.below(7) {
        0 => s.clear(),
        1 => s.push('.'),
        2 => s.insert(0, '.'),
        3 => s.insert(0, '7'),
        4 => {
            let i = src.usize(s.len() + 1);
            s.insert(i, *src.pick(&['!', ' ', '-', '/', ':', '.', '\u{e9}', '\0']));
        }
        5 => {
            while s.len() < 256 {
                s.push('x');
            }
        }
        _ => {
            if let Some(i) = s.rfind('.') {
                s.insert(i + 1, '3');
            }
        }
    }
    s
}

// --------------------------------------------------------------------------------------------
// C26

fn expect(got: &Result<(dbus_message_parser::message::Message, usize, usize), DecodeError>, want: &DecodeError, what: &str, b: &[u8]) -> Res {
    match got {
        // NaN differs from itself: then the printed form decides
        Err(e) if e == want || format!("{:?}", e) == format!("{:?}", want) => Ok(()),
        Err(e) => bail!("{}: error is {:?}, expected {:?} ({})", what, e, want, hex(b)),
        Ok(_) => bail!("{}: accepted, expected {:?} ({})", what, want, hex(b)),
    }
}

/// Every byte-level fault at every applicable place of one message.
fn byte_faults(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (m, fds, e) = base(src);
    let le = m.le;
    ctx.desc(|| format!("faults injected into {}", m.show()));
    ctx.hit(hash_bytes(7, &e.buf));
    let x8 = 1 + src.below(255) as u8;
    let x32 = gen::int(src, 32) as u32;
    let pickpos = src.u64() as usize;
    let one = |ctx: &mut Ctx, what: &str, want: DecodeError, edit: &dyn Fn(&mut Vec<u8>)| -> Res {
        let mut b = e.buf.clone();
        edit(&mut b);
        ctx.evals += 1;
        let r = dec_fds(&b, &fds);
        expect(&r, &want, what, &b)?;
        if fds.is_empty() || !has_fd(&m.body) {
            let r = dec(&b).map(|x| (x.0, x.1, 0));
            expect(&r, &want, what, &b)?;
        }
        Ok(())
    };
    if x8 != b'l' && x8 != b'B' {
        one(ctx, "byte order mark", DecodeError::Endianness(x8), &|b| b[0] = x8)?;
    }
    let t = if x8 <= 4 { 0 } else { x8 };
    one(ctx, "message type", DecodeError::MessageType(t), &|b| b[1] = t)?;
    let f = if x8 & !7 == 0 { x8 | 8 } else { x8 };
    one(ctx, "flags", DecodeError::MessageFlags(f), &|b| b[2] = f)?;
    // header array
    let hl = get32(&e.buf, le, 12);
    let big = 0x0400_0001u32.max(x32);
    one(ctx, "header array length", DecodeError::ArrayTooBig(big), &|b| put32(b, le, 12, big))?;
    one(ctx, "header array length", DecodeError::ArrayTooBig(0x0400_0001), &|b| put32(b, le, 12, 0x0400_0001))?;
    if hl > 0 {
        one(
            ctx,
            "header array one byte short",
            DecodeError::ArrayInvalidLength(16 + hl as usize, 15 + hl as usize),
            &|b| put32(b, le, 12, hl - 1),
        )?;
    }
    for s in &e.sites {
        match s {
            Site::Pad { off } => {
                one(ctx, "padding", DecodeError::Padding(x8), &|b| b[*off] = x8)?;
                ctx.label("padding");
            }
            Site::Nul { off } => {
                one(ctx, "terminator", DecodeError::StringNotNull(x8), &|b| b[*off] = x8)?;
                ctx.label("terminator");
            }
            Site::Bool { off } => {
                let x = x32.max(2);
                one(ctx, "boolean", DecodeError::InvalidBoolean(x), &|b| put32(b, le, *off, x))?;
                one(ctx, "boolean", DecodeError::InvalidBoolean(0x0100_0000), &|b| put32(b, le, *off, 0x0100_0000))?;
                ctx.label("boolean");
            }
            Site::Fd { off } => {
                let x = x32.max(fds.len() as u32);
                one(ctx, "descriptor index", DecodeError::NotEnoughFds(fds.len(), x as usize), &|b| put32(b, le, *off, x))?;
                let x = fds.len() as u32;
                one(ctx, "descriptor index", DecodeError::NotEnoughFds(fds.len(), x as usize), &|b| put32(b, le, *off, x))?;
                ctx.label("descriptor index");
            }
            Site::Code { off, .. } => {
                let x = if x8 < 10 { 0 } else { x8 };
                one(ctx, "field code", DecodeError::MessageHeaderFieldsError(FE::InvalidNumber(x)), &|b| b[*off] = x)?;
            }
            Site::ArrLen { off, start, ends } => {
                one(ctx, "array length", DecodeError::ArrayTooBig(big), &|b| put32(b, le, *off, big))?;
                one(ctx, "array length", DecodeError::ArrayTooBig(0x0400_0001), &|b| put32(b, le, *off, 0x0400_0001))?;
                let end = *ends.last().unwrap_or(start);
                if end > start + 1 {
                    let cut = start + 1 + pickpos % (end - start - 1);
                    if !ends.contains(&cut) {
                        let over = *ends.iter().find(|x| **x > cut).unwrap();
                        one(
                            ctx,
                            "array length inside an element",
                            DecodeError::ArrayInvalidLength(over, cut),
                            &|b| put32(b, le, *off, (cut - start) as u32),
                        )?;
                        ctx.label("array length inside an element");
                    }
                }
            }
            Site::Text { off, len, kind, field } if *len > 0 => {
                let i = pickpos % *len;
                match kind {
                    TextKind::Str => {
                        // invalid UTF-8, found wherever the standard library finds it
                        for bad in [0xffu8, 0xc3, 0x80] {
                            let mut t = e.buf[*off..*off + *len].to_vec();
                            t[i] = bad;
                            if let Err(u) = std::str::from_utf8(&t) {
                                one(ctx, "invalid UTF-8", DecodeError::Utf8Error(u), &|b| b[*off + i] = bad)?;
                                ctx.label("invalid UTF-8");
                            }
                        }
                        if *field != 0 {
                            let mut t = e.buf[*off..*off + *len].to_vec();
                            let bad = *[b'!', b'.', b':', b'/', b'-', b'5'].get(pickpos / 7 % 6).unwrap();
                            t[i] = bad;
                            let s = String::from_utf8(t).unwrap();
                            if let Some(w) = name_fault(*field, &s) {
                                one(ctx, "invalid name", DecodeError::MessageHeaderFieldsError(w), &|b| b[*off + i] = bad)?;
                                ctx.label("invalid name");
                            }
                        }
                    }
                    TextKind::Path => {
                        if i > 0 {
                            for bad in [b'!', b'-', b'.', 0x80, 0xff, 0] {
                                one(
                                    ctx,
                                    "object path character",
                                    DecodeError::ObjectPathError(ObjectPathError::InvalidChar(bad)),
                                    &|b| b[*off + i] = bad,
                                )?;
                                ctx.label("object path character");
                            }
                        }
                        one(
                            ctx,
                            "object path end",
                            DecodeError::ObjectPathError(if *len == 1 {
                                ObjectPathError::BeginAlphanumericAndUnderscoreAndHyphen
                            } else if e.buf[*off + *len - 2] == b'/' {
                                if *len == 2 { ObjectPathError::ElementEmtpy } else { ObjectPathError::ElementEmtpy }
                            } else {
                                ObjectPathError::EndSlash
                            }),
                            &|b| b[*off + *len - 1] = if *len == 1 { b'a' } else { b'/' },
                        )?;
                    }
                }
            }
            Site::Sig { off, len, .. } if *len > 0 => {
                let i = pickpos % *len;
                let bad = if CODES.contains(&x8) { b'!' } else { x8 };
                // a wrong character where the closing bracket of a dict belongs is reported as
                // the missing bracket
                let dict = e.buf[*off + i] == b'}';
                let want = if dict {
                    TypeError::ClosingCurlyBracket(i, bad)
                } else {
                    TypeError::InvalidChar(bad)
                };
                one(ctx, "signature character", DecodeError::SignatureError(want), &|b| b[*off + i] = bad)?;
                ctx.label("signature character");
            }
            _ => (),
        }
    }
    // missing bytes
    for k in [0, 1, 3, 4, 7, 11, 15, 16, 1 + pickpos % (e.buf.len() - 1), e.buf.len() - 1] {
        if k >= e.buf.len() {
            continue;
        }
        ctx.evals += 1;
        match dec_fds(&e.buf[..k], &fds) {
            Err(DecodeError::NotEnoughBytes(h, n)) if h == k && n > k => (),
            r => bail!("{} of {} bytes: {:?}", k, e.buf.len(), r.map(|x| x.1)),
        }
    }
    // body length
    let bl = get32(&e.buf, le, 4);
    let end = e.buf.len();
    let delta = 1 + src.below(40) as u32;
    let mut lens = vec![bl + delta];
    let far = 1 + if src.chance(1, 20) { gen::int(src, 17) } else { gen::int(src, 12) } as u32;
    lens.push(bl + far);
    if bl > 1 {
        lens.push(bl - (1 + pickpos as u32 % (bl - 1)));
        lens.push(bl - 1);
    }
    let tail = match src.below(4) {
        0 => far as usize + src.below(9) as usize,
        _ => src.below(64) as usize,
    };
    for l in lens {
        if l == bl {
            continue;
        }
        let declared = e.body + l as usize;
        let want = if m.body.is_empty() {
            if e.sites.iter().any(|s| matches!(s, Site::Code { code: SIGNATURE, .. })) {
                DecodeError::BodyLength(declared, end)
            } else {
                DecodeError::BodySignatureMissing(l)
            }
        } else {
            DecodeError::BodyLength(declared, end)
        };
        let mut b = e.buf.clone();
        put32(&mut b, le, 4, l);
        b.resize(b.len() + tail, 0);
        ctx.evals += 1;
        match dec_fds(&b, &fds) {
            Err(x) if x == want => (),
            // fewer bytes than declared may also be reported as missing
            Err(DecodeError::NotEnoughBytes(h, n)) if h == b.len() && n == declared && declared > b.len() => (),
            r => bail!("declared body length {} instead of {}: {:?}, expected {:?}", l, bl, r.map(|x| x.1), want),
        }
        ctx.label("body length");
    }
    if !m.body.is_empty() {
        let sig: Vec<Type> = m.sig().iter().map(|t| t.to_lib()).collect();
        let mut b = e.buf.clone();
        put32(&mut b, le, 4, 0);
        ctx.evals += 1;
        expect(&dec_fds(&b, &fds), &DecodeError::BodyLengthZero(sig), "body length zero", &b)?;
    }
    Ok(())
}

/// The error the name's own constructor gives, wrapped the way decoding reports it.
fn name_fault(field: u8, s: &str) -> Option<FE> {
    match field {
        INTERFACE => Interface::try_from(s).err().map(FE::InterfaceError),
        MEMBER => Member::try_from(s).err().map(FE::MemberError),
        ERROR_NAME => Error::try_from(s).err().map(FE::ErrorError),
        DESTINATION | SENDER => Bus::try_from(s).err().map(FE::BusError),
        _ => None,
    }
}

fn wrong_type(code: u8, v: Value) -> FE {
    match code {
        1 => FE::Path(v),
        2 => FE::Interface(v),
        3 => FE::Member(v),
        4 => FE::ErrorName(v),
        5 => FE::ReplySerial(v),
        6 => FE::Destination(v),
        7 => FE::Sender(v),
        8 => FE::Signature(v),
        _ => FE::UnixFDs(v),
    }
}

fn multiple(code: u8, v: Value) -> FE {
    match code {
        1 => FE::MultiplePath(v),
        2 => FE::MultipleInterface(v),
        3 => FE::MultipleMember(v),
        4 => FE::MultipleErrorName(v),
        5 => FE::MultipleReplySerial(v),
        6 => FE::MultipleDestination(v),
        7 => FE::MultipleSender(v),
        8 => FE::MultipleSignature(v),
        _ => FE::MultipleUnixFDs(v),
    }
}

pub fn missing_error(code: u8) -> MessageHeaderError {
    match code {
        1 => MessageHeaderError::MissingPath,
        2 => MessageHeaderError::MissingInterface,
        3 => MessageHeaderError::MissingMember,
        4 => MessageHeaderError::MissingErrorName,
        _ => MessageHeaderError::MissingReplySerial,
    }
}

pub fn valid_field(src: &mut Src, code: u8) -> Val {
    match code {
        1 => Val::O(gen::path(src)),
        2 | 4 => Val::S(gen::interface(src)),
        3 => Val::S(gen::member(src)),
        5 | 9 => Val::U(gen::int(src, 32) as u32),
        6 | 7 => Val::S(gen::bus(src)),
        _ => Val::G(gen::signature(src, &O)),
    }
}

pub fn other_type_value(src: &mut Src, code: u8) -> Val {
    let right = match code {
        1 => Ty::O,
        5 | 9 => Ty::U,
        8 => Ty::G,
        _ => Ty::S,
    };
    loop {
        let t = gen::ty(src, 1, &O);
        if t == right {
            if right == Ty::Y {
                return Val::B(false);
            }
            return Val::Y(3);
        }
        let mut b = gen::Budget(3);
        return gen::val(src, &t, 1, &mut b, &O);
    }
}

/// One fault among the header fields.
fn field_faults(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (m, fds, _) = base(src);
    let order = gen::order(src, &m);
    let mut raw = m.raw(&order);
    let kind = src.below(5);
    let want;
    match kind {
        0 => {
            // repeated, the second may come anywhere after the first
            let i = src.usize(raw.fields.len());
            let code = raw.fields[i].0;
            let v = if src.bool() { raw.fields[i].1.clone() } else { valid_field(src, code) };
            let j = i + 1 + src.usize(raw.fields.len() - i);
            raw.fields.insert(j, (code, v.clone()));
            want = DecodeError::MessageHeaderFieldsError(multiple(code, v.to_lib(&fds)));
            ctx.label("repeated field");
        }
        1 => {
            let i = src.usize(raw.fields.len());
            let code = raw.fields[i].0;
            let v = other_type_value(src, code);
            raw.fields[i].1 = v.clone();
            want = DecodeError::MessageHeaderFieldsError(wrong_type(code, v.to_lib(&fds)));
            ctx.label("field of the wrong type");
        }
        2 => {
            let req = required(m.mtype);
            let code = *src.pick(req);
            raw.fields.retain(|f| f.0 != code);
            want = DecodeError::MessageHeaderError(missing_error(code));
            ctx.label("missing required field");
        }
        3 => {
            let names: Vec<usize> =
                (0..raw.fields.len()).filter(|i| matches!(raw.fields[*i].0, 2 | 3 | 4 | 6 | 7)).collect();
            if names.is_empty() {
                return Ok(());
            }
            let i = *src.pick(&names);
            let s = bad_name(src);
            match name_fault(raw.fields[i].0, &s) {
                Some(w) => want = DecodeError::MessageHeaderFieldsError(w),
                None => return Ok(()),
            }
            raw.fields[i].1 = Val::S(s);
            ctx.label("invalid name");
        }
        _ => {
            if m.body.is_empty() {
                return Ok(());
            }
            raw.fields.retain(|f| f.0 != SIGNATURE);
            let b = encode_raw(&raw, false);
            want = DecodeError::BodySignatureMissing((b.buf.len() - b.body) as u32);
            ctx.label("missing body signature");
        }
    }
    let b = encode_raw(&raw, false).buf;
    ctx.desc(|| format!("{:?}: expected {:?}", raw, want));
    ctx.hit(hash_bytes(8, &b));
    expect(&dec_fds(&b, &fds), &want, "header field fault", &b)
}

/// Variants nested too deep, in any container combination, and a field nested too deep.
fn variant_faults(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = gen::small_msg(src, &O);
    m.body.truncate(1);
    let depth = 3 + src.below(6) as usize;
    let mut v = Val::Y(1);
    for i in 0..depth {
        v = match src.below(4) {
            0 | 1 => v,
            2 => Val::R(vec![v]),
            _ => {
                let t = v.ty();
                Val::A(t, vec![v])
            }
        };
        let _ = i;
        v = Val::V(Box::new(v));
    }
    if src.bool() {
        v = Val::R(vec![Val::Y(3), v]);
    }
    m.body.push(v);
    let b = m.encode_fast().buf;
    ctx.desc(|| m.show());
    ctx.hit(hash_bytes(9, &b));
    let fds = [1, 2, 3, 4];
    if depth <= 4 {
        dec_fds(&b, &fds).map_err(|e| format!("variants nested {} deep: {:?}", depth, e))?;
        Ok(())
    } else {
        expect(&dec_fds(&b, &fds), &DecodeError::VariantDepth(5), "variants nested too deep", &b)
    }
}

/// A signature that is faulty in one way at any place where a signature occurs.
fn signature_faults(src: &mut Src, ctx: &mut Ctx) -> Res {
    let le = !src.bool();
    let place = src.below(3);
    let good = gen::ty(src, 2, &O).text();
    let (text, single): (String, bool) = match src.below(9) {
        0 => (format!("{}(", good), false),
        1 => (format!("{}a", good), false),
        2 => (format!("({}", good), false),
        3 => ("()".into(), false),
        4 => (format!("a{{{}}}", good), false),
        5 => (format!("a{{s{}s}}", good), false),
        6 => (format!("{}{}", good, good), true),
        7 => ("".into(), true),
        _ => (format!("{}y)", good), false),
    };
    if text.len() > 200 {
        return Ok(());
    }
    let lib = Type::from_string_to_signature(&text).err();
    let lib1 = Type::try_from(text.as_str()).err();
    let mut e = Enc::new(le);
    e.buf.extend_from_slice(&[if le { b'l' } else { b'B' }, 2, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    e.buf.extend_from_slice(&[5, 1, b'u', 0, 1, 1, 1, 1, 8, 1, b'g', 0]);
    let err = match place {
        0 => {
            if single {
                return Ok(());
            }
            e.sig(&text, SigKind::Value);
            lib
        }
        1 => {
            e.sig("g", SigKind::Value);
            if single {
                return Ok(());
            }
            lib
        }
        _ => {
            e.sig("v", SigKind::Value);
            lib1
        }
    };
    let hl = e.buf.len() - 16;
    put32(&mut e.buf, le, 12, hl as u32);
    e.align(8);
    let st = e.buf.len();
    if place != 0 {
        e.sig(&text, SigKind::Variant);
    }
    e.buf.extend_from_slice(&[0; 24]);
    let bl = e.buf.len() - st;
    put32(&mut e.buf, le, 4, bl as u32);
    ctx.desc(|| format!("faulty signature {:?} at place {}", text, place));
    ctx.hit(hash_bytes(10, &e.buf));
    let b = e.buf;
    match err {
        Some(x) => expect(&dec(&b).map(|x| (x.0, x.1, 0)), &DecodeError::SignatureError(x), "faulty signature", &b),
        None => bail!("faulty signature {:?} parses", text),
    }
}

/// Errors for well-formed prefixes of the message followed by a lying string length.
fn length_faults(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (m, fds, e) = base(src);
    ctx.desc(|| format!("string lengths pointing outside {}", m.show()));
    let whole = Bytes::copy_from_slice(&e.buf);
    let total = whole.len();
    let extra = gen::int(src, 31) as usize;
    for s in &e.sites {
        if let Site::StrLen { off, .. } = s {
            let need = total - (off + 4) + 1 + extra;
            if need > u32::MAX as usize {
                continue;
            }
            let mut b = e.buf.clone();
            put32(&mut b, m.le, *off, need as u32);
            ctx.evals += 1;
            ctx.label("string length");
            match dec_fds(&b, &fds) {
                Err(DecodeError::NotEnoughBytes(h, n)) if h == total && n >= off + 4 + need => (),
                r => bail!("string length {} at {} of {} bytes: {:?} ({})", need, off, total, r.map(|x| x.1), hex(&b)),
            }
            ctx.hit(hash_bytes(11, &b));
        }
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    const MODEL: &str = "the reference marshaller, unmarshaller and name grammars of the harness follow the D-Bus specification";
    const LENIENT: &str = "NUL inside strings, dict entries outside arrays or with container keys, serial 0 and any version are accepted by the library (pinned by its tests or documented nowhere) and are not counted as malformed";
    vec![
        Check {
            id: "C04",
            rule: "every padding, terminator and boolean byte of generated messages set to invalid values; texts, paths and arrays of every magnitude up to 2^17 bytes with one wrong place; 24 structured or byte-level mutants per message, forged bodies under every declared length, correctly marshalled headers with arbitrary fields, and raw noise, each compared with a strict reference unmarshaller (accepted by the library implies accepted by the reference with the same content, size and descriptors). Non-trivial: distinct byte strings that differ from a well-formed message.",
            assumptions: &[MODEL, LENIENT],
            stack: 16 * MB,
            subs: vec![
                sub("every padding, NUL and boolean byte", 10_000, 200_000, every_byte),
                sub("every value of a terminator", 5 * 301, 5 * 301, every_terminator),
                sub("long values", 12_000, 200_000, long_values),
                sub("mutants", 90_000, 2_500_000, structural),
                sub("forged bodies", 36_000, 800_000, forged),
                sub("arbitrary header fields", 90_000, 2_000_000, raw_fields),
                sub("noise", 240_000, 8_000_000, noise),
            ],
        },
        Check {
            id: "C26",
            rule: "well-formed messages with exactly one injected fault - every applicable place of each message is tried in turn - and the exact error, with the offending value, expected. Non-trivial: distinct damaged messages.",
            assumptions: &[MODEL, "the error of a name or signature inside a message is the error its own constructor gives"],
            stack: 16 * MB,
            subs: vec![
                sub("byte faults", 40_000, 500_000, byte_faults),
                sub("field faults", 240_000, 3_000_000, field_faults),
                sub("variant faults", 80_000, 500_000, variant_faults),
                sub("signature faults", 80_000, 500_000, signature_faults),
                sub("length faults", 80_000, 800_000, length_faults),
            ],
        },
    ]
}
