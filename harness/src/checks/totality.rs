//! C05: decoding anything terminates with a result or an error, on a 2 MiB stack, with memory
//! proportional to the input.
use super::*;
use crate::checks::faults::{mutate, mutate_one};
use crate::gen::{self, Opts};
use crate::rules;
use crate::wire::*;
use dbus_message_parser::match_rule::MatchRule;
use dbus_message_parser::message::MessageHeaderFields;
use dbus_message_parser::value::{
    Bus, Error, Interface, Member, ObjectPath, Type, UniqueConnectionName, Value, WellKnownBusName,
};
use std::convert::TryFrom;

const O: Opts = Opts { free_dict: true, fds: 4, nul: true };

/// Bytes of memory per input byte allowed for arbitrary input. An array repeats its element
/// type in every element value, so an empty array of a 255-character type (8 bytes on the wire)
/// legitimately costs thousands of bytes.
const PER_BYTE: u64 = 2048;
/// The same when no type in the message has more than a handful of nodes.
const PER_BYTE_PLAIN: u64 = 256;
const FIXED: u64 = 256 * 1024;

/// The peak stays within `allowed`, everything requested within four times that (a growing
/// buffer requests twice its final size), and the processor time within seconds.
fn affordable(c: &crate::alloc::Cost, allowed: u64, len: usize) -> Res {
    ensure!(
        c.peak <= allowed,
        "held {} bytes of memory at once (largest request {}), more than {}",
        c.peak, c.big, allowed
    );
    ensure!(c.total <= 4 * allowed, "requested {} bytes of memory in total, more than {}", c.total, 4 * allowed);
    let time = 3_000_000 + 5 * len as u64;
    ensure!(c.cpu_us <= time, "took {} us of processor time, more than {}", c.cpu_us, time);
    Ok(())
}

fn decode_all(b: &[u8], fds: &[i32], per_byte: u64, ctx: &mut Ctx) -> Res {
    let whole = Bytes::copy_from_slice(b);
    let allowed = FIXED + per_byte * b.len() as u64;
    for mode in 0..2 {
        let w = whole.clone();
        ctx.evals += 1;
        let (ok, cost) = crate::alloc::measure(move || {
            if mode == 0 {
                Message::decode(w).is_ok()
            } else {
                Message::decode_with_fds(w, fds).is_ok()
            }
        });
        ctx.label(if ok { "decodes" } else { "refused" });
        affordable(&cost, allowed, b.len()).map_err(|e| format!("decoding {} bytes {}: {}", b.len(), e, hex(b)))?;
    }
    Ok(())
}

fn fd_list(src: &mut Src) -> Vec<i32> {
    let n = match src.weighted(&[4, 4, 1]) {
        0 => 0,
        1 => src.below(6) as usize,
        _ => *src.pick(&[255usize, 256, 1000]),
    };
    (0..n).map(|_| gen::int(src, 32) as i32).collect()
}

/// Raw bytes, bytes behind a plausible start, and bytes made of a small alphabet.
fn noise(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = gen::len(src, 60, 1200);
    let kind = src.below(3);
    let mut b: Vec<u8> = (0..n)
        .map(|_| match kind {
            0 => src.below(256) as u8,
            1 => *src.pick(&[0u8, 0, 0, 1, 2, 4, 8, 0xff, b'a', b'v', b's', b'(', b')', b'{', b'}', b'y', b'/', b'.', b':']),
            _ => gen::int(src, 8) as u8,
        })
        .collect();
    let le = !src.bool();
    if src.chance(4, 5) && b.len() >= 16 {
        b[0] = if le { b'l' } else { b'B' };
        b[1] = src.below(6) as u8;
        b[2] = src.below(9) as u8;
        b[3] = 1;
        let l = b.len() as u64;
        let hl = match src.below(4) {
            0 => gen::int(src, 32) as u32,
            1 => 0,
            _ => src.below(l) as u32,
        };
        put32(&mut b, le, 12, hl);
        let bl = match src.below(3) {
            0 => gen::int(src, 32) as u32,
            1 => (l as u32).wrapping_sub(16).wrapping_sub(hl),
            _ => src.below(l) as u32,
        };
        put32(&mut b, le, 4, bl);
    }
    let fds = fd_list(src);
    ctx.desc(|| format!("bytes {} with {} descriptors", hex(&b), fds.len()));
    ctx.hit(hash_bytes(1, &b));
    decode_all(&b, &fds, PER_BYTE, ctx)
}

/// Damaged and truncated messages.
fn damaged(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = gen::small_msg(src, &O);
    if src.chance(1, 3) {
        m.body = gen::body(src, &O);
    }
    let order = gen::order(src, &m);
    let e = encode_raw(&m.raw(&order), true);
    let fds = fd_list(src);
    ctx.desc(|| format!("damaged copies of {}", m.show()));
    for _ in 0..10 {
        let mut b = e.buf.clone();
        if src.chance(1, 10) {
            for _ in 0..1 + src.below(30) {
                mutate_one(src, &mut b, &e.sites, m.le);
            }
        } else {
            mutate(src, &mut b, &e.sites, m.le);
        }
        ctx.hit(hash_bytes(2, &b));
        decode_all(&b, &fds, PER_BYTE, ctx)?;
    }
    Ok(())
}

/// Every 32-bit number and signature length of a message claims something enormous; the body
/// length is also raised so that the claim is not refused for that reason.
fn lying(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = gen::small_msg(src, &O);
    if src.chance(1, 2) {
        m.body = gen::body(src, &O);
    }
    let e = m.encode();
    let le = m.le;
    let fds = fd_list(src);
    ctx.desc(|| format!("lengths of {} claiming too much", m.show()));
    let huge: [u32; 14] = [
        0x7fff_ffff, 0x8000_0000, u32::MAX, u32::MAX - 7, 0x03ff_ffff, 0x0400_0000, 0x0400_0001, 0x03ff_fff8,
        0x07ff_ffff, 0x0800_0000, 0x0800_0001, 0x0100_0000, 0x0010_0000, u32::MAX - 15,
    ];
    let mut places: Vec<(usize, bool)> = vec![(4, false), (12, false)];
    for s in &e.sites {
        match s {
            Site::StrLen { off, .. } | Site::ArrLen { off, .. } | Site::Fd { off } => places.push((*off, false)),
            Site::SigLen { off, .. } => places.push((*off, true)),
            _ => (),
        }
    }
    for _ in 0..30.min(2 * places.len()) {
        let (off, byte) = *src.pick(&places);
        let mut b = e.buf.clone();
        if byte {
            b[off] = *src.pick(&[255u8, 254, 128, 127]);
        } else {
            put32(&mut b, le, off, *src.pick(&huge));
        }
        match src.below(4) {
            0 => put32(&mut b, le, 4, *src.pick(&huge)),
            1 => put32(&mut b, le, 12, *src.pick(&huge)),
            2 => {
                put32(&mut b, le, 4, *src.pick(&huge));
                put32(&mut b, le, 12, *src.pick(&huge));
            }
            _ => (),
        }
        if src.bool() {
            let k = src.usize(b.len() + 1);
            b.truncate(k);
        } else {
            b.resize(b.len() + src.below(300) as usize, *src.pick(&[0u8, 1, 0xff]));
        }
        ctx.hit(hash_bytes(3, &b));
        decode_all(&b, &fds, PER_BYTE, ctx)?;
    }
    Ok(())
}

/// A message whose body is `sig` followed by arbitrary bytes.
fn with_body(le: bool, sig: &str, body: &[u8]) -> Vec<u8> {
    let mut e = Enc::new(le);
    e.buf.extend_from_slice(&[if le { b'l' } else { b'B' }, 2, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    put32(&mut e.buf, le, 8, 7);
    e.buf.extend_from_slice(&[5, 1, b'u', 0, 1, 1, 1, 1, 8, 1, b'g', 0]);
    e.sig(sig, SigKind::Value);
    let hl = e.buf.len() - 16;
    put32(&mut e.buf, le, 12, hl as u32);
    e.align(8);
    put32(&mut e.buf, le, 4, body.len() as u32);
    e.buf.extend_from_slice(body);
    e.buf
}

/// Nesting far beyond every limit: variants in variants, arrays of variants, structs, and
/// signatures of nothing but brackets.
fn deep(src: &mut Src, ctx: &mut Ctx) -> Res {
    let le = !src.bool();
    let levels = match src.below(3) {
        0 => src.below(70) as usize,
        1 => src.below(3000) as usize,
        _ => *src.pick(&[10_000usize, 60_000, 200_000]),
    };
    let kind = src.below(10);
    let mut body: Vec<u8> = Vec::new();
    let sig: String = match kind {
        0 => {
            for _ in 0..levels {
                body.extend_from_slice(&[1, b'v', 0]);
            }
            body.extend_from_slice(&[1, b'y', 0, 5]);
            "v".into()
        }
        1 => {
            // variants holding structs holding variants
            let levels = levels / 8;
            for i in 0..levels {
                if i > 0 {
                    while body.len() % 8 != 0 {
                        body.push(0);
                    }
                }
                body.extend_from_slice(&[3, b'(', b'v', b')', 0]);
                while body.len() % 8 != 0 {
                    body.push(0);
                }
            }
            body.extend_from_slice(&[1, b'y', 0, 5]);
            "v".into()
        }
        2 => {
            // arrays of variants with exact lengths, built from the inside
            let levels = levels.min(2000);
            let total = 8 * levels + 4;
            for i in 0..levels {
                body.extend_from_slice(&[2, b'a', b'v', 0]);
                let mut n = [0u8; 4];
                put32(&mut n, le, 0, (total - 8 * (i + 1)) as u32);
                body.extend_from_slice(&n);
            }
            body.extend_from_slice(&[1, b'y', 0, 5]);
            "v".into()
        }
        6..=9 => {
            // variants in dict keys, dict values, the second member of structs, and dicts in arrays
            let levels = levels / 16;
            let t = ["{vy}", "{yv}", "(yv)", "a{vy}"][kind as usize - 6];
            for _ in 0..levels {
                body.push(t.len() as u8);
                body.extend_from_slice(t.as_bytes());
                body.push(0);
                if kind == 9 {
                    while body.len() % 4 != 0 {
                        body.push(0);
                    }
                    let left = 16 * (levels + 4) as u32;
                    body.extend_from_slice(&if le { left.to_le_bytes() } else { left.to_be_bytes() });
                }
                while body.len() % 8 != 0 {
                    body.push(0);
                }
                if kind == 7 || kind == 8 {
                    body.push(1);
                }
            }
            body.extend_from_slice(&[1, b'y', 0, 5]);
            body.extend_from_slice(&[0; 64]);
            "v".into()
        }
        3 => {
            body = vec![0; 64];
            let n = src.below(256) as usize;
            src.pick(&["a", "(", "a{y", "a(", "v", "{"]).chars().cycle().take(n).collect()
        }
        4 => {
            let t = gen::deep_ty(src, &O).text();
            body = vec![0; 8 * src.below(40) as usize];
            t
        }
        _ => {
            // a variant whose signature is nothing but brackets
            let n = src.below(256) as usize;
            let s: String = src.pick(&["a", "(", "a{y", "a("]).chars().cycle().take(n).collect();
            body.push(s.len() as u8);
            body.extend_from_slice(s.as_bytes());
            body.extend_from_slice(&[0; 65]);
            "v".into()
        }
    };
    let b = with_body(le, &sig, &body);
    ctx.desc(|| format!("signature {:?}, body {}", sig, hex(&body)));
    ctx.hit(hash_bytes(4, &b));
    ctx.label(match kind {
        0..=2 | 6..=9 => "nested variants",
        3 | 5 => "bracket signature",
        _ => "deep type",
    });
    decode_all(&b, &[1, 2], PER_BYTE, ctx)
}

/// Values as deep as the limits allow, whole and damaged.
fn deepest(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut v = gen::val(src, &Ty::U, 4, &mut gen::Budget(1), &O);
    let variants = 1 + src.below(4);
    let mut levels = 0;
    for _ in 0..variants {
        let full = src.bool();
        let mut left = [32u64, 32, 32].map(|n| if full { n } else { src.below(n + 1) });
        while left[0] + left[1] + left[2] > 0 {
            let k = src.usize(3);
            let k = (k..k + 3).map(|k| k % 3).find(|k| left[*k] > 0).unwrap_or(0);
            let t = v.ty();
            if t.text().len() > 245 {
                break;
            }
            left[k] -= 1;
            levels += 1;
            v = match k {
                0 => Val::R(vec![v]),
                1 if left[2] > 0 && src.bool() => {
                    left[2] -= 1;
                    levels += 1;
                    Val::A(Ty::E(Box::new((Ty::Y, t))), vec![Val::E(Box::new((Val::Y(1), v)))])
                }
                1 => Val::A(t, vec![v]),
                _ => Val::E(Box::new((Val::Y(2), v))),
            };
        }
        v = Val::V(Box::new(v));
    }
    let le = src.bool();
    let mut m = gen::small_msg(src, &O);
    m.le = le;
    m.body = vec![v];
    let mut b = m.encode_fast().buf;
    ctx.desc(|| format!("{} containers in {} variants: {}", levels, variants, hex(&b)));
    if levels > 200 {
        ctx.label("more than 200 levels");
    }
    ctx.hit(hash_bytes(9, &b));
    decode_all(&b, &[1, 2], PER_BYTE, ctx)?;
    match src.below(3) {
        0 => b.truncate(src.usize(b.len())),
        1 => {
            let k = b.len() - 1 - src.usize(b.len().min(600));
            b[k] ^= 1 << src.below(8);
        }
        _ => b.extend_from_slice(&[0; 9]),
    }
    decode_all(&b, &[1, 2], PER_BYTE, ctx)
}

/// Large inputs made of the smallest elements.
fn many_small(src: &mut Src, ctx: &mut Ctx) -> Res {
    let le = !src.bool();
    let mut n = 8 * (1 + src.below(if ctx.thorough { 60_000 } else { 12_000 })) as usize;
    let mut body = vec![0u8; 4];
    let kind = src.below(15);
    if kind != 8 && kind != 9 && src.chance(1, 8) {
        // long enough for quadratic work to show
        n = 8 * (40_000 + src.below(if ctx.thorough { 200_000 } else { 10_000 })) as usize;
    }
    let (sig, plain): (String, bool) = match kind {
        0 => ("ay".into(), true),
        1 => ("ab".into(), true),
        2 => ("aay".into(), true),
        3 => ("as".into(), true),
        4 => ("av".into(), true),
        5 => ("a(y)".into(), true),
        6 => ("a{yy}".into(), true),
        7 => ("ag".into(), true),
        10 => ("at".into(), true),
        11 => ("ad".into(), true),
        12 => ("as".into(), true),
        13 => ("a{us}".into(), true),
        14 => ("av".into(), true),
        8 => (format!("aa({})", "y".repeat(src.below(252) as usize + 1)), false),
        _ => {
            let mut t = gen::deep_ty(src, &O);
            for _ in 0..2 {
                t = Ty::A(Box::new(t));
            }
            (t.text(), false)
        }
    };
    while body.len() < if matches!(sig.as_str(), "a(y)" | "a{yy}" | "at" | "ad" | "a{us}") { 8 } else { 4 } {
        body.push(0);
    }
    let start = body.len();
    // distinct elements, in rising, falling or scattered order
    let turn = [1u64, u64::MAX, 0x9e37_79b9_7f4a_7c15][src.below(3) as usize];
    let int = |x: u64, le: bool| if le { x.to_le_bytes() } else { x.to_be_bytes() };
    match sig.as_str() {
        "at" => (0..n as u64 / 8).for_each(|i| body.extend_from_slice(&int(i.wrapping_mul(turn), le))),
        "ad" => (0..n as u64 / 8).for_each(|i| {
            let bits = if turn == 1 { 0x7ff8_0000_0000_0000 | i } else { (i as f64).to_bits() };
            body.extend_from_slice(&int(bits, le))
        }),
        "as" if kind == 12 => (0..n as u64 / 12).for_each(|i| {
            let x = format!("{:07x}", (i.wrapping_mul(turn)) & 0xfff_ffff);
            let k = body.len();
            body.extend_from_slice(&[0; 4]);
            put32(&mut body, le, k, 7);
            body.extend_from_slice(x.as_bytes());
            body.push(0);
        }),
        "a{us}" => (0..n as u64 / 16).for_each(|i| {
            let k = body.len();
            body.extend_from_slice(&[0; 8]);
            put32(&mut body, le, k, i.wrapping_mul(turn) as u32);
            put32(&mut body, le, k + 4, 7);
            body.extend_from_slice(format!("{:07x}", i).as_bytes());
            body.push(0);
        }),
        "av" if kind == 14 => (0..n as u64 / 8).for_each(|i| {
            let k = body.len();
            body.extend_from_slice(&[1, b'u', 0, 0, 0, 0, 0, 0]);
            put32(&mut body, le, k + 4, i.wrapping_mul(turn) as u32);
        }),
        "as" => {
            while body.len() < n {
                body.extend_from_slice(&[0; 8]);
            }
            body.truncate(body.len() - 3);
        }
        "av" => {
            while body.len() < n {
                body.extend_from_slice(&[1, b'y', 0, 7]);
            }
        }
        "a(y)" => {
            body.resize(n + 8 + 1, 0);
        }
        "a{yy}" => {
            body.resize(n + 8 + 2, 0);
        }
        "ag" => body.resize(4 + n, 0),
        _ => body.resize(4 + n, 0),
    }
    let l = (body.len() - start) as u32;
    put32(&mut body, le, 0, l);
    let b = with_body(le, &sig, &body);
    ctx.desc(|| format!("{} bytes of {}", body.len(), sig));
    ctx.hit(hash_bytes(5, &b));
    ctx.label(if plain { "small type" } else { "deep type" });
    decode_all(&b, &[], if plain { PER_BYTE_PLAIN } else { PER_BYTE }, ctx)
}

fn text(src: &mut Src) -> String {
    match src.below(6) {
        0 => {
            let n = gen::len(src, 30, 3000);
            const A: [&str; 26] = [
                "'", ",", "\\", "=", "arg", "0", "6", "path", "type", "sender", "a", ".", "/", ":", " ",
                "arg0namespace", "=true", "signal", "eavesdrop", "\u{e9}", "\u{20ac}", "\u{1f600}", "\0",
                "99999999999999999999", "-", "+",
            ];
            (0..n).map(|_| *src.pick(&A)).collect()
        }
        1 => {
            let n = gen::len(src, 30, 3000);
            (0..n).map(|_| char::from_u32(src.below(0x11_0000) as u32).unwrap_or('\u{fffd}')).collect()
        }
        2 => {
            let k = src.pick(&[
                "type", "sender", "interface", "member", "path", "path_namespace", "destination", "arg0",
                "arg63", "arg64", "arg0path", "arg18446744073709551615path", "arg18446744073709551616path",
                "arg0namespace", "eavesdrop", "arg", "argpath", "arg-1", "arg+1", "arg\u{663}", "",
            ]);
            format!("{}={}", k, gen::string_nul(src))
        }
        3 => {
            let mut s = String::new();
            for _ in 0..1 + src.below(4) {
                let r = rules::rule(src);
                let q = rules::quote(src, &r.value());
                s.push_str(&format!("{}={},", r.key(), q));
            }
            // one byte changed on a character boundary
            let mut i = src.usize(s.len() + 1);
            while !s.is_char_boundary(i) {
                i -= 1;
            }
            if src.bool() {
                s.truncate(i);
            } else {
                s.insert_str(i, src.pick(&["'", "\\", ",", "=", "\u{e9}"]));
            }
            s
        }
        4 => {
            let unit = *src.pick(&["'", "\\", ",", "=", "a=", "arg0=',", "arg0=\\", "arg0='',", "\\'", "type=signal,"]);
            unit.repeat(*src.pick(&[1usize, 2, 3, 17, 1000, 20_000]))
        }
        _ => gen::string_nul(src),
    }
}

fn texts(src: &mut Src, ctx: &mut Ctx) -> Res {
    let s = text(src);
    ctx.desc(|| format!("text {}", show_str(&s)));
    ctx.hit(hash_bytes(6, s.as_bytes()));
    let (r, cost) = crate::alloc::measure(|| {
        let a = MatchRule::decode(&s).is_ok();
        let b = MatchRule::try_from(s.as_str()).is_ok();
        (a, b)
    });
    ctx.label(if r.0 { "decodes" } else { "refused" });
    let allowed = 4096 + 512 * s.len() as u64;
    affordable(&cost, allowed, s.len()).map_err(|e| format!("decoding the match rules {} {}", show_str(&s), e))
}

/// Everything else that reads untrusted bytes or text.
fn names_and_signatures(src: &mut Src, ctx: &mut Ctx) -> Res {
    let b: Vec<u8> = match src.below(4) {
        0 => {
            let n = gen::len(src, 12, 400);
            (0..n).map(|_| src.below(256) as u8).collect()
        }
        1 => {
            let n = gen::len(src, 12, 400);
            (0..n).map(|_| *src.pick(b"a(){}vyshg")).collect()
        }
        2 => {
            let n = gen::len(src, 12, 400);
            (0..n).map(|_| *src.pick(b"a:./0-_Z ")).collect()
        }
        _ => text(src).into_bytes(),
    };
    ctx.desc(|| format!("bytes {} as name, path and signature", hex(&b)));
    ctx.hit(hash_bytes(7, &b));
    let (_, cost) = crate::alloc::measure(|| {
        let _ = Bus::try_from(b.as_slice()).is_ok();
        let _ = UniqueConnectionName::try_from(b.as_slice()).is_ok();
        let _ = WellKnownBusName::try_from(b.as_slice()).is_ok();
        let _ = Interface::try_from(b.as_slice()).is_ok();
        let _ = Error::try_from(b.as_slice()).is_ok();
        let _ = Member::try_from(b.as_slice()).is_ok();
        let _ = ObjectPath::try_from(b.as_slice()).is_ok();
        let _ = Type::from_bytes_to_signature(&b).is_ok();
        let _ = Type::try_from(b.as_slice()).is_ok();
        if let Ok(s) = std::str::from_utf8(&b) {
            let _ = Type::from_string_to_signature(s).is_ok();
            let _ = Type::try_from(s).is_ok();
        }
    });
    let allowed = 65_536 + PER_BYTE * b.len() as u64;
    affordable(&cost, allowed, b.len()).map_err(|e| format!("parsing {} {}", hex(&b), e))
}

/// Header fields from arbitrary values.
fn values(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.below(6);
    let mut vs: Vec<Value> = Vec::new();
    for _ in 0..n {
        let v = if src.bool() {
            let t = gen::ty(src, 3, &O);
            gen::val(src, &t, 0, &mut gen::Budget(20), &O)
        } else {
            let t = gen::ty(src, 2, &O);
            let v = gen::val(src, &t, 1, &mut gen::Budget(10), &O);
            Val::R(vec![Val::Y(gen::int(src, 8) as u8), Val::V(Box::new(v))])
        };
        vs.push(v.to_lib(&[1, 2, 3, 4]));
    }
    ctx.desc(|| format!("header fields from {:?}", vs));
    ctx.hit(hash_bytes(8, format!("{:?}", vs).as_bytes()));
    let _ = MessageHeaderFields::try_from(vs).is_ok();
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C05",
        rule: "noise, damaged messages, messages whose every length claims up to 4 GiB (also truncated or continued), nesting up to 200000 levels, valid values nested to every limit at once, large inputs of minimal elements, arbitrary rule texts, names and signatures, decoded on 2 MiB stacks under overflow checks with a counting allocator: no panic, abort, hang, peak memory within 256 KiB + 2048 (256 for small types) bytes per input byte, four times that in total requests, and processor time within 3 s + 5 us per byte. Non-trivial: distinct inputs.",
        assumptions: &[
            "memory is measured as the peak of live heap bytes and the sum of all requests of the decoding thread",
            "stack use is that of an optimised build with overflow checks",
        ],
        stack: 2 * MB,
        subs: vec![
            sub("noise", 400_000, 20_000_000, noise),
            sub("damaged messages", 80_000, 1_500_000, damaged),
            sub("lying lengths", 60_000, 1_000_000, lying),
            sub("deep nesting", 60_000, 500_000, deep),
            sub("deepest values", 6_000, 100_000, deepest),
            sub("many small elements", 400, 10_000, many_small),
            sub("match rule texts", 200_000, 4_000_000, texts),
            sub("names and signatures", 300_000, 6_000_000, names_and_signatures),
            sub("header field values", 90_000, 1_500_000, values),
        ],
    }]
}
