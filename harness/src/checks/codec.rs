//! C01, C02, C03, C06, C07, C08, C19, C25: whole-message encode/decode relations.
use super::edges;
use super::*;
use crate::dict;
use crate::gen::{self, Opts};
use crate::wire::*;
use bytes::Bytes;
use dbus_message_parser::decode::DecodeError;
use dbus_message_parser::message::{Message, MessageHeader};

const FREE: Opts = Opts { free_dict: true, fds: 4, nul: true };

/// Message with descriptors: table size depends on the case.
pub fn msg_with_fds(src: &mut Src, o: &Opts) -> (Msg, Vec<i32>) {
    let n = match src.weighted(&[6, 3, 1]) {
        0 => 1 + src.below(4) as usize,
        1 => 1 + src.below(40) as usize,
        _ => 1 + src.below(300) as usize,
    };
    let o = Opts { fds: n, ..*o };
    let mut m = gen::msg(src, &o);
    let fds = gen::fd_table(src, n);
    if src.chance(1, 12) {
        // an array that uses many descriptors, with repetitions
        let k = 1 + src.below(2 * n as u64) as usize;
        let a: Vec<Val> = (0..k).map(|i| Val::H(((i * 7 + i / n) % n) as u32)).collect();
        if sig_text(&m.sig()).len() <= 250 {
            m.body.push(Val::A(Ty::H, a));
        }
    }
    (m, fds)
}

fn nontrivial(m: &Msg, ctx: &mut Ctx) {
    ctx.label(if m.le { "little-endian" } else { "big-endian" });
    match m.mtype {
        1 => ctx.label("method_call"),
        2 => ctx.label("method_return"),
        3 => ctx.label("error"),
        _ => ctx.label("signal"),
    }
    let mut cont = false;
    for v in &m.body {
        v.each(&mut |v| match v {
            Val::V(_) => {
                cont = true;
            }
            Val::A(_, xs) if xs.is_empty() => ctx.label("empty array"),
            Val::A(_, xs) if xs.len() > 100 => ctx.label("array of more than 100"),
            Val::A(..) | Val::R(_) | Val::E(_) => cont = true,
            Val::S(s) if s.len() > 255 => ctx.label("long string"),
            Val::D(b) if f64::from_bits(*b).is_nan() => ctx.label("NaN"),
            Val::H(_) => ctx.label("descriptor"),
            _ => (),
        });
        let d = v.variant_depth();
        if d == 4 {
            ctx.label("variant depth 4");
        }
        let t = v.ty().depths();
        if t.0.max(t.1).max(t.2) >= 16 {
            ctx.label("nesting of 16 or more");
        }
    }
    if cont {
        ctx.label("containers");
    }
    if !m.body.is_empty() || m.h.codes().len() > required(m.mtype).len() {
        ctx.hit(m.hash64());
    }
}

fn roundtrip(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (m, fds) = msg_with_fds(src, &FREE);
    ctx.desc(|| format!("{} fds={:?}", m.show(), fds));
    roundtrip_msg(&m, &fds, ctx)
}

pub fn roundtrip_msg(m: &Msg, fds: &[i32], ctx: &mut Ctx) -> Res {
    let lib = m.to_lib(fds)?;
    nontrivial(m, ctx);
    let (want, list) = after_wire(m, fds);
    let resolved = resolve(&m.body, fds);
    let (bytes, got_list) =
        lib.encode_with_fds().map_err(|e| format!("encoding a valid message failed: {:?}", e))?;
    ensure!(got_list == list, "descriptors returned {:?}, expected {:?}", got_list, list);
    let n = bytes.len();
    let (back, used, nf) = Message::decode_with_fds(bytes.freeze(), &got_list)
        .map_err(|e| format!("decoding the encoded message failed: {:?}", e))?;
    ensure!(used == n, "decoding consumed {} of {} bytes", used, n);
    ensure!(nf == list.len(), "decoding used {} descriptors, expected {}", nf, list.len());
    check_message(&back, &want, &resolved)?;
    if list.is_empty() {
        let bytes = lib.encode().map_err(|e| format!("encode failed: {:?}", e))?;
        let n = bytes.len();
        let (back, used) = Message::decode(bytes.freeze())
            .map_err(|e| format!("decoding the encoded message failed: {:?}", e))?;
        ensure!(used == n, "decoding consumed {} of {} bytes", used, n);
        check_message(&back, &want, &resolved)?;
    }
    Ok(())
}

/// Every basic type at every alignment, both byte orders, inside every kind of container.
fn roundtrip_enum(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.enum_index(2 * 14 * 8 * 6);
    let m = enum_msg(src, k);
    ctx.desc(|| m.show());
    roundtrip_msg(&m, &[5, 6, 7], ctx)
}

pub fn enum_msg(src: &mut Src, k: u64) -> Msg {
    let le = k % 2 == 0;
    let ti = (k / 2 % 14) as usize;
    let off = (k / 28 % 8) as usize;
    let wrap = k / 28 / 8 % 6;
    let t = if ti < 13 { BASIC[ti].clone() } else { Ty::V };
    let o = Opts { free_dict: false, fds: 3, nul: false };
    let mut b = gen::Budget(4);
    let v = gen::val(src, &t, 1, &mut b, &o);
    let v2 = gen::val(src, &t, 1, &mut b, &o);
    let v = match wrap {
        0 => v,
        1 => Val::A(t, vec![v, v2]),
        2 => Val::R(vec![Val::Y(9), v, v2]),
        3 => Val::V(Box::new(v)),
        4 => Val::A(
            Ty::E(Box::new((Ty::Y, t))),
            vec![
                Val::E(Box::new((Val::Y(1), v))),
                Val::E(Box::new((Val::Y(2), v2))),
            ],
        ),
        _ => Val::A(t, vec![]),
    };
    let mut body: Vec<Val> = (0..off).map(|i| Val::Y(i as u8 + 1)).collect();
    body.push(v);
    body.push(Val::Y(0xee));
    Msg {
        le,
        mtype: 2,
        flags: 0,
        version: 1,
        serial: 7,
        h: Hdr { reply_serial: Some(3), ..Default::default() },
        body,
    }
}

const SIZES: [usize; 15] = [
    127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, (1 << 20) + 3, (1 << 23) + 1, (1 << 24) - 1, 1 << 24,
    (1 << 24) + 1,
];
const SIZE_MSGS: u64 = 2 * 15 * 11;

/// Lengths around the powers of two where a length needs another byte, in every place a length
/// stands.
fn size_msg(k: u64) -> Msg {
    let le = k % 2 == 0;
    let size = SIZES[(k / 2 % 15) as usize];
    let text = |n: usize| "t".repeat(n);
    let path = |n: usize| format!("/{}", text(n - 1));
    let mut h = Hdr { reply_serial: Some(3), ..Default::default() };
    let few = size.min(65537);
    let v = match k / 30 {
        0 => Val::S(text(size)),
        1 => Val::O(path(size)),
        2 => Val::A(Ty::Y, vec![Val::Y(7); few]),
        3 => super::limits::array_of(3, size).unwrap(),
        4 => super::limits::array_of(4, size).unwrap(),
        5 => super::limits::array_of(5, size).unwrap(),
        6 => super::limits::array_of(6, size).unwrap(),
        // the body and nothing else
        7 => {
            return Msg { le, mtype: 2, flags: 0, version: 1, serial: 7, h, body: vec![Val::S(text(size - 5))] };
        }
        8 => {
            h.path = Some(path(size));
            Val::N(-3)
        }
        // the header field array as a whole: (1 "o" path) padded, (5 "u" 3) is eight, (8 "g" "y") seven
        9 => {
            h.path = Some(path(size.max(40) - 24));
            Val::Y(3)
        }
        _ => Val::A(Ty::Q, (0..few).map(|i| Val::Q(i as u16)).collect()),
    };
    Msg { le, mtype: 2, flags: 0, version: 1, serial: 7, h, body: vec![v, Val::Q(0xabcd)] }
}

fn roundtrip_sizes(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.enum_index(SIZE_MSGS);
    ctx.desc(|| format!("size message {}", k));
    let m = size_msg(k);
    ctx.hit(k);
    roundtrip_msg(&m, &[], &mut Ctx::default())
}

fn layout_sizes(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.enum_index(SIZE_MSGS);
    ctx.desc(|| format!("size message {}", k));
    let m = size_msg(k);
    ctx.hit(k);
    layout_msg(&m, &[], &mut Ctx::default())
}

fn wellformed_sizes(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.enum_index(SIZE_MSGS);
    let m = size_msg(k);
    ctx.desc(|| format!("size message {}", k));
    ctx.hit(k);
    let order = gen::order(src, &m);
    wellformed_msg(src, &mut Ctx::default(), &m, &[], &order)
}

fn orders_sizes(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.enum_index(SIZE_MSGS / 2);
    let m = size_msg(2 * k);
    let w = size_msg(2 * k + 1);
    ctx.desc(|| format!("size message {}", k));
    ctx.hit(k);
    byte_order_pair(&m, &w, &[])
}

fn roundtrip_edges(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = edges::edge(src.enum_index(edges::count())).0;
    ctx.desc(|| m.show());
    roundtrip_msg(&m, &[], ctx)
}

fn layout_edges(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = edges::edge(src.enum_index(edges::count())).0;
    ctx.desc(|| m.show());
    layout_msg(&m, &[], ctx)
}

fn wellformed_edges(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (m, odd) = edges::edge(src.enum_index(edges::count()));
    if odd {
        return Ok(());
    }
    ctx.desc(|| m.show());
    let order = gen::order(src, &m);
    wellformed_msg(src, ctx, &m, &[], &order)
}

fn orders_edges(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.enum_index(edges::count() / 2);
    let m = edges::edge(2 * k).0;
    let w = edges::edge(2 * k + 1).0;
    ctx.desc(|| m.show());
    ctx.hit(k);
    byte_order_pair(&m, &w, &[])
}

fn reencode_edges(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (m, odd) = edges::edge(src.enum_index(edges::count()));
    if odd {
        return Ok(());
    }
    let order = gen::order(src, &m);
    let b = encode_raw(&m.raw(&order), false).buf;
    ctx.desc(|| format!("{} order={:?}", m.show(), order));
    ctx.hit(hash_bytes(5, &b));
    if !fix_point(&b, &[])? {
        ctx.label("refused");
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------
// C02

fn layout(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (m, fds) = msg_with_fds(src, &FREE);
    ctx.desc(|| format!("{} fds={:?}", m.show(), fds));
    layout_msg(&m, &fds, ctx)
}

fn layout_enum(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.enum_index(2 * 14 * 8 * 6);
    let m = enum_msg(src, k);
    ctx.desc(|| m.show());
    layout_msg(&m, &[5, 6, 7], ctx)
}

/// The header field array is compared as a set of entries: the specification leaves the order
/// open.
fn layout_msg(m: &Msg, fds: &[i32], ctx: &mut Ctx) -> Res {
    let lib = m.to_lib(fds)?;
    nontrivial(m, ctx);
    let (want, _) = after_wire(m, fds);
    let got = lib.encode().map_err(|e| format!("encoding a valid message failed: {:?}", e))?;
    // order of the codes on the wire
    let order = field_order(&got, want.le)?;
    let mut sorted = order.clone();
    sorted.sort_unstable();
    ensure!(
        sorted == want.canonical_order(),
        "header fields on the wire {:?}, expected {:?}",
        order,
        want.canonical_order()
    );
    let exp = encode_raw(&want.raw(&order), false).buf;
    ensure!(
        got[..] == exp[..],
        "bytes differ from the reference marshalling: {}; got {} expected {}",
        first_diff(&got, &exp),
        hex(&got),
        hex(&exp)
    );
    Ok(())
}

/// Codes of the header fields, read with the reference layout.
pub fn field_order(b: &[u8], le: bool) -> Result<Vec<u8>, String> {
    ensure!(b.len() >= 16, "shorter than the fixed header");
    let n = get32(b, le, 12) as usize;
    ensure!(b.len() >= 16 + n, "header array longer than the message");
    let mut out = Vec::new();
    let mut i = 16;
    while i < 16 + n {
        i = (i + 7) & !7;
        ensure!(i + 4 <= b.len(), "header field cut off");
        out.push(b[i]);
        let sl = b[i + 1] as usize;
        ensure!(sl == 1, "header field signature length {}", sl);
        let t = b[i + 2];
        i += 4;
        match t {
            b's' | b'o' => {
                i = (i + 3) & !3;
                ensure!(i + 4 <= b.len(), "header field cut off");
                i += 4 + get32(b, le, i) as usize + 1;
            }
            b'u' => i = ((i + 3) & !3) + 4,
            b'g' => {
                ensure!(i < b.len(), "header field cut off");
                i += b[i] as usize + 2;
            }
            t => bail!("header field of type {:?}", t as char),
        }
    }
    Ok(out)
}

// --------------------------------------------------------------------------------------------
// C03

fn wellformed(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (m, fds) = msg_with_fds(src, &gen::STD);
    let order = gen::order(src, &m);
    wellformed_msg(src, ctx, &m, &fds, &order)
}

fn wellformed_msg(src: &mut Src, ctx: &mut Ctx, m: &Msg, fds: &[i32], order: &[u8]) -> Res {
    let e = encode_raw(&m.raw(order), false);
    let mut buf = e.buf.clone();
    let extra = match src.weighted(&[3, 1, 1, 1]) {
        0 => 0,
        1 => {
            let n = 1 + src.below(40) as usize;
            buf.resize(e.buf.len() + n, 0);
            n
        }
        2 => {
            let n = 1 + src.below(40) as usize;
            for _ in 0..n {
                buf.push(src.below(256) as u8);
            }
            n
        }
        _ => {
            buf.extend_from_slice(&e.buf);
            e.buf.len()
        }
    };
    ctx.desc(|| format!("{} order={:?} trailing={} fds={:?}", m.show(), order, extra, fds));
    nontrivial(m, ctx);
    if order.windows(2).any(|w| w[0] > w[1]) {
        ctx.label("fields out of ascending order");
    }
    // our own reading must agree first: guards the oracle itself
    let d = decode(&buf, fds.len()).map_err(|x| format!("ORACLE: {}", x))?;
    ensure!(d.msg == *m && d.consumed == e.buf.len(), "ORACLE: reference decoder disagrees");
    let (got, used, nf) = dec_fds(&buf, fds)
        .map_err(|x| format!("a well-formed message was refused: {:?} ({})", x, hex(&buf)))?;
    ensure!(used == e.buf.len(), "consumed {} bytes, the message has {}", used, e.buf.len());
    ensure!(nf == d.fds_used, "{} descriptors used, expected {}", nf, d.fds_used);
    check_message(&got, m, &resolve(&m.body, fds))?;
    if !has_fd(&m.body) {
        let (got, used) = dec(&buf)
            .map_err(|x| format!("a well-formed message was refused: {:?} ({})", x, hex(&buf)))?;
        ensure!(used == e.buf.len(), "consumed {} bytes, the message has {}", used, e.buf.len());
        check_message(&got, m, &m.body)?;
    }
    Ok(())
}

fn wellformed_enum(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.enum_index(2 * 14 * 8 * 6);
    let m = enum_msg(src, k);
    let order = gen::order(src, &m);
    wellformed_msg(src, ctx, &m, &[5, 6, 7], &order)
}

/// Every subset of optional fields x type x byte order, all flags.
fn wellformed_fields(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.enum_index(2 * 4 * 256 * 2);
    let le = k % 2 == 0;
    let mtype = 1 + (k / 2 % 4) as u8;
    let set = (k / 8 % 256) as u8;
    let with_body = k / 2048 == 1;
    let has = |c: u8| required(mtype).contains(&c) || set >> (c - 1) & 1 == 1;
    let h = Hdr {
        path: if has(1) { Some("/a/b".into()) } else { None },
        interface: if has(2) { Some("i.f".into()) } else { None },
        member: if has(3) { Some("Mem".into()) } else { None },
        error_name: if has(4) { Some("e.r.R".into()) } else { None },
        reply_serial: if has(5) { Some(77) } else { None },
        destination: if has(6) { Some("dest.name".into()) } else { None },
        sender: if has(7) { Some(":1.7".into()) } else { None },
        unix_fds: if set & 128 != 0 { Some(2) } else { None },
    };
    let m = Msg {
        le,
        mtype,
        flags: src.below(8) as u8,
        version: 1,
        serial: 1 + src.below(1000) as u32,
        h,
        body: if with_body { vec![Val::Y(1), Val::U(2)] } else { vec![] },
    };
    let order = gen::order(src, &m);
    wellformed_msg(src, ctx, &m, &[], &order)
}

// --------------------------------------------------------------------------------------------
// C06

fn prefixes(src: &mut Src, ctx: &mut Ctx) -> Res {
    let o = Opts { free_dict: false, fds: 3, nul: false };
    let mut m = if src.chance(1, 4) { gen::msg(src, &o) } else { gen::small_msg(src, &o) };
    if m.encode_fast().buf.len() > 3000 {
        m.body.clear();
        m.h.path = m.h.path.map(|_| "/x".into());
    }
    let order = gen::order(src, &m);
    let fds = [10, 11, 12];
    let b = encode_raw(&m.raw(&order), false).buf;
    ctx.desc(|| format!("all {} prefixes of {}", b.len(), m.show()));
    let whole = Bytes::copy_from_slice(&b);
    if let Err(e) = dec_both(whole.clone(), &fds) {
        bail!("a well-formed message was refused: {:?}", e);
    }
    ctx.hit(hash_bytes(1, &b));
    let mut larger = vec![0xa5u8; 3];
    larger.extend_from_slice(&b);
    larger.extend_from_slice(&[0x5a; 9]);
    let larger = Bytes::from(larger);
    for k in 0..b.len() {
        ctx.evals += 1;
        let r = dec_both(whole.slice(..k), &fds);
        match r {
            Err(DecodeError::NotEnoughBytes(have, need)) => {
                ensure!(have == k, "prefix of {}: reports {} bytes available", k, have);
                ensure!(
                    need > k && need <= b.len(),
                    "prefix of {} of a message of {} bytes: reports {} required",
                    k, b.len(), need
                );
            }
            Err(e) => bail!("prefix of {} of {} bytes: {:?}", k, b.len(), e),
            Ok((_, used, _)) => bail!("prefix of {} of {} bytes decodes (consumed {})", k, b.len(), used),
        }
        // same bytes sliced out of a larger buffer
        let r2 = dec_both(larger.slice(3..3 + k), &fds);
        match r2 {
            Err(DecodeError::NotEnoughBytes(h2, _)) if h2 == k => (),
            other => bail!("prefix of {} in a larger buffer: {:?}", k, other.map(|x| x.1)),
        }
    }
    ensure!(whole[..] == b[..], "the input buffer was changed");
    ensure!(larger[3..3 + b.len()] == b[..], "the input buffer was changed");
    // what follows the message is neither read nor needed, whatever it is
    let extra = b[..src.usize(b.len().min(64)) + 1].to_vec();
    for n in 0..=40usize {
        let fill = [0u8, 0xff, b[n % b.len()]][src.usize(3)];
        let mut t = b.clone();
        if n == 40 {
            t.extend_from_slice(&extra);
        } else {
            t.resize(b.len() + n, fill);
        }
        ctx.evals += 1;
        match dec_both(Bytes::from(t), &fds) {
            Ok((x, used, _)) => {
                ensure!(used == b.len(), "followed by {} bytes {:#x}: consumed {} of {}", n, fill, used, b.len());
                if n % 8 == 0 {
                    check_message(&x, &m, &resolve(&m.body, &fds))?;
                }
            }
            Err(e) => bail!("followed by {} bytes {:#x}: {:?}", n, fill, e),
        }
    }
    // the same bytes sliced from a larger buffer give the same message
    let a = dec_both(whole, &fds).map_err(|e| format!("{:?}", e))?;
    let c = dec_both(larger.slice(3..), &fds).map_err(|e| format!("in a larger buffer: {:?}", e))?;
    ensure!(a.1 == c.1 && a.2 == c.2, "slicing changes the reported lengths: {:?} {:?}", (a.1, a.2), (c.1, c.2));
    check_message(&c.0, &m, &resolve(&m.body, &fds))?;
    check_message(&a.0, &m, &resolve(&m.body, &fds))
}

/// Prefix lengths around the end of long messages (cut inside long strings and big arrays).
fn prefixes_long(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (mut m, fds) = msg_with_fds(src, &gen::STD);
    if src.chance(1, 5) {
        // enumerated values and sizes; texts and arrays of some length
        if src.bool() {
            m = edges::edge(src.below(edges::count())).0;
        } else {
            let n = (dict::int(src) % 50_000) as usize;
            m.body.truncate(2);
            while sig_text(&m.body.iter().map(|v| v.ty()).collect::<Vec<_>>()).len() > 250 {
                m.body.pop();
            }
            m.body.push(if src.bool() { Val::S("s".repeat(n)) } else { Val::A(Ty::Y, vec![Val::Y(7); n]) });
        }
    }
    let e = encode_raw(&m.raw(&gen::order(src, &m)), true);
    let b = Bytes::from(e.buf);
    ctx.hit(hash_bytes(2, &b));
    ctx.desc(|| format!("selected prefixes of {} bytes: {}", b.len(), m.show()));
    let mut cuts: Vec<usize> = Vec::new();
    for _ in 0..24 {
        let k = match src.below(3) {
            0 => src.usize(b.len()),
            1 => b.len() - 1 - src.usize(b.len().min(20)),
            _ => {
                let s = src.pick(&e.sites);
                let o = match s {
                    Site::Code { off, .. } | Site::Pad { off } | Site::Nul { off } | Site::StrLen { off, .. }
                    | Site::Text { off, .. } | Site::SigLen { off, .. } | Site::Sig { off, .. } | Site::Bool { off }
                    | Site::ArrLen { off, .. } | Site::Fd { off } => *off,
                    _ => 0,
                };
                (o + src.usize(6)).min(b.len() - 1)
            }
        };
        cuts.push(k);
    }
    for k in cuts {
        ctx.evals += 1;
        match dec_both(b.slice(..k), &fds) {
            Err(DecodeError::NotEnoughBytes(have, need)) => {
                ensure!(have == k, "prefix of {}: reports {} bytes available", k, have);
                ensure!(need > k && need <= b.len(), "prefix of {} of {}: reports {} required", k, b.len(), need);
            }
            Err(e) => bail!("prefix of {} of {} bytes: {:?}", k, b.len(), e),
            Ok(_) => bail!("prefix of {} of {} bytes decodes", k, b.len()),
        }
    }
    Ok(())
}

fn stream(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = 1 + src.below(7) as usize;
    let o = Opts { free_dict: false, fds: 3, nul: false };
    let fds = [3, 4, 5];
    let mut ms = Vec::new();
    let mut buf: Vec<u8> = Vec::new();
    let mut ends = Vec::new();
    for _ in 0..n {
        let m = if src.chance(1, 3) { gen::msg(src, &o) } else { gen::small_msg(src, &o) };
        // each message starts afresh: lay it out on its own
        let b = encode_raw(&m.raw(&gen::order(src, &m)), false).buf;
        buf.extend_from_slice(&b);
        ends.push(buf.len());
        ms.push(m);
    }
    ctx.desc(|| format!("stream of {} messages, {} bytes", n, buf.len()));
    if n > 1 {
        ctx.hit(hash_bytes(3, &buf));
    }
    let mut rest = Bytes::copy_from_slice(&buf);
    let mut pos = 0;
    for (i, m) in ms.iter().enumerate() {
        let (got, used, _) = dec_both(rest.clone(), &fds)
            .map_err(|e| format!("message {} of {} in the stream: {:?}", i, n, e))?;
        pos += used;
        ensure!(pos == ends[i], "message {} ends at {}, expected {}", i, pos, ends[i]);
        check_message(&got, m, &resolve(&m.body, &fds)).map_err(|e| format!("message {}: {}", i, e))?;
        rest = rest.slice(used..);
    }
    ensure!(rest.is_empty(), "{} bytes left over", rest.len());
    Ok(())
}

/// Incremental reader: bytes arrive in arbitrary chunks, the reader retries whenever told that
/// bytes are missing.
fn chunks(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = 1 + src.below(4) as usize;
    let o = gen::NOFD;
    let mut ms = Vec::new();
    let mut all: Vec<u8> = Vec::new();
    for _ in 0..n {
        let m = gen::small_msg(src, &o);
        all.extend_from_slice(&m.encode_fast().buf);
        ms.push(m);
    }
    ctx.desc(|| format!("{} messages, {} bytes in chunks", n, all.len()));
    ctx.hit(hash_bytes(4, &all));
    let mut got = Vec::new();
    let mut buf: Vec<u8> = Vec::new();
    let mut fed = 0;
    let mut need = 1;
    while fed < all.len() {
        let k = (1 + src.below(48) as usize).min(all.len() - fed);
        buf.extend_from_slice(&all[fed..fed + k]);
        fed += k;
        // trust the reported requirement: below it no message can be complete
        loop {
            if buf.is_empty() {
                break;
            }
            ctx.evals += 1;
            match dec(&buf) {
                Ok((m, used)) => {
                    ensure!(
                        buf.len() >= need,
                        "a message decoded from {} bytes although {} were said to be required",
                        buf.len(), need
                    );
                    got.push(m);
                    buf.drain(..used);
                    need = 1;
                }
                Err(DecodeError::NotEnoughBytes(_, n)) => {
                    need = n;
                    break;
                }
                Err(e) => bail!("after {} bytes: {:?}", fed, e),
            }
        }
    }
    ensure!(got.len() == ms.len() && buf.is_empty(), "{} messages read, expected {}", got.len(), ms.len());
    for (g, m) in got.iter().zip(&ms) {
        check_message(g, m, &m.body)?;
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------
// C07

fn fix_point(b: &[u8], fds: &[i32]) -> Result<bool, String> {
    let (m1, _, _) = match dec_fds(b, fds) {
        Ok(x) => x,
        Err(_) => return Ok(false),
    };
    let (b1, f1) = m1
        .encode_with_fds()
        .map_err(|e| format!("a decoded message cannot be encoded: {:?} ({})", e, hex(b)))?;
    let again = m1.encode_with_fds().map_err(|e| format!("second encoding failed: {:?}", e))?;
    ensure!(again.0 == b1 && again.1 == f1, "encoding the same message twice differs");
    let (m2, used, _) = dec_fds(&b1, &f1)
        .map_err(|e| format!("the re-encoded message cannot be decoded: {:?} ({})", e, hex(&b1)))?;
    ensure!(used == b1.len(), "consumed {} of {}", used, b1.len());
    ensure!(
        body_from_lib(m1.get_body()) == body_from_lib(m2.get_body()),
        "body changed: {:?} / {:?}",
        m1.get_body(),
        m2.get_body()
    );
    let (h1, _) = m1.clone().split().map_err(|e| format!("{:?}", e))?;
    let (h2, _) = m2.clone().split().map_err(|e| format!("{:?}", e))?;
    let (mut a, mut c) = (hdr_of(&m1), hdr_of(&m2));
    if !f1.is_empty() {
        // the unix-fds field is made to count the descriptors
        ensure!(c.unix_fds == Some(f1.len() as u32), "unix fds field {:?}", c.unix_fds);
        a.unix_fds = None;
        c.unix_fds = None;
    } else {
        ensure!(h1 == h2, "header changed: {:?} / {:?}", h1, h2);
    }
    ensure!(a == c, "header changed: {:?} / {:?}", a, c);
    let (b2, f2) = m2.encode_with_fds().map_err(|e| format!("{:?}", e))?;
    ensure!(b2 == b1, "not a fixed point: {} ({} / {})", first_diff(&b1, &b2), hex(&b1), hex(&b2));
    ensure!(f2 == f1, "descriptors differ: {:?} / {:?}", f1, f2);
    // byte order, type, flags and version are in the first four bytes
    ensure!(b1[..4] == b[..4], "first four bytes changed");
    Ok(true)
}

fn reencode_valid(src: &mut Src, ctx: &mut Ctx) -> Res {
    let o = Opts { free_dict: false, fds: 5, nul: true };
    let m = gen::msg(src, &o);
    let order = gen::order(src, &m);
    let fds = gen::fd_table(src, 5);
    let b = encode_raw(&m.raw(&order), false).buf;
    ctx.desc(|| format!("{} order={:?}", m.show(), order));
    ctx.hit(hash_bytes(5, &b));
    let ok = fix_point(&b, &fds)?;
    if !ok {
        ctx.label("refused");
    }
    Ok(())
}

fn reencode_mutated(src: &mut Src, ctx: &mut Ctx) -> Res {
    let o = Opts { free_dict: false, fds: 4, nul: false };
    let m = gen::small_msg(src, &o);
    let order = gen::order(src, &m);
    let fds = gen::fd_table(src, 4);
    let e = encode_raw(&m.raw(&order), true);
    let b0 = e.buf;
    ctx.desc(|| format!("mutations of {}", m.show()));
    let mut any = false;
    for _ in 0..24 {
        let mut b = b0.clone();
        super::faults::mutate(src, &mut b, &e.sites, m.le);
        ctx.evals += 1;
        if fix_point(&b, &fds)? {
            any = true;
            ctx.label("mutant decodes");
            if b != b0 {
                ctx.hit(hash_bytes(6, &b));
            }
        }
    }
    if any {
        ctx.label("with decodable mutant");
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------
// C08

fn orders(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (mut m, fds) = msg_with_fds(src, &FREE);
    m.le = true;
    let mut w = m.clone();
    w.le = false;
    ctx.desc(|| format!("{} fds={:?}", m.show(), fds));
    ctx.hit(m.hash64());
    byte_order_pair(&m, &w, &fds)
}

fn orders_enum(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.enum_index(14 * 8 * 6);
    let m = enum_msg(src, 2 * k);
    let mut w = m.clone();
    w.le = false;
    ctx.desc(|| m.show());
    ctx.hit(m.hash64());
    byte_order_pair(&m, &w, &[5, 6, 7])
}

fn byte_order_pair(m: &Msg, w: &Msg, fds: &[i32]) -> Res {
    let (a, fa) = m.to_lib(fds)?.encode_with_fds().map_err(|e| format!("LE: {:?}", e))?;
    let (b, fb) = w.to_lib(fds)?.encode_with_fds().map_err(|e| format!("BE: {:?}", e))?;
    ensure!(a[0] == b'l' && b[0] == b'B', "byte order marks {:#x} {:#x}", a[0], b[0]);
    ensure!(a.len() == b.len(), "lengths differ: LE {} BE {}", a.len(), b.len());
    ensure!(fa == fb, "descriptors differ: {:?} {:?}", fa, fb);
    // Same meaning
    let (da, _, _) = dec_fds(&a, &fa).map_err(|e| format!("LE does not decode: {:?}", e))?;
    let (db, _, _) = dec_fds(&b, &fb).map_err(|e| format!("BE does not decode: {:?}", e))?;
    ensure!(body_from_lib(da.get_body()) == body_from_lib(db.get_body()), "bodies differ: {:?} / {:?}", da.get_body(), db.get_body());
    ensure!(hdr_of(&da) == hdr_of(&db), "headers differ");
    ensure!(da.get_serial() == db.get_serial() && da.get_type() == db.get_type(), "serial or type differs");
    // Positions: with the reference layout known, every byte that is not part of a multi-byte
    // number must be equal, every number must be the reverse.
    let (want, _) = after_wire(m, fds);
    let order = super::codec::field_order(&a, true)?;
    let order_b = super::codec::field_order(&b, false)?;
    ensure!(order == order_b, "field order differs: {:?} {:?}", order, order_b);
    let spans = number_spans(&want.raw(&order));
    let mut i = 1;
    let mut it = spans.into_iter().peekable();
    while i < a.len() {
        if let Some((s, n)) = it.peek().copied() {
            if i == s {
                let mut r = b[s..s + n].to_vec();
                r.reverse();
                ensure!(a[s..s + n] == r[..], "number at {} is not the byte-reversed one: {} / {}", s, hex(&a[s..s + n]), hex(&b[s..s + n]));
                i += n;
                it.next();
                continue;
            }
        }
        ensure!(a[i] == b[i], "single byte at {} differs: {:#x} / {:#x}", i, a[i], b[i]);
        i += 1;
    }
    Ok(())
}

/// Where multi-byte numbers lie: the places where the two reference encodings of a marked copy
/// can differ. Computed by walking the layout.
fn number_spans(r: &Raw) -> Vec<(usize, usize)> {
    fn al(o: &mut usize, a: usize) {
        *o = (*o + a - 1) / a * a;
    }
    fn go(v: &Val, o: &mut usize, s: &mut Vec<(usize, usize)>) {
        let mut num = |o: &mut usize, n: usize| {
            al(o, n);
            s.push((*o, n));
            *o += n;
        };
        match v {
            Val::Y(_) => *o += 1,
            Val::N(_) | Val::Q(_) => num(o, 2),
            Val::B(_) | Val::I(_) | Val::U(_) | Val::H(_) => num(o, 4),
            Val::X(_) | Val::T(_) | Val::D(_) => num(o, 8),
            Val::S(x) | Val::O(x) => {
                num(o, 4);
                *o += x.len() + 1;
            }
            Val::G(x) => *o += sig_text(x).len() + 2,
            Val::V(x) => {
                *o += x.ty().text().len() + 2;
                go(x, o, s);
            }
            Val::A(t, xs) => {
                num(o, 4);
                al(o, t.align());
                xs.iter().for_each(|x| go(x, o, s));
            }
            Val::R(xs) => {
                al(o, 8);
                xs.iter().for_each(|x| go(x, o, s));
            }
            Val::E(e) => {
                al(o, 8);
                go(&e.0, o, s);
                go(&e.1, o, s);
            }
        }
    }
    let mut s = vec![(4, 4), (8, 4), (12, 4)];
    let mut o = 16;
    for (_, v) in &r.fields {
        al(&mut o, 8);
        o += 1;
        go(&Val::V(Box::new(v.clone())), &mut o, &mut s);
    }
    al(&mut o, 8);
    for v in &r.body {
        go(v, &mut o, &mut s);
    }
    s
}

/// Replies keep the byte order of the message they answer.
fn reply_orders(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = gen::small_msg(src, &gen::NOFD);
    m.le = src.bool();
    let lib = m.to_lib(&[])?;
    let mark = if m.le { b'l' } else { b'B' };
    ctx.desc(|| m.show());
    ctx.hit(m.hash64());
    for (name, r) in super::replies::all_replies(&lib) {
        ctx.evals += 1;
        let b = r.encode().map_err(|e| format!("{}: {:?}", name, e))?;
        ensure!(b[0] == mark, "{} of a {} message has byte order mark {:?}", name, if m.le { "LE" } else { "BE" }, b[0] as char);
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------
// C19

fn fds_encode(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = match src.weighted(&[5, 3, 1]) {
        0 => 1 + src.below(5) as usize,
        1 => 1 + src.below(30) as usize,
        _ if src.bool() => 9 + src.below(100) as usize,
        _ => *src.pick(&[254usize, 255, 256, 257, 258, 300, 512, 1000]),
    };
    let mut fds = gen::fd_table(src, n);
    // duplicates in the table: the same descriptor reached through two model indices
    if n > 1 && src.chance(1, 3) {
        let a = src.usize(n);
        let b = src.usize(n);
        fds[a] = fds[b];
    }
    let o = Opts { free_dict: false, fds: n, nul: false };
    let mut m = gen::small_msg(src, &o);
    let k = src.below(6);
    for _ in 0..k {
        let h = Val::H(src.usize(n) as u32);
        m.body.push(match src.below(6) {
            0 => h,
            1 => Val::V(Box::new(h)),
            2 => Val::R(vec![Val::Y(1), h]),
            3 => {
                let c = src.below(2 * n as u64 + 1) as usize;
                let step = 1 + src.usize(n);
                Val::A(Ty::H, (0..c).map(|i| Val::H(((i * step) % n) as u32)).collect())
            }
            4 => Val::A(
                Ty::E(Box::new((Ty::H, Ty::V))),
                vec![Val::E(Box::new((h, Val::V(Box::new(Val::H(src.usize(n) as u32))))))],
            ),
            _ => Val::V(Box::new(Val::R(vec![h, Val::H(src.usize(n) as u32)]))),
        });
    }
    if src.chance(1, 3) {
        let all = Val::A(Ty::H, (0..n as u32).map(Val::H).collect());
        let at = [m.body.len(), 0][src.usize(2)];
        m.body.insert(at, all);
    }
    if sig_text(&m.sig()).len() > 255 {
        m.body.truncate(4);
    }
    let lib = m.to_lib(&fds)?;
    let (want, list) = after_wire(&m, &fds);
    ctx.desc(|| format!("{} table={:?}", m.show(), fds));
    if !list.is_empty() {
        ctx.hit(m.hash64());
        if list.len() > 255 {
            ctx.label("more than 255 descriptors");
        }
        let mut uses = 0;
        m.body.iter().for_each(|v| v.each(&mut |v| uses += matches!(v, Val::H(_)) as usize));
        if uses > list.len() {
            ctx.label("repeated descriptor");
        }
    }
    let (b, got) = lib.encode_with_fds().map_err(|e| format!("{:?}", e))?;
    let mut s = got.clone();
    s.sort_unstable();
    s.dedup();
    ensure!(s.len() == got.len(), "a descriptor is returned twice: {:?}", got);
    let mut l = list.clone();
    l.sort_unstable();
    ensure!(s == l, "descriptors returned {:?}, used {:?}", got, list);
    let plain = lib.encode().map_err(|e| format!("{:?}", e))?;
    ensure!(plain == b, "encoding with and without descriptors differs: {}", first_diff(&plain, &b));
    // independent reading of the wire
    let d = decode(&b, got.len()).map_err(|e| format!("reference decoder refuses the bytes: {}", e))?;
    ensure!(
        d.msg.h.unix_fds == want.h.unix_fds,
        "unix fds field {:?}, expected {:?}",
        d.msg.h.unix_fds,
        want.h.unix_fds
    );
    ensure!(
        resolve(&d.msg.body, &got) == resolve(&m.body, &fds),
        "indices on the wire do not resolve to the original descriptors"
    );
    // decoding with the list, and with more descriptors after it
    let mut more = got.clone();
    for i in 0..src.below(4) {
        more.push(100000 + i as i32);
    }
    for l in [&got, &more] {
        let (back, _, nf) = dec_fds(&b, l).map_err(|e| format!("{:?}", e))?;
        ensure!(nf == got.len(), "{} descriptors reported as used, expected {}", nf, got.len());
        check_message(&back, &want, &resolve(&m.body, &fds))?;
    }
    // without, or with too few descriptors
    if !got.is_empty() {
        match dec(&b) {
            Err(DecodeError::NotEnoughFds(0, _)) => (),
            r => bail!("decoding without descriptors: {:?}", r.map(|x| x.1)),
        }
        let k = src.usize(got.len());
        match dec_fds(&b, &got[..k]) {
            Err(DecodeError::NotEnoughFds(n, i)) => {
                ensure!(n == k && i >= k, "NotEnoughFds({}, {}) with {} descriptors", n, i, k)
            }
            r => bail!("decoding with {} of {} descriptors: {:?}", k, got.len(), r.map(|x| x.1)),
        }
    }
    Ok(())
}

/// Foreign messages: any indices, repeated, sparse, out of order, repeated descriptors in the list.
fn fds_decode(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = match src.weighted(&[6, 2]) {
        0 => src.below(6) as usize,
        _ => *src.pick(&[16usize, 255, 256, 257, 300]),
    };
    let mut fds = gen::fd_table(src, n);
    if n > 1 && src.chance(1, 3) {
        let a = src.usize(n);
        let b = src.usize(n);
        fds[a] = fds[b];
    }
    let mut m = gen::small_msg(src, &gen::NOFD);
    m.body.truncate(3);
    let k = src.below(5);
    let mut idx = Vec::new();
    for _ in 0..k {
        let i = match src.weighted(&[10, 1, 1]) {
            0 if n > 0 => src.usize(n) as u32,
            1 => n as u32,
            2 => gen::int(src, 32) as u32,
            _ => 0,
        };
        idx.push(i);
        let h = Val::H(i);
        m.body.push(match src.below(5) {
            0 => h,
            1 => Val::V(Box::new(h)),
            2 => Val::R(vec![h]),
            3 => Val::A(Ty::H, vec![h]),
            _ => Val::V(Box::new(Val::A(Ty::H, vec![h]))),
        });
    }
    let b = m.encode_fast().buf;
    ctx.desc(|| format!("{} list={:?}", m.show(), fds));
    if k > 0 {
        ctx.hit(hash_bytes(7, &b) ^ n as u64);
    }
    let bad = idx.iter().position(|i| *i as usize >= n);
    match dec_fds(&b, &fds) {
        Ok((got, used, nf)) => {
            if let Some(p) = bad {
                bail!("index {} accepted with {} descriptors", idx[p], n);
            }
            let exp = idx.iter().max().map_or(0, |x| *x as usize + 1);
            ensure!(nf == exp, "{} descriptors reported as used, expected {}", nf, exp);
            ensure!(used == b.len(), "consumed {}", used);
            check_message(&got, &m, &resolve(&m.body, &fds))?;
            ctx.label("resolved");
        }
        Err(DecodeError::NotEnoughFds(h, i)) => {
            let p = match bad {
                Some(p) => p,
                None => bail!("NotEnoughFds({}, {}) although all indices {:?} are in a list of {}", h, i, idx, n),
            };
            ensure!(h == n && i == idx[p] as usize, "NotEnoughFds({}, {}), expected ({}, {})", h, i, n, idx[p]);
            ctx.label("index outside");
        }
        Err(e) => bail!("{:?}", e),
    }
    if idx.is_empty() {
        dec(&b).map_err(|e| format!("without list: {:?}", e))?;
    } else {
        match dec(&b) {
            Err(DecodeError::NotEnoughFds(0, _)) => (),
            r => bail!("decoding without a list: {:?}", r.map(|x| x.1)),
        }
    }
    Ok(())
}

/// Descriptor lists around two to the sixteen and longer.
fn fds_many(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.enum_index(8);
    let mut n = [65_535usize, 65_536, 65_537, 65_793, 66_000, 32_768, 32_769, 40_000][k as usize] as u32;
    let sizes = dict::sizes(100_000);
    if !sizes.is_empty() && src.chance(1, 2) {
        n = *src.pick(&sizes) as u32;
    }
    let odd = [1i32, 3, -1, 7][src.below(4) as usize];
    let table: Vec<i32> = (0..n as i32).map(|i| i.wrapping_mul(odd)).collect();
    let start = src.below(u64::from(n)) as u32;
    let mut body = vec![Val::A(Ty::H, (0..n).map(|i| Val::H((i + start) % n)).collect())];
    for _ in 0..6 {
        let i = if src.bool() { n - 1 - src.below(300) as u32 } else { src.below(u64::from(n)) as u32 };
        body.push(if src.bool() { Val::H(i) } else { Val::V(Box::new(Val::H(i))) });
    }
    let m = Msg {
        le: src.bool(),
        mtype: 2,
        flags: 0,
        version: 1,
        serial: 5,
        h: Hdr { reply_serial: Some(1), ..Default::default() },
        body,
    };
    ctx.desc(|| format!("{} different descriptors, the first has number {}", n, start));
    ctx.hit(u64::from(n) ^ u64::from(start) << 32);
    let want = resolve(&m.body, &table);
    let (b, got) = m.to_lib(&table)?.encode_with_fds().map_err(|e| format!("{:?}", e))?;
    let mut s = got.clone();
    s.sort_unstable();
    s.dedup();
    ensure!(got.len() == n as usize && s.len() == got.len(), "{} descriptors returned, {} different", got.len(), s.len());
    let d = decode(&b, got.len()).map_err(|e| format!("reference decoder refuses the bytes: {}", e))?;
    ensure!(d.msg.h.unix_fds == Some(n), "unix fds field {:?}, expected {}", d.msg.h.unix_fds, n);
    ensure!(resolve(&d.msg.body, &got) == want, "indices on the wire do not resolve to the original descriptors");
    let mut more = got.clone();
    more.resize(got.len() + src.below(70_000) as usize, -1);
    for l in [&got, &more] {
        ctx.evals += 1;
        let (back, used, nf) = dec_fds(&b, l).map_err(|e| format!("{:?}", e))?;
        ensure!(used == b.len() && nf == got.len(), "{} descriptors reported as used, expected {}", nf, got.len());
        ensure!(body_from_lib(back.get_body()) == want, "decoding resolves to other descriptors");
    }
    let short = src.below(u64::from(n)) as usize;
    match dec_fds(&b, &got[..short]) {
        Err(DecodeError::NotEnoughFds(h, i)) => {
            ensure!(h == short && i >= short, "NotEnoughFds({}, {}) with {} descriptors", h, i, short)
        }
        r => bail!("decoding with {} of {} descriptors: {:?}", short, n, r.map(|x| x.1)),
    }
    // one foreign index
    for i in [0u32, 255, 256, 32_767, 32_768, 65_535, 65_536, 65_537, 99_999, 100_000, 100_001, u32::MAX] {
        let one = Msg { body: vec![Val::H(i)], ..m.clone() };
        let b = one.encode_fast().buf;
        let list: Vec<i32> = (0..100_000).map(|i| i ^ 0x55).collect();
        ctx.evals += 1;
        match dec_fds(&b, &list) {
            Ok((x, _, nf)) => {
                ensure!((i as usize) < list.len(), "index {} accepted with {} descriptors", i, list.len());
                ensure!(nf == i as usize + 1, "index {}: {} descriptors reported as used", i, nf);
                ensure!(body_from_lib(x.get_body()) == resolve(&one.body, &list), "index {} gives {:?}", i, x.get_body());
            }
            Err(DecodeError::NotEnoughFds(h, j)) => ensure!(
                i as usize >= list.len() && h == list.len() && j == i as usize,
                "index {}: NotEnoughFds({}, {})", i, h, j
            ),
            Err(e) => bail!("index {}: {:?}", i, e),
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------
// C25

/// Element types of empty arrays, alone and in containers.
fn empty_array(src: &mut Src, o: &Opts) -> Val {
    let depth = src.below(4) as u32;
    let t = gen::ty(src, depth, o);
    let mut v = Val::A(t, vec![]);
    for _ in 0..src.below(4) {
        v = match src.below(4) {
            0 => Val::A(v.ty(), vec![v]),
            1 => Val::R(vec![Val::Y(1), v]),
            2 => Val::V(Box::new(v)),
            _ => Val::A(v.ty(), vec![]),
        };
    }
    v
}

fn stale(src: &mut Src, ctx: &mut Ctx) -> Res {
    let o = Opts { free_dict: false, fds: 2, nul: false };
    let mut m = if src.chance(1, 4) { gen::msg(src, &o) } else { gen::small_msg(src, &o) };
    if src.chance(1, 4) {
        for _ in 0..1 + src.below(2) {
            m.body.push(empty_array(src, &o));
        }
        while sig_text(&m.sig()).len() > 255 {
            m.body.remove(0);
        }
    }
    let fds = [7, 8];
    // stale signature in the header
    let st: Option<Vec<Ty>> = match src.below(5) {
        0 => None,
        1 => Some(vec![]),
        2 => Some(gen::signature(src, &o)),
        3 => Some(vec![Ty::S]),
        _ => {
            let mut s = m.sig();
            if !s.is_empty() && src.bool() {
                s.pop();
            }
            Some(s)
        }
    };
    if src.chance(1, 2) {
        m.body.clear();
    }
    ctx.desc(|| format!("{} header signature beforehand {:?}", m.show(), st.as_ref().map(|s| sig_text(s))));
    let header: MessageHeader = m.header_lib(st.as_deref())?;
    let lib = Message::new(header, m.body.iter().map(|v| v.to_lib(&fds)).collect());
    if st.as_ref().map_or(false, |s| *s != m.sig()) {
        ctx.hit(m.hash64() ^ hash_bytes(1, sig_text(st.as_ref().unwrap()).as_bytes()));
        ctx.label("stale signature");
    }
    described(&m, &lib, &fds)
}

/// The encoded bytes describe exactly the body of `m`.
fn described(m: &Msg, lib: &Message, fds: &[i32]) -> Res {
    let (b, list) = lib.encode_with_fds().map_err(|e| format!("{:?}", e))?;
    let order = field_order(&b, m.le)?;
    if m.body.is_empty() {
        ensure!(!order.contains(&SIGNATURE), "signature field without a body");
        ensure!(get32(&b, m.le, 4) == 0, "body length {} without a body", get32(&b, m.le, 4));
    } else {
        ensure!(
            order.iter().filter(|c| **c == SIGNATURE).count() == 1,
            "signature field missing or repeated: {:?}",
            order
        );
    }
    let d = decode(&b, list.len())
        .map_err(|e| format!("the encoded bytes are malformed: {} ({})", e, hex(&b)))?;
    ensure!(d.body_sig == m.sig(), "signature on the wire {:?}, body {:?}", sig_text(&d.body_sig), sig_text(&m.sig()));
    ensure!(d.consumed == b.len(), "body length leaves {} bytes", b.len() - d.consumed);
    ensure!(resolve(&d.msg.body, &list) == resolve(&m.body, fds), "body on the wire differs");
    let (back, used, _) =
        dec_fds(&b, &list).map_err(|e| format!("the encoded message does not decode: {:?}", e))?;
    ensure!(used == b.len(), "consumed {} of {}", used, b.len());
    let (want, _) = after_wire(m, fds);
    check_message(&back, &want, &resolve(&m.body, fds))
}

/// Bodies of many bytes, of every remainder of their length.
fn long_bodies(src: &mut Src, ctx: &mut Ctx) -> Res {
    let o = Opts { free_dict: false, fds: 2, nul: false };
    let mut m = gen::small_msg(src, &o);
    let mut n = (1u64 << (13 + src.below(9))) as usize;
    let sizes = dict::sizes(8 << 20);
    if !sizes.is_empty() && src.chance(1, 3) {
        n = *src.pick(&sizes);
    }
    n = (n + src.usize(64)).saturating_sub(src.usize(64));
    let v = match src.below(3) {
        0 => Val::S("l".repeat(n)),
        1 => Val::A(Ty::Y, vec![Val::Y(3); n]),
        _ => Val::V(Box::new(Val::A(Ty::S, vec![Val::S("i".repeat(n / 3)); 3]))),
    };
    m.body.truncate(2);
    m.body.push(v);
    if sig_text(&m.sig()).len() > 255 {
        m.body.remove(0);
    }
    if src.bool() {
        m.body.push(Val::Y(9));
    }
    if sig_text(&m.sig()).len() > 255 {
        m.body.remove(0);
    }
    ctx.desc(|| format!("a body of about {} bytes, signature {}", n, sig_text(&m.sig())));
    ctx.hit(n as u64 ^ hash_bytes(3, sig_text(&m.sig()).as_bytes()));
    let fds = [7, 8];
    described(&m, &m.to_lib(&fds)?, &fds)
}

/// Split a message, change its body, put it together again, any number of times.
fn splits(src: &mut Src, ctx: &mut Ctx) -> Res {
    let o = Opts { free_dict: false, fds: 2, nul: false };
    let mut m = gen::small_msg(src, &o);
    let fds = [7, 8];
    let mut lib = m.to_lib(&fds)?;
    let n = 1 + src.below(6);
    let mut log = String::new();
    for _ in 0..n {
        match src.below(5) {
            0 => {
                let mut b = gen::Budget(5);
                let t = gen::ty(src, 2, &o);
                let v = gen::val(src, &t, 0, &mut b, &o);
                lib.add_value(v.to_lib(&fds));
                m.body.push(v);
                log.push_str("add ");
            }
            1 => {
                let (h, _) = lib.split().map_err(|e| format!("{:?}", e))?;
                lib = Message::new(h, vec![]);
                m.body.clear();
                log.push_str("split+drop-body ");
            }
            2 => {
                let (h, mut b) = lib.split().map_err(|e| format!("{:?}", e))?;
                b.pop();
                m.body.pop();
                lib = Message::new(h, b);
                log.push_str("split+pop ");
            }
            3 => {
                let (h, b) = lib.split().map_err(|e| format!("{:?}", e))?;
                lib = Message::new(h, b);
                log.push_str("split+join ");
            }
            _ => {
                let (h, mut b) = lib.split().map_err(|e| format!("{:?}", e))?;
                b.reverse();
                m.body.reverse();
                lib = Message::new(h, b);
                log.push_str("split+reverse ");
            }
        }
        if sig_text(&m.sig()).len() > 255 {
            return Ok(());
        }
        described(&m, &lib, &fds).map_err(|e| format!("after {}: {}", log, e))?;
        ctx.evals += 1;
    }
    ctx.desc(|| format!("{}-> {}", log, m.show()));
    ctx.hit(m.hash64() ^ hash_bytes(2, log.as_bytes()));
    Ok(())
}

/// A body that no valid signature describes is refused.
fn indescribable(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = gen::small_msg(src, &gen::NOFD);
    m.body.clear();
    let kind = src.below(6);
    let deep = |n: usize, f: fn(Val) -> Val| {
        let mut v = Val::Y(1);
        for _ in 0..n {
            v = f(v);
        }
        v
    };
    let wrap_a: fn(Val) -> Val = |v| Val::A(v.ty(), vec![v]);
    let wrap_r: fn(Val) -> Val = |v| Val::R(vec![v]);
    let wrap_e: fn(Val) -> Val = |v| Val::A(Ty::E(Box::new((Ty::Y, v.ty()))), vec![Val::E(Box::new((Val::Y(1), v)))]);
    let (what, ok): (&str, bool) = match kind {
        0 => {
            let n = 250 + src.below(12) as usize;
            m.body = vec![Val::Y(1); n];
            ("many values", n <= 255)
        }
        1 => {
            let n = 29 + src.below(7) as usize;
            m.body.push(deep(n, wrap_a));
            ("nested arrays", n <= 32)
        }
        2 => {
            let n = 29 + src.below(7) as usize;
            m.body.push(deep(n, wrap_r));
            ("nested structs", n <= 32)
        }
        3 => {
            let n = 29 + src.below(7) as usize;
            m.body.push(deep(n, wrap_e));
            ("nested dicts", n <= 32)
        }
        4 => {
            let n = 240 + src.below(20) as usize;
            m.body.push(Val::A(Ty::R(vec![Ty::Y; n]), vec![]));
            ("long struct type", n + 3 <= 255)
        }
        _ => {
            let n = 240 + src.below(20) as usize;
            m.body.push(Val::V(Box::new(Val::A(Ty::R(vec![Ty::Y; n]), vec![]))));
            ("long type in a variant", n + 3 <= 255)
        }
    };
    ctx.desc(|| format!("{}, describable: {}, signature length {}", what, ok, sig_text(&m.sig()).len()));
    ctx.hit(m.hash64());
    ctx.label(if ok { "describable" } else { "not describable" });
    // Array::new may refuse a type it cannot compute: that is a refusal too
    let built = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.to_lib(&[])));
    let lib = match built {
        Ok(r) => r?,
        Err(_) => {
            ensure!(!ok, "{}: a describable body could not be built", what);
            return Ok(());
        }
    };
    if ok {
        described(&m, &lib, &[])
    } else {
        match lib.encode() {
            Err(_) => Ok(()),
            Ok(b) => bail!("{}: encoded although no valid signature describes it ({})", what, hex(&b)),
        }
    }
}

pub fn checks() -> Vec<Check> {
    const MODEL: &str = "the reference marshaller, unmarshaller and name grammars of the harness follow the D-Bus specification";
    vec![
        Check {
            id: "C01",
            rule: "random messages built through the public API (all types, both byte orders, any optional fields, bodies with nested containers, variants up to four deep, descriptors, edge numbers, long strings) plus an enumeration of every basic type at every alignment in every container; encoded, decoded and compared bit for bit with the model. Non-trivial: the message has a body or optional fields.",
            assumptions: &[MODEL],
            stack: 16 * MB,
            subs: vec![
                sub("alignments", 2 * 14 * 8 * 6, 2 * 14 * 8 * 6 * 40, roundtrip_enum),
                sub("lengths of one to four bytes", SIZE_MSGS, SIZE_MSGS, roundtrip_sizes),
                sub("edge values", edges::count(), edges::count(), roundtrip_edges),
                sub("messages", 180_000, 6_000_000, roundtrip),
            ],
        },
        Check {
            id: "C02",
            rule: "the same message space as C01; the library's bytes are compared with those of an independent marshaller (header field order taken from the wire). Non-trivial: the message has a body or optional fields.",
            assumptions: &[MODEL],
            stack: 16 * MB,
            subs: vec![
                sub("alignments", 2 * 14 * 8 * 6, 2 * 14 * 8 * 6 * 40, layout_enum),
                sub("lengths of one to four bytes", SIZE_MSGS, SIZE_MSGS, layout_sizes),
                sub("edge values", edges::count(), edges::count(), layout_edges),
                sub("messages", 360_000, 6_000_000, layout),
            ],
        },
        Check {
            id: "C03",
            rule: "well-formed messages marshalled by the reference marshaller with permuted header fields, optional empty signature field, any flags, version and serial, foreign descriptor indices and trailing bytes; every subset of fields x type x byte order enumerated. Non-trivial: body or optional fields present.",
            assumptions: &[MODEL],
            stack: 16 * MB,
            subs: vec![
                sub("field subsets", 4096, 4096 * 10, wellformed_fields),
                sub("alignments", 2 * 14 * 8 * 6, 2 * 14 * 8 * 6 * 40, wellformed_enum),
                sub("lengths of one to four bytes", SIZE_MSGS, SIZE_MSGS, wellformed_sizes),
                sub("edge values", edges::count(), edges::count(), wellformed_edges),
                sub("messages", 225_000, 6_000_000, wellformed),
                sub("well-formed mutants", 50_000, 1_500_000, super::faults::complete_mutants),
            ],
        },
        Check {
            id: "C06",
            rule: "every prefix of random well-formed messages (up to 3000 bytes; selected prefixes of longer ones), messages with 0 to 40 bytes behind them, streams of up to seven messages decoded at the reported offsets, incremental reading in arbitrary chunks, and the same bytes sliced out of a larger buffer. Non-trivial: distinct messages / streams of more than one message.",
            assumptions: &[MODEL],
            stack: 16 * MB,
            subs: vec![
                sub("prefixes", 4_000, 300_000, prefixes),
                sub("prefixes of long messages", 2_000, 600_000, prefixes_long),
                sub("streams", 30_000, 800_000, stream),
                sub("chunks", 10_000, 500_000, chunks),
            ],
        },
        Check {
            id: "C07",
            rule: "well-formed messages in any field order, and structured and byte-level mutants of them that still decode: decode, encode, decode, encode must reach a fixed point. Non-trivial: distinct byte strings that decode.",
            assumptions: &[],
            stack: 16 * MB,
            subs: vec![
                sub("edge values", edges::count(), edges::count(), reencode_edges),
                sub("valid", 100_000, 3_000_000, reencode_valid),
                sub("mutants", 60_000, 1_500_000, reencode_mutated),
            ],
        },
        Check {
            id: "C08",
            rule: "each message encoded little- and big-endian; decoded contents compared, lengths compared, every byte outside multi-byte numbers equal and every multi-byte number reversed; byte order of every reply helper. Non-trivial: distinct message contents.",
            assumptions: &[],
            stack: 16 * MB,
            subs: vec![
                sub("alignments", 14 * 8 * 6, 14 * 8 * 6 * 40, orders_enum),
                sub("lengths of one to four bytes", SIZE_MSGS / 2, SIZE_MSGS / 2, orders_sizes),
                sub("edge values", edges::count() / 2, edges::count() / 2, orders_edges),
                sub("pairs", 180_000, 4_000_000, orders),
                sub("replies", 48_000, 800_000, reply_orders),
            ],
        },
        Check {
            id: "C19",
            rule: "bodies with up to 1000 (a few with about 65536) distinct and repeated descriptors in every container, encoded and resolved through the returned list; foreign messages with arbitrary indices against lists of any length. Non-trivial: at least one descriptor value.",
            assumptions: &[MODEL],
            stack: 16 * MB,
            subs: vec![
                sub("encode", 120_000, 800_000, fds_encode),
                sub("decode", 360_000, 3_000_000, fds_decode),
                sub("many", 8, 200, fds_many),
            ],
        },
        Check {
            id: "C25",
            rule: "headers carrying any stale signature combined with any body, long bodies, histories of split / change body / rejoin, and bodies just inside and outside what a signature can describe; the wire is read by the reference unmarshaller. Non-trivial: header signature different from the body, or a history.",
            assumptions: &[MODEL],
            stack: 16 * MB,
            subs: vec![
                sub("stale", 250_000, 3_000_000, stale),
                sub("histories", 150_000, 1_500_000, splits),
                sub("long bodies", 300, 5_000, long_bodies),
                sub("limits", 4_000, 100_000, indescribable),
            ],
        },
    ]
}
