use crate::engine::*;
use crate::model::*;
use crate::wire;
use bytes::Bytes;
use dbus_message_parser::decode::DecodeError;
use dbus_message_parser::message::Message;

mod codec;
pub mod edges;
mod equality;
mod faults;
mod header;
mod history;
mod limits;
mod matchrules;
mod namesck;
mod paths;
mod pure;
mod replies;
mod totality;
mod types;

pub fn all() -> Vec<Check> {
    let mut v = Vec::new();
    v.extend(codec::checks());
    v.extend(faults::checks());
    v.extend(totality::checks());
    v.extend(limits::checks());
    v.extend(header::checks());
    v.extend(namesck::checks());
    v.extend(paths::checks());
    v.extend(types::checks());
    v.extend(matchrules::checks());
    v.extend(replies::checks());
    v.extend(history::checks());
    v.extend(pure::checks());
    v.extend(equality::checks());
    v.sort_by_key(|c| c.id);
    v
}

pub fn find(id: &str) -> Option<Check> {
    all().into_iter().find(|c| c.id == id)
}

pub const MB: usize = 1 << 20;

pub fn sub(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Sub {
    Sub { name, quick, thorough, f }
}

pub fn dec(b: &[u8]) -> Result<(Message, usize), DecodeError> {
    Message::decode(Bytes::copy_from_slice(b))
}

/// Decodes with the descriptors; where none of them matters, decoding without any must give the
/// same (a difference panics, which fails the case).
pub fn dec_fds(b: &[u8], fds: &[i32]) -> Result<(Message, usize, usize), DecodeError> {
    dec_both(Bytes::copy_from_slice(b), fds)
}

pub fn dec_both(b: Bytes, fds: &[i32]) -> Result<(Message, usize, usize), DecodeError> {
    let with = Message::decode_with_fds(b.clone(), fds);
    if b.len() > 4096 {
        return with;
    }
    let without = Message::decode(b);
    if let Err(DecodeError::NotEnoughFds(..)) = without {
        return with;
    }
    let same = match (&with, &without) {
        (Ok((x, n, 0)), Ok((y, m))) => n == m && (x == y || format!("{:?}", x) == format!("{:?}", y)),
        (Err(x), Err(y)) => x == y || format!("{:?}", x) == format!("{:?}", y),
        _ => false,
    };
    if !same {
        panic!("decoding with {} descriptors gives {:?}, without any {:?}", fds.len(), with, without);
    }
    with
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i >= 400 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{:02x}", x));
    }
    s
}

/// What a message with `fds` looks like after a trip over the wire: the unix-fds field counts
/// the distinct descriptors of the body (when there are any), the rest is unchanged.
pub fn after_wire(m: &Msg, fds: &[i32]) -> (Msg, Vec<i32>) {
    let (body, list) = wire::canonical_fds(&m.body, fds);
    let mut w = m.clone();
    w.body = body;
    if !list.is_empty() {
        w.h.unix_fds = Some(list.len() as u32);
    }
    (w, list)
}

pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b).position(|(x, y)| x != y);
    match n {
        Some(i) => format!("first difference at byte {} ({:#04x} / {:#04x})", i, a[i], b[i]),
        None => format!("lengths {} / {}", a.len(), b.len()),
    }
}
