//! Reference marshaller (which records where every length, padding byte, terminator, boolean,
//! text, signature and descriptor index lies) and strict reference unmarshaller, both written
//! from the D-Bus specification and sharing no code with the library.
use crate::model::*;
use crate::names;

pub const MAX_ARRAY: usize = 1 << 26;
pub const MAX_MESSAGE: usize = 1 << 27;

#[derive(Clone, Debug, PartialEq)]
pub enum TextKind {
    Str,
    Path,
}

#[derive(Clone, Debug, PartialEq)]
pub enum SigKind {
    Variant,
    Value,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Site {
    Endian,
    MType,
    Flags,
    BodyLen,
    HdrLen,
    /// header field code at the offset
    Code { off: usize, code: u8 },
    Pad { off: usize },
    Nul { off: usize },
    StrLen { off: usize, len: usize },
    Text { off: usize, len: usize, kind: TextKind, field: u8 },
    SigLen { off: usize, len: usize },
    Sig { off: usize, len: usize, kind: SigKind, field: u8 },
    Bool { off: usize },
    ArrLen { off: usize, start: usize, ends: Vec<usize> },
    Fd { off: usize },
}

pub struct Enc {
    pub buf: Vec<u8>,
    pub le: bool,
    pub sites: Vec<Site>,
    /// header field code being written, 0 in the body
    field: u8,
    pub record: bool,
}

impl Enc {
    pub fn new(le: bool) -> Enc {
        Enc { buf: Vec::new(), le, sites: Vec::new(), field: 0, record: true }
    }
    fn site(&mut self, s: Site) {
        if self.record {
            self.sites.push(s);
        }
    }
    pub fn align(&mut self, a: usize) {
        while self.buf.len() % a != 0 {
            let off = self.buf.len();
            self.site(Site::Pad { off });
            self.buf.push(0);
        }
    }
    fn b16(&mut self, x: u16) {
        self.align(2);
        let b = if self.le { x.to_le_bytes() } else { x.to_be_bytes() };
        self.buf.extend_from_slice(&b);
    }
    fn b32(&mut self, x: u32) {
        self.align(4);
        let b = if self.le { x.to_le_bytes() } else { x.to_be_bytes() };
        self.buf.extend_from_slice(&b);
    }
    fn b64(&mut self, x: u64) {
        self.align(8);
        let b = if self.le { x.to_le_bytes() } else { x.to_be_bytes() };
        self.buf.extend_from_slice(&b);
    }
    pub fn patch32(&mut self, off: usize, x: u32) {
        put32(&mut self.buf, self.le, off, x);
    }
    fn text(&mut self, s: &[u8], kind: TextKind) {
        self.align(4);
        let off = self.buf.len();
        self.site(Site::StrLen { off, len: s.len() });
        self.b32(s.len() as u32);
        let off = self.buf.len();
        let field = self.field;
        self.site(Site::Text { off, len: s.len(), kind, field });
        self.buf.extend_from_slice(s);
        let off = self.buf.len();
        self.site(Site::Nul { off });
        self.buf.push(0);
    }
    pub fn sig(&mut self, s: &str, kind: SigKind) {
        let off = self.buf.len();
        self.site(Site::SigLen { off, len: s.len() });
        assert!(s.len() <= 255);
        self.buf.push(s.len() as u8);
        let off = self.buf.len();
        let field = self.field;
        self.site(Site::Sig { off, len: s.len(), kind, field });
        self.buf.extend_from_slice(s.as_bytes());
        let off = self.buf.len();
        self.site(Site::Nul { off });
        self.buf.push(0);
    }
    pub fn val(&mut self, v: &Val) {
        match v {
            Val::Y(x) => self.buf.push(*x),
            Val::B(x) => {
                self.align(4);
                let off = self.buf.len();
                self.site(Site::Bool { off });
                self.b32(*x as u32);
            }
            Val::N(x) => self.b16(*x as u16),
            Val::Q(x) => self.b16(*x),
            Val::I(x) => self.b32(*x as u32),
            Val::U(x) => self.b32(*x),
            Val::X(x) => self.b64(*x as u64),
            Val::T(x) => self.b64(*x),
            Val::D(x) => self.b64(*x),
            Val::H(x) => {
                self.align(4);
                let off = self.buf.len();
                self.site(Site::Fd { off });
                self.b32(*x);
            }
            Val::S(x) => self.text(x.as_bytes(), TextKind::Str),
            Val::O(x) => self.text(x.as_bytes(), TextKind::Path),
            Val::G(x) => self.sig(&sig_text(x), SigKind::Value),
            Val::V(x) => {
                self.sig(&x.ty().text(), SigKind::Variant);
                self.val(x);
            }
            Val::A(t, xs) => {
                self.align(4);
                let off = self.buf.len();
                self.b32(0);
                self.align(t.align());
                let start = self.buf.len();
                let idx = self.sites.len();
                self.site(Site::ArrLen { off, start, ends: Vec::new() });
                let mut e = Vec::new();
                for x in xs {
                    self.val(x);
                    if self.record {
                        e.push(self.buf.len());
                    }
                }
                if self.record {
                    if let Some(Site::ArrLen { ends, .. }) = self.sites.get_mut(idx) {
                        *ends = e;
                    }
                }
                let n = (self.buf.len() - start) as u32;
                self.patch32(off, n);
            }
            Val::R(xs) => {
                self.align(8);
                xs.iter().for_each(|x| self.val(x));
            }
            Val::E(e) => {
                self.align(8);
                self.val(&e.0);
                self.val(&e.1);
            }
        }
    }
}

pub fn put32(buf: &mut [u8], le: bool, off: usize, x: u32) {
    let b = if le { x.to_le_bytes() } else { x.to_be_bytes() };
    buf[off..off + 4].copy_from_slice(&b);
}

pub fn get32(buf: &[u8], le: bool, off: usize) -> u32 {
    let a = [buf[off], buf[off + 1], buf[off + 2], buf[off + 3]];
    if le { u32::from_le_bytes(a) } else { u32::from_be_bytes(a) }
}

/// A message as header field list and body, not necessarily well formed.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Raw {
    pub le: bool,
    pub mtype: u8,
    pub flags: u8,
    pub version: u8,
    pub serial: u32,
    pub fields: Vec<(u8, Val)>,
    pub body: Vec<Val>,
}

pub struct Encoded {
    pub buf: Vec<u8>,
    pub sites: Vec<Site>,
    /// start of the body
    pub body: usize,
}

pub fn encode_raw(m: &Raw, record: bool) -> Encoded {
    let mut e = Enc::new(m.le);
    e.record = record;
    e.site(Site::Endian);
    e.buf.push(if m.le { b'l' } else { b'B' });
    e.site(Site::MType);
    e.buf.push(m.mtype);
    e.site(Site::Flags);
    e.buf.push(m.flags);
    e.buf.push(m.version);
    e.site(Site::BodyLen);
    e.b32(0);
    e.b32(m.serial);
    e.site(Site::HdrLen);
    e.b32(0);
    let start = e.buf.len();
    for (code, v) in &m.fields {
        e.align(8);
        let off = e.buf.len();
        e.site(Site::Code { off, code: *code });
        e.buf.push(*code);
        e.field = *code;
        e.sig(&v.ty().text(), SigKind::Variant);
        e.val(v);
        e.field = 0;
    }
    let n = (e.buf.len() - start) as u32;
    e.patch32(12, n);
    e.align(8);
    let body = e.buf.len();
    for v in &m.body {
        e.val(v);
    }
    let n = (e.buf.len() - body) as u32;
    e.patch32(4, n);
    Encoded { buf: e.buf, sites: e.sites, body }
}

impl Msg {
    /// `order` lists the codes of the fields to write (8 for the signature).
    pub fn raw(&self, order: &[u8]) -> Raw {
        let fields = order
            .iter()
            .map(|c| {
                let v = if *c == SIGNATURE {
                    Val::G(self.sig())
                } else {
                    self.h.value(*c).expect("field of the order is absent")
                };
                (*c, v)
            })
            .collect();
        Raw {
            le: self.le,
            mtype: self.mtype,
            flags: self.flags,
            version: self.version,
            serial: self.serial,
            fields,
            body: self.body.clone(),
        }
    }
    pub fn canonical_order(&self) -> Vec<u8> {
        let mut c = self.h.codes();
        if !self.body.is_empty() {
            c.push(SIGNATURE);
        }
        c.sort_unstable();
        c
    }
    pub fn encode(&self) -> Encoded {
        encode_raw(&self.raw(&self.canonical_order()), true)
    }
    pub fn encode_fast(&self) -> Encoded {
        encode_raw(&self.raw(&self.canonical_order()), false)
    }
}

/// Indices by first occurrence, and the distinct descriptors in that order.
pub fn canonical_fds(body: &[Val], fds: &[i32]) -> (Vec<Val>, Vec<i32>) {
    let mut out: Vec<i32> = Vec::new();
    let mut b = body.to_vec();
    for v in b.iter_mut() {
        v.map_h(&mut |i| {
            let fd = fds[i as usize];
            match out.iter().position(|x| *x == fd) {
                Some(p) => p as u32,
                None => {
                    out.push(fd);
                    out.len() as u32 - 1
                }
            }
        });
    }
    (b, out)
}

// ---------------------------------------------------------------------------------------------
// Signatures

/// Parse complete types. Err(reason). Limits of the specification (each nesting kind 32).
pub fn parse_sig(s: &[u8]) -> Result<Vec<Ty>, &'static str> {
    if s.len() > 255 {
        return Err("too long");
    }
    let mut i = 0;
    let mut out = Vec::new();
    while i < s.len() {
        out.push(parse_one(s, &mut i, 0, 0, 0)?);
    }
    Ok(out)
}

fn parse_one(s: &[u8], i: &mut usize, a: usize, r: usize, d: usize) -> Result<Ty, &'static str> {
    if a > 32 || r > 32 || d > 32 {
        return Err("too deep");
    }
    let c = *s.get(*i).ok_or("too short")?;
    *i += 1;
    Ok(match c {
        b'y' => Ty::Y,
        b'b' => Ty::B,
        b'n' => Ty::N,
        b'q' => Ty::Q,
        b'i' => Ty::I,
        b'u' => Ty::U,
        b'x' => Ty::X,
        b't' => Ty::T,
        b'd' => Ty::D,
        b'h' => Ty::H,
        b's' => Ty::S,
        b'o' => Ty::O,
        b'g' => Ty::G,
        b'v' => Ty::V,
        b'a' => Ty::A(Box::new(parse_one(s, i, a + 1, r, d)?)),
        b'(' => {
            let mut ts = Vec::new();
            while s.get(*i) != Some(&b')') {
                ts.push(parse_one(s, i, a, r + 1, d)?);
            }
            *i += 1;
            if ts.is_empty() {
                return Err("empty struct");
            }
            Ty::R(ts)
        }
        b'{' => {
            let k = parse_one(s, i, a, r, d + 1)?;
            let v = parse_one(s, i, a, r, d + 1)?;
            if s.get(*i) != Some(&b'}') {
                return Err("dict not closed");
            }
            *i += 1;
            Ty::E(Box::new((k, v)))
        }
        _ => return Err("unknown type code"),
    })
}

// ---------------------------------------------------------------------------------------------
// Reference unmarshaller

#[derive(Clone, Debug, PartialEq)]
pub struct Decoded {
    pub msg: Msg,
    pub body_sig: Vec<Ty>,
    pub consumed: usize,
    /// Highest descriptor index used plus one.
    pub fds_used: usize,
    /// False when the message uses a construct on which the specification and the library's
    /// pinned leniencies differ (dict entry outside an array or with a container key, NUL inside
    /// a string): then either verdict is right.
    pub strict: bool,
}

pub struct Dec<'a> {
    b: &'a [u8],
    off: usize,
    le: bool,
    nfds: usize,
    used: usize,
    strict: bool,
}

type R<T> = Result<T, String>;

impl<'a> Dec<'a> {
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.b.len() || self.off > self.b.len() - n {
            return Err("too short".into());
        }
        let s = &self.b[self.off..self.off + n];
        self.off += n;
        Ok(s)
    }
    fn align(&mut self, a: usize) -> R<()> {
        while self.off % a != 0 {
            if self.take(1)?[0] != 0 {
                return Err("padding".into());
            }
        }
        Ok(())
    }
    fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> R<u16> {
        self.align(2)?;
        let s = self.take(2)?;
        Ok(if self.le { u16::from_le_bytes([s[0], s[1]]) } else { u16::from_be_bytes([s[0], s[1]]) })
    }
    fn u32(&mut self) -> R<u32> {
        self.align(4)?;
        let s = self.take(4)?;
        Ok(get32(s, self.le, 0))
    }
    fn u64(&mut self) -> R<u64> {
        self.align(8)?;
        let s = self.take(8)?;
        let mut a = [0u8; 8];
        a.copy_from_slice(s);
        Ok(if self.le { u64::from_le_bytes(a) } else { u64::from_be_bytes(a) })
    }
    fn nul_terminated(&mut self, n: usize) -> R<&'a [u8]> {
        let s = self.take(n)?;
        if self.u8()? != 0 {
            return Err("terminator".into());
        }
        Ok(s)
    }
    fn sig(&mut self) -> R<Vec<Ty>> {
        let n = self.u8()? as usize;
        let s = self.nul_terminated(n)?;
        let ts = parse_sig(s)?;
        if !ts.iter().all(|t| t.dict_ok(false)) {
            self.strict = false;
        }
        Ok(ts)
    }
    fn val(&mut self, t: &Ty, vd: usize) -> R<Val> {
        Ok(match t {
            Ty::Y => Val::Y(self.u8()?),
            Ty::B => match self.u32()? {
                0 => Val::B(false),
                1 => Val::B(true),
                _ => return Err("boolean".into()),
            },
            Ty::N => Val::N(self.u16()? as i16),
            Ty::Q => Val::Q(self.u16()?),
            Ty::I => Val::I(self.u32()? as i32),
            Ty::U => Val::U(self.u32()?),
            Ty::X => Val::X(self.u64()? as i64),
            Ty::T => Val::T(self.u64()?),
            Ty::D => Val::D(self.u64()?),
            Ty::H => {
                let i = self.u32()?;
                if i as usize >= self.nfds {
                    return Err("descriptor index".into());
                }
                self.used = self.used.max(i as usize + 1);
                Val::H(i)
            }
            Ty::S => {
                let n = self.u32()? as usize;
                let s = self.nul_terminated(n)?;
                let s = std::str::from_utf8(s).map_err(|e| e.to_string())?;
                if s.contains('\0') {
                    self.strict = false;
                }
                Val::S(s.to_string())
            }
            Ty::O => {
                let n = self.u32()? as usize;
                let s = self.nul_terminated(n)?;
                if !names::is_path(s) {
                    return Err("object path".into());
                }
                Val::O(String::from_utf8(s.to_vec()).unwrap())
            }
            Ty::G => Val::G(self.sig()?),
            Ty::V => {
                if vd >= 4 {
                    return Err("variant depth".into());
                }
                let mut ts = self.sig()?;
                if ts.len() != 1 {
                    return Err("variant signature".into());
                }
                let t = ts.pop().unwrap();
                Val::V(Box::new(self.val(&t, vd + 1)?))
            }
            Ty::A(t) => {
                let n = self.u32()? as usize;
                if n > MAX_ARRAY {
                    return Err("array length".into());
                }
                self.align(t.align())?;
                let end = self.off + n;
                if end > self.b.len() {
                    return Err("too short".into());
                }
                let mut xs = Vec::new();
                while self.off < end {
                    xs.push(self.val(t, vd)?);
                }
                if self.off != end {
                    return Err("array overrun".into());
                }
                Val::A((**t).clone(), xs)
            }
            Ty::R(ts) => {
                self.align(8)?;
                let mut xs = Vec::new();
                for t in ts {
                    xs.push(self.val(t, vd)?);
                }
                Val::R(xs)
            }
            Ty::E(e) => {
                self.align(8)?;
                let k = self.val(&e.0, vd)?;
                let v = self.val(&e.1, vd)?;
                Val::E(Box::new((k, v)))
            }
        })
    }
}

pub fn decode(buf: &[u8], nfds: usize) -> Result<Decoded, String> {
    let buf = &buf[..buf.len().min(MAX_MESSAGE)];
    let mut d = Dec { b: buf, off: 0, le: true, nfds, used: 0, strict: true };
    d.le = match d.u8()? {
        b'l' => true,
        b'B' => false,
        _ => return Err("byte order".into()),
    };
    let mtype = d.u8()?;
    if !(1..=4).contains(&mtype) {
        return Err("message type".into());
    }
    let flags = d.u8()?;
    if flags & !7 != 0 {
        return Err("flags".into());
    }
    let version = d.u8()?;
    let body_len = d.u32()? as usize;
    let serial = d.u32()?;
    let arr = d.val(
        &Ty::A(Box::new(Ty::R(vec![Ty::Y, Ty::V]))),
        0,
    )?;
    let mut h = Hdr::default();
    let mut sig: Option<Vec<Ty>> = None;
    let entries = match arr {
        Val::A(_, xs) => xs,
        _ => unreachable!(),
    };
    for e in entries {
        let (code, v) = match e {
            Val::R(mut xs) => {
                let v = xs.pop().unwrap();
                let c = xs.pop().unwrap();
                match (c, v) {
                    (Val::Y(c), Val::V(v)) => (c, *v),
                    _ => unreachable!(),
                }
            }
            _ => unreachable!(),
        };
        macro_rules! set {
            ($slot:expr, $v:expr) => {{
                if $slot.is_some() {
                    return Err("duplicate field".into());
                }
                $slot = Some($v);
            }};
        }
        match (code, v) {
            (1, Val::O(s)) => set!(h.path, s),
            (2, Val::S(s)) if names::is_interface(s.as_bytes()) => set!(h.interface, s),
            (3, Val::S(s)) if names::is_member(s.as_bytes()) => set!(h.member, s),
            (4, Val::S(s)) if names::is_interface(s.as_bytes()) => set!(h.error_name, s),
            (5, Val::U(x)) => set!(h.reply_serial, x),
            (6, Val::S(s)) if names::is_bus(s.as_bytes()) => set!(h.destination, s),
            (7, Val::S(s)) if names::is_bus(s.as_bytes()) => set!(h.sender, s),
            (8, Val::G(g)) => set!(sig, g),
            (9, Val::U(x)) => set!(h.unix_fds, x),
            _ => return Err("header field".into()),
        }
    }
    for c in required(mtype) {
        if h.value(*c).is_none() {
            return Err("missing field".into());
        }
    }
    d.align(8)?;
    let start = d.off;
    let body_sig = sig.unwrap_or_default();
    let mut body = Vec::new();
    for t in &body_sig {
        body.push(d.val(t, 0)?);
    }
    if d.off - start != body_len {
        return Err("body length".into());
    }
    Ok(Decoded {
        msg: Msg { le: d.le, mtype, flags, version, serial, h, body },
        body_sig,
        consumed: d.off,
        fds_used: d.used,
        strict: d.strict,
    })
}
