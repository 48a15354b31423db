//! Independent model of D-Bus types, values and messages, with conversions to and from the
//! library's own types.
use dbus_message_parser::message::{
    Message, MessageFlags, MessageHeader, MessageHeaderFields, MessageType,
};
use dbus_message_parser::value::{
    Array, Bus, Error, Interface, Member, ObjectPath, Struct, Type, Value,
};
use std::convert::TryFrom;
use std::fmt::Write;

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Ty {
    Y, B, N, Q, I, U, X, T, D, H, S, O, G, V,
    A(Box<Ty>),
    R(Vec<Ty>),
    E(Box<(Ty, Ty)>),
}

pub const BASIC: [Ty; 13] = [
    Ty::Y, Ty::B, Ty::N, Ty::Q, Ty::I, Ty::U, Ty::X, Ty::T, Ty::D, Ty::H, Ty::S, Ty::O, Ty::G,
];

impl Ty {
    pub fn write(&self, s: &mut String) {
        match self {
            Ty::Y => s.push('y'),
            Ty::B => s.push('b'),
            Ty::N => s.push('n'),
            Ty::Q => s.push('q'),
            Ty::I => s.push('i'),
            Ty::U => s.push('u'),
            Ty::X => s.push('x'),
            Ty::T => s.push('t'),
            Ty::D => s.push('d'),
            Ty::H => s.push('h'),
            Ty::S => s.push('s'),
            Ty::O => s.push('o'),
            Ty::G => s.push('g'),
            Ty::V => s.push('v'),
            Ty::A(t) => {
                s.push('a');
                t.write(s);
            }
            Ty::R(ts) => {
                s.push('(');
                ts.iter().for_each(|t| t.write(s));
                s.push(')');
            }
            Ty::E(e) => {
                s.push('{');
                e.0.write(s);
                e.1.write(s);
                s.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    pub fn is_basic(&self) -> bool {
        !matches!(self, Ty::V | Ty::A(_) | Ty::R(_) | Ty::E(_))
    }
    /// Alignment table of the D-Bus specification.
    pub fn align(&self) -> usize {
        match self {
            Ty::Y | Ty::G | Ty::V => 1,
            Ty::N | Ty::Q => 2,
            Ty::B | Ty::I | Ty::U | Ty::H | Ty::S | Ty::O | Ty::A(_) => 4,
            Ty::X | Ty::T | Ty::D | Ty::R(_) | Ty::E(_) => 8,
        }
    }
    /// Greatest array, struct and dict nesting.
    pub fn depths(&self) -> (usize, usize, usize) {
        match self {
            Ty::A(t) => {
                let d = t.depths();
                (d.0 + 1, d.1, d.2)
            }
            Ty::R(ts) => {
                let mut m = (0, 0, 0);
                for t in ts {
                    let d = t.depths();
                    m = (m.0.max(d.0), m.1.max(d.1), m.2.max(d.2));
                }
                (m.0, m.1 + 1, m.2)
            }
            Ty::E(e) => {
                let a = e.0.depths();
                let b = e.1.depths();
                (a.0.max(b.0), a.1.max(b.1), a.2.max(b.2) + 1)
            }
            _ => (0, 0, 0),
        }
    }
    pub fn nodes(&self) -> usize {
        match self {
            Ty::A(t) => 1 + t.nodes(),
            Ty::R(ts) => 1 + ts.iter().map(|t| t.nodes()).sum::<usize>(),
            Ty::E(e) => 1 + e.0.nodes() + e.1.nodes(),
            _ => 1,
        }
    }
    /// Uses dict entries only as the specification allows.
    pub fn dict_ok(&self, elem: bool) -> bool {
        match self {
            Ty::A(t) => t.dict_ok(true),
            Ty::R(ts) => ts.iter().all(|t| t.dict_ok(false)),
            Ty::E(e) => elem && e.0.is_basic() && e.1.dict_ok(false),
            _ => true,
        }
    }
    pub fn to_lib(&self) -> Type {
        match self {
            Ty::Y => Type::Byte,
            Ty::B => Type::Boolean,
            Ty::N => Type::Int16,
            Ty::Q => Type::Uint16,
            Ty::I => Type::Int32,
            Ty::U => Type::Uint32,
            Ty::X => Type::Int64,
            Ty::T => Type::Uint64,
            Ty::D => Type::Double,
            Ty::H => Type::UnixFD,
            Ty::S => Type::String,
            Ty::O => Type::ObjectPath,
            Ty::G => Type::Signature,
            Ty::V => Type::Variant,
            Ty::A(t) => Type::Array(Box::new(t.to_lib())),
            Ty::R(ts) => Type::Struct(ts.iter().map(|t| t.to_lib()).collect()),
            Ty::E(e) => Type::DictEntry(Box::new((e.0.to_lib(), e.1.to_lib()))),
        }
    }
    pub fn from_lib(t: &Type) -> Ty {
        match t {
            Type::Byte => Ty::Y,
            Type::Boolean => Ty::B,
            Type::Int16 => Ty::N,
            Type::Uint16 => Ty::Q,
            Type::Int32 => Ty::I,
            Type::Uint32 => Ty::U,
            Type::Int64 => Ty::X,
            Type::Uint64 => Ty::T,
            Type::Double => Ty::D,
            Type::UnixFD => Ty::H,
            Type::String => Ty::S,
            Type::ObjectPath => Ty::O,
            Type::Signature => Ty::G,
            Type::Variant => Ty::V,
            Type::Array(t) => Ty::A(Box::new(Ty::from_lib(t))),
            Type::Struct(ts) => Ty::R(ts.iter().map(Ty::from_lib).collect()),
            Type::DictEntry(e) => Ty::E(Box::new((Ty::from_lib(&e.0), Ty::from_lib(&e.1)))),
        }
    }
}

pub fn sig_text(ts: &[Ty]) -> String {
    let mut s = String::new();
    ts.iter().for_each(|t| t.write(&mut s));
    s
}

/// Values; `H` holds the index on the wire (or, after `resolve`, the descriptor itself).
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Val {
    Y(u8), B(bool), N(i16), Q(u16), I(i32), U(u32), X(i64), T(u64),
    /// IEEE bits
    D(u64),
    H(u32),
    S(String), O(String), G(Vec<Ty>),
    V(Box<Val>),
    A(Ty, Vec<Val>),
    R(Vec<Val>),
    E(Box<(Val, Val)>),
}

impl Val {
    pub fn ty(&self) -> Ty {
        match self {
            Val::Y(_) => Ty::Y,
            Val::B(_) => Ty::B,
            Val::N(_) => Ty::N,
            Val::Q(_) => Ty::Q,
            Val::I(_) => Ty::I,
            Val::U(_) => Ty::U,
            Val::X(_) => Ty::X,
            Val::T(_) => Ty::T,
            Val::D(_) => Ty::D,
            Val::H(_) => Ty::H,
            Val::S(_) => Ty::S,
            Val::O(_) => Ty::O,
            Val::G(_) => Ty::G,
            Val::V(_) => Ty::V,
            Val::A(t, _) => Ty::A(Box::new(t.clone())),
            Val::R(vs) => Ty::R(vs.iter().map(|v| v.ty()).collect()),
            Val::E(e) => Ty::E(Box::new((e.0.ty(), e.1.ty()))),
        }
    }
    /// Depth of variants: 0 without any.
    pub fn variant_depth(&self) -> usize {
        match self {
            Val::V(v) => 1 + v.variant_depth(),
            Val::A(_, vs) | Val::R(vs) => vs.iter().map(|v| v.variant_depth()).max().unwrap_or(0),
            Val::E(e) => e.0.variant_depth().max(e.1.variant_depth()),
            _ => 0,
        }
    }
    pub fn each<F: FnMut(&Val)>(&self, f: &mut F) {
        f(self);
        match self {
            Val::V(v) => v.each(f),
            Val::A(_, vs) | Val::R(vs) => vs.iter().for_each(|v| v.each(f)),
            Val::E(e) => {
                e.0.each(f);
                e.1.each(f);
            }
            _ => (),
        }
    }
    pub fn map_h<F: FnMut(u32) -> u32>(&mut self, f: &mut F) {
        match self {
            Val::H(i) => *i = f(*i),
            Val::V(v) => v.map_h(f),
            Val::A(_, vs) | Val::R(vs) => vs.iter_mut().for_each(|v| v.map_h(f)),
            Val::E(e) => {
                e.0.map_h(f);
                e.1.map_h(f);
            }
            _ => (),
        }
    }
    /// The library value; `fds` resolves indices.
    pub fn to_lib(&self, fds: &[i32]) -> Value {
        match self {
            Val::Y(x) => Value::Byte(*x),
            Val::B(x) => Value::Boolean(*x),
            Val::N(x) => Value::Int16(*x),
            Val::Q(x) => Value::Uint16(*x),
            Val::I(x) => Value::Int32(*x),
            Val::U(x) => Value::Uint32(*x),
            Val::X(x) => Value::Int64(*x),
            Val::T(x) => Value::Uint64(*x),
            Val::D(x) => Value::Double(f64::from_bits(*x)),
            Val::H(x) => Value::UnixFD(fds.get(*x as usize).copied().unwrap_or(*x as i32)),
            Val::S(x) => Value::String(x.clone()),
            Val::O(x) => Value::ObjectPath(
                ObjectPath::try_from(x.as_str()).expect("library refused a valid object path"),
            ),
            Val::G(x) => Value::Signature(x.iter().map(|t| t.to_lib()).collect()),
            Val::V(x) => Value::Variant(Box::new(x.to_lib(fds))),
            Val::A(t, xs) => Value::Array(
                Array::new(xs.iter().map(|x| x.to_lib(fds)).collect(), t.to_lib())
                    .expect("library refused a well-typed array"),
            ),
            Val::R(xs) => Value::Struct(
                Struct::try_from(xs.iter().map(|x| x.to_lib(fds)).collect::<Vec<Value>>())
                    .expect("library refused a non-empty struct"),
            ),
            Val::E(e) => Value::DictEntry(Box::new((e.0.to_lib(fds), e.1.to_lib(fds)))),
        }
    }
    /// The model of a library value, descriptors kept as they are.
    pub fn from_lib(v: &Value) -> Val {
        match v {
            Value::Byte(x) => Val::Y(*x),
            Value::Boolean(x) => Val::B(*x),
            Value::Int16(x) => Val::N(*x),
            Value::Uint16(x) => Val::Q(*x),
            Value::Int32(x) => Val::I(*x),
            Value::Uint32(x) => Val::U(*x),
            Value::Int64(x) => Val::X(*x),
            Value::Uint64(x) => Val::T(*x),
            Value::Double(x) => Val::D(x.to_bits()),
            Value::UnixFD(x) => Val::H(*x as u32),
            Value::String(x) => Val::S(x.clone()),
            Value::ObjectPath(x) => Val::O(x.to_string()),
            Value::Signature(x) => Val::G(x.iter().map(Ty::from_lib).collect()),
            Value::Variant(x) => Val::V(Box::new(Val::from_lib(x))),
            Value::Array(x) => Val::A(
                Ty::from_lib(x.get_type()),
                x.as_ref().iter().map(Val::from_lib).collect(),
            ),
            Value::Struct(x) => Val::R(x.as_ref().iter().map(Val::from_lib).collect()),
            Value::DictEntry(e) => {
                Val::E(Box::new((Val::from_lib(&e.0), Val::from_lib(&e.1))))
            }
        }
    }
}

pub fn body_from_lib(b: &[Value]) -> Vec<Val> {
    b.iter().map(Val::from_lib).collect()
}

/// Replace indices by the descriptors of the table.
pub fn resolve(body: &[Val], fds: &[i32]) -> Vec<Val> {
    let mut b = body.to_vec();
    for v in b.iter_mut() {
        v.map_h(&mut |i| fds[i as usize] as u32);
    }
    b
}

pub fn has_fd(body: &[Val]) -> bool {
    let mut r = false;
    for v in body {
        v.each(&mut |v| r |= matches!(v, Val::H(_)));
    }
    r
}

/// Header fields other than the body signature.
#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct Hdr {
    pub path: Option<String>,
    pub interface: Option<String>,
    pub member: Option<String>,
    pub error_name: Option<String>,
    pub reply_serial: Option<u32>,
    pub destination: Option<String>,
    pub sender: Option<String>,
    pub unix_fds: Option<u32>,
}

pub const PATH: u8 = 1;
pub const INTERFACE: u8 = 2;
pub const MEMBER: u8 = 3;
pub const ERROR_NAME: u8 = 4;
pub const REPLY_SERIAL: u8 = 5;
pub const DESTINATION: u8 = 6;
pub const SENDER: u8 = 7;
pub const SIGNATURE: u8 = 8;
pub const UNIX_FDS: u8 = 9;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Msg {
    pub le: bool,
    pub mtype: u8,
    pub flags: u8,
    pub version: u8,
    pub serial: u32,
    pub h: Hdr,
    pub body: Vec<Val>,
}

impl Hdr {
    /// Codes of the fields that are present, ascending.
    pub fn codes(&self) -> Vec<u8> {
        let mut c = Vec::new();
        if self.path.is_some() {
            c.push(PATH);
        }
        if self.interface.is_some() {
            c.push(INTERFACE);
        }
        if self.member.is_some() {
            c.push(MEMBER);
        }
        if self.error_name.is_some() {
            c.push(ERROR_NAME);
        }
        if self.reply_serial.is_some() {
            c.push(REPLY_SERIAL);
        }
        if self.destination.is_some() {
            c.push(DESTINATION);
        }
        if self.sender.is_some() {
            c.push(SENDER);
        }
        if self.unix_fds.is_some() {
            c.push(UNIX_FDS);
        }
        c
    }
    pub fn value(&self, code: u8) -> Option<Val> {
        match code {
            PATH => self.path.clone().map(Val::O),
            INTERFACE => self.interface.clone().map(Val::S),
            MEMBER => self.member.clone().map(Val::S),
            ERROR_NAME => self.error_name.clone().map(Val::S),
            REPLY_SERIAL => self.reply_serial.map(Val::U),
            DESTINATION => self.destination.clone().map(Val::S),
            SENDER => self.sender.clone().map(Val::S),
            UNIX_FDS => self.unix_fds.map(Val::U),
            _ => None,
        }
    }
    pub fn to_lib(&self, signature: Option<&[Ty]>) -> Result<MessageHeaderFields, String> {
        fn t<T, E: std::fmt::Debug>(r: Result<T, E>, s: &str) -> Result<T, String> {
            r.map_err(|e| format!("library refused the valid name {:?}: {:?}", s, e))
        }
        let mut f = MessageHeaderFields::default();
        if let Some(s) = &self.path {
            f.path = Some(t(ObjectPath::try_from(s.as_str()), s)?);
        }
        if let Some(s) = &self.interface {
            f.interface = Some(t(Interface::try_from(s.as_str()), s)?);
        }
        if let Some(s) = &self.member {
            f.member = Some(t(Member::try_from(s.as_str()), s)?);
        }
        if let Some(s) = &self.error_name {
            f.error_name = Some(t(Error::try_from(s.as_str()), s)?);
        }
        if let Some(s) = &self.destination {
            f.destination = Some(t(Bus::try_from(s.as_str()), s)?);
        }
        if let Some(s) = &self.sender {
            f.sender = Some(t(Bus::try_from(s.as_str()), s)?);
        }
        f.reply_serial = self.reply_serial;
        f.unix_fds = self.unix_fds;
        f.signature = signature.map(|s| s.iter().map(|t| t.to_lib()).collect());
        Ok(f)
    }
}

pub fn mtype_lib(t: u8) -> MessageType {
    match t {
        1 => MessageType::MethodCall,
        2 => MessageType::MethodReturn,
        3 => MessageType::Error,
        4 => MessageType::Signal,
        _ => unreachable!(),
    }
}

pub fn mtype_num(t: MessageType) -> u8 {
    match t {
        MessageType::MethodCall => 1,
        MessageType::MethodReturn => 2,
        MessageType::Error => 3,
        MessageType::Signal => 4,
    }
}

pub fn flags_lib(f: u8) -> MessageFlags {
    let mut r = MessageFlags::empty();
    if f & 1 != 0 {
        r |= MessageFlags::NO_REPLY_EXPECTED;
    }
    if f & 2 != 0 {
        r |= MessageFlags::NO_AUTO_START;
    }
    if f & 4 != 0 {
        r |= MessageFlags::ALLOW_INTERACTIVE_AUTHORIZATION;
    }
    r
}

/// Fields each message type requires.
pub fn required(mtype: u8) -> &'static [u8] {
    match mtype {
        1 => &[PATH, MEMBER],
        2 => &[REPLY_SERIAL],
        3 => &[ERROR_NAME, REPLY_SERIAL],
        4 => &[PATH, INTERFACE, MEMBER],
        _ => &[],
    }
}

impl Msg {
    pub fn sig(&self) -> Vec<Ty> {
        self.body.iter().map(|v| v.ty()).collect()
    }
    pub fn header_lib(&self, signature: Option<&[Ty]>) -> Result<MessageHeader, String> {
        MessageHeader::new(
            self.le,
            mtype_lib(self.mtype),
            flags_lib(self.flags),
            self.version,
            self.serial,
            self.h.to_lib(signature)?,
        )
        .map_err(|e| format!("library refused a header with all required fields: {:?}", e))
    }
    pub fn to_lib(&self, fds: &[i32]) -> Result<Message, String> {
        let h = self.header_lib(None)?;
        Ok(Message::new(h, self.body.iter().map(|v| v.to_lib(fds)).collect()))
    }
    /// Hash for counting distinct cases.
    pub fn hash64(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.hash(&mut h);
        h.finish()
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        let _ = write!(
            s,
            "{} type={} flags={} ver={} serial={} fields={{",
            if self.le { "LE" } else { "BE" },
            self.mtype, self.flags, self.version, self.serial
        );
        for c in self.h.codes() {
            let _ = write!(s, "{}:{}, ", c, show_val(&self.h.value(c).unwrap()));
        }
        let _ = write!(s, "}} sig={:?} body=[", sig_text(&self.sig()));
        for v in &self.body {
            let _ = write!(s, "{}, ", show_val(v));
            if s.len() > 4000 {
                s.push_str("...");
                break;
            }
        }
        s.push(']');
        s
    }
}

pub fn show_str(s: &str) -> String {
    if s.len() > 120 {
        let head: String = s.chars().take(40).collect();
        format!("{:?}..({} bytes)", head, s.len())
    } else {
        format!("{:?}", s)
    }
}

pub fn show_val(v: &Val) -> String {
    fn go(v: &Val, s: &mut String) {
        if s.len() > 3000 {
            if !s.ends_with("...") {
                s.push_str("...");
            }
            return;
        }
        let list = |vs: &[Val], s: &mut String| {
            for (i, v) in vs.iter().enumerate() {
                if i > 0 {
                    s.push_str(", ");
                }
                if i >= 12 {
                    let _ = write!(s, "..{} items", vs.len());
                    break;
                }
                go(v, s);
            }
        };
        match v {
            Val::S(x) => s.push_str(&show_str(x)),
            Val::O(x) => {
                let _ = write!(s, "path {}", show_str(x));
            }
            Val::G(x) => {
                let _ = write!(s, "sig {:?}", sig_text(x));
            }
            Val::D(x) => {
                let _ = write!(s, "f64:{:#x}", x);
            }
            Val::V(x) => {
                let _ = write!(s, "var<{}>(", x.ty().text());
                go(x, s);
                s.push(')');
            }
            Val::A(t, xs) => {
                let _ = write!(s, "arr<{}>[", t.text());
                list(xs, s);
                s.push(']');
            }
            Val::R(xs) => {
                s.push('(');
                list(xs, s);
                s.push(')');
            }
            Val::E(e) => {
                s.push('{');
                go(&e.0, s);
                s.push_str(": ");
                go(&e.1, s);
                s.push('}');
            }
            other => {
                let _ = write!(s, "{:?}", other);
            }
        }
    }
    let mut s = String::new();
    go(v, &mut s);
    s
}

/// Model of a library message: header through the getters, body through its values.
/// Byte order, flags and version have no getters; see `check_header`.
pub fn check_header(msg: &Message, want: &Msg, body_sig: &[Ty]) -> Result<(), String> {
    let (h, _) = msg.clone().split().map_err(|e| format!("split failed: {:?}", e))?;
    // split fills in the signature of the body; with an empty body nothing may be left over
    let left = h.get_signature().map(|s| s.to_vec());
    let sig: Option<Vec<Ty>> = match &left {
        Some(s) => Some(s.iter().map(Ty::from_lib).collect()),
        None => None,
    };
    match &sig {
        Some(s) => crate::ensure!(
            s.as_slice() == body_sig,
            "header signature {:?} disagrees with the body signature {:?}",
            sig_text(s),
            sig_text(body_sig)
        ),
        None => crate::ensure!(body_sig.is_empty(), "split header lacks the body signature"),
    }
    let expect = want.header_lib(sig.as_deref())?;
    crate::ensure!(h == expect, "header differs: got {:?} expected {:?}", h, expect);
    let get = hdr_of(msg);
    crate::ensure!(get == want.h, "header getters differ: got {:?} expected {:?}", get, want.h);
    crate::ensure!(
        msg.get_serial() == want.serial && mtype_num(msg.get_type()) == want.mtype,
        "serial or type differs"
    );
    Ok(())
}

pub fn hdr_of(msg: &Message) -> Hdr {
    Hdr {
        path: msg.get_path().map(|x| x.to_string()),
        interface: msg.get_interface().map(|x| x.to_string()),
        member: msg.get_member().map(|x| x.to_string()),
        error_name: msg.get_error_name().map(|x| x.to_string()),
        reply_serial: msg.get_reply_serial(),
        destination: msg.get_destination().map(|x| x.to_string()),
        sender: msg.get_sender().map(|x| x.to_string()),
        unix_fds: msg.get_unix_fds(),
    }
}

/// The decoded message must be exactly `want` with the resolved body.
pub fn check_message(msg: &Message, want: &Msg, resolved: &[Val]) -> Result<(), String> {
    let got = body_from_lib(msg.get_body());
    if got != resolved {
        for (i, (a, b)) in got.iter().zip(resolved).enumerate() {
            if a != b {
                crate::bail!("body value {} differs: got {} expected {}", i, show_val(a), show_val(b));
            }
        }
        crate::bail!("body has {} values, expected {}", got.len(), resolved.len());
    }
    let sig: Vec<Ty> = resolved.iter().map(|v| v.ty()).collect();
    check_header(msg, want, &sig)
}
