//! C13 (bus names), C14 (interface, error and member names), C15 (object paths): the text
//! grammars, agreement of the constructors, and values behaving like their text.
use super::*;
use crate::dict;
use crate::gen;
use crate::names;
use dbus_message_parser::value::{
    Bus, BusError, Error, ErrorError, Interface, InterfaceError, Member, MemberError, ObjectPath,
    ObjectPathError, UniqueConnectionName, UniqueConnectionNameError, WellKnownBusName,
    WellKnownBusNameError,
};
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Facts about a text, the vocabulary of the errors.
struct Facts<'a>(&'a [u8]);

impl Facts<'_> {
    fn element_digit(&self, from: usize) -> bool {
        self.0.get(from..).map_or(false, |s| {
            s.split(|c| *c == b'.').any(|e| e.first().map_or(false, |c| c.is_ascii_digit()))
        })
    }
    fn empty_element(&self, from: usize) -> bool {
        self.0.get(from..).map_or(false, |s| s.split(|c| *c == b'.').any(|e| e.is_empty()))
    }
    fn one_element(&self) -> bool {
        !self.0.contains(&b'.')
    }
    fn long(&self, n: usize) -> bool {
        n == self.0.len() && n > 255
    }
    fn has_bad(&self, c: u8, more: &[u8]) -> bool {
        self.0.contains(&c) && !(c.is_ascii_alphanumeric() || c == b'_' || more.contains(&c))
    }
    fn digit_first(&self, from: usize) -> bool {
        self.0.get(from).map_or(false, |c| c.is_ascii_digit())
    }
}

fn true_interface(s: &[u8], e: &InterfaceError) -> bool {
    let f = Facts(s);
    match e {
        InterfaceError::Empty => s.is_empty(),
        InterfaceError::ExceedMaximum(n) => f.long(*n),
        InterfaceError::InvalidChar(c) => f.has_bad(*c, b"."),
        InterfaceError::Elements => f.one_element(),
        InterfaceError::ElementBeginDigit => f.element_digit(0),
        InterfaceError::ElementBeginDot => f.empty_element(0),
        InterfaceError::EndDot => s.ends_with(b"."),
        #[allow(unreachable_patterns)]
        _ => true,
    }
}
fn true_error(s: &[u8], e: &ErrorError) -> bool {
    let f = Facts(s);
    match e {
        ErrorError::Empty => s.is_empty(),
        ErrorError::ExceedMaximum(n) => f.long(*n),
        ErrorError::InvalidChar(c) => f.has_bad(*c, b"."),
        ErrorError::Elements => f.one_element(),
        ErrorError::ElementBeginDigit => f.element_digit(0),
        ErrorError::ElementBeginDot => f.empty_element(0),
        ErrorError::EndDot => s.ends_with(b"."),
        #[allow(unreachable_patterns)]
        _ => true,
    }
}
fn true_member(s: &[u8], e: &MemberError) -> bool {
    let f = Facts(s);
    match e {
        MemberError::Empty => s.is_empty(),
        MemberError::ExceedMaximum(n) => f.long(*n),
        MemberError::InvalidChar(c) => f.has_bad(*c, b""),
        MemberError::BeginDigit => f.digit_first(0),
        #[allow(unreachable_patterns)]
        _ => true,
    }
}
fn true_unique(s: &[u8], e: &UniqueConnectionNameError) -> bool {
    use UniqueConnectionNameError as E;
    let f = Facts(s);
    match e {
        E::Empty => s.is_empty() || s == b":",
        E::ExceedMaximum(n) => f.long(*n),
        E::InvalidChar(c) => f.has_bad(*c, b".-:"),
        E::Elements => f.one_element(),
        E::BeginColon => s.first() != Some(&b':'),
        E::BeginDot => s.first() == Some(&b'.') || s.starts_with(b":."),
        E::ElementBeginDot => f.empty_element(1),
        E::EndDot => s.ends_with(b"."),
        E::Colon => s.get(1..).map_or(false, |t| t.contains(&b':')),
        #[allow(unreachable_patterns)]
        _ => true,
    }
}
fn true_well_known(s: &[u8], e: &WellKnownBusNameError) -> bool {
    use WellKnownBusNameError as E;
    let f = Facts(s);
    match e {
        E::Empty => s.is_empty(),
        E::ExceedMaximum(n) => f.long(*n),
        E::InvalidChar(c) => f.has_bad(*c, b".-"),
        E::Elements => f.one_element(),
        E::BeginDigit => f.digit_first(0),
        E::BeginDot => s.first() == Some(&b'.'),
        E::ElementBeginDigit => f.element_digit(0),
        E::ElementBeginDot => f.empty_element(0),
        E::EndDot => s.ends_with(b"."),
        #[allow(unreachable_patterns)]
        _ => true,
    }
}
fn true_bus(s: &[u8], e: &BusError) -> bool {
    match e {
        BusError::UniqueConnectionNameError(e) => s.first() == Some(&b':') && true_unique(s, e),
        BusError::WellKnownBusNameError(e) => s.first() != Some(&b':') && true_well_known(s, e),
        #[allow(unreachable_patterns)]
        _ => true,
    }
}
fn true_path(s: &[u8], e: &ObjectPathError) -> bool {
    use ObjectPathError as E;
    match e {
        E::Empty => s.is_empty(),
        E::InvalidChar(c) => Facts(s).has_bad(*c, b"/"),
        E::BeginAlphanumericAndUnderscoreAndHyphen => !s.is_empty() && s[0] != b'/',
        E::ElementEmtpy => s.windows(2).any(|w| w == b"//"),
        E::EndSlash => s.len() > 1 && s.ends_with(b"/"),
        #[allow(unreachable_patterns)]
        _ => true,
    }
}

/// Everything claimed for one text and one kind of name.
macro_rules! one {
    ($f:ident, $t:ident, $valid:path, $truth:path $(, $hash:ident)?) => {
        fn $f(s: &[u8]) -> Result<bool, String> {
            let want = $valid(s);
            let name = stringify!($t);
            let show = || show_bytes(s);
            let b = $t::try_from(s);
            ensure!(b.is_ok() == want, "{}::try_from(&[u8]) of {} gives {:?}", name, show(), b);
            if let Err(e) = &b {
                ensure!($truth(s, e), "{} {} is refused with {:?}, which is not so", name, show(), e);
            }
            if let Ok(t) = std::str::from_utf8(s) {
                let x = $t::try_from(t);
                let y = $t::try_from(t.to_string());
                ensure!(
                    x == b && y == b,
                    "{} of {}: bytes {:?}, str {:?}, String {:?}", name, show(), b, x, y
                );
                if let Ok(v) = b {
                    let r: &str = v.as_ref();
                    ensure!(r == t, "{} {} has the text {:?}", name, show(), r);
                    ensure!(v.to_string() == t, "{} {} prints {:?}", name, show(), v.to_string());
                    ensure!(format!("{}", v) == t, "{} {} formats {:?}", name, show(), format!("{}", v));
                    ensure!(&v == t, "{} {} is not equal to its text", name, show());
                    let mut other = t.to_string();
                    other.push('x');
                    ensure!(&v != other.as_str(), "{} {} equals {:?}", name, show(), other);
                    ensure!(&v != &t[..t.len() - 1], "{} {} equals its prefix", name, show());
                    let up = t.to_ascii_uppercase();
                    ensure!((&v == up.as_str()) == (up == t), "{} {} compares wrongly with {:?}", name, show(), up);
                    let c = v.clone();
                    ensure!(c == v, "{} {} differs from its clone", name, show());
                    $(let _ = stringify!($hash); ensure!(hash_of(&c) == hash_of(&v), "hash of {} changes", show());)?
                    let o: String = v.into();
                    ensure!(o == t, "{} {} converts into {:?}", name, show(), o);
                }
            }
            Ok(want)
        }
    };
}

one!(unique, UniqueConnectionName, names::is_unique, true_unique);
one!(well_known, WellKnownBusName, names::is_well_known, true_well_known);
one!(bus_one, Bus, names::is_bus, true_bus);
one!(interface, Interface, names::is_interface, true_interface, hash);
one!(error, Error, names::is_interface, true_error, hash);
one!(member, Member, names::is_member, true_member, hash);
one!(path, ObjectPath, names::is_path, true_path, hash);

fn show_bytes(s: &[u8]) -> String {
    match std::str::from_utf8(s) {
        Ok(t) => show_str(t),
        Err(_) => hex(s),
    }
}

fn bus(s: &[u8]) -> Result<bool, String> {
    let a = bus_one(s)?;
    match Bus::try_from(s) {
        Ok(Bus::UniqueConnectionName(x)) => {
            ensure!(s[0] == b':' && UniqueConnectionName::try_from(s) == Ok(x), "{} is a unique name", show_bytes(s))
        }
        Ok(Bus::WellKnownBusName(x)) => {
            ensure!(s[0] != b':' && WellKnownBusName::try_from(s) == Ok(x), "{} is a well-known name", show_bytes(s))
        }
        Err(_) => (),
    }
    Ok(a)
}

type One = fn(&[u8]) -> Result<bool, String>;

const BUS: &[One] = &[unique, well_known, bus];
const IFACE: &[One] = &[interface, error, member];
const PATHS: &[One] = &[path];

fn all(fs: &[One], s: &[u8], ctx: &mut Ctx) -> Res {
    for f in fs {
        ctx.evals += 1;
        ctx.label(if f(s)? { "accepted" } else { "refused" });
    }
    ctx.hit(hash_bytes(1, s));
    Ok(())
}

const ALPHABET: &[u8] = b"a.:_-7/Z \x80";

/// All texts over the alphabet up to a length: every case runs those with one three-letter
/// beginning.
fn enumerate(fs: &[One], alphabet: &[u8], src: &mut Src, ctx: &mut Ctx, extra: usize) -> Res {
    let k = alphabet.len() as u64;
    let mut n = src.enum_index(k * k * k) as usize;
    let mut s = Vec::new();
    for _ in 0..3 {
        s.push(alphabet[n % alphabet.len()]);
        n /= alphabet.len();
    }
    ctx.desc(|| format!("all texts that begin with {:?} and have up to {} more bytes", String::from_utf8_lossy(&s), extra));
    for l in 0..3 {
        all(fs, &s[..l], ctx)?;
    }
    fn rec(fs: &[One], al: &[u8], s: &mut Vec<u8>, left: usize, ctx: &mut Ctx) -> Res {
        all(fs, s, ctx)?;
        if left > 0 {
            for c in al {
                s.push(*c);
                rec(fs, al, s, left - 1, ctx)?;
                s.pop();
            }
        }
        Ok(())
    }
    rec(fs, alphabet, &mut s, extra, ctx)
}

fn enum_bus(src: &mut Src, ctx: &mut Ctx) -> Res {
    let extra = if ctx.thorough { 4 } else { 2 };
    enumerate(BUS, b"a.:-7 \x80", src, ctx, extra + 1)
}
fn enum_iface(src: &mut Src, ctx: &mut Ctx) -> Res {
    let extra = if ctx.thorough { 4 } else { 2 };
    enumerate(IFACE, b"a._-7 \xc3", src, ctx, extra + 1)
}
fn enum_path(src: &mut Src, ctx: &mut Ctx) -> Res {
    let extra = if ctx.thorough { 5 } else { 3 };
    enumerate(PATHS, b"/a_-7.\xff", src, ctx, extra + 1)
}

/// A text near the grammar: a valid name of some kind with up to three edits.
fn near(src: &mut Src) -> Vec<u8> {
    let mut s = match src.below(6) {
        0 => gen::unique_name(src),
        1 => gen::well_known(src),
        2 => gen::interface(src),
        3 => gen::member(src),
        4 => gen::path(src),
        _ => {
            let n = gen::len(src, 10, 300);
            (0..n).map(|_| *src.pick(&['a', '.', ':', '7', '-', '_', '/', 'Q'])).collect()
        }
    }
    .into_bytes();
    if s.len() > 2000 {
        s.truncate(2000);
    }
    for _ in 0..src.below(4) {
        let i = src.usize(s.len() + 1);
        match src.below(5) {
            0 => s.insert(i, *src.pick(ALPHABET)),
            1 => {
                if i < s.len() {
                    s.remove(i);
                }
            }
            2 => {
                if i < s.len() {
                    s[i] = *src.pick(ALPHABET);
                }
            }
            3 => {
                if i < s.len() {
                    s[i] = src.below(256) as u8;
                }
            }
            _ => {
                let c = *src.pick(&['\u{e9}', '\u{20ac}', '\u{1f600}', '\u{663}', '\u{ff21}', '\0']);
                let mut b = [0; 4];
                for (k, x) in c.encode_utf8(&mut b).bytes().enumerate() {
                    s.insert(i + k, x);
                }
            }
        }
    }
    s
}

fn near_with(fs: &[One], src: &mut Src, ctx: &mut Ctx) -> Res {
    let s = near(src);
    ctx.desc(|| format!("text {}", show_bytes(&s)));
    all(fs, &s, ctx)
}
fn near_bus(src: &mut Src, ctx: &mut Ctx) -> Res {
    near_with(BUS, src, ctx)
}
fn near_iface(src: &mut Src, ctx: &mut Ctx) -> Res {
    near_with(IFACE, src, ctx)
}
fn near_path(src: &mut Src, ctx: &mut Ctx) -> Res {
    near_with(PATHS, src, ctx)
}

/// Texts that code likes to treat specially and the constants of the code, as they are and in
/// the shape of each kind of name.
fn special(fs: &[One], src: &mut Src, ctx: &mut Ctx) -> Res {
    static TEXTS: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let l = TEXTS.get_or_init(edges::texts);
    let t = &l[src.enum_index(l.len() as u64) as usize];
    ctx.desc(|| format!("names made of {}", show_str(t)));
    let plain: String = t.chars().filter(|c| c.is_ascii_alphanumeric() || ".:/_-".contains(*c)).collect();
    let dotted = plain.replace(['/', ':'], ".");
    let slashed = plain.replace(['.', ':', '-'], "/");
    let word = plain.replace(['.', '/', ':', '-'], "_");
    for s in [t.as_str(), &plain, &dotted, &slashed, &word] {
        for x in [
            s.to_string(),
            s.trim_matches(['.', '/', ':', '-', '_']).to_string(),
            format!(":{}", s),
            format!("/{}", s),
            format!("{}.a", s),
            format!("a.{}", s),
            format!("a.{}.b", s),
            format!(":1.{}", s),
            format!("/a/{}", s),
            format!("/{}/a", s),
            format!("_{}", s),
            s.to_ascii_uppercase(),
            s.to_ascii_lowercase(),
        ] {
            all(fs, x.as_bytes(), ctx)?;
        }
    }
    Ok(())
}
fn special_bus(src: &mut Src, ctx: &mut Ctx) -> Res {
    special(BUS, src, ctx)
}
fn special_iface(src: &mut Src, ctx: &mut Ctx) -> Res {
    special(IFACE, src, ctx)
}
fn special_path(src: &mut Src, ctx: &mut Ctx) -> Res {
    special(PATHS, src, ctx)
}

/// Every byte value at every place of a valid name.
fn every_byte(fs: &[One], base: &str, src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut s: Vec<u8> = base.bytes().collect();
    if s.len() > 300 {
        s.truncate(300);
    }
    let i = src.usize(s.len() + 1);
    let insert = src.bool() || i == s.len();
    ctx.desc(|| format!("every byte {} {} of {}", if insert { "inserted at" } else { "at" }, i, show_bytes(&s)));
    if insert {
        s.insert(i, 0);
    }
    for c in 0..=255u8 {
        s[i] = c;
        all(fs, &s, ctx)?;
    }
    Ok(())
}
fn byte_bus(src: &mut Src, ctx: &mut Ctx) -> Res {
    let b = gen::bus(src);
    every_byte(BUS, &b, src, ctx)
}
fn byte_iface(src: &mut Src, ctx: &mut Ctx) -> Res {
    let b = if src.bool() { gen::interface(src) } else { gen::member(src) };
    every_byte(IFACE, &b, src, ctx)
}
fn byte_path(src: &mut Src, ctx: &mut Ctx) -> Res {
    let b = gen::path(src);
    every_byte(PATHS, &b, src, ctx)
}

/// Names of 250 to 260 bytes, and others up to 1000 (and some sizes beyond), built from elements in different ways.
fn lengths(fs: &[One], prefixes: &[&str], sep: char, src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = match src.enum_index(16) {
        k if k < 11 => 250 + k as usize,
        k => [127, 128, 511, 512, 65_536][k as usize - 11],
    };
    let sizes = dict::sizes(100_000);
    let n = if !sizes.is_empty() && src.chance(1, 2) { *src.pick(&sizes) } else { n };
    let n = if src.chance(1, 2) { 200 + src.below(800) as usize } else { n };
    // what the elements are made of
    let inside: Vec<char> = match src.below(3) {
        0 => vec!['8'],
        1 => {
            let few = 1 + src.usize(3);
            (0..few).map(|_| *src.pick(&['a', 'Z', '_', '0', '9', 't'])).collect()
        }
        _ => ('a'..='z').chain('A'..='Z').chain('0'..='9').chain(['_']).collect(),
    };
    let first = *src.pick(&['b', 'Z', '_', 'a']);
    let mut s = src.pick(prefixes).to_string();
    let style = src.below(3);
    let mut since = 0;
    while s.len() < n {
        let sep_now = since > 0
            && s.len() + 1 < n
            && match style {
                0 => true,
                1 => src.chance(1, 40),
                _ => since == n / 2 || s.len() + 2 == n,
            };
        if sep_now {
            s.push(sep);
            since = 0;
        } else {
            s.push(if since == 0 { first } else { *src.pick(&inside) });
            since += 1;
        }
    }
    ctx.label(if s.len() > 255 { "longer than 255" } else { "at most 255" });
    ctx.desc(|| format!("{} bytes: {}", s.len(), show_str(&s)));
    all(fs, s.as_bytes(), ctx)?;
    // a fault at the end of a text of this length
    let mut t = s.into_bytes();
    let l = t.len() - 1;
    t[l] = *src.pick(ALPHABET);
    all(fs, &t, ctx)
}
fn len_bus(src: &mut Src, ctx: &mut Ctx) -> Res {
    lengths(BUS, &["", ":", ":1.", "a.", "1."], '.', src, ctx)
}
fn len_iface(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        lengths(IFACE, &["", "a.", "_"], '.', src, ctx)
    } else {
        lengths(IFACE, &["", "a"], 'c', src, ctx)
    }
}
fn len_path(src: &mut Src, ctx: &mut Ctx) -> Res {
    lengths(PATHS, &["/", "/a/", ""], '/', src, ctx)
}

macro_rules! pair {
    ($t:ident, $a:expr, $b:expr $(, $hash:ident)?) => {{
        let (a, b): (&str, &str) = ($a, $b);
        let x = $t::try_from(a).map_err(|e| format!("{:?}: {:?}", a, e))?;
        let y = $t::try_from(b).map_err(|e| format!("{:?}: {:?}", b, e))?;
        ensure!((x == y) == (a == b), "{} {:?} and {:?} compare equal: {}", stringify!($t), a, b, x == y);
        ensure!((&x == b) == (a == b), "{} {:?} and the text {:?} compare equal: {}", stringify!($t), a, b, &x == b);
        ensure!(x.cmp(&y) == a.cmp(b), "{} {:?} and {:?} are ordered {:?}", stringify!($t), a, b, x.cmp(&y));
        ensure!(x.partial_cmp(&y) == Some(a.cmp(b)), "partial order of {:?} and {:?}", a, b);
        $(let _ = stringify!($hash); if a == b {
            ensure!(hash_of(&x) == hash_of(&y), "{} {:?} has two hashes", stringify!($t), a);
        } else {
            ensure!(hash_of(&x) != hash_of(&y), "{} {:?} and {:?} share a hash", stringify!($t), a, b);
        })?
    }};
}

/// Two names, often nearly the same.
fn two(src: &mut Src, f: fn(&mut Src) -> String, ok: fn(&[u8]) -> bool) -> (String, String) {
    let a = f(src);
    let mut b = a.clone().into_bytes();
    match src.below(5) {
        0 => b = f(src).into_bytes(),
        1 => (),
        2 => {
            let i = src.usize(b.len());
            b[i] = *src.pick(b"aAzZ_09-");
        }
        3 => {
            let i = src.usize(b.len());
            b[i] = if src.bool() { b[i].to_ascii_uppercase() } else { b[i].to_ascii_lowercase() };
        }
        _ => {
            let i = src.usize(b.len() + 1);
            b.insert(i, *src.pick(b"aZ_0./"));
        }
    }
    if !ok(&b) {
        b = f(src).into_bytes();
    }
    (a, String::from_utf8(b).unwrap())
}

fn pairs_bus(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (a, b) = two(src, gen::unique_name, names::is_unique);
    ctx.desc(|| format!("compare {} {}", show_str(&a), show_str(&b)));
    ctx.hit(hash_bytes(2, format!("{} {}", a, b).as_bytes()));
    pair!(UniqueConnectionName, &a, &b);
    let (c, d) = two(src, gen::well_known, names::is_well_known);
    pair!(WellKnownBusName, &c, &d);
    for x in [&a, &b, &c, &d] {
        for y in [&a, &b, &c, &d] {
            let (p, q) = (Bus::try_from(x.as_str()).unwrap(), Bus::try_from(y.as_str()).unwrap());
            ensure!((p == q) == (x == y), "bus names {:?} and {:?} compare equal: {}", x, y, p == q);
            ensure!((&p == y.as_str()) == (x == y), "bus name {:?} and text {:?}", x, y);
            ensure!(
                (p.cmp(&q) == std::cmp::Ordering::Equal) == (x == y) && p.cmp(&q) == q.cmp(&p).reverse(),
                "order of bus names {:?} and {:?}", x, y
            );
        }
    }
    Ok(())
}
fn pairs_iface(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (a, b) = two(src, gen::interface, names::is_interface);
    ctx.desc(|| format!("compare {} {}", show_str(&a), show_str(&b)));
    ctx.hit(hash_bytes(3, format!("{} {}", a, b).as_bytes()));
    pair!(Interface, &a, &b, hash);
    pair!(Error, &a, &b, hash);
    let (a, b) = two(src, gen::member, names::is_member);
    pair!(Member, &a, &b, hash);
    Ok(())
}
fn pairs_path(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (a, b) = two(src, gen::path, names::is_path);
    ctx.desc(|| format!("compare {} {}", show_str(&a), show_str(&b)));
    ctx.hit(hash_bytes(4, format!("{} {}", a, b).as_bytes()));
    pair!(ObjectPath, &a, &b, hash);
    let d = ObjectPath::default();
    ensure!(&d == "/" && d.to_string() == "/", "the default path is {}", d);
    Ok(())
}

pub fn checks() -> Vec<Check> {
    const MODEL: &str = "the grammars of the D-Bus specification, written by splitting the text into elements (harness/src/names.rs)";
    const RULE: &str = "all texts over a seven-letter alphabet up to a length (6, thorough 8), every byte value at or inserted into any place of valid names, texts of 127 to 65536 bytes around 255, special texts and the constants of the code in the shape of names, valid names with up to three edits, pairs of nearly equal names; constructor verdicts and agreement, text of accepted values, errors against the facts of the text. Non-trivial: distinct texts.";
    vec![
        Check {
            id: "C13",
            rule: RULE,
            assumptions: &[MODEL],
            stack: 16 * MB,
            subs: vec![
                sub("all short texts", 343, 343, enum_bus),
                sub("every byte", 1_200, 60_000, byte_bus),
                sub("special texts", edges::text_count(), edges::text_count(), special_bus),
                sub("lengths", 100_000, 1_000_000, len_bus),
                sub("edited names", 4_000_000, 12_000_000, near_bus),
                sub("pairs", 600_000, 2_000_000, pairs_bus),
            ],
        },
        Check {
            id: "C14",
            rule: RULE,
            assumptions: &[MODEL],
            stack: 16 * MB,
            subs: vec![
                sub("all short texts", 343, 343, enum_iface),
                sub("every byte", 1_200, 60_000, byte_iface),
                sub("special texts", edges::text_count(), edges::text_count(), special_iface),
                sub("lengths", 100_000, 1_000_000, len_iface),
                sub("edited names", 4_000_000, 12_000_000, near_iface),
                sub("pairs", 600_000, 2_000_000, pairs_iface),
            ],
        },
        Check {
            id: "C15",
            rule: RULE,
            assumptions: &[MODEL],
            stack: 16 * MB,
            subs: vec![
                sub("all short texts", 343, 343, enum_path),
                sub("every byte", 2_000, 100_000, byte_path),
                sub("special texts", edges::text_count(), edges::text_count(), special_path),
                sub("lengths", 100_000, 1_000_000, len_path),
                sub("edited names", 4_000_000, 15_000_000, near_path),
                sub("pairs", 500_000, 2_000_000, pairs_path),
            ],
        },
    ]
}
