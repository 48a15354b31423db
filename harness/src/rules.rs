//! Model of match rules: text reader, predicate, generators.
use crate::engine::Src;
use crate::gen;
use crate::model::*;
use crate::names;
use dbus_message_parser::match_rule::{Arg, ArgPath, MatchRule};
use dbus_message_parser::value::{Bus, Interface, Member, ObjectPath, UniqueConnectionName};
use std::convert::TryFrom;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Rule {
    Type(u8),
    Sender(String),
    Interface(String),
    Member(String),
    Path(String),
    PathNs(String),
    Destination(String),
    Arg(usize, String),
    ArgPath(usize, String),
    Arg0Ns(String),
    Eavesdrop(bool),
}

pub const TYPES: [&str; 4] = ["method_call", "method_return", "error", "signal"];

impl Rule {
    pub fn to_lib(&self) -> Result<MatchRule, String> {
        fn t<T, E: std::fmt::Debug>(r: Result<T, E>, s: &str) -> Result<T, String> {
            r.map_err(|e| format!("library refused the valid value {:?}: {:?}", s, e))
        }
        Ok(match self {
            Rule::Type(x) => MatchRule::Type(mtype_lib(*x)),
            Rule::Sender(x) => MatchRule::Sender(t(Bus::try_from(x.as_str()), x)?),
            Rule::Interface(x) => MatchRule::Interface(t(Interface::try_from(x.as_str()), x)?),
            Rule::Member(x) => MatchRule::Member(t(Member::try_from(x.as_str()), x)?),
            Rule::Path(x) => MatchRule::Path(t(ObjectPath::try_from(x.as_str()), x)?),
            Rule::PathNs(x) => MatchRule::PathNamespace(t(ObjectPath::try_from(x.as_str()), x)?),
            Rule::Destination(x) => {
                MatchRule::Destination(t(UniqueConnectionName::try_from(x.as_str()), x)?)
            }
            Rule::Arg(i, x) => MatchRule::Arg(t(Arg::try_from((*i, x.clone())), x)?),
            Rule::ArgPath(i, x) => {
                MatchRule::ArgPath(ArgPath::from((*i, t(ObjectPath::try_from(x.as_str()), x)?)))
            }
            Rule::Arg0Ns(x) => MatchRule::Arg0Namespace(t(Interface::try_from(x.as_str()), x)?),
            Rule::Eavesdrop(x) => MatchRule::Eavesdrop(*x),
        })
    }
    pub fn from_lib(r: &MatchRule) -> Rule {
        match r {
            MatchRule::Type(x) => Rule::Type(mtype_num(*x)),
            MatchRule::Sender(x) => Rule::Sender(x.to_string()),
            MatchRule::Interface(x) => Rule::Interface(x.to_string()),
            MatchRule::Member(x) => Rule::Member(x.to_string()),
            MatchRule::Path(x) => Rule::Path(x.to_string()),
            MatchRule::PathNamespace(x) => Rule::PathNs(x.to_string()),
            MatchRule::Destination(x) => Rule::Destination(x.to_string()),
            MatchRule::Arg(x) => Rule::Arg(x.get_index(), x.get_value().to_string()),
            MatchRule::ArgPath(x) => Rule::ArgPath(x.get_index(), x.get_value().to_string()),
            MatchRule::Arg0Namespace(x) => Rule::Arg0Ns(x.to_string()),
            MatchRule::Eavesdrop(x) => Rule::Eavesdrop(*x),
        }
    }
    /// The rule's meaning, straight from the match-rule section of the specification.
    pub fn matches(&self, m: &Msg) -> bool {
        fn below(ns: &str, s: &str, sep: char) -> bool {
            if s == ns {
                return true;
            }
            let mut p = ns.to_string();
            if !p.ends_with(sep) {
                p.push(sep);
            }
            s.len() >= p.len() && s.as_bytes()[..p.len()] == *p.as_bytes()
        }
        match self {
            Rule::Type(x) => m.mtype == *x,
            Rule::Sender(x) => m.h.sender.as_ref() == Some(x),
            Rule::Interface(x) => m.h.interface.as_ref() == Some(x),
            Rule::Member(x) => m.h.member.as_ref() == Some(x),
            Rule::Path(x) => m.h.path.as_ref() == Some(x),
            Rule::PathNs(x) => m.h.path.as_ref().map_or(false, |p| below(x, p, '/')),
            Rule::Destination(x) => m.h.destination.as_ref() == Some(x),
            Rule::Arg(i, x) => matches!(m.body.get(*i), Some(Val::S(s)) if s == x),
            Rule::ArgPath(i, x) => match m.body.get(*i) {
                Some(Val::S(s)) | Some(Val::O(s)) => below(x, s, '/'),
                _ => false,
            },
            Rule::Arg0Ns(x) => match m.body.first() {
                Some(Val::S(s)) => below(x, s, '.'),
                _ => false,
            },
            Rule::Eavesdrop(_) => true,
        }
    }
    pub fn key(&self) -> String {
        match self {
            Rule::Type(_) => "type".into(),
            Rule::Sender(_) => "sender".into(),
            Rule::Interface(_) => "interface".into(),
            Rule::Member(_) => "member".into(),
            Rule::Path(_) => "path".into(),
            Rule::PathNs(_) => "path_namespace".into(),
            Rule::Destination(_) => "destination".into(),
            Rule::Arg(i, _) => format!("arg{}", i),
            Rule::ArgPath(i, _) => format!("arg{}path", i),
            Rule::Arg0Ns(_) => "arg0namespace".into(),
            Rule::Eavesdrop(_) => "eavesdrop".into(),
        }
    }
    pub fn value(&self) -> String {
        match self {
            Rule::Type(x) => TYPES[*x as usize - 1].into(),
            Rule::Sender(x)
            | Rule::Interface(x)
            | Rule::Member(x)
            | Rule::Path(x)
            | Rule::PathNs(x)
            | Rule::Destination(x)
            | Rule::Arg(_, x)
            | Rule::ArgPath(_, x)
            | Rule::Arg0Ns(x) => x.clone(),
            Rule::Eavesdrop(x) => x.to_string(),
        }
    }
}

/// What the text means.
#[derive(Debug, PartialEq)]
pub enum Read {
    Rules(Vec<Rule>),
    Error(&'static str),
    /// The specification and the library leave this open.
    Open,
}

/// Splits the text into (raw key, unquoted value); quoting rules of the specification.
pub fn tokens(s: &str) -> Result<Vec<(String, String)>, &'static str> {
    let c: Vec<char> = s.chars().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < c.len() {
        let mut key = String::new();
        loop {
            if i >= c.len() {
                return Err("no equal sign");
            }
            if c[i] == '=' {
                i += 1;
                break;
            }
            key.push(c[i]);
            i += 1;
        }
        let mut val = String::new();
        while i < c.len() && c[i] != ',' {
            if c[i] == '\'' {
                i += 1;
                loop {
                    if i >= c.len() {
                        return Err("quote not closed");
                    }
                    if c[i] == '\'' {
                        i += 1;
                        break;
                    }
                    val.push(c[i]);
                    i += 1;
                }
            } else if c[i] == '\\' && c.get(i + 1) == Some(&'\'') {
                val.push('\'');
                i += 2;
            } else {
                val.push(c[i]);
                i += 1;
            }
        }
        out.push((key, val));
        if i < c.len() {
            i += 1; // comma
            if i >= c.len() {
                return Err("open: trailing comma");
            }
        }
    }
    Ok(out)
}

pub fn read(s: &str) -> Read {
    let toks = match tokens(s) {
        Ok(t) => t,
        Err(e) if e.starts_with("open") => return Read::Open,
        Err(e) => return Read::Error(e),
    };
    let mut out = Vec::new();
    let mut open = false;
    for (k, v) in toks {
        match read_entry(&k, &v) {
            Ok(Some(r)) => out.push(r),
            Ok(None) => open = true,
            Err(e) => return Read::Error(e),
        }
    }
    if open {
        Read::Open
    } else {
        Read::Rules(out)
    }
}

/// Ok(None): open.
pub fn read_entry(k: &str, v: &str) -> Result<Option<Rule>, &'static str> {
    let b = v.as_bytes();
    Ok(Some(match k {
        "type" => match TYPES.iter().position(|t| *t == v) {
            Some(p) => Rule::Type(p as u8 + 1),
            None => return Err("type"),
        },
        "sender" if names::is_bus(b) => Rule::Sender(v.into()),
        "interface" if names::is_interface(b) => Rule::Interface(v.into()),
        "member" if names::is_member(b) => Rule::Member(v.into()),
        "path" if names::is_path(b) => Rule::Path(v.into()),
        "path_namespace" if names::is_path(b) => Rule::PathNs(v.into()),
        "destination" if names::is_unique(b) => Rule::Destination(v.into()),
        "arg0namespace" if names::is_interface(b) => Rule::Arg0Ns(v.into()),
        "eavesdrop" => match v {
            "true" => Rule::Eavesdrop(true),
            "false" => Rule::Eavesdrop(false),
            _ => return Err("eavesdrop"),
        },
        "sender" | "interface" | "member" | "path" | "path_namespace" | "destination"
        | "arg0namespace" => return Err("invalid value"),
        k => {
            let rest = match k.strip_prefix("arg") {
                Some(r) => r,
                None => return Err("unknown key"),
            };
            let (num, path) = match rest.strip_suffix("path") {
                Some(n) => (n, true),
                None => (rest, false),
            };
            if num.is_empty() || !num.bytes().all(|c| c.is_ascii_digit()) {
                return Err("unknown key");
            }
            if path && !names::is_path(b) {
                return Err("invalid value");
            }
            // leading zeros: not a key the specification knows, the library reads the number
            if num.len() > 1 && num.starts_with('0') {
                return Ok(None);
            }
            if num.len() > 15 {
                return if path { Ok(None) } else { Err("index") };
            }
            let i: usize = num.parse().unwrap();
            if path {
                if i > 63 {
                    return Ok(None);
                }
                Rule::ArgPath(i, v.into())
            } else {
                if i > 63 {
                    return Err("index");
                }
                Rule::Arg(i, v.into())
            }
        }
    }))
}

pub const SPECIAL: [char; 16] = [
    'a', '\'', ',', '\\', '=', ' ', '"', '.', '/', ':', '\n', '\u{e9}', '\u{20ac}', '\u{1f600}', '\t', '1',
];

/// Argument text rich in the characters quoting is about.
pub fn arg_text(src: &mut Src) -> String {
    match src.weighted(&[8, 2, 1, 4]) {
        3 => {
            // pieces of few kinds, many of them
            let most = SPECIAL.len() as u64;
            let k = 1 + src.below(4);
            let of = if src.chance(3, 4) { 6 } else { most };
            let cs: Vec<char> = (0..k).map(|_| SPECIAL[src.below(of) as usize]).collect();
            let n = if src.chance(1, 4) { src.below(80) } else { src.below(24) };
            (0..n).map(|_| *src.pick(&cs)).collect()
        }
        0 => {
            let n = src.below(9) as usize;
            (0..n)
                .map(|_| if src.chance(2, 3) { SPECIAL[src.usize(6)] } else { *src.pick(&SPECIAL) })
                .collect()
        }
        1 => gen::string(src),
        _ => match src.below(4) {
            0 => gen::path(src),
            1 => gen::interface(src),
            2 => gen::bus(src),
            _ => {
                let n = *src.pick(&[63usize, 64, 255, 256, 1000]);
                let c = SPECIAL[src.usize(6)];
                std::iter::repeat(c).take(n).collect()
            }
        },
    }
}

pub fn index(src: &mut Src) -> usize {
    match src.weighted(&[4, 2, 3]) {
        0 => src.below(4) as usize,
        1 => *src.pick(&[63usize, 9, 10, 62, 31, 32, 11, 19, 20, 6]),
        _ => src.below(64) as usize,
    }
}

pub fn rule(src: &mut Src) -> Rule {
    match src.weighted(&[2, 2, 2, 2, 2, 2, 2, 8, 3, 2, 1]) {
        0 => Rule::Type(1 + src.below(4) as u8),
        1 => Rule::Sender(gen::bus(src)),
        2 => Rule::Interface(gen::interface(src)),
        3 => Rule::Member(gen::member(src)),
        4 => Rule::Path(gen::path(src)),
        5 => Rule::PathNs(gen::path(src)),
        6 => Rule::Destination(gen::unique_name(src)),
        7 => Rule::Arg(index(src), arg_text(src)),
        8 => Rule::ArgPath(index(src), gen::path(src)),
        9 => Rule::Arg0Ns(gen::interface(src)),
        _ => Rule::Eavesdrop(src.bool()),
    }
}

/// Quotes a value in one of many equivalent ways.
pub fn quote(src: &mut Src, v: &str) -> String {
    let mut out = String::new();
    let chars: Vec<char> = v.chars().collect();
    let mut inside = false;
    let style = src.below(3);
    for (i, c) in chars.iter().enumerate() {
        let toggle = match style {
            0 => false,
            1 => i == 0,
            _ => src.chance(1, 4),
        };
        if toggle && !(out.ends_with('\\') && !inside) {
            out.push('\'');
            inside = !inside;
        }
        match *c {
            '\'' => {
                if inside {
                    out.push('\'');
                    inside = false;
                }
                // a backslash before this would pair up with nothing: it is just a backslash
                out.push_str("\\'");
            }
            ',' => {
                if !inside {
                    if out.ends_with('\\') {
                        // "\'" would be an apostrophe; put the backslash inside quotes
                        out.pop();
                        out.push_str("'\\");
                    } else {
                        out.push('\'');
                    }
                    inside = true;
                }
                out.push(',');
            }
            c => out.push(c),
        }
    }
    if inside {
        out.push('\'');
    }
    if src.chance(1, 8) && !out.ends_with('\\') {
        out.push_str("''");
    }
    out
}
