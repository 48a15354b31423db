//! C20 (match rules survive the trip through text), C21 (text is read by the quoting and key
//! rules), C22 (rules select the messages they describe).
use super::*;
use crate::dict;
use crate::gen::{self, STD};
use crate::names;
use crate::rules::*;
use dbus_message_parser::match_rule::MatchRule;
use std::convert::TryFrom;

fn libs(l: &[Rule]) -> Result<Vec<MatchRule>, String> {
    l.iter().map(|r| r.to_lib()).collect()
}

fn back(l: &[MatchRule]) -> Vec<Rule> {
    l.iter().map(Rule::from_lib).collect()
}

/// A list of rules through text and back, and what the text means to the reference reader.
fn trip(l: &[Rule], ctx: &mut Ctx) -> Res {
    let rules = libs(l)?;
    let text = MatchRule::encode(&rules);
    let got = MatchRule::decode(&text)
        .map_err(|e| format!("{:?} encodes to {}, which does not decode: {:?}", l, show_str(&text), e))?;
    ensure!(got == rules, "{:?} encodes to {}, which decodes to {:?}", l, show_str(&text), got);
    ensure!(back(&got) == l, "{:?} encodes to {}, which decodes to {:?}", l, show_str(&text), got);
    match read(&text) {
        Read::Rules(r) => ensure!(r == l, "{:?} encodes to {}, which means {:?}", l, show_str(&text), r),
        Read::Open => (),
        Read::Error(e) => bail!("{:?} encodes to {}, which is an error ({})", l, show_str(&text), e),
    }
    ensure!(MatchRule::encode(&got) == text, "the decoded rules encode to another text than {}", show_str(&text));
    for (r, m) in l.iter().zip(&rules) {
        ctx.evals += 1;
        let t = m.to_string();
        let x = MatchRule::try_from(t.as_str());
        ensure!(x.as_ref() == Ok(m), "{:?} prints {}, which converts to {:?}", r, show_str(&t), x);
        let y = MatchRule::decode(&t);
        ensure!(
            y.as_ref().map(|v| v.len() == 1 && v[0] == *m) == Ok(true),
            "{:?} prints {}, which decodes to {:?}", r, show_str(&t), y
        );
    }
    Ok(())
}

fn plain_rule(src: &mut Src) -> Rule {
    let r = rule(src);
    // the index of an argument path has no upper limit in the library
    if let Rule::ArgPath(_, p) = &r {
        if src.chance(1, 6) {
            let i = *src.pick(&[64usize, 65, 100, 255, 256, 65_536, usize::MAX, usize::MAX - 1, 640]);
            return Rule::ArgPath(i, p.clone());
        }
    }
    r
}

fn lists(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = match src.weighted(&[1, 6, 1]) {
        0 => 0,
        1 => 1 + src.below(5) as usize,
        _ => src.below(40) as usize,
    };
    let mut l: Vec<Rule> = (0..n).map(|_| plain_rule(src)).collect();
    if !l.is_empty() && src.chance(1, 4) {
        // repetition
        let r = src.pick(&l).clone();
        let i = src.usize(l.len() + 1);
        l.insert(i, r);
    }
    ctx.desc(|| format!("rules {:?}", l));
    ctx.hit(hash_bytes(1, format!("{:?}", l).as_bytes()));
    trip(&l, ctx)
}

const QUOTING: [char; 6] = ['a', '\'', ',', '\\', '=', ' '];

/// The n-th text over the alphabet.
fn nth_text(mut n: u64, al: &[char]) -> String {
    let k = al.len() as u64;
    let mut len = 0;
    let mut count = 1;
    while n >= count {
        n -= count;
        count *= k;
        len += 1;
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push(al[(n % k) as usize]);
        n /= k;
    }
    s
}

fn up_to(k: u64, len: u32) -> u64 {
    (0..=len).map(|l| k.pow(l)).sum()
}

/// All argument texts up to a length, alone and between other rules.
fn all_args(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.enum_index(up_to(6, if ctx.thorough { 8 } else { 5 }));
    let s = nth_text(n, &QUOTING);
    let i = index(src);
    ctx.desc(|| format!("argument {:?}", s));
    ctx.hit(n);
    let a = Rule::Arg(i, s);
    trip(&[a.clone()], ctx)?;
    trip(&[a.clone(), a.clone()], ctx)?;
    trip(&[Rule::Type(4), a.clone(), Rule::Eavesdrop(true)], ctx)?;
    let t = arg_text(src);
    trip(&[Rule::Arg(1, t), a, Rule::Member("M".into())], ctx)
}

/// Text that decodes: decoding, encoding and decoding again gives the same rules.
fn stable(s: &str, ctx: &mut Ctx) -> Res {
    if let Ok(r) = MatchRule::decode(s) {
        ctx.label("decodes");
        ctx.hit(hash_bytes(2, s.as_bytes()));
        let t = MatchRule::encode(&r);
        let again = MatchRule::decode(&t);
        ensure!(
            again.as_ref() == Ok(&r),
            "{} decodes to {:?}, which encodes to {}, which decodes to {:?}",
            show_str(s), r, show_str(&t), again
        );
        trip(&back(&r), ctx)?;
    } else {
        ctx.label("refused");
    }
    Ok(())
}

/// Text written by hand: keys in any form with values in any quoting, sometimes damaged.
fn texts(src: &mut Src, ctx: &mut Ctx) -> Res {
    let s = any_text(src);
    ctx.desc(|| format!("text {}", show_str(&s)));
    stable(&s, ctx)
}

fn any_text(src: &mut Src) -> String {
    match src.weighted(&[6, 3, 1]) {
        0 => {
            let n = 1 + src.below(4);
            let l: Vec<Rule> = (0..n).map(|_| plain_rule(src)).collect();
            let mut s = String::new();
            for (i, r) in l.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                let q = quote(src, &r.value());
                s.push_str(&format!("{}={}", r.key(), q));
            }
            for _ in 0..src.below(3) {
                let mut i = src.usize(s.len() + 1);
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                match src.below(4) {
                    0 => s.insert(i, *src.pick(&['\'', ',', '\\', '=', ' ', 'a', '0', '.', '/', ':'])),
                    1 => {
                        if i < s.len() {
                            s.remove(i);
                        }
                    }
                    2 => s.truncate(i),
                    _ => s.insert_str(i, src.pick(&["\\'", "''", "','", ",type=signal", ",arg1=", "'\\'", "=,"])),
                }
            }
            s
        }
        1 => {
            const A: [&str; 34] = [
                "'", ",", "\\", "=", "a", " ", "arg0=", "arg1=", ",arg63=", ",arg64=", "type=signal", ",type=", "error",
                ",sender=", ":1.2", "a.b", ",interface=", ",member=", "M", ",path=", "/", "/a", ",path_namespace=",
                ",destination=", ",arg0path=", ",arg5path=", ",arg0namespace=", ",eavesdrop=", "true", "false", "\\'",
                "\u{e9}", "-", "0",
            ];
            let n = 1 + src.below(10);
            (0..n).map(|_| *src.pick(&A)).collect()
        }
        _ => gen::string_nul(src),
    }
}

// ------------------------------------------------------------------------------------- C21

/// The library's verdict on a text against the reference reader.
fn verdict(s: &str, ctx: &mut Ctx) -> Res {
    let got = MatchRule::decode(s);
    ctx.evals += 1;
    match read(s) {
        Read::Open => {
            ctx.label("left open");
            return Ok(());
        }
        Read::Rules(l) => {
            ctx.label("rules");
            ctx.hit(hash_bytes(3, s.as_bytes()));
            match &got {
                Ok(r) => ensure!(back(r) == l, "{} decodes to {:?}, it means {:?}", show_str(s), r, l),
                Err(e) => bail!("{} means {:?} but is refused: {:?}", show_str(s), l, e),
            }
        }
        Read::Error(why) => {
            ctx.label(why);
            ctx.hit(hash_bytes(3, s.as_bytes()));
            ensure!(got.is_err(), "{} is an error ({}) but decodes to {:?}", show_str(s), why, got);
        }
    }
    // a text of one entry through the single conversion
    if let Ok(t) = tokens(s) {
        if t.len() == 1 && !s.contains(',') && !t[0].0.contains('+') {
            let one = MatchRule::try_from(s);
            match (read_entry(&t[0].0, &t[0].1), &one) {
                (Ok(None), _) => (),
                (Ok(Some(r)), Ok(x)) if Rule::from_lib(x) == r => (),
                (Err(_), Err(_)) => (),
                (want, got) => bail!("{} converts to {:?}, expected {:?}", show_str(s), got, want),
            }
        }
    }
    Ok(())
}

/// Valid rules with values quoted in arbitrary ways.
fn quoted(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = 1 + src.below(4);
    let l: Vec<Rule> = (0..n).map(|_| rule(src)).collect();
    let mut s = String::new();
    for (i, r) in l.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let v = r.value();
        let mut q = quote(src, &v);
        // the generator of quotings is only trusted as far as the reader agrees
        match tokens(&format!("k={}", q)) {
            Ok(t) if t.len() == 1 && t[0].1 == v => (),
            _ => {
                ctx.label("canonical quoting");
                q = v.chars().map(|c| if c == '\'' { "\\'".to_string() } else { format!("'{}'", c) }).collect();
            }
        }
        s.push_str(&format!("{}={}", r.key(), q));
    }
    ctx.desc(|| format!("{:?} written as {}", l, show_str(&s)));
    ctx.hit(hash_bytes(4, s.as_bytes()));
    if read(&s) != Read::Rules(l.clone()) {
        return Ok(());
    }
    ctx.label("read back by the reference");
    verdict(&s, ctx)
}

fn arbitrary(src: &mut Src, ctx: &mut Ctx) -> Res {
    let s = any_text(src);
    ctx.desc(|| format!("text {}", show_str(&s)));
    verdict(&s, ctx)
}

/// All value texts up to a length, in first and in second position.
fn all_values(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.enum_index(up_to(6, if ctx.thorough { 8 } else { 6 }));
    let v = nth_text(n, &['a', '\'', ',', '\\', '=', '/']);
    ctx.desc(|| format!("value {:?}", v));
    verdict(&format!("arg0={}", v), ctx)?;
    verdict(&format!("arg0={},arg1={}", v, v), ctx)?;
    verdict(&format!("arg1='{}',type=signal", v), ctx)?;
    verdict(&format!("path={}", v), ctx)?;
    verdict(&v, ctx)
}

/// Every key with every kind of value, and keys that are nearly right.
fn keys(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.enum_index(14 + 80 * 2);
    let k = match n {
        0..=13 => [
            "type", "sender", "interface", "member", "path", "path_namespace", "destination", "arg0namespace", "eavesdrop",
            "arg", "argpath", "argnamespace", "arg1namespace", "arg0pathpath",
        ][n as usize]
            .to_string(),
        n => {
            let i = (n - 14) / 2;
            if n % 2 == 0 {
                format!("arg{}", i)
            } else {
                format!("arg{}path", i)
            }
        }
    };
    // above the specification's limit the library may refuse the index, but not read another
    if let Some(i) = n.checked_sub(14) {
        for i in [64 + i as usize, 192 + i as usize, 1 << 8, 1 << 16, 65_535, (1 << 16) + i as usize, 1 << 32, (1 << 32) + i as usize, usize::MAX] {
            let s = format!("arg{}path='/a/b'", i);
            ctx.evals += 1;
            if let Ok(r) = MatchRule::decode(&s) {
                ensure!(back(&r) == [Rule::ArgPath(i, "/a/b".into())], "{} decodes to {:?}", s, r);
            }
            let s = format!("arg{}='/a/b'", i);
            if let Ok(r) = MatchRule::decode(&s) {
                bail!("{} is beyond the last index but decodes to {:?}", s, r);
            }
        }
    }
    let mut near = vec![k.clone(), k.to_uppercase(), format!(" {}", k), format!("{} ", k), format!("{}x", k), k[1..].to_string()];
    near.push(k[..k.len() - 1].to_string());
    near.push(format!("'{}'", k));
    // one letter of the other case, the name of another key or a constant behind it or before
    for i in 0..k.len() {
        let mut b = k.clone().into_bytes();
        b[i] = if b[i].is_ascii_lowercase() { b[i].to_ascii_uppercase() } else { b[i] ^ 1 };
        let t = String::from_utf8(b).unwrap();
        if !t.starts_with("arg") || t.len() <= 6 || n < 30 {
            near.push(t);
        }
    }
    for t in ["namespace", "_namespace", "path", "Path", "PATH", "type", "[0]", "s", "_path", "[]"] {
        near.push(format!("{}{}", k, t));
    }
    near.push(format!("{}{}", k, dict::text(src)));
    near.push(format!("{}{}", dict::text(src), k));
    near.push(dict::text(src).to_string());
    if k.starts_with("arg") {
        for d in ["99999999999999999999999", "18446744073709551616", "4294967296", "64", "63", "100", "-1", "+1", "0x1", "1_0", "\u{661}", " 1", "1 "] {
            near.push(format!("arg{}", d));
            near.push(format!("arg{}path", d));
        }
    }
    let mut values: Vec<String> = TYPES.iter().map(|t| t.to_string()).collect();
    for v in [
        "", "true", "false", "True", "TRUE", "tru", "truee", "1", "0", "yes", "/", "/a", "/a/", "//", "a/b", "a.b", "a", "M9", "9M", "a..b",
        ":1.2", ":1", ":", "a.b-c", "a.9", "methodcall", "Signal", "signal ", "method", "invalid", "call", "signals", "-", "a-b.c",
        "eavesdrop", "text", " ", "\u{e9}", "/\u{e9}", "\0",
    ] {
        values.push(v.to_string());
    }
    values.push(gen::interface(src));
    values.push(gen::member(src));
    values.push(gen::unique_name(src));
    values.push(gen::well_known(src));
    values.push(gen::path(src));
    values.push("m".repeat(255));
    values.push("m".repeat(256));
    values.push(format!("a.{}", "m".repeat(253)));
    values.push(format!("a.{}", "m".repeat(254)));
    values.push(format!(":1.{}", "m".repeat(252)));
    values.push(format!(":1.{}", "m".repeat(253)));
    ctx.desc(|| format!("key {:?} and keys like it with {} values", k, values.len()));
    for v in &values {
        for (j, k) in near.iter().enumerate() {
            verdict(&format!("{}={}", k, v), ctx)?;
            if j == 0 {
                verdict(&format!("{}='{}'", k, v), ctx)?;
                verdict(&format!("type=error,{}={},eavesdrop=true", k, v), ctx)?;
                verdict(&format!("{}= {}", k, v), ctx)?;
                verdict(&format!("{}{}", k, v), ctx)?;
                let c = [" ", "\t", "\n", "\r", "\u{a0}", "\u{feff}", "\0", ";", "&", "'", "\\"][src.usize(11)];
                verdict(&format!("member=M,{}{}={}", c, k, v), ctx)?;
                verdict(&format!("{}={}{},member=M", k, v, c), ctx)?;
                verdict(&format!("{}{}={}", k, c, v), ctx)?;
                verdict(&format!("{}={}{}", k, c, v), ctx)?;
            }
        }
    }
    Ok(())
}

/// Value texts near their grammar.
fn near_values(src: &mut Src, ctx: &mut Ctx) -> Res {
    let r = rule(src);
    let mut v = r.value();
    for _ in 0..1 + src.below(2) {
        let mut i = src.usize(v.len() + 1);
        while !v.is_char_boundary(i) {
            i -= 1;
        }
        match src.below(3) {
            0 => v.insert(i, *src.pick(&['.', '/', ':', '-', '7', '_', 'A', ' ', '\u{e9}', '!'])),
            1 => {
                if i < v.len() {
                    v.remove(i);
                }
            }
            _ => v.truncate(i),
        }
    }
    let q: String = v.chars().map(|c| if c == '\'' { "\\'".to_string() } else if c.is_ascii_alphanumeric() { c.to_string() } else { format!("'{}'", c) }).collect();
    let s = format!("{}={}", r.key(), q);
    ctx.desc(|| format!("text {}", show_str(&s)));
    verdict(&s, ctx)
}

// ------------------------------------------------------------------------------------- C22

/// A text that is the given one, continues it, begins it, or differs a little.
fn relative(src: &mut Src, s: &str, sep: char) -> String {
    let mut t = s.to_string();
    match src.below(11) {
        0 | 1 => (),
        10 => {
            // something that is easily stripped or ignored, at either end
            let x = if src.chance(1, 3) { dict::text(src) } else { *src.pick(edges::TOKENS) };
            match src.below(3) {
                0 => t.push_str(x),
                1 => t.insert_str(0, x),
                _ => t = format!("{}{}{}", t, sep, x),
            }
        }
        8 => {
            // continued without a separator, then with one
            for _ in 0..1 + src.below(2) {
                t.push_str(src.pick(&["x", "_", "9", "0", "A", "-"]));
            }
            t.push(sep);
            t.push_str(src.pick(&["x", "y", "z9"]));
        }
        9 => {
            // any beginning
            let k = src.usize(t.len() + 1);
            if t.is_char_boundary(k) {
                t.truncate(k);
            }
        }
        2 => {
            if !t.ends_with(sep) {
                t.push(sep);
            }
            t.push_str(src.pick(&["x", "y", "z9"]));
        }
        3 => t.push_str(src.pick(&["x", "_", "9"])),
        4 => {
            // up to a separator
            if let Some(i) = t.rfind(sep) {
                t.truncate(i.max(if sep == '/' { 1 } else { 0 }));
            }
        }
        5 => {
            t.pop();
        }
        6 => {
            let i = src.usize(t.len().max(1));
            if t.is_char_boundary(i) && i < t.len() {
                let c = if t.as_bytes()[i].is_ascii_lowercase() { 'Q' } else { 'q' };
                let mut cs: Vec<char> = t.chars().collect();
                let k = t[..i].chars().count();
                if cs[k].is_ascii_alphanumeric() {
                    cs[k] = c;
                }
                t = cs.into_iter().collect();
            }
        }
        _ => t.push(sep),
    }
    t
}

fn body_text(src: &mut Src) -> Val {
    match src.below(9) {
        0 => Val::S(gen::path(src)),
        1 => {
            let p = gen::path(src);
            Val::S(relative(src, &p, '/'))
        }
        2 => Val::O(gen::path(src)),
        3 => {
            let i = gen::interface(src);
            Val::S(relative(src, &i, '.'))
        }
        4 => Val::S(gen::bus(src)),
        5 => Val::S(arg_text(src)),
        6 => Val::V(Box::new(Val::S(gen::interface(src)))),
        7 => Val::A(Ty::S, vec![Val::S(gen::path(src))]),
        _ => {
            let t = gen::ty(src, 1, &STD);
            gen::val(src, &t, 0, &mut gen::Budget(5), &STD)
        }
    }
}

fn message(src: &mut Src) -> Msg {
    let mut m = gen::small_msg(src, &STD);
    let n = match src.weighted(&[6, 1]) {
        0 => src.below(4) as usize,
        _ => *src.pick(&[63usize, 64, 65, 12]),
    };
    m.body = (0..n).map(|_| if n > 20 { Val::S(format!("{}", src.below(3))) } else { body_text(src) }).collect();
    m
}

/// A rule about the content of the message, true or nearly true.
fn about(src: &mut Src, m: &Msg) -> Rule {
    let h = &m.h;
    let pick_iface = |src: &mut Src, s: &str| {
        let t = relative(src, s, '.');
        if names::is_interface(t.as_bytes()) { t } else { s.to_string() }
    };
    let pick_path = |src: &mut Src, s: &str| {
        let t = relative(src, s, '/');
        if names::is_path(t.as_bytes()) { t } else { s.to_string() }
    };
    let pick_bus = |src: &mut Src, s: &str| {
        let t = relative(src, s, '.');
        if names::is_bus(t.as_bytes()) { t } else { s.to_string() }
    };
    for _ in 0..8 {
        match src.below(11) {
            0 => return Rule::Type(if src.bool() { m.mtype } else { 1 + src.below(4) as u8 }),
            1 => {
                // the sender, or another field's name
                let o = if src.chance(4, 5) { &h.sender } else { &h.destination };
                if let Some(s) = o {
                    return Rule::Sender(pick_bus(src, s));
                }
            }
            2 => {
                let o = if src.chance(4, 5) { &h.interface } else { &h.error_name };
                if let Some(s) = o {
                    return Rule::Interface(pick_iface(src, s));
                }
            }
            3 => {
                if let Some(s) = &h.member {
                    let t = relative(src, s, '_');
                    return Rule::Member(if names::is_member(t.as_bytes()) { t } else { s.clone() });
                }
            }
            4 => {
                if let Some(s) = &h.path {
                    return Rule::Path(pick_path(src, s));
                }
            }
            5 => {
                if let Some(s) = &h.path {
                    return Rule::PathNs(pick_path(src, s));
                }
            }
            6 => {
                let o = if src.chance(4, 5) { &h.destination } else { &h.sender };
                if let Some(s) = o {
                    let t = pick_bus(src, s);
                    if names::is_unique(t.as_bytes()) {
                        return Rule::Destination(t);
                    }
                }
            }
            7 | 8 => {
                if !m.body.is_empty() {
                    let i = src.usize(m.body.len());
                    let j = if src.chance(1, 6) { src.usize(m.body.len() + 2) } else { i };
                    let text = match &m.body[i] {
                        Val::S(s) | Val::O(s) => s.clone(),
                        Val::V(v) => match &**v {
                            Val::S(s) => s.clone(),
                            _ => continue,
                        },
                        _ => continue,
                    };
                    if src.bool() && j < 64 {
                        let t = if src.bool() { text } else { relative(src, &text, '/') };
                        return Rule::Arg(j, t);
                    }
                    let mut t = relative(src, &text, '/');
                    if !names::is_path(t.as_bytes()) {
                        t = text;
                    }
                    if names::is_path(t.as_bytes()) {
                        return Rule::ArgPath(j, t);
                    }
                }
            }
            9 => {
                if let Some(Val::S(s)) = m.body.first() {
                    let t = relative(src, s, '.');
                    if names::is_interface(t.as_bytes()) {
                        return Rule::Arg0Ns(t);
                    }
                    if names::is_interface(s.as_bytes()) {
                        return Rule::Arg0Ns(s.clone());
                    }
                }
            }
            _ => return rule(src),
        }
    }
    rule(src)
}

fn selects(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = message(src);
    let fds = gen::fd_table(src, 4);
    let x = m.to_lib(&fds)?;
    let n = if src.chance(1, 12) { 7 + src.below(60) } else { 1 + src.below(6) };
    let mut l: Vec<Rule> = (0..n).map(|_| about(src, &m)).collect();
    if src.chance(1, 8) {
        // a long list in which everything but perhaps the last rule matches
        l.retain(|r| r.matches(&m));
        while !l.is_empty() && l.len() < 7 + src.below(60) as usize {
            let r = src.pick(&l).clone();
            l.push(r);
        }
        l.push(about(src, &m));
    }
    ctx.desc(|| format!("{:?} on {}", l, m.show()));
    ctx.hit(hash_bytes(m.hash64(), format!("{:?}", l).as_bytes()));
    for r in &l {
        let lr = r.to_lib()?;
        let want = r.matches(&m);
        ctx.evals += 1;
        ctx.label(match (r, want) {
            (Rule::Type(_), true) => "type matches",
            (Rule::Sender(_), true) => "sender matches",
            (Rule::Interface(_), true) => "interface matches",
            (Rule::Member(_), true) => "member matches",
            (Rule::Path(_), true) => "path matches",
            (Rule::PathNs(_), true) => "path namespace matches",
            (Rule::Destination(_), true) => "destination matches",
            (Rule::Arg(..), true) => "argument matches",
            (Rule::ArgPath(..), true) => "argument path matches",
            (Rule::Arg0Ns(_), true) => "arg0 namespace matches",
            (Rule::Eavesdrop(_), _) => "eavesdrop",
            (_, false) => "does not match",
        });
        ensure!(
            lr.matching_rule(&x) == want,
            "{:?} {} {}", r, if want { "should match" } else { "should not match" }, m.show()
        );
        ensure!(
            MatchRule::matching_rules(std::slice::from_ref(&lr), &x) == want,
            "a list of only {:?} disagrees with the rule on {}", r, m.show()
        );
    }
    // the same after a trip over the wire: match what is on the wire
    let want_all = l.iter().all(|r| r.matches(&m));
    ensure!(
        MatchRule::matching_rules(&libs(&l)?, &x) == want_all,
        "the list {:?} should {}match {}", l, if want_all { "" } else { "not " }, m.show()
    );
    // only the matching ones, in any order, with repetition
    let mut yes: Vec<Rule> = l.iter().filter(|r| r.matches(&m)).cloned().collect();
    if !yes.is_empty() {
        let r = src.pick(&yes).clone();
        yes.push(r);
    }
    src.shuffle(&mut yes);
    ensure!(
        MatchRule::matching_rules(&libs(&yes)?, &x),
        "every one of {:?} matches, the list does not: {}", yes, m.show()
    );
    // with one that does not, anywhere
    if let Some(no) = l.iter().find(|r| !r.matches(&m)).cloned() {
        let i = src.usize(yes.len() + 1);
        yes.insert(i, no);
        ensure!(
            !MatchRule::matching_rules(&libs(&yes)?, &x),
            "{:?} does not match, but the list {:?} does: {}", yes[i], yes, m.show()
        );
    }
    src.shuffle(&mut l);
    ensure!(
        MatchRule::matching_rules(&libs(&l)?, &x) == want_all,
        "the list {:?} in another order: {}", l, m.show()
    );
    ensure!(MatchRule::matching_rules(&[], &x), "the empty list does not match {}", m.show());
    // and the message is what it was
    check_message(&x, &m, &resolve(&m.body, &fds))
}

/// A rule that went through text selects the same messages.
fn through_text(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = message(src);
    let fds = gen::fd_table(src, 4);
    let x = m.to_lib(&fds)?;
    let n = 1 + src.below(3);
    let l: Vec<Rule> = (0..n).map(|_| about(src, &m)).collect();
    ctx.desc(|| format!("{:?} as text on {}", l, m.show()));
    let text = MatchRule::encode(&libs(&l)?);
    let r = MatchRule::decode(&text).map_err(|e| format!("{:?}: {:?}", text, e))?;
    ctx.hit(hash_bytes(m.hash64(), text.as_bytes()));
    let want = l.iter().all(|r| r.matches(&m));
    ctx.label(if want { "matches" } else { "does not match" });
    ensure!(MatchRule::matching_rules(&r, &x) == want, "{} should {}match {}", show_str(&text), if want { "" } else { "not " }, m.show());
    // the message as received
    let (b, list) = x.encode_with_fds().map_err(|e| format!("{:?}", e))?;
    let (y, _, _) = dec_fds(&b, &list).map_err(|e| format!("{:?}", e))?;
    ensure!(MatchRule::matching_rules(&r, &y) == want, "{} on the decoded message {}", show_str(&text), m.show());
    Ok(())
}

const ELEMS: [&str; 6] = ["a", "ab", "b", "a1", "a_", "A"];

fn nth_path(n: u64) -> String {
    let mut n = n;
    let mut len = 0;
    let mut count = 1;
    while n >= count {
        n -= count;
        count *= ELEMS.len() as u64;
        len += 1;
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push('/');
        s.push_str(ELEMS[n as usize % ELEMS.len()]);
        n /= ELEMS.len() as u64;
    }
    if s.is_empty() { "/".into() } else { s }
}

/// All pairs of short paths and dotted names.
fn namespaces(src: &mut Src, ctx: &mut Ctx) -> Res {
    let total = 1 + 6 + 36 + 216;
    let ns = nth_path(src.enum_index(total));
    ctx.desc(|| format!("namespace {} against all paths of up to three elements", ns));
    for k in 0..total {
        let p = nth_path(k);
        let mut m = Msg {
            le: true, mtype: 4, flags: 0, version: 1, serial: 1,
            h: Hdr { path: Some(p.clone()), interface: Some("a.b".into()), member: Some("M".into()), ..Default::default() },
            body: vec![],
        };
        let dot = |s: &str| s[1..].replace('/', ".");
        let mut rules = vec![Rule::PathNs(ns.clone()), Rule::Path(ns.clone())];
        let bodies = [
            vec![Val::S(p.clone()), Val::O(p.clone())],
            vec![Val::S(dot(&p)), Val::S(format!("{}/", p))],
            vec![Val::O(p.clone()), Val::S(format!("{}//x", p))],
        ];
        for i in 0..3 {
            rules.push(Rule::ArgPath(i, ns.clone()));
            rules.push(Rule::Arg(i, ns.clone()));
            rules.push(Rule::Arg(i, dot(&ns)));
        }
        if names::is_interface(dot(&ns).as_bytes()) {
            rules.push(Rule::Arg0Ns(dot(&ns)));
        }
        for b in bodies {
            m.body = b;
            let x = m.to_lib(&[])?;
            for r in &rules {
                ctx.evals += 1;
                let want = r.matches(&m);
                ctx.label(if want { "matches" } else { "does not match" });
                ensure!(
                    r.to_lib()?.matching_rule(&x) == want,
                    "{:?} should {}match {}", r, if want { "" } else { "not " }, m.show()
                );
                ctx.hit(hash_bytes(m.hash64(), format!("{:?}", r).as_bytes()));
            }
        }
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    const READER: &str = "the reference reader and predicate follow the match rule section of the D-Bus specification (harness/src/rules.rs); trailing commas, leading zeros of an index and argument-path indices above 63 are left open";
    vec![
        Check {
            id: "C20",
            rule: "lists of up to 40 rules with argument texts rich in quotes, commas, backslashes, equal signs, spaces and non-ASCII characters, all argument texts over six such characters up to length 5 (thorough 8) alone and between other rules, and hand-written texts that decode; the rules after encoding and decoding, the meaning of the text to the reference reader, single conversion. Non-trivial: distinct lists and texts that decode.",
            assumptions: &[READER],
            stack: 16 * MB,
            subs: vec![
                sub("rule lists", 700_000, 8_000_000, lists),
                sub("all short arguments", 9_331, 2_015_539, all_args),
                sub("hand-written texts", 500_000, 10_000_000, texts),
            ],
        },
        Check {
            id: "C21",
            rule: "valid rules with values quoted in arbitrary ways, every key and near-key (case, suffixes, odd spacing) with a table of values, all value texts over six characters up to length 6 (thorough 8) in several positions, values near their grammar, and token soup; verdict and rules against the reference reader. Non-trivial: distinct texts the reference gives a verdict on.",
            assumptions: &[READER],
            stack: 16 * MB,
            subs: vec![
                sub("quoted values", 360_000, 8_000_000, quoted),
                sub("arbitrary texts", 750_000, 15_000_000, arbitrary),
                sub("all short values", 55_987, 2_015_539, all_values),
                sub("keys", 174, 174 * 20, keys),
                sub("near values", 450_000, 8_000_000, near_values),
            ],
        },
        Check {
            id: "C22",
            rule: "messages whose arguments look like paths, namespaces and names, with rules made from the message's own content unchanged or slightly changed (continued, shortened, one letter different, taken from another field or argument), all pairs of short paths and names as namespaces, and rules that went through text; verdict of each rule, of lists in several orders with repetition, and of the decoded message, against the reference predicate. Non-trivial: distinct message and rule combinations.",
            assumptions: &[READER, "an argument path rule matches a string or object path argument that is equal to the path or continues it after a slash, as the property states"],
            stack: 16 * MB,
            subs: vec![
                sub("rules about the message", 750_000, 10_000_000, selects),
                sub("rules through text", 300_000, 4_000_000, through_text),
                sub("all short namespaces", 259, 259, namespaces),
            ],
        },
    ]
}
