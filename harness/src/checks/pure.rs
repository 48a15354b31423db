//! C27: calls depend on their arguments only. Jobs with arguments fixed beforehand are run in
//! several orders, repeated, among failing ones and from several threads; every run must give
//! the same result, which is also compared with the reference where there is one, so that state
//! left behind by an earlier case shows as well.
use super::*;
use crate::dict;
use crate::checks::faults::{mutate, other_type_value, valid_field};
use crate::checks::replies::all_replies;
use crate::gen::{self, Opts, STD};
use crate::rules::{self, Read, Rule};
use crate::wire::*;
use dbus_message_parser::match_rule::MatchRule;
use dbus_message_parser::message::MessageHeaderFields;
use dbus_message_parser::value::{Array, Bus, Error, Interface, Member, ObjectPath, Struct, Type, Value};
use std::convert::TryFrom;
use std::sync::Barrier;

const O: Opts = Opts { free_dict: false, fds: 4, nul: false };

enum Job {
    /// message, reference bytes, reference descriptors; `None`: no expectation
    Encode(Message, Msg, Vec<i32>, Option<(Vec<u8>, Vec<i32>)>),
    /// must fail
    EncodeBad(Message),
    /// buffer, descriptors, expected content
    Decode(Bytes, Vec<u8>, Vec<i32>, Option<(Msg, Vec<Val>)>),
    Name(Vec<u8>),
    Sig(String),
    Print(Vec<Type>, Option<String>),
    RuleText(String),
    RuleList(Vec<MatchRule>, Vec<Rule>),
    Match(Vec<MatchRule>, Vec<Rule>, Message, Msg, Vec<i32>),
    Reply(Message, Msg, Vec<i32>),
    Fields(Vec<Value>),
    Path(String, String, String),
    Containers(Vec<Value>, Type),
    Split(Message, Msg, Vec<i32>),
    /// two valid names of one kind: kind, first, second
    Same(u64, String, String),
}

fn h(s: &str) -> String {
    if s.len() > 300 {
        format!("{:016x}", hash_bytes(0, s.as_bytes()))
    } else {
        s.to_string()
    }
}

fn d<T: std::fmt::Debug>(x: &T) -> String {
    h(&format!("{:?}", x))
}

fn unchanged(m: &Message, want: &Msg, fds: &[i32]) -> Res {
    check_message(m, want, &resolve(&want.body, fds)).map_err(|e| format!("the message given to the call changed: {}", e))
}

impl Job {
    fn name(&self) -> &'static str {
        match self {
            Job::Encode(..) => "encode",
            Job::EncodeBad(..) => "failing encode",
            Job::Decode(_, _, _, Some(_)) => "decode",
            Job::Decode(..) => "decode of damaged bytes",
            Job::Name(..) => "names",
            Job::Sig(..) => "parse signature",
            Job::Print(..) => "print signature",
            Job::RuleText(..) => "decode rules",
            Job::RuleList(..) => "encode rules",
            Job::Match(..) => "match",
            Job::Reply(..) => "reply",
            Job::Fields(..) => "header fields",
            Job::Path(..) => "object path",
            Job::Containers(..) => "containers",
            Job::Split(..) => "split",
            Job::Same(..) => "compare names",
        }
    }
    fn run(&self) -> Result<String, String> {
        Ok(match self {
            Job::Encode(m, want, fds, expect) => {
                let a = m.encode();
                let b = m.encode_with_fds();
                unchanged(m, want, fds)?;
                let s = format!("{:?} {:?}", a, b);
                if let Some((e, list)) = expect {
                    match (&a, &b) {
                        (Ok(a), Ok((b, l))) => {
                            ensure!(&a[..] == &e[..], "encode gives other bytes: {}", first_diff(a, e));
                            ensure!(&b[..] == &e[..], "encode with descriptors gives other bytes: {}", first_diff(b, e));
                            ensure!(l == list, "descriptors {:?}, expected {:?}", l, list);
                        }
                        _ => bail!("encoding {} fails: {:?} {:?}", want.show(), a, b),
                    }
                }
                h(&s)
            }
            Job::EncodeBad(m) => {
                let r = m.encode();
                ensure!(r.is_err(), "a message that cannot be encoded gives {:?}", r);
                d(&r)
            }
            Job::Decode(b, copy, fds, expect) => {
                let r = Message::decode_with_fds(b.clone(), fds);
                let q = Message::decode(b.clone());
                ensure!(&b[..] == &copy[..], "decoding changed the buffer: {}", first_diff(b, copy));
                if let Some((m, body)) = expect {
                    match &r {
                        Ok((x, n, _)) => {
                            ensure!(*n == copy.len(), "consumed {} of {}", n, copy.len());
                            check_message(x, m, body)?;
                        }
                        Err(e) => bail!("well-formed message {} refused: {:?}", m.show(), e),
                    }
                }
                h(&format!("{:?} {:?}", r, q))
            }
            Job::Name(b) => {
                let s = b.as_slice();
                let copy = b.clone();
                let r = format!(
                    "{:?} {:?} {:?} {:?} {:?}",
                    Bus::try_from(s), Interface::try_from(s), Error::try_from(s), Member::try_from(s), ObjectPath::try_from(s)
                );
                use crate::names::*;
                ensure!(
                    (Bus::try_from(s).is_ok(), Interface::try_from(s).is_ok(), Member::try_from(s).is_ok(), ObjectPath::try_from(s).is_ok())
                        == (is_bus(s), is_interface(s), is_member(s), is_path(s)),
                    "verdicts on {}: {}", hex(s), r
                );
                ensure!(*b == copy, "buffer changed");
                h(&r)
            }
            Job::Sig(s) => {
                let r = Type::from_string_to_signature(s);
                let t = Type::try_from(s.as_str());
                let want = parse_sig(s.as_bytes());
                match (&r, &want) {
                    (Ok(r), Ok(w)) => {
                        let got: Vec<Ty> = r.iter().map(Ty::from_lib).collect();
                        ensure!(&got == w, "{:?} parses as {:?}", s, r);
                    }
                    (Err(_), Err(_)) => (),
                    (Ok(r), Err(e)) => bail!("{:?} ({}) parses as {:?}", s, e, r),
                    (Err(e), Ok(_)) => bail!("{:?} is refused: {:?}", s, e),
                }
                h(&format!("{:?} {:?}", r, t))
            }
            Job::Print(t, want) => {
                let r = Type::from_signature_to_string(t);
                if let Some(w) = want {
                    ensure!(r.as_ref() == Ok(w), "{:?} prints {:?}", t, r);
                }
                d(&r)
            }
            Job::RuleText(s) => {
                let r = MatchRule::decode(s);
                match rules::read(s) {
                    Read::Rules(w) => ensure!(
                        r.as_ref().map(|l| l.iter().map(Rule::from_lib).collect::<Vec<_>>()) == Ok(w.clone()),
                        "{:?} decodes to {:?}", s, r
                    ),
                    Read::Error(e) => ensure!(r.is_err(), "{:?} ({}) decodes to {:?}", s, e, r),
                    Read::Open => (),
                }
                d(&r)
            }
            Job::RuleList(l, want) => {
                let t = MatchRule::encode(l);
                let one: Vec<String> = l.iter().map(|r| r.to_string()).collect();
                ensure!(one.join(",") == t, "the list encodes to {:?}, its rules to {:?}", t, one);
                if let Read::Rules(w) = rules::read(&t) {
                    ensure!(w == *want, "{:?} encodes to {:?}, which reads {:?}", want, t, w);
                } else if let Read::Error(e) = rules::read(&t) {
                    bail!("{:?} encodes to {:?}: {}", want, t, e);
                }
                ensure!(l.iter().map(Rule::from_lib).collect::<Vec<_>>() == *want, "the rules changed to {:?}", l);
                h(&t)
            }
            Job::Match(l, want, m, model, fds) => {
                let r: Vec<bool> = l.iter().map(|r| r.matching_rule(m)).collect();
                let w: Vec<bool> = want.iter().map(|r| r.matches(model)).collect();
                ensure!(r == w, "{:?} on {}: {:?}, expected {:?}", want, model.show(), r, w);
                let all = MatchRule::matching_rules(l, m);
                ensure!(all == w.iter().all(|x| *x), "the list {:?} on {}: {}", want, model.show(), all);
                ensure!(l.iter().map(Rule::from_lib).collect::<Vec<_>>() == *want, "the rules changed to {:?}", l);
                unchanged(m, model, fds)?;
                format!("{:?} {}", r, all)
            }
            Job::Reply(m, model, fds) => {
                let r = all_replies(m);
                let mut s = String::new();
                for (n, x) in &r {
                    ensure!(
                        x.get_reply_serial() == Some(model.serial),
                        "{} of {} answers {:?}", n, model.show(), x.get_reply_serial()
                    );
                    s.push_str(&format!("{} {:?} {:?}\n", n, x, x.encode()));
                }
                unchanged(m, model, fds)?;
                h(&s)
            }
            Job::Fields(v) => {
                let before = format!("{:?}", v);
                let r = MessageHeaderFields::try_from(v.clone());
                ensure!(format!("{:?}", v) == before, "values changed");
                h(&format!("{:?} {:?}", r, r.as_ref().ok().map(|f| Vec::<Value>::from(f.clone()))))
            }
            Job::Path(a, b, e) => {
                let mut x = ObjectPath::try_from(a.as_str()).map_err(|e| format!("{:?}: {:?}", a, e))?;
                let y = ObjectPath::try_from(b.as_str()).map_err(|e| format!("{:?}: {:?}", b, e))?;
                let st = x.starts_with(&y);
                let rest: Option<Vec<String>> = x.strip_prefix_elements(&y).map(|i| i.map(|s| s.to_string()).collect());
                ensure!(&x == a.as_str() && &y == b.as_str(), "{:?} and {:?} became {:?} and {:?}", a, b, x, y);
                ensure!(st == rest.is_some(), "{:?} {:?}: {} {:?}", a, b, st, rest);
                let r = x.append(e);
                format!("{} {:?} {} {}", st, rest, r, h(x.as_ref()))
            }
            Job::Containers(v, t) => {
                let a = Array::new(v.clone(), t.clone());
                let s = Struct::try_from(v.clone());
                let ty: Vec<_> = v.iter().map(|x| x.get_type()).collect();
                let ok = v.iter().all(|x| x.get_type().as_ref() == Ok(t));
                ensure!(a.is_ok() == ok, "an array of {:?} from {:?} gives {:?}", t, v, a);
                ensure!(s.is_ok() == !v.is_empty(), "a struct from {:?} gives {:?}", v, s);
                h(&format!("{:?} {:?} {:?} {}", a, s, ty, t.get_alignment()))
            }
            Job::Split(m, model, fds) => {
                let r = m.clone().split();
                unchanged(m, model, fds)?;
                let (hd, b) = r.map_err(|e| format!("split of {} fails: {:?}", model.show(), e))?;
                ensure!(hd.get_serial() == model.serial && b.len() == model.body.len(), "split gives {:?} {:?}", hd, b);
                h(&format!("{:?} {:?} {:?}", hd, b, m.get_signature()))
            }
            Job::Same(k, a, b) => {
                macro_rules! same {
                    ($t:ty) => {{
                        let x = <$t>::try_from(a.as_str()).map_err(|e| format!("{:?}: {:?}", a, e))?;
                        let y = <$t>::try_from(b.as_str()).map_err(|e| format!("{:?}: {:?}", b, e))?;
                        ensure!((&x == b.as_str()) == (a == b), "{:?} against the text {:?}: {}", a, b, &x == b.as_str());
                        ensure!(&x == a.as_str() && &y == b.as_str(), "{:?} or {:?} differs from its own text", a, b);
                        ensure!((x == y) == (a == b), "{:?} against {:?}: {}", x, y, x == y);
                        ensure!(
                            (x.cmp(&y) == std::cmp::Ordering::Equal) == (a == b) && x.cmp(&y) == y.cmp(&x).reverse(),
                            "{:?} and {:?} are ordered {:?} and {:?}", x, y, x.cmp(&y), y.cmp(&x)
                        );
                        let (r, t): (&str, String) = (x.as_ref(), x.to_string());
                        ensure!(r == a && t == *a, "{:?} reads {:?} and prints {:?}", a, r, t);
                        h(&format!("{:?} {:?} {:?}", x, x.cmp(&y), String::from(x.clone())))
                    }};
                }
                match k {
                    0 => same!(Bus),
                    1 => same!(Interface),
                    2 => same!(Error),
                    3 => same!(Member),
                    _ => same!(ObjectPath),
                }
            }
        })
    }
}

fn job(src: &mut Src, pool: &[(Msg, Vec<i32>)]) -> Result<Job, String> {
    let (m, fds) = src.pick(pool).clone();
    Ok(match src.weighted(&[4, 2, 4, 4, 2, 3, 2, 3, 3, 4, 3, 2, 1, 2, 2, 3]) {
        0 => {
            let (w, list) = after_wire(&m, &fds);
            let e = w.encode_fast().buf;
            Job::Encode(m.to_lib(&fds)?, m, fds, Some((e, list)))
        }
        1 => {
            // signature too long, nested too deep, or a type no text stands for
            let mut x = m.to_lib(&fds)?;
            match src.below(4) {
                0 => {
                    for _ in 0..260 {
                        x.add_value(Value::Byte(1));
                    }
                }
                1 => {
                    let mut t = Value::Byte(1);
                    for _ in 0..33 {
                        t = Value::Struct(Struct::try_from(vec![t]).unwrap());
                    }
                    x.add_value(t);
                }
                2 => x.add_value(Value::Array(Array::new(vec![], Type::Struct(vec![])).unwrap())),
                _ => {
                    x.add_value(Value::Signature(vec![Type::String; 256]));
                }
            }
            Job::EncodeBad(x)
        }
        2 => {
            let order = gen::order(src, &m);
            let b = encode_raw(&m.raw(&order), false).buf;
            let body = resolve(&m.body, &fds);
            Job::Decode(Bytes::from(b.clone()), b, fds, Some((m, body)))
        }
        3 => {
            let e = m.encode();
            let mut b = e.buf.clone();
            mutate(src, &mut b, &e.sites, m.le);
            Job::Decode(Bytes::from(b.clone()), b, if src.bool() { fds } else { vec![] }, None)
        }
        4 => Job::Name(match src.below(5) {
            0 => gen::bus(src).into_bytes(),
            1 => gen::interface(src).into_bytes(),
            2 => gen::member(src).into_bytes(),
            3 => gen::path(src).into_bytes(),
            _ => {
                let n = gen::len(src, 8, 300);
                (0..n).map(|_| *src.pick(b"a.:/_-7\x80")).collect()
            }
        }),
        5 => {
            let n = gen::len(src, 8, 260);
            Job::Sig(if src.bool() {
                sig_text(&gen::signature(src, &O))
            } else {
                (0..n).map(|_| *src.pick(b"yasv(){}b") as char).collect()
            })
        }
        6 => {
            if src.bool() {
                let s = gen::signature(src, &O);
                let w = sig_text(&s);
                Job::Print(s.iter().map(|t| t.to_lib()).collect(), if w.len() <= 255 { Some(w) } else { None })
            } else {
                Job::Print(vec![Type::Array(Box::new(Type::Struct(vec![]))); 1 + src.below(300) as usize], None)
            }
        }
        7 => {
            let n = 1 + src.below(3);
            let mut s: Vec<String> = Vec::new();
            for _ in 0..n {
                let r = rules::rule(src);
                let q = rules::quote(src, &r.value());
                s.push(format!("{}={}", r.key(), q));
            }
            let mut s = s.join(",");
            if src.chance(1, 3) {
                let mut i = src.usize(s.len() + 1);
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                s.insert(i, *src.pick(&['\'', ',', '\\', '=']));
            }
            Job::RuleText(s)
        }
        8 => {
            let n = src.below(4);
            let l: Vec<Rule> = (0..n).map(|_| rules::rule(src)).collect();
            Job::RuleList(l.iter().map(|r| r.to_lib()).collect::<Result<_, _>>()?, l)
        }
        9 => {
            let n = src.below(4);
            let mut m = m;
            if src.chance(1, 3) {
                // texts that argument rules look at
                let mut t = match src.below(3) {
                    0 => gen::path(src),
                    1 => gen::string(src),
                    _ => gen::interface(src),
                };
                if src.bool() {
                    t.push_str(*src.pick(&[".x", "/", "/x", "x"]));
                }
                m.body.insert(0, if crate::names::is_path(t.as_bytes()) && src.bool() { Val::O(t) } else { Val::S(t) });
                if sig_text(&m.sig()).len() > 255 {
                    m.body.truncate(1);
                }
            }
            let l: Vec<Rule> = (0..n)
                .map(|_| {
                    match (src.below(9), &m.h.path, &m.h.interface) {
                        (0, Some(p), _) => Rule::PathNs(p.clone()),
                        (1, _, Some(i)) => Rule::Interface(i.clone()),
                        (2, _, _) => Rule::Type(m.mtype),
                        (3..=5, _, _) => match m.body.first() {
                            Some(Val::S(s)) | Some(Val::O(s)) => {
                                // the text itself or what stands before a separator
                                let cuts: Vec<usize> =
                                    s.char_indices().filter(|(_, c)| *c == '.' || *c == '/').map(|(i, _)| i).collect();
                                let s = if cuts.is_empty() || src.bool() {
                                    s.clone()
                                } else {
                                    let c = *src.pick(&cuts);
                                    s[..if c == 0 { 1 } else { c }].to_string()
                                };
                                if crate::names::is_interface(s.as_bytes()) {
                                    Rule::Arg0Ns(s)
                                } else if crate::names::is_path(s.as_bytes()) {
                                    Rule::ArgPath(0, s)
                                } else {
                                    Rule::Arg(0, s)
                                }
                            }
                            _ => rules::rule(src),
                        },
                        _ => rules::rule(src),
                    }
                })
                .collect();
            Job::Match(l.iter().map(|r| r.to_lib()).collect::<Result<_, _>>()?, l, m.to_lib(&fds)?, m, fds)
        }
        10 => Job::Reply(m.to_lib(&fds)?, m, fds),
        11 => {
            let n = src.below(5);
            let mut v: Vec<Value> = Vec::new();
            for _ in 0..n {
                let c = 1 + src.below(9) as u8;
                let x = if src.chance(1, 5) { other_type_value(src, c) } else { valid_field(src, c) };
                v.push(Val::R(vec![Val::Y(c), Val::V(Box::new(x))]).to_lib(&[0, 1, 2, 3]));
            }
            Job::Fields(v)
        }
        12 => {
            let a = gen::path(src);
            let b = match src.below(3) {
                0 => "/".to_string(),
                1 => gen::path(src),
                _ => a[..a.rfind('/').unwrap().max(1)].to_string(),
            };
            Job::Path(a, b, if src.bool() { gen::member(src) } else { gen::string(src) })
        }
        13 => {
            let t = gen::ty(src, 2, &STD);
            let n = src.below(4);
            let mut v: Vec<Value> =
                (0..n).map(|_| gen::val(src, &t, 0, &mut gen::Budget(6), &STD).to_lib(&[0, 1, 2, 3])).collect();
            if src.chance(1, 4) {
                v.push(Value::Byte(1));
            }
            Job::Containers(v, t.to_lib())
        }
        14 => Job::Split(m.to_lib(&fds)?, m, fds),
        _ => {
            let k = src.below(5);
            let mut name = |src: &mut Src| match k {
                0 => gen::bus(src),
                1 | 2 => gen::interface(src),
                3 => gen::member(src),
                _ => gen::path(src),
            };
            let a = name(src);
            let b = match src.below(3) {
                0 => a.clone(),
                1 if a.len() < 200 && a != "/" => format!("{}{}", a, src.pick(&["_", "a", "9"])),
                _ => name(src),
            };
            Job::Same(k, a, b)
        }
    })
}

fn message_pool(src: &mut Src) -> Vec<(Msg, Vec<i32>)> {
    let n = 1 + src.below(4);
    let mut pool: Vec<(Msg, Vec<i32>)> = Vec::new();
    for _ in 0..n {
        let mut m = gen::small_msg(src, &O);
        if src.chance(1, 5) {
            m.body = gen::body(src, &O);
        }
        let fds = gen::fd_table(src, 4);
        pool.push((m, fds));
    }
    // nearly equal messages
    if src.bool() {
        let (mut m, fds) = src.pick(&pool).clone();
        match src.below(4) {
            0 => m.le = !m.le,
            1 => m.serial = m.serial.wrapping_add(1),
            2 => m.body.push(Val::Y(7)),
            _ => m.body.clear(),
        }
        if sig_text(&m.sig()).len() <= 255 {
            pool.push((m, fds));
        }
    }
    pool
}

fn jobs(src: &mut Src, ctx: &mut Ctx) -> Result<Vec<Job>, String> {
    let pool = message_pool(src);
    let n = 2 + src.below(8);
    let mut l = Vec::new();
    for _ in 0..n {
        let j = job(src, &pool)?;
        ctx.label(j.name());
        l.push(j);
    }
    Ok(l)
}

fn run_one(j: &Job, when: &str) -> Result<String, String> {
    j.run().map_err(|e| format!("{} {}: {}", j.name(), when, e))
}

fn history(src: &mut Src, ctx: &mut Ctx) -> Res {
    let l = jobs(src, ctx)?;
    let mut base = Vec::new();
    for j in &l {
        base.push(run_one(j, "the first time")?);
    }
    let names: Vec<&str> = l.iter().map(|j| j.name()).collect();
    let mut log = String::new();
    for _ in 0..2 + src.below(3) {
        let mut order: Vec<usize> = (0..l.len()).collect();
        for _ in 0..src.below(4) {
            let i = src.usize(l.len());
            order.push(i);
        }
        src.shuffle(&mut order);
        log.push_str(&format!("{:?} ", order));
        for i in order {
            ctx.evals += 1;
            let r = run_one(&l[i], "in another order")?;
            ensure!(r == base[i], "{} gives {} after {:?}, it gave {}", l[i].name(), r, names, base[i]);
        }
    }
    ctx.desc(|| format!("{:?} in orders {}", names, log));
    ctx.hit(hash_bytes(1, base.join("\n").as_bytes()));
    Ok(())
}

fn threads(src: &mut Src, ctx: &mut Ctx) -> Res {
    let l = jobs(src, ctx)?;
    let mut base = Vec::new();
    for j in &l {
        base.push(run_one(j, "before the threads start")?);
    }
    let n = 2 + src.below(3) as usize;
    let rounds = 1 + src.below(4);
    let orders: Vec<Vec<usize>> = (0..n)
        .map(|_| {
            let mut o: Vec<usize> = (0..l.len()).collect();
            src.shuffle(&mut o);
            o
        })
        .collect();
    ctx.desc(|| format!("{:?} from {} threads in {:?}", l.iter().map(|j| j.name()).collect::<Vec<_>>(), n, orders));
    ctx.hit(hash_bytes(2, base.join("\n").as_bytes()));
    let barrier = Barrier::new(n);
    let mut result: Res = Ok(());
    std::thread::scope(|s| {
        let hs: Vec<_> = orders
            .iter()
            .map(|o| {
                let (l, base, barrier) = (&l, &base, &barrier);
                std::thread::Builder::new()
                    .stack_size(4 * MB)
                    .spawn_scoped(s, move || -> Res {
                        barrier.wait();
                        for _ in 0..rounds {
                            for i in o {
                                let r = run_one(&l[*i], "while other threads run")?;
                                ensure!(
                                    r == base[*i],
                                    "{} gives {} while other threads run, it gave {}", l[*i].name(), r, base[*i]
                                );
                            }
                        }
                        Ok(())
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(Ok(())) => (),
                Ok(Err(e)) => result = Err(e),
                Err(_) => result = Err("a call panicked while other threads ran".into()),
            }
        }
    });
    ctx.evals += (n as u64) * rounds * l.len() as u64;
    result?;
    for (j, b) in l.iter().zip(&base) {
        let r = run_one(j, "after the threads ended")?;
        ensure!(r == *b, "{} gives {} after the threads ended, it gave {}", j.name(), r, b);
    }
    Ok(())
}

/// Long runs on one thread: state that builds up over many calls.
fn long_runs(src: &mut Src, ctx: &mut Ctx) -> Res {
    let l = jobs(src, ctx)?;
    let mut base = Vec::new();
    for j in &l {
        base.push(run_one(j, "the first time")?);
    }
    let n = if ctx.thorough { 20_000 } else { 3_000 };
    ctx.desc(|| format!("{:?} repeated {} times", l.iter().map(|j| j.name()).collect::<Vec<_>>(), n));
    ctx.hit(hash_bytes(3, base.join("\n").as_bytes()));
    let mut x = src.u64();
    for k in 0..n {
        x = splitmix(x);
        let i = (x % l.len() as u64) as usize;
        let r = run_one(&l[i], "repeated")?;
        ensure!(r == base[i], "{} gives {} after {} calls, it gave {}", l[i].name(), r, k, base[i]);
    }
    ctx.evals += n;
    Ok(())
}

/// A call that fails, of a kind chosen by the source.
fn failing(src: &mut Src) -> Result<Job, String> {
    let m = gen::small_msg(src, &O);
    let fds = gen::fd_table(src, 4);
    let raw = |mut m: Msg, v: Val| {
        m.body = vec![v];
        m.encode()
    };
    let bytes = |b: Vec<u8>, fds: Vec<i32>| Job::Decode(Bytes::from(b.clone()), b, fds, None);
    Ok(match src.below(14) {
        0 => {
            // variants nested too deep
            let mut v = Val::Y(1);
            for _ in 0..5 + src.below(8) {
                v = Val::V(Box::new(v));
            }
            bytes(raw(m, v).buf, fds)
        }
        1 => bytes(raw(m, Val::H(1000)).buf, fds),
        2 => {
            let e = raw(m, Val::S("some text".into()));
            let mut b = e.buf;
            let n = b.len();
            b[n - 3] = *src.pick(&[0xff, 0xc3, 0x80]);
            bytes(b, fds)
        }
        3 => {
            let mut b = raw(m, Val::B(true)).buf;
            let n = b.len();
            b[n - 2] = 7;
            bytes(b, fds)
        }
        4 => {
            let mut b = raw(m, Val::S("some text".into())).buf;
            let n = b.len();
            b.truncate(1 + src.usize(n - 1));
            bytes(b, fds)
        }
        5 => {
            let mut b = m.encode().buf;
            let i = src.usize(4);
            b[i] = *src.pick(&[0, 0x80, 0xff]);
            bytes(b, fds)
        }
        6 => {
            // a signature too deep or unfinished
            let e = raw(m, Val::G(vec![Ty::Y; 40]));
            let mut b = e.buf;
            let n = b.len();
            let c = *src.pick(b"a({)");
            for x in &mut b[n - 41..n - 1] {
                *x = c;
            }
            bytes(b, fds)
        }
        7 => {
            let mut b = raw(m, Val::A(Ty::T, vec![Val::T(1), Val::T(2)])).buf;
            let n = b.len();
            let k = (n - 20) / 4 * 4;
            b[k..k + 4].copy_from_slice(&[0xff, 0xff, 0xff, 0xff]);
            bytes(b, fds)
        }
        8 => Job::Name(src.pick(&[&b"a..b"[..], b"", b".", b"/a//b", b"/a/", b"a.9b", b"a.\xff", b":", b"9a.b"]).to_vec()),
        9 => Job::Sig(src.pick(&["a", "(", "()", "{sv", "(y", "z", "a{s}", "y)", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaay"]).to_string()),
        10 => Job::RuleText(
            src.pick(&["type", "=", "type=x", "arg64=", "arg0='", "path=a", "sender=a", "arg0namespace=.", "unknown=1", "eavesdrop=1", ",", "member=a.b"])
                .to_string(),
        ),
        11 => {
            let mut x = m.to_lib(&fds)?;
            match src.below(3) {
                0 => (0..260).for_each(|_| x.add_value(Value::Byte(1))),
                1 => x.add_value(Value::Array(Array::new(vec![], Type::Struct(vec![])).unwrap())),
                _ => {
                    let mut t = Value::Byte(1);
                    for _ in 0..33 {
                        t = Value::Struct(Struct::try_from(vec![t]).unwrap());
                    }
                    x.add_value(t);
                }
            }
            Job::EncodeBad(x)
        }
        12 => {
            let c = 1 + src.below(9) as u8;
            let x = other_type_value(src, c);
            Job::Fields(vec![Val::R(vec![Val::Y(c), Val::V(Box::new(x))]).to_lib(&[0, 1, 2, 3])])
        }
        _ => Job::Containers(vec![Value::Byte(1), Value::Boolean(true)], Type::Byte),
    })
}

/// Good calls at the limits, before and after one or two failing calls repeated very often.
fn worn(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut good = Vec::new();
    let put = |m: Msg, good: &mut Vec<Job>| -> Res {
        let b = m.encode_fast().buf;
        let body = resolve(&m.body, &[]);
        good.push(Job::Decode(Bytes::from(b.clone()), b.clone(), vec![], Some((m.clone(), body))));
        good.push(Job::Encode(m.to_lib(&[])?, m, vec![], Some((b, vec![]))));
        Ok(())
    };
    let (mut m, _) = edges::edge(0);
    for n in 1..=4 {
        let mut v = Val::Q(n);
        for _ in 0..n {
            v = Val::V(Box::new(v));
        }
        m.body = vec![v.clone(), Val::R(vec![v])];
        put(m.clone(), &mut good)?;
    }
    let (mut a, mut t, mut r) = (Val::Y(1), Ty::Y, Val::Q(1));
    for _ in 0..32 {
        a = Val::A(t.clone(), vec![a]);
        t = Ty::A(Box::new(t));
        r = Val::R(vec![r]);
    }
    m.body = vec![a, r];
    put(m.clone(), &mut good)?;
    m.body = vec![Val::G(vec![Ty::Y; 255])];
    put(m, &mut good)?;
    for _ in 0..12 {
        let (m, odd) = edges::edge(src.below(edges::count()));
        if !odd && after_wire(&m, &[]).1.is_empty() && m.h.unix_fds.is_none() {
            put(m, &mut good)?;
        }
    }
    for s in ["a.b", "m.m2", ":1.5", "m", "/", "/a/b"] {
        good.push(Job::Name(s.as_bytes().to_vec()));
    }
    good.push(Job::Name([&b"a."[..], &[b'x'; 253][..]].concat()));
    good.push(Job::Sig("y".repeat(255)));
    good.push(Job::Sig("a(ya{sv})(((x)))".into()));
    good.push(Job::RuleText("type=signal,arg63='',path=/,arg0='a,b'".into()));
    let mut base = Vec::new();
    for j in &good {
        base.push(run_one(j, "the first time")?);
    }
    let mut bad = Vec::new();
    for _ in 0..1 + src.below(2) {
        bad.push(failing(src)?);
    }
    let mut n = if ctx.thorough { 40_000 } else { 1 + src.below(6_000) };
    let sizes = dict::sizes(50_000);
    if !sizes.is_empty() && src.bool() {
        n = *src.pick(&sizes) as u64 + src.below(3);
    }
    let names: Vec<&str> = bad.iter().map(|j| j.name()).collect();
    ctx.desc(|| format!("{:?} repeated {} times between {} good calls", names, n, good.len()));
    ctx.hit(hash_bytes(4, format!("{:?} {}", names, n).as_bytes()));
    let mut first = Vec::new();
    for j in &bad {
        ctx.label(j.name());
        first.push(run_one(j, "the first time")?);
    }
    for k in 0..n {
        let i = k as usize % bad.len();
        let r = run_one(&bad[i], "repeated")?;
        ensure!(r == first[i], "{} gives {} after {} calls, it gave {}", names[i], r, k, first[i]);
    }
    for (j, b) in good.iter().zip(&base) {
        let r = run_one(j, "after failing calls")?;
        ensure!(r == *b, "{} gives {} after {} failing calls, it gave {}", j.name(), r, n, b);
    }
    ctx.evals += n + 2 * good.len() as u64;
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C27",
        rule: "two to nine calls of sixteen kinds (encoding and decoding of good, bad and nearly equal messages, parsing, printing, matching, replies, splitting, containers, comparisons of names) with arguments fixed beforehand, run in order, in several other orders with repetition, thousands of times, and from two to four threads at once; good calls at the limits before and after failing calls repeated up to 6000 times; every run gives the result of the first and of the reference, and the arguments stay as they were. Non-trivial: distinct result vectors.",
        assumptions: &["thread interleavings are those the operating system happens to choose"],
        stack: 16 * MB,
        subs: vec![
            sub("orders", 45_000, 1_000_000, history),
            sub("threads", 6_000, 130_000, threads),
            sub("long runs", 40, 700, long_runs),
            sub("failing calls repeated", 200, 1_400, worn),
        ],
    }]
}
