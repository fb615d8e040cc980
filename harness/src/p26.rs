//! Typed values are exactly what the type's own conversion says.
use crate::common::*;
use crate::{check, mx, reach, scenarios};
use palc::{Args, Parser, Subcommand};
use std::ffi::{OsStr, OsString};
use std::net::Ipv4Addr;
use std::num::NonZeroU8;
use std::path::PathBuf;
use std::str::FromStr;

#[derive(PartialEq, Debug, Clone)]
pub struct Even(u8);
impl FromStr for Even {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        let b = s.as_bytes();
        if b.len() == 1 && b[0] % 2 == 0 { Ok(Even(b[0])) } else { Err(String::from("odd")) }
    }
}
/// Not of text: any bytes are its business.
#[derive(PartialEq, Debug, Clone)]
pub struct Pair(u8, u8);
impl TryFrom<&OsStr> for Pair {
    type Error = &'static str;
    fn try_from(s: &OsStr) -> Result<Self, &'static str> {
        match s.as_encoded_bytes() {
            &[a, b] if a != b => Ok(Pair(a, b)),
            _ => Err("not a pair"),
        }
    }
}
/// Converts everything, in its own way.
#[derive(PartialEq, Debug, Clone)]
pub struct Sum(u32);
impl From<&OsStr> for Sum {
    fn from(s: &OsStr) -> Self {
        Sum(s.as_encoded_bytes().iter().fold(1, |a, b| (a << 8) | u32::from(*b)))
    }
}
/// Both ways: the one from OS strings is the one documented to be preferred.
#[derive(PartialEq, Debug, Clone)]
pub struct Dual(&'static str);
impl TryFrom<&OsStr> for Dual {
    type Error = &'static str;
    fn try_from(s: &OsStr) -> Result<Self, &'static str> {
        if s.is_empty() { Err("empty") } else { Ok(Dual("os")) }
    }
}
impl FromStr for Dual {
    type Err = &'static str;
    fn from_str(_: &str) -> Result<Self, &'static str> {
        Ok(Dual("text"))
    }
}
#[derive(PartialEq, Debug, Clone)]
pub struct Word(String);
impl FromStr for Word {
    type Err = std::convert::Infallible;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        Ok(Word(s.chars().rev().collect()))
    }
}

#[derive(Parser, PartialEq)]
struct Cli {
    #[arg(short = 'u', long, allow_hyphen_values = true)]
    u8: Option<u8>,
    #[arg(short = 'i', long, allow_hyphen_values = true)]
    i16: Option<i16>,
    #[arg(short = 'c', long, allow_hyphen_values = true)]
    char: Option<char>,
    #[arg(short = 'b', long, allow_hyphen_values = true)]
    bool: Option<bool>,
    #[arg(short = 'z', long, allow_hyphen_values = true)]
    nz: Option<NonZeroU8>,
    #[arg(short = 's', long, allow_hyphen_values = true)]
    text: Option<String>,
    #[arg(short = 'e', long, allow_hyphen_values = true)]
    even: Option<Even>,
    #[arg(short = 'p', long, allow_hyphen_values = true)]
    pair: Option<Pair>,
    #[arg(short = 'm', long, allow_hyphen_values = true)]
    sum: Option<Sum>,
    #[arg(short = 'd', long, allow_hyphen_values = true)]
    dual: Option<Dual>,
    #[arg(short = 'w', long, allow_hyphen_values = true)]
    word: Option<Word>,
    #[arg(short = 'P', long, allow_hyphen_values = true)]
    path: Option<PathBuf>,
    #[arg(short = 'x', long, allow_hyphen_values = true)]
    ip: Option<Ipv4Addr>,
    #[arg(short = 'X', long, allow_hyphen_values = true)]
    boxed: Option<Box<OsStr>>,
}
/// Which of the 14 fields are set.
fn set(c: &Cli) -> u32 {
    [c.u8.is_some(), c.i16.is_some(), c.char.is_some(), c.bool.is_some(), c.nz.is_some(), c.text.is_some(), c.even.is_some(), c.pair.is_some(),
        c.sum.is_some(), c.dual.is_some(), c.word.is_some(), c.path.is_some(), c.ip.is_some(), c.boxed.is_some()]
        .iter().enumerate().map(|(i, b)| u32::from(*b) << i).sum()
}
fn spell(long: &str, short: &str, v: &[u8]) -> Vec<OsString> {
    match choice(4) {
        0 => vec![cat(&[b"--", long.as_bytes(), b"=", v])],
        1 => vec![cat(&[b"--", long.as_bytes()]), os(v.to_vec())],
        2 => vec![cat(&[b"-", short.as_bytes()]), os(v.to_vec())],
        _ => if attachable(v) { vec![cat(&[b"-", short.as_bytes(), v])] } else { vec![cat(&[b"-", short.as_bytes(), b"=", v])] },
    }
}
fn text<T: FromStr>(v: &[u8]) -> Option<T> {
    std::str::from_utf8(v).ok()?.parse().ok()
}
/// One option set to what it should be or rejected for its value.
fn one<T: PartialEq>(r: Result<Cli, palc::Error>, bit: u32, want: Option<T>, get: fn(Cli) -> Option<T>) {
    emit_end(&r);
    match r {
        Ok(c) => {
            reach!();
            check!(set(&c) == 1 << bit, "its field alone is set");
            let got = get(c);
            check!(got.is_some() && got == want, "the value is what the type's own conversion gives");
        }
        Err(e) => { reach!(); check!(want.is_none() && class(&e) == Class::InvalidValue, "rejected only if the type's own conversion rejects it") }
    }
}

#[derive(Parser, PartialEq)]
struct Places {
    #[arg(long)]
    list: Vec<u8>,
    #[arg(long, require_equals = true)]
    opt: Option<Option<u8>>,
    #[arg(long, value_delimiter = ':')]
    parts: Option<Vec<u8>>,
    #[arg(long, default_value_t = 77)]
    dflt: u8,
    #[arg(long, default_value = "78")]
    dfls: u8,
    #[arg(long, allow_negative_numbers = true)]
    neg: Option<i8>,
    #[command(flatten)]
    flat: Flat,
    pos: Option<u8>,
    many: Vec<u8>,
    #[command(subcommand)]
    cmd: Option<Cmd>,
}
#[derive(Args, PartialEq)]
struct Flat {
    #[arg(long)]
    inner: Option<u8>,
}
#[derive(Subcommand, PartialEq)]
enum Cmd {
    Sub {
        #[arg(long)]
        within: Option<u8>,
        end: Option<u8>,
    },
}
#[derive(Parser, PartialEq)]
struct Texts {
    #[arg(long)]
    list: Vec<String>,
    #[arg(long, require_equals = true)]
    opt: Option<Option<String>>,
    #[arg(long, value_delimiter = ':')]
    parts: Vec<String>,
    pos: String,
    #[arg(trailing_var_arg = true)]
    rest: Vec<String>,
}

scenarios! {
    [quick, "u8 in 4 spellings, 0..=4 arbitrary bytes"]
    fn p26_u8() { let v = bytes(len(0, 4)); let want = text(&v); one(parse(spell("u8", "u", &v)), 0, want, |c| c.u8) }
    [quick, "i16 in 4 spellings, 0..=4 arbitrary bytes"]
    fn p26_i16() { let v = bytes(len(0, 4)); let want = text(&v); one(parse(spell("i16", "i", &v)), 1, want, |c| c.i16) }
    [quick, "char in 4 spellings, 0..=4 arbitrary bytes"]
    fn p26_char() { let v = bytes(len(0, 4)); let want = text(&v); one(parse(spell("char", "c", &v)), 2, want, |c| c.char) }
    [quick, "bool as a value in 4 spellings, 0..=5 arbitrary bytes"]
    fn p26_bool() { let v = bytes(len(0, 5)); let want = text(&v); one(parse(spell("bool", "b", &v)), 3, want, |c| c.bool) }
    [quick, "non-zero u8 in 4 spellings, 0..=3 arbitrary bytes"]
    fn p26_nonzero() { let v = bytes(len(0, 3)); let want = text(&v); one(parse(spell("nz", "z", &v)), 4, want, |c| c.nz) }
    [quick, "String in 4 spellings, 0..=4 arbitrary bytes"]
    fn p26_string() { let v = bytes(len(0, 4)); let want = std::str::from_utf8(&v).ok().map(String::from); one(parse(spell("text", "s", &v)), 5, want, |c| c.text) }
    [quick, "a type of its own from text, error String, in 4 spellings, 0..=3 arbitrary bytes"]
    fn p26_even() { let v = bytes(len(0, 3)); let want = text(&v); one(parse(spell("even", "e", &v)), 6, want, |c| c.even) }
    [quick, "a type of its own from OS strings, error &str, in 4 spellings, 0..=3 arbitrary bytes"]
    fn p26_pair() { let v = bytes(len(0, 3)); let want = Pair::try_from(OsStr::new(&os(v.clone()))).ok(); one(parse(spell("pair", "p", &v)), 7, want, |c| c.pair) }
    [quick, "a type of its own with From, in 4 spellings, 0..=4 arbitrary bytes"]
    fn p26_sum() { let v = bytes(len(0, 4)); let want = Some(Sum::from(OsStr::new(&os(v.clone())))); one(parse(spell("sum", "m", &v)), 8, want, |c| c.sum) }
    [quick, "a type with both conversions, in 4 spellings, 0..=3 arbitrary bytes: the one from OS strings counts"]
    fn p26_dual() { let v = bytes(len(0, 3)); let want = if v.is_empty() { None } else { Some(Dual("os")) }; one(parse(spell("dual", "d", &v)), 9, want, |c| c.dual) }
    [quick, "a type from text that cannot fail, in 4 spellings, 0..=3 arbitrary bytes"]
    fn p26_word() { let v = bytes(len(0, 3)); let want = text(&v); one(parse(spell("word", "w", &v)), 10, want, |c| c.word) }
    [quick, "PathBuf in 4 spellings, 0..=5 arbitrary bytes, to the byte"]
    fn p26_path() { let v = bytes(len(0, 5)); let want = Some(os(v.clone())); one(parse(spell("path", "P", &v)), 11, want, |c| c.path.map(|p| p.into_os_string())) }
    [quick, "IPv4 address in 4 spellings: d.d.d. and 0..=2 arbitrary bytes"]
    fn p26_ip() { let mut v = b"1.2.3.".to_vec(); v.extend(bytes(len(0, 2))); let want = text(&v); one(parse(spell("ip", "x", &v)), 12, want, |c| c.ip) }
    [quick, "boxed OS string in 4 spellings, 0..=5 arbitrary bytes, to the byte"]
    fn p26_boxed() { let v = bytes(len(0, 5)); let want = Some(os(v.clone())); one(parse(spell("boxed", "X", &v)), 13, want, |c| c.boxed.map(|p| p.into_os_string())) }

    [quick, "u8 at 11 kinds of places, 0..=3 arbitrary bytes"]
    fn p26_places() {
        let v = bytes(len(0, 3));
        let k = choice(11);
        if matches!(k, 7 | 8 | 10) { assume(plain(&v) && v != b"sub") }
        let eq = |n: &str| cat(&[b"--", n.as_bytes(), b"=", &v]);
        let val = || os(v.clone());
        let l = match k {
            0 => vec![eq("list"), s("--list=9")],
            1 => vec![eq("opt")],
            2 => vec![eq("dflt")],
            3 => vec![eq("dfls")],
            4 => vec![eq("neg")],
            5 => vec![eq("inner")],
            6 => vec![s("sub"), eq("within")],
            7 => vec![val()],
            8 => vec![s("1"), s("2"), val()],
            9 => vec![s("--"), s("1"), val(), s("3")],
            _ => vec![s("sub"), val()],
        };
        let want: Option<u8> = text(&v);
        let wants = if k == 4 { text::<i8>(&v).map(|x| x as u8) } else { want };
        let r = parse::<Places>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                let got: Option<u8> = match k {
                    0 => if c.list.len() == 2 && c.list[1] == 9 { Some(c.list[0]) } else { None },
                    1 => c.opt.flatten(),
                    2 => if c.dfls == 78 { Some(c.dflt) } else { None },
                    3 => if c.dflt == 77 { Some(c.dfls) } else { None },
                    4 => c.neg.map(|x| x as u8),
                    5 => c.flat.inner,
                    6 => match &c.cmd { Some(Cmd::Sub { within, end: None }) => *within, _ => None },
                    7 => c.pos,
                    8 => if c.pos == Some(1) && c.many.len() == 2 && c.many[0] == 2 { Some(c.many[1]) } else { None },
                    9 => if c.pos == Some(1) && c.many.len() == 2 && c.many[1] == 3 { Some(c.many[0]) } else { None },
                    _ => match &c.cmd { Some(Cmd::Sub { within: None, end }) => *end, _ => None },
                };
                check!(got.is_some() && got == wants, "the value is what the type's own conversion gives");
                check!(k == 2 || k == 3 || (c.dflt == 77 && c.dfls == 78), "defaults are converted as well");
            }
            Err(e) => { reach!(); check!(wants.is_none() && class(&e) == Class::InvalidValue, "rejected only if the type's own conversion rejects it") }
        }
    }
    [quick, "numbers with a delimiter: 0..=5 arbitrary bytes split at ':'"]
    fn p26_parts() {
        let v = bytes(len(0, 5));
        let want: Option<Vec<u8>> = v.split(|b| *b == b':').map(|p| text::<u8>(p)).collect();
        let r = parse::<Places>(vec![cat(&[b"--parts=", &v])]);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(want.is_some() && c.parts == want, "each part is converted") }
            Err(e) => { reach!(); check!(want.is_none() && class(&e) == Class::InvalidValue, "rejected only if a part is") }
        }
    }
    [quick, "negative numbers as a following word: '-' and 0..=4 arbitrary bytes"]
    fn p26_negative() {
        let mut v = b"-".to_vec();
        v.extend(bytes(len(0, 4)));
        let digits = v[1..].iter().all(|b| b.is_ascii_digit());
        let want: Option<i8> = if digits { text(&v) } else { None };
        let r = parse::<Places>(vec![s("--neg"), os(v)]);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(want.is_some() && c.neg == want, "the value is what the type's own conversion gives") }
            Err(e) => { reach!(); check!(want.is_none() && class(&e) == if digits { Class::InvalidValue } else { Class::MissingValue }, "rejected only if not a number that fits") }
        }
    }
    [quick, "Strings at 6 kinds of places, 0..=3 arbitrary bytes: valid UTF-8 is kept, anything else rejected"]
    fn p26_texts() {
        let v = bytes(len(0, 3));
        let k = choice(6);
        if k == 3 { assume(plain(&v)) }
        let eq = |n: &str| cat(&[b"--", n.as_bytes(), b"=", &v]);
        let l = match k {
            0 => vec![s("--list=l"), eq("list"), s("p")],
            1 => vec![eq("opt"), s("p")],
            2 => { assume(!v.contains(&b':')); vec![cat(&[b"--parts=a:", &v, b":b"]), s("p")] }
            3 => vec![os(v.clone())],
            4 => vec![s("p"), s("q"), os(v.clone())],
            _ => vec![s("--"), os(v.clone()), s("-")],
        };
        let ok = std::str::from_utf8(&v).is_ok();
        let r = parse::<Texts>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                let got: &str = match k {
                    0 => { check!(c.list.len() == 2 && c.list[0] == "l", "the list has both"); &c.list[1] }
                    1 => c.opt.as_ref().unwrap().as_ref().unwrap(),
                    2 => { check!(c.parts.len() == 3 && c.parts[0] == "a" && c.parts[2] == "b", "all parts are there"); &c.parts[1] }
                    3 => &c.pos,
                    4 => { check!(c.pos == "p" && c.rest.len() == 2 && c.rest[0] == "q", "the others are there"); &c.rest[1] }
                    _ => { check!(c.rest.len() == 1, "the others are there"); &c.pos }
                };
                check!(ok && got.as_bytes() == &v[..], "kept to the byte");
            }
            Err(e) => { reach!(); check!(!ok && class(&e) == Class::InvalidValue, "only what is not UTF-8 is rejected") }
        }
    }
    [deep, "u8 and String inline, 5..=6 arbitrary bytes"]
    fn p26_deep() {
        let v = bytes(len(5, 6));
        if flip() { let want = text(&v); one(parse(vec![cat(&[b"--u8=", &v])]), 0, want, |c| c.u8) }
        else { let want = std::str::from_utf8(&v).ok().map(String::from); one(parse(vec![cat(&[b"--text=", &v])]), 5, want, |c| c.text) }
    }
    [quick, "127 definitions with all combinations of attributes, every command: each typed option in any form and each typed positional, with 1..=2 arbitrary bytes or a name of the enum"]
    fn p26_matrix() {
        let a = mx::at(0..mx::TABLES.len());
        let c = a.last();
        let k = choice(2);
        let l = if k == 0 {
            let r = a.option(|o| mx::takes(o) || o.kind == crate::model::Kind::Maybe);
            let name = pick(&a.names(r));
            let v = mx::typed(&r.opt.rules, 1, 2);
            a.line(mx::valued(name, r.opt, &v), &[(r.level, r.index)])
        } else {
            assume(!c.pos.is_empty());
            let p = choice(c.pos.len());
            let v = mx::typed(&c.pos[p].rules, 1, 2);
            let given: Vec<(usize, usize)> = (0..=p).map(|k| (a.depth(), c.opts.len() + k)).collect();
            let mut l = a.line(vec![], &given);
            l.extend((0..p).filter(|k| !c.pos[*k].last).map(|k| s(mx::good(&c.pos[k].rules))));
            if c.pos[p].last || flip() { l.push(s("--")) } else { assume(plain(&v)) }
            l.push(os(v));
            l
        };
        match a.agree(l) {
            1 => reach!(),
            2 => reach!(),
            _ => {}
        }
    }
}
