//! Positionals fill their fields in order.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand};
use std::ffi::OsString;

#[derive(Parser, PartialEq)]
struct Listed {
    #[arg(short, long)]
    flag: bool,
    a: OsString,
    #[arg(short, long)]
    opt: Option<OsString>,
    b: Option<OsString>,
    c: Option<OsString>,
    rest: Vec<OsString>,
}
/// The list is declared before the named options, the single ones around.
#[derive(Parser, PartialEq)]
struct Fixed {
    x: Option<OsString>,
    #[arg(short, long)]
    flag: bool,
    y: OsString,
    #[arg(default_value = "dz")]
    z: OsString,
    w: Option<OsString>,
    v: Option<OsString>,
}
#[derive(Parser, PartialEq)]
struct OnlyList {
    #[arg(short)]
    flag: bool,
    rest: Option<Vec<OsString>>,
    #[command(subcommand)]
    sub: Option<Sub>,
}
#[derive(Subcommand, PartialEq)]
enum Sub {
    Sub { p: OsString, q: Option<OsString>, r: Vec<OsString> },
}
#[derive(Parser, PartialEq)]
struct Typed {
    n: u8,
    c: Option<char>,
    t: Option<String>,
}
#[path = "p31_def.rs"]
mod def;
/// Single fields and a subcommand.
#[derive(Parser, PartialEq)]
struct Before {
    #[arg(short, long)]
    flag: bool,
    a: Option<OsString>,
    b: Option<OsString>,
    #[command(subcommand)]
    sub: Option<Sub>,
}
fn word(max: usize) -> OsString {
    let v = bytes(len(0, max));
    assume(plain(&v));
    os(v)
}
fn words(n: usize, max: usize) -> Vec<OsString> {
    (0..n).map(|_| word(max)).collect()
}
fn o(x: &Option<OsString>) -> Option<&[u8]> {
    x.as_ref().map(|x| raw(x))
}
fn g(t: &[OsString], i: usize) -> Option<&[u8]> {
    t.get(i).map(|x| raw(x))
}
fn list_is(got: &[OsString], want: &[OsString]) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(a, b)| raw(a) == raw(b))
}
/// Put options between the words at any place.
fn mix(t: &[OsString], opts: bool) -> (Vec<OsString>, bool) {
    let mut l = t.to_vec();
    let mut f = false;
    if opts {
        if flip() {
            f = true;
            let i = choice(l.len() + 1);
            l.insert(i, s("--flag"));
        }
    }
    (l, f)
}

fn listed(n: usize, max: usize) {
    let t = words(n, max);
    let (mut l, f) = mix(&t, true);
    let op = flip();
    if op {
        // an option with its value in front of the last word
        let i = l.len().saturating_sub(1);
        l.insert(i, s("ov"));
        l.insert(i, s("-o"));
    }
    let r = parse::<Listed>(l);
    emit_end(&r);
    match r {
        Ok(c) => {
            reach!();
            check!(n >= 1, "the required positional was given");
            check!(raw(&c.a) == raw(&t[0]) && o(&c.b) == g(&t, 1) && o(&c.c) == g(&t, 2), "single positionals take the words in order");
            check!(list_is(&c.rest, t.get(3..).unwrap_or(&[])), "the list takes all the rest in order");
            check!(c.flag == f && o(&c.opt) == op.then_some(&b"ov"[..]), "options do not take them");
        }
        Err(e) => check!(n == 0 && class(&e) == Class::Required, "only a missing required positional fails"),
    }
}

scenarios! {
    [quick, "0..=5 words of 0..=1 arbitrary bytes, a flag anywhere, an option before the last"]
    fn p07_listed() {
        let n = len(0, 5);
        listed(n, 1);
    }
    [quick, "1..=5 words of 0..=1 arbitrary bytes, '--' before any of them, a flag before that or none"]
    fn p07_listed_after() {
        let n = len(1, 5);
        let d = choice(n + 1);
        let t: Vec<OsString> = (0..n).map(|i| if i < d { word(1) } else { os(bytes(len(0, 1))) }).collect();
        let f = flip();
        let mut l = t.clone();
        l.insert(d, s("--"));
        if f { l.insert(choice(d + 1), s("-f")) }
        let r = parse::<Listed>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(raw(&c.a) == raw(&t[0]) && o(&c.b) == g(&t, 1) && o(&c.c) == g(&t, 2), "single positionals take the words in order");
                check!(list_is(&c.rest, t.get(3..).unwrap_or(&[])) && c.flag == f && c.opt.is_none(), "the list takes all the rest in order");
            }
            Err(_) => check!(false, "all words are taken"),
        }
    }
    [quick, "in a subcommand: 1..=4 words of 0..=1 arbitrary bytes, '--' before any of them"]
    fn p07_sub_after() {
        let n = len(1, 4);
        let d = choice(n + 1);
        let t: Vec<OsString> = (0..n).map(|i| if i < d { word(1) } else { os(bytes(len(0, 1))) }).collect();
        let mut l = t.clone();
        l.insert(d, s("--"));
        l.insert(0, s("sub"));
        let r = parse::<OnlyList>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                let Some(Sub::Sub { p, q, r }) = &c.sub else { check!(false, "the subcommand is entered"); return };
                check!(raw(p) == raw(&t[0]) && o(q) == g(&t, 1) && list_is(r, t.get(2..).unwrap_or(&[])), "inner words fill the inner fields in order");
                check!(c.rest.is_none(), "outer fields stay empty");
            }
            Err(_) => check!(false, "all words are taken"),
        }
    }
    [quick, "0..=2 words of 0..=4 arbitrary bytes"]
    fn p07_listed_long() {
        let n = len(0, 2);
        listed(n, 4);
    }
    [quick, "12 words of 1 arbitrary byte each into three fields and a list"]
    fn p07_many() {
        let t: Vec<OsString> = (0..12).map(|_| { let b = byte(); assume(b != b'-'); os(vec![b]) }).collect();
        let r = parse::<Listed>(t.clone());
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(raw(&c.a) == raw(&t[0]) && o(&c.b) == g(&t, 1) && o(&c.c) == g(&t, 2) && list_is(&c.rest, &t[3..]), "all 12 words arrive in order") }
            Err(_) => check!(false, "a list takes any number of words"),
        }
    }
    [quick, "14 numbers of words of up to 1030, one of them of 0..=2 arbitrary bytes: all are taken in order"]
    fn p07_long_list() {
        let n = pick(&SIZES);
        let at = pick(&[0, 1, 2, 3, n / 2, n - 1]);
        let v = word(2);
        let t: Vec<OsString> = (0..n).map(|i| if i == at { v.clone() } else { os(vec![b'w', i as u8, (i >> 8) as u8]) }).collect();
        let r = parse::<Listed>(t.clone());
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(raw(&c.a) == raw(&t[0]) && o(&c.b) == g(&t, 1) && o(&c.c) == g(&t, 2) && list_is(&c.rest, &t[3..]), "all words arrive in order") }
            Err(_) => check!(false, "a list takes any number of words"),
        }
    }
    [quick, "253 single fields and a list: 17 numbers of words, one of them of 0..=1 arbitrary bytes"]
    fn p07_fields() {
        let n = pick(&[1usize, 2, 3, 15, 16, 17, 63, 64, 65, 127, 128, 129, 252, 253, 254, 255, 256]);
        let at = pick(&[0, n / 2, n - 1]);
        let v = word(1);
        let t: Vec<OsString> = (0..n).map(|i| if i == at { v.clone() } else { os(vec![b'w', i as u8]) }).collect();
        let r = parse::<def::Words>(t.clone());
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(c.all().iter().enumerate().all(|(i, x)| x.map(|x| raw(x)) == g(&t, i)), "fields take the words in declaration order");
                check!(list_is(&c.rest, t.get(253..).unwrap_or(&[])), "the list takes all the rest in order");
            }
            Err(_) => check!(false, "as many words as fields are accepted"),
        }
    }
    [quick, "two single fields before a subcommand: 0..=4 words of 0..=1 arbitrary bytes, '--' before one of them or not: none is dropped"]
    fn p07_excess() {
        let n = len(0, 4);
        let t = words(n, 1);
        let d = choice(n + 2);
        let mut l = t.clone();
        if d <= n { l.insert(d, s("--")) }
        let r = parse::<Before>(l);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(n <= 2 && o(&c.a) == g(&t, 0) && o(&c.b) == g(&t, 1) && c.sub.is_none() && !c.flag, "fields take the words in order, no word is dropped") }
            Err(e) => { reach!(); check!(n > 2 && matches!(class(&e), Class::UnknownSub | Class::Unexpected), "too many are unexpected") }
        }
    }
    [quick, "5 single fields, 0..=6 words of 0..=1 arbitrary bytes, a flag anywhere: the sixth is rejected"]
    fn p07_fixed() {
        let n = len(0, 6);
        let t = words(n, 1);
        let (l, f) = mix(&t, true);
        let r = parse::<Fixed>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!((2..=5).contains(&n), "enough words and not too many");
                check!(o(&c.x) == g(&t, 0) && Some(raw(&c.y)) == g(&t, 1) && o(&c.w) == g(&t, 3) && o(&c.v) == g(&t, 4), "fields take the words in declaration order");
                check!(raw(&c.z) == g(&t, 2).unwrap_or(b"dz") && c.flag == f, "the defaulted one as well");
            }
            Err(e) => {
                let k = class(&e);
                reach!();
                check!((n < 2 && k == Class::Required) || (n == 6 && k == Class::Unexpected), "too few are missing, too many unexpected");
            }
        }
    }
    [quick, "an optional list alone, 0..=3 words of 0..=2 arbitrary bytes"]
    fn p07_only_list() {
        let n = len(0, 3);
        let t = words(n, 2);
        for x in &t { assume(raw(x) != b"sub") }
        let r = parse::<OnlyList>(t.clone());
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(c.rest.is_some() == (n > 0), "an optional list is absent without words");
                check!(list_is(c.rest.as_deref().unwrap_or(&[]), &t), "the list holds the words in order");
            }
            Err(_) => check!(false, "a list takes any words"),
        }
    }
    [quick, "inside a subcommand after outer words: 0..=2 outer and 0..=4 inner words of 0..=1 arbitrary bytes"]
    fn p07_sub() {
        let (m, n) = (choice(3), choice(5));
        let out = words(m, 1);
        let t = words(n, 1);
        let mut l = out.clone();
        l.push(s("sub"));
        l.extend(t.clone());
        let r = parse::<OnlyList>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                let Some(Sub::Sub { p, q, r }) = &c.sub else { check!(false, "the subcommand is entered"); return };
                check!(n >= 1 && raw(p) == raw(&t[0]) && o(q) == g(&t, 1) && list_is(r, t.get(2..).unwrap_or(&[])), "inner words fill the inner fields in order");
                check!(list_is(c.rest.as_deref().unwrap_or(&[]), &out), "outer words stay in the outer list");
            }
            Err(e) => check!(n == 0 && class(&e) == Class::Required, "only the missing inner positional fails"),
        }
    }
    [quick, "typed positionals: digit, character, text of 1 byte each"]
    fn p07_typed() {
        let v = [byte(), byte(), byte()];
        assume(v[0].is_ascii_digit() && v[1].is_ascii() && v[1] != b'-' && v[2].is_ascii() && v[2] != b'-');
        let n = len(1, 3);
        let r = parse::<Typed>(v[..n].iter().map(|b| os(vec![*b])).collect());
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(c.n == v[0] - b'0' && c.c == (n > 1).then_some(v[1] as char), "typed positionals take the words in order");
                check!(c.t.as_ref().map(|t| t.as_bytes()) == (n > 2).then_some(&v[2..]), "typed positionals take the words in order");
            }
            Err(_) => check!(false, "valid typed words are accepted"),
        }
    }
    [deep, "0..=4 words of 0..=3 arbitrary bytes"]
    fn p07_deep() {
        let n = len(0, 4);
        listed(n, 3);
    }
    [quick, "every command of 127 definitions: 0..=4 positional words of 0..=1 arbitrary bytes, against the grammar"]
    fn p07_matrix() {
        let a = mx::at(0..mx::TABLES.len());
        let w: Vec<OsString> = (0..len(0, 4)).map(|_| { let t = tok(0, 1); assume(plain(raw(&t))); t }).collect();
        let l = a.line_with(w, &[], false);
        match a.agree(l) {
            1 => reach!(),
            2 => reach!(),
            _ => {}
        }
    }
}
