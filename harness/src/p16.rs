//! An exclusive argument is accepted only alone.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand};
use std::ffi::OsString;

#[derive(Parser, PartialEq)]
struct Cli {
    #[arg(short, long, exclusive = true)]
    solo: bool,
    #[arg(short, long, exclusive = true)]
    alone: Option<OsString>,
    #[arg(short, long)]
    beta: Option<OsString>,
    #[arg(short, long, default_value = "dd")]
    dflt: OsString,
    #[arg(short, long)]
    list: Vec<OsString>,
    #[arg(short, long, exclusive = true)]
    xlist: Option<Vec<OsString>>,
    #[arg(short, long)]
    flag: bool,
    #[arg(short, long, require_equals = true)]
    oopt: Option<Option<OsString>>,
    #[arg(short, long, global = true)]
    glob: Option<OsString>,
    pos: Option<OsString>,
    rest: Vec<OsString>,
    #[command(subcommand)]
    sub: Option<Sub>,
}
#[derive(Subcommand, PartialEq)]
enum Sub {
    Sub,
    Other {
        #[arg(short, long, exclusive = true)]
        one: bool,
        #[arg(short, long)]
        two: Option<OsString>,
    },
}
/// A positional that is exclusive.
#[derive(Parser, PartialEq)]
struct Pos {
    #[arg(exclusive = true)]
    word: Option<OsString>,
    #[arg(short, long)]
    flag: bool,
    #[arg(short, long, default_value = "dd")]
    dflt: OsString,
}
/// An exclusive option in a flattened group.
#[derive(Parser, PartialEq)]
struct Outer {
    #[arg(short, long)]
    out: Option<OsString>,
    #[command(flatten)]
    grp: Group,
}
#[derive(Args, PartialEq)]
struct Group {
    #[arg(short, long, exclusive = true)]
    solo: bool,
    #[arg(short, long)]
    mate: Option<OsString>,
}
/// An exclusive option beside defaults of all kinds and lists of words.
#[derive(Parser, PartialEq)]
struct Defaults {
    #[arg(short, long, exclusive = true)]
    solo: Option<OsString>,
    #[arg(short, long, default_value_t = 3)]
    num: u8,
    #[arg(short, long, default_value_t = true)]
    flag: bool,
    #[arg(short, long, default_value = "dd")]
    opt: Option<OsString>,
    #[arg(short, long, default_value = "a,b", value_delimiter = ',')]
    list: Vec<OsString>,
    #[arg(short, long, default_value = "qq", require_equals = true)]
    quest: Option<Option<OsString>>,
    #[arg(short, long, default_value_t = 'x', global = true)]
    glob: char,
    #[arg(default_value = "pp")]
    pos: OsString,
    rest: Option<Vec<OsString>>,
    #[arg(last = true)]
    last: Option<Vec<OsString>>,
}
const N: usize = 12;
const EXCL: [usize; 3] = [0, 1, 5];
fn word(i: usize, v: &[u8]) -> OsString {
    match i {
        0 => s("-s"),
        1 => cat(&[b"--alone=", v]),
        2 => cat(&[b"-b=", v]),
        3 => cat(&[b"--dflt=", v]),
        4 => cat(&[b"--list=", v]),
        5 => cat(&[b"-x=", v]),
        6 => s("--flag"),
        7 => if v.is_empty() { s("-o") } else { cat(&[b"--oopt=", v]) },
        8 => cat(&[b"--glob=", v]),
        9 => { assume(plain(v)); os(v.to_vec()) }
        10 => s("sub"),
        _ => s("other"),
    }
}
fn bad(on: &[bool; N]) -> bool {
    EXCL.iter().any(|i| on[*i]) && on.iter().filter(|x| **x).count() > 1
}

scenarios! {
    [quick, "12 exclusive flags among 250, alone or with 1 of all the others, 8, 128 or all, with another exclusive one, and with a subcommand"]
    fn p16_many() {
        let (l, bad) = crate::tied::alone();
        let r = parse::<crate::tied::Alone>(l.clone());
        emit_end(&r);
        match r {
            Ok(a) => { reach!(); check!(!bad && crate::tied::held(&a, &l), "an exclusive argument is accepted only alone") }
            Err(e) => { reach!(); check!(bad && class(&e) == Class::Exclusive, "alone it is accepted") }
        }
    }
    [quick, "every subset of 11 arguments and a subcommand, one value of 0..=1 arbitrary bytes"]
    fn p16_subsets() {
        let who = choice(10);
        let mut on = [false; N];
        let mut l = vec![];
        for i in 0..N {
            if i == 11 && on[10] { continue }
            on[i] = flip();
            if on[i] {
                l.push(word(i, &if i == who { bytes(len(0, 1)) } else { b"v".to_vec() }));
            } else { assume(i != who || who == 0) }
        }
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(!bad(&on), "an exclusive argument is accepted only alone");
                check!(c.solo == on[0] && c.alone.is_some() == on[1] && c.xlist.is_some() == on[5] && c.sub.is_some() == (on[10] || on[11]), "exactly the given ones are held");
            }
            Err(e) => { reach!(); check!(bad(&on) && class(&e) == Class::Exclusive, "alone, or without it, nothing is rejected") }
        }
    }
    [quick, "each exclusive argument with each other one, in both orders, values of 0..=2 arbitrary bytes (also equal to the default)"]
    fn p16_pairs() {
        let i = pick(&EXCL);
        let j = choice(N);
        assume(i != j);
        let v = bytes(len(0, 2));
        let w = if flip() { bytes(len(0, 1)) } else { b"dd".to_vec() };
        let (a, b) = (word(i, &v), word(j, &w));
        // inside a subcommand the outer exclusive argument is unknown
        let after = j < 10 && flip();
        let r = parse::<Cli>(if after { vec![b, a] } else { vec![a, b] });
        emit_end(&r);
        reach!();
        check!(is_class(&r, Class::Exclusive), "an exclusive argument is accepted only alone");
    }
    [quick, "alone: each exclusive argument, values of 0..=2 arbitrary bytes; an exclusive list may repeat"]
    fn p16_alone() {
        let i = pick(&EXCL);
        let mut l = vec![word(i, &bytes(len(0, 2)))];
        if i == 5 && flip() { l.push(word(5, &bytes(1))) }
        let n = l.len();
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(raw(&c.dflt) == b"dd" && c.xlist.as_ref().map_or(0, |x| x.len()) == if i == 5 { n } else { 0 }, "others have their defaults") }
            Err(_) => check!(false, "alone it is accepted"),
        }
    }
    [quick, "with further words after it: 1..=2 words of 0..=1 arbitrary bytes, or after '--'"]
    fn p16_words() {
        let i = pick(&EXCL);
        let mut l = vec![word(i, b"1")];
        if flip() { l.push(s("--")) }
        let d = l.len() == 2;
        let n = choice(3);
        for _ in 0..n { let t = tok(0, 1); assume(d || plain(raw(&t))); l.push(t) }
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(_) => { reach!(); check!(n == 0, "an exclusive argument is accepted only alone") }
            Err(e) => { reach!(); check!(n > 0 && class(&e) == Class::Exclusive, "alone it is accepted") }
        }
    }
    [quick, "inside a subcommand: its own exclusive flag counts only that command's arguments"]
    fn p16_sub() {
        let on = [flip(), flip(), flip(), flip()];
        let v = bytes(len(0, 1));
        let mut l = vec![];
        if on[0] { l.push(cat(&[b"-b=", &v])) }
        l.push(s("other"));
        if on[1] { l.push(s("-o")) }
        if on[2] { l.push(cat(&[b"-t=", &v])) }
        if on[3] { l.push(cat(&[b"--glob=", &v])) }
        let bad = on[1] && on[2];
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(_) => { reach!(); check!(!bad, "an exclusive argument is accepted only alone") }
            Err(e) => { reach!(); check!(bad && class(&e) == Class::Exclusive, "arguments of other commands do not count") }
        }
    }
    [quick, "an exclusive option with any of 9 others, 7 of them with defaults of all kinds, given the default or a value of 0..=1 arbitrary bytes; words before and after '--'"]
    fn p16_defaults() {
        let v = bytes(len(0, 1));
        assume(plain(&v));
        let own = flip();
        let val = |d: &str| if own { d.as_bytes().to_vec() } else { v.clone() };
        let mut l = vec![];
        let mut n = 0;
        let solo = flip();
        if solo { l.push(cat(&[b"-s=", &v])); n += 1 }
        if flip() { l.push(s("--num=3")); n += 1 }
        if flip() { l.push(s("-f")); n += 1 }
        if flip() { l.push(cat(&[b"--opt=", &val("dd")])); n += 1 }
        if flip() { l.push(cat(&[b"-l=", &val("a,b")])); n += 1 }
        if flip() { l.push(if own { s("-q") } else { cat(&[b"--quest=", &v]) }); n += 1 }
        if flip() { l.push(s("-g=x")); n += 1 }
        let k = choice(3);
        if k > 0 { l.push(os(val("pp"))); n += k }
        if k > 1 { l.push(os(v.clone())) }
        if flip() {
            l.push(s("--"));
            if flip() { l.push(os(v.clone())); n += 1 }
        }
        let bad = solo && n > 1;
        let r = parse::<Defaults>(l);
        emit_end(&r);
        match r {
            Ok(_) => { reach!(); check!(!bad, "an exclusive argument is accepted only alone") }
            Err(e) => { reach!(); check!(bad && class(&e) == Class::Exclusive, "alone, or without it, nothing is rejected") }
        }
    }
    [quick, "an exclusive positional of 0..=2 arbitrary bytes with a flag and a defaulted option"]
    fn p16_positional() {
        let t = tok(0, 2);
        assume(plain(raw(&t)));
        let on = [flip(), flip(), flip()];
        let mut l = vec![];
        if on[0] { l.push(s("-f")) }
        if on[1] { l.push(t) }
        if on[2] { l.push(s("-d=dd")) }
        let bad = on[1] && (on[0] || on[2]);
        let r = parse::<Pos>(l);
        emit_end(&r);
        match r {
            Ok(_) => { reach!(); check!(!bad, "an exclusive argument is accepted only alone") }
            Err(e) => { reach!(); check!(bad && class(&e) == Class::Exclusive, "alone, or without it, nothing is rejected") }
        }
    }
    [quick, "in a flattened group: every subset of its arguments and, without the exclusive one, of the outer ones; a value of 0..=1 arbitrary bytes"]
    fn p16_group() {
        let v = bytes(len(0, 1));
        let on = [flip(), flip(), flip()];
        assume(!(on[0] && on[2] && !on[1]));
        let mut l = vec![];
        if on[2] { l.push(cat(&[b"-o=", &v])) }
        if on[0] { l.push(s("--solo")) }
        if on[1] { l.push(cat(&[b"-m=", &v])) }
        let bad = on[0] && on[1];
        let r = parse::<Outer>(l);
        emit_end(&r);
        match r {
            Ok(_) => { reach!(); check!(!bad, "an exclusive argument is accepted only alone") }
            Err(e) => { reach!(); check!(bad && class(&e) == Class::Exclusive, "alone, or without it, nothing is rejected") }
        }
    }
    [quick, "an exclusive flag of a flattened group with an option outside of it (one line)"]
    fn p16_group_outer() {
        let r = parse::<Outer>(vec![s("--solo"), s("--out=1")]);
        emit_end(&r);
        check!(r.is_err(), "an exclusive argument of a group is accepted only alone");
    }
    [deep, "every subset, two values of 0..=2 arbitrary bytes"]
    fn p16_deep() {
        let (a, b) = (choice(10), choice(10));
        assume(a < b);
        let mut on = [false; N];
        let mut l = vec![];
        for i in 0..N {
            if i == 11 && on[10] { continue }
            on[i] = flip();
            if on[i] {
                l.push(word(i, &if i == a || i == b { bytes(len(0, 2)) } else { b"v".to_vec() }));
            }
        }
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(_) => check!(!bad(&on), "an exclusive argument is accepted only alone"),
            Err(e) => check!(bad(&on) && class(&e) == Class::Exclusive, "alone, or without it, nothing is rejected"),
        }
    }
    [quick, "every command of 127 definitions with all combinations of constraints: every subset of its arguments, each in one of two forms"]
    fn p16_matrix() {
        let a = mx::at(mx::RULED);
        let l = mx::subset(&a, false);
        let (got, want, same) = mx::verdict(&a, l);
        match (got, &want) {
            (None, Outcome::Good(_)) => reach!(),
            (None, Outcome::Broken(b)) => check!(!b.contains(&Class::Exclusive), "an exclusive argument is accepted only alone"),
            (Some(Class::Exclusive), Outcome::Broken(b)) => { reach!(); check!(b.contains(&Class::Exclusive), "only a violated constraint is told") }
            (Some(Class::Exclusive), Outcome::Good(_)) => check!(false, "a line is not rejected on that account"),
            _ => {}
        }
    }
}
