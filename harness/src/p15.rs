//! An argument is accepted only with everything it requires.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand};
use std::ffi::OsString;

#[derive(Parser, PartialEq)]
struct Cli {
    #[arg(short, long, requires = "beta")]
    alpha: Option<OsString>,
    #[arg(short, long, requires = "dflt")]
    beta: Option<OsString>,
    #[arg(short, long, requires = "pos", requires = "list")]
    gamma: bool,
    #[arg(short, long, default_value = "dd")]
    dflt: OsString,
    #[arg(short, long)]
    list: Vec<OsString>,
    #[arg(short, long, require_equals = true, requires = "flag")]
    oopt: Option<Option<OsString>>,
    #[arg(short, long)]
    flag: bool,
    #[arg(short, long, default_value = "ee", requires = "oopt")]
    eps: OsString,
    #[arg(requires = "flag")]
    pos: Option<OsString>,
}
const NEED: [&[usize]; 9] = [&[1], &[3], &[8, 4], &[], &[], &[6], &[], &[5], &[6]];
fn word(i: usize, v: &[u8]) -> OsString {
    match i {
        0 => cat(&[b"--alpha=", v]),
        1 => cat(&[b"-b=", v]),
        2 => s("--gamma"),
        3 => cat(&[b"--dflt=", v]),
        4 => cat(&[b"--list=", v]),
        5 => if v.is_empty() { s("-o") } else { cat(&[b"--oopt=", v]) },
        6 => s("-f"),
        7 => cat(&[b"--eps=", v]),
        _ => { assume(plain(v)); os(v.to_vec()) }
    }
}
fn bad(on: &[bool; 9]) -> bool {
    (0..9).any(|i| on[i] && NEED[i].iter().any(|j| !on[*j]))
}
#[derive(Parser, PartialEq)]
struct Outer {
    #[command(flatten)]
    flat: Flat,
    #[arg(short, long)]
    plain: Option<OsString>,
    #[arg(short, long, global = true, requires = "plain")]
    glob: Option<OsString>,
    #[arg(short = 'G', long, global = true)]
    gflag: bool,
    #[arg(short, long, requires = "gflag")]
    needs_g: bool,
    #[command(subcommand)]
    sub: Option<Sub>,
}
#[derive(Args, PartialEq)]
struct Flat {
    #[arg(short, long)]
    first: Option<OsString>,
    #[arg(short, long, requires = "first", requires = "third")]
    second: Option<OsString>,
    #[arg(short, long)]
    third: bool,
}
#[derive(Subcommand, PartialEq)]
enum Sub {
    Sub {
        #[arg(short, long, requires = "ypos")]
        xopt: Option<OsString>,
        ypos: Vec<OsString>,
    },
}

scenarios! {
    [quick, "a flag that requires 20 others: with all or all but one; a flag in conflict with 20: with one of them or none; first or last, values of 1 arbitrary byte"]
    fn p15_multi() {
        let (l, want, text) = crate::tied::multi();
        let r = parse::<crate::tied::Multi>(l);
        emit_end(&r);
        match r {
            Ok(_) => { reach!(); check!(want.is_none(), "what requires 20 is accepted only with all of them") }
            Err(e) => { reach!(); check!(want == Some(class(&e)) && e.to_string() == text, "otherwise it is accepted") }
        }
    }
    [quick, "each of 180 options of a definition with 183 arguments, 134 of them with a constraint on another; it, its partner and the required one given or not, in both orders, value of one arbitrary byte"]
    fn p15_tied() {
        let (l, bad) = crate::tied::tied();
        let r = parse::<crate::tied::Tied>(l);
        emit_end(&r);
        match r {
            Ok(_) => { reach!(); check!(!bad.iter().any(|b| b.0 == Class::Requires), "what it requires is there") }
            Err(e) => {
                reach!();
                let c = class(&e);
                let m = e.to_string();
                check!(!(c == Class::Requires) || bad.iter().any(|b| b.0 == c && b.1 == m), "only what is violated is told, and of which argument");
                check!(!bad.is_empty(), "otherwise accepted");
            }
        }
    }
    [quick, "every subset of 9 arguments, one value of 0..=1 arbitrary bytes: accepted exactly if all that is required is there"]
    fn p15_subsets() {
        let who = choice(9);
        let mut on = [false; 9];
        let mut l = vec![];
        for i in 0..9 {
            on[i] = flip();
            if on[i] {
                l.push(word(i, &if i == who { bytes(len(0, 1)) } else { b"v".to_vec() }));
            } else { assume(i != who || who == 0) }
        }
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(!bad(&on), "an argument is accepted only with all it requires");
                check!(c.alpha.is_some() == on[0] && c.beta.is_some() == on[1] && c.gamma == on[2] && c.list.len() == on[4] as usize
                    && c.oopt.is_some() == on[5] && c.flag == on[6] && c.pos.is_some() == on[8], "exactly the given ones are held");
            }
            Err(e) => { reach!(); check!(bad(&on) && class(&e) == Class::Requires, "a requirement has no effect otherwise") }
        }
    }
    [quick, "a default does not satisfy a requirement, a given value equal to it does: beta with dflt of 0..=2 arbitrary bytes or 'dd', in either order"]
    fn p15_default() {
        let v = bytes(len(0, 1));
        let d = if flip() { bytes(len(0, 2)) } else { b"dd".to_vec() };
        let given = flip();
        let mut l = vec![cat(&[b"--beta=", &v])];
        if given { let at = choice(2); l.insert(at, cat(&[b"-d=", &d])) }
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(given && raw(&c.dflt) == &d[..], "a default does not satisfy it") }
            Err(e) => { reach!(); check!(!given && class(&e) == Class::Requires, "a given value does") }
        }
    }
    [quick, "flattened group and global options: every subset, the global ones before or inside the subcommand"]
    fn p15_flat() {
        let on = [flip(), flip(), flip(), flip(), flip(), flip(), flip()];
        let v = bytes(len(0, 1));
        let mut l = vec![];
        if on[0] { l.push(cat(&[b"--first=", &v])) }
        if on[1] { l.push(cat(&[b"-s=", &v])) }
        if on[2] { l.push(s("-t")) }
        if on[3] { l.push(cat(&[b"--plain=", &v])) }
        if on[6] { l.push(s("--needs-g")) }
        if flip() { l.push(s("sub")) }
        if on[4] { l.push(cat(&[b"--glob=", &v])) }
        if on[5] { l.push(s("-G")) }
        let bad = (on[1] && !(on[0] && on[2])) || (on[4] && !on[3]) || (on[6] && !on[5]);
        let r = parse::<Outer>(l);
        emit_end(&r);
        match r {
            Ok(_) => { reach!(); check!(!bad, "an argument is accepted only with all it requires") }
            Err(e) => { reach!(); check!(bad && class(&e) == Class::Requires, "a requirement has no effect otherwise") }
        }
    }
    [quick, "inside a subcommand: an option that requires a positional list of 0..=2 words of 0..=1 arbitrary bytes"]
    fn p15_sub() {
        let x = flip();
        let n = choice(3);
        let mut l = vec![s("-p1"), s("sub")];
        for _ in 0..n { let t = tok(0, 1); assume(plain(raw(&t))); l.push(t) }
        if x { let at = 2 + choice(n + 1); l.insert(at, cat(&[b"-x=", &bytes(len(0, 1))])) }
        let bad = x && n == 0;
        let r = parse::<Outer>(l);
        emit_end(&r);
        match r {
            Ok(_) => { reach!(); check!(!bad, "an argument is accepted only with all it requires") }
            Err(e) => { reach!(); check!(bad && class(&e) == Class::Requires, "a requirement has no effect otherwise") }
        }
    }
    [deep, "every subset, all values of 0..=1 arbitrary bytes"]
    fn p15_deep() {
        let mut on = [false; 9];
        let mut l = vec![];
        for i in 0..9 {
            on[i] = flip();
            if on[i] { l.push(word(i, &bytes(len(0, 1)))) }
        }
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(_) => check!(!bad(&on), "an argument is accepted only with all it requires"),
            Err(e) => check!(bad(&on) && class(&e) == Class::Requires, "a requirement has no effect otherwise"),
        }
    }
    [quick, "every command of 127 definitions with all combinations of constraints: every subset of its arguments, each in one of two forms"]
    fn p15_matrix() {
        let a = mx::at(mx::RULED);
        let l = mx::subset(&a, false);
        let (got, want, same) = mx::verdict(&a, l);
        match (got, &want) {
            (None, Outcome::Good(_)) => reach!(),
            (None, Outcome::Broken(b)) => check!(!b.contains(&Class::Requires), "an argument is accepted only with all it requires"),
            (Some(Class::Requires), Outcome::Broken(b)) => { reach!(); check!(b.contains(&Class::Requires), "only a violated constraint is told") }
            (Some(Class::Requires), Outcome::Good(_)) => check!(false, "a line is not rejected on that account"),
            _ => {}
        }
    }
}
