//! Parsing succeeds only if everything required was given.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand};
use std::ffi::OsString;

#[derive(Parser, PartialEq)]
struct Cli {
    #[arg(short, long)]
    need: OsString,
    #[arg(short, long, required = true)]
    opt: Option<OsString>,
    #[arg(short, long)]
    free: Option<OsString>,
    #[arg(short, long, required = true)]
    list: Vec<OsString>,
    #[arg(short, long, default_value = "dd")]
    dflt: OsString,
    #[arg(short = 'x', long)]
    xnum: u8,
    #[command(flatten)]
    flat: Flat,
    #[arg(short, long, global = true)]
    glob: OsString,
    first: OsString,
    second: Option<OsString>,
}
#[derive(Args, PartialEq)]
struct Flat {
    #[arg(short, long)]
    inner: OsString,
    #[arg(short = 'j', long)]
    jnner: Option<OsString>,
    #[command(flatten)]
    deep: DeepArgs,
}
#[derive(Args, PartialEq)]
struct DeepArgs {
    #[arg(short = 'k', long, required = true)]
    klist: Option<Vec<OsString>>,
    #[arg(short = 'b', long)]
    bool_: bool,
}
/// The required ones, then the others.
const REQ: [(&[&str], bool); 8] = [
    (&["--need", "-n"], true), (&["--opt", "-o"], true), (&["--list", "-l"], true), (&["--xnum", "-x"], true),
    (&["--inner", "-i"], true), (&["--glob", "-g"], true), (&["--klist", "-k"], true), (&["first"], true),
];
fn given(name: &[&str], v: &[u8]) -> OsString {
    if name[0] == "first" { os(v.to_vec()) } else { cat(&[pick(name).as_bytes(), b"=", v]) }
}

#[derive(Parser, PartialEq)]
struct Tree {
    #[arg(short, long)]
    outer: OsString,
    #[arg(short, long, global = true)]
    glob: OsString,
    #[command(subcommand)]
    sub: Sub,
}
#[derive(Subcommand, PartialEq)]
enum Sub {
    Unit,
    Leaf {
        #[arg(short, long)]
        key: OsString,
        #[arg(required = true)]
        rest: Vec<OsString>,
    },
    Node(Node),
    Opt {
        #[command(subcommand)]
        leaf: Option<Deeper>,
    },
}
#[derive(Args, PartialEq)]
struct Node {
    #[arg(short, long)]
    mid: OsString,
    #[command(subcommand)]
    deeper: Deeper,
}
#[derive(Subcommand, PartialEq)]
enum Deeper {
    One {
        #[arg(short, long)]
        zed: OsString,
    },
    Two,
}
/// A required value may be empty, or look like nothing given.
#[derive(Parser, PartialEq)]
struct Pos {
    a: OsString,
    b: OsString,
    #[arg(required = true)]
    c: Option<OsString>,
    #[arg(default_value = "")]
    d: OsString,
    #[arg(last = true, required = true)]
    e: Vec<OsString>,
}

scenarios! {
    [quick, "each of 180 options of a definition with 183 arguments, 134 of them with a constraint on another; it, its partner and the required one given or not, in both orders, value of one arbitrary byte"]
    fn p13_tied() {
        let (l, bad) = crate::tied::tied();
        let r = parse::<crate::tied::Tied>(l);
        emit_end(&r);
        match r {
            Ok(_) => { reach!(); check!(!bad.iter().any(|b| b.0 == Class::Required), "a required argument is there") }
            Err(e) => {
                reach!();
                let c = class(&e);
                let m = e.to_string();
                check!(!(c == Class::Required) || bad.iter().any(|b| b.0 == c && b.1 == m), "only what is violated is told, and of which argument");
                check!(!bad.is_empty(), "otherwise accepted");
            }
        }
    }
    [quick, "every subset of 8 required arguments (named, typed, lists, flattened twice, global, positional), values of 0..=1 arbitrary bytes for one of them"]
    fn p13_subsets() {
        let who = choice(9);
        let mut l = vec![];
        let mut all = true;
        let mut want: Vec<Vec<u8>> = vec![];
        for (i, (name, _)) in REQ.iter().enumerate() {
            let v: Vec<u8> = if i == 3 { b"7".to_vec() } else if i == who { bytes(len(0, 1)) } else { b"v".to_vec() };
            if flip() {
                if i == 7 { assume(plain(&v)) }
                l.push(if i == who { given(name, &v) } else if i == 7 { os(v.clone()) } else { cat(&[name[0].as_bytes(), b"=", &v]) });
            } else {
                all = false;
                assume(i != who);
            }
            want.push(v);
        }
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(all, "nothing required is missing");
                check!(raw(&c.need) == &want[0][..] && c.opt.as_ref().map(|x| raw(x)) == Some(&want[1][..]) && c.list.len() == 1 && c.xnum == 7
                    && raw(&c.flat.inner) == &want[4][..] && raw(&c.glob) == &want[5][..] && raw(&c.first) == &want[7][..], "what was given is held");
            }
            Err(e) => { reach!(); check!(!all && class(&e) == Class::Required, "a complete line is accepted, an incomplete one is rejected as such") }
        }
    }
    [quick, "all but one of 8 required arguments, with every optional one given too, values of 0..=2 arbitrary bytes"]
    fn p13_optional_do_not_help() {
        let miss = choice(9);
        let v = bytes(len(0, 2));
        let mut l = vec![cat(&[b"--free=", &v]), s("-b"), cat(&[b"--jnner=", &v]), cat(&[b"-d=", &v])];
        for (i, (name, _)) in REQ.iter().enumerate() {
            if i != miss {
                l.push(if i == 7 { s("p") } else { cat(&[name[0].as_bytes(), b"=", if i == 3 { b"1" } else { b"v" }]) });
            }
        }
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(_) => { reach!(); check!(miss == 8, "nothing required is missing") }
            Err(e) => { reach!(); check!(miss < 8 && class(&e) == Class::Required, "an incomplete line is rejected as such") }
        }
    }
    [quick, "positionals: 0..=5 words of 0..=1 arbitrary bytes, and 0..=2 words after '--'"]
    fn p13_positionals() {
        let n = choice(5);
        let m = choice(4);
        let mut l = vec![];
        for _ in 0..n { let t = tok(0, 1); assume(plain(raw(&t))); l.push(t); }
        if m > 0 {
            l.push(s("--"));
            for _ in 1..m { l.push(tok(0, 1)); }
        }
        let r = parse::<Pos>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(n >= 3 && m >= 2, "nothing required is missing");
                check!(c.e.len() == m - 1 && c.c.is_some(), "what was given is held");
            }
            Err(e) => { reach!(); check!((n < 3 || m < 2) && class(&e) == Class::Required, "an incomplete line is rejected as such") }
        }
    }
    [quick, "a tree of subcommands: every choice of subcommands and of required arguments at each level, values of 0..=1 arbitrary bytes"]
    fn p13_tree() {
        let mut l = vec![];
        let (o, g) = (flip(), flip());
        let v = bytes(len(0, 1));
        if o { l.push(cat(&[b"--outer=", &v])) }
        if g && flip() { l.push(cat(&[b"-g=", &v])) }
        let gdone = l.len() == o as usize + 1;
        // (complete below, subcommand missing somewhere)
        let (mut ok, mut sub_missing, mut level) = (true, false, 0);
        match choice(5) {
            0 => sub_missing = true,
            1 => { l.push(s("unit")); level = 1; }
            2 => {
                l.push(s("leaf"));
                level = 1;
                let (k, p) = (flip(), flip());
                if k { l.push(cat(&[b"--key=", &v])) }
                if p { l.push(s("word")) }
                ok = k && p;
            }
            3 => {
                l.push(s("node"));
                level = 1;
                let m = flip();
                if m { l.push(cat(&[b"-m=", &v])) }
                ok = m;
                match choice(3) {
                    0 => sub_missing = true,
                    1 => {
                        l.push(s("one"));
                        level = 2;
                        let z = flip();
                        if z { l.push(cat(&[b"-z=", &v])) }
                        ok &= z;
                    }
                    _ => { l.push(s("two")); level = 2; }
                }
            }
            _ => {
                l.push(s("opt"));
                level = 1;
                match choice(3) {
                    0 => {}
                    1 => { l.push(s("one")); level = 2; ok = flip(); if ok { l.push(cat(&[b"-z=", &v])) } }
                    _ => { l.push(s("two")); level = 2; }
                }
            }
        }
        if g && !gdone {
            assume(level > 0);
            l.push(cat(&[b"--glob=", &v]));
        }
        let complete = o && g && ok && !sub_missing;
        let r = parse::<Tree>(l);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(complete && raw(&c.outer) == &v[..] && raw(&c.glob) == &v[..], "nothing required is missing at any level") }
            Err(e) => {
                let k = class(&e);
                reach!();
                check!(!complete, "a complete line is accepted");
                check!(k == Class::Required || (sub_missing && k == Class::RequiredSub), "the error says that something required is missing");
                check!(!(sub_missing && o && g && ok) || k == Class::RequiredSub, "a missing subcommand is said to be missing");
            }
        }
    }
    [quick, "a required value equal to nothing, to a default or to a keyword counts as given: 10 values in 3 spellings"]
    fn p13_odd_values() {
        let miss = choice(8);
        assume(miss != 3 && miss != 7);
        let v = pick(&["", "dd", "--", "-", "false", "0", "--need", "\0", "help", "first"]);
        let mut l = vec![];
        for (i, (name, _)) in REQ.iter().enumerate() {
            let x = if i == miss { v.as_bytes() } else if i == 3 { b"1" } else { b"v" };
            l.push(if i == 7 { s("p") } else { cat(&[pick(if i == miss { name } else { &name[..1] }).as_bytes(), b"=", x]) });
        }
        let r = parse::<Cli>(l);
        emit_end(&r);
        reach!();
        check!(r.is_ok(), "a given value is given whatever it is");
    }
    [deep, "every subset, all values of 0..=1 arbitrary bytes"]
    fn p13_deep() {
        let mut l = vec![];
        let mut all = true;
        for (i, (name, _)) in REQ.iter().enumerate() {
            let v: Vec<u8> = if i == 3 { b"7".to_vec() } else { bytes(len(0, 1)) };
            if flip() {
                if i == 7 { assume(plain(&v)) }
                l.push(if i == 7 { os(v.clone()) } else { cat(&[name[0].as_bytes(), b"=", &v]) });
            } else {
                all = false;
            }
        }
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(_) => check!(all, "nothing required is missing"),
            Err(e) => check!(!all && class(&e) == Class::Required, "a complete line is accepted, an incomplete one is rejected as such"),
        }
    }
    [quick, "every command of 127 definitions with all combinations of constraints: every subset of its arguments, each in one of two forms"]
    fn p13_matrix() {
        let a = mx::at(mx::RULED);
        let l = mx::subset(&a, false);
        let (got, want, same) = mx::verdict(&a, l);
        match (got, &want) {
            (None, Outcome::Good(_)) => { reach!(); check!(same, "what was given is held") }
            (None, Outcome::Broken(b)) => check!(!b.contains(&Class::Required) && !b.contains(&Class::RequiredSub), "nothing required is missing"),
            (Some(c), Outcome::Broken(b)) => {
                reach!();
                check!(!matches!(c, Class::Required | Class::RequiredSub) || b.contains(&c), "what is told missing is missing");
            }
            (Some(_), Outcome::Good(_)) => check!(false, "a complete line is accepted"),
            _ => {}
        }
    }
}
