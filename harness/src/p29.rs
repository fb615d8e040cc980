//! The program name is never parsed.
use crate::common::*;
use crate::{check, reach, scenarios};
use palc::{Args, Error, Parser, Subcommand};
use std::ffi::OsString;

#[derive(Parser, PartialEq)]
struct Cli {
    #[arg(short, long)]
    flag: bool,
    #[arg(short, long)]
    opt: Option<OsString>,
    #[arg(short, long, global = true)]
    num: Option<u8>,
    pos: Option<OsString>,
    rest: Vec<OsString>,
    #[command(subcommand)]
    cmd: Option<Cmd>,
}
#[derive(Subcommand, PartialEq)]
enum Cmd {
    Sub {
        #[arg(short, long)]
        yes: bool,
        word: OsString,
    },
}
/// Everything required, nothing positional.
#[derive(Parser, PartialEq)]
struct Need {
    #[arg(short, long)]
    must: OsString,
    #[command(subcommand)]
    cmd: Cmd,
}
#[derive(Parser, PartialEq)]
struct Empty {}
fn run<P: Parser>(name: &[u8], l: &[OsString]) -> Result<P, Error> {
    note(name);
    for t in l {
        note(raw(t));
    }
    note_end();
    let mut v = vec![os(name.to_vec())];
    v.extend_from_slice(l);
    P::try_parse_from(v)
}
/// What the user sees of an error that is not a help.
fn told<P>(r: &Result<P, Error>) -> Option<String> {
    r.as_ref().err().map(|e| e.to_string())
}
fn both<P: Parser + PartialEq>(name: &[u8], l: Vec<OsString>) {
    let a = run::<P>(name, &l);
    let b = run::<P>(b"x", &l);
    emit_end(&a);
    match (a, b) {
        (Ok(a), Ok(b)) => { reach!(); check!(a == b, "the same value whatever the name") }
        (Err(a), Err(b)) => {
            reach!();
            let c = class(&b);
            check!(class(&a) == c, "the same error whatever the name");
            match (a.try_into_help(), b.try_into_help()) {
                (Ok(h), Ok(_)) => { reach!(); check!(h.contains("Usage: "), "help for both") }
                (Err(a), Err(b)) => { reach!(); check!(a.to_string() == b.to_string(), "the same message whatever the name") }
                _ => check!(false, "both are help or none is"),
            }
        }
        _ => check!(false, "accepted under any name or under none"),
    }
}
const NAMES: [&[u8]; 16] = [
    b"", b"-", b"--", b"-f", b"--flag", b"--opt", b"--opt=1", b"--help", b"-h", b"sub", b"--num=999", b"-zz", b"/usr/bin/x y\n", b"\xff\xfe", b"-f\xff", b"prog\0name",
];
fn lines() -> Vec<OsString> {
    let t: &[&str] = pick(&[
        &[][..], &["-f"], &["--flag", "p", "q", "r"], &["--opt", "1"], &["-f", "-f"], &["--num=999"], &["sub", "w"], &["sub"], &["--nope"], &["--", "--help"],
        &["-m1", "sub", "w", "-y"], &["--must=", "-n7"], &["-o"], &["--help"], &["p", "sub", "-h"], &["sub", "w", "-n", "300"],
    ]);
    t.iter().map(|x| s(x)).collect()
}

scenarios! {
    [quick, "16 names that mean something elsewhere, 16 lines"]
    fn p29_names() {
        let n = pick(&NAMES);
        both::<Cli>(n, lines());
    }
    [quick, "16 names, 16 lines, a definition with required arguments"]
    fn p29_need() {
        let n = pick(&NAMES);
        both::<Need>(n, lines());
    }
    [quick, "a name of 0..=3 arbitrary bytes, 15 lines that ask for no help"]
    fn p29_any_name() {
        let n = bytes(len(0, 3));
        let l = lines();
        assume(!l.iter().any(|w| raw(w) == b"-h" || raw(w) == b"--help") || l.len() == 2 && raw(&l[0]) == b"--");
        both::<Cli>(&n, l);
    }
    [quick, "a name of 0..=3 arbitrary bytes below 0x80 or from 0xf8 on, lines that ask for help"]
    fn p29_help() {
        let n = bytes(len(0, 3));
        assume(n.iter().all(|b| *b < 0x80 || *b >= 0xf8));
        both::<Cli>(&n, vec![s("--help")]);
    }
    [quick, "16 names, a word of 0..=3 arbitrary bytes"]
    fn p29_any_word() {
        let n = pick(&NAMES);
        let w = bytes(len(0, 3));
        assume(w.iter().all(|b| *b < 0x80 || *b >= 0xf8) && (w.is_empty() || w[0] != b'-' || w.len() < 2));
        both::<Cli>(n, vec![os(w)]);
    }
    [quick, "5 names alone for a definition without arguments, and with a word of 0..=2 arbitrary bytes"]
    fn p29_empty_definition() {
        let n = bytes(len(0, 2));
        let a = run::<Empty>(&n, &[]);
        reach!();
        check!(a.is_ok(), "the name is no argument");
        let w = os(bytes(len(0, 2)));
        let dash = raw(&w) == b"--";
        let b = run::<Empty>(&n, &[w]);
        emit_end(&b);
        check!(b.is_ok() == dash, "any word is one too many");
    }
    [quick, "no item at all: reported, for three definitions"]
    fn p29_no_name() {
        let none = || Vec::<OsString>::new();
        let (a, b, c) = (Cli::try_parse_from(none()), Need::try_parse_from(none()), Empty::try_parse_from(none()));
        reach!();
        check!(is_class(&a, Class::Arg0) && is_class(&b, Class::Arg0) && is_class(&c, Class::Arg0), "the missing name is reported");
        check!(told(&a).is_some_and(|m| m.contains("argv[0]")), "as such");
    }
    [deep, "a name of 4 arbitrary bytes, or 5..=12 below 0x80, 15 lines"]
    fn p29_deep() {
        let n = bytes(len(4, 12));
        assume(n.len() == 4 || n.iter().all(|b| *b < 0x80));
        let l = lines();
        assume(!l.iter().any(|w| raw(w) == b"-h" || raw(w) == b"--help") || l.len() == 2 && raw(&l[0]) == b"--");
        both::<Cli>(&n, l);
    }
}
