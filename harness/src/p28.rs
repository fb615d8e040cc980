//! A help request yields the help of the command in force, nothing else does.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand};
use std::ffi::OsString;

#[derive(Parser)]
struct Cli {
    #[arg(short, long)]
    flag: bool,
    #[arg(short, long)]
    opt: Option<OsString>,
    #[arg(short, long, allow_hyphen_values = true)]
    any: Option<OsString>,
    #[arg(short = 'q', long, require_equals = true)]
    quest: Option<Option<OsString>>,
    #[arg(short, long, global = true, conflicts_with = "flag")]
    glob: bool,
    #[arg(long)]
    need: OsString,
    #[arg(long)]
    num: Option<u8>,
    #[command(flatten)]
    flat: Flat,
    pos: OsString,
    more: Option<OsString>,
    #[command(subcommand)]
    cmd: Cmd,
}
#[derive(Args)]
struct Flat {
    #[arg(short, long)]
    inner: OsString,
}
#[derive(Subcommand)]
enum Cmd {
    Unit,
    Sub {
        #[arg(short, long)]
        key: OsString,
        #[arg(short, long)]
        yes: bool,
        word: OsString,
        #[command(subcommand)]
        cmd: Deep,
    },
    Tail {
        #[arg(short, long)]
        yes: bool,
        #[arg(trailing_var_arg = true)]
        rest: Vec<OsString>,
    },
}
#[derive(Subcommand)]
enum Deep {
    Down(Down),
}
#[derive(Args)]
struct Down {
    #[arg(short, long)]
    last: OsString,
}
/// The user's own options of these names.
#[derive(Parser)]
struct Own {
    #[arg(short, long)]
    host: Option<OsString>,
    #[arg(short, long)]
    flag: bool,
    #[command(subcommand)]
    cmd: Option<OwnCmd>,
}
#[derive(Parser)]
struct OwnLong {
    #[arg(long, global = true)]
    help: bool,
    #[arg(short, long)]
    flag: bool,
    #[command(subcommand)]
    cmd: Option<OwnCmd>,
}
#[derive(Parser)]
struct OwnAlias {
    #[arg(short = 'x', alias = "help", short_alias = 'h', global = true)]
    ex: Option<OsString>,
    #[command(subcommand)]
    cmd: Option<OwnCmd>,
}
#[derive(Subcommand)]
enum OwnCmd {
    In {
        #[arg(short, long)]
        yes: bool,
    },
    Hin {
        #[arg(short, long)]
        here: bool,
    },
}
/// The path in the usage line if this is a help.
fn help<T>(r: Result<T, palc::Error>) -> Option<String> {
    match r {
        Ok(_) => None,
        Err(e) => e.try_into_help().ok().map(|t| {
            let at = t.find("Usage: ").map(|i| i + 7).unwrap_or(0);
            let l = &t[at..];
            let l = &l[..l.find('\n').unwrap_or(l.len())];
            // the path ends where options, arguments or subcommands are shown
            let end = l.find(|c: char| !(c.is_ascii_lowercase() || c == ' ')).unwrap_or(l.len());
            let l = &l[..end];
            String::from(l.trim_end())
        }),
    }
}
fn is(h: &Option<String>, want: &str) -> bool {
    h.as_deref() == Some(want)
}
/// Ways to ask, and bytes that may follow within the word.
fn ask(flag: &str) -> OsString {
    match choice(7) {
        0 => s("--help"),
        1 => s("-h"),
        2 => cat(&[b"--help=", &bytes(len(0, 2))]),
        3 => cat(&[b"-h=", &bytes(len(0, 2))]),
        4 => cat(&[b"-h", &bytes(len(1, 2)), &more()]),
        5 => cat(&[b"-", flag.as_bytes(), b"h"]),
        _ => cat(&[b"-", flag.as_bytes(), b"h", &bytes(len(1, 2)), &more()]),
    }
}
/// Up to 300 bytes that follow.
fn more() -> Vec<u8> {
    vec![b'f'; pick(&[0, 1, 2, 3, 4, 8, 31, 300])]
}
const BEFORE: [(&[&str], &str); 14] = [
    (&[], "x"), (&["--opt=1"], "x"), (&["p"], "x"), (&["p", "m"], "x"), (&["-a", "--help"], "x"), (&["--any=-h", "-"], "x"), (&["-q"], "x"), (&["-oh"], "x"),
    (&["--opt", "help"], "x"), (&["--glob", "p"], "x"), (&["sub"], "x sub"), (&["--need=1", "sub", "--key", "k"], "x sub"), (&["sub", "w", "-k=", "down"], "x sub down"), (&["tail"], "x tail"),
];

fn matrix(a: mx::At) {
    let mut w = vec![];
    match choice(3) {
        0 => {}
        1 => w.push(s("w")),
        _ => { let r = a.option(|_| true); w = mx::any_form(&a, r, 0, 0); }
    }
    let letters: Vec<&'static str> = a.options().iter().flat_map(|r| a.names(*r)).filter(|n| !n.starts_with("--")).collect();
    w.push(match choice(6) {
        0 => s("--help"),
        1 => s("-h"),
        2 => { assume(!letters.is_empty()); cat(&[pick(&letters).as_bytes(), b"h"]) }
        3 => s("--help=x"),
        4 => cat(&[b"-h", &bytes(1)]),
        _ => tok(2, 2),
    });
    if flip() {
        w.push(tok(0, 1));
    }
    let l = a.line_with(w, &[], false);
    match a.agree(l) {
        1 => reach!(),
        2 => reach!(),
        _ => {}
    }
}
scenarios! {
    [quick, "after 14 beginnings (3 levels): 7 ways to ask, with 0..=2 arbitrary bytes and up to 300 more where more can follow in the word; then two words of 0..=1 arbitrary bytes"]
    fn p28_ask() {
        let (pre, want) = pick(&BEFORE);
        let sub = want.len() > 1;
        let deep = want == "x sub down";
        let mut l: Vec<OsString> = pre.iter().map(|x| s(x)).collect();
        l.push(ask(if deep || pre.contains(&"--glob") { "" } else if sub { "y" } else { "f" }));
        if flip() { l.extend([tok(0, 1), tok(0, 1)]) }
        let r = parse::<Cli>(l);
        emit_end(&r);
        let h = help(r);
        reach!();
        check!(is(&h, want), "this is the help of the command in force");
    }
    [quick, "bundled after a global flag of an outer command, or after conflicting flags: help all the same"]
    fn p28_bundled() {
        let (pre, w, want): (&[&str], _, _) = pick(&[(&["sub"][..], "-gh", "x sub"), (&["sub"], "-ygh", "x sub"), (&["-f"], "-gh", "x"), (&["-g", "tail"], "-yhy", "x tail"), (&[], "-fgh", "x"), (&[], "-qh", "")]);
        let mut l: Vec<OsString> = pre.iter().map(|x| s(x)).collect();
        l.push(s(w));
        l.push(tok(0, 2));
        let r = parse::<Cli>(l);
        emit_end(&r);
        let h = help(r);
        reach!();
        // '-q' wants '=' before anything else in its word
        check!(if want.is_empty() { h.is_none() } else { is(&h, want) }, "this is the help of the command in force");
    }
    [quick, "help words as values: 9 places, then a word of 0..=2 arbitrary bytes that asks for nothing"]
    fn p28_value() {
        let w = bytes(len(0, 2));
        assume(!w.starts_with(b"-") || w == b"--" || w == b"-");
        let ask = pick(&["--help", "-h", "--help=1", "-fh"]);
        let mut l = match choice(7) {
            0 => vec![s("--any"), s(ask)],
            1 => vec![cat(&[b"--any=", ask.as_bytes()])],
            2 => vec![cat(&[b"--opt=", ask.as_bytes()])],
            3 => vec![cat(&[b"-fo", ask.as_bytes()])],
            4 => vec![cat(&[b"-fa", ask.as_bytes()])],
            5 => vec![s("-a"), s(ask), s("-oh"), s("-q=-h")],
            _ => vec![s("--"), s(ask)],
        };
        l.push(os(w));
        let r = parse::<Cli>(l);
        emit_end(&r);
        reach!();
        check!(r.is_err() && help(r).is_none(), "a value is not a request");
    }
    [quick, "help words in trailing words or after '--' in a subcommand are words; a word of 0..=2 arbitrary bytes between"]
    fn p28_trailing() {
        let w = bytes(len(0, 2));
        let sep = flip();
        assume(sep || plain(&w));
        let mut l = vec![s("--need="), s("-i="), s("p"), s("tail")];
        if sep { l.push(s("--")) }
        l.push(os(w));
        l.push(s(pick(&["--help", "-h", "-yh"])));
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(matches!(&c.cmd, Cmd::Tail { yes: false, rest } if rest.len() == 2), "they are collected") }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "an option that needs a value and gets '--help' or '-h' has none: that is the error"]
    fn p28_no_value() {
        let o = pick(&["--opt", "-o", "-fo", "--need", "--inner", "--num"]);
        let r = parse::<Cli>(vec![s(o), s(pick(&["--help", "-h", "-fh"])), tok(0, 2)]);
        emit_end(&r);
        reach!();
        check!(is_class(&r, Class::MissingValue) && help(r).is_none(), "the missing value is told");
    }
    [quick, "a word of 0..=3 arbitrary bytes that is wrong, in 4 places before the request"]
    fn p28_wrong_before() {
        let v = bytes(len(0, 3));
        let l = match choice(4) {
            0 => { assume(!v.contains(&b'=') && v != b"opt" && v != b"any" && !v.is_empty() && v != b"num"); vec![cat(&[b"--", &v])] }
            1 => { assume(!matches!(&v[..], [b'0'..=b'9'] | [b'0'..=b'9' | b'+', b'0'..=b'9'] | [b'0'..=b'9' | b'+', b'0'..=b'9', b'0'..=b'9'])); vec![cat(&[b"--num=", &v])] }
            2 => vec![cat(&[b"--flag=", &v])],
            _ => { assume(plain(&v) && v != b"sub"); vec![s("p"), s("m"), os(v)] }
        };
        let mut l = l;
        l.push(s(pick(&["--help", "-h"])));
        let r = parse::<Cli>(l);
        emit_end(&r);
        reach!();
        check!(r.is_err() && help(r).is_none(), "the first bad word decides");
    }
    [quick, "words that are nearly a request: '--help' with any one byte replaced, removed or put in, any letter"]
    fn p28_nearly() {
        let h = b"--help";
        let at = choice(6);
        let b = byte();
        let mut w = h.to_vec();
        match choice(4) {
            0 => { assume(b != h[at]); w[at] = b }
            1 => { w.remove(at); }
            2 => { w.insert(at, b); assume(w != b"--help") }
            _ => { assume(b != b'='); w.push(b) }
        }
        // a bundle that comes to an 'h' is one
        assume(!(w.starts_with(b"-") && !w.starts_with(b"--")));
        let r = parse::<Cli>(vec![os(w)]);
        emit_end(&r);
        reach!();
        check!(r.is_err() && help(r).is_none(), "it is not one");
    }
    [quick, "one letter of one arbitrary byte: a request if it is 'h' only"]
    fn p28_letter() {
        let b = byte();
        let pre: &[u8] = if flip() { b"-f" } else { b"-" };
        let r = parse::<Cli>(vec![cat(&[pre, &[b]])]);
        emit_end(&r);
        let h = help(r);
        reach!();
        check!(h.is_some() == (b == b'h') && (b != b'h' || is(&h, "x")), "only this letter");
    }
    [quick, "words without '-': 'help', 'h' or 0..=4 arbitrary bytes: never a request"]
    fn p28_word() {
        let w = if flip() { pick(&["help", "h", "sub help"]).as_bytes().to_vec() } else { bytes(len(0, 4)) };
        assume(!w.starts_with(b"-") || w == b"-");
        let r = parse::<Cli>(vec![os(w.clone()), os(w)]);
        emit_end(&r);
        reach!();
        check!(r.is_err() && help(r).is_none(), "it is not one");
    }
    [quick, "the user's own '-h' with a value of 0..=2 arbitrary bytes: it gets it; '--help' is still a request; inside the subcommand '-h' is one, unless defined there"]
    fn p28_own() {
        let v = bytes(len(0, 2));
        match choice(5) {
            0 => match parse::<Own>(vec![cat(&[b"-h=", &v])]) {
                Ok(c) => { reach!(); check!(c.host.as_ref().map(|x| raw(x)) == Some(&v[..]), "the own option gets it") }
                Err(_) => check!(false, "accepted"),
            },
            1 => { assume(plain(&v)); match parse::<Own>(vec![s("-fh"), os(v.clone())]) {
                Ok(c) => { reach!(); check!(c.flag && c.host.as_ref().map(|x| raw(x)) == Some(&v[..]), "the own option gets it") }
                Err(_) => check!(false, "accepted"),
            } }
            2 => { let r = parse::<Own>(vec![s("--help"), os(v)]); reach!(); check!(is(&help(r), "x"), "'--help' is not defined") }
            3 => { let r = parse::<Own>(vec![cat(&[b"-h=", &v]), s("in"), s("-yh"), os(v)]); reach!(); check!(is(&help(r), "x in"), "'-h' is not defined there") }
            _ => match parse::<Own>(vec![s("-f"), s("hin"), s("-h")]) {
                Ok(c) => { reach!(); check!(matches!(c.cmd, Some(OwnCmd::Hin { here: true })), "the own option gets it") }
                Err(_) => check!(false, "accepted"),
            },
        }
    }
    [quick, "the user's own '--help', global: at both levels, '-h' still is a request; '--help=v' of 0..=2 arbitrary bytes is a surplus value"]
    fn p28_own_long() {
        let pre: Vec<OsString> = if flip() { vec![s("in")] } else { vec![] };
        let v = bytes(len(0, 2));
        let at = if pre.is_empty() { "x" } else { "x in" };
        let with = |w: OsString| { let mut l = pre.clone(); l.push(w); parse::<OwnLong>(l) };
        match choice(3) {
            0 => match with(s("--help")) {
                Ok(c) => { reach!(); check!(c.help && !c.flag && c.cmd.is_some() == (pre.len() > 0), "the own option gets it") }
                Err(_) => check!(false, "accepted"),
            },
            1 => { let r = with(cat(&[b"--help=", &v])); reach!(); check!(is_class(&r, Class::UnexpectedValue) && help(r).is_none(), "it takes no value") }
            _ => { let r = with(s("-h")); reach!(); check!(is(&help(r), at), "'-h' is not defined") }
        }
    }
    [quick, "the user's own aliases 'help' and 'h', global, at both levels: never a request; value of 0..=2 arbitrary bytes"]
    fn p28_own_alias() {
        let v = bytes(len(0, 2));
        let mut l: Vec<OsString> = if flip() { vec![s("in")] } else { vec![] };
        match choice(3) {
            0 => l.push(cat(&[b"--help=", &v])),
            1 => { assume(plain(&v)); l.push(s("--help")); l.push(os(v.clone())) }
            _ => l.push(cat(&[b"-h=", &v])),
        }
        match parse::<OwnAlias>(l) {
            Ok(c) => { reach!(); check!(c.ex.as_ref().map(|x| raw(x)) == Some(&v[..]), "the own option gets it") }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "an error is a help only if one was asked for: two words of 0..=3 and 0..=2 arbitrary bytes"]
    fn p28_iff() {
        let (v, w) = (bytes(len(0, 3)), bytes(len(0, 2)));
        // a request of 3 bytes or less is a bundle in which 'h' comes before anything unknown or with a value
        let bundle = |w: &[u8]| w.len() > 1 && w[0] == b'-' && w[1] != b'-' && {
            let mut seen = 0;
            let mut out = None;
            for b in &w[1..] {
                out = match b { b'h' => Some(true), b'f' if seen & 1 == 0 => { seen |= 1; None }, b'g' if seen & 2 == 0 => { seen |= 2; None }, _ => Some(false) };
                // a flag followed by '=' is given a value, and that is an error: '=' is not one of the letters
                if out.is_some() { break }
            }
            out == Some(true)
        };
        let eq = |w: &[u8]| w.len() > 2 && w[0] == b'-' && w[1] != b'h' && w.contains(&b'=');
        assume(!eq(&v) && !eq(&w));
        // the first word must be a request, or one after which the second is read as an option
        let first = bundle(&v);
        let on = plain(&v) && v != b"sub" || v == b"-f" || v == b"-g" || v == b"-fg" || v == b"-gf" || v == b"-q" || v == b"-fq" || v == b"-gq"
            || (v.len() == 3 && (v.starts_with(b"-o") || v.starts_with(b"-a") || v.starts_with(b"-i")));
        let again = |w: &[u8]| v.starts_with(b"-") && w.len() > 1 && (1..v.len()).any(|i| (v[i] == b'f' || v[i] == b'g') && w.contains(&v[i])) && !(w[1] == b'h');
        let want = first || (on && bundle(&w) && !(again(&w) && (v[1] == b'f' || v[1] == b'g')));
        let sub = v == b"sub" && w == b"-h";
        let r = parse::<Cli>(vec![os(v), os(w)]);
        emit_end(&r);
        reach!();
        check!(r.is_err() && help(r).is_some() == (want || sub), "exactly then");
    }
    [quick, "every third of every command of 127 definitions: an option or a word or nothing, then '--help', '-h' (in a bundle or not) or neither, then a word of 0..=1 arbitrary bytes or nothing"]
    fn p28_matrix() {
        matrix(mx::some(3));
    }
    [deep, "every command of 127 definitions: an option or a word or nothing, then '--help', '-h' (in a bundle or not) or neither, then a word of 0..=1 arbitrary bytes or nothing"]
    fn p28_matrix_all() {
        matrix(mx::at(0..mx::TABLES.len()));
    }
    [quick, "'-h' and '--help' taken by the user at some levels: three words of 16 forms"]
    fn p28_taken() {
        match crate::model::agree::<crate::model::Own>(crate::model::words(&crate::model::OWN, 3), true) {
            1 => reach!(),
            2 => reach!(),
            _ => {}
        }
    }
}
