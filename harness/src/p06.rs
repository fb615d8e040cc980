//! After `--` everything is positional, verbatim.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand};
use std::ffi::OsString;

#[derive(Parser, PartialEq)]
struct Cli {
    #[arg(short, long)]
    flag: bool,
    #[arg(short, long)]
    opt: Option<OsString>,
    #[arg(short, long, require_equals = true)]
    eq: Option<Option<OsString>>,
    #[command(flatten)]
    flat: Flat,
    first: Option<OsString>,
    rest: Vec<OsString>,
    #[command(subcommand)]
    sub: Option<Sub>,
}
#[derive(Args, PartialEq)]
struct Flat {
    #[arg(short = 'i', long)]
    inner: bool,
}
#[derive(Subcommand, PartialEq)]
enum Sub {
    Go {
        #[arg(short)]
        k: bool,
        p: Option<OsString>,
        q: Option<OsString>,
    },
    S,
}
/// No list: places run out.
#[derive(Parser, PartialEq)]
struct Two {
    #[arg(short, long)]
    flag: bool,
    a: Option<OsString>,
    b: Option<OsString>,
}
/// No positional but a subcommand.
#[derive(Parser, PartialEq)]
struct OnlySub {
    #[arg(short)]
    flag: bool,
    #[command(subcommand)]
    sub: Option<Sub>,
}

/// Three places before the list that `--` leads to.
#[derive(Parser, PartialEq)]
struct Last {
    #[arg(short, long)]
    flag: bool,
    a: Option<OsString>,
    b: Option<OsString>,
    c: Option<OsString>,
    #[arg(last = true)]
    last: Vec<OsString>,
    #[command(subcommand)]
    sub: Option<Sub>,
}
fn opt_is(o: &Option<OsString>, w: Option<&OsString>) -> bool {
    match (o, w) {
        (None, None) => true,
        (Some(a), Some(b)) => raw(a) == raw(b),
        _ => false,
    }
}
fn all_eq(got: &[OsString], want: &[OsString]) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(a, b)| raw(a) == raw(b))
}
/// Anything, with the interesting words certainly among them.
fn word(max: usize) -> OsString {
    match choice(7) {
        0 => tok(0, max),
        1 => s("--"),
        2 => s("--help"),
        3 => s("go"),
        4 => s("--opt=v"),
        5 => s("-h"),
        _ => cat(&[b"--", &bytes(2)]),
    }
}

fn verbatim(n: usize, max: usize) {
    let before = choice(6);
    let mut l = match before {
        0 => vec![],
        1 => vec![s("p")],
        2 => vec![s("-f"), s("--eq")],
        3 => vec![s("-o"), s("v")],
        4 => vec![s("p"), s("q"), s("-i")],
        _ => vec![s("-o=x"), s("p"), s("--flag")],
    };
    let early: Vec<OsString> = match before { 1 | 5 => vec![s("p")], 4 => vec![s("p"), s("q")], _ => vec![] };
    l.push(s("--"));
    let t: Vec<OsString> = (0..n).map(|_| word(max)).collect();
    l.extend(t.clone());
    let r = parse::<Cli>(l);
    emit_end(&r);
    match r {
        Ok(c) => {
            let mut want = early.clone();
            want.extend(t);
            reach!();
            check!(opt_is(&c.first, want.first()), "the first word is the first positional");
            check!(all_eq(&c.rest, want.get(1..).unwrap_or(&[])), "all other words follow verbatim and in order");
            check!(c.sub.is_none(), "no subcommand is entered after '--'");
            check!(c.flag == (before == 2 || before == 5) && c.flat.inner == (before == 4), "no flag is set after '--'");
            check!(opt_is(&c.opt, [None, None, None, Some(&s("v")), None, Some(&s("x"))][before]), "no option is set after '--'");
            check!(c.eq == if before == 2 { Some(None) } else { None }, "no option is set after '--'");
        }
        Err(_) => check!(false, "every word after '--' is accepted by the list"),
    }
}

scenarios! {
    [quick, "14 numbers of words up to 600 after '--', like options, subcommands and help, one of them of 0..=2 arbitrary bytes: all are delivered in order"]
    fn p06_many() {
        let n = pick(&[4usize, 7, 8, 9, 15, 16, 17, 31, 33, 127, 128, 255, 257, 600]);
        let at = pick(&[0, 1, n / 2, n - 1]);
        let forms = ["--flag", "--help", "sub", "--", "-o", "-h", "--opt=x", "w"];
        let before = flip();
        let mut all: Vec<OsString> = (0..n).map(|i| s(forms[(i + i / 8) % 8])).collect();
        all[at] = tok(0, 2);
        let mut l = vec![];
        if before {
            l.push(s("--flag"));
        }
        l.push(s("--"));
        l.extend(all.clone());
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(opt_is(&c.first, all.first()) && all_eq(&c.rest, &all[1..]), "all words follow verbatim and in order");
                check!(c.sub.is_none() && c.opt.is_none() && c.flag == before, "nothing else is set after '--'");
            }
            Err(_) => check!(false, "every word after '--' is accepted by the list"),
        }
    }
    [quick, "with a last list: 0..=3 words, '--', then 0..=3 words of 0..=1 arbitrary bytes (or 6 special forms)"]
    fn p06_last() {
        let (m, n) = (choice(4), choice(4));
        let mut l: Vec<OsString> = (0..m).map(|_| s("w")).collect();
        l.push(s("--"));
        let t: Vec<OsString> = (0..n).map(|i| if i < 2 { word(1) } else { tok(0, 1) }).collect();
        l.extend(t.clone());
        let r = parse::<Last>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(all_eq(&c.last, &t), "all words after '--' follow verbatim and in order");
                check!(c.a.is_some() == (m > 0) && c.b.is_some() == (m > 1) && c.c.is_some() == (m > 2) && !c.flag && c.sub.is_none(), "and nothing else is set by them");
            }
            Err(_) => check!(false, "every word after '--' is accepted by the list"),
        }
    }
    [quick, "0..=1 words of 0..=6 arbitrary bytes (or 6 special forms) after '--', 6 prefixes"]
    fn p06_one() {
        let n = len(0, 1);
        verbatim(n, 6);
    }
    [quick, "2..=3 words of 0..=2 arbitrary bytes (or 6 special forms) after '--', 6 prefixes"]
    fn p06_more() {
        let n = len(2, 3);
        verbatim(n, 2);
    }
    [quick, "places run out: 0..=3 words of 0..=2 arbitrary bytes or special forms after '--'"]
    fn p06_full() {
        let n = len(0, 3);
        let t: Vec<OsString> = (0..n).map(|_| word(2)).collect();
        let flag = flip();
        let mut l = if flag { vec![s("--flag")] } else { vec![] };
        l.push(s("--"));
        l.extend(t.clone());
        let r = parse::<Two>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                check!(n <= 2, "a third word has no place");
                check!(opt_is(&c.a, t.first()) && opt_is(&c.b, t.get(1)) && c.flag == flag, "the words go to the positionals in order");
                reach!();
            }
            Err(e) => {
                check!(n == 3 && class(&e) == Class::Unexpected, "only a word too many is rejected, as unexpected");
                reach!();
            }
        }
    }
    [quick, "a subcommand name after '--' is no subcommand: words of 0..=2 arbitrary bytes or special forms"]
    fn p06_onlysub() {
        let t = word(2);
        let r = parse::<OnlySub>(vec![s("--"), t]);
        emit_end(&r);
        reach!();
        check!(is_class(&r, Class::UnknownSub) || is_class(&r, Class::Unexpected), "without positionals a word after '--' is rejected");
        let r = parse::<OnlySub>(vec![s("-f"), s("--")]);
        check!(matches!(r, Ok(OnlySub { flag: true, sub: None })), "a final '--' adds nothing");
    }
    [quick, "'--' inside a subcommand: 0..=2 words of 0..=3 arbitrary bytes or special forms"]
    fn p06_in_sub() {
        let n = len(0, 2);
        let t: Vec<OsString> = (0..n).map(|_| word(3)).collect();
        let outer = flip();
        let k = flip();
        let mut l = vec![];
        if outer { l.push(s("--flag")); l.push(s("p")) }
        l.push(s("go"));
        if k { l.push(s("-k")) }
        l.push(s("--"));
        l.extend(t.clone());
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(c.flag == outer && opt_is(&c.first, if outer { Some(&s("p")).cloned() } else { None }.as_ref()) && c.rest.is_empty(), "the outer command keeps what came before");
                let Some(Sub::Go { k: gk, p, q }) = &c.sub else { check!(false, "the subcommand is entered"); return };
                check!(*gk == k && opt_is(p, t.first()) && opt_is(q, t.get(1)), "the words are the subcommand's positionals");
            }
            Err(_) => check!(false, "words after '--' in a subcommand are accepted"),
        }
    }
    [quick, "a '--' that is the last word, 5 prefixes, changes nothing"]
    fn p06_trailing() {
        let l = pick(&[vec![], vec![s("p")], vec![s("-f"), s("p")], vec![s("-o=v"), s("p"), s("q")], vec![s("go"), s("-k"), s("p")]]);
        let mut m = l.clone();
        m.push(s("--"));
        let a = parse::<Cli>(l);
        let b = parse::<Cli>(m);
        emit_end(&a);
        reach!();
        check!(same(&a, &b), "a final '--' changes nothing");
    }
    [deep, "3 words of 0..=5 arbitrary bytes or special forms"]
    fn p06_deep() {
        verbatim(3, 5);
    }
    [quick, "after '--' in every command of 127 definitions: 1..=2 words of 0..=1 arbitrary bytes, option names, subcommand names, '--' or help, after a positional word, an option or nothing"]
    fn p06_matrix() {
        let a = mx::at(0..mx::TABLES.len());
        let mut w = vec![];
        match choice(3) {
            0 => {}
            1 => w.push(s("w")),
            _ => { let r = a.option(|_| true); w = mx::usual(r.opt); }
        }
        w.push(s("--"));
        for _ in 0..len(1, 2) {
            let v: Vec<&'static str> = a.options().iter().map(|r| a.names(*r)[0]).take(2).chain(a.last().subs.iter().map(|c| c.name).take(1)).chain(["--", "--help", "a"]).collect();
            w.push(if flip() { s(pick(&v)) } else { tok(0, 1) });
        }
        let l = a.line_with(w, &[], false);
        match a.agree(l) {
            1 => reach!(),
            2 => reach!(),
            _ => {}
        }
    }
}
