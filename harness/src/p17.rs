//! Defaults apply exactly to what was not given.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand, ValueEnum};
use std::ffi::OsString;

#[derive(Clone, Copy, Default, PartialEq, ValueEnum)]
enum Mode {
    Fast,
    #[default]
    VerySlow,
}
#[derive(Parser, PartialEq)]
struct Cli {
    #[arg(short, long, default_value = "aa")]
    alpha: OsString,
    #[arg(short, long, default_value = "")]
    beta: OsString,
    #[arg(short, long, default_value = "42")]
    num: u8,
    #[arg(short, long, default_value_t)]
    tnum: i16,
    #[arg(short = 'e', long, default_value_t = 1 + 6)]
    expr: u8,
    #[arg(short, long, default_value_t = true)]
    flag: bool,
    #[arg(short, long, default_value = "oo")]
    opt: Option<OsString>,
    #[arg(short, long, default_value = "x,y", use_value_delimiter = true)]
    list: Vec<OsString>,
    #[arg(short, long, default_value = "-v", allow_hyphen_values = true)]
    hyph: Option<Vec<OsString>>,
    #[arg(short = 'q', long, default_value = "qq", require_equals = true)]
    qopt: Option<Option<OsString>>,
    #[arg(short, long, default_value_t)]
    mode: Mode,
    #[arg(long, default_value = "fast", ignore_case = true)]
    imode: Mode,
    #[command(flatten)]
    flat: Flat,
    #[arg(short, long, global = true, default_value = "gg")]
    glob: OsString,
    #[arg(default_value = "pp")]
    pos: OsString,
    #[arg(default_value = "9")]
    pnum: u8,
    #[command(subcommand)]
    sub: Option<Sub>,
}
#[derive(Args, PartialEq)]
struct Flat {
    #[arg(short, long, default_value = "ii")]
    inner: OsString,
    #[arg(short = 'j', long, default_value_t = 5)]
    jnner: u8,
}
#[derive(Subcommand, PartialEq)]
enum Sub {
    Sub {
        #[arg(short, long, default_value = "kk")]
        key: OsString,
        #[arg(default_value = "ss")]
        spos: Option<OsString>,
    },
}
fn words(l: &[OsString], w: &[&[u8]]) -> bool {
    l.len() == w.len() && l.iter().zip(w).all(|(a, b)| raw(a) == *b)
}
/// Is every default in force, except where `on` says something was given?
fn defaults(c: &Cli, on: usize) -> bool {
    let not = |i: usize, ok: bool| i == on || ok;
    not(0, raw(&c.alpha) == b"aa") && not(1, raw(&c.beta).is_empty()) && not(2, c.num == 42) && not(3, c.tnum == 0) && not(4, c.expr == 7) && c.flag
        && not(6, c.opt.as_ref().map(|x| raw(x)) == Some(b"oo")) && not(7, words(&c.list, &[b"x", b"y"]))
        && not(8, c.hyph.as_ref().is_some_and(|l| words(l, &[b"-v"]))) && not(9, c.qopt.as_ref().is_some_and(|x| x.as_ref().map(|x| raw(x)) == Some(b"qq")))
        && not(10, c.mode == Mode::VerySlow) && not(11, c.imode == Mode::Fast) && not(12, raw(&c.flat.inner) == b"ii") && not(13, c.flat.jnner == 5)
        && not(14, raw(&c.glob) == b"gg") && not(15, raw(&c.pos) == b"pp") && not(16, c.pnum == 9)
}
/// A given value of argument `i`: the word(s).
fn given(i: usize, v: &[u8]) -> Vec<OsString> {
    let n = match i {
        0 => pick(&["-a", "--alpha"]),
        1 => pick(&["-b", "--beta"]),
        6 => pick(&["-o", "--opt"]),
        7 => pick(&["-l", "--list"]),
        8 => pick(&["-h", "--hyph"]),
        9 => pick(&["-q", "--qopt"]),
        12 => pick(&["-i", "--inner"]),
        14 => pick(&["-g", "--glob"]),
        _ => { assume(plain(v) && v != b"sub"); return vec![os(v.to_vec())] }
    };
    vec![cat(&[n.as_bytes(), b"=", v])]
}
fn holds(c: &Cli, i: usize, v: &[u8]) -> bool {
    match i {
        0 => raw(&c.alpha) == v,
        1 => raw(&c.beta) == v,
        6 => c.opt.as_ref().map(|x| raw(x)) == Some(v),
        7 => words(&c.list, &v.split(|b| *b == b',').collect::<Vec<_>>()),
        8 => c.hyph.as_ref().is_some_and(|l| words(l, &[v])),
        9 => c.qopt.as_ref().is_some_and(|x| x.as_ref().map(|x| raw(x)) == Some(v)),
        12 => raw(&c.flat.inner) == v,
        14 => raw(&c.glob) == v,
        _ => raw(&c.pos) == v,
    }
}
const TEXT: [usize; 9] = [0, 1, 6, 7, 8, 9, 12, 14, 15];

/// Defaults against constraints.
#[derive(Parser, PartialEq)]
struct Con {
    #[arg(short, long, default_value = "aa", conflicts_with = "beta")]
    alpha: OsString,
    #[arg(short, long, default_value = "bb", requires = "gamma")]
    beta: OsString,
    #[arg(short, long, default_value_t = 3)]
    gamma: u8,
    #[arg(short = 'x', long, exclusive = true, default_value = "xx")]
    xcl: OsString,
    #[arg(default_value = "pp", conflicts_with = "gamma")]
    pos: OsString,
}

scenarios! {
    [quick, "9 arguments with a textual default: the given value is 0..=3 arbitrary bytes, or the default itself; all others keep theirs"]
    fn p17_given() {
        let i = pick(&TEXT);
        let same: &[u8] = match i { 0 => b"aa", 1 => b"", 6 => b"oo", 7 => b"x,y", 8 => b"-v", 9 => b"qq", 12 => b"ii", 14 => b"gg", _ => b"pp" };
        let v = if flip() { bytes(len(0, 3)) } else { same.to_vec() };
        let r = parse::<Cli>(given(i, &v));
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(holds(&c, i, &v), "a given value wins"); check!(defaults(&c, i), "the others hold their defaults") }
            Err(_) => check!(false, "everything has a default"),
        }
    }
    [quick, "a bare optional value overrides its default with nothing; typed and enum values of 1..=3 arbitrary bytes override theirs"]
    fn p17_typed() {
        let (k, v) = (choice(8), bytes(len(1, 3)));
        let num = std::str::from_utf8(&v).ok().and_then(|t| t.parse::<u8>().ok());
        let (w, i) = match k {
            0 => (s("-q"), 9),
            1 => (s("--mode=fast"), 10),
            2 => (s("--imode=VERY-slow"), 11),
            3 => (cat(&[b"--num=", &v]), 2),
            4 => (cat(&[b"-e=", &v]), 4),
            5 => (cat(&[b"--jnner=", &v]), 13),
            6 => (s("-t=-32768"), 3),
            _ => (s("-f"), 5),
        };
        assume(k > 2 && k < 6 || (v.len() == 1 && v[0] == b'0'));
        let r = parse::<Cli>(vec![w]);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(defaults(&c, i), "the others hold their defaults");
                check!(match k { 0 => c.qopt == Some(None), 1 => c.mode == Mode::Fast, 2 => c.imode == Mode::VerySlow, 3 => Some(c.num) == num, 4 => Some(c.expr) == num, 5 => Some(c.flat.jnner) == num, 6 => c.tnum == -32768, _ => c.flag }, "a given value wins");
            }
            Err(_) => check!(k > 2 && k < 6 && num.is_none(), "only a bad number is rejected"),
        }
    }
    [quick, "nothing given, or only a subcommand with 0..=2 words of 0..=1 arbitrary bytes and a global option inside"]
    fn p17_sub() {
        let n = choice(4);
        let mut l = vec![];
        if n > 0 { l.push(s("sub")) }
        let g = n > 0 && flip();
        let v = bytes(len(0, 1));
        if g { l.push(cat(&[b"--glob=", &v])) }
        let (key, pos) = (n > 0 && n & 1 == 0, n == 3);
        if key { l.push(cat(&[b"-k=", &v])) }
        if pos { assume(plain(&v)); l.push(os(v.clone())) }
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(defaults(&c, if g { 14 } else { 99 }) && (!g || raw(&c.glob) == &v[..]), "the outer ones hold their defaults unless given inside");
                match &c.sub {
                    None => check!(n == 0, "a subcommand has no default"),
                    Some(Sub::Sub { key: k, spos }) => check!(raw(k) == if key { &v[..] } else { b"kk" } && spos.as_ref().map(|x| raw(x)) == Some(if pos { &v[..] } else { b"ss" }), "the inner ones hold theirs"),
                }
            }
            Err(_) => check!(false, "everything has a default"),
        }
    }
    [quick, "positionals: the first given (0..=2 arbitrary bytes), the second defaulted; both given"]
    fn p17_positionals() {
        let t = tok(0, 2);
        assume(plain(raw(&t)) && raw(&t) != b"sub");
        let two = flip();
        let d = byte();
        let mut l = vec![t.clone()];
        if two { assume(d.is_ascii_digit()); l.push(os(vec![d])) }
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(raw(&c.pos) == raw(&t) && c.pnum == if two { d - b'0' } else { 9 }, "only the one not given holds its default") }
            Err(_) => check!(false, "everything has a default"),
        }
    }
    [quick, "lists: given occurrences replace the default, 1..=3 of 0..=1 arbitrary bytes"]
    fn p17_lists() {
        let n = len(1, 3);
        let v: Vec<Vec<u8>> = (0..n).map(|_| bytes(len(0, 1))).collect();
        let h = flip();
        let l: Vec<OsString> = v.iter().map(|v| cat(&[if h { b"--hyph=" } else { b"--list=" }, v])).collect();
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                let mut want: Vec<&[u8]> = vec![];
                for x in &v {
                    if h || &x[..] != b"," { want.push(x) } else { want.push(b""); want.push(b"") }
                }
                check!(if h { c.hyph.as_ref().is_some_and(|l| words(l, &want)) } else { words(&c.list, &want) }, "the default is not added to what was given");
                check!(defaults(&c, if h { 8 } else { 7 }), "the others hold their defaults");
            }
            Err(_) => check!(false, "everything has a default"),
        }
    }
    [quick, "constraints look at what was given: every subset of 5 arguments with defaults under conflict, requirement and exclusivity; one value 0..=1 arbitrary bytes or the default"]
    fn p17_constraints() {
        let on = [flip(), flip(), flip(), flip(), flip()];
        let v = if flip() { bytes(len(0, 1)) } else { b"bb".to_vec() };
        let mut l = vec![];
        if on[0] { l.push(cat(&[b"--alpha=", &v])) }
        if on[1] { l.push(cat(&[b"-b=", &v])) }
        if on[2] { l.push(s("-g=3")) }
        if on[3] { l.push(cat(&[b"--xcl=", &v])) }
        if on[4] { assume(plain(&v)); l.push(os(v.clone())) }
        let n = on.iter().filter(|x| **x).count();
        let bad = (on[0] && on[1]) || (on[1] && !on[2]) || (on[3] && n > 1) || (on[4] && on[2]);
        let r = parse::<Con>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(!bad, "constraints on given arguments hold");
                check!(raw(&c.alpha) == if on[0] { &v[..] } else { b"aa" } && raw(&c.beta) == if on[1] { &v[..] } else { b"bb" } && c.gamma == 3
                    && raw(&c.xcl) == if on[3] { &v[..] } else { b"xx" } && raw(&c.pos) == if on[4] { &v[..] } else { b"pp" }, "a field holds its default exactly if not given");
            }
            Err(_) => { reach!(); check!(bad, "defaults never trigger a constraint") }
        }
    }
    [deep, "two of 9 arguments given in any order, values of 0..=3 arbitrary bytes"]
    fn p17_deep() {
        let (i, j) = (pick(&TEXT), pick(&TEXT));
        assume(i < j);
        let (v, w) = (bytes(len(0, 3)), bytes(len(0, 3)));
        let mut l = given(i, &v);
        let b = given(j, &w);
        if flip() { l.extend(b) } else { l.splice(0..0, b); }
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => check!(holds(&c, i, &v) && holds(&c, j, &w), "a given value wins"),
            Err(_) => check!(false, "everything has a default"),
        }
    }
    [quick, "every command of 127 definitions with all combinations of constraints: every subset of its arguments, each in one of two forms"]
    fn p17_matrix() {
        let a = mx::at(mx::RULED);
        let l = mx::subset(&a, false);
        let (got, want, same) = mx::verdict(&a, l);
        match (got, &want) {
            (None, Outcome::Good(_)) => { reach!(); check!(same, "a field holds its default exactly if it was not given") }
            (Some(_), Outcome::Good(_)) => check!(false, "defaults trigger nothing"),
            _ => {}
        }
    }
    [quick, "options with defaults of all combinations of attributes in 127 definitions, in every form with 0..=1 arbitrary bytes or not given"]
    fn p17_matrix_given() {
        let a = mx::at(0..mx::TABLES.len());
        let r = a.option(|o| o.rules.default.is_some());
        let l = if flip() { a.line(mx::any_form(&a, r, 0, 1), &[(r.level, r.index)]) } else { a.line(vec![], &[]) };
        match a.agree(l) {
            1 => reach!(),
            _ => {}
        }
    }
}
