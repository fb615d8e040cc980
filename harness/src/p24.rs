//! A trailing variable argument takes the rest of the line verbatim.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand};
use std::ffi::OsString;

#[derive(Parser, PartialEq)]
struct Plain {
    #[arg(short, long)]
    flag: bool,
    #[arg(short, long)]
    opt: Option<OsString>,
    #[arg(short, long)]
    list: Vec<OsString>,
    #[arg(trailing_var_arg = true)]
    rest: Vec<OsString>,
}
#[derive(Parser, PartialEq)]
struct After {
    #[arg(short, long)]
    flag: bool,
    #[arg(short, long)]
    opt: Option<OsString>,
    one: OsString,
    two: Option<OsString>,
    #[arg(trailing_var_arg = true)]
    rest: Option<Vec<OsString>>,
}
#[derive(Parser, PartialEq)]
struct Sub {
    #[arg(short, long, global = true)]
    glob: Option<OsString>,
    #[arg(trailing_var_arg = true)]
    rest: Vec<OsString>,
    #[command(subcommand)]
    cmd: Option<Cmd>,
}
#[derive(Subcommand, PartialEq)]
enum Cmd {
    Exec {
        #[arg(short, long)]
        env: Option<OsString>,
        prog: OsString,
        #[arg(trailing_var_arg = true)]
        args: Vec<OsString>,
    },
    Run(Run),
}
#[derive(Args, PartialEq)]
struct Run {
    #[arg(short, long)]
    dry: bool,
    #[arg(required = true, trailing_var_arg = true)]
    words: Vec<OsString>,
}
/// Together with a list that only '--' reaches.
#[derive(Parser, PartialEq)]
struct Both {
    #[arg(short, long)]
    flag: bool,
    one: Option<OsString>,
    #[arg(trailing_var_arg = true)]
    rest: Vec<OsString>,
    #[arg(last = true)]
    end: Vec<OsString>,
}
#[derive(Parser, PartialEq)]
struct Typed {
    #[arg(short, long)]
    flag: bool,
    #[arg(trailing_var_arg = true)]
    rest: Vec<i8>,
}
fn are(x: &[OsString], y: &[OsString]) -> bool {
    x.len() == y.len() && x.iter().zip(y).all(|(a, b)| raw(a) == raw(b))
}
const ODD: [&str; 12] = ["--", "-", "", "-f", "--flag", "--opt", "--opt=1", "-o", "--help", "-h", "-zz", "--unknown=1"];

scenarios! {
    [quick, "one word of 0..=2 arbitrary bytes in positional place, then two of 0..=3 arbitrary bytes"]
    fn p24_words() {
        let first = bytes(len(0, 2));
        assume(plain(&first));
        let l = vec![os(first), tok(0, 3), tok(0, 3)];
        let r = parse::<Plain>(l.clone());
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(!c.flag && c.opt.is_none() && c.list.is_empty() && are(&c.rest, &l), "all words from the first on are collected verbatim") }
            Err(_) => check!(false, "every word is accepted"),
        }
    }
    [quick, "one word of 0..=2 arbitrary bytes, then three of 12 that mean something before"]
    fn p24_meaning() {
        let first = bytes(len(0, 2));
        assume(plain(&first));
        let l = vec![os(first), s(pick(&ODD)), s(pick(&ODD)), s(pick(&ODD))];
        let r = parse::<Plain>(l.clone());
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(!c.flag && c.opt.is_none() && c.list.is_empty() && are(&c.rest, &l), "all words from the first on are collected verbatim") }
            Err(_) => check!(false, "every word is accepted"),
        }
    }
    [quick, "14 numbers of words of up to 1030 after the first one, one of them of 0..=2 arbitrary bytes: all are collected in order; at the top or in a subcommand, after '--' or not"]
    fn p24_long() {
        let n = pick(&[1usize, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1030]);
        let at = pick(&[0, n / 2, n - 1]);
        let v = tok(0, 2);
        let w: Vec<OsString> = (0..n).map(|i| if i == at { v.clone() } else if i % 8 == 7 { s("--opt=") } else { os(vec![b'-', i as u8, (i >> 8) as u8]) }).collect();
        let mut l = match choice(3) {
            0 => vec![s("w")],
            1 => vec![s("exec"), s("p"), s("w")],
            _ => vec![s("--"), s("w")],
        };
        let sub = l.len() == 3;
        l.extend(w.iter().cloned());
        match parse::<Sub>(l) {
            Ok(c) => {
                reach!();
                match &c.cmd {
                    Some(Cmd::Exec { args, prog, .. }) => check!(sub && raw(prog) == b"p" && args.len() == n + 1 && raw(&args[0]) == b"w" && are(&args[1..], &w), "all words arrive in order"),
                    _ => check!(!sub && c.rest.len() == n + 1 && are(&c.rest[1..], &w) && raw(&c.rest[0]) == b"w", "all words arrive in order"),
                }
            }
            Err(_) => check!(false, "every word is taken verbatim"),
        }
    }
    [quick, "options before, in 9 forms with a value of 0..=3 arbitrary bytes, then the word '-' or 'w', then two of 0..=2"]
    fn p24_before() {
        let v = bytes(len(0, 3));
        let (mut l, flag, opt, list): (Vec<OsString>, bool, bool, usize) = match choice(9) {
            0 => (vec![s("-f")], true, false, 0),
            1 => (vec![cat(&[b"--opt=", &v])], false, true, 0),
            2 => { assume(plain(&v)); (vec![s("--opt"), os(v.clone())], false, true, 0) }
            3 => { assume(plain(&v)); (vec![s("-fo"), os(v.clone())], true, true, 0) }
            4 => { assume(attachable(&v)); (vec![cat(&[b"-o", &v])], false, true, 0) }
            5 => (vec![cat(&[b"-fl=", &v]), s("-l=")], true, false, 2),
            6 => { assume(plain(&v)); (vec![s("-l"), os(v.clone()), s("-f")], true, false, 1) }
            7 => (vec![cat(&[b"--list=", &v]), s("-l"), s("a"), s("--opt=")], false, true, 2),
            _ => (vec![], false, false, 0),
        };
        let rest = vec![s(pick(&["-", "w"])), tok(0, 2), tok(0, 2)];
        l.extend(rest.clone());
        let r = parse::<Plain>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(c.flag == flag && c.opt.is_some() == opt && c.list.len() == list, "before, options are options");
                check!(are(&c.rest, &rest), "from the first word on everything is collected");
                if list > 0 { check!(raw(&c.list[0]) == &v[..], "values before are values") }
            }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "'--' first, then three words of 0..=3, 0..=2, 0..=2 arbitrary bytes"]
    fn p24_dashdash() {
        let rest = vec![tok(0, 3), tok(0, 2), tok(0, 2)];
        let mut l = vec![];
        let flag = flip();
        if flag { l.push(s("-f")) }
        l.push(s("--"));
        l.extend(rest.clone());
        let r = parse::<Plain>(l);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(c.flag == flag && c.opt.is_none() && are(&c.rest, &rest), "the '--' is not collected, all after it is") }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "after two positionals: an option or nothing before each of three words; the third and a fourth of 0..=3 arbitrary bytes"]
    fn p24_after() {
        let third = bytes(len(0, 3));
        assume(plain(&third));
        let fourth = tok(0, 3);
        let at = choice(4);
        let mut l = vec![];
        for i in 0..2 {
            if i == at { l.push(s(pick(&["-f", "--flag"]))) }
            l.push(s(["a", "-"][i]));
        }
        if at == 2 { l.push(s("--flag")) }
        let rest = vec![os(third), fourth];
        l.extend(rest.clone());
        let r = parse::<After>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(raw(&c.one) == b"a" && c.two.as_ref().map(|x| raw(x)) == Some(b"-") && c.flag == (at < 3) && c.opt.is_none(), "earlier words and options are parsed as always");
                check!(c.rest.as_ref().is_some_and(|x| are(x, &rest)), "the rest is collected");
            }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "0..=4 words of 0..=1 arbitrary bytes without leading '-' over two positionals and the rest: where each goes"]
    fn p24_split() {
        let n = len(0, 4);
        let l: Vec<OsString> = (0..n).map(|_| { let v = bytes(len(0, 1)); assume(plain(&v)); os(v) }).collect();
        let r = parse::<After>(l.clone());
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(n > 0 && c.one == l[0] && c.two.is_some() == (n > 1) && c.rest.is_some() == (n > 2), "as many fields are filled as there are words");
                check!(n < 3 || are(c.rest.as_ref().unwrap(), &l[2..]), "the rest is collected in order");
            }
            Err(e) => { reach!(); check!(n == 0 && class(&e) == Class::Required, "only the required one may be missing") }
        }
    }
    [quick, "'--' between or after the positionals, then words of 0..=2 arbitrary bytes, 5 in all"]
    fn p24_after_dashdash() {
        let at = choice(3);
        let w: Vec<OsString> = (0..4).map(|i| if i < at { s("w") } else { tok(0, 2) }).collect();
        let mut l = w.clone();
        l.insert(at, s("--"));
        let r = parse::<After>(l);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(c.one == w[0] && c.two.as_ref() == Some(&w[1]) && c.rest.as_ref().is_some_and(|x| are(x, &w[2..])), "filled in order, the first '--' is not delivered") }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "'--' after the collection has begun is one of the words; words of 0..=2 arbitrary bytes around it"]
    fn p24_inner_dashdash() {
        let rest = vec![s("w"), tok(0, 2), s("--"), tok(0, 2)];
        let r = parse::<Plain>(rest.clone());
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(are(&c.rest, &rest), "delivered as any other word") }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "subcommand names: first word any of 4 names or 0..=4 arbitrary bytes, then names or words of 0..=1 bytes"]
    fn p24_subcommand() {
        let first = if flip() { pick(&["exec", "run", "glob", "execs"]).as_bytes().to_vec() } else { bytes(len(0, 4)) };
        assume(plain(&first) && first != b"exec" && first != b"run");
        let next = |_| if flip() { s(pick(&["exec", "run", "--glob=1", "-g"])) } else { tok(0, 1) };
        let mut l = vec![os(first)];
        l.extend((0..2).map(next));
        let r = parse::<Sub>(l.clone());
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(c.cmd.is_none() && c.glob.is_none() && are(&c.rest, &l), "later names are words") }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "inside a subcommand: options before, then the rest of words of 0..=3 and 0..=2 arbitrary bytes or global option names"]
    fn p24_in_subcommand() {
        let mut l = vec![s("exec")];
        let (env, glob) = (flip(), flip());
        if env { l.push(s("--env=E")) }
        if glob { l.push(s("-g=G")) }
        l.push(s("prog"));
        let late = flip();
        if late { l.push(s("--glob=late")); assume(!glob) }
        let first = bytes(len(0, 3));
        assume(plain(&first));
        let rest = vec![os(first), if flip() { s(pick(&["-g", "--glob=1", "exec", "-h", "--env", "--"])) } else { tok(0, 2) }];
        l.extend(rest.clone());
        let r = parse::<Sub>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                check!(c.rest.is_empty() && c.glob.is_some() == (glob || late), "the outer one gets only what came before");
                match c.cmd {
                    Some(Cmd::Exec { env: e, prog, args }) => { reach!(); check!(e.is_some() == env && raw(&prog) == b"prog" && are(&args, &rest), "the rest is the inner list") }
                    _ => check!(false, "the subcommand is entered"),
                }
            }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "a required list in a subcommand: 0..=2 words of 0..=2 arbitrary bytes after '-d' or nothing"]
    fn p24_required() {
        let dry = flip();
        let n = len(0, 2);
        let rest: Vec<OsString> = (0..n).map(|_| tok(0, 2)).collect();
        if n > 0 { assume(plain(raw(&rest[0]))) }
        let mut l = vec![s("run")];
        if dry { l.push(s("-d")) }
        l.extend(rest.clone());
        let r = parse::<Sub>(l);
        emit_end(&r);
        match r {
            Ok(Sub { cmd: Some(Cmd::Run(x)), rest: out, .. }) => { reach!(); check!(n > 0 && x.dry == dry && are(&x.words, &rest) && out.is_empty(), "collected by the inner list") }
            Ok(_) => check!(false, "the subcommand is entered"),
            Err(e) => { reach!(); check!(n == 0 && class(&e) == Class::Required, "rejected only if nothing was given") }
        }
    }
    [quick, "with a last list as well: words of 0..=2 arbitrary bytes, '--' within the rest is a word, before it the way to the last list"]
    fn p24_and_last() {
        let (a, b) = (tok(0, 2), tok(0, 2));
        if flip() {
            let first = bytes(len(0, 1));
            assume(plain(&first));
            let rest = vec![os(first), a, s("--"), b];
            let mut l = vec![s("one"), s("-f")];
            l.extend(rest.clone());
            let r = parse::<Both>(l);
            emit_end(&r);
            match r {
                Ok(c) => { reach!(); check!(c.flag && c.one.is_some() && are(&c.rest, &rest) && c.end.is_empty(), "the rest takes everything, the last list stays empty") }
                Err(_) => check!(false, "accepted"),
            }
        } else {
            let one = flip();
            let mut l = vec![];
            if one { l.push(s("one")) }
            l.push(s("--"));
            let end = vec![a, b];
            l.extend(end.clone());
            let r = parse::<Both>(l);
            emit_end(&r);
            match r {
                Ok(c) => { reach!(); check!(c.one.is_some() == one && c.rest.is_empty() && are(&c.end, &end), "'--' leads to the last list") }
                Err(_) => check!(false, "accepted"),
            }
        }
    }
    [quick, "a typed list: '1', '-f' or a number of 1..=4 bytes, then '3': each converted, a bad one rejected"]
    fn p24_typed() {
        let v = bytes(len(1, 4));
        let want = std::str::from_utf8(&v).ok().and_then(|x| x.parse::<i8>().ok());
        let r = parse::<Typed>(vec![s("1"), os(v), s("3")]);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(!c.flag && want.is_some_and(|x| c.rest == [1, x, 3]), "all values are converted") }
            Err(e) => { reach!(); check!(want.is_none() && class(&e) == Class::InvalidValue, "only a bad value is rejected") }
        }
    }
    [deep, "five words, the first in positional place, of 0..=2 arbitrary bytes each"]
    fn p24_deep() {
        let first = bytes(len(0, 2));
        assume(plain(&first));
        let mut l = vec![os(first)];
        l.extend((0..4).map(|_| tok(0, 2)));
        let r = parse::<Plain>(l.clone());
        match r {
            Ok(c) => check!(!c.flag && c.opt.is_none() && c.list.is_empty() && are(&c.rest, &l), "all words from the first on are collected verbatim"),
            Err(_) => check!(false, "every word is accepted"),
        }
    }
    [quick, "commands with a trailing variable argument among 127 definitions: the first word of 0..=1 arbitrary bytes, then two of option names, subcommand names, '--', help or 0..=1 arbitrary bytes"]
    fn p24_matrix() {
        let a = mx::at(0..mx::TABLES.len());
        assume(a.last().pos.iter().any(|p| p.trailing));
        let v: Vec<&'static str> = a.options().iter().map(|r| a.names(*r)[0]).take(2).chain(["--", "--help", "-", "-x"]).collect();
        let mut w: Vec<OsString> = (0..a.last().pos.iter().filter(|p| !p.list).count()).map(|_| s("w")).collect();
        let t = tok(0, 1);
        assume(plain(raw(&t)));
        w.push(t);
        for _ in 0..2 {
            w.push(if flip() { s(pick(&v)) } else { tok(0, 1) });
        }
        let l = a.line_with(w, &[], false);
        match a.agree(l) {
            1 => reach!(),
            _ => {}
        }
    }
}
