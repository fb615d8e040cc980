//! Last arguments are reachable only after '--'.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand};
use std::ffi::OsString;

#[derive(Parser, PartialEq)]
struct Two {
    #[arg(short, long)]
    flag: bool,
    #[arg(short, long, allow_hyphen_values = true)]
    opt: Option<OsString>,
    one: Option<OsString>,
    two: Option<OsString>,
    #[arg(last = true)]
    end: Vec<OsString>,
}
#[derive(Parser, PartialEq)]
struct List {
    #[arg(short, long)]
    flag: bool,
    many: Vec<OsString>,
    #[arg(last = true)]
    end: Option<Vec<OsString>>,
}
/// Declared before the others: its place in the definition does not matter.
#[derive(Parser, PartialEq)]
struct First {
    #[arg(last = true)]
    end: Vec<OsString>,
    #[arg(short, long)]
    flag: bool,
    one: Option<OsString>,
    many: Vec<OsString>,
}
#[derive(Parser, PartialEq)]
struct Only {
    #[arg(short, long)]
    flag: bool,
    #[arg(last = true, required = true)]
    end: Vec<OsString>,
}
#[derive(Parser, PartialEq)]
struct Need {
    one: OsString,
    two: OsString,
    #[arg(last = true)]
    end: Vec<OsString>,
}
#[derive(Parser, PartialEq)]
struct Sub {
    #[arg(short, long, global = true)]
    glob: bool,
    #[arg(last = true)]
    end: Vec<OsString>,
    #[command(subcommand)]
    cmd: Option<Cmd>,
}
#[derive(Subcommand, PartialEq)]
enum Cmd {
    In {
        one: Option<OsString>,
        #[arg(last = true)]
        tail: Vec<OsString>,
    },
    Bare,
}
#[derive(Parser, PartialEq)]
struct Split {
    one: Option<OsString>,
    #[arg(last = true, use_value_delimiter = true)]
    end: Vec<OsString>,
}
fn are(x: &[OsString], y: &[OsString]) -> bool {
    x.len() == y.len() && x.iter().zip(y).all(|(a, b)| raw(a) == raw(b))
}

scenarios! {
    [quick, "0..=3 words of 0..=2 arbitrary bytes in positional place, no '--'"]
    fn p25_before() {
        let n = len(0, 3);
        let l: Vec<OsString> = (0..n).map(|_| { let v = bytes(len(0, 2)); assume(plain(&v)); os(v) }).collect();
        let r = parse::<Two>(l.clone());
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(n < 3 && c.end.is_empty() && c.one == l.get(0).cloned() && c.two == l.get(1).cloned(), "words before '--' do not go to the last list") }
            Err(e) => { reach!(); check!(n == 3 && class(&e) == Class::Unexpected, "there is no room for more") }
        }
    }
    [quick, "0..=2 positionals, '--' and 0..=3 words of 0..=2 arbitrary bytes"]
    fn p25_after() {
        let (k, n) = (len(0, 2), len(0, 3));
        let mut l: Vec<OsString> = (0..k).map(|_| s("w")).collect();
        l.push(s("--"));
        let end: Vec<OsString> = (0..n).map(|_| tok(0, 2)).collect();
        l.extend(end.clone());
        let r = parse::<Two>(l);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(c.one.is_some() == (k > 0) && c.two.is_some() == (k > 1) && !c.flag && c.opt.is_none() && are(&c.end, &end), "all words after '--' go to the last list in order") }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "11 numbers of words of up to 600 before '--' (in a list) and after it, one of each 0..=1 arbitrary bytes: none is lost, none changes sides"]
    fn p25_long() {
        let sizes = [1usize, 15, 16, 17, 64, 65, 128, 255, 256, 257, 600];
        let (k, n) = if flip() { (pick(&sizes), 2) } else { (2, pick(&sizes)) };
        let (x, y) = (tok(0, 1), tok(0, 1));
        let list = |n: usize, v: &OsString, dash: bool| -> Vec<OsString> {
            (0..n).map(|i| if i == n / 2 { v.clone() } else { os(vec![if dash { b'-' } else { b'w' }, i as u8, (i >> 8) as u8]) }).collect()
        };
        let (a, b) = (list(k, &x, false), list(n, &y, true));
        let r = parse::<List>([a.clone(), vec![s("--")], b.clone()].concat());
        match r {
            Ok(c) => { reach!(); check!(are(&c.many, &a) && c.end.as_ref().is_some_and(|e| are(e, &b)) && !c.flag, "every word goes to its side, in order") }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "'--' as the value of an option is not the separator; then words of 0..=2 arbitrary bytes"]
    fn p25_value() {
        let v = bytes(len(0, 2));
        let w = tok(0, 2);
        assume(plain(&v));
        let sep = flip();
        let mut l = vec![s("--opt"), s("--"), os(v.clone())];
        if sep { l.push(s("--")); l.push(w.clone()) }
        let r = parse::<Two>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(c.opt.as_ref().map(|x| raw(x)) == Some(b"--") && c.one.as_ref().map(|x| raw(x)) == Some(&v[..]), "the value is a value, the next word a positional");
                check!(if sep { are(&c.end, &[w]) } else { c.end.is_empty() }, "only the bare '--' leads to the last list");
            }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "after a list: 0..=2 words, '-f' in any place, '--', 0..=2 words of 0..=3 arbitrary bytes; or no '--' at all"]
    fn p25_list() {
        let (k, n, sep) = (len(0, 2), len(0, 2), flip());
        let at = choice(4);
        let mut l = vec![];
        for i in 0..3 {
            if i == at { l.push(s("-f")) }
            if i < k { l.push(s("w")) }
        }
        let end: Vec<OsString> = if sep { (0..n).map(|_| tok(0, 3)).collect() } else { vec![] };
        if sep { l.push(s("--")) }
        l.extend(end.clone());
        let r = parse::<List>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(c.flag == (at < 3) && c.many.len() == k, "before as always");
                check!(c.end.is_some() == !end.is_empty() && are(c.end.as_deref().unwrap_or(&[]), &end), "absent without words after '--', else exactly those");
            }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "declared first: 0..=3 words of 0..=1 arbitrary bytes before, 0..=2 after '--', or none"]
    fn p25_declared_first() {
        let (k, n, sep) = (len(0, 3), len(0, 2), flip());
        let w: Vec<OsString> = (0..k).map(|_| { let v = bytes(len(0, 1)); assume(plain(&v)); os(v) }).collect();
        let end: Vec<OsString> = if sep { (0..n).map(|_| tok(0, 1)).collect() } else { vec![] };
        let mut l = w.clone();
        if sep { l.push(s("--")) }
        l.extend(end.clone());
        let r = parse::<First>(l);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(c.one == w.get(0).cloned() && are(&c.many, w.get(1..).unwrap_or(&[])) && are(&c.end, &end) && !c.flag, "the others are filled before, it is filled after '--'") }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "alone and required: a word of 0..=2 arbitrary bytes with or without '--' before"]
    fn p25_only() {
        let w = bytes(len(0, 2));
        assume(plain(&w));
        let (sep, n) = (flip(), len(0, 2));
        let mut l = vec![];
        if sep { l.push(s("--")) }
        for _ in 0..n { l.push(os(w.clone())) }
        let r = parse::<Only>(l);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(sep && n > 0 && c.end.len() == n && c.end.iter().all(|x| raw(x) == &w[..]), "only words after '--' count") }
            Err(e) => { reach!(); let c = class(&e); check!(if sep || n == 0 { n == 0 && c == Class::Required } else { c == Class::Unexpected }, "before '--' there is no place for a word") }
        }
    }
    [quick, "required positionals stay missing when '--' comes early: 0..=2 words, '--', 0..=3 words of 0..=1 arbitrary bytes"]
    fn p25_missing() {
        let (k, n) = (len(0, 2), len(0, 3));
        let mut l: Vec<OsString> = (0..k).map(|_| s("w")).collect();
        l.push(s("--"));
        let end: Vec<OsString> = (0..n).map(|_| tok(0, 1)).collect();
        l.extend(end.clone());
        let r = parse::<Need>(l);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(k == 2 && are(&c.end, &end), "the last list does not lend its words") }
            Err(e) => { reach!(); check!(k < 2 && class(&e) == Class::Required, "a missing positional is missing") }
        }
    }
    [quick, "verbatim: two words out of 9 with a meaning elsewhere, then one of 0..=3 arbitrary bytes"]
    fn p25_verbatim() {
        let odd = ["--", "-", "", "-f", "--opt", "--help", "-h", "--opt=1", "--nope"];
        let end = vec![s(pick(&odd)), s(pick(&odd)), tok(0, 3)];
        let mut l = vec![s("--")];
        l.extend(end.clone());
        let r = parse::<Two>(l);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(are(&c.end, &end) && !c.flag && c.opt.is_none() && c.one.is_none(), "verbatim") }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "with subcommands: first word one of the names or 0..=4 arbitrary bytes, '--' before or after it, then a word of 0..=2"]
    fn p25_subcommand() {
        let w = if flip() { pick(&["in", "bare"]).as_bytes().to_vec() } else { bytes(len(0, 4)) };
        assume(plain(&w));
        let name = w == b"in" || w == b"bare";
        let v = tok(0, 2);
        let before = flip();
        let l = if before { vec![s("--"), os(w.clone()), v.clone()] } else { vec![os(w.clone()), s("--"), v.clone()] };
        let r = parse::<Sub>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(before || name, "a word before '--' is a subcommand or nothing");
                if before {
                    check!(c.cmd.is_none() && are(&c.end, &[os(w), v]), "after '--' names are words");
                } else {
                    check!(c.end.is_empty() && matches!(&c.cmd, Some(Cmd::In { one: None, tail }) if are(tail, &[v])), "'--' inside a subcommand leads to its last list");
                }
            }
            Err(e) => { reach!(); let c = class(&e); check!(!before && (if name { w == b"bare" && c == Class::Unexpected } else { c == Class::UnknownSub }), "rejected only for want of a place") }
        }
    }
    [quick, "a delimiter splits there as elsewhere: '--' and two words of 0..=3 arbitrary bytes"]
    fn p25_delimiter() {
        let (v, w) = (bytes(len(0, 3)), bytes(len(0, 3)));
        let r = parse::<Split>(vec![s("--"), os(v.clone()), os(w.clone())]);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                let want: Vec<&[u8]> = v.split(|b| *b == b',').chain(w.split(|b| *b == b',')).collect();
                check!(c.one.is_none() && c.end.len() == want.len() && c.end.iter().zip(&want).all(|(a, b)| raw(a) == *b), "all parts in order");
            }
            Err(_) => check!(false, "accepted"),
        }
    }
    [deep, "any 3 words of 0..=2 arbitrary bytes, '--', any 2 of 0..=3: the last list is what follows the first bare '--' in positional place"]
    fn p25_deep() {
        let w: Vec<OsString> = (0..3).map(|_| { let v = bytes(len(0, 2)); assume(plain(&v) || v == b"--" || v == b"-f"); os(v) }).collect();
        let mut l = w.clone();
        l.push(s("--"));
        l.extend([tok(0, 3), tok(0, 3)]);
        let at = l.iter().position(|x| raw(x) == b"--").unwrap();
        let flags = l[..at].iter().filter(|x| raw(x) == b"-f").count();
        let r = parse::<List>(l.clone());
        match r {
            Ok(c) => check!(flags < 2 && are(c.end.as_deref().unwrap_or(&[]), &l[at + 1..]) && c.many.len() == at - flags, "it takes what follows"),
            Err(e) => check!(flags > 1 && class(&e) == Class::Duplicate, "else only the flag can be given twice"),
        }
    }
    [quick, "commands with a last argument among 127 definitions: 0..=2 positional words, then '--' or not, then one or two words of 0..=2 arbitrary bytes or an option"]
    fn p25_matrix() {
        let a = mx::at(0..mx::TABLES.len());
        assume(a.last().pos.last().is_some_and(|p| p.last));
        let mut w: Vec<OsString> = (0..choice(3)).map(|_| s("w")).collect();
        if flip() {
            w.push(s("--"));
        }
        for _ in 0..len(1, 2) {
            w.push(if choice(3) == 0 { s("--opt") } else { tok(0, 2) });
        }
        let l = a.line_with(w, &[], false);
        match a.agree(l) {
            1 => reach!(),
            2 => reach!(),
            _ => {}
        }
    }
}
