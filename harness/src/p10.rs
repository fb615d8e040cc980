//! What looks like an option is not taken as a value unless allowed.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand};
use std::ffi::OsString;

#[derive(Parser, PartialEq)]
struct Cli {
    #[arg(short, long)]
    plain: Option<OsString>,
    #[arg(short, long, allow_hyphen_values = true)]
    any: Option<OsString>,
    #[arg(short, long, allow_negative_numbers = true)]
    num: Option<OsString>,
    #[arg(short, long)]
    list: Vec<OsString>,
    #[arg(short = 'v', long, allow_hyphen_values = true)]
    anyv: Vec<OsString>,
    #[arg(short = 'm', long, allow_negative_numbers = true)]
    numv: Option<Vec<OsString>>,
    #[arg(short, long, default_value = "dd", allow_hyphen_values = true)]
    dflt: OsString,
    #[arg(short, long)]
    flag: bool,
    #[arg(short = '1')]
    one: bool,
    #[command(flatten)]
    flat: Flat,
    #[arg(short, long, global = true, allow_negative_numbers = true)]
    glob: Option<OsString>,
    rest: Vec<OsString>,
    #[command(subcommand)]
    sub: Option<Sub>,
}
#[derive(Args, PartialEq)]
struct Flat {
    #[arg(short, long, allow_hyphen_values = true)]
    inner: Option<OsString>,
    #[arg(short = 'j', long)]
    jnner: Option<OsString>,
}
#[derive(Subcommand, PartialEq)]
enum Sub {
    Sub {
        #[arg(short, long)]
        key: Option<OsString>,
        #[arg(short = 'e', long, allow_hyphen_values = true)]
        ekey: Option<OsString>,
        #[arg(short = 'x', long, allow_negative_numbers = true)]
        xkey: Option<OsString>,
    },
}
/// The hyphen policies: 0 none, 1 any, 2 negative numbers.
const OPTS: [(&str, &str, u8); 10] = [
    ("plain", "p", 0), ("any", "a", 1), ("num", "n", 2), ("list", "l", 0), ("anyv", "v", 1), ("numv", "m", 2), ("dflt", "d", 1),
    ("inner", "i", 1), ("jnner", "j", 0), ("glob", "g", 2),
];
const SUBOPTS: [(&str, &str, u8); 4] = [("key", "k", 0), ("ekey", "e", 1), ("xkey", "x", 2), ("glob", "g", 2)];
fn takes(policy: u8, w: &[u8]) -> bool {
    w.is_empty() || w[0] != b'-' || w.len() == 1 || policy == 1 || (policy == 2 && w[1..].iter().all(|b| *b >= b'0' && *b <= b'9'))
}
fn only<'a>(l: &'a [OsString]) -> Option<&'a OsString> {
    if l.len() == 1 { l.first() } else { None }
}
fn value<'a>(c: &'a Cli, name: &str) -> Option<&'a OsString> {
    match name {
        "plain" => c.plain.as_ref(),
        "any" => c.any.as_ref(),
        "num" => c.num.as_ref(),
        "list" => only(&c.list),
        "anyv" => only(&c.anyv),
        "numv" => c.numv.as_ref().and_then(|x| only(x)),
        "dflt" => Some(&c.dflt),
        "inner" => c.flat.inner.as_ref(),
        "jnner" => c.flat.jnner.as_ref(),
        "glob" => c.glob.as_ref(),
        _ => match c.sub.as_ref() {
            Some(Sub::Sub { key, ekey, xkey }) => match name { "key" => key.as_ref(), "ekey" => ekey.as_ref(), _ => xkey.as_ref() },
            None => None,
        },
    }
}
/// Number of fields that are not at their initial value.
fn count(c: &Cli) -> usize {
    let o = |x: &Option<OsString>| x.is_some() as usize;
    let sub = match &c.sub { None => 0, Some(Sub::Sub { key, ekey, xkey }) => o(key) + o(ekey) + o(xkey) };
    o(&c.plain) + o(&c.any) + o(&c.num) + c.list.len() + c.anyv.len() + c.numv.as_ref().map_or(0, |x| x.len())
        + (raw(&c.dflt) != b"dd") as usize + c.flag as usize + c.one as usize + o(&c.flat.inner) + o(&c.flat.jnner) + o(&c.glob) + c.rest.len() + sub
}
fn follow(o: (&str, &str, u8), before: Vec<OsString>, bundle: &str, w: Option<OsString>) {
    let mut l = before;
    let flags = bundle.len();
    if flags == 0 && flip() {
        l.push(cat(&[b"--", o.0.as_bytes()]));
    } else {
        l.push(cat(&[b"-", bundle.as_bytes(), o.1.as_bytes()]));
    }
    if let Some(w) = &w {
        l.push(w.clone());
    }
    let r = parse::<Cli>(l);
    emit_end(&r);
    match (r, w) {
        (Ok(c), Some(w)) => {
            reach!();
            check!(takes(o.2, raw(&w)), "only an allowed word is taken as value");
            check!(value(&c, o.0).map(|x| raw(x)) == Some(raw(&w)), "the word taken is the value");
            check!(count(&c) == flags + (o.0 != "dflt" || raw(&w) != b"dd") as usize, "a word taken as value has no other effect");
        }
        (Ok(_), None) => check!(false, "a missing value is not accepted"),
        (Err(e), Some(w)) => {
            reach!();
            check!(!takes(o.2, raw(&w)) && class(&e) == Class::MissingValue, "otherwise it fails for want of a value");
        }
        (Err(e), None) => { reach!(); check!(class(&e) == Class::MissingValue, "at the end of the line it fails for want of a value") }
    }
}

scenarios! {
    [quick, "10 options of the 3 policies, long and short, the next word 0..=4 arbitrary bytes or none"]
    fn p10_follow() {
        let o = pick(&OPTS);
        let w = if choice(2) == 0 { None } else { Some(tok(0, 4)) };
        follow(o, vec![], "", w);
    }
    [quick, "the option at the end of a bundle of 1..=2 flags, the next word 0..=3 arbitrary bytes or none"]
    fn p10_bundle() {
        let o = pick(&OPTS);
        let w = if choice(2) == 0 { None } else { Some(tok(0, 3)) };
        let b = pick(&["f", "1", "1f"]);
        follow(o, vec![], b, w);
    }
    [quick, "4 options inside a subcommand, the next word 0..=4 arbitrary bytes or none"]
    fn p10_sub() {
        let o = pick(&SUBOPTS);
        let w = if choice(2) == 0 { None } else { Some(tok(0, 4)) };
        follow(o, vec![s("sub")], "", w);
    }
    [quick, "negative numbers: '-' then 5..=12 bytes of which two are arbitrary at any two neighbouring places"]
    fn p10_digits() {
        let n = len(5, 12);
        let mut w = vec![b'7'; n + 1];
        w[0] = b'-';
        let i = 1 + choice(n - 1);
        w[i] = byte();
        w[i + 1] = byte();
        follow(("num", "n", 2), vec![], "", Some(os(w)));
    }
    [quick, "numbers of 14 lengths up to 1030 digits after '-', all of one digit, one byte arbitrary"]
    fn p10_huge() {
        let n = pick(&SIZES);
        let mut w = vec![pick(&[b'0', b'1', b'9']); n];
        w[0] = b'-';
        let i = pick(&[1, 2, n / 2, n - 1]);
        w[i] = byte();
        follow(pick(&[("num", "n", 2), ("glob", "g", 2), ("plain", "p", 0)]), vec![], "", Some(os(w)));
    }
    [quick, "words that are options, '--', subcommand names or help, after each option"]
    fn p10_words() {
        let o = pick(&OPTS);
        let w = pick(&["--", "---", "--flag", "-f", "-1", "-11", "--help", "-h", "sub", "--plain=1", "-p", "--1", "-1f", "- ", "-0x1", "-1.5", "-+1", "-\u{663}"]);
        follow(o, vec![], "", Some(s(w)));
    }
    [quick, "an attached value (after '=' or directly) leaves the next word alone: values of 0..=1, next word of 0..=2 arbitrary plain bytes"]
    fn p10_attached() {
        let o = pick(&OPTS);
        let v = bytes(len(0, 1));
        let w = match choice(3) {
            0 => cat(&[b"--", o.0.as_bytes(), b"=", &v]),
            1 => cat(&[b"-", o.1.as_bytes(), b"=", &v]),
            _ => { assume(attachable(&v)); cat(&[b"-", o.1.as_bytes(), &v]) }
        };
        let next = tok(0, 2);
        assume(plain(raw(&next)));
        let r = parse::<Cli>(vec![w, next.clone()]);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(value(&c, o.0).map(|x| raw(x)) == Some(&v[..]) && c.rest.len() == 1 && raw(&c.rest[0]) == raw(&next), "the next word is read on its own");
            }
            Err(_) => check!(false, "an attached value suffices"),
        }
    }
    [quick, "two options in a row, each with the next word of 0..=2 arbitrary bytes"]
    fn p10_two() {
        let (a, b) = (pick(&OPTS), pick(&OPTS));
        assume(a.0 != b.0);
        let (v, w) = (tok(0, 2), tok(0, 2));
        let r = parse::<Cli>(vec![cat(&[b"--", a.0.as_bytes()]), v.clone(), cat(&[b"-", b.1.as_bytes()]), w.clone()]);
        emit_end(&r);
        let (ta, tb) = (takes(a.2, raw(&v)), takes(b.2, raw(&w)));
        match r {
            Ok(c) => {
                reach!();
                check!(ta && tb, "only allowed words are taken as values");
                check!(value(&c, a.0).map(|x| raw(x)) == Some(raw(&v)) && value(&c, b.0).map(|x| raw(x)) == Some(raw(&w)), "each option takes its next word");
            }
            Err(e) => check!(!(ta && tb) && class(&e) == Class::MissingValue, "otherwise it fails for want of a value"),
        }
    }
    [deep, "10 options of the 3 policies, the next word 5..=8 arbitrary bytes"]
    fn p10_deep() {
        let o = pick(&OPTS);
        let w = tok(5, 8);
        follow(o, vec![], "", Some(w));
    }
    [quick, "options of all combinations of attributes in 54 definitions under every name, without inline value, the next word of 0..=3 arbitrary bytes or none"]
    fn p10_matrix() {
        let a = mx::at(mx::PLAIN);
        let r = a.option(|o| mx::takes(o) && o.rules.names.is_empty());
        let mut w = vec![s(pick(&a.names(r)))];
        if flip() {
            w.push(tok(0, 3));
        }
        let l = a.line(w, &[(r.level, r.index)]);
        match a.agree(l) {
            1 => reach!(),
            2 => reach!(),
            _ => {}
        }
    }
}
