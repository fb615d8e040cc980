//! Errors name the argument concerned and quote the offending input.
use crate::common::*;
use crate::model::{Kind as Sort, Outcome, Rules, Ty, interpret_all};
use crate::{check, mx, reach, scenarios};
use palc::{Args, Error, Parser, Subcommand, ValueEnum};
use std::ffi::{OsStr, OsString};
use std::str::FromStr;

#[derive(ValueEnum, PartialEq, Clone)]
enum Kind {
    Red,
    DarkBlue,
    #[value(name = "übergrün")]
    Green,
}
/// Fails with a cause telling the length, or of several lines, or empty.
#[derive(PartialEq)]
struct Never;
impl FromStr for Never {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        Err(match s.len() {
            0 => String::new(),
            1 => format!("not\n\n  {s}\n"),
            n => format!("never {n}"),
        })
    }
}
#[derive(Parser, PartialEq)]
struct Cli {
    #[arg(short, long)]
    flag: bool,
    #[arg(short = 'n', long, alias = "number", short_alias = 'N')]
    num: Option<u8>,
    #[arg(long, value_delimiter = ',')]
    list: Vec<i8>,
    #[arg(short = 'e', long, require_equals = true)]
    equal: Option<OsString>,
    #[arg(short = 'q', long, require_equals = true)]
    quest: Option<Option<u8>>,
    #[arg(long)]
    kind: Option<Kind>,
    #[arg(short = 't', value_name = "SOME TEXT")]
    text: Option<String>,
    #[arg(long, allow_hyphen_values = true)]
    never: Option<Never>,
    #[command(flatten)]
    flat: Flat,
    pos: Option<u8>,
    #[command(subcommand)]
    cmd: Option<Cmd>,
}
#[derive(Args, PartialEq)]
struct Flat {
    #[arg(long)]
    unrelated: Option<OsString>,
    #[arg(long)]
    inner: Option<u8>,
    #[arg(short = 'g', long, global = true)]
    glob: Option<u8>,
}
#[derive(Subcommand, PartialEq)]
enum Cmd {
    Sub {
        #[arg(short, long)]
        yes: bool,
        #[arg(long)]
        within: Option<u8>,
        first: Option<u8>,
        second: Option<Kind>,
    },
    Many {
        #[arg(required = true)]
        words: Vec<u8>,
    },
    Tail {
        one: Option<OsString>,
        #[arg(trailing_var_arg = true, value_name = "REST")]
        tail: Vec<u8>,
    },
}
const W: [&str; 5] = [
    "a-name-of-more-than-forty-bytes-with-many-parts", "another-name-of-more-than-forty-bytes-with-many-parts", "one name, another name and a third one, still the same",
    "x", "nämé-mit-breiten-zeichen-ähnlich-wie-die-anderen-auch",
];
#[derive(ValueEnum, PartialEq, Clone)]
enum Wide {
    #[value(name = "a-name-of-more-than-forty-bytes-with-many-parts")]
    A,
    #[value(name = "another-name-of-more-than-forty-bytes-with-many-parts")]
    B,
    #[value(name = "one name, another name and a third one, still the same")]
    C,
    #[value(name = "x")]
    D,
    #[value(name = "nämé-mit-breiten-zeichen-ähnlich-wie-die-anderen-auch")]
    E,
}
#[derive(ValueEnum, PartialEq, Clone)]
#[value(rename_all = "verbatim")]
enum Lots { V00, V01, V02, V03, V04, V05, V06, V07, V08, V09, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35 }
#[derive(ValueEnum, PartialEq, Clone)]
enum Single { Only }
#[derive(Parser, PartialEq)]
struct Sets {
    #[arg(long)]
    wide: Option<Wide>,
    #[arg(long, value_delimiter = ',')]
    lots: Vec<Lots>,
    single: Option<Single>,
}
/// ASCII and bytes that no UTF-8 text has: the escaping of wider characters is the standard library's.
fn abytes(n: usize) -> Vec<u8> {
    let v = bytes(n);
    for b in &v {
        assume(*b < 0x80 || *b >= 0xf8);
    }
    v
}
fn quoted(v: &[u8]) -> String {
    format!("{:?}", OsStr::new(&os(v.to_vec())))
}
/// The cause a text type's conversion gives, as shown.
fn cause<T: FromStr<Err: std::fmt::Display>>(v: &[u8]) -> String {
    match std::str::from_utf8(v) {
        Ok(x) => match x.parse::<T>() {
            Ok(_) => String::new(),
            Err(e) => e.to_string(),
        },
        Err(e) => e.to_string(),
    }
}
/// The whole message, with its cause.
/// The message, which is the same however it is asked for.
fn shown(e: &Error) -> String {
    let t = e.to_string();
    check!(format!("{e:#}") == t, "the message does not depend on the format");
    t
}
fn told(e: &Error, head: String, cause: &str) {
    reach!();
    let t = shown(&e);
    let src = std::error::Error::source(e);
    check!(src.is_some() == !cause.is_empty(), "there is a cause exactly if a conversion failed with one");
    if let Some(src) = src {
        check!(src.to_string() == cause, "the cause is the conversion's");
        check!(t == format!("{head}: {cause}"), "the message names the argument, quotes the input and shows the cause");
    } else {
        check!(t == head, "the message names the argument and quotes the input");
    }
}
fn err(l: Vec<OsString>) -> Option<Error> {
    let r = parse::<Cli>(l);
    emit_end(&r);
    r.err()
}

#[derive(Parser, PartialEq)]
struct Con {
    #[arg(short, long, conflicts_with = "beta")]
    alpha: Option<OsString>,
    #[arg(short, long)]
    beta: Option<OsString>,
    #[arg(short, long, requires = "delta", requires = "beta")]
    gamma: Option<OsString>,
    #[arg(short, long)]
    delta: bool,
    #[arg(short, long, exclusive = true)]
    only: Option<OsString>,
    #[arg(long, required = true, value_name = "M")]
    many: Vec<OsString>,
    #[arg(conflicts_with = "delta")]
    pos: Option<OsString>,
}
#[derive(Parser, PartialEq)]
struct Miss {
    #[arg(short, long)]
    must: OsString,
    #[command(flatten)]
    flat: MissFlat,
    pos: OsString,
    #[arg(required = true)]
    rest: Vec<OsString>,
    #[command(subcommand)]
    cmd: MissCmd,
}
#[derive(Args, PartialEq)]
struct MissFlat {
    #[arg(long)]
    inner: OsString,
}
#[derive(Subcommand, PartialEq)]
enum MissCmd {
    In {
        #[arg(short, long, required = true)]
        key: Option<OsString>,
        #[arg(short = 'c', long, requires = "key")]
        need: Option<OsString>,
    },
}
#[derive(Parser, PartialEq)]
struct Case {
    #[arg(long, ignore_case = true)]
    low: Option<Low>,
}
#[derive(ValueEnum, PartialEq, Clone)]
enum Low {
    Red,
    Blue,
}

fn unknown_wide(v: Vec<u8>) {
    let pre: &[u8] = if flip() { b"-f" } else { b"-" };
    let what = match std::str::from_utf8(&v) {
        Ok(x) => x.chars().next().unwrap().len_utf8(),
        Err(e) => if e.valid_up_to() > 0 { std::str::from_utf8(&v[..e.valid_up_to()]).unwrap().chars().next().unwrap().len_utf8() } else { v.len() },
    };
    match err(vec![cat(&[pre, &v])]) {
        Some(e) => { let w = cat(&[b"-", &v[..what]]); told(&e, format!("unexpected argument {}", quoted(raw(&w))), "") }
        None => check!(false, "not accepted"),
    }
}
/// Long inputs are quoted in full.
fn long(k: usize) {
    let mut v = lengthy();
    v.extend(abytes(1));
    assume(!v.contains(&b'='));
    let eq = |n: &str| cat(&[n.as_bytes(), b"=", &v]);
    let l = match k {
        0 => vec![cat(&[b"--", &v, b"=", &v])],
        1 => vec![eq("-fN")],
        2 => vec![s("1"), os(v.clone())],
        3 => vec![s("sub"), s("1"), s("red"), os(v.clone())],
        4 => vec![eq("--flag")],
        _ => vec![eq("-t"), s("-t=")],
    };
    match err(l) {
        Some(e) => match k {
            0 => { let w = cat(&[b"--", &v]); told(&e, format!("unexpected argument {}", quoted(raw(&w))), "") }
            1 => told(&e, format!("invalid value {} for '-n, --num <NUM>'", quoted(&v)), &cause::<u8>(&v)),
            2 => told(&e, format!("unrecognized subcommand {}", quoted(&v)), ""),
            3 => told(&e, format!("unexpected argument {}", quoted(&v)), ""),
            4 => told(&e, format!("unexpected value {} for '-f, --flag'", quoted(&v)), ""),
            _ => check!(std::str::from_utf8(&v).is_ok() && class(&e) == Class::Duplicate || std::str::from_utf8(&v).is_err(), "a long text is accepted"),
        },
        None => check!(false, "not accepted"),
    }
}
const LEVELS: [&[&str]; 3] = [&[], &["many", "1"], &["sub"]];

/// What is said of a bad value: the part quoted, the cause and the values there are.
fn verdict_of(r: &Rules, v: &[u8]) -> Option<(Vec<u8>, String)> {
    let parts: Vec<&[u8]> = match r.delimiter {
        Some(d) => v.split(|b| *b == d).collect(),
        None => vec![v],
    };
    for p in parts {
        let utf8 = std::str::from_utf8(p);
        let why = if !r.names.is_empty() {
            if r.names.iter().any(|n| n.as_bytes() == p) { continue }
            let mut names = r.names.to_vec();
            names.sort();
            format!("{}\n  [possible values: {}]", utf8.err().map_or(String::new(), |e| format!(": {e}")), names.join(", "))
        } else {
            let c = match r.ty {
                Ty::Any => String::new(),
                Ty::Text => cause::<String>(p),
                Ty::Num => cause::<i16>(p),
            };
            if c.is_empty() { continue }
            format!(": {c}")
        };
        return Some((p.to_vec(), why));
    }
    None
}
fn said(a: &mx::At, l: Vec<OsString>, want: String) {
    match mx::message_on(a.def, l) {
        Some((_, t)) => { reach!(); check!(t == want, "the message names the argument, quotes the input and shows the cause") }
        None => check!(false, "not accepted"),
    }
}
/// A value for an option or positional of any kind.
fn refused(a: &mx::At, l: Vec<OsString>, r: &Rules, d: &str, v: &[u8]) {
    // (what is quoted of a value in upper case is another matter)
    if r.ignore_case {
        assume(!v.iter().any(|b| b.is_ascii_uppercase()));
    }
    match verdict_of(r, v) {
        Some((p, why)) => said(a, l, format!("invalid value {} for '{d}'{why}", quoted(&p))),
        None => check!(mx::message_on(a.def, l).is_none_or(|(c, _)| c != Class::InvalidValue), "a good value is not called invalid"),
    }
}
fn matrix(a: mx::At) {
    let r = a.option(|_| true);
    let o = r.opt;
    let d = o.shown.as_;
    let n = pick(&a.names(r));
    let mut l = mx::path(&a);
    let form = |v: &[u8]| cat(&[n.as_bytes(), b"=", v]);
    match choice(4) {
        0 => {
            assume(o.kind != Sort::List);
            for _ in 0..2 {
                l.push(if mx::takes(o) { form(mx::good(&o.rules).as_bytes()) } else { s(n) });
            }
            said(&a, l, format!("the argument '{d}' cannot be used multiple times"))
        }
        1 => {
            assume(o.kind == Sort::Flag);
            let v = abytes(len(0, 2));
            l.push(form(&v));
            said(&a, l, format!("unexpected value {} for '{d}'", quoted(&v)))
        }
        2 => {
            assume(mx::takes(o));
            l.push(s(n));
            if !o.hyphen && flip() {
                l.push(cat(&[b"--", &abytes(len(0, 1))]));
            }
            said(&a, l, if o.eq { format!("equal sign is needed when assigning values for '{d}'") } else { format!("a value is required for '{d}' but none was supplied") })
        }
        _ => {
            assume(o.kind != Sort::Flag && !o.rules.free());
            let v = abytes(len(0, 2));
            l.extend(mx::valued(n, o, &v));
            refused(&a, l, &o.rules, d, &v)
        }
    }
}
fn matrix_words(a: mx::At) {
    let c = a.last();
    let p = choice(c.pos.len() + 1);
    let mut l = mx::path(&a);
    l.extend(c.pos[..p].iter().filter(|p| !p.list && !p.last).map(|p| s(mx::good(&p.rules))));
    let v = abytes(len(0, 2));
    if p == c.pos.len() {
        // one too many
        assume(!c.pos.iter().any(|p| p.list));
        if flip() { l.push(s("--")) } else { assume(plain(&v) && !c.subs.iter().any(|c| c.name.as_bytes() == v)) }
        l.push(os(v.clone()));
        return said(&a, l, if c.subs.is_empty() { format!("unexpected argument {}", quoted(&v)) } else { format!("unrecognized subcommand {}", quoted(&v)) });
    }
    let p = &c.pos[p];
    assume(!p.rules.free());
    if p.last || !c.pos.iter().any(|p| p.last) && flip() { l.push(s("--")) } else { assume(plain(&v) && !c.subs.iter().any(|c| c.name.as_bytes() == v)) }
    l.push(os(v.clone()));
    refused(&a, l, &p.rules, p.shown.as_, &v)
}
fn matrix_rules(a: mx::At) {
    let l = mx::subset(&a, false);
    let words: Vec<Vec<u8>> = l.iter().map(|w| raw(w).to_vec()).collect();
    let (o, breaches) = interpret_all(mx::TABLES[a.def], &words, true);
    if !matches!(o, Outcome::Broken(_)) {
        return;
    }
    if let Some((k, t)) = mx::message_on(a.def, l) {
        reach!();
        let told = breaches.iter().any(|(class, level, i)| {
            let d = if *class == Class::RequiredSub { "" } else { mx::shown(a.cmds[*level], *i) };
            *class == k && t == match class {
                Class::Required => format!("the argument '{d}' is required but not provided"),
                Class::RequiredSub => "the subcommand is required but not provided".to_string(),
                Class::Requires => format!("the argument '{d}' is required because some dependency arguments are provided"),
                Class::Exclusive => format!("the argument '{d}' cannot be used with one or more of the other specified arguments"),
                _ => format!("the argument '{d}' cannot be used with some other arguments"),
            }
        });
        check!(told, "the message names an argument that is missing or goes badly with others");
    }
}
scenarios! {
    [quick, "unknown long option: '--' and 1..=2 bytes below 0x80 or from 0xf8 on, with '=' and 0..=1 such bytes or alone, at 2 levels"]
    fn p27_unknown_long() {
        let n = abytes(len(1, 2));
        assume(!n.contains(&b'='));
        let at = pick(&[0, 2]);
        let mut l: Vec<OsString> = LEVELS[at].iter().map(|x| s(x)).collect();
        l.push(if flip() { cat(&[b"--", &n, b"=", &abytes(len(0, 1))]) } else { cat(&[b"--", &n]) });
        match err(l) {
            Some(e) if class(&e) != Class::Other => { let w = cat(&[b"--", &n]); told(&e, format!("unexpected argument {}", quoted(raw(&w))), "") }
            _ => check!(false, "not accepted, nor taken for a request of help"),
        }
    }
    [quick, "unknown short options: a bundle of one arbitrary byte, alone or after '-f' or followed by '=v' or another"]
    fn p27_unknown_short() {
        let b = byte();
        assume(b.is_ascii() && !b"fneqtgNh-=".contains(&b));
        let l = match choice(4) {
            0 => cat(&[b"-", &[b]]),
            1 => cat(&[b"-f", &[b]]),
            2 => cat(&[b"-", &[b], b"=v"]),
            _ => cat(&[b"-f", &[b], b"n"]),
        };
        match err(vec![l]) {
            Some(e) => told(&e, format!("unexpected argument {}", quoted(&[b'-', b])), ""),
            None => check!(false, "not accepted"),
        }
    }
    [quick, "unknown short options beyond ASCII: one byte from 0x80 on and 0..=2 below 0x80 or from 0xf8 on, alone or after '-f': the rest, as it is not UTF-8"]
    fn p27_unknown_wide() {
        let mut v = bytes(1);
        assume(v[0] >= 0x80);
        v.extend(abytes(len(0, 2)));
        unknown_wide(v);
    }
    [deep, "unknown short options beyond ASCII: 2 bytes, the first from 0x80 on, alone or after '-f'"]
    fn p27_unknown_wide_deep() {
        let v = bytes(2);
        assume(v[0] >= 0x80);
        unknown_wide(v);
    }
    [quick, "words that are no subcommand, 0..=3 bytes below 0x80 or from 0xf8 on, after the positional; the same in place of an excess positional below"]
    fn p27_word() {
        let v = abytes(len(0, 3));
        assume(plain(&v));
        let sub = flip();
        let l = if sub { vec![s("sub"), s("1"), s("red"), os(v.clone())] } else { vec![s("1"), os(v.clone())] };
        match err(l) {
            Some(e) => told(&e, format!("{} {}", if sub { "unexpected argument" } else { "unrecognized subcommand" }, quoted(&v)), ""),
            None => check!(!sub && v == b"sub", "only a subcommand is accepted here"),
        }
    }
    [quick, "bad value of one of 9 options at 11 places, 0..=2 bytes below 0x80 or from 0xf8 on"]
    fn p27_value() {
        let v = abytes(len(0, 2));
        let k = choice(11);
        let eq = |n: &str| cat(&[n.as_bytes(), b"=", &v]);
        let (l, desc) = match k {
            0 => (vec![s("-f"), eq("--num")], "-n, --num <NUM>"),
            1 => (vec![eq("-fN")], "-n, --num <NUM>"),
            2 => (vec![eq("--number")], "-n, --num <NUM>"),
            3 => (vec![eq("-q")], "-q, --quest[=<QUEST>]"),
            4 => (vec![eq("--inner")], "--inner <INNER>"),
            5 => (vec![eq("-g")], "-g, --glob <GLOB>"),
            6 => (vec![s("sub"), eq("--within")], "--within <WITHIN>"),
            7 => (vec![s("sub"), s("-y"), eq("--glob")], "-g, --glob <GLOB>"),
            8 => (vec![s("--"), os(v.clone())], "[POS]"),
            9 => (vec![s("sub"), s("--"), os(v.clone())], "[FIRST]"),
            _ => (vec![s("many"), s("--"), s("1"), os(v.clone())], "<WORDS>..."),
        };
        match err(l) {
            Some(e) => told(&e, format!("invalid value {} for '{desc}'", quoted(&v)), &cause::<u8>(&v)),
            None => check!(std::str::from_utf8(&v).is_ok_and(|x| x.parse::<u8>().is_ok()), "only good values are accepted"),
        }
    }
    [quick, "bad value in a trailing list and of a text option with a value name, 0..=2 bytes below 0x80 or from 0xf8 on"]
    fn p27_more_values() {
        let v = abytes(len(0, 2));
        if flip() {
            match err(vec![s("tail"), s("a"), s("7"), os(v.clone())]) {
                Some(e) => told(&e, format!("invalid value {} for '[REST]...'", quoted(&v)), &cause::<u8>(&v)),
                None => check!(cause::<u8>(&v).is_empty(), "only good values are accepted"),
            }
        } else {
            match err(vec![cat(&[b"-ft=", &v])]) {
                Some(e) => told(&e, format!("invalid value {} for '-t <SOME TEXT>'", quoted(&v)), &cause::<String>(&v)),
                None => check!(cause::<String>(&v).is_empty(), "only good values are accepted"),
            }
        }
    }
    [quick, "values of 0..=1 arbitrary bytes after one of 6 characters of up to 4 bytes, as bad value, excess word and surplus value"]
    fn p27_wide() {
        let c = pick(&["é", "\u{301}", "漢", "🎉", "\u{200b}", "\u{85}"]);
        let mut v = c.as_bytes().to_vec();
        v.extend(bytes(len(0, 1)));
        match choice(3) {
            0 => match err(vec![cat(&[b"-n", &v])]) {
                Some(e) => told(&e, format!("invalid value {} for '-n, --num <NUM>'", quoted(&v)), &cause::<u8>(&v)),
                None => check!(false, "not accepted"),
            },
            1 => match err(vec![s("1"), os(v.clone())]) {
                Some(e) => told(&e, format!("unrecognized subcommand {}", quoted(&v)), ""),
                None => check!(false, "not accepted"),
            },
            _ => match err(vec![cat(&[b"--flag=", &v])]) {
                Some(e) => told(&e, format!("unexpected value {} for '-f, --flag'", quoted(&v)), ""),
                None => check!(false, "not accepted"),
            },
        }
    }
    [quick, "with a delimiter the bad part is quoted: '1,' and 0..=3 bytes below 0x80 or from 0xf8 on"]
    fn p27_part() {
        let v = abytes(len(0, 3));
        let bad = v.split(|b| *b == b',').find(|p| !cause::<i8>(p).is_empty());
        match err(vec![cat(&[b"--list=1,", &v])]) {
            Some(e) => match bad {
                Some(p) => told(&e, format!("invalid value {} for '--list <LIST>'", quoted(p)), &cause::<i8>(p)),
                None => check!(false, "only bad values are rejected"),
            },
            None => check!(bad.is_none(), "only good values are accepted"),
        }
    }
    [quick, "a cause of its own type, empty, of several lines or of one: any value of 0..=2 bytes below 0x80 or from 0xf8 on"]
    fn p27_cause() {
        let v = abytes(len(0, 2));
        match err(vec![s("--never"), os(v.clone())]) {
            Some(e) if v.is_empty() => {
                check!(std::error::Error::source(&e).is_some_and(|c| c.to_string().is_empty()), "an empty cause is a cause");
                check!(shown(&e).starts_with("invalid value \"\" for '--never <NEVER>'"), "the message names the argument and quotes the input");
            }
            Some(e) => told(&e, format!("invalid value {} for '--never <NEVER>'", quoted(&v)), &cause::<Never>(&v)),
            None => check!(false, "never accepted"),
        }
    }
    [quick, "bad value of an enum, as option or positional, 0..=3 bytes below 0x80 or from 0xf8 on: quoted, with all possible values"]
    fn p27_enum() {
        let v = abytes(len(0, 3));
        let opt = flip();
        let l = if opt { vec![cat(&[b"--kind=", &v])] } else { vec![s("sub"), s("1"), s("--"), os(v.clone())] };
        match err(l) {
            Some(e) => {
                reach!();
                let (c, d) = (cause::<String>(&v), if opt { "--kind <KIND>" } else { "[SECOND]" });
                let head = format!("invalid value {} for '{d}'", quoted(&v));
                let t = shown(&e);
                let rest = t.strip_prefix(&*head);
                check!(rest.is_some(), "it is named and quoted");
                let rest = rest.unwrap();
                check!(std::error::Error::source(&e).is_some() == !c.is_empty() && (c.is_empty() || rest.starts_with(&format!(": {c}"))), "with the cause if it is not text");
                let at = rest.find("possible values: ");
                check!(at.is_some() && ["red", "dark-blue", "übergrün"].iter().all(|n| rest[at.unwrap()..].contains(n)), "all names are listed");
            }
            None => check!(v == b"red", "only names are accepted"),
        }
    }
    [quick, "bad value of an enum with 5 long names, with 36, or with one, 0..=2 bytes below 0x80 or from 0xf8 on: all names are listed, and no others"]
    fn p27_enum_many() {
        let v = abytes(len(0, 2));
        let lots: Vec<String> = (0..36).map(|i| format!("V{i:02}")).collect();
        let (l, names): (_, Vec<&str>) = match choice(3) {
            0 => (cat(&[b"--wide=", &v]), W.to_vec()),
            1 => {
                assume(!v.contains(&b','));
                (cat(&[b"--lots=", &v]), lots.iter().map(|x| &**x).collect())
            }
            _ => {
                assume(v.first() != Some(&b'-'));
                (os(v.clone()), vec!["only"])
            }
        };
        match parse::<Sets>(vec![l]) {
            Err(e) => {
                reach!();
                let t = shown(&e);
                let at = t.find("possible values: ");
                check!(at.is_some(), "they are listed");
                let mut rest = t[at.unwrap() + 17..].to_string();
                let mut longest = names.clone();
                longest.sort_by_key(|n| std::cmp::Reverse(n.len()));
                for n in longest {
                    check!(rest.contains(n), "every name is listed");
                    rest = rest.replacen(n, "", 1);
                }
                check!(!rest.bytes().any(|b| b.is_ascii_alphanumeric() || b == b'.'), "nothing else is");
            }
            Ok(_) => { reach!(); check!(v == b"x", "only names are accepted") }
        }
    }
    [quick, "a value where none is taken: '--flag=' or '-f=' or '-y=' in a subcommand and 0..=2 bytes below 0x80 or from 0xf8 on"]
    fn p27_surplus() {
        let v = abytes(len(0, 2));
        let (l, desc) = match choice(4) {
            0 => (vec![cat(&[b"--flag=", &v])], "-f, --flag"),
            1 => (vec![cat(&[b"-f=", &v])], "-f, --flag"),
            2 => (vec![s("sub"), cat(&[b"--yes=", &v])], "-y, --yes"),
            _ => (vec![s("--num=1"), s("sub"), cat(&[b"-y=", &v])], "-y, --yes"),
        };
        match err(l) {
            Some(e) => told(&e, format!("unexpected value {} for '{desc}'", quoted(&v)), ""),
            None => check!(false, "not accepted"),
        }
    }
    [quick, "no value: 9 options at the end or before '-' and 1..=2 bytes below 0x80 or from 0xf8 on; or without the '=' it needs"]
    fn p27_no_value() {
        let (pre, o, desc): (&[&str], _, _) = pick(&[
            (&[][..], "--num", "-n, --num <NUM>"), (&[], "-n", "-n, --num <NUM>"), (&[], "-fN", "-n, --num <NUM>"), (&[], "--list", "--list <LIST>"),
            (&[], "--kind", "--kind <KIND>"), (&[], "-ft", "-t <SOME TEXT>"), (&[], "--inner", "--inner <INNER>"),
            (&["sub"], "--within", "--within <WITHIN>"), (&["sub"], "-yg", "-g, --glob <GLOB>"),
        ]);
        let mut l: Vec<OsString> = pre.iter().map(|x| s(x)).collect();
        l.push(s(o));
        if flip() { l.push(cat(&[b"-", &abytes(len(1, 2))])) }
        match err(l) {
            Some(e) => told(&e, format!("a value is required for '{desc}' but none was supplied"), ""),
            None => check!(false, "not accepted"),
        }
    }
    [quick, "no '=': '--equal', '-e', '-q' followed by 1..=2 bytes below 0x80 or from 0xf8 on in the word, or by a word of 0..=2"]
    fn p27_no_equals() {
        let v = abytes(len(1, 2));
        assume(v[0] != b'=');
        let w = os(abytes(len(0, 2)));
        let (l, desc) = match choice(4) {
            0 => (vec![s("--equal"), w], "-e, --equal=<EQUAL>"),
            1 => (vec![s("-e"), w], "-e, --equal=<EQUAL>"),
            2 => (vec![cat(&[b"-fe", &v])], "-e, --equal=<EQUAL>"),
            _ => (vec![cat(&[b"-q", &v])], "-q, --quest[=<QUEST>]"),
        };
        match err(l) {
            Some(e) => told(&e, format!("equal sign is needed when assigning values for '{desc}'"), ""),
            None => check!(false, "not accepted"),
        }
    }
    [quick, "twice: 8 options in two spellings with a value of 0..=2 bytes below 0x80 or from 0xf8 on the second time"]
    fn p27_twice() {
        let v = abytes(len(0, 2));
        let (l, desc) = match choice(8) {
            0 => (vec![s("-f"), s("--flag")], "-f, --flag"),
            1 => (vec![s("-fnf")], ""),
            2 => (vec![s("--num=1"), cat(&[b"-N=", &v])], "-n, --num <NUM>"),
            3 => (vec![s("--kind=red"), s("-f"), cat(&[b"--kind=", &v])], "--kind <KIND>"),
            4 => (vec![s("-g1"), s("sub"), cat(&[b"--glob=", &v])], "-g, --glob <GLOB>"),
            5 => (vec![s("sub"), s("-y"), s("-y")], "-y, --yes"),
            6 => (vec![s("-q"), cat(&[b"--quest=", &v])], "-q, --quest[=<QUEST>]"),
            _ => (vec![s("--inner=1"), cat(&[b"--inner=", &v])], "--inner <INNER>"),
        };
        assume(!desc.is_empty());
        match err(l) {
            Some(e) => told(&e, format!("the argument '{desc}' cannot be used multiple times"), ""),
            None => check!(false, "not accepted"),
        }
    }
    [quick, "constraints: 7 violations, each alone; values of 0..=1 bytes below 0x80 or from 0xf8 on"]
    fn p27_constraint() {
        let v = abytes(len(0, 1));
        let o = |n: &str| cat(&[n.as_bytes(), b"=", &v]);
        let m = s("--many=1");
        let (l, msg) = match choice(8) {
            0 => (vec![o("-a"), o("-b"), m], "the argument '-a, --alpha <ALPHA>' cannot be used with some other arguments"),
            1 => (vec![s("-d"), m, s("p")], "the argument '[POS]' cannot be used with some other arguments"),
            2 => (vec![o("--gamma"), m], "the argument '-d, --delta' is required because some dependency arguments are provided"),
            3 => (vec![o("--gamma"), s("-d"), m], "the argument '-b, --beta <BETA>' is required because some dependency arguments are provided"),
            4 => (vec![o("--gamma"), o("-b"), m], "the argument '-d, --delta' is required because some dependency arguments are provided"),
            5 => (vec![o("--only"), o("-b")], "the argument '-o, --only <ONLY>' cannot be used with one or more of the other specified arguments"),
            6 => (vec![s("p"), o("-o")], "the argument '-o, --only <ONLY>' cannot be used with one or more of the other specified arguments"),
            _ => (vec![o("--beta")], "the argument '--many <M>' is required but not provided"),
        };
        let r = parse::<Con>(l);
        emit_end(&r);
        match r {
            Ok(_) => check!(false, "not accepted"),
            Err(e) => told(&e, String::from(msg), ""),
        }
    }
    [quick, "one required argument missing out of 5, or the subcommand, or what a subcommand requires; values of 0..=1 bytes below 0x80 or from 0xf8 on"]
    fn p27_missing() {
        let v = abytes(len(0, 1));
        assume(plain(&v));
        let k = choice(7);
        let mut l = vec![];
        if k != 0 { l.push(cat(&[b"--must=", &v])) }
        if k != 1 { l.push(cat(&[b"--inner=", &v])) }
        if k != 2 { l.push(os(v.clone())) }
        if k != 2 && k != 3 { l.push(os(v.clone())) }
        if k != 4 { l.push(s("in")) }
        if k < 4 { l.push(cat(&[b"-k=", &v])) }
        if k == 5 { l.push(cat(&[b"-c=", &v])) }
        let msg = match k {
            0 => "the argument '-m, --must <MUST>' is required but not provided",
            1 => "the argument '--inner <INNER>' is required but not provided",
            2 => "the argument '<POS>' is required but not provided",
            3 => "the argument '<REST>...' is required but not provided",
            4 => "the subcommand is required but not provided",
            5 => "the argument '-k, --key <KEY>' is required because some dependency arguments are provided",
            _ => "the argument '-k, --key <KEY>' is required but not provided",
        };
        let r = parse::<Miss>(l);
        emit_end(&r);
        match r {
            Ok(_) => check!(false, "not accepted"),
            Err(e) => told(&e, String::from(msg), ""),
        }
    }
    [quick, "with ignore_case: a bad value of 1..=2 bytes below 0x80 or from 0xf8 on is quoted, in lower case or as typed"]
    fn p27_ignore_case() {
        let v = abytes(len(1, 2));
        let r = parse::<Case>(vec![cat(&[b"--low=", &v])]);
        emit_end(&r);
        match r {
            Ok(_) => check!(false, "not accepted"),
            Err(e) => {
                reach!();
                let t = shown(&e);
                let low = v.to_ascii_lowercase();
                let asis = t.starts_with(&format!("invalid value {} for '--low <LOW>'", quoted(&v)));
                check!(asis || t.starts_with(&format!("invalid value {} for '--low <LOW>'", quoted(&low))), "it is named and quoted, whatever the case");
            }
        }
    }
    [quick, "with ignore_case: the value RED1"]
    fn p27_ignore_case_typed() {
        let r = parse::<Case>(vec![s("--low=RED1")]);
        match r {
            Ok(_) => check!(false, "not accepted"),
            Err(e) => check!(shown(&e).starts_with("invalid value \"RED1\" for '--low <LOW>'"), "it is quoted as typed"),
        }
    }
    [quick, "inputs of up to 4000 bytes at 6 places: 14 numbers of one of 4 characters, the place of a cut varied, and one byte below 0x80 or from 0xf8 on"]
    fn p27_long() {
        long(choice(6));
    }
    [deep, "unknown long option of 3 bytes below 0x80 or from 0xf8 on"]
    fn p27_unknown_long_deep() {
        let n = abytes(3);
        assume(!n.contains(&b'=') && n != b"num");
        match err(vec![cat(&[b"--", &n])]) {
            Some(e) => { let w = cat(&[b"--", &n]); told(&e, format!("unexpected argument {}", quoted(raw(&w))), "") }
            None => check!(false, "not accepted"),
        }
    }
    [deep, "bad number of 4..=5 bytes below 0x80 or from 0xf8 on"]
    fn p27_deep() {
        let v = abytes(len(4, 5));
        match err(vec![cat(&[b"--num=", &v])]) {
            Some(e) => told(&e, format!("invalid value {} for '-n, --num <NUM>'", quoted(&v)), &cause::<u8>(&v)),
            None => check!(cause::<u8>(&v).is_empty(), "only good values are accepted"),
        }
    }
    [quick, "127 definitions with all combinations of attributes, every command, each option by each name: repeated, with a value it does not take, without one it needs, or with a bad one (0..=2 bytes below 0x80 or from 0xf8 on, any form)"]
    fn p27_matrix() { matrix(mx::at(0..mx::TABLES.len())) }
    [quick, "127 definitions with all combinations of attributes, every command: bad values of each positional and excess words, 0..=2 bytes below 0x80 or from 0xf8 on"]
    fn p27_matrix_words() { matrix_words(mx::at(0..mx::TABLES.len())) }
    [quick, "48 definitions with all combinations of attributes and constraints, every command, every subset of the fields: what is told about a violated constraint"]
    fn p27_matrix_rules() { matrix_rules(mx::at(mx::RULED)) }
}
