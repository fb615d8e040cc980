//! ignore_case accepts every ASCII casing of the names and nothing else.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand, ValueEnum};
use std::ffi::OsString;

#[derive(Clone, Copy, PartialEq, ValueEnum)]
enum Kind {
    On,
    FooBar,
    #[value(name = "x[1")]
    Marks,
    #[value(name = "é@z")]
    Acc,
    #[value(name = "k\u{212a}")]
    Kelvin,
}
const NAMES: [&str; 5] = ["on", "foo-bar", "x[1", "é@z", "k\u{212a}"];
#[derive(Parser, PartialEq)]
struct Cli {
    #[arg(short, long, ignore_case = true, alias = "any")]
    ign: Option<Kind>,
    #[arg(short, long)]
    exact: Option<Kind>,
    #[arg(short, long, ignore_case = true, use_value_delimiter = true)]
    list: Vec<Kind>,
    #[arg(short, long, ignore_case = true, require_equals = true)]
    quest: Option<Option<Kind>>,
    #[arg(short, long, ignore_case = true, default_value = "foo-bar")]
    dflt: Kind,
    #[arg(short, long)]
    text: Option<OsString>,
    #[command(flatten)]
    flat: Flat,
    #[arg(short, long, global = true, ignore_case = true)]
    glob: Option<Kind>,
    pos: Option<OsString>,
    #[command(subcommand)]
    cmd: Option<Cmd>,
}
#[derive(Args, PartialEq)]
struct Flat {
    #[arg(short = 'f', long, ignore_case = true)]
    inner: Option<Kind>,
    #[arg(short = 'j', long)]
    jnner: Option<Kind>,
}
#[derive(Subcommand, PartialEq)]
enum Cmd {
    Sub {
        #[arg(short, long, ignore_case = true)]
        key: Option<Kind>,
        #[arg(short = 'z', long)]
        zed: Option<Kind>,
    },
}
fn low(v: &[u8]) -> Vec<u8> {
    v.iter().map(|b| if *b >= b'A' && *b <= b'Z' { *b + 32 } else { *b }).collect()
}
fn find(v: &[u8], ignore: bool) -> Option<usize> {
    let v = if ignore { low(v) } else { v.to_vec() };
    NAMES.iter().position(|n| n.as_bytes() == &v[..])
}
const OPTS: [(&str, &str, bool); 9] = [
    ("ign", "i", true), ("any", "i", true), ("exact", "e", false), ("list", "l", true), ("quest", "q", true), ("dflt", "d", true),
    ("inner", "f", true), ("jnner", "j", false), ("glob", "g", true),
];
fn field(c: &Cli, k: usize) -> Option<Kind> {
    match k {
        0 | 1 => c.ign,
        2 => c.exact,
        3 => if c.list.len() == 1 { Some(c.list[0]) } else { None },
        4 => c.quest.flatten(),
        5 => Some(c.dflt),
        6 => c.flat.inner,
        7 => c.flat.jnner,
        _ => c.glob,
    }
}
fn decide(k: usize, v: &[u8], l: Vec<OsString>) {
    let want = find(v, OPTS[k].2);
    let r = parse::<Cli>(l);
    emit_end(&r);
    match r {
        Ok(c) => { reach!(); check!(want.is_some() && field(&c, k).map(|x| x as usize) == want, "accepted exactly if the lowercased value is a name (or, without ignore_case, the value itself)") }
        Err(e) => { reach!(); check!(want.is_none() && class(&e) == Class::InvalidValue, "every casing of a name is accepted") }
    }
}
/// A name with every letter in any case: bytes are free but lowercase to the name.
fn cased(n: &str) -> Vec<u8> {
    n.bytes().map(|b| if b.is_ascii_lowercase() { let x = byte(); assume(x == b || x == b - 32); x } else { b }).collect()
}

scenarios! {
    [quick, "9 options, with and without ignore_case: '--name=v' with v of 0..=3 arbitrary bytes"]
    fn p22_any() {
        let k = choice(9);
        let v = bytes(len(0, 3));
        assume(k != 3 || !v.contains(&b','));
        decide(k, &v, vec![cat(&[b"--", OPTS[k].0.as_bytes(), b"=", &v])]);
    }
    [quick, "every casing of every name (bytes free up to case), in 5 spellings"]
    fn p22_cased() {
        let k = choice(9);
        let v = cased(pick(&NAMES[..4]));
        let (n, c) = (OPTS[k].0.as_bytes(), OPTS[k].1.as_bytes());
        let sp = choice(5);
        assume(k != 4 || sp < 2);
        let l = match sp {
            0 => vec![cat(&[b"--", n, b"=", &v])],
            1 => vec![cat(&[b"-", c, b"=", &v])],
            2 => vec![cat(&[b"-", c, &v])],
            3 => vec![cat(&[b"--", n]), os(v.clone())],
            _ => vec![cat(&[b"-", c]), os(v.clone())],
        };
        decide(k, &v, l);
    }
    [quick, "names with one byte arbitrary (any option with or without ignore_case)"]
    fn p22_near() {
        let k = choice(9);
        let mut v = pick(&NAMES).as_bytes().to_vec();
        let i = choice(v.len());
        v[i] = byte();
        assume(k != 3 || v[i] != b',');
        decide(k, &v, vec![cat(&[b"--", OPTS[k].0.as_bytes(), b"=", &v])]);
    }
    [quick, "letters outside ASCII and their case pairs, and neighbours of the letters ('@', '[', '`', '{') are not folded"]
    fn p22_not_letters() {
        let k = choice(9);
        let v = pick(&["É@z", "é`z", "é@Z", "x{1", "X[1", "X{1", "kk", "K\u{212a}", "KK", "\u{212a}\u{212a}", "ON", "oN", "foo_bar", "FOO-BAR", "FOO\rBAR", "Foo\u{d}bar"]).as_bytes();
        decide(k, v, vec![cat(&[b"--", OPTS[k].0.as_bytes(), b"=", v])]);
    }
    [quick, "lists: two parts and two occurrences, parts being 'on' with both bytes arbitrary, or any casing of 'foo-bar'"]
    fn p22_list() {
        let part = || if flip() { let v = bytes(2); assume(!v.contains(&b',')); v } else { cased("foo") };
        let (a, b) = (part(), bytes(2));
        assume(!b.contains(&b','));
        let f = |v: &[u8]| if v.len() == 3 { cat(&[v, b"-BAR"]) } else { os(v.to_vec()) };
        let (a, b) = (f(&a), f(&b));
        let l = if flip() { vec![cat(&[b"-l=", raw(&a), b",", raw(&b)])] } else { vec![cat(&[b"-l=", raw(&a)]), cat(&[b"--list=", raw(&b)])] };
        let r = parse::<Cli>(l);
        emit_end(&r);
        let (x, y) = (find(raw(&a), true), find(raw(&b), true));
        match r {
            Ok(c) => { reach!(); check!(c.list.len() == 2 && Some(c.list[0] as usize) == x && Some(c.list[1] as usize) == y, "each part is folded on its own") }
            Err(e) => check!((x.is_none() || y.is_none()) && class(&e) == Class::InvalidValue, "every casing of a name is accepted"),
        }
    }
    [quick, "other options, positionals and subcommand names keep their case: 0..=3 arbitrary bytes beside an ignore_case option"]
    fn p22_others() {
        let v = bytes(len(0, 3));
        let k = choice(3);
        let l = match k {
            0 => vec![s("-i=ON"), cat(&[b"--text=", &v])],
            1 => vec![cat(&[b"-t=", &v]), s("--ign"), s("oN")],
            _ => { assume(plain(&v) && v != b"sub"); vec![s("-i"), s("On"), os(v.clone())] }
        };
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(c.ign == Some(Kind::On) && if k == 2 { c.pos } else { c.text }.as_ref().map(|x| raw(x)) == Some(&v[..]), "other values are untouched") }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "in a subcommand: own option with ignore_case, own without, and a global one; two bytes arbitrary"]
    fn p22_sub() {
        let v = bytes(2);
        let k = choice(3);
        let n = ["--key=", "--zed=", "--glob="][k];
        let want = find(&v, k != 1);
        let r = parse::<Cli>(vec![s("sub"), cat(&[n.as_bytes(), &v])]);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                let Some(Cmd::Sub { key, zed }) = c.cmd else { check!(false, "the subcommand is entered"); return };
                let x = [key, zed, c.glob][k];
                check!(want.is_some() && x.map(|x| x as usize) == want, "accepted exactly if the lowercased value is a name (or, without ignore_case, the value itself)");
            }
            Err(e) => check!(want.is_none() && class(&e) == Class::InvalidValue, "every casing of a name is accepted"),
        }
    }
    [deep, "9 options: v of 4..=7 arbitrary bytes"]
    fn p22_deep() {
        let k = choice(9);
        let v = bytes(len(4, 7));
        assume(k != 3 || !v.contains(&b','));
        decide(k, &v, vec![cat(&[b"--", OPTS[k].0.as_bytes(), b"=", &v])]);
    }
    [quick, "value enum options of all combinations of attributes in 54 definitions, every spelling: 1..=3 arbitrary bytes, or a name with one byte changed"]
    fn p22_matrix() {
        let a = mx::at(mx::PLAIN);
        let r = a.option(|o| !o.rules.names.is_empty() && o.rules.ignore_case == true);
        let v = if flip() {
            bytes(len(1, 2))
        } else {
            let mut v = pick(r.opt.rules.names).as_bytes().to_vec();
            let k = choice(v.len());
            v[k] = byte();
            v
        };
        let w = mx::valued(pick(&a.names(r)), r.opt, &v);
        let l = a.line(w, &[(r.level, r.index)]);
        match a.agree(l) {
            1 => reach!(),
            2 => reach!(),
            _ => {}
        }
    }
    [quick, "options of all combinations of attributes without ignore_case in 54 definitions keep the case: every spelling, values of 1..=2 arbitrary bytes"]
    fn p22_matrix_others() {
        let a = mx::at(mx::PLAIN);
        let r = a.option(|o| o.kind != crate::model::Kind::Flag && !o.rules.ignore_case);
        let w = mx::valued(pick(&a.names(r)), r.opt, &bytes(len(1, 2)));
        let l = a.line(w, &[(r.level, r.index)]);
        match a.agree(l) {
            1 => reach!(),
            _ => {}
        }
    }
}
