//! A value delimiter splits every occurrence into all its parts.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand};
use std::ffi::OsString;

#[derive(Parser, PartialEq)]
struct Cli {
    #[arg(short, long, use_value_delimiter = true)]
    comma: Vec<OsString>,
    #[arg(short = 'l', long, value_delimiter = ':')]
    colon: Option<Vec<OsString>>,
    #[arg(short, long, value_delimiter = 'é')]
    acc: Vec<OsString>,
    #[arg(short, long, value_delimiter = '我')]
    me: Vec<OsString>,
    #[arg(short = 'u', long, value_delimiter = '\u{1F600}')]
    uni: Option<Vec<OsString>>,
    #[arg(short = 'e', long, value_delimiter = '=')]
    eq: Vec<OsString>,
    #[arg(short = 'd', long, value_delimiter = '-', allow_hyphen_values = true)]
    dash: Vec<OsString>,
    #[arg(short, long)]
    whole: Vec<OsString>,
    #[arg(short, long)]
    one: Option<OsString>,
    #[arg(short, long, use_value_delimiter = true)]
    nums: Vec<u8>,
    #[command(flatten)]
    flat: Flat,
    #[arg(short, long, global = true, use_value_delimiter = true)]
    glob: Vec<OsString>,
    #[arg(use_value_delimiter = true)]
    rest: Vec<OsString>,
    #[command(subcommand)]
    cmd: Option<Cmd>,
}
#[derive(Args, PartialEq)]
struct Flat {
    #[arg(short, long, value_delimiter = ';')]
    inner: Vec<OsString>,
}
#[derive(Subcommand, PartialEq)]
enum Cmd {
    Sub {
        #[arg(short, long, use_value_delimiter = true)]
        key: Vec<OsString>,
        #[arg(value_delimiter = '/')]
        rest: Vec<OsString>,
    },
}
const OPTS: [(&str, &str, &str); 10] = [
    ("comma", "c", ","), ("colon", "l", ":"), ("acc", "a", "é"), ("me", "m", "我"), ("uni", "u", "\u{1F600}"), ("eq", "e", "="), ("dash", "d", "-"),
    ("whole", "w", ""), ("inner", "i", ";"), ("glob", "g", ","),
];
fn field(c: &Cli, k: usize) -> &[OsString] {
    match k {
        0 => &c.comma,
        1 => c.colon.as_deref().unwrap_or(&[]),
        2 => &c.acc,
        3 => &c.me,
        4 => c.uni.as_deref().unwrap_or(&[]),
        5 => &c.eq,
        6 => &c.dash,
        7 => &c.whole,
        8 => &c.flat.inner,
        _ => &c.glob,
    }
}
/// The parts between delimiters, all of them.
fn parts(v: &[u8], d: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    let mut i = 0;
    while i < v.len() {
        if !d.is_empty() && v[i..].starts_with(d) {
            out.push(vec![]);
            i += d.len();
        } else {
            let n = out.len() - 1;
            out[n].push(v[i]);
            i += 1;
        }
    }
    out
}
fn list_is(got: &[OsString], want: &[Vec<u8>]) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(a, b)| raw(a) == &b[..])
}
fn others_empty(c: &Cli, k: usize) -> bool {
    (0..10).all(|i| i == k || field(c, i).is_empty()) && c.one.is_none() && c.nums.is_empty()
}
fn spell(k: usize, v: &[u8]) -> Vec<OsString> {
    let (n, c) = (OPTS[k].0.as_bytes(), OPTS[k].1.as_bytes());
    match choice(4) {
        0 => vec![cat(&[b"--", n, b"=", v])],
        1 => vec![cat(&[b"-", c, b"=", v])],
        2 => { assume(attachable(v)); vec![cat(&[b"-", c, v])] }
        _ => { assume(plain(v) || k == 6); vec![cat(&[b"--", n]), os(v.to_vec())] }
    }
}

#[derive(Parser, PartialEq)]
struct Words {
    #[arg(value_delimiter = ',')]
    words: Vec<OsString>,
}

scenarios! {
    [quick, "10 list options (6 ASCII delimiters, 2-, 3- and 4-byte ones, none): one occurrence of 0..=4 arbitrary bytes after '='"]
    fn p23_one() {
        let k = choice(10);
        let v = bytes(len(0, 4));
        let r = parse::<Cli>(vec![cat(&[b"--", OPTS[k].0.as_bytes(), b"=", &v])]);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(list_is(field(&c, k), &parts(&v, OPTS[k].2.as_bytes())), "exactly the parts between delimiters, in order"); check!(others_empty(&c, k) && c.rest.is_empty(), "nothing else") }
            Err(_) => check!(false, "any parts are accepted"),
        }
    }
    [quick, "10 list options in 4 spellings, 0..=2 arbitrary bytes"]
    fn p23_spellings() {
        let k = choice(10);
        let v = bytes(len(0, 2));
        let r = parse::<Cli>(spell(k, &v));
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(list_is(field(&c, k), &parts(&v, OPTS[k].2.as_bytes())) && others_empty(&c, k) && c.rest.is_empty(), "exactly the parts between delimiters, in order") }
            Err(_) => check!(false, "any parts are accepted"),
        }
    }
    [quick, "multi-byte delimiters among arbitrary bytes: x d y d z with x, y, z of 0..=2 arbitrary bytes (the second delimiter optional)"]
    fn p23_multibyte() {
        let k = 2 + choice(3);
        let d = OPTS[k].2.as_bytes();
        let two = flip();
        let m = if two { 1 } else { 2 };
        let (x, y, z) = (bytes(len(0, m)), bytes(len(0, m)), bytes(if two { len(0, 1) } else { 0 }));
        let v = cat(&[&x, d, &y, if two { d } else { b"" }, &z]);
        let r = parse::<Cli>(vec![cat(&[b"--", OPTS[k].0.as_bytes(), b"=", raw(&v)])]);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(list_is(field(&c, k), &parts(raw(&v), d)), "exactly the parts between delimiters, in order");
                let joined = field(&c, k).iter().map(|x| raw(x).to_vec()).collect::<Vec<_>>().join(d);
                check!(joined == raw(&v), "joining the parts gives the value back");
            }
            Err(_) => check!(false, "any parts are accepted"),
        }
    }
    [quick, "two occurrences of the same list (0..=2 arbitrary bytes each), and of another one in between"]
    fn p23_two() {
        let k = pick(&[0, 1, 3, 7, 8, 9]);
        let (v, w) = (bytes(len(0, 2)), bytes(len(0, 2)));
        let o = |v: &[u8]| cat(&[b"--", OPTS[k].0.as_bytes(), b"=", v]);
        let r = parse::<Cli>(vec![o(&v), s("-e=a=b,c"), s("-o"), s("1,2:3"), o(&w)]);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                let mut want = parts(&v, OPTS[k].2.as_bytes());
                want.extend(parts(&w, OPTS[k].2.as_bytes()));
                check!(list_is(field(&c, k), &want), "the parts of all occurrences, in order");
                check!(list_is(&c.eq, &[b"a".to_vec(), b"b,c".to_vec()]) && c.one.as_ref().map(|x| raw(x)) == Some(b"1,2:3"), "nothing is split elsewhere");
            }
            Err(_) => check!(false, "any parts are accepted"),
        }
    }
    [quick, "positional list with delimiter: 1..=2 words of 0..=3 and 0..=1 arbitrary bytes, before and after '--'"]
    fn p23_positional() {
        let v = bytes(len(0, 3));
        let dd = flip();
        assume(dd || (plain(&v) && v != b"sub"));
        let mut l = if dd { vec![s("--")] } else { vec![] };
        l.push(os(v.clone()));
        let mut want = parts(&v, b",");
        if flip() {
            let w = bytes(len(0, 1));
            assume(dd || plain(&w));
            l.push(os(w.clone()));
            want.extend(parts(&w, b","));
        }
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(list_is(&c.rest, &want) && others_empty(&c, 99), "exactly the parts between delimiters, in order") }
            Err(_) => check!(false, "any parts are accepted"),
        }
    }
    [quick, "numbers: '--nums=' with 1..=4 arbitrary bytes: each part must be a number"]
    fn p23_typed() {
        let v = bytes(len(1, 4));
        let r = parse::<Cli>(vec![cat(&[b"--nums=", &v])]);
        emit_end(&r);
        let want: Option<Vec<u8>> = parts(&v, b",").iter().map(|p| std::str::from_utf8(p).ok().and_then(|t| t.parse().ok())).collect();
        match r {
            Ok(c) => { reach!(); check!(want.as_deref() == Some(&c.nums[..]), "each part is converted on its own") }
            Err(e) => { reach!(); check!(want.is_none() && class(&e) == Class::InvalidValue, "numbers are accepted") }
        }
    }
    [quick, "in a subcommand: own list, own positional list, global list, 0..=3 arbitrary bytes"]
    fn p23_sub() {
        let v = bytes(len(0, 3));
        let k = choice(3);
        let w = match k { 0 => cat(&[b"--key=", &v]), 1 => { assume(plain(&v)); os(v.clone()) } _ => cat(&[b"-g=", &v]) };
        let r = parse::<Cli>(vec![s("sub"), w]);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                let Some(Cmd::Sub { key, rest }) = &c.cmd else { check!(false, "the subcommand is entered"); return };
                let want = parts(&v, if k == 1 { b"/" } else { b"," });
                check!(list_is(if k == 0 { key } else if k == 1 { rest } else { &c.glob }, &want) && key.len() + rest.len() + c.glob.len() == want.len(), "exactly the parts between delimiters, in order");
            }
            Err(_) => check!(false, "any parts are accepted"),
        }
    }
    [quick, "20 parts of one arbitrary byte other than the delimiter"]
    fn p23_many() {
        let mut v = vec![];
        let mut want = vec![];
        for i in 0..20 {
            let b = byte();
            assume(b != b',');
            if i > 0 { v.push(b',') }
            v.push(b);
            want.push(vec![b]);
        }
        let r = parse::<Cli>(vec![cat(&[b"--comma=", &v])]);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(list_is(&c.comma, &want), "no part is lost") }
            Err(_) => check!(false, "any parts are accepted"),
        }
    }
    [quick, "14 numbers of parts up to 1030 in one word, or of words of two parts, one part of 0..=1 arbitrary bytes; an option or positionals"]
    fn p23_long() {
        let n = pick(&[2usize, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1030]);
        let at = pick(&[0, n / 2, n - 1]);
        let b = bytes(len(0, 1));
        assume(b.iter().all(|b| *b != b','));
        let want: Vec<Vec<u8>> = (0..n).map(|i| if i == at { b.clone() } else { vec![b'w', b'0' + (i % 64) as u8, b'0' + (i / 64) as u8] }).collect();
        let joined = |p: &[Vec<u8>]| p.join(&b","[..]);
        let named = flip();
        let l: Vec<OsString> = if flip() {
            let v = joined(&want);
            vec![if named { cat(&[b"--comma=", &v]) } else { os(v) }]
        } else {
            want.chunks(2).map(|p| { let v = joined(p); if named { cat(&[b"--comma=", &v]) } else { os(v) } }).collect()
        };
        assume(named || l.iter().all(|w| plain(raw(w))));
        if named {
            match parse::<Cli>(l) {
                Ok(c) => { reach!(); check!(list_is(&c.comma, &want), "no part is lost") }
                Err(_) => check!(false, "any parts are accepted"),
            }
        } else {
            match parse::<Words>(l) {
                Ok(c) => { reach!(); check!(list_is(&c.words, &want), "no part is lost") }
                Err(_) => check!(false, "any parts are accepted"),
            }
        }
    }
    [deep, "10 list options: 5..=7 arbitrary bytes after '='"]
    fn p23_deep() {
        let k = choice(10);
        let v = bytes(len(5, 7));
        let r = parse::<Cli>(vec![cat(&[b"--", OPTS[k].0.as_bytes(), b"=", &v])]);
        emit_end(&r);
        match r {
            Ok(c) => check!(list_is(field(&c, k), &parts(&v, OPTS[k].2.as_bytes())), "exactly the parts between delimiters, in order"),
            Err(_) => check!(false, "any parts are accepted"),
        }
    }
    [quick, "lists and positionals of all combinations of attributes in 127 definitions, with delimiter or not: one value of 0..=3 arbitrary bytes in every spelling"]
    fn p23_matrix() {
        let a = mx::at(0..mx::TABLES.len());
        let r = a.option(|o| o.kind == Kind::List && o.rules.names.is_empty());
        let v = bytes(len(0, 3));
        let w = mx::valued(pick(&a.names(r)), r.opt, &v);
        let l = a.line(w, &[(r.level, r.index)]);
        match a.agree(l) {
            1 => reach!(),
            _ => {}
        }
    }
    [quick, "positional lists of all combinations of attributes in 127 definitions: two words of 0..=2 arbitrary bytes"]
    fn p23_matrix_words() {
        let a = mx::at(0..mx::TABLES.len());
        let c = a.last();
        assume(c.pos.last().is_some_and(|p| p.list));
        let mut w = vec![];
        if c.pos.last().is_some_and(|p| p.last) && flip() {
            w.push(s("--"));
        } else {
            w.extend((0..c.pos.iter().filter(|p| !p.list).count()).map(|_| s("w")));
        }
        for _ in 0..2 {
            let t = tok(0, 2);
            assume(plain(raw(&t)));
            w.push(t);
        }
        let l = a.line_with(w, &[], false);
        match a.agree(l) {
            1 => reach!(),
            _ => {}
        }
    }
}
