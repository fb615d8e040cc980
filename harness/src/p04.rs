//! Bundles: `-abc` is `-a -b -c`.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand};
use std::ffi::OsString;

#[derive(Parser, PartialEq)]
struct Cli {
    #[arg(short)]
    a: bool,
    #[arg(short, long)]
    b: bool,
    #[arg(short = 'é')]
    acc: bool,
    #[arg(short = '我')]
    me: bool,
    #[arg(short = '1')]
    one: bool,
    #[arg(short = '\u{1F600}')]
    smile: bool,
    #[arg(short)]
    opt: Option<OsString>,
    #[arg(short = 'ñ', allow_hyphen_values = true)]
    any: Option<OsString>,
    #[arg(short)]
    list: Vec<OsString>,
    #[arg(short, require_equals = true)]
    req: Option<OsString>,
    #[arg(short = 'z', require_equals = true)]
    zopt: Option<Option<OsString>>,
    #[command(flatten)]
    flat: Flat,
    #[arg(short, global = true)]
    glob: bool,
    rest: Vec<OsString>,
    #[command(subcommand)]
    sub: Option<Sub>,
}
#[derive(Args, PartialEq)]
struct Flat {
    #[arg(short)]
    fl: bool,
    #[arg(short = 'F')]
    fopt: Option<OsString>,
}
#[derive(Subcommand, PartialEq)]
enum Sub {
    Sub {
        #[arg(short)]
        k: bool,
    },
}
/// Letters at the limits of the lengths in UTF-8, and such that need escaping.
#[derive(Parser, PartialEq)]
struct Odd {
    #[arg(short = '\u{80}')]
    a: bool,
    #[arg(short = '\u{7ff}')]
    b: bool,
    #[arg(short = '\u{800}')]
    c: bool,
    #[arg(short = '\u{fffd}')]
    d: bool,
    #[arg(short = '\u{ffff}')]
    e: bool,
    #[arg(short = '\u{10000}')]
    f: bool,
    #[arg(short = '\u{10ffff}')]
    g: bool,
    #[arg(short = '"')]
    h: bool,
    #[arg(short = '\\')]
    i: bool,
    #[arg(short = ' ')]
    j: bool,
    #[arg(short = '\u{301}')]
    k: Option<OsString>,
    #[arg(short = '\u{d7ff}', require_equals = true)]
    l: Option<Option<OsString>>,
}
const ODD: [&str; 12] = ["\u{80}", "\u{7ff}", "\u{800}", "\u{fffd}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "\"", "\\", " ", "\u{301}", "\u{d7ff}"];
/// Thirty flags, an option and a list.
#[derive(Parser, PartialEq)]
struct Letters {
    #[arg(short = 'a')]
    f0: bool,
    #[arg(short = 'b')]
    f1: bool,
    #[arg(short = 'c')]
    f2: bool,
    #[arg(short = 'd')]
    f3: bool,
    #[arg(short = 'e')]
    f4: bool,
    #[arg(short = 'f')]
    f5: bool,
    #[arg(short = 'g')]
    f6: bool,
    #[arg(short = 'i')]
    f7: bool,
    #[arg(short = 'j')]
    f8: bool,
    #[arg(short = 'k')]
    f9: bool,
    #[arg(short = 'l')]
    f10: bool,
    #[arg(short = 'm')]
    f11: bool,
    #[arg(short = 'n')]
    f12: bool,
    #[arg(short = 'o')]
    f13: bool,
    #[arg(short = 'p')]
    f14: bool,
    #[arg(short = 'q')]
    f15: bool,
    #[arg(short = 'r')]
    f16: bool,
    #[arg(short = 's')]
    f17: bool,
    #[arg(short = 't')]
    f18: bool,
    #[arg(short = 'u')]
    f19: bool,
    #[arg(short = 'v')]
    f20: bool,
    #[arg(short = 'w')]
    f21: bool,
    #[arg(short = 'x')]
    f22: bool,
    #[arg(short = 'y')]
    f23: bool,
    #[arg(short = 'z')]
    f24: bool,
    #[arg(short = 'é')]
    f25: bool,
    #[arg(short = 'ß')]
    f26: bool,
    #[arg(short = '我')]
    f27: bool,
    #[arg(short = '\u{1F600}')]
    f28: bool,
    #[arg(short = 'Ж')]
    f29: bool,
    #[arg(short = 'O')]
    opt: Option<OsString>,
    #[arg(short = 'L', value_delimiter = ',')]
    list: Vec<OsString>,
}
const LETTERS: [&str; 30] = ["a", "b", "c", "d", "e", "f", "g", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "é", "ß", "我", "\u{1F600}", "Ж"];
const FLAGS: [&str; 8] = ["a", "b", "é", "我", "1", "\u{1F600}", "f", "g"];
const VALUED: [&str; 8] = ["o", "ñ", "l", "F", "r", "z", "-", "="];

/// `-<flags><tail>` against `-x -y -<tail>`.
fn compare(before: &[OsString], flags: &[&str], tail: &[u8], after: &[OsString]) {
    let mut joined = vec![b'-'];
    let mut apart = before.to_vec();
    for f in flags {
        joined.extend_from_slice(f.as_bytes());
        apart.push(cat(&[b"-", f.as_bytes()]));
    }
    joined.extend_from_slice(tail);
    if !tail.is_empty() {
        apart.push(cat(&[b"-", tail]));
    }
    let mut one = before.to_vec();
    one.push(os(joined));
    one.extend_from_slice(after);
    apart.extend_from_slice(after);
    let r1 = parse::<Cli>(one);
    let r2 = parse::<Cli>(apart);
    emit_end(&r1);
    reach!();
    check!(same(&r1, &r2), "a bundle has the outcome of its options given separately");
}

scenarios! {
    [quick, "2..=3 flags (8 of 1 to 4 bytes each) then a tail of 0..=1 arbitrary bytes not starting with '=' or '-'"]
    fn p04_flags() {
        let n = len(2, 3);
        let f: Vec<&str> = (0..n).map(|_| pick(&FLAGS)).collect();
        let t = bytes(len(0, 1));
        assume(t.is_empty() || (t[0] != b'=' && t[0] != b'-'));
        compare(&[], &f, &t, &[]);
    }
    [quick, "1 flag (8 of 1 to 4 bytes each) then a tail of 0..=3 arbitrary bytes not starting with '=' or '-'"]
    fn p04_tail() {
        let n = 1;
        let f: Vec<&str> = (0..n).map(|_| pick(&FLAGS)).collect();
        let t = bytes(len(0, 3));
        // '=' after a flag is a value for it; '-' alone would make a '--' word of the tail
        assume(t.is_empty() || (t[0] != b'=' && t[0] != b'-'));
        compare(&[], &f, &t, &[]);
    }
    [quick, "0..=2 flags then an option with value (6 kinds) and 0..=3 arbitrary bytes, a next word of 0..=1 arbitrary bytes"]
    fn p04_valued() {
        let n = len(0, 2);
        let f: Vec<&str> = (0..n).map(|_| pick(&FLAGS)).collect();
        let o = VALUED[choice(6)];
        let v = bytes(len(0, 3));
        let t = cat(&[o.as_bytes(), &v]);
        let next = tok(0, 1);
        compare(&[], &f, raw(&t), &[next]);
    }
    [quick, "what a bundled option with value does is stated directly: value is the remainder after an optional '=', 0..=4 arbitrary bytes"]
    fn p04_value() {
        let n = len(0, 2);
        let f: Vec<&str> = (0..n).map(|_| FLAGS[choice(2)]).collect();
        assume(n < 2 || f[0] != f[1]);
        let k = choice(5);
        let o = ["o", "ñ", "l", "F", "r"][k];
        let eq = flip();
        let v = bytes(len(0, 4));
        if !eq {
            assume(attachable(&v));
        }
        let mut w = b"-".to_vec();
        for x in &f {
            w.extend_from_slice(x.as_bytes());
        }
        w.extend_from_slice(o.as_bytes());
        if eq {
            w.push(b'=');
        }
        w.extend_from_slice(&v);
        let r = parse::<Cli>(vec![os(w)]);
        emit_end(&r);
        if k == 4 && !eq {
            reach!();
            check!(is_class(&r, Class::MissingEq), "an option that requires '=' does not take an attached value");
            return;
        }
        match r {
            Ok(c) => {
                reach!();
                let got = match k { 0 => &c.opt, 1 => &c.any, 2 => &c.list.first().cloned(), 3 => &c.flat.fopt, _ => &c.req };
                check!(got.as_ref().map(|x| raw(x)) == Some(&v[..]), "the value is the remainder of the word");
                check!(c.a == f.contains(&"a") && c.b == f.contains(&"b"), "the flags before it are set");
                check!(!c.acc && !c.me && !c.one && !c.smile && !c.flat.fl && !c.glob && c.zopt.is_none() && c.rest.is_empty(), "and nothing else is");
            }
            Err(_) => check!(false, "the remainder is accepted as the value"),
        }
    }
    [quick, "in a subcommand: own and global flags in one bundle, tail of 0..=2 arbitrary bytes"]
    fn p04_sub() {
        let f: Vec<&str> = pick(&[vec!["k"], vec!["g"], vec!["g", "k"], vec!["k", "g"]]);
        let t = bytes(len(0, 2));
        assume(t.is_empty() || (t[0] != b'=' && t[0] != b'-'));
        compare(&[s("sub")], &f, &t, &[]);
    }
    [quick, "unknown letters: one declared flag, then a character of 1..=3 arbitrary bytes; accepted only if declared"]
    fn p04_unknown() {
        let t = bytes(len(1, 3));
        let mut w = b"-a".to_vec();
        w.extend_from_slice(&t);
        let r = parse::<Cli>(vec![os(w)]);
        emit_end(&r);
        if let Ok(c) = &r {
            // every letter of the word must have gone somewhere
            let flags = c.b as usize + 2 * c.acc as usize + 3 * c.me as usize + c.one as usize + 4 * c.smile as usize + c.flat.fl as usize + c.glob as usize;
            let val = |o: &Option<OsString>, n: usize| o.as_ref().map_or(0, |x| n + x.len());
            let vals = val(&c.opt, 1) + val(&c.any, 2) + val(&c.flat.fopt, 1) + c.list.first().map_or(0, |x| 1 + x.len())
                + val(&c.req, 2)
                + match &c.zopt { None => 0, Some(None) => 1, Some(Some(x)) => 2 + x.len() };
            reach!();
            check!(flags + vals == t.len() || t.contains(&b'='), "each byte of the bundle is a declared letter or part of a value");
        }
    }
    [quick, "10 ranges of up to 30 flags in one word, one in 3 places replaced by any other or 1..=2 arbitrary bytes, with a value of up to 300 bytes at the end or without, against the same apart"]
    fn p04_long() {
        let (n, from) = pick(&[(2, 27), (3, 28), (5, 25), (8, 0), (9, 21), (16, 14), (17, 20), (29, 26), (30, 0), (30, 25)]);
        let mut l: Vec<Vec<u8>> = (0..n).map(|i| LETTERS[(from + i) % 30].as_bytes().to_vec()).collect();
        let at = pick(&[0, n / 2, n - 1]);
        let kind = choice(3);
        match kind {
            0 => {}
            1 => l[at] = LETTERS[choice(30)].as_bytes().to_vec(),
            _ => {
                let b = bytes(len(1, 2));
                // '=' is for the letter before, '-' alone would start a long name
                assume(b[0] != b'=' && b[0] != b'-' && b[0] != b'O' && b[0] != b'L' && (b.len() == 1 || !matches!(b[1], b'=' | b'-' | b'O' | b'L')));
                l[at] = b;
            }
        }
        let mut tail = vec![];
        if flip() {
            let (name, more) = pick(&[("O", 1), ("O=", 300), ("L", 300), ("L=", 2)]);
            tail = name.as_bytes().to_vec();
            tail.extend(vec![b'v'; more]);
        }
        let mut w = vec![b'-'];
        for x in &l { w.extend_from_slice(x) }
        w.extend_from_slice(&tail);
        let mut apart: Vec<OsString> = l.iter().map(|x| cat(&[b"-", x])).collect();
        if !tail.is_empty() { apart.push(cat(&[b"-", &tail])) }
        let a = parse::<Letters>(vec![os(w)]);
        let b = parse::<Letters>(apart);
        emit_end(&a);
        reach!();
        // a byte that starts no character is told with what follows
        check!(if kind == 2 { a.is_ok() == b.is_ok() && (a.is_err() || same(&a, &b)) } else { same(&a, &b) }, "a bundle has the outcome of its options given separately");
        if kind == 0 { check!(a.is_ok(), "different letters are accepted") }
    }
    [deep, "1..=4 flags then a tail of 0..=4 arbitrary bytes"]
    fn p04_deep() {
        let n = len(1, 4);
        let f: Vec<&str> = (0..n).map(|_| pick(&FLAGS)).collect();
        let t = bytes(len(0, 4));
        assume(t.is_empty() || (t[0] != b'=' && t[0] != b'-'));
        compare(&[], &f, &t, &[]);
    }
    [quick, "12 unusual letters: two flags and one more in a bundle, then 0..=2 arbitrary bytes, against the same apart"]
    fn p04_odd() {
        let (x, y, z) = (choice(10), choice(10), choice(12));
        let tail = bytes(len(0, 2));
        let joined = cat(&[b"-", ODD[x].as_bytes(), ODD[y].as_bytes(), ODD[z].as_bytes(), &tail]);
        let apart = vec![cat(&[b"-", ODD[x].as_bytes()]), cat(&[b"-", ODD[y].as_bytes()]), cat(&[b"-", ODD[z].as_bytes(), &tail])];
        let a = parse::<Odd>(vec![joined]);
        let b = parse::<Odd>(apart);
        emit_end(&a);
        reach!();
        check!(same(&a, &b), "a bundle means the same as its letters apart");
        if x != y && x != z && y != z && tail.is_empty() && z != 10 {
            check!(a.is_ok(), "different letters are accepted");
        }
    }
    [quick, "all pairs of short options of 54 definitions with all combinations of attributes in one word with 0..=2 arbitrary bytes after them, against the grammar"]
    fn p04_matrix() {
        let a = mx::at(mx::PLAIN);
        let letters: Vec<&'static str> = a.options().iter().flat_map(|r| a.names(*r)).filter(|n| !n.starts_with("--")).collect();
        assume(!letters.is_empty());
        let mut w = pick(&letters).as_bytes().to_vec();
        w.extend_from_slice(&pick(&letters).as_bytes()[1..]);
        w.extend(bytes(len(0, 2)));
        let l = a.line(vec![os(w)], &[]);
        match a.agree(l) {
            1 => reach!(),
            2 => reach!(),
            _ => {}
        }
    }
}
