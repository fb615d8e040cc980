//! Only declared names are accepted, and each sets its own field.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand};
use std::ffi::OsString;

/// Names that are prefixes of each other, differ in one character, or in case.
#[derive(Parser, PartialEq)]
struct Cli {
    #[arg(long)]
    a: Option<OsString>,
    #[arg(long)]
    ab: Option<OsString>,
    #[arg(long, alias = "abcd")]
    abc: Option<OsString>,
    #[arg(long)]
    abd: Option<OsString>,
    #[arg(long = "AB")]
    upper: Option<OsString>,
    #[arg(long = "a-b")]
    dash: Option<OsString>,
    #[arg(long = "a_b")]
    under: Option<OsString>,
    #[arg(long = "x.y")]
    odd: Option<OsString>,
    #[arg(long = "ü")]
    uml: Option<OsString>,
    #[arg(long, aliases = ["verb", "v"])]
    verbose: Option<OsString>,
    #[command(flatten)]
    flat: Flat,
}
#[derive(Args, PartialEq)]
struct Flat {
    #[arg(long)]
    b: Option<OsString>,
    #[arg(long, alias = "cc")]
    c: Option<OsString>,
}
const NAMES: [(&str, usize); 16] = [
    ("a", 0), ("ab", 1), ("abc", 2), ("abcd", 2), ("abd", 3), ("AB", 4), ("a-b", 5), ("a_b", 6), ("x.y", 7), ("ü", 8),
    ("verbose", 9), ("verb", 9), ("v", 9), ("b", 10), ("c", 11), ("cc", 11),
];
fn fields(c: &Cli) -> [&Option<OsString>; 12] {
    [&c.a, &c.ab, &c.abc, &c.abd, &c.upper, &c.dash, &c.under, &c.odd, &c.uml, &c.verbose, &c.flat.b, &c.flat.c]
}
fn only(c: &Cli, k: usize, v: &[u8]) -> bool {
    fields(c).iter().enumerate().all(|(i, f)| match f {
        Some(x) => i == k && raw(x) == v,
        None => i != k,
    })
}

/// Short options only.
#[derive(Parser, PartialEq)]
struct Short {
    #[arg(short)]
    a: bool,
    #[arg(short = 'A')]
    big: bool,
    #[arg(short = '1')]
    one: bool,
    #[arg(short = '?')]
    what: bool,
    #[arg(short = 'é', short_alias = 'ê')]
    acc: bool,
    #[arg(short = 'ÿ')]
    y: bool,
    #[arg(short = 'ࠀ')]
    three: bool,
    #[arg(short = '我')]
    me: bool,
    #[arg(short = '\u{1F600}', short_aliases = ['\u{1F601}', 'z'])]
    four: bool,
    #[arg(short = '\u{10FFFF}')]
    last: bool,
    #[arg(long)]
    q: bool,
}
fn letter(c: &str) -> Option<usize> {
    Some(match c {
        "a" => 0, "A" => 1, "1" => 2, "?" => 3, "é" | "ê" => 4, "ÿ" => 5, "ࠀ" => 6, "我" => 7, "\u{1F600}" | "\u{1F601}" | "z" => 8,
        "\u{10FFFF}" => 9,
        _ => return None,
    })
}
fn shorts(c: &Short) -> [bool; 10] {
    [c.a, c.big, c.one, c.what, c.acc, c.y, c.three, c.me, c.four, c.last]
}

/// Names derived from the fields.
#[derive(Parser, PartialEq)]
struct Derived {
    #[arg(long)]
    long_field_name: bool,
    #[arg(long, short)]
    x1: bool,
    #[arg(long = "Given")]
    other: bool,
    #[arg(short = 'L')]
    letter_only: bool,
    #[arg(long, short)]
    y_2_z: bool,
}
#[derive(Parser, PartialEq)]
struct WithSub {
    #[arg(long, short)]
    outer: Option<OsString>,
    #[arg(long, short, global = true)]
    glob: Option<OsString>,
    #[command(subcommand)]
    sub: Sub,
}
#[derive(Subcommand, PartialEq)]
enum Sub {
    Sub {
        #[arg(long, short, alias = "in")]
        inner: Option<OsString>,
    },
}

scenarios! {
    [quick, "22 names of 29 to 302 bytes, alike but for the first letter: whole, one byte arbitrary (of 10 places), or cut or continued by up to 2 arbitrary bytes; after a subcommand as well"]
    fn p09_names() {
        use crate::many::names::*;
        let k = choice(NAMES.len());
        let mut n = NAMES[k].as_bytes().to_vec();
        let at_end = n.len();
        match choice(4) {
            0 => {}
            1 => { let at = pick(&[0, 1, 29, 30, 31, 61, 62, 63, 127, 254]); let at = if at < at_end { at } else { at_end - 1 }; n[at] = byte() }
            2 => { let by = len(1, 2); n.extend(bytes(by)); }
            _ => n.truncate(at_end - len(1, 2)),
        }
        assume(!n.contains(&b'='));
        let sub = flip();
        let mut l = vec![cat(&[b"--", &n, b"=v"])];
        if sub { l.insert(0, s("c")); }
        let want = NAMES.iter().position(|x| x.as_bytes() == n).filter(|i| !sub || i % 4 == 1);
        let r = parse::<Names>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(want.is_some() && c.all().iter().enumerate().all(|(i, x)| if Some(i) == want { x.as_ref().is_some_and(|x| raw(x) == b"v") } else { x.is_none() }), "only a declared name is accepted, and it sets its own field");
            }
            Err(e) => { reach!(); check!(want.is_none() && class(&e) == Class::Unexpected, "only other names are rejected") }
        }
    }
    [quick, "'--<name>=v', name of 0..=6 arbitrary bytes, against 16 close names; v of 1 byte"]
    fn p09_long() {
        let n = bytes(len(0, 6));
        assume(!n.contains(&b'='));
        let v = bytes(1);
        let r = parse::<Cli>(vec![cat(&[b"--", &n, b"=", &v])]);
        emit_end(&r);
        match NAMES.iter().find(|x| x.0.as_bytes() == &n[..]) {
            Some(x) => {
                reach!();
                match r {
                    Ok(c) => check!(only(&c, x.1, &v), "a declared name sets its own field only"),
                    Err(_) => check!(false, "a declared name is accepted"),
                }
            }
            None => check!(is_class(&r, Class::Unexpected) || n == b"help", "any other name is rejected as unexpected"),
        }
    }
    [quick, "'--<name>' then a plain value, name of 0..=3 arbitrary bytes without '='"]
    fn p09_long_next() {
        let n = bytes(len(1, 3));
        assume(!n.contains(&b'='));
        let v = bytes(1);
        assume(plain(&v));
        let r = parse::<Cli>(vec![cat(&[b"--", &n]), os(v.clone())]);
        emit_end(&r);
        match NAMES.iter().find(|x| x.0.as_bytes() == &n[..]) {
            Some(x) => {
                reach!();
                match r {
                    Ok(c) => check!(only(&c, x.1, &v), "a declared name sets its own field only"),
                    Err(_) => check!(false, "a declared name is accepted"),
                }
            }
            None => check!(is_class(&r, Class::Unexpected), "any other name is rejected as unexpected"),
        }
    }
    [quick, "a declared name with one byte changed, added or removed at any place"]
    fn p09_near() {
        let base = pick(&["verbose", "verb", "abcd", "AB", "ü", "cc"]).as_bytes();
        let mut n = base.to_vec();
        match choice(4) {
            0 => { let i = choice(n.len()); n[i] = byte(); }
            1 => { let i = choice(n.len() + 1); n.insert(i, byte()); }
            2 => { let i = choice(n.len()); n.remove(i); }
            _ => { n.push(byte()); n.push(byte()); }
        }
        assume(!n.contains(&b'='));
        let r = parse::<Cli>(vec![cat(&[b"--", &n, b"=1"])]);
        emit_end(&r);
        match NAMES.iter().find(|x| x.0.as_bytes() == &n[..]) {
            Some(x) => {
                reach!();
                match r {
                    Ok(c) => check!(only(&c, x.1, b"1"), "a declared name sets its own field only"),
                    Err(_) => check!(false, "a declared name is accepted"),
                }
            }
            None => check!(is_class(&r, Class::Unexpected), "any other name is rejected as unexpected"),
        }
    }
    [quick, "'-<c>' with c of 1..=4 arbitrary bytes forming one character or none, against 12 letters of 1 to 4 bytes"]
    fn p09_short() {
        let n = bytes(len(1, 4));
        assume(n[0] != b'-');
        let mut one = false;
        if let Ok(t) = std::str::from_utf8(&n) {
            one = t.chars().count() == 1;
        }
        let r = parse::<Short>(vec![cat(&[b"-", &n])]);
        emit_end(&r);
        if one {
            let want = letter(std::str::from_utf8(&n).unwrap_or(""));
            match (r, want) {
                (Ok(c), Some(k)) => {
                    reach!();
                    check!(shorts(&c).iter().enumerate().all(|(i, f)| *f == (i == k)) && !c.q, "a declared letter sets its own field only");
                }
                (Err(e), None) => { reach!(); check!(n == b"h" || class(&e) == Class::Unexpected, "any other letter is rejected as unexpected") }
                _ => check!(false, "a letter is accepted exactly if declared"),
            }
        }
    }
    [quick, "'-<bytes>' of 1..=3 arbitrary bytes that are not valid UTF-8: never accepted by a command with flags only"]
    fn p09_short_invalid() {
        let n = bytes(len(1, 3));
        assume(n[0] != b'-' && std::str::from_utf8(&n).is_err());
        let r = parse::<Short>(vec![cat(&[b"-", &n])]);
        emit_end(&r);
        reach!();
        check!(!r.is_ok(), "bytes that are no character are no option");
    }
    [quick, "a long name is no letter and a letter no long name; the derived names are kebab-case; name of 1..=3 arbitrary bytes"]
    fn p09_kinds() {
        let n = bytes(len(1, 3));
        assume(n[0] != b'-' && n[0] != b'=' && n != b"h");
        let r = parse::<Derived>(vec![cat(&[b"--", &n])]);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(n == b"x1" && c.x1 && !c.long_field_name && !c.other && !c.letter_only && !c.y_2_z, "only declared long names after '--'") }
            Err(_) => check!(n != b"x1", "a declared name is accepted"),
        }
    }
    [quick, "names derived from fields: kebab-case long names, first letter as short name, one arbitrary byte changed"]
    fn p09_derived() {
        let names = ["--long-field-name", "-x", "--x1", "--Given", "-L", "--y-2-z", "-y"];
        let k = choice(7);
        let mut w = names[k].as_bytes().to_vec();
        let i = 1 + choice(w.len() - 1);
        w[i] = byte();
        assume(w[1] != b'-' || w.len() > 2);
        assume(k == 1 || k == 4 || k == 6 || w[1] == b'-');
        let r = parse::<Derived>(vec![os(w.clone())]);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                let f = [c.long_field_name, c.x1, c.other, c.letter_only, c.y_2_z];
                let want = match &w[..] {
                    b"--long-field-name" => 0,
                    b"-x" | b"--x1" => 1,
                    b"--Given" => 2,
                    b"-L" => 3,
                    b"--y-2-z" | b"-y" => 4,
                    _ => 9,
                };
                check!(f.iter().enumerate().all(|(i, x)| *x == (i == want)), "derived names are exact");
            }
            Err(_) => check!(!names.iter().any(|x| x.as_bytes() == &w[..]), "derived names are accepted"),
        }
    }
    [quick, "inside a subcommand: '--<name>=v', name of 1..=5 bytes of which the last 2 are arbitrary"]
    fn p09_sub() {
        let base = pick(&["inner", "in", "outer", "glob", "sub"]).as_bytes();
        let mut n = base.to_vec();
        let k = n.len();
        n[k - 1] = byte();
        n[k - 2] = byte();
        if flip() { n.push(byte()); }
        assume(!n.contains(&b'='));
        let r = parse::<WithSub>(vec![s("sub"), cat(&[b"--", &n, b"=7"])]);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                let Sub::Sub { inner } = &c.sub;
                let i = inner.as_ref().map(|x| raw(x)) == Some(b"7");
                let g = c.glob.as_ref().map(|x| raw(x)) == Some(b"7");
                check!(c.outer.is_none(), "an outer option is not reachable");
                check!(((&n[..] == b"inner" || &n[..] == b"in") && i && c.glob.is_none()) || (&n[..] == b"glob" && g && inner.is_none()), "only the subcommand's and global names are accepted");
            }
            Err(e) => check!(&n[..] != b"inner" && &n[..] != b"in" && &n[..] != b"glob" && class(&e) == Class::Unexpected, "other names are rejected as unexpected"),
        }
    }
    [deep, "'--<name>=v', name of 7..=10 arbitrary bytes"]
    fn p09_deep() {
        let n = bytes(len(7, 10));
        assume(!n.contains(&b'='));
        let r = parse::<Cli>(vec![cat(&[b"--", &n, b"=1"])]);
        emit_end(&r);
        match r {
            Ok(c) => check!(&n[..] == b"verbose" && only(&c, 9, b"1"), "only declared names are accepted"),
            Err(_) => check!(&n[..] != b"verbose", "a declared name is accepted"),
        }
    }
    [quick, "every name of 127 definitions in every command of them, with one byte changed, dropped or added or none, with '=v' or not: accepted as the grammar says"]
    fn p09_matrix() {
        let a = mx::at(mx::PLAIN);
        // Names of all levels, whether they count here or not.
        let mut names: Vec<&'static str> = a.cmds.iter().flat_map(|c| c.opts.iter()).flat_map(|o| o.names.iter().copied()).collect();
        names.extend(a.last().subs.iter().flat_map(|c| c.opts.iter()).flat_map(|o| o.names.iter().copied()));
        assume(!names.is_empty());
        let mut n = pick(&names).as_bytes().to_vec();
        let last = n.len() - 1;
        match choice(5) {
            0 => {}
            1 => n[last] = byte(),
            2 => { n.pop(); }
            3 => n.push(byte()),
            _ => { if n[1] == b'-' { n.remove(1); } else { n.insert(0, b'-'); } }
        }
        if flip() {
            n.extend_from_slice(b"=a");
        }
        let mut w = vec![os(n)];
        if !a.last().pos.is_empty() && flip() {
            w.insert(0, s(mx::good(&a.last().pos[0].rules)));
        }
        let l = a.line(w, &[]);
        match a.agree(l) {
            1 => reach!(),
            2 => reach!(),
            _ => {}
        }
    }
}
