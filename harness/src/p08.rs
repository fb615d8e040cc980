//! Single options occur once; lists collect every occurrence in order.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand};
use std::ffi::OsString;

#[derive(Parser, PartialEq)]
struct Cli {
    #[arg(short, long, alias = "fl", short_alias = 'F')]
    flag: bool,
    #[arg(short, long, alias = "o", short_alias = 'O')]
    opt: Option<OsString>,
    #[arg(short, long, required = true)]
    must: Option<OsString>,
    #[arg(short, long, default_value = "dd")]
    dflt: OsString,
    #[arg(short = 'e', long, require_equals = true)]
    oopt: Option<Option<OsString>>,
    #[arg(short, long, allow_hyphen_values = true)]
    hyph: Option<OsString>,
    #[arg(short, long, alias = "li", short_alias = 'L')]
    list: Vec<OsString>,
    #[arg(short, long)]
    vecs: Option<Vec<OsString>>,
    #[arg(short = 'q', long, require_equals = true)]
    qlist: Option<Vec<OsString>>,
    #[command(flatten)]
    flat: Flat,
    #[arg(short, long, global = true)]
    glob: Option<OsString>,
    #[arg(short = 'w', long, global = true)]
    wide: bool,
    rest: Vec<OsString>,
    #[command(subcommand)]
    sub: Option<Sub>,
}
#[derive(Args, PartialEq)]
struct Flat {
    #[arg(short, long)]
    apart: Option<OsString>,
    #[arg(short, long)]
    zone: Vec<OsString>,
    #[arg(short = 'y', long)]
    yes: bool,
}
#[derive(Subcommand, PartialEq)]
enum Sub {
    Sub {
        #[arg(short, long)]
        key: Option<OsString>,
        #[arg(short, long)]
        num: Vec<OsString>,
        #[arg(short = 'i', long)]
        inner: bool,
    },
}
/// The single ones: (long names, short letters, takes a value, place)
type One = (&'static [&'static str], &'static [&'static str], bool, bool);
const SINGLE: [One; 10] = [
    (&["flag", "fl"], &["f", "F"], false, false),
    (&["opt", "o"], &["o", "O"], true, false),
    (&["must"], &["m"], true, false),
    (&["dflt"], &["d"], true, false),
    (&["oopt"], &["e"], true, false),
    (&["hyph"], &["h"], true, false),
    (&["apart"], &["a"], true, false),
    (&["yes"], &["y"], false, false),
    (&["glob"], &["g"], true, true),
    (&["wide"], &["w"], false, true),
];
const SUBSINGLE: [One; 4] = [
    (&["key"], &["k"], true, false),
    (&["inner"], &["i"], false, false),
    (&["glob"], &["g"], true, true),
    (&["wide"], &["w"], false, true),
];
/// One occurrence: bare, with the value inline or (`apart`) as the next word.
fn occur(o: One, max: usize, apart: bool) -> Vec<OsString> {
    let name = if flip() { cat(&[b"--", pick(o.0).as_bytes()]) } else { cat(&[b"-", pick(o.1).as_bytes()]) };
    let opt = o.0[0] == "oopt";
    if !o.2 || opt && flip() {
        return vec![name];
    }
    let v = bytes(len(0, max));
    if apart && !opt && flip() {
        assume(o.0[0] == "hyph" || plain(&v));
        return vec![name, os(v)];
    }
    vec![cat(&[raw(&name), b"=", &v])]
}
fn list_is(got: &[OsString], want: &[Vec<u8>]) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(a, b)| raw(a) == &b[..])
}
/// One occurrence of a list option, in any of the five spellings.
fn spelled(long: &[&str], short: &[&str], v: &[u8]) -> Vec<OsString> {
    match choice(5) {
        0 => vec![cat(&[b"--", pick(long).as_bytes(), b"=", v])],
        1 => vec![cat(&[b"-", pick(short).as_bytes(), b"=", v])],
        2 => {
            assume(attachable(v));
            vec![cat(&[b"-", pick(short).as_bytes(), v])]
        }
        3 => {
            assume(plain(v));
            vec![cat(&[b"--", pick(long).as_bytes()]), os(v.to_vec())]
        }
        _ => {
            assume(plain(v));
            vec![cat(&[b"-", pick(short).as_bytes()]), os(v.to_vec())]
        }
    }
}

fn matrix(a: mx::At) {
    let r = a.option(|_| true);
    let mut w = mx::any_form(&a, r, 0, 1);
    let second = mx::any_form(&a, r, 1, 1);
    if flip() {
        w.push(s("w"));
    }
    w.extend(second);
    if flip() {
        w.extend(mx::usual(r.opt));
    }
    let l = a.line_with(w, &[(r.level, r.index)], false);
    match a.agree(l) {
        1 => reach!(),
        2 => reach!(),
        _ => {}
    }
}
const SIZES: [usize; 14] = [2, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1030];

scenarios! {
    [quick, "10 single options, two occurrences in every spelling and alias, inline, as next word and bare, values of 0..=2 arbitrary bytes"]
    fn p08_twice() {
        let o = pick(&SINGLE);
        let mut l = occur(o, 2, true);
        l.extend(occur(o, 2, true));
        let r = parse::<Cli>(l);
        emit_end(&r);
        reach!();
        check!(is_class(&r, Class::Duplicate), "a second occurrence is rejected as such");
    }
    [quick, "10 single options, one occurrence is not reported as a duplicate"]
    fn p08_once() {
        let o = pick(&SINGLE);
        let mut l = occur(o, 2, true);
        let must = o.0[0] != "must";
        if must {
            l.push(s("-m1"));
        }
        let r = parse::<Cli>(l);
        emit_end(&r);
        reach!();
        check!(r.is_ok(), "a first occurrence is accepted");
    }
    [quick, "two occurrences with other words between: a positional, other options, a list, a word of 0..=2 arbitrary bytes; values of 0..=1 bytes"]
    fn p08_apart() {
        let o = pick(&SINGLE);
        let mut l = occur(o, 1, false);
        let mid = match choice(4) {
            0 => vec![{ let t = tok(0, 2); assume(plain(raw(&t))); t }],
            1 => vec![s("p"), s("-l1"), s("-l"), s("2"), s("q")],
            2 => vec![s("-z=1"), s("-v2")],
            _ => vec![if o.0[0] == "flag" { s("-y") } else { s("-f") }],
        };
        l.extend(mid);
        l.extend(occur(o, 1, false));
        let r = parse::<Cli>(l);
        emit_end(&r);
        reach!();
        check!(is_class(&r, Class::Duplicate), "a second occurrence is rejected wherever it stands");
    }
    [quick, "a list option 14 numbers of times up to 1030, in 5 spellings, one of the values of 1 arbitrary byte: none is lost"]
    fn p08_long() {
        let n = pick(&SIZES);
        let k = choice(2);
        let name = ["list", "zone"][k];
        let at = pick(&[0, n / 2, n - 1]);
        let b = byte();
        assume(b < 0x80 && b != b'-' && b != b'=');
        let how = choice(5);
        let mut want = vec![];
        let mut l = vec![s("-m1")];
        for i in 0..n {
            let v = if i == at { vec![b] } else { vec![b'w', b'0' + (i % 64) as u8, b'0' + (i / 64) as u8] };
            match how {
                0 => l.push(cat(&[b"--", name.as_bytes(), b"=", &v])),
                1 => l.extend([cat(&[b"--", name.as_bytes()]), os(v.clone())]),
                2 => l.push(cat(&[b"-", &name.as_bytes()[..1], &v])),
                3 => l.push(cat(&[b"-", &name.as_bytes()[..1], b"=", &v])),
                _ => l.extend([cat(&[b"-", &name.as_bytes()[..1]]), os(v.clone())]),
            }
            want.push(v);
        }
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                let (a, b) = if k == 0 { (&c.list, &c.flat.zone) } else { (&c.flat.zone, &c.list) };
                check!(list_is(a, &want) && b.is_empty(), "every occurrence is collected in order");
            }
            Err(_) => check!(false, "a list takes any number of occurrences"),
        }
    }
    [quick, "bundles: a flag repeated in one word with other letters, or in a later bundle"]
    fn p08_bundle() {
        let f = pick(&["f", "F", "y", "w"]);
        let g = pick(&["f", "F", "y", "w"]);
        let w = match choice(3) {
            0 => vec![cat(&[b"-", f.as_bytes(), g.as_bytes(), b"m1"])],
            1 => vec![cat(&[b"-", f.as_bytes()]), cat(&[b"-", g.as_bytes(), b"m", &bytes(1)])],
            _ => vec![cat(&[b"-", f.as_bytes(), b"m=", &bytes(len(0, 1))]), s("p"), cat(&[b"-", g.as_bytes()])],
        };
        let low = |x: &str| if x == "F" { "f".to_string() } else { x.to_string() };
        let same = low(f) == low(g);
        let r = parse::<Cli>(w);
        emit_end(&r);
        reach!();
        match r {
            Ok(_) => check!(!same, "a flag given twice is not accepted"),
            Err(e) => check!(same && class(&e) == Class::Duplicate, "and different flags are"),
        }
    }
    [quick, "in a subcommand: own and global options, twice inside or (global) once before and once inside; values of 0..=1 bytes"]
    fn p08_sub() {
        let o = pick(&SUBSINGLE);
        let before = flip();
        assume(!before || o.3);
        let (a, b) = (occur(o, 1, false), occur(o, 1, false));
        let l = if before { [a, vec![s("sub")], b] } else { [vec![s("sub")], a, b] }.concat();
        let r = parse::<Cli>(l);
        emit_end(&r);
        reach!();
        check!(is_class(&r, Class::Duplicate), "a second occurrence is rejected in a subcommand");
    }
    [quick, "lists: 0..=3 occurrences of one of 4 list options in every spelling and alias, values of 0..=1 arbitrary bytes, a positional among them"]
    fn p08_list() {
        const LISTS: [(&[&str], &[&str]); 4] = [(&["list", "li"], &["l", "L"]), (&["vecs"], &["v"]), (&["qlist"], &["q"]), (&["zone"], &["z"])];
        let k = choice(4);
        let n = choice(4);
        let mut l = vec![s("-m1")];
        let mut want = vec![];
        for i in 0..n {
            let v = bytes(len(0, 1));
            if k == 2 || i == 2 {
                l.push(if flip() { cat(&[b"--", pick(LISTS[k].0).as_bytes(), b"=", &v]) } else { cat(&[b"-", pick(LISTS[k].1).as_bytes(), b"=", &v]) });
            } else {
                l.extend(spelled(LISTS[k].0, LISTS[k].1, &v));
            }
            want.push(v);
            if i == 0 {
                l.push(s("p"));
            }
        }
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                let e: Vec<Vec<u8>> = vec![];
                check!(list_is(&c.list, if k == 0 { &want } else { &e }) && list_is(&c.flat.zone, if k == 3 { &want } else { &e }), "the list holds every occurrence in order");
                check!(c.vecs.is_some() == (k == 1 && n > 0) && list_is(c.vecs.as_deref().unwrap_or(&[]), if k == 1 { &want } else { &e }), "an optional list is absent exactly without occurrences");
                check!(c.qlist.is_some() == (k == 2 && n > 0) && list_is(c.qlist.as_deref().unwrap_or(&[]), if k == 2 { &want } else { &e }), "an optional list is absent exactly without occurrences");
                check!(c.rest.len() == (n > 0) as usize && !c.flag && c.opt.is_none() && raw(&c.dflt) == b"dd", "nothing else changes");
            }
            Err(_) => check!(false, "lists take any number of occurrences"),
        }
    }
    [quick, "two lists interleaved, 4 occurrences with values of 0..=2 arbitrary bytes"]
    fn p08_interleaved() {
        let mut l = vec![s("-m1")];
        let (mut a, mut b) = (vec![], vec![]);
        for i in 0..4 {
            let v = bytes(if i < 2 { len(0, 2) } else { 1 });
            if flip() {
                l.push(cat(&[b"--list=", &v]));
                a.push(v);
            } else {
                l.push(cat(&[b"--zone=", &v]));
                b.push(v);
            }
        }
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(list_is(&c.list, &a) && list_is(&c.flat.zone, &b), "each list keeps its own occurrences in order");
            }
            Err(_) => check!(false, "lists take any number of occurrences"),
        }
    }
    [quick, "a list with 40 occurrences of one arbitrary byte each"]
    fn p08_many() {
        let mut l = vec![s("-m1")];
        let mut want = vec![];
        for _ in 0..40 {
            let v = bytes(1);
            l.push(cat(&[b"--li=", &v]));
            want.push(v);
        }
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(list_is(&c.list, &want), "no occurrence is lost");
            }
            Err(_) => check!(false, "lists take any number of occurrences"),
        }
    }
    [quick, "lists in a subcommand: 0..=3 occurrences of 0..=1 arbitrary bytes, the outer list before"]
    fn p08_sub_list() {
        let n = choice(4);
        let v0 = bytes(1);
        let mut l = vec![s("-m1"), cat(&[b"-l=", &v0]), s("sub")];
        let mut want = vec![];
        for _ in 0..n {
            let v = bytes(len(0, 1));
            l.extend(spelled(&["num"], &["n"], &v));
            want.push(v);
        }
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(list_is(&c.list, &[v0]), "the outer list keeps its own");
                match &c.sub {
                    Some(Sub::Sub { num, key, inner }) => check!(list_is(num, &want) && key.is_none() && !inner, "the inner list holds every occurrence in order"),
                    None => check!(false, "the subcommand is entered"),
                }
            }
            Err(_) => check!(false, "lists take any number of occurrences"),
        }
    }
    [deep, "two occurrences, values of 0..=4 arbitrary bytes"]
    fn p08_deep() {
        let o = pick(&SINGLE);
        let mut l = occur(o, 4, true);
        l.extend(occur(o, 4, true));
        let r = parse::<Cli>(l);
        emit_end(&r);
        check!(is_class(&r, Class::Duplicate), "a second occurrence is rejected as such");
    }
    [quick, "every third of options of all combinations of attributes in 127 definitions, two or three occurrences in every form, values of 0..=1 arbitrary bytes, the first before the subcommand if it is global"]
    fn p08_matrix() {
        matrix(mx::some(3));
    }
    [deep, "options of all combinations of attributes in 127 definitions, two or three occurrences in every form, values of 0..=1 arbitrary bytes, the first before the subcommand if it is global"]
    fn p08_matrix_all() {
        matrix(mx::at(0..mx::TABLES.len()));
    }
}
