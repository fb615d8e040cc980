//! Spellings: `--long=v`, `--long v`, `-s=v`, `-sv`, `-s v` and aliases are interchangeable.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand};
use std::ffi::OsString;

#[derive(Parser, PartialEq)]
struct Cli {
    #[arg(short = 'o', long = "opt", aliases = ["option", "o"], short_aliases = ['q', 'ß'])]
    opt: Option<OsString>,
    #[arg(short, long, alias = "number", short_alias = 'N')]
    num: Option<u8>,
    #[arg(short, long, alias = "item", short_alias = 'i')]
    list: Vec<OsString>,
    #[arg(short = 'y', long, allow_hyphen_values = true, alias = "y-any", short_alias = 'Y')]
    yany: Option<OsString>,
    #[arg(short = 'm', long, allow_negative_numbers = true, alias = "neg", short_alias = 'M')]
    minus: Option<OsString>,
    #[arg(short = 'd', long, use_value_delimiter = true, alias = "comma", short_alias = 'D')]
    delim: Option<Vec<OsString>>,
    #[arg(short, long, global = true, alias = "everywhere", short_alias = 'G')]
    glob: Option<OsString>,
    #[arg(short, long)]
    flag: bool,
    #[command(flatten)]
    flat: Flat,
    pos: Vec<OsString>,
    #[command(subcommand)]
    sub: Option<Sub>,
}
#[derive(Args, PartialEq)]
struct Flat {
    #[arg(short = 'a', long, alias = "within", short_alias = 'A')]
    apart: Option<OsString>,
}
#[derive(Subcommand, PartialEq)]
enum Sub {
    Sub {
        #[arg(short, long, alias = "clef", short_alias = 'K')]
        key: Option<OsString>,
        #[arg(short = 'e', long, default_value = "dflt", alias = "lse", short_alias = 'E')]
        else_: OsString,
    },
}
/// (long names, short names, is it the one that takes any next word)
type Opt = (&'static [&'static str], &'static [&'static str], u8);
const OPTS: [Opt; 8] = [
    (&["opt", "option", "o"], &["o", "q", "ß"], 0),
    (&["num", "number"], &["n", "N"], 0),
    (&["list", "item"], &["l", "i"], 0),
    (&["yany", "y-any"], &["y", "Y"], 1),
    (&["minus", "neg"], &["m", "M"], 2),
    (&["delim", "comma"], &["d", "D"], 0),
    (&["glob", "everywhere"], &["g", "G"], 0),
    (&["apart", "within"], &["a", "A"], 0),
];
const SUBOPTS: [Opt; 3] = [
    (&["key", "clef"], &["k", "K"], 0),
    (&["else", "lse"], &["e", "E"], 0),
    (&["glob", "everywhere"], &["g", "G"], 0),
];

/// The words of one spelling; leaves the path if the value cannot be spelled so.
fn spell(o: Opt, v: &[u8]) -> Vec<OsString> {
    let follow = |v: &[u8]| match o.2 {
        1 => true,
        2 => plain(v) || v[1..].iter().all(|b| b.is_ascii_digit()),
        _ => plain(v),
    };
    match choice(5) {
        0 => {
            let n = pick(o.0);
            vec![cat(&[b"--", n.as_bytes(), b"=", v])]
        }
        1 => {
            assume(follow(v));
            vec![cat(&[b"--", pick(o.0).as_bytes()]), os(v.to_vec())]
        }
        2 => vec![cat(&[b"-", pick(o.1).as_bytes(), b"=", v])],
        3 => {
            assume(attachable(v));
            vec![cat(&[b"-", pick(o.1).as_bytes(), v])]
        }
        _ => {
            assume(follow(v));
            vec![cat(&[b"-", pick(o.1).as_bytes()]), os(v.to_vec())]
        }
    }
}
fn compare(before: Vec<OsString>, o: Opt, v: &[u8], after: Vec<OsString>) {
    let w = spell(o, v);
    let line = |mid: Vec<OsString>| {
        let mut l = before.clone();
        l.extend(mid);
        l.extend(after.clone());
        l
    };
    let r = parse::<Cli>(line(w));
    let canon = parse::<Cli>(line(vec![cat(&[b"--", o.0[0].as_bytes(), b"=", v])]));
    emit_end(&r);
    reach!();
    check!(same(&r, &canon), "a spelling and the canonical '--long=v' have the same outcome");
}

scenarios! {
    [quick, "8 options, all 5 spellings with every name and alias, values of 0..=3 arbitrary bytes"]
    fn p03_alone() {
        let o = pick(&OPTS);
        let v = bytes(len(0, 3));
        compare(vec![], o, &v, vec![]);
    }
    [quick, "3 options inside a subcommand, all spellings and aliases, values of 0..=3 arbitrary bytes"]
    fn p03_sub() {
        let o = pick(&SUBOPTS);
        let v = bytes(len(0, 3));
        let before = pick(&[vec![s("sub")], vec![s("p"), s("-f"), s("sub")]]);
        compare(before, o, &v, vec![]);
    }
    [quick, "8 options, all spellings and aliases, values of 0..=2 arbitrary bytes, one of 6 contexts (other options, the same option again, subcommand, '--')"]
    fn p03_context() {
        let o = pick(&OPTS);
        let v = bytes(len(0, 2));
        let (b, a) = match choice(6) {
            0 => (vec![s("-f")], vec![s("p")]),
            1 => (vec![s("p"), s("q")], vec![s("--flag"), s("-o=1")]),
            2 => (vec![s("-l1")], vec![s("-l"), s("2"), s("--delim=x,y")]),
            3 => (vec![s("-g1")], vec![s("sub"), s("-k2")]),
            4 => (vec![], vec![s("--"), s("-f")]),
            _ => (vec![s("-n3")], vec![s("--nope")]),
        };
        compare(b, o, &v, a);
    }
    [quick, "8 options, all spellings and aliases, values of 0..=2 arbitrary bytes, followed by one word of 0..=2 arbitrary bytes"]
    fn p03_next_word() {
        let o = pick(&OPTS);
        let v = bytes(len(0, 2));
        let t = tok(0, 2);
        compare(vec![], o, &v, vec![t]);
    }
    [quick, "8 options, all spellings and aliases, values of 8 or 24 bytes, of which the first, second and last are arbitrary"]
    fn p03_long_values() {
        let o = pick(&OPTS);
        let n = pick(&[8, 24]);
        let mut v = vec![b'b'; n];
        let x = bytes(3);
        v[0] = x[0];
        v[1] = x[1];
        v[n - 1] = x[2];
        compare(vec![], o, &v, vec![]);
    }
    [deep, "8 options, all spellings and aliases, values of 0..=5 arbitrary bytes, followed by a word of 0..=3 arbitrary bytes"]
    fn p03_deep() {
        let o = pick(&OPTS);
        let v = bytes(len(0, 4));
        let t = tok(0, 3);
        compare(vec![], o, &v, vec![t]);
    }
    [quick, "477 options of all combinations of attributes in 54 definitions, every name and spelling against the first, values of 0..=1 arbitrary bytes, another option before"]
    fn p03_matrix() {
        let a = mx::at(mx::PLAIN);
        let r = a.option(|o| o.kind != Kind::Flag);
        let v = bytes(len(0, 1));
        let names = a.names(r);
        let mut w = mx::valued(pick(&names), r.opt, &v);
        let mut first = vec![cat(&[names[0].as_bytes(), b"=", &v])];
        let q = a.option(|o| o.kind == Kind::Flag || o.kind == Kind::Maybe);
        if flip() {
            w.insert(0, s(a.names(q)[0]));
            first.insert(0, s(a.names(q)[0]));
        }
        let g = [(r.level, r.index)];
        let (x, xv) = mx::run_on(a.def, a.line(w, &g));
        let (y, yv) = mx::run_on(a.def, a.line(first, &g));
        reach!();
        check!(x == y && xv == yv, "a spelling and the first '--name=v' have the same outcome");
    }
}
