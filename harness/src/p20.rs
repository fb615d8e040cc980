//! Flattened groups behave as if written inline.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand};
use std::ffi::OsString;

#[derive(Parser, PartialEq)]
struct Grouped {
    #[command(flatten)]
    first: G1,
    #[arg(short, long)]
    flag: bool,
    #[arg(short, long)]
    own: Option<OsString>,
    #[command(flatten)]
    second: G2,
    pos: OsString,
    rest: Vec<OsString>,
    #[command(subcommand)]
    cmd: Option<GCmd>,
}
#[derive(Args, PartialEq)]
struct G1 {
    #[arg(short, long, conflicts_with = "beta")]
    alpha: Option<OsString>,
    #[arg(short, long, alias = "bee", short_alias = 'B')]
    beta: Option<OsString>,
    #[arg(short, long, default_value = "dd")]
    dflt: OsString,
    #[command(flatten)]
    deep: G3,
}
#[derive(Args, PartialEq)]
struct G2 {
    #[arg(short, long, global = true)]
    glob: Option<OsString>,
    #[arg(short, long, requires = "need")]
    list: Vec<OsString>,
    #[arg(short = 'e', long, allow_hyphen_values = true)]
    need: Option<OsString>,
    #[arg(short = 'q', long, require_equals = true)]
    quest: Option<Option<OsString>>,
}
#[derive(Args, PartialEq)]
struct G3 {
    #[arg(short, long, allow_negative_numbers = true)]
    num: Option<i8>,
    #[arg(short = 'w', long, use_value_delimiter = true)]
    words: Option<Vec<OsString>>,
    #[arg(short = 'v', long)]
    vflag: bool,
    #[arg(short = 'm', long)]
    must: OsString,
}
#[derive(Subcommand, PartialEq)]
enum GCmd {
    Sub {
        #[command(flatten)]
        inner: G4,
        #[arg(short, long)]
        key: Option<OsString>,
        p: Option<OsString>,
    },
}
#[derive(Args, PartialEq)]
struct G4 {
    #[arg(short = 'z', long)]
    zed: Option<OsString>,
    #[arg(short = 'y', long)]
    yes: bool,
}

/// The same written inline.
#[derive(Parser, PartialEq)]
struct Inline {
    #[arg(short, long, conflicts_with = "beta")]
    alpha: Option<OsString>,
    #[arg(short, long, alias = "bee", short_alias = 'B')]
    beta: Option<OsString>,
    #[arg(short, long, default_value = "dd")]
    dflt: OsString,
    #[arg(short, long, allow_negative_numbers = true)]
    num: Option<i8>,
    #[arg(short = 'w', long, use_value_delimiter = true)]
    words: Option<Vec<OsString>>,
    #[arg(short = 'v', long)]
    vflag: bool,
    #[arg(short = 'm', long)]
    must: OsString,
    #[arg(short, long)]
    flag: bool,
    #[arg(short, long)]
    own: Option<OsString>,
    #[arg(short, long, global = true)]
    glob: Option<OsString>,
    #[arg(short, long, requires = "need")]
    list: Vec<OsString>,
    #[arg(short = 'e', long, allow_hyphen_values = true)]
    need: Option<OsString>,
    #[arg(short = 'q', long, require_equals = true)]
    quest: Option<Option<OsString>>,
    pos: OsString,
    rest: Vec<OsString>,
    #[command(subcommand)]
    cmd: Option<ICmd>,
}
#[derive(Subcommand, PartialEq)]
enum ICmd {
    Sub {
        #[arg(short = 'z', long)]
        zed: Option<OsString>,
        #[arg(short = 'y', long)]
        yes: bool,
        #[arg(short, long)]
        key: Option<OsString>,
        p: Option<OsString>,
    },
}
fn same_value(g: &Grouped, i: &Inline) -> bool {
    let sub = match (&g.cmd, &i.cmd) {
        (None, None) => true,
        (Some(GCmd::Sub { inner, key, p }), Some(ICmd::Sub { zed, yes, key: k, p: q })) => inner.zed == *zed && inner.yes == *yes && key == k && p == q,
        _ => false,
    };
    sub && g.first.alpha == i.alpha && g.first.beta == i.beta && g.first.dflt == i.dflt && g.first.deep.num == i.num && g.first.deep.words == i.words
        && g.first.deep.vflag == i.vflag && g.first.deep.must == i.must && g.flag == i.flag && g.own == i.own && g.second.glob == i.glob
        && g.second.list == i.list && g.second.need == i.need && g.second.quest == i.quest && g.pos == i.pos && g.rest == i.rest
}
/// `many`: several constraints may be violated at once; then only that is compared.
fn compare(l: Vec<OsString>) {
    let g = parse::<Grouped>(l.clone());
    let i = parse::<Inline>(l);
    emit_end(&g);
    match (&g, &i) {
        (Ok(g), Ok(i)) => { reach!(); check!(same_value(g, i), "the values are those of the inline definition") }
        (Err(a), Err(b)) => {
            reach!();
            let (a, b) = (class(a), class(b));
            // constraints are checked group by group: with several violated the one reported may differ
            let con = |c: Class| matches!(c, Class::Required | Class::Requires | Class::Conflict);
            check!(a == b || (con(a) && con(b)), "the errors are those of the inline definition");
        }
        _ => check!(false, "accepted exactly if the inline definition accepts"),
    }
}
const NAMES: [&str; 13] = ["alpha", "beta", "dflt", "num", "words", "own", "glob", "list", "need", "must", "bee", "quest", "zed"];
const LETTERS: [&str; 14] = ["a", "b", "d", "n", "w", "o", "g", "l", "e", "m", "B", "q", "z", "vf"];

/// Name collisions: outside and inside.
#[derive(Parser, PartialEq)]
struct Clash {
    #[command(flatten)]
    a: ClashIn,
    #[arg(short, long)]
    own: Option<OsString>,
}
#[derive(Args, PartialEq)]
struct ClashIn {
    #[arg(short, long)]
    own: Option<OsString>,
    #[arg(long)]
    other: Option<OsString>,
}

scenarios! {
    [quick, "73 options in 14 groups next to each other and in 10 within each other, under every name; two neighbours at once, values of 0..=1 arbitrary bytes; each of them twice; a conflict within a group"]
    fn p20_many() {
        use crate::many::groups::*;
        let i = choice(FAR.len());
        let j = if flip() { i } else { (i + 1) % FAR.len() };
        let (v, w) = (bytes(len(0, 1)), bytes(1));
        assume(v != b"," && w != b",");
        let word = |i: usize, v: &[u8]| match FAR[i].2 {
            0 => s(if !FAR[i].1.is_empty() && flip() { FAR[i].1 } else { FAR[i].0 }),
            _ => cat(&[FAR[i].0.as_bytes(), b"=", v]),
        };
        let l = vec![word(j, &w), s("p"), word(i, &v)];
        let r = parse::<Far>(l);
        emit_end(&r);
        let (a, b) = (FAR[i].2, FAR[j].2);
        match r {
            Ok(f) => {
                reach!();
                let set = f.set();
                let is = |i: usize, x: &[&[u8]]| set.iter().any(|s| s.0 == i && s.1.len() == x.len() && s.1.iter().zip(x).all(|(a, b)| raw(a) == *b));
                check!(f.pos.as_ref().is_some_and(|p| raw(p) == b"p"), "the positional is there");
                if i == j {
                    check!(a == 2 && set.len() == 1 && is(i, &[&w, &v]), "a list has both values");
                } else {
                    check!(set.len() == 2 && is(i, &[&v[..]][usize::from(a == 0)..]) && is(j, &[&w[..]][usize::from(b == 0)..]), "each has its value and no other is set");
                    check!(FAR[i].0[3..] != FAR[j].0[3..] || a + b != 1, "a conflict within the group counts");
                }
            }
            Err(e) => {
                reach!();
                let c = class(&e);
                check!(c == if i == j { Class::Duplicate } else { Class::Conflict } && if i == j { a < 2 } else { a + b == 1 && FAR[i].0[3..] == FAR[j].0[3..] }, "only what goes badly together is rejected");
                check!(e.to_string().contains(&format!("{}", FAR[if i == j || a == 1 { i } else { j }].0)), "the option is named");
            }
        }
    }
    [quick, "'-m=1', a positional and one option under 13 long names or 14 letters, value of 0..=3 arbitrary bytes after '='"]
    fn p20_one() {
        let v = bytes(len(0, 3));
        let w = if flip() { cat(&[b"--", pick(&NAMES).as_bytes(), b"=", &v]) } else { cat(&[b"-", pick(&LETTERS).as_bytes(), b"=", &v]) };
        compare(vec![s("-m=1"), s("p"), w]);
    }
    [quick, "'-m=1', an option of 13 and the next word 0..=2 arbitrary bytes"]
    fn p20_next() {
        let w = tok(0, 2);
        let o = if flip() { cat(&[b"--", pick(&NAMES).as_bytes()]) } else { cat(&[b"-", pick(&LETTERS).as_bytes()]) };
        compare(vec![s("-m=1"), s("p"), o, w]);
    }
    [quick, "a short bundle of 1..=3 arbitrary bytes"]
    fn p20_bundle() {
        let w = bytes(len(1, 3));
        compare(vec![s("-m=1"), s("p"), cat(&[b"-", &w])]);
    }
    [quick, "every subset of 8 options with a value of 0..=1 arbitrary bytes shared by all (constraints, required)"]
    fn p20_subsets() {
        let v = bytes(len(0, 1));
        let mut l = vec![];
        for w in ["--alpha=", "--beta=", "--dflt=", "--must=", "--own=", "--list=", "--need="] {
            if flip() { l.push(cat(&[w.as_bytes(), &v])) }
        }
        if flip() { l.push(s("p")) }
        compare(l);
    }
    [quick, "two options in a row of 13 each, values of 0..=1 arbitrary bytes (order, duplicates)"]
    fn p20_two() {
        let (a, b) = (pick(&NAMES), pick(&NAMES));
        let (v, w) = (bytes(len(0, 1)), bytes(len(0, 1)));
        compare(vec![cat(&[b"--", a.as_bytes(), b"=", &v]), s("-m1"), s("p"), cat(&[b"--", b.as_bytes(), b"=", &w])]);
    }
    [quick, "in the subcommand: one option under 13 names or 14 letters, value of 0..=2 arbitrary bytes, then a word of 0..=1"]
    fn p20_sub() {
        let v = bytes(len(0, 2));
        let w = if flip() { cat(&[b"--", pick(&NAMES).as_bytes(), b"=", &v]) } else { cat(&[b"-", pick(&["z", "y", "yz", "k", "g", "yg", "a", "v"]).as_bytes(), b"=", &v]) };
        compare(vec![s("-m=1"), s("p"), s("sub"), w, tok(0, 1)]);
    }
    [quick, "positionals and '--': three words of 0..=1 arbitrary bytes with '--' before any of them"]
    fn p20_words() {
        let mut l = vec![s("-m=1")];
        let at = choice(4);
        for i in 0..3 {
            if i == at { l.push(s("--")) }
            l.push(tok(0, 1));
        }
        compare(l);
    }
    [quick, "colliding names: the argument outside the group gets the value, and only this one, a value of 0..=3 arbitrary bytes, in all spellings; the other names still work"]
    fn p20_clash() {
        let v = bytes(len(0, 3));
        let l = match choice(4) {
            0 => vec![cat(&[b"--own=", &v])],
            1 => vec![cat(&[b"-o=", &v])],
            2 => { assume(plain(&v)); vec![s("--own"), os(v.clone())] }
            _ => { assume(plain(&v)); vec![s("-o"), os(v.clone())] }
        };
        let other = flip();
        let mut l = l;
        if other { l.insert(0, s("--other=1")) }
        let r = parse::<Clash>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(c.own.is_some() && c.a.own.is_none(), "the one outside the group gets it, and only this one");
                check!(c.own.as_ref().or(c.a.own.as_ref()).map(|x| raw(x)) == Some(&v[..]) && c.a.other.is_some() == other, "it is the value");
            }
            Err(_) => check!(false, "accepted"),
        }
    }
    [deep, "any word of 0..=5 arbitrary bytes, then one of 0..=2"]
    fn p20_deep() {
        compare(vec![s("-m=1"), s("p"), tok(0, 4), tok(0, 2)]);
    }
    [quick, "definitions with groups (nested, several, in subcommands): any two options in any form, values of 0..=1 arbitrary bytes, against the grammar of the same arguments inline"]
    fn p20_matrix() {
        let a = mx::at(0..mx::TABLES.len());
        let (q, r) = (a.option(|_| true), a.option(|_| true));
        let mut w = mx::any_form(&a, q, 1, 1);
        w.extend(mx::usual(r.opt));
        let l = a.line(w, &[(q.level, q.index), (r.level, r.index)]);
        match a.agree(l) {
            1 => reach!(),
            2 => reach!(),
            _ => {}
        }
    }
}
