//! Options may stand anywhere among the positionals.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand};
use std::ffi::OsString;

#[derive(Parser, PartialEq)]
struct Cli {
    #[arg(short, long)]
    flag: bool,
    #[arg(short, long)]
    opt: Option<OsString>,
    #[arg(short, long)]
    num: Option<u8>,
    #[arg(short, long)]
    list: Vec<OsString>,
    #[arg(short = 'e', long, require_equals = true)]
    eq: Option<Option<OsString>>,
    #[command(flatten)]
    flat: Flat,
    first: OsString,
    second: Option<OsString>,
    rest: Vec<OsString>,
}
#[derive(Args, PartialEq)]
struct Flat {
    #[arg(short = 'i', long)]
    inner: Option<OsString>,
    #[arg(long)]
    yes: bool,
}

/// An option item: its words must stay together.
fn item(k: usize) -> Vec<OsString> {
    let v = |n| {
        let v = bytes(n);
        assume(plain(&v));
        v
    };
    match k {
        0 => vec![s("-f")],
        1 => vec![cat(&[b"--opt=", &bytes(2)])],
        2 => vec![s("--opt"), os(v(2))],
        3 => vec![s("-o"), os(v(1))],
        4 => vec![cat(&[b"-n", &bytes(1)])],
        5 => vec![cat(&[b"-l=", &bytes(1)])],
        6 => vec![s("--list"), os(v(1))],
        7 => vec![s("-e")],
        8 => vec![cat(&[b"--eq=", &bytes(1)])],
        9 => vec![s("--inner"), os(v(1))],
        10 => vec![s("--yes")],
        _ => vec![s("-fi"), os(v(1))],
    }
}
fn pos() -> OsString {
    let v = bytes(len(0, 1));
    os(v)
}

fn permuted(items: Vec<Vec<OsString>>, poss: Vec<OsString>) {
    // before which positional does each item go? Items keep their order.
    let mut line = Vec::new();
    let mut at = 0;
    let mut it = items.iter();
    let mut next = it.next();
    for i in 0..=poss.len() {
        while let Some(x) = next {
            if i < poss.len() && flip() {
                break;
            }
            line.extend(x.clone());
            next = it.next();
        }
        if i < poss.len() {
            line.push(poss[i].clone());
            at += 1;
        }
    }
    assert!(at == poss.len());
    let mut first = Vec::new();
    for x in &items {
        first.extend(x.clone());
    }
    let mut last = poss.clone();
    first.extend(poss);
    for x in &items {
        last.extend(x.clone());
    }
    let r = parse::<Cli>(line);
    let c = parse::<Cli>(first);
    emit_end(&r);
    reach!();
    check!(same(&r, &c), "options between or after the positionals mean the same as options first");
    let l = parse::<Cli>(last);
    check!(same(&l, &c), "options after the positionals mean the same as options first");
}

scenarios! {
    [quick, "1 option of 12 kinds, 0..=4 positionals of 0..=1 arbitrary bytes, all places"]
    fn p05_one() {
        let i = item(choice(12));
        let n = choice(5);
        let p = (0..n).map(|_| pos()).collect();
        permuted(vec![i], p);
    }
    [quick, "2 options of 12 kinds each, 2 positionals, all interleavings"]
    fn p05_two() {
        let a = item(choice(12));
        let b = item(choice(12));
        let p = (0..2).map(|_| os(bytes(1))).collect();
        permuted(vec![a, b], p);
    }
    [quick, "3 options of 4 kinds, 3 positionals, all interleavings"]
    fn p05_three() {
        let k = [0, 2, 5, 9];
        let i = (0..3).map(|_| item(pick(&k))).collect();
        let p = (0..3).map(|_| os(bytes(1))).collect();
        permuted(i, p);
    }
    [quick, "different options given in either order, 12 x 12 kinds"]
    fn p05_swapped() {
        let (x, y) = (choice(12), choice(12));
        // occurrences of the same option must keep their order
        let group = |k: usize| [0, 1, 1, 1, 2, 3, 3, 4, 4, 5, 6, 7][k];
        assume(group(x) != group(y) && !(x == 11 && (y == 0 || y == 9)) && !(y == 11 && (x == 0 || x == 9)));
        let (a, b) = (item(x), item(y));
        let p = os(bytes(1));
        let line = |f: &[OsString], g: &[OsString]| {
            let mut l = f.to_vec();
            l.push(p.clone());
            l.extend_from_slice(g);
            l
        };
        let r = parse::<Cli>(line(&a, &b));
        let q = parse::<Cli>(line(&b, &a));
        emit_end(&r);
        reach!();
        // with two wrong words the first one is reported, so only the fact of failure is compared
        check!(r.is_ok() == q.is_ok(), "two options in either order are both accepted or both rejected");
        if let (Ok(a), Ok(b)) = (&r, &q) {
            reach!();
            check!(a == b, "and give the same value");
        }
    }
    [deep, "3 options of 12 kinds, 3 positionals, all interleavings"]
    fn p05_deep() {
        let i = (0..3).map(|_| item(choice(12))).collect();
        let p = (0..3).map(|_| pos()).collect();
        permuted(i, p);
    }
    [quick, "options of all combinations of attributes before, between and after 1..=2 positional words of 0..=1 arbitrary bytes, against the grammar"]
    fn p05_matrix() {
        let a = mx::at(mx::PLAIN);
        let r = a.option(|_| true);
        let n = len(1, 2);
        let mut w: Vec<OsString> = (0..n).map(|_| { let t = tok(0, 1); assume(plain(raw(&t))); t }).collect();
        let k = choice(n + 1);
        let o = mx::any_form(&a, r, 1, 1);
        w.splice(k..k, o);
        let l = a.line_with(w, &[(r.level, r.index)], false);
        match a.agree(l) {
            1 => reach!(),
            2 => reach!(),
            _ => {}
        }
    }
}
