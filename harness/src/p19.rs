//! Global options work after subcommands, other outer options do not.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand};
use std::ffi::OsString;

#[derive(Parser, PartialEq)]
struct Cli {
    #[arg(short, long, global = true, alias = "gg", short_alias = 'G')]
    glob: Option<OsString>,
    #[arg(short, long, global = true)]
    verbose: bool,
    #[arg(short, long, global = true)]
    list: Vec<OsString>,
    #[arg(short, long, global = true, default_value = "dd")]
    dflt: OsString,
    #[arg(short, long)]
    only: Option<OsString>,
    #[arg(short = 'x', long, global = true)]
    shared: Option<OsString>,
    #[arg(short = 'y', long)]
    yours: Option<OsString>,
    #[arg(short = 'q', long, global = true, require_equals = true)]
    quest: Option<Option<OsString>>,
    #[arg(long = "min", global = true, allow_hyphen_values = true)]
    hyph: Option<OsString>,
    #[command(flatten)]
    flat: Flat,
    #[command(subcommand)]
    cmd: Option<Cmd>,
}
#[derive(Args, PartialEq)]
struct Flat {
    #[arg(short, long, global = true)]
    inner: Option<OsString>,
    #[arg(short = 'j', long)]
    jnner: Option<OsString>,
}
#[derive(Subcommand, PartialEq)]
enum Cmd {
    Unit,
    One {
        #[arg(short = 'x', long)]
        shared: Option<OsString>,
        #[arg(short = 'y', long, global = true)]
        yours: Option<OsString>,
        #[arg(short = 'm', long, global = true)]
        mid: Option<OsString>,
        #[arg(short = 'n', long)]
        near: Option<OsString>,
        #[command(flatten)]
        flat: MidFlat,
        rest: Vec<OsString>,
        #[command(subcommand)]
        cmd: Option<Deep>,
    },
}
#[derive(Args, PartialEq)]
struct MidFlat {
    #[arg(long, global = true)]
    below: Option<OsString>,
    #[arg(short = 'i', long = "inner-mid")]
    imid: Option<OsString>,
}
#[derive(Subcommand, PartialEq)]
enum Deep {
    Two {
        #[arg(short = 'm')]
        short_mid: Option<OsString>,
        #[arg(short = 'z', long)]
        zed: Option<OsString>,
        rest: Vec<OsString>,
    },
    Bare,
}
/// Where a value has ended up: a number per field.
fn where_is(c: &Cli, v: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut o = |n: u8, x: &Option<OsString>| {
        if let Some(x) = x {
            out.push(if raw(x) == v { n } else { 99 });
        }
    };
    o(1, &c.glob);
    o(3, &c.only);
    o(4, &c.shared);
    o(5, &c.yours);
    o(6, &c.hyph);
    o(7, &c.flat.inner);
    o(8, &c.flat.jnner);
    if let Some(x) = &c.quest {
        o(9, x);
    }
    if c.list.len() > 0 {
        o(10, &c.list.first().cloned());
    }
    if raw(&c.dflt) != b"dd" {
        o(11, &Some(c.dflt.clone()));
    }
    if let Some(Cmd::One { shared, yours, mid, near, flat, cmd, .. }) = &c.cmd {
        o(20, shared);
        o(21, yours);
        o(22, mid);
        o(23, near);
        o(24, &flat.below);
        o(25, &flat.imid);
        if let Some(Deep::Two { short_mid, zed, .. }) = cmd {
            o(30, short_mid);
            o(31, zed);
        }
    }
    out
}
/// (option, where it goes at level 0, 1 = unit, 2 = one, 3 = one two, 4 = one bare); 0 is rejected
const OPTS: [(&str, [u8; 5]); 22] = [
    ("--glob", [1, 1, 1, 1, 1]), ("-g", [1, 1, 1, 1, 1]), ("--gg", [1, 1, 1, 1, 1]), ("-G", [1, 1, 1, 1, 1]),
    ("--only", [3, 0, 0, 0, 0]), ("-o", [3, 0, 0, 0, 0]),
    ("--shared", [4, 4, 20, 4, 4]), ("-x", [4, 4, 20, 4, 4]),
    ("--yours", [5, 0, 21, 21, 21]), ("-y", [5, 0, 21, 21, 21]),
    ("--min", [6, 6, 6, 6, 6]),
    ("--inner", [7, 7, 7, 7, 7]), ("-i", [7, 7, 25, 7, 7]),
    ("--jnner", [8, 0, 0, 0, 0]),
    ("--quest", [9, 9, 9, 9, 9]),
    ("-l", [10, 10, 10, 10, 10]),
    ("--mid", [0, 0, 22, 22, 22]), ("-m", [0, 0, 22, 30, 22]),
    ("-n", [0, 0, 23, 0, 0]),
    ("--below", [0, 0, 24, 24, 24]), ("--inner-mid", [0, 0, 25, 0, 0]),
    ("-z", [0, 0, 0, 31, 0]),
];
const PATHS: [&[&str]; 5] = [&[], &["unit"], &["one"], &["one", "two"], &["one", "bare"]];

scenarios! {
    [quick, "nine levels of subcommands: one of the 4 options of any level at any level, its value of 0..=1 arbitrary bytes; a list at two levels"]
    fn p19_levels() {
        use crate::many::levels::*;
        let (of, at) = (choice(LEVELS), choice(LEVELS));
        let depth = if flip() { LEVELS - 1 } else { at };
        let kind = choice(4);
        let v = bytes(len(0, 1));
        let word = match kind {
            0 => if flip() { cat(&[format!("--g{of}=").as_bytes(), &v]) } else { cat(&[b"-", &b"abcdefgij"[of..of + 1], b"=", &v]) },
            1 => cat(&[format!("--many{of}=").as_bytes(), &v]),
            2 => if flip() { cat(&[format!("--own{of}=").as_bytes(), &v]) } else { cat(&[b"-", &b"ABCDEFGIJ"[of..of + 1], b"=", &v]) },
            _ => cat(&[b"--same=", &v]),
        };
        let mut l = vec![];
        for d in 0..=depth {
            if d > 0 {
                l.push(s("down"));
            }
            if d == of && kind == 1 {
                l.push(s(&format!("--many{of}=1")));
            }
            if d == at {
                l.push(word.clone());
            }
        }
        assume(kind != 3 || of == at);
        let r = parse::<L0>(l);
        emit_end(&r);
        let ok = match kind { 0 | 1 => of <= at, 2 => of == at, _ => true };
        match r {
            Ok(c) => {
                reach!();
                let c = seen(c);
                check!(ok && c.len() == depth + 1, "an outer option is accepted exactly if it is global");
                let here = |d: usize, k: usize| if d == of && k == kind { Some(&v[..]) } else { None };
                check!(c.iter().enumerate().all(|(d, s)| s.glob.as_ref().map(|x| raw(x)) == here(d, 0) && s.own.as_ref().map(|x| raw(x)) == here(d, 2) && s.same.as_ref().map(|x| raw(x)) == here(d, 3)), "it sets the field of its own command, the innermost of the name");
                check!(c.iter().enumerate().all(|(d, s)| if d == of && kind == 1 { s.many.len() == 2 && raw(&s.many[0]) == b"1" && raw(&s.many[1]) == &v[..] } else { s.many.is_empty() }), "a list has the values in order");
            }
            Err(e) => { reach!(); check!(!ok && class(&e) == Class::Unexpected, "an outer option is accepted exactly if it is global") }
        }
    }
    [quick, "22 names at 5 places (top, unit, and two nested levels), inline value of 0..=3 arbitrary bytes"]
    fn p19_place() {
        let (name, to) = pick(&OPTS);
        let k = choice(5);
        let v = bytes(len(0, 3));
        let mut l: Vec<OsString> = PATHS[k].iter().map(|x| s(x)).collect();
        l.push(cat(&[name.as_bytes(), b"=", &v]));
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(to[k] != 0 && where_is(&c, &v) == [to[k]], "the innermost definition that reaches here gets the value, nothing else does") }
            Err(e) => { reach!(); check!(to[k] == 0 && class(&e) == Class::Unexpected, "only options that do not reach here are rejected, as unexpected") }
        }
    }
    [quick, "the following word as value: 22 names at 5 places, word of 0..=2 arbitrary bytes"]
    fn p19_next() {
        let (name, to) = pick(&OPTS);
        assume(name != "--quest");
        let k = choice(5);
        let w = tok(0, 2);
        let mut l: Vec<OsString> = PATHS[k].iter().map(|x| s(x)).collect();
        l.push(s(name));
        l.push(w.clone());
        let ok = plain(raw(&w)) || name == "--min";
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(ok && to[k] != 0 && where_is(&c, raw(&w)) == [to[k]], "the innermost definition that reaches here gets the value, nothing else does") }
            Err(e) => { reach!(); check!(if to[k] == 0 { class(&e) == Class::Unexpected } else { !ok && class(&e) == Class::MissingValue }, "only options that do not reach here are rejected, as unexpected") }
        }
    }
    [quick, "as if given before the subcommand: 11 global occurrences at every later place against the front, values of 0..=2 arbitrary bytes"]
    fn p19_moved() {
        let v = bytes(len(0, 2));
        let w = match choice(11) {
            0 => cat(&[b"--glob=", &v]),
            1 => cat(&[b"-G", b"=", &v]),
            2 => s("-v"),
            3 => cat(&[b"-vl=", &v]),
            4 => cat(&[b"--dflt=", &v]),
            5 => s("-q"),
            6 => cat(&[b"-q=", &v]),
            7 => cat(&[b"--inner=", &v]),
            8 => cat(&[b"-vd=", &v]),
            9 => s("--verbose"),
            _ => cat(&[b"--min=", &v]),
        };
        let k = 1 + choice(4);
        let path: Vec<OsString> = PATHS[k].iter().map(|x| s(x)).collect();
        let mut front = vec![w.clone()];
        front.extend(path.clone());
        let at = 1 + choice(path.len());
        let mut later = path;
        later.insert(at, w);
        let a = parse::<Cli>(front);
        let b = parse::<Cli>(later);
        emit_end(&b);
        reach!();
        check!(a.is_ok() && same(&a, &b), "a global option after the subcommand counts as given before it");
    }
    [quick, "lists and repeated values over the levels: three occurrences of a global list before, between and after; values of 0..=1 arbitrary bytes"]
    fn p19_list() {
        let v: Vec<Vec<u8>> = (0..3).map(|_| bytes(len(0, 1))).collect();
        let o = |v: &Vec<u8>| cat(&[b"--list=", v]);
        let on = [flip(), flip(), flip()];
        let mut l = vec![];
        if on[0] { l.push(o(&v[0])) }
        l.push(s("one"));
        if on[1] { l.push(o(&v[1])) }
        l.push(s("two"));
        if on[2] { l.push(o(&v[2])) }
        let want: Vec<&Vec<u8>> = v.iter().zip(on).filter(|x| x.1).map(|x| x.0).collect();
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(c.list.len() == want.len() && c.list.iter().zip(&want).all(|(a, b)| raw(a) == &b[..]), "occurrences at all levels are collected in order") }
            Err(_) => check!(false, "lists take any number of occurrences"),
        }
    }
    [quick, "flags and values in one bundle inside a subcommand, mixing own, enclosing and top-level letters; value of 0..=2 arbitrary bytes"]
    fn p19_bundle() {
        let v = bytes(len(0, 2));
        let (letters, to) = pick(&[("vm", 30), ("vz", 31), ("vg", 1), ("vx", 4), ("vy", 21), ("vi", 7)]);
        let r = parse::<Cli>(vec![s("one"), s("two"), cat(&[b"-", letters.as_bytes(), b"=", &v])]);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(c.verbose && where_is(&c, &v) == [to], "each letter acts where it is defined") }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "twice over the levels is a duplicate, unless the inner definition is another one; values of 0..=1 arbitrary bytes"]
    fn p19_twice() {
        let (name, to) = pick(&OPTS);
        let k = 1 + choice(4);
        assume(to[0] != 0 && to[k] != 0);
        let (v, w) = (bytes(len(0, 1)), bytes(len(0, 1)));
        let mut l = vec![cat(&[name.as_bytes(), b"=", &v])];
        l.extend(PATHS[k].iter().map(|x| s(x)));
        l.push(cat(&[name.as_bytes(), b"=", &w]));
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(to[0] != to[k] || to[0] == 10, "the same option twice is not accepted"); check!(c.cmd.is_some(), "the subcommand is entered") }
            Err(e) => { reach!(); check!(to[0] == to[k] && to[0] != 10 && class(&e) == Class::Duplicate, "different options are") }
        }
    }
    [deep, "22 names at 5 places, inline value of 4..=6 arbitrary bytes"]
    fn p19_deep() {
        let (name, to) = pick(&OPTS);
        let k = choice(5);
        let v = bytes(len(4, 6));
        let mut l: Vec<OsString> = PATHS[k].iter().map(|x| s(x)).collect();
        l.push(cat(&[name.as_bytes(), b"=", &v]));
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => check!(to[k] != 0 && where_is(&c, &v) == [to[k]], "the innermost definition that reaches here gets the value, nothing else does"),
            Err(e) => check!(to[k] == 0 && class(&e) == Class::Unexpected, "only options that do not reach here are rejected, as unexpected"),
        }
    }
    [quick, "every option of the enclosing commands, global or not, hidden or not, inside every subcommand of 127 definitions, in every form, values of 0..=1 arbitrary bytes, given before as well or not"]
    fn p19_matrix() {
        let a = mx::at(0..mx::TABLES.len());
        assume(a.cmds.len() > 1);
        let level = choice(a.cmds.len() - 1);
        let c = a.cmds[level];
        assume(!c.opts.is_empty());
        let index = choice(c.opts.len());
        let o = &c.opts[index];
        let n = pick(o.names);
        let v = if o.rules.names.is_empty() { bytes(len(0, 1)) } else { b"a".to_vec() };
        let w = if o.kind == Kind::Flag || o.kind == Kind::Maybe && flip() { vec![s(n)] } else { mx::valued(n, o, &v) };
        let given = if o.global { vec![(level, index)] } else { vec![] };
        let l = a.line(w, &given);
        match a.agree(l) {
            1 => reach!(),
            2 => reach!(),
            _ => {}
        }
    }
}
