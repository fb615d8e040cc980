//! Options with an optional value.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand};
use std::ffi::OsString;

#[derive(Parser, PartialEq)]
struct Cli {
    #[arg(short, long, require_equals = true, alias = "hue", short_alias = 'C')]
    color: Option<Option<OsString>>,
    #[arg(short, long, require_equals = true)]
    num: Option<Option<u8>>,
    #[arg(short, long)]
    flag: bool,
    #[command(flatten)]
    flat: Flat,
    #[arg(short, long, global = true, require_equals = true)]
    glob: Option<Option<OsString>>,
    #[arg(short, long)]
    opt: Option<OsString>,
    rest: Vec<OsString>,
    #[command(subcommand)]
    sub: Option<Sub>,
}
#[derive(Args, PartialEq)]
struct Flat {
    #[arg(short, long, require_equals = true)]
    inner: Option<Option<OsString>>,
}
#[derive(Subcommand, PartialEq)]
enum Sub {
    Sub {
        #[arg(short, long, require_equals = true, alias = "clef")]
        key: Option<Option<OsString>>,
        #[arg(short = 'q')]
        quick: bool,
    },
}
const OPTS: [(&[&str], &[&str]); 4] = [(&["color", "hue"], &["c", "C"]), (&["inner"], &["i"]), (&["glob"], &["g"]), (&["key", "clef"], &["k"])];
type OO = Option<Option<OsString>>;
fn field(c: &Cli, k: usize) -> OO {
    match k {
        0 => c.color.clone(),
        1 => c.flat.inner.clone(),
        2 => c.glob.clone(),
        _ => match &c.sub { Some(Sub::Sub { key, .. }) => key.clone(), None => None },
    }
}
fn rest_is(c: &Cli, t: &[&OsString]) -> bool {
    c.rest.len() == t.len() && c.rest.iter().zip(t).all(|(a, b)| raw(a) == raw(b))
}
/// (word, given, value)
fn word(k: usize, v: Option<&[u8]>) -> OsString {
    let name = if flip() { cat(&[b"--", pick(OPTS[k].0).as_bytes()]) } else { cat(&[b"-", pick(OPTS[k].1).as_bytes()]) };
    match v {
        None => name,
        Some(v) => cat(&[raw(&name), b"=", v]),
    }
}
fn is(x: &OO, v: Option<&[u8]>) -> bool {
    match x {
        None => false,
        Some(x) => x.as_ref().map(|x| raw(x)) == v,
    }
}

scenarios! {
    [quick, "4 options (own, flattened, global, in a subcommand), bare or with 0..=3 arbitrary bytes after '=', every name, a following plain word of 0..=2 arbitrary bytes"]
    fn p12_alone() {
        let k = choice(3);
        let v = if flip() { Some(bytes(len(0, 3))) } else { None };
        let w = word(k, v.as_deref());
        let t = tok(0, 2);
        assume(plain(raw(&t)));
        let r = parse::<Cli>(vec![w, t.clone()]);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(is(&field(&c, k), v.as_deref()), "bare is present without value, '=v' is present with exactly v");
                check!(rest_is(&c, &[&t]), "the next word is not consumed");
                check!((0..3).all(|i| i == k || field(&c, i).is_none()) && !c.flag && c.opt.is_none() && c.num.is_none(), "nothing else changes");
            }
            Err(_) => check!(false, "bare and valued are accepted"),
        }
    }
    [quick, "followed by an option or any other word: '--', flag, option with value; v of 0..=1 bytes"]
    fn p12_next() {
        let k = choice(3);
        let v = if flip() { Some(bytes(len(0, 1))) } else { None };
        let w = word(k, v.as_deref());
        let x = byte();
        let (t, n) = match choice(4) {
            0 => (vec![s("-f")], 0),
            1 => (vec![s("--"), os(vec![x])], 1),
            2 => (vec![s("-o"), s("v")], 0),
            _ => (vec![s("-")], 1),
        };
        let mut l = vec![w];
        l.extend(t.clone());
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(is(&field(&c, k), v.as_deref()), "bare is present without value, '=v' is present with exactly v");
                check!(c.rest.len() == n && c.flag == (raw(&t[0]) == b"-f") && c.opt.is_some() == (raw(&t[0]) == b"-o"), "the next word is read on its own");
            }
            Err(_) => check!(false, "bare and valued are accepted"),
        }
    }
    [quick, "absent: other words only"]
    fn p12_absent() {
        let t = tok(0, 2);
        assume(plain(raw(&t)) && raw(&t) != b"sub");
        let f = flip();
        let mut l = vec![t];
        if f { l.push(s("-f")); }
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!((0..4).all(|i| field(&c, i).is_none()), "absent when not given") }
            Err(_) => check!(false, "optional"),
        }
    }
    [quick, "bundled after a flag: bare at the end, with '=v', before another letter (needs '='); v of 0..=3 arbitrary bytes"]
    fn p12_bundle() {
        let k = choice(3);
        let c0 = pick(OPTS[k].1);
        let v = bytes(len(0, 3));
        let m = choice(3);
        let w = match m {
            0 => cat(&[b"-f", c0.as_bytes()]),
            1 => cat(&[b"-f", c0.as_bytes(), b"=", &v]),
            _ => { assume(attachable(&v)); cat(&[b"-f", c0.as_bytes(), &v]) }
        };
        let r = parse::<Cli>(vec![w, s("z")]);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(m < 2 && c.flag && rest_is(&c, &[&s("z")]), "the flag before it is set and the next word is not consumed");
                check!(is(&field(&c, k), if m == 1 { Some(&v) } else { None }), "same meaning in a bundle");
            }
            Err(e) => check!(m == 2 && class(&e) == Class::MissingEq, "an attached value without '=' is rejected"),
        }
    }
    [quick, "in a subcommand: own and global option, bare or with 0..=2 arbitrary bytes, bundled with an own flag"]
    fn p12_sub() {
        let k = 2 + choice(2);
        let v = if flip() { Some(bytes(len(0, 2))) } else { None };
        let b = flip();
        let w = if b {
            let mut x = cat(&[b"-q", pick(OPTS[k].1).as_bytes()]);
            if let Some(v) = &v { x = cat(&[raw(&x), b"=", v]); }
            x
        } else {
            word(k, v.as_deref())
        };
        let r = parse::<Cli>(vec![s("sub"), w]);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(is(&field(&c, k), v.as_deref()) && field(&c, 5 - k).is_none(), "same meaning in a subcommand and as a global option");
                check!(matches!(&c.sub, Some(Sub::Sub { quick, .. }) if *quick == b), "the flag before it is set");
            }
            Err(_) => check!(false, "bare and valued are accepted"),
        }
    }
    [quick, "typed: an optional number, bare or '=v' of 0..=3 arbitrary bytes"]
    fn p12_typed() {
        let v = if flip() { Some(bytes(len(0, 3))) } else { None };
        let name: &[u8] = if flip() { b"--num" } else { b"-n" };
        let w = match &v { None => cat(&[name]), Some(v) => cat(&[name, b"=", v]) };
        let r = parse::<Cli>(vec![w]);
        emit_end(&r);
        let want = v.as_ref().map(|v| std::str::from_utf8(v).ok().and_then(|t| t.parse::<u8>().ok()));
        match r {
            Ok(c) => { reach!(); check!(match want { None => c.num == Some(None), Some(x) => x.is_some() && c.num == Some(x) }, "bare or the number given") }
            Err(e) => { reach!(); check!(want == Some(None) && class(&e) == Class::InvalidValue, "only a bad number is rejected") }
        }
    }
    [quick, "twice is rejected, in any combination of bare and valued, v of 0..=1 bytes"]
    fn p12_twice() {
        let k = choice(3);
        let a = if flip() { Some(bytes(len(0, 1))) } else { None };
        let b = if flip() { Some(bytes(len(0, 1))) } else { None };
        let (x, y) = (word(k, a.as_deref()), word(k, b.as_deref()));
        let r = parse::<Cli>(vec![x, y]);
        emit_end(&r);
        reach!();
        check!(is_class(&r, Class::Duplicate), "a second occurrence is rejected");
    }
    [deep, "'=v' with v of 4..=6 arbitrary bytes"]
    fn p12_deep() {
        let k = choice(3);
        let v = bytes(len(4, 6));
        let w = word(k, Some(&v));
        let r = parse::<Cli>(vec![w]);
        emit_end(&r);
        match r {
            Ok(c) => check!(is(&field(&c, k), Some(&v)), "bare is present without value, '=v' is present with exactly v"),
            Err(_) => check!(false, "bare and valued are accepted"),
        }
    }
    [quick, "options with an optional value of all combinations of attributes in 127 definitions, under every name: bare, '=v', 'v' attached or as next word; v of 0..=2 arbitrary bytes; after a bundled letter or not"]
    fn p12_matrix() {
        let a = mx::at(0..mx::TABLES.len());
        let r = a.option(|o| o.kind == Kind::Maybe);
        let mut n = pick(&a.names(r)).as_bytes().to_vec();
        if n[1] != b'-' && flip() {
            let f = a.option(|o| o.kind == Kind::Flag || o.kind == Kind::Maybe);
            let letters: Vec<&'static str> = a.names(f).into_iter().filter(|n| !n.starts_with("--")).collect();
            assume(!letters.is_empty());
            n.splice(..1, pick(&letters).bytes());
        }
        let v = if r.opt.rules.names.is_empty() { bytes(len(0, 2)) } else { b"a".to_vec() };
        let w = match choice(4) {
            0 => vec![cat(&[&n, b"=", &v])],
            1 => vec![cat(&[&n, &v])],
            2 => vec![os(n), os(v)],
            _ => vec![os(n)],
        };
        let l = a.line(w, &[(r.level, r.index)]);
        match a.agree(l) {
            1 => reach!(),
            2 => reach!(),
            _ => {}
        }
    }
}
