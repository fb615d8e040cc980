//! Options that require '='.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand};
use std::ffi::OsString;

#[derive(Parser, PartialEq)]
struct Cli {
    #[arg(short, long, require_equals = true)]
    req: Option<OsString>,
    #[arg(short = 'v', long, require_equals = true)]
    reqv: Vec<OsString>,
    #[arg(short, long, require_equals = true, default_value = "dd")]
    dflt: OsString,
    #[arg(short = 'y', long, require_equals = true)]
    yany: Option<OsString>,
    #[arg(short = 'n', long, require_equals = true, alias = "count", short_alias = 'c')]
    num: Option<u8>,
    #[arg(short = 'w', long, require_equals = true, use_value_delimiter = true)]
    words: Option<Vec<OsString>>,
    #[arg(short, long)]
    flag: bool,
    #[command(flatten)]
    flat: Flat,
    #[arg(short, long, global = true, require_equals = true)]
    glob: Option<OsString>,
    rest: Vec<OsString>,
    #[command(subcommand)]
    sub: Option<Sub>,
}
#[derive(Args, PartialEq)]
struct Flat {
    #[arg(short, long, require_equals = true)]
    inner: Option<OsString>,
}
#[derive(Subcommand, PartialEq)]
enum Sub {
    Sub {
        #[arg(short, long, require_equals = true)]
        key: Option<OsString>,
    },
}
#[derive(Parser, PartialEq)]
struct Must {
    #[arg(short, long, require_equals = true)]
    must: OsString,
    #[arg(short, long)]
    next: Option<OsString>,
    pos: Option<OsString>,
}
const OPTS: [(&[&str], &[&str]); 8] = [
    (&["req"], &["r"]), (&["reqv"], &["v"]), (&["dflt"], &["d"]), (&["yany"], &["y"]), (&["num", "count"], &["n", "c"]),
    (&["words"], &["w"]), (&["inner"], &["i"]), (&["glob"], &["g"]),
];
fn one(l: &[OsString]) -> Option<&[u8]> {
    if l.len() == 1 { Some(raw(&l[0])) } else { None }
}
fn o(x: &Option<OsString>) -> Option<&[u8]> {
    x.as_ref().map(|x| raw(x))
}
/// Everything but option `k` is untouched (ignoring `rest`, `flag` and `sub`).
fn holds(c: &Cli, k: usize, v: &[u8]) -> bool {
    let is = |i: usize, x: Option<&[u8]>| if i == k { x == Some(v) } else { x.is_none() };
    is(0, o(&c.req)) && is(6, o(&c.flat.inner)) && is(7, o(&c.glob)) && is(3, o(&c.yany))
        && (if k == 1 { one(&c.reqv) == Some(v) } else { c.reqv.is_empty() })
        && raw(&c.dflt) == if k == 2 { v } else { b"dd" }
        && (if k == 4 { true } else { c.num.is_none() })
        && (if k == 5 { true } else { c.words.is_none() })
}

scenarios! {
    [quick, "8 options: '--name=v' and '-n=v' under every name, v of 0..=3 arbitrary bytes, after a bundled flag as well"]
    fn p11_accepts() {
        let k = choice(8);
        assume(k != 4 && k != 5);
        let v = bytes(len(0, 3));
        let w = match choice(3) {
            0 => cat(&[b"--", pick(OPTS[k].0).as_bytes(), b"=", &v]),
            1 => cat(&[b"-", pick(OPTS[k].1).as_bytes(), b"=", &v]),
            _ => cat(&[b"-f", pick(OPTS[k].1).as_bytes(), b"=", &v]),
        };
        let r = parse::<Cli>(vec![w, s("p")]);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(holds(&c, k, &v) && one(&c.rest) == Some(b"p"), "the value after '=' is taken, nothing else") }
            Err(_) => check!(false, "a value after '=' is accepted"),
        }
    }
    [quick, "typed and delimited options that require '=': value of 1..=3 arbitrary bytes, all names"]
    fn p11_typed() {
        let v = bytes(len(1, 3));
        let num = flip();
        let k = if num { 4 } else { 5 };
        let w = if flip() { cat(&[b"--", pick(OPTS[k].0).as_bytes(), b"=", &v]) } else { cat(&[b"-", pick(OPTS[k].1).as_bytes(), b"=", &v]) };
        let r = parse::<Cli>(vec![w]);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                if num {
                    check!(c.num.is_some() && c.num == std::str::from_utf8(&v).ok().and_then(|t| t.parse().ok()), "the number after '=' is taken");
                } else {
                    let parts: Vec<&[u8]> = v.split(|b| *b == b',').collect();
                    let w = c.words.as_deref().unwrap_or(&[]);
                    check!(w.len() == parts.len() && w.iter().zip(&parts).all(|(a, b)| raw(a) == *b), "the parts after '=' are taken");
                }
            }
            Err(e) => check!(num && class(&e) == Class::InvalidValue && std::str::from_utf8(&v).ok().and_then(|t| t.parse::<u8>().ok()).is_none(), "only a bad number is rejected"),
        }
    }
    [quick, "8 options: '--name' and '-n' (also bundled) with the next word 0..=3 arbitrary bytes or none"]
    fn p11_next() {
        let k = choice(8);
        let mut l = vec![match choice(3) {
            0 => cat(&[b"--", pick(OPTS[k].0).as_bytes()]),
            1 => cat(&[b"-", pick(OPTS[k].1).as_bytes()]),
            _ => cat(&[b"-f", pick(OPTS[k].1).as_bytes()]),
        }];
        if flip() { l.push(tok(0, 3)); }
        let r = parse::<Cli>(l);
        emit_end(&r);
        reach!();
        check!(is_class(&r, Class::MissingEq), "without '=' the option is rejected for want of it, whatever follows");
    }
    [quick, "8 options: '-nv' with v of 1..=3 arbitrary bytes not starting with '='"]
    fn p11_attached() {
        let k = choice(8);
        let v = bytes(len(1, 3));
        assume(attachable(&v));
        let w = if flip() { cat(&[b"-", pick(OPTS[k].1).as_bytes(), &v]) } else { cat(&[b"-f", pick(OPTS[k].1).as_bytes(), &v]) };
        let r = parse::<Cli>(vec![w, s("z")]);
        emit_end(&r);
        reach!();
        check!(is_class(&r, Class::MissingEq), "an attached value without '=' is rejected");
    }
    [quick, "in a subcommand: own and global option, with '=' and without, v of 0..=2 arbitrary bytes"]
    fn p11_sub() {
        let g = flip();
        let (long, short): (&[u8], &[u8]) = if g { (b"--glob", b"-g") } else { (b"--key", b"-k") };
        let v = bytes(len(0, 2));
        let eq = flip();
        let name = if flip() { long } else { short };
        let l = if eq { vec![s("sub"), cat(&[name, b"=", &v])] } else { vec![s("sub"), cat(&[name]), os(v.clone())] };
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                let Some(Sub::Sub { key }) = &c.sub else { check!(false, "the subcommand is entered"); return };
                check!(eq, "only with '='");
                check!(if g { o(&c.glob) == Some(&v[..]) && key.is_none() } else { o(key) == Some(&v[..]) && c.glob.is_none() }, "the value after '=' is taken");
            }
            Err(e) => check!(!eq && class(&e) == Class::MissingEq, "without '=' it is rejected"),
        }
    }
    [quick, "a required one: '-m=v', '--must=v', '-m v', '-mv', absent; v of 0..=2 arbitrary bytes"]
    fn p11_required() {
        let v = bytes(len(0, 2));
        let k = choice(5);
        let l = match k {
            0 => vec![cat(&[b"-m=", &v])],
            1 => vec![cat(&[b"--must=", &v])],
            2 => vec![s("-m"), os(v.clone())],
            3 => { assume(attachable(&v)); vec![cat(&[b"-m", &v])] }
            _ => { vec![cat(&[b"-n=", &v])] }
        };
        let r = parse::<Must>(l);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(k < 2 && raw(&c.must) == &v[..] && c.next.is_none() && c.pos.is_none(), "only after '='") }
            Err(e) => check!((k == 4 && class(&e) == Class::Required) || (k > 1 && k < 4 && class(&e) == Class::MissingEq), "otherwise rejected"),
        }
    }
    [deep, "8 options, '--name' or '-n' followed by a word of 4..=6 arbitrary bytes"]
    fn p11_deep() {
        let k = choice(8);
        let l = vec![if flip() { cat(&[b"--", pick(OPTS[k].0).as_bytes()]) } else { cat(&[b"-", pick(OPTS[k].1).as_bytes()]) }, tok(4, 6)];
        let r = parse::<Cli>(l);
        emit_end(&r);
        check!(is_class(&r, Class::MissingEq), "without '=' the option is rejected for want of it, whatever follows");
    }
    [quick, "options that require '=' of all combinations of attributes in 127 definitions, under every name: '=v', 'v' attached or as next word, or nothing; v of 0..=2 arbitrary bytes"]
    fn p11_matrix() {
        let a = mx::at(0..mx::TABLES.len());
        let r = a.option(|o| o.eq && o.kind != Kind::Maybe);
        let n = pick(&a.names(r)).as_bytes();
        let v = if r.opt.rules.names.is_empty() { bytes(len(0, 2)) } else { b"a".to_vec() };
        let w = match choice(3) {
            0 => vec![cat(&[n, b"=", &v])],
            1 => vec![cat(&[n, &v])],
            _ => vec![os(n.to_vec()), os(v)],
        };
        let l = a.line(w, &[(r.level, r.index)]);
        match a.agree(l) {
            1 => reach!(),
            2 => reach!(),
            _ => {}
        }
    }
}
