//! Value fidelity: the bytes the user gives are the bytes the field gets.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand};
use std::ffi::{OsStr, OsString};
use std::path::PathBuf;

#[derive(Parser, PartialEq, Default)]
struct Top {
    #[arg(short = 'o', long = "opt", alias = "option", short_alias = 'q')]
    opt: Option<OsString>,
    #[arg(short = 'é', long = "é-path")]
    path: Option<PathBuf>,
    #[arg(short, long, global = true)]
    glob: Option<OsString>,
    #[arg(short = 'x', long, allow_hyphen_values = true)]
    xany: Option<OsString>,
    #[arg(short, long, require_equals = true)]
    req: Option<OsString>,
    #[arg(short, long)]
    list: Vec<OsString>,
    #[arg(short, long)]
    flag: bool,
    #[command(flatten)]
    flat: Flat,
    pos: Option<OsString>,
    rest: Vec<OsString>,
    #[arg(last = true)]
    last: Vec<OsString>,
    #[command(subcommand)]
    sub: Option<Sub>,
}
#[derive(Args, PartialEq, Default)]
struct Flat {
    #[arg(short = 'F', long)]
    inner: Option<PathBuf>,
}
#[derive(Subcommand, PartialEq)]
enum Sub {
    Sub {
        #[arg(short, long)]
        key: Option<OsString>,
        arg: Option<PathBuf>,
    },
}
fn sub(key: Option<&OsStr>, arg: Option<&OsStr>) -> Option<Sub> {
    Some(Sub::Sub { key: key.map(Into::into), arg: arg.map(Into::into) })
}


fn one(v: Vec<u8>, spelling: usize, around: usize) {
    let w = os(v.clone());
    let v = &v[..];
    let o = w.as_os_str();
    let mut want = Top::default();
    let one = |p: &[u8]| vec![cat(&[p, v])];
    let two = |p: &str| vec![s(p), w.clone()];
    let attached = |p: &[u8]| {
        assume(!v.is_empty() && v[0] != b'=');
        vec![cat(&[p, v])]
    };
    let mut subcmd = false;
    let mut after_dd = false;
    let toks = match spelling {
        0 => { want.opt = Some(o.into()); one(b"--opt=") }
        1 => { want.opt = Some(o.into()); one(b"--option=") }
        2 => { want.opt = Some(o.into()); one(b"-o=") }
        3 => { want.opt = Some(o.into()); attached(b"-q") }
        4 => { assume(plain(v)); want.opt = Some(o.into()); two("-o") }
        5 => { assume(plain(v)); want.opt = Some(o.into()); two("--opt") }
        6 => { want.path = Some(o.into()); one("--é-path=".as_bytes()) }
        7 => { want.path = Some(o.into()); attached("-é".as_bytes()) }
        8 => { want.path = Some(o.into()); one("-é=".as_bytes()) }
        9 => { want.xany = Some(o.into()); two("--xany") }
        10 => { want.xany = Some(o.into()); two("-x") }
        11 => { want.req = Some(o.into()); one(b"--req=") }
        12 => { want.req = Some(o.into()); one(b"-r=") }
        13 => { want.list = vec![o.into()]; one(b"--list=") }
        14 => { want.list = vec![o.into()]; attached(b"-l") }
        15 => { want.flat.inner = Some(o.into()); one(b"--inner=") }
        16 => { want.flat.inner = Some(o.into()); attached(b"-F") }
        17 => { assume(plain(v) && v != b"sub"); want.pos = Some(o.into()); vec![w.clone()] }
        18 => { want.last = vec![o.into()]; after_dd = true; vec![s("--"), w.clone()] }
        19 => { want.glob = Some(o.into()); want.sub = sub(None, None); subcmd = true; vec![s("sub"), cat(&[b"--glob=", v])] }
        20 => {
            assume(!v.is_empty() && v[0] != b'=');
            want.glob = Some(o.into());
            want.sub = sub(None, None);
            subcmd = true;
            vec![s("sub"), cat(&[b"-g", v])]
        }
        21 => { want.sub = sub(Some(o), None); subcmd = true; vec![s("sub"), cat(&[b"-k=", v])] }
        22 => { want.sub = sub(Some(o), None); subcmd = true; vec![s("sub"), cat(&[b"--key=", v])] }
        23 => { assume(plain(v)); want.sub = sub(None, Some(o)); subcmd = true; vec![s("sub"), w.clone()] }
        24 => { want.sub = sub(None, Some(o)); subcmd = true; vec![s("sub"), s("--"), w.clone()] }
        25 => { assume(!v.is_empty() && v[0] != b'='); want.flag = true; want.opt = Some(o.into()); one(b"-fo") }
        _ => { want.flag = true; want.opt = Some(o.into()); one(b"-fo=") }
    };
    let flagged = want.flag;
    let mut all = Vec::new();
    match around {
        1 if !flagged => { all.push(s("--flag")); want.flag = true; all.extend(toks) }
        2 if !flagged && !subcmd && !after_dd => { all.extend(toks); all.push(s("-f")); want.flag = true }
        _ => all.extend(toks),
    }
    let r = parse::<Top>(all);
    emit_end(&r);
    reach!();
    match r {
        Ok(t) => {
            if let Some(o) = &t.opt { emit_bytes(raw(o)) }
            check!(t == want, "the field holds exactly the given bytes and no other field is set");
        }
        Err(_) => check!(false, "a value that this spelling can carry is accepted"),
    }
}

#[derive(Parser, PartialEq, Default)]
struct Text {
    #[arg(short, long)]
    text: Option<String>,
    #[arg(short, long)]
    many: Vec<String>,
    pos: Option<String>,
}

scenarios! {
    [quick, "'--opt=v' and '-ov' with values of 65535, 65536 or 65537 bytes, the first, middle and last one arbitrary (in words of short options: ASCII)"]
    fn p02_giant_values() {
        let n = pick(&[65535usize, 65536, 65537]);
        let mut v = vec![b'a'; n];
        let b = bytes(3);
        let attached = flip();
        assume(!attached || b.iter().all(|x| *x < 0x80) && b[0] != b'=');
        v[0] = b[0];
        v[n / 2] = b[1];
        v[n - 1] = b[2];
        let r = parse::<Top>(vec![cat(&[if attached { b"-o" } else { b"--opt=" }, &v])]);
        reach!();
        match r {
            Ok(t) => check!(t.opt.as_ref().is_some_and(|x| raw(x) == &v[..]) && !t.flag, "the field holds exactly the given bytes"),
            Err(_) => check!(false, "a value that this spelling can carry is accepted"),
        }
    }
    [quick, "27 spellings x values of 0..=4 arbitrary bytes x a flag before, after or none"]
    fn p02_short_values() {
        let sp = choice(27);
        let around = choice(3);
        let v = bytes(len(0, 4));
        one(v, sp, around);
    }
    [quick, "27 spellings x values of 9, 17, 33, 40 or 65 bytes; in words of short options (whose UTF-8 validation forks on every byte) only the first, middle and last byte are arbitrary"]
    fn p02_long_values() {
        let sp = choice(27);
        let n = pick(&[9, 17, 33, 40, 65]);
        let v = if [2, 3, 7, 8, 12, 14, 16, 20, 21, 25, 26].contains(&sp) {
            let mut v = vec![b'a'; n];
            let b = bytes(3);
            v[0] = b[0];
            v[n / 2] = b[1];
            v[n - 1] = b[2];
            v
        } else {
            bytes(n)
        };
        one(v, sp, 0);
    }
    [quick, "27 spellings x values of 127, 128, 255, 256, 257, 1023 or 4097 bytes, the first, middle and last one arbitrary (in words of short options: ASCII)"]
    fn p02_huge_values() {
        let sp = choice(27);
        let n = pick(&[127usize, 128, 255, 256, 257, 1023, 4097]);
        let mut v = vec![b'a'; n];
        let b = bytes(3);
        if [2, 3, 7, 8, 12, 14, 16, 20, 21, 25, 26].contains(&sp) {
            assume(b.iter().all(|x| *x < 0x80));
        }
        v[0] = b[0];
        v[n / 2] = b[1];
        v[n - 1] = b[2];
        one(v, sp, 0);
    }
    [quick, "String fields: values of 0..=4 bytes that are valid UTF-8, 5 spellings"]
    fn p02_text() {
        let sp = choice(5);
        let v = bytes(len(0, 4));
        let Ok(t) = std::str::from_utf8(&v) else { assume(false); return };
        let t = t.to_owned();
        let mut want = Text::default();
        let toks = match sp {
            0 => { want.text = Some(t.clone()); vec![cat(&[b"--text=", &v])] }
            1 => { want.text = Some(t.clone()); vec![cat(&[b"-t=", &v])] }
            2 => { assume(plain(&v)); want.text = Some(t.clone()); vec![s("-t"), os(v.clone())] }
            3 => { want.many = vec![t.clone()]; vec![cat(&[b"--many=", &v])] }
            _ => { want.pos = Some(t.clone()); vec![s("--"), os(v.clone())] }
        };
        let r = parse::<Text>(toks);
        emit_end(&r);
        reach!();
        match r {
            Ok(x) => check!(x == want, "a String field holds exactly the given text"),
            Err(_) => check!(false, "valid text is accepted"),
        }
    }
    [quick, "two options with values of 0..=2 arbitrary bytes each and a positional"]
    fn p02_two_values() {
        let a = bytes(len(0, 2));
        let b = bytes(len(0, 2));
        let c = bytes(len(0, 2));
        assume(plain(&c) && plain(&b));
        let first = flip();
        let mut toks = vec![cat(&[b"--opt=", &a]), s("--glob"), os(b.clone())];
        if first { toks.insert(0, os(c.clone())) } else { toks.push(os(c.clone())) }
        let r = parse::<Top>(toks);
        emit_end(&r);
        reach!();
        match r {
            Ok(t) => {
                let want = Top { opt: Some(os(a)), glob: Some(os(b)), pos: Some(os(c)), ..Top::default() };
                check!(t == want, "each value goes to its own field unchanged");
            }
            Err(_) => check!(false, "plain values are accepted"),
        }
    }
    [quick, "477 options of all combinations of attributes in 54 definitions, every name and spelling, values of 0..=2 arbitrary bytes"]
    fn p02_matrix() {
        let a = mx::at(mx::PLAIN);
        let r = a.option(|o| o.kind != Kind::Flag && o.rules.names.is_empty());
        let v = bytes(len(0, 2));
        let w = mx::valued(pick(&a.names(r)), r.opt, &v);
        let l = a.line(w, &[(r.level, r.index)]);
        match a.agree(l) {
            1 => reach!(),
            _ => {}
        }
    }
}
