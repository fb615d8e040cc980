//! Subcommands: exact names, priority, ownership of the rest.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand};
use std::ffi::OsString;

#[derive(Parser, PartialEq)]
struct Cli {
    #[arg(short, long)]
    opt: Option<OsString>,
    #[arg(short, long, allow_hyphen_values = true)]
    any: Option<OsString>,
    #[arg(short, long)]
    flag: bool,
    #[command(flatten)]
    flat: Flat,
    pos: Option<OsString>,
    rest: Vec<OsString>,
    #[command(subcommand)]
    cmd: Option<Cmd>,
}
#[derive(Args, PartialEq)]
struct Flat {
    #[arg(short, long)]
    inner: Option<OsString>,
}
#[derive(Subcommand, PartialEq)]
enum Cmd {
    A,
    Ab {
        #[arg(short, long)]
        flag: bool,
        words: Vec<OsString>,
    },
    Abc(AbcArgs),
    ABCDe,
    TwoWords {
        #[arg(short, long)]
        opt: Option<OsString>,
        pos: Option<OsString>,
        #[command(subcommand)]
        cmd: Option<Inner>,
    },
    Ü {
        only: Option<OsString>,
    },
}
#[derive(Args, PartialEq)]
struct AbcArgs {
    #[arg(short, long)]
    x: Option<OsString>,
    #[command(subcommand)]
    cmd: Option<Inner>,
}
#[derive(Subcommand, PartialEq)]
enum Inner {
    A {
        p: Option<OsString>,
    },
    In {
        #[arg(short, long)]
        flag: bool,
        #[command(subcommand)]
        cmd: Option<Last>,
    },
}
#[derive(Subcommand, PartialEq)]
enum Last {
    A,
    End { words: Vec<OsString> },
}
const NAMES: [&str; 6] = ["a", "ab", "abc", "abc-de", "two-words", "ü"];
fn which(c: &Cmd) -> usize {
    match c {
        Cmd::A => 0,
        Cmd::Ab { .. } => 1,
        Cmd::Abc(_) => 2,
        Cmd::ABCDe => 3,
        Cmd::TwoWords { .. } => 4,
        Cmd::Ü { .. } => 5,
    }
}
/// Without positionals: another word is an unknown subcommand.
#[derive(Parser, PartialEq)]
struct Only {
    #[arg(short, long)]
    flag: bool,
    #[command(subcommand)]
    cmd: Cmd,
}
/// A list as the only argument, names of one and two letters.
#[derive(Parser, PartialEq)]
struct Listing {
    words: Vec<OsString>,
    #[command(subcommand)]
    cmd: Option<Letters>,
}
#[derive(Parser, PartialEq)]
struct Single {
    word: Option<OsString>,
    #[command(subcommand)]
    cmd: Option<Letters>,
}
#[derive(Subcommand, PartialEq)]
enum Letters {
    A,
    B { w: Option<OsString> },
    Cc,
}
#[derive(Parser, PartialEq)]
struct Nine {
    #[command(subcommand)]
    cmd: Direct,
}
#[derive(Subcommand, PartialEq)]
enum Direct {
    One { a: Option<OsString> },
    Two,
    Three,
    Four,
    Five { #[arg(short)] f: bool },
    Six,
    Seven,
    Eight,
    Nine,
    // names with digits, not in the order of the others
    V2Ray { w: Option<OsString> },
    A1,
    X64B,
}

fn selects(w: &[u8]) -> Option<usize> {
    NAMES.iter().position(|n| n.as_bytes() == w)
}
fn o(x: &Option<OsString>) -> Option<&[u8]> {
    x.as_ref().map(|x| raw(x))
}
fn near(base: &str) -> Vec<u8> {
    let mut w = base.as_bytes().to_vec();
    match choice(4) {
        0 => { let i = choice(w.len()); w[i] = byte() }
        1 => { let i = choice(w.len() + 1); w.insert(i, byte()) }
        2 => { let i = choice(w.len()); w.remove(i); }
        _ => {}
    }
    w
}

fn matrix(a: mx::At) {
    let mut v: Vec<&'static str> = vec!["aa", "aa-bb", "uu", "zz", "aabb", "aa-b", "Aa", "AA-BB", "aa_bb", "u", "aa-bb-"];
    if let Some(r) = a.options().first() {
        v.push(r.opt.names[0]);
    }
    let mut w = vec![];
    for _ in 0..len(1, 2) {
        w.push(if choice(4) == 0 { tok(0, 1) } else { s(pick(&v)) });
    }
    if flip() {
        w.push(s(pick(&["uu", "zz", "aa"])));
    }
    let l = a.line_with(w, &[], false);
    match a.agree(l) {
        1 => reach!(),
        2 => reach!(),
        _ => {}
    }
}
/// Four positionals in front of the subcommand, in a command and in a subcommand of it.
#[derive(Parser, PartialEq)]
struct Wide {
    a: Option<OsString>,
    b: Option<OsString>,
    #[arg(short, long)]
    opt: Option<OsString>,
    c: Option<OsString>,
    d: Option<OsString>,
    #[command(subcommand)]
    cmd: Option<WideCmd>,
}
#[derive(Subcommand, PartialEq)]
enum WideCmd {
    Go {
        a: Option<OsString>,
        b: Option<OsString>,
        c: Option<OsString>,
        #[command(subcommand)]
        cmd: Option<Then>,
    },
}
#[derive(Subcommand, PartialEq)]
enum Then {
    Go { w: Option<OsString> },
}
/// A list and a subcommand.
#[derive(Parser, PartialEq)]
struct Many {
    words: Vec<OsString>,
    #[command(subcommand)]
    cmd: Option<Then>,
}
#[derive(Subcommand, PartialEq)]
enum L1 {
    Down { #[arg(short = 'a', global = true)] here: Option<OsString>, w: Option<OsString>, #[command(subcommand)] cmd: Option<L2> },
    Go1,
}
#[derive(Subcommand, PartialEq)]
enum L2 {
    Down { #[arg(short = 'b', global = true)] here: Option<OsString>, w: Option<OsString>, #[command(subcommand)] cmd: Option<L3> },
    Go2,
}
#[derive(Subcommand, PartialEq)]
enum L3 {
    Down { #[arg(short = 'c', global = true)] here: Option<OsString>, w: Option<OsString>, #[command(subcommand)] cmd: Option<L4> },
    Go3,
}
#[derive(Subcommand, PartialEq)]
enum L4 {
    Down { #[arg(short = 'd', global = true)] here: Option<OsString>, w: Option<OsString>, #[command(subcommand)] cmd: Option<L5> },
    Go4,
}
#[derive(Subcommand, PartialEq)]
enum L5 {
    Down { #[arg(short = 'e', global = true)] here: Option<OsString>, w: Option<OsString>, #[command(subcommand)] cmd: Option<L6> },
    Go5,
}
#[derive(Subcommand, PartialEq)]
enum L6 {
    Down { #[arg(short = 'f', global = true)] here: Option<OsString>, w: Option<OsString>, #[command(subcommand)] cmd: Option<L7> },
    Go6,
}
#[derive(Subcommand, PartialEq)]
enum L7 {
    Down { #[arg(short = 'g', global = true)] here: Option<OsString>, w: Option<OsString>, #[command(subcommand)] cmd: Option<L8> },
    Go7,
}
#[derive(Subcommand, PartialEq)]
enum L8 {
    Down { #[arg(short = 'h', global = true)] here: Option<OsString>, w: Option<OsString>, #[command(subcommand)] cmd: Option<L9> },
    Go8,
}
#[derive(Subcommand, PartialEq)]
enum L9 {
    Down { #[arg(short = 'i', global = true)] here: Option<OsString>, w: Option<OsString>, #[command(subcommand)] cmd: Option<L10> },
    Go9,
}
#[derive(Subcommand, PartialEq)]
enum L10 {
    Go10 { w: Vec<OsString> },
}
/// Ten levels.
#[derive(Parser, PartialEq)]
struct Ladder {
    #[arg(short = 't', long, global = true)]
    top: Option<OsString>,
    #[command(subcommand)]
    cmd: Option<L1>,
}
/// What each level got, from the outside in.
trait Level {
    fn down(&self, got: &mut Vec<(Option<OsString>, Option<OsString>)>) -> usize;
}
macro_rules! levels {
    ($($l:ident $next:ident $go:ident $n:literal,)*) => {$(
        impl Level for $l {
            fn down(&self, got: &mut Vec<(Option<OsString>, Option<OsString>)>) -> usize {
                match self {
                    $l::Down { here, w, cmd } => {
                        got.push((here.clone(), w.clone()));
                        match cmd {
                            Some(c) => c.down(got),
                            None => 100 + $n,
                        }
                    }
                    $l::$go => $n,
                }
            }
        }
    )*};
}
levels! { L1 L2 Go1 1, L2 L3 Go2 2, L3 L4 Go3 3, L4 L5 Go4 4, L5 L6 Go5 5, L6 L7 Go6 6, L7 L8 Go7 7, L8 L9 Go8 8, L9 L10 Go9 9, }
impl Level for L10 {
    fn down(&self, got: &mut Vec<(Option<OsString>, Option<OsString>)>) -> usize {
        let L10::Go10 { w } = self;
        got.extend(w.iter().map(|w| (None, Some(w.clone()))));
        10
    }
}
/// Names of up to 300 bytes, alike but for the first letter.
#[derive(Parser, PartialEq)]
struct Lengths {
    word: Option<OsString>,
    #[command(subcommand)]
    cmd: Option<Lengthy>,
}
#[derive(Subcommand, PartialEq, Clone, Copy)]
enum Lengthy {
    Abcdefghijklmnopqrstuvwxyzabcde,
    Bbcdefghijklmnopqrstuvwxyzabcdef,
    Cbcdefghijklmnopqrstuvwxyzabcdefg,
    Dbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghij,
    Ebcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijk,
    Fbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijkl,
    Gbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklm,
    Hbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvw,
    Ibcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwx,
    Jbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstu,
    Kbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuv,
    Lbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvw,
    Mbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmn,
    Nbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstux,
    Obcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmx,
    PbcdefghijklmnopqrstuvwxyzabcdeX,
}
const LENGTHY: [&str; 16] = [
    "abcdefghijklmnopqrstuvwxyzabcde",
    "bbcdefghijklmnopqrstuvwxyzabcdef",
    "cbcdefghijklmnopqrstuvwxyzabcdefg",
    "dbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghij",
    "ebcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijk",
    "fbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijkl",
    "gbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklm",
    "hbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvw",
    "ibcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwx",
    "jbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstu",
    "kbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuv",
    "lbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvw",
    "mbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmn",
    "nbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstux",
    "obcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmx",
    "pbcdefghijklmnopqrstuvwxyzabcde-x",
];

scenarios! {
    [quick, "16 names of 31 to 300 bytes, alike but for the first letter: whole, one byte arbitrary (of 8 places), or cut or continued by up to 2 arbitrary bytes; after a positional or not"]
    fn p18_long() {
        let k = choice(LENGTHY.len());
        let mut v = LENGTHY[k].as_bytes().to_vec();
        let n = v.len();
        match choice(4) {
            0 => {}
            1 => { let at = pick(&[0, 1, 15, 31, 63, 64, 128, 255, 256]); let at = if at < n { at } else { n - 1 }; v[at] = byte() }
            2 => { let by = len(1, 2); v.extend(bytes(by)); }
            _ => { v.truncate(n - len(1, 2)); }
        }
        assume(plain(&v));
        let before = flip();
        let mut l = vec![os(v.clone())];
        if before { l.insert(0, s("w")); }
        let want = LENGTHY.iter().position(|x| x.as_bytes() == v);
        let r = parse::<Lengths>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                let w = if before { Some(&b"w"[..]) } else if want.is_none() { Some(&v[..]) } else { None };
                check!(c.cmd.map(|x| x as usize) == want && c.word.as_ref().map(|x| raw(x)) == w, "a subcommand exactly if equal to a name");
            }
            Err(e) => { reach!(); check!(want.is_none() && before && class(&e) == Class::UnknownSub, "a subcommand exactly if equal to a name") }
        }
    }
    [quick, "one word of 0..=4 arbitrary bytes, alone or after 0..=2 other words: it is a subcommand exactly if it equals a name, else a positional"]
    fn p18_word() {
        let n = choice(3);
        let mut l: Vec<OsString> = (0..n).map(|_| s("p")).collect();
        let w = tok(0, 4);
        assume(plain(raw(&w)));
        l.push(w.clone());
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(c.cmd.as_ref().map(which) == selects(raw(&w)), "a subcommand exactly if equal to a name");
                let got = c.pos.is_some() as usize + c.rest.len();
                check!(got == n + c.cmd.is_none() as usize, "a name is not delivered as positional, any other word is");
            }
            Err(_) => check!(false, "any word is a subcommand or a positional"),
        }
    }
    [quick, "a name with one byte changed, added or removed"]
    fn p18_near() {
        let w = near(pick(&NAMES));
        assume(plain(&w));
        let only = flip();
        if only {
            let r = parse::<Only>(vec![s("-f"), os(w.clone())]);
            emit_end(&r);
            match r {
                Ok(c) => { reach!(); check!(Some(which(&c.cmd)) == selects(&w) && c.flag, "a subcommand exactly if equal to a name") }
                Err(e) => { reach!(); check!(selects(&w).is_none() && class(&e) == Class::UnknownSub, "any other word is an unknown subcommand") }
            }
        } else {
            let r = parse::<Cli>(vec![os(w.clone())]);
            emit_end(&r);
            match r {
                Ok(c) => { reach!(); check!(c.cmd.as_ref().map(which) == selects(&w) && (c.cmd.is_some() || o(&c.pos) == Some(&w[..])), "a subcommand exactly if equal to a name") }
                Err(_) => check!(false, "any word is a subcommand or a positional"),
            }
        }
    }
    [quick, "twelve subcommands at the top: a word of 0..=3 arbitrary bytes, or a name with its last two bytes arbitrary"]
    fn p18_direct() {
        const D: [&str; 12] = ["one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "v2-ray", "a1", "x64b"];
        let w = if flip() { bytes(len(0, 3)) } else { let mut w = pick(&D).as_bytes().to_vec(); let n = w.len(); w[n - 1] = byte(); w[n - 2] = byte(); w };
        assume(plain(&w));
        let r = parse::<Nine>(vec![os(w.clone())]);
        emit_end(&r);
        let want = D.iter().position(|n| n.as_bytes() == &w[..]);
        match r {
            Ok(c) => {
                reach!();
                let k = match c.cmd { Direct::One { .. } => 0, Direct::Two => 1, Direct::Three => 2, Direct::Four => 3, Direct::Five { .. } => 4, Direct::Six => 5, Direct::Seven => 6, Direct::Eight => 7, Direct::Nine => 8, Direct::V2Ray { .. } => 9, Direct::A1 => 10, Direct::X64B => 11 };
                check!(want == Some(k), "the subcommand of that name is chosen");
            }
            Err(e) => { reach!(); check!(want.is_none() && class(&e) == Class::UnknownSub, "any other word is an unknown subcommand") }
        }
    }
    [quick, "a list or a single word and names of one or two letters: 0..=2 words before one of 1..=2 arbitrary bytes, one or none after"]
    fn p18_letters() {
        let names: [&[u8]; 3] = [b"a", b"b", b"cc"];
        let one = flip();
        let n = choice(if one { 2 } else { 3 });
        let t: Vec<OsString> = (0..n).map(|_| { let w = tok(0, 1); assume(plain(raw(&w)) && !names.contains(&raw(&w))); w }).collect();
        let w = bytes(len(1, 2));
        assume(plain(&w));
        let mut l = t.clone();
        l.push(os(w.clone()));
        let k = names.iter().position(|n| *n == &w[..]);
        let more = k == Some(1) && flip();
        if more { l.push(s("a")) }
        if k.is_none() && one { assume(n == 0) }
        let (words, cmd) = if one {
            match parse::<Single>(l) { Ok(c) => (c.word.into_iter().collect::<Vec<_>>(), c.cmd), Err(_) => { check!(false, "accepted"); return } }
        } else {
            match parse::<Listing>(l) { Ok(c) => (c.words, c.cmd), Err(_) => { check!(false, "accepted"); return } }
        };
        reach!();
        let want = match k { None => None, Some(0) => Some(Letters::A), Some(1) => Some(Letters::B { w: more.then(|| s("a")) }), _ => Some(Letters::Cc) };
        check!(cmd == want, "a subcommand exactly if equal to a name");
        check!(words.len() == n + usize::from(k.is_none()) && words.iter().zip(&t).all(|(x, y)| raw(x) == raw(y)), "the other words are positionals");
    }
    [quick, "a value is never a subcommand: names after '-o', '-a', as inline values, after '--'; followed by a word of 0..=1 arbitrary bytes"]
    fn p18_value() {
        let n = pick(&NAMES).as_bytes();
        let k = choice(6);
        let mut l = match k {
            0 => vec![s("-o"), cat(&[n])],
            1 => vec![cat(&[b"--opt=", n])],
            2 => vec![cat(&[b"-o", n])],
            3 => vec![s("-i"), cat(&[n])],
            4 => vec![s("--any"), cat(&[n])],
            _ => vec![s("--"), cat(&[n])],
        };
        let t = tok(0, 1);
        assume(plain(raw(&t)) && raw(&t) != b"a");
        l.push(t.clone());
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(c.cmd.is_none(), "a value never selects a subcommand");
                let f = match k { 3 => &c.flat.inner, 4 => &c.any, 5 => &c.pos, _ => &c.opt };
                check!(o(f) == Some(n), "it is the value");
                check!(if k == 5 { c.rest.len() == 1 && raw(&c.rest[0]) == raw(&t) } else { o(&c.pos) == Some(raw(&t)) && c.rest.is_empty() }, "the next word is a positional");
            }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "the rest belongs to the subcommand: after 'ab', 0..=3 words of 0..=1 arbitrary bytes or names of outer subcommands"]
    fn p18_rest() {
        let n = choice(4);
        let t: Vec<OsString> = (0..n).map(|_| if flip() { s(pick(&["ab", "abc"])) } else { let t = tok(0, 1); assume(plain(raw(&t))); t }).collect();
        let mut l = vec![s("p"), s("ab")];
        l.extend(t.clone());
        let at = choice(n + 1) + 2;
        let f = flip();
        if f { l.insert(at, s("-f")) }
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(!c.flag && o(&c.pos) == Some(b"p") && c.rest.is_empty(), "the outer command gets nothing more");
                match &c.cmd {
                    Some(Cmd::Ab { flag, words }) => check!(*flag == f && words.len() == n && words.iter().zip(&t).all(|(a, b)| raw(a) == raw(b)), "all later words are the subcommand's"),
                    _ => check!(false, "the subcommand is chosen"),
                }
            }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "outer options after the subcommand are rejected (own options of the same name apply), in 3 subcommands, values of 0..=2 arbitrary bytes"]
    fn p18_outer_options() {
        let v = bytes(len(0, 2));
        let sub = pick(&["a", "two-words", "abc-de", "ü"]);
        let k = choice(4);
        let w = match k { 0 => cat(&[b"--opt=", &v]), 1 => cat(&[b"-i=", &v]), 2 => s("--flag"), _ => cat(&[b"--any=", &v]) };
        let r = parse::<Cli>(vec![s(sub), w]);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(sub == "two-words" && k == 0 && c.opt.is_none(), "outer options are not accepted");
                check!(matches!(&c.cmd, Some(Cmd::TwoWords { opt, .. }) if o(opt) == Some(&v[..])), "the subcommand's own is set");
            }
            Err(e) => { reach!(); check!(!(sub == "two-words" && k == 0) && class(&e) == Class::Unexpected, "outer options are rejected as unexpected") }
        }
    }
    [quick, "three levels: 'abc' or 'two-words', then a word of 0..=2 arbitrary bytes, then another of 0..=3"]
    fn p18_nested() {
        let two = flip();
        let (x, y) = (tok(0, 2), tok(0, 3));
        assume(plain(raw(&x)) && plain(raw(&y)));
        let r = parse::<Cli>(vec![s(if two { "two-words" } else { "abc" }), x.clone(), y.clone()]);
        emit_end(&r);
        let (xa, xin) = (raw(&x) == b"a", raw(&x) == b"in");
        let (ya, yend) = (raw(&y) == b"a", raw(&y) == b"end");
        match r {
            Ok(c) => {
                reach!();
                let (cmd, pos) = match &c.cmd {
                    Some(Cmd::Abc(a)) => (&a.cmd, None),
                    Some(Cmd::TwoWords { cmd, pos, .. }) => (cmd, o(pos)),
                    _ => { check!(false, "the outer subcommand is chosen"); return }
                };
                match cmd {
                    None => check!(false, "a second word is too much for the middle level"),
                    Some(Inner::A { p }) => check!((xa && o(p) == Some(raw(&y)) && pos.is_none()) || (two && !xin && ya && p.is_none() && pos == Some(raw(&x))), "the inner subcommand is chosen by name"),
                    Some(Inner::In { cmd, .. }) => match cmd {
                        Some(Last::A) => check!(xin && ya, "the last is chosen by name"),
                        Some(Last::End { words }) => check!(xin && yend && words.is_empty(), "the last is chosen by name"),
                        None => check!(two && !xin && !xa && raw(&y) == b"in" && pos == Some(raw(&x)), "the middle one was given as second word"),
                    },
                }
            }
            Err(e) => {
                reach!();
                check!(class(&e) == Class::UnknownSub, "unknown subcommand");
                check!(!xa && !(xin && (ya || yend)) && !(two && !xin && (ya || raw(&y) == b"in")), "known names are accepted");
            }
        }
    }
    [quick, "ten levels of subcommands: 1..=9 levels down, a word of 1 arbitrary byte at one of them, an option of one of them at or below it (the top one's as well), the last one a unit, the tenth or none"]
    fn p18_levels() {
        let n = choice(10);
        let b = byte();
        assume(b != b'-');
        let at = 1 + choice(9);
        let opt = choice(10);
        let place = choice(11);
        assume(place >= opt && at <= n);
        assume(place <= n && (opt > 0 || place == 0 || place == n || place == 5));
        let mut l = vec![];
        let put = |l: &mut Vec<OsString>, d: usize| {
            if place == d {
                l.push(cat(&[b"-", if opt == 0 { b"t" } else { &b"abcdefghi"[opt - 1..opt] }, b"V"]));
            }
        };
        put(&mut l, 0);
        for d in 1..=n {
            l.push(s("down"));
            if at == d {
                l.push(os(vec![b]));
            }
            put(&mut l, d);
        }
        let end = n < 9 && flip();
        if n == 9 || end {
            l.push(s(["go1", "go2", "go3", "go4", "go5", "go6", "go7", "go8", "go9", "go10"][n]));
        }
        match parse::<Ladder>(l) {
            Ok(c) => {
                reach!();
                let mut got = vec![];
                let k = c.cmd.as_ref().map_or(100, |c| c.down(&mut got));
                check!(k == if n == 9 || end { n + 1 } else { 100 + n }, "the subcommand of that level");
                check!(got.len() == n && c.top.is_some() == (opt == 0), "as many levels as entered");
                check!(got.iter().enumerate().all(|(i, (h, w))| h.is_some() == (opt == i + 1) && w.as_ref().map(|w| raw(w)) == (at == i + 1).then_some(&[b][..])), "every word belongs to its level");
            }
            Err(_) => check!(false, "known names are accepted at every level"),
        }
    }
    [deep, "one word of 5..=10 arbitrary bytes"]
    fn p18_deep() {
        let w = tok(5, 10);
        assume(plain(raw(&w)));
        let r = parse::<Only>(vec![w.clone()]);
        emit_end(&r);
        match r {
            Ok(c) => check!(Some(which(&c.cmd)) == selects(raw(&w)), "a subcommand exactly if equal to a name"),
            Err(e) => check!(selects(raw(&w)).is_none() && class(&e) == Class::UnknownSub, "any other word is an unknown subcommand"),
        }
    }
    [quick, "every third of every command of 127 definitions: one or two words among all its subcommand names, those of other levels, near ones, an option and one of 0..=1 arbitrary bytes, then a subcommand name"]
    fn p18_matrix() {
        matrix(mx::some(3));
    }
    [deep, "every command of 127 definitions: one or two words among all its subcommand names, those of other levels, near ones, an option and one of 0..=1 arbitrary bytes, then a subcommand name"]
    fn p18_matrix_all() {
        matrix(mx::at(0..mx::TABLES.len()));
    }
    [quick, "0..=4 words of 1..=2 arbitrary bytes, an option anywhere among them or none, then the subcommand; 0..=3 words in it, then one below it: every word belongs to its command"]
    fn p18_after_words() {
        let (n, m) = (len(0, 4), len(0, 3));
        let mut l = vec![];
        let k = choice(n + 2);
        let v = bytes(2);
        for i in 0..=n {
            if i == k {
                l.push(s("-ox"));
            }
            if i < n {
                let w = if i == 0 { v[..1].to_vec() } else if i == 3 { v.clone() } else { b"w".to_vec() };
                assume(plain(&w) && w != b"go");
                l.push(os(w));
            }
        }
        l.push(s("go"));
        for _ in 0..m {
            l.push(s("u"));
        }
        let deep = flip();
        if deep {
            l.extend([s("go"), s("last")]);
        }
        let r = parse::<Wide>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                let own = [&c.a, &c.b, &c.c, &c.d];
                check!((0..4).all(|i| own[i].is_some() == (i < n)) && c.opt.is_some() == (k <= n), "the words before it belong to the command");
                check!((n < 1 || o(&c.a) == Some(&v[..1])) && (n < 4 || o(&c.d) == Some(&v)), "as they are");
                match c.cmd {
                    Some(WideCmd::Go { a, b, c, cmd }) => {
                        let inner = [&a, &b, &c];
                        check!((0..3).all(|i| inner[i].is_some() == (i < m)), "the words after it to the subcommand");
                        check!(cmd == if deep { Some(Then::Go { w: Some(s("last")) }) } else { None }, "and so on");
                    }
                    None => check!(false, "the subcommand is recognized after any number of words"),
                }
            }
            Err(_) => check!(false, "the subcommand is recognized after any number of words"),
        }
    }
    [quick, "a list of 0..=6 words of 0..=1 arbitrary bytes, then the subcommand with a word"]
    fn p18_after_list() {
        let n = len(0, 6);
        let w = tok(0, 1);
        assume(plain(raw(&w)));
        let mut l: Vec<OsString> = (0..n).map(|_| w.clone()).collect();
        l.extend([s("go"), s("go")]);
        let r = parse::<Many>(l);
        emit_end(&r);
        match r {
            Ok(c) => { reach!(); check!(c.words == vec![w; n] && c.cmd == Some(Then::Go { w: Some(s("go")) }), "the list ends where the subcommand begins") }
            Err(_) => check!(false, "the subcommand is recognized after any number of words"),
        }
    }
}
