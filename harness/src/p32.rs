//! Disabling the help feature changes nothing but help.
//! This module is compiled against palc without it; the reference is the documented grammar (model.rs)
//! in which '--help' and '-h' are unknown options.
use crate::common::*;
use crate::mx;
use crate::model::*;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand, ValueEnum};
use std::ffi::OsString;

fn go<T: Told>(l: Vec<OsString>) {
    match agree::<T>(l, false) {
        1 => reach!(),
        2 => reach!(),
        3 => reach!(),
        _ => {}
    }
}
/// Words that would ask for help.
fn ask() -> OsString {
    word(pick(&["--help", "-h", "--help=?", "-h?", "-h=?", "-vh", "-fh", "-bh?", "--hel?"]))
}

/// Documented help attributes are accepted and without effect.
/// About.
#[derive(Parser)]
#[command(long_about, after_long_help = "After")]
struct Doc {
    /// A flag.
    #[arg(short, long, hide = true)]
    flag: bool,
    /// A number.
    ///
    /// Long.
    #[arg(short, long, default_value_t = 7, value_name = "N")]
    num: u8,
    /// The user's own.
    #[arg(short, long)]
    help: Option<OsString>,
    #[arg(long, value_enum, ignore_case = true, long_help = "LH", hide = true)]
    color: Option<Color>,
    #[command(flatten)]
    grp: Grp,
    /// Positional.
    pos: Option<String>,
    #[command(subcommand)]
    cmd: Option<Cmd>,
}
#[derive(Args)]
struct Grp {
    /// A list.
    #[arg(short, long, value_delimiter = ',')]
    list: Vec<u8>,
}
#[derive(ValueEnum, Clone, Copy, PartialEq)]
enum Color {
    Red,
    Blue,
}
#[derive(Subcommand)]
enum Cmd {
    /// Go.
    #[command(long_about = "b", after_long_help = "c")]
    Go {
        /// Yes.
        #[arg(short, long, requires = "word")]
        yes: bool,
        word: Option<OsString>,
    },
}

fn matrix(a: mx::At) {
    let (q, r) = (a.option(|_| true), a.option(|_| true));
    let mut l = [mx::any_form(&a, q, 1, 1), mx::usual(r.opt)].concat();
    let k = choice(4);
    let w = match k { 0 => tok(0, 2), 1 => ask(), 2 => ask(), _ => s("") };
    if k == 1 { l.insert(0, w) } else if k < 3 { l.push(w) }
    let l = a.line_with(l, &[(q.level, q.index), (r.level, r.index)], k == 3);
    match a.agree(l) {
        1 => reach!(),
        2 => reach!(),
        3 => reach!(),
        _ => {}
    }
}
scenarios! {
    [quick, "options of all kinds: one word of 26 forms and a request of 9 forms before or after it; then one of 0..=1 arbitrary bytes"]
    fn p32_flat_ask() { let mut l = words(&FLAT, 1); l.insert(choice(2), ask()); l.push(tok(0, 1)); go::<Flat>(l) }
    [quick, "subcommands: 4 beginnings, one word of 24 forms and a request of 9 forms before or after it"]
    fn p32_tree_ask() {
        let pre: &[&str] = pick(&[&[][..], &["add"], &["run"], &["deep", "add"]]);
        let mut m = words(&TREE, 1);
        m.insert(choice(2), ask());
        let mut l: Vec<OsString> = pre.iter().map(|x| s(x)).collect();
        l.extend(m);
        go::<Tree>(l)
    }
    [quick, "constraints: two words of 20 forms and a request of 9 forms anywhere among them, before '-r=' 'w'"]
    fn p32_rule_ask() { let mut l = words(&RULE, 2); l.insert(choice(3), ask()); l.extend([s("-r="), s("w")]); go::<Rule>(l) }
    [quick, "options of all kinds: one word of 26 forms and one of 0..=2 arbitrary bytes before or after it"]
    fn p32_flat_1() { go::<Flat>(line(&FLAT, 1, 0, 2)) }
    [quick, "options of all kinds: one word of 0..=4 arbitrary bytes"]
    fn p32_flat_any() { go::<Flat>(vec![tok(0, 4)]) }
    [quick, "subcommands and globals: one of 4 names, one word of 24 forms and one of 0..=2 arbitrary bytes before or after it"]
    fn p32_tree_sub() { let c = s(pick(&["add", "run", "deep", "unit"])); let mut l = line(&TREE, 1, 0, 2); l.insert(0, c); go::<Tree>(l) }
    [quick, "subcommands and globals: two words of 24 forms"]
    fn p32_tree_2() { go::<Tree>(words(&TREE, 2)) }
    [quick, "nested subcommands: 'deep', a word of 24 forms, 'add' or 'unit', a word of 24 forms"]
    fn p32_tree_deep() {
        let mut l = vec![s("deep"), word(pick(&TREE))];
        l.push(s(pick(&["add", "unit"])));
        l.push(word(pick(&TREE)));
        go::<Tree>(l)
    }
    [quick, "constraints: three words of 20 forms before '-r=' 'w'"]
    fn p32_rule_3() { let mut l = words(&RULE, 3); l.extend([s("-r="), s("w")]); go::<Rule>(l) }
    [deep, "options of all kinds: three words of 26 forms"]
    fn p32_flat_3_deep() { go::<Flat>(words(&FLAT, 3)) }
    [deep, "subcommands and globals: three words of 24 forms"]
    fn p32_tree_3_deep() { go::<Tree>(words(&TREE, 3)) }
    [deep, "constraints: four words of 20 forms"]
    fn p32_rule_4_deep() { go::<Rule>(words(&RULE, 4)) }
    [quick, "an own '-h/--help' option, value of 0..=2 arbitrary bytes, in 4 spellings, at 2 places: it gets it; hidden and documented fields work"]
    fn p32_own() {
        let v = bytes(len(0, 2));
        let mut l = match choice(4) {
            0 => vec![cat(&[b"--help=", &v])],
            1 => { assume(plain(&v)); vec![s("--help"), os(v.clone())] }
            2 => vec![cat(&[b"-fh=", &v])],
            _ => { assume(plain(&v)); vec![s("-h"), os(v.clone())] }
        };
        l.insert(if flip() { l.len() } else { 0 }, s("--color=RED"));
        let f = raw(&l[0]).starts_with(b"-fh") || l.len() > 1 && raw(&l[1]).starts_with(b"-fh");
        match parse::<Doc>(l) {
            Ok(c) => {
                reach!();
                check!(c.help.as_ref().map(|x| raw(x)) == Some(&v[..]) && c.flag == f && c.num == 7 && c.color == Some(Color::Red) && c.grp.list.is_empty() && c.pos.is_none() && c.cmd.is_none(), "the own option gets it");
            }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "a number of 0..=3 arbitrary bytes and a color of 3 or 4 are converted or refused as with help"]
    fn p32_typed() {
        let v = bytes(len(0, 3));
        let c = bytes(len(3, 4));
        // at most 255, with an optional '+'
        let d = v.strip_prefix(b"+").unwrap_or(&v);
        let mut n = Some(0u32);
        if d.is_empty() { n = None }
        for b in d {
            n = match (n, b) { (Some(x), b'0'..=b'9') => Some(x * 10 + u32::from(b - b'0')), _ => None };
        }
        let n = n.filter(|x| *x < 256);
        let red = c.eq_ignore_ascii_case(b"red");
        let blue = c.eq_ignore_ascii_case(b"blue");
        let r = parse::<Doc>(vec![cat(&[b"-n", b"=", &v]), cat(&[b"--color=", &c])]);
        emit_end(&r);
        match r {
            Ok(x) => { reach!(); check!(n == Some(u32::from(x.num)) && (red && x.color == Some(Color::Red) || blue && x.color == Some(Color::Blue)), "the value is the one written") }
            Err(e) => { reach!(); check!((n.is_none() || !(red || blue)) && class(&e) == Class::InvalidValue, "refused for the value") }
        }
    }
    [quick, "a list of 1..=3 arbitrary digits or commas, a subcommand, its constraint and a word of 0..=2 arbitrary bytes"]
    fn p32_list() {
        let n = len(1, 3);
        let v = bytes(n);
        assume(v.iter().all(|b| matches!(b, b'0'..=b'9' | b',')));
        let w = bytes(len(0, 2));
        assume(plain(&w));
        let r = parse::<Doc>(vec![cat(&[b"-l", &v]), s("go"), s("-y"), os(w.clone())]);
        emit_end(&r);
        let empty = v.starts_with(b",") || v.ends_with(b",") || v.windows(2).any(|p| p == b",,");
        // all parts are shorter than three digits, unless there is just one
        let big = n == 3 && v[..].iter().all(|b| *b != b',') && (v[0] - b'0') as u32 * 100 + (v[1] - b'0') as u32 * 10 + (v[2] - b'0') as u32 > 255;
        match r {
            Ok(c) => {
                reach!();
                check!(!empty && !big && c.grp.list.len() == 1 + v.iter().filter(|b| **b == b',').count(), "every part is a number");
                check!(matches!(&c.cmd, Some(Cmd::Go { yes: true, word: Some(x) }) if raw(x) == w), "the subcommand got its words");
            }
            Err(e) => { reach!(); check!((empty || big) && class(&e) == Class::InvalidValue, "a part is no number") }
        }
    }
    [quick, "messages name the argument and quote the input as with help: 6 errors with a word of 1..=3 letters"]
    fn p32_message() {
        let v = bytes(len(1, 3));
        assume(v.iter().all(|b| b.is_ascii_lowercase()) && v != b"go");
        let t = String::from_utf8(v.clone()).unwrap();
        let (l, want) = match choice(6) {
            0 => (vec![cat(&[b"--num=", &v])], ["invalid value \"", &t, "\" for '-n, --num <N>'"].concat()),
            1 => (vec![cat(&[b"-f=", &v])], ["unexpected value \"", &t, "\" for '-f, --flag'"].concat()),
            2 => { assume(v != b"pos"); (vec![s("p"), os(v)], ["unrecognized subcommand \"", &t, "\""].concat()) }
            3 => (vec![cat(&[b"--z", &v])], ["unexpected argument \"--z", &t, "\""].concat()),
            4 => (vec![cat(&[b"-l7,", &v])], ["invalid value \"", &t, "\" for '-l, --list <LIST>'"].concat()),
            _ => (vec![os(v), s("go"), s("-y")], String::from("the argument '[WORD]' is required because some dependency arguments are provided")),
        };
        match parse::<Doc>(l) {
            Ok(_) => check!(false, "rejected"),
            Err(e) => {
                let m = e.to_string();
                reach!();
                check!(m.starts_with(&want[..]), "the message starts so");
            }
        }
    }
    [quick, "every second of 127 definitions with all combinations of attributes, every command: any two options in any form with one arbitrary byte, a word of 0..=2 arbitrary bytes or a help word before or after them or none"]
    fn p32_matrix() {
        matrix(mx::some(2));
    }
    [deep, "127 definitions with all combinations of attributes, every command: any two options in any form with one arbitrary byte, a word of 0..=2 arbitrary bytes or a help word before or after them or none"]
    fn p32_matrix_all() {
        matrix(mx::at(0..mx::TABLES.len()));
    }
    [quick, "'-h' and '--help' taken by the user at some levels: three words of 16 forms"]
    fn p32_taken() { go::<Own>(words(&OWN, 3)) }
    [quick, "'-h' and '--help' taken by the user at some levels: 5 beginnings and a word of 0..=3 arbitrary bytes"]
    fn p32_taken_any() {
        let mut l: Vec<OsString> = pick::<&[&str]>(&[&[], &["unit"], &["go"], &["go", "deep"], &["with"]]).iter().map(|x| s(x)).collect();
        l.push(tok(0, 3));
        go::<Own>(l)
    }
    [deep, "'-h' and '--help' taken by the user at some levels: four words of 16 forms"]
    fn p32_taken_deep() { go::<Own>(words(&OWN, 4)) }
}
