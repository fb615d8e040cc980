//! The first bad word decides the error.
use crate::common::*;
use crate::model::*;
use crate::{check, mx, reach, scenarios};
use palc::{Args, Parser, Subcommand, ValueEnum};
use std::ffi::OsString;

/// Values that can be wrong.
#[derive(Parser)]
struct Typed {
    #[arg(short, long)]
    num: Option<u8>,
    #[arg(short, long, value_delimiter = ',', conflicts_with = "num")]
    list: Vec<i8>,
    #[arg(short, long, value_enum, global = true, ignore_case = true)]
    color: Option<Color>,
    #[arg(short, long)]
    flag: bool,
    first: Option<bool>,
    second: Option<char>,
    #[command(subcommand)]
    cmd: Option<Cmd>,
}
#[derive(ValueEnum, Clone)]
enum Color {
    Red,
    Green,
}
#[derive(Subcommand)]
enum Cmd {
    Put {
        #[arg(short, long)]
        at: u8,
        what: Option<u8>,
        #[arg(last = true)]
        more: Vec<u8>,
    },
}
const TYPED: [&str; 20] = [
    "-n7", "-n?", "--num", "--num=?", "-l?,1", "-l", "--list=1,?", "-c", "-cRED", "-c=?ed", "-f", "-f=", "true", "?", "put", "-a1", "--at=?", "--", "9", "-fh",
];

#[derive(PartialEq, Clone, Copy)]
enum Why {
    /// A word is wrong.
    Word,
    /// Two arguments do not go together.
    Together,
    /// Something is missing, at the end at least.
    Missing,
}
/// `before`: did the line without its last word end in the same want of a value?
fn why(c: Class, before: bool) -> Why {
    match c {
        Class::Required | Class::RequiredSub | Class::Requires => Why::Missing,
        Class::MissingValue if !before => Why::Missing,
        Class::Conflict | Class::Exclusive => Why::Together,
        _ => Why::Word,
    }
}
type Said = Option<(Class, String)>;
#[inline(never)]
fn go<T: Parser>(l: Vec<OsString>) -> Said {
    let r = parse::<T>(l);
    emit_end(&r);
    r.err().map(|e| (class(&e), e.to_string()))
}
#[inline(never)]
fn longer(f: &dyn Fn(Vec<OsString>) -> Said, l: Vec<OsString>, more: Vec<OsString>) -> u64 {
    let Some((c, m)) = f(l.clone()) else { return 0 };
    let before = c == Class::MissingValue && l.len() > 1 && f(l[..l.len() - 1].to_vec()).is_some_and(|(c, _)| c == Class::MissingValue);
    let w = why(c, before);
    if w == Why::Missing {
        return 0;
    }
    let mut longer = l;
    longer.extend(more);
    match f(longer) {
        None => {
            check!(false, "more words do not repair it");
            0
        }
        Some((_, n)) => {
            if w == Why::Word {
                check!(n == m, "the same error");
                1
            } else {
                2
            }
        }
    }
}
fn run<T: Parser>(l: Vec<OsString>, more: Vec<OsString>) {
    end(longer(&go::<T>, l, more))
}
fn end(k: u64) {
    match k {
        1 => reach!(),
        2 => reach!(),
        _ => {}
    }
}

fn matrix(a: mx::At) {
    let r = a.option(|_| true);
    let n = pick(&a.names(r));
    let mut l = mx::path(&a);
    match choice(4) {
        0 => l.push(cat(&[n.as_bytes(), b"=", &bytes(len(0, 1))])),
        1 => l.extend([s(n), s(n)]),
        2 => l.extend([s(n), cat(&[b"-", &bytes(len(0, 1))])]),
        _ => { let p = a.last().pos; l.extend(p.iter().map(|p| s(mx::good(&p.rules)))); l.push(tok(0, 1)) }
    }
    let more = match choice(4) {
        0 => vec![s(n)],
        1 => vec![s("--")],
        2 => vec![s("--help")],
        _ => vec![tok(0, 1)],
    };
    end(longer(&|l| mx::message_on(a.def, l), l, more))
}

/// As many words as there are.
#[derive(Parser)]
struct Many {
    #[arg(short, long)]
    num: Option<u8>,
    #[arg(short, long)]
    flag: bool,
    #[arg(short, long)]
    many: Vec<i8>,
    words: Vec<OsString>,
}
fn fill(t: &str, b: u8) -> OsString {
    os(t.bytes().map(|c| if c == b'?' { b } else { c }).collect())
}

scenarios! {
    [quick, "14 numbers of good words up to 300, one of 9 bad ones, as many good ones again, and one of 9 bad ones, '--' or '--help': the first bad one decides; bytes of them arbitrary"]
    fn p34_many() {
        let n = pick(&[4usize, 7, 8, 9, 15, 16, 31, 32, 33, 64, 127, 128, 255, 300]);
        let bad = ["-z", "--nope", "-n?x", "--num=x", "--flag=?", "-fz", "-n?", "-ff", "--many=-?"];
        let k = choice(bad.len());
        let word = |i: usize| if i % 3 == 1 { s("--many=1") } else { s("w") };
        let mut l: Vec<OsString> = (0..n).map(word).collect();
        let other = pick(&bad);
        let b = byte();
        assume(!b.is_ascii_digit() && b != b'+' && b != b'=');
        l.push(fill(bad[k], b));
        let mut more: Vec<OsString> = (0..n).map(word).collect();
        more.push(match choice(3) { 0 => fill(other, b'y'), 1 => s("--"), _ => s("--help") });
        end(longer(&go::<Many>, l, more))
    }
    [quick, "options of all kinds: a word of 26 forms, one of 0..=2 arbitrary bytes; then one of 26 forms"]
    fn p34_flat() { run::<Flat>(vec![word(pick(&FLAT)), tok(0, 2)], words(&FLAT, 1)) }
    [quick, "options of all kinds: two words of 26 forms; then one of 0..=1 arbitrary bytes"]
    fn p34_flat_2() { run::<Flat>(words(&FLAT, 2), vec![tok(0, 1)]) }
    [quick, "options of all kinds: one word of 0..=2 arbitrary bytes; then one of 26 forms"]
    fn p34_flat_any() { run::<Flat>(vec![tok(0, 2)], words(&FLAT, 1)) }
    [quick, "subcommands: two words of 24 forms; then one of 24"]
    fn p34_tree() { run::<Tree>(words(&TREE, 2), words(&TREE, 1)) }
    [quick, "subcommands: a name, a word of 24 forms, one of 0..=1 arbitrary bytes; then one of 6 forms"]
    fn p34_tree_sub() {
        let l = vec![s(pick(&["add", "run", "deep", "unit"])), word(pick(&TREE)), tok(0, 1)];
        run::<Tree>(l, vec![word(pick(&["unit", "-v", "--", "--only=?", "x?", "-h"]))])
    }
    [quick, "constraints: '-r=' 'w', two words of 20 forms; then one of 20"]
    fn p34_rule() { let mut l = vec![s("-r="), s("w")]; l.extend(words(&RULE, 2)); run::<Rule>(l, words(&RULE, 1)) }
    [quick, "typed values: two words of 20 forms; then one of 20"]
    fn p34_typed() { run::<Typed>(words(&TYPED, 2), words(&TYPED, 1)) }
    [quick, "typed values: one word of 20 forms; then two of 0..=1 arbitrary bytes"]
    fn p34_typed_any() { run::<Typed>(words(&TYPED, 1), vec![tok(0, 1), tok(0, 1)]) }
    [quick, "typed values: 'put', two words of 20 forms; then one of 0..=2 arbitrary bytes"]
    fn p34_typed_sub() { let mut l = vec![s("put")]; l.extend(words(&TYPED, 2)); run::<Typed>(l, vec![tok(0, 2)]) }
    [deep, "options of all kinds: two words of 26 forms and one of 0..=1 arbitrary bytes anywhere among them; then one of 26 forms"]
    fn p34_flat_deep() { run::<Flat>(line(&FLAT, 2, 0, 1), words(&FLAT, 1)) }
    [deep, "subcommands: three words of 24 forms; then one of 24"]
    fn p34_tree_deep() { run::<Tree>(words(&TREE, 3), words(&TREE, 1)) }
    [deep, "constraints: '-r=' 'w', three words of 20 forms; then one of 20"]
    fn p34_rule_deep() { let mut l = vec![s("-r="), s("w")]; l.extend(words(&RULE, 3)); run::<Rule>(l, words(&RULE, 1)) }
    [deep, "typed values: three words of 20 forms; then one of 20"]
    fn p34_typed_deep() { run::<Typed>(words(&TYPED, 3), words(&TYPED, 1)) }
    [quick, "every third of 127 definitions with all combinations of attributes, every command: any option with '=' and 0..=1 arbitrary bytes, twice, with a following word, or all positionals and a word of 0..=1 arbitrary bytes; then the option, '--', '--help' or a word of 0..=1 bytes"]
    fn p34_matrix() { matrix(mx::some(3)) }
    [deep, "127 definitions with all combinations of attributes, every command: any option with '=' and 0..=1 arbitrary bytes, twice, with a following word, or all positionals and a word of 0..=1 arbitrary bytes; then the option, '--', '--help' or a word of 0..=1 bytes"]
    fn p34_matrix_all() { matrix(mx::at(0..mx::TABLES.len())) }
}
