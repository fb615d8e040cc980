//! P36 parse() prints the error and exits with status 1.
use crate::common::*;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand};
use std::ffi::OsString;

#[derive(Parser, Debug)]
/// All in one.
struct Full {
    /// With a value.
    #[arg(short, long)]
    out: Option<OsString>,
    #[arg(short, conflicts_with = "out")]
    quiet: bool,
    #[arg(long, default_value_t = 7)]
    num: u8,
    word: Option<String>,
    #[command(subcommand)]
    sub: Option<Sub>,
}
#[derive(Subcommand, Debug)]
enum Sub {
    Go,
    /// Adds.
    Add {
        #[arg(long)]
        name: String,
        rest: Vec<OsString>,
    },
}
#[derive(Parser, Debug)]
struct Need {
    #[arg(long)]
    key: i8,
}
#[derive(Parser, Debug)]
struct Nothing {}
#[derive(Parser, Debug)]
struct Mine {
    #[arg(long, short)]
    help: bool,
    #[arg(long)]
    lines: Option<String>,
}

fn main_of<P: Parser + std::fmt::Debug>() -> String {
    format!("{:?}", P::parse())
}
fn try_of<P: Parser + std::fmt::Debug>(argv: &[OsString]) -> Result<String, String> {
    match P::try_parse_from(argv.to_vec()) {
        Ok(v) => Ok(format!("{v:?}")),
        Err(e) => Err(e.to_string()),
    }
}
fn program<P: Parser + std::fmt::Debug>(argv: Vec<OsString>) {
    for w in &argv {
        note(w.as_encoded_bytes());
        assume(!w.as_encoded_bytes().contains(&0)); // no such words in a system call
    }
    note_end();
    let want = try_of::<P>(&argv);
    as_program(argv, main_of::<P>, move |end| {
        emit(end.status.map_or(999, |s| s as u32 as u64));
        check!(end.out.is_empty(), "nothing is printed on standard output");
        match &want {
            Ok(v) => {
                reach!();
                check!(end.status.is_none(), "a good line does not end the program");
                check!(end.err.is_empty(), "a good line prints nothing");
                check!(end.value == *v, "the value is the one of the program's arguments");
            }
            Err(e) => {
                reach!();
                check!(end.status == Some(1), "a bad line ends the program with status 1");
                let mut all = e.clone().into_bytes();
                all.push(b'\n');
                check!(end.err == all, "the error is printed, and nothing else");
            }
        }
    })
}
fn any(words: Vec<OsString>) {
    let mut argv = vec![s("x")];
    argv.extend(words);
    match choice(4) {
        0 => program::<Full>(argv),
        1 => program::<Need>(argv),
        2 => program::<Nothing>(argv),
        _ => program::<Mine>(argv),
    }
}
/// Up to `n` bytes, which are ASCII or never valid if there is more than one.
fn easy(n: usize) -> OsString {
    let t = tok(0, n);
    let b = t.as_encoded_bytes();
    assume(b.len() < 2 || b.iter().all(|b| *b < 0x80 || *b >= 0xf8));
    t
}
fn word() -> OsString {
    s(pick(&["-q", "-oa", "--out", "--num=300", "--num=3", "go", "add", "--name=n", "--help", "-h", "--", "w", "-x", "--key=5", "--key", "--lines"]))
}

scenarios! {
    [quick, "4 definitions, no word, one or two of 16, with options, subcommands, help requests, bad values"]
    fn p36_words() {
        any((0..choice(3)).map(|_| word()).collect());
    }
    [quick, "4 definitions, one word of 0..=1 arbitrary bytes, or of 2 or 3 that are ASCII or never valid in UTF-8, other than NUL"]
    fn p36_any() {
        any(vec![easy(3)]);
    }
    [quick, "one of 16 words and then one of 0..=1 arbitrary bytes, or of 2 that are ASCII or never valid in UTF-8, 4 definitions"]
    fn p36_next() {
        let w = word();
        any(vec![w, easy(2)]);
    }
    [quick, "any program name of 0..=1 arbitrary bytes, or of 2 or 3 that are ASCII or never valid in UTF-8, with a request for help, an error or neither"]
    fn p36_name() {
        let n = easy(3);
        program::<Full>(match choice(3) {
            0 => vec![n],
            1 => vec![n, s("--help")],
            _ => vec![n, s("-x")],
        });
    }
    [deep, "4 definitions, one of 16 words and then one of 0..=2 arbitrary bytes"]
    fn p36_deep() {
        let w = word();
        any(vec![w, tok(0, 2)]);
    }
}
