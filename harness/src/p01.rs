//! Totality: any sequence of byte strings gives a value or an error.
use crate::common::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand, ValueEnum};
use std::ffi::OsString;
use std::fmt::Write;

/// Every kind of option and positional.
#[derive(Parser)]
struct Kitchen {
    #[arg(short, long)]
    verbose: bool,
    #[arg(short, long)]
    file: Option<OsString>,
    #[arg(short = 'é', long = "é", require_equals = true)]
    opt: Option<Option<OsString>>,
    #[arg(short, long, use_value_delimiter = true)]
    list: Vec<OsString>,
    #[arg(short = 'n', allow_negative_numbers = true)]
    num: Option<OsString>,
    pos: Option<OsString>,
    rest: Vec<OsString>,
    #[arg(last = true)]
    last: Vec<OsString>,
}
/// Typed values, required arguments, constraints, defaults.
#[derive(Parser)]
struct Typed {
    #[arg(short, long)]
    num: u8,
    #[arg(short, long, value_enum, ignore_case = true)]
    mode: Option<Mode>,
    #[arg(short, long, default_value_t = 7, conflicts_with = "mode")]
    level: i16,
    #[arg(short, require_equals = true, value_delimiter = '→', requires = "num")]
    text: Option<Vec<String>>,
    #[arg(short = 'x', exclusive = true)]
    alone: bool,
    #[arg(default_value = "p")]
    pos: char,
}
#[derive(Clone, Copy, ValueEnum)]
enum Mode {
    A,
    BbB,
    #[value(name = "é")]
    C,
}
/// Subcommands, flattening, globals.
#[derive(Parser)]
struct Tree {
    #[arg(short, long, global = true)]
    glob: Option<OsString>,
    #[arg(short)]
    verbose: bool,
    #[command(flatten)]
    flat: Flat,
    pos: Option<OsString>,
    #[command(subcommand)]
    sub: Sub,
}
#[derive(Args)]
struct Flat {
    #[arg(short, global = true)]
    inner: bool,
    #[arg(long)]
    deep: Option<OsString>,
}
#[derive(Subcommand)]
enum Sub {
    A,
    Bb {
        #[arg(short)]
        key: Option<OsString>,
        #[arg(trailing_var_arg = true)]
        rest: Vec<OsString>,
    },
    C(Leaf),
}
#[derive(Args)]
struct Leaf {
    #[arg(short, long)]
    verbose: bool,
    #[command(subcommand)]
    sub: Option<Deep>,
}
#[derive(Subcommand)]
enum Deep {
    D {
        #[command(flatten)]
        flat: Flat,
        p: OsString,
    },
}
#[derive(Parser)]
struct Empty {}

/// A sink that accepts everything: rendering must not fail.
struct Count(usize);
impl Write for Count {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

/// Short words whose escaped form needs no Unicode tables (these make the solver slow).
fn easy() -> OsString {
    let n = len(0, 3);
    let v = bytes(n);
    if n > 1 {
        for b in &v {
            assume(*b < 0x80 || *b >= 0xf5);
        }
    }
    os(v)
}

fn total<P: Parser>(v: Vec<OsString>) {
    let r = parse::<P>(v);
    emit_end(&r);
    match r {
        Ok(_) => reach!(),
        Err(_) => reach!(),
    }
}
/// ... and the error can be shown in full.
fn total_shown<P: Parser>(v: Vec<OsString>) {
    let r = parse::<P>(v);
    if let Err(e) = r {
        let mut c = Count(0);
        check!(write!(c, "{e}").is_ok(), "an error can be displayed");
        let mut d = Count(0);
        check!(write!(d, "{e:?}").is_ok(), "an error can be displayed for debugging");
        check!(c.0 > 0, "an error says something");
        emit(c.0 as u64);
        emit(std::error::Error::source(&e).is_some() as u64);
        reach!();
    }
}

/// Option letters at the limits of the lengths in UTF-8, and such that need escaping.
#[derive(Parser)]
struct Letters {
    #[arg(short = '\u{80}', short_alias = '\u{7ff}')]
    two: bool,
    #[arg(short = '\u{800}', short_alias = '\u{ffff}')]
    three: bool,
    #[arg(short = '\u{10000}', short_alias = '\u{10ffff}')]
    four: bool,
    #[arg(short = '\u{fffd}', short_alias = '\u{d7ff}')]
    odd: bool,
    #[arg(short = '"', short_alias = '\u{e000}')]
    quote: bool,
    #[arg(short = ' ', short_alias = '\\')]
    value: Option<OsString>,
    #[arg(short = '\u{301}', short_alias = '{', require_equals = true)]
    equal: Option<Option<OsString>>,
}
const LETTERS: [&str; 14] = ["\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "\u{fffd}", "\u{d7ff}", "\"", "\u{e000}", " ", "\\", "\u{301}", "{"];

scenarios! {
    [quick, "14 unusual option letters: two in a bundle and 0..=2 arbitrary bytes"]
    fn p01_letters() {
        total::<Letters>(vec![cat(&[b"-", pick(&LETTERS).as_bytes(), pick(&LETTERS).as_bytes(), &bytes(len(0, 2))])]);
    }
    [quick, "14 unusual option letters: one in a bundle and one or two around one arbitrary byte; shown in full"]
    fn p01_letters_shown() {
        let b = byte();
        assume(b < 0x80 || b >= 0xf5);
        total_shown::<Letters>(vec![cat(&[b"-", pick(&LETTERS).as_bytes(), &[b], if flip() { pick(&LETTERS).as_bytes() } else { b"" }])]);
    }
    [quick, "words of up to 4000 bytes: 14 numbers of one of 4 characters, the place of the cut varied, one ASCII byte last, at 9 places; errors shown in full"]
    fn p01_long() {
        let mut v = lengthy();
        let b = byte();
        assume(b < 0x80);
        v.push(b);
        match choice(9) {
            0 => total_shown::<Kitchen>(vec![cat(&[b"--", &v])]),
            1 => total_shown::<Kitchen>(vec![cat(&[b"--", &v, b"=", &v])]),
            2 => total_shown::<Kitchen>(vec![cat(&[b"-", &v])]),
            3 => total_shown::<Kitchen>(vec![cat(&[b"--verbose=", &v])]),
            4 => total_shown::<Typed>(vec![cat(&[b"--num=", &v])]),
            5 => total_shown::<Typed>(vec![cat(&[b"--mode=", &v])]),
            6 => total_shown::<Typed>(vec![s("-t=a"), os(v)]),
            7 => total_shown::<Tree>(vec![os(v)]),
            _ => total_shown::<Empty>(vec![os(v)]),
        }
    }
    [quick, "up to 1030 words: 14 numbers of one of 8 words, then one of 0..=1 arbitrary bytes"]
    fn p01_many() {
        let w = pick(&["w", "-v", "-l=a,b", "--list=é", "--", "-", "bb", "c"]);
        let mut l: Vec<OsString> = (0..pick(&SIZES)).map(|_| s(w)).collect();
        l.push(tok(0, 1));
        if flip() { total::<Kitchen>(l) } else { total::<Tree>(l) }
    }
    [quick, "every command of 54 definitions: two option letters in a bundle and 0..=1 arbitrary bytes, or a long name and 0..=2"]
    fn p01_matrix() {
        let a = mx::at(mx::PLAIN);
        let names: Vec<&'static str> = a.options().iter().flat_map(|r| a.names(*r)).collect();
        let letters: Vec<&'static str> = names.iter().copied().filter(|n| !n.starts_with("--")).collect();
        let w = if flip() {
            assume(!names.is_empty());
            cat(&[pick(&names).as_bytes(), &bytes(len(0, 2))])
        } else {
            assume(!letters.is_empty());
            cat(&[pick(&letters).as_bytes(), &pick(&letters).as_bytes()[1..], &bytes(len(0, 1))])
        };
        mx::run_on(a.def, a.line(vec![w], &[]));
        reach!();
    }
    [quick, "options of every kind: 3 words of 0..=2 arbitrary bytes each"]
    fn p01_kitchen3() {
        let v = vec![tok(0, 2), tok(0, 2), tok(0, 2)];
        total::<Kitchen>(v);
    }
    [quick, "options of every kind: 2 words of 0..=4 arbitrary bytes each"]
    fn p01_kitchen2() {
        let v = vec![tok(0, 4), tok(0, 4)];
        total::<Kitchen>(v);
    }
    [quick, "options of every kind: 1 word of 0..=8 arbitrary bytes"]
    fn p01_kitchen1() {
        total::<Kitchen>(vec![tok(0, 8)]);
    }
    [quick, "typed, defaulted and constrained arguments: 2 words of 0..=3 arbitrary bytes each, after '-n1' or not"]
    fn p01_typed() {
        let mut v = vec![tok(0, 3), tok(0, 3)];
        if flip() { v.insert(0, s("-n1")) }
        total::<Typed>(v);
    }
    [quick, "subcommands, globals, flattening: 2 words of 0..=3 arbitrary bytes after one of 5 prefixes"]
    fn p01_tree() {
        let mut v = pick(&[vec![], vec![s("bb")], vec![s("c")], vec![s("c"), s("d")], vec![s("x"), s("a")]]);
        v.push(tok(0, 3));
        v.push(tok(0, 3));
        total::<Tree>(v);
    }
    [quick, "a definition without arguments: 1 word of 0..=5 arbitrary bytes"]
    fn p01_empty() {
        total::<Empty>(vec![tok(0, 5)]);
    }
    [quick, "0, 1 or 2 items in all (argv[0] included) of 0..=2 arbitrary bytes"]
    fn p01_argv() {
        let n = choice(3);
        let v: Vec<OsString> = (0..n).map(|_| tok(0, 2)).collect();
        let r = Tree::try_parse_from(v);
        emit_end(&r);
        if n < 2 {
            check!(r.is_err(), "nothing or only the program name: the required subcommand is missing");
        }
    }
    [quick, "errors rendered in full: one word of 0..=1 arbitrary bytes, or of 2 or 3 that are ASCII or never valid in UTF-8, in four definitions"]
    fn p01_shown() {
        let t = easy();
        match choice(4) {
            0 => total_shown::<Kitchen>(vec![t]),
            1 => total_shown::<Typed>(vec![t]),
            2 => total_shown::<Tree>(vec![t]),
            _ => total_shown::<Empty>(vec![t]),
        }
    }
    [quick, "conversion errors rendered in full: values as above for 5 typed arguments"]
    fn p01_shown_values() {
        let v = raw(&easy()).to_vec();
        let w = match choice(5) {
            0 => cat(&[b"--num=", &v]),
            1 => cat(&[b"--mode=", &v]),
            2 => cat(&[b"-t=", &v]),
            3 => cat(&[b"--level=", &v]),
            _ => os(v),
        };
        total_shown::<Typed>(vec![w]);
    }
    [deep, "errors rendered in full: one word of 2 arbitrary bytes in four definitions"]
    fn p01_shown_deep() {
        let t = os(bytes(2));
        match choice(4) {
            0 => total_shown::<Kitchen>(vec![t]),
            1 => total_shown::<Typed>(vec![t]),
            2 => total_shown::<Tree>(vec![t]),
            _ => total_shown::<Empty>(vec![t]),
        }
    }
    [deep, "options of every kind: 3 words of 0..=3 arbitrary bytes each"]
    fn p01_kitchen3_deep() {
        let v = vec![tok(0, 3), tok(0, 3), tok(0, 3)];
        total::<Kitchen>(v);
    }
    [deep, "subcommands, globals, flattening: 3 words of 0..=3 arbitrary bytes"]
    fn p01_tree_deep() {
        let v = vec![tok(0, 3), tok(0, 3), tok(0, 3)];
        total::<Tree>(v);
    }
    [deep, "typed arguments: 3 words of 0..=3 arbitrary bytes"]
    fn p01_typed_deep() {
        let v = vec![tok(0, 3), tok(0, 3), tok(0, 3)];
        total::<Typed>(v);
    }
}
