//! Value enums accept exactly their declared names.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand, ValueEnum};
use std::ffi::OsString;

#[derive(Clone, Copy, PartialEq, ValueEnum)]
enum Kebab { A, FooBar, XMLHttpRequest, Snake_case, B2b, Ünit }
#[derive(Clone, Copy, PartialEq, ValueEnum)]
#[value(rename_all = "camelCase")]
enum Camel { A, FooBar, XMLHttpRequest, Snake_case, B2b }
#[derive(Clone, Copy, PartialEq, ValueEnum)]
#[value(rename_all = "PascalCase")]
enum Pascal { A, FooBar, XMLHttpRequest, Snake_case, B2b }
#[derive(Clone, Copy, PartialEq, ValueEnum)]
#[value(rename_all = "SCREAMING_SNAKE_CASE")]
enum Scream { A, FooBar, XMLHttpRequest, Snake_case, B2b }
#[derive(Clone, Copy, PartialEq, ValueEnum)]
#[value(rename_all = "snake_case")]
enum Snake { A, FooBar, XMLHttpRequest, Snake_case, B2b }
#[derive(Clone, Copy, PartialEq, ValueEnum)]
#[value(rename_all = "lower")]
enum Lower { A, FooBar, XMLHttpRequest, Snake_case, B2b }
#[derive(Clone, Copy, PartialEq, ValueEnum)]
#[value(rename_all = "UPPER")]
enum Upper { A, FooBar, XMLHttpRequest, Snake_case, B2b }
#[derive(Clone, Copy, PartialEq, ValueEnum)]
#[value(rename_all = "verbatim")]
enum Verb { A, FooBar, XMLHttpRequest, Snake_case, B2b }
#[derive(Clone, Copy, PartialEq, ValueEnum)]
enum Named {
    #[value(name = "")]
    Empty,
    #[value(name = "a b")]
    Space,
    #[value(name = "-")]
    Dash,
    #[value(name = "x=y")]
    Eq,
    #[value(name = "Case")]
    Case,
    #[value(name = "case")]
    Lower,
    #[value(name = "ünï")]
    Uni,
    Plain,
    #[value(name = "\u{fffd}")]
    Lost,
    #[value(name = "a\u{fffd}")]
    LostToo,
}
#[derive(Parser, PartialEq)]
struct Cli {
    #[arg(long)]
    kebab: Option<Kebab>,
    #[arg(long)]
    camel: Option<Camel>,
    #[arg(long)]
    pascal: Option<Pascal>,
    #[arg(long)]
    scream: Option<Scream>,
    #[arg(long)]
    snake: Option<Snake>,
    #[arg(long)]
    lower: Option<Lower>,
    #[arg(long)]
    upper: Option<Upper>,
    #[arg(long)]
    verb: Option<Verb>,
    #[arg(long)]
    named: Option<Named>,
    #[arg(long = "list", use_value_delimiter = true)]
    list: Vec<Kebab>,
    #[arg(long = "quest", require_equals = true)]
    quest: Option<Option<Named>>,
    pos: Option<Named>,
}
const TABLE_: [(&str, &[&str]); 9] = [
    ("kebab", &["a", "foo-bar", "xml-http-request", "snake-case", "b2b", "ünit"]),
    ("camel", &["a", "fooBar", "xmlHttpRequest", "snakeCase", "b2b"]),
    ("pascal", &["A", "FooBar", "XmlHttpRequest", "SnakeCase", "B2b"]),
    ("scream", &["A", "FOO_BAR", "XML_HTTP_REQUEST", "SNAKE_CASE", "B2B"]),
    ("snake", &["a", "foo_bar", "xml_http_request", "snake_case", "b2b"]),
    ("lower", &["a", "foobar", "xmlhttprequest", "snake_case", "b2b"]),
    ("upper", &["A", "FOOBAR", "XMLHTTPREQUEST", "SNAKE_CASE", "B2B"]),
    ("verb", &["A", "FooBar", "XMLHttpRequest", "Snake_case", "B2b"]),
    ("named", &["", "a b", "-", "x=y", "Case", "case", "ünï", "plain", "\u{fffd}", "a\u{fffd}"]),
];
fn got(c: &Cli) -> (usize, Option<usize>) {
    // (how many fields are set, variant number)
    let all = [c.kebab.map(|x| x as usize), c.camel.map(|x| x as usize), c.pascal.map(|x| x as usize), c.scream.map(|x| x as usize), c.snake.map(|x| x as usize),
        c.lower.map(|x| x as usize), c.upper.map(|x| x as usize), c.verb.map(|x| x as usize), c.named.map(|x| x as usize), c.pos.map(|x| x as usize)];
    (all.iter().flatten().count() + c.list.len() + c.quest.is_some() as usize, all.iter().flatten().next().copied())
}
fn decide(k: usize, v: &[u8], l: Vec<OsString>) {
    let want = TABLE_[k].1.iter().position(|n| n.as_bytes() == v);
    let r = parse::<Cli>(l);
    emit_end(&r);
    match r {
        Ok(c) => { reach!(); check!(want.is_some() && got(&c) == (1, want), "exactly a declared name is accepted and yields its variant") }
        Err(e) => { reach!(); check!(want.is_none() && class(&e) == Class::InvalidValue, "a declared name is accepted, all else is an invalid value") }
    }
}
fn near(base: &str) -> Vec<u8> {
    let mut w = base.as_bytes().to_vec();
    match choice(4) {
        0 => { assume(!w.is_empty()); let i = choice(w.len()); w[i] = byte() }
        1 => { let i = choice(w.len() + 1); w.insert(i, byte()) }
        2 => { assume(!w.is_empty()); let i = choice(w.len()); w.remove(i); }
        _ => {}
    }
    w
}
/// Defaults are shown by name.
#[derive(Parser, PartialEq)]
struct Shown {
    #[arg(long, default_value_t = Kebab::XMLHttpRequest)]
    kebab: Kebab,
    #[arg(long, default_value_t = Camel::Snake_case)]
    camel: Camel,
    #[arg(long, default_value_t = Pascal::XMLHttpRequest)]
    pascal: Pascal,
    #[arg(long, default_value_t = Scream::FooBar)]
    scream: Scream,
    #[arg(long, default_value_t = Snake::FooBar)]
    snake: Snake,
    #[arg(long, default_value_t = Lower::FooBar)]
    lower: Lower,
    #[arg(long, default_value_t = Upper::Snake_case)]
    upper: Upper,
    #[arg(long, default_value_t = Verb::Snake_case)]
    verb: Verb,
    #[arg(long, default_value_t = Named::Space)]
    named: Named,
}

/// Names of up to 320 bytes, alike but for the first letter.
#[derive(Clone, Copy, PartialEq, ValueEnum)]
enum Lengthy {
    #[value(name = "abcdefghijklmnopqrstuvwxyzabcde")]
    L31,
    #[value(name = "bbcdefghijklmnopqrstuvwxyzabcdef")]
    L32,
    #[value(name = "cbcdefghijklmnopqrstuvwxyzabcdefg")]
    L33,
    #[value(name = "dbcdefghijklmnopqrstuvwxyzabcdefghijklmn")]
    L40,
    #[value(name = "ebcdefghijklmnopqrstuvwxyzabcdefghijklmno")]
    L41,
    #[value(name = "fbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijk")]
    L63,
    #[value(name = "gbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijkl")]
    L64,
    #[value(name = "hbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklm")]
    L65,
    #[value(name = "ibcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvw")]
    L127,
    #[value(name = "jbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwx")]
    L128,
    #[value(name = "kbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxy")]
    L129,
    #[value(name = "lbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstu")]
    L255,
    #[value(name = "mbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuv")]
    L256,
    #[value(name = "nbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvw")]
    L257,
    #[value(name = "obcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmn")]
    L300,
    #[value(name = "pbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrst!vwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmn")]
    Mid,
    #[value(name = "qbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklm!")]
    End,
    WaaWbaWcaWdaWeaWfaWgaWhaWiaWjaWabWbbWcbWdbWebWfbWgbWhbWibWjbWacWbcWccWdcWecWfcWgcWhcWicWjcWadWbdWcdWddWedWfdWgdWhdWidWjdWaeWbeWceWdeWeeWfeWgeWheWieWjeWafWbfWcfWdfWefWffWgfWhfWifWjfWagWbgWcgWdgWegWfgWggWhgWigWjgWahWbhWchWdhWehWfhWghWhhWihWjh,
}
const LENGTHY: [&str; 18] = [
    "abcdefghijklmnopqrstuvwxyzabcde",
    "bbcdefghijklmnopqrstuvwxyzabcdef",
    "cbcdefghijklmnopqrstuvwxyzabcdefg",
    "dbcdefghijklmnopqrstuvwxyzabcdefghijklmn",
    "ebcdefghijklmnopqrstuvwxyzabcdefghijklmno",
    "fbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijk",
    "gbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijkl",
    "hbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklm",
    "ibcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvw",
    "jbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwx",
    "kbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxy",
    "lbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstu",
    "mbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuv",
    "nbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvw",
    "obcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmn",
    "pbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrst!vwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmn",
    "qbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklm!",
    "waa-wba-wca-wda-wea-wfa-wga-wha-wia-wja-wab-wbb-wcb-wdb-web-wfb-wgb-whb-wib-wjb-wac-wbc-wcc-wdc-wec-wfc-wgc-whc-wic-wjc-wad-wbd-wcd-wdd-wed-wfd-wgd-whd-wid-wjd-wae-wbe-wce-wde-wee-wfe-wge-whe-wie-wje-waf-wbf-wcf-wdf-wef-wff-wgf-whf-wif-wjf-wag-wbg-wcg-wdg-weg-wfg-wgg-whg-wig-wjg-wah-wbh-wch-wdh-weh-wfh-wgh-whh-wih-wjh",
];
#[derive(Parser, PartialEq)]
struct Lengths {
    #[arg(long)]
    one: Option<Lengthy>,
    #[arg(long, ignore_case = true)]
    any: Option<Lengthy>,
    #[arg(long, value_delimiter = ',')]
    list: Vec<Lengthy>,
}

scenarios! {
    [quick, "18 names of 31 to 319 bytes, alike but for the first letter: whole, one byte arbitrary (of 9 places), or cut or continued by up to 2 arbitrary bytes; in any case as well, and in a list"]
    fn p21_long() {
        let k = choice(LENGTHY.len());
        let mut v = LENGTHY[k].as_bytes().to_vec();
        let n = v.len();
        match choice(4) {
            0 => {}
            1 => { let at = pick(&[0, 1, 30, 32, 40, 63, 64, 128, 255, 256]); let at = if at < n { at } else { n - 1 }; v[at] = byte() }
            2 => { let by = len(1, 2); v.extend(bytes(by)); }
            _ => { v.truncate(n - len(1, 2)); }
        }
        let place = choice(3);
        let (name, icase): (&[u8], bool) = [(&b"--one="[..], false), (b"--any=", true), (b"--list=", false)][place];
        assume(place < 2 || !v.contains(&b','));
        let want = LENGTHY.iter().position(|x| if icase { x.as_bytes().eq_ignore_ascii_case(&v) } else { x.as_bytes() == v });
        let r = parse::<Lengths>(vec![cat(&[name, &v])]);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                let x = match place { 0 => c.one, 1 => c.any, _ => c.list.first().copied() };
                check!(want.is_some() && x.map(|x| x as usize) == want && c.list.len() == usize::from(place == 2), "exactly a declared name is accepted and yields its variant");
            }
            Err(e) => { reach!(); check!(want.is_none() && class(&e) == Class::InvalidValue, "a declared name is accepted, all else is an invalid value") }
        }
    }
    [quick, "9 enums (8 case conversions and explicit names): every value of 0..=4 arbitrary bytes"]
    fn p21_any() {
        let k = choice(9);
        let v = bytes(len(0, 4));
        decide(k, &v, vec![cat(&[b"--", TABLE_[k].0.as_bytes(), b"=", &v])]);
    }
    [quick, "each name of each enum with one byte arbitrary, added or removed"]
    fn p21_near() {
        let k = choice(9);
        let v = near(pick(TABLE_[k].1));
        decide(k, &v, vec![cat(&[b"--", TABLE_[k].0.as_bytes(), b"=", &v])]);
    }
    [quick, "as a positional: 0..=3 arbitrary bytes, or a name with one byte changed"]
    fn p21_positional() {
        let v = if flip() { bytes(len(0, 3)) } else { near(pick(TABLE_[8].1)) };
        assume(plain(&v));
        decide(8, &v, vec![os(v.clone())]);
    }
    [quick, "every name of every enum in every other enum: the variant is the one of that enum"]
    fn p21_cross() {
        let k = choice(9);
        let v = pick(TABLE_[choice(9)].1).as_bytes();
        decide(k, v, vec![cat(&[b"--", TABLE_[k].0.as_bytes(), b"=", v])]);
    }
    [quick, "as an optional value and following word: names with one byte changed"]
    fn p21_kinds() {
        let v = near(pick(TABLE_[8].1));
        let want = TABLE_[8].1.iter().position(|n| n.as_bytes() == &v[..]);
        let next = flip();
        let l = if next { assume(plain(&v)); vec![s("--named"), os(v.clone())] } else { vec![cat(&[b"--quest=", &v])] };
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                let x = if next { c.named } else { c.quest.flatten() };
                check!(want.is_some() && x.map(|x| x as usize) == want, "exactly a declared name is accepted and yields its variant");
            }
            Err(e) => check!(want.is_none() && class(&e) == Class::InvalidValue, "a declared name is accepted, all else is an invalid value"),
        }
    }
    [quick, "in a delimited list: two parts, each a name or one with a byte changed, or 0..=2 arbitrary bytes"]
    fn p21_list() {
        let part = || if flip() { bytes(len(0, 2)) } else { let mut w = pick(&["a", "foo-bar", "b2b"]).as_bytes().to_vec(); let i = choice(w.len()); w[i] = byte(); w };
        let (a, b) = (part(), part());
        assume(!a.contains(&b',') && !b.contains(&b','));
        let n = |v: &[u8]| TABLE_[0].1.iter().position(|n| n.as_bytes() == v);
        let r = parse::<Cli>(vec![cat(&[b"--list=", &a, b",", &b])]);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(c.list.len() == 2 && n(&a) == Some(c.list[0] as usize) && n(&b) == Some(c.list[1] as usize), "each part is a declared name and yields its variant");
            }
            Err(e) => check!((n(&a).is_none() || n(&b).is_none()) && class(&e) == Class::InvalidValue, "declared names are accepted"),
        }
    }
    [quick, "the name shown for a default in the help parses back to it, 9 enums"]
    fn p21_default() {
        let k = choice(9);
        let help = match parse::<Shown>(vec![s("--help")]) {
            Ok(_) => { check!(false, "help was asked for"); return }
            Err(e) => match e.try_into_help() { Ok(h) => h, Err(_) => { check!(false, "help was asked for"); return } },
        };
        // the k-th '[default: x]'
        let Some(x) = help.split("[default: ").nth(k + 1).and_then(|t| t.split(']').next()) else { check!(false, "the default is shown"); return };
        let r = parse::<Cli>(vec![cat(&[b"--", TABLE_[k].0.as_bytes(), b"=", x.as_bytes()])]);
        emit_end(&r);
        let want = [2, 3, 2, 1, 1, 1, 3, 3, 1][k];
        match r {
            Ok(c) => { reach!(); check!(got(&c) == (1, Some(want)), "the name shown is the name of the default") }
            Err(_) => check!(false, "the name shown is accepted"),
        }
        let d = parse::<Shown>(vec![]);
        match d {
            Ok(d) => check!([d.kebab as usize, d.camel as usize, d.pascal as usize, d.scream as usize, d.snake as usize, d.lower as usize, d.upper as usize, d.verb as usize, d.named as usize][k] == want, "and the default is that variant"),
            Err(_) => check!(false, "all have defaults"),
        }
    }
    [deep, "9 enums: every value of 5..=8 arbitrary bytes"]
    fn p21_deep() {
        let k = choice(9);
        let v = bytes(len(5, 8));
        decide(k, &v, vec![cat(&[b"--", TABLE_[k].0.as_bytes(), b"=", &v])]);
    }
    [quick, "value enum options of all combinations of attributes in 54 definitions, every spelling: 1..=3 arbitrary bytes, or a name with one byte changed"]
    fn p21_matrix() {
        let a = mx::at(mx::PLAIN);
        let r = a.option(|o| !o.rules.names.is_empty() && o.rules.ignore_case == false);
        let v = if flip() {
            bytes(len(1, 2))
        } else {
            let mut v = pick(r.opt.rules.names).as_bytes().to_vec();
            let k = choice(v.len());
            v[k] = byte();
            v
        };
        let w = mx::valued(pick(&a.names(r)), r.opt, &v);
        let l = a.line(w, &[(r.level, r.index)]);
        match a.agree(l) {
            1 => reach!(),
            2 => reach!(),
            _ => {}
        }
    }
}
