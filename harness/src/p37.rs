//! Names that are not given come from the identifiers.
use crate::common::*;
use crate::{check, reach, scenarios};
use palc::{Parser, Subcommand, ValueEnum};
use proc_macro2::{TokenStream, TokenTree};
use std::ffi::OsString;

macro_rules! fields {
    ($($(#[$m:meta])* $f:ident = $n:literal)*) => {
        #[derive(Parser, PartialEq)]
        #[allow(non_snake_case)]
        struct Fields {
            $(#[arg(long)] $f: bool,)*
        }
        const FIELDS: &[&str] = &[$($n),*];
        impl Fields {
            fn all(&self) -> Vec<bool> {
                vec![$(self.$f),*]
            }
        }
    };
}
fields! {
    foo_bar = "foo-bar" lead_x1 = "lead-x1" trail_ = "trail" a__b = "a-b" ab1_c2 = "ab1-c2" aBcDe = "a-bc-de" HTTPServer2 = "http-server2" V2Ray = "v2-ray" naïve_é = "naïve-é" Über = "über"
    r#type = "type" r#fn = "fn" x = "x" ABC = "abc" x86_64 = "x86-64" foo_Bar1Baz = "foo-bar1-baz" r#try_it = "try-it" no_color = "no-color" waa_wab_wac_wad_wae_waf_wag_wah_wai_waj_wba_wbb_wbc_wbd_wbe_wbf_wbg_wbh_wbi_wbj_wca_wcb_wcc_wcd_wce_wcf_wcg_wch_wci_wcj_wda_wdb_wdc_wdd_wde_wdf_wdg_wdh_wdi_wdj_wea_web_wec_wed_wee_wef_weg_weh_wei_wej_wfa_wfb_wfc_wfd_wfe_wff_wfg_wfh_wfi_wfj_wga_wgb_wgc_wgd_wge_wgf_wgg_wgh_wgi_wgj = "waa-wab-wac-wad-wae-waf-wag-wah-wai-waj-wba-wbb-wbc-wbd-wbe-wbf-wbg-wbh-wbi-wbj-wca-wcb-wcc-wcd-wce-wcf-wcg-wch-wci-wcj-wda-wdb-wdc-wdd-wde-wdf-wdg-wdh-wdi-wdj-wea-web-wec-wed-wee-wef-weg-weh-wei-wej-wfa-wfb-wfc-wfd-wfe-wff-wfg-wfh-wfi-wfj-wga-wgb-wgc-wgd-wge-wgf-wgg-wgh-wgi-wgj" vaa_wab_wac_wad_wae_waf_wag_wah_wai_waj_wba_wbb_wbc_wbd_wbe_wbf_wbg_wbh_wbi_wbj = "vaa-wab-wac-wad-wae-waf-wag-wah-wai-waj-wba-wbb-wbc-wbd-wbe-wbf-wbg-wbh-wbi-wbj" two__ = "two" IOError = "io-error"
}
#[derive(Parser, PartialEq)]
#[allow(non_snake_case)]
struct Shorts {
    #[arg(short)]
    foo: bool,
    #[arg(short)]
    Bar: bool,
    #[arg(short)]
    _u: bool,
    #[arg(short)]
    é1: bool,
    #[arg(short)]
    r#try: bool,
    #[arg(short)]
    Über: bool,
    #[arg(short, long)]
    Z9: bool,
    #[arg(short)]
    r#ref: bool,
}
const SHORTS: [&str; 8] = ["f", "B", "_", "é", "t", "Ü", "Z", "r"];
#[derive(Parser, PartialEq)]
struct Top {
    #[command(subcommand)]
    cmd: Cmd,
}
#[derive(Parser, PartialEq)]
struct Nothing {}
#[derive(Subcommand, PartialEq)]
#[allow(non_camel_case_types)]
enum Cmd {
    FooBar,
    HTTPServer2(Nothing),
    x86_64 {},
    r#match,
    r#Type,
    V2Ray { #[arg(long)] on: bool },
    A,
    Über,
    Do__It_,
    ABc,
}
const CMDS: [&str; 10] = ["foo-bar", "http-server2", "x86-64", "match", "type", "v2-ray", "a", "über", "do-it", "a-bc"];
impl Cmd {
    fn which(&self) -> usize {
        match self {
            Cmd::FooBar => 0, Cmd::HTTPServer2(_) => 1, Cmd::x86_64 {} => 2, Cmd::r#match => 3, Cmd::r#Type => 4, Cmd::V2Ray { .. } => 5, Cmd::A => 6, Cmd::Über => 7, Cmd::Do__It_ => 8, Cmd::ABc => 9,
        }
    }
}
macro_rules! values {
    ($t:ident $([$r:literal])? $a:literal $b:literal $c:literal $d:literal $e:literal $f:literal) => {
        #[derive(ValueEnum, PartialEq, Clone, Copy)]
        #[allow(non_camel_case_types)]
        $(#[value(rename_all = $r)])?
        enum $t { FooBar, HTTPServer2, x86_64, r#true, é_Ü, A, #[value(name = "Given_asIs")] Other }
        impl $t {
            const NAMES: [&'static str; 7] = [$a, $b, $c, $d, $e, $f, "Given_asIs"];
        }
    };
}
values!(Usual "foo-bar" "http-server2" "x86-64" "true" "é-ü" "a");
values!(Camel ["camelCase"] "fooBar" "httpServer2" "x8664" "true" "éÜ" "a");
values!(Kebab ["kebab-case"] "foo-bar" "http-server2" "x86-64" "true" "é-ü" "a");
values!(Pascal ["PascalCase"] "FooBar" "HttpServer2" "X8664" "True" "ÉÜ" "A");
values!(Scream ["SCREAMING_SNAKE_CASE"] "FOO_BAR" "HTTP_SERVER2" "X86_64" "TRUE" "É_Ü" "A");
values!(Snake ["snake_case"] "foo_bar" "http_server2" "x86_64" "true" "é_ü" "a");
values!(Low ["lower"] "foobar" "httpserver2" "x86_64" "true" "é_ü" "a");
values!(Upp ["UPPER"] "FOOBAR" "HTTPSERVER2" "X86_64" "TRUE" "É_Ü" "A");
values!(Same ["verbatim"] "FooBar" "HTTPServer2" "x86_64" "true" "é_Ü" "A");
#[derive(Parser, PartialEq)]
struct Values {
    #[arg(long)]
    usual: Option<Usual>,
    #[arg(long)]
    camel: Option<Camel>,
    #[arg(long)]
    kebab: Option<Kebab>,
    #[arg(long)]
    pascal: Option<Pascal>,
    #[arg(long)]
    scream: Option<Scream>,
    #[arg(long)]
    snake: Option<Snake>,
    #[arg(long)]
    low: Option<Low>,
    #[arg(long)]
    upp: Option<Upp>,
    #[arg(long)]
    same: Option<Same>,
}
impl Values {
    fn got(&self) -> Option<usize> {
        None.or(self.usual.map(|v| v as usize)).or(self.camel.map(|v| v as usize)).or(self.kebab.map(|v| v as usize)).or(self.pascal.map(|v| v as usize)).or(self.scream.map(|v| v as usize))
            .or(self.snake.map(|v| v as usize)).or(self.low.map(|v| v as usize)).or(self.upp.map(|v| v as usize)).or(self.same.map(|v| v as usize))
    }
}
const SETS: [(&str, &[&str]); 9] = [
    ("--usual=", &Usual::NAMES), ("--camel=", &Camel::NAMES), ("--kebab=", &Kebab::NAMES), ("--pascal=", &Pascal::NAMES), ("--scream=", &Scream::NAMES), ("--snake=", &Snake::NAMES), ("--low=", &Low::NAMES),
    ("--upp=", &Upp::NAMES), ("--same=", &Same::NAMES),
];
#[derive(Parser, PartialEq)]
#[allow(non_snake_case)]
struct Shown {
    #[arg(long)]
    foo_bar: Option<u8>,
    #[arg(long, require_equals = true)]
    aBc2: Option<Option<u8>>,
    #[arg(short)]
    r#in: Option<u8>,
    #[arg(long = "given", short = 'n')]
    HTTPServer: Option<u8>,
    #[arg(long)]
    lead1: Vec<u8>,
    x__y: Option<u8>,
    r#do: Vec<u8>,
}

fn position(names: &[&str], w: &[u8]) -> Option<usize> {
    names.iter().position(|n| n.as_bytes() == w)
}
fn long(w: Vec<u8>) {
    let k = position(FIELDS, &w);
    assume(w != b"help" && !w.is_empty());
    let r = parse::<Fields>(vec![cat(&[b"--", &w])]);
    emit_end(&r);
    match (r, k) {
        (Ok(v), Some(k)) => { reach!(); check!(v.all().iter().enumerate().all(|(i, b)| *b == (i == k)), "the name is the one of this field") }
        (Ok(_), None) => check!(false, "there are no other names"),
        (Err(_), k) => { reach!(); check!(k.is_none(), "the name is the identifier in kebab-case") }
    }
}
fn sub(w: Vec<u8>) {
    let k = position(&CMDS, &w);
    assume(w != b"--help" && w != b"-h");
    let r = parse::<Top>(vec![os(w)]);
    emit_end(&r);
    match (r, k) {
        (Ok(v), Some(k)) => { reach!(); check!(v.cmd.which() == k, "the name is the one of this variant") }
        (Ok(_), None) => check!(false, "there are no other names"),
        (Err(_), k) => { reach!(); check!(k.is_none(), "the name is the identifier in kebab-case") }
    }
}
fn value(w: Vec<u8>) {
    let (o, names) = pick(&SETS);
    let k = position(names, &w);
    let r = parse::<Values>(vec![cat(&[o.as_bytes(), &w])]);
    emit_end(&r);
    match (r, k) {
        (Ok(v), Some(k)) => { reach!(); check!(v.got() == Some(k), "the name is the one of this value") }
        (Ok(_), None) => check!(false, "there are no other values"),
        (Err(_), k) => { reach!(); check!(k.is_none(), "the value is the identifier as renamed") }
    }
}

/// The words of an identifier: apart at underscores, before a capital that follows a small letter (digits between or not),
/// and before the last of several capitals if a small letter follows.
fn words(id: &[u8]) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    for part in id.split(|c| *c == b'_').filter(|p| !p.is_empty()) {
        let mut w: Vec<u8> = vec![];
        for (i, c) in part.iter().enumerate() {
            let cased = w.iter().rev().find(|c| c.is_ascii_alphabetic());
            let up = c.is_ascii_uppercase();
            let next_low = part.get(i + 1).is_some_and(|n| n.is_ascii_lowercase());
            if up && cased.is_some_and(|p| p.is_ascii_lowercase() || next_low) {
                // A digit after capitals does not end them, but one after small letters does not either.
                let split = if cased.unwrap().is_ascii_lowercase() { true } else { next_low };
                if split {
                    out.push(std::mem::take(&mut w));
                }
            }
            w.push(*c);
        }
        out.push(w);
    }
    out
}
fn join(w: &[Vec<u8>], sep: &[u8], first: fn(&[u8]) -> Vec<u8>, rest: fn(&[u8]) -> Vec<u8>) -> Vec<u8> {
    let mut out = vec![];
    for (i, w) in w.iter().enumerate() {
        if i > 0 {
            out.extend_from_slice(sep);
        }
        out.extend(if i == 0 { first(w) } else { rest(w) });
    }
    out
}
fn lower(w: &[u8]) -> Vec<u8> {
    w.to_ascii_lowercase()
}
fn upper(w: &[u8]) -> Vec<u8> {
    w.to_ascii_uppercase()
}
fn capital(w: &[u8]) -> Vec<u8> {
    let mut w = w.to_ascii_lowercase();
    w[0] = w[0].to_ascii_uppercase();
    w
}
fn renamed(how: &str, id: &[u8]) -> Vec<u8> {
    let w = words(id);
    match how {
        "camelCase" => join(&w, b"", lower, capital),
        "PascalCase" => join(&w, b"", capital, capital),
        "SCREAMING_SNAKE_CASE" => join(&w, b"_", upper, upper),
        "snake_case" => join(&w, b"_", lower, lower),
        "lower" => lower(id),
        "UPPER" => upper(id),
        "verbatim" => id.to_vec(),
        _ => join(&w, b"-", lower, lower),
    }
}
/// An identifier: a letter or underscore first, then digits as well.
fn ident(n: usize) -> Vec<u8> {
    let b = bytes(n);
    for (i, c) in b.iter().enumerate() {
        assume((*c == b'a') | (*c == b'B') | (*c == b'_') | (i > 0) & (*c == b'2'));
    }
    // Something to make a name of.
    assume(b.iter().any(|c| *c != b'_'));
    b
}
fn put(parts: &[&[u8]]) -> String {
    String::from_utf8(parts.concat()).unwrap()
}
/// The strings in the macro's output.
fn strings(t: TokenStream, out: &mut Vec<String>) {
    for x in t {
        match x {
            TokenTree::Group(g) => strings(g.stream(), out),
            TokenTree::Literal(l) => {
                let t = l.to_string();
                if let Some(t) = t.strip_prefix('"').and_then(|t| t.strip_suffix('"')) {
                    out.push(t.to_string());
                }
            }
            _ => {}
        }
    }
}
fn expand(d: fn(TokenStream) -> TokenStream, src: String) -> Vec<String> {
    note(src.as_bytes());
    note_end();
    let mut v = vec![];
    strings(d(src.parse().unwrap()), &mut v);
    v
}
/// Whether one of the strings is this one, or these at the start of one, apart from what no name contains.
fn told(v: &[String], name: &[u8]) -> bool {
    v.iter().any(|t| {
        let t = t.as_bytes();
        t.len() >= name.len() && t[..name.len()] == *name && t.get(name.len()).is_none_or(|c| !c.is_ascii_alphanumeric() && *c != b'-' && *c != b'_')
    })
}
scenarios! {
    [quick, "'--' and 1..=6 arbitrary bytes, for fields of 22 identifiers (underscores, digits, capitals, wider letters, raw ones)"]
    fn p37_long() {
        long(bytes(len(1, 6)));
    }
    [quick, "'--' and one of the 22 names with a byte changed, added or removed"]
    fn p37_long_near() {
        let mut n = pick(FIELDS).as_bytes().to_vec();
        let i = choice(n.len());
        match choice(3) {
            0 => n[i] = byte(),
            1 => n.insert(i, byte()),
            _ => { n.remove(i); }
        }
        long(n);
    }
    [deep, "'--' and 7..=12 bytes, for fields of 22 identifiers"]
    fn p37_long_deep() {
        long(bytes(len(7, 12)));
    }
    [quick, "'-' and one character of 1..=2 arbitrary bytes, for fields of 8 identifiers"]
    fn p37_short() {
        let w = bytes(len(1, 2));
        assume(w[0] != b'-' && w[0] != b'h' && w[0] != b'=');
        let k = position(&SHORTS, &w);
        // One character only.
        assume(w.len() == 1 || w[0] >= 0x80);
        let r = parse::<Shorts>(vec![cat(&[b"-", &w])]);
        emit_end(&r);
        match r {
            Ok(v) => {
                reach!();
                let all = [v.foo, v.Bar, v._u, v.é1, v.r#try, v.Über, v.Z9, v.r#ref];
                check!(k.is_some() && (0..8).all(|i| all[i] == (Some(i) == k)), "the short name is the first character of this field");
            }
            Err(_) => { reach!(); check!(k.is_none(), "the short name is the first character") }
        }
    }
    [quick, "a word of 0..=6 arbitrary bytes, for subcommands of 10 identifiers"]
    fn p37_subcommand() {
        sub(bytes(len(0, 6)));
    }
    [quick, "one of the 10 subcommands with a byte changed, added or removed"]
    fn p37_subcommand_near() {
        let mut n = pick(&CMDS).as_bytes().to_vec();
        let i = choice(n.len());
        match choice(3) {
            0 => n[i] = byte(),
            1 => n.insert(i, byte()),
            _ => { n.remove(i); }
        }
        sub(n);
    }
    [quick, "a value of 0..=6 arbitrary bytes, for sets of 7 identifiers in 9 ways of renaming"]
    fn p37_value() {
        value(bytes(len(0, 6)));
    }
    [quick, "one of the 7 values in 9 ways of renaming, a byte of it arbitrary"]
    fn p37_value_near() {
        let mut n = pick(pick(&SETS).1).as_bytes().to_vec();
        let i = choice(n.len());
        n[i] = byte();
        value(n);
    }
    [quick, "7 arguments and a value that is none: shown with the identifier in capitals, whatever the names are"]
    fn p37_value_name() {
        let (o, shown) = pick(&[
            ("--foo-bar=", "--foo-bar <FOO_BAR>"), ("--a-bc2=", "--a-bc2[=<A_BC2>]"), ("-i=", "-i <IN>"), ("--given=", "-n, --given <HTTP_SERVER>"), ("--lead1=", "--lead1 <LEAD1>"), ("", "[X_Y]"),
            ("", "[DO]..."),
        ]);
        let b = byte();
        assume(!b.is_ascii_digit() && (b != b'-' || !o.is_empty()));
        let w = cat(&[o.as_bytes(), &[b]]);
        let r = parse::<Shown>(if shown == "[DO]..." { vec![s("1"), w] } else { vec![w] });
        emit_end(&r);
        check!(r.is_err_and(|e| { reach!(); e.to_string().contains(&format!(" for '{shown}'")) }), "the value's name is the identifier in SCREAMING_SNAKE_CASE");
    }
    [quick, "fields named by 1..=4 of 'aB2_': the macro's long name"]
    fn p37_any_field() {
        let id = ident(len(1, 4));
        let v = expand(derive_lib::derive_args, put(&[b"struct D { #[arg(long)] ", &id, b": bool }"]));
        let mut want = b"--".to_vec();
        want.extend(renamed("", &id));
        reach!();
        check!(told(&v, &want), "the long name is the identifier in kebab-case");
    }
    [quick, "subcommands named by 1..=4 of 'aB2_': the macro's name"]
    fn p37_any_subcommand() {
        let id = ident(len(1, 4));
        let v = expand(derive_lib::derive_subcommand, put(&[b"enum D { ", &id, b" }"]));
        reach!();
        check!(told(&v, &renamed("", &id)), "the name is the identifier in kebab-case");
    }
    [quick, "values named by 1..=4 of 'aB2_', or by 3 in 8 ways of renaming: the macro's name"]
    fn p37_any_value() {
        let how = pick(&["", "camelCase", "kebab-case", "PascalCase", "SCREAMING_SNAKE_CASE", "snake_case", "lower", "UPPER", "verbatim"]);
        let id = ident(if how.is_empty() { len(1, 4) } else { 3 });
        let a = if how.is_empty() { String::new() } else { put(&[b"#[value(rename_all = \"", how.as_bytes(), b"\")] "]) };
        let v = expand(derive_lib::derive_value_enum, put(&[a.as_bytes(), b"enum D { ", &id, b" }"]));
        reach!();
        check!(told(&v, &renamed(how, &id)), "the value is the identifier as renamed");
    }
    [deep, "fields, subcommands and values named by 5..=6 of 'aB2_', also raw"]
    fn p37_any_deep() {
        let id = ident(len(5, 6));
        let raw: &[u8] = pick(&[b"", b"r#"]);
        let (d, a, z): (fn(TokenStream) -> TokenStream, &[u8], &[u8]) = pick(&[
            (derive_lib::derive_args as fn(TokenStream) -> TokenStream, &b"struct D { #[arg(long)] "[..], &b": bool }"[..]), (derive_lib::derive_subcommand, b"enum D { ", b" }"),
            (derive_lib::derive_value_enum, b"enum D { ", b" }"),
        ]);
        let v = expand(d, put(&[a, raw, &id, z]));
        let mut want = if a[0] == b's' { b"--".to_vec() } else { vec![] };
        want.extend(renamed("", &id));
        reach!(); // deep-only
        check!(told(&v, &want), "the name is the identifier in kebab-case");
    }
}
