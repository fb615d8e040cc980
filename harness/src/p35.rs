//! Definitions are rejected exactly when they are invalid.
//!
//! The derive macros run here as functions over tokens, made of the source text of a definition.
use crate::common::*;
use crate::{check, reach, scenarios};
use proc_macro2::{TokenStream, TokenTree};

type Derive = fn(TokenStream) -> TokenStream;
const ARGS: Derive = derive_lib::derive_args;
const PARSER: Derive = derive_lib::derive_parser;
const SUB: Derive = derive_lib::derive_subcommand;
const ENUM: Derive = derive_lib::derive_value_enum;

fn expand(d: Derive, src: &str) -> TokenStream {
    note(src.as_bytes());
    note_end();
    d(src.parse().unwrap())
}
/// What the macro leaves begins with an error then.
fn rejects(t: TokenStream) -> bool {
    t.into_iter().any(|t| matches!(&t, TokenTree::Ident(i) if i == "compile_error"))
}
fn rejected(d: Derive, src: &str) -> bool {
    rejects(expand(d, src))
}
fn judge(d: Derive, src: &str, bad: bool) {
    let r = rejected(d, src);
    emit(u64::from(r));
    reach!();
    check!(r || !bad, "an invalid definition is rejected");
    check!(bad || !r, "a valid definition is accepted");
}
/// Text that may stand in a literal as it is, without quotes, backslashes and carriage returns: bytes below 0x80, and
/// perhaps a wider character at the end.
fn text(lo: usize, hi: usize) -> String {
    let mut t = ascii(lo, hi);
    t.push_str(pick(&["", "é", "\u{85}", "€", "😀"]));
    t
}
fn ascii(lo: usize, hi: usize) -> String {
    let b = bytes(len(lo, hi));
    for c in &b {
        assume((*c < 0x80) & (*c != b'"') & (*c != b'\'') & (*c != b'\\') & (*c != b'\r'));
    }
    unsafe { String::from_utf8_unchecked(b) }
}
fn control(b: u8) -> bool {
    b < 0x20 || b == 0x7f
}
fn bad_long(n: &str) -> bool {
    n.is_empty() || n.as_bytes()[0] == b'-' || n.bytes().any(|c| c == b'=' || control(c))
}
fn control_char(c: char) -> bool {
    (c as u32) < 0x80 && control(c as u8)
}
fn bad_short(c: char) -> bool {
    c == '-' || c == '=' || control_char(c)
}

#[derive(Clone, Copy, PartialEq)]
enum Ty { Bool, Value, Opt, OptOpt, Vec, OptVec }
const TYS: [(Ty, &str); 6] = [
    (Ty::Bool, "bool"), (Ty::Value, "u8"), (Ty::Opt, "Option<u8>"), (Ty::OptOpt, "Option<Option<u8>>"), (Ty::Vec, "Vec<u8>"), (Ty::OptVec, "Option<Vec<u8>>"),
];
impl Ty {
    fn many(self) -> bool {
        matches!(self, Ty::Vec | Ty::OptVec)
    }
    fn takes(self) -> bool {
        !matches!(self, Ty::Bool | Ty::OptOpt)
    }
}
#[derive(Clone, Copy, PartialEq, Eq)]
enum A {
    None, Long, Short, Alias, ShortAlias, ValueName, Equals, Global, Hyphen, Negative, Trailing, Last, Default, DefaultT, Delimiter, Enum, Case, Help,
    LongHelp, Hide, Required, Exclusive, Requires, Conflicts, Bad,
}
/// Attributes, each well-formed (but for the last two).
const ATTRS: [(A, &str); 35] = [
    (A::None, ""), (A::Long, "long"), (A::Long, "long = \"lo\""), (A::Short, "short"), (A::Short, "short = 's'"), (A::Alias, "alias = \"al\""),
    (A::Alias, "aliases = [\"am\", \"an\"]"), (A::ShortAlias, "short_alias = 'x'"), (A::ShortAlias, "short_aliases = ['y', 'z']"), (A::ValueName, "value_name = \"V\""),
    (A::Equals, "require_equals = true"), (A::Global, "global = true"), (A::Hyphen, "allow_hyphen_values = true"), (A::Negative, "allow_negative_numbers = true"),
    (A::Trailing, "trailing_var_arg = true"), (A::Last, "last = true"), (A::Default, "default_value = \"1\""), (A::DefaultT, "default_value_t"), (A::DefaultT, "default_value_t = 1"),
    (A::DefaultT, "default_values_t = vec![1]"), (A::Delimiter, "use_value_delimiter = true"), (A::Delimiter, "value_delimiter = ';'"), (A::Enum, "value_enum"), (A::Case, "ignore_case = true"),
    (A::Help, "help = \"h\""), (A::LongHelp, "long_help = \"h\""), (A::Hide, "hide = true"), (A::Required, "required = true"), (A::Exclusive, "exclusive = true"),
    (A::Requires, "requires = \"other\""), (A::Conflicts, "conflicts_with = \"other\""), (A::Conflicts, "conflicts_with_all = [\"other\", \"more\"]"), (A::Conflicts, "conflicts_with_all = []"),
    (A::Bad, "unknown = true"), (A::Bad, "required"),
];
/// Whether the attributes `k` of a field of this type must be rejected, or must be accepted.
fn verdict(ty: Ty, k: &[usize]) -> Option<bool> {
    let has = |a: A| k.iter().any(|i| ATTRS[*i].0 == a);
    let count = |a: A| k.iter().filter(|i| ATTRS[**i].0 == a).count();
    let named = has(A::Long) || has(A::Short);
    let bad = has(A::Bad)
        // Each once; names may be added, but not the same ones, and references may.
        || k.iter().any(|i| !matches!(ATTRS[*i].0, A::None | A::Alias | A::ShortAlias | A::Requires | A::Conflicts) && count(ATTRS[*i].0) > 1)
        || named && k.iter().any(|i| matches!(ATTRS[*i].0, A::Alias | A::ShortAlias) && k.iter().filter(|j| *j == i).count() > 1)
        || has(A::Default) && has(A::DefaultT)
        || has(A::Required) && (has(A::Default) || has(A::DefaultT))
        || has(A::Delimiter) && !ty.many()
        || has(A::Hyphen) && has(A::Negative)
        || (has(A::Hyphen) || has(A::Negative)) && (!ty.takes() || has(A::Equals))
        || ty == Ty::OptOpt && !has(A::Equals)
        || named && (has(A::Last) || has(A::Trailing))
        || !named && (has(A::Equals) || has(A::Global) || has(A::Case) || has(A::Hyphen) || has(A::Negative))
        || has(A::Last) && !ty.many();
    if bad {
        return Some(true);
    }
    // Not specified: names of what has none; a list that takes the rest without being a list; a positional without a value; defaults
    // of what has one anyway or of a positional; ignoring the case of nothing.
    let vague = !named && (has(A::Alias) || has(A::ShortAlias) || has(A::DefaultT) || ty == Ty::Bool)
        || has(A::Trailing) && !ty.many()
        || (has(A::Default) || has(A::DefaultT)) && ty != Ty::Value
        || has(A::Case) && !ty.takes()
        || has(A::Equals) && ty == Ty::Bool
        || (has(A::ValueName) || has(A::Enum)) && ty == Ty::Bool;
    if vague { None } else { Some(false) }
}
fn field(out: &mut String, k: &[usize], apart: bool, name: &str, ty: &str) {
    let mut open = false;
    for i in k {
        let a = ATTRS[*i].1;
        if a.is_empty() {
            continue;
        }
        out.push_str(match (open, apart) {
            (true, true) => ")] #[arg(",
            (true, false) => ", ",
            (false, _) => "#[arg(",
        });
        out.push_str(a);
        open = true;
    }
    if open {
        out.push_str(")] ");
    }
    out.push_str(name);
    out.push_str(": ");
    out.push_str(ty);
    out.push_str(", ");
}
const OTHERS: &str = "#[arg(long)] other: bool, #[arg(long)] more: Option<u8>, ";
fn attributes(base: usize, k: &[usize]) {
    let (ty, name) = pick(&TYS);
    let mut all = vec![base];
    all.extend_from_slice(k);
    let mut d = String::from("struct D { ");
    d.push_str(OTHERS);
    // What excludes others cannot stand next to a group.
    let group = all.iter().any(|i| ATTRS[*i].0 == A::Exclusive) && flip();
    if group {
        d.push_str("#[command(flatten)] group: T, ");
    }
    field(&mut d, &all, all.iter().sum::<usize>() % 2 == 1, "it", name);
    d.push('}');
    let r = rejected(ARGS, &d);
    emit(u64::from(r));
    match if group { Some(true) } else { verdict(ty, &all) } {
        Some(true) => { reach!(); check!(r, "attributes that contradict each other or the type are rejected") }
        Some(false) => { reach!(); check!(!r, "attributes that go together are accepted") }
        None => {}
    }
}
/// The words known in `arg(..)`.
const WORDS: [&str; 28] = [
    "long", "short", "alias", "aliases", "short_alias", "short_aliases", "value_name", "require_equals", "global", "allow_hyphen_values", "allow_negative_numbers",
    "trailing_var_arg", "last", "default_value", "default_value_t", "default_values_t", "use_value_delimiter", "value_delimiter", "value_enum", "ignore_case", "help",
    "long_help", "hide", "required", "exclusive", "requires", "conflicts_with", "conflicts_with_all",
];
/// A word of this many arbitrary letters and underscores.
fn word(n: usize, upper: bool) -> String {
    let b = bytes(n);
    for c in &b {
        assume((b'a'..=b'z').contains(c) | (*c == b'_') | (*c == b'-') | upper & (b'A'..=b'Z').contains(c));
    }
    unsafe { String::from_utf8_unchecked(b) }
}
fn put(parts: &[&str]) -> String {
    let mut s = String::new();
    for p in parts {
        s.push_str(p);
    }
    s
}
/// A character literal, and its character.
fn character() -> (String, char) {
    match choice(4) {
        0 => {
            let b = byte();
            // As the language has it: these are written as escapes.
            assume(b < 0x80 && b != b'\'' && b != b'\\' && b != b'\n' && b != b'\r' && b != b'\t');
            (put(&["'", std::str::from_utf8(&[b]).unwrap(), "'"]), b as char)
        }
        1 => {
            let c = pick(&['\n', '\r', '\t', '\0', '\'', '\\']);
            (put(&["'\\", if c == '\n' { "n" } else if c == '\r' { "r" } else if c == '\t' { "t" } else if c == '\0' { "0" } else if c == '\'' { "'" } else { "\\" }, "'"]), c)
        }
        2 => {
            let h = bytes(2);
            assume((b'0'..b'8').contains(&h[0]) && (h[1].is_ascii_digit() || (b'a'..=b'f').contains(&h[1])));
            let d = if h[1] <= b'9' { h[1] - b'0' } else { h[1] - b'a' + 10 };
            (put(&["'\\x", std::str::from_utf8(&h).unwrap(), "'"]), ((h[0] - b'0') * 16 + d) as char)
        }
        _ => {
            let c = pick(&['é', '\u{85}', '\u{301}', '€', '\u{feff}', '😀']);
            let mut w = [0; 4];
            (put(&["'", c.encode_utf8(&mut w), "'"]), c)
        }
    }
}
const GENERIC: [&str; 6] = ["", "<'a>", "<T>", "<const N: usize>", "<>", "<T: Copy, U>"];
/// One item of each shape, and whether it is a struct of named fields, an enum of units, an enum of subcommands.
const SHAPES: [(&str, &str, bool, bool, bool); 13] = [
    ("struct D", " { #[arg(long)] it: bool }", true, false, false), ("struct D", " {}", true, false, false), ("struct D", ";", false, false, false),
    ("struct D", "(u8);", false, false, false), ("struct D", "();", false, false, false), ("union D", " { it: u8 }", false, false, false),
    ("enum D", " { A, B }", false, true, true), ("enum D", " {}", false, true, true), ("enum D", " { A, B(T) }", false, false, true),
    ("enum D", " { A, B() }", false, false, false), ("enum D", " { A(T, T), B }", false, false, false), ("enum D", " { A { it: u8 }, B {} }", false, false, true),
    ("enum D", " { A, B { #[arg(long = \"\")] it: bool }, C }", false, false, false),
];
/// Fields that are positional, named, flattened or a subcommand.
const FIELDS: [&str; 15] = [
    "$: u8", "$: Option<u8>", "$: Vec<u8>", "$: Option<Vec<u8>>", "#[arg(last = true)] $: Vec<u8>", "#[arg(trailing_var_arg = true)] $: Vec<u8>", "#[arg(long)] $: Vec<u8>",
    "#[command(flatten)] $: T", "#[command(subcommand)] $: T", "#[command(subcommand)] $: Option<T>", "#[arg(long, exclusive = true)] $: bool", "#[arg(last = true)] $: Option<Vec<u8>>",
    "#[arg(exclusive = true)] $: Option<u8>", "#[arg(exclusive = true, hide = true)] $: Vec<u8>", "#[arg(exclusive = true, last = true, required = true)] $: Vec<u8>",
];
fn bad_order(k: &[usize]) -> bool {
    let (mut many, mut last, mut sub, mut flat, mut excl) = (0, 0, 0, false, false);
    let mut after = false;
    for i in k {
        match *i {
            0 | 1 | 12 => after |= many > 0,
            2 | 3 | 5 | 13 => many += 1,
            4 | 11 | 14 => last += 1,
            7 => flat = true,
            8 | 9 => sub += 1,
            _ => {}
        }
        excl |= matches!(*i, 10 | 12..);
    }
    after || many > 1 || last > 1 || sub > 1 || flat && excl
}
fn fields(k: &[usize]) -> String {
    let mut d = String::from("struct D { ");
    for (i, f) in k.iter().enumerate() {
        let (a, b) = FIELDS[*f].split_once('$').unwrap();
        d.push_str(a);
        d.push_str(["f", "g", "h", "i"][i]);
        d.push_str(b);
        d.push_str(", ");
    }
    d.push('}');
    d
}
fn count(t: TokenStream, name: &str) -> usize {
    t.into_iter().map(|x| match &x {
        TokenTree::Ident(i) => usize::from(i == name),
        TokenTree::Group(g) => count(g.stream(), name),
        _ => 0,
    }).sum()
}
/// The bool in `const NO_UPPER_CASE: bool = ..`, if it is one.
fn no_upper(t: TokenStream) -> Option<bool> {
    let (mut seen, mut eq, mut r) = (false, false, None);
    for x in t {
        match &x {
            TokenTree::Ident(i) if i == "NO_UPPER_CASE" => seen = true,
            TokenTree::Punct(p) if seen && p.as_char() == '=' => eq = true,
            TokenTree::Punct(p) if p.as_char() == ';' => seen = false,
            TokenTree::Ident(i) if seen && eq && r.is_none() => r = if i == "true" { Some(true) } else if i == "false" { Some(false) } else { None },
            TokenTree::Group(g) => r = r.or_else(|| no_upper(g.stream())),
            _ => {}
        }
    }
    r
}
/// As documented: words split at underscores and at the start of capitals.
fn kebab(ident: &str) -> String {
    let mut out = String::new();
    let b = ident.as_bytes();
    for i in 0..b.len() {
        let c = b[i];
        if c == b'_' {
            continue;
        }
        let first = i == 0 || b[i - 1] == b'_';
        let hump = !first && c.is_ascii_uppercase() && (!b[i - 1].is_ascii_uppercase() || i + 1 < b.len() && b[i + 1].is_ascii_lowercase());
        if (first || hump) && !out.is_empty() {
            out.push('-');
        }
        out.push(c.to_ascii_lowercase() as char);
    }
    out
}
/// An identifier of a, b, c, A, B, C and then underscores as well.
fn ident(n: usize) -> String {
    let b = bytes(n);
    for (i, c) in b.iter().enumerate() {
        assume((b'a'..=b'c').contains(c) | (b'A'..=b'C').contains(c) | (i > 0) & (*c == b'_'));
    }
    unsafe { String::from_utf8_unchecked(b) }
}
scenarios! {
    [quick, "a field of 6 types with every two of 34 attributes, in one or two groups, positional or named"]
    fn p35_attributes() {
        let base = choice(2);
        let i = choice(ATTRS.len());
        let j = i + choice(ATTRS.len() - i);
        attributes(base, &[i, j]);
    }
    [deep, "a field of 6 types with every three of 34 attributes, positional or named"]
    fn p35_attributes_deep() {
        let base = choice(2);
        let i = choice(ATTRS.len());
        let j = i + choice(ATTRS.len() - i);
        let k = j + choice(ATTRS.len() - j);
        attributes(base, &[i, j, k]);
    }
    [quick, "'long' or 'alias', alone or in a list, of 0..=2 bytes below 0x80, and none or one of 4 wider characters"]
    fn p35_long_name() {
        let n = text(0, 2);
        let (a, b) = pick(&[("long = \"", "\""), ("long, alias = \"", "\""), ("short, aliases = [\"q\", \"", "\"]"), ("aliases = [\"", "\"], long = \"q\"")]);
        // The other name must not be the same.
        assume(n != "q" && n != "it");
        judge(ARGS, &put(&["struct D { #[arg(", a, &n, b, ")] it: bool }"]), bad_long(&n));
    }
    [deep, "'long' or 'alias', alone or in a list, of 4..=6 bytes below 0x80, 'é' within"]
    fn p35_long_name_deep() {
        let (n, m) = (ascii(2, 3), ascii(2, 3));
        let n = put(&[&n, pick(&["", "é"]), &m]);
        judge(ARGS, &put(&["struct D { #[arg(long = \"", &n, "\")] it: bool }"]), bad_long(&n));
    }
    [quick, "'long' of a character written as an escape among others"]
    fn p35_long_escape() {
        let (lit, c) = character();
        let inner = &lit[1..lit.len() - 1];
        assume(c != '"');
        judge(ARGS, &put(&["struct D { #[arg(long = \"a", inner, "\")] it: bool }"]), c == '=' || control_char(c));
    }
    [quick, "'short' or 'short_alias', alone or in a list, of any character below 0x80 or of 6 others, written as it is or as an escape"]
    fn p35_short_name() {
        let (lit, c) = character();
        let (a, b) = pick(&[("short = ", ""), ("short, short_alias = ", ""), ("long, short_aliases = ['q', ", "]")]);
        assume(c != 'q' && c != 'i');
        judge(ARGS, &put(&["struct D { #[arg(", a, &lit, b, ")] it: bool }"]), bad_short(c));
    }
    [quick, "'value_name' of 0..=2 bytes below 0x80, and none or one of 4 wider characters, of 3 kinds of fields"]
    fn p35_value_name() {
        let n = text(0, 2);
        let (a, b) = pick(&[("long, ", "Option<u8>"), ("", "u8"), ("short, long, ", "Vec<u8>")]);
        judge(ARGS, &put(&["struct D { #[arg(", a, "value_name = \"", &n, "\")] it: ", b, " }"]), n.bytes().any(control));
    }
    [quick, "three fields with 4 long names and 2 aliases of 1 byte, or of 'a' or 'Z' and 1 byte, and short ones of 1: rejected exactly if two are the same"]
    fn p35_duplicates() {
        let n = len(1, 2);
        let w = || {
            let c = byte();
            assume(c.is_ascii_alphanumeric() | (c == b'_'));
            unsafe { String::from_utf8_unchecked(if n == 2 { vec![pick(&[b'a', b'Z']), c] } else { vec![c] }) }
        };
        let (x, y, z) = (w(), w(), w());
        let (d, bad) = match choice(4) {
            0 => (put(&["struct D { #[arg(long = \"", &x, "\", alias = \"", &y, "\")] f: bool, #[arg(long = \"", &z, "\")] g: u8 }"]), x == y || y == z || x == z),
            1 => (put(&["struct D { #[arg(short, long = \"", &x, "\")] f: bool, p: u8, #[arg(aliases = [\"", &y, "\", \"", &z, "\"], short)] g: u8 }"]), x == y || y == z || x == z),
            // Given by the name of a field.
            2 => (put(&["struct D { #[arg(long = \"", &x, "\")] f: bool, #[arg(long)] ab: u8, #[arg(long, alias = \"", &y, "\")] c: u8 }"]), x == y || x == "ab" || x == "c" || y == "ab" || y == "c"),
            _ => {
                assume(n == 1);
                // A short name is not a long one.
                (put(&["struct D { #[arg(short = '", &x, "', long = \"", &y, "\")] f: bool, #[arg(short_aliases = ['", &z, "'], short = 'k')] g: u8, #[arg(short)] m: u8 }"]),
                 x == z || x == "k" || z == "k" || x == "m" || z == "m")
            }
        };
        judge(if flip() { ARGS } else { PARSER }, &d, bad);
    }
    [quick, "two variants' fields with 2 names of 2 bytes each: they count per variant"]
    fn p35_duplicates_variant() {
        let w = || {
            let b = bytes(2);
            for c in &b {
                assume(c.is_ascii_lowercase());
            }
            unsafe { String::from_utf8_unchecked(b) }
        };
        let (x, y, z) = (w(), w(), w());
        let d = put(&["enum D { A { #[arg(long = \"", &x, "\")] f: bool, #[arg(alias = \"", &y, "\", short)] g: bool }, B { #[arg(long = \"", &x, "\")] f: bool, #[arg(alias = \"", &z, "\", short)] g: bool } }"]);
        judge(SUB, &d, x == y || x == z);
    }
    [quick, "one attribute named by a word of 4..=9 (or the length of another known one) arbitrary letters and underscores, 3 forms of value"]
    fn p35_unknown() {
        let n = pick(&[4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 16, 18, 19, 22]);
        let w = word(n, false);
        // Identifiers only.
        assume(!w.contains('-'));
        let known = WORDS.contains(&&*w);
        let r = rejected(ARGS, &put(&["struct D { #[arg(", &w, pick(&["", " = true", " = \"x\""]), ")] it: Vec<u8> }"]));
        reach!();
        check!(known || r, "an unknown attribute is rejected");
    }
    [quick, "28 attributes with 8 values of other kinds: rejected exactly if that is none of theirs"]
    fn p35_literals() {
        let (w, good): (&str, &[usize]) = pick(&[
            ("long", &[0, 1][..]), ("short", &[0, 2]), ("long, alias", &[1, 6, 7]), ("long, aliases", &[1, 6, 7]), ("long, short_alias", &[2, 7]), ("long, value_name", &[1]),
            ("long, require_equals", &[3]), ("long, global", &[3]), ("long, allow_hyphen_values", &[3]), ("long, allow_negative_numbers", &[3]), ("trailing_var_arg", &[3]), ("last", &[3]),
            ("long, use_value_delimiter", &[3]), ("long, value_delimiter", &[2]), ("value_enum", &[0]), ("long, ignore_case", &[3]), ("help", &[1]), ("long_help", &[1]), ("hide", &[3]),
            ("required", &[3]), ("exclusive", &[3]), ("long, requires", &[1]), ("long, conflicts_with", &[1]), ("long, conflicts_with_all", &[1, 6, 7]),
        ]);
        let k = choice(9);
        let v = ["", " = \"other\"", " = 'x'", " = true", " = false", " = 7", " = [\"other\"]", " = []", "(\"other\")"][k];
        // The same name twice is another matter.
        let o = if w.contains("alias") || w == "long" { "more" } else { "other" };
        judge(ARGS, &put(&["struct D { #[arg(", w, v, ")] it: Vec<u8>, #[arg(long = \"m\")] ", o, ": bool, }"]), !good.contains(&k));
    }
    [quick, "every three fields of 15 kinds in every order: what may follow what, and what only one may be"]
    fn p35_order() {
        let k = [choice(15), choice(15), choice(15)];
        judge([ARGS, PARSER][k.iter().sum::<usize>() % 2], &fields(&k), bad_order(&k));
    }
    [deep, "every four fields of 15 kinds in every order"]
    fn p35_order_deep() {
        let k = [choice(15), choice(15), choice(15), choice(15)];
        judge(ARGS, &fields(&k), bad_order(&k));
    }
    [quick, "'requires', 'conflicts_with' or one in 'conflicts_with_all', a name of 1..=3 letters, digits or underscores, at every place among 8 other fields: rejected exactly if no argument has it"]
    fn p35_references() {
        let b = bytes(len(1, 3));
        for c in &b {
            assume(c.is_ascii_alphanumeric() | (*c == b'_'));
        }
        let n = unsafe { String::from_utf8_unchecked(b) };
        // Itself, too; what that means is open.
        assume(n != "it");
        let (a, z) = pick(&[("requires = \"", "\""), ("conflicts_with = \"", "\""), ("conflicts_with_all = [\"ab\", \"", "\"]"), ("requires = \"ab\", conflicts_with_all = [\"", "\", \"pos\"]")]);
        const OTHERS: [&str; 8] = [
            "#[arg(short = 'u', default_value = \"1\", exclusive = true)] ab: u8,", "#[arg(long, hide = true)] fla: bool,", "one: u8,", "#[arg(required = true)] opt: Option<u8>,", "#[arg(trailing_var_arg = true)] pos: Vec<u8>,",
            "#[arg(last = true)] la: Vec<u8>,", "#[command(subcommand)] sub: Option<T>,", "#[arg(long, require_equals = true)] oo: Option<Option<u8>>,",
        ];
        let at = choice(OTHERS.len() + 1);
        let mut d = String::from(if at % 2 == 0 { "struct D { " } else { "enum D { A, B { " });
        let e = d.starts_with('e');
        for (i, o) in OTHERS.iter().enumerate() {
            if i == at { d.push_str(&put(&["#[arg(long, ", a, &n, z, ")] it: bool,"])) }
            d.push_str(o);
        }
        if at == OTHERS.len() { d.push_str(&put(&["#[arg(", a, &n, z, ", long)] it: Vec<u8>"])) }
        d.push_str(if e { "}, C }" } else { "}" });
        judge(if e { SUB } else { ARGS }, &d, !["ab", "fla", "one", "opt", "pos", "la", "oo"].contains(&&n[..]));
    }
    [quick, "the fields that are flattened or a subcommand, named as required or conflicting: rejected"]
    fn p35_references_other() {
        let n = pick(&["fl", "sub", "it2", "D", "self"]);
        let a = pick(&["requires = \"", "conflicts_with = \"", "conflicts_with_all = \""]);
        judge(ARGS, &put(&["struct D { #[arg(long, ", a, n, "\")] it: bool, #[command(flatten)] fl: T, #[command(subcommand)] sub: T }"]), true);
    }
    [quick, "all kinds of names on one argument, next to other attributes: 6 long, 6 short names, 6 lists of aliases and 6 of short ones, in 2 orders, and each name bad or not: rejected exactly if one is"]
    fn p35_all_names() {
        let names: [[(&str, bool); 6]; 4] = [
            [("", false), ("long", false), ("long = \"lo\"", false), ("long = \"\"", true), ("long = \"-l\"", true), ("long = \"l=\"", true)],
            [("", false), ("short", false), ("short = 's'", false), ("short = '-'", true), ("short = '='", true), ("short = '\\x7f'", true)],
            [("", false), ("alias = \"al\"", false), ("aliases = [\"al\", \"am\"]", false), ("aliases = [\"al\", \"\"]", true), ("alias = [\"-al\", \"am\"]", true), ("alias = \"al\", aliases = [\"am\", \"a\\0\"]", true)],
            [("", false), ("short_alias = 'x'", false), ("short_aliases = ['x', 'y']", false), ("short_aliases = ['x', '-']", true), ("short_alias = ['=', 'y']", true), ("short_alias = 'x', short_aliases = ['y', '\\n']", true)],
        ];
        let k = [choice(6), choice(6), choice(6), choice(6)];
        assume(k[0] + k[1] > 0);
        let order = pick(&[[0, 1, 2, 3], [3, 0, 2, 1]]);
        let mut d = String::from("struct D { #[arg(long, short = 'o')] other: bool, #[arg(");
        for i in order {
            if k[i] > 0 {
                d.push_str(names[i][k[i]].0);
                d.push_str(", ");
            }
        }
        d.push_str(["hide = true)] it: bool }", "global = true)] it: Vec<u8>, pos: u8 }"][k.iter().sum::<usize>() % 2]);
        judge(ARGS, &d, (0..4).any(|i| names[i][k[i]].1));
    }
    [quick, "two flattened groups or two value sets with ignore_case, in every order among 3 other fields: the macro asserts the same of both"]
    fn p35_both() {
        // What rustc evaluates later names the type: as often for the one as for the other.
        let (x, y) = if flip() { ("#[command(flatten)] f: TypeX,", "#[command(flatten)] g: TypeY,") } else { ("#[arg(long, ignore_case = true)] f: Option<TypeX>,", "#[arg(short, ignore_case = true)] g: Option<TypeY>,") };
        let mut all = vec!["#[arg(long)] p: u8,", "q: Vec<u8>,", "#[arg(last = true)] r: Vec<u8>,"];
        let i = choice(4);
        all.insert(i, x);
        let j = choice(5);
        all.insert(j, y);
        let t = expand(ARGS, &put(&["struct D {", &all.join(" "), "}"]));
        reach!();
        check!(!rejects(t.clone()), "a valid definition is accepted");
        check!(count(t.clone(), "TypeX") == count(t, "TypeY"), "both are asserted to fit");
    }
    [quick, "the word in 'command(..)' of a field, 1..=10 arbitrary letters and underscores, alone or next to 'arg(..)' or another 'command(..)'"]
    fn p35_field_command() {
        let w = word(len(6, 10), false);
        assume(!w.contains('-'));
        let k = choice(4);
        let d = put(&["struct D { ", ["", "#[arg(long)] ", "#[command(flatten)] ", "/// Words.\n #[doc = \"x\"] "][k], "#[command(", &w, ")] it: T }"]);
        judge(ARGS, &d, k == 1 || k == 2 || !(w == "flatten" || w == "subcommand"));
    }
    [quick, "13 shapes of items with 6 lists of generics, and with or without a where clause, in 4 macros"]
    fn p35_shapes() {
        let (a, z, named, units, subs) = pick(&SHAPES);
        let g = pick(&GENERIC);
        let generic = g != "" && g != "<>";
        let (d, ok, any) = match choice(4) {
            0 => (ARGS, named, false),
            1 => (PARSER, named, false),
            2 => (SUB, subs, false),
            _ => (ENUM, units, true),
        };
        judge(d, &put(&[a, g, z]), !ok || generic && !any);
    }
    [quick, "a where clause, empty or not, in 4 macros"]
    fn p35_where() {
        let (d, a, z, any) = pick(&[(ARGS, "struct D ", "{ it: u8 }", false), (PARSER, "struct D ", "{ it: u8 }", false), (SUB, "enum D ", "{ A }", false), (ENUM, "enum D ", "{ A }", true)]);
        let (w, empty) = pick(&[("where ", true), ("where u8: Copy ", false), ("where u8: Copy, ", false)]);
        judge(d, &put(&[a, w, z]), !empty && !any);
    }
    [quick, "254 and 255 fields"]
    fn p35_size() {
        let n = 254 + choice(2);
        let mut d = String::from("struct D {");
        for i in 0..n {
            d.push_str(" #[arg(long)] f");
            d.push((b'a' + (i / 26) as u8) as char);
            d.push((b'a' + (i % 26) as u8) as char);
            d.push_str(": bool,");
        }
        d.push('}');
        judge(ARGS, &d, n > 254);
    }
    [quick, "two names of variants of 2 of 'abcABC_', of 2 kinds, a third between: rejected exactly if they give the same subcommand"]
    fn p35_subcommand_names() {
        let (x, y) = (ident(2), ident(2));
        assume(x != y);
        // Not names of nothing.
        let (kx, ky) = (kebab(&x), kebab(&y));
        let (f, g) = pick(&[("", ""), ("(T)", " { it: u8 }")]);
        judge(SUB, &put(&["enum D { ", &x, f, ", Middle, ", &y, g, " }"]), kx == ky);
    }
    [quick, "three variants of a subcommand enum, of 8 kinds each"]
    fn p35_variants() {
        let k = [choice(8), choice(8), choice(8)];
        let mut d = String::from("enum D { ");
        let mut bad = false;
        for (i, k) in k.iter().enumerate() {
            let (a, z, b) = [
                ("", "", false), ("", "(T)", false), ("", " { it: u8 }", false), ("", "()", true), ("", "(T, T)", true), ("/// Words.\n", "(T)", true), ("#[command(after_long_help = \"x\")] ", "", false),
                ("/// Words.\n", " { #[arg(long = \"=\")] it: u8 }", true),
            ][*k];
            d.push_str(a);
            d.push_str(["A", "B", "C"][i]);
            d.push_str(z);
            d.push_str(", ");
            bad |= b;
        }
        d.push('}');
        judge(SUB, &d, bad);
    }
    [quick, "names of 3 values, of 0..=2 bytes below 0x80 each, and none or one of 4 wider characters: rejected exactly if one has a control character or two are the same; and whether one has capitals"]
    fn p35_value_names() {
        let n = len(0, 2);
        let (x, y) = (ascii(n, n), if n == 1 { text(1, 1) } else { ascii(n, n) });
        let v = pick(&["m", "M"]);
        let bad = x.bytes().chain(y.bytes()).any(control) || x == y || x == v || y == v;
        let t = expand(ENUM, &put(&["enum D { #[value(name = \"", &x, "\")] A, #[value(name = \"", v, "\")] B, #[value(name = \"", &y, "\")] C }"]));
        let no = no_upper(t.clone());
        let r = rejects(t);
        emit(u64::from(r));
        reach!();
        check!(r || !bad, "an invalid set of values is rejected");
        check!(bad || !r, "a valid set of values is accepted");
        if let (Some(no), false) = (no, r) {
            reach!();
            check!(no == !(v == "M" || x.bytes().chain(y.bytes()).any(|c| c.is_ascii_uppercase())), "capitals are seen");
        }
    }
    [quick, "'rename_all' of 1, 5, 8, 9, 10 or 20 arbitrary letters, hyphens and underscores: rejected exactly if it is none of the 8"]
    fn p35_rename_all() {
        let w = word(pick(&[1, 5, 8, 9, 10, 20]), true);
        let ok = ["camelCase", "kebab-case", "PascalCase", "SCREAMING_SNAKE_CASE", "snake_case", "lower", "UPPER", "verbatim"].contains(&&*w);
        judge(ENUM, &put(&["#[value(rename_all = \"", &w, "\")] enum D { FooBar, Baz }"]), !ok);
    }
    [quick, "two values named by 2 of 'abcABC_', kebab-case: rejected exactly if they come to the same"]
    fn p35_value_idents() {
        let (x, y) = (ident(2), ident(2));
        assume(x != y);
        judge(ENUM, &put(&["enum D { ", &x, ", ", &y, " }"]), kebab(&x) == kebab(&y));
    }
    [deep, "two values or subcommands named by 3 of 'abcABC_', kebab-case: rejected exactly if they come to the same"]
    fn p35_idents_deep() {
        let (x, y) = (ident(3), ident(3));
        assume(x != y);
        judge(pick(&[ENUM, SUB]), &put(&["enum D { ", &x, ", ", &y, " }"]), kebab(&x) == kebab(&y));
    }
    [quick, "'value(..)' of an enum or a variant, a word of 4..=10 arbitrary letters and underscores; and the known ones twice"]
    fn p35_value_words() {
        if flip() {
            let w = word(pick(&[4, 5, 10]), false);
            assume(!w.contains('-'));
            if flip() {
                judge(ENUM, &put(&["#[value(", &w, " = \"lower\")] enum D { A, B }"]), w != "rename_all");
            } else {
                judge(ENUM, &put(&["enum D { A, #[value(", &w, " = \"x\")] B }"]), w != "name");
            }
        } else {
            let (d, bad) = pick(&[
                ("#[value(rename_all = \"lower\", rename_all = \"UPPER\")] enum D { A }", true), ("#[value(rename_all = \"lower\")] #[value(rename_all = \"lower\")] enum D { A }", true),
                ("enum D { #[value(name = \"x\", name = \"y\")] A }", true), ("enum D { #[value(name = \"x\")] #[value(name = \"x\")] A }", true), ("enum D { #[value(name = 'x')] A }", true),
                ("enum D { #[value(name)] A }", true), ("#[value(rename_all)] enum D { A }", true), ("enum D { #[value()] A }", false), ("enum D { A(u8) }", true), ("enum D { A {} }", true),
                ("enum D { A, B() }", true), ("#[derive(Clone)] #[value(rename_all = \"lower\")] enum D { #[doc = \"x\"] A, B = 3 }", false),
            ]);
            judge(ENUM, d, bad);
        }
    }
    [quick, "'command(..)' of a struct or a variant: every two of 16 attributes, in one or two groups"]
    fn p35_command() {
        const C: [(&str, usize); 16] = [
            ("", 0), ("name = \"x\"", 1), ("version", 2), ("version = \"1\"", 2), ("long_about", 3), ("long_about = \"x\"", 3), ("long_about = TEXT", 3), ("after_long_help = \"x\"", 4),
            ("after_long_help", 9), ("author", 9), ("author = \"x\"", 9), ("about = \"x\"", 9), ("after_help = \"x\"", 9), ("term_width = 80", 9), ("flatten", 9), ("name", 9),
        ];
        let (i, j) = (choice(16), choice(16));
        let sep = if i > 0 && j > 0 { pick(&[", ", ")] #[command("]) } else { "" };
        let bad = C[i].1 == 9 || C[j].1 == 9 || i > 0 && C[i].1 == C[j].1;
        let (d, a, z) = pick(&[(PARSER, "", " struct D { it: u8 }"), (ARGS, "", " struct D { it: u8 }"), (SUB, "enum D { ", " A, B }"), (SUB, "enum D { Z, ", " A { it: u8 }, B }")]);
        judge(d, &put(&[a, "#[command(", C[i].0, sep, C[j].0, ")]", z]), bad);
    }
    [quick, "what stands before or after an item: every three of 6 to 13 attributes (two on a struct or variant), some invalid there, in one group or several, on a struct, a variant, a set of values, a value and a field with 'command(..)': rejected exactly if one is invalid or two contradict each other"]
    fn p35_together() {
        // text, kind of what may come once only (9: invalid, 8: harmless)
        const ITEM: [(&str, usize); 10] = [
            ("command(name = \"x\")", 1), ("command(long_about = \"x\")", 2), ("command(after_long_help = \"x\")", 3), ("doc = \"x\"", 8), ("derive(Clone)", 8), ("arg(long)", 9), ("arg(exclusive = true)", 9), ("arg()", 9),
            ("command(about = \"x\")", 9), ("command(version = \"1\")", 4),
        ];
        const SET: [(&str, usize); 6] = [("value(rename_all = \"lower\")", 1), ("doc = \"x\"", 8), ("derive(Clone)", 8), ("value(skip)", 9), ("value(name = \"x\")", 9), ("value()", 8)];
        const VALUE: [(&str, usize); 6] = [("value(name = \"x\")", 1), ("doc = \"x\"", 8), ("value(skip)", 9), ("value(rename_all = \"lower\")", 9), ("value(help = \"x\")", 9), ("value()", 8)];
        // no 'arg(..)' next to 'command(..)'
        const FIELD: [(&str, usize); 13] = [
            ("command(flatten)", 1), ("command(subcommand)", 1), ("doc = \"x\"", 8), ("cfg(all())", 8), ("arg(hide = true)", 9), ("arg(long)", 9), ("arg(global = true)", 9), ("arg(required = true)", 9),
            ("arg(last = true)", 9), ("arg(short = 'x')", 9), ("arg(value_name = \"X\")", 9), ("arg(default_value = \"1\")", 9), ("command(about = \"x\")", 9),
        ];
        let (d, of, a, z): (Derive, &[(&str, usize)], &str, &str) = pick(&[
            (PARSER, &ITEM[..], "", " struct D { it: u8 }"), (ARGS, &ITEM[..], "", " struct D { it: u8 }"), (SUB, &ITEM[..], "enum D { Z, ", " A { it: u8 }, B }"), (ENUM, &SET[..], "", " enum D { A, B }"),
            (ENUM, &VALUE[..], "enum D { ", " A, B }"), (ARGS, &FIELD[..], "struct D { q: u8, ", " it: T }"),
        ]);
        let n = if of.len() == 6 { 3 } else { 2 };
        let v: Vec<(&str, usize)> = (0..n).map(|_| of[choice(of.len())]).collect();
        let bad = v.iter().any(|x| x.1 == 9) || (0..n).any(|i| v[i].1 < 8 && v[..i].iter().any(|x| x.1 == v[i].1));
        // A field with neither is not what this is about.
        assume(of.len() != 13 || v.iter().any(|x| x.1 == 1));
        let one = flip();
        let mut text = String::new();
        let mut open = "";
        for (w, _) in &v {
            let head = w.split('(').next().unwrap_or("");
            let inner = w.strip_prefix(head).and_then(|w| w.strip_prefix('(')).and_then(|w| w.strip_suffix(')'));
            if one && open == head && inner.is_some_and(|i| !i.is_empty()) && !text.ends_with("()]") {
                text.truncate(text.len() - 2);
                text.push_str(", ");
                text.push_str(inner.unwrap_or(""));
                text.push_str(")]");
            } else {
                text.push_str("#[");
                text.push_str(w);
                text.push_str("]");
            }
            open = head;
        }
        judge(d, &put(&[a, &text, z]), bad);
    }
    [quick, "'arg(..)' on a struct or a variant of a subcommand is rejected"]
    fn p35_misplaced() {
        let (d, s, bad) = pick(&[
            (ARGS, "#[arg(long)] struct D { it: u8 }", true), (PARSER, "#[arg()] struct D { it: u8 }", true), (SUB, "enum D { #[arg(long)] A }", true), (SUB, "enum D { A, #[arg(long)] B { it: u8 } }", true),
            (ARGS, "#[derive(Clone)] #[doc = \"x\"] struct D { #[cfg(all())] it: u8 }", false), (ARGS, "#[doc = concat!(\"x\")] struct D { it: u8 }", true), (ARGS, "struct D { #[doc = concat!(\"x\")] it: u8 }", true),
        ]);
        judge(d, s, bad);
    }
}
