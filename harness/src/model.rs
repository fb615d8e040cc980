//! The documented grammar, written down a second time: an interpreter of tables, independent of palc's code,
//! and three definitions with tables to compare on.
use crate::check;
use crate::common::*;
use palc::{Args, Parser, Subcommand};
use std::ffi::OsString;

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Flag,
    One,
    List,
    Maybe,
}
#[derive(Clone, Copy)]
pub struct Opt {
    pub names: &'static [&'static str],
    pub kind: Kind,
    pub eq: bool,
    pub hyphen: bool,
    pub negative: bool,
    pub global: bool,
    pub rules: Rules,
    pub shown: Shown,
}
#[derive(Clone, Copy)]
pub struct Pos {
    pub list: bool,
    pub trailing: bool,
    pub last: bool,
    pub rules: Rules,
    pub shown: Shown,
}
/// How messages and the help write it (in generated definitions).
#[derive(Clone, Copy)]
pub struct Shown {
    pub as_: &'static str,
    pub doc: &'static [&'static str],
    pub hide: bool,
}
pub const SHOWN: Shown = Shown { as_: "", doc: &[], hide: false };
/// Fields are numbered within their command: options, then positionals.
#[derive(Clone, Copy)]
pub struct Rules {
    pub required: bool,
    pub default: Option<&'static str>,
    pub delimiter: Option<u8>,
    pub conflicts: &'static [usize],
    pub requires: &'static [usize],
    pub exclusive: bool,
    /// The names a value enum accepts (any value if empty).
    pub names: &'static [&'static str],
    pub ignore_case: bool,
    pub ty: Ty,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Ty {
    Any,
    /// Must be valid UTF-8.
    Text,
    /// Must be an `i16`.
    Num,
}
impl Rules {
    /// Is every value without a delimiter accepted?
    pub fn free(&self) -> bool {
        self.names.is_empty() && self.ty == Ty::Any
    }
}
#[derive(Clone, Copy)]
pub struct Cmd {
    pub name: &'static str,
    pub opts: &'static [Opt],
    pub pos: &'static [Pos],
    pub subs: &'static [Cmd],
    pub sub_required: bool,
    pub about: &'static [&'static str],
}
pub const R: Rules = Rules { required: false, default: None, delimiter: None, conflicts: &[], requires: &[], exclusive: false, names: &[], ignore_case: false, ty: Ty::Any };
pub const fn opt(names: &'static [&'static str], kind: Kind) -> Opt {
    Opt { names, kind, eq: false, hyphen: false, negative: false, global: false, rules: R, shown: SHOWN }
}
pub const fn pos(list: bool) -> Pos {
    Pos { list, trailing: false, last: false, rules: R, shown: SHOWN }
}

/// What a field holds: absent, or its values (none for a flag or an option without its optional value).
pub type Field = Option<Vec<Vec<u8>>>;
struct Level {
    cmd: &'static Cmd,
    got: Vec<Field>,
    next: usize,
}
pub enum Outcome {
    /// The fields of each command entered, outermost first.
    Good(Vec<Vec<Field>>),
    /// A word is wrong.
    Bad(Class),
    /// All words are fine, but something is missing or goes together badly: any of these may be told.
    Broken(Vec<Class>),
}

fn find(levels: &[Level], name: &[u8]) -> Option<(usize, usize)> {
    for (d, l) in levels.iter().enumerate().rev() {
        for (i, o) in l.cmd.opts.iter().enumerate() {
            if (d + 1 == levels.len() || o.global) && o.names.iter().any(|n| n.as_bytes() == name) {
                return Some((d, i));
            }
        }
    }
    None
}
fn give(levels: &mut [Level], (d, i): (usize, usize), value: Option<&[u8]>) -> Result<(), Class> {
    let o = &levels[d].cmd.opts[i];
    let f = &mut levels[d].got[i];
    if o.kind == Kind::Flag && value.is_some() {
        return Err(Class::UnexpectedValue);
    }
    if f.is_some() && o.kind != Kind::List {
        return Err(Class::Duplicate);
    }
    put(f, &o.rules, value)
}
fn put(f: &mut Field, r: &Rules, value: Option<&[u8]>) -> Result<(), Class> {
    let f = f.get_or_insert_with(Vec::new);
    if let Some(v) = value {
        let v = if r.ignore_case { v.to_ascii_lowercase() } else { v.to_vec() };
        let at = f.len();
        match r.delimiter {
            Some(d) => f.extend(v.split(|b| *b == d).map(|p| p.to_vec())),
            None => f.push(v),
        }
        if !r.names.is_empty() && !f[at..].iter().all(|p| r.names.iter().any(|n| n.as_bytes() == p)) {
            return Err(Class::InvalidValue);
        }
        for p in &mut f[at..] {
            match r.ty {
                Ty::Any => {}
                Ty::Text => {
                    std::str::from_utf8(p).map_err(|_| Class::InvalidValue)?;
                }
                Ty::Num => *p = std::str::from_utf8(p).ok().and_then(|t| t.parse::<i16>().ok()).ok_or(Class::InvalidValue)?.raw_bytes(),
            }
        }
    }
    Ok(())
}
/// The next word, if this option may take it.
fn following<'a>(o: &Opt, words: &'a [Vec<u8>], i: &mut usize) -> Result<&'a [u8], Class> {
    if o.eq {
        return Err(Class::MissingEq);
    }
    let Some(w) = words.get(*i) else { return Err(Class::MissingValue) };
    let looks = w.len() > 1 && w[0] == b'-';
    if !looks || o.hyphen || (o.negative && w[1..].iter().all(|b| (b'0'..=b'9').contains(b))) {
        *i += 1;
        Ok(w)
    } else {
        Err(Class::MissingValue)
    }
}
/// Length of the UTF-8 character at the front.
fn char_len(w: &[u8]) -> Option<usize> {
    (1..=w.len().min(4)).find(|n| std::str::from_utf8(&w[..*n]).is_ok())
}
fn read(levels: &mut Vec<Level>, words: &[Vec<u8>], help: bool) -> Result<(), Class> {
    let mut i = 0;
    while i < words.len() {
        let w = &words[i][..];
        i += 1;
        if w == b"--" {
            let l = levels.last_mut().unwrap();
            if l.cmd.pos.last().is_some_and(|p| p.last) {
                l.next = l.cmd.pos.len() - 1;
            }
            for w in &words[i..] {
                positional(l, w, true)?;
            }
            return Ok(());
        } else if w.starts_with(b"--") {
            let (name, value) = match w.iter().position(|b| *b == b'=') {
                Some(k) => (&w[..k], Some(&w[k + 1..])),
                None => (w, None),
            };
            let Some(at) = find(levels, name) else {
                return Err(if help && name == b"--help" { Class::Other } else { Class::Unexpected });
            };
            let o = &levels[at.0].cmd.opts[at.1];
            let value = match (o.kind, value) {
                (_, Some(v)) => Some(v),
                (Kind::Flag | Kind::Maybe, None) => None,
                (Kind::One | Kind::List, None) => Some(following(o, words, &mut i)?),
            };
            give(levels, at, value)?;
        } else if w.len() > 1 && w[0] == b'-' {
            let mut k = 1;
            while k < w.len() {
                let Some(n) = char_len(&w[k..]) else { return Err(Class::Unexpected) };
                let mut name = vec![b'-'];
                name.extend_from_slice(&w[k..k + n]);
                let Some(at) = find(levels, &name) else {
                    return Err(if help && name == b"-h" { Class::Other } else { Class::Unexpected });
                };
                k += n;
                let o = &levels[at.0].cmd.opts[at.1];
                let tail = &w[k..];
                if tail.first() == Some(&b'=') {
                    give(levels, at, Some(&tail[1..]))?;
                    break;
                }
                match o.kind {
                    Kind::Flag => give(levels, at, None)?,
                    Kind::Maybe if tail.is_empty() => give(levels, at, None)?,
                    Kind::Maybe => return Err(Class::MissingEq),
                    Kind::One | Kind::List => {
                        let v = if tail.is_empty() {
                            following(o, words, &mut i)?
                        } else if o.eq {
                            return Err(Class::MissingEq);
                        } else {
                            tail
                        };
                        give(levels, at, Some(v))?;
                        break;
                    }
                }
            }
        } else {
            let l = levels.last_mut().unwrap();
            if let Some(sub) = l.cmd.subs.iter().find(|s| s.name.as_bytes() == w) {
                levels.push(Level { cmd: sub, got: vec![None; sub.opts.len() + sub.pos.len()], next: 0 });
                continue;
            }
            if positional(l, w, false)? {
                for w in &words[i..] {
                    positional(l, w, true)?;
                }
                return Ok(());
            }
        }
    }
    Ok(())
}
/// -> whether the rest of the line goes here, too
fn positional(l: &mut Level, w: &[u8], after: bool) -> Result<bool, Class> {
    let k = l.next;
    match l.cmd.pos.get(k) {
        Some(p) if after || !p.last => {
            if !p.list {
                l.next += 1;
            }
            put(&mut l.got[l.cmd.opts.len() + k], &p.rules, Some(w))?;
            Ok(p.trailing)
        }
        _ if !l.cmd.subs.is_empty() => Err(Class::UnknownSub),
        _ => Err(Class::Unexpected),
    }
}
pub fn interpret(cmd: &'static Cmd, words: &[Vec<u8>], help: bool) -> Outcome {
    interpret_all(cmd, words, help).0
}
/// A violated constraint, the number of commands entered before and the field it is told about.
pub type Breach = (Class, usize, usize);
pub fn interpret_all(cmd: &'static Cmd, words: &[Vec<u8>], help: bool) -> (Outcome, Vec<Breach>) {
    let mut levels = vec![Level { cmd, got: vec![None; cmd.opts.len() + cmd.pos.len()], next: 0 }];
    if let Err(c) = read(&mut levels, words, help) {
        return (Outcome::Bad(c), vec![]);
    }
    let mut broken = vec![];
    let depth = levels.len();
    for (d, l) in levels.iter_mut().enumerate() {
        let sub = d + 1 < depth;
        let rules: Vec<Rules> = l.cmd.opts.iter().map(|o| o.rules).chain(l.cmd.pos.iter().map(|p| p.rules)).collect();
        let given: Vec<bool> = l.got.iter().map(|f| f.is_some()).collect();
        let total = given.iter().filter(|g| **g).count() + usize::from(sub);
        for (i, r) in rules.iter().enumerate() {
            if given[i] {
                if r.exclusive && total > 1 {
                    broken.push((Class::Exclusive, d, i));
                }
                for k in r.requires {
                    if !given[*k] {
                        broken.push((Class::Requires, d, *k));
                    }
                }
                for k in r.conflicts {
                    if given[*k] {
                        broken.push((Class::Conflict, d, i));
                        broken.push((Class::Conflict, d, *k));
                    }
                }
            } else if r.required {
                broken.push((Class::Required, d, i));
            } else if let Some(v) = r.default {
                if l.cmd.opts.get(i).is_some_and(|o| o.kind == Kind::Flag) {
                    l.got[i] = Some(vec![]);
                } else {
                    let _ = put(&mut l.got[i], r, Some(v.as_bytes()));
                }
            }
        }
        if l.cmd.sub_required && !sub {
            broken.push((Class::RequiredSub, d, 0));
        }
    }
    let end = if broken.is_empty() { Outcome::Good(levels.into_iter().map(|l| l.got).collect()) } else { Outcome::Broken(broken.iter().map(|b| b.0).collect()) };
    (end, broken)
}

/// A definition that can be told as a table and its value as fields.
pub trait Told: Parser {
    const TABLE: &'static Cmd;
    fn told(&self) -> Vec<Vec<Field>>;
}
/// The comparison.
#[inline(never)]
pub fn agree<T: Told>(l: Vec<OsString>, help: bool) -> u64 {
    let words: Vec<Vec<u8>> = l.iter().map(|w| raw(w).to_vec()).collect();
    let r = parse::<T>(l);
    emit_end(&r);
    let m = interpret(T::TABLE, &words, help);
    match (&r, &m) {
        (Ok(v), Outcome::Good(f)) => {
            check!(v.told() == *f, "the value is the one of the documented reading");
            1
        }
        (Err(e), Outcome::Bad(c)) => {
            check!(class(e) == *c, "the error is the one of the documented reading");
            2
        }
        (Err(e), Outcome::Broken(cs)) => {
            let c = class(e);
            check!(cs.contains(&c), "a constraint is told that is violated");
            3
        }
        (Ok(_), _) => {
            check!(false, "accepted, but not by the documented reading");
            0
        }
        (Err(_), _) => {
            check!(false, "rejected, but not by the documented reading");
            0
        }
    }
}
#[inline(never)]
pub fn run<T: Told>(l: Vec<OsString>) -> (Option<Class>, Option<Vec<Vec<Field>>>) {
    let r = parse::<T>(l);
    emit_end(&r);
    match r {
        Ok(v) => (None, Some(v.told())),
        Err(e) => (Some(class(&e)), None),
    }
}
/// The whole message of the error, and the help if it is one.
#[inline(never)]
pub fn message<T: Told>(l: Vec<OsString>) -> Option<(Class, String)> {
    let r = parse::<T>(l);
    emit_end(&r);
    r.err().map(|e| (class(&e), e.to_string()))
}
pub const HELP: bool = cfg!(feature = "help");
/// A value and the text it was made of, or the bytes of a number.
pub trait Val {
    fn raw_bytes(&self) -> Vec<u8>;
}
impl Val for String {
    fn raw_bytes(&self) -> Vec<u8> {
        self.as_bytes().to_vec()
    }
}
impl Val for i16 {
    fn raw_bytes(&self) -> Vec<u8> {
        self.to_be_bytes().to_vec()
    }
}
impl Val for OsString {
    fn raw_bytes(&self) -> Vec<u8> {
        raw(self).to_vec()
    }
}
pub fn flag(b: bool) -> Field {
    if b { Some(vec![]) } else { None }
}
pub fn one<T: Val>(x: &Option<T>) -> Field {
    x.as_ref().map(|v| vec![v.raw_bytes()])
}
pub fn just<T: Val>(x: &T) -> Field {
    Some(vec![x.raw_bytes()])
}
pub fn list<T: Val>(x: &[T]) -> Field {
    if x.is_empty() { None } else { Some(x.iter().map(|v| v.raw_bytes()).collect()) }
}
pub fn olist<T: Val>(x: &Option<Vec<T>>) -> Field {
    x.as_ref().map(|x| x.iter().map(|v| v.raw_bytes()).collect())
}
pub fn maybe<T: Val>(x: &Option<Option<T>>) -> Field {
    x.as_ref().map(|x| x.iter().map(|v| v.raw_bytes()).collect())
}

// ---- options of all kinds, two positionals and a list ----
#[derive(Parser)]
pub struct Flat {
    #[arg(short, long, conflicts_with = "quest")]
    flag: bool,
    #[arg(short, long, alias = "option", short_alias = 'O')]
    opt: Option<OsString>,
    #[command(flatten)]
    group: Group,
    #[arg(short, long, value_delimiter = ',', requires = "opt")]
    list: Option<Vec<OsString>>,
    #[arg(short, long, require_equals = true)]
    quest: Option<Option<OsString>>,
    #[arg(short = 'é', long, require_equals = true)]
    eq: Option<OsString>,
    one: Option<OsString>,
    many: Vec<OsString>,
}
#[derive(Args)]
struct Group {
    #[arg(short, long, allow_hyphen_values = true)]
    any: Vec<OsString>,
    #[arg(short, long, allow_negative_numbers = true, default_value = "-5")]
    num: OsString,
    #[arg(short = 'b', long)]
    bit: bool,
}
impl Told for Flat {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { conflicts: &[6], ..R }, ..opt(&["-f", "--flag"], Kind::Flag) },
            opt(&["-o", "--opt", "--option", "-O"], Kind::One),
            Opt { hyphen: true, ..opt(&["-a", "--any"], Kind::List) },
            Opt { negative: true, rules: Rules { default: Some("-5"), ..R }, ..opt(&["-n", "--num"], Kind::One) },
            opt(&["-b", "--bit"], Kind::Flag),
            Opt { rules: Rules { delimiter: Some(b','), requires: &[1], ..R }, ..opt(&["-l", "--list"], Kind::List) },
            opt(&["-q", "--quest"], Kind::Maybe),
            Opt { eq: true, ..opt(&["-é", "--eq"], Kind::One) },
        ],
        pos: &[pos(false), pos(true)],
        subs: &[],
        sub_required: false, about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        vec![vec![
            flag(self.flag), one(&self.opt), list(&self.group.any), just(&self.group.num), flag(self.group.bit), olist(&self.list), maybe(&self.quest), one(&self.eq),
            one(&self.one), list(&self.many),
        ]]
    }
}
pub const FLAT: [&str; 26] = [
    "-f", "--flag", "-o", "--opt", "--opt=?", "--option", "-O?", "-a", "--any=?", "-n", "--num", "-n-?", "-b", "-b?", "-fbo", "-fn=?", "-l", "-l=?,?", "--list", "-q", "-q=?", "--quest=",
    "-é", "-é=?", "--", "-?",
];

// ---- subcommands, globals, trailing and last lists ----
#[derive(Parser)]
pub struct Tree {
    #[arg(short, long, global = true)]
    glob: Option<OsString>,
    #[arg(short, long, global = true)]
    verbose: bool,
    #[arg(short, long)]
    only: Option<OsString>,
    pos: Option<OsString>,
    #[command(subcommand)]
    cmd: TreeCmd,
}
#[derive(Subcommand)]
enum TreeCmd {
    Add {
        #[arg(short, long)]
        force: bool,
        #[arg(short, long, global = true)]
        only: Vec<OsString>,
        name: OsString,
        #[arg(last = true)]
        tail: Vec<OsString>,
    },
    Run {
        #[arg(short, long)]
        env: Option<OsString>,
        #[arg(trailing_var_arg = true)]
        words: Vec<OsString>,
    },
    Deep(Deep),
    Unit,
}
#[derive(Args)]
struct Deep {
    #[arg(short = 'v', long, require_equals = true)]
    vol: Option<Option<OsString>>,
    #[arg(short, long, global = true, conflicts_with = "vol")]
    key: Option<OsString>,
    #[command(subcommand)]
    cmd: Option<Leaf>,
}
#[derive(Subcommand)]
enum Leaf {
    Add {
        #[arg(short, long, default_value = "zz")]
        zed: OsString,
        #[arg(required = true)]
        words: Vec<OsString>,
    },
    Unit,
}
impl Told for Tree {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, ..opt(&["-g", "--glob"], Kind::One) },
            Opt { global: true, ..opt(&["-v", "--verbose"], Kind::Flag) },
            opt(&["-o", "--only"], Kind::One),
        ],
        pos: &[pos(false)],
        subs: &[
            Cmd {
                name: "add",
                opts: &[opt(&["-f", "--force"], Kind::Flag), Opt { global: true, ..opt(&["-o", "--only"], Kind::List) }],
                pos: &[Pos { rules: Rules { required: true, ..R }, ..pos(false) }, Pos { last: true, ..pos(true) }],
                subs: &[],
                sub_required: false, about: &[],
            },
            Cmd { name: "run", opts: &[opt(&["-e", "--env"], Kind::One)], pos: &[Pos { trailing: true, ..pos(true) }], subs: &[], sub_required: false, about: &[] },
            Cmd {
                name: "deep",
                opts: &[opt(&["-v", "--vol"], Kind::Maybe), Opt { global: true, rules: Rules { conflicts: &[0], ..R }, ..opt(&["-k", "--key"], Kind::One) }],
                pos: &[],
                subs: &[
                    Cmd {
                        name: "add",
                        opts: &[Opt { rules: Rules { default: Some("zz"), ..R }, ..opt(&["-z", "--zed"], Kind::One) }],
                        pos: &[Pos { rules: Rules { required: true, ..R }, ..pos(true) }],
                        subs: &[],
                        sub_required: false, about: &[],
                    },
                    Cmd { name: "unit", opts: &[], pos: &[], subs: &[], sub_required: false, about: &[] },
                ],
                sub_required: false, about: &[],
            },
            Cmd { name: "unit", opts: &[], pos: &[], subs: &[], sub_required: false, about: &[] },
        ],
        sub_required: true, about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![one(&self.glob), flag(self.verbose), one(&self.only), one(&self.pos)]];
        match &self.cmd {
            TreeCmd::Add { force, only, name, tail } => v.push(vec![flag(*force), list(only), just(name), list(tail)]),
            TreeCmd::Run { env, words } => v.push(vec![one(env), list(words)]),
            TreeCmd::Deep(d) => {
                v.push(vec![maybe(&d.vol), one(&d.key)]);
                match &d.cmd {
                    Some(Leaf::Add { zed, words }) => v.push(vec![just(zed), list(words)]),
                    Some(Leaf::Unit) => v.push(vec![]),
                    None => {}
                }
            }
            TreeCmd::Unit => v.push(vec![]),
        }
        v
    }
}
pub const TREE: [&str; 24] = [
    "add", "run", "deep", "unit", "-g", "--glob=?", "-vg?", "-v", "--verbose", "-v=?", "-o", "--only=?", "-f", "-e", "--env=?", "--vol", "-k", "--key=?", "-z", "--zed=?", "--", "w?", "-?", "-",
];

// ---- constraints of all kinds ----
#[derive(Parser)]
pub struct Rule {
    #[arg(short, long)]
    req: OsString,
    #[arg(short, long, default_value = "dd", conflicts_with = "flag")]
    dflt: OsString,
    #[arg(short, long, requires = "list", requires = "one")]
    flag: bool,
    #[arg(short, long, conflicts_with = "maybe", conflicts_with = "two")]
    list: Vec<OsString>,
    #[arg(short, long, require_equals = true, requires = "req")]
    maybe: Option<Option<OsString>>,
    #[arg(short = 'x', long, exclusive = true)]
    excl: bool,
    #[arg(required = true)]
    one: Option<OsString>,
    #[arg(conflicts_with = "dflt")]
    two: Option<OsString>,
    #[arg(last = true, requires = "maybe")]
    end: Option<Vec<OsString>>,
    #[command(subcommand)]
    cmd: Option<RuleCmd>,
}
#[derive(Subcommand)]
enum RuleCmd {
    Go {
        #[arg(short, long, exclusive = true)]
        solo: Option<OsString>,
        #[arg(short, long)]
        other: bool,
        w: Option<OsString>,
    },
}
impl Told for Rule {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { required: true, ..R }, ..opt(&["-r", "--req"], Kind::One) },
            Opt { rules: Rules { default: Some("dd"), conflicts: &[2], ..R }, ..opt(&["-d", "--dflt"], Kind::One) },
            Opt { rules: Rules { requires: &[3, 6], ..R }, ..opt(&["-f", "--flag"], Kind::Flag) },
            Opt { rules: Rules { conflicts: &[4, 7], ..R }, ..opt(&["-l", "--list"], Kind::List) },
            Opt { rules: Rules { requires: &[0], ..R }, ..opt(&["-m", "--maybe"], Kind::Maybe) },
            Opt { rules: Rules { exclusive: true, ..R }, ..opt(&["-x", "--excl"], Kind::Flag) },
        ],
        pos: &[
            Pos { rules: Rules { required: true, ..R }, ..pos(false) },
            Pos { rules: Rules { conflicts: &[1], ..R }, ..pos(false) },
            Pos { last: true, rules: Rules { requires: &[4], ..R }, ..pos(true) },
        ],
        subs: &[Cmd {
            name: "go",
            opts: &[Opt { rules: Rules { exclusive: true, ..R }, ..opt(&["-s", "--solo"], Kind::One) }, opt(&["-o", "--other"], Kind::Flag)],
            pos: &[pos(false)],
            subs: &[],
            sub_required: false, about: &[],
        }],
        sub_required: false, about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![
            just(&self.req), just(&self.dflt), flag(self.flag), list(&self.list), maybe(&self.maybe), flag(self.excl), one(&self.one), one(&self.two), olist(&self.end),
        ]];
        if let Some(RuleCmd::Go { solo, other, w }) = &self.cmd {
            v.push(vec![one(solo), flag(*other), one(w)]);
        }
        v
    }
}
pub const RULE: [&str; 20] = [
    "-r=", "-r", "--req=?", "-d", "--dflt=d?", "-f", "--flag", "-l", "-l=?", "--list", "-m", "-m=", "--maybe=?", "-x", "?", "--", "go", "-s", "-o", "-f?",
];
// ---- the names of help taken by the user, at some levels ----
#[derive(Parser)]
pub struct Own {
    #[arg(short, global = true)]
    h: bool,
    #[arg(short, long)]
    v: bool,
    a: Option<OsString>,
    #[command(subcommand)]
    cmd: Option<OwnCmd>,
}
#[derive(Subcommand)]
enum OwnCmd {
    Unit,
    Go {
        #[arg(long, global = true)]
        help: Option<OsString>,
        #[command(subcommand)]
        cmd: Option<OwnLeaf>,
    },
    With {
        #[arg(short = 'h')]
        host: Option<OsString>,
        w: Vec<OsString>,
    },
}
#[derive(Subcommand)]
enum OwnLeaf {
    Unit,
    Deep { w: Option<OsString> },
}
const UNIT: Cmd = Cmd { name: "unit", opts: &[], pos: &[], subs: &[], sub_required: false, about: &[] };
impl Told for Own {
    const TABLE: &'static Cmd = &Cmd {
        opts: &[Opt { global: true, ..opt(&["-h"], Kind::Flag) }, opt(&["-v", "--v"], Kind::Flag)],
        pos: &[pos(false)],
        subs: &[
            UNIT,
            Cmd { name: "go", opts: &[Opt { global: true, ..opt(&["--help"], Kind::One) }], subs: &[UNIT, Cmd { name: "deep", pos: &[pos(false)], ..UNIT }], ..UNIT },
            Cmd { name: "with", opts: &[opt(&["-h"], Kind::One)], pos: &[pos(true)], ..UNIT },
        ],
        name: "",
        ..UNIT
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![flag(self.h), flag(self.v), one(&self.a)]];
        match &self.cmd {
            Some(OwnCmd::Unit) => v.push(vec![]),
            Some(OwnCmd::Go { help, cmd }) => {
                v.push(vec![one(help)]);
                match cmd {
                    Some(OwnLeaf::Unit) => v.push(vec![]),
                    Some(OwnLeaf::Deep { w }) => v.push(vec![one(w)]),
                    None => {}
                }
            }
            Some(OwnCmd::With { host, w }) => v.push(vec![one(host), list(w)]),
            None => {}
        }
        v
    }
}
pub const OWN: [&str; 16] = ["unit", "go", "with", "deep", "-h", "-vh", "-h?", "-hh", "-?h", "--help", "--help=?", "--", "-x", "w?", "-v", "--v"];
/// Each '?' is an arbitrary byte.
pub fn word(t: &str) -> OsString {
    let n = t.bytes().filter(|b| *b == b'?').count();
    let v = bytes(n);
    let mut k = 0;
    let mut w = t.as_bytes().to_vec();
    for b in w.iter_mut() {
        if *b == b'?' {
            *b = v[k];
            k += 1;
        }
    }
    os(w)
}
pub fn words(v: &[&str], n: usize) -> Vec<OsString> {
    (0..n).map(|_| word(pick(v))).collect()
}
/// A line of `n` words of the vocabulary, with one arbitrary word (or none) anywhere.
pub fn line(vocabulary: &[&str], n: usize, lo: usize, hi: usize) -> Vec<OsString> {
    let mut l = words(vocabulary, n);
    let at = choice(n + 1);
    l.insert(at, tok(lo, hi));
    l
}
