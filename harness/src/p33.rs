//! Help shows every visible argument, subcommand and default.
use crate::common::*;
use crate::{check, mx, reach, scenarios};
use palc::{Args, Parser, Subcommand, ValueEnum};
use std::ffi::OsString;

/// The {app} of "all" kinds.
/// Still the first line.
///
/// Second paragraph: 100% {}.
#[derive(Parser)]
#[command(after_long_help = "See {also} the manual.")]
struct Cli {
    /// Talk more.
    #[arg(short, long, global = true)]
    verbose: bool,
    /// Where to {write}.
    ///
    /// '-' is stdout.
    #[arg(short, long, alias = "write", short_alias = 'w', default_value = "a {b}.out")]
    out: OsString,
    #[arg(long, default_value_t = 7, value_name = "N")]
    jobs: u8,
    #[arg(long, default_value_t = String::from("x") + "y")]
    expr: String,
    /// Which color.
    #[arg(long, value_enum, default_value_t)]
    color: Color,
    /// Secret.
    #[arg(long, short = 'S', hide = true, default_value = "sss")]
    secret: OsString,
    #[arg(short = 'n', require_equals = true)]
    /// Needed.
    need: OsString,
    #[command(flatten)]
    grp: Group,
    #[command(flatten)]
    fin: Empty,
    /// The input.
    input: OsString,
    /// The other one.
    other: Option<OsString>,
    /// Unseen.
    #[arg(hide = true)]
    unseen: Option<OsString>,
    #[command(subcommand)]
    cmd: Option<Cmd>,
}
#[derive(Args)]
struct Group {
    /// In a group.
    #[arg(long)]
    member: Option<OsString>,
    #[arg(long, hide = true)]
    hidden_member: bool,
    #[command(flatten)]
    inner: Inner,
}
#[derive(Args)]
struct Inner {
    /// Deep in a group.
    #[arg(short = 'd', value_delimiter = ',', required = true)]
    deep: Vec<OsString>,
    /// As a switch.
    #[arg(long, require_equals = true)]
    when: Option<Option<OsString>>,
}
#[derive(Args)]
struct Empty {}
#[derive(ValueEnum, Default, Clone)]
enum Color {
    Red,
    #[default]
    DeepBlue,
}
#[derive(Subcommand)]
enum Cmd {
    /// Build it.
    ///
    /// Not shown in the list.
    Build {
        /// Forced.
        #[arg(short, long)]
        force: bool,
        /// Names.
        names: Vec<OsString>,
        /// After it all.
        #[arg(last = true)]
        rest: Vec<OsString>,
    },
    Plain,
    /// Just this.
    #[command(after_long_help = "No more.")]
    VeryLongSubcommandNameIndeed,
    Nest(Nest),
}
/// A nest.
#[derive(Args)]
#[command(long_about = "A long nest.\nIndeed.")]
struct Nest {
    /// The key.
    #[arg(long, default_value_t = -12)]
    key: i32,
    #[arg(short = 'é')]
    accent: bool,
    /// What to do.
    #[command(subcommand)]
    cmd: Leaf,
}
#[derive(Subcommand)]
enum Leaf {
    /// A leaf.
    Leaf {
        #[arg(required = true)]
        words: Vec<OsString>,
        #[arg(long, value_name = "CHAR", default_value_t = 'c')]
        sep: char,
    },
    Tail {
        /// Everything.
        #[arg(trailing_var_arg = true)]
        words: Vec<OsString>,
    },
}

/// An entry: how it is written, its documentation and its default.
type Entry = (&'static str, &'static [&'static str]);
struct Want {
    path: &'static str,
    about: &'static str,
    usage: &'static [&'static str],
    commands: &'static [Entry],
    arguments: &'static [Entry],
    options: &'static [Entry],
    after: &'static str,
}
const NO: Want = Want { path: "", about: "", usage: &[], commands: &[], arguments: &[], options: &[], after: "" };
const WANT: [Want; 7] = [
    Want {
        path: "x",
        about: "The {app} of \"all\" kinds. Still the first line.\nSecond paragraph: 100% {}.",
        usage: &["-n=<NEED>", "-d <DEEP>", "[OPTIONS]", "<INPUT>", "[COMMAND]"],
        commands: &[("build", &["Build it."]), ("plain", &[]), ("very-long-subcommand-name-indeed", &["Just this."]), ("nest", &["A long nest."])],
        arguments: &[("<INPUT>", &["The input."]), ("[OTHER]", &["The other one."])],
        options: &[
            ("-v, --verbose", &["Talk more."]),
            ("-o, --out <OUT>", &["Where to {write}.", "'-' is stdout.", "[default: a {b}.out]"]),
            ("--jobs <N>", &["[default: 7]"]),
            ("--expr <EXPR>", &["[default: xy]"]),
            ("--color <COLOR>", &["Which color.", "[default: deep-blue]"]),
            ("-n=<NEED>", &["Needed."]),
            ("--member <MEMBER>", &["In a group."]),
            ("-d <DEEP>", &["Deep in a group."]),
            ("--when[=<WHEN>]", &["As a switch."]),
        ],
        after: "See {also} the manual.",
    },
    Want {
        path: "x build",
        about: "Build it.\nNot shown in the list.",
        usage: &["[OPTIONS]", "[NAMES]...", "[-- [REST]...]"],
        arguments: &[("[NAMES]...", &["Names."]), ("[REST]...", &["After it all."])],
        options: &[("-f, --force", &["Forced."])],
        ..NO
    },
    Want { path: "x plain", ..NO },
    Want { path: "x very-long-subcommand-name-indeed", about: "Just this.", after: "No more.", ..NO },
    Want {
        path: "x nest",
        about: "A long nest.\nIndeed.",
        usage: &["[OPTIONS]", "<COMMAND>"],
        commands: &[("leaf", &["A leaf."]), ("tail", &[])],
        options: &[("--key <KEY>", &["The key.", "[default: -12]"]), ("-é", &[])],
        ..NO
    },
    Want {
        path: "x nest leaf",
        about: "A leaf.",
        usage: &["[OPTIONS]", "<WORDS>..."],
        arguments: &[("<WORDS>...", &[])],
        options: &[("--sep <CHAR>", &["[default: c]"])],
        ..NO
    },
    Want { path: "x nest tail", usage: &["[WORDS]..."], arguments: &[("[WORDS]...", &["Everything."])], ..NO },
];

fn help<T>(r: Result<T, palc::Error>) -> String {
    match r {
        Ok(_) => String::new(),
        Err(e) => e.try_into_help().unwrap_or_default(),
    }
}
/// The entries of a section: a line that starts one, and the lines belonging to it.
fn section<'a>(t: &'a str, title: &str, block: bool) -> Vec<(&'a str, Vec<&'a str>)> {
    let mut v: Vec<(&str, Vec<&str>)> = vec![];
    let mut on = false;
    let mut fresh = true;
    for l in t.split('\n') {
        let l2 = l.trim_ascii();
        if !l.starts_with(' ') && l.ends_with(':') {
            on = l == title;
            fresh = true;
        } else if on {
            if l2.is_empty() {
                fresh = true;
            } else if fresh && !l.starts_with(' ') {
                // text after the sections
                on = false;
            } else if !block {
                // name and summary
                match l2.split_once("  ") {
                    Some((n, d)) => v.push((n, vec![d.trim_ascii()])),
                    None => v.push((l2, vec![])),
                }
            } else if fresh {
                v.push((l2, vec![]));
                fresh = false;
            } else if let Some(e) = v.last_mut() {
                e.1.push(l2);
            }
        }
    }
    v
}
fn listed(got: &[(&str, Vec<&str>)], want: &[Entry]) -> bool {
    got.len() == want.len() && want.iter().all(|w| got.iter().any(|g| g.0 == w.0 && g.1 == w.1))
}
#[inline(never)]
fn right(t: &str, w: &Want) -> bool {
    let usage = t.split('\n').find(|l| l.starts_with("Usage: ")).unwrap_or("");
    let mut rest = usage[usage.len().min(7)..].strip_prefix(w.path).unwrap_or("?");
    for u in w.usage {
        rest = rest.strip_prefix(' ').and_then(|r| r.strip_prefix(u)).unwrap_or("?");
    }
    t.starts_with(w.about)
        && rest.is_empty()
        && listed(&section(t, "Commands:", false), w.commands)
        && listed(&section(t, "Arguments:", true), w.arguments)
        && listed(&section(t, "Options:", true), w.options)
        && t.trim_ascii_end().ends_with(if w.after.is_empty() { w.options.last().map_or("", |e| e.1.last().unwrap_or(&e.0)) } else { w.after })
        && (w.after.is_empty() || t.matches(w.after).count() == 1)
        && !t.contains("secret") && !t.contains("Secret") && !t.contains("sss") && !t.contains("idden") && !t.contains("seen") && !t.contains("SEEN")
}
/// The way into each command, with words between from those that fit there; most hold an arbitrary byte.
fn way(k: usize) -> Vec<OsString> {
    const TOP: [&str; 12] = ["-v", "--out=?", "-w?", "--jobs=1", "--color=red", "-S?", "--secret=?", "-n=?", "--hidden-member", "-d?", "--when", "--when=?"];
    let path: &[&str] = [&[][..], &["build"], &["plain"], &["very-long-subcommand-name-indeed"], &["nest"], &["nest", "leaf"], &["nest", "tail"]][k];
    let mut l = vec![];
    if flip() {
        l.push(fill(pick(&TOP)));
    }
    for (d, p) in path.iter().enumerate() {
        if d == 1 && flip() {
            l.push(s(pick(&["--key=5", "-é"])));
        }
        l.push(s(p));
    }
    if flip() {
        let w: &[&str] = [&["i?", "--write=?"][..], &["-f", "n?"], &["-v"], &["-v"], &["--key=-1", "-é"], &["w?", "--sep=s"], &["-v"]][k];
        l.push(fill(pick(w)));
    }
    l
}
fn fill(t: &str) -> OsString {
    let mut v = t.as_bytes().to_vec();
    for b in v.iter_mut() {
        if *b == b'?' {
            *b = byte();
        }
    }
    os(v)
}

/// The help of a generated command.
fn matrix(a: mx::At) {
    let mut l = vec![];
    for (d, c) in a.cmds.iter().enumerate() {
        if d > 0 {
            l.push(s(c.name));
        }
        if !c.opts.is_empty() && flip() {
            let o = pick(c.opts);
            l.extend(if o.kind == crate::model::Kind::Maybe { vec![s(o.names[0])] } else { mx::usual(&o) });
        }
    }
    match choice(3) {
        0 => l.push(s("--help")),
        1 => l.push(cat(&[b"--help=", &bytes(1)])),
        _ => l.extend([s("-h"), tok(0, 1)]),
    }
    let t = match mx::message_on(a.def, l) {
        Some((Class::Other, t)) => t,
        _ => return check!(false, "the help"),
    };
    reach!();
    let c = a.last();
    let about = c.about.join("\n");
    check!(t.starts_with(&about[..]), "the help starts with what the command is about");
    // usage
    let usage = t.split('\n').find(|l| l.starts_with("Usage: ")).unwrap_or("");
    let path = ["Usage: x"].into_iter().chain(a.cmds[1..].iter().map(|c| c.name)).collect::<Vec<_>>().join(" ");
    let mut want = vec![];
    let seen = |s: &crate::model::Shown| !s.hide;
    for o in c.opts.iter().filter(|o| seen(&o.shown) && o.rules.required) {
        // with or without its letter
        let w = o.shown.as_;
        match w.split_once(", --") {
            Some((_, l)) if !w.starts_with("--") && !usage.contains(w) => want.push(["--", l].concat()),
            _ => want.push(w.to_string()),
        }
    }
    if c.opts.iter().any(|o| seen(&o.shown) && !o.rules.required) {
        want.push("[OPTIONS]".into());
    }
    for p in c.pos.iter().filter(|p| seen(&p.shown)) {
        let w = p.shown.as_;
        if p.last {
            want.push(if p.rules.required { format!("-- {w}") } else { format!("[-- {w}]") });
        } else if p.rules.required || p.list {
            want.push(w.to_string());
        }
    }
    if !c.subs.is_empty() {
        want.push(if c.sub_required { "<COMMAND>" } else { "[COMMAND]" }.into());
    }
    check!(usage.starts_with(&path[..]), "the usage starts with the path");
    let mut rest = usage[path.len().min(usage.len())..].to_string();
    let all = want.iter().all(|w| {
        let n = rest.len();
        rest = rest.replacen(&format!(" {w}")[..], "", 1);
        rest.len() < n
    });
    check!(all && rest.is_empty(), "the usage tells what can be given");
    // sections
    let subs = section(&t, "Commands:", false);
    check!(subs.len() == c.subs.len() && c.subs.iter().all(|w| subs.iter().any(|g| g.0 == w.name && g.1 == w.about[..w.about.len().min(1)])), "the subcommands are listed");
    let all = |got: &[(&str, Vec<&str>)], want: Vec<&crate::model::Shown>| got.len() == want.len() && want.iter().all(|w| got.iter().any(|g| g.0 == w.as_.trim_ascii() && g.1 == w.doc));
    check!(all(&section(&t, "Arguments:", true), c.pos.iter().map(|p| &p.shown).filter(|s| seen(s)).collect()), "the positionals are listed");
    check!(all(&section(&t, "Options:", true), c.opts.iter().map(|o| &o.shown).filter(|s| seen(s)).collect()), "the options are listed");
}

/// Nothing but required arguments, in a group; nested names that repeat; an empty default.
#[derive(Parser)]
struct Must {
    #[command(flatten)]
    grp: MustGroup,
    #[command(subcommand)]
    cmd: Option<MustCmd>,
}
#[derive(Args)]
struct MustGroup {
    /// Needed.
    #[arg(long)]
    num: OsString,
    #[arg(short, long, required = true)]
    items: Vec<OsString>,
    #[arg(long, hide = true, global = true)]
    hidden: bool,
}
#[derive(Subcommand)]
enum MustCmd {
    X {
        #[arg(long)]
        key: OsString,
        #[arg(short = 'e', default_value = "")]
        empty: OsString,
        #[command(subcommand)]
        cmd: Option<Again>,
    },
    Must(MustInner),
}
/// Inner.
#[derive(Args)]
struct MustInner {
    /// A.
    #[arg(long)]
    a: OsString,
    #[arg(hide = true)]
    unseen: Option<OsString>,
}
#[derive(Subcommand)]
enum Again {
    X,
    /// Twice.
    Xx {
        #[arg(hide = true, long)]
        hidden: bool,
        #[arg(default_value = " ")]
        b: OsString,
    },
}
const MUST: [Want; 5] = [
    Want {
        path: "x",
        usage: &["--num <NUM>", "--items <ITEMS>", "[COMMAND]"],
        commands: &[("x", &[]), ("must", &["Inner."])],
        options: &[("--num <NUM>", &["Needed."]), ("-i, --items <ITEMS>", &[])],
        ..NO
    },
    Want {
        path: "x x",
        usage: &["--key <KEY>", "[OPTIONS]", "[COMMAND]"],
        commands: &[("x", &[]), ("xx", &["Twice."])],
        options: &[("--key <KEY>", &[]), ("-e <EMPTY>", &["[default: ]"])],
        ..NO
    },
    Want { path: "x x x", ..NO },
    Want { path: "x x xx", about: "Twice.", arguments: &[("[B]", &["[default:  ]"])], ..NO },
    Want { path: "x must", about: "Inner.", usage: &["--a <A>"], options: &[("--a <A>", &["A."])], ..NO },
];

/// Own options named like the request for help.
#[derive(Parser)]
struct Own {
    /// Host.
    #[arg(short = 'h', long = "help-me")]
    x: bool,
    #[arg(short, long)]
    verbose: bool,
    pos: Option<OsString>,
    #[command(subcommand)]
    cmd: Option<OwnCmd>,
}
#[derive(Subcommand)]
enum OwnCmd {
    /// Shadows the request.
    In {
        /// Mine.
        #[arg(short, long)]
        help: bool,
        #[arg(long, global = true)]
        helper: Option<OsString>,
        #[command(subcommand)]
        cmd: Option<OwnLeaf>,
    },
    /// The other letter.
    Out {
        #[arg(long, require_equals = true)]
        help: Option<Option<OsString>>,
        #[arg(short = 'H', long = "hel", default_value = "-h")]
        hel: OsString,
    },
}
#[derive(Subcommand)]
enum OwnLeaf {
    /// Help.
    Help {
        /// Help.
        help: OsString,
    },
}
/// Commands and how their help can still be asked for.
const OWN: [(Want, &[&str]); 4] = [
    (
        Want {
            path: "x",
            usage: &["[OPTIONS]", "[COMMAND]"],
            commands: &[("in", &["Shadows the request."]), ("out", &["The other letter."])],
            arguments: &[("[POS]", &[])],
            options: &[("-h, --help-me", &["Host."]), ("-v, --verbose", &[])],
            ..NO
        },
        &["--help"],
    ),
    (
        Want {
            path: "x out",
            about: "The other letter.",
            usage: &["[OPTIONS]"],
            options: &[("--help[=<HELP>]", &[]), ("-H, --hel <HEL>", &["[default: -h]"])],
            ..NO
        },
        &["-h"],
    ),
    (
        Want {
            path: "x in help",
            about: "Help.",
            usage: &["<HELP>"],
            arguments: &[("<HELP>", &["Help."])],
            ..NO
        },
        &["-h", "--help"],
    ),
    (
        Want {
            path: "x in help",
            about: "Help.",
            usage: &["<HELP>"],
            arguments: &[("<HELP>", &["Help."])],
            ..NO
        },
        &["--help="],
    ),
];

scenarios! {
    [quick, "a command of 70 options, 30 positionals and 60 subcommands, with names and documentation of many lengths: all are shown with it"]
    fn p33_many() {
        use crate::many::help::*;
        let t = help(parse::<Tall>(if flip() { vec![s("--help")] } else { vec![tok(0, 1), s("-h")] }));
        let got = [section(&t, "Commands:", false), section(&t, "Arguments:", true), section(&t, "Options:", true)];
        reach!();
        for (g, w) in got.iter().zip([COMMANDS, ARGUMENTS, OPTIONS]) {
            check!(g.len() == w.len(), "as many are listed as there are");
            check!(g.iter().zip(w).all(|(g, w)| g.0 == w.0 && g.1 == w.1), "all are listed with what is said about them");
        }
    }
    [quick, "4 commands with options of their own named like the request ('-h', '--help', '--help-me'): what is left of it shows them like any other; after an option given before, with 0..=1 arbitrary bytes"]
    fn p33_own() {
        let (w, asks) = &OWN[choice(4)];
        let mut l: Vec<OsString> = vec![];
        match choice(3) {
            0 => l.push(s("-h")),
            1 => l.push(s("--help-me")),
            _ => {}
        }
        l.extend(w.path.split(' ').skip(1).map(|x| s(x)));
        if w.path.len() > 6 && flip() {
            l.insert(l.len() - 1, if flip() { s("--help") } else { cat(&[b"--helper=", &bytes(len(0, 1))]) });
        }
        l.push(s(pick(asks)));
        let t = help(parse::<Own>(l));
        reach!();
        check!(right(&t, w), "the help tells what the command has");
    }
    [quick, "5 commands with required arguments only, repeating names and empty defaults: usage, subcommands, arguments, options, documentation and defaults"]
    fn p33_must() {
        let w = &MUST[choice(5)];
        let mut l: Vec<OsString> = vec![];
        if flip() {
            l.push(cat(&[b"-i", &bytes(1)]));
        }
        l.extend(w.path.split(' ').skip(1).map(|x| s(x)));
        if flip() {
            l.push(s("--hidden"));
        }
        l.push(s("--help"));
        let t = help(parse::<Must>(l));
        reach!();
        check!(right(&t, w), "the help tells what the command has");
    }
    [quick, "7 commands: usage, subcommands, arguments, options, documentation and defaults, after up to 3 other words (of 12 forms at the top, 2 within), most with an arbitrary byte; '-h', '--help', '--help=' and 0..=1 arbitrary bytes"]
    fn p33_content() {
        let k = choice(7);
        let mut l = way(k);
        // given already
        assume(!(raw(l.first().unwrap_or(&s(""))) == b"-v" && l.iter().filter(|w| raw(w) == b"-v").count() > 1));
        assume(!(l.len() > 1 && (raw(&l[0]).starts_with(b"-w") || raw(&l[0]).starts_with(b"--out")) && raw(&l[1]).starts_with(b"--write")));
        assume(l.iter().filter(|w| raw(w) == "-é".as_bytes()).count() < 2 && l.iter().filter(|w| raw(w).starts_with(b"--key")).count() < 2);
        match choice(3) {
            0 => l.push(s("-h")),
            1 => l.push(s("--help")),
            _ => l.push(cat(&[b"--help=", &bytes(len(0, 1))])),
        }
        let t = help(parse::<Cli>(l));
        reach!();
        check!(right(&t, &WANT[k]), "the help tells what the command has");
    }
    [quick, "7 commands: the words after the request do not matter (2 of 0..=1 arbitrary bytes)"]
    fn p33_after() {
        let k = choice(7);
        let mut l = way(k);
        l.truncate(l.len().min(choice(2) * 4 + usize::from(k > 0) + usize::from(k > 4)));
        let path_ok = k == 0 || l.iter().any(|w| raw(w) == WANT[k].path.rsplit(' ').next().unwrap().as_bytes());
        assume(path_ok);
        let bare = parse::<Cli>({ let mut m = l.clone(); m.push(s("-h")); m });
        l.extend([s("-h"), tok(0, 1), tok(0, 1)]);
        let t = help(parse::<Cli>(l));
        reach!();
        check!(t == help(bare), "the same help");
    }
    [quick, "the request within a bundle after flags of the command, or followed by 1..=2 arbitrary bytes"]
    fn p33_bundle() {
        let (pre, w, k): (&[&str], &[u8], usize) = pick(&[(&[][..], &b"-vh"[..], 0), (&["build"], b"-fh", 1), (&["nest"], "-éh".as_bytes(), 4), (&["plain"], b"-vh", 2), (&["nest", "leaf"], b"-h", 5)]);
        let mut l: Vec<OsString> = pre.iter().map(|x| s(x)).collect();
        l.push(cat(&[w, &bytes(len(0, 2))]));
        let t = help(parse::<Cli>(l));
        reach!();
        check!(right(&t, &WANT[k]), "the help tells what the command has");
    }
    [quick, "the name of the program (2..=3 letters) heads the path of subcommands"]
    fn p33_name() {
        let n = bytes(len(2, 3));
        assume(n.iter().all(|b| b.is_ascii_lowercase()));
        let k = choice(7);
        let mut l = vec![if flip() { os(n.clone()) } else { cat(&[b"/bin/", &n]) }];
        l.extend(WANT[k].path.split(' ').skip(1).map(|x| s(x)));
        l.push(s("-h"));
        let t = help(Cli::try_parse_from(l));
        reach!();
        let usage = t.split('\n').find(|l| l.starts_with("Usage: ")).unwrap_or("");
        let name = String::from_utf8(n).unwrap();
        let want = ["Usage: ", &name, &WANT[k].path[1..]].concat();
        check!(usage.starts_with(&want[..]) && (usage.len() == want.len() || usage.as_bytes()[want.len()] == b' '), "the usage starts with the path");
    }
    [quick, "render_long_help of two commands with a name of 0..=3 arbitrary ASCII characters (2 letters for a path) is the help of a request"]
    fn p33_render() {
        let n = bytes(len(0, 3));
        assume(n.iter().all(|b| *b < 0x80));
        let n = String::from_utf8(n).unwrap();
        if flip() {
            let t = Cli::render_long_help(&n[..]);
            reach!();
            check!(t == help(Cli::try_parse_from([&n, "--help"])), "the same help");
            if n.len() == 2 && n.bytes().all(|b| b.is_ascii_lowercase()) {
                check!(t.contains(&["\nUsage: ", &n, " "].concat()) || t.starts_with(&["Usage: ", &n, " "].concat()), "headed by the name");
            }
        } else {
            let t = Must::render_long_help(n.clone());
            reach!();
            check!(t == help(Must::try_parse_from([n, "--help".to_string()])), "the same help");
        }
    }
    [quick, "127 definitions with all combinations of attributes, every command: about, usage, subcommands, positionals, options, documentation and defaults; after any option of each command entered or none; '--help', '--help=' and an arbitrary byte, or '-h' and a word of 0..=1"]
    fn p33_matrix() { matrix(mx::at(0..mx::TABLES.len())) }
}
