#!/usr/bin/env python3
"""Writes harness/src/tied.rs: constraints among as many arguments as a definition can have."""
import os
N = 180
P = 3
perm = [(i * 73 + 41) % N for i in range(N)]
free = [i for i in range(N) if i % 4 == 3]
name = lambda i: "t%03d" % perm[i]
out = ["// Written by tools/gen_tied.py.", "//! Constraints among as many arguments as a definition can have.", "use crate::common::*;", "use palc::{Parser, Subcommand};", "use std::ffi::OsString;", ""]
out.append("#[derive(Parser, PartialEq)]\npub struct Tied {")
rows = []                    # word, kind, partner
for i in range(N):
    kind = [1, 2, 1, 0][i % 4]
    flag = i % 3 == 0
    n = name(i)
    part = ""
    attr = 'long = "%s"' % n
    if i == 150:
        attr += ", required = true"
        out.append("    #[arg(%s)]\n    pub t%d: Vec<OsString>," % (attr, i))
        rows.append(("--%s=v" % n, 4, N, "--%s <T%d>" % (n, i)))
        continue
    if kind:
        k = free[(i * 37 + 11) % len(free)]
        if i % 12 < 2 or i % 12 == 6 and i % 5 == 0:
            k = N + i % P
        field = "t%d" % k if k < N else "q%d" % (k - N)
        attr += ', %s = "%s"' % ("requires" if kind == 1 else "conflicts_with", field)
        part = k
    else:
        part = N
    out.append("    #[arg(%s)]\n    pub t%d: %s," % (attr, i, "bool" if flag else "Option<OsString>"))
    rows.append(("--%s" % n if flag else "--%s=v" % n, kind, part, "--%s" % n + ("" if flag else " <T%d>" % i)))
out.append("    pub q0: Option<OsString>,\n    pub q1: Option<OsString>,\n    #[arg(last = true)]\n    pub q2: Vec<OsString>,\n}")
out.append("/// (word, 1 requires 2 conflicts with 4 required, partner, description)")
out.append("const TIED: [(&str, u8, usize, &str); %d] = [" % N)
for r in rows:
    out.append('    ("%s", %d, %d, "%s"),' % r)
out.append("];")
K = 20
out.append("#[derive(Parser, PartialEq)]\npub struct Multi {")
for a, b in (("requires", 0), ("conflicts_with", 1)):
    out.append('    #[arg(long, %s)]\n    pub r%d: bool,' % (", ".join('%s = "m%d"' % (a, i) for i in range(K)), b))
for i in range(K):
    out.append("    #[arg(long)]\n    pub m%d: %s," % (i, ["bool", "Option<OsString>", "Vec<OsString>"][i % 3]))
out.append("}\nconst K: usize = %d;" % K)
out.append("""/// One that requires 20 others or one that conflicts with them, and all of them or a few: the class of what is violated.
pub fn multi() -> (Vec<OsString>, Option<Class>, String) {
    let word = |i: usize| if i % 3 == 0 { s(&format!("--m{i}")) } else { cat(&[format!("--m{i}=").as_bytes(), &bytes(1)]) };
    let (i, more) = (choice(K), flip());
    let requires = flip();
    // all but one, or all; one, or none
    let mut l: Vec<OsString> = if requires { (0..K).filter(|k| more || *k != i).map(|k| word(k)).collect() } else if more { vec![word(i)] } else { vec![] };
    let at = if flip() { 0 } else { l.len() };
    l.insert(at, s(if requires { "--r0" } else { "--r1" }));
    let desc = if i % 3 == 0 { format!("--m{i}") } else { format!("--m{i} <M{i}>") };
    match (requires, more) {
        (true, false) => (l, Some(Class::Requires), format!("the argument '{desc}' is required because some dependency arguments are provided")),
        (false, true) => (l, Some(Class::Conflict), "the argument '--r1' cannot be used with some other arguments".to_string()),
        _ => (l, None, String::new()),
    }
}""")
M = 250
ALONE = [0, 7, 8, 63, 64, 127, 128, 129, 191, 192, 248, 249]
out.append("#[derive(Parser, PartialEq)]\npub struct Alone {")
for i in range(M):
    out.append('    #[arg(long = "a%03d"%s)]\n    pub a%d: bool,' % (i * 59 % M, ", exclusive = true" if i in ALONE else "", i))
out.append("    #[command(subcommand)]\n    pub sub: Option<AloneSub>,\n}\n#[derive(Subcommand, PartialEq)]\npub enum AloneSub {\n    Sub,\n}")
out.append("const ALONE: [usize; %d] = %s;" % (len(ALONE), ALONE))
out.append("const M: usize = %d;" % M)
out.append("""
/// A line with an argument and its partner or without, the required one there or not: what it violates, and the arguments told for it.
pub fn tied() -> (Vec<OsString>, Vec<(Class, String)>) {
    let i = choice(TIED.len());
    let (w, kind, k, desc) = TIED[i];
    let (own, partner, must) = (kind != 4 && flip(), flip(), flip());
    let mut l = vec![];
    let mut bad = vec![];
    let v = bytes(1);
    let mut tail = vec![];
    if partner {
        match k {
            _ if k < TIED.len() => l.push(s(TIED[k].0)),
            180 => l.push(s("w")),
            181 => l.extend([s("w"), s("w")]),
            _ => tail.extend([s("--"), os(v.clone())]),
        }
    }
    if own {
        let at = if flip() { 0 } else { l.len() };
        l.insert(at, s(w));
    }
    if must {
        l.push(cat(&[TIED[150].0[..7].as_bytes(), &v]));
    } else {
        bad.push((Class::Required, format!("the argument '{}' is required but not provided", TIED[150].3)));
    }
    l.extend(tail);
    let told = |k: usize| if k < TIED.len() { TIED[k].3 } else { ["[Q0]", "[Q1]", "[Q2]..."][k - 180] };
    if own && kind == 1 && !partner {
        bad.push((Class::Requires, format!("the argument '{}' is required because some dependency arguments are provided", told(k))));
    }
    if own && kind == 2 && partner {
        bad.push((Class::Conflict, format!("the argument '{desc}' cannot be used with some other arguments")));
    }
    (l, bad)
}
/// Given exclusive arguments and others, how many, and the arguments that may be told.
pub fn alone() -> (Vec<OsString>, bool) {
    let e = pick(&ALONE);
    let word = |i: usize| s(&format!("--a{:03}", i * 59 % M));
    let own = flip();
    let others: Vec<usize> = match choice(6) {
        0 => vec![],
        1 => vec![choice(M)],
        2 => (0..M).collect(),
        3 => (0..8).map(|i| i * 31 + 2).collect(),
        4 => (0..128).collect(),
        _ => vec![pick(&ALONE), 3],
    };
    let sub = flip();
    let mut l: Vec<OsString> = others.iter().filter(|i| **i != e).map(|i| word(*i)).collect();
    if own {
        let at = if flip() { 0 } else { l.len() };
        l.insert(at, word(e));
    }
    let n = l.len() + usize::from(sub);
    let bad = n > 1 && (own || others.iter().any(|i| *i != e && ALONE.contains(i)));
    if sub {
        l.push(s("sub"));
    }
    (l, bad)
}
/// Whether every argument that is given, and no other, is set.
pub fn held(a: &Alone, l: &[OsString]) -> bool {
    a.set().iter().enumerate().all(|(i, b)| *b == l.iter().any(|w| raw(w) == format!("--a{:03}", i * 59 % M).as_bytes()))
}""")
out.append("impl Alone {\n    fn set(&self) -> [bool; M] {\n        [%s]\n    }\n}" % ", ".join("self.a%d" % i for i in range(M)))
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(d + "/harness/src/tied.rs", "w").write("\n".join(out) + "\n")
