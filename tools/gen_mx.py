#!/usr/bin/env python3
"""Writes harness/src/mx_def.rs: definitions that cover, three by three, the combinations of the attributes an
option or positional can have, spread over commands, flattened groups and subcommands, each with its table."""
import itertools, os, random
rng = random.Random(20260901)

# ---- combinations ----
NAMED = dict(kind=["flag", "one", "opt", "maybe", "list", "olist"], where=["long", "short", "both", "alias"], eq=[0, 1],
             hyphen=["", "any", "num"], delim=[0, 1], glob=[0, 1], req=[0, 1], dflt=["", "text", "value"], ty=["os", "enum", "ic", "text", "num"], conf=[0, 1, 2], deps=[0, 1, 2], excl=[0, 1])
POS = dict(kind=["one", "opt", "list", "olist"], spec=["", "trailing", "last"], delim=[0, 1], req=[0, 1], dflt=["", "text"], ty=["os", "enum", "text", "num"], conf=[0, 1, 2], deps=[0, 1, 2], excl=[0, 1])
def legal_named(c, plain):
    k = c["kind"]
    many = k in ("list", "olist")
    if k == "flag" and (c["eq"] or c["hyphen"] or c["dflt"] == "text" or c["ty"] != "os"): return False
    if c["dflt"] == "value" and (k not in ("flag", "one", "opt") or k != "flag" and c["ty"] == "os"): return False
    if k == "maybe" and not c["eq"]: return False
    if c["hyphen"] and (k in ("flag", "maybe") or c["eq"]): return False
    if c["delim"] and not many: return False
    if c["dflt"] and c["req"]: return False
    if k == "one" and not (c["dflt"] or c["req"]): return False
    if plain and (c["conf"] or c["deps"] or c["excl"] or c["req"]): return False
    if not plain and (c["hyphen"] or c["ty"] not in ("os", "text") or (c["ty"] == "text") != (c["dflt"] == "value" and k != "flag") or c["where"] in ("long", "short")): return False
    if c["conf"] and c["excl"] and c["deps"]: return False
    return True
def legal_pos(c, plain):
    k = c["kind"]
    many = k in ("list", "olist")
    if c["spec"] and not many: return False
    if c["delim"] and not many: return False
    if c["dflt"] and c["req"]: return False
    if k == "one" and not (c["dflt"] or c["req"]): return False
    if plain and (c["conf"] or c["deps"] or c["excl"] or c["req"]): return False
    if not plain and c["ty"] != "os": return False
    if c["conf"] and c["excl"] and c["deps"]: return False
    return True
def cover(space, legal, t):
    keys = list(space)
    rows = [r for r in (dict(zip(keys, v)) for v in itertools.product(*space.values())) if legal(r)]
    rng.shuffle(rows)
    combos = list(itertools.combinations(keys, t))
    tup = lambda r: {(c, tuple(r[k] for k in c)) for c in combos}
    need = set().union(*map(tup, rows))
    out = []
    while need:
        best = max(rng.sample(rows, min(len(rows), 400)), key=lambda r: len(tup(r) & need))
        if not tup(best) & need:
            best = next(r for r in rows if tup(r) & need)
        need -= tup(best)
        out.append(dict(best))
    return out

# ---- distribution over definitions ----
LETTERS = list("abcdefgijklmnopqrstuvwxyzABCDEFGHIJ0123") + list("é→😀 \"\\'{") + [chr(c) for c in (0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff)]
WORDS = ["alpha", "beta", "gamma", "delta", "eps-i", "zeta", "eta", "theta", "iota", "kap", "kappa", "kappas", "Mu", "nu", "x", "x-y", "x2", "omicron", "pi", "rho_s", "é-long", "tau", "up.s", "phi+", "chi", "psi", "omega", "a b", 'q"q', "\\", "{}", "n" * 260, "h", "helper"]
class Names:
    def __init__(self, prefer=()):
        self.used = set()
        self.prefer = list(prefer)
    def get(self, pool, pre):
        if self.prefer and rng.random() < 0.35:
            c = [n for n in self.prefer if n.startswith(pre) and (len(pre) == 2 or n[1] != "-") and n not in self.used]
            if c:
                n = rng.choice(c); self.used.add(n); return n
        n = rng.choice([pre + x for x in pool if pre + x not in self.used]); self.used.add(n); return n
uid = 0
def fresh():
    global uid
    uid += 1
    return uid
class Level:
    def __init__(self, names): self.fields = []; self.groups = []; self.pos = []; self.subs = []; self.optional = False; self.names = names
    def all_opts(self):
        o = list(self.fields)
        for g in self.groups: o += g.all_opts()
        return o
def name_field(f, names):
    f["names"] = []
    if f["where"] in ("short", "both", "alias"): f["short"] = names.get(LETTERS, "-"); f["names"].append(f["short"])
    if f["where"] in ("long", "both", "alias"): f["long"] = names.get(WORDS, "--"); f["names"].append(f["long"])
    if f["where"] == "alias":
        f["la"] = names.get(WORDS, "--"); f["sa"] = names.get(LETTERS, "-")
        f["names"] += [f["la"], f["sa"]]
    f["id"] = "f%d" % fresh()
def build(named, poss, shape):
    """shape: '' | 'flat' | 'sub' | 'tree'"""
    top = Level(Names())
    levels = [top]
    if shape in ("sub", "tree"):
        top.optional = rng.random() < 0.5
        a = Level(Names()); b = Level(Names())
        top.subs = [("Aa", "struct", a), ("AaBb", "newtype", b), ("Uu", "unit", Level(Names()))]
        levels += [a, b]
        if shape == "tree":
            c = Level(Names()); b.optional = rng.random() < 0.5
            b.subs = [("Aa", "struct", c), ("Zz", "unit", Level(Names()))]
            levels.append(c)
    homes = []
    for l in levels:
        homes.append((l, l))
        if shape == "flat" or rng.random() < 0.3:
            for _ in range(rng.choice([1, 2, 3]) if shape == "flat" else 1):
                g = Level(l.names); l.groups.append(g); homes.append((l, g))
                if rng.random() < 0.4:
                    h = Level(l.names); g.groups.append(h); homes.append((l, h))
    for f in named:
        ok = [(l, h) for l, h in homes if not f["excl"] or (l is h and not l.groups)]
        if not ok: f["excl"] = 0; ok = homes
        l, h = rng.choice(ok)
        h.fields.append(f)
    for p in poss:
        for l in rng.sample(levels, len(levels)):
            sp, many = p["spec"], p["kind"] in ("list", "olist")
            if sp == "last" and any(q["spec"] == "last" for q in l.pos): continue
            if many and sp != "last" and any(q["kind"] in ("list", "olist") and q["spec"] != "last" for q in l.pos): continue
            if p["excl"] and l.groups: continue
            if sp == "trailing" and l.subs: continue
            l.pos.append(p); p["id"] = "f%d" % fresh(); break
    # a single positional may not follow a list in the declaration
    prefer = []
    for l in levels:
        l.pos.sort(key=lambda p: (p["spec"] == "last", p["kind"] in ("list", "olist")))
        l.names.prefer = list(prefer)
        for f in l.all_opts(): name_field(f, l.names)
        prefer += [n for f in l.all_opts() for n in f["names"]]
    # references
    def refs(fs):
        for f in fs:
            others = [g["id"] for g in fs if g is not f]
            f["confs"] = rng.sample(others, min(f["conf"], len(others)))
            rest = [o for o in others if o not in f["confs"]]
            f["reqs"] = rng.sample(rest, min(f["deps"], len(rest)))
    def groups(g):
        for h in g.groups: refs(h.fields); groups(h)
    for l in levels: refs(l.fields + l.pos); groups(l)
    return top

# ---- output ----
out = ["// Written by tools/gen_mx.py.", "use crate::model::*;", "use palc::{Args, Parser, Subcommand, ValueEnum};", "use std::ffi::OsString;", "",
       "#[derive(ValueEnum, Clone, PartialEq)]", "pub enum Letter {", "    A,", "    B,", "    Ab,", '    #[value(name = "k:é")]', "    Odd,", "}",
       "impl Val for Letter {", "    fn raw_bytes(&self) -> Vec<u8> {", "        match self {", '            Letter::A => "a",', '            Letter::B => "b",', '            Letter::Ab => "ab",', '            Letter::Odd => "k:é",',
       "        }", "        .as_bytes()", "        .to_vec()", "    }", "}", 'const LETTERS: &[&str] = &["a", "b", "ab", "k:é"];', ""]
def esc(s): return "".join("\\u{%x}" % ord(c) if c in "\"\\'" or 0x80 <= ord(c) and not c.isprintable() else c for c in s)
def q(s): return '"%s"' % esc(s)
RUST = {"os": "OsString", "enum": "Letter", "ic": "Letter", "text": "String", "num": "i16"}
def ty(f):
    v = RUST[f["ty"]]
    return {"flag": "bool", "one": v, "opt": "Option<%s>" % v, "maybe": "Option<Option<%s>>" % v, "list": "Vec<%s>" % v, "olist": "Option<Vec<%s>>" % v}[f["kind"]]
def default(f):
    if f["dflt"] == "text" and f["ty"] in ("os", "text") and not f["delim"] and f["id"][-1] in "37": return ""
    a, b = {"enum": "ba", "ic": "ba", "num": ("-7", "8")}.get(f["ty"], ("dd", "e"))
    return a if not f["delim"] else a + "," + b
def field(f, ind, named):
    a = []
    dress(f, named)
    if named:
        if "short" in f: a.append("short = '%s'" % esc(f["short"][1:]))
        if "long" in f: a.append('long = "%s"' % esc(f["long"][2:]))
        if "la" in f: a.append('alias = "%s"' % esc(f["la"][2:]))
        if "sa" in f: a.append("short_alias = '%s'" % esc(f["sa"][1:]))
        if f["eq"]: a.append("require_equals = true")
        if f["hyphen"]: a.append({"any": "allow_hyphen_values = true", "num": "allow_negative_numbers = true"}[f["hyphen"]])
        if f["glob"]: a.append("global = true")
        if f["ty"] == "ic": a.append("ignore_case = true")
    else:
        if f["spec"] == "last": a.append("last = true")
        if f["spec"] == "trailing": a.append("trailing_var_arg = true")
    if f["delim"]: a.append("value_delimiter = ','")
    if f["req"]: a.append("required = true")
    if f["dflt"] == "text": a.append('default_value = "%s"' % default(f))
    if f["dflt"] == "value": a.append("default_value_t = %s" % {"num": "-7", "text": '"dd".to_string()', "os": "true"}.get(f["ty"], "Letter::B"))
    # written in every way there is
    r = random.Random(f["id"] + f["shown"] + str(f["confs"]))
    way = r.randrange(4)
    confs = ['"%s"' % c for c in f["confs"]]
    if way == 0: a += ["conflicts_with = " + c for c in confs]
    elif way == 1: a += ["conflicts_with = " + c for c in confs[:1]] + (["conflicts_with_all = [%s]" % ", ".join(confs[1:])] if confs[1:] else [])
    elif way == 2: a += (["conflicts_with_all = [%s,]" % ", ".join(confs[:-1])] if confs[:-1] else []) + ["conflicts_with_all = " + c for c in confs[-1:]]
    elif confs: a += ["conflicts_with_all = [%s]" % ", ".join(confs[:1]), "conflicts_with_all = [%s]" % ", ".join(confs[1:])]
    a += ['requires = "%s"' % c for c in f["reqs"]]
    if f["excl"]: a.append("exclusive = true")
    if f["vname"]: a.append('value_name = "%s"' % f["vname"])
    if f["hide"]: a.append("hide = true")
    docs = [x for k, d in enumerate(f["doc"]) for x in ([ind + "///"] if k else []) + [ind + "/// " + d]]
    # the order of names is part of nothing, but that of references is: what is told first
    refs = [x for x in a if x.startswith(("conflicts", "requires"))]
    r.shuffle(a)
    at = iter(refs)
    a = [next(at) if x in refs else x for x in a]
    cut = r.randrange(len(a) + 1) if a and r.random() < 0.4 else 0
    attrs = [ind + "#[arg(%s)]" % ", ".join(x) for x in (a[:cut], a[cut:]) if x]
    if len(docs) > 1 and len(attrs) > 1: docs, attrs = docs[:-1] + attrs[:1] + docs[-1:], attrs[1:]
    return docs + attrs + ["%s%s: %s," % (ind, f["id"], ty(f))]
def body(l, prefix, ind):
    o = []
    items = [("f", f) for f in l.fields] + [("g", g) for g in l.groups]
    # groups and positionals stand anywhere among the options
    r = random.Random(prefix)
    r.shuffle(items)
    for k, x in items:
        if k == "f": o += field(x, ind, True)
        else: o += [ind + "#[command(flatten)]", "%s%s: %s," % (ind, x.id, x.tyname)]
    for p in l.pos: o += field(p, ind, False)
    if l.subs: o += [ind + "#[command(subcommand)]", "%scmd: %s," % (ind, "Option<%s>" % l.subty if l.optional else l.subty)]
    return o
def emit_groups(l, prefix):
    for i, g in enumerate(l.groups):
        g.id = "g%d" % fresh(); g.tyname = "%sG%d" % (prefix, i)
        emit_groups(g, g.tyname)
        out.append("#[derive(Args)]\nstruct %s {" % g.tyname); out.extend(body(g, g.tyname, "    ")); out.append("}")
def emit_subs(l, prefix):
    if not l.subs: return
    l.subty = prefix + "Cmd"
    for v, kind, s in l.subs:
        emit_groups(s, prefix + v); emit_subs(s, prefix + v)
        if kind == "newtype":
            out.append(about_docs(s, "") + "#[derive(Args)]\nstruct %s {" % (prefix + v)); out.extend(body(s, prefix + v, "    ")); out.append("}")
    out.append("#[derive(Subcommand)]\nenum %s {" % l.subty)
    for v, kind, s in l.subs:
        if kind == "unit": out.append(about_docs(s, "    ") + "    %s," % v)
        elif kind == "newtype": out.append("    %s(%s)," % (v, prefix + v))
        else: out.append(about_docs(s, "    ") + "    %s {" % v); out.extend(body(s, prefix + v, "        ")); out.append("    },")
    out.append("}")
def kebab(v): return v[0].lower() + "".join("-" + c.lower() if c.isupper() else c for c in v[1:])
r2 = random.Random(77)
def dress(f, named):
    """How it looks in messages and in the help: none of this has a part in parsing."""
    if "shown" in f: return
    f["vname"] = r2.choice(["", "", "FOO {BAR}", "a-é", "[X]"])
    f["hide"] = r2.random() < 0.2
    f["doc"] = r2.choice([[], ["Doc of %s." % f["id"]], ["First {of} %s," % f["id"], "100% \"more\"."]])
    v = f["vname"] or f["id"].upper()
    if named:
        d = f["short"] + ", " + f["long"] if "short" in f and "long" in f else f.get("short") or f["long"]
        d += {"flag": "", "maybe": "[=<%s>]" % v}.get(f["kind"], ("=<%s>" if f["eq"] else " <%s>") % v)
    else:
        need = f["req"] or (f["kind"] == "one" and not f["dflt"])
        d = ("<%s>" if need else "[%s]") % v + ("..." if f["kind"] in ("list", "olist") else "")
    f["shown"] = d
    f["lines"] = f["doc"] + (["[default: %s]" % (default(f) if f["dflt"] == "text" else {"num": "-7", "text": "dd", "os": "true"}.get(f["ty"], "b"))] if f["dflt"] else [])
def about(l):
    if not hasattr(l, "about"): l.about = r2.choice([[], ["About {it}."], ["About one.", "And \"two\"."]])
    return l.about
def about_docs(l, ind):
    return "".join(x + "\n" for k, d in enumerate(about(l)) for x in ([ind + "///"] if k else []) + [ind + "/// " + d])
def shown(f):
    return "Shown { as_: %s, doc: &[%s], hide: %s }" % (q(f["shown"]), ", ".join(map(q, f["lines"])), str(f["hide"]).lower())
def rules(f, idx):
    a = []
    if f["req"] or (f["kind"] == "one" and not f["dflt"]): a.append("required: true")
    if f["dflt"]: a.append('default: Some("%s")' % default(f))
    if f["ty"] in ("text", "num"): a.append("ty: Ty::%s" % f["ty"].capitalize())
    if f["delim"]: a.append("delimiter: Some(b',')")
    if f["confs"]: a.append("conflicts: &[%s]" % ", ".join(str(idx[c]) for c in f["confs"]))
    if f["reqs"]: a.append("requires: &[%s]" % ", ".join(str(idx[c]) for c in f["reqs"]))
    if f["excl"]: a.append("exclusive: true")
    if f["ty"] in ("enum", "ic"): a.append("names: LETTERS")
    if f["ty"] == "ic": a.append("ignore_case: true")
    return "Rules { %s..R }" % "".join(x + ", " for x in a)
def table(l, name, ind):
    o = ['%sCmd {' % ind, '%s    name: "%s",' % (ind, name), ind + "    opts: &["]
    opts = l.all_opts()
    idx = {f["id"]: i for i, f in enumerate(opts + l.pos)}
    for f in opts:
        k = {"flag": "Flag", "one": "One", "opt": "One", "maybe": "Maybe", "list": "List", "olist": "List"}[f["kind"]]
        a = ([] if not f["eq"] or f["kind"] == "maybe" else ["eq: true"]) + ({"any": ["hyphen: true"], "num": ["negative: true"], "": []}[f["hyphen"]]) + (["global: true"] if f["glob"] else [])
        o.append("%s        Opt { %srules: %s, shown: %s, ..opt(&[%s], Kind::%s) }," % (ind, "".join(x + ", " for x in a), rules(f, idx), shown(f), ", ".join(q(n) for n in f["names"]), k))
    o.append(ind + "    ],\n" + ind + "    pos: &[")
    for p in l.pos:
        many = p["kind"] in ("list", "olist")
        a = ["last: true"] if p["spec"] == "last" else ["trailing: true"] if p["spec"] == "trailing" else []
        o.append("%s        Pos { %srules: %s, shown: %s, ..pos(%s) }," % (ind, "".join(x + ", " for x in a), rules(p, idx), shown(p), str(many).lower()))
    o.append(ind + "    ],\n" + ind + "    subs: &[")
    for v, kind, s in l.subs: o += table(s, kebab(v), ind + "        "); o[-1] += ","
    o.append(ind + "    ],\n" + ind + "    sub_required: %s,\n%s    about: &[%s],\n%s}" % (str(bool(l.subs) and not l.optional).lower(), ind, ", ".join(map(q, about(l))), ind))
    return o
TELL = {"flag": "flag(%s)", "one": "just(&%s)", "opt": "one(&%s)", "maybe": "maybe(&%s)", "list": "list(&%s)", "olist": "olist(&%s)"}
def tells(l, base, deref):
    def walk(g, path):
        o = [(f, path + f["id"]) for f in g.fields]
        for h in g.groups: o += walk(h, path + h.id + ".")
        return o
    def one(f, p):
        if deref and p == f["id"]:       # bound by reference in a pattern
            return {"flag": "flag(*%s)", "one": "just(%s)", "opt": "one(%s)", "maybe": "maybe(%s)", "list": "list(%s)", "olist": "olist(%s)"}[f["kind"]] % p
        return TELL[f["kind"]] % p
    return ", ".join(one(f, p) for f, p in walk(l, base) + [(p, base + p["id"]) for p in l.pos])
def tell_sub(l, expr, prefix, ind):
    """expr: a reference to the subcommand value (or the Option of it)"""
    if not l.subs: return []
    o = [ind + "match %s {" % expr]
    w = (lambda p: "Some(%s)" % p) if l.optional else (lambda p: p)
    for v, kind, s in l.subs:
        e = l.subty + "::" + v
        if kind == "unit": o.append("%s    %s => v.push(vec![])," % (ind, w(e)))
        elif kind == "newtype":
            o.append("%s    %s => {" % (ind, w(e + "(x)")))
            o.append("%s        v.push(vec![%s]);" % (ind, tells(s, "x.", False)))
            o += tell_sub(s, "&x.cmd", prefix + v, ind + "        ")
            o.append(ind + "    }")
        else:
            ids = [f["id"] for f in s.fields] + [g.id for g in s.groups] + [p["id"] for p in s.pos] + (["cmd"] if s.subs else [])
            o.append("%s    %s => {" % (ind, w("%s { %s }" % (e, ", ".join(ids)))))
            o.append("%s        v.push(vec![%s]);" % (ind, tells(s, "", True)))
            o += tell_sub(s, "cmd", prefix + v, ind + "        ")
            o.append(ind + "    }")
    if l.optional: o.append(ind + "    None => {}")
    o.append(ind + "}")
    return o
count = 0
def emit(top):
    global count
    n = "D%d" % count
    count += 1
    out.append("// @@ " + n)
    emit_groups(top, n); emit_subs(top, n)
    out.append(about_docs(top, "") + "#[derive(Parser)]\nstruct %s {" % n); out.extend(body(top, n, "    ")); out.append("}")
    out.append("impl Told for %s {" % n)
    t = table(top, "", "    "); t[0] = "    const TABLE: &'static Cmd = &Cmd {"; t[-1] += ";"
    out.extend(t)
    out.append("    fn told(&self) -> Vec<Vec<Field>> {")
    out.append("        %s v = vec![vec![%s]];" % ("let mut" if top.subs else "let", tells(top, "self.", False)))
    out.extend(tell_sub(top, "&self.cmd", n, "        "))
    out.append("        v\n    }\n}")
def make(plain, t, per, tp=2):
    named = cover(NAMED, lambda c: legal_named(c, plain), t)
    poss = cover(POS, lambda c: legal_pos(c, plain), tp)
    rng.shuffle(named); rng.shuffle(poss)
    shapes = ["", "flat", "sub", "tree"]
    k = -(-len(named) // per)
    first = count
    for i in range(k):
        emit(build(named[i::k], poss[i::k], shapes[i % 4]))
    return first, count, len(named), len(poss)
a = make(True, 4, 10, 3)
make(True, 3, 7)
a = a[:1] + (count,)
b = make(False, 4, 5, 3)
make(False, 3, 6, 3)
make(False, 3, 4)
b = b[:1] + (count,)
out.append("""// @@ end
macro_rules! definitions {
    ($($plain:ident)*; $($ruled:ident)*) => {
        const N: usize = 0 $(+ { let _ = $plain::TABLE; 1 })*;
        /// Definitions without constraints, and with.
        pub const PLAIN: std::ops::Range<usize> = 0..N;
        pub const RULED: std::ops::Range<usize> = N..TABLES.len();
        pub const TABLES: &[&Cmd] = &[$($plain::TABLE,)* $($ruled::TABLE,)*];
        const AGREE: &[fn(Vec<OsString>) -> u64] = &[$(|l| agree::<$plain>(l, HELP),)* $(|l| agree::<$ruled>(l, HELP),)*];
        const RUN: &[fn(Vec<OsString>) -> (Option<crate::common::Class>, Option<Vec<Vec<Field>>>)] = &[$(run::<$plain>,)* $(run::<$ruled>,)*];
        const MESSAGE: &[fn(Vec<OsString>) -> Option<(crate::common::Class, String)>] = &[$(message::<$plain>,)* $(message::<$ruled>,)*];
    };
}
/// The kind of the error and its whole message.
pub fn message_on(d: usize, l: Vec<OsString>) -> Option<(crate::common::Class, String)> {
    MESSAGE[d](l)
}
pub fn agree_on(d: usize, l: Vec<OsString>) -> u64 {
    AGREE[d](l)
}
/// The class of the error, or the fields of the value.
pub fn run_on(d: usize, l: Vec<OsString>) -> (Option<crate::common::Class>, Option<Vec<Vec<Field>>>) {
    RUN[d](l)
}
definitions! {""")
out += ["    D%d" % i for i in range(a[0], a[1])] + ["    ;"] + ["    D%d" % i for i in range(b[0], b[1])] + ["}"]
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(d + "/harness/src/mx_def.rs", "w").write("\n".join(out) + "\n")
print(a, b)
