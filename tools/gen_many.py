#!/usr/bin/env python3
"""Writes harness/src/many.rs: many groups, levels, things to help with, long names."""
import os
out = ["// Written by tools/gen_many.py.", "//! Many groups, levels of commands, entries of a help, long names."]
w = out.append
def module(f, name):
    w('#[cfg(feature = "%s")]\npub mod %s {' % (f, name))
    w("    use crate::common::*;\n    use palc::{Args, Parser, Subcommand};\n    use std::ffi::OsString;")

# ---- groups: 14 next to each other, one in another 10 deep; fields in reading order ----
module("p20", "groups")
W, D = 14, 10
fields = []      # (path, name, kind)
def group(struct, tag, path, inner):
    w("    #[derive(Args, PartialEq, Default)]\n    pub struct %s {" % struct)
    w('        #[arg(long, short = \'%s\')]\n        pub f%s: bool,' % (tag[0], tag[1]))
    w('        #[arg(long, conflicts_with = "f%s")]\n        pub o%s: Option<OsString>,' % (tag[1], tag[1]))
    w('        #[arg(long, use_value_delimiter = true)]\n        pub l%s: Vec<OsString>,' % tag[1])
    fields.extend([(path + "f" + tag[1], "f" + tag[1], "-" + tag[0], 0), (path + "o" + tag[1], "o" + tag[1], "", 1), (path + "l" + tag[1], "l" + tag[1], "", 2)])
    if inner:
        w("        #[command(flatten)]\n        pub inner: %s," % inner)
    w("    }")
for i in range(W):
    group("W%d" % i, ("abcdefgijklmno"[i], "w%d" % i), "g%d." % i, None)
for i in range(D):
    group("D%d" % i, ("ABCDEFGIJK"[i], "d%d" % i), "deep." + "inner." * i, "D%d" % (i + 1) if i + 1 < D else None)
w("    #[derive(Parser, PartialEq)]\n    pub struct Far {")
for i in range(W):
    if i == 6:
        w("        #[arg(long)]\n        pub own: Option<OsString>,")
    if i == 9:
        w("        #[command(flatten)]\n        pub deep: D0,")
    w("        #[command(flatten)]\n        pub g%d: W%d," % (i, i))
w("        pub pos: Option<OsString>,\n    }")
fields.append(("own", "own", "", 1))
w("    /// (long name, short name, 0 flag 1 value 2 list)")
w("    pub const FAR: [(&str, &str, u8); %d] = [%s];" % (len(fields), ", ".join('("--%s", "%s", %d)' % (n, s, k) for _, n, s, k in fields)))
w("    impl Far {\n        pub fn set(&self) -> Vec<(usize, Vec<&OsString>)> {\n            let mut v = vec![];")
for i, (p, n, s, k) in enumerate(fields):
    w("            " + ["if self.%s { v.push((%d, vec![])) }", "if let Some(x) = &self.%s { v.push((%d, vec![x])) }", "if !self.%s.is_empty() { v.push((%d, self.%s.iter().collect())) }"][k] % ((p, i) if k < 2 else (p, i, p)))
w("            v\n        }\n    }\n}")

# ---- levels ----
module("p19", "levels")
L = 9
for i in range(L):
    w("    #[derive(%s, PartialEq)]\n    pub struct L%d {" % ("Parser" if i == 0 else "Args", i))
    w('        #[arg(long, short = \'%s\', global = true)]\n        pub g%d: Option<OsString>,' % ("abcdefgij"[i], i))
    w('        #[arg(long, global = true)]\n        pub many%d: Vec<OsString>,' % i)
    w('        #[arg(long, short = \'%s\')]\n        pub own%d: Option<OsString>,' % ("ABCDEFGIJ"[i], i))
    w('        #[arg(long, global = true)]\n        pub same: Option<OsString>,')
    if i + 1 < L:
        w("        #[command(subcommand)]\n        pub cmd: Option<C%d>," % (i + 1))
    w("    }")
    if i + 1 < L:
        w("    #[derive(Subcommand, PartialEq)]\n    pub enum C%d {\n        Down(L%d),\n        Unit,\n    }" % (i + 1, i + 1))
w("    pub const LEVELS: usize = %d;" % L)
w("    /// The values of the options of a level: its global one, list, own one, and the one named as elsewhere.\n    pub struct Seen {\n        pub glob: Option<OsString>,\n        pub many: Vec<OsString>,\n        pub own: Option<OsString>,\n        pub same: Option<OsString>,\n    }")
w("    pub fn seen(l: L0) -> Vec<Seen> {\n        let mut v = vec![];")
for i in range(L):
    w("        %sv.push(Seen { glob: l.g%d, many: l.many%d, own: l.own%d, same: l.same });" % ("    " * i, i, i, i))
    if i + 1 < L:
        w("        %sif let Some(C%d::Down(l)) = l.cmd {" % ("    " * i, i + 1))
for i in range(L - 2, -1, -1):
    w("        %s}" % ("    " * i))
w("        v\n    }\n}")

# ---- help ----
module("p33", "help")
w("    #[derive(Parser)]\n    pub struct Tall {")
opts, poss, subs = [], [], []
for i in range(70):
    n = ("option-" + "abcdefghij" * 4)[: 2 + i % 36] + str(i)
    doc = " ".join("word%d" % (k * (i + 1)) for k in range(1, 2 + (i * 7) % 90))
    paras = 1 + i % 3 if i % 5 == 0 else 1
    for k in range(paras):
        if k: w("        ///")
        w("        /// %s" % (doc + " p%d" % k))
    text = [doc + " p%d" % k for k in range(paras)]
    sh = chr(0x100 + i)
    d = ""
    if i % 6 == 1: d = ', default_value = "d%d"' % i; text.append("[default: d%d]" % i)
    hide = ", hide = true" if i % 11 == 7 else ""
    short = ", short = '%s'" % sh if i % 4 == 2 else ""
    w('        #[arg(long = "%s"%s%s%s)]\n        pub o%d: %s,' % (n, short, d, hide, i, "OsString" if d else ["bool", "Option<OsString>", "Vec<OsString>"][i % 3]))
    shown = ("-%s, " % sh if short else "") + "--" + n + ("" if not d and i % 3 == 0 else " <O%d>" % i)
    if not hide: opts.append((shown, text))
for i in range(30):
    doc = "pos%d " % i * (i % 5)
    if doc: w("        /// %s" % doc.strip())
    w("        pub p%d: Option<OsString>," % i)
    poss.append(("[P%d]" % i, [doc.strip()] if doc else []))
w("        #[command(subcommand)]\n        pub cmd: Option<Cmds>,\n    }\n    #[derive(Subcommand)]\n    pub enum Cmds {")
for i in range(60):
    n = "Sub" + "abcdefghijklmnopqrstuvwxyz"[: i % 27] + str(i)
    doc = " ".join("about%d" % (i + k) for k in range(i % 30))
    if doc: w("        /// %s" % doc)
    w("        %s," % n)
    subs.append((n.lower(), [doc] if doc else []))
w("    }")
rs = lambda v: "&[" + ", ".join('("%s", &[%s])' % (n, ", ".join('"%s"' % x for x in t)) for n, t in v) + "]"
w("    pub const OPTIONS: &[(&str, &[&str])] = %s;\n    pub const ARGUMENTS: &[(&str, &[&str])] = %s;\n    pub const COMMANDS: &[(&str, &[&str])] = %s;\n}" % (rs(opts), rs(poss), rs(subs)))

# ---- names ----
module("p09", "names")
word = lambda n: "".join("abcdefghijklmnopqrstuvwxyz"[i % 26] for i in range(n))
names = [word(n) for n in (29, 30, 31, 32, 61, 62, 63, 64, 65, 126, 127, 128, 253, 254, 255, 256, 257, 300)] + [word(255) + "x", word(299) + "-", word(299) + "\u00e9", word(60) + "-" + word(60)]
names = ["abcdefghijklmnopqrstuvwxyz"[k] + n[1:] for k, n in enumerate(names)]      # alike but for the first letter
w("    #[derive(Parser, PartialEq)]\n    pub struct Names {")
for i, n in enumerate(names):
    w('        #[arg(%s = "%s"%s)]\n        pub n%d: Option<OsString>,' % ("long" if i % 3 else 'long = "x%d", alias' % i, n, ", global = true" if i % 4 == 1 else "", i))
w("        #[command(subcommand)]\n        pub cmd: Option<Cmd>,\n    }\n    #[derive(Subcommand, PartialEq)]\n    pub enum Cmd {\n        C,\n    }")
w("    pub const NAMES: [&str; %d] = [%s];" % (len(names), ", ".join('"%s"' % n for n in names)))
w("    pub const GLOBAL: usize = 4;")
w("    impl Names {\n        pub fn all(&self) -> Vec<&Option<OsString>> {\n            vec![%s]\n        }\n    }\n}" % ", ".join("&self.n%d" % i for i in range(len(names))))
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(d + "/harness/src/many.rs", "w").write("\n".join(out) + "\n")
