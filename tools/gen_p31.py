#!/usr/bin/env python3
"""Writes harness/src/p31_def.rs: definitions with the maximum number of fields."""
import os
N = 190
perm = [(i * 73 + 41) % N for i in range(N)]        # name order is not declaration order
out = ["// Written by tools/gen_p31.py.", "use palc::{Args, Parser, Subcommand};", "use std::ffi::OsString;", ""]
names = []
def name(i):
    k = perm[i]
    # runs of prefixes: a, ab, abc, ... as well as numbers
    s = "abcdefgh"[: k % 8 + 1] + str(k // 8)
    if k < 96 and k % 5 == 2:
        s = s.upper()           # capital letters come before small ones in byte order
    if k < 96 and k % 7 == 3:
        s = s[:1] + "-_.+~"[k % 5] + s[1:]
    return s if k < 96 else "k%03d" % k
out.append("#[derive(Parser, PartialEq)]\npub struct Big {")
rows = []
for i in range(N):
    kind = "flag" if i % 7 == 3 else "list" if i % 11 == 5 else "one"
    attrs = ['long = "%s"' % name(i)]
    al = None
    sh = None
    if i % 5 == 0:
        al = "z%03d" % ((i * 31) % N)
        attrs.append('alias = "%s"' % al)
    if i % 4 == 1:
        sh = chr(0x4e00 + (perm[i] * 7) % 256) if i >= 40 else chr(ord("A") + i // 4)
        attrs.append("short = '%s'" % sh)
    ty = {"flag": "bool", "list": "Vec<OsString>", "one": "Option<OsString>"}[kind]
    out.append("    #[arg(%s)]\n    pub n%d: %s," % (", ".join(attrs), i, ty))
    desc = ("-%s, " % sh if sh else "") + "--" + name(i) + ("" if kind == "flag" else " <N%d>" % i)
    rows.append((name(i), al, sh, kind, desc))
P = 62
for i in range(P):
    out.append("    pub p%d: Option<OsString>," % i)
out.append("    pub many: Vec<OsString>,\n    #[arg(last = true)]\n    pub end: Vec<OsString>,\n}")
out.append("/// (long name, alias, short name, takes a value, collects, description)")
out.append("pub const NAMED: [(&str, &str, &str, bool, bool, &str); %d] = [" % N)
for n, al, sh, kind, desc in rows:
    out.append('    ("--%s", "%s", "%s", %s, %s, "%s"),' % (n, "--" + al if al else "", "-" + sh if sh else "", str(kind != "flag").lower(), str(kind == "list").lower(), desc))
out.append("];")
out.append("impl Big {\n    /// Every field that is set, with its values.\n    pub fn set(&self) -> Vec<(usize, Vec<&OsString>)> {\n        let mut v = Vec::new();")
for i, r in enumerate(rows):
    if r[3] == "flag":
        out.append("        if self.n%d { v.push((%d, vec![])) }" % (i, i))
    elif r[3] == "list":
        out.append("        if !self.n%d.is_empty() { v.push((%d, self.n%d.iter().collect())) }" % (i, i, i))
    else:
        out.append("        if let Some(x) = &self.n%d { v.push((%d, vec![x])) }" % (i, i))
for i in range(P):
    out.append("        if let Some(x) = &self.p%d { v.push((%d, vec![x])) }" % (i, N + i))
out.append("        if !self.many.is_empty() { v.push((%d, self.many.iter().collect())) }" % (N + P))
out.append("        if !self.end.is_empty() { v.push((%d, self.end.iter().collect())) }" % (N + P + 1))
out.append("        v\n    }\n}")
# positionals only
Q = 253
out.append("#[derive(Parser, PartialEq)]\npub struct Words {")
for i in range(Q):
    out.append("    pub w%d: Option<OsString>," % i)
out.append("    pub rest: Vec<OsString>,\n}")
out.append("impl Words {\n    pub fn all(&self) -> Vec<Option<&OsString>> {\n        vec![")
for i in range(Q):
    out.append("            self.w%d.as_ref()," % i)
out.append("        ]\n    }\n}")
# required ones: each missing one is named
M = 250
out.append("#[derive(Parser, PartialEq)]\npub struct Needs {")
for i in range(M):
    out.append('    #[arg(long = "r%d")]\n    pub r%d: OsString,' % ((i * 37) % M, i))
out.append("}")
# subcommands
S = 300
out.append("#[derive(Parser, PartialEq)]\npub struct Subs {\n    #[command(subcommand)]\n    pub cmd: SubsCmd,\n}")
out.append("#[derive(Subcommand, PartialEq, Clone, Copy)]\npub enum SubsCmd {")
subs = []
for i in range(S):
    k = (i * 47 + 13) % S
    # a new word ("Ba" after "Ca": "ca-ba") is ordered otherwise than by the identifiers
    v = "C" + ("aBcd" if k % 3 == 1 else "abcd")[: k % 4 + 1] + str(k // 4)
    subs.append(v)
    out.append("    %s," % v)
out.append("}")
out.append("pub const SUBS: [(&str, SubsCmd); %d] = [" % S)
for v in subs:
    out.append('    ("%s", SubsCmd::%s),' % (v[0].lower() + v[1:].replace("B", "-b").lower(), v))
out.append("];")
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(d + "/harness/src/p31_def.rs", "w").write("\n".join(out) + "\n")
