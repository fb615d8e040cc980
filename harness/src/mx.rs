//! Lines for the generated definitions of mx_def.rs, which cover the combinations of attributes.
use crate::common::*;
use crate::model::*;
use std::ffi::OsString;
#[path = "mx_def.rs"]
mod def;
pub use def::*;

/// A command of a definition, reached through its subcommands.
#[derive(Clone)]
pub struct At {
    pub def: usize,
    pub cmds: Vec<&'static Cmd>,
}
/// Any definition of the range and any of its commands.
pub fn at(defs: std::ops::Range<usize>) -> At {
    inside(defs.start + choice(defs.len()))
}
/// Any `k`-th definition and any of its commands.
pub fn some(k: usize) -> At {
    inside(k * choice((TABLES.len() + k - 1) / k))
}
pub fn inside(def: usize) -> At {
    let mut cmds = vec![TABLES[def]];
    loop {
        let c = cmds[cmds.len() - 1];
        if c.subs.is_empty() {
            break;
        }
        // A command that needs a subcommand gets one.
        let k = choice(c.subs.len() + usize::from(!c.sub_required));
        if k == c.subs.len() {
            break;
        }
        cmds.push(&c.subs[k]);
    }
    At { def, cmds }
}
/// An option and the level it is declared at.
#[derive(Clone, Copy)]
pub struct Ref {
    pub level: usize,
    pub index: usize,
    pub opt: &'static Opt,
}
impl At {
    pub fn depth(&self) -> usize {
        self.cmds.len() - 1
    }
    pub fn last(&self) -> &'static Cmd {
        self.cmds[self.cmds.len() - 1]
    }
    /// Options that count in the last command: its own and the global ones, unless hidden by a nearer one of that name.
    pub fn options(&self) -> Vec<Ref> {
        let mut v: Vec<Ref> = vec![];
        for (level, c) in self.cmds.iter().enumerate().rev() {
            for (index, opt) in c.opts.iter().enumerate() {
                if (level == self.depth() || opt.global) && opt.names.iter().any(|n| self.owner(n).is_some_and(|r| r == (level, index))) {
                    v.push(Ref { level, index, opt });
                }
            }
        }
        v
    }
    pub fn owner(&self, name: &str) -> Option<(usize, usize)> {
        for (level, c) in self.cmds.iter().enumerate().rev() {
            for (index, o) in c.opts.iter().enumerate() {
                if (level == self.depth() || o.global) && o.names.contains(&name) {
                    return Some((level, index));
                }
            }
        }
        None
    }
    /// The names by which the option is reached in the last command.
    pub fn names(&self, r: Ref) -> Vec<&'static str> {
        r.opt.names.iter().copied().filter(|n| self.owner(n) == Some((r.level, r.index))).collect()
    }
    /// Any option that counts here.
    pub fn option(&self, which: impl Fn(&Opt) -> bool) -> Ref {
        let v: Vec<Ref> = self.options().into_iter().filter(|r| which(r.opt)).collect();
        assume(!v.is_empty());
        pick(&v)
    }
    /// A whole line: `focus` in the last command, and around it whatever is required and not among `given`.
    pub fn line(&self, focus: Vec<OsString>, given: &[(usize, usize)]) -> Vec<OsString> {
        self.line_with(focus, given, true)
    }
    pub fn line_with(&self, focus: Vec<OsString>, given: &[(usize, usize)], words: bool) -> Vec<OsString> {
        let mut l = vec![];
        let mut tail = vec![];
        for (level, c) in self.cmds.iter().enumerate() {
            if level > 0 {
                l.push(s(c.name));
            }
            let n = c.opts.len() + c.pos.len();
            let rules = |i: usize| if i < c.opts.len() { &c.opts[i].rules } else { &c.pos[i - c.opts.len()].rules };
            let here = |i: usize| given.contains(&(level, i));
            let mut need: Vec<bool> = (0..n).map(|i| here(i) || rules(i).required).collect();
            for _ in 0..n {
                for i in 0..n {
                    if need[i] {
                        for k in rules(i).requires {
                            need[*k] = true;
                        }
                    }
                }
            }
            for (i, o) in c.opts.iter().enumerate() {
                if need[i] && !here(i) {
                    l.extend(usual(o));
                }
            }
            if level == self.depth() {
                l.extend(focus.iter().cloned());
            }
            let upto = (0..c.pos.len()).filter(|k| need[c.opts.len() + k] && !c.pos[*k].last).max();
            if let (Some(k), true) = (upto, words) {
                l.extend((0..=k).filter(|k| !here(c.opts.len() + k)).map(|k| s(good(&c.pos[k].rules))));
            }
            if level == self.depth() && words && c.pos.last().is_some_and(|p| p.last) && need[n - 1] && !here(n - 1) {
                tail = vec![s("--"), s(good(&c.pos[c.pos.len() - 1].rules))];
            }
        }
        l.extend(tail);
        l
    }
    pub fn agree(&self, l: Vec<OsString>) -> u64 {
        agree_on(self.def, l)
    }
}
pub fn takes(o: &Opt) -> bool {
    matches!(o.kind, Kind::One | Kind::List)
}
/// The words that lead to the command.
pub fn path(a: &At) -> Vec<OsString> {
    a.cmds[1..].iter().map(|c| s(c.name)).collect()
}
/// Any words the type has as values, and any others.
pub fn typed(r: &Rules, lo: usize, hi: usize) -> Vec<u8> {
    if !r.names.is_empty() && flip() { pick(r.names).as_bytes().to_vec() } else { bytes(len(lo, hi)) }
}
/// How the field is written in messages.
pub fn shown(c: &'static Cmd, i: usize) -> &'static str {
    if i < c.opts.len() { c.opts[i].shown.as_ } else { c.pos[i - c.opts.len()].shown.as_ }
}
/// A value the option accepts.
pub fn good(r: &Rules) -> &'static str {
    if r.ty == Ty::Num { "7" } else if r.names.is_empty() { "v" } else { "a" }
}
/// The option in one plain form.
pub fn usual(o: &Opt) -> Vec<OsString> {
    if takes(o) { vec![cat(&[o.names[0].as_bytes(), b"=", good(&o.rules).as_bytes()])] } else { vec![s(o.names[0])] }
}
/// The option with a value, in each of the forms that can carry it.
pub fn valued(name: &str, o: &Opt, v: &[u8]) -> Vec<OsString> {
    let n = name.as_bytes();
    match choice(if o.eq || o.kind == Kind::Maybe { 1 } else if name.starts_with("--") { 2 } else { 3 }) {
        0 => vec![cat(&[n, b"=", v])],
        1 => {
            assume(o.hyphen || plain(v));
            vec![os(n.to_vec()), os(v.to_vec())]
        }
        _ => {
            assume(attachable(v));
            vec![cat(&[n, v])]
        }
    }
}
/// The option in any form, with a value of `lo..=hi` arbitrary bytes if it takes one (an accepted one if it is an enum).
pub fn any_form(a: &At, r: Ref, lo: usize, hi: usize) -> Vec<OsString> {
    let name = pick(&a.names(r));
    let o = r.opt;
    if o.kind == Kind::Flag || o.kind == Kind::Maybe && flip() {
        return vec![s(name)];
    }
    let v = if o.rules.free() { bytes(len(lo, hi)) } else if o.rules.names.is_empty() { good(&o.rules).as_bytes().to_vec() } else { pick(o.rules.names).as_bytes().to_vec() };
    valued(name, o, &v)
}
/// Every field of every command entered, given or not; `what` may leave some out.
pub fn subset(a: &At, forms: bool) -> Vec<OsString> {
    let mut l = vec![];
    let mut late: Vec<OsString> = vec![];
    let mut end = vec![];
    for (level, c) in a.cmds.iter().enumerate() {
        if level > 0 {
            l.push(s(c.name));
            l.append(&mut late);
        }
        for o in c.opts {
            if flip() {
                // A global one may come later as well, if that name is still its own.
                let w = if forms && flip() { let n = *o.names.last().unwrap(); if takes(o) { vec![cat(&[n.as_bytes(), b"=", good(&o.rules).as_bytes()])] } else { vec![s(n)] } } else { usual(o) };
                l.extend(w);
            }
        }
        let words = c.pos.iter().filter(|p| !p.last).count();
        let k = choice(words + 1);
        l.extend((0..k).map(|k| s(good(&c.pos[k].rules))));
        if level == a.depth() && c.pos.last().is_some_and(|p| p.last) && flip() {
            end = vec![s("--"), s(good(&c.pos[c.pos.len() - 1].rules))];
        }
    }
    l.extend(end);
    l
}
/// How a line ended, against what the grammar says, for the properties about one kind of constraint.
pub fn verdict(a: &At, l: Vec<OsString>) -> (Option<Class>, Outcome, bool) {
    let words: Vec<Vec<u8>> = l.iter().map(|w| raw(w).to_vec()).collect();
    let (got, told) = run_on(a.def, l);
    let want = interpret(TABLES[a.def], &words, HELP);
    let same = match (&told, &want) {
        (Some(x), Outcome::Good(y)) => x == y,
        _ => false,
    };
    (got, want, same)
}
