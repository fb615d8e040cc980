//! Conflicting arguments are never accepted together.
use crate::common::*;
use crate::model::*;
use crate::mx;
use crate::{check, reach, scenarios};
use palc::{Args, Parser, Subcommand};
use std::ffi::OsString;

#[derive(Parser, PartialEq)]
struct Cli {
    #[arg(short, long, conflicts_with = "beta")]
    alpha: Option<OsString>,
    #[arg(short, long)]
    beta: Option<OsString>,
    #[arg(short, long, conflicts_with_all = ["delta", "pos", "flag"])]
    gamma: Option<OsString>,
    #[arg(short, long, default_value = "dd")]
    delta: OsString,
    #[arg(short, long, conflicts_with = "list")]
    flag: bool,
    #[arg(short, long)]
    list: Vec<OsString>,
    #[arg(short, long, require_equals = true, conflicts_with = "alpha")]
    oopt: Option<Option<OsString>>,
    #[arg(long, default_value = "ee", conflicts_with = "beta")]
    eps: OsString,
    pos: Option<OsString>,
}
const NAMES: [&str; 9] = ["alpha", "beta", "gamma", "delta", "flag", "list", "oopt", "eps", "pos"];
const BAD: [(usize, usize); 7] = [(0, 1), (2, 3), (2, 8), (2, 4), (4, 5), (6, 0), (7, 1)];
fn word(i: usize, v: &[u8]) -> OsString {
    match i {
        0 => cat(&[b"--alpha=", v]),
        1 => cat(&[b"-b=", v]),
        2 => cat(&[b"--gamma=", v]),
        3 => cat(&[b"--delta=", v]),
        4 => s("-f"),
        5 => cat(&[b"--list=", v]),
        6 => s("--oopt"),
        7 => cat(&[b"--eps=", v]),
        _ => { assume(plain(v)); os(v.to_vec()) }
    }
}
fn bad(on: &[bool; 9]) -> bool {
    BAD.iter().any(|(a, b)| on[*a] && on[*b])
}

#[derive(Parser, PartialEq)]
struct Outer {
    #[command(flatten)]
    flat: Flat,
    #[arg(short, long)]
    plain: Option<OsString>,
    #[arg(short, long, global = true, conflicts_with = "plain")]
    glob: Option<OsString>,
    #[command(subcommand)]
    sub: Option<Sub>,
}
#[derive(Args, PartialEq)]
struct Flat {
    #[arg(short, long)]
    first: Option<OsString>,
    #[arg(short, long, conflicts_with_all = ["first", "third"])]
    second: Option<OsString>,
    #[arg(short, long)]
    third: bool,
}
#[derive(Subcommand, PartialEq)]
enum Sub {
    Sub {
        #[arg(short, long, conflicts_with = "ypos")]
        xopt: Option<OsString>,
        ypos: Vec<OsString>,
    },
}

scenarios! {
    [quick, "a flag that requires 20 others: with all or all but one; a flag in conflict with 20: with one of them or none; first or last, values of 1 arbitrary byte"]
    fn p14_multi() {
        let (l, want, text) = crate::tied::multi();
        let r = parse::<crate::tied::Multi>(l);
        emit_end(&r);
        match r {
            Ok(_) => { reach!(); check!(want.is_none(), "what conflicts with any of 20 is not accepted with it") }
            Err(e) => { reach!(); check!(want == Some(class(&e)) && e.to_string() == text, "otherwise it is accepted") }
        }
    }
    [quick, "each of 180 options of a definition with 183 arguments, 134 of them with a constraint on another; it, its partner and the required one given or not, in both orders, value of one arbitrary byte"]
    fn p14_tied() {
        let (l, bad) = crate::tied::tied();
        let r = parse::<crate::tied::Tied>(l);
        emit_end(&r);
        match r {
            Ok(_) => { reach!(); check!(!bad.iter().any(|b| b.0 == Class::Conflict), "conflicting arguments are not accepted together") }
            Err(e) => {
                reach!();
                let c = class(&e);
                let m = e.to_string();
                check!(!(c == Class::Conflict) || bad.iter().any(|b| b.0 == c && b.1 == m), "only what is violated is told, and of which argument");
                check!(!bad.is_empty(), "otherwise accepted");
            }
        }
    }
    [quick, "every subset of 9 arguments (options, flag, list, optional value, defaults, positional), value of one of them 0..=1 arbitrary bytes"]
    fn p14_subsets() {
        let who = choice(9);
        let mut on = [false; 9];
        let mut l = vec![];
        for i in 0..9 {
            on[i] = flip();
            if on[i] {
                l.push(word(i, &if i == who { bytes(len(0, 1)) } else { b"v".to_vec() }));
            } else { assume(i != who || who == 0) }
        }
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(c) => {
                reach!();
                check!(!bad(&on), "no two conflicting arguments are accepted together");
                check!(c.alpha.is_some() == on[0] && c.beta.is_some() == on[1] && c.gamma.is_some() == on[2] && c.flag == on[4] && c.list.len() == on[5] as usize
                    && c.oopt.is_some() == on[6] && c.pos.is_some() == on[8], "exactly the given ones are held");
            }
            Err(e) => { reach!(); check!(bad(&on) && class(&e) == Class::Conflict, "arguments that do not conflict are accepted") }
        }
    }
    [quick, "every pair of 9 arguments in both orders, values of 0..=2 arbitrary bytes (also those equal to a default)"]
    fn p14_pairs() {
        let (i, j) = (choice(9), choice(9));
        assume(i != j);
        let (v, w) = (if flip() { bytes(len(0, 2)) } else { b"dd".to_vec() }, if flip() { bytes(len(0, 1)) } else { b"ee".to_vec() });
        let mut on = [false; 9];
        on[i] = true;
        on[j] = true;
        let r = parse::<Cli>(vec![word(i, &v), word(j, &w)]);
        emit_end(&r);
        match r {
            Ok(_) => { reach!(); check!(!bad(&on), "no two conflicting arguments are accepted together") }
            Err(e) => { reach!(); check!(bad(&on) && class(&e) == Class::Conflict, "arguments that do not conflict are accepted") }
        }
    }
    [quick, "the spelling does not matter: the pair (alpha, beta) in all spellings, values of 0..=1 arbitrary bytes"]
    fn p14_spellings() {
        let sp = |long: &[u8], short: &[u8], v: &[u8]| match choice(5) {
            0 => vec![cat(&[long, b"=", v])],
            1 => vec![cat(&[short, b"=", v])],
            2 => { assume(attachable(v)); vec![cat(&[short, v])] }
            3 => { assume(plain(v)); vec![cat(&[long]), os(v.to_vec())] }
            _ => { assume(plain(v)); vec![cat(&[short]), os(v.to_vec())] }
        };
        let mut a = sp(b"--alpha", b"-a", &bytes(len(0, 1)));
        let b = sp(b"--beta", b"-b", &bytes(len(0, 1)));
        let l = if flip() { a.extend(b); a } else { let mut b = b; b.extend(a); b };
        let r = parse::<Cli>(l);
        emit_end(&r);
        reach!();
        check!(is_class(&r, Class::Conflict), "no two conflicting arguments are accepted together");
    }
    [quick, "in a flattened group and with a global option: every subset, the global option before or inside the subcommand"]
    fn p14_flat() {
        let on = [flip(), flip(), flip(), flip(), flip()];
        let v = bytes(len(0, 1));
        let mut l = vec![];
        if on[0] { l.push(cat(&[b"--first=", &v])) }
        if on[1] { l.push(cat(&[b"-s=", &v])) }
        if on[2] { l.push(s("-t")) }
        if on[3] { l.push(cat(&[b"--plain=", &v])) }
        let inside = flip();
        if inside { l.push(s("sub")) }
        if on[4] { l.push(cat(&[b"--glob=", &v])) }
        let bad = (on[1] && (on[0] || on[2])) || (on[3] && on[4]);
        let r = parse::<Outer>(l);
        emit_end(&r);
        match r {
            Ok(_) => { reach!(); check!(!bad, "no two conflicting arguments are accepted together") }
            Err(e) => { reach!(); check!(bad && class(&e) == Class::Conflict, "arguments that do not conflict are accepted") }
        }
    }
    [quick, "inside a subcommand, an option against a positional list of 0..=2 words of 0..=1 arbitrary bytes"]
    fn p14_sub() {
        let x = flip();
        let n = choice(3);
        let mut l = vec![s("-p1"), s("sub")];
        for _ in 0..n { let t = tok(0, 1); assume(plain(raw(&t))); l.push(t) }
        if x { let at = 2 + choice(n + 1); l.insert(at, cat(&[b"-x=", &bytes(len(0, 1))])) }
        let bad = x && n > 0;
        let r = parse::<Outer>(l);
        emit_end(&r);
        match r {
            Ok(_) => { reach!(); check!(!bad, "no two conflicting arguments are accepted together") }
            Err(e) => { reach!(); check!(bad && class(&e) == Class::Conflict, "arguments that do not conflict are accepted") }
        }
    }
    [deep, "every subset, all values of 0..=1 arbitrary bytes"]
    fn p14_deep() {
        let mut on = [false; 9];
        let mut l = vec![];
        for i in 0..9 {
            on[i] = flip();
            if on[i] { l.push(word(i, &bytes(len(0, 1)))) }
        }
        let r = parse::<Cli>(l);
        emit_end(&r);
        match r {
            Ok(_) => check!(!bad(&on), "no two conflicting arguments are accepted together"),
            Err(e) => check!(bad(&on) && class(&e) == Class::Conflict, "arguments that do not conflict are accepted"),
        }
    }
    [quick, "every command of 127 definitions with all combinations of constraints: every subset of its arguments, each in one of two forms"]
    fn p14_matrix() {
        let a = mx::at(mx::RULED);
        let l = mx::subset(&a, false);
        let (got, want, same) = mx::verdict(&a, l);
        match (got, &want) {
            (None, Outcome::Good(_)) => reach!(),
            (None, Outcome::Broken(b)) => check!(!b.contains(&Class::Conflict), "no two conflicting arguments are accepted together"),
            (Some(Class::Conflict), Outcome::Broken(b)) => { reach!(); check!(b.contains(&Class::Conflict), "only a violated constraint is told") }
            (Some(Class::Conflict), Outcome::Good(_)) => check!(false, "a line is not rejected on that account"),
            _ => {}
        }
    }
}
