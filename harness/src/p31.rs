//! Every argument reaches its own field however many there are.
use crate::common::*;
use crate::{check, reach, scenarios};
use std::ffi::OsString;
#[path = "p31_def.rs"]
mod def;
use def::*;

fn only(b: &Big, i: usize, v: &[u8]) -> bool {
    let set = b.set();
    set.len() == 1 && set[0].0 == i && if NAMED[i].3 { set[0].1.len() == 1 && raw(set[0].1[0]) == v } else { set[0].1.is_empty() }
}
/// The one of the names that is there.
fn spelling(i: usize) -> &'static str {
    let n = &NAMED[i];
    match choice(3) {
        1 if !n.1.is_empty() => n.1,
        2 if !n.2.is_empty() => n.2,
        _ => n.0,
    }
}

scenarios! {
    [quick, "each of 180 options of a definition with 183 arguments, 134 of them with a constraint on another; it, its partner and the required one given or not, in both orders, value of one arbitrary byte"]
    fn p31_tied() {
        let (l, bad) = crate::tied::tied();
        let r = parse::<crate::tied::Tied>(l);
        emit_end(&r);
        match r {
            Ok(_) => { reach!(); check!(!bad.iter().any(|b| true), "no constraint is missed") }
            Err(e) => {
                reach!();
                let c = class(&e);
                let m = e.to_string();
                check!(!(true) || bad.iter().any(|b| b.0 == c && b.1 == m), "only what is violated is told, and of which argument");
                check!(!bad.is_empty(), "otherwise accepted");
            }
        }
    }
    [quick, "190 options among 254 fields, every name and alias, with an inline value of 0..=1 arbitrary bytes or none"]
    fn p31_named() {
        let i = choice(190);
        let n = spelling(i);
        let v = bytes(len(0, 1));
        let w = if NAMED[i].3 { cat(&[n.as_bytes(), b"=", &v]) } else { s(n) };
        let r = parse::<Big>(vec![w]);
        emit_end(&r);
        match r {
            Ok(b) => { reach!(); check!(only(&b, i, &v), "its own field is set and no other") }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "190 options among 254 fields, in all names and aliases: the error for a second occurrence, or the missing or surplus value, names the option"]
    fn p31_errors() {
        let i = choice(190);
        let n = NAMED[i];
        let (x, y) = (spelling(i).as_bytes(), spelling(i).as_bytes());
        let (l, want) = if !n.3 {
            (vec![cat(&[x, b"=a"])], format!("unexpected value \"a\" for '{}'", n.5))
        } else if n.4 || flip() {
            (vec![cat(&[x])], format!("a value is required for '{}' but none was supplied", n.5))
        } else {
            (vec![cat(&[x, b"=a"]), cat(&[y, b"=", &bytes(1)])], format!("the argument '{}' cannot be used multiple times", n.5))
        };
        let r = parse::<Big>(l);
        emit_end(&r);
        match r {
            Ok(_) => check!(false, "not accepted"),
            Err(e) => { reach!(); check!(e.to_string() == want, "the error names it") }
        }
    }
    [quick, "'--k' and 3 arbitrary bytes: accepted for the declared names only, each for its field"]
    fn p31_any_number() {
        let mut w = b"--k".to_vec();
        w.extend(bytes(3));
        assume(!w.contains(&b'='));
        any(w);
    }
    [quick, "'--' and 1..=4 bytes below 'k' or none: accepted for the declared names only, each for its field"]
    fn p31_any_name() {
        let mut w = b"--".to_vec();
        let n = bytes(len(1, 4));
        assume(n.iter().all(|b| *b < b'k' && *b != b'='));
        w.extend(n);
        any(w);
    }
    [quick, "a short name of one 3-byte character, the last two bytes arbitrary"]
    fn p31_any_short() {
        let mut w = b"-\xe4".to_vec();
        w.extend(bytes(2));
        any(w);
    }
    [quick, "two neighbours in the declaration at once, values of one arbitrary byte"]
    fn p31_neighbours() {
        let i = choice(189);
        let (v, w) = (bytes(1), bytes(1));
        let o = |i: usize, v: &[u8]| if NAMED[i].3 { cat(&[NAMED[i].0.as_bytes(), b"=", v]) } else { s(NAMED[i].0) };
        let r = parse::<Big>(vec![o(i + 1, &w), o(i, &v)]);
        emit_end(&r);
        match r {
            Ok(b) => {
                reach!();
                let set = b.set();
                check!(set.len() == 2 && set[0].0 == i && set[1].0 == i + 1, "both fields are set and no other");
                check!((!NAMED[i].3 || raw(set[0].1[0]) == &v[..]) && (!NAMED[i + 1].3 || raw(set[1].1[0]) == &w[..]), "each has its value");
            }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "1..=65 positional words, the last of one arbitrary byte, over 62 fields and a list"]
    fn p31_positional() {
        let n = len(1, 65);
        let v = bytes(1);
        assume(v[0] != b'-');
        let mut l: Vec<OsString> = (1..n).map(|i| os(vec![b'w', i as u8])).collect();
        l.push(os(v.clone()));
        let r = parse::<Big>(l.clone());
        emit_end(&r);
        match r {
            Ok(b) => {
                reach!();
                let set = b.set();
                let got: Vec<&OsString> = set.iter().flat_map(|f| f.1.iter().copied()).collect();
                check!(got.len() == n && got.iter().zip(&l).all(|(a, b)| raw(a) == raw(b)), "all words are there in order");
                check!(set.iter().enumerate().all(|(k, f)| f.0 == 190 + k) && set.len() == n.min(63), "each has its own field, the list the rest");
            }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "0, 1, 61, 62, 63 words, '--', 0..=2 words of 0..=1 arbitrary bytes: the last list"]
    fn p31_last() {
        let k = pick(&[0usize, 1, 61, 62, 63]);
        let mut l: Vec<OsString> = (0..k).map(|i| os(vec![b'w', i as u8])).collect();
        l.push(s("--"));
        let end: Vec<OsString> = (0..len(0, 2)).map(|_| tok(0, 1)).collect();
        l.extend(end.clone());
        let r = parse::<Big>(l);
        emit_end(&r);
        match r {
            Ok(b) => {
                reach!();
                check!(b.end.len() == end.len() && b.end.iter().zip(&end).all(|(a, b)| raw(a) == raw(b)), "the words after '--' are there");
                check!(b.set().len() == k.min(63) + usize::from(!end.is_empty()), "the others are as before");
            }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "253 positional fields and a list: 1, 127, 128, 252..=256 words, one of them an arbitrary byte"]
    fn p31_most_words() {
        let n = pick(&[1usize, 127, 128, 252, 253, 254, 255, 256]);
        let at = pick(&[0, n / 2, n - 1]);
        let v = bytes(1);
        assume(v[0] != b'-');
        let l: Vec<OsString> = (0..n).map(|i| if i == at { os(v.clone()) } else { os(vec![b'w', i as u8]) }).collect();
        let r = parse::<Words>(l.clone());
        emit_end(&r);
        match r {
            Ok(b) => {
                reach!();
                let all = b.all();
                check!(all.iter().enumerate().all(|(i, x)| if i < n { x.is_some_and(|x| raw(x) == raw(&l[i])) } else { x.is_none() }), "each word is in its field");
                check!(b.rest.len() == n.saturating_sub(253) && b.rest.iter().zip(l.iter().skip(253)).all(|(a, b)| raw(a) == raw(b)), "the list has the rest");
            }
            Err(_) => check!(false, "accepted"),
        }
    }
    [quick, "250 required options of which one (or none) is missing, values of one arbitrary byte: it is named"]
    fn p31_missing() {
        let i = choice(251);
        let v = bytes(1);
        let l = (0..250).filter(|k| *k != i).map(|k| cat(&[b"--r", k.to_string().as_bytes(), b"=", &v])).collect();
        let r = parse::<Needs>(l);
        emit_end(&r);
        match r {
            Ok(b) => { reach!(); check!(i == 250 && raw(&b.r0) == &v[..] && raw(&b.r249) == &v[..], "accepted if complete") }
            Err(e) => {
                reach!();
                let m = e.to_string();
                check!(i < 250 && m.contains(&format!("'--r{i} <R")) && m.ends_with("is required but not provided"), "the missing one is named");
            }
        }
    }
    [quick, "300 subcommands: each by its name; 'c' and 1..=3 arbitrary bytes: the declared names only"]
    fn p31_subcommands() {
        let w = if flip() { s(SUBS[choice(2) * 150 + choice(150)].0) } else { cat(&[b"c", &bytes(len(1, 3))]) };
        let want = SUBS.iter().find(|x| x.0.as_bytes() == raw(&w));
        let r = parse::<Subs>(vec![w.clone()]);
        emit_end(&r);
        match r {
            Ok(b) => { reach!(); check!(want.is_some_and(|x| x.1 == b.cmd), "the subcommand of that name") }
            Err(e) => { reach!(); check!(want.is_none() && class(&e) == Class::UnknownSub, "only other names are rejected") }
        }
    }
}
fn any(w: Vec<u8>) {
    let want = NAMED.iter().position(|n| n.0.as_bytes() == &w[..] || n.1.as_bytes() == &w[..] || n.2.as_bytes() == &w[..]);
    let mut l = vec![os(w)];
    if want.is_some_and(|i| NAMED[i].3) {
        l.push(s("v"));
    }
    let r = parse::<Big>(l);
    emit_end(&r);
    match r {
        Ok(b) => { reach!(); check!(want.is_some_and(|i| only(&b, i, b"v")), "only a declared name is accepted, and it sets its own field") }
        Err(e) => { reach!(); check!(want.is_none() && class(&e) == Class::Unexpected, "only other names are rejected") }
    }
}
