//! Whole command lines mean what the documented grammar says.
//! The forms of words are those of model.rs; most hold one or two arbitrary bytes.
use crate::common::*;
use crate::mx;
use crate::model::*;
use crate::{check, reach, scenarios};
use std::ffi::OsString;

fn go<T: Told>(l: Vec<OsString>) {
    match agree::<T>(l, true) {
        1 => reach!(),
        2 => reach!(),
        3 => reach!(),
        _ => {}
    }
}

fn matrix(a: mx::At) {
    let (q, r) = (a.option(|_| true), a.option(|_| true));
    let w = vec![mx::any_form(&a, q, 1, 1), mx::usual(r.opt)];
    let k = choice(4);
    let mut l = vec![];
    for (i, x) in w.into_iter().enumerate() {
        if k == i { l.push(tok(0, 1)) }
        l.extend(x);
    }
    if k == 2 { l.push(tok(0, 1)) }
    let l = a.line_with(l, &[(q.level, q.index), (r.level, r.index)], k == 3);
    match a.agree(l) {
        1 => reach!(),
        2 => reach!(),
        3 => reach!(),
        _ => {}
    }
}
scenarios! {
    [quick, "options of all kinds: one word of 26 forms and one of 0..=2 arbitrary bytes before or after it"]
    fn p30_flat_1() { go::<Flat>(line(&FLAT, 1, 0, 2)) }
    [quick, "options of all kinds: two words of 26 forms and one of 5 between or after them"]
    fn p30_flat_3() { let mut l = words(&FLAT, 2); l.insert(1 + choice(2), word(pick(&["-f", "--", "w?", "-q", "--any"]))); go::<Flat>(l) }
    [deep, "options of all kinds: three words of 26 forms"]
    fn p30_flat_3_deep() { go::<Flat>(words(&FLAT, 3)) }
    [quick, "options of all kinds: one word of 0..=4 arbitrary bytes"]
    fn p30_flat_any() { go::<Flat>(vec![tok(0, 4)]) }
    [quick, "options of all kinds: two words of 0..=2 arbitrary bytes"]
    fn p30_flat_two() { go::<Flat>(vec![tok(0, 2), tok(0, 2)]) }
    [quick, "subcommands and globals: one word of 24 forms and one of 0..=2 arbitrary bytes before or after it"]
    fn p30_tree_1() { go::<Tree>(line(&TREE, 1, 0, 2)) }
    [quick, "subcommands and globals: one of 4 names, then two words of 24 forms and one of 0..=1 arbitrary bytes anywhere among them"]
    fn p30_tree_sub() { let c = s(pick(&["add", "run", "deep", "unit"])); let mut l = line(&TREE, 2, 0, 1); l.insert(0, c); go::<Tree>(l) }
    [quick, "subcommands and globals: three words of 24 forms"]
    fn p30_tree_3() { go::<Tree>(words(&TREE, 3)) }
    [quick, "nested subcommands: 'deep', a word of 24 forms, 'add' or 'unit', a word of 24 forms, one of 0..=1 arbitrary bytes"]
    fn p30_tree_deep() {
        let mut l = vec![s("deep"), word(pick(&TREE))];
        l.push(s(pick(&["add", "unit"])));
        l.push(word(pick(&TREE)));
        l.push(tok(0, 1));
        go::<Tree>(l)
    }
    [quick, "constraints: three words of 20 forms before '-r=' 'w'"]
    fn p30_rule_3() { let mut l = words(&RULE, 3); l.extend([s("-r="), s("w")]); go::<Rule>(l) }
    [deep, "constraints: four words of 20 forms"]
    fn p30_rule_4() { go::<Rule>(words(&RULE, 4)) }
    [quick, "constraints: '-r=' 'w', two words of 20 forms and one of 0..=2 arbitrary bytes anywhere among them"]
    fn p30_rule_any() { let mut l = vec![s("-r="), s("w")]; l.extend(line(&RULE, 2, 0, 2)); go::<Rule>(l) }
    [deep, "options of all kinds: two words of 26 forms and one of 0..=2 arbitrary bytes anywhere among them"]
    fn p30_flat_deep() { go::<Flat>(line(&FLAT, 2, 0, 2)) }
    [deep, "options of all kinds: two words of 0..=3 arbitrary bytes"]
    fn p30_flat_two_deep() { go::<Flat>(vec![tok(0, 3), tok(0, 3)]) }
    [deep, "subcommands and globals: one of 4 names, then two words of 24 forms and one of 2..=3 arbitrary bytes anywhere among them"]
    fn p30_tree_sub_deep() { let c = s(pick(&["add", "run", "deep", "unit"])); let mut l = line(&TREE, 2, 2, 3); l.insert(0, c); go::<Tree>(l) }
    [quick, "every second of 127 definitions with all combinations of attributes, every command: any two options in any form with one arbitrary byte, and a word of 0..=1 arbitrary bytes between or around them or none"]
    fn p30_matrix() {
        matrix(mx::some(2));
    }
    [deep, "127 definitions with all combinations of attributes, every command: any two options in any form with one arbitrary byte, and a word of 0..=1 arbitrary bytes between or around them or none"]
    fn p30_matrix_all() {
        matrix(mx::at(0..mx::TABLES.len()));
    }
    [deep, "127 definitions with all combinations of attributes, every command: any three options in any form with one arbitrary byte"]
    fn p30_matrix_deep() {
        let a = mx::at(0..mx::TABLES.len());
        let (q, r, x) = (a.option(|_| true), a.option(|_| true), a.option(|_| true));
        let l = vec![mx::any_form(&a, q, 1, 1), mx::any_form(&a, r, 0, 0), mx::usual(x.opt)].concat();
        let l = a.line(l, &[(q.level, q.index), (r.level, r.index), (x.level, x.index)]);
        a.agree(l);
    }
}
