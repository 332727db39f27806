//! Which autocompletions are offered.
use crate::{gen::*, sym::*};
use input_tree::{node::*, row::*};
use parser::autocomplete::*;

/// Any character of one to `wide` bytes.
fn small_char(v: &mut Vec<u8>, wide: usize) {
    match choose(wide) {
        0 => v.push(range(0, 127) as u8),
        1 => { v.push(range(0xc2, 0xdf) as u8); v.push(0x80 | range(0, 63) as u8); }
        _ => { v.push(range(0xe1, 0xec) as u8); v.push(0x80 | range(0, 63) as u8); v.push(0x80 | range(0, 63) as u8); }
    }
}
fn chars(n: usize, wide: usize) -> String {
    let mut v = vec![];
    for _ in 0..n { small_char(&mut v, wide); }
    unsafe { String::from_utf8_unchecked(v) }
}
fn equal(a: &[u8], b: &[u8]) -> bool {
    let mut d = 0;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}

/// What a rule matches: how many symbols before the caret are together how long a beginning of the rule's text.
pub fn oracle(rule: &str, input: &[InputNode], caret: usize, min: usize) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut text: Vec<u8> = vec![];
    for k in 1..=caret {
        match &input[caret - k] {
            InputNode::Symbol(s) => { let mut t = s.as_bytes().to_vec(); t.extend_from_slice(&text); text = t; }
            _ => break,
        }
        if text.len() > rule.len() { break; }
        if equal(&text, &rule.as_bytes()[..text.len()]) && k >= min { out.push((text.len(), k)); }
    }
    out
}

fn input(count: usize, long: usize, wide: usize) -> Vec<InputNode> {
    let n = pick(0, count);
    // at most one element that is not a symbol
    let k = choose(n + 1);
    let mut v = vec![];
    for i in 0..n {
        if i == k { v.push(InputNode::sup(InputRow::new(vec![]))); continue; }
        let l = pick(1, long);
        v.push(InputNode::Symbol(chars(l, wide)));
    }
    v
}

pub fn matching(rule: usize, count: usize, long: usize, wide: usize) {
    expect(&["offered", "nothing offered", "complete"]);
    let l = pick(1, rule);
    let rule = AutocompleteRule::new(chars(l, wide), vec![]);
    let input = input(count, long, wide);
    let caret = choose(input.len() + 1);
    let min = range(0, count + 1);
    let got = rule.matches(&input, caret, min);
    let want = oracle(&rule.parser, &input, caret, min);
    reach(if got.is_empty() { "nothing offered" } else { "offered" });
    check(got.len() == want.len(), "exactly the beginnings of the rule that end at the caret are offered");
    if got.len() != want.len() { return; }
    for (g, w) in got.iter().zip(&want) {
        check(g.rule_match_length == w.0 && g.input_match_length == w.1, "an offer says how much of the input and of the rule it covers");
        check(std::ptr::eq(g.rule, &rule), "an offer names its rule");
        if g.is_complete_match() { reach("complete"); }
        check(g.is_complete_match() == (w.0 == rule.parser.len()), "a match is complete if it covers the whole rule");
        check(g.input_match_length <= caret && g.input_match_length >= min, "an offer covers input before the caret and at least the asked length");
    }
    for a in &got { for b in &got {
        check(a.cmp(b) == a.rule_match_length.cmp(&b.rule_match_length) && a.partial_cmp(b) == Some(a.cmp(b)), "offers are ordered by how much of the rule they cover");
    } }
}

/// Several rules: the offers of each, in their order.
pub fn rules(count: usize) {
    expect(&["both"]);
    let (a, b) = (AutocompleteRule::new(chars(2, 1), vec![]), AutocompleteRule::new(chars(1, 1), vec![]));
    let input = input(count, 1, 1);
    let caret = input.len();
    let want: Vec<(usize, usize, usize)> = oracle(&a.parser, &input, caret, 1).iter().map(|w| (0, w.0, w.1)).chain(oracle(&b.parser, &input, caret, 1).iter().map(|w| (1, w.0, w.1))).collect();
    let m = crate::parse::custom_parser(vec![], vec![b.clone(), a.clone()]);
    let rules = AutocompleteRules(vec![a, b]);
    // a parser offers what was added last first
    for (got, of) in [(rules.matches(&input, caret, 1), [&rules.0[0].parser, &rules.0[1].parser]), (m.matches(&input, caret, 1), [&rules.0[0].parser, &rules.0[1].parser])] {
        // the built-in rules make offers, too
        let got: Vec<_> = got.into_iter().filter(|g| g.rule.result.is_empty()).collect();
        check(got.len() == want.len(), "every rule makes its offers");
        if got.len() != want.len() { return; }
        let mut both = [false; 2];
        for (g, w) in got.iter().zip(&want) {
            check(g.rule.parser.len() == of[w.0].len() && equal(g.rule.parser.as_bytes(), of[w.0].as_bytes()) && g.rule_match_length == w.1 && g.input_match_length == w.2, "offers come in the order of the rules");
            both[w.0] = true;
        }
        if both[0] && both[1] { reach("both"); }
    }
}

/// Symbols without characters: whatever is offered stays within the input and the rule.
pub fn empty(count: usize) {
    let l = pick(1, 2);
    let rule = AutocompleteRule::new(chars(l, 2), vec![]);
    let n = pick(0, count);
    let mut input = vec![];
    for _ in 0..n { input.push(InputNode::Symbol({ let l = pick(0, 1); chars(l, 2) })); }
    for m in rule.matches(&input, n, 0) {
        check(m.input_match_length <= n && m.rule_match_length <= rule.parser.len(), "an offer stays within the input and the rule");
    }
    check(true, "matching ends");
}
