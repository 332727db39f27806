//! Gives the page harnesses what they would get from the compiled Rust side: rows (one JSON text per line) to their syntax trees.
use editor_harness::parse::full_parser;
use std::io::{BufRead, Write};
fn main() {
    let (p, names) = full_parser();
    let out = std::io::stdout();
    let mut out = out.lock();
    let map = names.0.get_rule_name_map();
    let mut list = vec![];
    // ids are given out in order
    for i in 0.. {
        match map.get_reverse(parser::syntax_tree::SyntaxNodeNameId::new(i)) { Some(path) => list.push((path.clone(), i)), None => break }
    }
    writeln!(out, "{}", serde_json::to_string(&list).unwrap()).unwrap();
    for line in std::io::stdin().lock().lines() {
        let row: input_tree::row::InputRow = serde_json::from_str(&line.unwrap()).unwrap();
        writeln!(out, "{}", serde_json::to_string(&p.parse(&row.values)).unwrap()).unwrap();
    }
}
