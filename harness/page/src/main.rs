//! The compiled Rust side of the page, as a program: each line is a list of calls, answered by their results.
use serde_json::{from_value, json, to_value, Value};
use std::io::{BufRead, Write};
use wasm_bindgen::JsValue;
use web::{math_editor::*, math_parser::*};

enum Thing {
    Modules(ParseModulesBindings),
    Module(parser::parse_module::BoxedParseModule),
    Collection(ParseModuleCollectionBindings),
    Parser(MathParserBindings),
    Editor(MathEditorBindings),
}
use Thing::*;

fn arg<T: serde::de::DeserializeOwned>(call: &[Value], i: usize) -> Result<T, String> {
    from_value(call.get(i + 1).cloned().unwrap_or(Value::Null)).map_err(|e| e.to_string())
}
fn ok(r: Result<JsValue, JsValue>) -> Result<Value, String> {
    r.map(|v| v.0).map_err(|e| e.0.to_string())
}
/// What a call returns; things are numbered by the calls that made them. A thing that was given away is gone.
fn call(things: &mut Vec<Option<Thing>>, call: &[Value]) -> Result<Value, String> {
    let name = call[0].as_str().unwrap();
    let me: usize = arg(call, 0).unwrap_or(0);
    if name == "ParseModulesBindings" {
        things.push(Some(Modules(ParseModulesBindings::new())));
        return Ok(Value::Null);
    }
    let mut made = None;
    let mut given = None;
    if name == "add_module" || name == "MathParserBindings" {
        let i = if name == "add_module" { arg::<usize>(call, 1)? } else { me };
        given = things[i].take();
    }
    let this = if name == "MathParserBindings" { None } else { things[me].as_mut() };
    let out = match (name, this, given) {
        ("get_built_in", Some(Modules(m)), _) => { made = Some(Module(m.get_built_in())); Ok(Value::Null) }
        ("get_syntax_node_name_map", Some(Modules(m)), _) => {
            let map = m.get_syntax_node_name_map();
            let mut list = vec![];
            for i in 0.. {
                match map.get_reverse(parser::syntax_tree::SyntaxNodeNameId::new(i)) { Some(path) => list.push((path.clone(), i)), None => break }
            }
            Ok(json!({ "values": list }))
        }
        ("ParseModuleCollectionBindings", Some(Modules(m)), _) => { made = Some(Collection(ParseModuleCollectionBindings::new(m))); Ok(Value::Null) }
        (make, Some(Modules(m)), _) => {
            made = Some(Module(match make {
                "make_core" => ParseModulesCreator::make_core(m),
                "make_arithmetic" => ParseModulesCreator::make_arithmetic(m),
                "make_calculus" => ParseModulesCreator::make_calculus(m),
                "make_collections" => ParseModulesCreator::make_collections(m),
                "make_comparison" => ParseModulesCreator::make_comparison(m),
                "make_function" => ParseModulesCreator::make_function(m),
                "make_logic" => ParseModulesCreator::make_logic(m),
                "make_string" => ParseModulesCreator::make_string(m),
                _ => return Err(format!("no function {make}")),
            }));
            Ok(Value::Null)
        }
        ("add_module", Some(Collection(c)), Some(Module(m))) => { c.add_module(m); Ok(Value::Null) }
        ("MathParserBindings", _, Some(Collection(c))) => { made = Some(Parser(MathParserBindings::new(c))); Ok(Value::Null) }
        ("MathEditorBindings", Some(Parser(p)), _) => { made = Some(Editor(MathEditorBindings::new(p))); Ok(Value::Null) }
        (f, Some(Editor(e)), _) => match f {
            "focus" => { e.focus(); Ok(Value::Null) }
            "unfocus" => { e.unfocus(); Ok(Value::Null) }
            "move_caret" => { e.move_caret(arg(call, 1)?, arg(call, 2)?); Ok(Value::Null) }
            "select_with_caret" => Ok(json!(e.select_with_caret(arg(call, 1)?, arg(call, 2)?))),
            "remove_at_caret" => Ok(json!(e.remove_at_caret(arg(call, 1)?, arg(call, 2)?))),
            "insert_at_caret" => e.insert_at_caret(JsValue(arg(call, 1)?)).map(|_| Value::Null).map_err(|e| e.0.to_string()),
            "select_all" => { e.select_all(); Ok(Value::Null) }
            "undo" => Ok(json!(e.undo())),
            "redo" => Ok(json!(e.redo())),
            "start_selection" => { e.start_selection(arg(call, 1)?, arg(call, 2)?); Ok(Value::Null) }
            "extend_selection" => { e.extend_selection(arg(call, 1)?); Ok(Value::Null) }
            "finish_selection" => { e.finish_selection(); Ok(Value::Null) }
            "copy" => e.copy(arg(call, 1)?).map(|s| json!(s)),
            "paste" => e.paste(arg(call, 1)?, arg(call, 2)?).map(|_| Value::Null),
            "open_autocomplete" => Ok(json!(e.open_autocomplete())),
            "finish_autocomplete" => Ok(json!(e.finish_autocomplete(arg(call, 1)?))),
            "move_in_autocomplete" => Ok(json!(e.move_in_autocomplete(arg(call, 1)?))),
            "get_autocomplete" => ok(e.get_autocomplete()),
            "get_caret" => ok(e.get_caret()),
            "get_input_tree" => ok(e.get_input_tree()),
            "get_syntax_tree" => ok(e.get_syntax_tree()),
            "splice_at_range" => e.splice_at_range(arg(call, 1)?, JsValue(arg(call, 2)?)).map(|_| Value::Null).map_err(|e| e.0.to_string()),
            _ => Err(format!("no function {f}")),
        },
        (f, ..) => Err(format!("{f}: null pointer passed to rust")),
    };
    things.push(made);
    out
}
fn main() {
    if std::env::var("DEBUG").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let out = std::io::stdout();
    let mut out = out.lock();
    for line in std::io::stdin().lock().lines() {
        let calls: Vec<Vec<Value>> = serde_json::from_str(&line.unwrap()).unwrap();
        let mut things = vec![];
        let mut results = vec![];
        for c in calls {
            let n = things.len() + 1;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(&mut things, &c)));
            things.resize_with(n, || None);
            match r {
                Ok(Ok(v)) => results.push(json!([v])),
                Ok(Err(e)) => results.push(json!([null, e])),
                Err(_) => { results.push(json!([null, "unreachable", true])); break; } // the rest of the program is gone
            }
        }
        writeln!(out, "{}", to_value(results).unwrap()).unwrap();
    }
}
