#![allow(unused)]
//! Shorthands for the demonstrations.
pub use caret::{caret::*, math_editor::*, primitive::{primitive_edit::*, *}};
pub use input_tree::{direction::*, editing::{editable::Editable, invertible::Invertible, *}, focus::*, grid::*, input_tree::InputTree, node::*, row::*};
pub use parser::{autocomplete::*, make_parser::*, parse_module::*, parse_modules::*, parser::MathParser, rule_collections::{arithmetic_rules::*, built_in_rules::*, calculus_rules::*, collections_rules::*,
    comparison_rules::*, core_rules::*, function_rules::*, logic_rules::*, string_rules::*}, syntax_tree::*};
pub use std::rc::Rc;

pub fn row(s: &str) -> InputRow { InputRow::new(s.chars().map(|c| InputNode::symbol(c.to_string())).collect()) }
pub fn nodes(s: &str) -> Vec<InputNode> { row(s).values }
pub fn ri(p: &[(usize, usize)]) -> RowIndices { RowIndices::new(p.iter().map(|p| RowIndex(p.0, p.1)).collect()) }
pub fn at(p: &[(usize, usize)], o: usize) -> MinimalInputRowPosition { MinimalInputRowPosition { row_indices: ri(p), offset: Offset(o) } }
pub fn place<'a>(t: &'a InputTree, p: &[(usize, usize)], o: usize) -> InputRowPosition<'a> { InputRowPosition::new(t.root_focus().walk_down_indices(&ri(p)), Offset(o)) }
pub fn table(w: usize, cells: &[&str]) -> InputNode { InputNode::table(cells.iter().map(|c| row(c)).collect(), w) }

/// All modules, in the order in which the web page adds them.
pub fn full_parser() -> (MathParser, ParseModules) {
    let mut m = ParseModules::new();
    let b = Rc::new(BuiltInRules::new(&mut m));
    let core = Rc::new(CoreRules::new(&mut m, &b));
    let v: Vec<Rc<dyn ParseModule>> = vec![b.clone(), core, Rc::new(ArithmeticRules::new(&mut m)), Rc::new(CalculusRules::new(&mut m)), Rc::new(CollectionsRules::new(&mut m)),
        Rc::new(ComparisonRules::new(&mut m)), Rc::new(FunctionRules::new(&mut m, &b)), Rc::new(LogicRules::new(&mut m)), Rc::new(StringRules::new(&mut m))];
    (MathParser::new(ParseModuleCollection::new(b, v)), m)
}
pub struct Custom { pub rules: Vec<ParseRule>, pub auto: Vec<AutocompleteRule> }
impl ParseModule for Custom {
    fn get_module_name(&self) -> &str { "Custom" }
    fn get_rules(&self) -> &[ParseRule] { &self.rules }
    fn get_autocomplete_rules(&self) -> &[AutocompleteRule] { &self.auto }
}
/// A parser with the built-in and the core rules and a module of one's own.
pub fn custom_parser(f: impl FnOnce(&mut ParseModules) -> Vec<ParseRule>) -> (MathParser, ParseModules) {
    let mut m = ParseModules::new();
    let b = Rc::new(BuiltInRules::new(&mut m));
    let core = Rc::new(CoreRules::new(&mut m, &b));
    let rules = f(&mut m);
    (MathParser::new(ParseModuleCollection::new(b.clone(), vec![b as Rc<dyn ParseModule>, core, Rc::new(Custom { rules, auto: vec![] })])), m)
}
pub fn name(m: &mut ParseModules, s: &str) -> SyntaxNodeNameId { m.with_rule_name(PathIdentifier::new(vec!["Custom".into(), s.into()])) }
pub fn parsed(p: &(MathParser, ParseModules), v: &[InputNode]) -> String { p.0.parse(v).with_display(p.1.get_rule_name_map()).to_string() }
pub fn editor() -> MathEditor { MathEditor::new(Rc::new(full_parser().0)) }
pub fn type_in(e: &mut MathEditor, s: &str) { for c in s.chars() { e.insert_at_caret(vec![c.to_string()]); } }
pub fn doc(e: &MathEditor) -> String { e.get_input_tree().to_string() }
