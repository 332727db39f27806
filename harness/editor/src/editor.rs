//! The editor against a model of it: after every operation the document and the selection are what they should be.
use crate::{carets::*, gen::*, parse::*, sym::*};
use caret::{caret::*, math_editor::*, primitive::{primitive_edit::*, *}};
use input_tree::{direction::*, focus::*, node::*, row::*};
use parser::{autocomplete::*, parser::MathParser};
use std::rc::Rc;

type Ends = (Pos, Pos);
#[derive(Clone)]
struct Step { doc: InputRow, caret: Ends, doc_after: InputRow, caret_after: Ends }
pub struct Model { pub doc: InputRow, pub caret: Ends, undo: Vec<Step>, redo: Vec<Step>, pub rules: Vec<AutocompleteRule>, menu: Option<usize> }

/// What two ends select: a range of a row, or (None) cells of a table.
pub fn selected(root: &InputRow, a: &Pos, b: &Pos) -> Option<(Way, usize, usize)> {
    let mut k = 0;
    while k < a.0.len() && k < b.0.len() && a.0[k] == b.0[k] { k += 1; }
    if k < a.0.len() && k < b.0.len() && a.0[k].0 == b.0[k].0 && matches!(row_at(root, &a.0[..k]).values[a.0[k].0], InputNode::Container(InputNodeVariant::Table, _)) { return None; }
    let first = doc_cmp(&a.0, a.1, &b.0, b.1) <= 0;
    let end = |p: &Pos, lower: bool| if p.0.len() > k { if lower { p.0[k].0 } else { p.0[k].0 + 1 } } else { p.1 };
    Some((a.0[..k].to_vec(), end(a, first), end(b, !first)))
}

/// Where a position is after the elements lo..hi of a row were replaced by n others.
pub fn tracked(p: &Pos, way: &[(usize, usize)], lo: usize, hi: usize, n: usize) -> Pos {
    if p.0.len() < way.len() || p.0[..way.len()] != *way { return p.clone(); }
    if p.0.len() == way.len() {
        let o = if p.1 == hi { lo + n } else if p.1 > hi { p.1 - (hi - lo) + n } else { p.1.min(lo) };
        return (p.0.clone(), o);
    }
    let i = p.0[way.len()].0;
    if i < lo { return p.clone(); }
    if i < hi { return (way.to_vec(), lo); }
    let mut w = p.0.clone();
    w[way.len()].0 = i - (hi - lo) + n;
    (w, p.1)
}

impl Model {
    pub fn new() -> Self { Model { doc: InputRow::new(vec![]), caret: ((vec![], 0), (vec![], 0)), undo: vec![], redo: vec![], rules: vec![], menu: None } }
    pub fn sel(&self) -> Option<(Way, usize, usize)> { selected(&self.doc, &self.caret.0, &self.caret.1) }
    fn at(&mut self, p: Pos) { self.caret = (p.clone(), p); }
    fn edit(&mut self, doc: InputRow, caret: Ends) {
        self.undo.push(Step { doc: self.doc.clone(), caret: self.caret.clone(), doc_after: doc.clone(), caret_after: caret.clone() });
        self.redo.clear();
        self.doc = doc;
        self.caret = caret;
    }
    /// Replaces what is selected.
    pub fn replace(&mut self, new: &[InputNode]) {
        let (way, a, b) = self.sel().unwrap();
        let (lo, hi) = (a.min(b), a.max(b));
        let p = (way.clone(), lo + new.len());
        // replacing nothing by nothing: whether that is an edit is not specified
        if lo == hi && new.is_empty() { stop(); }
        let doc = spliced(&self.doc, &way, lo, hi - lo, new);
        self.edit(doc, (p.clone(), p));
    }
    pub fn splice(&mut self, way: &[(usize, usize)], lo: usize, hi: usize, new: &[InputNode]) {
        let c = (tracked(&self.caret.0, way, lo, hi, new.len()), tracked(&self.caret.1, way, lo, hi, new.len()));
        if lo == hi && new.is_empty() { stop(); }
        let doc = spliced(&self.doc, way, lo, hi - lo, new);
        self.edit(doc, c);
    }
    fn delete(&mut self, left: bool) {
        let (way, a, b) = self.sel().unwrap();
        if a != b { self.replace(&[]); return; }
        let all = positions(&self.doc);
        let i = all.iter().position(|p| p.0 == way && p.1 == a).unwrap();
        match remove_want(&self.doc, &all, i, left) {
            Want::Nothing => {}
            Want::Move(j) => self.at(all[j].clone()),
            Want::Edit(doc, p) => self.edit(doc, (p.clone(), p)),
        }
    }
    /// One step from a position; none at the end of the document.
    fn step(&self, p: &Pos, d: usize) -> Option<Pos> {
        if d >= 2 { return vertical_want(&self.doc, p, d == 2); }
        let all = positions(&self.doc);
        let i = all.iter().position(|q| q == p).unwrap();
        let j = if d == 0 { i.checked_sub(1)? } else { i + 1 };
        all.get(j).cloned()
    }
    pub fn go(&mut self, d: usize) {
        let (way, a, b) = self.sel().unwrap();
        let from = (way, if d == 0 || d == 2 { a.min(b) } else { a.max(b) });
        match self.step(&from, d) {
            Some(p) => self.at(p),
            None if a != b => self.at(from),
            None => {}
        }
    }
    fn extend(&mut self, d: usize) {
        let (way, _, b) = self.sel().unwrap();
        if let Some(p) = self.step(&(way, b), d) { self.caret.1 = p; }
    }
    /// The offers of the menu: (rule, how much of it, how many symbols), and which of them is selected.
    pub fn offers(&mut self) -> Option<(usize, Vec<(usize, usize, usize)>)> {
        let (way, a, b) = self.sel()?;
        if a != b { return None; }
        let mut v: Vec<(usize, usize, usize)> = vec![];
        for (i, r) in self.rules.iter().enumerate() {
            for (len, k) in crate::complete::oracle(&r.parser, &row_at(&self.doc, &way).values, a, 2) {
                // behind those that cover no more of their rule
                let at = v.iter().take_while(|x| x.1 <= len).count();
                v.insert(at, (i, len, k));
            }
        }
        if v.is_empty() { self.menu = None; return None; }
        let last = self.menu;
        let at = v.iter().position(|x| Some(x.0) == last).unwrap_or(0);
        self.menu = Some(v[at].0);
        Some((at, v))
    }
    /// What will be corrected when the caret leaves it.
    fn pending(&mut self) -> Option<(Way, usize, usize, usize)> {
        let (at, v) = self.offers()?;
        let (rule, len, k) = v[at];
        if len != self.rules[rule].parser.len() { return None; }
        let (way, a, _) = self.sel().unwrap();
        Some((way, a - k, a, rule))
    }
    fn correct(&mut self, p: Option<(Way, usize, usize, usize)>) {
        let (way, lo, hi, rule) = match p { None => return, Some(p) => p };
        let (w, a, _) = match self.sel() { None => return, Some(s) => s };
        if w == way && lo <= a && a <= hi { return; }
        reach("corrected");
        let new = self.rules[rule].result.clone();
        self.splice(&way, lo, hi, &new);
    }
    fn undo(&mut self) -> bool {
        match self.undo.pop() { None => false, Some(s) => { self.doc = s.doc.clone(); self.caret = s.caret.clone(); self.redo.push(s); true } }
    }
    fn redo(&mut self) -> bool {
        match self.redo.pop() { None => false, Some(s) => { self.doc = s.doc_after.clone(); self.caret = s.caret_after.clone(); self.undo.push(s); true } }
    }
}

pub const DIRS: [Direction; 4] = [Direction::Left, Direction::Right, Direction::Up, Direction::Down];

pub struct Both { pub editor: MathEditor, pub model: Model, clip: Option<(String, Vec<InputNode>)>, count: u8, pending: Option<(Way, usize, usize, usize)>, correcting: bool }
impl Both {
    pub fn new(parser: Rc<MathParser>) -> Self { Both { editor: MathEditor::new(parser), model: Model::new(), clip: None, count: 0, pending: None, correcting: false } }
    pub fn load(&mut self, nodes: Vec<InputNode>) {
        if nodes.is_empty() { self.same(); return; }
        self.model.splice(&[], 0, 0, &nodes);
        self.editor.splice_at_range(MinimalInputRowRange { row_indices: indices(&[]), start: Offset(0), end: Offset(0) }, nodes);
        self.same();
    }
    /// The editor shows what the model says.
    pub fn same(&self) {
        check(same_row(self.editor.get_input_tree(), &self.model.doc), "the document is what the operation makes of it");
        let c = self.editor.get_caret();
        check(c.len() == 1, "there is one selection");
        match (&c[0], self.model.sel()) {
            (MinimalCaretSelection::Row(r), Some((way, a, b))) => {
                check(path_of(&r.row_indices) == way && r.start.0 == a && r.end.0 == b, "the selection is what the operation makes of it");
                check(valid(self.editor.get_input_tree(), &(path_of(&r.row_indices), r.start.0)) && valid(self.editor.get_input_tree(), &(path_of(&r.row_indices), r.end.0)), "the selection is in the document");
            }
            (MinimalCaretSelection::Grid(_), None) => check(true, "cells are selected"),
            _ => check(false, "the selection is what the operation makes of it"),
        }
    }
    fn fresh(&mut self) -> InputNode { self.count += 1; InputNode::Symbol(((b'a' + self.count - 1) as char).to_string()) }
    /// One operation; if it changes nothing but moves the caret out of a completed rule's text, that is replaced.
    pub fn op_completing(&mut self, kind: usize) {
        match kind {
            22 | 23 => {
                reach("menu");
                let want = self.model.offers();
                if let Some((at, v)) = want { self.model.menu = Some(v[if kind == 22 { at.saturating_sub(1) } else { (at + 1).min(v.len() - 1) }].0); }
                self.editor.move_in_autocomplete(if kind == 22 { VerticalDirection::Up } else { VerticalDirection::Down });
            }
            24 => {
                let want = self.model.offers();
                let done = self.editor.finish_autocomplete(true).is_some();
                check(done == want.is_some(), "an offer can be accepted exactly if there is one");
                if let Some((at, v)) = want {
                    reach("accepted");
                    let (way, a, _) = self.model.sel().unwrap();
                    let new = self.model.rules[v[at].0].result.clone();
                    self.model.splice(&way, a - v[at].2, a, &new);
                }
            }
            26 => { let want = self.model.offers().is_some(); check(self.editor.open_autocomplete().is_some() == want, "the menu opens exactly if there is an offer"); }
            27 => { self.editor.focus(); self.editor.finish_selection(); self.editor.unfocus(); }
            25 => { check(self.editor.finish_autocomplete(false).is_none(), "an offer that is not accepted changes nothing"); }
            3 | 4 | 13 => { self.op(kind); return; }
            _ => {
                let edits = self.model.undo.len();
                self.pending = self.model.pending();
                self.correcting = true;
                self.op(kind);
                self.correcting = false;
                if self.model.undo.len() == edits { let p = self.pending.take(); self.model.correct(p); }
            }
        }
        self.same();
        self.same_menu();
    }
    fn same_menu(&mut self) {
        let want = self.model.offers();
        let rules = self.model.rules.clone();
        match (self.editor.get_autocomplete(), want) {
            (None, None) => {}
            (Some(g), Some((at, v))) => {
                reach("offered");
                let (i, m, p) = g.destructure();
                check(i == at && m.len() == v.len(), "the menu offers what matches before the caret and keeps its selection");
                if m.len() != v.len() { return; }
                for (x, y) in m.iter().zip(&v) { check(*x.rule == rules[y.0] && x.rule_match_length == y.1 && x.input_match_length == y.2, "the menu offers what matches before the caret, the least covered rule first"); }
                check(pos_of(&p) == self.model.caret.1, "the menu is at the caret");
            }
            _ => check(false, "there is a menu exactly if something matches before a caret without selection"),
        }
    }
    /// One operation. The kinds: 0 type, 1 backspace, 2 delete, 3 undo, 4 redo, 5-8 move, 9 splice, 10 paste, 11 click, 12 drag, 13 select all, 14-17 extend, 18 type two, 19 copy, 20 delete the selection, 21 paste nothing
    pub fn op(&mut self, kind: usize) {
        let cells = self.model.sel().is_none();
        // what selected cells should do is not implemented
        if cells && !matches!(kind, 3 | 4 | 5..=8 | 9 | 11 | 12 | 13) { stop(); }
        let (e, m) = (&mut self.editor, &mut self.model);
        match kind {
            0 | 18 => {
                let mut v = vec![];
                for _ in 0..1 + (kind == 18) as usize { self.count += 1; v.push(((b'a' + self.count - 1) as char).to_string()); }
                m.replace(&v.iter().map(|s| InputNode::Symbol(s.clone())).collect::<Vec<_>>());
                e.insert_at_caret(v);
            }
            1 => { m.delete(true); e.remove_at_caret(CaretRemoveMode::Left, MoveMode::Char); }
            2 => { m.delete(false); e.remove_at_caret(CaretRemoveMode::Right, MoveMode::Char); }
            20 => { m.replace(&[]); e.remove_at_caret(CaretRemoveMode::Range, MoveMode::Char); }
            3 => { reach("undo"); check(m.undo() == e.undo().is_some(), "there is something to undo exactly if something was edited"); }
            4 => { reach("redo"); check(m.redo() == e.redo().is_some(), "there is something to redo exactly if something was undone and nothing edited since"); }
            5..=8 => { if !cells { m.go(kind - 5); } e.move_caret(DIRS[kind - 5], MoveMode::Char); }
            14..=17 => { m.extend(kind - 14); e.select_with_caret(DIRS[kind - 14], MoveMode::Char); }
            9 => {
                let way = any_path(&m.doc);
                let n = row_at(&m.doc, &way).values.len();
                let (a, b) = (choose(n + 1), choose(n + 1));
                let mut v = vec![];
                if choose(2) == 1 { let x = self.fresh(); v = vec![x, InputNode::sup(InputRow::new(vec![]))]; }
                self.model.splice(&way, a.min(b), a.max(b), &v);
                self.editor.splice_at_range(MinimalInputRowRange { row_indices: indices(&way), start: Offset(a), end: Offset(b) }, v);
            }
            19 => {
                let (way, a, b) = m.sel().unwrap();
                let nodes = row_at(&m.doc, &way).values[a.min(b)..a.max(b)].to_vec();
                match e.copy(SerializedDataType::JsonInputTree) { Ok(t) => self.clip = Some((t, nodes)), Err(_) => check(false, "a selection can be copied") }
            }
            10 => {
                if let Some((text, nodes)) = self.clip.clone() {
                    reach("pasted");
                    m.replace(&nodes);
                    check(e.paste(text, Some(SerializedDataType::JsonInputTree)).is_ok(), "what was copied can be pasted");
                } else { stop(); }
            }
            21 => { check(e.paste("{\"version\":1,\"data\":[".into(), Some(SerializedDataType::JsonInputTree)).is_err(), "damaged data is not pasted"); }
            11 | 12 => {
                let all = positions(&m.doc);
                let p = all[choose(all.len())].clone();
                if kind == 11 { m.at(p.clone()); e.start_selection(minimal(&p), MoveMode::Char); }
                else { m.caret.1 = p.clone(); e.extend_selection(minimal(&p)); }
            }
            _ => { m.caret = ((vec![], 0), (vec![], m.doc.values.len())); e.select_all(); }
        }
        if !self.correcting { self.same(); }
    }
    pub fn syntax_tree_is_current(&mut self, parser: &MathParser) {
        let want = parser.parse(&self.model.doc.values);
        check(same_tree(self.editor.get_syntax_tree(), &want), "the syntax tree is that of the document");
    }
    /// Back to the beginning and to the end again.
    pub fn undo_all(&mut self) {
        while self.model.undo() { check(self.editor.undo().is_some(), "every edit can be undone"); self.same(); }
        check(self.editor.undo().is_none(), "nothing is left to undo at the beginning");
        check(self.model.doc.values.is_empty(), "undoing everything leads to the empty document");
        while self.model.redo() { check(self.editor.redo().is_some(), "every undone edit can be redone"); self.same(); }
        check(self.editor.redo().is_none(), "nothing is left to redo at the end");
        self.same();
    }
}

/// Operations of the given kinds, one after the other.
pub fn history(s: impl Source, ops: &[&[usize]]) {
    let parser = Rc::new(custom_parser(vec![], vec![]));
    let mut b = Both::new(parser);
    b.load(s.tree().root.values);
    for o in ops { b.op(o[choose(o.len())]); }
    b.undo_all();
}

/// The syntax tree is asked for between operations.
pub fn syntax(s: impl Source, ops: &[&[usize]]) {
    let parser = Rc::new(small_parser());
    parser.parse(&[]);
    let mut b = Both::new(parser.clone());
    b.load(s.tree().root.values);
    b.syntax_tree_is_current(&parser);
    for (i, o) in ops.iter().enumerate() {
        b.op(o[choose(o.len())]);
        // not after every operation: an earlier one may have left the tree to a later one
        if i + 1 == ops.len() || choose(2) == 1 { b.syntax_tree_is_current(&parser); }
    }
    if b.model.undo() { b.editor.undo(); b.syntax_tree_is_current(&parser); }
}

/// Typing, moving and using the menu with rules that overlap each other.
pub fn completing(k: usize, behind: usize, tree: bool, ops: &[&[usize]]) {
    let sym = |t: &str| InputNode::Symbol(t.into());
    // each is looked for before those above it
    let rules = vec![
        AutocompleteRule::new("ab", vec![InputNode::sup(InputRow::new(vec![sym("1")])), sym("2")]),
        AutocompleteRule::new("abc", vec![sym("3")]),
        AutocompleteRule::new("bb", vec![sym("4"), sym("5"), sym("6")]),
    ];
    let parser = Rc::new(custom_parser(vec![], rules.clone()));
    let mut b = Both::new(parser.clone());
    b.model.rules = rules.into_iter().rev().collect();
    let mut doc = vec![];
    for _ in 0..k { doc.push(sym_node()); }
    match choose(behind) {
        0 => {}
        1 => doc.push(InputNode::sup(InputRow::new(vec![sym("7")]))),
        2 => doc = vec![InputNode::fraction([InputRow::new(vec![]), InputRow::new(doc)]), sym("8")],
        _ => { doc.insert(0, InputNode::fraction([InputRow::new(vec![sym("9")]), InputRow::new(vec![])])); }
    }
    b.load(doc);
    b.op_completing(11);
    for o in ops {
        if tree { b.syntax_tree_is_current(&parser); }
        b.op_completing(o[choose(o.len())]);
    }
    if tree { b.syntax_tree_is_current(&parser); return; }
    b.undo_all();
}

/// The stacks of undo and redo by themselves, with any kind of action.
pub fn stacks(n: usize) {
    use caret::undo_redo_manager::UndoRedoManager;
    use input_tree::editing::invertible::Invertible;
    #[derive(Clone, PartialEq)]
    struct Action(u8, bool);
    impl Invertible for Action { type Inverse = Action; fn inverse(&self) -> Action { Action(self.0, !self.1) } }
    expect(&["undone", "redone", "discarded"]);
    let mut m: UndoRedoManager<Action> = if choose(2) == 0 { UndoRedoManager::new() } else { Default::default() };
    let mut all: Vec<Action> = vec![];
    let mut at = 0;
    for _ in 0..n {
        match choose(3) {
            0 => {
                let a = Action(any_u8(), any_bool());
                if at < all.len() { reach("discarded"); }
                all.truncate(at);
                all.push(a.clone());
                at += 1;
                m.push(a);
            }
            1 => {
                let want = if at > 0 { at -= 1; reach("undone"); Some(all[at].inverse()) } else { None };
                check(m.undo() == want, "undo gives the inverse of the last action that is not undone");
            }
            _ => {
                let want = if at < all.len() { at += 1; reach("redone"); Some(all[at - 1].clone()) } else { None };
                check(m.redo() == want, "redo gives the action that was undone last, unless there was a new one");
            }
        }
        check(m.can_undo() == (at > 0) && m.can_redo() == (at < all.len()), "it is known whether there is something to undo or redo");
    }
}
