pub mod carets;
pub mod complete;
pub mod editor;
pub mod effort;
#[path = "../../common/gen.rs"]
pub mod gen;
pub mod grammar;
pub mod parse;
pub mod ser;
#[path = "../../common/sym.rs"]
pub mod sym;
pub mod wire;
use gen::{Deep, Shape, Wide};

macro_rules! harnesses {
    ($($name:ident => $body:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $body })*
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), || { $body })),*];
    };
}
/// All kinds of operations of the editor.
const ALL: [usize; 22] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21];
/// What one does while typing.
const TYPING: [usize; 9] = [0, 1, 2, 3, 4, 5, 6, 14, 18];
/// What changes the document.
const CHANGES: [usize; 9] = [0, 1, 2, 3, 4, 5, 9, 13, 18];
const ALL_COMPLETING: [usize; 24] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 22, 23, 24, 25, 26, 27];
harnesses! {
    parse_tree_q => parse::lossless(|| gen::gen_tree(Shape::new(2, 2, 2).kinds(6)).root);
    parse_wide_q => parse::lossless(|| gen::Source::tree(Wide(4, 4)).root);
    parse_nested_q => parse::lossless(|| gen::Source::tree(Deep(6)).root);
    parse_text_q => parse::lossless(|| input_tree::row::InputRow::new(vec![gen::text_node(1)]));
    parse_flat_q => parse::lossless(|| grammar::ascii_row(3));
    parse_mixed_q => parse::lossless(|| grammar::palette(1, 5, "a+( ⇧"));
    parse_scripts_q => parse::lossless(|| grammar::palette(1, 5, "a+ ⇩∑"));
    strength_sides_q => grammar::strengths(4, "plrq", false);
    strength_infix_q => grammar::strengths(5, "lr-q", false);
    strength_brackets_q => grammar::strengths(6, "pl(", false);
    strength_mixed_q => grammar::strengths(7, "plmrq", true);
    strength_chain_q => grammar::strengths(7, "lmrs", true);
    meaning_any_q => grammar::meaning(|| grammar::ascii_row(3));
    meaning_limit_q => grammar::meaning(|| grammar::palette(3, 7, "lims"));
    meaning_string_q => grammar::meaning(|| grammar::palette(1, 6, "\"\\a"));
    meaning_number_q => grammar::meaning(|| grammar::palette(1, 7, "1.a"));
    meaning_brackets_q => grammar::meaning(|| grammar::palette(1, 6, "(),a"));
    meaning_spaces_q => grammar::meaning(|| grammar::palette(1, 5, "a +(-"));
    meaning_scripts_q => grammar::meaning(|| grammar::palette(1, 5, "a+⇩⇧∑"));
    meaning_cells_q => grammar::meaning(|| grammar::palette(1, 4, "a÷√▦⇧!("));
    meaning_levels_q => grammar::meaning(|| grammar::expression(3, "=,<>≥≤+-∧∨¬⇔⟹*/", "", ""));
    meaning_signs_q => grammar::meaning(|| grammar::expression(3, "=<+*", "-∑", "!"));
    spaces_q => grammar::spaces(1, || grammar::palette(1, 4, "a+(),!"));
    spaces_expression_q => grammar::spaces(1, || grammar::expression(2, "+,", "-", "!⇧"));
    spaces_scripts_q => grammar::spaces(1, || grammar::palette(1, 4, "a+⇩⇧∑"));
    effort_any_q => effort::any_row(4);
    effort_nested_q => effort::nested(10);
    effort_long_q => effort::repeated(8);
    effort_open_q => effort::open(6);
    effort_unknown_q => effort::unknown(8);
    brackets_any_q => grammar::bracketed(|| { let n = sym::pick(1, 2); grammar::ascii_row(n) });
    brackets_mixed_q => grammar::bracketed(|| grammar::palette(1, 3, "a+-⇧÷!1, "));
    cells_tree_q => grammar::cells_alone(|| gen::gen_tree(Shape::new(2, 2, 2).kinds(6)).root);
    cells_wide_q => grammar::cells_alone(|| gen::Source::tree(Wide(3, 3)).root);
    priority_long_q => grammar::priority(2, 2);
    priority_many_q => grammar::priority(3, 1);
    names_q => grammar::names(3);
    names_identifiers_q => grammar::identifiers(3, 3);
    names_printed_any_q => grammar::printed(|| grammar::ascii_row(2));
    names_printed_q => grammar::printed(|| gen::gen_tree(Shape::new(2, 2, 2).kinds(6)).root);
    names_printed_wide_q => grammar::printed(|| gen::Source::tree(Wide(3, 3)).root);
    wire_places_q => wire::places(3, false);
    wire_text_q => wire::places(1, true);
    wire_choices_q => wire::choices();
    wire_documents_q => wire::documents(Shape::new(3, 3, 2).kinds(6));
    wire_documents_wide_q => wire::documents(Wide(4, 3));
    wire_trees_q => wire::trees(|| gen::gen_tree(Shape::new(2, 2, 2).kinds(6)).root, false);
    wire_trees_any_q => wire::trees(|| grammar::ascii_row(2), true);
    wire_rules_q => wire::rules(Shape::marks(2, 2, 1).kinds(6), 2);
    spaces_scripts_t => grammar::spaces(1, || grammar::palette(1, 5, "a+⇩⇧∑"));
    wire_places_t => wire::places(8, false);
    wire_text_t => wire::places(2, true);
    wire_documents_t => wire::documents(Shape::new(4, 4, 3).kinds(6));
    wire_documents_wide_t => wire::documents(Wide(7, 5));
    wire_trees_t => wire::trees(|| gen::gen_tree(Shape::new(3, 3, 2).kinds(6)).root, false);
    wire_trees_any_t => wire::trees(|| grammar::ascii_row(3), true);
    wire_rules_t => wire::rules(Shape::new(2, 2, 1).kinds(6), 2);
    parse_tree_t => parse::lossless(|| gen::gen_tree(Shape::new(3, 3, 2).kinds(6)).root);
    parse_wide_t => parse::lossless(|| gen::Source::tree(Wide(6, 6)).root);
    parse_nested_t => parse::lossless(|| gen::Source::tree(Deep(9)).root);
    parse_flat_t => parse::lossless(|| grammar::ascii_row(4));
    parse_mixed_t => parse::lossless(|| grammar::palette(1, 6, "a+( ⇧"));
    parse_scripts_t => parse::lossless(|| grammar::palette(1, 6, "a+ ⇩∑"));
    strength_sides_t => grammar::strengths(5, "plrq", false);
    strength_infix_t => grammar::strengths(6, "lr-q", false);
    strength_brackets_t => grammar::strengths(7, "pl(", false);
    strength_mixed_t => grammar::strengths(9, "plmrq", true);
    strength_chain_t => grammar::strengths(9, "lmrs", true);
    meaning_any_t => grammar::meaning(|| grammar::ascii_row(4));
    meaning_limit_t => grammar::meaning(|| grammar::palette(3, 9, "limsupnf"));
    meaning_string_t => grammar::meaning(|| grammar::palette(1, 8, "\"\\a"));
    meaning_number_t => grammar::meaning(|| grammar::palette(1, 9, "1.a"));
    meaning_brackets_t => grammar::meaning(|| grammar::palette(1, 8, "(),a"));
    meaning_spaces_t => grammar::meaning(|| grammar::palette(1, 6, "a +(-"));
    meaning_scripts_t => grammar::meaning(|| grammar::palette(1, 6, "a+⇩⇧∑"));
    meaning_cells_t => grammar::meaning(|| grammar::palette(1, 5, "a÷√▦⇧!("));
    meaning_levels_t => grammar::meaning(|| grammar::expression(4, "=,<>≥≤+-∧∨¬⇔⟹*/", "", ""));
    meaning_signs_t => grammar::meaning(|| grammar::expression(4, "=<+*", "-∑", "!"));
    spaces_t => grammar::spaces(2, || grammar::palette(1, 4, "a+(),!"));
    spaces_expression_t => grammar::spaces(1, || grammar::expression(2, "+*,=", "-∑", "!⇧⇩"));
    effort_any_t => effort::any_row(5);
    effort_long_t => effort::repeated(16);
    effort_nested_t => effort::nested(16);
    brackets_any_t => grammar::bracketed(|| { let n = sym::pick(1, 3); grammar::ascii_row(n) });
    brackets_mixed_t => grammar::bracketed(|| grammar::palette(1, 5, "a+-⇧÷!1, "));
    cells_tree_t => grammar::cells_alone(|| gen::gen_tree(Shape::new(3, 3, 2).kinds(6)).root);
    cells_wide_t => grammar::cells_alone(|| gen::Source::tree(Wide(5, 5)).root);
    priority_long_t => grammar::priority(3, 3);
    priority_many_t => grammar::priority(4, 2);
    names_t => grammar::names(4);
    names_identifiers_t => grammar::identifiers(4, 4);
    names_printed_any_t => grammar::printed(|| grammar::ascii_row(3));
    names_printed_t => grammar::printed(|| gen::gen_tree(Shape::new(3, 3, 2).kinds(6)).root);
    names_printed_wide_t => grammar::printed(|| gen::Source::tree(Wide(5, 5)).root);
    complete_match_q => complete::matching(4, 3, 2, 1);
    complete_wide_q => complete::matching(3, 2, 1, 2);
    complete_empty_q => complete::empty(2);
    complete_rules_q => complete::rules(3);
    edit_q => editor::history(Shape::new(2, 2, 1), &[&ALL, &ALL]);
    edit_wide_q => editor::history(Wide(2, 1), &[&ALL, &ALL]);
    edit_typing_q => editor::history(Shape::marks(0, 0, 0), &[&TYPING as &[usize]; 5]);
    edit_paste_q => editor::history(Shape::new(2, 2, 1), &[&[11], &[12], &[19], &[11, 13], &[10]]);
    edit_select_q => editor::history(Shape::marks(2, 2, 1), &[&[11], &[12, 14, 15, 16, 17], &[14, 15, 16, 17], &[0, 1, 2, 5, 6, 7, 8, 18, 20]]);
    edit_stacks_q => editor::stacks(8);
    edit_complete_q => editor::completing(2, 4, false, &[&ALL_COMPLETING]);
    edit_menu_away_q => editor::completing(2, 1, false, &[&[23], &[5, 6, 11], &[5, 6, 11]]);
    edit_menu_q => editor::completing(3, 1, false, &[&[22, 23], &ALL_COMPLETING]);
    edit_syntax_q => editor::syntax(Shape::new(1, 1, 1), &[&CHANGES, &CHANGES]);
    edit_syntax_paste_q => editor::syntax(Shape::new(2, 2, 1), &[&[13], &[19], &[11], &[10]]);
    edit_syntax_menu_q => editor::completing(2, 4, true, &[&ALL_COMPLETING]);
    ser_round_q => ser::round(Shape::new(3, 3, 2));
    ser_wide_q => ser::round(Wide(4, 3));
    ser_nested_q => ser::round(Deep(9));
    ser_text_q => ser::round_text(2, 1);
    ser_table_q => ser::round_table(5, 4);
    ser_width_q => ser::any_width(12);
    ser_damaged_q => ser::damaged();
    caret_side_q => carets::horizontal(Shape::new(3, 3, 2).kinds(8));
    caret_side_wide_q => carets::horizontal(Wide(5, 4));
    caret_side_nested_q => carets::horizontal(Deep(9));
    caret_range_q => carets::horizontal_range(Shape::new(3, 3, 2).kinds(6));
    caret_range_wide_q => carets::horizontal_range(Wide(5, 4));
    caret_up_q => carets::vertical(Shape::new(3, 3, 2).kinds(8));
    caret_up_wide_q => carets::vertical(Wide(5, 4));
    caret_up_nested_q => carets::vertical(Deep(9));
    caret_select_q => carets::selection(Shape::new(3, 3, 1).kinds(8));
    caret_select_wide_q => carets::selection(Wide(3, 3));
    caret_select_nested_q => carets::selection(Deep(6));
    caret_remove_q => carets::remove(Shape::new(3, 3, 2).kinds(8));
    caret_remove_wide_q => carets::remove(Wide(4, 4));
    caret_remove_nested_q => carets::remove(Deep(7));
    caret_replace_q => carets::replace(Shape::new(3, 3, 1).kinds(6), 2);
    caret_replace_wide_q => carets::replace(Wide(4, 4), 1);
    caret_replace_nested_q => carets::replace(Deep(7), 1);
    complete_match_t => complete::matching(5, 4, 2, 1);
    complete_wide_t => complete::matching(3, 3, 1, 2);
    complete_bytes_t => complete::matching(2, 2, 1, 3);
    complete_rules_t => complete::rules(4);
    ser_round_t => ser::round(Shape::new(4, 4, 3));
    ser_wide_t => ser::round(Wide(7, 5));
    ser_nested_t => ser::round(Deep(18));
    ser_text_t => ser::round_text(2, 2);
    ser_table_t => ser::round_table(8, 6);
    ser_width_t => ser::any_width(40);
    caret_side_t => carets::horizontal(Shape::new(4, 4, 3).kinds(8));
    caret_side_wide_t => carets::horizontal(Wide(8, 7));
    caret_side_nested_t => carets::horizontal(Deep(20));
    caret_range_t => carets::horizontal_range(Shape::new(4, 4, 2).kinds(8));
    caret_range_wide_t => carets::horizontal_range(Wide(7, 6));
    caret_up_t => carets::vertical(Shape::new(4, 4, 3).kinds(8));
    caret_up_wide_t => carets::vertical(Wide(8, 7));
    caret_up_nested_t => carets::vertical(Deep(20));
    caret_select_t => carets::selection(Shape::new(4, 4, 2).kinds(8));
    caret_select_wide_t => carets::selection(Wide(5, 5));
    caret_select_nested_t => carets::selection(Deep(12));
    caret_remove_t => carets::remove(Shape::new(4, 4, 2).kinds(8));
    caret_remove_wide_t => carets::remove(Wide(7, 6));
    caret_remove_nested_t => carets::remove(Deep(16));
    caret_replace_t => carets::replace(Shape::new(4, 4, 2).kinds(8), 2);
    caret_replace_wide_t => carets::replace(Wide(6, 6), 2);
    caret_replace_nested_t => carets::replace(Deep(16), 2);
    edit_t => editor::history(Shape::new(1, 1, 1), &[&ALL as &[usize]; 3]);
    edit_more_t => editor::history(Shape::new(3, 3, 1), &[&ALL as &[usize]; 2]);
    edit_wide_t => editor::history(Wide(3, 3), &[&ALL as &[usize]; 2]);
    edit_typing_t => editor::history(Shape::marks(0, 0, 0), &[&TYPING as &[usize]; 6]);
    edit_paste_t => editor::history(Shape::new(3, 3, 1), &[&[11], &[12], &[19], &[11, 13], &[10]]);
    edit_select_t => editor::history(Shape::marks(3, 3, 1), &[&[11], &[12, 14, 15, 16, 17], &[14, 15, 16, 17], &[0, 1, 2, 5, 6, 7, 8, 18, 20]]);
    edit_stacks_t => editor::stacks(10);
    edit_complete_t => editor::completing(2, 4, false, &[&ALL_COMPLETING as &[usize]; 2]);
    edit_menu_away_t => editor::completing(3, 1, false, &[&[23], &[5, 6, 11], &[5, 6, 11]]);
    edit_menu_t => editor::completing(4, 2, false, &[&[22, 23], &ALL_COMPLETING]);
    edit_syntax_t => editor::syntax(Shape::new(2, 2, 1), &[&CHANGES, &CHANGES]);
    edit_syntax_more_t => editor::syntax(Shape::marks(0, 0, 0), &[&CHANGES, &CHANGES, &CHANGES]);
    edit_syntax_menu_t => editor::completing(3, 4, true, &[&ALL_COMPLETING]);
}
