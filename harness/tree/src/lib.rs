pub mod edits;
#[path = "../../common/gen.rs"]
pub mod gen;
pub mod gridx;
pub mod nav;
pub mod order;
pub mod print;
#[path = "../../common/sym.rs"]
pub mod sym;
pub mod track;
use gen::{Deep, Shape, Wide};

macro_rules! harnesses {
    ($($name:ident => $body:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $body })*
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), || { $body })),*];
    };
}
harnesses! {
    row_edit_q => edits::row_edit(Shape::new(3, 3, 1), 2, 2);
    row_edit_deep_q => edits::row_edit_deep(3);
    row_edit_wide_q => edits::row_edit_wide(5, 4, 5);
    row_edit_nested_q => edits::row_edit_nested(9);
    row_edit_long_q => edits::row_edit_long(40, 4);
    history_flat_q => edits::history_flat(3, 5, 1);
    row_edit_text_q => edits::row_edit_text();
    history_q => edits::history(Shape::new(2, 2, 1).kinds(4), 3, 2);
    history_grid_q => edits::history_grid(2, 2, 3, 1);
    grid_q => edits::grid(5, 4, 3, 0);
    grid_nested_q => edits::grid(3, 3, 2, 1);
    cell_edit_q => edits::cell_edit(5, 5);
    track_indices_q => track::indices_any(3, 5, 1 << 20);
    track_tree_q => track::on_tree(Shape::marks(3, 3, 1), 2, 1);
    track_insertion_q => track::at_insertion(1 << 20);
    track_elsewhere_q => track::table_elsewhere(3, 1 << 20);
    track_table_q => track::table_above(2, 2);
    order_pair_q => order::pair(5, (1 << 62) - 1);
    order_triple_q => order::triple(2, (1 << 62) - 1);
    order_tree_q => order::on_tree(Shape::marks(4, 3, 2).kinds(4));
    span_q => order::span(Shape::marks(3, 3, 2).kinds(5));
    span_deep_q => order::span_deep(3);
    range_accessors_q => order::range_accessors(Shape::new(3, 3, 1));
    offsets_q => order::offsets(8);
    walk_q => nav::walk(Shape::new(3, 3, 2));
    walk_deep_q => nav::walk_deep(4);
    any_index_q => nav::any_index(Shape::new(3, 3, 1));
    bad_way_q => nav::bad_way(Shape::new(3, 2, 2).kinds(4));
    row_mut_q => nav::row_mut(Shape::new(3, 1, 1).kinds(8));
    paths_q => nav::paths(2, 1 << 40);
    grid_index_q => gridx::index(4, 4);
    grid_linear_q => gridx::linear(6, 5);
    grid_steps_q => gridx::steps(5, 5);
    grid_construct_q => gridx::construct(12);
    rectangle_q => gridx::rectangle(5, 5);
    view_q => gridx::view(4, 4);
    empty_rectangle_q => gridx::empty_rectangle();
    selection_q => gridx::selection(4, 3);
    print_structure_q => print::structure(Shape::new(3, 3, 2));
    print_symbols_q => print::symbols(2, 1);
    print_wide_q => print::structure(Wide(4, 3));
    print_nested_q => print::structure(Deep(9));
    order_wide_q => order::on_tree(Wide(5, 4));
    order_nested_q => order::on_tree(Deep(8));
    span_wide_q => order::span(Wide(5, 4));
    span_nested_q => order::span(Deep(8));
    accessors_wide_q => order::range_accessors(Wide(4, 3));
    walk_wide_q => nav::walk(Wide(5, 4));
    walk_nested_q => nav::walk(Deep(14));
    any_index_wide_q => nav::any_index(Wide(5, 4));
    track_wide_q => track::on_tree(Wide(3, 3), 3, 1);
    track_nested_q => track::on_tree(Deep(5), 1, 1);
    range_edits_wide_q => edits::range_edits(Wide(4, 4), 4);
    range_edits_nested_q => edits::range_edits(Deep(7), 1);
    print_tables_q => print::tables(11, 3);

    grid_large_q => edits::grid_large(&[(12, 9), (1, 20), (20, 1), (3, 33)], 9, 0);
    grid_deep_q => edits::grid(2, 2, 1, 2);
    grid_deep_t => edits::grid(2, 2, 1, 3);
    row_edit_huge_q => edits::row_edit_huge(400);
    history_long_q => edits::history_long(10);
    history_long_t => edits::history_long(13);
    range_edits_long_q => edits::range_edits(edits::Long(14), 9);
    order_deep_q => order::pair_deep(20, (1 << 62) - 1);
    span_long_q => order::span(edits::Long(24));
    walk_long_q => nav::walk(edits::Long(400));
    any_index_long_q => nav::any_index(edits::Long(40));
    print_texts_q => print::texts(5, 70);
    print_texts_t => print::texts(6, 300);
    print_two_q => print::two(Shape::new(2, 2, 1).kinds(8), Shape::new(2, 2, 1).kinds(8));
    grid_large_cells_q => gridx::large(&[(17, 13), (1, 300), (300, 1), (40, 9)]);
    rectangle_large_q => gridx::rectangle_large(&[(17, 13), (1, 300), (300, 1), (40, 9)]);
    row_edit_t => edits::row_edit(Shape::new(4, 4, 2), 2, 3);
    row_edit_deep_t => edits::row_edit_deep(5);
    row_edit_wide_t => edits::row_edit_wide(8, 7, 9);
    row_edit_nested_t => edits::row_edit_nested(20);
    row_edit_long_t => edits::row_edit_long(80, 9);
    history_flat_t => edits::history_flat(4, 5, 2);
    history_t => edits::history(Shape::new(3, 3, 1).kinds(5), 3, 2);
    history_grid_t => edits::history_grid(2, 2, 4, 1);
    grid_t => edits::grid(8, 7, 5, 0);
    grid_nested_t => edits::grid(5, 5, 4, 1);
    cell_edit_t => edits::cell_edit(8, 8);
    track_indices_t => track::indices_any(4, 7, (1 << 62) - 1);
    track_tree_t => track::on_tree(Shape::marks(3, 3, 2), 2, 1);
    track_elsewhere_t => track::table_elsewhere(4, (1 << 62) - 1);
    track_twice_q => track::on_tree(Shape::marks(2, 2, 1).kinds(3), 2, 2);
    track_twice_t => track::on_tree(Shape::marks(3, 3, 1).kinds(3), 2, 2);
    track_wide_t => track::on_tree(Wide(4, 3), 3, 1);
    track_nested_t => track::on_tree(Deep(7), 1, 1);
    order_wide_t => order::on_tree(Wide(7, 6));
    order_nested_t => order::on_tree(Deep(16));
    span_wide_t => order::span(Wide(7, 6));
    span_nested_t => order::span(Deep(16));
    range_edits_wide_t => edits::range_edits(Wide(5, 4), 5);
    range_edits_nested_t => edits::range_edits(Deep(14), 1);
    order_pair_t => order::pair(9, (1 << 62) - 1);
    order_triple_t => order::triple(3, (1 << 62) - 1);
    order_tree_t => order::on_tree(Shape::marks(4, 4, 3));
    span_t => order::span(Shape::marks(4, 4, 3));
    span_deep_t => order::span_deep(4);
    range_accessors_t => order::range_accessors(Shape::new(4, 4, 2));
    offsets_t => order::offsets(20);
    walk_t => nav::walk(Shape::new(4, 4, 3));
    walk_deep_t => nav::walk_deep(6);
    any_index_t => nav::any_index(Shape::new(4, 4, 2));
    bad_way_t => nav::bad_way(Shape::new(4, 3, 2));
    paths_t => nav::paths(5, (1 << 62) - 1);
    grid_index_t => gridx::index(6, 6);
    grid_linear_t => gridx::linear(12, 9);
    grid_steps_t => gridx::steps(6, 6);
    grid_construct_t => gridx::construct(30);
    rectangle_t => gridx::rectangle(7, 7);
    view_t => gridx::view(6, 6);
    selection_t => gridx::selection(6, 5);
    print_structure_t => print::structure(Shape::new(4, 4, 3));
    print_symbols_t => print::symbols(2, 2);
    print_tables_t => print::tables(101, 3);
    range_edits_t => edits::range_edits(Shape::new(4, 4, 2), 2);
    edit_extent_q => edits::extent(3);
    edit_extent_t => edits::extent(6);
    range_edits_q => edits::range_edits(Shape::new(3, 3, 1), 2);
}
