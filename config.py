"""What is built and what decides each property. Harness names refer to harness/<crate>/src/lib.rs, where the bounds are arguments."""
CRATES = {
    "tree": {"lib": "tree_harness", "local": ["input_tree", "tree_harness"], "repo": ["aftermath-core/input_tree/src", "aftermath-core/input_tree/Cargo.toml"]},
    "editor": {"lib": "editor_harness", "local": ["input_tree", "parser", "caret", "serialization", "editor_harness", "chumsky"], "extra": ["harness/shims"],
               "repo": ["aftermath-core/input_tree/src", "aftermath-core/input_tree/Cargo.toml", "aftermath-core/parser/src", "aftermath-core/caret/src", "aftermath-core/serialization/src"]},
    # the page's TypeScript, compiled from /repo/src by page/instrument.js on every run
    "page": {},
}

SYM = "symbol characters are solver variables over all of ASCII; structure is enumerated by forking on solver variables"
BIG = "indices and offsets are solver variables"
CHUMSKY = ["the parser combinator crate chumsky is not available offline; a stand-in with the documented behaviour of the combinators used (harness/shims/chumsky) takes its place, on which the repository's own parser tests pass"]
PAGE = "concolic symbolic execution of the TypeScript in /repo/src, compiled with every operation instrumented; z3 decides every branch and assertion"
BROWSER = ["boxes and caret positions come from the browser: boxes hold the carets and boxes below them, carets of a row share its baseline and are in order from left to right; pixels are whole numbers",
           "an own small implementation of the parts of the DOM that are used (page/dom.js)"]
PROPERTIES = {
    "C01": {
        "quick": [("tree", ["row_edit_q", "row_edit_deep_q", "row_edit_wide_q", "row_edit_nested_q", "row_edit_long_q", "history_q", "history_flat_q", "history_grid_q", "grid_q", "grid_nested_q", "grid_large_q", "grid_deep_q", "row_edit_huge_q", "history_long_q"])],
        "thorough": [("tree", ["row_edit_t", "row_edit_deep_t", "row_edit_wide_t", "row_edit_nested_t", "row_edit_long_t", "history_t", "history_flat_t", "history_grid_t", "grid_t", "grid_nested_t", "grid_large_q", "grid_deep_t", "row_edit_huge_q", "history_long_t"])],
        "bounds": {
            "quick": "1 edit: trees of up to 3 elements (symbol, superscript, fraction, root, 2x2 table; one container level), chains of 3 nested containers of any kinds and of 9 of alternating kinds, rows of up to 6 elements with one container of any kind whose cell has up to 4 (up to 5 inserted), a row of 40; histories of up to 3 edits of up to 2 elements on trees of up to 2 elements, of 5 on rows of up to 3 symbols, of 3 row or grid edits on a table of up to 2x2; tables up to 5x4 (nested 3x3) with 1 grid edit of up to 3 (2) rows or columns; rows of 400 with up to 300 elements inserted or deleted, tables of 12x9, 1x20, 20x1 and 3x33 with up to 9, 2x2 tables two containers deep, histories of 10 edits on one row; " + SYM,
            "thorough": "as quick with: trees of up to 4 elements and 2 container levels; chains of 5 (any kinds) and 20 (alternating); rows of up to 9 elements with up to 9 inserted; a row of 80; histories of 3 edits on trees of up to 3 elements, 5 edits of up to 2 elements on rows, 4 on tables; tables up to 8x7 (nested 5x5) with up to 5 (4) rows or columns; " + SYM,
        },
        "outside": "longer histories, larger trees and tables; edits that are not valid for the document; deleting every column of a table (refused by the code)",
    },
    "C02": {
        "quick": [("tree", ["row_edit_q", "row_edit_deep_q", "row_edit_wide_q", "row_edit_nested_q", "row_edit_long_q", "row_edit_text_q", "cell_edit_q", "row_edit_huge_q", "history_long_q"])],
        "thorough": [("tree", ["row_edit_t", "row_edit_deep_t", "row_edit_wide_t", "row_edit_nested_t", "row_edit_long_t", "row_edit_text_q", "cell_edit_t", "row_edit_huge_q", "history_long_t"])],
        "bounds": {
            "quick": "trees of up to 3 elements and 1 container level, chains of 3 nested containers of any kinds and of 9 of alternating kinds, rows of up to 6 elements with one container whose cell has up to 4, a row of 40 elements, symbols of up to 2 characters of 1-4 bytes, tables up to 5x5; up to 5 inserted elements (or a fraction, or a table between symbols), deletions of any length, at every offset; rows of 400 with up to 300 elements inserted or deleted around 8 places; " + SYM,
            "thorough": "trees of up to 4 elements and 2 container levels, chains of 5 and 20, rows of up to 9 elements with up to 9 inserted, a row of 80 elements, tables up to 8x8; " + SYM,
        },
        "outside": "larger trees, rows and insertions",
    },
    "C03": {
        "quick": [("tree", ["grid_q", "grid_nested_q", "cell_edit_q", "grid_large_q", "grid_deep_q"])],
        "thorough": [("tree", ["grid_t", "grid_nested_t", "cell_edit_t", "grid_large_q", "grid_deep_t"])],
        "bounds": {
            "quick": "tables of 1x1 to 5x4 in a row of up to 3 elements with 1 to 3 rows or columns, and up to 3x3 inside a fraction, root or table with 1 or 2; every place; cells empty, one symbol, or an element; 12x9, 1x20, 20x1 and 3x33 with up to 9; up to 2x2 two containers deep with 1; " + SYM,
            "thorough": "tables up to 8x7 with up to 5 rows or columns; nested up to 5x5 with up to 4; " + SYM,
        },
        "outside": "larger tables; deleting every column (refused by the code); grid edits on elements that are not tables",
    },
    "C04": {
        "quick": [("tree", ["track_indices_q", "track_insertion_q", "track_tree_q", "track_wide_q", "track_nested_q", "track_twice_q", "track_elsewhere_q", "track_table_q"])],
        "thorough": [("tree", ["track_indices_t", "track_insertion_q", "track_tree_t", "track_wide_t", "track_nested_t", "track_twice_t", "track_elsewhere_t", "track_table_q"])],
        "bounds": {
            "quick": BIG + " up to 2^20 with ways down of up to 3 steps on both sides and 0-5 or 300 edited elements; on real documents (trees of up to 3 elements and 1 container level; rows of up to 3 elements with one container of any kind; chains of 5 containers), every range and position, every edit of up to 3 elements; two edits in a row on trees of up to 2 elements; edits of tables elsewhere: ways down of up to 3 steps; a 2x2 table and every place in its row and cells",
            "thorough": BIG + " up to 2^62 with ways down of up to 4 steps and 0-7 edited elements; on real trees of up to 3 elements and 2 container levels, rows of up to 4 elements, chains of 7; two edits in a row on trees of up to 3 elements",
        },
        "outside": "deeper ways down; what becomes of places in and below the row of an edited table (recorded as a known finding: not implemented)",
    },
    "C05": {
        "quick": [("tree", ["order_pair_q", "order_triple_q", "order_tree_q", "order_wide_q", "order_nested_q", "order_deep_q"])],
        "thorough": [("tree", ["order_pair_t", "order_triple_t", "order_tree_t", "order_wide_t", "order_nested_t", "order_deep_q"])],
        "bounds": {
            "quick": BIG + " below 2^62: pairs with ways down of up to 5 steps, triples with up to 2 steps; all pairs of positions of all trees of up to 4 elements and 2 container levels, of rows of up to 5 elements with one container (up to 3x2) whose cells have up to 4, and of chains of 8 containers; pairs with a common way of up to 20 steps that part in up to 2 more; offsets, maximum and minimum",
            "thorough": BIG + " below 2^62: pairs with up to 9 steps, triples with up to 3 steps; trees of up to 4 elements and 3 container levels; rows of up to 7 elements, cells of up to 6; chains of 16",
        },
        "outside": "deeper positions",
    },
    "C06": {
        "quick": [("tree", ["span_q", "span_deep_q", "span_wide_q", "span_nested_q", "span_long_q"])],
        "thorough": [("tree", ["span_t", "span_deep_t", "span_wide_t", "span_nested_t", "span_long_q"])],
        "bounds": {
            "quick": "all pairs of positions of all trees of up to 3 elements and 2 container levels, of all chains of 3 containers, of chains of 8 of alternating kinds, and of rows of up to 5 elements with one container (up to 3x2) whose cells have up to 4; a row of 24",
            "thorough": "all pairs of positions of all trees of up to 4 elements and 3 container levels and of all chains of 4 containers, chains of 16 of alternating kinds, rows of up to 7 elements with cells of up to 6",
        },
        "outside": "larger and deeper trees",
    },
    "C07": {
        "quick": [("tree", ["walk_q", "walk_deep_q", "walk_wide_q", "walk_nested_q", "any_index_q", "any_index_wide_q", "bad_way_q", "row_mut_q", "paths_q", "offsets_q", "walk_long_q", "any_index_long_q"])],
        "thorough": [("tree", ["walk_t", "walk_deep_t", "walk_wide_q", "walk_nested_q", "any_index_t", "any_index_wide_q", "bad_way_t", "row_mut_q", "paths_t", "offsets_t", "walk_long_q", "any_index_long_q"])],
        "bounds": {
            "quick": "trees of up to 3 elements and 2 container levels, chains of 4 containers of any kinds and 14 of alternating kinds, rows of up to 5 elements with one container up to 3x2; every row; element and cell indices are 64-bit solver variables; ways of up to 2 steps with indices 0-7; offsets are 64-bit solver variables in rows of up to 8; rows of 400 (any index: 40)",
            "thorough": "trees of up to 4 elements and 3 container levels, chains of 6 containers; 64-bit indices; rows of up to 20",
        },
        "outside": "larger and deeper trees",
    },
    "C08": {
        "quick": [("tree", ["grid_index_q", "grid_linear_q", "grid_steps_q", "grid_construct_q", "grid_large_cells_q"])],
        "thorough": [("tree", ["grid_index_t", "grid_linear_t", "grid_steps_t", "grid_construct_t", "grid_large_cells_q"])],
        "bounds": {
            "quick": "grids up to 4x4 (linear index: 6x5, steps: 5x5) including no rows; coordinates, indices, steps and widths of foreign indices are 64-bit solver variables; cell contents symbolic; construction from up to 12 cells; 17x13, 1x300, 300x1 and 40x9 (corner, edge and middle cells)",
            "thorough": "grids up to 6x6 (linear index: 12x9); construction from up to 30 cells",
        },
        "outside": "larger grids",
    },
    "C09": {
        "quick": [("tree", ["rectangle_q", "view_q", "empty_rectangle_q", "selection_q", "rectangle_large_q"])],
        "thorough": [("tree", ["rectangle_t", "view_t", "empty_rectangle_q", "selection_t", "rectangle_large_q"])],
        "bounds": {
            "quick": "grids up to 5x5, both corners symbolic; views in grids up to 4x4 with 64-bit symbolic view coordinates; blocks with symbolic ends 0-15 and width 1-4; selections in tables up to 4x3, plain or nested, with a 64-bit symbolic row number; corners in 17x13, 1x300, 300x1 and 40x9",
            "thorough": "grids up to 7x7; views in grids up to 6x6; selections in tables up to 6x5",
        },
        "outside": "larger grids; reading a view by coordinates made for another width",
    },
    "C10": {
        "quick": [("tree", ["range_edits_q", "range_edits_wide_q", "range_edits_nested_q", "range_accessors_q", "accessors_wide_q", "edit_extent_q", "range_edits_long_q"])],
        "thorough": [("tree", ["range_edits_t", "range_edits_wide_t", "range_edits_nested_t", "range_accessors_t", "accessors_wide_q", "edit_extent_t", "range_edits_long_q"])],
        "bounds": {
            "quick": "trees of up to 3 elements and 1 container level, every row, every pair of ends, up to 2 inserted symbols or a fraction and a symbol or a table between symbols; rows of up to 4 elements with one container and up to 4 inserted; chains of 7; edits of rows of up to 3 elements and of tables of up to 3x3 at any place; rows of 14 with up to 9 inserted; " + SYM,
            "thorough": "trees of up to 4 elements and 2 container levels; rows of up to 5 elements and up to 5 inserted; chains of 14; " + SYM,
        },
        "outside": "larger trees and insertions",
    },
    "C11": {
        "quick": [("tree", ["print_structure_q", "print_wide_q", "print_nested_q", "print_symbols_q", "print_tables_q", "print_texts_q", "print_two_q"])],
        "thorough": [("tree", ["print_structure_t", "print_wide_q", "print_nested_q", "print_symbols_t", "print_tables_t", "print_texts_t", "print_two_q"])],
        "bounds": {
            "quick": "trees of up to 3 elements and 2 container levels with any ASCII symbols; rows of up to 4 elements with one container; chains of 9 containers; rows of two symbols of up to 1 character each of 1-4 bytes (every character), plain or in a superscript; tables up to 11x3 including no rows; symbols of up to 5 quotes, backslashes, brackets, n and é, and of up to 70 with some of them; pairs of documents of up to 2 elements",
            "thorough": "trees of up to 4 elements and 3 container levels; symbols of up to 2 characters; tables up to 101x3",
        },
        "outside": "longer symbols and larger trees",
    },
    "C12": {
        "quick": [("editor", ["ser_round_q", "ser_wide_q", "ser_nested_q", "ser_text_q", "ser_table_q", "ser_width_q", "ser_damaged_q", "edit_paste_q"])],
        "thorough": [("editor", ["ser_round_t", "ser_wide_t", "ser_nested_t", "ser_text_t", "ser_table_t", "ser_width_t", "ser_damaged_q", "edit_paste_t"])],
        "bounds": {
            "quick": "trees of up to 3 elements and 2 container levels with any ASCII symbols, rows of up to 4 elements with one container, chains of 9 containers; two symbols of up to 1 character each of 1-4 bytes (every character); tables up to 5x4; claimed widths 0-99 of tables of up to 12 cells; three documents with every byte of their data changed to every ASCII character, and cut at every place; in the editor every selection of trees of up to 2 elements copied and pasted at every position",
            "thorough": "trees of up to 4 elements and 3 container levels, rows of up to 7 elements, chains of 18; symbols of up to 2 characters; tables up to 8x6; up to 40 cells; every selection of trees of up to 3 elements pasted at every position",
        },
        "outside": "larger documents, several damaged bytes, pasting without naming the format (not implemented: todo), copying selected table cells (not implemented: todo)",
    },
    "C13": {
        "quick": [("editor", ["complete_match_q", "complete_wide_q", "complete_empty_q", "complete_rules_q"])],
        "thorough": [("editor", ["complete_match_t", "complete_wide_t", "complete_bytes_t", "complete_empty_q", "complete_rules_t"])],
        "bounds": {
            "quick": "rules of up to 4 ASCII characters with inputs of up to 3 elements (symbols of 1-2 characters, one container anywhere); rules of up to 3 characters of 1-2 bytes with inputs of 2; two rules with inputs of 3; every character value, caret position and minimal length",
            "thorough": "inputs of up to 4 elements and rules of up to 5 ASCII characters; inputs of up to 3 and rules of up to 3 characters of 1-2 bytes, inputs of 2 and rules of 2 characters of 1-3 bytes; two rules with inputs of 4",
        },
        "outside": "longer rules and inputs; rules with an empty text (refused by the code); for inputs with empty symbols only that matching ends and offers stay in bounds",
    },
    "C14": {
        "quick": [("editor", ["caret_side_q", "caret_side_wide_q", "caret_side_nested_q", "caret_range_q", "caret_range_wide_q"])],
        "thorough": [("editor", ["caret_side_t", "caret_side_wide_t", "caret_side_nested_t", "caret_range_t", "caret_range_wide_t"])],
        "bounds": {
            "quick": "every position, and every selection within a row, of: trees of up to 3 elements and 2 container levels with all kinds of containers (tables 2x2, 3x1, 1x3), rows of up to 5 elements with one container up to 3x2 whose cells have up to 4, chains of 9 containers",
            "thorough": "the same of trees of up to 4 elements, rows of up to 8 elements with cells of up to 7, chains of 20",
        },
        "outside": "larger documents; moving by word or line (not implemented: todo)",
    },
    "C15": {
        "quick": [("editor", ["caret_up_q", "caret_up_wide_q", "caret_up_nested_q"])],
        "thorough": [("editor", ["caret_up_t", "caret_up_wide_t", "caret_up_nested_t"])],
        "bounds": {
            "quick": "every position of: trees of up to 3 elements and 2 container levels with all kinds of containers (tables 2x2, 3x1, 1x3), rows of up to 5 elements with one container up to 3x2 whose cells have up to 4, chains of 9 containers",
            "thorough": "every position of trees of up to 4 elements, rows of up to 8 elements with cells of up to 7, chains of 20",
        },
        "outside": "larger documents; movement by screen position (no such function is installed by the code)",
    },
    "C16": {
        "quick": [("editor", ["caret_remove_q", "caret_remove_wide_q", "caret_remove_nested_q"])],
        "thorough": [("editor", ["caret_remove_t", "caret_remove_wide_t", "caret_remove_nested_t"])],
        "bounds": {
            "quick": "every position and both directions in trees of up to 3 elements and 2 container levels with all kinds of containers, rows of up to 4 elements with one container up to 3x2 whose cells have up to 4, chains of 7 containers",
            "thorough": "trees of up to 4 elements, rows of up to 7 elements with cells of up to 6, chains of 16",
        },
        "outside": "larger documents; deleting selected table cells (not implemented: todo)",
    },
    "C17": {
        "quick": [("editor", ["caret_replace_q", "caret_replace_wide_q", "caret_replace_nested_q"])],
        "thorough": [("editor", ["caret_replace_t", "caret_replace_wide_t", "caret_replace_nested_t"])],
        "bounds": {
            "quick": "every row and selection in it, in both directions, of trees of up to 3 elements and 1 container level, rows of up to 4 elements with one container whose cells have up to 4, chains of 7; up to 2 inserted elements (symbols, fractions); " + SYM,
            "thorough": "trees of up to 4 elements and 2 levels, rows of up to 6, chains of 16",
        },
        "outside": "larger documents; typing over selected table cells (not implemented: todo)",
    },
    "C18": {
        "quick": [("editor", ["caret_select_q", "caret_select_wide_q", "caret_select_nested_q"])],
        "thorough": [("editor", ["caret_select_t", "caret_select_wide_t", "caret_select_nested_t"])],
        "bounds": {
            "quick": "all pairs of positions of trees of up to 3 elements and 1 container level with all kinds of containers (tables 2x2, 3x1, 1x3), rows of up to 3 elements with one container up to 3x2 whose cells have up to 3, chains of 6 containers (every other kind a table)",
            "thorough": "all pairs of positions of trees of up to 4 elements and 2 levels, rows of up to 5 with cells of up to 5, chains of 12",
        },
        "outside": "larger documents",
    },
    "C19": {
        "quick": [("editor", ["edit_q", "edit_wide_q", "edit_typing_q", "edit_select_q", "edit_stacks_q"])],
        "thorough": [("editor", ["edit_t", "edit_more_t", "edit_wide_t", "edit_typing_t", "edit_select_t", "edit_stacks_t"])],
        "bounds": {
            "quick": "all histories of 2 operations (typing 1 or 2 symbols, backspace, delete, delete selection, undo, redo, 4 moves, 4 extensions, click, drag, select all, splice anywhere, copy, paste, damaged paste) on trees of up to 2 elements and 1 container level and rows of up to 2 elements with one container up to 3x2; of 5 typing operations (9 kinds) on the empty document; click or drag anywhere, two extensions of the selection, and an operation on it; each followed by undoing and redoing everything; the stacks by themselves: 8 of push, undo, redo with any actions",
            "thorough": "all histories of 3 operations on trees of 1 element, of 2 on trees of up to 3 elements and on rows of up to 3; of 6 typing operations; selections in trees of up to 3 elements",
        },
        "outside": "longer histories and larger documents; operations on selected table cells and movement by word or line (not implemented: todo); whether replacing nothing by nothing counts as an edit",
    },
    "C20": {
        "quick": [("editor", ["edit_syntax_q", "edit_syntax_paste_q", "edit_syntax_menu_q"])],
        "thorough": [("editor", ["edit_syntax_t", "edit_syntax_more_t", "edit_syntax_paste_q", "edit_syntax_menu_t"])],
        "bounds": {
            "quick": "histories of 2 operations (9 kinds that change the document) on trees of up to 1 element with the tree requested or not before each, then after an undo; copying everything and pasting it anywhere in trees of up to 2 elements; one of 24 operations including autocompletion and autocorrection, from any position of four documents of 2 symbols of any ASCII characters",
            "thorough": "trees of up to 2 elements; 3 operations on the empty document; 3 symbols",
        },
        "outside": "longer histories",
        "assumptions": CHUMSKY,
    },
    "C21": {
        "quick": [("editor", ["edit_complete_q", "edit_menu_q", "edit_menu_away_q"])],
        "thorough": [("editor", ["edit_complete_t", "edit_menu_t", "edit_menu_away_t"])],
        "bounds": {
            "quick": "three rules with results of one to three elements (one a container) whose texts overlap (ab, abc, bb); rows of 2 symbols of any ASCII characters alone, before a superscript, in a fraction, or behind one; the caret put anywhere, then one of 24 operations; rows of 3 symbols, one move in the menu, then one of 24 operations; rows of 2, one move in the menu, then twice left, right or elsewhere; everything undone and redone",
            "thorough": "two operations; rows of 4 symbols",
        },
        "outside": "longer histories, other rules (matching itself: C13)",
    },
    "C22": {
        "quick": [("editor", ["parse_tree_q", "parse_wide_q", "parse_nested_q", "parse_text_q", "parse_flat_q", "parse_mixed_q", "parse_scripts_q"])],
        "thorough": [("editor", ["parse_tree_t", "parse_wide_t", "parse_nested_t", "parse_text_q", "parse_flat_t", "parse_mixed_t", "parse_scripts_t"])],
        "bounds": {
            "quick": "all nine shipped modules; trees of up to 2 elements and 2 container levels with any ASCII symbols; rows of up to 4 elements with one container (up to 3x2) whose cells have up to 4; chains of 6 containers; one symbol of up to 1 character of 1-4 bytes (every character); rows of 3 symbols of any ASCII characters; rows of up to 5 elements, each a letter, plus, bracket, space or superscript, or each a letter, plus, space, subscript or sum",
            "thorough": "trees of up to 3 elements; rows of up to 6 elements with cells of up to 6; chains of 9; 4 symbols of any ASCII characters; up to 6 elements of the palette",
        },
        "outside": "longer rows (parsing nested unclosed brackets takes exponential time in their number), rules outside the shipped modules (for these: C23, C27)",
        "assumptions": CHUMSKY,
    },
    "C23": {
        "quick": [("editor", ["strength_sides_q", "strength_infix_q", "strength_brackets_q", "strength_mixed_q", "strength_chain_q"])],
        "thorough": [("editor", ["strength_sides_t", "strength_infix_t", "strength_brackets_t", "strength_mixed_t", "strength_chain_t"])],
        "bounds": {
            "quick": "all strengths are 16-bit solver variables; all rows of up to 4 elements over an operand and one prefix, postfix, left- and right-associative operator; of up to 5 over an operand, a left- and a right-associative one, a postfix one and one that is prefix and infix; of up to 6 over a prefix and a left-associative one and brackets; well-formed rows of up to 7 over five operators of all kinds, and over two left- and two right-associative ones",
            "thorough": "one element more each; well-formed rows of up to 9",
        },
        "outside": "longer rows, more operators, rows with unknown tokens (these attach without regard to strength)",
        "assumptions": CHUMSKY,
    },
    "C24": {
        "quick": [("editor", ["meaning_any_q", "meaning_limit_q", "meaning_string_q", "meaning_number_q", "meaning_brackets_q", "meaning_spaces_q", "meaning_scripts_q", "meaning_cells_q", "meaning_levels_q", "meaning_signs_q"])],
        "thorough": [("editor", ["meaning_any_t", "meaning_limit_t", "meaning_string_t", "meaning_number_t", "meaning_brackets_t", "meaning_spaces_t", "meaning_scripts_t", "meaning_cells_t", "meaning_levels_t", "meaning_signs_t"])],
        "bounds": {
            "quick": "rows of 3 symbols of any ASCII characters; of up to 7 letters of lim and s; of up to 6 quotes, backslashes and letters; of up to 7 digits, dots and letters; of up to 6 brackets, commas and letters; of up to 5 letters, spaces, signs and brackets; of up to 5 letters, signs, scripts and sums; of up to 4 elements of 7 kinds with all containers; 3 operands joined by any of the 15 infix operators; 3 operands with signs, sums and factorials around, joined by operators of all levels",
            "thorough": "rows of 4 ASCII symbols; all others one or two elements longer; 4 operands",
        },
        "outside": "longer rows; symbols of several characters",
        "assumptions": CHUMSKY,
    },
    "C25": {
        "quick": [("editor", ["spaces_q", "spaces_expression_q", "spaces_scripts_q"])],
        "thorough": [("editor", ["spaces_t", "spaces_expression_t", "spaces_scripts_t"])],
        "bounds": {
            "quick": "expressions of up to 4 elements (letters, plus, brackets, commas, factorials), of 2 operands with signs, factorials and superscripts, and of up to 4 letters, plus, subscripts, superscripts and sums; no or one space at every place between tokens",
            "thorough": "up to 2 spaces; more operators, with sums and subscripts, scripts of up to 5 elements",
        },
        "outside": "longer expressions; brackets with nothing but spaces in them (the code treats them as unknown)",
        "assumptions": CHUMSKY,
    },
    "C26": {
        "quick": [("editor", ["brackets_any_q", "brackets_mixed_q", "cells_tree_q", "cells_wide_q"])],
        "thorough": [("editor", ["brackets_any_t", "brackets_mixed_t", "cells_tree_t", "cells_wide_t"])],
        "bounds": {
            "quick": "in brackets: up to 2 symbols of any ASCII characters, up to 3 elements of 9 kinds; before the brackets nothing, a sign or an operand, behind them nothing or a factorial; cells: trees of up to 2 elements and 2 container levels with any ASCII symbols, rows of up to 3 elements with one container up to 3x2 whose cells have up to 3",
            "thorough": "in brackets up to 3 symbols, up to 5 elements; trees of up to 3 elements, rows and cells of up to 5",
        },
        "outside": "longer contents; contents that contain brackets or quotes (C24 has rows with nested brackets)",
        "assumptions": CHUMSKY,
    },
    "C27": {
        "quick": [("editor", ["priority_long_q", "priority_many_q"])],
        "thorough": [("editor", ["priority_long_t", "priority_many_t"])],
        "bounds": {
            "quick": "2 rules of up to 2 symbols of any ASCII characters, and 3 rules of one, of each of the four kinds, in two modules in any split; the input has as many symbols",
            "thorough": "3 rules of up to 3 symbols, 4 of up to 2",
        },
        "outside": "longer texts, more rules, rules of different kinds (C23)",
        "assumptions": CHUMSKY,
    },
    "C28": {
        "quick": [("editor", ["names_q", "names_identifiers_q", "names_printed_any_q", "names_printed_q", "names_printed_wide_q"])],
        "thorough": [("editor", ["names_t", "names_identifiers_t", "names_printed_any_t", "names_printed_t", "names_printed_wide_t"])],
        "bounds": {
            "quick": "3 additions of any of 7 names; up to 3 parts of up to 3 ASCII characters; printed trees of rows of 2 symbols of any ASCII characters, of trees of up to 2 elements and 2 container levels, and of rows of up to 3 elements with one container",
            "thorough": "4 additions; up to 4 parts of up to 4 characters; 3 symbols, trees of up to 3 elements, rows of up to 5",
        },
        "outside": "longer histories; identifiers beyond ASCII (decided by the crate unicode-ident)",
        "assumptions": CHUMSKY,
    },
    "C29": {
        "quick": [("editor", ["wire_places_q", "wire_text_q", "wire_choices_q", "wire_documents_q", "wire_documents_wide_q", "wire_trees_q", "wire_trees_any_q", "wire_rules_q"])],
        "thorough": [("editor", ["wire_places_t", "wire_text_t", "wire_choices_q", "wire_documents_t", "wire_documents_wide_t", "wire_trees_t", "wire_trees_any_t", "wire_rules_t"])],
        "bounds": {
            "quick": "ways of up to 3 steps; all numbers are 64-bit solver variables as plain data (serde_json values), 0 or 10 as JSON text; documents of up to 3 elements and 2 container levels with any ASCII symbols, and rows of up to 4 elements with one container up to 3x2; syntax trees of documents of up to 2 elements and 2 levels, and (as text) of rows of 2 symbols of any ASCII characters; rules of up to 2 ASCII characters with results of up to 2 elements",
            "thorough": "ways of up to 8 steps; documents of up to 4 elements and 3 levels; syntax trees of up to 3 elements",
        },
        "outside": "numbers above 2^53 lose precision in JavaScript (documented in the code); the wrappers generated by wasm-bindgen, which need a browser",
        "assumptions": CHUMSKY,
    },
    "C30": {
        "quick": [("editor", ["effort_any_q", "effort_nested_q", "effort_long_q", "effort_open_q", "effort_unknown_q"])],
        "thorough": [("editor", ["effort_any_t", "effort_nested_t", "effort_long_t", "effort_open_q", "effort_unknown_q"])],
        "bounds": {
            "quick": "at most 400 looks per element (the code needs up to 50); all rows of up to 4 elements of 11 kinds with closed brackets; 10 levels of brackets and containers, alternating between any two of 9 ways to nest, around nothing, an operand, an unknown symbol or a stray bracket; rows of 8 to 24 elements that repeat any 1 to 3 of 13; 6 unclosed brackets; 8 levels of brackets behind unknown symbols",
            "thorough": "rows of up to 5 elements, 16 levels, rows of up to 48 elements",
        },
        "outside": "other ways to nest; runs of spaces (looked at by every rule, at every place: quadratic); quotes",
        "assumptions": CHUMSKY + ["effort = how often the rules look at an element, counted in the stand-in for chumsky"],
    },
    "C31": {
        "quick": [("page", ["click_flat_q", "click_boxes_q", "click_deep_q", "click_groups_q"])],
        "thorough": [("page", ["click_flat_t", "click_boxes_t", "click_deep_t", "click_groups_t"])],
        "technique": PAGE,
        "bounds": {
            "quick": "boxes, caret positions and pointer anywhere on a grid of 8x8 (solver variables), also outside of every box and with overlapping boxes; rows of up to 3 symbols, rows with one container of up to 2 rows, containers 2 deep, operators 2 deep around containers",
            "thorough": "a grid of 16x16 for flat rows; two containers side by side, 3 rows, 3 deep",
        },
        "outside": "larger rows and coordinates; distances that differ by less than doubles tell apart; layouts where a box does not hold its carets and the boxes below it",
        "assumptions": BROWSER,
    },
    "C32": {
        "quick": [("page", ["draw_ranges_q", "draw_ranges_deep_q", "draw_groups_q", "draw_carets_q", "draw_carets_two_q"])],
        "thorough": [("page", ["draw_ranges_t", "draw_ranges_deep_t", "draw_groups_t", "draw_carets_t", "draw_carets_two_t"])],
        "technique": PAGE,
        "bounds": {
            "quick": "boxes and caret positions are solver variables up to 63; both ends anywhere; rows of up to 6 places with empty elements, operators 2 deep, and containers up to 2 deep and 4 cells; one caret, two on small documents; every rectangle of cells",
            "thorough": "coordinates up to 4095; larger rows, two carets on all documents",
        },
        "outside": "the vertical place of the caret (a tenth of the font size below the baseline); line breaks (not supported by the code); colours and other styles",
        "assumptions": BROWSER,
    },
    "C33": {
        "quick": [("page", ["render_text_q", "render_words_q", "render_containers_q", "render_deep_q", "render_scripts_q"])],
        "thorough": [("page", ["render_text_t", "render_words_t", "render_containers_t", "render_pairs_t", "render_deep_t", "render_scripts_t"])],
        "trees": True,
        "technique": PAGE,
        "bounds": {
            "quick": "every row of up to 3 of 9 kinds of symbols, every operator and word of the grammar between other symbols, every kind of container with two cells of 3 contents each between other elements, nestings 3 deep, up to 3 scripts and spaces behind each of 4 bases; the layout (position and size of every box, size of the font) is any of coordinates up to 63 (solver variables)",
            "thorough": "rows of 4 symbols, pairs of words, pairs of containers, all containers in all containers, 4 scripts",
        },
        "outside": "longer rows; the vertical place of carets other than that it is within the formula; colours, stretching and spacing",
        "assumptions": BROWSER + CHUMSKY + ["syntax trees come from the parser of /repo, compiled natively and run on each document; documents are chosen by forking on solver variables"],
    },
    "C34": {
        "quick": [("page", ["import_tokens_q", "import_scripts_q", "import_lists_q", "import_tables_q", "import_nested_q"])],
        "thorough": [("page", ["import_nested_t", "import_pairs_t", "import_tables_t"])],
        "trees": True,
        "technique": PAGE,
        "bounds": {
            "quick": "up to 2 of 28 tokens and texts in a row, every script, fraction and root with 0 to 3 parts of 3 kinds, lists, fenced and annotated elements, tables of up to 3 rows and 2 columns of any widths, elements nested two deep",
            "thorough": "pairs of elements nested two deep, larger tables, elements of every kind inside each other",
        },
        "outside": "larger formulas; elements of MathML the page does not know other than that they are reported; characters other than those of the 28 tokens; attributes",
        "assumptions": BROWSER + CHUMSKY + ["formulas are chosen by forking on solver variables; Intl.Segmenter and String.normalize are those of the machine"],
    },
    "C35": {
        "quick": [("page", ["sync_press_q", "sync_drag_q", "sync_release_q", "sync_fingers_q", "sync_keys_q", "sync_typing_q", "sync_clipboard_q", "sync_mixed_q"])],
        "thorough": [("page", ["sync_press_t", "sync_drag_t", "sync_drags_t", "sync_fingers_t", "sync_keys_t", "sync_typing_t", "sync_clipboard_t", "sync_mixed_t"])],
        "web": True,
        "technique": PAGE,
        "bounds": {
            "quick": "3 documents (one empty, with fraction, superscript, and a word that is corrected), laid out in one way; a press anywhere (position a solver variable) with 1 to 3 clicks; drags from 4 places to anywhere; 2 events of any pointers in any order, primary or not (solver variables); from every place, one key or one typed text; four steps of typing and keys, two texts typed at once; two steps of copying, cutting and pasting of 6 clipboards; three steps while something is being selected, with formulas set from outside",
            "thorough": "drags from everywhere, two moves, four pointer events, two keys from every place, clipboards after every selection, mixed steps on all documents",
        },
        "outside": "longer histories; input methods that compose text (the page ignores them); parts of the editor that are not written yet (whatever ends in a todo!()); other layouts (C31 to C33 have all of them); moving the element in the page",
        "assumptions": BROWSER + CHUMSKY + ["the editor below the page is that of /repo with its bindings (aftermath-core/web), compiled natively with stand-ins for wasm-bindgen and serde-wasm-bindgen that pass JSON (harness/shims, harness/page), and run on the calls the page makes", "events are those a browser sends: a key that is typed comes as keydown, then beforeinput; timers run before the next event, or after one more"],
    },
}
