#!/usr/bin/env python3
"""Writes properties.jsonl (the text lives here so that it can be edited as prose)."""
import json, os
IT = "aftermath-core/input_tree/src/"
CA = "aftermath-core/caret/src/"
PA = "aftermath-core/parser/src/"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()), "quantifier": {"over": over, "text": " ".join(text.split())}, "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": None}})

prop("C01", "Undoing any history of edits restores every earlier document exactly",
 """For every document and every sequence of valid edits (inserting or deleting elements of a row, or rows and columns of a table), applying the inverses in reverse order passes through
 exactly the earlier documents and ends at the original one. Redoing an undone edit gives exactly the document it gave before, the inverse of an inverse is the edit itself, and applying an edit never changes the edit.""",
 ["histories", "inputs"], "all documents, all sequences of valid row and table edits on them, and every point of the history at which undoing starts",
 "The tests undo one row insertion, deletion or replacement in a row of two or three symbols; no test undoes a table edit, an edit in a nested row, or more than one step.",
 [IT + "editing/basic_edit.rs", IT + "editing/invertible.rs", IT + "input_tree.rs", IT + "row.rs", IT + "grid.rs"],
 [("inverse of an edit", IT + "editing/basic_edit.rs"), ("application of an edit to the tree", IT + "input_tree.rs")], ["the document after each edit and each inverse"])
prop("C02", "An edit of a row is an exact splice and touches nothing else",
 """Inserting elements at an offset of a row, or deleting elements there, yields that row with exactly those elements added or removed and all others unchanged and in order.
 Every other row of the document, at any depth, and the shape of every table stays as it was.""",
 ["inputs"], "all documents, all rows in them at any depth, all offsets of the row, all inserted values and all deleted spans",
 "The tests edit the top-level row of a flat document; nothing checks that a nested row is found through the right element and cell, or that the rest is untouched.",
 [IT + "input_tree.rs", IT + "row.rs", IT + "node.rs", IT + "grid.rs"],
 [("splice of a row", IT + "input_tree.rs"), ("way down to a row", IT + "input_tree.rs"), ("mutable access to a cell", IT + "node.rs")], ["the document after the edit"])
prop("C03", "Table edits insert and remove exactly the addressed rows or columns",
 """Inserting rows or columns into a table puts every new cell at its coordinates, shifts the cells behind the insertion point and keeps all others; deleting rows or columns removes exactly those and keeps every other cell in its order.
 The size of the table changes by exactly the number of rows or columns, and nothing outside the table changes, wherever the table is nested.""",
 ["inputs"], "all table sizes, all insertion points including both ends, all numbers of rows or columns, all cell contents, all positions of the table in the document",
 "No test edits a table's rows or columns at all; index arithmetic on a flat vector is right for some sizes (square, one row) and wrong for others.",
 [IT + "grid.rs", IT + "input_tree.rs", IT + "editing/basic_edit.rs"],
 [("insertion and removal of grid columns and rows", IT + "grid.rs"), ("application of a grid edit", IT + "input_tree.rs")], ["the table and the document after the edit"])
prop("C04", "Stored positions and ranges stay on the same content while the tree is edited",
 """After any edit, a stored position or range that is updated with that edit is valid in the edited document, lies in the same row as before, and has every surviving element on the same side as before; if its row was deleted it goes to where the deleted element was.
 Elements inserted exactly at an end of the range become part of it, a stored position stays before elements inserted at it, and a range keeps its direction.""",
 ["inputs", "histories"], "all documents, positions and ranges (forwards, backwards, empty) and row edits in the same row, an ancestor, a descendant or an unrelated row, with arbitrarily large indices; sequences of edits",
 "No test updates a stored position or range; the outcome depends on how the edit's place and the stored place relate, at each level, and the boundary cases are the ones that break.",
 [IT + "focus/row_range.rs", IT + "focus/row_position.rs", IT + "editing/row_indices_edit.rs", IT + "editing/editable.rs", IT + "row.rs"],
 [("update of a range with an edit", IT + "focus/row_range.rs"), ("classification of an edit relative to a way down", IT + "editing/row_indices_edit.rs")], ["the updated position or range"])
prop("C05", "Positions are totally ordered in reading order",
 """Comparing two positions of a document says which comes first when reading it: a position in an element's cell comes after the position before that element and before the one behind it, and cells come in their order.
 The comparison is a total order, agrees with equality, and all comparison operators agree with each other.""",
 ["inputs"], "all pairs and triples of positions, at all depths and with all indices and offsets",
 "The tests compare a handful of positions; transitivity, antisymmetry and the nested-against-outer cases quantify over all pairs and triples.",
 [IT + "row.rs", IT + "focus/row_position.rs"],
 [("comparison of ways down and offsets", IT + "row.rs"), ("order of positions", IT + "focus/row_position.rs")], ["the result of each comparison"])
prop("C06", "A selection is the smallest range that holds both of its end points",
 """The range selected between two positions lies in the deepest row that contains both, starts no earlier and ends no later than needed, and contains both positions.
 It runs backwards exactly if the second position comes before the first (unless it is empty), so that extending a selection keeps working in its direction.""",
 ["inputs"], "all documents and all pairs of positions in them: same row, one inside an element beside the other, in different cells or elements, in either order",
 "The tests select inside one row and in one nested case; the choice of end points depends on depth, order and on which side the nested position is.",
 [IT + "input_tree.rs", IT + "focus/row_range.rs", IT + "row.rs", IT + "focus/row_position.rs"],
 [("range from two positions", IT + "input_tree.rs"), ("shared part of two ways down", IT + "row.rs"), ("containment", IT + "focus/row_range.rs")], ["the selected range"])
prop("C07", "Walking the document by focus always reaches the addressed row and back",
 """A focus sent down a way reaches exactly the row or element at the end of that way, knows its way, and going up and down again returns to the same place.
 A step or a way that does not exist is refused without losing the place it started from, offsets and ranges outside the row are refused, and changing a cell through its index changes that cell only.""",
 ["inputs"], "all documents, all rows in them, all element and cell indices and offsets, existing or not",
 "The tests walk one or two fixed documents; the guarantee is about every index, including those just outside, at every depth.",
 [IT + "focus.rs", IT + "node.rs", IT + "row.rs", IT + "focus/row_position.rs", IT + "focus/row_range.rs"],
 [("focus on a row and on an element", IT + "focus.rs"), ("offset to index", IT + "row.rs")], ["focus, its way down, its parent and children"])
prop("C08", "Grid coordinates and linear indices address exactly the existing cells",
 """A cell can be read and written by its coordinates exactly if it exists, the coordinates and the linear index of a cell determine each other, and writing changes that cell only.
 Stepping in a grid succeeds exactly if it stays inside and lands on the cell that far away, and a grid can only be built from complete rows.""",
 ["inputs"], "all grid sizes, all coordinates and indices (64 bit), all steps",
 "The tests never use a grid of another shape than a few fixed ones, nor coordinates outside; overflow and wrap-around only show at particular values.",
 [IT + "grid/index2d.rs", IT + "grid.rs"],
 [("checked index", IT + "grid/index2d.rs"), ("cell access", IT + "grid.rs")], ["cells, coordinates and indices"])
prop("C09", "A block of table cells is exactly the rectangle between its corner cells",
 """The block spanned by any two cells of a grid is the smallest rectangle that contains both, whichever opposite corners are given and in whichever order; its size, first and last cell are those of that rectangle, and reading through it shows exactly the cells under it.
 A selection of table cells reports these corners, gives access to the rows of the table, and comes back unchanged when stored and restored.""",
 ["inputs"], "all grid sizes, all pairs of cells, all cells inside and outside the block",
 "The tests build no block at all; a block of one row, one column, or given by its other diagonal are all easy to get wrong.",
 [IT + "grid/grid_view.rs", IT + "grid/index2d.rs", IT + "focus/grid_range.rs"],
 [("rectangle from two cells", IT + "grid/grid_view.rs"), ("cell selection", IT + "focus/grid_range.rs")], ["corners, size and cells of the block"])
prop("C10", "Edits made for a range do exactly what was asked and report the right place",
 """The edits produced for removing, inserting at or replacing a range, applied together, yield the row with exactly that done, whether the range runs forwards, backwards or is empty, and their inverses in reverse order restore the document.
 The reported position or range is valid afterwards and lies where the removed content was or around what was inserted. A range reports its ends, length, direction, content and containment consistently, and an edit reports in which row or table it moves what lies behind it, from where to where.""",
 ["inputs"], "all documents, rows, ranges in either direction and inserted values",
 "The tests use a few forward ranges in flat rows; backward and empty ranges and multi-element insertions are what ordinary selection produces.",
 [IT + "editing/basic_edit.rs", IT + "focus/row_range.rs", IT + "focus/row_position.rs"],
 [("edits from ranges", IT + "editing/basic_edit.rs"), ("accessors of a range", IT + "focus/row_range.rs")], ["the produced edits, the document and the reported place"])
prop("C11", "The printed form of a document determines the document",
 """Printing a document gives a text that can be read back to exactly the same document: kinds and sizes of all elements, their cells in order, and the exact characters of every symbol.
 In particular two different documents never print the same.""",
 ["inputs"], "all documents and all symbol texts, including quotes, backslashes, spaces, parentheses and characters of several bytes",
 "The tests compare a few printed documents without any character that needs escaping; being unambiguous quantifies over pairs of documents.",
 [IT + "print_helpers.rs", IT + "row.rs", IT + "node.rs", IT + "grid.rs"],
 [("printing of rows and elements", IT + "row.rs"), ("escaping", IT + "node.rs")], ["the printed text"])
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties_more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties_more.py")) else None
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
