prop("C12", "Copied content comes back unchanged, damaged data is refused or harmless",
 """Whatever elements are copied (serialized) come back exactly when they are pasted (deserialized): all symbols character for character, all containers with their kind, size and cells, to any depth.
 Data that was cut short is refused. Data that is damaged in any other way is refused or yields elements whose tables consist of complete rows; it never crashes the program, and a table of zero width or with an incomplete last row is refused.""",
 ["inputs", "environment"], "all documents, all symbol texts including quotes, backslashes, control and multi-byte characters, all selections copied and places pasted at, all claimed table widths, all single-byte changes and all truncations of the data",
 "The tests copy nothing and read no damaged data; a round trip quantifies over all documents, and the harm a wrong width does shows only later, when the table is used.",
 ["aftermath-core/serialization/src/lib.rs", IT + "grid.rs", IT + "node.rs", IT + "row.rs", CA + "math_editor.rs"],
 [("serializing and deserializing", "aftermath-core/serialization/src/lib.rs"), ("checks of a deserialized grid", IT + "grid.rs"), ("copy and paste", CA + "math_editor.rs")], ["the deserialized elements or the refusal"])
prop("C13", "Autocompletion offers exactly the rules that the text before the caret begins",
 """For every rule, input and caret position, an offer is made for each run of whole symbols directly before the caret whose text is a beginning of the rule's text (or all of it) and that is at least as long (in symbols) as asked for; there are no other offers, and no input makes it panic.
 Each offer reports how many symbols and how much of the rule's text it covers, an offer is complete exactly if it covers the whole rule, offers come in the order of the rules (for a parser: what was added last comes first), and compare by how much of the rule they cover.""",
 ["inputs"], "all rule texts, all inputs including containers between the symbols and symbols of several characters, all characters of one to three bytes, all caret positions and minimal lengths",
 "The tests try single-character ASCII symbols at the end of five inputs; symbols of several characters or bytes, overlapping occurrences and the caret in the middle of the input are not sampled.",
 [PA + "autocomplete.rs", PA + "parser.rs"],
 [("matching of a rule", PA + "autocomplete.rs"), ("offers of a parser", PA + "parser.rs")], ["the list of offers"])
prop("C14", "Left and right visit every place of the document once, in reading order",
 """One step right from any position leads to the next position in reading order (entering and leaving every cell of every container), one step left to the previous one, so that the steps in one direction visit every position of the document exactly once and left and right undo each other.
 At the ends of the document the caret stays. With a selection, the step starts at its left or right end, and the selection collapses, even if there is nowhere to go.""",
 ["inputs", "histories"], "all documents with all kinds of containers, all positions and selections in either direction, both directions",
 "There is no test of caret movement; that no place is skipped or visited twice is a statement about all positions of all documents.",
 [CA + "primitive/movement.rs", CA + "caret.rs", IT + "focus.rs"],
 [("horizontal movement", CA + "primitive/movement.rs"), ("moving a caret", CA + "primitive/movement.rs")], ["the caret after the step"])
prop("C15", "Up and down reach the nearest cell above or below, or leave a script",
 """One step up leads to the end of the cell directly above the caret's cell in its container (same column), one step down to the start of the cell directly below; up in a superscript and down in a subscript lead out of it, to the place directly before it.
 If the container has no such cell, the next container further out decides, and if none has, the caret stays. The opposite step leads back into the cell it came from.""",
 ["inputs"], "all documents with all kinds of containers and table sizes, all positions, both directions",
 "There is no test of vertical movement; the column arithmetic and the search outwards only show with tables of unequal sizes nested in other containers.",
 [CA + "primitive/movement.rs", IT + "grid/index2d.rs", IT + "focus.rs"],
 [("vertical movement", CA + "primitive/movement.rs"), ("step in a grid", IT + "grid/index2d.rs")], ["the caret after the step"])
prop("C16", "Backspace and delete remove one symbol or one frame, never content",
 """With nothing selected, backspace (delete) removes exactly the symbol before (behind) the caret. Next to a container it only moves the caret inside, except that delete unwraps a script behind the caret.
 From inside, backspace at the start of a script or of the second part of a fraction or root, delete at the end of the first part of a fraction or root, and deleting outwards at the outermost end of a container with only empty cells replace the container by its contents; otherwise the caret only leaves the cell.
 All other symbols stay in their order, the caret stays between the same symbols and in the document, at the end of the document nothing happens, and the edits can be undone.""",
 ["inputs"], "all documents with all kinds of containers and cells, all caret positions, both directions",
 "There is no test of deleting at a caret; which content survives when a container is dissolved depends on the kind of the container, the cell and the side.",
 [CA + "primitive/primitive_edit.rs", CA + "primitive/movement.rs", IT + "editing/basic_edit.rs"],
 [("deleting at a caret", CA + "primitive/primitive_edit.rs")], ["the document and the caret after the edits"])
prop("C17", "Typing or deleting with a selection replaces exactly the selected elements",
 """Inserting elements at a selection of a row removes exactly the selected elements and puts the new ones in their place, in order, whether the selection runs forwards, backwards or is empty; deleting a selection removes exactly it, in every delete mode.
 All other elements stay, the caret goes directly behind the new elements (or to where the deleted ones were), and the edits can be undone.""",
 ["inputs"], "all documents, rows at any depth, selections in either direction, inserted elements",
 "There is no test of typing; backward selections and selections in nested rows are what ordinary use produces.",
 [CA + "primitive/primitive_edit.rs", IT + "editing/basic_edit.rs"],
 [("inserting at a selection", CA + "primitive/primitive_edit.rs"), ("replacement of a range", IT + "editing/basic_edit.rs")], ["the document and the caret after the edits"])
prop("C18", "What is selected is determined by the two ends of the caret",
 """Between two positions in different cells of the same table, the block of cells spanned by these two cells is selected; between any other two positions, the smallest range of the innermost common row that covers both, backwards if the second end comes first.
 The caret keeps its two ends, a caret or selection that is stored in plain form comes back as the same, and the plain form names the same place.""",
 ["inputs"], "all documents with tables and other containers, nested in each other, and all pairs of positions in them",
 "The tests select a few pairs in a handful of documents; the innermost common table decides, also if it is nested in the cell of another one.",
 [CA + "caret.rs", IT + "input_tree.rs", IT + "focus/grid_range.rs", IT + "focus/row_range.rs"],
 [("selection from two ends", CA + "caret.rs"), ("range from two positions", IT + "input_tree.rs")], ["the selection and its plain form"])
prop("C19", "Undo and redo in the editor restore documents and selections exactly",
 """After any history of typing, deleting, moving, selecting, pasting, splicing, undoing and redoing, the document and the selection are exactly what the last operation makes of the previous ones. Undo restores the document and the selection from before the last edit, redo those from after it;
 moving and selecting is not undone, a new edit discards what could have been redone, and undoing everything leads back to the empty document and redoing everything to the last one. The selection is always a place in the document.""",
 ["histories"], "all histories of editor operations from documents with all kinds of containers, with the operations at every position",
 "There is no test of the editor; the guarantee is about histories, and the interplay of undo, redo, stored carets and edits elsewhere in the document breaks only for particular orders.",
 [CA + "math_editor.rs", CA + "editor_action_builder.rs", CA + "undo_redo_manager.rs", CA + "primitive/caret_edit.rs"],
 [("operations of the editor", CA + "math_editor.rs"), ("undo and redo stacks", CA + "undo_redo_manager.rs"), ("recording of an edit", CA + "editor_action_builder.rs")], ["document and selection after every operation"])
prop("C20", "The editor's syntax tree is always that of the current document",
 """Whatever is done in the editor between two requests for the syntax tree (typing, deleting, splicing, undoing, redoing, pasting, accepting an autocompletion, autocorrection), the tree that is returned is the one that parsing the current document from scratch gives.""",
 ["histories"], "all histories of editor operations with requests for the syntax tree between them",
 "No test asks for the tree twice; a cached tree is stale only after particular operations.",
 [CA + "math_editor.rs", CA + "editor_action_builder.rs"],
 [("cached syntax tree", CA + "math_editor.rs"), ("invalidation by an edit", CA + "editor_action_builder.rs")], ["the syntax tree"])
prop("C21", "Autocompletions and autocorrection replace exactly the text they cover",
 """The menu shows exactly the offers for the text before an unselected caret (at least two symbols), those that cover least of their rule first, keeps the selected rule while it is offered, and moves within its ends. Accepting replaces exactly the covered symbols by the rule's result and puts the caret behind it; not accepting changes nothing.
 When the selected offer is complete and the caret leaves its text without editing, exactly that text is replaced by the result, the caret stays at its place in the rest of the document, and this is an edit of its own for undo; nothing is replaced while the caret is at or in the text, or if the text was edited.""",
 ["histories", "inputs"], "all typed symbols, rules that overlap each other, documents with containers around, all caret positions and operations, and their undo",
 "There is no test of autocorrection; the replaced place is computed before and used after the caret moved or the document changed.",
 [CA + "math_editor.rs", CA + "autocomplete.rs", PA + "autocomplete.rs"],
 [("autocorrection", CA + "math_editor.rs"), ("covered range", CA + "autocomplete.rs"), ("selected offer", CA + "math_editor.rs")], ["menu, document and selection after every operation"])
RULES = PA + "rule_collections/"
prop("C22", "Parsing any document terminates and loses nothing of it",
 """Every row, whatever it contains, is parsed without failing into one tree that covers it: the parts of a node follow each other without gaps or overlaps and cover exactly the node, a leaf has exactly the text of its symbols, and every container becomes a node of its kind with one parsed row for each of its cells, at every depth.
 Only a missing operand or operator, or an empty row, stands for nothing. Parsing the same row again gives the same tree.""",
 ["inputs"], "all rows and documents, well-formed or not, with all kinds of containers and all characters",
 "The tests parse about thirty inputs; that no input is dropped, doubled or makes the parser panic is a statement about all of them, and errors are what users type most of the time.",
 [PA + "parser/pratt_parser.rs", PA + "syntax_tree/syntax_node.rs", PA + "make_parser.rs", RULES + "built_in_rules.rs", PA + "parser.rs"],
 [("recovery from errors", PA + "parser/pratt_parser.rs"), ("ranges of nodes", PA + "syntax_tree/syntax_node.rs"), ("cells of containers", RULES + "built_in_rules.rs")], ["the syntax tree"])
prop("C23", "Precedence and associativity follow the strengths of the rules",
 """Whatever strengths the rules have, an operator inside the left or right operand of another (unless in brackets) binds more strongly than that one: of two operators that compete for an operand the stronger gets it, among equal ones a left-associative one goes to the left and a right-associative one to the right, prefix and postfix operators included.
 A symbol that is both prefix and infix operator is a prefix where an operand is expected and an infix elsewhere. Where two operands follow each other, a missing operator (left-associative, strength 100) stands between them, and where an operand is missing, a missing token; both appear exactly where operators and operands do not alternate.""",
 ["inputs", "configurations"], "all strengths of all rules (0 to 65535), all rows over an operand and the operators",
 "The tests use the shipped strengths, which are multiples of 100; equal strengths, and prefix and postfix operators that bind more weakly than an infix one, do not occur in them.",
 [PA + "parser/pratt_parser.rs", PA + "make_parser.rs", PA + "parse_module.rs"],
 [("binding powers", PA + "parser/pratt_parser.rs"), ("loop over operators", PA + "parser/pratt_parser.rs"), ("strengths of a rule", PA + "parse_module.rs")], ["the syntax tree"])
prop("C24", "The shipped rules give mathematical notation its usual meaning",
 """With all shipped modules, a row means what the grammar says: from weak to strong = ; comma and comparisons ; + - and the logical operators ; * / ; signs, and sums, integrals and limits (lim, limsup, liminf), which take a product ; factorial, exponent, application to brackets, superscripts and subscripts, which take what stands before them. Infix operators group to the left and, like signs and big operators, can have scripts;
 numbers have digits and perhaps a dot with digits, names begin with a letter, strings run to the next unescaped quote. Exactly the rows that are no expression are marked as wrong (unknown or missing token, missing operator, nothing).""",
 ["inputs"], "all rows over the symbols of the rules and all ASCII characters, with containers among them, with and without spaces",
 "The tests parse a handful of expressions; which of two rules wins, and what a rule takes, depends on all the modules together.",
 [RULES + "core_rules.rs", RULES + "arithmetic_rules.rs", RULES + "calculus_rules.rs", RULES + "comparison_rules.rs", RULES + "logic_rules.rs", RULES + "string_rules.rs", RULES + "collections_rules.rs", RULES + "function_rules.rs", RULES + "built_in_rules.rs", PA + "make_parser.rs"],
 [("rules of the modules", RULES + "arithmetic_rules.rs"), ("big operators and limits", RULES + "calculus_rules.rs"), ("application", RULES + "function_rules.rs"), ("scripts", RULES + "built_in_rules.rs")], ["the syntax tree"])
prop("C25", "Spaces between tokens change nothing but where things are",
 """Adding any number of spaces before, between and behind the tokens of an expression (not within a name, number, string, operator word or empty brackets) leaves its syntax tree the same: the same nodes with the same names and texts, each standing for the same symbols at their new places; the spaces only appear as whitespace around a token.""",
 ["inputs"], "all expressions over operands, operators, brackets and containers, with spaces at all places",
 "The tests have two inputs with spaces; a rule that does not allow for spaces fails only at the one place where nobody tried one.",
 [PA + "make_parser.rs", RULES + "built_in_rules.rs", PA + "parser/pratt_parser.rs"],
 [("spaces around tokens", PA + "make_parser.rs"), ("operator parser", PA + "make_parser.rs")], ["the syntax tree"])
prop("C26", "Cells and brackets are parsed as on their own",
 """What stands in a cell of a container is parsed exactly as the same row would be on its own, wherever the container stands; what stands in brackets is parsed as on its own (moved to its place) whatever stands around the brackets, and brackets behind an operand are an application while others are a group. An error in a cell or in brackets stays there.""",
 ["inputs"], "all contents, right or wrong, of cells and brackets, in all containers and with all things around them",
 "The tests have no errors in cells and few brackets; a parser that recovers from an error past the end of the brackets passes them all.",
 [RULES + "built_in_rules.rs", PA + "make_parser.rs", PA + "parser/pratt_parser.rs", RULES + "core_rules.rs", RULES + "function_rules.rs", PA + "parser.rs"],
 [("rows of cells", RULES + "built_in_rules.rs"), ("brackets", PA + "make_parser.rs"), ("errors up to the closing bracket", PA + "parser/pratt_parser.rs")], ["the syntax tree of the part"])
prop("C27", "Of several matching rules the one added last is used",
 """When several rules for the same place (operands, prefix, infix or postfix operators) match the text that follows, the one that was added last is used, the rules of a later module counting as later, and it takes exactly its own text. Rules that do not match have no influence. What no rule matches is marked as wrong.""",
 ["inputs", "configurations"], "all texts of rules and inputs, including rules whose texts are beginnings of each other, in all splits between two modules",
 "The tests use the shipped rules, of which few overlap; users and later modules override earlier rules by this guarantee (limsup over lim over a name).",
 [PA + "parser/greedy_choice.rs", PA + "parser/pratt_parser.rs", PA + "parser.rs", PA + "parse_module.rs", PA + "rule_collection.rs"],
 [("choice between rules", PA + "parser/greedy_choice.rs"), ("order of rules", PA + "parser.rs")], ["the syntax tree"])
prop("C28", "Rule names, ids and printed trees identify each other",
 """A rule name gets one id, the same whenever it is added again, different names get different ids, and an id leads back to its name; unknown names have none. Names are paths of at least two identifiers, anything else is refused.
 A printed syntax tree reads back as the same tree: names, the texts of leaves with quotes and backslashes escaped, the numbers of cells, and all children in order.""",
 ["inputs", "histories"], "all sequences of added names, all texts offered as names, all syntax trees of rows with any characters",
 "The tests only print trees without special characters, and never add a name twice; the ids connect the parser to the renderer.",
 [PA + "syntax_tree/node_type_id.rs", PA + "syntax_tree/node_identifier.rs", PA + "syntax_tree/display_syntax_tree.rs", PA + "parse_modules.rs", IT + "print_helpers.rs"],
 [("map of names", PA + "syntax_tree/node_type_id.rs"), ("valid names", PA + "syntax_tree/node_identifier.rs"), ("printing", PA + "syntax_tree/display_syntax_tree.rs")], ["ids, names and the printed text"])
prop("C29", "What is exchanged with the page comes back unchanged",
 """Whatever is handed to the page and back as plain data (serialized and deserialized) is afterwards the same: positions, ranges, selections and blocks of cells with any indices, documents, syntax trees with names, values, texts and ranges, autocompletion rules, and the directions, modes and kinds the operations take.""",
 ["inputs"], "all numbers in positions, ranges and blocks; all documents, syntax trees and rules; both as data and as JSON text",
 "The tests serialize nothing but one row; the page draws what it gets and sends back what it was given, so that a click would land elsewhere if any of these changed on the way.",
 [IT + "focus/row_position.rs", IT + "focus/row_range.rs", IT + "focus/grid_range.rs", IT + "grid/grid_view.rs", IT + "grid.rs", IT + "row.rs", IT + "node.rs", PA + "syntax_tree/syntax_node.rs", PA + "autocomplete.rs", "aftermath-core/caret/src/caret.rs"],
 [("plain positions", IT + "focus/row_position.rs"), ("blocks of cells", IT + "grid/grid_view.rs"), ("tables", IT + "grid.rs"), ("syntax nodes", PA + "syntax_tree/syntax_node.rs")], ["the data that comes back"])
prop("C30", "The effort of parsing is in proportion to the length of the row",
 """Parsing looks at each element of a row only a fixed number of times on average (runs of spaces aside), however deeply brackets and containers are nested, however long operators are chained, and wherever operands are missing or symbols are unknown, so that no document makes the editor hang.""",
 ["inputs"], "all rows, all ways to nest brackets and containers, and all repetitions of elements",
 "The tests parse short rows. A parser that tries something twice on each level takes twice as long per level: no test of a result shows it, and ten levels later the page hangs.",
 [PA + "parser/pratt_parser.rs", PA + "make_parser.rs", PA + "math_parser.rs", RULES + "built_in_rules.rs"],
 [("operators and errors", PA + "parser/pratt_parser.rs"), ("brackets", PA + "make_parser.rs")], ["how often elements are looked at"])
prop("C31", "A click leads to the nearest place under the pointer",
 """A click leads to a place that exists in the document: a row given by its way down from the outermost row, and an offset between its ends. It is the place nearest to the pointer among those of the innermost element under the pointer (its part of its row, and every row below it), or of the whole formula where the pointer is outside of it.
 No nearer place is missed, however the boxes of the elements lie and overlap, and the way has the numbers of the container's place and of its row at every level.""",
 ["inputs"], "all positions of the pointer, all boxes and all positions of carets in rows and containers nested in each other",
 "Nothing of the page is tested. A place that is missed depends on where boxes lie relative to each other (a fraction over its numerator, an index over the next symbol), which differs with each font.",
 ["src/mathml/render-result.ts", "src/rendering/viewport-coordinate.ts", "src/input-tree/row-indices.ts"],
 [("element under the pointer", "src/mathml/render-result.ts"), ("nearest place", "src/mathml/render-result.ts"), ("distances", "src/rendering/viewport-coordinate.ts"), ("ways", "src/input-tree/row-indices.ts")], ["the row and offset a click leads to"])
prop("C32", "Carets and selections are drawn where they are",
 """A caret is drawn at the place of its offset in its row, where the selection ends, as high as the row's text. A selection is drawn as a box from one end to the other, from the top of the highest to the bottom of the lowest of the selected parts (the outermost parts that are selected completely, and the leaves and containers selected in part), whichever end comes first; one that selects nothing has no box.
 Selected cells are drawn as the box from the first selected cell to the last one, without a caret. With several carets each one is drawn once and none is left from before. The box of any row is found by its way.""",
 ["inputs"], "all boxes and positions, all selections forwards and backwards, all blocks of cells, several carets",
 "Nothing of the page is tested. A wrong end, a height taken from the wrong parts, or a cell counted by column instead of row shows only in some documents, and users then delete what they did not mean to.",
 ["src/mathml/render-result.ts", "src/rendering/rendered-selection.ts", "src/component/math-editor.ts", "src/component/caret/single-caret-element.ts", "src/rendering/viewport-coordinate.ts", "src/input-tree/row-indices.ts"],
 [("box of a selection", "src/mathml/render-result.ts"), ("carets of the page", "src/component/math-editor.ts"), ("caret element", "src/component/caret/single-caret-element.ts"), ("joined boxes", "src/rendering/rendered-selection.ts")], ["place and size of the drawn caret and boxes"])
prop("C33", "A document is rendered completely, with places for carets in between",
 """Every document is rendered without failing, whatever the parser makes of it: every rule of the shipped grammar has a way of being rendered. In each row every symbol is shown exactly once and in order, each container as one element of its kind with all its cells in their places (numerator above denominator, the degree at the root, tables by rows and columns, scripts behind their base), and nothing else but placeholders for what is missing.
 Every row has exactly one rendered element, found by its way and standing for all of the row; nothing else has a row's number. For each offset of each row there is a place for the caret: behind all that is before it, before all that is behind it, within the formula.""",
 ["inputs"], "all documents, right or wrong, with all operators and containers; all layouts by the browser",
 "Nothing of the page is tested. Which elements the parser puts together (with spaces, or with operators missing) is what decides whether a formula can be rendered, and one that cannot leaves the page unusable.",
 ["src/mathml/renderer.ts", "src/mathml/renderer/rendered-container-element.ts", "src/mathml/renderer/rendered-rows-element.ts", "src/mathml/renderer/rendered-root-element.ts", "src/mathml/renderer/rendered-table-element.ts", "src/mathml/renderer/rendered-text-element.ts", "src/mathml/renderer/rendered-symbol-element.ts", "src/mathml/renderer/rendered-leaf.ts", "src/mathml/renderer/rendered-element.ts", "src/mathml/renderer/rendered-missing.ts", "src/mathml/renderer/rendered-nothing.ts", "src/mathml/render-result.ts", "src/core/index.ts"],
 [("renderers of the rules", "src/mathml/renderer.ts"), ("rows of containers", "src/mathml/renderer/rendered-rows-element.ts"), ("tables", "src/mathml/renderer/rendered-table-element.ts"), ("places of carets", "src/mathml/renderer/rendered-container-element.ts"), ("rows by their way", "src/mathml/render-result.ts")], ["the rendered elements, the rows they stand for, the places of carets"])

prop("C34", "A formula given as MathML becomes the document it stands for",
"""A formula that is given as MathML (as an attribute or the content of the editor's element) becomes the document it stands for: every character of its tokens in order, normalized and split as the editor counts characters; fractions, roots, scripts and tables with all their parts in their places, short rows of tables filled up; lists and styles as what is in them; text in quotes.
 What cannot be read (elements with the wrong number of parts, unknown ones, tables without cells or with strangers) becomes one error symbol in its place, nothing else is lost, and exactly then errors are reported. Import never fails altogether, and the editor accepts every document that comes of it and can show it.""",
["inputs"], "all formulas, right or wrong", "Nothing of the page is tested, and the elements a formula may consist of nest in every way.",
["src/mathml/parsing.ts", "src/core/index.ts"],
[("import", "src/mathml/parsing.ts"), ("documents", "src/core/index.ts")], ["the document", "the errors that are reported"])

prop("C35", "What the user does reaches the editor, and the page shows what it says",
"""Whatever is done to the page's editor, in whatever order: arrow keys move the caret, control with Z and Y takes edits back and forth, what is typed is inserted at the caret (in the order it was typed, normalized, one symbol per character), deleting removes to the left or to the right, copying and cutting put what is selected on the clipboard (and only cutting removes it), pasting inserts what the clipboard has as a formula and otherwise changes nothing; pressing puts the caret to the place that is shown there and starts a selection there, which moving extends until the pointer is released; second fingers, and pointers that were not pressed in the editor, do nothing; a formula that is set from outside replaces the document. Nothing else changes the document or the caret.
 After every event the page shows exactly the current document, one caret where the editor has it, and the selection; the editor that was pressed has the focus.""",
["inputs", "histories"], "all positions of the pointer, all histories of events", "Nothing of the page is tested. Handlers share state (whether the pointer is down, the last rendering, the last syntax tree), and each may change the document: a selection that leaves a word corrects it.",
["src/component/math-editor.ts", "src/component/input/input-handler-element.ts", "src/component/caret/single-caret-element.ts", "src/core/index.ts", "src/utils/dom-utils.ts", "aftermath-core/web/src/math_editor.rs", "aftermath-core/web/src/math_parser.rs"],
[("events", "src/component/math-editor.ts"), ("editor", "aftermath-core/web/src/math_editor.rs"), ("parser", "src/core/index.ts")], ["the document, the caret and the selection of the editor", "the formula, the caret and the boxes that are shown", "the clipboard and the focus"])
