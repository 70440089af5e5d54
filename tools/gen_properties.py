#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, os
P=[]
IT="aftermath-core/input_tree/src/"
CA="aftermath-core/caret/src/"
PA="aftermath-core/parser/src/"
def p(id,title,statement,over,text,why,files,mech,**kw):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**{k:[v] for k,v in kw.items()}))
    P.append(d)

p("C01","A row edit changes exactly the span it names",
 "Inserting nodes into a row puts exactly those nodes, in order, at the given offset of the addressed row; deleting removes exactly that many nodes starting at that offset. Every other node of that row, and every other row of the formula at any depth, is left untouched and keeps its relative order.",
 ["inputs"],"every formula tree, every row in it at any depth, every offset 0..=len, every inserted/deleted run of nodes (including empty and nested ones)",
 "The existing tests perform two insertions and one deletion; they cannot cover every row, edge of a row, depth and multi-node run.",
 [IT+"input_tree.rs",IT+"editing/basic_edit.rs",IT+"node.rs"],[("apply_edit, row arm",IT+"input_tree.rs"),("RowEdit",IT+"editing/basic_edit.rs"),("row_mut walk",IT+"node.rs")],
 observe_at="the formula tree after the edit, compared cell by cell with an independent list-splice model")
p("C02","Table edits insert and delete exactly whole rows and columns",
 "Inserting rows (or columns) into a table places exactly the given cells as consecutive rows (or columns) at the given index, and deleting rows (or columns) removes exactly the cells of those rows (or columns). All remaining cells keep their content and their relative row and column order, and the table's width and height change by exactly the number of rows or columns involved.",
 ["inputs"],"every table size, every insertion index including both ends, every number of rows/columns that leaves at least one of each, tables at the root or nested in any container",
 "The existing tests insert one row and one column into one table each and never delete any.",
 [IT+"input_tree.rs",IT+"editing/basic_edit.rs",IT+"grid.rs"],[("apply_edit, grid arm",IT+"input_tree.rs"),("new_grid_size",IT+"editing/basic_edit.rs")],
 observe_at="the table's cells and size after the edit, compared with a matrix model")
p("C03","Undoing an edit sequence restores the formula exactly",
 "Applying any sequence of valid edits and then their inverses in reverse order yields a formula equal to the original one, and re-applying the sequence afterwards yields the edited formula again. The inverse of an edit's inverse is the edit itself.",
 ["histories"],"every history of row and table edits (insertions and deletions at any row, offset, depth) up to a depth, from every start formula",
 "The existing test inverts one single edit; invertibility must hold for every history, including deletions of containers whose content was edited just before.",
 [IT+"editing/basic_edit.rs",IT+"input_tree.rs",IT+"editing/invertible.rs"],[("inverse",IT+"editing/basic_edit.rs"),("apply_edits",IT+"editing/editable.rs")])
p("C04","Edits built from ranges and positions do what they announce",
 "Removing a range deletes exactly the nodes between its two ends whichever end is first, inserting at a position inserts exactly there, and replacing a range leaves exactly the new nodes where the range was. The returned caret position (or range) is valid in the edited formula: the left end of what was removed, just behind what was inserted, or the forward range that covers exactly the replacement.",
 ["inputs"],"every formula, every row, every pair of range ends in either direction, every replacement including the empty one",
 "Existing tests build no edit from a range or position.",
 [IT+"editing/basic_edit.rs",IT+"focus/row_range.rs"],[("remove_range / insert_at_position / replace_range",IT+"editing/basic_edit.rs"),("left_position / right_offset / values",IT+"focus/row_range.rs")])
p("C05","Stored positions follow their place through edits",
 "When the formula is edited, a stored caret position keeps pointing at the same place: positions in rows the edit does not touch are unchanged, positions behind the edited span (or inside a container behind it) shift with their content, a position exactly at an insertion point stays in front of the inserted nodes, and a position inside deleted content moves to the place where the deletion happened. The result is always a valid position of the edited formula, for edits on the same row, on an enclosing row and on unrelated rows alike.",
 ["inputs","histories"],"every formula, every position in it, every row or table edit at any depth relative to the position, and sequences of edits",
 "The two existing tests move one range in one flat row; containers between the edit and the position, nested depths and sequences are never reached.",
 [IT+"focus/row_position.rs",IT+"focus/row_range.rs",IT+"editing/row_indices_edit.rs"],[("apply_edit for positions",IT+"focus/row_position.rs"),("apply_edit for ranges",IT+"focus/row_range.rs"),("get_row_indices_edit",IT+"editing/basic_edit.rs")],
 observe_at="the adjusted position, compared with an oracle that tags every gap between nodes and looks the tag up after the edit")
p("C06","Stored ranges follow their content through edits",
 "When the formula is edited, a stored range still covers exactly the surviving nodes it covered before, and nodes inserted at its left edge or at its right edge become part of it. A range whose row disappears with a deleted container collapses to the place of the deletion, the direction of the range (which end the caret is on) is kept unless it collapses, and the result is always a valid range of the edited formula.",
 ["inputs","histories"],"every formula, every row range in either direction, every row or table edit on the same row, an enclosing row or elsewhere, and sequences of edits",
 "The two existing tests move one forward range in one flat row; backward ranges, nested ranges and edits in enclosing rows are not reached.",
 [IT+"focus/row_range.rs",IT+"focus/grid_range.rs",IT+"editing/row_indices_edit.rs"],[("apply_edit for ranges",IT+"focus/row_range.rs"),("apply_edit for grid ranges",IT+"focus/grid_range.rs")])
p("C07","Caret positions are totally ordered in reading order",
 "Comparing any two caret positions of a formula agrees with the order in which a reader walking the formula left to right, entering every container and visiting its cells in order, meets them: the comparison is total, antisymmetric and transitive, and equal only for the same position. A position counts as inside a range exactly when it lies between the range's two ends in that order, whichever end comes first.",
 ["inputs"],"every formula, every pair and triple of its caret positions, every range",
 "The existing test compares a few positions in one formula; an order must be right for every pair at every nesting.",
 [IT+"row.rs",IT+"focus/row_position.rs",IT+"focus/row_range.rs"],[("cmp_indices_and_offset",IT+"row.rs"),("Ord / in_range",IT+"focus/row_position.rs"),("contains",IT+"focus/row_range.rs")])
p("C08","The range spanning two positions is the smallest row range covering both",
 "For any two caret positions of a formula, the range spanning them lies in the deepest row that contains both, covers both of them and is the shortest such range: a position directly in that row is an end of the range, a position nested inside one of its nodes makes the range include that whole node. The range runs forwards when the first position comes first in reading order, otherwise backwards.",
 ["inputs"],"every formula and every ordered pair of caret positions in it (same row, different depth, different cells of one container, disjoint containers)",
 "No runnable test spans two positions; correctness depends on the relation of two arbitrary nested paths.",
 [IT+"input_tree.rs",IT+"row.rs",IT+"focus/row_range.rs"],[("range_from_positions",IT+"input_tree.rs"),("get_shared",IT+"row.rs")])
p("C09","Navigating the formula by focus is consistent with its structure",
 "Walking down to a child row or node, back up to a parent, or directly to an address always reaches exactly the row or node that the address denotes, reports that same address and the same index within its parent, and never loses or duplicates part of the address on the way back up. Asking for a child, cell or neighbour that does not exist reports absence instead of failing or returning another one.",
 ["inputs","histories"],"every formula and every sequence of navigation steps up to a depth, including out-of-range requests and the root row",
 "The existing test takes one path down and up; round trips from every node, out-of-range requests and the root are not checked.",
 [IT+"focus.rs",IT+"focus/row_position.rs",IT+"focus/row_range.rs",IT+"focus/grid_range.rs"],[("InputFocusRow/InputFocusNode",IT+"focus.rs"),("from_minimal/to_minimal",IT+"focus/row_position.rs")])
p("C10","Grid addressing is a bijection that never leaves the grid",
 "Converting between a cell's linear index and its column/row coordinates is a bijection on the cells of the grid, reading or writing a cell touches exactly that cell, and stepping from a cell by any number of rows or columns yields the cell at those coordinates. A coordinate, step or index outside the grid (or made for a grid of another width) is reported as absent and changes nothing.",
 ["inputs"],"every grid size up to a bound (including a grid with no rows), every index and coordinate inside and outside, every step in every direction",
 "No existing test touches the grid type.",
 [IT+"grid.rs",IT+"grid/index2d.rs"],[("get/get_mut/set",IT+"grid.rs"),("from_index/to_index_checked/add_checked/sub_checked",IT+"grid/index2d.rs")])
p("C11","A rectangle between two cells covers exactly the cells between them",
 "The rectangle spanned by any two cells of a grid, given in any order, consists of exactly the cells whose row and column both lie between theirs. Its width, height, top-left and bottom-right corner and emptiness agree with that set of cells, and a view through it shows exactly those cells at their relative coordinates and nothing outside.",
 ["inputs"],"every grid size up to a bound, every ordered pair of cells, every view coordinate inside and outside",
 "No existing test touches rectangles or views.",
 [IT+"grid/grid_view.rs",IT+"focus/grid_range.rs"],[("from_indices_inclusive / size / start_index / end_index_inclusive",IT+"grid/grid_view.rs"),("GridView::get",IT+"grid/grid_view.rs")])
p("C12","Printing a formula is faithful",
 "The textual form of a formula determines it completely: two different formulas never print the same, and reading the text back with its documented grammar (nested parenthesised rows and containers with their size, quoted symbols with quote and backslash escaped) gives back exactly the formula.",
 ["inputs"],"every formula, including empty rows and tables, symbols that contain quotes, backslashes, spaces or several code points",
 "Existing printing tests compare a few fixed strings; injectivity is a statement over all pairs of formulas.",
 [IT+"node.rs",IT+"row.rs",IT+"grid.rs",IT+"print_helpers.rs"],[("Display",IT+"row.rs"),("write_with_escaped_double_quotes",IT+"print_helpers.rs")])
p("C13","Saving and loading formulas and addresses is lossless and validated",
 "Serialising a formula, a caret position, a range or a grid selection and reading it back gives an equal value, and the serialised shape is the one the web front end reads (tagged nodes, one-dimensional cell list with width, plain numbers for indices). Data whose cell list does not form a rectangular grid is rejected with an error instead of producing a broken formula.",
 ["inputs"],"every formula, position, range and grid selection, and every malformed cell list up to a size",
 "No existing test serialises anything.",
 [IT+"node.rs",IT+"row.rs",IT+"grid.rs",IT+"focus/row_position.rs","aftermath-core/serialization/src/lib.rs"],[("serde derives",IT+"node.rs"),("GridVec (de)serialisation",IT+"grid.rs")])

p("C14","Left and Right visit every caret position exactly once, in order",
 "With no selection, pressing Right moves the caret to the next caret position of the formula in reading order and pressing Left to the previous one, entering and leaving containers and going from cell to cell, and at the two ends of the formula the caret stays. So repeated Right from the start visits every caret position exactly once, and Left is its exact inverse; with a row selection the caret moves on from the selection's edge in that direction.",
 ["inputs","histories"],"every formula, every caret position and selection in it, both directions, all walks",
 "No existing test moves the caret.",
 [CA+"primitive/movement.rs",CA+"math_editor.rs",IT+"focus.rs"],[("move_horizontal_into / move_horizontal_beyond_edge",CA+"primitive/movement.rs"),("index_in_parent",IT+"focus.rs")])
p("C15","Up and Down move between vertically stacked cells",
 "Pressing Up (or Down) moves the caret into the cell directly above (or below) in the innermost enclosing container that has one, at its end when going up and at its start when going down; Up inside a superscript and Down inside a subscript leave it to the position in front of it. When there is no such place the caret stays, and the caret never ends up anywhere that is not a valid position.",
 ["inputs"],"every formula, every caret position in it, both directions",
 "No existing test moves the caret vertically.",
 [CA+"primitive/movement.rs",IT+"grid/index2d.rs"],[("move_vertical",CA+"primitive/movement.rs"),("add_checked/sub_checked",IT+"grid/index2d.rs")])
p("C16","A selection covers both of its ends and nothing beyond what is needed",
 "Selecting from one position to another shows a selection that contains both: either the smallest range of whole nodes in one row, or, exactly when both ends lie in cells of the same table, a rectangle of that table's cells whose opposite corners are the two cells. Selecting all covers the whole root row, and extending or shrinking the selection again keeps the fixed end in place.",
 ["inputs","histories"],"every formula and every ordered pair of positions (by mouse: start then extend), and every sequence of keyboard selection steps up to a depth",
 "Three selection tests sample single formulas and are not even part of the runnable suite.",
 [CA+"caret.rs",CA+"math_editor.rs",IT+"input_tree.rs",IT+"grid/grid_view.rs"],[("from_positions",CA+"caret.rs"),("start_selection/extend_selection/select_all/select_with_caret",CA+"math_editor.rs")])
p("C17","Deleting removes only what it should and keeps everything else in order",
 "Deleting with a selection removes exactly the selected nodes; without one, Backspace or Delete removes at most the one adjacent symbol, or dissolves the one surrounding or adjacent container while keeping all of its content in order, or just moves the caret. Nothing else in the formula changes, the caret ends up at the place of the deletion, and repeatedly pressing Backspace from the end of a formula without tables eventually empties it.",
 ["inputs","histories"],"every formula, every caret position and row selection, both delete directions, and repeated deletion to exhaustion",
 "No existing test deletes at the caret.",
 [CA+"primitive/primitive_edit.rs",CA+"math_editor.rs"],[("remove_at_caret / flatten_node",CA+"primitive/primitive_edit.rs")])
p("C18","No sequence of editor commands crashes the editor or breaks the caret",
 "Starting from any formula, every sequence of editor commands (moving, selecting, typing, deleting, undo, redo, copy, paste, autocomplete, programmatic replacement) runs to completion without a crash. After every command the reported caret or selection is a valid position of the current formula.",
 ["histories"],"every command history up to a depth over the editor's whole command set, from the empty and from structured start formulas",
 "A crash or dangling caret only shows after specific multi-command histories; there is no such test.",
 [CA+"math_editor.rs",CA+"editor_action_builder.rs",CA+"primitive/movement.rs",CA+"autocomplete.rs"],[("MathEditor commands",CA+"math_editor.rs"),("EditorActionBuilder::finish",CA+"editor_action_builder.rs")])
p("C19","Undo and redo walk the edit history exactly",
 "Each undo brings back exactly the formula and caret of an earlier point of the history, latest change first, until the initial formula is reached; each redo brings back exactly what the matching undo took away. Undo and redo with nothing left change nothing, moving the caret does not disturb the history, and a new edit discards what could be redone.",
 ["histories"],"every command history up to a depth, followed by every mix of undo, redo and further commands",
 "Undo correctness is a statement over all histories; no existing test presses undo.",
 [CA+"undo_redo_manager.rs",CA+"primitive/caret_edit.rs",CA+"math_editor.rs"],[("UndoRedoManager",CA+"undo_redo_manager.rs"),("CaretEdit::inverse",CA+"primitive/caret_edit.rs"),("apply_action",CA+"math_editor.rs")])
p("C20","The syntax tree always belongs to the current formula",
 "Whenever the syntax tree is asked for, it is the parse of the formula as it is at that moment, regardless of which commands ran before and of whether a syntax tree was computed earlier. Commands that do not change the formula do not change the syntax tree.",
 ["histories"],"every command history up to a depth with syntax-tree queries interleaved at every point",
 "Staleness needs a query, a particular change and another query; no existing test does that.",
 [CA+"math_editor.rs",CA+"editor_action_builder.rs"],[("get_syntax_tree cache",CA+"math_editor.rs"),("finish clears cache",CA+"editor_action_builder.rs")])
p("C21","Copy and paste reproduce the selected nodes exactly",
 "Copying a row selection and pasting it anywhere inserts exactly the selected nodes there, replacing the target selection and leaving the caret behind them; copying changes nothing. Pasting data that is not a valid clipboard document reports an error and leaves formula and caret unchanged.",
 ["inputs","histories"],"every formula, every source selection, every target position or selection, and malformed clipboard documents",
 "No existing test copies or pastes.",
 [CA+"math_editor.rs","aftermath-core/serialization/src/lib.rs"],[("copy/paste",CA+"math_editor.rs"),("serialize_input_nodes/deserialize_input_nodes",  "aftermath-core/serialization/src/lib.rs")])
p("C22","Autocomplete offers exactly the rules whose text ends at the caret",
 "A completion rule is offered exactly when the last symbols before the caret spell a beginning of the rule's text that is at least as long as required, and the reported lengths say how much of the rule's text and how many symbols before the caret that is; it is marked complete exactly when the whole text has been typed. Symbols of any length are matched as whole symbols, and matching never fails on any input.",
 ["inputs"],"every row of symbols up to a length over an alphabet with overlapping and multi-byte symbols, every caret offset, every minimum length, every rule",
 "The existing examples cover a few inputs of single-byte symbols and are not part of the runnable suite.",
 [PA+"autocomplete.rs",CA+"autocomplete.rs"],[("AutocompleteRule::matches / indices_of",PA+"autocomplete.rs")])
p("C23","Parsing accepts every formula and always finishes",
 "Every formula, however malformed mathematically, parses to a syntax tree without crashing and in time that does not explode with its length or nesting.",
 ["inputs"],"every row of tokens up to a length over the grammar's whole alphabet, every nesting of containers up to a depth, and long and deeply nested families",
 "Existing tests parse some two dozen expressions.",
 [PA+"parser.rs",PA+"make_parser.rs",PA+"math_parser.rs",PA+"parser_extensions.rs"],[("MathParser::parse",PA+"parser.rs"),("make_parser",PA+"make_parser.rs")])
p("C24","A syntax tree accounts for every input symbol exactly once",
 "The ranges of a syntax tree nest and tile: the root covers the whole row, the children of a node lie inside it, in order, without overlap, and every node of the row is covered by exactly one leaf (or one container) of the tree, whose recorded content equals the input there. Child rows of containers refer to cells that exist, each exactly once.",
 ["inputs"],"every row of tokens up to a length, with and without containers",
 "Existing tests compare a few complete trees.",
 [PA+"syntax_tree/syntax_node.rs",PA+"syntax_tree/syntax_node_builder.rs",PA+"make_parser.rs"],[("SyntaxNode ranges",PA+"syntax_tree/syntax_node.rs"),("builders",PA+"syntax_tree/syntax_node_builder.rs")])
p("C25","Expressions group by the documented precedence and associativity",
 "For well-formed expressions the syntax tree groups operators as the rules state: tighter operators bind first, operators of equal strength group to their declared side, prefix and postfix operators and scripts bind to the operand next to them, two adjacent operands form a marked missing operator of their documented strength, a name directly followed by brackets is a function application, and brackets override everything. Numbers, names, strings and multi-symbol words are recognised as whole tokens.",
 ["programs"],"every operator/operand expression up to a length over the rule collections",
 "Existing tests pin a few shapes out of the combinatorially many operator mixes.",
 [PA+"make_parser.rs",PA+"rule_collections/arithmetic_rules.rs",PA+"rule_collections/core_rules.rs",PA+"rule_collections/calculus_rules.rs"],[("pratt parser",PA+"make_parser.rs"),("rule tables",PA+"rule_collections")])
p("C26","Parsing is a function of the formula only",
 "Parsing the same formula twice, with the same parser or a freshly made one, before or after any other formulas, yields equal syntax trees.",
 ["histories"],"every pair and sequence of formulas parsed by one shared parser compared with fresh parsers",
 "Existing tests use a fresh parser per expression and never compare.",
 [PA+"parser.rs",PA+"math_parser.rs",PA+"make_parser.rs"],[("parser cache",PA+"math_parser.rs")])
p("C27","The content of a cell is parsed as if it stood alone",
 "Inside a fraction, root, script or table cell, a row gets exactly the syntax tree it would get as a formula of its own, and the container's place in its own row does not depend on what its cells contain.",
 ["inputs"],"every row up to a length placed in every cell of every container kind, in every surrounding expression of a set",
 "Existing tests put single symbols into one or two container kinds.",
 [PA+"make_parser.rs",PA+"rule_collections/built_in_rules.rs"],[("container rules",PA+"rule_collections/built_in_rules.rs")])
p("C28","Spaces never change the meaning of an expression",
 "Inserting spaces between the tokens of an expression changes neither which operators, operands and functions the syntax tree contains nor how they group; the spaces only show up as whitespace entries.",
 ["inputs"],"every expression up to a length and every way of inserting spaces at token boundaries",
 "Existing tests have one or two expressions with spaces.",
 [PA+"make_parser.rs",PA+"rule_collections/built_in_rules.rs"],[("whitespace handling",PA+"make_parser.rs")])
p("C29","Every syntax node has a registered, unambiguous name",
 "Every rule has a registered name, shared only by the variants of that rule (a sign and a binary operator, empty and filled brackets); different names never share an identity and a name keeps its identity when it is registered again; names and identities translate into each other without loss; and every node of every syntax tree carries the identity of a registered rule so that it can be looked up, printed and rendered.",
 ["inputs","configurations"],"every subset of rule modules, every syntax tree of every formula up to a bound",
 "No existing test checks the name table against the trees.",
 [PA+"parse_modules.rs",PA+"syntax_tree/node_identifier.rs",PA+"rule_collections"],[("rule name map",PA+"parse_modules.rs")])
p("C33","Accepting a completion replaces exactly the typed token",
 "Accepting an offered completion replaces exactly the symbols before the caret that spelled it by the rule's result, and nothing else. When the caret is moved away from a completely typed token whose completion is the only one offered or the chosen one, that token (and only it) is replaced by its rule's result, once, while the rest of the formula stays and the caret keeps its place relative to the surrounding content; a token that is incomplete or was changed again is never replaced.",
 ["histories"],"every typing history up to a depth that spells, partially spells or misspells rules next to other content, in rows at any depth, followed by caret moves, acceptance or further typing",
 "No existing test runs completion inside the editor.",
 [CA+"math_editor.rs",CA+"autocomplete.rs",PA+"autocomplete.rs"],[("finish_autocomplete/apply_autocorrect/splice_at_range",CA+"math_editor.rs"),("AutocorrectActionBuilder",CA+"autocomplete.rs")])
p("C38","The chosen completion stays chosen",
 "Which completions are offered, and in which order, depends only on the formula and the caret. Exactly one of them is the chosen one: stepping moves the choice by one and stops at the first and last; a chosen completion stays chosen while it is still offered, whatever is typed, moved or undone meanwhile, also when the same completion is offered for tokens of different length; otherwise the first one is. Looking at the completions, opening or dismissing them never changes the editor.",
 ["histories"],"every history of commands up to a depth (typing, stepping, moving, selecting, deleting, undo, accepting) from formulas with beginnings of completions in rows at any depth",
 "No existing test asks for completions inside the editor; which one is chosen depends on everything done before.",
 [CA+"math_editor.rs",CA+"autocomplete.rs"],[("AutocompleteState::get_autocomplete",CA+"math_editor.rs"),("AutocompleteResults::move_selection",CA+"autocomplete.rs")])
p("C34","Typing inserts exactly what was typed at the caret",
 "Typing symbols inserts exactly them, in order, at the caret, replacing the selected nodes if a row selection exists, and leaves the caret directly behind them. A programmatic replacement of a range puts exactly the new nodes there and keeps the caret at its place relative to the untouched content, and both can be undone.",
 ["inputs","histories"],"every formula, every caret position or row selection, every typed or spliced sequence up to a length",
 "No existing test types into an editor.",
 [CA+"math_editor.rs",CA+"primitive/primitive_edit.rs",IT+"editing/basic_edit.rs"],[("insert_at_caret / splice_at_range",CA+"math_editor.rs"),("insert_at_range",CA+"primitive/primitive_edit.rs")])

p("C39","Parsers over any subset of modules work, and editors side by side stay apart",
 "A parser can be made from any subset of the rule modules, in any order of making them: it never fails on any formula, its syntax trees use only names of its own modules (or built-in ones), and a formula whose tree under all modules uses only names of some modules parses to the same tree with just these, or with these and any others. The completions are exactly those of the chosen modules. Editors that share a registry or a parser never influence each other, however their commands interleave.",
 ["configurations","inputs","histories"],"every subset of the modules and every formula up to a length; orders of making the modules; every interleaving of the command words of two editors up to a depth",
 "The tests only use the parser with every module, and one editor at a time.",
 [PA+"parse_modules.rs",PA+"make_parser.rs",PA+"parser.rs",PA+"rule_collections",CA+"math_editor.rs"],[("ParseModules / ParseModuleCollection",PA+"parse_modules.rs"),("MathParser::new",PA+"parser.rs"),("the rule modules",PA+"rule_collections")])
p("C40","Syntax trees are built, printed and saved faithfully",
 "A syntax tree is built exactly as described: only if its children follow each other without a gap or overlap inside its range, otherwise building it is refused. Its printed form names exactly its nodes, in order, with the size of tables, the text of leaves and the bytes of values; its saved form (JSON, what the front end receives) holds the same, and reads back as an equal tree.",
 ["inputs"],"every small synthetic tree over all kinds of nodes and awkward texts and values, every parsed formula up to a length, every list of child ranges up to a length",
 "The tests compare a few printed trees; the saved form and the refusal of inconsistent trees are not tested.",
 [PA+"syntax_tree/syntax_node.rs",PA+"syntax_tree/syntax_node_builder.rs",PA+"syntax_tree/display_syntax_tree.rs",PA+"syntax_tree/node_identifier.rs"],[("SyntaxNode::new",PA+"syntax_tree/syntax_node.rs"),("printed form",PA+"syntax_tree/display_syntax_tree.rs")])

p("C30","Importing MathML always yields a well-formed formula",
 "Importing any MathML element tree terminates without an unexpected crash and yields a well-formed formula: text is split into single visible characters, fractions, roots, scripts and tables become the matching containers with the right number of cells, tables are rectangular, and anything unknown or malformed is reported as an error entry while the rest is still imported in order.",
 ["inputs"],"every MathML element tree up to a size over the supported and some unsupported elements, including missing children, empty elements and ragged tables",
 "There are no front-end tests at all.",
 ["src/mathml/parsing.ts","src/mathml/mathml-spec.ts"],[("fromElement",  "src/mathml/parsing.ts")])
p("C31","Every syntax tree the parser can produce can be rendered",
 "The renderer knows every rule name the parser can produce, and rendering any syntax tree of any formula succeeds and shows every symbol of the formula exactly once, in order.",
 ["inputs","configurations"],"every formula up to a length, through parser and renderer",
 "There are no front-end tests; parser and renderer are only joined in the browser.",
 ["src/mathml/renderer.ts","src/mathml/renderer/rendered-rows-element.ts","src/core/index.ts",PA+"rule_collections"],[("MathMLRenderer",  "src/mathml/renderer.ts"),("rule names",PA+"rule_collections")])
p("C32","Caret addresses resolve to the rendered row they denote",
 "For every row of a rendered formula, resolving its address finds the rendered element of exactly that row, and every caret offset of the row has a place in it: between the drawn content before and behind it, from left to right. A selection is drawn from the place of its start to that of its end and covers what it selects; selecting a single symbol marks only that symbol. Addresses that do not exist are reported instead of resolving to something else.",
 ["inputs"],"every formula up to a size and every row address in it",
 "There are no front-end tests.",
 ["src/mathml/render-result.ts","src/rendering/render-result.ts","src/core/index.ts","src/input-tree/row-indices.ts"],[("getElement / row walking",  "src/mathml/render-result.ts"),("getNodeWithRowIndices","src/core/index.ts")])
p("C35","Clicking into a formula puts the caret where the click was",
 "For every point of the viewport, clicking there yields a caret position that exists in the formula. Clicking on a symbol gives the position directly before or after that symbol, on the side that is nearer; clicking into an empty row gives that row; clicking beside a formula without containers gives its end on that side.",
 ["inputs"],"every formula up to a size, and a grid of points over and around it plus points on every symbol and every empty row",
 "There are no front-end tests; where a click ends up depends on the nesting of every container around it.",
 ["src/mathml/render-result.ts","src/rendering/viewport-coordinate.ts","src/mathml/renderer/rendered-leaf.ts","src/mathml/renderer/rendered-rows-element.ts"],[("getLayoutPosition","src/mathml/render-result.ts"),("rowIndex of rendered elements","src/mathml/renderer.ts")])
p("C36","The editor component applies every event, in order, and shows the result",
 "For every sequence of typing, deleting, arrow keys, undo/redo, clipboard, pointer and attribute events, and however the component's deferred work interleaves with later events: each event performs exactly its edit, the edits take effect in the order of the events, the clipboard receives what was selected, and after every event the formula, caret and selection shown are those of the editor.",
 ["inputs","schedules","histories"],"every sequence of events up to a length, with deferred callbacks running at every possible point between them",
 "There are no front-end tests; the deferred handling of input races with later events and only some event orders show it.",
 ["src/component/math-editor.ts","src/component/caret/single-caret-element.ts","src/component/input/input-handler-element.ts"],[("RenderTaskQueue / event handlers","src/component/math-editor.ts"),("updateInput / renderCarets","src/component/math-editor.ts")])
p("C41","A page's formulas become editors, and editors on one page stay apart",
 "Every formula of a page that is marked as an editor is replaced, in its place, by an editor that holds and shows exactly this formula; everything else on the page stays as it is. Several editors on one page do not influence each other, however their events and their deferred work interleave: formula, caret, selection, history, clipboard content and display of each are as if it were alone, also when something else on the page moves it, or it is moved on the page itself. What is copied in one can be pasted into another. A malformed formula is reported and changes nothing.",
 ["inputs","schedules","histories"],"every page of up to a number of parts, nested or not; every interleaving of the events of two editors up to a length, with deferred work at every point",
 "There are no front-end tests; a single editor on an otherwise empty page cannot show any of this.",
 ["src/main.ts","src/component/math-editor.ts","src/component/caret/single-caret-element.ts"],[("page setup","src/main.ts"),("connectedCallback / attributeChangedCallback","src/component/math-editor.ts")])
p("C37","The web bindings do what the editor does",
 "Every operation called through the web bindings has exactly the effect and result of the same operation of the editor, values cross the border in both directions without change, and malformed values are reported as errors without changing the editor.",
 ["inputs","histories"],"every sequence of binding calls up to a length over a range of argument values, in lockstep with the editor itself",
 "The bindings have no tests; they can only run in a browser.",
 ["aftermath-core/web/src/math_editor.rs","aftermath-core/web/src/math_parser.rs","aftermath-core/web/src/utils.rs"],[("MathEditorBindings","aftermath-core/web/src/math_editor.rs"),("serialisation of values","aftermath-core/web/src/math_editor.rs")])
P.sort(key=lambda d:d["id"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
