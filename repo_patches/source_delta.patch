From 3209eb794ee90237bd13e79e13691ce0f07035c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 01/21] fix: delete the requested rows and columns of a table

skip() is lazy, so nothing was ever removed and the size assertions failed.
The rest of each row is also shorter by the deleted columns.
---
 aftermath-core/input_tree/src/input_tree.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aftermath-core/input_tree/src/input_tree.rs b/aftermath-core/input_tree/src/input_tree.rs
index 9fc4907..3dd3fe6 100644
--- a/aftermath-core/input_tree/src/input_tree.rs
+++ b/aftermath-core/input_tree/src/input_tree.rs
@@ -123,15 +123,18 @@ impl Editable for InputTree {
                     (EditType::Delete, GridDirection::Row) => {
                         assert!(values.width() == old_size.0);
                         new_grid.extend(old_grid.by_ref().take(values.width() * row_or_column.0));
-                        let _ = old_grid.by_ref().skip(values.width() * values.height());
-                        new_grid.extend(old_grid);
+                        new_grid.extend(old_grid.skip(values.width() * values.height()));
                     }
                     (EditType::Delete, GridDirection::Column) => {
                         assert!(values.height() == old_size.1);
                         for _ in 0..values.height() {
                             new_grid.extend(old_grid.by_ref().take(row_or_column.0));
-                            let _ = old_grid.by_ref().skip(values.width());
-                            new_grid.extend(old_grid.by_ref().take(old_size.0 - row_or_column.0));
+                            old_grid.by_ref().take(values.width()).for_each(drop);
+                            new_grid.extend(
+                                old_grid
+                                    .by_ref()
+                                    .take(old_size.0 - row_or_column.0 - values.width()),
+                            );
                         }
                     }
                 }
-- 
2.43.0


From f582ca7844ffd3939024631d95d9d303b99fc7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 02/21] fix: rebase positions inside containers over edits of
 an enclosing row

The index that has to move is the one below the edited row, not the last one
of the edited row's own address (which underflowed for the root row).
---
 aftermath-core/input_tree/src/focus/row_range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aftermath-core/input_tree/src/focus/row_range.rs b/aftermath-core/input_tree/src/focus/row_range.rs
index 844f831..4b673e4 100644
--- a/aftermath-core/input_tree/src/focus/row_range.rs
+++ b/aftermath-core/input_tree/src/focus/row_range.rs
@@ -178,14 +178,14 @@ impl Editable for MinimalInputRowRange {
                     }
                 } else if edit.is_insert() {
                     // Child row insertion, if the edit is before the container, move the container
-                    let row_index = self.row_indices.at_mut(row_indices.len() - 1).unwrap();
+                    let row_index = self.row_indices.at_mut(row_indices.len()).unwrap();
                     if old_offset.0 <= row_index.0 {
                         let delta = new_offset.0 - old_offset.0;
                         row_index.0 += delta;
                     }
                 } else {
                     // Child row deletion
-                    let row_index = self.row_indices.at_mut(row_indices.len() - 1).unwrap();
+                    let row_index = self.row_indices.at_mut(row_indices.len()).unwrap();
                     if new_offset.0 <= row_index.0 && row_index.0 < old_offset.0 {
                         // I'm inside the deleted range, move to the start of the edit
                         self.start = new_offset;
-- 
2.43.0


From 83984f0462ab45e1c146d4363ed7fb8aea211e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 03/21] fix: the root row has no index in a parent

---
 aftermath-core/input_tree/src/focus.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aftermath-core/input_tree/src/focus.rs b/aftermath-core/input_tree/src/focus.rs
index 576520d..b23003a 100644
--- a/aftermath-core/input_tree/src/focus.rs
+++ b/aftermath-core/input_tree/src/focus.rs
@@ -99,9 +99,8 @@ impl<'a> InputFocusRow<'a> {
     }
 
     pub fn index_in_parent(&self) -> Option<usize> {
-        self.row_indices
-            .at(self.row_indices.len() - 1)
-            .map(|row_index| row_index.1)
+        let last = self.row_indices.len().checked_sub(1)?;
+        self.row_indices.at(last).map(|row_index| row_index.1)
     }
 
     pub fn offset_to_index(&self, offset: Offset, direction: HorizontalDirection) -> Option<usize> {
-- 
2.43.0


From 8bacd1c83160b85fd5e0cf88289b150f61d18c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 04/21] fix: rectangles between two cells cover the cells
 between them

The exclusive linear end was treated as the row below, the grid's width as the
rectangle's, views were offset linearly, and corners given as bottom left and
top right were not turned into top left and bottom right.
---
 .../input_tree/src/grid/grid_view.rs          | 42 +++++++++++++------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/aftermath-core/input_tree/src/grid/grid_view.rs b/aftermath-core/input_tree/src/grid/grid_view.rs
index 40c28ca..9d57a4d 100644
--- a/aftermath-core/input_tree/src/grid/grid_view.rs
+++ b/aftermath-core/input_tree/src/grid/grid_view.rs
@@ -16,9 +16,13 @@ impl<'a, T> Grid<T> for GridView<'a, T> {
     }
 
     fn get(&self, xy: Index2D) -> Option<&T> {
-        self.grid
-            .values
-            .get(xy.to_index_checked(self)? + self.range.start)
+        xy.to_index_checked(self)?;
+        let start = self.range.start_index();
+        self.grid.get(Index2D::new(
+            start.x + xy.x,
+            start.y + xy.y,
+            self.grid.width(),
+        ))
     }
 }
 
@@ -67,13 +71,15 @@ impl GridRectangle {
     }
 
     pub fn width(&self) -> usize {
-        self.width
+        self.end_index_inclusive()
+            .map(|end| (end.x + 1).saturating_sub(self.start_index().x))
+            .unwrap_or(0)
     }
 
     pub fn height(&self) -> usize {
-        let start_y = self.start / self.width;
-        let end_y = self.end / self.width;
-        end_y - start_y
+        self.end_index_inclusive()
+            .map(|end| end.y + 1 - self.start_index().y)
+            .unwrap_or(0)
     }
 
     pub fn size(&self) -> (usize, usize) {
@@ -104,11 +110,21 @@ impl GridRectangle {
         end_index: Index2D,
         grid: &impl Grid<T>,
     ) -> Self {
-        let mut start_index = start_index.to_index_checked(grid).unwrap();
-        let mut end_index = end_index.to_index_checked(grid).unwrap();
-        if start_index > end_index {
-            std::mem::swap(&mut start_index, &mut end_index);
-        }
-        Self::new(start_index..(end_index + 1), grid.width())
+        assert!(start_index.to_index_checked(grid).is_some());
+        assert!(end_index.to_index_checked(grid).is_some());
+        let width = grid.width();
+        let top_left = Index2D::new(
+            start_index.x.min(end_index.x),
+            start_index.y.min(end_index.y),
+            width,
+        );
+        let bottom_right = Index2D::new(
+            start_index.x.max(end_index.x),
+            start_index.y.max(end_index.y),
+            width,
+        );
+        let start = top_left.to_index_checked(grid).unwrap();
+        let end = bottom_right.to_index_checked(grid).unwrap();
+        Self::new(start..(end + 1), width)
     }
 }
-- 
2.43.0


From 8e71597d2ea8c48f6c802760010fb4b7be3dacaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 05/21] fix: refuse to load grids that are not rectangular

A width of zero or a partial last row was accepted and made the first size
computation or edit panic.
---
 aftermath-core/input_tree/src/grid.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/aftermath-core/input_tree/src/grid.rs b/aftermath-core/input_tree/src/grid.rs
index b4ab251..4283d45 100644
--- a/aftermath-core/input_tree/src/grid.rs
+++ b/aftermath-core/input_tree/src/grid.rs
@@ -5,7 +5,7 @@ pub use index2d::*;
 
 use std::fmt;
 
-use serde::{Deserialize, Serialize};
+use serde::{de::Error, Deserialize, Deserializer, Serialize};
 
 pub trait Grid<T> {
     fn width(&self) -> usize {
@@ -26,7 +26,7 @@ pub enum GridDirection {
 
 /// A proper grid of values.
 /// Maybe someday I'll be able to use https://docs.rs/ndarray/latest/ndarray/ instead.
-#[derive(Debug, Clone, PartialEq, Eq, Default, Serialize, Deserialize)]
+#[derive(Debug, Clone, PartialEq, Eq, Default, Serialize)]
 #[cfg_attr(
     feature = "wasm",
     derive(tsify::Tsify),
@@ -78,6 +78,26 @@ impl<T> GridVec<T> {
     }
 }
 
+impl<'de, T: Deserialize<'de>> Deserialize<'de> for GridVec<T> {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        #[derive(Deserialize)]
+        #[serde(rename = "GridVec")]
+        struct UncheckedGridVec<T> {
+            values: Vec<T>,
+            width: usize,
+        }
+        let UncheckedGridVec { values, width } = UncheckedGridVec::deserialize(deserializer)?;
+        if width == 0 || values.len() % width != 0 {
+            return Err(D::Error::custom(format!(
+                "a grid of width {} cannot have {} values",
+                width,
+                values.len()
+            )));
+        }
+        Ok(GridVec { values, width })
+    }
+}
+
 impl<T> IntoIterator for GridVec<T> {
     type Item = T;
     type IntoIter = std::vec::IntoIter<T>;
-- 
2.43.0


From 4a783b095d84a6dd5e423312e89c731e60634a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 06/21] fix: moving left out of the first cell no longer
 underflows

---
 aftermath-core/caret/src/primitive/movement.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aftermath-core/caret/src/primitive/movement.rs b/aftermath-core/caret/src/primitive/movement.rs
index a875e21..64f73e4 100644
--- a/aftermath-core/caret/src/primitive/movement.rs
+++ b/aftermath-core/caret/src/primitive/movement.rs
@@ -184,11 +184,11 @@ impl NavigationSettings {
     ) -> Option<InputRowPosition<'a>> {
         let parent = caret.row_focus.clone().parent()?;
 
-        let adjacent_index = caret.row_focus.index_in_parent().map(|v| {
+        let adjacent_index = caret.row_focus.index_in_parent().and_then(|v| {
             if direction == HorizontalDirection::Left {
-                v - 1
+                v.checked_sub(1)
             } else {
-                v + 1
+                Some(v + 1)
             }
         });
         let adjacent_child =
-- 
2.43.0


From f92d997811b2560364f368574c9505c2c55c6506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 07/21] fix: keep the rebased caret after splicing into the
 formula

---
 aftermath-core/caret/src/math_editor.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aftermath-core/caret/src/math_editor.rs b/aftermath-core/caret/src/math_editor.rs
index a7c60f5..f8ca023 100644
--- a/aftermath-core/caret/src/math_editor.rs
+++ b/aftermath-core/caret/src/math_editor.rs
@@ -371,7 +371,6 @@ impl MathEditor {
         // Move caret
         // Apply edit
         // Merge edit into undo stack
-        let caret_before = self.caret.clone();
         let mut caret = self.caret.clone();
         let mut builder = EditorActionBuilder::new(self);
         let (basic_edit, _) = BasicEdit::replace_range(
@@ -382,7 +381,6 @@ impl MathEditor {
         caret.end_position.apply_edits(&basic_edit);
         builder.add_edits(basic_edit);
         builder.finish(caret);
-        self.caret = caret_before;
     }
 }
 
-- 
2.43.0


From 67b57133627279a140446c3b4828751bd51560d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 08/21] fix: look for the perfect match at the end of the
 autocorrected range

---
 aftermath-core/caret/src/math_editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aftermath-core/caret/src/math_editor.rs b/aftermath-core/caret/src/math_editor.rs
index f8ca023..2ffe3af 100644
--- a/aftermath-core/caret/src/math_editor.rs
+++ b/aftermath-core/caret/src/math_editor.rs
@@ -309,7 +309,7 @@ impl MathEditor {
             .rule
             .matches(
                 autocomplete_range.values(),
-                autocomplete_range.left_offset().0,
+                autocomplete_range.values().len(),
                 1,
             )
             .iter()
-- 
2.43.0


From 64e6a169687ee182969a57e0398a1c6f2ce66fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 09/21] fix: autocomplete matches symbols of more than one byte

---
 aftermath-core/parser/src/autocomplete.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/aftermath-core/parser/src/autocomplete.rs b/aftermath-core/parser/src/autocomplete.rs
index a24121d..6d582c7 100644
--- a/aftermath-core/parser/src/autocomplete.rs
+++ b/aftermath-core/parser/src/autocomplete.rs
@@ -72,10 +72,13 @@ impl AutocompleteRule {
 /// Can return overlapping ranges.
 fn indices_of(needle: &str, haystack: &str) -> Vec<usize> {
     let mut indices = Vec::new();
+    let Some(first) = needle.chars().next() else {
+        return indices;
+    };
     let mut i = 0;
     while let Some(index) = haystack[i..].find(needle).map(|v| v + i) {
         indices.push(index);
-        i = index + 1;
+        i = index + first.len_utf8();
     }
     indices
 }
@@ -98,13 +101,13 @@ impl AutocompleteMatcher for AutocompleteRule {
         // Initialize matching_ranges
         if let Some(InputNode::Symbol(starting_symbol)) = input.last() {
             for i in indices_of(starting_symbol.as_str(), &self.parser) {
-                potential_matches.push(i);
+                potential_matches.push((i, starting_symbol.len()));
             }
         }
 
         let mut matches = Vec::new();
-        for parser_end_index in potential_matches {
-            let mut parser_current_index = parser_end_index;
+        for (parser_start_index, symbol_len) in potential_matches {
+            let mut parser_current_index = parser_start_index;
             let mut symbol_count = 1; // The init already matched one symbol
             let mut input_reverse = input.iter().rev().skip(symbol_count);
             while let Some(InputNode::Symbol(symbol)) = input_reverse.next() {
@@ -126,7 +129,7 @@ impl AutocompleteMatcher for AutocompleteRule {
                 // Matched the whole parser
                 matches.push(AutocompleteRuleMatch {
                     rule: self,
-                    rule_match_length: parser_end_index + 1,
+                    rule_match_length: parser_start_index + symbol_len,
                     input_match_length: symbol_count,
                 })
             }
-- 
2.43.0


From 56dc6d3227e0e2db28471940bdbbef8f91a9c772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 10/21] fix: spaces inside of empty brackets are whitespace,
 not an unknown token

---
 aftermath-core/parser/src/make_parser.rs      | 34 ++++++++++++++-----
 .../src/rule_collections/built_in_rules.rs    |  2 +-
 .../parser/src/rule_collections/core_rules.rs |  7 +++-
 .../src/rule_collections/function_rules.rs    |  7 +++-
 4 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/aftermath-core/parser/src/make_parser.rs b/aftermath-core/parser/src/make_parser.rs
index bf2412f..8480d8b 100644
--- a/aftermath-core/parser/src/make_parser.rs
+++ b/aftermath-core/parser/src/make_parser.rs
@@ -1,4 +1,4 @@
-use chumsky::{primitive::end, Parser};
+use chumsky::{primitive::end, IterParser, Parser};
 
 use crate::{
     parser::pratt_parser::{call_pratt_parser, Strength},
@@ -135,6 +135,7 @@ pub fn make_brackets_parser(
 
 pub fn make_empty_brackets_parser(
     operator_rule_name: SyntaxNodeNameId,
+    whitespace_rule_name: SyntaxNodeNameId,
     starting_bracket: impl Into<String>,
     ending_bracket: impl Into<String>,
 ) -> impl crate::make_parser::MakeParser {
@@ -143,23 +144,38 @@ pub fn make_empty_brackets_parser(
     crate::make_parser::MakeParserFn(move |_| {
         just_symbol(starting_bracket.clone())
             .map_with_span(|v, span| (v, span.into_range()))
+            .then(
+                just_symbol(" ")
+                    .repeated()
+                    .collect::<Vec<_>>()
+                    .map_with_span(|v, span| (v, span.into_range())),
+            )
             .then(
                 just_symbol(ending_bracket.clone()).map_with_span(|v, span| (v, span.into_range())),
             )
             .map(
-                move |((left_bracket, left_bracket_span), (right_bracket, right_bracket_span))| {
-                    let children = vec![
-                        SyntaxNodeBuilder::new_leaf_node(
-                            vec![left_bracket],
-                            LeafNodeType::Operator,
-                        )
-                        .build(operator_rule_name, left_bracket_span),
+                move |(
+                    ((left_bracket, left_bracket_span), (spaces, spaces_span)),
+                    (right_bracket, right_bracket_span),
+                )| {
+                    let mut children = vec![SyntaxNodeBuilder::new_leaf_node(
+                        vec![left_bracket],
+                        LeafNodeType::Operator,
+                    )
+                    .build(operator_rule_name, left_bracket_span)];
+                    if !spaces.is_empty() {
+                        children.push(
+                            SyntaxNodeBuilder::new_leaf_node(spaces, LeafNodeType::Operator)
+                                .build(whitespace_rule_name, spaces_span),
+                        );
+                    }
+                    children.push(
                         SyntaxNodeBuilder::new_leaf_node(
                             vec![right_bracket],
                             LeafNodeType::Operator,
                         )
                         .build(operator_rule_name, right_bracket_span),
-                    ];
+                    );
                     SyntaxNodeBuilder::new(SyntaxNodeChildren::Children(children))
                 },
             )
diff --git a/aftermath-core/parser/src/rule_collections/built_in_rules.rs b/aftermath-core/parser/src/rule_collections/built_in_rules.rs
index 49b8911..b1c12c3 100644
--- a/aftermath-core/parser/src/rule_collections/built_in_rules.rs
+++ b/aftermath-core/parser/src/rule_collections/built_in_rules.rs
@@ -24,7 +24,7 @@ pub struct BuiltInRules {
     /// Can have Whitespace nodes at the start and/or end.
     whitespaces_rule_name: SyntaxNodeNameId,
     /// Whenever we encounter a space between tokens, this will be used.
-    whitespace_rule_name: SyntaxNodeNameId,
+    pub whitespace_rule_name: SyntaxNodeNameId,
     /// Whenever we encounter a subscript after an operator, this will be used.
     pub sub_rule_name: SyntaxNodeNameId,
     /// Whenever we encounter a superscript after an operator, this will be used.
diff --git a/aftermath-core/parser/src/rule_collections/core_rules.rs b/aftermath-core/parser/src/rule_collections/core_rules.rs
index 8f2a3c2..5b08964 100644
--- a/aftermath-core/parser/src/rule_collections/core_rules.rs
+++ b/aftermath-core/parser/src/rule_collections/core_rules.rs
@@ -88,7 +88,12 @@ impl CoreRules {
             ),
             atom_rule(
                 modules.with_rule_name(Self::rule_name("RoundBrackets")),
-                make_empty_brackets_parser(built_in_rules.operator_rule_name, "(", ")"),
+                make_empty_brackets_parser(
+                    built_in_rules.operator_rule_name,
+                    built_in_rules.whitespace_rule_name,
+                    "(",
+                    ")",
+                ),
             ),
         ]
     }
diff --git a/aftermath-core/parser/src/rule_collections/function_rules.rs b/aftermath-core/parser/src/rule_collections/function_rules.rs
index a36cd1e..452232c 100644
--- a/aftermath-core/parser/src/rule_collections/function_rules.rs
+++ b/aftermath-core/parser/src/rule_collections/function_rules.rs
@@ -51,7 +51,12 @@ impl FunctionRules {
             postfix_rule(
                 modules.with_rule_name(Self::rule_name("FunctionApplication")),
                 800,
-                make_empty_brackets_parser(built_in_rules.operator_rule_name, "(", ")"),
+                make_empty_brackets_parser(
+                    built_in_rules.operator_rule_name,
+                    built_in_rules.whitespace_rule_name,
+                    "(",
+                    ")",
+                ),
             ),
         ]
     }
-- 
2.43.0


From 8d92c7335f52667877c307ef2b6d9ad223fb0e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 11/21] fix: scripts on operators were parsed again for every
 binding power

---
 .../parser/src/parser/pratt_parser.rs         | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/aftermath-core/parser/src/parser/pratt_parser.rs b/aftermath-core/parser/src/parser/pratt_parser.rs
index 53f9f54..2b9e18e 100644
--- a/aftermath-core/parser/src/parser/pratt_parser.rs
+++ b/aftermath-core/parser/src/parser/pratt_parser.rs
@@ -318,11 +318,16 @@ where
 
             if inp.is_at_end() {
                 return PrattParseResult::End(left);
-            } else if let Some((value, op)) = inp.parse_iter(&self.symbols.infix_ops) {
+            } else if let Some(op) = inp.find_iter(&self.symbols.infix_ops) {
+                // Only parse the operator once we know that it is ours.
+                // Otherwise, its scripts would get parsed again at every binding power.
                 if op.binding_power.strength_left() < min_binding_power {
-                    inp.rewind(pre_op);
                     return PrattParseResult::Expression(left);
                 }
+                let value = inp
+                    .parse_safe(op.parser())
+                    .ok()
+                    .expect("An operator that can be parsed should parse");
                 let right = self
                     .pratt_parse(inp, op.binding_power.strength_right(), ending_parser)
                     .map(|right| op.build.build(value, (left, right)));
@@ -556,6 +561,12 @@ where
         parsers: impl IntoIterator<Item = &'has_p HasP>,
     ) -> Option<(O, &'has_p HasP)>;
 
+    /// Finds the first parser that could parse the input.
+    fn find_iter<'has_p, O, P: Parser<'a, I, O, E>, HasP: HasParser<P>>(
+        &mut self,
+        parsers: impl IntoIterator<Item = &'has_p HasP>,
+    ) -> Option<&'has_p HasP>;
+
     /// Check if the given parser could parse the input.
     fn can_parse<O, P: Parser<'a, I, O, E>>(&mut self, parser: &P) -> bool;
     fn can_parse_iter<'has_p, O, P: Parser<'a, I, O, E>, HasP: HasParser<P> + 'has_p>(
@@ -600,6 +611,13 @@ where
         None
     }
 
+    fn find_iter<'has_p, O, P: Parser<'a, I, O, E>, HasP: HasParser<P>>(
+        &mut self,
+        parsers: impl IntoIterator<Item = &'has_p HasP>,
+    ) -> Option<&'has_p HasP> {
+        parsers.into_iter().find(|p| self.can_parse(p.parser()))
+    }
+
     fn can_parse<O, P: Parser<'a, I, O, E>>(&mut self, parser: &P) -> bool {
         let marker = self.save();
         let result = self.check(parser);
-- 
2.43.0


From 37e621abf1dadaca49e84e97b401e06b4b69cc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 12/21] fix: importing a sub- or superscript without children
 crashed

---
 src/mathml/parsing.ts | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/mathml/parsing.ts b/src/mathml/parsing.ts
index 3574fd6..36940b3 100644
--- a/src/mathml/parsing.ts
+++ b/src/mathml/parsing.ts
@@ -102,25 +102,23 @@ function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode)
       root([wrapInRow(toMathLayout(children[1], errors)), wrapInRow(toMathLayout(children[0], errors))])
     );
   } else if (tagIs(element, "msub")) {
-    let base = toMathLayout(children[0], errors);
-    if (!Array.isArray(base)) {
-      base = [base];
-    }
-    return expectNChildren(element, 2, errors) ?? [...base, sub(wrapInRow(toMathLayout(children[1], errors)))];
+    return (
+      expectNChildren(element, 2, errors) ?? [
+        ...wrapInRow(toMathLayout(children[0], errors)).values,
+        sub(wrapInRow(toMathLayout(children[1], errors))),
+      ]
+    );
   } else if (tagIs(element, "msup")) {
-    let base = toMathLayout(children[0], errors);
-    if (!Array.isArray(base)) {
-      base = [base];
-    }
-    return expectNChildren(element, 2, errors) ?? [...base, sup(wrapInRow(toMathLayout(children[1], errors)))];
+    return (
+      expectNChildren(element, 2, errors) ?? [
+        ...wrapInRow(toMathLayout(children[0], errors)).values,
+        sup(wrapInRow(toMathLayout(children[1], errors))),
+      ]
+    );
   } else if (tagIs(element, "msubsup")) {
-    let base = toMathLayout(children[0], errors);
-    if (!Array.isArray(base)) {
-      base = [base];
-    }
     return (
       expectNChildren(element, 3, errors) ?? [
-        ...base,
+        ...wrapInRow(toMathLayout(children[0], errors)).values,
         sub(wrapInRow(toMathLayout(children[1], errors))),
         sup(wrapInRow(toMathLayout(children[2], errors))),
       ]
-- 
2.43.0


From e4becef8d5d8d853980410a6511e6d8668febec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 13/21] fix: importing a table without cells gave a table of
 width zero

---
 src/mathml/parsing.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mathml/parsing.ts b/src/mathml/parsing.ts
index 36940b3..034cb54 100644
--- a/src/mathml/parsing.ts
+++ b/src/mathml/parsing.ts
@@ -153,6 +153,10 @@ function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode)
     }
 
     const tableWidth = children.map((c) => c.children.length).reduce((a, b) => Math.max(a, b), 0);
+    if (tableWidth === 0) {
+      errors.push(new Error("Expected at least one cell in mtable"));
+      return symbol("Error");
+    }
 
     const tableCells = children.flatMap((c) =>
       Array.from({ length: tableWidth }, (_, i) =>
-- 
2.43.0


From f70f48b8ccccfe6cc1a200ab780aa5a369fe8b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 14/21] fix: operators of several symbols kept them as a single
 symbol

---
 aftermath-core/parser/src/make_parser.rs       | 2 +-
 aftermath-core/parser/src/parser_extensions.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aftermath-core/parser/src/make_parser.rs b/aftermath-core/parser/src/make_parser.rs
index 8480d8b..eab5da0 100644
--- a/aftermath-core/parser/src/make_parser.rs
+++ b/aftermath-core/parser/src/make_parser.rs
@@ -70,7 +70,7 @@ impl MakeParser for MakeSymbolsParser {
     fn build<'a>(&self, _parser: RcPrattParserType<'a, 'a>) -> BoxedTokenParser<'a, 'a> {
         let node_type = self.node_type;
         just_symbols(&self.symbols)
-            .map(move |v| SyntaxNodeBuilder::new_leaf_node(vec![v], node_type))
+            .map(move |v| SyntaxNodeBuilder::new_leaf_node(v, node_type))
             .with_ctx(())
             .boxed()
     }
diff --git a/aftermath-core/parser/src/parser_extensions.rs b/aftermath-core/parser/src/parser_extensions.rs
index d2f6a51..5a262a6 100644
--- a/aftermath-core/parser/src/parser_extensions.rs
+++ b/aftermath-core/parser/src/parser_extensions.rs
@@ -12,7 +12,7 @@ pub fn just_symbol<'a, E: ParserExtra<'a, &'a [InputNode]>>(
 
 pub fn just_symbols<'a, E: ParserExtra<'a, &'a [InputNode]>>(
     symbols: &[String],
-) -> impl chumsky::Parser<'a, &'a [InputNode], String, E> {
+) -> impl chumsky::Parser<'a, &'a [InputNode], Vec<String>, E> {
     let symbol_nodes = symbols
         .iter()
         .map(|v| InputNode::Symbol(v.clone()))
@@ -23,6 +23,6 @@ pub fn just_symbols<'a, E: ParserExtra<'a, &'a [InputNode]>>(
                 InputNode::Symbol(v) => v,
                 _ => panic!("Expected symbol"),
             })
-            .collect::<String>()
+            .collect::<Vec<_>>()
     })
 }
-- 
2.43.0


From 8b4bce5aba2d2c10a40820f79a64b963dd546995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:30 +0000
Subject: [PATCH 15/21] fix: rendering a sub- or superscript next to a space
 failed

---
 src/mathml/renderer.ts | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/mathml/renderer.ts b/src/mathml/renderer.ts
index e36f556..1fe4089 100644
--- a/src/mathml/renderer.ts
+++ b/src/mathml/renderer.ts
@@ -83,7 +83,6 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
       });
       builtIn.add("Sup", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
-        assert(hasSyntaxNodeChildren(syntaxTree.children.Children[1], "NewRows"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msup", this, {
           newRowsOperatorOverride: (node) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
@@ -93,7 +92,6 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
       });
       builtIn.add("Sub", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
-        assert(hasSyntaxNodeChildren(syntaxTree.children.Children[1], "NewRows"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msub", this, {
           newRowsOperatorOverride: (node) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
-- 
2.43.0


From 6e39331620abae6c8dc0da3e88244399faef52bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 16/21] fix: sub- and superscripts inside of a row claimed to
 be that row

---
 src/mathml/renderer.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathml/renderer.ts b/src/mathml/renderer.ts
index 1fe4089..26010c0 100644
--- a/src/mathml/renderer.ts
+++ b/src/mathml/renderer.ts
@@ -84,7 +84,7 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
       builtIn.add("Sup", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msup", this, {
-          newRowsOperatorOverride: (node) => {
+          newRowsOperatorOverride: (node, rowIndex) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
             return new RowsContainerMathMLElement(node, rowIndex, "mrow", this);
           },
@@ -93,7 +93,7 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
       builtIn.add("Sub", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msub", this, {
-          newRowsOperatorOverride: (node) => {
+          newRowsOperatorOverride: (node, rowIndex) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
             return new RowsContainerMathMLElement(node, rowIndex, "mrow", this);
           },
-- 
2.43.0


From 72ac2233a54481c5d1b93b308d8a173886d02516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 17/21] fix: releasing a pointer that was not pressed on the
 formula extended the selection

---
 src/component/math-editor.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/component/math-editor.ts b/src/component/math-editor.ts
index 9607db6..3f3d39d 100644
--- a/src/component/math-editor.ts
+++ b/src/component/math-editor.ts
@@ -244,6 +244,7 @@ export class MathEditor extends HTMLElement {
     });
     container.addEventListener("pointerup", (e) => {
       if (!e.isPrimary) return;
+      if (!isPointerDown) return;
       isPointerDown = false;
       const newPosition = getPointerPosition(e);
       if (newPosition) {
@@ -255,6 +256,7 @@ export class MathEditor extends HTMLElement {
     });
     container.addEventListener("pointercancel", (e) => {
       if (!e.isPrimary) return;
+      if (!isPointerDown) return;
       isPointerDown = false;
 
       const newPosition = getPointerPosition(e);
-- 
2.43.0


From 066fb0f50a8823334cef53352c99aa4b16c94206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:34 +0000
Subject: [PATCH 18/21] fix: events overtook input that was still waiting to be
 handled

---
 src/component/math-editor.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/component/math-editor.ts b/src/component/math-editor.ts
index 3f3d39d..dbb2bd5 100644
--- a/src/component/math-editor.ts
+++ b/src/component/math-editor.ts
@@ -35,7 +35,8 @@ class RenderTaskQueue {
     }, 0);
   }
 
-  private run() {
+  /** Runs everything that is still waiting, so that events take effect in the order in which they happened. */
+  run() {
     while (this.tasks.length > 0) {
       const task = this.tasks.shift()!;
       task();
@@ -142,6 +143,7 @@ export class MathEditor extends HTMLElement {
 
   private addInputEventListeners() {
     this.inputHandler.element.addEventListener("keydown", (ev) => {
+      this.renderTaskQueue.run();
       if (ev.key === "ArrowUp") {
         this.mathEditor.move_caret("Up", "Char");
       } else if (ev.key === "ArrowDown") {
@@ -180,6 +182,7 @@ export class MathEditor extends HTMLElement {
     });
 
     const handleCopy = (clipboard: DataTransfer) => {
+      this.renderTaskQueue.run();
       clipboard.setData("application/json", this.mathEditor.copy("JsonInputTree"));
     };
 
@@ -208,6 +211,7 @@ export class MathEditor extends HTMLElement {
         console.error("No clipboard data");
         return;
       }
+      this.renderTaskQueue.run();
       const json = ev.clipboardData.getData("application/json");
       if (json) {
         this.mathEditor.paste(json, "JsonInputTree");
@@ -222,6 +226,7 @@ export class MathEditor extends HTMLElement {
 
   private addPointerEventListeners(container: HTMLSpanElement, focusCallback: () => void) {
     const getPointerPosition = (e: MouseEvent): MinimalInputRowPosition | null => {
+      this.renderTaskQueue.run();
       const newCaret = this.renderResult.getLayoutPosition({ x: e.clientX, y: e.clientY });
       if (!newCaret) return null;
       return {
@@ -309,6 +314,7 @@ export class MathEditor extends HTMLElement {
 
   attributeChangedCallback(name: string, oldValue: string | null, newValue: string | null) {
     if (name === "mathml") {
+      this.renderTaskQueue.run();
       const mathMlElement = htmlToElement(newValue || "<math></math>");
       assert(mathMlElement instanceof MathMLElement, "Mathml attribute must be a valid mathml element");
 
-- 
2.43.0


From 4622d0c38cb95f811be4f44576532b7959ff49a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 19/21] fix: a word completed by selecting with the pointer was
 not shown

---
 src/component/math-editor.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/component/math-editor.ts b/src/component/math-editor.ts
index dbb2bd5..d76ae75 100644
--- a/src/component/math-editor.ts
+++ b/src/component/math-editor.ts
@@ -257,7 +257,7 @@ export class MathEditor extends HTMLElement {
       }
       this.mathEditor.finish_selection();
       container.releasePointerCapture(e.pointerId);
-      this.renderCarets();
+      this.updateInput();
     });
     container.addEventListener("pointercancel", (e) => {
       if (!e.isPrimary) return;
@@ -270,7 +270,7 @@ export class MathEditor extends HTMLElement {
       }
       this.mathEditor.finish_selection();
       container.releasePointerCapture(e.pointerId);
-      this.renderCarets();
+      this.updateInput();
     });
     // For double clicking
     // - The dblclick event fires too late for text selection (text selection should happen on pointerdown)
@@ -285,11 +285,11 @@ export class MathEditor extends HTMLElement {
       if (clickCount === 2) {
         // double click select
         this.mathEditor.start_selection(newPosition, "Word");
-        this.renderCarets();
+        this.updateInput();
       } else if (clickCount === 3) {
         // triple click select
         this.mathEditor.start_selection(newPosition, "Line");
-        this.renderCarets();
+        this.updateInput();
       }
     });
     container.addEventListener("pointermove", (e) => {
@@ -299,7 +299,7 @@ export class MathEditor extends HTMLElement {
       const newPosition = getPointerPosition(e);
       if (!newPosition) return;
       this.mathEditor.extend_selection(newPosition);
-      this.renderCarets();
+      this.updateInput();
     });
   }
 
-- 
2.43.0


From cf1d66bc05ab654b87929d746919d5f584ab557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:02 +0000
Subject: [PATCH 20/21] fix: a completion offered for two tokens of different
 length can be chosen for the longer one

Stepping down to it jumped back to the shorter one, because only the rule was remembered.
---
 aftermath-core/caret/src/math_editor.rs | 29 +++++++++++++++++++------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/aftermath-core/caret/src/math_editor.rs b/aftermath-core/caret/src/math_editor.rs
index 2ffe3af..83b3b16 100644
--- a/aftermath-core/caret/src/math_editor.rs
+++ b/aftermath-core/caret/src/math_editor.rs
@@ -278,8 +278,11 @@ impl MathEditor {
     pub fn move_in_autocomplete(&mut self, direction: VerticalDirection) -> Option<()> {
         let mut autocomplete = self.get_autocomplete()?;
         autocomplete.move_selection(direction);
-        let rule = autocomplete.get_selected().rule.clone();
-        self.autocomplete_state.set_current_autocomplete(Some(rule));
+        let selected = autocomplete.get_selected();
+        let token_start = autocomplete.get_caret_range(selected).end;
+        let rule = selected.rule.clone();
+        self.autocomplete_state
+            .set_current_autocomplete(Some((rule, token_start)));
         Some(())
     }
 
@@ -385,8 +388,9 @@ impl MathEditor {
 }
 
 pub struct AutocompleteState {
-    /// Autocomplete rule that the main caret was last on
-    current_autocomplete: Option<AutocompleteRule>,
+    /// Autocomplete rule that the main caret was last on, and where the token that it would replace starts.
+    /// (The same rule can be offered multiple times, for tokens of a different length.)
+    current_autocomplete: Option<(AutocompleteRule, Offset)>,
 }
 
 impl Default for AutocompleteState {
@@ -414,13 +418,24 @@ impl AutocompleteState {
         }
         matches.sort();
 
+        let token_start = |v: &AutocompleteRuleMatch| {
+            Offset(caret_position.offset.0.saturating_sub(v.input_match_length))
+        };
+
         let selected_index = self
             .current_autocomplete
             .take()
-            .and_then(|last_rule| matches.iter().position(|v| v.rule == &last_rule))
+            .and_then(|(last_rule, last_start)| {
+                matches
+                    .iter()
+                    .position(|v| v.rule == &last_rule && token_start(v) == last_start)
+                    .or_else(|| matches.iter().position(|v| v.rule == &last_rule))
+            })
             .unwrap_or(0);
 
-        self.current_autocomplete = matches.get(selected_index).map(|v| v.rule.clone());
+        self.current_autocomplete = matches
+            .get(selected_index)
+            .map(|v| (v.rule.clone(), token_start(v)));
         Some(AutocompleteResults::new(
             selected_index,
             matches,
@@ -428,7 +443,7 @@ impl AutocompleteState {
         ))
     }
 
-    pub fn set_current_autocomplete(&mut self, rule: Option<AutocompleteRule>) {
+    pub fn set_current_autocomplete(&mut self, rule: Option<(AutocompleteRule, Offset)>) {
         self.current_autocomplete = rule;
     }
 }
-- 
2.43.0


From 27eee65ff0a42f15179b7642b104bdf700342d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 21/21] fix: moving an editor to another place on the page
 throws away its formula

Connecting the element imported the mathml attribute again, although attributeChangedCallback has already done
that. An editor that is moved on the page lost everything that was typed into it (or became empty, without the
attribute), and a page's formula took two undo steps to undo.
---
 src/component/math-editor.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/component/math-editor.ts b/src/component/math-editor.ts
index d76ae75..c0308b4 100644
--- a/src/component/math-editor.ts
+++ b/src/component/math-editor.ts
@@ -304,8 +304,10 @@ export class MathEditor extends HTMLElement {
   }
 
   connectedCallback() {
-    // Try to initialize the math element
-    this.attributeChangedCallback("mathml", "", this.getAttribute("mathml") ?? "");
+    // The mathml attribute has already been handled by attributeChangedCallback.
+    // However, the carets can only be drawn once the element is part of the page.
+    this.renderTaskQueue.run();
+    this.updateInput();
   }
 
   disconnectedCallback() {
-- 
2.43.0

