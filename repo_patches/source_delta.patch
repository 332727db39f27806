From 4d8da39788aa0304cc475f8f4991185e46693dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 01/18] fix: actually remove the cells when deleting grid rows
 or columns

---
 aftermath-core/input_tree/src/input_tree.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/aftermath-core/input_tree/src/input_tree.rs b/aftermath-core/input_tree/src/input_tree.rs
index 9fc4907..51b0fbd 100644
--- a/aftermath-core/input_tree/src/input_tree.rs
+++ b/aftermath-core/input_tree/src/input_tree.rs
@@ -123,15 +123,20 @@ impl Editable for InputTree {
                     (EditType::Delete, GridDirection::Row) => {
                         assert!(values.width() == old_size.0);
                         new_grid.extend(old_grid.by_ref().take(values.width() * row_or_column.0));
-                        let _ = old_grid.by_ref().skip(values.width() * values.height());
-                        new_grid.extend(old_grid);
+                        // `skip` is lazy, so it has to be consumed together with the rest
+                        new_grid.extend(old_grid.skip(values.width() * values.height()));
                     }
                     (EditType::Delete, GridDirection::Column) => {
                         assert!(values.height() == old_size.1);
                         for _ in 0..values.height() {
                             new_grid.extend(old_grid.by_ref().take(row_or_column.0));
-                            let _ = old_grid.by_ref().skip(values.width());
-                            new_grid.extend(old_grid.by_ref().take(old_size.0 - row_or_column.0));
+                            // `skip` is lazy, so it has to be consumed together with the rest of the row
+                            new_grid.extend(
+                                old_grid
+                                    .by_ref()
+                                    .take(old_size.0 - row_or_column.0)
+                                    .skip(values.width()),
+                            );
                         }
                     }
                 }
-- 
2.43.0


From 29e4b7e58bdaf6fbb7b47e8c4894ace1097065bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 02/18] fix: shift the right row index when an edit happens in
 an ancestor row

---
 aftermath-core/input_tree/src/focus/row_range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aftermath-core/input_tree/src/focus/row_range.rs b/aftermath-core/input_tree/src/focus/row_range.rs
index 844f831..4b673e4 100644
--- a/aftermath-core/input_tree/src/focus/row_range.rs
+++ b/aftermath-core/input_tree/src/focus/row_range.rs
@@ -178,14 +178,14 @@ impl Editable for MinimalInputRowRange {
                     }
                 } else if edit.is_insert() {
                     // Child row insertion, if the edit is before the container, move the container
-                    let row_index = self.row_indices.at_mut(row_indices.len() - 1).unwrap();
+                    let row_index = self.row_indices.at_mut(row_indices.len()).unwrap();
                     if old_offset.0 <= row_index.0 {
                         let delta = new_offset.0 - old_offset.0;
                         row_index.0 += delta;
                     }
                 } else {
                     // Child row deletion
-                    let row_index = self.row_indices.at_mut(row_indices.len() - 1).unwrap();
+                    let row_index = self.row_indices.at_mut(row_indices.len()).unwrap();
                     if new_offset.0 <= row_index.0 && row_index.0 < old_offset.0 {
                         // I'm inside the deleted range, move to the start of the edit
                         self.start = new_offset;
-- 
2.43.0


From 8eb1959b5996e397abbc107fed8da43c3984e84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 03/18] fix: the root row has no index in a parent instead of
 panicking

---
 aftermath-core/input_tree/src/focus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aftermath-core/input_tree/src/focus.rs b/aftermath-core/input_tree/src/focus.rs
index 576520d..5316876 100644
--- a/aftermath-core/input_tree/src/focus.rs
+++ b/aftermath-core/input_tree/src/focus.rs
@@ -100,7 +100,7 @@ impl<'a> InputFocusRow<'a> {
 
     pub fn index_in_parent(&self) -> Option<usize> {
         self.row_indices
-            .at(self.row_indices.len() - 1)
+            .at(self.row_indices.len().checked_sub(1)?)
             .map(|row_index| row_index.1)
     }
 
-- 
2.43.0


From f2e0337e598acb99d2e15bae3add58b43746838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 04/18] fix: a grid rectangle can be spanned by any two
 opposite corners

---
 aftermath-core/input_tree/src/grid/grid_view.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/aftermath-core/input_tree/src/grid/grid_view.rs b/aftermath-core/input_tree/src/grid/grid_view.rs
index 40c28ca..dc59012 100644
--- a/aftermath-core/input_tree/src/grid/grid_view.rs
+++ b/aftermath-core/input_tree/src/grid/grid_view.rs
@@ -104,11 +104,14 @@ impl GridRectangle {
         end_index: Index2D,
         grid: &impl Grid<T>,
     ) -> Self {
-        let mut start_index = start_index.to_index_checked(grid).unwrap();
-        let mut end_index = end_index.to_index_checked(grid).unwrap();
-        if start_index > end_index {
-            std::mem::swap(&mut start_index, &mut end_index);
-        }
+        // The two cells can be any two opposite corners of the rectangle
+        let (mut top_left, mut bottom_right) = (start_index, end_index);
+        top_left.x = start_index.x.min(end_index.x);
+        top_left.y = start_index.y.min(end_index.y);
+        bottom_right.x = start_index.x.max(end_index.x);
+        bottom_right.y = start_index.y.max(end_index.y);
+        let start_index = top_left.to_index_checked(grid).unwrap();
+        let end_index = bottom_right.to_index_checked(grid).unwrap();
         Self::new(start_index..(end_index + 1), grid.width())
     }
 }
-- 
2.43.0


From f5d94fabdb1f45d29391771df2194cb93de42ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 05/18] fix: the size and the cells of a grid rectangle are
 those of the rectangle

---
 aftermath-core/input_tree/src/grid/grid_view.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/aftermath-core/input_tree/src/grid/grid_view.rs b/aftermath-core/input_tree/src/grid/grid_view.rs
index dc59012..09065e2 100644
--- a/aftermath-core/input_tree/src/grid/grid_view.rs
+++ b/aftermath-core/input_tree/src/grid/grid_view.rs
@@ -16,9 +16,11 @@ impl<'a, T> Grid<T> for GridView<'a, T> {
     }
 
     fn get(&self, xy: Index2D) -> Option<&T> {
+        xy.to_index_checked(self)?;
+        // The rows of the view are as far apart as the rows of the underlying grid
         self.grid
             .values
-            .get(xy.to_index_checked(self)? + self.range.start)
+            .get(self.range.start + xy.y * self.grid.width() + xy.x)
     }
 }
 
@@ -67,17 +69,19 @@ impl GridRectangle {
     }
 
     pub fn width(&self) -> usize {
-        self.width
+        self.size().0
     }
 
     pub fn height(&self) -> usize {
-        let start_y = self.start / self.width;
-        let end_y = self.end / self.width;
-        end_y - start_y
+        self.size().1
     }
 
     pub fn size(&self) -> (usize, usize) {
-        (self.width(), self.height())
+        let start = self.start_index();
+        match self.end_index_inclusive() {
+            Some(end) => ((end.x + 1).saturating_sub(start.x), end.y + 1 - start.y),
+            None => (0, 0),
+        }
     }
 
     pub fn is_empty(&self) -> bool {
-- 
2.43.0


From 713524643735e77f37704d996dc2a956f4265e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 06/18] fix: reject serialized grids whose values do not fill
 whole rows

---
 aftermath-core/input_tree/src/grid.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/aftermath-core/input_tree/src/grid.rs b/aftermath-core/input_tree/src/grid.rs
index b4ab251..4e0f388 100644
--- a/aftermath-core/input_tree/src/grid.rs
+++ b/aftermath-core/input_tree/src/grid.rs
@@ -32,11 +32,30 @@ pub enum GridDirection {
     derive(tsify::Tsify),
     tsify(into_wasm_abi, from_wasm_abi)
 )]
+#[serde(try_from = "UncheckedGridVec<T>")]
 pub struct GridVec<T> {
     values: Vec<T>,
     width: usize,
 }
 
+/// What a [GridVec] looks like before its size has been checked.
+#[derive(Deserialize)]
+struct UncheckedGridVec<T> {
+    values: Vec<T>,
+    width: usize,
+}
+
+impl<T> TryFrom<UncheckedGridVec<T>> for GridVec<T> {
+    type Error = &'static str;
+
+    fn try_from(grid: UncheckedGridVec<T>) -> Result<Self, Self::Error> {
+        if grid.width == 0 || grid.values.len() % grid.width != 0 {
+            return Err("the number of grid values does not match the grid width");
+        }
+        Ok(GridVec::from_one_dimensional(grid.values, grid.width))
+    }
+}
+
 impl<T> Grid<T> for GridVec<T> {
     fn size(&self) -> (usize, usize) {
         (self.width, self.values.len() / self.width)
-- 
2.43.0


From 1d719975c0ff158dc2b4805321461d1d6bb9b5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 07/18] fix: moving left out of the first cell of an element
 must not underflow

---
 aftermath-core/caret/src/primitive/movement.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aftermath-core/caret/src/primitive/movement.rs b/aftermath-core/caret/src/primitive/movement.rs
index a875e21..a529ed7 100644
--- a/aftermath-core/caret/src/primitive/movement.rs
+++ b/aftermath-core/caret/src/primitive/movement.rs
@@ -184,11 +184,11 @@ impl NavigationSettings {
     ) -> Option<InputRowPosition<'a>> {
         let parent = caret.row_focus.clone().parent()?;
 
-        let adjacent_index = caret.row_focus.index_in_parent().map(|v| {
+        let adjacent_index = caret.row_focus.index_in_parent().and_then(|v| {
             if direction == HorizontalDirection::Left {
-                v - 1
+                v.checked_sub(1)
             } else {
-                v + 1
+                v.checked_add(1)
             }
         });
         let adjacent_child =
-- 
2.43.0


From 61ab6c3aa9b4ff8262c30a3b2fa220e67dd9e1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 08/18] fix: autocomplete rules and symbols with multi-byte
 characters

---
 aftermath-core/parser/src/autocomplete.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/aftermath-core/parser/src/autocomplete.rs b/aftermath-core/parser/src/autocomplete.rs
index a24121d..59cf009 100644
--- a/aftermath-core/parser/src/autocomplete.rs
+++ b/aftermath-core/parser/src/autocomplete.rs
@@ -73,9 +73,10 @@ impl AutocompleteRule {
 fn indices_of(needle: &str, haystack: &str) -> Vec<usize> {
     let mut indices = Vec::new();
     let mut i = 0;
-    while let Some(index) = haystack[i..].find(needle).map(|v| v + i) {
+    while let Some(index) = haystack.get(i..).and_then(|v| v.find(needle)).map(|v| v + i) {
         indices.push(index);
-        i = index + 1;
+        // Continue after the first character of the match, which can be longer than one byte
+        i = index + haystack[index..].chars().next().map_or(1, char::len_utf8);
     }
     indices
 }
@@ -98,13 +99,13 @@ impl AutocompleteMatcher for AutocompleteRule {
         // Initialize matching_ranges
         if let Some(InputNode::Symbol(starting_symbol)) = input.last() {
             for i in indices_of(starting_symbol.as_str(), &self.parser) {
-                potential_matches.push(i);
+                potential_matches.push((i, i + starting_symbol.len()));
             }
         }
 
         let mut matches = Vec::new();
-        for parser_end_index in potential_matches {
-            let mut parser_current_index = parser_end_index;
+        for (parser_start_index, parser_end_index) in potential_matches {
+            let mut parser_current_index = parser_start_index;
             let mut symbol_count = 1; // The init already matched one symbol
             let mut input_reverse = input.iter().rev().skip(symbol_count);
             while let Some(InputNode::Symbol(symbol)) = input_reverse.next() {
@@ -126,7 +127,7 @@ impl AutocompleteMatcher for AutocompleteRule {
                 // Matched the whole parser
                 matches.push(AutocompleteRuleMatch {
                     rule: self,
-                    rule_match_length: parser_end_index + 1,
+                    rule_match_length: parser_end_index,
                     input_match_length: symbol_count,
                 })
             }
-- 
2.43.0


From 63b8f58f176750ee0f8f6dc7302171f11431b9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 09/18] fix: keep the caret valid when a range is spliced

---
 aftermath-core/caret/src/math_editor.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/aftermath-core/caret/src/math_editor.rs b/aftermath-core/caret/src/math_editor.rs
index a7c60f5..143e824 100644
--- a/aftermath-core/caret/src/math_editor.rs
+++ b/aftermath-core/caret/src/math_editor.rs
@@ -371,18 +371,23 @@ impl MathEditor {
         // Move caret
         // Apply edit
         // Merge edit into undo stack
-        let caret_before = self.caret.clone();
         let mut caret = self.caret.clone();
         let mut builder = EditorActionBuilder::new(self);
-        let (basic_edit, _) = BasicEdit::replace_range(
+        let (basic_edit, new_range) = BasicEdit::replace_range(
             &InputRowRange::from_minimal(builder.input.root_focus(), &range),
             values,
         );
-        caret.start_position.apply_edits(&basic_edit);
-        caret.end_position.apply_edits(&basic_edit);
+        for position in [&mut caret.start_position, &mut caret.end_position] {
+            let was_at_end = position.row_indices == range.row_indices
+                && position.offset == range.start.max(range.end);
+            position.apply_edits(&basic_edit);
+            if was_at_end {
+                // Stay behind the new values
+                position.offset = new_range.end;
+            }
+        }
         builder.add_edits(basic_edit);
         builder.finish(caret);
-        self.caret = caret_before;
     }
 }
 
-- 
2.43.0


From 331b70a85296590dbe81e1a5327d1232225ed804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 10/18] fix: check an autocorrect rule against the values it
 would replace

The end of the slice was the range's offset in its row, so moving the caret away from
a completed autocomplete panicked or never applied it unless the offsets happened to agree.
---
 aftermath-core/caret/src/math_editor.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/aftermath-core/caret/src/math_editor.rs b/aftermath-core/caret/src/math_editor.rs
index 143e824..ac59f63 100644
--- a/aftermath-core/caret/src/math_editor.rs
+++ b/aftermath-core/caret/src/math_editor.rs
@@ -305,13 +305,10 @@ impl MathEditor {
         }
 
         // It might no longer be a perfect match, so we need to check again
+        let typed_values = autocomplete_range.values();
         let is_perfect_match = autocorrect
             .rule
-            .matches(
-                autocomplete_range.values(),
-                autocomplete_range.left_offset().0,
-                1,
-            )
+            .matches(typed_values, typed_values.len(), 1)
             .iter()
             .any(|rule_match| rule_match.is_complete_match());
 
-- 
2.43.0


From 1e89948e6db31860338b00927d9757576b3d18f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:37 +0000
Subject: [PATCH 11/18] fix: render scripts that are followed by spaces

The parser wraps a script and the spaces around it in a Whitespaces node, for
which the rendering options are already passed through. The additional
assertion that the script is a direct child made every formula such as
"a^2 + 1" with a space behind the script fail to render.
---
 src/mathml/renderer.ts | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/mathml/renderer.ts b/src/mathml/renderer.ts
index e36f556..1fe4089 100644
--- a/src/mathml/renderer.ts
+++ b/src/mathml/renderer.ts
@@ -83,7 +83,6 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
       });
       builtIn.add("Sup", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
-        assert(hasSyntaxNodeChildren(syntaxTree.children.Children[1], "NewRows"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msup", this, {
           newRowsOperatorOverride: (node) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
@@ -93,7 +92,6 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
       });
       builtIn.add("Sub", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
-        assert(hasSyntaxNodeChildren(syntaxTree.children.Children[1], "NewRows"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msub", this, {
           newRowsOperatorOverride: (node) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
-- 
2.43.0


From 76e6144222bee19b6c536334ec6fd2790ee3a09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:37 +0000
Subject: [PATCH 12/18] fix: do not give a script the row index of the row it
 ends

When a row of a container consists of a single element with a script, the
script's element got the row index of that row again. Clicking on the script
then led to indices in which the row appears twice.
---
 src/mathml/renderer.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mathml/renderer.ts b/src/mathml/renderer.ts
index 1fe4089..201776b 100644
--- a/src/mathml/renderer.ts
+++ b/src/mathml/renderer.ts
@@ -84,18 +84,18 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
       builtIn.add("Sup", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msup", this, {
-          newRowsOperatorOverride: (node) => {
+          newRowsOperatorOverride: (node, operatorRowIndex) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
-            return new RowsContainerMathMLElement(node, rowIndex, "mrow", this);
+            return new RowsContainerMathMLElement(node, operatorRowIndex, "mrow", this);
           },
         });
       });
       builtIn.add("Sub", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msub", this, {
-          newRowsOperatorOverride: (node) => {
+          newRowsOperatorOverride: (node, operatorRowIndex) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
-            return new RowsContainerMathMLElement(node, rowIndex, "mrow", this);
+            return new RowsContainerMathMLElement(node, operatorRowIndex, "mrow", this);
           },
         });
       });
-- 
2.43.0


From f4f98c95030ba30c9985eb480ce713b7705c09fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:18 +0000
Subject: [PATCH 13/18] fix: report scripts without a base instead of failing

msub, msup and msubsup looked at their first child before checking how many
there are, so that an empty one threw instead of being reported.
---
 src/mathml/parsing.ts | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/mathml/parsing.ts b/src/mathml/parsing.ts
index 3574fd6..7458af8 100644
--- a/src/mathml/parsing.ts
+++ b/src/mathml/parsing.ts
@@ -102,29 +102,33 @@ function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode)
       root([wrapInRow(toMathLayout(children[1], errors)), wrapInRow(toMathLayout(children[0], errors))])
     );
   } else if (tagIs(element, "msub")) {
+    const error = expectNChildren(element, 2, errors);
+    if (error) return error;
     let base = toMathLayout(children[0], errors);
     if (!Array.isArray(base)) {
       base = [base];
     }
-    return expectNChildren(element, 2, errors) ?? [...base, sub(wrapInRow(toMathLayout(children[1], errors)))];
+    return [...base, sub(wrapInRow(toMathLayout(children[1], errors)))];
   } else if (tagIs(element, "msup")) {
+    const error = expectNChildren(element, 2, errors);
+    if (error) return error;
     let base = toMathLayout(children[0], errors);
     if (!Array.isArray(base)) {
       base = [base];
     }
-    return expectNChildren(element, 2, errors) ?? [...base, sup(wrapInRow(toMathLayout(children[1], errors)))];
+    return [...base, sup(wrapInRow(toMathLayout(children[1], errors)))];
   } else if (tagIs(element, "msubsup")) {
+    const error = expectNChildren(element, 3, errors);
+    if (error) return error;
     let base = toMathLayout(children[0], errors);
     if (!Array.isArray(base)) {
       base = [base];
     }
-    return (
-      expectNChildren(element, 3, errors) ?? [
-        ...base,
-        sub(wrapInRow(toMathLayout(children[1], errors))),
-        sup(wrapInRow(toMathLayout(children[2], errors))),
-      ]
-    );
+    return [
+      ...base,
+      sub(wrapInRow(toMathLayout(children[1], errors))),
+      sup(wrapInRow(toMathLayout(children[2], errors))),
+    ];
   } else if (tagIs(element, "munder")) {
     // It's usually a sub/sup
     return (
-- 
2.43.0


From c49316b28a04734f39a746fce9593f3ee9dde1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:18 +0000
Subject: [PATCH 14/18] fix: keep what is inside of mstyle

An mstyle is an mrow with a style. Its contents were dropped without an error.
---
 src/mathml/parsing.ts | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mathml/parsing.ts b/src/mathml/parsing.ts
index 7458af8..83852ab 100644
--- a/src/mathml/parsing.ts
+++ b/src/mathml/parsing.ts
@@ -78,7 +78,7 @@ function table(values: InputRow[], width: number): InputNode {
 function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode) | (InputRow | InputNode)[] {
   let children = [...element.children];
 
-  if (tagIs(element, "math", "mrow", "mtd")) {
+  if (tagIs(element, "math", "mrow", "mstyle", "mtd")) {
     // Uses flatMap so that msub can return two elements...
     return wrapInRow(children.flatMap((c) => toMathLayout(c, errors)));
   } else if (tagIs(element, "semantics") && children.length > 0) {
@@ -167,8 +167,6 @@ function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode)
     );
 
     return table(tableCells, tableWidth);
-  } else if (tagIs(element, "mstyle")) {
-    return [];
   } else {
     errors.push(new Error("Unknown element " + element.tagName));
     return symbol("Error");
-- 
2.43.0


From bb39393374d7b4260e87159c0ccb076217b7cefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:18 +0000
Subject: [PATCH 15/18] fix: report tables without cells

An mtable without cells became a table of width 0, which the editor refuses,
so that the page failed instead of reporting the error.
---
 src/mathml/parsing.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mathml/parsing.ts b/src/mathml/parsing.ts
index 83852ab..c854e21 100644
--- a/src/mathml/parsing.ts
+++ b/src/mathml/parsing.ts
@@ -159,6 +159,10 @@ function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode)
     }
 
     const tableWidth = children.map((c) => c.children.length).reduce((a, b) => Math.max(a, b), 0);
+    if (tableWidth === 0) {
+      errors.push(new Error("Expected at least one cell in " + element.tagName.toLowerCase()));
+      return symbol("Error");
+    }
 
     const tableCells = children.flatMap((c) =>
       Array.from({ length: tableWidth }, (_, i) =>
-- 
2.43.0


From 480de5e0582a768c2d5e13aa56eb4c6f11d3697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:46 +0000
Subject: [PATCH 16/18] fix: show what selecting with the pointer made of the
 document

---
 src/component/math-editor.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/component/math-editor.ts b/src/component/math-editor.ts
index 9607db6..a3bf262 100644
--- a/src/component/math-editor.ts
+++ b/src/component/math-editor.ts
@@ -251,7 +251,7 @@ export class MathEditor extends HTMLElement {
       }
       this.mathEditor.finish_selection();
       container.releasePointerCapture(e.pointerId);
-      this.renderCarets();
+      this.updateInput();
     });
     container.addEventListener("pointercancel", (e) => {
       if (!e.isPrimary) return;
@@ -263,7 +263,7 @@ export class MathEditor extends HTMLElement {
       }
       this.mathEditor.finish_selection();
       container.releasePointerCapture(e.pointerId);
-      this.renderCarets();
+      this.updateInput();
     });
     // For double clicking
     // - The dblclick event fires too late for text selection (text selection should happen on pointerdown)
@@ -278,11 +278,11 @@ export class MathEditor extends HTMLElement {
       if (clickCount === 2) {
         // double click select
         this.mathEditor.start_selection(newPosition, "Word");
-        this.renderCarets();
+        this.updateInput();
       } else if (clickCount === 3) {
         // triple click select
         this.mathEditor.start_selection(newPosition, "Line");
-        this.renderCarets();
+        this.updateInput();
       }
     });
     container.addEventListener("pointermove", (e) => {
@@ -292,7 +292,7 @@ export class MathEditor extends HTMLElement {
       const newPosition = getPointerPosition(e);
       if (!newPosition) return;
       this.mathEditor.extend_selection(newPosition);
-      this.renderCarets();
+      this.updateInput();
     });
   }
 
-- 
2.43.0


From bba1f8e6197e93d93761d404c9a4b23451d8c461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:46 +0000
Subject: [PATCH 17/18] fix: do not select up to where a pointer is released
 that was not pressed here

---
 src/component/math-editor.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/component/math-editor.ts b/src/component/math-editor.ts
index a3bf262..34c8828 100644
--- a/src/component/math-editor.ts
+++ b/src/component/math-editor.ts
@@ -244,6 +244,7 @@ export class MathEditor extends HTMLElement {
     });
     container.addEventListener("pointerup", (e) => {
       if (!e.isPrimary) return;
+      if (!isPointerDown) return;
       isPointerDown = false;
       const newPosition = getPointerPosition(e);
       if (newPosition) {
@@ -255,6 +256,7 @@ export class MathEditor extends HTMLElement {
     });
     container.addEventListener("pointercancel", (e) => {
       if (!e.isPrimary) return;
+      if (!isPointerDown) return;
       isPointerDown = false;
 
       const newPosition = getPointerPosition(e);
-- 
2.43.0


From e4e5962228c9773a1178bc96cfc542c360dc7741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:29 +0000
Subject: [PATCH 18/18] fix: normalize what is typed, as symbols are

---
 src/component/math-editor.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/component/math-editor.ts b/src/component/math-editor.ts
index 34c8828..4977bf2 100644
--- a/src/component/math-editor.ts
+++ b/src/component/math-editor.ts
@@ -170,7 +170,7 @@ export class MathEditor extends HTMLElement {
         } else if (ev.inputType === "insertText") {
           const data = ev.data;
           if (data === null) return;
-          const characters = unicodeSplit(data);
+          const characters = unicodeSplit(data.normalize("NFD"));
           MathEditorHelper.insertAtCaret(this.mathEditor, characters);
           this.updateInput();
         } else if (ev.inputType === "insertCompositionText") {
-- 
2.43.0

