From 0f2222dccd1575203696857e1af87ef81ec6a038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 01/33] fix: do not try the bibcite rule on closing parentheses

The rule asserts that it starts on '((', so any '))' in the input panicked.
---
 src/parsing/rule/mapping.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsing/rule/mapping.rs b/src/parsing/rule/mapping.rs
index ec61180..f6c816b 100644
--- a/src/parsing/rule/mapping.rs
+++ b/src/parsing/rule/mapping.rs
@@ -44,7 +44,7 @@ pub static RULE_MAP: Lazy<EnumMap<Token, Vec<Rule>>> = Lazy::new(|| {
         Token::LeftBlockStar => vec![RULE_BLOCK_STAR],
         Token::RightBlock => vec![],
         Token::LeftParentheses => vec![RULE_BIBCITE, RULE_TEXT],
-        Token::RightParentheses => vec![RULE_BIBCITE, RULE_TEXT],
+        Token::RightParentheses => vec![RULE_TEXT],
         Token::LeftMath => vec![RULE_MATH],
         Token::RightMath => vec![],
         Token::DoubleDash => vec![RULE_STRIKETHROUGH_DASH, RULE_DASH],
-- 
2.43.0


From dd09887f4c22f8388ac5fe91a8a78ebed6d86e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 02/33] fix: label a title-labelled link to a URL with the URL

'[[[http://example.com|]]]' and the like panicked when rendered.
---
 src/render/handle.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/render/handle.rs b/src/render/handle.rs
index 747bdc2..3362792 100644
--- a/src/render/handle.rs
+++ b/src/render/handle.rs
@@ -111,9 +111,8 @@ impl Handle {
                 LinkLocation::Page(page_ref) => page_ref.page(),
             },
             LinkLabel::Page => match link {
-                LinkLocation::Url(_) => {
-                    panic!("Requested link label of page for a URL");
-                }
+                // A URL has no page title, so it is its own label.
+                LinkLocation::Url(url) => url.as_ref(),
                 LinkLocation::Page(page_ref) => {
                     let (site, page) = page_ref.fields_or(site);
                     page_title = match self.get_page_title(site, page) {
-- 
2.43.0


From f665f551bfd7f1c8564d5e78dfb0eeb137a5cb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 03/33] fix: require the literal name in a bibcite citation

'((anything label))' was taken for '((bibcite label))'.
---
 src/parsing/rule/impls/bibcite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsing/rule/impls/bibcite.rs b/src/parsing/rule/impls/bibcite.rs
index a6047d2..fa7c9fa 100644
--- a/src/parsing/rule/impls/bibcite.rs
+++ b/src/parsing/rule/impls/bibcite.rs
@@ -35,7 +35,7 @@ fn try_consume_fn<'r, 't>(
     // This is like a poor man's block, it's "((bibcite <label>))"
     let current = parser.current();
     if current.token != Token::Identifier
-        && !current.slice.eq_ignore_ascii_case("bibcite")
+        || !current.slice.eq_ignore_ascii_case("bibcite")
     {
         warn!("'((' not followed by 'bibcite', failing rule");
         return Err(parser.make_err(ParseErrorKind::RuleFailed));
-- 
2.43.0


From 6e397131c460a9963c81c9adf3beb68789fceff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 04/33] fix: reject page links in a script scheme

'[[[javascript:;//%0aalert(1)]]]' produced a link which runs script,
as the part after the page name is appended to the permitted 'javascript:;'.
---
 src/url.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/url.rs b/src/url.rs
index 0e53cf2..5b97512 100644
--- a/src/url.rs
+++ b/src/url.rs
@@ -95,6 +95,10 @@ pub fn normalize_link<'a>(
 
             match site {
                 Some(site) => Cow::Owned(helper.build_url(site, page)),
+
+                // "javascript:;" is only inert as an entire URL, but
+                // a page may be followed by an arbitrary path or anchor.
+                None if dangerous_scheme(page) => Cow::Borrowed("#invalid-url"),
                 None => normalize_href(page),
             }
         }
-- 
2.43.0


From b6a95381f02016f65697b399a2599e09375fb993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 05/33] fix: do not expand citations within citation tooltips

A bibliography entry which cites itself overflowed the stack when rendered,
and a footnote in an entry was numbered once more per citation, going out of bounds.
---
 src/render/html/context.rs              | 20 ++++++++++++++++++++
 src/render/html/element/bibliography.rs |  8 ++++++++
 src/render/html/element/footnotes.rs    |  6 ++++++
 3 files changed, 34 insertions(+)

diff --git a/src/render/html/context.rs b/src/render/html/context.rs
index 651af3b..ceab2af 100644
--- a/src/render/html/context.rs
+++ b/src/render/html/context.rs
@@ -76,6 +76,11 @@ where
     table_of_contents_index: usize,
     equation_index: NonZeroUsize,
     footnote_index: NonZeroUsize,
+
+    //
+    // Whether we are inside the tooltip of a bibliography citation
+    //
+    in_citation: bool,
 }
 
 impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
@@ -125,6 +130,7 @@ impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
             table_of_contents_index: 0,
             equation_index: NonZeroUsize::new(1).unwrap(),
             footnote_index: NonZeroUsize::new(1).unwrap(),
+            in_citation: false,
         }
     }
 
@@ -239,6 +245,20 @@ impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
         index
     }
 
+    /// Whether the tooltip of a bibliography citation is being rendered.
+    ///
+    /// Such a tooltip is a second copy of a bibliography entry, so citations
+    /// and footnotes within it must not be expanded or numbered again.
+    #[inline]
+    pub fn in_citation(&self) -> bool {
+        self.in_citation
+    }
+
+    #[inline]
+    pub fn set_in_citation(&mut self, value: bool) {
+        self.in_citation = value;
+    }
+
     pub fn next_footnote_index(&mut self) -> NonZeroUsize {
         let index = self.footnote_index;
         self.footnote_index = NonZeroUsize::new(index.get() + 1).unwrap();
diff --git a/src/render/html/element/bibliography.rs b/src/render/html/element/bibliography.rs
index 61cfe87..2ed3888 100644
--- a/src/render/html/element/bibliography.rs
+++ b/src/render/html/element/bibliography.rs
@@ -59,6 +59,12 @@ pub fn render_bibcite(ctx: &mut HtmlContext, label: &str, brackets: bool) {
                         ctx.push_raw(']');
                     }
 
+                    // Bibliography entries may cite each other (or themselves),
+                    // so only the outermost citation has a tooltip.
+                    if ctx.in_citation() {
+                        return;
+                    }
+
                     // Tooltip shown on hover.
                     // Is aria-hidden due to difficulty in getting a simultaneous
                     // tooltip and link to work. A screen reader can still navigate
@@ -79,10 +85,12 @@ pub fn render_bibcite(ctx: &mut HtmlContext, label: &str, brackets: bool) {
                                 .contents(&label);
 
                             // Actual tooltip contents
+                            ctx.set_in_citation(true);
                             ctx.html()
                                 .span()
                                 .attr(attr!("class" => "wj-bibliography-ref-contents"))
                                 .contents(contents);
+                            ctx.set_in_citation(false);
                         });
                 });
         }
diff --git a/src/render/html/element/footnotes.rs b/src/render/html/element/footnotes.rs
index dba35fa..7272b37 100644
--- a/src/render/html/element/footnotes.rs
+++ b/src/render/html/element/footnotes.rs
@@ -23,6 +23,12 @@ use super::prelude::*;
 pub fn render_footnote(ctx: &mut HtmlContext) {
     debug!("Rendering footnote reference");
 
+    // Copy of a bibliography entry, the footnote was or will be
+    // rendered as part of the bibliography block itself.
+    if ctx.in_citation() {
+        return;
+    }
+
     let index = ctx.next_footnote_index();
     let id = str!(index);
 
-- 
2.43.0


From 32692f15746678571983ee921d8ec2c2f01d49bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 06/33] fix: only accept partial elements as direct children

An item block (such as [[tab]] or [[li]]) within another item, or within
some other element inside of a list, was accepted because the flag stayed
set for everything nested inside. The leftover partial then caused the
renderers to panic.
---
 src/parsing/parser.rs                          | 18 +++++++++++++++++-
 .../rule/impls/block/blocks/ifcategory.rs      |  7 ++++++-
 src/parsing/rule/impls/block/blocks/iftags.rs  |  7 ++++++-
 src/parsing/rule/impls/block/blocks/table.rs   |  2 --
 4 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/parsing/parser.rs b/src/parsing/parser.rs
index f915c12..c17a9b2 100644
--- a/src/parsing/parser.rs
+++ b/src/parsing/parser.rs
@@ -81,6 +81,7 @@ pub struct Parser<'r, 't> {
 
     // Flags
     accepts_partial: AcceptsPartial,
+    parent_accepts_partial: AcceptsPartial, // What the element containing this rule accepts.
     in_footnote: bool, // Whether we're currently inside [[footnote]] ... [[/footnote]].
     has_footnote_block: bool, // Whether a [[footnoteblock]] was created.
     start_of_line: bool,
@@ -116,6 +117,7 @@ impl<'r, 't> Parser<'r, 't> {
             footnotes: make_shared_vec(),
             bibliographies: Rc::new(RefCell::new(BibliographyList::new())),
             accepts_partial: AcceptsPartial::None,
+            parent_accepts_partial: AcceptsPartial::None,
             in_footnote: false,
             has_footnote_block: false,
             start_of_line: true,
@@ -148,6 +150,14 @@ impl<'r, 't> Parser<'r, 't> {
         self.accepts_partial
     }
 
+    /// What partials the element directly containing this rule's output accepts.
+    ///
+    /// For rules whose output is the elements they contain (such as conditionals).
+    #[inline]
+    pub fn parent_accepts_partial(&self) -> AcceptsPartial {
+        self.parent_accepts_partial
+    }
+
     #[inline]
     pub fn in_footnote(&self) -> bool {
         self.in_footnote
@@ -169,9 +179,16 @@ impl<'r, 't> Parser<'r, 't> {
         self.rule = rule;
     }
 
+    /// Produces a child parser to attempt this rule.
+    ///
+    /// Partials are only accepted as direct children of the element which
+    /// wants them, so nothing is accepted inside of this rule unless it
+    /// asks for it (see `ParserWrap`).
     pub fn clone_with_rule(&self, rule: Rule) -> Self {
         let mut clone = self.clone();
         clone.set_rule(rule);
+        clone.parent_accepts_partial = self.accepts_partial;
+        clone.accepts_partial = AcceptsPartial::None;
         clone
     }
 
@@ -416,7 +433,6 @@ impl<'r, 't> Parser<'r, 't> {
     #[inline]
     pub fn update(&mut self, parser: &Parser<'r, 't>) {
         // Flags
-        self.accepts_partial = parser.accepts_partial;
         self.in_footnote = parser.in_footnote;
         self.has_footnote_block = parser.has_footnote_block;
         self.start_of_line = parser.start_of_line;
diff --git a/src/parsing/rule/impls/block/blocks/ifcategory.rs b/src/parsing/rule/impls/block/blocks/ifcategory.rs
index 951064e..6bf8c5e 100644
--- a/src/parsing/rule/impls/block/blocks/ifcategory.rs
+++ b/src/parsing/rule/impls/block/blocks/ifcategory.rs
@@ -20,7 +20,7 @@
 
 use super::prelude::*;
 use crate::data::PageInfo;
-use crate::parsing::{ElementCondition, ElementConditionType};
+use crate::parsing::{ElementCondition, ElementConditionType, ParserWrap};
 
 pub const BLOCK_IFCATEGORY: BlockRule = BlockRule {
     name: "block-ifcategory",
@@ -67,6 +67,11 @@ fn parse_fn<'r, 't>(
         })?;
 
     // Get body content, never with paragraphs
+    //
+    // The contents take the place of this block, so they may be
+    // whatever partials are accepted where it is.
+    let accepts_partial = parser.parent_accepts_partial();
+    let parser = &mut ParserWrap::new(parser, accepts_partial);
     let (elements, errors, paragraph_safe) =
         parser.get_body_elements(&BLOCK_IFCATEGORY, false)?.into();
 
diff --git a/src/parsing/rule/impls/block/blocks/iftags.rs b/src/parsing/rule/impls/block/blocks/iftags.rs
index 5be9522..59a4687 100644
--- a/src/parsing/rule/impls/block/blocks/iftags.rs
+++ b/src/parsing/rule/impls/block/blocks/iftags.rs
@@ -20,7 +20,7 @@
 
 use super::prelude::*;
 use crate::data::PageInfo;
-use crate::parsing::ElementCondition;
+use crate::parsing::{ElementCondition, ParserWrap};
 
 pub const BLOCK_IFTAGS: BlockRule = BlockRule {
     name: "block-iftags",
@@ -51,6 +51,11 @@ fn parse_fn<'r, 't>(
         })?;
 
     // Get body content, never with paragraphs
+    //
+    // The contents take the place of this block, so they may be
+    // whatever partials are accepted where it is.
+    let accepts_partial = parser.parent_accepts_partial();
+    let parser = &mut ParserWrap::new(parser, accepts_partial);
     let (elements, errors, paragraph_safe) =
         parser.get_body_elements(&BLOCK_IFTAGS, false)?.into();
 
diff --git a/src/parsing/rule/impls/block/blocks/table.rs b/src/parsing/rule/impls/block/blocks/table.rs
index b1b547e..0b36dc9 100644
--- a/src/parsing/rule/impls/block/blocks/table.rs
+++ b/src/parsing/rule/impls/block/blocks/table.rs
@@ -232,8 +232,6 @@ fn parse_cell_header<'r, 't>(
     flag_score: bool,
     in_head: bool,
 ) -> ParseResult<'r, 't, Elements<'t>> {
-    let parser = &mut ParserWrap::new(parser, AcceptsPartial::TableCell);
-
     // Get block contents.
     let ParsedBlock {
         elements,
-- 
2.43.0


From 20600f2e4a817b269a8aa38057f35b394e4b9a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 07/33] fix: drop items collected by abandoned parse attempts

Footnotes, code and HTML blocks, table of contents entries and
bibliographies added by a rule which then failed remained, so for
instance the contents of an unclosed element had every footnote twice.
---
 src/parsing/parser.rs                     | 36 +++++++++++++++++++++++
 src/parsing/rule/impls/definition_list.rs |  2 ++
 src/parsing/rule/mod.rs                   | 17 +++++++----
 src/tree/bibliography.rs                  |  4 +++
 4 files changed, 53 insertions(+), 6 deletions(-)

diff --git a/src/parsing/parser.rs b/src/parsing/parser.rs
index c17a9b2..ef2b38e 100644
--- a/src/parsing/parser.rs
+++ b/src/parsing/parser.rs
@@ -315,6 +315,32 @@ impl<'r, 't> Parser<'r, 't> {
         mem::take(&mut self.bibliographies.borrow_mut())
     }
 
+    // Shared items
+    //
+    // Parser instances share what they've collected, so when an attempt is
+    // abandoned, whatever it added must be dropped along with its elements.
+    pub fn shared_items_mark(&self) -> SharedItemsMark {
+        SharedItemsMark {
+            html_blocks: self.html_blocks.borrow().len(),
+            code_blocks: self.code_blocks.borrow().len(),
+            table_of_contents: self.table_of_contents.borrow().len(),
+            footnotes: self.footnotes.borrow().len(),
+            bibliographies: self.bibliographies.borrow().next_index(),
+        }
+    }
+
+    pub fn shared_items_rollback(&mut self, mark: SharedItemsMark) {
+        self.html_blocks.borrow_mut().truncate(mark.html_blocks);
+        self.code_blocks.borrow_mut().truncate(mark.code_blocks);
+        self.table_of_contents
+            .borrow_mut()
+            .truncate(mark.table_of_contents);
+        self.footnotes.borrow_mut().truncate(mark.footnotes);
+        self.bibliographies
+            .borrow_mut()
+            .truncate(mark.bibliographies);
+    }
+
     // Special for [[include]], appending a SyntaxTree
     pub fn append_shared_items(
         &mut self,
@@ -587,6 +613,16 @@ impl<'r, 't> Parser<'r, 't> {
     }
 }
 
+/// How many items of each kind had been collected at some point.
+#[derive(Debug, Copy, Clone)]
+pub struct SharedItemsMark {
+    html_blocks: usize,
+    code_blocks: usize,
+    table_of_contents: usize,
+    footnotes: usize,
+    bibliographies: usize,
+}
+
 #[derive(Debug)]
 pub struct NonUniqueNameError;
 
diff --git a/src/parsing/rule/impls/definition_list.rs b/src/parsing/rule/impls/definition_list.rs
index 1a4f8fb..d629dd0 100644
--- a/src/parsing/rule/impls/definition_list.rs
+++ b/src/parsing/rule/impls/definition_list.rs
@@ -67,6 +67,7 @@ fn parse_definition_list<'r, 't>(
     // Collect remainder, halting if there's a failure
     if !at_end {
         loop {
+            let mark = parser.shared_items_mark();
             let sub_parser = &mut parser.clone();
 
             match parse_item(sub_parser) {
@@ -84,6 +85,7 @@ fn parse_definition_list<'r, 't>(
                 }
                 Err(error) => {
                     warn!("Failed to get the next definition list item, ending iteration: {error:?}");
+                    parser.shared_items_rollback(mark);
                     break;
                 }
             }
diff --git a/src/parsing/rule/mod.rs b/src/parsing/rule/mod.rs
index bf46757..cf804af 100644
--- a/src/parsing/rule/mod.rs
+++ b/src/parsing/rule/mod.rs
@@ -67,15 +67,20 @@ impl Rule {
         }
 
         // Fork parser and try running the rule.
+        let mark = parser.shared_items_mark();
         let mut sub_parser = parser.clone_with_rule(self);
-        let result = (self.try_consume_fn)(&mut sub_parser);
-
-        if let Ok(ref output) = result {
-            // First, ensure there aren't any partial elements in the result.
+        let result = (self.try_consume_fn)(&mut sub_parser).and_then(|output| {
+            // Ensure there aren't any partial elements in the result.
             output.check_partials(parser)?;
+            Ok(output)
+        });
+
+        match result {
+            // Finally, save the parser state since it succeeded.
+            Ok(_) => parser.update(&sub_parser),
 
-            // Now, finally save the parser state since it succeeded.
-            parser.update(&sub_parser);
+            // Drop any items collected by this failed attempt.
+            Err(_) => parser.shared_items_rollback(mark),
         }
 
         result
diff --git a/src/tree/bibliography.rs b/src/tree/bibliography.rs
index 1284e8c..57687ca 100644
--- a/src/tree/bibliography.rs
+++ b/src/tree/bibliography.rs
@@ -102,6 +102,10 @@ impl<'t> BibliographyList<'t> {
         self.0.append(&mut other.0);
     }
 
+    pub fn truncate(&mut self, length: usize) {
+        self.0.truncate(length);
+    }
+
     #[inline]
     pub fn next_index(&self) -> usize {
         self.0.len()
-- 
2.43.0


From 5eaa5f8fdd120bf0286f8da3531f5b511af05836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 08/33] fix: drop items collected within excluded conditional
 blocks

The contents of an [[iftags]] or [[ifcategory]] whose condition fails are
not on the page, so neither are their footnotes, code blocks, headings, and
so on, nor does a [[footnoteblock]] in there count.
---
 src/parsing/parser.rs                                   | 4 ++--
 src/parsing/rule/impls/block/blocks/footnote.rs         | 2 +-
 src/parsing/rule/impls/block/blocks/ifcategory.rs       | 6 ++++++
 src/parsing/rule/impls/block/blocks/iftags.rs           | 6 ++++++
 src/parsing/rule/impls/block/blocks/include_elements.rs | 2 +-
 5 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/parsing/parser.rs b/src/parsing/parser.rs
index ef2b38e..232a59a 100644
--- a/src/parsing/parser.rs
+++ b/src/parsing/parser.rs
@@ -220,8 +220,8 @@ impl<'r, 't> Parser<'r, 't> {
     }
 
     #[inline]
-    pub fn set_footnote_block(&mut self) {
-        self.has_footnote_block = true;
+    pub fn set_footnote_block(&mut self, value: bool) {
+        self.has_footnote_block = value;
     }
 
     // Parse settings helpers
diff --git a/src/parsing/rule/impls/block/blocks/footnote.rs b/src/parsing/rule/impls/block/blocks/footnote.rs
index 8b592e2..c1876cc 100644
--- a/src/parsing/rule/impls/block/blocks/footnote.rs
+++ b/src/parsing/rule/impls/block/blocks/footnote.rs
@@ -118,7 +118,7 @@ fn parse_footnote_block<'r, 't>(
     }
 
     // Tell parser that a footnote block was added
-    parser.set_footnote_block();
+    parser.set_footnote_block(true);
 
     // Build and return
     ok!(Element::FootnoteBlock { title, hide })
diff --git a/src/parsing/rule/impls/block/blocks/ifcategory.rs b/src/parsing/rule/impls/block/blocks/ifcategory.rs
index 6bf8c5e..0e2911d 100644
--- a/src/parsing/rule/impls/block/blocks/ifcategory.rs
+++ b/src/parsing/rule/impls/block/blocks/ifcategory.rs
@@ -70,6 +70,8 @@ fn parse_fn<'r, 't>(
     //
     // The contents take the place of this block, so they may be
     // whatever partials are accepted where it is.
+    let mark = parser.shared_items_mark();
+    let has_footnote_block = parser.has_footnote_block();
     let accepts_partial = parser.parent_accepts_partial();
     let parser = &mut ParserWrap::new(parser, accepts_partial);
     let (elements, errors, paragraph_safe) =
@@ -89,6 +91,10 @@ fn parse_fn<'r, 't>(
     } else {
         trace!("Conditions failed, excluding elements");
 
+        // Also drop anything the excluded contents have added.
+        parser.shared_items_rollback(mark);
+        parser.set_footnote_block(has_footnote_block);
+
         Elements::None
     };
 
diff --git a/src/parsing/rule/impls/block/blocks/iftags.rs b/src/parsing/rule/impls/block/blocks/iftags.rs
index 59a4687..74c1ad4 100644
--- a/src/parsing/rule/impls/block/blocks/iftags.rs
+++ b/src/parsing/rule/impls/block/blocks/iftags.rs
@@ -54,6 +54,8 @@ fn parse_fn<'r, 't>(
     //
     // The contents take the place of this block, so they may be
     // whatever partials are accepted where it is.
+    let mark = parser.shared_items_mark();
+    let has_footnote_block = parser.has_footnote_block();
     let accepts_partial = parser.parent_accepts_partial();
     let parser = &mut ParserWrap::new(parser, accepts_partial);
     let (elements, errors, paragraph_safe) =
@@ -73,6 +75,10 @@ fn parse_fn<'r, 't>(
     } else {
         trace!("Conditions failed, excluding elements");
 
+        // Also drop anything the excluded contents have added.
+        parser.shared_items_rollback(mark);
+        parser.set_footnote_block(has_footnote_block);
+
         Elements::None
     };
 
diff --git a/src/parsing/rule/impls/block/blocks/include_elements.rs b/src/parsing/rule/impls/block/blocks/include_elements.rs
index 9cc93c7..8fabfc8 100644
--- a/src/parsing/rule/impls/block/blocks/include_elements.rs
+++ b/src/parsing/rule/impls/block/blocks/include_elements.rs
@@ -71,7 +71,7 @@ fn parse_fn<'r, 't>(
     } = include_page(parser, &page_ref)?;
 
     if has_footnote_block {
-        parser.set_footnote_block();
+        parser.set_footnote_block(true);
     }
 
     // Extract elements and errors
-- 
2.43.0


From e440f7779a662e4ebd1e6940094c8376b99b78e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 09/33] fix: keep the text of an incomplete heading or table
 row

When the line following a heading or table row began like another one but
turned out not to be one, what had been consumed to find that out was lost
from the page.
---
 src/parsing/rule/impls/header.rs | 10 +++++++++-
 src/parsing/rule/impls/table.rs  |  9 ++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/parsing/rule/impls/header.rs b/src/parsing/rule/impls/header.rs
index 6ee06e1..180a225 100644
--- a/src/parsing/rule/impls/header.rs
+++ b/src/parsing/rule/impls/header.rs
@@ -86,11 +86,19 @@ fn try_consume_fn<'r, 't>(
     // which we need to trigger the next header when using regular rules.
     let mut all_elements: Vec<_> = elements.into_iter().collect();
 
-    if let Ok(success) = (try_consume_fn)(parser) {
+    //
+    // If it fails, then nothing it consumed counts.
+    let mark = parser.shared_items_mark();
+    let sub_parser = &mut parser.clone();
+
+    if let Ok(success) = (try_consume_fn)(sub_parser) {
+        parser.update(sub_parser);
         let (elements, mut errors, _) = success.into();
 
         all_elements.extend(elements);
         all_errors.append(&mut errors);
+    } else {
+        parser.shared_items_rollback(mark);
     }
 
     // Build final Elements object
diff --git a/src/parsing/rule/impls/table.rs b/src/parsing/rule/impls/table.rs
index 93eb57c..e0dd520 100644
--- a/src/parsing/rule/impls/table.rs
+++ b/src/parsing/rule/impls/table.rs
@@ -49,6 +49,10 @@ fn try_consume_fn<'r, 't>(
 
         let mut cells = Vec::new();
 
+        // To return to if this turns out not to be a row
+        let mark = parser.shared_items_mark();
+        let row_start = parser.clone();
+
         macro_rules! build_row {
             () => {
                 rows.push(TableRow {
@@ -64,7 +68,10 @@ fn try_consume_fn<'r, 't>(
                     // No rows were successfully parsed, fail.
                     return Err(parser.make_err(ParseErrorKind::RuleFailed));
                 } else {
-                    // At least one row was created, end it here.
+                    // At least one row was created, end it here,
+                    // leaving the contents of the incomplete row.
+                    parser.shared_items_rollback(mark);
+                    parser.update(&row_start);
                     break 'table;
                 }
             };
-- 
2.43.0


From 5ef171951f8383221c9935f2077b137326db6334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 10/33] fix: do not recurse for each consecutive heading

Enough headings in a row overflowed the stack.
---
 src/parsing/rule/impls/header.rs | 63 ++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/src/parsing/rule/impls/header.rs b/src/parsing/rule/impls/header.rs
index 180a225..6fabf84 100644
--- a/src/parsing/rule/impls/header.rs
+++ b/src/parsing/rule/impls/header.rs
@@ -29,6 +29,43 @@ pub const RULE_HEADER: Rule = Rule {
 
 fn try_consume_fn<'r, 't>(
     parser: &mut Parser<'r, 't>,
+) -> ParseResult<'r, 't, Elements<'t>> {
+    debug!("Trying to create header containers");
+
+    let (elements, mut all_errors, _) = parse_header(parser)?.into();
+    let mut all_elements: Vec<_> = elements.into_iter().collect();
+
+    // Collect headings until we hit an error.
+    //
+    // We do this because the container consumes the newline,
+    // which we need to trigger the next header when using regular rules.
+    //
+    // If it fails, then nothing it consumed counts.
+    loop {
+        let mark = parser.shared_items_mark();
+        let sub_parser = &mut parser.clone();
+
+        match parse_header(sub_parser) {
+            Ok(success) => {
+                let (elements, mut errors, _) = success.into();
+
+                all_elements.extend(elements);
+                all_errors.append(&mut errors);
+                parser.update(sub_parser);
+            }
+            Err(_) => {
+                parser.shared_items_rollback(mark);
+                break;
+            }
+        }
+    }
+
+    // Build final Elements object
+    ok!(false; all_elements, all_errors)
+}
+
+fn parse_header<'r, 't>(
+    parser: &mut Parser<'r, 't>,
 ) -> ParseResult<'r, 't, Elements<'t>> {
     debug!("Trying to create header container");
 
@@ -53,7 +90,7 @@ fn try_consume_fn<'r, 't>(
     // Step over whitespace
     step!(Token::Whitespace);
 
-    let (elements, mut all_errors, _) = collect_container(
+    let (elements, all_errors, _) = collect_container(
         parser,
         RULE_HEADER,
         ContainerType::Header(heading),
@@ -80,27 +117,5 @@ fn try_consume_fn<'r, 't>(
         parser.push_table_of_contents_entry(heading.level, elements);
     }
 
-    // Recursively collect headings until we hit an error.
-    //
-    // We do this because the container consumes the newline,
-    // which we need to trigger the next header when using regular rules.
-    let mut all_elements: Vec<_> = elements.into_iter().collect();
-
-    //
-    // If it fails, then nothing it consumed counts.
-    let mark = parser.shared_items_mark();
-    let sub_parser = &mut parser.clone();
-
-    if let Ok(success) = (try_consume_fn)(sub_parser) {
-        parser.update(sub_parser);
-        let (elements, mut errors, _) = success.into();
-
-        all_elements.extend(elements);
-        all_errors.append(&mut errors);
-    } else {
-        parser.shared_items_rollback(mark);
-    }
-
-    // Build final Elements object
-    ok!(false; all_elements, all_errors)
+    ok!(false; elements, all_errors)
 }
-- 
2.43.0


From 8cf0494b4ecab160ab751de1d6ca6c1dffa824f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 11/33] fix: remember failed parse attempts

Each element that is opened but not closed doubled the time taken, as its
contents were parsed again once it failed, so that a line with a few dozen
of them did not finish.
---
 src/parsing/parser.rs   | 44 +++++++++++++++++++++++++++++++++++++++++
 src/parsing/rule/mod.rs | 11 ++++++++++-
 2 files changed, 54 insertions(+), 1 deletion(-)

diff --git a/src/parsing/parser.rs b/src/parsing/parser.rs
index 232a59a..6d2a0e0 100644
--- a/src/parsing/parser.rs
+++ b/src/parsing/parser.rs
@@ -30,6 +30,7 @@ use crate::tree::{
 };
 use std::borrow::Cow;
 use std::cell::RefCell;
+use std::collections::HashMap;
 use std::rc::Rc;
 use std::{mem, ptr};
 
@@ -79,6 +80,13 @@ pub struct Parser<'r, 't> {
     // overriding later ones.
     bibliographies: Rc<RefCell<BibliographyList<'t>>>,
 
+    // Failed attempts at rules, and the errors they failed with
+    //
+    // When an outer element fails, its contents are parsed again.
+    // Without remembering which attempts do not go anywhere, the time
+    // this takes doubles with each element that isn't closed.
+    failures: Rc<RefCell<HashMap<FailureKey, ParseError>>>,
+
     // Flags
     accepts_partial: AcceptsPartial,
     parent_accepts_partial: AcceptsPartial, // What the element containing this rule accepts.
@@ -116,6 +124,7 @@ impl<'r, 't> Parser<'r, 't> {
             code_blocks: make_shared_vec(),
             footnotes: make_shared_vec(),
             bibliographies: Rc::new(RefCell::new(BibliographyList::new())),
+            failures: Rc::new(RefCell::new(HashMap::new())),
             accepts_partial: AcceptsPartial::None,
             parent_accepts_partial: AcceptsPartial::None,
             in_footnote: false,
@@ -341,6 +350,28 @@ impl<'r, 't> Parser<'r, 't> {
             .truncate(mark.bibliographies);
     }
 
+    // Failed attempts
+    pub fn failure_key(&self, rule: Rule) -> FailureKey {
+        FailureKey {
+            rule: rule.name(),
+            outer_rule: self.rule.name(),
+            remaining: self.remaining.len(),
+            depth: self.depth,
+            code_blocks: self.code_blocks.borrow().len(),
+            accepts_partial: self.accepts_partial,
+            in_footnote: self.in_footnote,
+            start_of_line: self.start_of_line,
+        }
+    }
+
+    pub fn get_failure(&self, key: &FailureKey) -> Option<ParseError> {
+        self.failures.borrow().get(key).cloned()
+    }
+
+    pub fn add_failure(&mut self, key: FailureKey, error: ParseError) {
+        self.failures.borrow_mut().insert(key, error);
+    }
+
     // Special for [[include]], appending a SyntaxTree
     pub fn append_shared_items(
         &mut self,
@@ -623,6 +654,19 @@ pub struct SharedItemsMark {
     bibliographies: usize,
 }
 
+/// Everything that determines how an attempt at a rule goes.
+#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
+pub struct FailureKey {
+    rule: &'static str,
+    outer_rule: &'static str,
+    remaining: usize,
+    depth: usize,
+    code_blocks: usize,
+    accepts_partial: AcceptsPartial,
+    in_footnote: bool,
+    start_of_line: bool,
+}
+
 #[derive(Debug)]
 pub struct NonUniqueNameError;
 
diff --git a/src/parsing/rule/mod.rs b/src/parsing/rule/mod.rs
index cf804af..4a3f7fe 100644
--- a/src/parsing/rule/mod.rs
+++ b/src/parsing/rule/mod.rs
@@ -66,6 +66,12 @@ impl Rule {
             }
         }
 
+        // See if this has been tried already.
+        let key = parser.failure_key(self);
+        if let Some(error) = parser.get_failure(&key) {
+            return Err(error);
+        }
+
         // Fork parser and try running the rule.
         let mark = parser.shared_items_mark();
         let mut sub_parser = parser.clone_with_rule(self);
@@ -80,7 +86,10 @@ impl Rule {
             Ok(_) => parser.update(&sub_parser),
 
             // Drop any items collected by this failed attempt.
-            Err(_) => parser.shared_items_rollback(mark),
+            Err(ref error) => {
+                parser.shared_items_rollback(mark);
+                parser.add_failure(key, error.clone());
+            }
         }
 
         result
-- 
2.43.0


From e5c069f551bf5a96c22a7563542e4cb402c60f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 12/33] fix: check all of a prefixed attribute's name

The expression was not anchored, so names containing quotes or angle
brackets were let through as data- and aria- attributes.
---
 src/tree/attribute/safe.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree/attribute/safe.rs b/src/tree/attribute/safe.rs
index 8f59b4f..091ffe5 100644
--- a/src/tree/attribute/safe.rs
+++ b/src/tree/attribute/safe.rs
@@ -182,7 +182,7 @@ pub static URL_ATTRIBUTES: Lazy<HashSet<UniCase<&'static str>>> =
     Lazy::new(|| hashset_unicase!["href", "src",]);
 
 static ATTRIBUTE_SUFFIX_SAFE: Lazy<Regex> =
-    Lazy::new(|| Regex::new(r"[a-zA-z0-9\-]+").unwrap());
+    Lazy::new(|| Regex::new(r"^[a-zA-Z0-9\-]+$").unwrap());
 
 pub const SAFE_ATTRIBUTE_PREFIXES: [&str; 2] = ["aria-", "data-"];
 
-- 
2.43.0


From 1df6f63faaeecf22f65c0d0cd55c064172df4000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 13/33] fix: do not allow CSS to close its style element

---
 src/render/html/element/style.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/render/html/element/style.rs b/src/render/html/element/style.rs
index b8fb58e..d064e4d 100644
--- a/src/render/html/element/style.rs
+++ b/src/render/html/element/style.rs
@@ -49,10 +49,13 @@ pub fn render_style(ctx: &mut HtmlContext, input_css: &str) {
         }
     };
 
+    // Strings and comments are retained as-is, and can contain a closing tag.
+    // An escaped slash is equivalent here, and does not end the element.
+    let output_css = output_css.replace("</", "<\\/");
+
     ctx.html().style().inner(|ctx| {
-        // SAFETY: The resultant CSS cannot contain HTML-escaping elements,
-        //         as those are invalid and would not be retained during
-        //         the parcel_css parsing process.
+        // SAFETY: The only thing that can end a <style> is a closing tag,
+        //         which the CSS no longer contains.
         ctx.push_raw_str(&output_css);
     });
 }
-- 
2.43.0


From 2e684934115bef0fc86d5ee1a0216439b1283669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 14/33] fix: use the correct value for the same-window link
 target

---
 src/tree/anchor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree/anchor.rs b/src/tree/anchor.rs
index 9ed708a..b99ea0b 100644
--- a/src/tree/anchor.rs
+++ b/src/tree/anchor.rs
@@ -56,7 +56,7 @@ impl AnchorTarget {
             AnchorTarget::NewTab => "_blank",
             AnchorTarget::Parent => "_parent",
             AnchorTarget::Top => "_top",
-            AnchorTarget::Same => "_same",
+            AnchorTarget::Same => "_self",
         }
     }
 }
-- 
2.43.0


From deab5580a2aef9a0d1315bf3cdfdce6a7d5c80e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 15/33] fix: map the end index of an empty text to UTF-16

---
 src/utf16.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/utf16.rs b/src/utf16.rs
index 31316bf..5414151 100644
--- a/src/utf16.rs
+++ b/src/utf16.rs
@@ -47,19 +47,17 @@ impl<'t> Utf16IndexMap<'t> {
     pub fn new(text: &'t str) -> Self {
         let mut map = HashMap::new();
         let mut utf16_index = 0;
-        let mut last_utf8_index = None;
+        let mut last_utf8_index = 0;
 
         // Add index for the start of each character
         for (utf8_index, ch) in text.char_indices() {
             map.insert(utf8_index, utf16_index);
             utf16_index += ch.len_utf16();
-            last_utf8_index = Some(utf8_index + ch.len_utf8());
+            last_utf8_index = utf8_index + ch.len_utf8();
         }
 
         // Add last index, needed for the final token span.
-        if let Some(utf8_index) = last_utf8_index {
-            map.insert(utf8_index, utf16_index);
-        }
+        map.insert(last_utf8_index, utf16_index);
 
         Utf16IndexMap {
             map,
-- 
2.43.0


From 67c731277960b6dd7102be9a65b679845b3361f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 16/33] fix: leave what follows a list unconsumed

---
 src/parsing/rule/impls/list.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parsing/rule/impls/list.rs b/src/parsing/rule/impls/list.rs
index 59eab30..733fb92 100644
--- a/src/parsing/rule/impls/list.rs
+++ b/src/parsing/rule/impls/list.rs
@@ -52,8 +52,13 @@ fn try_consume_fn<'r, 't>(
     // but we need this binding for chain().
     let mut paragraph_safe = false;
 
+    // Where the item being parsed starts
+    let mut item_start = parser.clone();
+
     // Produce a depth list with elements
     loop {
+        item_start.update(parser);
+
         let current = parser.current();
         let depth = match current.token {
             // Count the number of spaces for its depth
@@ -125,6 +130,9 @@ fn try_consume_fn<'r, 't>(
         return Err(parser.make_err(ParseErrorKind::RuleFailed));
     }
 
+    // The last item turned out not to be one, don't consume any of its tokens
+    parser.update(&item_start);
+
     let depth_lists = process_depths(ListType::Generic, depths);
     let elements: Vec<Element> = depth_lists
         .into_iter()
-- 
2.43.0


From 3ce4bff14f126a5b2b1666ed662729389bf7f37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 17/33] fix: report the errors found within definition lists

---
 src/parsing/rule/impls/definition_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsing/rule/impls/definition_list.rs b/src/parsing/rule/impls/definition_list.rs
index d629dd0..58a2133 100644
--- a/src/parsing/rule/impls/definition_list.rs
+++ b/src/parsing/rule/impls/definition_list.rs
@@ -93,7 +93,7 @@ fn parse_definition_list<'r, 't>(
     }
 
     // Build and return element
-    ok!(Element::DefinitionList(items))
+    ok!(false; Element::DefinitionList(items), errors)
 }
 
 fn parse_item<'r, 't>(
-- 
2.43.0


From 54e77b7df49c4b5bd8e470a5d659ab4947064986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 18/33] fix: require a space after the colon separating a
 definition

---
 src/parsing/rule/impls/definition_list.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parsing/rule/impls/definition_list.rs b/src/parsing/rule/impls/definition_list.rs
index 58a2133..f15bd03 100644
--- a/src/parsing/rule/impls/definition_list.rs
+++ b/src/parsing/rule/impls/definition_list.rs
@@ -138,6 +138,14 @@ fn parse_item<'r, 't>(
     let end_token = parser.current();
 
     strip_whitespace(&mut key_elements);
+
+    // Ensure the separator is " : ", so nothing else is skipped
+    if !matches!(
+        parser.next_two_tokens(),
+        (Token::Colon, Some(Token::Whitespace)),
+    ) {
+        return Err(parser.make_err(ParseErrorKind::RuleFailed));
+    }
     parser.step_n(2)?;
 
     // Gather key wikitext
-- 
2.43.0


From 51cee2aed4aa22bb69a16b635c24d75dc6861af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 19/33] fix: report errors of an incomplete table row once

---
 src/parsing/rule/impls/table.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parsing/rule/impls/table.rs b/src/parsing/rule/impls/table.rs
index e0dd520..0ee5f69 100644
--- a/src/parsing/rule/impls/table.rs
+++ b/src/parsing/rule/impls/table.rs
@@ -52,6 +52,7 @@ fn try_consume_fn<'r, 't>(
         // To return to if this turns out not to be a row
         let mark = parser.shared_items_mark();
         let row_start = parser.clone();
+        let row_errors = errors.len();
 
         macro_rules! build_row {
             () => {
@@ -71,6 +72,7 @@ fn try_consume_fn<'r, 't>(
                     // At least one row was created, end it here,
                     // leaving the contents of the incomplete row.
                     parser.shared_items_rollback(mark);
+                    errors.truncate(row_errors);
                     parser.update(&row_start);
                     break 'table;
                 }
-- 
2.43.0


From 35390037f3a7bb4d161e41617ac04d5c80353559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:15 +0000
Subject: [PATCH 20/33] fix: format dates without a time or time zone instead
 of failing

---
 src/tree/date.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/tree/date.rs b/src/tree/date.rs
index 236574c..a3c44f3 100644
--- a/src/tree/date.rs
+++ b/src/tree/date.rs
@@ -64,13 +64,8 @@ impl DateItem {
     pub fn format(self) -> io::Result<String> {
         use time::error::Format;
 
-        let result = match self {
-            DateItem::Date(date) => date.format(&Rfc2822),
-            DateItem::DateTime(datetime) => datetime.format(&Rfc2822),
-            DateItem::DateTimeTz(datetime_tz) => datetime_tz.format(&Rfc2822),
-        };
-
-        result.map_err(|error| match error {
+        // RFC 2822 requires a time and an offset, so dates without them are taken as UTC.
+        self.to_datetime_tz().format(&Rfc2822).map_err(|error| match error {
             Format::StdIo(io_error) => io_error,
             _ => io::Error::new(io::ErrorKind::Other, error),
         })
-- 
2.43.0


From f4f25b400cc2d6e619ab231eeae089a2efd3023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:22 +0000
Subject: [PATCH 21/33] fix: blank out dates and equation references in
 invisible text

---
 src/render/text/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/render/text/context.rs b/src/render/text/context.rs
index c59039a..5b1aac1 100644
--- a/src/render/text/context.rs
+++ b/src/render/text/context.rs
@@ -266,6 +266,7 @@ where
 {
     #[inline]
     fn write_str(&mut self, s: &str) -> fmt::Result {
-        self.buffer().write_str(s)
+        self.push_str(s);
+        Ok(())
     }
 }
-- 
2.43.0


From a64d0f94afa625c87c858fa7aa2b8d40714a0bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:41 +0000
Subject: [PATCH 22/33] fix: reject a footnote block within a footnote

---
 src/parsing/rule/impls/block/blocks/footnote.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parsing/rule/impls/block/blocks/footnote.rs b/src/parsing/rule/impls/block/blocks/footnote.rs
index c1876cc..2557635 100644
--- a/src/parsing/rule/impls/block/blocks/footnote.rs
+++ b/src/parsing/rule/impls/block/blocks/footnote.rs
@@ -106,6 +106,11 @@ fn parse_footnote_block<'r, 't>(
     assert!(!flag_score, "Footnote block doesn't allow score flag");
     assert_block_name(&BLOCK_FOOTNOTE_BLOCK, name);
 
+    // A [[footnoteblock]] inside a [[footnote]] would have to contain itself.
+    if parser.in_footnote() {
+        return Err(parser.make_err(ParseErrorKind::FootnotesNested));
+    }
+
     // Parse arguments
     let mut arguments = parser.get_head_map(&BLOCK_FOOTNOTE_BLOCK, in_head)?;
 
-- 
2.43.0


From b9c6c58e19315cb9de6bb334ffbce62729ddcbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:06 +0000
Subject: [PATCH 23/33] fix: number headings and equations of footnotes and
 citations once

---
 src/render/html/context.rs              | 18 ++++++++++++++++++
 src/render/html/element/bibliography.rs |  6 +++++-
 src/render/html/element/container.rs    |  8 +++++++-
 src/render/html/element/footnotes.rs    |  2 ++
 src/render/html/element/math.rs         |  9 +++++++--
 5 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/render/html/context.rs b/src/render/html/context.rs
index ceab2af..ee9a0aa 100644
--- a/src/render/html/context.rs
+++ b/src/render/html/context.rs
@@ -81,6 +81,10 @@ where
     // Whether we are inside the tooltip of a bibliography citation
     //
     in_citation: bool,
+
+    // Whether we're rendering the contents of a footnote in a footnote block,
+    // which are a copy of those at the footnote itself.
+    in_footnote_block: bool,
 }
 
 impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
@@ -131,6 +135,7 @@ impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
             equation_index: NonZeroUsize::new(1).unwrap(),
             footnote_index: NonZeroUsize::new(1).unwrap(),
             in_citation: false,
+            in_footnote_block: false,
         }
     }
 
@@ -259,6 +264,19 @@ impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
         self.in_citation = value;
     }
 
+    #[inline]
+    pub fn set_in_footnote_block(&mut self, value: bool) {
+        self.in_footnote_block = value;
+    }
+
+    /// Whether what is being rendered is a copy of contents also rendered elsewhere.
+    ///
+    /// Items in copies are not numbered, since only the originals are.
+    #[inline]
+    pub fn in_copy(&self) -> bool {
+        self.in_citation || self.in_footnote_block
+    }
+
     pub fn next_footnote_index(&mut self) -> NonZeroUsize {
         let index = self.footnote_index;
         self.footnote_index = NonZeroUsize::new(index.get() + 1).unwrap();
diff --git a/src/render/html/element/bibliography.rs b/src/render/html/element/bibliography.rs
index 2ed3888..1df27bf 100644
--- a/src/render/html/element/bibliography.rs
+++ b/src/render/html/element/bibliography.rs
@@ -141,6 +141,7 @@ pub fn render_bibliography(
                 .attr(attr!("class" => "wj-bibliography-title title"))
                 .contents(title);
 
+            let has_id = !ctx.in_copy();
             let mut id = String::new();
             for (entry_index, (_, elements)) in bibliography.slice().iter().enumerate() {
                 // Convert to 1-indexing
@@ -161,7 +162,10 @@ pub fn render_bibliography(
                 // Make bibliography row
                 ctx.html()
                     .div()
-                    .attr(attr!("class" => "wj-bibliography-item bibitem", "id" => &id))
+                    .attr(attr!(
+                        "class" => "wj-bibliography-item bibitem",
+                        "id" => &id; if has_id,
+                    ))
                     .inner(|ctx| {
                         // Number and clickable anchor
                         ctx.html()
diff --git a/src/render/html/element/container.rs b/src/render/html/element/container.rs
index 8a688c7..5d4b315 100644
--- a/src/render/html/element/container.rs
+++ b/src/render/html/element/container.rs
@@ -41,7 +41,13 @@ pub fn render_container(ctx: &mut HtmlContext, container: &Container) {
 
 pub fn render_container_internal(ctx: &mut HtmlContext, container: &Container) {
     // Get HTML tag type for this type of container
-    let tag_spec = container.ctype().html_tag(ctx);
+    //
+    // Headings in copies are not those in the table of contents,
+    // and so they have no ID.
+    let tag_spec = match container.ctype() {
+        ContainerType::Header(heading) if ctx.in_copy() => heading.level.into(),
+        ctype => ctype.html_tag(ctx),
+    };
 
     // Get correct ID, based on the render setting
     let random_id = choose_id(ctx, &tag_spec);
diff --git a/src/render/html/element/footnotes.rs b/src/render/html/element/footnotes.rs
index 7272b37..234fdba 100644
--- a/src/render/html/element/footnotes.rs
+++ b/src/render/html/element/footnotes.rs
@@ -141,10 +141,12 @@ pub fn render_footnote_block(ctx: &mut HtmlContext, title: Option<&str>) {
                                 });
 
                             // Footnote contents
+                            ctx.set_in_footnote_block(true);
                             ctx.html()
                                 .span()
                                 .attr(attr!("class" => "wj-footnote-list-item-contents"))
                                 .contents(contents);
+                            ctx.set_in_footnote_block(false);
                         });
                 }
             });
diff --git a/src/render/html/element/math.rs b/src/render/html/element/math.rs
index 1fafb0b..6e9d40d 100644
--- a/src/render/html/element/math.rs
+++ b/src/render/html/element/math.rs
@@ -42,9 +42,14 @@ pub fn render_math_block(ctx: &mut HtmlContext, name: Option<&str>, latex_source
         latex_source,
     );
 
-    let index = ctx.next_equation_index();
+    // Only the original of an equation has a number.
+    let index = if ctx.in_copy() {
+        None
+    } else {
+        Some(ctx.next_equation_index())
+    };
 
-    render_latex(ctx, name, Some(index), latex_source, DisplayStyle::Block);
+    render_latex(ctx, name, index, latex_source, DisplayStyle::Block);
 }
 
 pub fn render_math_inline(ctx: &mut HtmlContext, latex_source: &str) {
-- 
2.43.0


From cd3100304bdd017823bfe02fc32859c795d13d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:44 +0000
Subject: [PATCH 24/33] fix: keep numbering items past hidden bibliographies

---
 src/render/html/context.rs     | 15 +++++++++++++++
 src/render/html/element/mod.rs | 12 +++++++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/render/html/context.rs b/src/render/html/context.rs
index ee9a0aa..cc31f1d 100644
--- a/src/render/html/context.rs
+++ b/src/render/html/context.rs
@@ -37,6 +37,7 @@ use crate::url::is_url;
 use std::borrow::Cow;
 use std::collections::HashMap;
 use std::fmt::{self, Write};
+use std::mem;
 use std::num::NonZeroUsize;
 
 #[derive(Debug)]
@@ -366,6 +367,20 @@ impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
         escape(self.buffer(), s);
     }
 
+    /// Renders something, but discards the output and the links in it.
+    ///
+    /// Only the numbering of items is kept.
+    pub fn discard<F>(&mut self, f: F)
+    where
+        F: FnOnce(&mut Self),
+    {
+        let body = mem::take(&mut self.body);
+        let backlinks = mem::take(&mut self.backlinks);
+        f(self);
+        self.body = body;
+        self.backlinks = backlinks;
+    }
+
     #[inline]
     pub fn html(&mut self) -> HtmlBuilder<'_, 'i, 'h, 'e, 't> {
         HtmlBuilder::new(self)
diff --git a/src/render/html/element/mod.rs b/src/render/html/element/mod.rs
index 4681c37..c74babd 100644
--- a/src/render/html/element/mod.rs
+++ b/src/render/html/element/mod.rs
@@ -169,9 +169,15 @@ pub fn render_element(ctx: &mut HtmlContext, element: &Element) {
             render_bibcite(ctx, label, *brackets)
         }
         Element::BibliographyBlock { index, title, hide } => {
-            if !hide {
-                let title = title.ref_map(|s| s.as_ref());
-                let bibliography = ctx.get_bibliography(*index);
+            let title = title.ref_map(|s| s.as_ref());
+            let bibliography = ctx.get_bibliography(*index);
+
+            if *hide {
+                // Items within it, such as footnotes, are still numbered.
+                ctx.discard(|ctx| {
+                    render_bibliography(ctx, title, *index, bibliography)
+                });
+            } else {
                 render_bibliography(ctx, title, *index, bibliography);
             }
         }
-- 
2.43.0


From 3e3e78ed70cd2b958af00f1120f8b800b3b80342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 25/33] fix: list bibliography entries with a label already in
 use

---
 src/tree/bibliography.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tree/bibliography.rs b/src/tree/bibliography.rs
index 57687ca..e19958c 100644
--- a/src/tree/bibliography.rs
+++ b/src/tree/bibliography.rs
@@ -39,13 +39,13 @@ impl<'t> Bibliography<'t> {
     }
 
     pub fn add(&mut self, label: Cow<'t, str>, elements: Vec<Element<'t>>) {
-        // If the reference already exists, it is *not* overwritten.
+        // If the reference already exists, it is *not* overwritten,
+        // but the new one is still listed, to not lose its contents.
         //
         // This maintains the invariant that the first reference with a given label,
         // across any bibliography, is the one which is used.
         if self.get(&label).is_some() {
             warn!("Duplicate reference in bibliography: {label}");
-            return;
         }
 
         self.0.push((label, elements));
-- 
2.43.0


From 03980d3400304814f682091ee9d142015531b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 26/33] fix: reject items to be gathered in bibliography labels

---
 .../rule/impls/block/blocks/bibliography.rs   | 51 ++++++++++++++++++-
 src/render/html/element/mod.rs                |  4 +-
 src/tree/date.rs                              | 10 ++--
 3 files changed, 56 insertions(+), 9 deletions(-)

diff --git a/src/parsing/rule/impls/block/blocks/bibliography.rs b/src/parsing/rule/impls/block/blocks/bibliography.rs
index d8fd8dd..0d0182b 100644
--- a/src/parsing/rule/impls/block/blocks/bibliography.rs
+++ b/src/parsing/rule/impls/block/blocks/bibliography.rs
@@ -19,7 +19,7 @@
  */
 
 use super::prelude::*;
-use crate::tree::{Bibliography, DefinitionListItem};
+use crate::tree::{Bibliography, DefinitionListItem, ListItem};
 
 pub const BLOCK_BIBLIOGRAPHY: BlockRule = BlockRule {
     name: "block-bibliography",
@@ -68,10 +68,20 @@ fn parse_fn<'r, 't>(
             Element::DefinitionList(items) => {
                 for DefinitionListItem {
                     key_string,
+                    key_elements,
                     value_elements,
-                    ..
                 } in items
                 {
+                    // Labels are not part of the tree, so if they contain items which
+                    // are gathered separately, these would lack their element.
+                    if has_gathered_items(&key_elements) {
+                        warn!("Received bibliography label with items to be gathered");
+
+                        return Err(parser.make_err(
+                            ParseErrorKind::BibliographyContainsNonDefinitionList,
+                        ));
+                    }
+
                     bibliography.add(key_string, value_elements);
                 }
             }
@@ -97,3 +107,40 @@ fn parse_fn<'r, 't>(
 
     ok!(Element::BibliographyBlock { index, title, hide }, errors)
 }
+
+/// Whether there is any element here whose contents are gathered by the parser.
+fn has_gathered_items(elements: &[Element]) -> bool {
+    elements.iter().any(|element| match element {
+        Element::Footnote
+        | Element::Code { .. }
+        | Element::Html { .. }
+        | Element::BibliographyBlock { .. } => true,
+        Element::Container(container) => {
+            matches!(container.ctype(), ContainerType::Header(_))
+                || has_gathered_items(container.elements())
+        }
+        Element::Anchor { elements, .. }
+        | Element::Collapsible { elements, .. }
+        | Element::Color { elements, .. }
+        | Element::Include { elements, .. } => has_gathered_items(elements),
+        Element::Table(table) => table
+            .rows
+            .iter()
+            .flat_map(|row| &row.cells)
+            .any(|cell| has_gathered_items(&cell.elements)),
+        Element::TabView(tabs) => {
+            tabs.iter().any(|tab| has_gathered_items(&tab.elements))
+        }
+        Element::List { items, .. } => items.iter().any(|item| match item {
+            ListItem::Elements { elements, .. } => has_gathered_items(elements),
+            ListItem::SubList { element } => {
+                has_gathered_items(std::slice::from_ref(element))
+            }
+        }),
+        Element::DefinitionList(items) => items.iter().any(|item| {
+            has_gathered_items(&item.key_elements)
+                || has_gathered_items(&item.value_elements)
+        }),
+        _ => false,
+    })
+}
diff --git a/src/render/html/element/mod.rs b/src/render/html/element/mod.rs
index c74babd..3d2ee8f 100644
--- a/src/render/html/element/mod.rs
+++ b/src/render/html/element/mod.rs
@@ -174,9 +174,7 @@ pub fn render_element(ctx: &mut HtmlContext, element: &Element) {
 
             if *hide {
                 // Items within it, such as footnotes, are still numbered.
-                ctx.discard(|ctx| {
-                    render_bibliography(ctx, title, *index, bibliography)
-                });
+                ctx.discard(|ctx| render_bibliography(ctx, title, *index, bibliography));
             } else {
                 render_bibliography(ctx, title, *index, bibliography);
             }
diff --git a/src/tree/date.rs b/src/tree/date.rs
index a3c44f3..cdd63cb 100644
--- a/src/tree/date.rs
+++ b/src/tree/date.rs
@@ -65,10 +65,12 @@ impl DateItem {
         use time::error::Format;
 
         // RFC 2822 requires a time and an offset, so dates without them are taken as UTC.
-        self.to_datetime_tz().format(&Rfc2822).map_err(|error| match error {
-            Format::StdIo(io_error) => io_error,
-            _ => io::Error::new(io::ErrorKind::Other, error),
-        })
+        self.to_datetime_tz()
+            .format(&Rfc2822)
+            .map_err(|error| match error {
+                Format::StdIo(io_error) => io_error,
+                _ => io::Error::new(io::ErrorKind::Other, error),
+            })
     }
 }
 
-- 
2.43.0


From c0ac0372ad8376587cb7b61355f2dba628356dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:54 +0000
Subject: [PATCH 27/33] fix: list a heading before those within it

---
 src/parsing/parser.rs            | 14 +++++++++++---
 src/parsing/rule/impls/header.rs |  6 +++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/parsing/parser.rs b/src/parsing/parser.rs
index 6d2a0e0..3d8dadf 100644
--- a/src/parsing/parser.rs
+++ b/src/parsing/parser.rs
@@ -242,9 +242,15 @@ impl<'r, 't> Parser<'r, 't> {
         }
     }
 
-    /// Add heading element to table of contents.
-    pub fn push_table_of_contents_entry(
+    /// How many headings are in the table of contents so far.
+    pub fn table_of_contents_len(&self) -> usize {
+        self.table_of_contents.borrow().len()
+    }
+
+    /// Add heading element to table of contents, at the given position.
+    pub fn insert_table_of_contents_entry(
         &mut self,
+        index: usize,
         heading: HeadingLevel,
         name_elements: &[Element],
     ) {
@@ -255,7 +261,9 @@ impl<'r, 't> Parser<'r, 't> {
         let name =
             TextRender.render_partial(name_elements, self.page_info, self.settings, 0);
 
-        self.table_of_contents.borrow_mut().push((level, name));
+        self.table_of_contents
+            .borrow_mut()
+            .insert(index, (level, name));
     }
 
     #[cold]
diff --git a/src/parsing/rule/impls/header.rs b/src/parsing/rule/impls/header.rs
index 6fabf84..32cc7ed 100644
--- a/src/parsing/rule/impls/header.rs
+++ b/src/parsing/rule/impls/header.rs
@@ -81,6 +81,10 @@ fn parse_header<'r, 't>(
         }};
     }
 
+    // A heading is listed before any headings within it,
+    // so remember where its entry goes.
+    let toc_index = parser.table_of_contents_len();
+
     // Get header depth
     let heading = step!(Token::Heading)
         .slice
@@ -114,7 +118,7 @@ fn parse_header<'r, 't>(
         };
 
         // Create table of contents entry with the given level and name.
-        parser.push_table_of_contents_entry(heading.level, elements);
+        parser.insert_table_of_contents_entry(toc_index, heading.level, elements);
     }
 
     ok!(false; elements, all_errors)
-- 
2.43.0


From 2f01f83d5ae7fe0ef8ccbd6cef4f59bede0c49c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:36 +0000
Subject: [PATCH 28/33] fix: reject blank site names in page references

---
 src/data/page_ref.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data/page_ref.rs b/src/data/page_ref.rs
index e4156cb..ce89b86 100644
--- a/src/data/page_ref.rs
+++ b/src/data/page_ref.rs
@@ -108,6 +108,11 @@ impl<'t> PageRef<'t> {
                 let site = s[1..idx].trim();
                 let page = s[idx + 1..].trim();
 
+                // Blank site name, e.g. ": :something"
+                if site.is_empty() {
+                    return Err(PageRefParseError);
+                }
+
                 PageRef::page_and_site(site, page)
             }
 
-- 
2.43.0


From e428d2d3d1e55776fa1c2cdd79a25feb6b50b32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 29/33] fix: leave includes within the arguments of another
 include alone

---
 src/includes/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/includes/mod.rs b/src/includes/mod.rs
index 4656265..019377b 100644
--- a/src/includes/mod.rs
+++ b/src/includes/mod.rs
@@ -41,6 +41,7 @@ use crate::settings::WikitextSettings;
 use crate::tree::VariableMap;
 use once_cell::sync::Lazy;
 use regex::{Regex, RegexBuilder};
+use std::ops::Range;
 
 static INCLUDE_REGEX: Lazy<Regex> = Lazy::new(|| {
     RegexBuilder::new(r"^\[\[\s*include\s+")
@@ -78,7 +79,7 @@ where
         input.len(),
     );
 
-    let mut ranges = Vec::new();
+    let mut ranges: Vec<Range<usize>> = Vec::new();
     let mut includes = Vec::new();
 
     // Get include references
@@ -91,6 +92,11 @@ where
             mtch.as_str(),
         );
 
+        // Within an argument of the previous include, and so a part of its text.
+        if ranges.last().is_some_and(|range| start < range.end) {
+            continue;
+        }
+
         match parse_include_block(input, start, settings) {
             Ok((include, end)) => {
                 ranges.push(start..end);
-- 
2.43.0


From 3974afd4092925aa88fbfa2709919ddad73e8d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:02 +0000
Subject: [PATCH 30/33] fix: recognise include fallbacks which are followed by
 whitespace

---
 src/includes/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/includes/parse.rs b/src/includes/parse.rs
index 6239e01..9995a47 100644
--- a/src/includes/parse.rs
+++ b/src/includes/parse.rs
@@ -127,7 +127,7 @@ fn process_pairs(mut pairs: Pairs<Rule>) -> Result<IncludeRef, IncludeParseError
         var_reference.clear();
         str_write!(var_reference, "{{${key}}}");
 
-        if !arguments.contains_key(key) && value != var_reference {
+        if !arguments.contains_key(key) && value.trim() != var_reference {
             let key = Cow::Borrowed(key);
             let value = Cow::Borrowed(value);
 
-- 
2.43.0


From 8b30abfa0701185408388bdefe23c6a025034dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:27 +0000
Subject: [PATCH 31/33] fix: do not put the blocks of a paragraph block into a
 paragraph again

---
 src/parsing/rule/impls/block/blocks/paragraph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parsing/rule/impls/block/blocks/paragraph.rs b/src/parsing/rule/impls/block/blocks/paragraph.rs
index 87c36a0..260cc5a 100644
--- a/src/parsing/rule/impls/block/blocks/paragraph.rs
+++ b/src/parsing/rule/impls/block/blocks/paragraph.rs
@@ -57,6 +57,8 @@ fn parse_fn<'r, 't>(
         }
     }
 
+    // Everything which belongs in a paragraph has been put into one above.
+    let paragraph_safe = elements.is_empty();
     let element = Elements::Multiple(elements);
-    ok!(element, errors)
+    ok!(paragraph_safe; element, errors)
 }
-- 
2.43.0


From e010fbfcb908e3dda3de1043d912b974d35e9349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:19 +0000
Subject: [PATCH 32/33] fix: NullIncluder answers for every page it is asked
 for

---
 src/includes/includer/null.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/includes/includer/null.rs b/src/includes/includer/null.rs
index ddaee09..a4ab2b3 100644
--- a/src/includes/includer/null.rs
+++ b/src/includes/includer/null.rs
@@ -31,9 +31,17 @@ impl<'t> Includer<'t> for NullIncluder {
     #[inline]
     fn include_pages(
         &mut self,
-        _includes: &[IncludeRef<'t>],
+        includes: &[IncludeRef<'t>],
     ) -> Result<Vec<FetchedPage<'t>>, Infallible> {
-        Ok(Vec::new())
+        let pages = includes
+            .iter()
+            .map(|include| FetchedPage {
+                page_ref: include.page_ref().clone(),
+                content: Some(Cow::Borrowed("")),
+            })
+            .collect();
+
+        Ok(pages)
     }
 
     #[inline]
-- 
2.43.0


From 46bbaffdbb0645b12a21033319fa52d16be2a153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:46 +0000
Subject: [PATCH 33/33] fix: do not accept time zone offsets of a day or more,
 which cannot be read back

---
 src/parsing/rule/impls/block/blocks/date.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parsing/rule/impls/block/blocks/date.rs b/src/parsing/rule/impls/block/blocks/date.rs
index 592d916..2ce24d7 100644
--- a/src/parsing/rule/impls/block/blocks/date.rs
+++ b/src/parsing/rule/impls/block/blocks/date.rs
@@ -211,6 +211,12 @@ fn now() -> OffsetDateTime {
 
 #[inline]
 fn get_offset(seconds: i32) -> Result<UtcOffset, DateParseError> {
+    // Offsets of a day or more are allowed by UtcOffset,
+    // but dates which have them cannot be read back.
+    if !(-86399..=86399).contains(&seconds) {
+        return Err(DateParseError);
+    }
+
     UtcOffset::from_whole_seconds(seconds).map_err(|_| DateParseError)
 }
 
-- 
2.43.0

