From 6a0078a31e5cea2d5531f5ca21de82520cae9d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 01/36] fix: accept an ordinary \u escape directly followed by
 a surrogate pair

---
 bluejay-parser/src/lexer/logos_lexer/string_lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs b/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs
index cb4575b..5a191a3 100644
--- a/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs
+++ b/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs
@@ -9,6 +9,7 @@ use std::borrow::Cow;
 #[derive(Logos, Debug)]
 #[logos(subpattern hexdigit = r"[0-9A-Fa-f]")]
 #[logos(subpattern fixedunicode = r"\\u[0-9A-Fa-f]{4}")]
+#[logos(subpattern surrogateunicode = r"\\u[Dd][89A-Fa-f][0-9A-Fa-f]{2}")]
 pub(super) enum Token<'a> {
     #[regex(r#"[^\\"\n\r]+"#)]
     SourceCharacters(&'a str),
@@ -17,7 +18,7 @@ pub(super) enum Token<'a> {
     FixedWidthEscapedUnicode(Option<char>),
 
     #[regex(
-        r"(?&fixedunicode)(?&fixedunicode)",
+        r"(?&surrogateunicode)(?&fixedunicode)",
         parse_surrogate_pair_escaped_unicode
     )]
     SurrogatePairEscapedUnicode(Result<(char, Option<char>), Span>),
-- 
2.43.0


From 72595363dcd0dbd2f81654df0c79b2ac576e4a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 02/36] fix: reject float literals that do not fit a finite
 64-bit float

---
 bluejay-parser/src/lexer/logos_lexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bluejay-parser/src/lexer/logos_lexer.rs b/bluejay-parser/src/lexer/logos_lexer.rs
index 9d8e1fa..2e24e71 100644
--- a/bluejay-parser/src/lexer/logos_lexer.rs
+++ b/bluejay-parser/src/lexer/logos_lexer.rs
@@ -119,7 +119,9 @@ fn parse_float<'a>(lexer: &mut logos::Lexer<'a, Token<'a>>) -> Result<f64, LexEr
         lexer
             .slice()
             .parse()
-            .map_err(|_| LexError::FloatValueTooLarge)
+            .ok()
+            .filter(|value: &f64| value.is_finite())
+            .ok_or(LexError::FloatValueTooLarge)
     })
 }
 
-- 
2.43.0


From ea214bebf06ee7e020d51aed8d76adf85810e4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 03/36] fix: report error locations by GraphQL line terminators
 only

---
 bluejay-parser/src/error/format_errors.rs | 75 ++++++-----------------
 1 file changed, 20 insertions(+), 55 deletions(-)

diff --git a/bluejay-parser/src/error/format_errors.rs b/bluejay-parser/src/error/format_errors.rs
index 3278f54..eae2812 100644
--- a/bluejay-parser/src/error/format_errors.rs
+++ b/bluejay-parser/src/error/format_errors.rs
@@ -1,68 +1,33 @@
-use ariadne::Source;
-
-struct Index {
-    byte: usize,
-    char: usize,
-}
-
-/// `ariadne` uses char indices, but `logos` uses byte indices.
-/// This struct converts byte indices to char indices.
-pub(crate) struct ByteIndexToCharIndex<'a> {
-    document: &'a str,
-    mapping: Vec<Index>,
-}
-
-impl<'a> ByteIndexToCharIndex<'a> {
-    pub(crate) fn new(document: &'a str) -> Self {
-        Self {
-            document,
-            mapping: vec![Index { byte: 0, char: 0 }],
-        }
-    }
-
-    pub(crate) fn convert(&mut self, byte_idx: usize) -> usize {
-        match self
-            .mapping
-            .binary_search_by_key(&byte_idx, |index| index.byte)
-        {
-            Ok(idx) => self.mapping[idx].char,
-            Err(idx) => {
-                let char_idx = self.mapping[idx - 1].char
-                    + self.document[self.mapping[idx - 1].byte..byte_idx]
-                        .chars()
-                        .count();
-                self.mapping.insert(
-                    idx,
-                    Index {
-                        byte: byte_idx,
-                        char: char_idx,
-                    },
-                );
-                char_idx
-            }
-        }
-    }
-}
-
+/// Converts byte spans to 1-based line and column numbers. Columns count characters, and lines
+/// end at the line terminators of the GraphQL grammar only: `\n`, `\r\n` and `\r`.
 pub struct SpanToLocation<'a> {
-    byte_idx_to_char_idx: ByteIndexToCharIndex<'a>,
-    source: Source<&'a str>,
+    document: &'a str,
+    line_starts: Vec<usize>,
 }
 
 impl<'a> SpanToLocation<'a> {
     pub fn new(s: &'a str) -> Self {
+        let bytes = s.as_bytes();
+        let line_starts = std::iter::once(0)
+            .chain((1..=bytes.len()).filter(|&idx| match bytes[idx - 1] {
+                b'\n' => true,
+                b'\r' => bytes.get(idx) != Some(&b'\n'),
+                _ => false,
+            }))
+            .collect();
         Self {
-            byte_idx_to_char_idx: ByteIndexToCharIndex::new(s),
-            source: Source::from(s),
+            document: s,
+            line_starts,
         }
     }
 
     pub fn convert(&mut self, span: &crate::Span) -> Option<(usize, usize)> {
-        let span = span.byte_range();
-        let start = self.byte_idx_to_char_idx.convert(span.start);
-        self.source
-            .get_offset_line(start)
-            .map(|(_, line, col)| (line + 1, col + 1))
+        let start = span.byte_range().start;
+        let line = self
+            .line_starts
+            .partition_point(|&line_start| line_start <= start);
+        let line_prefix = self.document.get(self.line_starts[line - 1]..start)?;
+        Some((line, line_prefix.chars().count() + 1))
     }
 }
 
-- 
2.43.0


From d09247ed85ded345d3e1f151aeb5c1748977beea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:12 +0000
Subject: [PATCH 04/36] fix: keep errors without annotations when converting to
 GraphQL errors

---
 bluejay-parser/src/error.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bluejay-parser/src/error.rs b/bluejay-parser/src/error.rs
index 265e6b3..190ca7d 100644
--- a/bluejay-parser/src/error.rs
+++ b/bluejay-parser/src/error.rs
@@ -64,6 +64,11 @@ impl Error {
                         message: primary_annotation.message,
                         locations: vec![Location { line, col }],
                     }))
+                } else if err.secondary_annotations.is_empty() {
+                    Either::Left(std::iter::once(GraphQLError {
+                        message: err.message,
+                        locations: Vec::new(),
+                    }))
                 } else {
                     Either::Right(err.secondary_annotations.into_iter().map(
                         |secondary_annotation| {
-- 
2.43.0


From 06c6325364baff8f36f3cd203d8c192f274b15bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:20 +0000
Subject: [PATCH 05/36] fix: add the introspection root fields to the actual
 query root only

---
 bluejay-parser/src/ast/definition/definition_document.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bluejay-parser/src/ast/definition/definition_document.rs b/bluejay-parser/src/ast/definition/definition_document.rs
index ae337c0..0ba6290 100644
--- a/bluejay-parser/src/ast/definition/definition_document.rs
+++ b/bluejay-parser/src/ast/definition/definition_document.rs
@@ -222,6 +222,8 @@ impl<'a, C: Context> DefinitionDocument<'a, C> {
     }
 
     fn add_query_root_fields(&mut self) {
+        let is_implicit = self.schema_definitions.is_empty();
+
         let explicit_query_roots: HashSet<&str> = HashSet::from_iter(
             self.schema_definitions
                 .iter()
@@ -239,7 +241,7 @@ impl<'a, C: Context> DefinitionDocument<'a, C> {
             .for_each(|type_definition| {
                 if let TypeDefinition::Object(otd) = type_definition {
                     let name = otd.name().as_ref();
-                    if name == "Query" || explicit_query_roots.contains(name) {
+                    if (is_implicit && name == "Query") || explicit_query_roots.contains(name) {
                         otd.add_query_root_fields();
                     }
                 }
-- 
2.43.0


From 685605c55e2ca13808598fca50edc74a0e120479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 06/36] fix: reject undefined directives applied to the schema
 definition

---
 .../src/ast/definition/definition_document.rs       | 11 +++++++++++
 .../ast/definition/explicit_schema_definition.rs    | 13 +++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/bluejay-parser/src/ast/definition/definition_document.rs b/bluejay-parser/src/ast/definition/definition_document.rs
index 0ba6290..b0a24fe 100644
--- a/bluejay-parser/src/ast/definition/definition_document.rs
+++ b/bluejay-parser/src/ast/definition/definition_document.rs
@@ -718,6 +718,17 @@ impl<'a, C: Context> TryFrom<&'a DefinitionDocument<'a, C>> for SchemaDefinition
             &mut errors,
         );
 
+        definition_document
+            .schema_definitions
+            .iter()
+            .for_each(|schema_definition| {
+                DefinitionDocument::resolve_directive_definitions(
+                    &indexed_directive_definitions,
+                    schema_definition,
+                    &mut errors,
+                )
+            });
+
         if !errors.is_empty() {
             return Err(errors);
         }
diff --git a/bluejay-parser/src/ast/definition/explicit_schema_definition.rs b/bluejay-parser/src/ast/definition/explicit_schema_definition.rs
index 0b59a90..2f783fc 100644
--- a/bluejay-parser/src/ast/definition/explicit_schema_definition.rs
+++ b/bluejay-parser/src/ast/definition/explicit_schema_definition.rs
@@ -4,6 +4,7 @@ use crate::ast::{
 };
 use crate::lexical_token::{Name, PunctuatorType, StringValue};
 use crate::Span;
+use bluejay_core::definition::HasDirectives;
 use bluejay_core::OperationType;
 use std::str::FromStr;
 
@@ -27,10 +28,6 @@ impl<'a, C: Context> ExplicitSchemaDefinition<'a, C> {
         &self.root_operation_type_definitions
     }
 
-    pub(crate) fn directives(&self) -> Option<&Directives<'a, C>> {
-        self.directives.as_ref()
-    }
-
     pub(crate) fn schema_identifier_span(&self) -> &Span {
         &self.schema_identifier_span
     }
@@ -40,6 +37,14 @@ impl<'a, C: Context> ExplicitSchemaDefinition<'a, C> {
     }
 }
 
+impl<'a, C: Context> HasDirectives for ExplicitSchemaDefinition<'a, C> {
+    type Directives = Directives<'a, C>;
+
+    fn directives(&self) -> Option<&Self::Directives> {
+        self.directives.as_ref()
+    }
+}
+
 impl<'a, C: Context> FromTokens<'a> for ExplicitSchemaDefinition<'a, C> {
     fn from_tokens(tokens: &mut impl Tokens<'a>) -> Result<Self, ParseError> {
         let description = tokens.next_if_string_value();
-- 
2.43.0


From b2e2b15029bbfe933cfb6f8da4b2810b5c49c646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:25 +0000
Subject: [PATCH 07/36] fix: print floats exactly

---
 bluejay-printer/src/value.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/bluejay-printer/src/value.rs b/bluejay-printer/src/value.rs
index 26a2ae3..240e944 100644
--- a/bluejay-printer/src/value.rs
+++ b/bluejay-printer/src/value.rs
@@ -20,13 +20,8 @@ impl<'a, const CONST: bool, V: Value<CONST>> Display for ValuePrinter<'a, CONST,
         match value.as_ref() {
             ValueReference::Boolean(b) => write!(f, "{}", b),
             ValueReference::Enum(e) => write!(f, "{}", e),
-            ValueReference::Float(fl) => {
-                if fl.fract().abs() < 1e-10 {
-                    write!(f, "{fl:.1}")
-                } else {
-                    write!(f, "{fl}")
-                }
-            }
+            // the debug representation is exact, and always has a fractional or exponent part
+            ValueReference::Float(fl) => write!(f, "{fl:?}"),
             ValueReference::Integer(i) => write!(f, "{}", i),
             ValueReference::List(l) => {
                 write!(f, "[")?;
-- 
2.43.0


From 3a8c68cabe84ba699bc8a1899a3a03f92fee1372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:25 +0000
Subject: [PATCH 08/36] fix: print the directives of fragment definitions

---
 bluejay-printer/src/executable/fragment_definition.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bluejay-printer/src/executable/fragment_definition.rs b/bluejay-printer/src/executable/fragment_definition.rs
index f5542b7..e331233 100644
--- a/bluejay-printer/src/executable/fragment_definition.rs
+++ b/bluejay-printer/src/executable/fragment_definition.rs
@@ -1,4 +1,4 @@
-use crate::executable::SelectionSetPrinter;
+use crate::{directive::DirectivesPrinter, executable::SelectionSetPrinter};
 use bluejay_core::executable::FragmentDefinition;
 use std::fmt::{Display, Formatter, Result};
 
@@ -21,9 +21,16 @@ impl<'a, T: FragmentDefinition> Display for FragmentDefinitionPrinter<'a, T> {
         } = *self;
         write!(
             f,
-            "fragment {} on {} {}",
+            "fragment {} on {}",
             fragment_definition.name(),
             fragment_definition.type_condition(),
+        )?;
+        if let Some(directives) = fragment_definition.directives() {
+            write!(f, "{}", DirectivesPrinter::new(directives))?;
+        }
+        write!(
+            f,
+            " {}",
             SelectionSetPrinter::new(fragment_definition.selection_set(), 0),
         )
     }
-- 
2.43.0


From 0f2f528cb298cdb97f4d4c88b1d455d2cf6d0bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:25 +0000
Subject: [PATCH 09/36] fix: print the schema definition when a non-root type
 is named like a root type

---
 bluejay-printer/src/definition/schema_definition.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bluejay-printer/src/definition/schema_definition.rs b/bluejay-printer/src/definition/schema_definition.rs
index 570fdfd..aa0a753 100644
--- a/bluejay-printer/src/definition/schema_definition.rs
+++ b/bluejay-printer/src/definition/schema_definition.rs
@@ -36,11 +36,15 @@ impl<'a, S: SchemaDefinition> SchemaDefinitionPrinter<'a, S> {
             && schema_definition
                 .mutation()
                 .map(|mutation| mutation.name() == "Mutation")
-                .unwrap_or(true)
+                .unwrap_or_else(|| schema_definition.get_type_definition("Mutation").is_none())
             && schema_definition
                 .subscription()
                 .map(|subscription| subscription.name() == "Subscription")
-                .unwrap_or(true)
+                .unwrap_or_else(|| {
+                    schema_definition
+                        .get_type_definition("Subscription")
+                        .is_none()
+                })
             && schema_definition
                 .directives()
                 .map(AsIter::is_empty)
-- 
2.43.0


From cc6c2d1b11086e1994dfba095460bd9261f33b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:25 +0000
Subject: [PATCH 10/36] fix: print descriptions that block strings cannot
 represent as strings

---
 bluejay-printer/src/string_value.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/bluejay-printer/src/string_value.rs b/bluejay-printer/src/string_value.rs
index a5aba3f..36f72e9 100644
--- a/bluejay-printer/src/string_value.rs
+++ b/bluejay-printer/src/string_value.rs
@@ -35,12 +35,35 @@ impl<'a> BlockStringValuePrinter<'a> {
     pub(crate) fn new(value: &'a str, indentation: usize) -> Self {
         Self { value, indentation }
     }
+
+    /// Whether the value can be recovered from its block string representation, from which
+    /// leading and trailing blank lines and common indentation are removed, and in which
+    /// all line terminators are equivalent
+    fn is_representable(value: &str) -> bool {
+        let is_blank = |line: &str| line.chars().all(|c| matches!(c, ' ' | '\t'));
+        let mut lines = value.split('\n');
+        let first = lines.next().unwrap_or_default();
+        let last = lines.next_back().unwrap_or(first);
+
+        value.is_empty()
+            || (!value.contains('\r')
+                && !is_blank(first)
+                && !is_blank(last)
+                && value
+                    .split('\n')
+                    .any(|line| !is_blank(line) && !line.starts_with([' ', '\t'])))
+    }
 }
 
 impl<'a> Display for BlockStringValuePrinter<'a> {
     fn fmt(&self, f: &mut Formatter<'_>) -> Result {
         let Self { value, indentation } = *self;
         write_indent(f, indentation)?;
+
+        if !Self::is_representable(value) {
+            return writeln!(f, "{}", StringValuePrinter::new(value));
+        }
+
         writeln!(f, "\"\"\"")?;
 
         let escaped = value.replace("\"\"\"", "\\\"\"\"");
-- 
2.43.0


From 9b42ef88701567f97abef50a1640d5ebbe2e3871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:00 +0000
Subject: [PATCH 11/36] fix: judge fragment selections against the fragment's
 own type when merging

---
 .../src/executable/document/rules/field_selection_merging.rs    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
index 939ba56..41fe9fc 100644
--- a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
+++ b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
@@ -299,7 +299,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                         {
                             if self.selection_set_valid(
                                 fragment_definition.selection_set(),
-                                parent_type,
+                                scoped_type,
                             ) {
                                 let mut new_parent_fragments = HashSet::new();
                                 new_parent_fragments.clone_from(parent_fragments);
-- 
2.43.0


From 4fac622bb006795e8ac4afea67fba6eacc71fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:27 +0000
Subject: [PATCH 12/36] fix: compare selections on union types when merging
 fields

---
 .../src/executable/document/rules/field_selection_merging.rs   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
index 41fe9fc..d0569df 100644
--- a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
+++ b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
@@ -151,7 +151,8 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                             .entry(otd.name())
                             .or_default()
                             .push(field_context),
-                        TypeDefinitionReference::Interface(_) => abstract_group.push(field_context),
+                        TypeDefinitionReference::Interface(_)
+                        | TypeDefinitionReference::Union(_) => abstract_group.push(field_context),
                         _ => {}
                     }
                     (abstract_group, concrete_groups)
-- 
2.43.0


From 9799c5762b87b42856d0c45eb8d2b76aaa6c132b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:31 +0000
Subject: [PATCH 13/36] fix: check variables used in objects within lists

---
 .../document/rules/all_variable_usages_allowed.rs    | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs b/bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs
index f5de1fa..3189e63 100644
--- a/bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs
+++ b/bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs
@@ -84,13 +84,11 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> AllVariableUsagesAllowed<'a
                 }
             }),
             ValueReference::Object(o) => o.iter().for_each(|(key, value)| {
-                if let Some(ivd) = location.input_value_definition() {
-                    if let BaseInputTypeReference::InputObject(iotd) =
-                        ivd.r#type().base(self.schema_definition)
-                    {
-                        if let Some(ivd) = iotd.input_field_definitions().get(key.as_ref()) {
-                            self.visit_value(value, root, VariableUsageLocation::ObjectField(ivd));
-                        }
+                if let BaseInputTypeReference::InputObject(iotd) =
+                    location.r#type().base(self.schema_definition)
+                {
+                    if let Some(ivd) = iotd.input_field_definitions().get(key.as_ref()) {
+                        self.visit_value(value, root, VariableUsageLocation::ObjectField(ivd));
                     }
                 }
             }),
-- 
2.43.0


From aef26d96ced35766ac96dd61c562efa142c8b94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:44 +0000
Subject: [PATCH 14/36] fix: count the response fields of a subscription
 through all fragments

---
 ...ubscription_operation_single_root_field.rs | 67 +++++++++++++------
 1 file changed, 48 insertions(+), 19 deletions(-)

diff --git a/bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs b/bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs
index d1093fb..191f639 100644
--- a/bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs
+++ b/bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs
@@ -4,10 +4,11 @@ use crate::executable::{
 };
 use bluejay_core::definition::SchemaDefinition;
 use bluejay_core::executable::{
-    ExecutableDocument, FragmentDefinition, FragmentSpread, InlineFragment, OperationDefinition,
-    Selection, SelectionReference,
+    ExecutableDocument, Field, FragmentDefinition, FragmentSpread, InlineFragment,
+    OperationDefinition, Selection, SelectionReference,
 };
 use bluejay_core::{AsIter, OperationType};
+use std::collections::HashSet;
 
 pub struct SubscriptionOperationSingleRootField<'a, E: ExecutableDocument> {
     invalid_operation_definitions: Vec<&'a E::OperationDefinition>,
@@ -32,29 +33,57 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> Visitor<'a, E, S>
         ) {
             return;
         }
-        let selection_set = core_operation_definition.selection_set();
-        if selection_set.len() != 1 {
+        let mut response_names = HashSet::new();
+        Self::collect_response_names(
+            self.executable_document,
+            core_operation_definition.selection_set(),
+            &mut response_names,
+            &mut HashSet::new(),
+        );
+        if response_names.len() > 1 {
             self.invalid_operation_definitions
                 .push(operation_definition);
-        } else if let Some(first_selection) = selection_set.iter().next() {
-            let fields_count = match first_selection.as_ref() {
-                SelectionReference::Field(_) => Some(1),
+        }
+    }
+}
+
+impl<'a, E: ExecutableDocument> SubscriptionOperationSingleRootField<'a, E> {
+    fn collect_response_names(
+        executable_document: &'a E,
+        selection_set: &'a E::SelectionSet,
+        response_names: &mut HashSet<&'a str>,
+        visited_fragment_names: &mut HashSet<&'a str>,
+    ) {
+        selection_set
+            .iter()
+            .for_each(|selection| match selection.as_ref() {
+                SelectionReference::Field(field) => {
+                    response_names.insert(field.response_name());
+                }
                 SelectionReference::FragmentSpread(fs) => {
-                    let fragment_definition = self
-                        .executable_document
-                        .fragment_definitions()
-                        .find(|fd| fd.name() == fs.name());
-                    fragment_definition.map(|fd| fd.selection_set().len())
+                    if visited_fragment_names.insert(fs.name()) {
+                        if let Some(fragment_definition) = executable_document
+                            .fragment_definitions()
+                            .find(|fd| fd.name() == fs.name())
+                        {
+                            Self::collect_response_names(
+                                executable_document,
+                                fragment_definition.selection_set(),
+                                response_names,
+                                visited_fragment_names,
+                            );
+                        }
+                    }
                 }
                 SelectionReference::InlineFragment(inline_fragment) => {
-                    Some(inline_fragment.selection_set().len())
+                    Self::collect_response_names(
+                        executable_document,
+                        inline_fragment.selection_set(),
+                        response_names,
+                        visited_fragment_names,
+                    );
                 }
-            };
-            if matches!(fields_count, Some(fc) if fc != 1) {
-                self.invalid_operation_definitions
-                    .push(operation_definition);
-            }
-        }
+            });
     }
 }
 
-- 
2.43.0


From 4be5efbf6563ba90c53f4fd4b5badb74fa297517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:34 +0000
Subject: [PATCH 15/36] fix: find the default of the variable, not of the
 argument, in InputSize

---
 .../src/executable/operation/analyzers/input_size.rs            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bluejay-validator/src/executable/operation/analyzers/input_size.rs b/bluejay-validator/src/executable/operation/analyzers/input_size.rs
index d288a17..1a1c15f 100644
--- a/bluejay-validator/src/executable/operation/analyzers/input_size.rs
+++ b/bluejay-validator/src/executable/operation/analyzers/input_size.rs
@@ -128,7 +128,7 @@ fn find_input_size_offenders_arguments<
                 let variable_definition = variable_definitions.map(|variable_definitions| {
                     variable_definitions
                         .iter()
-                        .find(|def| def.variable() == argument_name)
+                        .find(|def| def.variable() == name)
                 });
                 if let Some(Some(var_def)) = variable_definition {
                     let default_value = var_def.default_value();
-- 
2.43.0


From 59397847b8845cc2b060d32c9698187d48e7fe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:34 +0000
Subject: [PATCH 16/36] fix: visit the arguments of directives on fragment
 definitions when analyzing operations

---
 bluejay-validator/src/executable/operation/orchestrator.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bluejay-validator/src/executable/operation/orchestrator.rs b/bluejay-validator/src/executable/operation/orchestrator.rs
index 1456195..182317a 100644
--- a/bluejay-validator/src/executable/operation/orchestrator.rs
+++ b/bluejay-validator/src/executable/operation/orchestrator.rs
@@ -275,6 +275,13 @@ impl<
             if let Some(fragment_definition) =
                 self.cache.fragment_definition(fragment_spread.name())
             {
+                if let Some(directives) = fragment_definition.directives() {
+                    self.visit_variable_directives(
+                        directives,
+                        DirectiveLocation::FragmentDefinition,
+                    );
+                }
+
                 if let Some(type_condition) = self
                     .schema_definition
                     .get_type_definition(fragment_definition.type_condition())
-- 
2.43.0


From a6e119a17114adc7b8c1fdbc02aebbb58ac8c085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:50 +0000
Subject: [PATCH 17/36] fix: list the definitions of directives applied to the
 schema definition in restricted schemas

The visibility visitor collected the directives applied to types and their
members but not those on the schema definition itself, so a directive that
can only be applied to SCHEMA was missing from directive_definitions() and
from the printed SDL, which then referred to an undefined directive.
---
 bluejay-visibility/src/schema_definition.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bluejay-visibility/src/schema_definition.rs b/bluejay-visibility/src/schema_definition.rs
index a937691..602a48a 100644
--- a/bluejay-visibility/src/schema_definition.rs
+++ b/bluejay-visibility/src/schema_definition.rs
@@ -291,6 +291,8 @@ impl<'a, 'b, S: definition::SchemaDefinition, W: Warden<SchemaDefinition = S>>
                 }
             });
 
+        instance.visit_directives(schema_definition.directives());
+
         instance.visit_type_definition(TypeDefinitionReference::Object(schema_definition.query));
 
         if let Some(mutation) = schema_definition.mutation {
@@ -407,7 +409,7 @@ impl<'a, 'b, S: definition::SchemaDefinition, W: Warden<SchemaDefinition = S>>
             })
     }
 
-    fn visit_directives(&mut self, directives: Option<&'a Directives<'a, S, W>>) {
+    fn visit_directives(&mut self, directives: Option<&Directives<'a, S, W>>) {
         if let Some(directives) = directives {
             directives.iter().for_each(|directive| {
                 // if this is `None` it means that the schema is invalid, but that is not the responsibility of this visitor
-- 
2.43.0


From ca232d44f92640880f2ac643e6297f23f9a1495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:57 +0000
Subject: [PATCH 18/36] fix: report directives added to and removed from input
 fields

---
 bluejay-schema-comparator/src/diff/input_field.rs       | 7 ++-----
 bluejay-schema-comparator/src/diff/input_object_type.rs | 9 ++-------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/bluejay-schema-comparator/src/diff/input_field.rs b/bluejay-schema-comparator/src/diff/input_field.rs
index 2e2606a..2d71c03 100644
--- a/bluejay-schema-comparator/src/diff/input_field.rs
+++ b/bluejay-schema-comparator/src/diff/input_field.rs
@@ -7,7 +7,6 @@ use bluejay_core::Value;
 
 pub struct InputFieldDiff<'a, S: SchemaDefinition> {
     old_type_definition: &'a S::InputObjectTypeDefinition,
-    new_type_definition: &'a S::InputObjectTypeDefinition,
     old_field_definition: &'a S::InputValueDefinition,
     new_field_definition: &'a S::InputValueDefinition,
 }
@@ -15,13 +14,11 @@ pub struct InputFieldDiff<'a, S: SchemaDefinition> {
 impl<'a, S: SchemaDefinition + 'a> InputFieldDiff<'a, S> {
     pub fn new(
         old_type_definition: &'a S::InputObjectTypeDefinition,
-        new_type_definition: &'a S::InputObjectTypeDefinition,
         old_field_definition: &'a S::InputValueDefinition,
         new_field_definition: &'a S::InputValueDefinition,
     ) -> Self {
         Self {
             old_type_definition,
-            new_type_definition,
             old_field_definition,
             new_field_definition,
         }
@@ -79,7 +76,7 @@ impl<'a, S: SchemaDefinition + 'a> InputFieldDiff<'a, S> {
         }
 
         changes.extend(
-            directive_additions::<S, _>(self.old_type_definition, self.new_type_definition).map(
+            directive_additions::<S, _>(self.old_field_definition, self.new_field_definition).map(
                 |directive| Change::DirectiveAdded {
                     directive,
                     location: DirectiveLocation::InputFieldDefinition,
@@ -89,7 +86,7 @@ impl<'a, S: SchemaDefinition + 'a> InputFieldDiff<'a, S> {
         );
 
         changes.extend(
-            directive_removals::<S, _>(self.old_type_definition, self.new_type_definition).map(
+            directive_removals::<S, _>(self.old_field_definition, self.new_field_definition).map(
                 |directive| Change::DirectiveRemoved {
                     directive,
                     location: DirectiveLocation::InputFieldDefinition,
diff --git a/bluejay-schema-comparator/src/diff/input_object_type.rs b/bluejay-schema-comparator/src/diff/input_object_type.rs
index 79e5c46..5daa0f7 100644
--- a/bluejay-schema-comparator/src/diff/input_object_type.rs
+++ b/bluejay-schema-comparator/src/diff/input_object_type.rs
@@ -72,13 +72,8 @@ impl<'a, S: SchemaDefinition + 'a> InputObjectTypeDiff<'a, S> {
 
                     if let Some(new_field) = new_field {
                         changes.extend(
-                            InputFieldDiff::new(
-                                self.old_type_definition,
-                                self.new_type_definition,
-                                old_field,
-                                new_field,
-                            )
-                            .diff(),
+                            InputFieldDiff::new(self.old_type_definition, old_field, new_field)
+                                .diff(),
                         );
                     }
                 },
-- 
2.43.0


From 2e8192d652076a2e70bda61d66ad3feaac89dfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:57 +0000
Subject: [PATCH 19/36] fix: report arguments added to directive definitions
 without any and removal of all arguments

---
 bluejay-schema-comparator/src/diff/directive_definition.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bluejay-schema-comparator/src/diff/directive_definition.rs b/bluejay-schema-comparator/src/diff/directive_definition.rs
index c99d6ff..e96562b 100644
--- a/bluejay-schema-comparator/src/diff/directive_definition.rs
+++ b/bluejay-schema-comparator/src/diff/directive_definition.rs
@@ -126,7 +126,7 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDefinitionDiff<'a, S> {
             .filter(|old_argument| {
                 self.new_directive_definition
                     .arguments_definition()
-                    .map_or(false, |args| {
+                    .map_or(true, |args| {
                         !args
                             .iter()
                             .any(|new_argument| old_argument.name() == new_argument.name())
@@ -143,7 +143,7 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDefinitionDiff<'a, S> {
             .filter(|new_argument| {
                 self.old_directive_definition
                     .arguments_definition()
-                    .map_or(false, |args| {
+                    .map_or(true, |args| {
                         !args
                             .iter()
                             .any(|old_argument| old_argument.name() == new_argument.name())
-- 
2.43.0


From 00fc914beae82fdbb5b4863d4014722496c34d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:57 +0000
Subject: [PATCH 20/36] fix: compare repeated directives use by use, and report
 removal of all arguments of a directive

---
 .../src/diff/directive.rs                     | 87 +++++++++++--------
 1 file changed, 51 insertions(+), 36 deletions(-)

diff --git a/bluejay-schema-comparator/src/diff/directive.rs b/bluejay-schema-comparator/src/diff/directive.rs
index d17bda3..4db3bb4 100644
--- a/bluejay-schema-comparator/src/diff/directive.rs
+++ b/bluejay-schema-comparator/src/diff/directive.rs
@@ -1,6 +1,7 @@
 use crate::changes::Change;
 use bluejay_core::definition::{HasDirectives, SchemaDefinition};
 use bluejay_core::{Argument, Arguments, AsIter, Directive, Value};
+use std::collections::HashMap;
 
 pub type ArgumentForDirective<S> =
     <<<S as SchemaDefinition>::Directive as Directive<true>>::Arguments as Arguments<
@@ -91,33 +92,65 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDiff<'a, S> {
             .into_iter()
             .flatten()
             .filter(|old_arg| {
-                self.new_directive.arguments().map_or(false, |args| {
+                self.new_directive.arguments().map_or(true, |args| {
                     !args.iter().any(|new_arg| old_arg.name() == new_arg.name())
                 })
             })
     }
 }
 
-pub fn directive_additions<
+/// Pairs each directive with the directive of the same name applied to the other member. When a
+/// directive is applied repeatedly, the nth use of it is paired with the nth use of it.
+fn paired_directives<
     'a,
     S: SchemaDefinition + 'a,
     T: HasDirectives<Directives = <S as SchemaDefinition>::Directives>,
 >(
-    old_member: &'a T,
-    new_member: &'a T,
+    member: &'a T,
+    other_member: &'a T,
+) -> impl Iterator<
+    Item = (
+        &'a <S as SchemaDefinition>::Directive,
+        Option<&'a <S as SchemaDefinition>::Directive>,
+    ),
+> {
+    let mut occurrences: HashMap<&'a str, usize> = HashMap::new();
+
+    directives::<S, T>(member).map(move |directive| {
+        let occurrence = occurrences.entry(directive.name()).or_default();
+        let other_directive = directives::<S, T>(other_member)
+            .filter(|other_directive| other_directive.name() == directive.name())
+            .nth(*occurrence);
+        *occurrence += 1;
+        (directive, other_directive)
+    })
+}
+
+fn directives<
+    'a,
+    S: SchemaDefinition + 'a,
+    T: HasDirectives<Directives = <S as SchemaDefinition>::Directives>,
+>(
+    member: &'a T,
 ) -> impl Iterator<Item = &'a <S as SchemaDefinition>::Directive> {
-    new_member
+    member
         .directives()
         .map(|ii| ii.iter())
         .into_iter()
         .flatten()
-        .filter(|new_directive| {
-            old_member.directives().map_or(true, |directives| {
-                !directives
-                    .iter()
-                    .any(|old_directive| old_directive.name() == new_directive.name())
-            })
-        })
+}
+
+pub fn directive_additions<
+    'a,
+    S: SchemaDefinition + 'a,
+    T: HasDirectives<Directives = <S as SchemaDefinition>::Directives>,
+>(
+    old_member: &'a T,
+    new_member: &'a T,
+) -> impl Iterator<Item = &'a <S as SchemaDefinition>::Directive> {
+    paired_directives::<S, T>(new_member, old_member)
+        .filter(|(_, old_directive)| old_directive.is_none())
+        .map(|(new_directive, _)| new_directive)
 }
 
 pub fn directive_removals<
@@ -128,18 +161,9 @@ pub fn directive_removals<
     old_member: &'a T,
     new_member: &'a T,
 ) -> impl Iterator<Item = &'a <S as SchemaDefinition>::Directive> {
-    old_member
-        .directives()
-        .map(|ii| ii.iter())
-        .into_iter()
-        .flatten()
-        .filter(|old_directive| {
-            new_member.directives().map_or(true, |directives| {
-                !directives
-                    .iter()
-                    .any(|new_directive| old_directive.name() == new_directive.name())
-            })
-        })
+    paired_directives::<S, T>(old_member, new_member)
+        .filter(|(_, new_directive)| new_directive.is_none())
+        .map(|(old_directive, _)| old_directive)
 }
 
 pub fn common_directive_changes<
@@ -150,18 +174,9 @@ pub fn common_directive_changes<
     old_member: &'a T,
     new_member: &'a T,
 ) -> impl Iterator<Item = Change<'a, S>> {
-    old_member
-        .directives()
-        .map(|ii| ii.iter())
-        .into_iter()
-        .flatten()
-        .filter_map(move |old_directive| {
-            new_member
-                .directives()
-                .map(|ii| ii.iter())
-                .into_iter()
-                .flatten()
-                .find(|new_directive| old_directive.name() == new_directive.name())
+    paired_directives::<S, T>(old_member, new_member)
+        .filter_map(|(old_directive, new_directive)| {
+            new_directive
                 .map(|new_directive| DirectiveDiff::new(old_directive, new_directive).diff())
         })
         .flat_map(|changes| changes.into_iter())
-- 
2.43.0


From af0e8f8a6300843712355583f432030503e0d8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:11 +0000
Subject: [PATCH 21/36] fix: compare directives of scalars and of directive
 arguments, and arguments of directives of the schema

---
 bluejay-schema-comparator/src/diff.rs         |  1 +
 .../src/diff/directive_definition_argument.rs | 28 +++++++++-
 .../src/diff/scalar_type.rs                   | 51 +++++++++++++++++++
 bluejay-schema-comparator/src/diff/schema.rs  | 18 +++++--
 4 files changed, 92 insertions(+), 6 deletions(-)
 create mode 100644 bluejay-schema-comparator/src/diff/scalar_type.rs

diff --git a/bluejay-schema-comparator/src/diff.rs b/bluejay-schema-comparator/src/diff.rs
index d0b0a34..77d7945 100644
--- a/bluejay-schema-comparator/src/diff.rs
+++ b/bluejay-schema-comparator/src/diff.rs
@@ -9,6 +9,7 @@ mod input_field;
 mod input_object_type;
 mod interface_type;
 mod object_type;
+mod scalar_type;
 mod schema;
 mod union_type;
 
diff --git a/bluejay-schema-comparator/src/diff/directive_definition_argument.rs b/bluejay-schema-comparator/src/diff/directive_definition_argument.rs
index d60e75c..95edd03 100644
--- a/bluejay-schema-comparator/src/diff/directive_definition_argument.rs
+++ b/bluejay-schema-comparator/src/diff/directive_definition_argument.rs
@@ -1,5 +1,8 @@
 use crate::changes::Change;
-use bluejay_core::definition::{InputType, InputValueDefinition, SchemaDefinition};
+use crate::diff::directive::{common_directive_changes, directive_additions, directive_removals};
+use bluejay_core::definition::{
+    DirectiveLocation, InputType, InputValueDefinition, SchemaDefinition,
+};
 use bluejay_core::Value;
 
 pub struct DirectiveDefinitionArgumentDiff<'a, S: SchemaDefinition> {
@@ -66,6 +69,29 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDefinitionArgumentDiff<'a, S> {
             _ => {}
         }
 
+        changes.extend(
+            directive_additions::<S, _>(self.old_argument_definition, self.new_argument_definition)
+                .map(|directive| Change::DirectiveAdded {
+                    directive,
+                    location: DirectiveLocation::ArgumentDefinition,
+                    member_name: self.old_argument_definition.name(),
+                }),
+        );
+
+        changes.extend(
+            directive_removals::<S, _>(self.old_argument_definition, self.new_argument_definition)
+                .map(|directive| Change::DirectiveRemoved {
+                    directive,
+                    location: DirectiveLocation::ArgumentDefinition,
+                    member_name: self.old_argument_definition.name(),
+                }),
+        );
+
+        changes.extend(common_directive_changes(
+            self.old_argument_definition,
+            self.new_argument_definition,
+        ));
+
         changes
     }
 }
diff --git a/bluejay-schema-comparator/src/diff/scalar_type.rs b/bluejay-schema-comparator/src/diff/scalar_type.rs
new file mode 100644
index 0000000..bfd10df
--- /dev/null
+++ b/bluejay-schema-comparator/src/diff/scalar_type.rs
@@ -0,0 +1,51 @@
+use crate::changes::Change;
+use crate::diff::directive::{common_directive_changes, directive_additions, directive_removals};
+use bluejay_core::definition::{DirectiveLocation, ScalarTypeDefinition, SchemaDefinition};
+
+pub struct ScalarTypeDiff<'a, S: SchemaDefinition> {
+    old_type_definition: &'a S::CustomScalarTypeDefinition,
+    new_type_definition: &'a S::CustomScalarTypeDefinition,
+}
+
+impl<'a, S: SchemaDefinition + 'a> ScalarTypeDiff<'a, S> {
+    pub fn new(
+        old_type_definition: &'a S::CustomScalarTypeDefinition,
+        new_type_definition: &'a S::CustomScalarTypeDefinition,
+    ) -> Self {
+        Self {
+            old_type_definition,
+            new_type_definition,
+        }
+    }
+
+    pub fn diff(&self) -> Vec<Change<'a, S>> {
+        let mut changes = Vec::new();
+
+        changes.extend(
+            directive_additions::<S, _>(self.old_type_definition, self.new_type_definition).map(
+                |directive| Change::DirectiveAdded {
+                    directive,
+                    location: DirectiveLocation::Scalar,
+                    member_name: self.old_type_definition.name(),
+                },
+            ),
+        );
+
+        changes.extend(
+            directive_removals::<S, _>(self.old_type_definition, self.new_type_definition).map(
+                |directive| Change::DirectiveRemoved {
+                    directive,
+                    location: DirectiveLocation::Scalar,
+                    member_name: self.old_type_definition.name(),
+                },
+            ),
+        );
+
+        changes.extend(common_directive_changes(
+            self.old_type_definition,
+            self.new_type_definition,
+        ));
+
+        changes
+    }
+}
diff --git a/bluejay-schema-comparator/src/diff/schema.rs b/bluejay-schema-comparator/src/diff/schema.rs
index df2e272..95ba499 100644
--- a/bluejay-schema-comparator/src/diff/schema.rs
+++ b/bluejay-schema-comparator/src/diff/schema.rs
@@ -1,10 +1,11 @@
 use crate::changes::Change;
-use crate::diff::directive::{directive_additions, directive_removals};
+use crate::diff::directive::{common_directive_changes, directive_additions, directive_removals};
 use crate::diff::directive_definition::DirectiveDefinitionDiff;
 use crate::diff::enum_type::EnumTypeDiff;
 use crate::diff::input_object_type::InputObjectTypeDiff;
 use crate::diff::interface_type::InterfaceTypeDiff;
 use crate::diff::object_type::ObjectTypeDiff;
+use crate::diff::scalar_type::ScalarTypeDiff;
 use crate::diff::union_type::UnionTypeDiff;
 use bluejay_core::definition::{
     DirectiveDefinition as _, DirectiveLocation, SchemaDefinition, TypeDefinitionReference,
@@ -82,6 +83,11 @@ impl<'a, S: SchemaDefinition> SchemaDiff<'a, S> {
                 }),
         );
 
+        changes.extend(common_directive_changes(
+            self.old_schema_definition,
+            self.new_schema_definition,
+        ));
+
         self.old_schema_definition
             .directive_definitions()
             .for_each(|old_directive| {
@@ -136,11 +142,13 @@ impl<'a, S: SchemaDefinition> SchemaDiff<'a, S> {
             (
                 TypeDefinitionReference::BuiltinScalar(_),
                 TypeDefinitionReference::BuiltinScalar(_),
-            )
-            | (
-                TypeDefinitionReference::CustomScalar(_),
-                TypeDefinitionReference::CustomScalar(_),
             ) => {}
+            (
+                TypeDefinitionReference::CustomScalar(old_type),
+                TypeDefinitionReference::CustomScalar(new_type),
+            ) => {
+                changes.extend(ScalarTypeDiff::new(old_type, new_type).diff());
+            }
             _ => {
                 changes.push(Change::TypeKindChanged {
                     old_type_definition: old_type,
-- 
2.43.0


From 3983f05055a7bc68db1adf40601318b664740e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:11 +0000
Subject: [PATCH 22/36] fix: adding @oneOf to an input type is a breaking
 change

---
 bluejay-schema-comparator/src/changes.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bluejay-schema-comparator/src/changes.rs b/bluejay-schema-comparator/src/changes.rs
index bcb0507..0d80335 100644
--- a/bluejay-schema-comparator/src/changes.rs
+++ b/bluejay-schema-comparator/src/changes.rs
@@ -384,6 +384,9 @@ impl<'a, S: SchemaDefinition> Change<'a, S> {
             Self::DirectiveDefinitionArgumentDefaultValueChanged { .. } => {
                 Criticality::dangerous(Some(Cow::from("Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.")))
             },
+            Self::DirectiveAdded { location: DirectiveLocation::InputObject, directive, .. } if directive.name() == "oneOf" => {
+                Criticality::breaking(Some(Cow::from("Adding @oneOf to an input type will cause existing queries that do not provide exactly one of its fields to error.")))
+            },
             Self::DirectiveAdded { .. } => {
                 Criticality::safe(None)
             },
-- 
2.43.0


From 3d9f1ba667dfc4a804c00498533a0a61b17567d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:46 +0000
Subject: [PATCH 23/36] fix: name the location of directives added to and
 removed from enums

---
 bluejay-schema-comparator/src/changes.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bluejay-schema-comparator/src/changes.rs b/bluejay-schema-comparator/src/changes.rs
index 0d80335..7dfda3e 100644
--- a/bluejay-schema-comparator/src/changes.rs
+++ b/bluejay-schema-comparator/src/changes.rs
@@ -1189,6 +1189,7 @@ fn is_change_safe_for_input_value<S: SchemaDefinition>(
 fn directive_location_name(location: &DirectiveLocation) -> &'static str {
     match location {
         DirectiveLocation::ArgumentDefinition => "argument",
+        DirectiveLocation::Enum => "enum",
         DirectiveLocation::EnumValue => "enum value",
         DirectiveLocation::FieldDefinition => "field",
         DirectiveLocation::InputFieldDefinition => "input field",
-- 
2.43.0


From 83a7c102bf547b6ba70a88c993603afcd61fc646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:07 +0000
Subject: [PATCH 24/36] fix: typegen panics on names that cannot be Rust
 identifiers

---
 bluejay-typegen-macro/src/names.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/bluejay-typegen-macro/src/names.rs b/bluejay-typegen-macro/src/names.rs
index 46f07ab..23db433 100644
--- a/bluejay-typegen-macro/src/names.rs
+++ b/bluejay-typegen-macro/src/names.rs
@@ -38,14 +38,19 @@ pub(crate) fn module_ident(graphql_name: &str) -> Ident {
 
 fn to_ident(name: &str) -> Ident {
     match name {
-        "as" | "break" | "const" | "continue" | "crate" | "else" | "enum" | "extern" | "false"
-        | "fn" | "for" | "if" | "impl" | "in" | "let" | "loop" | "match" | "mod" | "move"
-        | "mut" | "pub" | "ref" | "return" | "self" | "Self" | "static" | "struct" | "super"
-        | "trait" | "true" | "type" | "unsafe" | "use" | "where" | "while" | "async" | "await"
-        | "dyn" | "abstract" | "become" | "box" | "do" | "final" | "macro" | "override"
-        | "priv" | "typeof" | "unsized" | "virtual" | "yield" | "try" | "union" => {
+        // these cannot be used as raw identifiers
+        "crate" | "self" | "Self" | "super" => format_ident!("{}_", name),
+        "as" | "break" | "const" | "continue" | "else" | "enum" | "extern" | "false" | "fn"
+        | "for" | "if" | "impl" | "in" | "let" | "loop" | "match" | "mod" | "move" | "mut"
+        | "pub" | "ref" | "return" | "static" | "struct" | "trait" | "true" | "type" | "unsafe"
+        | "use" | "where" | "while" | "async" | "await" | "dyn" | "abstract" | "become" | "box"
+        | "do" | "final" | "macro" | "override" | "priv" | "typeof" | "unsized" | "virtual"
+        | "yield" | "try" | "union" => {
             format_ident!("r#{}", name)
         }
+        // changing the case of a name drops its underscores, so what remains may not be an identifier
+        "" => format_ident!("__"),
+        _ if name.starts_with(|c: char| c.is_ascii_digit()) => format_ident!("_{}", name),
         _ => format_ident!("{}", name),
     }
 }
-- 
2.43.0


From 86c91151ebd55a237ff5b1042087c04e7fb221fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:23 +0000
Subject: [PATCH 25/36] fix: typegen's miniserde code clashes with user names
 like out, k and FooBuilder

---
 .../executable_definition/executable_enum_builder.rs   | 10 +++++-----
 .../executable_definition/executable_struct_builder.rs |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs
index 5cf04a6..f59d15c 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs
@@ -135,8 +135,8 @@ impl<'a, S: SchemaDefinition> ExecutableEnumBuilder<'a, S> {
     fn miniserde_deserialize_impl(&self) -> Option<syn::Item> {
         (self.config.codec() == Codec::Miniserde).then(|| {
             let name_ident = self.name_ident();
-            let builder_ident = format_ident!("{}Builder", name_ident);
-            let builder_state_ident = format_ident!("{}BuilderState", name_ident);
+            let builder_ident = format_ident!("__{}Builder", name_ident);
+            let builder_state_ident = format_ident!("__{}BuilderState", name_ident);
 
             let variant_builders = self.variant_builders();
 
@@ -204,7 +204,7 @@ impl<'a, S: SchemaDefinition> ExecutableEnumBuilder<'a, S> {
 
                     parse_quote! {
                         #builder_state_ident::#variant_ident { #(#field_idents,)* } => {
-                            match k {
+                            match __k {
                                 #(#field_serialized_as => ::std::result::Result::Ok(::bluejay_typegen::miniserde::de::Deserialize::begin(#field_idents)),)*
                                 _ => ::std::result::Result::Err(::bluejay_typegen::miniserde::Error)
                             }
@@ -283,12 +283,12 @@ impl<'a, S: SchemaDefinition> ExecutableEnumBuilder<'a, S> {
                     }
 
                     impl<'a> ::bluejay_typegen::miniserde::de::Map for #builder_ident<'a> {
-                        fn key(&mut self, k: &::std::primitive::str) -> ::bluejay_typegen::miniserde::Result<&mut dyn ::bluejay_typegen::miniserde::de::Visitor> {
+                        fn key(&mut self, __k: &::std::primitive::str) -> ::bluejay_typegen::miniserde::Result<&mut dyn ::bluejay_typegen::miniserde::de::Visitor> {
                             if let ::std::option::Option::Some(ref mut state) = self.state {
                                 match state {
                                     #(#state_key_arm,)*
                                 }
-                            } else if k == "__typename" {
+                            } else if __k == "__typename" {
                                 ::std::result::Result::Ok(::bluejay_typegen::miniserde::de::Deserialize::begin(&mut self.state))
                             } else {
                                 ::std::result::Result::Err(::bluejay_typegen::miniserde::Error)
diff --git a/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs
index 0d4b231..1759035 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs
@@ -114,7 +114,7 @@ impl<'a, S: SchemaDefinition> ExecutableStructBuilder<'a, S> {
     fn miniserde_deserialize_impl(&self) -> Option<syn::Item> {
         (self.config.codec() == Codec::Miniserde).then(|| {
             let name_ident = self.name_ident();
-            let builder_ident = format_ident!("{}Builder", name_ident);
+            let builder_ident = format_ident!("__{}Builder", name_ident);
 
             let field_builders = self.field_builders();
 
@@ -140,7 +140,7 @@ impl<'a, S: SchemaDefinition> ExecutableStructBuilder<'a, S> {
 
                     struct #builder_ident<'a> {
                         #(#builder_fields,)*
-                        out: &'a mut ::std::option::Option<#name_ident>,
+                        __out: &'a mut ::std::option::Option<#name_ident>,
                     }
 
                     impl<'a> ::bluejay_typegen::miniserde::de::Map for #builder_ident<'a> {
@@ -153,7 +153,7 @@ impl<'a, S: SchemaDefinition> ExecutableStructBuilder<'a, S> {
 
                         fn finish(&mut self) -> ::bluejay_typegen::miniserde::Result<()> {
                             #(let #field_idents = self.#field_idents.take().ok_or(::bluejay_typegen::miniserde::Error)?;)*
-                            *self.out = ::std::option::Option::Some(#name_ident { #(#field_idents,)* });
+                            *self.__out = ::std::option::Option::Some(#name_ident { #(#field_idents,)* });
                             ::std::result::Result::Ok(())
                         }
                     }
@@ -162,7 +162,7 @@ impl<'a, S: SchemaDefinition> ExecutableStructBuilder<'a, S> {
                         fn map(&mut self) -> ::bluejay_typegen::miniserde::Result<::std::boxed::Box<dyn ::bluejay_typegen::miniserde::de::Map + '_>> {
                             ::std::result::Result::Ok(::std::boxed::Box::new(#builder_ident {
                                 #(#field_idents: ::std::option::Option::None,)*
-                                out: &mut self.out,
+                                __out: &mut self.out,
                             }))
                         }
                     }
-- 
2.43.0


From 922515b7f2d2ba68ad8fff62c0b4cfc4d27a67b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:50 +0000
Subject: [PATCH 26/36] fix: typegen cannot read a union whose inline fragment
 selects __typename

---
 .../src/executable_definition/intermediate_representation.rs    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs b/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
index e5e9168..a0b6e05 100644
--- a/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
+++ b/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
@@ -460,6 +460,8 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> ExecutableDocumentToExecuta
                                     fields: inline_fragment
                                         .selection_set()
                                         .iter()
+                                        // the variant itself is what `__typename` says
+                                        .filter(|selection| !matches!(selection.as_ref(), SelectionReference::Field(field) if field.response_name() == "__typename"))
                                         .map(|selection| match selection.as_ref() {
                                             SelectionReference::Field(field) => {
                                                 self.build_field(
-- 
2.43.0


From 74fb0b197d14579a4b44307c1587f43911f762df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:05 +0000
Subject: [PATCH 27/36] fix: typegen generates no type for an operation or
 fragment that is a single fragment spread

---
 .../executable_field_builder.rs                    |  2 +-
 .../executable_type_builder.rs                     | 14 ++++++++++++++
 .../intermediate_representation.rs                 | 12 ++++++++++--
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/bluejay-typegen-macro/src/executable_definition/executable_field_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_field_builder.rs
index a979225..e384d2c 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_field_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_field_builder.rs
@@ -110,7 +110,7 @@ impl<'a, S: SchemaDefinition> ExecutableFieldBuilder<'a, S> {
                 ExecutableType::BuiltinScalar { bstd, .. } => {
                     builtin_scalar_type(*bstd, self.config)
                 }
-                ExecutableType::FragmentDefinitionReference { name, borrows } => {
+                ExecutableType::FragmentDefinitionReference { name, borrows, .. } => {
                     let prefix = self.prefix_for_executable_document_module();
                     let type_ident = type_ident(name);
                     let lifetime: Option<syn::Generics> = borrows.then(|| parse_quote! { <'a> });
diff --git a/bluejay-typegen-macro/src/executable_definition/executable_type_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_type_builder.rs
index 49b55d7..50d7bc8 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_type_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_type_builder.rs
@@ -1,8 +1,10 @@
 use crate::{
     executable_definition::{ExecutableEnumBuilder, ExecutableStructBuilder, ExecutableType},
+    names::type_ident,
     Config,
 };
 use bluejay_core::definition::SchemaDefinition;
+use syn::parse_quote;
 
 pub(crate) struct ExecutableTypeBuilder;
 
@@ -15,6 +17,18 @@ impl ExecutableTypeBuilder {
         match executable_type {
             ExecutableType::Struct(es) => ExecutableStructBuilder::build(es, config, depth),
             ExecutableType::Enum(ee) => ExecutableEnumBuilder::build(ee, config, depth),
+            // an operation or fragment that consists of a fragment spread only is that fragment's type,
+            // nested uses refer to the fragment's type directly
+            ExecutableType::FragmentDefinitionReference {
+                parent_name,
+                name,
+                borrows,
+            } if depth == 0 && type_ident(parent_name) != type_ident(name) => {
+                let name_ident = type_ident(parent_name);
+                let fragment_ident = type_ident(name);
+                let lifetime: Option<syn::Generics> = borrows.then(|| parse_quote! { <'a> });
+                vec![parse_quote! { pub type #name_ident #lifetime = #fragment_ident #lifetime; }]
+            }
             ExecutableType::FragmentDefinitionReference { .. }
             | ExecutableType::Leaf { .. }
             | ExecutableType::BuiltinScalar { .. } => Vec::new(),
diff --git a/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs b/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
index a0b6e05..9d3ce7c 100644
--- a/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
+++ b/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
@@ -23,7 +23,12 @@ pub(crate) enum ExecutableType<'a> {
     /// A selection set that contains only a single named fragment spread
     /// Note: the `borrows` field may incorrectly be false during construction, but
     /// will be updated later
-    FragmentDefinitionReference { name: &'a str, borrows: bool },
+    FragmentDefinitionReference {
+        /// name of either the operation, fragment, or field that owns the selection set
+        parent_name: &'a str,
+        name: &'a str,
+        borrows: bool,
+    },
     BuiltinScalar {
         bstd: BuiltinScalarDefinition,
         borrows: bool,
@@ -67,7 +72,7 @@ impl<'a> ExecutableType<'a> {
                     });
                 });
             }
-            Self::FragmentDefinitionReference { name, borrows } => {
+            Self::FragmentDefinitionReference { name, borrows, .. } => {
                 *borrows = fragment_definitions_contains_reference_types[name];
             }
             Self::Leaf { .. } | Self::BuiltinScalar { .. } => {}
@@ -408,6 +413,7 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> ExecutableDocumentToExecuta
                         })
                     }
                     Either::Right(fragment_spread) => ExecutableType::FragmentDefinitionReference {
+                        parent_name,
                         name: fragment_spread.name(),
                         borrows: false, // will get updated later
                     },
@@ -435,6 +441,7 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> ExecutableDocumentToExecuta
                         })
                     }
                     Either::Right(fragment_spread) => ExecutableType::FragmentDefinitionReference {
+                        parent_name,
                         name: fragment_spread.name(),
                         borrows: false, // will get updated later
                     },
@@ -482,6 +489,7 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> ExecutableDocumentToExecuta
                         })
                     }
                     Either::Right(fragment_spread) => ExecutableType::FragmentDefinitionReference {
+                        parent_name,
                         name: fragment_spread.name(),
                         borrows: false, // will get updated later
                     },
-- 
2.43.0


From 59e60439fd07fdc6171d3655befcc06f6e261394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:56 +0000
Subject: [PATCH 28/36] fix: typegen accepts a fragment spread on a union that
 does not apply to every member

---
 bluejay-typegen-macro/src/validation/error.rs | 11 +++++
 .../src/validation/selections_are_valid.rs    | 49 +++++++++++++++++--
 2 files changed, 56 insertions(+), 4 deletions(-)

diff --git a/bluejay-typegen-macro/src/validation/error.rs b/bluejay-typegen-macro/src/validation/error.rs
index 57d5634..60bb22d 100644
--- a/bluejay-typegen-macro/src/validation/error.rs
+++ b/bluejay-typegen-macro/src/validation/error.rs
@@ -37,6 +37,9 @@ pub(crate) enum Error<'a, E: ExecutableDocument, S: SchemaDefinition> {
     FragmentSpreadOnInterfaceInvalidTarget {
         fragment_spread: &'a E::FragmentSpread,
     },
+    FragmentSpreadOnUnionInvalidTarget {
+        fragment_spread: &'a E::FragmentSpread,
+    },
     FragmentAndOperationNamesClash {
         operation_definition: &'a E::OperationDefinition,
         fragment_definition: &'a E::FragmentDefinition,
@@ -127,6 +130,14 @@ impl<'a, S: SchemaDefinition> From<Error<'a, ParserExecutableDocument<'a>, S>> f
                 )),
                 Vec::new(),
             ),
+            Error::FragmentSpreadOnUnionInvalidTarget { fragment_spread } => Self::new(
+                format!("{CRATE_NAME} requires fragment spreads on unions to target the union or a type that includes all of its member types"),
+                Some(Annotation::new(
+                    "Fragment spread on union type",
+                    fragment_spread.span().clone(),
+                )),
+                Vec::new(),
+            ),
             Error::FragmentAndOperationNamesClash { operation_definition, fragment_definition } => Self::new(
                 format!("{CRATE_NAME} requires fragment and operation names to be unique, but encountered a clash with name `{}`", fragment_definition.name().as_ref()),
                 Some(Annotation::new(
diff --git a/bluejay-typegen-macro/src/validation/selections_are_valid.rs b/bluejay-typegen-macro/src/validation/selections_are_valid.rs
index cb7d7e3..f492dea 100644
--- a/bluejay-typegen-macro/src/validation/selections_are_valid.rs
+++ b/bluejay-typegen-macro/src/validation/selections_are_valid.rs
@@ -1,8 +1,8 @@
 use crate::validation::Error;
 use bluejay_core::{
     definition::{
-        InterfaceImplementation, InterfaceTypeDefinition, SchemaDefinition,
-        TypeDefinitionReference, UnionMemberTypes, UnionTypeDefinition,
+        InterfaceImplementation, InterfaceTypeDefinition, ObjectTypeDefinition, SchemaDefinition,
+        TypeDefinitionReference, UnionMemberType, UnionMemberTypes, UnionTypeDefinition,
     },
     executable::{
         ExecutableDocument, Field, FragmentDefinition, FragmentSpread, InlineFragment, Selection,
@@ -18,15 +18,17 @@ use itertools::{Either, Itertools};
 
 pub(crate) struct SelectionsAreValid<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> {
     errors: Vec<Error<'a, E, S>>,
+    schema_definition: &'a S,
     cache: &'a Cache<'a, E, S>,
 }
 
 impl<'a, E: ExecutableDocument, S: SchemaDefinition> Visitor<'a, E, S>
     for SelectionsAreValid<'a, E, S>
 {
-    fn new(_: &'a E, _: &'a S, cache: &'a Cache<'a, E, S>) -> Self {
+    fn new(_: &'a E, schema_definition: &'a S, cache: &'a Cache<'a, E, S>) -> Self {
         Self {
             errors: Vec::new(),
+            schema_definition,
             cache,
         }
     }
@@ -148,7 +150,13 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> SelectionsAreValid<'a, E, S
         union_type_definition: &'a S::UnionTypeDefinition,
     ) {
         match self.isolated_fragment_spread(selection_set) {
-            Ok(Some(_)) => {
+            Ok(Some(fragment_spread)) => {
+                // As for interfaces, the generated type assumes that the fragment spread is always present.
+                // Therefore, the fragment must apply to each of the union's member types.
+                if !self.always_applies(fragment_spread, union_type_definition) {
+                    self.errors
+                        .push(Error::FragmentSpreadOnUnionInvalidTarget { fragment_spread });
+                }
                 return;
             }
             Ok(None) => {}
@@ -212,6 +220,39 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> SelectionsAreValid<'a, E, S
         );
     }
 
+    fn always_applies(
+        &self,
+        fragment_spread: &'a E::FragmentSpread,
+        union_type_definition: &'a S::UnionTypeDefinition,
+    ) -> bool {
+        let fragment_definition = self
+            .cache
+            .fragment_definition(fragment_spread.name())
+            .unwrap();
+        let target_type = self
+            .schema_definition
+            .get_type_definition(fragment_definition.type_condition());
+
+        union_type_definition
+            .union_member_types()
+            .iter()
+            .all(|member| match target_type {
+                Some(TypeDefinitionReference::Object(otd)) => otd.name() == member.name(),
+                Some(TypeDefinitionReference::Union(utd)) => {
+                    utd.union_member_types().contains_type(member.name())
+                }
+                Some(TypeDefinitionReference::Interface(itd)) => member
+                    .member_type(self.schema_definition)
+                    .interface_implementations()
+                    .map_or(false, |interface_implementations| {
+                        interface_implementations
+                            .iter()
+                            .any(|implementation| implementation.name() == itd.name())
+                    }),
+                _ => false,
+            })
+    }
+
     /// Returns a 2-tuple
     /// - first element: an option including a field if that field is the first selection in the set and is named `__typename` without an alias
     /// - second element: a vector of all other fields in the selection set
-- 
2.43.0


From 9f12ae973bca1ddb501a3a3e6b87606960ca5e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:23 +0000
Subject: [PATCH 29/36] fix: typegen's types cannot read a response whose field
 was left out by @skip or @include

---
 .../executable_enum_builder.rs                    |  2 +-
 .../executable_struct_builder.rs                  |  2 +-
 .../intermediate_representation.rs                | 15 ++++++++++++++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs
index f59d15c..59c4742 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs
@@ -174,7 +174,7 @@ impl<'a, S: SchemaDefinition> ExecutableEnumBuilder<'a, S> {
 
                     parse_quote! {
                         #serialized_as => {
-                            self.out = ::std::option::Option::Some(#builder_state_ident::#name_ident { #(#field_idents: ::std::option::Option::None,)* });
+                            self.out = ::std::option::Option::Some(#builder_state_ident::#name_ident { #(#field_idents: ::bluejay_typegen::miniserde::de::Deserialize::default(),)* });
                             ::std::result::Result::Ok(())
                         }
                     }
diff --git a/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs
index 1759035..c459e2d 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs
@@ -161,7 +161,7 @@ impl<'a, S: SchemaDefinition> ExecutableStructBuilder<'a, S> {
                     impl ::bluejay_typegen::miniserde::de::Visitor for __Place<#name_ident> {
                         fn map(&mut self) -> ::bluejay_typegen::miniserde::Result<::std::boxed::Box<dyn ::bluejay_typegen::miniserde::de::Map + '_>> {
                             ::std::result::Result::Ok(::std::boxed::Box::new(#builder_ident {
-                                #(#field_idents: ::std::option::Option::None,)*
+                                #(#field_idents: ::bluejay_typegen::miniserde::de::Deserialize::default(),)*
                                 __out: &mut self.out,
                             }))
                         }
diff --git a/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs b/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
index 9d3ce7c..4bf4789 100644
--- a/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
+++ b/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
@@ -9,7 +9,7 @@ use bluejay_core::{
         ExecutableDocument, Field, FragmentDefinition, FragmentSpread, InlineFragment,
         OperationDefinition, Selection, SelectionReference,
     },
-    AsIter, BuiltinScalarDefinition, OperationType,
+    AsIter, BuiltinScalarDefinition, Directive, OperationType,
 };
 use itertools::Either;
 use std::collections::{BTreeMap, HashMap, HashSet};
@@ -334,6 +334,19 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> ExecutableDocumentToExecuta
                 .as_ref(self.config.schema_definition()),
         );
 
+        // the response does not contain a field that is skipped
+        let skippable = field.directives().map_or(false, |directives| {
+            directives
+                .iter()
+                .any(|directive| matches!(directive.name(), "skip" | "include"))
+        });
+        let r#type = match r#type {
+            WrappedExecutableType::Base(_) | WrappedExecutableType::Vec(_) if skippable => {
+                WrappedExecutableType::Optional(Box::new(r#type))
+            }
+            _ => r#type,
+        };
+
         ExecutableField {
             description: field_definition.description(),
             graphql_name: field.response_name(),
-- 
2.43.0


From 2df33566ffebc249ef2dc59e56d7ad0332e99172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:59 +0000
Subject: [PATCH 30/36] fix: typegen's inputs send null for a non-null field
 that has a default

---
 .../src/input_object_type_definition.rs       | 38 +++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/bluejay-typegen-macro/src/input_object_type_definition.rs b/bluejay-typegen-macro/src/input_object_type_definition.rs
index 2ba045a..c895290 100644
--- a/bluejay-typegen-macro/src/input_object_type_definition.rs
+++ b/bluejay-typegen-macro/src/input_object_type_definition.rs
@@ -77,6 +77,7 @@ impl<'a, S: SchemaDefinition> InputObjectTypeDefinitionBuilder<'a, S> {
         let field_type_paths = self.field_type_paths();
         let field_serde_rename_attributes = self.field_serde_rename_attributes();
         let field_serde_borrow_attributes = self.field_serde_borrow_attributes();
+        let field_serde_skip_attributes = self.field_serde_skip_attributes();
         let lifetime = self.lifetime(self.input_object_type_definition);
 
         let mut items = vec![parse_quote! {
@@ -86,6 +87,7 @@ impl<'a, S: SchemaDefinition> InputObjectTypeDefinitionBuilder<'a, S> {
                     #field_description_attributes
                     #field_serde_rename_attributes
                     #field_serde_borrow_attributes
+                    #field_serde_skip_attributes
                     pub #field_idents: #field_type_paths,
                 )*
             }
@@ -194,6 +196,32 @@ impl<'a, S: SchemaDefinition> InputObjectTypeDefinitionBuilder<'a, S> {
             .collect()
     }
 
+    /// Whether the field has to be left out to use its default value, because `null` is not a valid value for it
+    fn fields_omitted_when_none(&self) -> Vec<bool> {
+        self.input_object_type_definition
+            .input_field_definitions()
+            .iter()
+            .map(|ivd| {
+                ivd.default_value().is_some()
+                    && ivd
+                        .r#type()
+                        .as_ref(self.config.schema_definition())
+                        .is_required()
+            })
+            .collect()
+    }
+
+    fn field_serde_skip_attributes(&self) -> Vec<Option<syn::Attribute>> {
+        self.fields_omitted_when_none()
+            .into_iter()
+            .map(|omitted_when_none| {
+                (omitted_when_none && self.config.codec() == Codec::Serde).then(
+                    || parse_quote!(#[serde(skip_serializing_if = "::std::option::Option::is_none")]),
+                )
+            })
+            .collect()
+    }
+
     fn field_serde_borrow_attributes(&self) -> Vec<Option<syn::Attribute>> {
         self.input_object_type_definition
             .input_field_definitions()
@@ -404,6 +432,15 @@ impl<'a, S: SchemaDefinition> InputObjectTypeDefinitionBuilder<'a, S> {
             let field_idents = self.field_idents();
             let serialized_as = self.field_serialized_as();
             let states = (0..self.field_idents().len()).collect::<Vec<_>>();
+            let omitted_states = self
+                .fields_omitted_when_none()
+                .into_iter()
+                .zip(states.iter().zip(&field_idents))
+                .filter(|(omitted_when_none, _)| *omitted_when_none)
+                .map(|(_, (state, field_ident))| -> syn::Arm {
+                    parse_quote! { #state if ::std::option::Option::is_none(&self.data.#field_ident) => self.next(), }
+                })
+                .collect::<Vec<_>>();
 
             parse_quote! {
                 const _: () = {
@@ -417,6 +454,7 @@ impl<'a, S: SchemaDefinition> InputObjectTypeDefinitionBuilder<'a, S> {
                             let state = self.state;
                             self.state += 1;
                             match state {
+                                #(#omitted_states)*
                                 #(
                                     #states => ::std::option::Option::Some((
                                         ::std::borrow::Cow::Borrowed(#serialized_as),
-- 
2.43.0


From a3add78c159d6834f0e9b6cb9a91c69a0d183285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:05 +0000
Subject: [PATCH 31/36] fix: visit each fragment once per target when looking
 for spread cycles

The set of visited fragments was copied for every path, so a few dozen
fragments that each spread the next one twice took exponential time.
---
 .../rules/fragment_spreads_must_not_form_cycles.rs     | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bluejay-validator/src/executable/document/rules/fragment_spreads_must_not_form_cycles.rs b/bluejay-validator/src/executable/document/rules/fragment_spreads_must_not_form_cycles.rs
index c174667..965584d 100644
--- a/bluejay-validator/src/executable/document/rules/fragment_spreads_must_not_form_cycles.rs
+++ b/bluejay-validator/src/executable/document/rules/fragment_spreads_must_not_form_cycles.rs
@@ -22,14 +22,12 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> FragmentSpreadsMustNotFormC
         >,
         target: &'a E::FragmentDefinition,
         fragment_definition_name: &'a str,
-        visited_fragment_definitions: &HashSet<&'a str>,
+        visited_fragment_definitions: &mut HashSet<&'a str>,
     ) -> Option<Error<'a, E, S>> {
-        if visited_fragment_definitions.contains(fragment_definition_name) {
+        if !visited_fragment_definitions.insert(fragment_definition_name) {
             return None;
         }
         if let Some((_, spreads)) = spreads_by_fragment_definition.get(fragment_definition_name) {
-            let mut visited_fragment_definitions = visited_fragment_definitions.clone();
-            visited_fragment_definitions.insert(fragment_definition_name);
             spreads.iter().find_map(|&spread| {
                 if spread.name() == target.name() {
                     Some(Error::FragmentSpreadCycle {
@@ -41,7 +39,7 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> FragmentSpreadsMustNotFormC
                         spreads_by_fragment_definition,
                         target,
                         spread.name(),
-                        &visited_fragment_definitions,
+                        visited_fragment_definitions,
                     )
                 }
             })
@@ -76,7 +74,7 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> Visitor<'a, E, S>
                     &spreads_by_fragment_definition,
                     target,
                     fragment_definition_name,
-                    &HashSet::new(),
+                    &mut HashSet::new(),
                 )
             })
             .collect();
-- 
2.43.0


From 032b5e1ca59db9c47782b6f89056262fdcd664ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:05 +0000
Subject: [PATCH 32/36] fix: compare each group of fields once when checking
 that selections merge

Fragments spread several times below each other were collected and
compared again for every path that leads to them, which takes exponential
time in the number of fragments.
---
 .../document/rules/field_selection_merging.rs | 45 +++++++++++++++----
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
index d0569df..f3cb862 100644
--- a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
+++ b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
@@ -70,13 +70,20 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
         selection_set: &'a E::SelectionSet,
     ) -> Vec<Error<'a, E, S>> {
         let mut errors = Vec::new();
+        let mut compared_shapes = HashSet::new();
+        let mut compared_parents = HashSet::new();
 
         grouped_fields.values().for_each(|fields_for_name| {
-            errors.append(&mut self.same_response_shape(fields_for_name, selection_set));
-            errors.append(
-                &mut self
-                    .same_for_common_parents_by_name(fields_for_name.as_slice(), selection_set),
-            );
+            errors.append(&mut self.same_response_shape(
+                fields_for_name,
+                selection_set,
+                &mut compared_shapes,
+            ));
+            errors.append(&mut self.same_for_common_parents_by_name(
+                fields_for_name.as_slice(),
+                selection_set,
+                &mut compared_parents,
+            ));
         });
 
         errors
@@ -86,8 +93,9 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
         &mut self,
         fields_for_name: &[FieldContext<'a, E, S>],
         selection_set: &'a E::SelectionSet,
+        compared: &mut HashSet<Vec<*const E::Field>>,
     ) -> Vec<Error<'a, E, S>> {
-        if fields_for_name.len() <= 1 {
+        if fields_for_name.len() <= 1 || !compared.insert(Self::group_key(fields_for_name)) {
             return Vec::new();
         }
 
@@ -124,7 +132,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                 nested_grouped_fields
                     .values()
                     .flat_map(|nested_fields_for_name| {
-                        self.same_response_shape(nested_fields_for_name, selection_set)
+                        self.same_response_shape(nested_fields_for_name, selection_set, compared)
                     })
                     .collect()
             })
@@ -134,8 +142,9 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
         &mut self,
         fields_for_name: &[FieldContext<'a, E, S>],
         selection_set: &'a E::SelectionSet,
+        compared: &mut HashSet<Vec<*const E::Field>>,
     ) -> Vec<Error<'a, E, S>> {
-        if fields_for_name.len() <= 1 {
+        if fields_for_name.len() <= 1 || !compared.insert(Self::group_key(fields_for_name)) {
             return Vec::new();
         }
 
@@ -214,6 +223,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                                 self.same_for_common_parents_by_name(
                                     nested_fields_for_name.as_slice(),
                                     selection_set,
+                                    compared,
                                 )
                             })
                             .collect()
@@ -222,6 +232,15 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
             .collect()
     }
 
+    fn group_key(fields: &[FieldContext<'a, E, S>]) -> Vec<*const E::Field> {
+        let mut key: Vec<*const E::Field> = fields
+            .iter()
+            .map(|field_context| field_context.field as *const _)
+            .collect();
+        key.sort_unstable();
+        key
+    }
+
     fn selection_set_contained_fields(
         &mut self,
         selection_set: &'a E::SelectionSet,
@@ -233,6 +252,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
             &mut fields,
             parent_type,
             &HashSet::new(),
+            &mut HashSet::new(),
         );
         fields
     }
@@ -245,6 +265,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
         'a: 'b,
     {
         let mut fields = HashMap::new();
+        let mut visited_fragments = HashSet::new();
         field_contexts.for_each(|field_context| {
             if let Some(selection_set) = field_context.field.selection_set() {
                 if let Some(parent_type) = self
@@ -257,6 +278,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                             &mut fields,
                             parent_type,
                             &field_context.parent_fragments,
+                            &mut visited_fragments,
                         );
                     }
                 }
@@ -271,6 +293,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
         fields: &mut HashMap<&'a str, Vec<FieldContext<'a, E, S>>>,
         parent_type: TypeDefinitionReference<'a, S::TypeDefinition>,
         parent_fragments: &HashSet<&'a str>,
+        visited_fragments: &mut HashSet<&'a str>,
     ) {
         selections.for_each(|selection| match selection.as_ref() {
             SelectionReference::Field(field) => {
@@ -291,7 +314,9 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
             }
             SelectionReference::FragmentSpread(fs) => {
                 let fragment_name = fs.name();
-                if !parent_fragments.contains(fragment_name) {
+                if !parent_fragments.contains(fragment_name)
+                    && visited_fragments.insert(fragment_name)
+                {
                     if let Some(fragment_definition) = self.cache.fragment_definition(fragment_name)
                     {
                         let type_condition = fragment_definition.type_condition();
@@ -310,6 +335,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                                     fields,
                                     scoped_type,
                                     &new_parent_fragments,
+                                    visited_fragments,
                                 );
                             }
                         }
@@ -330,6 +356,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                             fields,
                             scoped_type,
                             parent_fragments,
+                            visited_fragments,
                         );
                     }
                 }
-- 
2.43.0


From 777934bb4e9b68b9bc866a7f3b2dfdbf6c2bfe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:32 +0000
Subject: [PATCH 33/36] fix: compute the complexity of the same merged scopes
 once

Every possible type of an interface or union computed the cost of the
selections they share again, level by level, which takes exponential time
in the depth of an operation (two implementors: 2^depth).
---
 .../operation/analyzers/complexity_cost.rs    | 48 ++++++++++++-------
 .../analyzers/complexity_cost/arena.rs        |  2 +-
 2 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs b/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
index c6b5fbb..2cf6591 100644
--- a/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
+++ b/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
@@ -182,20 +182,26 @@ impl<
     > ComplexityCost<'a, E, S, V, C>
 {
     fn result(&mut self) -> usize {
-        let root_scope = self
-            .scopes_stack
-            .first()
-            .copied()
-            .flatten()
-            .and_then(|index| self.scopes_arena.get(index))
-            .unwrap();
-        self.merged_max_complexity_for_scopes(&[root_scope])
+        let root_scope = self.scopes_stack.first().copied().flatten().unwrap();
+        self.merged_max_complexity_for_scopes(vec![root_scope], &mut HashMap::new())
     }
 
+    // the same scopes are merged again for every possible type they apply to,
+    // so the result for each set of scopes is kept
     fn merged_max_complexity_for_scopes(
         &self,
-        scopes: &[&ComplexityScope<'a, S::TypeDefinition, C::FieldMultipliers>],
+        scope_indices: Vec<NodeId>,
+        merged: &mut HashMap<Vec<NodeId>, usize>,
     ) -> usize {
+        if let Some(complexity) = merged.get(&scope_indices) {
+            return *complexity;
+        }
+
+        let scopes = scope_indices
+            .iter()
+            .filter_map(|index| self.scopes_arena.get(*index))
+            .collect::<Vec<_>>();
+
         // build a set of all unique possible type definitions
         // with abstract types expanded to encompass all of their possible types
         let possible_type_names = scopes
@@ -211,7 +217,7 @@ impl<
             .unique();
 
         // calculate a maximum possible cost among possible types
-        possible_type_names
+        let complexity = possible_type_names
             .map(|possible_type_name| {
                 // collect inner selections from all scopes that intersect with this possible type
                 let inner_selections = scopes
@@ -228,15 +234,20 @@ impl<
                     })
                     .collect::<Vec<_>>();
 
-                self.merged_max_complexity_for_selections(inner_selections)
+                self.merged_max_complexity_for_selections(inner_selections, merged)
             })
             .max()
-            .unwrap_or(0)
+            .unwrap_or(0);
+
+        merged.insert(scope_indices, complexity);
+
+        complexity
     }
 
     fn merged_max_complexity_for_selections(
         &self,
         inner_selections: Vec<&InnerSelection<'a>>,
+        merged: &mut HashMap<Vec<NodeId>, usize>,
     ) -> usize {
         // build a unique set of field keys from across inner selections.
         // the same field keys may appear in selections on different types,
@@ -259,23 +270,26 @@ impl<
                     .filter_map(|inner_selection| {
                         inner_selection
                             .get(*field_key)
-                            .and_then(|scope_index| self.scopes_arena.get(*scope_index))
-                            .and_then(|child_scope| {
+                            .copied()
+                            .and_then(|scope_index| {
+                                let child_scope = self.scopes_arena.get(scope_index)?;
+
                                 // base_cost and multiplier select their maximums from across merged scopes
                                 // in case a field name has different costs in different scope types.
                                 base_cost = max(base_cost, child_scope.cost);
                                 multiplier = max(multiplier, child_scope.multiplier);
 
                                 if !child_scope.typed_selections.is_empty() {
-                                    Some(child_scope)
+                                    Some(scope_index)
                                 } else {
                                     None
                                 }
                             })
                     })
-                    .collect::<Vec<&ComplexityScope<'a, S::TypeDefinition, C::FieldMultipliers>>>();
+                    .sorted_unstable()
+                    .collect::<Vec<_>>();
 
-                let children_cost = self.merged_max_complexity_for_scopes(&composite_scopes);
+                let children_cost = self.merged_max_complexity_for_scopes(composite_scopes, merged);
 
                 (base_cost + children_cost) * multiplier
             })
diff --git a/bluejay-validator/src/executable/operation/analyzers/complexity_cost/arena.rs b/bluejay-validator/src/executable/operation/analyzers/complexity_cost/arena.rs
index 820a387..124c167 100644
--- a/bluejay-validator/src/executable/operation/analyzers/complexity_cost/arena.rs
+++ b/bluejay-validator/src/executable/operation/analyzers/complexity_cost/arena.rs
@@ -1,4 +1,4 @@
-#[derive(Clone, Copy, PartialEq, Eq)]
+#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
 pub(super) struct NodeId(usize);
 
 pub(super) struct Arena<T> {
-- 
2.43.0


From 0539ff1ef0d0a2c20f81d5986b3f24c9b661977d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:51 +0000
Subject: [PATCH 34/36] fix: a complexity beyond usize::MAX overflowed

The sum panicked, or wrapped to a small cost when overflow checks are off.
---
 .../src/executable/operation/analyzers/complexity_cost.rs   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs b/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
index 2cf6591..2be5945 100644
--- a/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
+++ b/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
@@ -291,9 +291,11 @@ impl<
 
                 let children_cost = self.merged_max_complexity_for_scopes(composite_scopes, merged);
 
-                (base_cost + children_cost) * multiplier
+                base_cost
+                    .saturating_add(children_cost)
+                    .saturating_mul(multiplier)
             })
-            .sum()
+            .fold(0, usize::saturating_add)
     }
 
     fn possible_type_names(
-- 
2.43.0


From 70221e737bc64c879ecddd5edf2c4f30d647951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:47 +0000
Subject: [PATCH 35/36] fix: errors of field merging and of variable values
 came in a random order

---
 .../document/rules/field_selection_merging.rs  | 18 +++++++++---------
 .../analyzers/variable_values_are_valid.rs     |  4 ++--
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
index f3cb862..0a09f18 100644
--- a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
+++ b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
@@ -11,7 +11,7 @@ use bluejay_core::executable::{
     SelectionReference,
 };
 use bluejay_core::{Arguments, AsIter, Indexed};
-use std::collections::{BTreeMap, HashMap, HashSet};
+use std::collections::{BTreeMap, HashSet};
 use std::ops::Not;
 
 pub struct FieldSelectionMerging<'a, E: ExecutableDocument, S: SchemaDefinition> {
@@ -66,7 +66,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
 
     fn fields_in_set_can_merge(
         &mut self,
-        grouped_fields: HashMap<&'a str, Vec<FieldContext<'a, E, S>>>,
+        grouped_fields: BTreeMap<&'a str, Vec<FieldContext<'a, E, S>>>,
         selection_set: &'a E::SelectionSet,
     ) -> Vec<Error<'a, E, S>> {
         let mut errors = Vec::new();
@@ -149,11 +149,11 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
         }
 
         type Group<'a, 'b, E, S> = Vec<&'b FieldContext<'a, E, S>>;
-        type ConcreteGroups<'a, 'b, E, S> = HashMap<&'a str, Group<'a, 'b, E, S>>;
+        type ConcreteGroups<'a, 'b, E, S> = BTreeMap<&'a str, Group<'a, 'b, E, S>>;
 
         let (abstract_group, concrete_groups): (Group<'a, '_, E, S>, ConcreteGroups<'a, '_, E, S>) =
             fields_for_name.iter().fold(
-                (Vec::new(), HashMap::new()),
+                (Vec::new(), BTreeMap::new()),
                 |(mut abstract_group, mut concrete_groups), field_context| {
                     match field_context.parent_type {
                         TypeDefinitionReference::Object(otd) => concrete_groups
@@ -245,8 +245,8 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
         &mut self,
         selection_set: &'a E::SelectionSet,
         parent_type: TypeDefinitionReference<'a, S::TypeDefinition>,
-    ) -> HashMap<&'a str, Vec<FieldContext<'a, E, S>>> {
-        let mut fields = HashMap::new();
+    ) -> BTreeMap<&'a str, Vec<FieldContext<'a, E, S>>> {
+        let mut fields = BTreeMap::new();
         self.visit_selections_for_fields(
             selection_set.iter(),
             &mut fields,
@@ -260,11 +260,11 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
     fn field_contexts_contained_fields<'b>(
         &mut self,
         field_contexts: impl Iterator<Item = &'b FieldContext<'a, E, S>>,
-    ) -> HashMap<&'a str, Vec<FieldContext<'a, E, S>>>
+    ) -> BTreeMap<&'a str, Vec<FieldContext<'a, E, S>>>
     where
         'a: 'b,
     {
-        let mut fields = HashMap::new();
+        let mut fields = BTreeMap::new();
         let mut visited_fragments = HashSet::new();
         field_contexts.for_each(|field_context| {
             if let Some(selection_set) = field_context.field.selection_set() {
@@ -290,7 +290,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
     fn visit_selections_for_fields(
         &mut self,
         selections: impl Iterator<Item = &'a E::Selection>,
-        fields: &mut HashMap<&'a str, Vec<FieldContext<'a, E, S>>>,
+        fields: &mut BTreeMap<&'a str, Vec<FieldContext<'a, E, S>>>,
         parent_type: TypeDefinitionReference<'a, S::TypeDefinition>,
         parent_fragments: &HashSet<&'a str>,
         visited_fragments: &mut HashSet<&'a str>,
diff --git a/bluejay-validator/src/executable/operation/analyzers/variable_values_are_valid.rs b/bluejay-validator/src/executable/operation/analyzers/variable_values_are_valid.rs
index 50e5020..82a10fe 100644
--- a/bluejay-validator/src/executable/operation/analyzers/variable_values_are_valid.rs
+++ b/bluejay-validator/src/executable/operation/analyzers/variable_values_are_valid.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::marker::PhantomData;
 
 use crate::{
@@ -19,7 +19,7 @@ pub struct VariableValuesAreValid<
 > {
     executable_document: PhantomData<E>,
     schema_definition: &'a S,
-    indexed_variable_values: HashMap<&'a str, (&'a VV::Key, &'a VV::Value)>,
+    indexed_variable_values: BTreeMap<&'a str, (&'a VV::Key, &'a VV::Value)>,
     cache: &'a Cache<'a, E, S>,
     errors: Vec<VariableValueError<'a, E, VV>>,
 }
-- 
2.43.0


From bed612e04355a19db79671222fd2f87c33080db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:14 +0000
Subject: [PATCH 36/36] fix: the span of a non-null list input type left out
 the !

---
 bluejay-parser/src/ast/definition/input_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bluejay-parser/src/ast/definition/input_type.rs b/bluejay-parser/src/ast/definition/input_type.rs
index aa6d060..73310f0 100644
--- a/bluejay-parser/src/ast/definition/input_type.rs
+++ b/bluejay-parser/src/ast/definition/input_type.rs
@@ -100,7 +100,7 @@ impl<'a, C: Context + 'a> FromTokens<'a> for InputType<'a, C> {
             let inner = Self::from_tokens(tokens).map(Box::new)?;
             let close_span = tokens.expect_punctuator(PunctuatorType::CloseSquareBracket)?;
             let bang_span = tokens.next_if_punctuator(PunctuatorType::Bang);
-            let span = open_span.merge(&close_span);
+            let span = open_span.merge(bang_span.as_ref().unwrap_or(&close_span));
             Ok(InputType::List(inner, bang_span.is_some(), span))
         } else if let Some(base_name) = tokens.next_if_name() {
             let bang_span = tokens.next_if_punctuator(PunctuatorType::Bang);
-- 
2.43.0

