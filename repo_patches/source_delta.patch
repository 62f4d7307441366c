From 415b98bb8fe479b3ba749032c85aa70ff3d37368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 01/33] fix: reject float literals that overflow to infinity

---
 bluejay-parser/src/lexer/logos_lexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bluejay-parser/src/lexer/logos_lexer.rs b/bluejay-parser/src/lexer/logos_lexer.rs
index 9d8e1fa..2e24e71 100644
--- a/bluejay-parser/src/lexer/logos_lexer.rs
+++ b/bluejay-parser/src/lexer/logos_lexer.rs
@@ -119,7 +119,9 @@ fn parse_float<'a>(lexer: &mut logos::Lexer<'a, Token<'a>>) -> Result<f64, LexEr
         lexer
             .slice()
             .parse()
-            .map_err(|_| LexError::FloatValueTooLarge)
+            .ok()
+            .filter(|value: &f64| value.is_finite())
+            .ok_or(LexError::FloatValueTooLarge)
     })
 }
 
-- 
2.43.0


From e7255147e8a0260d068eec10c1c7dc8c04effced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:05 +0000
Subject: [PATCH 02/33] fix: treat only surrogate escapes as a pair when
 decoding strings

---
 bluejay-parser/src/lexer/logos_lexer/string_lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs b/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs
index cb4575b..5b3d1c6 100644
--- a/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs
+++ b/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs
@@ -9,6 +9,7 @@ use std::borrow::Cow;
 #[derive(Logos, Debug)]
 #[logos(subpattern hexdigit = r"[0-9A-Fa-f]")]
 #[logos(subpattern fixedunicode = r"\\u[0-9A-Fa-f]{4}")]
+#[logos(subpattern surrogate = r"\\u[dD][89a-fA-F][0-9A-Fa-f]{2}")]
 pub(super) enum Token<'a> {
     #[regex(r#"[^\\"\n\r]+"#)]
     SourceCharacters(&'a str),
@@ -17,7 +18,7 @@ pub(super) enum Token<'a> {
     FixedWidthEscapedUnicode(Option<char>),
 
     #[regex(
-        r"(?&fixedunicode)(?&fixedunicode)",
+        r"(?&surrogate)(?&fixedunicode)",
         parse_surrogate_pair_escaped_unicode
     )]
     SurrogatePairEscapedUnicode(Result<(char, Option<char>), Span>),
-- 
2.43.0


From 19163f9de201634551619e4215174cf8adb790aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:10 +0000
Subject: [PATCH 03/33] fix: print the directives of a fragment definition

---
 bluejay-printer/src/executable/fragment_definition.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bluejay-printer/src/executable/fragment_definition.rs b/bluejay-printer/src/executable/fragment_definition.rs
index f5542b7..e331233 100644
--- a/bluejay-printer/src/executable/fragment_definition.rs
+++ b/bluejay-printer/src/executable/fragment_definition.rs
@@ -1,4 +1,4 @@
-use crate::executable::SelectionSetPrinter;
+use crate::{directive::DirectivesPrinter, executable::SelectionSetPrinter};
 use bluejay_core::executable::FragmentDefinition;
 use std::fmt::{Display, Formatter, Result};
 
@@ -21,9 +21,16 @@ impl<'a, T: FragmentDefinition> Display for FragmentDefinitionPrinter<'a, T> {
         } = *self;
         write!(
             f,
-            "fragment {} on {} {}",
+            "fragment {} on {}",
             fragment_definition.name(),
             fragment_definition.type_condition(),
+        )?;
+        if let Some(directives) = fragment_definition.directives() {
+            write!(f, "{}", DirectivesPrinter::new(directives))?;
+        }
+        write!(
+            f,
+            " {}",
             SelectionSetPrinter::new(fragment_definition.selection_set(), 0),
         )
     }
-- 
2.43.0


From aac479c1cc0c7a6f0ddb0e3954618fa62d1d2e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:10 +0000
Subject: [PATCH 04/33] fix: do not round small fractions away when printing
 floats

---
 bluejay-printer/src/value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bluejay-printer/src/value.rs b/bluejay-printer/src/value.rs
index 26a2ae3..989e3c3 100644
--- a/bluejay-printer/src/value.rs
+++ b/bluejay-printer/src/value.rs
@@ -21,7 +21,7 @@ impl<'a, const CONST: bool, V: Value<CONST>> Display for ValuePrinter<'a, CONST,
             ValueReference::Boolean(b) => write!(f, "{}", b),
             ValueReference::Enum(e) => write!(f, "{}", e),
             ValueReference::Float(fl) => {
-                if fl.fract().abs() < 1e-10 {
+                if fl.fract() == 0.0 {
                     write!(f, "{fl:.1}")
                 } else {
                     write!(f, "{fl}")
-- 
2.43.0


From 0c664b1a395603dfbb538dce61d9f2d1afceb118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:48 +0000
Subject: [PATCH 05/33] fix: print descriptions a block string cannot represent
 as quoted strings

---
 bluejay-printer/src/string_value.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/bluejay-printer/src/string_value.rs b/bluejay-printer/src/string_value.rs
index a5aba3f..ba3ee49 100644
--- a/bluejay-printer/src/string_value.rs
+++ b/bluejay-printer/src/string_value.rs
@@ -35,12 +35,35 @@ impl<'a> BlockStringValuePrinter<'a> {
     pub(crate) fn new(value: &'a str, indentation: usize) -> Self {
         Self { value, indentation }
     }
+
+    /// Parsing a block string drops blank leading and trailing lines and the indentation
+    /// common to all lines, and normalizes line terminators, so not every value can be
+    /// written as one.
+    fn is_representable(value: &str) -> bool {
+        let is_blank = |line: &str| line.chars().all(|c| matches!(c, ' ' | '\t'));
+        let mut lines = value.split('\n');
+        let first = lines.next().unwrap_or_default();
+        let last = lines.next_back().unwrap_or(first);
+
+        value.is_empty()
+            || (!value.contains('\r')
+                && !is_blank(first)
+                && !is_blank(last)
+                && value
+                    .split('\n')
+                    .any(|line| !line.is_empty() && !line.starts_with([' ', '\t'])))
+    }
 }
 
 impl<'a> Display for BlockStringValuePrinter<'a> {
     fn fmt(&self, f: &mut Formatter<'_>) -> Result {
         let Self { value, indentation } = *self;
         write_indent(f, indentation)?;
+
+        if !Self::is_representable(value) {
+            return writeln!(f, "{}", StringValuePrinter::new(value));
+        }
+
         writeln!(f, "\"\"\"")?;
 
         let escaped = value.replace("\"\"\"", "\\\"\"\"");
-- 
2.43.0


From ad51c0e2e78993d0fefb12ba89a60872a39da9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:48 +0000
Subject: [PATCH 06/33] fix: print an explicit schema definition when a type
 that is not a root has a default root name

---
 bluejay-printer/src/definition/schema_definition.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bluejay-printer/src/definition/schema_definition.rs b/bluejay-printer/src/definition/schema_definition.rs
index 570fdfd..aa0a753 100644
--- a/bluejay-printer/src/definition/schema_definition.rs
+++ b/bluejay-printer/src/definition/schema_definition.rs
@@ -36,11 +36,15 @@ impl<'a, S: SchemaDefinition> SchemaDefinitionPrinter<'a, S> {
             && schema_definition
                 .mutation()
                 .map(|mutation| mutation.name() == "Mutation")
-                .unwrap_or(true)
+                .unwrap_or_else(|| schema_definition.get_type_definition("Mutation").is_none())
             && schema_definition
                 .subscription()
                 .map(|subscription| subscription.name() == "Subscription")
-                .unwrap_or(true)
+                .unwrap_or_else(|| {
+                    schema_definition
+                        .get_type_definition("Subscription")
+                        .is_none()
+                })
             && schema_definition
                 .directives()
                 .map(AsIter::is_empty)
-- 
2.43.0


From e60040ca4c5f44e8c4616fde527d292db128f42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 07/33] fix: reject undefined directives applied to the schema
 definition

---
 .../src/ast/definition/definition_document.rs | 36 ++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/bluejay-parser/src/ast/definition/definition_document.rs b/bluejay-parser/src/ast/definition/definition_document.rs
index ae337c0..670dd26 100644
--- a/bluejay-parser/src/ast/definition/definition_document.rs
+++ b/bluejay-parser/src/ast/definition/definition_document.rs
@@ -687,16 +687,24 @@ impl<'a, C: Context> DefinitionDocument<'a, C> {
         errors: &mut Vec<DefinitionDocumentError<'a, C>>,
     ) {
         if let Some(directives) = subject.directives() {
-            directives.iter().for_each(|directive| {
-                match indexed_directive_definitions.get(directive.name()) {
-                    Some(_) => {}
-                    None => errors.push(DefinitionDocumentError::ReferencedDirectiveDoesNotExist {
-                        directive,
-                    }),
-                }
-            })
+            Self::resolve_directives(indexed_directive_definitions, directives, errors)
         }
     }
+
+    fn resolve_directives(
+        indexed_directive_definitions: &BTreeMap<&str, &'a DirectiveDefinition<'a, C>>,
+        directives: &'a Directives<'a, C>,
+        errors: &mut Vec<DefinitionDocumentError<'a, C>>,
+    ) {
+        directives.iter().for_each(|directive| {
+            match indexed_directive_definitions.get(directive.name()) {
+                Some(_) => {}
+                None => {
+                    errors.push(DefinitionDocumentError::ReferencedDirectiveDoesNotExist { directive })
+                }
+            }
+        })
+    }
 }
 
 impl<'a, C: Context> TryFrom<&'a DefinitionDocument<'a, C>> for SchemaDefinition<'a, C> {
@@ -716,6 +724,18 @@ impl<'a, C: Context> TryFrom<&'a DefinitionDocument<'a, C>> for SchemaDefinition
             &mut errors,
         );
 
+        definition_document
+            .schema_definitions
+            .iter()
+            .filter_map(|schema_definition| schema_definition.directives())
+            .for_each(|directives| {
+                DefinitionDocument::resolve_directives(
+                    &indexed_directive_definitions,
+                    directives,
+                    &mut errors,
+                )
+            });
+
         if !errors.is_empty() {
             return Err(errors);
         }
-- 
2.43.0


From 3f597efdb3bc0832d3e2c34b1bf53923a86db7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 08/33] fix: check variables used in input objects that are
 list items

---
 .../document/rules/all_variable_usages_allowed.rs    | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs b/bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs
index f5de1fa..3189e63 100644
--- a/bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs
+++ b/bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs
@@ -84,13 +84,11 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> AllVariableUsagesAllowed<'a
                 }
             }),
             ValueReference::Object(o) => o.iter().for_each(|(key, value)| {
-                if let Some(ivd) = location.input_value_definition() {
-                    if let BaseInputTypeReference::InputObject(iotd) =
-                        ivd.r#type().base(self.schema_definition)
-                    {
-                        if let Some(ivd) = iotd.input_field_definitions().get(key.as_ref()) {
-                            self.visit_value(value, root, VariableUsageLocation::ObjectField(ivd));
-                        }
+                if let BaseInputTypeReference::InputObject(iotd) =
+                    location.r#type().base(self.schema_definition)
+                {
+                    if let Some(ivd) = iotd.input_field_definitions().get(key.as_ref()) {
+                        self.visit_value(value, root, VariableUsageLocation::ObjectField(ivd));
                     }
                 }
             }),
-- 
2.43.0


From 0765fa5bf8ac4824cbc0b62d77601d64c467133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 09/33] fix: consider fields selected on a union when merging
 selections

---
 .../src/executable/document/rules/field_selection_merging.rs   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
index 939ba56..481eb25 100644
--- a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
+++ b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
@@ -151,7 +151,8 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                             .entry(otd.name())
                             .or_default()
                             .push(field_context),
-                        TypeDefinitionReference::Interface(_) => abstract_group.push(field_context),
+                        TypeDefinitionReference::Interface(_)
+                        | TypeDefinitionReference::Union(_) => abstract_group.push(field_context),
                         _ => {}
                     }
                     (abstract_group, concrete_groups)
-- 
2.43.0


From b4d1b3e09b79de0d2ba17eb2dee2f1da776f78ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:00 +0000
Subject: [PATCH 10/33] fix: count the response entries of a subscription
 through all fragments

---
 ...ubscription_operation_single_root_field.rs | 61 ++++++++++++++-----
 1 file changed, 46 insertions(+), 15 deletions(-)

diff --git a/bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs b/bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs
index d1093fb..f86e598 100644
--- a/bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs
+++ b/bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs
@@ -4,10 +4,11 @@ use crate::executable::{
 };
 use bluejay_core::definition::SchemaDefinition;
 use bluejay_core::executable::{
-    ExecutableDocument, FragmentDefinition, FragmentSpread, InlineFragment, OperationDefinition,
-    Selection, SelectionReference,
+    ExecutableDocument, Field, FragmentDefinition, FragmentSpread, InlineFragment,
+    OperationDefinition, Selection, SelectionReference,
 };
 use bluejay_core::{AsIter, OperationType};
+use std::collections::HashSet;
 
 pub struct SubscriptionOperationSingleRootField<'a, E: ExecutableDocument> {
     invalid_operation_definitions: Vec<&'a E::OperationDefinition>,
@@ -32,29 +33,59 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> Visitor<'a, E, S>
         ) {
             return;
         }
-        let selection_set = core_operation_definition.selection_set();
-        if selection_set.len() != 1 {
+        let mut response_names = HashSet::new();
+        let all_fragments_defined = self.collect_response_names(
+            core_operation_definition.selection_set(),
+            &mut response_names,
+            &mut HashSet::new(),
+        );
+        if response_names.len() > 1 || (all_fragments_defined && response_names.is_empty()) {
             self.invalid_operation_definitions
                 .push(operation_definition);
-        } else if let Some(first_selection) = selection_set.iter().next() {
-            let fields_count = match first_selection.as_ref() {
-                SelectionReference::Field(_) => Some(1),
+        }
+    }
+}
+
+impl<'a, E: ExecutableDocument> SubscriptionOperationSingleRootField<'a, E> {
+    /// Returns whether all of the fragments that are spread are defined.
+    fn collect_response_names(
+        &self,
+        selection_set: &'a E::SelectionSet,
+        response_names: &mut HashSet<&'a str>,
+        visited_fragments: &mut HashSet<&'a str>,
+    ) -> bool {
+        selection_set.iter().fold(
+            true,
+            |all_fragments_defined, selection| match selection.as_ref() {
+                SelectionReference::Field(f) => {
+                    response_names.insert(f.response_name());
+                    all_fragments_defined
+                }
                 SelectionReference::FragmentSpread(fs) => {
+                    if !visited_fragments.insert(fs.name()) {
+                        return all_fragments_defined;
+                    }
                     let fragment_definition = self
                         .executable_document
                         .fragment_definitions()
                         .find(|fd| fd.name() == fs.name());
-                    fragment_definition.map(|fd| fd.selection_set().len())
+                    fragment_definition.map_or(false, |fd| {
+                        self.collect_response_names(
+                            fd.selection_set(),
+                            response_names,
+                            visited_fragments,
+                        )
+                    }) && all_fragments_defined
                 }
                 SelectionReference::InlineFragment(inline_fragment) => {
-                    Some(inline_fragment.selection_set().len())
+                    self.collect_response_names(
+                        inline_fragment.selection_set(),
+                        response_names,
+                        visited_fragments,
+                    ) && all_fragments_defined
                 }
-            };
-            if matches!(fields_count, Some(fc) if fc != 1) {
-                self.invalid_operation_definitions
-                    .push(operation_definition);
-            }
-        }
+            },
+        )
     }
 }
 
-- 
2.43.0


From 77c23793d39a23b35a081aaf6219d7d50b94b412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:00 +0000
Subject: [PATCH 11/33] fix: keep errors without annotations when converting to
 GraphQL errors

---
 bluejay-parser/src/error.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bluejay-parser/src/error.rs b/bluejay-parser/src/error.rs
index 265e6b3..190ca7d 100644
--- a/bluejay-parser/src/error.rs
+++ b/bluejay-parser/src/error.rs
@@ -64,6 +64,11 @@ impl Error {
                         message: primary_annotation.message,
                         locations: vec![Location { line, col }],
                     }))
+                } else if err.secondary_annotations.is_empty() {
+                    Either::Left(std::iter::once(GraphQLError {
+                        message: err.message,
+                        locations: Vec::new(),
+                    }))
                 } else {
                     Either::Right(err.secondary_annotations.into_iter().map(
                         |secondary_annotation| {
-- 
2.43.0


From 8b15ccced9ac473ab0e932474ad419129c690310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:20 +0000
Subject: [PATCH 12/33] fix: look up the default of an input by its variable's
 name

---
 .../src/executable/operation/analyzers/input_size.rs            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bluejay-validator/src/executable/operation/analyzers/input_size.rs b/bluejay-validator/src/executable/operation/analyzers/input_size.rs
index d288a17..1a1c15f 100644
--- a/bluejay-validator/src/executable/operation/analyzers/input_size.rs
+++ b/bluejay-validator/src/executable/operation/analyzers/input_size.rs
@@ -128,7 +128,7 @@ fn find_input_size_offenders_arguments<
                 let variable_definition = variable_definitions.map(|variable_definitions| {
                     variable_definitions
                         .iter()
-                        .find(|def| def.variable() == argument_name)
+                        .find(|def| def.variable() == name)
                 });
                 if let Some(Some(var_def)) = variable_definition {
                     let default_value = var_def.default_value();
-- 
2.43.0


From ac28cf8e5571005661c968e92f7dca0d75d837ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:20 +0000
Subject: [PATCH 13/33] fix: saturate instead of wrapping when complexity
 exceeds the maximum

---
 .../src/executable/operation/analyzers/complexity_cost.rs   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs b/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
index c6b5fbb..50f3b5b 100644
--- a/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
+++ b/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
@@ -277,9 +277,11 @@ impl<
 
                 let children_cost = self.merged_max_complexity_for_scopes(&composite_scopes);
 
-                (base_cost + children_cost) * multiplier
+                base_cost
+                    .saturating_add(children_cost)
+                    .saturating_mul(multiplier)
             })
-            .sum()
+            .fold(0, usize::saturating_add)
     }
 
     fn possible_type_names(
-- 
2.43.0


From 49d6774e521eb6e915171f2a85fb706deb37af74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:11 +0000
Subject: [PATCH 14/33] fix: report arguments added to or removed from a
 directive definition without others

---
 bluejay-schema-comparator/src/diff/directive_definition.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bluejay-schema-comparator/src/diff/directive_definition.rs b/bluejay-schema-comparator/src/diff/directive_definition.rs
index c99d6ff..e96562b 100644
--- a/bluejay-schema-comparator/src/diff/directive_definition.rs
+++ b/bluejay-schema-comparator/src/diff/directive_definition.rs
@@ -126,7 +126,7 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDefinitionDiff<'a, S> {
             .filter(|old_argument| {
                 self.new_directive_definition
                     .arguments_definition()
-                    .map_or(false, |args| {
+                    .map_or(true, |args| {
                         !args
                             .iter()
                             .any(|new_argument| old_argument.name() == new_argument.name())
@@ -143,7 +143,7 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDefinitionDiff<'a, S> {
             .filter(|new_argument| {
                 self.old_directive_definition
                     .arguments_definition()
-                    .map_or(false, |args| {
+                    .map_or(true, |args| {
                         !args
                             .iter()
                             .any(|old_argument| old_argument.name() == new_argument.name())
-- 
2.43.0


From a6007c7406f8f6ef0d9e5f0238bc5c01d55c5a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:11 +0000
Subject: [PATCH 15/33] fix: report all arguments removed from an applied
 directive

---
 bluejay-schema-comparator/src/diff/directive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bluejay-schema-comparator/src/diff/directive.rs b/bluejay-schema-comparator/src/diff/directive.rs
index d17bda3..1bedf3c 100644
--- a/bluejay-schema-comparator/src/diff/directive.rs
+++ b/bluejay-schema-comparator/src/diff/directive.rs
@@ -91,7 +91,7 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDiff<'a, S> {
             .into_iter()
             .flatten()
             .filter(|old_arg| {
-                self.new_directive.arguments().map_or(false, |args| {
+                self.new_directive.arguments().map_or(true, |args| {
                     !args.iter().any(|new_arg| old_arg.name() == new_arg.name())
                 })
             })
-- 
2.43.0


From 6ee0b47238899cb033e1c0055db4e32723a602b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:11 +0000
Subject: [PATCH 16/33] fix: compare an input field's own directives

---
 bluejay-schema-comparator/src/diff/input_field.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bluejay-schema-comparator/src/diff/input_field.rs b/bluejay-schema-comparator/src/diff/input_field.rs
index 2e2606a..3c4eeb7 100644
--- a/bluejay-schema-comparator/src/diff/input_field.rs
+++ b/bluejay-schema-comparator/src/diff/input_field.rs
@@ -79,7 +79,7 @@ impl<'a, S: SchemaDefinition + 'a> InputFieldDiff<'a, S> {
         }
 
         changes.extend(
-            directive_additions::<S, _>(self.old_type_definition, self.new_type_definition).map(
+            directive_additions::<S, _>(self.old_field_definition, self.new_field_definition).map(
                 |directive| Change::DirectiveAdded {
                     directive,
                     location: DirectiveLocation::InputFieldDefinition,
@@ -89,7 +89,7 @@ impl<'a, S: SchemaDefinition + 'a> InputFieldDiff<'a, S> {
         );
 
         changes.extend(
-            directive_removals::<S, _>(self.old_type_definition, self.new_type_definition).map(
+            directive_removals::<S, _>(self.old_field_definition, self.new_field_definition).map(
                 |directive| Change::DirectiveRemoved {
                     directive,
                     location: DirectiveLocation::InputFieldDefinition,
-- 
2.43.0


From 6808e00eea38cf4adc857efff35baeb6f5ec3ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:37 +0000
Subject: [PATCH 17/33] fix: report changes of directives applied to scalars
 and of arguments of schema directives

---
 bluejay-schema-comparator/src/diff/schema.rs | 38 ++++++++++++++++----
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/bluejay-schema-comparator/src/diff/schema.rs b/bluejay-schema-comparator/src/diff/schema.rs
index df2e272..d60d854 100644
--- a/bluejay-schema-comparator/src/diff/schema.rs
+++ b/bluejay-schema-comparator/src/diff/schema.rs
@@ -1,5 +1,5 @@
 use crate::changes::Change;
-use crate::diff::directive::{directive_additions, directive_removals};
+use crate::diff::directive::{common_directive_changes, directive_additions, directive_removals};
 use crate::diff::directive_definition::DirectiveDefinitionDiff;
 use crate::diff::enum_type::EnumTypeDiff;
 use crate::diff::input_object_type::InputObjectTypeDiff;
@@ -7,7 +7,8 @@ use crate::diff::interface_type::InterfaceTypeDiff;
 use crate::diff::object_type::ObjectTypeDiff;
 use crate::diff::union_type::UnionTypeDiff;
 use bluejay_core::definition::{
-    DirectiveDefinition as _, DirectiveLocation, SchemaDefinition, TypeDefinitionReference,
+    DirectiveDefinition as _, DirectiveLocation, ScalarTypeDefinition as _, SchemaDefinition,
+    TypeDefinitionReference,
 };
 
 pub struct SchemaDiff<'a, S: SchemaDefinition> {
@@ -82,6 +83,11 @@ impl<'a, S: SchemaDefinition> SchemaDiff<'a, S> {
                 }),
         );
 
+        changes.extend(common_directive_changes(
+            self.old_schema_definition,
+            self.new_schema_definition,
+        ));
+
         self.old_schema_definition
             .directive_definitions()
             .for_each(|old_directive| {
@@ -136,11 +142,31 @@ impl<'a, S: SchemaDefinition> SchemaDiff<'a, S> {
             (
                 TypeDefinitionReference::BuiltinScalar(_),
                 TypeDefinitionReference::BuiltinScalar(_),
-            )
-            | (
-                TypeDefinitionReference::CustomScalar(_),
-                TypeDefinitionReference::CustomScalar(_),
             ) => {}
+            (
+                TypeDefinitionReference::CustomScalar(old_type),
+                TypeDefinitionReference::CustomScalar(new_type),
+            ) => {
+                changes.extend(
+                    directive_additions::<S, _>(old_type, new_type).map(|directive| {
+                        Change::DirectiveAdded {
+                            directive,
+                            location: DirectiveLocation::Scalar,
+                            member_name: old_type.name(),
+                        }
+                    }),
+                );
+                changes.extend(
+                    directive_removals::<S, _>(old_type, new_type).map(|directive| {
+                        Change::DirectiveRemoved {
+                            directive,
+                            location: DirectiveLocation::Scalar,
+                            member_name: old_type.name(),
+                        }
+                    }),
+                );
+                changes.extend(common_directive_changes(old_type, new_type));
+            }
             _ => {
                 changes.push(Change::TypeKindChanged {
                     old_type_definition: old_type,
-- 
2.43.0


From 953c72269e1420a0a145591ae21b0cbe7fe3afbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:22 +0000
Subject: [PATCH 18/33] fix: pair repeated directives by occurrence when
 comparing

---
 .../src/diff/directive.rs                     | 81 +++++++++++--------
 1 file changed, 47 insertions(+), 34 deletions(-)

diff --git a/bluejay-schema-comparator/src/diff/directive.rs b/bluejay-schema-comparator/src/diff/directive.rs
index 1bedf3c..4abd22b 100644
--- a/bluejay-schema-comparator/src/diff/directive.rs
+++ b/bluejay-schema-comparator/src/diff/directive.rs
@@ -1,6 +1,7 @@
 use crate::changes::Change;
 use bluejay_core::definition::{HasDirectives, SchemaDefinition};
 use bluejay_core::{Argument, Arguments, AsIter, Directive, Value};
+use std::collections::HashMap;
 
 pub type ArgumentForDirective<S> =
     <<<S as SchemaDefinition>::Directive as Directive<true>>::Arguments as Arguments<
@@ -106,18 +107,9 @@ pub fn directive_additions<
     old_member: &'a T,
     new_member: &'a T,
 ) -> impl Iterator<Item = &'a <S as SchemaDefinition>::Directive> {
-    new_member
-        .directives()
-        .map(|ii| ii.iter())
-        .into_iter()
-        .flatten()
-        .filter(|new_directive| {
-            old_member.directives().map_or(true, |directives| {
-                !directives
-                    .iter()
-                    .any(|old_directive| old_directive.name() == new_directive.name())
-            })
-        })
+    occurrences::<S, T>(new_member)
+        .filter(|(name, index, _)| find_occurrence::<S, T>(old_member, name, *index).is_none())
+        .map(|(_, _, directive)| directive)
 }
 
 pub fn directive_removals<
@@ -128,18 +120,7 @@ pub fn directive_removals<
     old_member: &'a T,
     new_member: &'a T,
 ) -> impl Iterator<Item = &'a <S as SchemaDefinition>::Directive> {
-    old_member
-        .directives()
-        .map(|ii| ii.iter())
-        .into_iter()
-        .flatten()
-        .filter(|old_directive| {
-            new_member.directives().map_or(true, |directives| {
-                !directives
-                    .iter()
-                    .any(|new_directive| old_directive.name() == new_directive.name())
-            })
-        })
+    directive_additions::<S, T>(new_member, old_member)
 }
 
 pub fn common_directive_changes<
@@ -150,19 +131,51 @@ pub fn common_directive_changes<
     old_member: &'a T,
     new_member: &'a T,
 ) -> impl Iterator<Item = Change<'a, S>> {
-    old_member
+    occurrences::<S, T>(old_member)
+        .filter_map(move |(name, index, old_directive)| {
+            find_occurrence::<S, T>(new_member, name, index)
+                .map(|new_directive| DirectiveDiff::new(old_directive, new_directive).diff())
+        })
+        .flat_map(|changes| changes.into_iter())
+}
+
+/// The directives of a member, each with its name and the number of preceding directives of the
+/// same name, since a repeatable directive may be applied more than once.
+fn occurrences<
+    'a,
+    S: SchemaDefinition + 'a,
+    T: HasDirectives<Directives = <S as SchemaDefinition>::Directives>,
+>(
+    member: &'a T,
+) -> impl Iterator<Item = (&'a str, usize, &'a <S as SchemaDefinition>::Directive)> {
+    let mut counts: HashMap<&'a str, usize> = HashMap::new();
+    member
         .directives()
         .map(|ii| ii.iter())
         .into_iter()
         .flatten()
-        .filter_map(move |old_directive| {
-            new_member
-                .directives()
-                .map(|ii| ii.iter())
-                .into_iter()
-                .flatten()
-                .find(|new_directive| old_directive.name() == new_directive.name())
-                .map(|new_directive| DirectiveDiff::new(old_directive, new_directive).diff())
+        .map(move |directive| {
+            let count = counts.entry(directive.name()).or_default();
+            let index = *count;
+            *count += 1;
+            (directive.name(), index, directive)
         })
-        .flat_map(|changes| changes.into_iter())
+}
+
+fn find_occurrence<
+    'a,
+    S: SchemaDefinition + 'a,
+    T: HasDirectives<Directives = <S as SchemaDefinition>::Directives>,
+>(
+    member: &'a T,
+    name: &str,
+    index: usize,
+) -> Option<&'a <S as SchemaDefinition>::Directive> {
+    member
+        .directives()
+        .map(|ii| ii.iter())
+        .into_iter()
+        .flatten()
+        .filter(|directive| directive.name() == name)
+        .nth(index)
 }
-- 
2.43.0


From 65e6a2a77c6cfa135e41b6814e13c4e77c7e22a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:23 +0000
Subject: [PATCH 19/33] fix: removing the default value of a non-null input is
 breaking

---
 bluejay-schema-comparator/src/changes.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bluejay-schema-comparator/src/changes.rs b/bluejay-schema-comparator/src/changes.rs
index bcb0507..961bbb1 100644
--- a/bluejay-schema-comparator/src/changes.rs
+++ b/bluejay-schema-comparator/src/changes.rs
@@ -292,6 +292,9 @@ impl<'a, S: SchemaDefinition> Change<'a, S> {
             Self::FieldArgumentDescriptionChanged { .. } => {
                 Criticality::safe(None)
             },
+            Self::FieldArgumentDefaultValueChanged { new_argument_definition, .. } if new_argument_definition.is_required() => {
+                Criticality::breaking(Some(Cow::from("Removing the default value of a non-null argument is a breaking change because it will cause existing uses of this field that do not provide the argument to error.")))
+            },
             Self::FieldArgumentDefaultValueChanged { .. } => {
                 Criticality::dangerous(Some(Cow::from("Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.")))
             },
@@ -343,6 +346,9 @@ impl<'a, S: SchemaDefinition> Change<'a, S> {
             Self::InputFieldDescriptionChanged { .. } => {
                 Criticality::safe(None)
             },
+            Self::InputFieldDefaultValueChanged { new_field_definition, .. } if new_field_definition.is_required() => {
+                Criticality::breaking(Some(Cow::from("Removing the default value of a non-null input field is a breaking change because it will cause existing queries that use this input type and do not provide the field to error.")))
+            },
             Self::InputFieldDefaultValueChanged { .. } => {
                 Criticality::dangerous(Some(Cow::from("Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.")))
             },
@@ -381,6 +387,9 @@ impl<'a, S: SchemaDefinition> Change<'a, S> {
                     Criticality::breaking(None)
                 }
             },
+            Self::DirectiveDefinitionArgumentDefaultValueChanged { new_argument_definition, .. } if new_argument_definition.is_required() => {
+                Criticality::breaking(Some(Cow::from("Removing the default value of a non-null argument is a breaking change because it will cause existing uses of this directive that do not provide the argument to error.")))
+            },
             Self::DirectiveDefinitionArgumentDefaultValueChanged { .. } => {
                 Criticality::dangerous(Some(Cow::from("Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.")))
             },
-- 
2.43.0


From 1097c5fc0d67bfddb55edeae6fa980e6fd3d8d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:25 +0000
Subject: [PATCH 20/33] fix: turning an input object into a one-of input object
 is breaking

---
 bluejay-schema-comparator/src/changes.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bluejay-schema-comparator/src/changes.rs b/bluejay-schema-comparator/src/changes.rs
index 961bbb1..82d7de2 100644
--- a/bluejay-schema-comparator/src/changes.rs
+++ b/bluejay-schema-comparator/src/changes.rs
@@ -393,6 +393,9 @@ impl<'a, S: SchemaDefinition> Change<'a, S> {
             Self::DirectiveDefinitionArgumentDefaultValueChanged { .. } => {
                 Criticality::dangerous(Some(Cow::from("Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.")))
             },
+            Self::DirectiveAdded { location: DirectiveLocation::InputObject, directive, member_name: _ } if directive.name() == "oneOf" => {
+                Criticality::breaking(Some(Cow::from("Turning an input object into a one-of input object will cause existing queries that do not provide exactly one of its fields to error.")))
+            },
             Self::DirectiveAdded { .. } => {
                 Criticality::safe(None)
             },
-- 
2.43.0


From 1e08a6ff3530e05dca6f3250ec1c9bc5c6329a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:22 +0000
Subject: [PATCH 21/33] fix: check a spread fragment's selections against its
 own type condition when merging

---
 .../src/executable/document/rules/field_selection_merging.rs    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
index 481eb25..d0569df 100644
--- a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
+++ b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
@@ -300,7 +300,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                         {
                             if self.selection_set_valid(
                                 fragment_definition.selection_set(),
-                                parent_type,
+                                scoped_type,
                             ) {
                                 let mut new_parent_fragments = HashSet::new();
                                 new_parent_fragments.clone_from(parent_fragments);
-- 
2.43.0


From ad69ba85f36b96318bad05ae8f425b6bb0d5b2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:22 +0000
Subject: [PATCH 22/33] fix: add the introspection fields to the query root
 only

---
 .../src/ast/definition/definition_document.rs | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/bluejay-parser/src/ast/definition/definition_document.rs b/bluejay-parser/src/ast/definition/definition_document.rs
index 670dd26..e29ac66 100644
--- a/bluejay-parser/src/ast/definition/definition_document.rs
+++ b/bluejay-parser/src/ast/definition/definition_document.rs
@@ -222,24 +222,28 @@ impl<'a, C: Context> DefinitionDocument<'a, C> {
     }
 
     fn add_query_root_fields(&mut self) {
-        let explicit_query_roots: HashSet<&str> = HashSet::from_iter(
-            self.schema_definitions
-                .iter()
-                .flat_map(|schema_definition| {
-                    schema_definition
-                        .root_operation_type_definitions()
-                        .iter()
-                        .filter(|rotd| rotd.operation_type() == OperationType::Query)
-                        .map(|rotd| rotd.name())
-                }),
-        );
+        let query_roots: HashSet<&str> = if self.schema_definitions.is_empty() {
+            HashSet::from(["Query"])
+        } else {
+            HashSet::from_iter(
+                self.schema_definitions
+                    .iter()
+                    .flat_map(|schema_definition| {
+                        schema_definition
+                            .root_operation_type_definitions()
+                            .iter()
+                            .filter(|rotd| rotd.operation_type() == OperationType::Query)
+                            .map(|rotd| rotd.name())
+                    }),
+            )
+        };
 
         self.type_definitions
             .iter_mut()
             .for_each(|type_definition| {
                 if let TypeDefinition::Object(otd) = type_definition {
                     let name = otd.name().as_ref();
-                    if name == "Query" || explicit_query_roots.contains(name) {
+                    if query_roots.contains(name) {
                         otd.add_query_root_fields();
                     }
                 }
-- 
2.43.0


From 8d04ae3e65a2e142e4fa1ad87d15b50c92c8d9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:14 +0000
Subject: [PATCH 23/33] fix: compare the directives applied to arguments of
 directive definitions

---
 .../src/diff/directive_definition_argument.rs | 28 ++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/bluejay-schema-comparator/src/diff/directive_definition_argument.rs b/bluejay-schema-comparator/src/diff/directive_definition_argument.rs
index d60e75c..95edd03 100644
--- a/bluejay-schema-comparator/src/diff/directive_definition_argument.rs
+++ b/bluejay-schema-comparator/src/diff/directive_definition_argument.rs
@@ -1,5 +1,8 @@
 use crate::changes::Change;
-use bluejay_core::definition::{InputType, InputValueDefinition, SchemaDefinition};
+use crate::diff::directive::{common_directive_changes, directive_additions, directive_removals};
+use bluejay_core::definition::{
+    DirectiveLocation, InputType, InputValueDefinition, SchemaDefinition,
+};
 use bluejay_core::Value;
 
 pub struct DirectiveDefinitionArgumentDiff<'a, S: SchemaDefinition> {
@@ -66,6 +69,29 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDefinitionArgumentDiff<'a, S> {
             _ => {}
         }
 
+        changes.extend(
+            directive_additions::<S, _>(self.old_argument_definition, self.new_argument_definition)
+                .map(|directive| Change::DirectiveAdded {
+                    directive,
+                    location: DirectiveLocation::ArgumentDefinition,
+                    member_name: self.old_argument_definition.name(),
+                }),
+        );
+
+        changes.extend(
+            directive_removals::<S, _>(self.old_argument_definition, self.new_argument_definition)
+                .map(|directive| Change::DirectiveRemoved {
+                    directive,
+                    location: DirectiveLocation::ArgumentDefinition,
+                    member_name: self.old_argument_definition.name(),
+                }),
+        );
+
+        changes.extend(common_directive_changes(
+            self.old_argument_definition,
+            self.new_argument_definition,
+        ));
+
         changes
     }
 }
-- 
2.43.0


From de5bf6ae4a9149189712618fcc32eb13d158bef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:14 +0000
Subject: [PATCH 24/33] fix: name enums in messages about applied directives

---
 bluejay-schema-comparator/src/changes.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bluejay-schema-comparator/src/changes.rs b/bluejay-schema-comparator/src/changes.rs
index 82d7de2..1b0aaee 100644
--- a/bluejay-schema-comparator/src/changes.rs
+++ b/bluejay-schema-comparator/src/changes.rs
@@ -1198,6 +1198,7 @@ fn is_change_safe_for_input_value<S: SchemaDefinition>(
 fn directive_location_name(location: &DirectiveLocation) -> &'static str {
     match location {
         DirectiveLocation::ArgumentDefinition => "argument",
+        DirectiveLocation::Enum => "enum",
         DirectiveLocation::EnumValue => "enum value",
         DirectiveLocation::FieldDefinition => "field",
         DirectiveLocation::InputFieldDefinition => "input field",
-- 
2.43.0


From a8c061515d6b0f5968434857de944c7f06ff38a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:42 +0000
Subject: [PATCH 25/33] fix: report the default deprecation reason the schema
 defines

---
 .../src/executable/operation/analyzers/deprecation.rs           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bluejay-validator/src/executable/operation/analyzers/deprecation.rs b/bluejay-validator/src/executable/operation/analyzers/deprecation.rs
index ecdb3d4..a88412d 100644
--- a/bluejay-validator/src/executable/operation/analyzers/deprecation.rs
+++ b/bluejay-validator/src/executable/operation/analyzers/deprecation.rs
@@ -154,7 +154,7 @@ fn get_deprecation_reason<N: HasDirectives>(ast_item: &N) -> Option<&str> {
                         }
                     })
             })
-            .unwrap_or("No longer supported.")
+            .unwrap_or("No longer supported")
     })
 }
 
-- 
2.43.0


From deda0f4cc8869d5516c77f66714706dc2d37faf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:00 +0000
Subject: [PATCH 26/33] fix: list directives applied to the schema definition
 in a scoped schema

Directives used only on the schema definition itself were not visited, so
directive_definitions() (and therefore printing) of a visibility-scoped
schema lacked definitions that its own schema definition applies.
---
 bluejay-visibility/src/schema_definition.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bluejay-visibility/src/schema_definition.rs b/bluejay-visibility/src/schema_definition.rs
index a937691..d783aaf 100644
--- a/bluejay-visibility/src/schema_definition.rs
+++ b/bluejay-visibility/src/schema_definition.rs
@@ -291,6 +291,8 @@ impl<'a, 'b, S: definition::SchemaDefinition, W: Warden<SchemaDefinition = S>>
                 }
             });
 
+        instance.visit_directives(schema_definition.directives.as_ref());
+
         instance.visit_type_definition(TypeDefinitionReference::Object(schema_definition.query));
 
         if let Some(mutation) = schema_definition.mutation {
@@ -407,7 +409,7 @@ impl<'a, 'b, S: definition::SchemaDefinition, W: Warden<SchemaDefinition = S>>
             })
     }
 
-    fn visit_directives(&mut self, directives: Option<&'a Directives<'a, S, W>>) {
+    fn visit_directives(&mut self, directives: Option<&Directives<'a, S, W>>) {
         if let Some(directives) = directives {
             directives.iter().for_each(|directive| {
                 // if this is `None` it means that the schema is invalid, but that is not the responsibility of this visitor
-- 
2.43.0


From 606620ac29bdbc87dea6f1d6583d8d7bf3d70588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:04 +0000
Subject: [PATCH 27/33] fix: report the true line and column of errors

SpanToLocation split lines at characters that are not line terminators in
GraphQL (form feed, vertical tab, U+0085, U+2028, U+2029), gave the end of a
document that ends with a line break a position on the line before, and had
no position (0:0) in an empty document.
---
 bluejay-parser/src/error/format_errors.rs | 81 ++++++++---------------
 1 file changed, 26 insertions(+), 55 deletions(-)

diff --git a/bluejay-parser/src/error/format_errors.rs b/bluejay-parser/src/error/format_errors.rs
index 3278f54..7cc4859 100644
--- a/bluejay-parser/src/error/format_errors.rs
+++ b/bluejay-parser/src/error/format_errors.rs
@@ -1,68 +1,39 @@
-use ariadne::Source;
-
-struct Index {
-    byte: usize,
-    char: usize,
-}
-
-/// `ariadne` uses char indices, but `logos` uses byte indices.
-/// This struct converts byte indices to char indices.
-pub(crate) struct ByteIndexToCharIndex<'a> {
-    document: &'a str,
-    mapping: Vec<Index>,
-}
-
-impl<'a> ByteIndexToCharIndex<'a> {
-    pub(crate) fn new(document: &'a str) -> Self {
-        Self {
-            document,
-            mapping: vec![Index { byte: 0, char: 0 }],
-        }
-    }
-
-    pub(crate) fn convert(&mut self, byte_idx: usize) -> usize {
-        match self
-            .mapping
-            .binary_search_by_key(&byte_idx, |index| index.byte)
-        {
-            Ok(idx) => self.mapping[idx].char,
-            Err(idx) => {
-                let char_idx = self.mapping[idx - 1].char
-                    + self.document[self.mapping[idx - 1].byte..byte_idx]
-                        .chars()
-                        .count();
-                self.mapping.insert(
-                    idx,
-                    Index {
-                        byte: byte_idx,
-                        char: char_idx,
-                    },
-                );
-                char_idx
-            }
-        }
-    }
-}
-
+/// Converts spans to 1-indexed line and column numbers, where columns count characters.
+/// A line ends at one of the line terminators of the
+/// [GraphQL spec](https://spec.graphql.org/draft/#LineTerminator), i.e. `\n`, `\r\n` or `\r`.
 pub struct SpanToLocation<'a> {
-    byte_idx_to_char_idx: ByteIndexToCharIndex<'a>,
-    source: Source<&'a str>,
+    document: &'a str,
+    /// byte index of the start of each line
+    line_starts: Vec<usize>,
 }
 
 impl<'a> SpanToLocation<'a> {
     pub fn new(s: &'a str) -> Self {
+        let bytes = s.as_bytes();
+        let line_starts = std::iter::once(0)
+            .chain(bytes.iter().enumerate().filter_map(|(idx, byte)| {
+                let is_line_end = match byte {
+                    b'\n' => true,
+                    b'\r' => bytes.get(idx + 1) != Some(&b'\n'),
+                    _ => false,
+                };
+                is_line_end.then_some(idx + 1)
+            }))
+            .collect();
         Self {
-            byte_idx_to_char_idx: ByteIndexToCharIndex::new(s),
-            source: Source::from(s),
+            document: s,
+            line_starts,
         }
     }
 
     pub fn convert(&mut self, span: &crate::Span) -> Option<(usize, usize)> {
-        let span = span.byte_range();
-        let start = self.byte_idx_to_char_idx.convert(span.start);
-        self.source
-            .get_offset_line(start)
-            .map(|(_, line, col)| (line + 1, col + 1))
+        let start = span.byte_range().start;
+        let line = self
+            .line_starts
+            .partition_point(|line_start| *line_start <= start);
+        let line_start = self.line_starts[line - 1];
+        let col = self.document.get(line_start..start)?.chars().count();
+        Some((line, col + 1))
     }
 }
 
-- 
2.43.0


From d68d3012fe72c686d8faef085069777c71bf9388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:20 +0000
Subject: [PATCH 28/33] fix: generate types for operations and fragments made
 of one fragment spread

---
 .../executable_field_builder.rs                   |  2 +-
 .../executable_type_builder.rs                    | 15 +++++++++++++++
 .../intermediate_representation.rs                | 12 ++++++++++--
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/bluejay-typegen-macro/src/executable_definition/executable_field_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_field_builder.rs
index a979225..e384d2c 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_field_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_field_builder.rs
@@ -110,7 +110,7 @@ impl<'a, S: SchemaDefinition> ExecutableFieldBuilder<'a, S> {
                 ExecutableType::BuiltinScalar { bstd, .. } => {
                     builtin_scalar_type(*bstd, self.config)
                 }
-                ExecutableType::FragmentDefinitionReference { name, borrows } => {
+                ExecutableType::FragmentDefinitionReference { name, borrows, .. } => {
                     let prefix = self.prefix_for_executable_document_module();
                     let type_ident = type_ident(name);
                     let lifetime: Option<syn::Generics> = borrows.then(|| parse_quote! { <'a> });
diff --git a/bluejay-typegen-macro/src/executable_definition/executable_type_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_type_builder.rs
index 49b55d7..6a234ec 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_type_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_type_builder.rs
@@ -1,8 +1,10 @@
 use crate::{
     executable_definition::{ExecutableEnumBuilder, ExecutableStructBuilder, ExecutableType},
+    names::type_ident,
     Config,
 };
 use bluejay_core::definition::SchemaDefinition;
+use syn::parse_quote;
 
 pub(crate) struct ExecutableTypeBuilder;
 
@@ -15,6 +17,19 @@ impl ExecutableTypeBuilder {
         match executable_type {
             ExecutableType::Struct(es) => ExecutableStructBuilder::build(es, config, depth),
             ExecutableType::Enum(ee) => ExecutableEnumBuilder::build(ee, config, depth),
+            // an operation or fragment definition whose selection set is a single fragment spread
+            ExecutableType::FragmentDefinitionReference {
+                parent_name,
+                name,
+                borrows,
+            } if depth == 0 => {
+                let alias_ident = type_ident(parent_name);
+                let fragment_ident = type_ident(name);
+                let lifetime: Option<syn::Generics> = borrows.then(|| parse_quote! { <'a> });
+                vec![parse_quote! {
+                    pub type #alias_ident #lifetime = #fragment_ident #lifetime;
+                }]
+            }
             ExecutableType::FragmentDefinitionReference { .. }
             | ExecutableType::Leaf { .. }
             | ExecutableType::BuiltinScalar { .. } => Vec::new(),
diff --git a/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs b/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
index e5e9168..e09fb5d 100644
--- a/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
+++ b/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
@@ -23,7 +23,12 @@ pub(crate) enum ExecutableType<'a> {
     /// A selection set that contains only a single named fragment spread
     /// Note: the `borrows` field may incorrectly be false during construction, but
     /// will be updated later
-    FragmentDefinitionReference { name: &'a str, borrows: bool },
+    FragmentDefinitionReference {
+        /// name of either the operation, fragment, or field that owns the selection set
+        parent_name: &'a str,
+        name: &'a str,
+        borrows: bool,
+    },
     BuiltinScalar {
         bstd: BuiltinScalarDefinition,
         borrows: bool,
@@ -67,7 +72,7 @@ impl<'a> ExecutableType<'a> {
                     });
                 });
             }
-            Self::FragmentDefinitionReference { name, borrows } => {
+            Self::FragmentDefinitionReference { name, borrows, .. } => {
                 *borrows = fragment_definitions_contains_reference_types[name];
             }
             Self::Leaf { .. } | Self::BuiltinScalar { .. } => {}
@@ -408,6 +413,7 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> ExecutableDocumentToExecuta
                         })
                     }
                     Either::Right(fragment_spread) => ExecutableType::FragmentDefinitionReference {
+                        parent_name,
                         name: fragment_spread.name(),
                         borrows: false, // will get updated later
                     },
@@ -435,6 +441,7 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> ExecutableDocumentToExecuta
                         })
                     }
                     Either::Right(fragment_spread) => ExecutableType::FragmentDefinitionReference {
+                        parent_name,
                         name: fragment_spread.name(),
                         borrows: false, // will get updated later
                     },
@@ -480,6 +487,7 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> ExecutableDocumentToExecuta
                         })
                     }
                     Either::Right(fragment_spread) => ExecutableType::FragmentDefinitionReference {
+                        parent_name,
                         name: fragment_spread.name(),
                         borrows: false, // will get updated later
                     },
-- 
2.43.0


From 33a564f4619f44f114bdd59aa60786155a980d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:20 +0000
Subject: [PATCH 29/33] fix: miniserde types for queries with a field named out

---
 .../src/executable_definition/executable_struct_builder.rs  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs
index 0d4b231..5293dda 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs
@@ -140,7 +140,7 @@ impl<'a, S: SchemaDefinition> ExecutableStructBuilder<'a, S> {
 
                     struct #builder_ident<'a> {
                         #(#builder_fields,)*
-                        out: &'a mut ::std::option::Option<#name_ident>,
+                        __out: &'a mut ::std::option::Option<#name_ident>,
                     }
 
                     impl<'a> ::bluejay_typegen::miniserde::de::Map for #builder_ident<'a> {
@@ -153,7 +153,7 @@ impl<'a, S: SchemaDefinition> ExecutableStructBuilder<'a, S> {
 
                         fn finish(&mut self) -> ::bluejay_typegen::miniserde::Result<()> {
                             #(let #field_idents = self.#field_idents.take().ok_or(::bluejay_typegen::miniserde::Error)?;)*
-                            *self.out = ::std::option::Option::Some(#name_ident { #(#field_idents,)* });
+                            *self.__out = ::std::option::Option::Some(#name_ident { #(#field_idents,)* });
                             ::std::result::Result::Ok(())
                         }
                     }
@@ -162,7 +162,7 @@ impl<'a, S: SchemaDefinition> ExecutableStructBuilder<'a, S> {
                         fn map(&mut self) -> ::bluejay_typegen::miniserde::Result<::std::boxed::Box<dyn ::bluejay_typegen::miniserde::de::Map + '_>> {
                             ::std::result::Result::Ok(::std::boxed::Box::new(#builder_ident {
                                 #(#field_idents: ::std::option::Option::None,)*
-                                out: &mut self.out,
+                                __out: &mut self.out,
                             }))
                         }
                     }
-- 
2.43.0


From 61b1c26f14e86d3f39739857e5fb2ffc855f5c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:43 +0000
Subject: [PATCH 30/33] fix: generate identifiers for names that cannot be raw
 identifiers

---
 bluejay-typegen-macro/src/names.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bluejay-typegen-macro/src/names.rs b/bluejay-typegen-macro/src/names.rs
index 46f07ab..4d3a97c 100644
--- a/bluejay-typegen-macro/src/names.rs
+++ b/bluejay-typegen-macro/src/names.rs
@@ -38,14 +38,19 @@ pub(crate) fn module_ident(graphql_name: &str) -> Ident {
 
 fn to_ident(name: &str) -> Ident {
     match name {
-        "as" | "break" | "const" | "continue" | "crate" | "else" | "enum" | "extern" | "false"
-        | "fn" | "for" | "if" | "impl" | "in" | "let" | "loop" | "match" | "mod" | "move"
-        | "mut" | "pub" | "ref" | "return" | "self" | "Self" | "static" | "struct" | "super"
-        | "trait" | "true" | "type" | "unsafe" | "use" | "where" | "while" | "async" | "await"
+        // keywords that cannot be raw identifiers
+        "crate" | "self" | "Self" | "super" => format_ident!("{}_", name),
+        "as" | "break" | "const" | "continue" | "else" | "enum" | "extern" | "false" | "fn"
+        | "for" | "if" | "impl" | "in" | "let" | "loop" | "match" | "mod" | "move" | "mut"
+        | "pub" | "ref" | "return" | "static" | "struct" | "trait" | "true" | "type" | "unsafe"
+        | "use" | "where" | "while" | "async" | "await"
         | "dyn" | "abstract" | "become" | "box" | "do" | "final" | "macro" | "override"
         | "priv" | "typeof" | "unsized" | "virtual" | "yield" | "try" | "union" => {
             format_ident!("r#{}", name)
         }
+        // the underscores that keep a name from being empty or starting with a digit are lost by the case conversion
+        "" => format_ident!("__"),
+        _ if name.starts_with(|c: char| c.is_ascii_digit()) => format_ident!("_{}", name),
         _ => format_ident!("{}", name),
     }
 }
-- 
2.43.0


From a057fc4f005e11d632e7963207ecd52c8943c316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:07 +0000
Subject: [PATCH 31/33] fix: omit required input fields left to their default
 value

---
 .../src/input_object_type_definition.rs       | 62 ++++++++++++++++---
 1 file changed, 52 insertions(+), 10 deletions(-)

diff --git a/bluejay-typegen-macro/src/input_object_type_definition.rs b/bluejay-typegen-macro/src/input_object_type_definition.rs
index 2ba045a..5c7768e 100644
--- a/bluejay-typegen-macro/src/input_object_type_definition.rs
+++ b/bluejay-typegen-macro/src/input_object_type_definition.rs
@@ -77,6 +77,7 @@ impl<'a, S: SchemaDefinition> InputObjectTypeDefinitionBuilder<'a, S> {
         let field_type_paths = self.field_type_paths();
         let field_serde_rename_attributes = self.field_serde_rename_attributes();
         let field_serde_borrow_attributes = self.field_serde_borrow_attributes();
+        let field_serde_skip_attributes = self.field_serde_skip_attributes();
         let lifetime = self.lifetime(self.input_object_type_definition);
 
         let mut items = vec![parse_quote! {
@@ -86,6 +87,7 @@ impl<'a, S: SchemaDefinition> InputObjectTypeDefinitionBuilder<'a, S> {
                     #field_description_attributes
                     #field_serde_rename_attributes
                     #field_serde_borrow_attributes
+                    #field_serde_skip_attributes
                     pub #field_idents: #field_type_paths,
                 )*
             }
@@ -194,6 +196,32 @@ impl<'a, S: SchemaDefinition> InputObjectTypeDefinitionBuilder<'a, S> {
             .collect()
     }
 
+    /// Whether each field may be left out but must not be `null`, because it is non-null with a default value
+    fn fields_omitted_when_none(&self) -> Vec<bool> {
+        self.input_object_type_definition
+            .input_field_definitions()
+            .iter()
+            .map(|ivd| {
+                ivd.default_value().is_some()
+                    && ivd
+                        .r#type()
+                        .as_ref(self.config.schema_definition())
+                        .is_required()
+            })
+            .collect()
+    }
+
+    fn field_serde_skip_attributes(&self) -> Vec<Option<syn::Attribute>> {
+        self.fields_omitted_when_none()
+            .into_iter()
+            .map(|omitted_when_none| {
+                (omitted_when_none && self.config.codec() == Codec::Serde).then(
+                    || parse_quote!(#[serde(skip_serializing_if = "::std::option::Option::is_none")]),
+                )
+            })
+            .collect()
+    }
+
     fn field_serde_borrow_attributes(&self) -> Vec<Option<syn::Attribute>> {
         self.input_object_type_definition
             .input_field_definitions()
@@ -404,6 +432,15 @@ impl<'a, S: SchemaDefinition> InputObjectTypeDefinitionBuilder<'a, S> {
             let field_idents = self.field_idents();
             let serialized_as = self.field_serialized_as();
             let states = (0..self.field_idents().len()).collect::<Vec<_>>();
+            let (omitted_states, omitted_field_idents): (Vec<usize>, Vec<&syn::Ident>) = self
+                .fields_omitted_when_none()
+                .into_iter()
+                .zip(&field_idents)
+                .enumerate()
+                .filter_map(|(state, (omitted_when_none, field_ident))| {
+                    omitted_when_none.then_some((state, field_ident))
+                })
+                .unzip();
 
             parse_quote! {
                 const _: () = {
@@ -414,16 +451,21 @@ impl<'a, S: SchemaDefinition> InputObjectTypeDefinitionBuilder<'a, S> {
 
                     impl<'a> ::bluejay_typegen::miniserde::ser::Map for #stream_ident<'a> {
                         fn next(&mut self) -> ::std::option::Option<(::std::borrow::Cow<::std::primitive::str>, &dyn ::bluejay_typegen::miniserde::ser::Serialize)> {
-                            let state = self.state;
-                            self.state += 1;
-                            match state {
-                                #(
-                                    #states => ::std::option::Option::Some((
-                                        ::std::borrow::Cow::Borrowed(#serialized_as),
-                                        &self.data.#field_idents,
-                                    )),
-                                )*
-                                _ => ::std::option::Option::None,
+                            loop {
+                                let state = self.state;
+                                self.state += 1;
+                                return match state {
+                                    #(
+                                        #omitted_states if ::std::option::Option::is_none(&self.data.#omitted_field_idents) => continue,
+                                    )*
+                                    #(
+                                        #states => ::std::option::Option::Some((
+                                            ::std::borrow::Cow::Borrowed(#serialized_as),
+                                            &self.data.#field_idents,
+                                        )),
+                                    )*
+                                    _ => ::std::option::Option::None,
+                                };
                             }
                         }
                     }
-- 
2.43.0


From ce62f2639b42cb9abc49153734967f24c565ccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:23 +0000
Subject: [PATCH 32/33] fix: refuse fragment spreads on unions that do not
 target the union

---
 bluejay-typegen-macro/src/validation/error.rs        | 11 +++++++++++
 .../src/validation/selections_are_valid.rs           | 12 +++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/bluejay-typegen-macro/src/validation/error.rs b/bluejay-typegen-macro/src/validation/error.rs
index 57d5634..d796eb7 100644
--- a/bluejay-typegen-macro/src/validation/error.rs
+++ b/bluejay-typegen-macro/src/validation/error.rs
@@ -37,6 +37,9 @@ pub(crate) enum Error<'a, E: ExecutableDocument, S: SchemaDefinition> {
     FragmentSpreadOnInterfaceInvalidTarget {
         fragment_spread: &'a E::FragmentSpread,
     },
+    FragmentSpreadOnUnionInvalidTarget {
+        fragment_spread: &'a E::FragmentSpread,
+    },
     FragmentAndOperationNamesClash {
         operation_definition: &'a E::OperationDefinition,
         fragment_definition: &'a E::FragmentDefinition,
@@ -127,6 +130,14 @@ impl<'a, S: SchemaDefinition> From<Error<'a, ParserExecutableDocument<'a>, S>> f
                 )),
                 Vec::new(),
             ),
+            Error::FragmentSpreadOnUnionInvalidTarget { fragment_spread } => Self::new(
+                format!("{CRATE_NAME} requires fragment spreads on unions to target the union"),
+                Some(Annotation::new(
+                    "Fragment spread on union type",
+                    fragment_spread.span().clone(),
+                )),
+                Vec::new(),
+            ),
             Error::FragmentAndOperationNamesClash { operation_definition, fragment_definition } => Self::new(
                 format!("{CRATE_NAME} requires fragment and operation names to be unique, but encountered a clash with name `{}`", fragment_definition.name().as_ref()),
                 Some(Annotation::new(
diff --git a/bluejay-typegen-macro/src/validation/selections_are_valid.rs b/bluejay-typegen-macro/src/validation/selections_are_valid.rs
index cb7d7e3..669c449 100644
--- a/bluejay-typegen-macro/src/validation/selections_are_valid.rs
+++ b/bluejay-typegen-macro/src/validation/selections_are_valid.rs
@@ -148,7 +148,17 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> SelectionsAreValid<'a, E, S
         union_type_definition: &'a S::UnionTypeDefinition,
     ) {
         match self.isolated_fragment_spread(selection_set) {
-            Ok(Some(_)) => {
+            Ok(Some(fragment_spread)) => {
+                // The generated type assumes that the fragment spread is always present, which only
+                // holds for every member of the union when the fragment targets the union itself.
+                let fragment_definition = self
+                    .cache
+                    .fragment_definition(fragment_spread.name())
+                    .unwrap();
+                if fragment_definition.type_condition() != union_type_definition.name() {
+                    self.errors
+                        .push(Error::FragmentSpreadOnUnionInvalidTarget { fragment_spread });
+                }
                 return;
             }
             Ok(None) => {}
-- 
2.43.0


From 4b0da72cc4b2405810fbe432529963691682efa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:40 +0000
Subject: [PATCH 33/33] fix: let miniserde types take responses without a
 skipped nullable field

---
 .../src/executable_definition/executable_enum_builder.rs        | 2 +-
 .../src/executable_definition/executable_struct_builder.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs
index 5cf04a6..2de0f40 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs
@@ -174,7 +174,7 @@ impl<'a, S: SchemaDefinition> ExecutableEnumBuilder<'a, S> {
 
                     parse_quote! {
                         #serialized_as => {
-                            self.out = ::std::option::Option::Some(#builder_state_ident::#name_ident { #(#field_idents: ::std::option::Option::None,)* });
+                            self.out = ::std::option::Option::Some(#builder_state_ident::#name_ident { #(#field_idents: ::bluejay_typegen::miniserde::de::Deserialize::default(),)* });
                             ::std::result::Result::Ok(())
                         }
                     }
diff --git a/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs
index 5293dda..d1afaac 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs
@@ -161,7 +161,7 @@ impl<'a, S: SchemaDefinition> ExecutableStructBuilder<'a, S> {
                     impl ::bluejay_typegen::miniserde::de::Visitor for __Place<#name_ident> {
                         fn map(&mut self) -> ::bluejay_typegen::miniserde::Result<::std::boxed::Box<dyn ::bluejay_typegen::miniserde::de::Map + '_>> {
                             ::std::result::Result::Ok(::std::boxed::Box::new(#builder_ident {
-                                #(#field_idents: ::std::option::Option::None,)*
+                                #(#field_idents: ::bluejay_typegen::miniserde::de::Deserialize::default(),)*
                                 __out: &mut self.out,
                             }))
                         }
-- 
2.43.0

