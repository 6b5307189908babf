From 78bf1dadd48e90c45af4d0babd4df2f7cd7de235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:32 +0000
Subject: [PATCH 01/23] fix: keep the list level below a nullable list of
 non-null lists

---
 src/graphql/schema/field.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/graphql/schema/field.rs b/src/graphql/schema/field.rs
index 6bd21e4..59c427b 100644
--- a/src/graphql/schema/field.rs
+++ b/src/graphql/schema/field.rs
@@ -119,9 +119,10 @@ impl ModifierBuilder {
                     .push(FieldTypeModifier::NullableListOfNullable);
                 FieldTypeModifier::NullableListOfNullable
             }
-            old_concrete => {
-                self.higher_order_modifiers.push(old_concrete.clone());
-                FieldTypeModifier::new()
+            FieldTypeModifier::NullableList => {
+                self.higher_order_modifiers
+                    .push(FieldTypeModifier::NullableList);
+                FieldTypeModifier::ListOfNullable
             }
         };
     }
-- 
2.43.0


From 70b30a9fdfcd851324e03d5a5bc743a7c3eaa69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 02/23] fix: keep every list level of input object fields

---
 src/typescript.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/typescript.rs b/src/typescript.rs
index 8ac2104..c55d844 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -102,23 +102,24 @@ fn input_def_from_type(
     for (name, field) in sorted.into_iter() {
         let doc = compile_documentation(&field.documentation, field.deprecated, 2);
         let field_type = from_input_def_field_def(config, name, field)?;
-        let ts_field = match field.type_description.type_modifiers().last() {
-            schema_field::FieldTypeModifier::None => format!("  {doc}{name}: {field_type};"),
-            schema_field::FieldTypeModifier::Nullable => {
-                format!("  {doc}{name}?: {field_type} | null;")
-            }
-            schema_field::FieldTypeModifier::NullableList => {
-                format!("  {doc}{name}?: {field_type}[] | null;")
-            }
-            schema_field::FieldTypeModifier::List => {
-                format!("  {doc}{name}: {field_type}[];")
-            }
-            schema_field::FieldTypeModifier::ListOfNullable => {
-                format!("  {doc}{name}: ({field_type} | null)[];")
-            }
-            schema_field::FieldTypeModifier::NullableListOfNullable => {
-                format!("  {doc}{name}?: ({field_type} | null)[] | null;")
+        let type_modifiers = field.type_description.type_modifiers();
+        let type_def = prop_type_def(
+            type_modifiers.rest_modifiers_iter(),
+            type_modifiers.last(),
+            field_type,
+        );
+        // The outermost modifier decides whether the field can be left out
+        let outermost_modifier = type_modifiers
+            .rest_modifiers_iter()
+            .last()
+            .unwrap_or_else(|| type_modifiers.last());
+        let ts_field = match outermost_modifier {
+            schema_field::FieldTypeModifier::Nullable
+            | schema_field::FieldTypeModifier::NullableList
+            | schema_field::FieldTypeModifier::NullableListOfNullable => {
+                format!("  {doc}{name}?: {type_def};")
             }
+            _ => format!("  {doc}{name}: {type_def};"),
         };
         fields.push(ts_field);
     }
-- 
2.43.0


From efb8f3b0b1d8076a22cb522f25725e3d8a2f9ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:42 +0000
Subject: [PATCH 03/23] fix: do not overflow the stack on recursive input
 objects

---
 src/typescript.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/typescript.rs b/src/typescript.rs
index c55d844..e4a9537 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -172,8 +172,10 @@ fn add_sub_input_object_field<'a>(
             let global_type = schema
                 .get_type_for_name(type_name)
                 .ok_or_else(|| Error::MissingType(type_name.to_string()))?;
-            name_to_type.insert(type_name, global_type);
-            add_sub_input_objects(name_to_type, schema, global_type)?;
+            // Input objects can refer to themselves, directly or through others
+            if name_to_type.insert(type_name, global_type).is_none() {
+                add_sub_input_objects(name_to_type, schema, global_type)?;
+            }
         }
         schema_field::FieldTypeDefinition::Enum => {
             let global_type = schema
-- 
2.43.0


From 285f4b591f8a51d475eef66da07a6392882ccb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:43 +0000
Subject: [PATCH 04/23] fix: do not let documentation close its own comment

---
 src/typescript.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/typescript.rs b/src/typescript.rs
index e4a9537..0c30692 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -247,9 +247,12 @@ fn compile_documentation(
     let tab = " ".repeat(tab_width);
 
     let processed_documentation = documentation.as_deref().map(|docs| {
-        docs.replace('\n', &format!("\n {tab}* "))
-            .replace("/*", EMPTY)
-            .replace("*/", EMPTY)
+        let mut docs = docs.replace('\n', &format!("\n {tab}* "));
+        // Removing a delimiter can bring the two halves of another one together
+        while docs.contains("/*") || docs.contains("*/") {
+            docs = docs.replace("/*", EMPTY).replace("*/", EMPTY);
+        }
+        docs
     });
 
     let wrap = |content: &str| format!("/**\n {tab}* {content}\n {tab}*/\n{tab}");
-- 
2.43.0


From 92754ce50c338b593030ded1474946d96bd73fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:27 +0000
Subject: [PATCH 05/23] fix: only merge possible types whose nested selections
 agree

---
 src/graphql/schema/field.rs |  6 +++---
 src/typescript.rs           | 35 +++++++++++++++++++++++++++++++----
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/graphql/schema/field.rs b/src/graphql/schema/field.rs
index 59c427b..954a7b1 100644
--- a/src/graphql/schema/field.rs
+++ b/src/graphql/schema/field.rs
@@ -1,7 +1,7 @@
 use super::{json, Documentation, Error};
 use std::convert::{TryFrom, TryInto};
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub enum ScalarType {
     Custom(String),
     Boolean,
@@ -44,7 +44,7 @@ impl FieldTypeDefinition {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub enum FieldTypeModifier {
     /// No modifier or "flat"
     None,
@@ -128,7 +128,7 @@ impl ModifierBuilder {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub struct FieldTypeModifiers {
     last: FieldTypeModifier,
     rest: Vec<FieldTypeModifier>,
diff --git a/src/typescript.rs b/src/typescript.rs
index 0c30692..fffbbeb 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -321,6 +321,28 @@ fn field_ids_for_complex_ir(complex: &ir::Complex) -> HashSet<&str> {
         .collect()
 }
 
+/// Whether two types have the same fields with the same types, whatever their names and documentation.
+fn has_same_fields(a: &ir::Complex, b: &ir::Complex) -> bool {
+    a.fields.len() == b.fields.len()
+        && a.fields.iter().zip(&b.fields).all(|(a, b)| {
+            a.prop_name == b.prop_name
+                && a.type_modifiers == b.type_modifiers
+                && match (&a.type_ir, &b.type_ir) {
+                    (ir::FieldType::TypeName, ir::FieldType::TypeName) => true,
+                    (ir::FieldType::Enum(a), ir::FieldType::Enum(b)) => a == b,
+                    (ir::FieldType::Scalar(a), ir::FieldType::Scalar(b)) => a == b,
+                    (ir::FieldType::Complex(a), ir::FieldType::Complex(b)) => {
+                        a.possibilities.len() == b.possibilities.len()
+                            && a.possibilities
+                                .iter()
+                                .zip(&b.possibilities)
+                                .all(|(a, b)| a.name == b.name && has_same_fields(a, b))
+                    }
+                    _ => false,
+                }
+        })
+}
+
 fn type_definitions_from_smoosh_complex_ir<'a>(
     config: &CompileConfig,
     global_types: &mut HashSet<String>,
@@ -357,18 +379,23 @@ fn type_definitions_from_complex_field_collection(
     // of common/completely repeated properties, since this is so common for interface types.
     let mut common_props = field_ids_for_complex_ir(first_possiblity);
     let mut all_fields = Vec::with_capacity(collection.possibilities.len());
-    all_fields.push((&first_possiblity.name[..], common_props.clone()));
+    all_fields.push((first_possiblity, common_props.clone()));
     for possibility in &collection.possibilities[1..] {
         let pos_props = field_ids_for_complex_ir(possibility);
         common_props.retain(|prop_name| pos_props.contains(prop_name));
-        all_fields.push((&possibility.name[..], pos_props));
+        all_fields.push((possibility, pos_props));
     }
 
     // These will represent all the types can can be smooshed down
-    let repeated_possiblities: HashSet<&str> = all_fields
+    let candidates: Vec<&ir::Complex> = all_fields
         .into_iter()
         .filter(|(_, fields)| common_props == *fields)
-        .map(|(name, _)| name)
+        .map(|(possibility, _)| possibility)
+        .collect();
+    let repeated_possiblities: HashSet<&str> = candidates
+        .iter()
+        .filter(|possibility| has_same_fields(candidates[0], possibility))
+        .map(|possibility| &possibility.name[..])
         .collect();
 
     let num_repeats = repeated_possiblities.len();
-- 
2.43.0


From 02653d12695b54a3521ec60c19f64d0e552fe0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:28 +0000
Subject: [PATCH 06/23] fix: do not panic on an import without closing quote

---
 src/graphql.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index a07afad..c04d2ae 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -104,10 +104,10 @@ fn get_file_path_of_fragment(
     import_comment: &str,
     current_dir: &Path,
 ) -> PathBuf {
-    let last_quote = import_comment
+    let import_path = &import_comment[IMPORT_START.len()..];
+    let import_path = import_path
         .rfind('"')
-        .unwrap_or(import_comment.len() - 1);
-    let import_path = &import_comment[IMPORT_START.len()..last_quote];
+        .map_or(import_path, |last_quote| &import_path[..last_quote]);
 
     config
         .root_dir_import_prefix
-- 
2.43.0


From 554e6fe53843ca1d5e2444ffba05c0769b8a4e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:28 +0000
Subject: [PATCH 07/23] fix: choose the plural of warnings by their own number

---
 src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index bb46df6..022a15c 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -544,7 +544,7 @@ pub fn print_exit_info(exit_info: impl ExitInformation) -> ! {
         );
     }
     if warning_count > 0 {
-        let plural = if error_count > 1 { "s" } else { "" };
+        let plural = if warning_count > 1 { "s" } else { "" };
         println!(
             "{}",
             PrintableMessage::new_simple_compile_warning(&format!(
-- 
2.43.0


From 40f20936aafe57c238fe28d04e3038090e0a3159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 08/23] fix: compile with one thread when zero are asked for

---
 src/cli.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index 022a15c..284d08b 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -442,7 +442,8 @@ impl RuntimeConfig {
             number_threads: cli_args
                 .num_threads
                 .or(config_file_args.num_threads)
-                .unwrap_or_else(|| std::cmp::min(num_cpus::get(), 8)),
+                .unwrap_or_else(|| std::cmp::min(num_cpus::get(), 8))
+                .max(1),
             root_dir_import_prefix: cli_args
                 .root_dir_import_prefix
                 .or(config_file_args.root_dir_import_prefix),
-- 
2.43.0


From 63fcb9d07f8cfe096a0762aa56f34a051bd50302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:30 +0000
Subject: [PATCH 09/23] fix: report every failure of a document, and name the
 file a failed write was for

---
 src/graphql.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index c04d2ae..aff0e34 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -254,12 +254,13 @@ pub fn compile_file(
     };
 
     let output_path = path.with_extension("graphql.d.ts");
-    std::fs::write(&output_path, the_compile.contents).map_err(|io_error| {
-        vec![PrintableMessage::new_compile_error_from_write_io_error(
+    if let Err(io_error) = std::fs::write(&output_path, the_compile.contents) {
+        messages.push(PrintableMessage::new_compile_error_from_write_io_error(
             &io_error,
             &output_path,
-        )]
-    })?;
+        ));
+        return Err(messages);
+    }
 
     Ok(CompileReport {
         messages,
@@ -290,8 +291,8 @@ pub fn compile_global_types_file(
     } else {
         output_path.with_extension("ts")
     };
-    std::fs::write(output_path_with_ext, the_compile.contents).map_err(|io_error| {
-        PrintableMessage::new_compile_error_from_write_io_error(&io_error, root_path)
+    std::fs::write(&output_path_with_ext, the_compile.contents).map_err(|io_error| {
+        PrintableMessage::new_compile_error_from_write_io_error(&io_error, &output_path_with_ext)
     })?;
     Ok(())
 }
-- 
2.43.0


From c74242987a5d950a85aa50387cb3b61b4c1b24e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:57 +0000
Subject: [PATCH 10/23] fix: choose between imported fragments of one name by
 path, not by hash order

---
 src/graphql.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index aff0e34..a4fcf87 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -2,7 +2,7 @@ use super::cli::{LocationInformation, PrintableMessage, RuntimeConfig};
 use crate::typescript;
 use graphql_parser::query::{Definition, Document, FragmentDefinition, OperationDefinition};
 use schema::Schema;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::fs::File;
 use std::io::{BufReader, Read};
 use std::path::{Path, PathBuf};
@@ -127,7 +127,7 @@ fn add_imported_fragments(
     config: &CompileConfig,
     current_file: &Path,
     current_file_contents: &str,
-    import_contents: &mut HashMap<PathBuf, (String, LocationInformation)>,
+    import_contents: &mut BTreeMap<PathBuf, (String, LocationInformation)>,
     messages: &mut Vec<PrintableMessage>,
 ) {
     let mut current_dir = current_file.to_owned();
@@ -168,7 +168,7 @@ fn add_imported_fragments(
 
 fn parse_foreign_fragments<'a>(
     path: &Path,
-    imported_contents: &'a HashMap<PathBuf, (String, LocationInformation)>,
+    imported_contents: &'a BTreeMap<PathBuf, (String, LocationInformation)>,
     messages: &mut Vec<PrintableMessage>,
 ) -> HashMap<String, FragmentDefinition<'a, ParsedTextType>> {
     let mut parsed_imported_fragments = HashMap::new();
@@ -208,7 +208,7 @@ pub fn compile_file(
     let parsed = parse_graphql_file(&contents, path).map_err(|e| vec![e])?;
 
     let mut messages = Vec::new();
-    let mut imported_contents = HashMap::new();
+    let mut imported_contents = BTreeMap::new();
     add_imported_fragments(
         config,
         path,
-- 
2.43.0


From 124c139c162d4787558be5906dbf50f50fd90f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 11/23] fix: end on cyclic imports and report cyclic fragment
 spreads

---
 src/graphql.rs    | 23 ++++++++++++-----
 src/graphql/ir.rs | 66 ++++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 81 insertions(+), 8 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index a4fcf87..2e05f69 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -128,6 +128,7 @@ fn add_imported_fragments(
     current_file: &Path,
     current_file_contents: &str,
     import_contents: &mut BTreeMap<PathBuf, (String, LocationInformation)>,
+    visited: &mut HashSet<PathBuf>,
     messages: &mut Vec<PrintableMessage>,
 ) {
     let mut current_dir = current_file.to_owned();
@@ -155,13 +156,20 @@ fn add_imported_fragments(
                 continue;
             }
         };
-        add_imported_fragments(
-            config,
-            &file_path,
-            &other_file_contents,
-            import_contents,
-            messages,
-        );
+        // Files can import each other, so only follow the imports of a file once
+        let real_path = file_path
+            .canonicalize()
+            .unwrap_or_else(|_| file_path.clone());
+        if visited.insert(real_path) {
+            add_imported_fragments(
+                config,
+                &file_path,
+                &other_file_contents,
+                import_contents,
+                visited,
+                messages,
+            );
+        }
         import_contents.insert(file_path, (other_file_contents, location));
     }
 }
@@ -214,6 +222,7 @@ pub fn compile_file(
         path,
         &contents,
         &mut imported_contents,
+        &mut HashSet::new(),
         &mut messages,
     );
     let parsed_imported_fragments =
diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index c726853..d6c51bb 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -6,7 +6,7 @@ use crate::graphql::variable;
 use graphql_parser::query as parsed_query;
 use graphql_parser::Pos;
 use std::collections::hash_map::Entry;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::convert::{TryFrom, TryInto};
 use std::path::Path;
 
@@ -89,6 +89,7 @@ impl ForeignFragmentJumpState {
 pub enum Error {
     SelectionSetAsOperationUnsupported(Pos),
     UnknownFragment(String, Pos, Vec<String>),
+    CyclicFragment(String, Pos),
     MissingTypeConditionOnInlineFragment(Pos),
     SelectionSetOnWrongType(String, Pos),
     MissingSelectionSetOnType(String, Pos),
@@ -134,6 +135,13 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
                     Some(&format!("This fragment name doesn't appear to be in scope.{extra}")),
                 )
             }
+            Error::CyclicFragment(name, position) => PrintableMessage::new_compile_error(
+                &format!("fragment `{name}` spreads itself"),
+                file_path,
+                contents,
+                &position,
+                Some("Spreading a fragment must not lead back to that fragment."),
+            ),
             Error::MissingTypeConditionOnInlineFragment(position) => PrintableMessage::new_compile_error(
                 "fragment missing type condition on inline fragment",
                 file_path,
@@ -214,6 +222,47 @@ impl<'a, 'b> CompileContext<'a, 'b> {
     fn push_warning(&self, warning: Warning) {
         self.warnings.borrow_mut().push(warning);
     }
+
+    /// Whether expanding the spreads of a selection set never ends
+    fn has_cyclic_spread<'c>(
+        &'c self,
+        selection_set: &'c parsed_query::SelectionSet<'_, ParsedTextType>,
+        expanding: &mut Vec<&'c str>,
+        expanded: &mut HashSet<&'c str>,
+    ) -> bool {
+        selection_set.items.iter().any(|selection| match selection {
+            parsed_query::Selection::Field(field) => {
+                self.has_cyclic_spread(&field.selection_set, expanding, expanded)
+            }
+            parsed_query::Selection::InlineFragment(fragment) => {
+                self.has_cyclic_spread(&fragment.selection_set, expanding, expanded)
+            }
+            parsed_query::Selection::FragmentSpread(spread) => {
+                self.is_cyclic_fragment(&spread.fragment_name, expanding, expanded)
+            }
+        })
+    }
+
+    fn is_cyclic_fragment<'c>(
+        &'c self,
+        name: &'c str,
+        expanding: &mut Vec<&'c str>,
+        expanded: &mut HashSet<&'c str>,
+    ) -> bool {
+        if expanding.contains(&name) {
+            return true;
+        }
+        let Some(fragment) = self.imported_fragments.get(name) else {
+            return false;
+        };
+        if !expanded.insert(name) {
+            return false;
+        }
+        expanding.push(name);
+        let is_cyclic = self.has_cyclic_spread(&fragment.selection_set, expanding, expanded);
+        expanding.pop();
+        is_cyclic
+    }
 }
 
 // For a few conversions with ?
@@ -743,6 +792,21 @@ fn collect_fields_from_selection_set<'a, 'b>(
             }
             parsed_query::Selection::FragmentSpread(spread) => {
                 match context.imported_fragments.get(&spread.fragment_name) {
+                    // Foreign fragments have been checked when they were spread in the local file
+                    Some(_)
+                        if jump_state.is_local()
+                            && context.is_cyclic_fragment(
+                                &spread.fragment_name,
+                                &mut Vec::new(),
+                                &mut HashSet::new(),
+                            ) =>
+                    {
+                        errors.push(Error::CyclicFragment(
+                            spread.fragment_name.clone(),
+                            spread.position,
+                        ));
+                        continue;
+                    }
                     Some(fragment_def) => {
                         let parsed_query::TypeCondition::On(ref type_name) =
                             fragment_def.type_condition;
-- 
2.43.0


From 1612cc26b08620fa358ff17d4b829fe0cf244a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:51 +0000
Subject: [PATCH 12/23] fix: merge selections of one response key whatever
 their declared types

---
 src/graphql/ir.rs | 59 +++++++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index d6c51bb..331a0b8 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -110,6 +110,10 @@ pub enum Error {
         terminal_type_name: String,
         complex_type_name: String,
     },
+    MixedTerminalFields {
+        first_type_name: String,
+        second_type_name: String,
+    },
 }
 
 impl From<(&str, &Path, Error)> for PrintableMessage {
@@ -201,6 +205,11 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
                     &format!("unexpectedly attempting merge of complex type `{complex_type_name}` and terminal type `{terminal_type_name}`."),
                 )
             }
+            Error::MixedTerminalFields { first_type_name, second_type_name } => {
+                PrintableMessage::new_simple_program_error(
+                    &format!("unexpectedly attempting merge of terminal types `{first_type_name}` and `{second_type_name}`."),
+                )
+            }
         }
     }
 }
@@ -272,12 +281,10 @@ impl From<Error> for Vec<Error> {
     }
 }
 
-/// Alias and field name
-type FieldId<'a> = (&'a str, &'a str);
-
 #[derive(Debug, Clone)]
 struct UniqueFields<'a> {
-    collection: HashMap<FieldId<'a>, (&'a schema_field::Field, FieldTraversal<'a>)>,
+    /// Aliases mapped to their field
+    collection: HashMap<&'a str, (&'a schema_field::Field, FieldTraversal<'a>)>,
 }
 
 impl<'a> UniqueFields<'a> {
@@ -290,11 +297,10 @@ impl<'a> UniqueFields<'a> {
     fn insert(
         &mut self,
         alias: &'a str,
-        name: &'a str,
         field: &'a schema_field::Field,
         traversal: FieldTraversal<'a>,
     ) -> Result<()> {
-        match self.collection.entry((alias, name)) {
+        match self.collection.entry(alias) {
             Entry::Occupied(occupant) => {
                 occupant.into_mut().1.extend_from(traversal)?;
             }
@@ -306,8 +312,8 @@ impl<'a> UniqueFields<'a> {
     }
 
     fn extend_from(&mut self, other: UniqueFields<'a>) -> Result<()> {
-        for ((alias, name), (field, traversal)) in other.collection.into_iter() {
-            self.insert(alias, name, field, traversal)?;
+        for (alias, (field, traversal)) in other.collection.into_iter() {
+            self.insert(alias, field, traversal)?;
         }
         Ok(())
     }
@@ -318,7 +324,7 @@ impl<'a> TryFrom<UniqueFields<'a>> for Vec<Field> {
     fn try_from(from: UniqueFields<'a>) -> Result<Self> {
         from.collection
             .into_iter()
-            .map(|((alias, _name), (field, sub_traversal))| {
+            .map(|(alias, (field, sub_traversal))| {
                 let concrete = field.type_description.reveal_concrete();
                 Ok(Field {
                     prop_name: alias.to_string(),
@@ -385,17 +391,11 @@ impl<'a, 'b> ComplexTraversal<'a> {
     fn insert_terminal(
         &mut self,
         alias: &'a str,
-        name: &'a str,
         field: &'a schema_field::Field,
         terminal: TerminalTraversal<'a>,
     ) -> Result<()> {
         for uniques in self.concrete_objects.values_mut() {
-            uniques.insert(
-                alias,
-                name,
-                field,
-                FieldTraversal::Terminal(terminal.clone()),
-            )?;
+            uniques.insert(alias, field, FieldTraversal::Terminal(terminal.clone()))?;
         }
         Ok(())
     }
@@ -403,12 +403,11 @@ impl<'a, 'b> ComplexTraversal<'a> {
     fn insert_complex(
         &mut self,
         alias: &'a str,
-        name: &'a str,
         field: &'a schema_field::Field,
         complex: ComplexTraversal<'a>,
     ) -> Result<()> {
         for uniques in self.concrete_objects.values_mut() {
-            uniques.insert(alias, name, field, FieldTraversal::Complex(complex.clone()))?;
+            uniques.insert(alias, field, FieldTraversal::Complex(complex.clone()))?;
         }
         Ok(())
     }
@@ -489,14 +488,30 @@ impl<'a> FieldTraversal<'a> {
     fn extend_from(&mut self, other: Self) -> Result<()> {
         match self {
             Self::Complex(self_complex) => match other {
-                Self::Complex(other_complex) => self_complex.extend_from(other_complex),
+                Self::Complex(other_complex) => {
+                    // The same field can be typed differently by an interface and its
+                    // implementations, and its value then is of a type that both allow.
+                    self_complex
+                        .concrete_objects
+                        .retain(|name, _| other_complex.concrete_objects.contains_key(name));
+                    self_complex.extend_from(other_complex)
+                }
                 Self::Terminal(other_terminal) => Err(Error::MixedTerminalAndComplexFields {
                     complex_type_name: self_complex.type_name.to_string(),
                     terminal_type_name: other_terminal.type_name.to_string(),
                 }),
             },
             Self::Terminal(self_terminal) => match other {
-                Self::Terminal(_) => Ok(()), // Nothing to do if both terminal
+                Self::Terminal(other_terminal) => {
+                    if self_terminal.type_name == other_terminal.type_name {
+                        Ok(()) // Nothing to do if both the same terminal
+                    } else {
+                        Err(Error::MixedTerminalFields {
+                            first_type_name: self_terminal.type_name.to_string(),
+                            second_type_name: other_terminal.type_name.to_string(),
+                        })
+                    }
+                }
                 Self::Complex(other_complex) => Err(Error::MixedTerminalAndComplexFields {
                     complex_type_name: other_complex.type_name.to_string(),
                     terminal_type_name: self_terminal.type_name.to_string(),
@@ -730,7 +745,7 @@ fn insert_field<'a, 'b>(
         }
         (true, false) => {
             let terminal = TerminalTraversal::from(field_type_name);
-            traversal.insert_terminal(alias, field_type_name, field, terminal)?;
+            traversal.insert_terminal(alias, field, terminal)?;
         }
         (false, true) => {
             let mut sub_parent =
@@ -741,7 +756,7 @@ fn insert_field<'a, 'b>(
                 &mut sub_parent,
                 jump_state,
             )?;
-            traversal.insert_complex(alias, field_type_name, field, sub_parent)?;
+            traversal.insert_complex(alias, field, sub_parent)?;
         }
     };
 
-- 
2.43.0


From ccd16ea725d63e6d5cca7efd313fafc66810c3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:15 +0000
Subject: [PATCH 13/23] fix: count unfinished work instead of guessing when all
 workers are idle

---
 src/worker_pool.rs | 107 +++++++++------------------------------------
 1 file changed, 21 insertions(+), 86 deletions(-)

diff --git a/src/worker_pool.rs b/src/worker_pool.rs
index fe1dbfb..80216d2 100644
--- a/src/worker_pool.rs
+++ b/src/worker_pool.rs
@@ -9,12 +9,6 @@ use std::sync::atomic::{AtomicUsize, Ordering};
 use std::thread;
 use std::time::Duration;
 
-#[derive(Debug)]
-enum Message {
-    Work(Work),
-    Quit,
-}
-
 #[derive(Debug)]
 enum WorkResult {
     MoreWork(Vec<Work>),
@@ -121,13 +115,11 @@ impl Work {
 
 struct Worker<'a> {
     pool: &'a WorkerPool,
-    is_waiting: bool,
-    is_quitting: bool,
     aggregate: WorkAggregateResult,
-    num_waiting: &'a AtomicUsize,
-    num_quitting: &'a AtomicUsize,
-    tx: channel::Sender<Message>,
-    rx: channel::Receiver<Message>,
+    /// Work that is in the channel or being run
+    num_pending: &'a AtomicUsize,
+    tx: channel::Sender<Work>,
+    rx: channel::Receiver<Work>,
 }
 
 impl<'a> Worker<'a> {
@@ -143,7 +135,7 @@ impl<'a> Worker<'a> {
                 }
                 WorkResult::MoreWork(additional_work) => {
                     for work in additional_work {
-                        self.tx.send(Message::Work(work)).unwrap();
+                        self.send_work(work);
                     }
                 }
                 WorkResult::DirIoError(io_error, path) => {
@@ -152,81 +144,28 @@ impl<'a> Worker<'a> {
                     );
                 }
             }
+            self.num_pending.fetch_sub(1, Ordering::SeqCst);
         }
         self.aggregate
     }
 
-    fn pop_work(&mut self) -> Option<Work> {
+    fn send_work(&self, work: Work) {
+        self.num_pending.fetch_add(1, Ordering::SeqCst);
+        self.tx.send(work).unwrap();
+    }
+
+    fn pop_work(&self) -> Option<Work> {
         loop {
             match self.rx.try_recv() {
-                Ok(Message::Work(work)) => {
-                    self.set_waiting(false);
-                    self.set_quitting(false);
-                    return Some(work);
-                }
-                Ok(Message::Quit) => {
-                    self.set_waiting(true);
-                    self.set_quitting(true);
-                    loop {
-                        let nwait = self.num_waiting();
-                        let nquit = self.num_quitting();
-                        let threads = self.pool.thread_count;
-                        // If the number of waiting workers dropped, then abort our attempt to quit.
-                        // Sometimes work will come back.
-                        if nwait < threads {
-                            break;
-                        }
-                        // If all workers are in this quit loop, then we can stop.
-                        if nquit == threads {
-                            return None;
-                        }
-                    }
-                }
-                Err(_) => {
-                    let threads = self.pool.thread_count;
-                    self.set_waiting(true);
-                    self.set_quitting(false);
-                    if self.num_waiting() == threads {
-                        for _ in 0..threads {
-                            self.tx.send(Message::Quit).unwrap();
-                        }
-                    } else {
-                        // This is a bit weird, I know, but we want producers to catch up
-                        // without burning the CPU too hard.
-                        thread::sleep(Duration::from_millis(1));
-                    }
-                }
+                Ok(work) => return Some(work),
+                // Only work that is not yet done can lead to more of it.
+                Err(_) if self.num_pending.load(Ordering::SeqCst) == 0 => return None,
+                // This is a bit weird, I know, but we want producers to catch up
+                // without burning the CPU too hard.
+                Err(_) => thread::sleep(Duration::from_millis(1)),
             }
         }
     }
-
-    fn num_waiting(&self) -> usize {
-        self.num_waiting.load(Ordering::SeqCst)
-    }
-
-    fn num_quitting(&self) -> usize {
-        self.num_quitting.load(Ordering::SeqCst)
-    }
-
-    fn set_waiting(&mut self, desired: bool) {
-        if desired && !self.is_waiting {
-            self.is_waiting = true;
-            self.num_waiting.fetch_add(1, Ordering::SeqCst);
-        } else if !desired && self.is_waiting {
-            self.is_waiting = false;
-            self.num_waiting.fetch_sub(1, Ordering::SeqCst);
-        }
-    }
-
-    fn set_quitting(&mut self, desired: bool) {
-        if desired && !self.is_quitting {
-            self.is_quitting = true;
-            self.num_quitting.fetch_add(1, Ordering::SeqCst);
-        } else if !desired && self.is_quitting {
-            self.is_quitting = false;
-            self.num_quitting.fetch_sub(1, Ordering::SeqCst);
-        }
-    }
 }
 
 pub struct WorkerPool {
@@ -247,23 +186,19 @@ impl WorkerPool {
     }
 
     pub fn work(&self) -> impl ExitInformation {
-        let num_waiting = AtomicUsize::new(0);
-        let num_quitting = AtomicUsize::new(0);
+        let num_pending = AtomicUsize::new(1);
 
         let mut aggregate = thread::scope(|s| {
             let (tx, rx) = channel::unbounded();
-            let initial_work = Message::Work(Work::DirEntry(self.root_dir_path.clone()));
+            let initial_work = Work::DirEntry(self.root_dir_path.clone());
             tx.send(initial_work).unwrap();
 
             let handles = (0..self.thread_count)
                 .map(|_| {
                     let worker = Worker {
                         pool: self,
-                        num_quitting: &num_quitting,
-                        num_waiting: &num_waiting,
+                        num_pending: &num_pending,
                         aggregate: WorkAggregateResult::new(),
-                        is_quitting: false,
-                        is_waiting: false,
                         tx: tx.clone(),
                         rx: rx.clone(),
                     };
-- 
2.43.0


From 594031827a4ed78242a72aef5ff6d9fc68b8dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 14/23] fix: point at the fragment or field whose type is not
 in the schema

---
 src/graphql/ir.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index 331a0b8..2d1bb5d 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -100,7 +100,7 @@ pub enum Error {
         possible_field_names: Vec<String>,
     },
     Variable(variable::Error),
-    MissingType(String),
+    MissingType(String, Pos),
     UnexpectedComplexTravseral(String),
     InputObjectOnSelection {
         field_name: String,
@@ -187,8 +187,12 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
             Error::Variable(var_error) => {
                 PrintableMessage::from((contents, file_path, var_error))
             }
-            Error::MissingType(type_name) => PrintableMessage::new_simple_program_error(
+            Error::MissingType(type_name, position) => PrintableMessage::new_program_error(
                 &format!("failed lookup of type `{type_name}`"),
+                file_path,
+                contents,
+                &position,
+                None,
             ),
             Error::InputObjectOnSelection { type_name, field_name } => {
                 PrintableMessage::new_simple_program_error(
@@ -450,7 +454,7 @@ impl<'a, 'b> TryFrom<(&'a CompileContext<'a, 'b>, &'a str, Pos)> for ComplexTrav
         let schema_type = context
             .schema
             .get_type_for_name(type_name)
-            .ok_or_else(|| Error::MissingType(type_name.to_string()))?;
+            .ok_or_else(|| Error::MissingType(type_name.to_string(), position))?;
         let fields_lookup = schema_type
             .definition
             .get_fields_lookup()
-- 
2.43.0


From afb06a923ea91a4ab16151a5bfbd11b3e71c4761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 15/23] fix: honour the config file's scalar prefix when the
 command line turns custom scalars on

---
 src/cli.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 284d08b..febe6d1 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -434,11 +434,9 @@ impl RuntimeConfig {
                 || config_file_args.use_custom_scalars.unwrap_or(false),
             disable_readonly_types: cli_args.disable_readonly_types
                 || config_file_args.disable_readonly_types.unwrap_or(false),
-            custom_scalar_prefix: cli_args.custom_scalar_prefix.or_else(|| {
-                config_file_args
-                    .use_custom_scalars
-                    .and(config_file_args.custom_scalar_prefix)
-            }),
+            custom_scalar_prefix: cli_args
+                .custom_scalar_prefix
+                .or(config_file_args.custom_scalar_prefix),
             number_threads: cli_args
                 .num_threads
                 .or(config_file_args.num_threads)
-- 
2.43.0


From ee25d50a99749b4acb3ece8c8e27355f7438f5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:37 +0000
Subject: [PATCH 16/23] fix: report the right line in documents with CR LF line
 endings

---
 src/graphql.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index 2e05f69..0847e5f 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -59,7 +59,8 @@ fn read_graphql_file(path: &Path) -> Result<String, PrintableMessage> {
             let mut buf_reader = BufReader::new(file);
             let mut contents = String::new();
             buf_reader.read_to_string(&mut contents)?;
-            Ok(contents)
+            // The parser counts the `\r` that ends a comment as a line of its own
+            Ok(contents.replace("\r\n", "\n").replace('\r', "\n"))
         })
         .map_err(|io_error| PrintableMessage::new_compile_error_from_read_io_error(&io_error, path))
 }
-- 
2.43.0


From ab2d0d510143d499ec2666941b0075c6e660a202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:13 +0000
Subject: [PATCH 17/23] fix: count a tab as one column, and put the arrow below
 it

---
 src/cli.rs     |  9 ++++++++-
 src/graphql.rs | 12 ++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index febe6d1..b4e92e5 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -82,7 +82,14 @@ impl LocationInformation {
         match self.column_number {
             None => write!(f, "{} {}", indent_spaces, bar),
             Some(column_number) => {
-                let column_spaces = " ".repeat(column_number - 1);
+                // Keep tabs, so that the arrow is below the column however wide they are shown
+                let column_spaces: String = self
+                    .line
+                    .chars()
+                    .map(|c| if c == '\t' { '\t' } else { ' ' })
+                    .chain(std::iter::repeat(' '))
+                    .take(column_number - 1)
+                    .collect();
                 let arrow = colorize("^");
                 write!(f, "{}{} {}{}", indent_spaces, bar, column_spaces, arrow)
             }
diff --git a/src/graphql.rs b/src/graphql.rs
index 0847e5f..4c6f590 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -66,10 +66,11 @@ fn read_graphql_file(path: &Path) -> Result<String, PrintableMessage> {
 }
 
 fn parse_graphql_file<'a>(
-    contents: &'a str,
+    contents: &str,
+    contents_without_tabs: &'a str,
     file_path: &'_ Path,
 ) -> Result<Document<'a, ParsedTextType>, PrintableMessage> {
-    let parsed = graphql_parser::parse_query(contents).map_err(|parse_error| {
+    let parsed = graphql_parser::parse_query(contents_without_tabs).map_err(|parse_error| {
         // TODO parse error has no line/column information
         let mut error = PrintableMessage::new_simple_compile_error(&format!("{parse_error}"));
         error.with_source_information(file_path, None);
@@ -182,7 +183,7 @@ fn parse_foreign_fragments<'a>(
 ) -> HashMap<String, FragmentDefinition<'a, ParsedTextType>> {
     let mut parsed_imported_fragments = HashMap::new();
     for (other_path, (contents, location)) in imported_contents.iter() {
-        if let Ok(mut parsed) = parse_graphql_file(contents, other_path) {
+        if let Ok(mut parsed) = parse_graphql_file(contents, contents, other_path) {
             // We already know there is exactly one definition since read_graphql_file
             // throws away documents that contain more or less than one defintion.
             for def in parsed.definitions.drain(0..1) {
@@ -214,7 +215,10 @@ pub fn compile_file(
     schema: &Schema,
 ) -> Result<CompileReport, Vec<PrintableMessage>> {
     let contents = read_graphql_file(path).map_err(|e| vec![e])?;
-    let parsed = parse_graphql_file(&contents, path).map_err(|e| vec![e])?;
+    // The parser counts a tab as eight columns
+    let contents_without_tabs = contents.replace('\t', " ");
+    let parsed =
+        parse_graphql_file(&contents, &contents_without_tabs, path).map_err(|e| vec![e])?;
 
     let mut messages = Vec::new();
     let mut imported_contents = BTreeMap::new();
-- 
2.43.0


From 67fc8562ed50045c85926e825bd64885e2aab216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:45 +0000
Subject: [PATCH 18/23] fix: name the file that has the import when an import
 is not a fragment

---
 src/graphql.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index 4c6f590..7432732 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -129,7 +129,7 @@ fn add_imported_fragments(
     config: &CompileConfig,
     current_file: &Path,
     current_file_contents: &str,
-    import_contents: &mut BTreeMap<PathBuf, (String, LocationInformation)>,
+    import_contents: &mut BTreeMap<PathBuf, (String, PathBuf, LocationInformation)>,
     visited: &mut HashSet<PathBuf>,
     messages: &mut Vec<PrintableMessage>,
 ) {
@@ -172,17 +172,19 @@ fn add_imported_fragments(
                 messages,
             );
         }
-        import_contents.insert(file_path, (other_file_contents, location));
+        import_contents.insert(
+            file_path,
+            (other_file_contents, current_file.to_owned(), location),
+        );
     }
 }
 
 fn parse_foreign_fragments<'a>(
-    path: &Path,
-    imported_contents: &'a BTreeMap<PathBuf, (String, LocationInformation)>,
+    imported_contents: &'a BTreeMap<PathBuf, (String, PathBuf, LocationInformation)>,
     messages: &mut Vec<PrintableMessage>,
 ) -> HashMap<String, FragmentDefinition<'a, ParsedTextType>> {
     let mut parsed_imported_fragments = HashMap::new();
-    for (other_path, (contents, location)) in imported_contents.iter() {
+    for (other_path, (contents, importing_path, location)) in imported_contents.iter() {
         if let Ok(mut parsed) = parse_graphql_file(contents, contents, other_path) {
             // We already know there is exactly one definition since read_graphql_file
             // throws away documents that contain more or less than one defintion.
@@ -195,11 +197,11 @@ fn parse_foreign_fragments<'a>(
                     _ => {
                         let mut message = PrintableMessage::new_simple_compile_error(&format!(
                             "cannot import non-fragment GraphQL document `{}`",
-                            path.display()
+                            importing_path.display()
                         ));
                         let mut location = location.clone();
                         location.with_help_text("This document is not a fragment, and importing it is probably a mistake.");
-                        message.with_source_information(path, Some(location));
+                        message.with_source_information(importing_path, Some(location));
                         messages.push(message);
                     }
                 }
@@ -230,8 +232,7 @@ pub fn compile_file(
         &mut HashSet::new(),
         &mut messages,
     );
-    let parsed_imported_fragments =
-        parse_foreign_fragments(path, &imported_contents, &mut messages);
+    let parsed_imported_fragments = parse_foreign_fragments(&imported_contents, &mut messages);
 
     let (op_ir, warnings) = match ir::Operation::compile(
         &parsed.definitions[0],
-- 
2.43.0


From 04c35170917355b9cd207258b63b501dca7306bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:34 +0000
Subject: [PATCH 19/23] fix: read the imports of documents that start with a
 byte order mark

---
 src/graphql.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/graphql.rs b/src/graphql.rs
index 7432732..1e7b153 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -59,6 +59,10 @@ fn read_graphql_file(path: &Path) -> Result<String, PrintableMessage> {
             let mut buf_reader = BufReader::new(file);
             let mut contents = String::new();
             buf_reader.read_to_string(&mut contents)?;
+            // A byte order mark must not hide an import on the first line
+            if contents.starts_with('\u{feff}') {
+                contents.remove(0);
+            }
             // The parser counts the `\r` that ends a comment as a line of its own
             Ok(contents.replace("\r\n", "\n").replace('\r', "\n"))
         })
-- 
2.43.0


From 3bd7f496714d1d1a1b01fed569e874a57ffd70d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:31 +0000
Subject: [PATCH 20/23] fix: report variables of output types instead of
 failing to write the global types

---
 src/graphql/variable.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/graphql/variable.rs b/src/graphql/variable.rs
index 94d75e0..3090ff5 100644
--- a/src/graphql/variable.rs
+++ b/src/graphql/variable.rs
@@ -1,6 +1,7 @@
 use super::ParsedTextType;
 use crate::cli::PrintableMessage;
 use crate::graphql::ir::CompileContext;
+use crate::graphql::schema;
 use crate::graphql::schema::field as schema_field;
 use graphql_parser::query as parsed_query;
 use graphql_parser::Pos;
@@ -11,6 +12,7 @@ use std::path::Path;
 pub enum Error {
     UnknownCustomeVariableType(String, Pos),
     UnprocessableVariableType(String, Pos),
+    OutputTypeAsVariable(String, Pos),
     ListOfListNotSupported(String, Pos),
 }
 
@@ -35,14 +37,29 @@ impl<'a, 'b, 'c> TryFrom<(&'a CompileContext<'a, 'b>, &'c str, Pos)> for Variabl
             "Float" => VariableType::Float,
             "Int" => VariableType::Int,
             "Boolean" => VariableType::Boolean,
-            custom_type_name => match from.0.schema.get_type_for_name(custom_type_name) {
+            custom_type_name => match from
+                .0
+                .schema
+                .get_type_for_name(custom_type_name)
+                .map(|custom_type| &custom_type.definition)
+            {
                 None => {
                     return Err(Error::UnknownCustomeVariableType(
                         custom_type_name.to_string(),
                         from.2,
                     ))
                 }
-                Some(_) => VariableType::Custom(custom_type_name),
+                Some(
+                    schema::TypeDefinition::Scalar(_)
+                    | schema::TypeDefinition::Enum(_)
+                    | schema::TypeDefinition::InputObject(_),
+                ) => VariableType::Custom(custom_type_name),
+                Some(_) => {
+                    return Err(Error::OutputTypeAsVariable(
+                        custom_type_name.to_string(),
+                        from.2,
+                    ))
+                }
             },
         };
         Ok(var)
@@ -61,6 +78,13 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
                     None,
                 )
             }
+            Error::OutputTypeAsVariable(name, position) => PrintableMessage::new_compile_error(
+                &format!("unexpected output type for variable `{name}`"),
+                file_path,
+                contents,
+                &position,
+                Some("Variables must be scalars, enums or input objects, or lists of these."),
+            ),
             Error::UnprocessableVariableType(name, position) => {
                 PrintableMessage::new_program_error(
                     &format!("failed to process variable `{name}`"),
-- 
2.43.0


From 1385a6e2a937fd883a495f51b59da3e1ec957406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 21/23] fix: a path after the root directory prefix never
 leaves the root directory

---
 src/graphql.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index 1e7b153..3e5b674 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -115,10 +115,7 @@ fn get_file_path_of_fragment(
         .rfind('"')
         .map_or(import_path, |last_quote| &import_path[..last_quote]);
 
-    config
-        .root_dir_import_prefix
-        .as_deref()
-        .and_then(|root_dir_prefix| import_path.strip_prefix(root_dir_prefix))
+    strip_root_dir_import_prefix(config, import_path)
         .map(|import_path_without_prefix| config.root_dir.join(import_path_without_prefix))
         .unwrap_or_else(|| {
             if import_path.starts_with('.') {
@@ -129,6 +126,16 @@ fn get_file_path_of_fragment(
         })
 }
 
+/// The rest of an import path or module name that starts with the configured root directory prefix
+fn strip_root_dir_import_prefix<'a>(config: &CompileConfig, path: &'a str) -> Option<&'a str> {
+    config
+        .root_dir_import_prefix
+        .as_deref()
+        .and_then(|root_dir_prefix| path.strip_prefix(root_dir_prefix))
+        // With prefix `@` the rest of `@/fragment.graphql` must not be taken for an absolute path
+        .map(|path_without_prefix| path_without_prefix.trim_start_matches('/'))
+}
+
 fn add_imported_fragments(
     config: &CompileConfig,
     current_file: &Path,
@@ -297,10 +304,7 @@ pub fn compile_global_types_file(
         return Ok(());
     }
     let the_compile = typescript::compile_globals(config, schema, global_names)?;
-    let output_path = config
-        .root_dir_import_prefix
-        .as_deref()
-        .and_then(|root_prefix| config.global_types_module_name.strip_prefix(root_prefix))
+    let output_path = strip_root_dir_import_prefix(config, &config.global_types_module_name)
         .map(|global_types_module_name_without_prefix| {
             root_path.join(global_types_module_name_without_prefix)
         })
-- 
2.43.0


From da7baebed9e3612add6a5d5de1bfa83c62edd0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:59 +0000
Subject: [PATCH 22/23] fix: a download that is cut off or stalls makes the npm
 installer fail instead of ending with status 0

---
 pkg/npm/lib/postinstall.js | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/npm/lib/postinstall.js b/pkg/npm/lib/postinstall.js
index 7ee3192..77cc080 100644
--- a/pkg/npm/lib/postinstall.js
+++ b/pkg/npm/lib/postinstall.js
@@ -8,6 +8,7 @@ const { get: httpsGet } = require("https");
 const { join } = require("path");
 const { createHash } = require("crypto");
 const { spawn } = require("child_process");
+const { pipeline } = require("stream");
 
 const {
   version: VERSION,
@@ -44,11 +45,14 @@ function download(fullUrl, dest) {
       timeout: 20000,
       headers: { Accept: "application/octet-stream" },
     };
-    httpsGet(opts, (response) => {
+    const request = httpsGet(opts, (response) => {
       switch (response.statusCode) {
         case 200:
-          return response.pipe(createWriteStream(dest).on("finish", resolve));
+          return pipeline(response, createWriteStream(dest), (err) =>
+            err ? cleanup(err) : resolve(),
+          );
         case 302:
+          response.resume();
           return download(response.headers.location, dest)
             .then(resolve)
             .catch(reject);
@@ -58,6 +62,7 @@ function download(fullUrl, dest) {
           );
       }
     })
+      .on("timeout", () => request.destroy(new Error("Download timed out")))
       .on("error", cleanup)
       .end();
   });
-- 
2.43.0


From 7b6a4f0e3593f3cc4d53e8bfc833ef81b3e9b79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:59 +0000
Subject: [PATCH 23/23] fix: a schema download that is cut off fails instead of
 leaving part of the answer with status 0

---
 pkg/npm/lib/download.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/npm/lib/download.js b/pkg/npm/lib/download.js
index c812f4d..3709f84 100644
--- a/pkg/npm/lib/download.js
+++ b/pkg/npm/lib/download.js
@@ -2,6 +2,7 @@
 
 const { unlink, createWriteStream } = require("fs");
 const { URL } = require("url");
+const { pipeline } = require("stream");
 
 const introspectionQuery = `
   query IntrospectionQuery {
@@ -107,8 +108,7 @@ function download() {
         if (response.statusCode !== 200) {
           return cleanup(new Error(`Download failed with ${response.statusCode}`));
         }
-        response.pipe(outFile);
-        outFile.on("finish", resolve);
+        pipeline(response, outFile, (err) => (err ? cleanup(err) : resolve()));
       })
       .on("error", cleanup)
       .end(JSON.stringify({ query: introspectionQuery }));
-- 
2.43.0

