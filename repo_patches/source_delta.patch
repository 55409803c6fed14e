From c94b655313dae8395379ef2ef5864173b3a62b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 01/17] fix: let an imported protocol's own messages override
 its nested imports'

---
 src/compiler.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 3148bf3..5cb11bc 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -821,11 +821,6 @@ fn resolve_single_import(
                     .push(miette::Report::new(w).wrap_err(import_file_name.to_string()));
             }
 
-            // If the imported IDL is a protocol, merge its messages.
-            if let IdlFile::Protocol(imported_protocol) = &imported_idl {
-                ctx.messages.extend(imported_protocol.messages.clone());
-            }
-
             // Recursively process declaration items from the imported file.
             // IDL imports use their own source text for span tracking, so
             // `ctx.json_import_spans` is passed through to capture any nested
@@ -833,6 +828,14 @@ fn resolve_single_import(
             process_decl_items(&nested_decl_items, ctx, &import_dir).with_context(|| {
                 format!("resolve nested imports from `{}`", resolved_path.display())
             })?;
+
+            // If the imported IDL is a protocol, merge its messages. This must
+            // follow nested import resolution so that the imported file's own
+            // messages override those of the files it imports, matching how
+            // the root protocol's messages take precedence.
+            if let IdlFile::Protocol(imported_protocol) = &imported_idl {
+                ctx.messages.extend(imported_protocol.messages.clone());
+            }
         }
     }
 
-- 
2.43.0


From d28ec29814a1be874718d5369d0ab53d3caed3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 02/17] fix: reject imported types that cannot be registered
 instead of dropping them

---
 src/import.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index ee5f676..fe8e644 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -282,12 +282,21 @@ fn flatten_schema_inner(schema: AvroSchema, collected: &mut Vec<AvroSchema>) ->
 /// registers nested types as it encounters them.
 ///
 /// Duplicate registrations are silently ignored (the first definition wins),
-/// matching Java's behavior for imports.
-fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) {
+/// matching Java's behavior for imports. Any other registration failure (such
+/// as an invalid name) is an error: dropping the type would silently lose it
+/// from the output.
+fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) -> Result<()> {
     let (types, _top_level) = flatten_schema(schema);
     for t in types {
-        let _ = registry.register(t);
+        let already_defined = t
+            .full_name()
+            .is_some_and(|full_name| registry.lookup(&full_name).is_some());
+        if already_defined {
+            continue;
+        }
+        registry.register(t).map_err(|e| miette::miette!("{e}"))?;
     }
+    Ok(())
 }
 
 // ==============================================================================
@@ -324,7 +333,12 @@ pub fn import_protocol(
                     path.display()
                 )
             })?;
-            flatten_and_register(schema, registry);
+            flatten_and_register(schema, registry).map_err(|e| {
+                miette::miette!(
+                    "register type at index {i} of protocol `{}`: {e}",
+                    path.display()
+                )
+            })?;
         }
     }
 
@@ -363,7 +377,8 @@ pub fn import_schema(path: &Path, registry: &mut SchemaRegistry) -> Result<()> {
 
     let schema = json_to_schema(&json, None)
         .map_err(|e| miette::miette!("parse schema from `{}`: {e}", path.display()))?;
-    flatten_and_register(schema, registry);
+    flatten_and_register(schema, registry)
+        .map_err(|e| miette::miette!("register schema from `{}`: {e}", path.display()))?;
 
     Ok(())
 }
-- 
2.43.0


From 304e769c06f55f0eec6b607c454ad2cb62b230b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 03/17] fix: report undefined names deterministically

---
 src/compiler.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 5cb11bc..06c5b75 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -1039,6 +1039,17 @@ fn validate_all_references(
         }
     }
 
+    // Sort by source span offset so the first error in the file is reported
+    // first. References without a span (from JSON imports) sort to the end, by
+    // name. Sorting before deduplicating matters because messages are visited
+    // in arbitrary order.
+    unresolved.sort_by_cached_key(|(name, span)| {
+        let (file, offset) = span
+            .as_ref()
+            .map_or(("", usize::MAX), |s| (s.name, s.offset));
+        (file, offset, name.clone())
+    });
+
     // Deduplicate by name while preserving source order (first occurrence
     // wins). We use a `HashSet` to track which names we've already seen,
     // retaining the entry whose span appears earliest in the file.
@@ -1047,13 +1058,6 @@ fn validate_all_references(
         unresolved.retain(|(name, _)| seen.insert(name.clone()));
     }
 
-    // Sort by source span offset so the first error in the file is reported
-    // first. References without a span (from JSON imports) sort to the end.
-    unresolved.sort_by_key(|(_, span)| {
-        span.as_ref()
-            .map_or(("", usize::MAX), |s| (s.name, s.offset))
-    });
-
     if unresolved.is_empty() {
         return Ok(());
     }
-- 
2.43.0


From c1cc5c259a614a5191905d4f1cd7e8db6ec1fb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 04/17] fix: serialize protocol messages in a fixed order

---
 src/model/json.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/model/json.rs b/src/model/json.rs
index f715cf3..34bdafa 100644
--- a/src/model/json.rs
+++ b/src/model/json.rs
@@ -87,8 +87,13 @@ pub fn protocol_to_json(protocol: &Protocol) -> Value {
         .collect();
     obj.insert("types".to_string(), Value::Array(types));
 
+    // Serialize messages in name order: which message gets to inline a type on
+    // first use must not depend on hash map iteration order.
+    let mut messages: Vec<_> = protocol.messages.iter().collect();
+    messages.sort_by_key(|(name, _)| name.as_str());
+
     let mut messages_obj = Map::new();
-    for (name, msg) in &protocol.messages {
+    for (name, msg) in messages {
         messages_obj.insert(
             name.clone(),
             message_to_json(
-- 
2.43.0


From 7a145140b87ce060ed0c509ea866151ecf54c615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:21 +0000
Subject: [PATCH 05/17] fix: list dropped union annotations in a fixed order

---
 src/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index c9f6196..376b00e 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -3262,7 +3262,8 @@ fn walk_full_type<'input>(
     // drops them without feedback. Nullable unions (`type?` syntax) are fine
     // because annotations are applied to the non-null branch instead.
     if !props.properties.is_empty() && is_non_nullable_union(&schema) {
-        let keys: Vec<&str> = props.properties.keys().map(|k| k.as_str()).collect();
+        let mut keys: Vec<&str> = props.properties.keys().map(|k| k.as_str()).collect();
+        keys.sort_unstable();
         src.warnings
             .borrow_mut()
             .push(Warning::annotations_dropped_on_union(&keys, src, ctx));
-- 
2.43.0


From 65b7530796f9c5a8b00657eb4f07dc0b714f3ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:00 +0000
Subject: [PATCH 06/17] fix: keep types without a namespace out of the
 protocol's namespace

---
 src/model/json.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/model/json.rs b/src/model/json.rs
index 34bdafa..cfee0bf 100644
--- a/src/model/json.rs
+++ b/src/model/json.rs
@@ -54,8 +54,9 @@ pub type SchemaLookup = HashMap<String, AvroSchema>;
 pub fn protocol_to_json(protocol: &Protocol) -> Value {
     // Build a lookup table from all named types in the protocol's type list.
     // This includes nested types inside records/fields that were registered
-    // in the schema registry.
-    let lookup = build_lookup(&protocol.types, protocol.namespace.as_deref());
+    // in the schema registry. A type without a namespace (e.g., from an imported
+    // `.avsc`) is in the null namespace, not in the protocol's.
+    let lookup = build_lookup(&protocol.types, None);
 
     let mut known_names = HashSet::new();
     let mut obj = Map::new();
@@ -215,15 +216,17 @@ fn named_type_preamble(
     let mut obj = Map::new();
     obj.insert("type".to_string(), Value::String(type_str.to_string()));
     obj.insert("name".to_string(), Value::String(name.to_string()));
-    // Emit the namespace key when it differs from the enclosing context.
-    // Special case: when there's no enclosing namespace (standalone .avsc),
-    // treat an empty-string namespace the same as None — Java normalizes
-    // empty namespace to null, so `writeName()` omits it.
-    if namespace != enclosing_namespace
-        && let Some(ns) = namespace
-        && !(ns.is_empty() && enclosing_namespace.is_none())
-    {
-        obj.insert("namespace".to_string(), Value::String(ns.to_string()));
+    // Emit the namespace key when it differs from the enclosing context. An
+    // empty-string namespace is the same as None — Java normalizes empty
+    // namespace to null. Inside a namespaced context, `writeName()` emits
+    // `"namespace": ""` for it, so that the type does not inherit the
+    // enclosing namespace.
+    let namespace = namespace.unwrap_or("");
+    if namespace != enclosing_namespace.unwrap_or("") {
+        obj.insert(
+            "namespace".to_string(),
+            Value::String(namespace.to_string()),
+        );
     }
     if let Some(doc) = doc {
         obj.insert("doc".to_string(), Value::String(doc.to_string()));
@@ -309,7 +312,7 @@ pub fn schema_to_json(
             };
             let fields_json: Vec<Value> = fields
                 .iter()
-                .map(|f| field_to_json(f, known_names, ns.or(enclosing_namespace), lookup))
+                .map(|f| field_to_json(f, known_names, ns, lookup))
                 .collect();
             obj.insert("fields".to_string(), Value::Array(fields_json));
             finish_named_type(&mut obj, properties, aliases, ns);
-- 
2.43.0


From 05defe2fda779d5ca49b2ca4f2a3943e46dd84cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 07/17] fix: keep JSON logical types with a mismatched base or
 invalid scale as written

---
 src/import.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index fe8e644..9ef90de 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -701,7 +701,14 @@ fn parse_annotated_primitive(
         let scale_u64 = obj.get("scale").and_then(|s| s.as_u64());
         let scale = scale_u64.and_then(|v| u32::try_from(v).ok());
 
-        if let Some(lt) = parse_logical_type(logical, precision, scale) {
+        // A logical type on the wrong base type, or with a scale that cannot be
+        // represented, is not a logical type: its keys are kept as properties.
+        let kind = str_to_primitive_type(prim);
+        let scale_is_valid = logical != "decimal" || !obj.contains_key("scale") || scale.is_some();
+        if let Some(lt) = parse_logical_type(logical, precision, scale)
+            && lt.expected_base_type() == kind
+            && scale_is_valid
+        {
             // For decimal, validate that precision >= 1 (the shared helper
             // returns None when precision is absent, but we also need to
             // reject explicit zero).
@@ -711,8 +718,12 @@ fn parse_annotated_primitive(
                 miette::bail!("decimal precision must be >= 1");
             }
 
-            let properties =
-                collect_extra_properties(obj, &["type", "logicalType", "precision", "scale"]);
+            // `precision` and `scale` are attributes of `decimal` only.
+            let known_keys: &[&str] = match &lt {
+                LogicalType::Decimal { .. } => &["type", "logicalType", "precision", "scale"],
+                _ => &["type", "logicalType"],
+            };
+            let properties = collect_extra_properties(obj, known_keys);
             return Ok(AvroSchema::Logical {
                 logical_type: lt,
                 properties,
@@ -721,10 +732,7 @@ fn parse_annotated_primitive(
 
         // Unknown logical type -- preserve as properties on AnnotatedPrimitive.
         let properties = collect_extra_properties(obj, &["type"]);
-        return Ok(AvroSchema::AnnotatedPrimitive {
-            kind: str_to_primitive_type(prim),
-            properties,
-        });
+        return Ok(AvroSchema::AnnotatedPrimitive { kind, properties });
     }
 
     // Primitive with no logical type. If there are extra properties beyond
-- 
2.43.0


From f5703dff43fffe4d324af480265dca0873eab3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:56 +0000
Subject: [PATCH 08/17] fix: reject annotations that overwrite a logical type's
 attributes

---
 src/reader.rs | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 376b00e..a4c8be5 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -3256,6 +3256,17 @@ fn walk_full_type<'input>(
         ));
     }
 
+    // The attributes of a logical type keyword (`date`, `decimal(4, 2)`, ...)
+    // are its properties: an annotation may repeat them but not change them.
+    // Java's `JsonProperties.addProp()` throws "Can't overwrite property".
+    if let Some(key) = overwritten_logical_key(&schema, &props.properties) {
+        return Err(make_diagnostic(
+            src,
+            ctx,
+            format!("Can't overwrite property: {key}"),
+        ));
+    }
+
     // Warn when annotations are placed on a non-nullable union type. These
     // annotations cannot be attached to the union schema (Avro unions don't
     // carry top-level properties) and will be silently discarded. Java also
@@ -4246,6 +4257,39 @@ fn is_type_reference(schema: &AvroSchema) -> bool {
     }
 }
 
+/// Return the first attribute of a logical type (or of the logical type in a
+/// nullable union) that `properties` would overwrite with a different value.
+fn overwritten_logical_key(
+    schema: &AvroSchema,
+    properties: &HashMap<String, Value>,
+) -> Option<&'static str> {
+    let logical_type = match schema {
+        AvroSchema::Logical { logical_type, .. } => logical_type,
+        AvroSchema::Union {
+            types,
+            is_nullable_type: true,
+        } => {
+            return types
+                .iter()
+                .find_map(|t| overwritten_logical_key(t, properties));
+        }
+        _ => return None,
+    };
+    let differs = |key: &str, value: Value| properties.get(key).is_some_and(|v| *v != value);
+    if differs("logicalType", Value::from(logical_type.name())) {
+        return Some("logicalType");
+    }
+    if let LogicalType::Decimal { precision, scale } = logical_type {
+        if differs("precision", Value::from(*precision)) {
+            return Some("precision");
+        }
+        if differs("scale", Value::from(*scale)) {
+            return Some("scale");
+        }
+    }
+    None
+}
+
 /// Returns true when the schema is a union that `apply_properties` cannot
 /// attach annotations to. Nullable two-member unions (`type?` syntax) are
 /// excluded because `apply_properties` correctly forwards annotations to
-- 
2.43.0


From 2ea466a6923d28f0795c3f89c7d91401c2d3dc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 09/17] fix: leave annotated decimals with an invalid scale as
 written

---
 src/reader.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index a4c8be5..dd01e93 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4427,6 +4427,15 @@ fn try_promote_logical_type(schema: AvroSchema) -> AvroSchema {
                 return AvroSchema::AnnotatedPrimitive { kind, properties };
             }
 
+            // A `decimal` whose scale is given but cannot be represented (e.g.,
+            // it is negative) is invalid and left as-is, not given scale 0.
+            if matches!(logical_type, LogicalType::Decimal { .. })
+                && properties.contains_key("scale")
+                && scale.is_none()
+            {
+                return AvroSchema::AnnotatedPrimitive { kind, properties };
+            }
+
             // Remove the consumed keys from properties so they are not
             // duplicated in the serialized output.
             properties.remove("logicalType");
-- 
2.43.0


From 76442946f93d34d1700b8260ee948c0109fc912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:45 +0000
Subject: [PATCH 10/17] fix: report errors writing the last line to stdout

---
 src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 8d36c85..bf6632c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -304,9 +304,11 @@ fn write_output(output: Option<&str>, content: &str) -> miette::Result<()> {
     match file_path {
         None => {
             // Write to stdout without trailing newline, matching Java behavior.
-            // Handle BrokenPipe gracefully.
+            // Flush explicitly: stdout is line-buffered, and an error when it is
+            // flushed on exit would be ignored. Handle BrokenPipe gracefully.
             use std::io::Write;
-            if let Err(e) = write!(io::stdout(), "{content}") {
+            let mut stdout = io::stdout();
+            if let Err(e) = write!(stdout, "{content}").and_then(|()| stdout.flush()) {
                 if e.kind() == io::ErrorKind::BrokenPipe {
                     return Ok(());
                 }
-- 
2.43.0


From d02a0d2588b9bbecbd21006146d9c98093996b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:45 +0000
Subject: [PATCH 11/17] fix: report unreadable directories and skip directories
 named like .avdl files

---
 src/compiler.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 06c5b75..b848e48 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -497,13 +497,12 @@ impl Idl2Schemata {
         let mut all_warnings = Vec::new();
 
         let mut avdl_paths: Vec<PathBuf> = Vec::new();
-        for entry in walkdir::WalkDir::new(dir)
-            .sort_by_file_name()
-            .into_iter()
-            .filter_map(|e| e.ok())
-        {
+        for entry in walkdir::WalkDir::new(dir).sort_by_file_name() {
+            let entry = entry
+                .map_err(|e| miette::miette!("{e}"))
+                .with_context(|| format!("search {} for .avdl files", dir.display()))?;
             let path = entry.path();
-            if path.extension().and_then(|e| e.to_str()) == Some("avdl") {
+            if path.extension().and_then(|e| e.to_str()) == Some("avdl") && !path.is_dir() {
                 avdl_paths.push(path.to_path_buf());
             }
         }
-- 
2.43.0


From a7ad854834011268428d4422514fe00e3a68e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:45 +0000
Subject: [PATCH 12/17] fix: keep the warnings of earlier files when a later
 file in a directory fails

---
 src/compiler.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index b848e48..ff6e04b 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -508,7 +508,16 @@ impl Idl2Schemata {
         }
 
         for avdl_path in &avdl_paths {
-            let compiled = self.inner.compile_file(avdl_path)?;
+            let compiled = match self.inner.compile_file(avdl_path) {
+                Ok(compiled) => compiled,
+                Err(e) => {
+                    // Keep the warnings of the files before this one available
+                    // via `drain_warnings()`.
+                    all_warnings.append(&mut self.inner.accumulated_warnings);
+                    self.inner.accumulated_warnings = all_warnings;
+                    return Err(e);
+                }
+            };
             let output = Self::extract_impl(compiled);
             all_schemas.extend(output.schemas);
             all_warnings.extend(output.warnings);
-- 
2.43.0


From 2d534a3e05c65b16c0dda0873afcd97496e7fd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:45 +0000
Subject: [PATCH 13/17] fix: drop the warnings of an earlier compilation when a
 file cannot be read

---
 src/compiler.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/compiler.rs b/src/compiler.rs
index ff6e04b..0cbd524 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -92,6 +92,9 @@ impl IdlCompiler {
     /// `Idl2Schemata::extract(path)`. It reads the file, determines the parent
     /// directory and canonical path, then delegates to [`compile`](Self::compile).
     fn compile_file(&mut self, path: &Path) -> miette::Result<CompileOutput> {
+        // Warnings of an earlier compilation must not outlive a failure to read.
+        self.accumulated_warnings.clear();
+
         let source = fs::read_to_string(path)
             .map_err(|e| miette::miette!("{e}"))
             .with_context(|| format!("read {}", path.display()))?;
@@ -117,6 +120,8 @@ impl IdlCompiler {
         source: &'static str,
         name: &'static str,
     ) -> miette::Result<CompileOutput> {
+        self.accumulated_warnings.clear();
+
         let cwd = std::env::current_dir()
             .map_err(|e| miette::miette!("{e}"))
             .context("determine current directory")?;
@@ -493,6 +498,8 @@ impl Idl2Schemata {
     /// each. Each file is processed independently with its own registry.
     /// Results are concatenated.
     fn extract_directory(&mut self, dir: &Path) -> miette::Result<SchemataOutput> {
+        self.inner.accumulated_warnings.clear();
+
         let mut all_schemas = Vec::new();
         let mut all_warnings = Vec::new();
 
-- 
2.43.0


From ce9ac0af7f7dfa29ad64fe7d067b510ec5a0968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 14/17] fix: reject imported types named after a primitive type

---
 src/resolve.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 8b55d43..703943b 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -17,7 +17,7 @@
 use indexmap::IndexMap;
 
 use crate::error::SpanWithSource;
-use crate::model::schema::{AvroSchema, make_full_name};
+use crate::model::schema::{AvroSchema, PRIMITIVE_TYPE_NAMES, make_full_name};
 
 // ==============================================================================
 // Avro Name Validation
@@ -129,6 +129,14 @@ impl SchemaRegistry {
         };
         validate_schema_name(name, namespace.as_deref())?;
 
+        // References to such a type would mean the primitive type instead. Names
+        // in a namespace are always referenced in full, so they are fine.
+        if PRIMITIVE_TYPE_NAMES.contains(&full_name.as_str()) {
+            return Err(format!(
+                "schemas may not be named after primitives: `{full_name}`"
+            ));
+        }
+
         if self.schemas.contains_key(&full_name) {
             return Err(format!("duplicate schema name: {full_name}"));
         }
-- 
2.43.0


From 2f7d8b97c734a2830493eafcdbed4b915e181787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:00 +0000
Subject: [PATCH 15/17] fix: undefined names of imported JSON files are
 reported at the import that brought them

---
 src/compiler.rs | 64 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 0cbd524..bdf6a29 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -30,7 +30,7 @@ use crate::error::{ParseDiagnostic, SpanWithSource};
 use crate::import::{ImportContext, import_protocol, import_schema};
 use crate::model::json::{build_lookup, protocol_to_json, schema_to_json};
 use crate::model::protocol::Message;
-use crate::model::schema::validate_record_field_defaults;
+use crate::model::schema::{AvroSchema, validate_record_field_defaults};
 use crate::reader::{DeclItem, IdlFile, ImportKind, parse_idl_named};
 use crate::resolve::SchemaRegistry;
 
@@ -588,8 +588,10 @@ struct CompileContext {
     /// Maps JSON-imported file display names to their import statement spans
     /// in the IDL source. Used to enrich error messages for unresolved
     /// references from `.avsc`/`.avpr` imports, which lack source spans of
-    /// their own.
-    json_import_spans: Vec<(String, Option<SpanWithSource>)>,
+    /// their own. The third element holds the names the imported file
+    /// references that were not resolved at the time of the import, so that
+    /// an error can be attributed to the right import.
+    json_import_spans: Vec<(String, Option<SpanWithSource>, HashSet<String>)>,
 }
 
 impl CompileContext {
@@ -796,23 +798,41 @@ fn resolve_single_import(
 
     match import.kind {
         ImportKind::Protocol => {
+            let known_types = ctx.registry.schemas().count();
             let imported_messages = import_protocol(&resolved_path, &mut ctx.registry)
                 .map_err(|e| wrap_import_error(e, import.span, &resolved_path, "protocol"))?;
+            let mut unresolved =
+                unresolved_names(&ctx.registry, ctx.registry.schemas().skip(known_types));
+            for msg in imported_messages.values() {
+                let schemas = std::iter::once(&msg.response)
+                    .chain(msg.request.iter().map(|field| &field.schema))
+                    .chain(msg.errors.iter().flatten());
+                unresolved.extend(unresolved_names(&ctx.registry, schemas));
+            }
             ctx.messages.extend(imported_messages);
 
             // Track the import so unresolved references from this .avpr can
             // be attributed to the import statement in error diagnostics.
-            ctx.json_import_spans
-                .push((resolved_path.display().to_string(), import.span));
+            ctx.json_import_spans.push((
+                resolved_path.display().to_string(),
+                import.span,
+                unresolved,
+            ));
         }
         ImportKind::Schema => {
+            let known_types = ctx.registry.schemas().count();
             import_schema(&resolved_path, &mut ctx.registry)
                 .map_err(|e| wrap_import_error(e, import.span, &resolved_path, "schema"))?;
+            let unresolved =
+                unresolved_names(&ctx.registry, ctx.registry.schemas().skip(known_types));
 
             // Track the import so unresolved references from this .avsc can
             // be attributed to the import statement in error diagnostics.
-            ctx.json_import_spans
-                .push((resolved_path.display().to_string(), import.span));
+            ctx.json_import_spans.push((
+                resolved_path.display().to_string(),
+                import.span,
+                unresolved,
+            ));
         }
         ImportKind::Idl => {
             let imported_source = fs::read_to_string(&resolved_path)
@@ -857,6 +877,17 @@ fn resolve_single_import(
     Ok(())
 }
 
+/// The names referenced by `schemas` that are not (yet) in the registry.
+fn unresolved_names<'a>(
+    registry: &SchemaRegistry,
+    schemas: impl Iterator<Item = &'a AvroSchema>,
+) -> HashSet<String> {
+    schemas
+        .flat_map(|schema| registry.validate_schema(schema))
+        .map(|(name, _)| name)
+        .collect()
+}
+
 /// Wrap an import error with the IDL source span of the import statement.
 ///
 /// When the import statement's byte range (`span`) is available, the returned
@@ -1018,7 +1049,7 @@ fn validate_all_references(
     registry: &SchemaRegistry,
     source: &'static str,
     source_name: &'static str,
-    json_import_spans: &[(String, Option<SpanWithSource>)],
+    json_import_spans: &[(String, Option<SpanWithSource>, HashSet<String>)],
 ) -> miette::Result<()> {
     let mut unresolved = registry.validate_references();
 
@@ -1086,15 +1117,24 @@ fn validate_all_references(
     // the undefined type, for use in spanless reference diagnostics.
     let import_file_names: Vec<&str> = json_import_spans
         .iter()
-        .map(|(path, _)| path.as_str())
+        .map(|(path, _, _)| path.as_str())
         .collect();
 
+    // The JSON import whose file references the given undefined name.
+    let import_of = |name: &str| {
+        json_import_spans
+            .iter()
+            .find(|(_, _, unresolved)| unresolved.contains(name))
+    };
+
     if with_span.is_empty() {
         // All unresolved references come from JSON imports (no IDL source
-        // spans). Use the first available import statement span to point
+        // spans). Use the import statement span of the first of them to point
         // the user at the import line, with a help message naming the
         // imported file(s).
-        let first_import_span = json_import_spans.iter().find_map(|(_, s)| *s);
+        let first_import_span = without_span
+            .iter()
+            .find_map(|(name, _)| import_of(name).and_then(|(_, s, _)| *s));
 
         let names: Vec<&str> = without_span.iter().map(|(name, _)| name.as_str()).collect();
         let message = format!("Undefined name: {}", names.join(", "));
@@ -1154,7 +1194,7 @@ fn validate_all_references(
     // available. Include "did you mean?" suggestions where applicable.
     let fallback_span = SpanWithSource::new(0, 0, source_name, source);
     for (name, _) in &without_span {
-        let (span, label) = if let Some((path, Some(import_span))) = json_import_spans.first() {
+        let (span, label) = if let Some((path, Some(import_span), _)) = import_of(name) {
             (
                 *import_span,
                 Some(format!(
-- 
2.43.0


From 66b85f649e59677d993632b882c00dec5785ae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:03 +0000
Subject: [PATCH 16/17] fix: hexadecimal floating-point literals with exponents
 beyond the range of f64

---
 src/reader.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index dd01e93..44e2737 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4165,7 +4165,14 @@ fn parse_hex_float_mantissa_and_exponent(hex_body: &str, original: &str) -> Resu
             as f64
     };
 
-    Ok(mantissa * 2.0_f64.powi(exponent))
+    // A power of two outside the range of `f64` would overflow (or vanish) on
+    // its own even where the scaled mantissa is representable, so scale in
+    // steps that stay within range.
+    let mut value = mantissa * 2.0_f64.powi(exponent % 1000);
+    for _ in 0..(exponent / 1000).abs() {
+        value *= 2.0_f64.powi(1000 * exponent.signum());
+    }
+    Ok(value)
 }
 
 /// Parse an integer literal text into a u32 (for fixed size, decimal precision/scale).
-- 
2.43.0


From 196a5dd4e8fcc98eae4e996d11a38392e651c8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:16 +0000
Subject: [PATCH 17/17] fix: validate defaults inside recursive types at every
 depth

References were resolved ahead of validation, and a reference back to the
type being resolved was left unresolved and thus accepted any value. Resolve
references while descending into the value instead.
---
 src/model/schema.rs | 204 ++++++++++++--------------------------------
 1 file changed, 56 insertions(+), 148 deletions(-)

diff --git a/src/model/schema.rs b/src/model/schema.rs
index 9963f9e..4ba85e0 100644
--- a/src/model/schema.rs
+++ b/src/model/schema.rs
@@ -702,7 +702,19 @@ fn is_json_integer(n: &serde_json::Number) -> bool {
 /// For `Reference` types (forward references not yet resolved), validation is
 /// skipped and `true` is returned, because the referenced type is not available
 /// for inspection at parse time.
+#[cfg(test)]
 pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
+    is_valid_default_with(value, schema, &|_| None)
+}
+
+/// Finds the definition of a type by its full name, if it is already known.
+type Resolver<'a> = &'a dyn Fn(&str) -> Option<AvroSchema>;
+
+/// Like [`is_valid_default`], but looks up the types that references name.
+///
+/// References are resolved while descending into the value, so that the values
+/// of recursive types are validated at every depth.
+fn is_valid_default_with(value: &Value, schema: &AvroSchema, resolver: Resolver<'_>) -> bool {
     match schema {
         // =====================================================================
         // Primitives: each has exactly one valid JSON type.
@@ -747,7 +759,7 @@ pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
             for field in fields {
                 if let Some(field_val) = obj.get(&field.name) {
                     // Default object provides a value for this field -- validate it.
-                    if !is_valid_default(field_val, &field.schema) {
+                    if !is_valid_default_with(field_val, &field.schema, resolver) {
                         return false;
                     }
                 } else if field.default.is_none() {
@@ -771,7 +783,8 @@ pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
                 Some(a) => a,
                 None => return false,
             };
-            arr.iter().all(|elem| is_valid_default(elem, items))
+            arr.iter()
+                .all(|elem| is_valid_default_with(elem, items, resolver))
         }
         AvroSchema::Map { values, .. } => {
             // The default must be a JSON object where every value is valid
@@ -780,7 +793,8 @@ pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
                 Some(o) => o,
                 None => return false,
             };
-            obj.values().all(|val| is_valid_default(val, values))
+            obj.values()
+                .all(|val| is_valid_default_with(val, values, resolver))
         }
 
         // Java's `Schema.isValidDefault` checks whether the default matches
@@ -791,34 +805,60 @@ pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
             if types.is_empty() {
                 false
             } else {
-                types.iter().any(|branch| is_valid_default(value, branch))
+                types
+                    .iter()
+                    .any(|branch| is_valid_default_with(value, branch, resolver))
             }
         }
 
         // =====================================================================
         // Annotated primitives: validate against the underlying primitive type.
         // =====================================================================
-        AvroSchema::AnnotatedPrimitive { kind, .. } => is_valid_default(value, &kind.to_schema()),
+        AvroSchema::AnnotatedPrimitive { kind, .. } => {
+            is_valid_default_with(value, &kind.to_schema(), resolver)
+        }
 
         // =====================================================================
         // Logical types: validate against the underlying physical type.
         // =====================================================================
-        AvroSchema::Logical { logical_type, .. } => {
-            is_valid_default(value, &logical_type.expected_base_type().to_schema())
-        }
+        AvroSchema::Logical { logical_type, .. } => is_valid_default_with(
+            value,
+            &logical_type.expected_base_type().to_schema(),
+            resolver,
+        ),
 
         // =====================================================================
-        // Forward references: skip validation because the referenced type is
-        // not yet resolved at parse time.
+        // References: validate against the type they name. Forward references
+        // are skipped because the referenced type is not yet known.
         // =====================================================================
-        AvroSchema::Reference { .. } => true,
+        AvroSchema::Reference {
+            name, namespace, ..
+        } => resolver(&make_full_name(name, namespace.as_deref()))
+            .is_none_or(|resolved| is_valid_default_with(value, &resolved, resolver)),
     }
 }
 
 /// Returns a human-readable description of why a default value is invalid,
 /// or `None` if the value is valid for the schema.
 pub fn validate_default(value: &Value, schema: &AvroSchema) -> Option<String> {
-    if is_valid_default(value, schema) {
+    validate_default_with(value, schema, &|_| None)
+}
+
+/// Like [`validate_default`], but looks up the types that references name.
+fn validate_default_with(
+    value: &Value,
+    schema: &AvroSchema,
+    resolver: Resolver<'_>,
+) -> Option<String> {
+    if let AvroSchema::Reference {
+        name, namespace, ..
+    } = schema
+        && let Some(resolved) = resolver(&make_full_name(name, namespace.as_deref()))
+    {
+        return validate_default_with(value, &resolved, resolver);
+    }
+
+    if is_valid_default_with(value, schema, resolver) {
         return None;
     }
 
@@ -869,7 +909,7 @@ pub fn validate_default(value: &Value, schema: &AvroSchema) -> Option<String> {
         // Check for fields with invalid default values.
         for field in fields {
             if let Some(field_val) = obj.get(&field.name)
-                && let Some(reason) = validate_default(field_val, &field.schema)
+                && let Some(reason) = validate_default_with(field_val, &field.schema, resolver)
             {
                 return Some(format!(
                     "invalid value for field `{}`: {reason}",
@@ -917,148 +957,16 @@ where
         // Only intervene for Reference types (and unions containing them).
         // Non-Reference types are already validated at parse time by
         // `walk_variable` in reader.rs.
-        let resolved_schema = resolve_for_validation(&field.schema, &resolver);
-        if let Some(ref resolved) = resolved_schema
-            && let Some(reason) = validate_default(default_val, resolved)
-        {
+        // Where a reference cannot be resolved (true forward reference),
+        // validation is skipped.
+        if let Some(reason) = validate_default_with(default_val, &field.schema, &resolver) {
             errors.push((field.name.clone(), reason));
         }
-        // If resolve_for_validation returns None, the reference could not be
-        // resolved (true forward reference), so we skip validation.
     }
 
     errors
 }
 
-/// Attempt to resolve `Reference` types in a schema for default validation.
-///
-/// Returns `Some(resolved_schema)` if all references in the schema can be
-/// resolved, or `None` if any reference is unresolvable (forward reference).
-/// For non-Reference types, returns the schema unchanged.
-///
-/// This function performs deep resolution: it recursively resolves References
-/// inside record fields, array items, map values, and union branches. This is
-/// necessary for validating nested record defaults where inner types may also
-/// be References.
-fn resolve_for_validation<F>(schema: &AvroSchema, resolver: &F) -> Option<AvroSchema>
-where
-    F: Fn(&str) -> Option<AvroSchema>,
-{
-    use std::collections::HashSet;
-    let mut visited = HashSet::new();
-    resolve_for_validation_inner(schema, resolver, &mut visited)
-}
-
-/// Inner recursive function with cycle detection via a `visited` set.
-fn resolve_for_validation_inner<F>(
-    schema: &AvroSchema,
-    resolver: &F,
-    visited: &mut std::collections::HashSet<String>,
-) -> Option<AvroSchema>
-where
-    F: Fn(&str) -> Option<AvroSchema>,
-{
-    match schema {
-        AvroSchema::Reference {
-            name, namespace, ..
-        } => {
-            let full_name = make_full_name(name, namespace.as_deref()).into_owned();
-            // Cycle detection: if we've already seen this type, return a
-            // placeholder that will pass basic JSON type validation.
-            // Cyclic types can still have valid defaults (e.g., a tree node
-            // where child references are nullable), so we don't fail here.
-            if visited.contains(&full_name) {
-                // Return the Reference as-is; is_valid_default treats Reference
-                // as "skip validation", which is appropriate for cyclic refs.
-                return Some(schema.clone());
-            }
-            // Resolve the reference first, then recursively resolve any nested
-            // References inside the resolved type.
-            resolver(&full_name)
-                .and_then(|resolved| resolve_for_validation_inner(&resolved, resolver, visited))
-        }
-        AvroSchema::Union {
-            types,
-            is_nullable_type,
-        } => {
-            // Resolve any Reference branches within the union. If any branch
-            // is an unresolvable forward reference, skip validation for the
-            // entire union.
-            let mut resolved_types = Vec::with_capacity(types.len());
-            for branch in types {
-                match resolve_for_validation_inner(branch, resolver, visited) {
-                    Some(resolved) => resolved_types.push(resolved),
-                    None => return None,
-                }
-            }
-            Some(AvroSchema::Union {
-                types: resolved_types,
-                is_nullable_type: *is_nullable_type,
-            })
-        }
-        AvroSchema::Record {
-            name,
-            namespace,
-            doc,
-            fields,
-            is_error,
-            aliases,
-            properties,
-        } => {
-            // Mark this record as being visited to detect cycles.
-            let full_name = make_full_name(name, namespace.as_deref()).into_owned();
-            visited.insert(full_name.clone());
-
-            // Recursively resolve References inside record fields so that
-            // nested record default validation can see the full types.
-            let mut resolved_fields = Vec::with_capacity(fields.len());
-            for field in fields {
-                let resolved_schema =
-                    resolve_for_validation_inner(&field.schema, resolver, visited)?;
-                resolved_fields.push(Field {
-                    name: field.name.clone(),
-                    schema: resolved_schema,
-                    doc: field.doc.clone(),
-                    default: field.default.clone(),
-                    order: field.order.clone(),
-                    aliases: field.aliases.clone(),
-                    properties: field.properties.clone(),
-                });
-            }
-
-            // Unmark after processing this record's fields.
-            visited.remove(&full_name);
-
-            Some(AvroSchema::Record {
-                name: name.clone(),
-                namespace: namespace.clone(),
-                doc: doc.clone(),
-                fields: resolved_fields,
-                is_error: *is_error,
-                aliases: aliases.clone(),
-                properties: properties.clone(),
-            })
-        }
-        AvroSchema::Array { items, properties } => {
-            let resolved_items = resolve_for_validation_inner(items, resolver, visited)?;
-            Some(AvroSchema::Array {
-                items: Box::new(resolved_items),
-                properties: properties.clone(),
-            })
-        }
-        AvroSchema::Map { values, properties } => {
-            let resolved_values = resolve_for_validation_inner(values, resolver, visited)?;
-            Some(AvroSchema::Map {
-                values: Box::new(resolved_values),
-                properties: properties.clone(),
-            })
-        }
-        // For primitives, enums, fixed, logical types, and annotated primitives,
-        // the schema is already concrete and does not need resolution.
-        other => Some(other.clone()),
-    }
-}
-
 #[cfg(test)]
 impl Field {
     /// Create a field with no aliases, properties, doc, default, or order.
-- 
2.43.0

