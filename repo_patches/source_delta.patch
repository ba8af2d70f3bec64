From eaf6e556a3627b3a54601745600d7eb0093780f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 01/38] fix: do not let an empty comment swallow the text up to
 the next comment end

---
 src/reader.rs | 61 +++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 59 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index c9f6196..5fea071 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -24,7 +24,7 @@ use std::cell::RefCell;
 use std::collections::HashSet;
 use std::rc::Rc;
 
-use std::borrow::Borrow;
+use std::borrow::{Borrow, Cow};
 
 use antlr4rust::common_token_stream::CommonTokenStream;
 use antlr4rust::error_listener::ErrorListener;
@@ -2022,7 +2022,8 @@ pub fn parse_idl_named(
     } else {
         input
     };
-    let input_stream = InputStream::new(input);
+    let lexer_input = blank_empty_comments(input);
+    let input_stream = InputStream::new(lexer_input.as_ref());
     let mut lexer = IdlLexer::new(input_stream);
 
     // Replace the lexer's default ConsoleErrorListener with a
@@ -2194,6 +2195,62 @@ pub fn parse_idl_named(
     Ok((idl_file, decl_items, all_warnings))
 }
 
+/// Replace empty block comments (`/**/`) with spaces of the same length.
+///
+/// The lexer grammar lists `/**/` as a token of its own, but ANTLR prefers the
+/// longest match, so whenever another `*/` follows anywhere in the file the
+/// text from `/**/` up to it lexes as one doc comment -- swallowing every
+/// declaration in between. Blanking empty comments before lexing avoids this
+/// while keeping all offsets, lines, and columns unchanged.
+fn blank_empty_comments(input: &str) -> Cow<'_, str> {
+    const EMPTY: &str = "/**/";
+    if !input.contains(EMPTY) {
+        return Cow::Borrowed(input);
+    }
+
+    let mut out = String::with_capacity(input.len());
+    let mut rest = input;
+    while let Some(pos) = rest.find(['"', '/']) {
+        let (before, tail) = rest.split_at(pos);
+        out.push_str(before);
+        if tail.starts_with(EMPTY) {
+            out.push_str("    ");
+            rest = &tail[EMPTY.len()..];
+            continue;
+        }
+        // Copy strings and other comments verbatim; anything else (including
+        // an unterminated string) is copied one character at a time.
+        let len = if tail.starts_with("//") {
+            tail.find(['\n', '\r']).unwrap_or(tail.len())
+        } else if tail.starts_with("/*") {
+            tail[2..].find("*/").map_or(tail.len(), |end| 2 + end + 2)
+        } else {
+            string_literal_len(tail).unwrap_or(1)
+        };
+        out.push_str(&tail[..len]);
+        rest = &tail[len..];
+    }
+    out.push_str(rest);
+    Cow::Owned(out)
+}
+
+/// Length of the string literal at the start of `s`, or `None` if `s` does not
+/// start with one that is closed on the same line.
+fn string_literal_len(s: &str) -> Option<usize> {
+    let body = s.strip_prefix('"')?;
+    let mut escaped = false;
+    for (i, c) in body.char_indices() {
+        match c {
+            '\n' | '\r' => return None,
+            _ if escaped => escaped = false,
+            '\\' => escaped = true,
+            '"' => return Some(1 + i + 1),
+            _ => {}
+        }
+    }
+    None
+}
+
 // ==========================================================================
 // Token Stream Type Alias
 // ==========================================================================
-- 
2.43.0


From 2a6c0f406e984647191ac1fda82fd84b639a5510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 02/38] fix: accept the smallest long written in hexadecimal or
 octal

---
 src/reader.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 5fea071..15f75f1 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4049,19 +4049,17 @@ fn parse_integer_literal(text: &str) -> Result<Value> {
         i64::from_str_radix(hex, 16)
             .map_err(|e| miette::miette!("invalid hex integer literal '{text}': {e}"))?
     } else if number.starts_with('-') && (number.starts_with("-0x") || number.starts_with("-0X")) {
-        let hex = &number[3..];
-        let abs = i64::from_str_radix(hex, 16)
-            .map_err(|e| miette::miette!("invalid hex integer literal '{text}': {e}"))?;
-        -abs
+        // Keep the sign while parsing: the magnitude of `i64::MIN` does not
+        // fit in an `i64`.
+        i64::from_str_radix(&format!("-{}", &number[3..]), 16)
+            .map_err(|e| miette::miette!("invalid hex integer literal '{text}': {e}"))?
     } else if number.starts_with('0') && number.len() > 1 && !number.contains('.') {
         // Octal.
         i64::from_str_radix(&number, 8)
             .map_err(|e| miette::miette!("invalid octal integer literal '{text}': {e}"))?
     } else if number.starts_with("-0") && number.len() > 2 && !number.contains('.') {
-        let oct = &number[1..];
-        let abs = i64::from_str_radix(oct, 8)
-            .map_err(|e| miette::miette!("invalid octal integer literal '{text}': {e}"))?;
-        -abs
+        i64::from_str_radix(&number, 8)
+            .map_err(|e| miette::miette!("invalid octal integer literal '{text}': {e}"))?
     } else {
         number
             .parse::<i64>()
-- 
2.43.0


From a0203decd88235170c14bcaef877d1f9d4485fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 03/38] fix: read hexadecimal floating-point literals exactly

---
 src/reader.rs | 91 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 61 insertions(+), 30 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 15f75f1..679361c 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4171,44 +4171,75 @@ fn parse_hex_float_mantissa_and_exponent(hex_body: &str, original: &str) -> Resu
         miette::miette!("invalid hex float literal '{original}': missing 'p'/'P' exponent")
     })?;
 
-    // Parse the binary exponent (decimal integer, possibly signed).
-    let exponent: i32 = exp_str
-        .parse()
-        .map_err(|e| miette::miette!("invalid hex float exponent in '{original}': {e}"))?;
-
-    // Parse the hex mantissa, which may contain a '.' decimal point.
-    let mantissa = if let Some((int_part, frac_part)) = mantissa_str.split_once('.') {
-        // Integer part: each hex digit contributes its value in the
-        // corresponding hex place.
-        let int_val = if int_part.is_empty() {
-            0.0
-        } else {
-            u64::from_str_radix(int_part, 16)
-                .map_err(|e| miette::miette!("invalid hex float mantissa in '{original}': {e}"))?
-                as f64
-        };
+    // Parse the binary exponent (decimal integer, possibly signed). An exponent
+    // too large for an `i64` only ever means zero or infinity, so clamping it
+    // is harmless.
+    let exponent = match exp_str.parse::<i64>() {
+        Ok(exponent) => exponent.clamp(-(1 << 40), 1 << 40),
+        Err(e) => match e.kind() {
+            std::num::IntErrorKind::PosOverflow => 1 << 40,
+            std::num::IntErrorKind::NegOverflow => -(1 << 40),
+            _ => {
+                return Err(miette::miette!(
+                    "invalid hex float exponent in '{original}': {e}"
+                ));
+            }
+        },
+    };
 
-        // Fractional part: each hex digit after the point represents
-        // 1/16, 1/256, etc. of its value.
-        let mut frac_val = 0.0_f64;
-        let mut place = 1.0_f64 / 16.0;
-        for ch in frac_part.chars() {
+    // Accumulate the leading hex digits in an integer, so that the value is
+    // `mantissa * 2^scale`; `sticky` records whether any digit that no longer
+    // fits was non-zero.
+    let (int_part, frac_part) = mantissa_str.split_once('.').unwrap_or((mantissa_str, ""));
+    let mut mantissa: u64 = 0;
+    let mut scale = exponent;
+    let mut sticky = false;
+    for (digits, is_fraction) in [(int_part, false), (frac_part, true)] {
+        for ch in digits.chars() {
             let digit = ch.to_digit(16).ok_or_else(|| {
                 miette::miette!("invalid hex digit '{ch}' in float literal '{original}'")
-            })? as f64;
-            frac_val += digit * place;
-            place /= 16.0;
+            })?;
+            if mantissa >> 60 == 0 {
+                mantissa = mantissa << 4 | u64::from(digit);
+                scale -= if is_fraction { 4 } else { 0 };
+            } else {
+                sticky |= digit != 0;
+                scale += if is_fraction { 0 } else { 4 };
+            }
         }
+    }
+    if mantissa == 0 {
+        return Ok(0.0);
+    }
 
-        int_val + frac_val
+    // Round to nearest, ties to even, at the last bit a double of this
+    // magnitude can hold (2^-1074 for subnormal values).
+    let leading_bit = scale + i64::from(63 - mantissa.leading_zeros());
+    if leading_bit > 1023 {
+        return Ok(f64::INFINITY);
+    }
+    let last_bit = (leading_bit - 52).max(-1074);
+    let dropped = last_bit - scale;
+    let significand = if dropped <= 0 {
+        mantissa << -dropped
+    } else if dropped > 64 {
+        0
     } else {
-        // No decimal point — the mantissa is a plain hex integer.
-        u64::from_str_radix(mantissa_str, 16)
-            .map_err(|e| miette::miette!("invalid hex float mantissa in '{original}': {e}"))?
-            as f64
+        let kept = mantissa.checked_shr(dropped as u32).unwrap_or(0);
+        let rest = mantissa & (u64::MAX >> (64 - dropped));
+        let half = 1 << (dropped - 1);
+        let round_up = rest > half || (rest == half && (sticky || kept & 1 == 1));
+        kept + u64::from(round_up)
     };
 
-    Ok(mantissa * 2.0_f64.powi(exponent))
+    // Both factors and the product are exact (or the product overflows to
+    // infinity, as it should).
+    let unit = if last_bit < -1022 {
+        f64::from_bits(1 << (last_bit + 1074))
+    } else {
+        f64::from_bits(((last_bit + 1023) as u64) << 52)
+    };
+    Ok(significand as f64 * unit)
 }
 
 /// Parse an integer literal text into a u32 (for fixed size, decimal precision/scale).
-- 
2.43.0


From 54dd39e5e11d882e4cacb7f20328bf53311252bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 04/38] fix: keep null-namespace types in the null namespace
 when emitted inside another one

---
 src/model/json.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/model/json.rs b/src/model/json.rs
index f715cf3..9487cdc 100644
--- a/src/model/json.rs
+++ b/src/model/json.rs
@@ -55,7 +55,9 @@ pub fn protocol_to_json(protocol: &Protocol) -> Value {
     // Build a lookup table from all named types in the protocol's type list.
     // This includes nested types inside records/fields that were registered
     // in the schema registry.
-    let lookup = build_lookup(&protocol.types, protocol.namespace.as_deref());
+    // Registered types carry their own namespace, so one without a namespace is
+    // in the null namespace rather than in the protocol's.
+    let lookup = build_lookup(&protocol.types, None);
 
     let mut known_names = HashSet::new();
     let mut obj = Map::new();
@@ -210,15 +212,15 @@ fn named_type_preamble(
     let mut obj = Map::new();
     obj.insert("type".to_string(), Value::String(type_str.to_string()));
     obj.insert("name".to_string(), Value::String(name.to_string()));
-    // Emit the namespace key when it differs from the enclosing context.
-    // Special case: when there's no enclosing namespace (standalone .avsc),
-    // treat an empty-string namespace the same as None — Java normalizes
-    // empty namespace to null, so `writeName()` omits it.
-    if namespace != enclosing_namespace
-        && let Some(ns) = namespace
-        && !(ns.is_empty() && enclosing_namespace.is_none())
-    {
-        obj.insert("namespace".to_string(), Value::String(ns.to_string()));
+    // Emit the namespace key when it differs from the enclosing context. The
+    // empty namespace is the null namespace (Java normalizes it likewise), and
+    // inside another namespace it must be spelled out as `""`.
+    let namespace = namespace.unwrap_or("");
+    if namespace != enclosing_namespace.unwrap_or("") {
+        obj.insert(
+            "namespace".to_string(),
+            Value::String(namespace.to_string()),
+        );
     }
     if let Some(doc) = doc {
         obj.insert("doc".to_string(), Value::String(doc.to_string()));
@@ -304,7 +306,7 @@ pub fn schema_to_json(
             };
             let fields_json: Vec<Value> = fields
                 .iter()
-                .map(|f| field_to_json(f, known_names, ns.or(enclosing_namespace), lookup))
+                .map(|f| field_to_json(f, known_names, ns, lookup))
                 .collect();
             obj.insert("fields".to_string(), Value::Array(fields_json));
             finish_named_type(&mut obj, properties, aliases, ns);
@@ -578,7 +580,7 @@ fn schema_ref_name(
     namespace: Option<&str>,
     enclosing_namespace: Option<&str>,
 ) -> String {
-    if namespace == enclosing_namespace {
+    if namespace.unwrap_or("") == enclosing_namespace.unwrap_or("") {
         if is_schema_type_name(name) {
             // Name collides with a built-in type -- must use the full name
             // to avoid ambiguity in the JSON output.
-- 
2.43.0


From 61329571cb938f04a2cb5bcd354739657da22d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 05/38] fix: register the types defined inside the messages of
 an imported protocol

---
 src/import.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index ee5f676..8222d27 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -283,11 +283,41 @@ fn flatten_schema_inner(schema: AvroSchema, collected: &mut Vec<AvroSchema>) ->
 ///
 /// Duplicate registrations are silently ignored (the first definition wins),
 /// matching Java's behavior for imports.
-fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) {
-    let (types, _top_level) = flatten_schema(schema);
+///
+/// Returns the schema with its inline named types replaced by references.
+fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) -> AvroSchema {
+    let (types, top_level) = flatten_schema(schema);
     for t in types {
         let _ = registry.register(t);
     }
+    top_level
+}
+
+/// Register the named types defined inline in a message, replacing them by
+/// references. Like Java's `Protocol.parse()`, a protocol's types include those
+/// first defined in its messages.
+fn flatten_message(message: Message, registry: &mut SchemaRegistry) -> Message {
+    let request = message
+        .request
+        .into_iter()
+        .map(|param| crate::model::schema::Field {
+            schema: flatten_and_register(param.schema, registry),
+            ..param
+        })
+        .collect();
+    let response = flatten_and_register(message.response, registry);
+    let errors = message.errors.map(|errors| {
+        errors
+            .into_iter()
+            .map(|e| flatten_and_register(e, registry))
+            .collect()
+    });
+    Message {
+        request,
+        response,
+        errors,
+        ..message
+    }
 }
 
 // ==============================================================================
@@ -337,7 +367,7 @@ pub fn import_protocol(
                     path.display()
                 )
             })?;
-            messages.insert(name.clone(), message);
+            messages.insert(name.clone(), flatten_message(message, registry));
         }
     }
 
-- 
2.43.0


From f7c72a523f562d3fff526c7f04250c98a64b5988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 06/38] fix: reject fields and enum symbols whose names are not
 legal Avro names

---
 src/reader.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 679361c..f4e77b7 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -3066,6 +3066,7 @@ fn walk_variable<'input>(
         .identifier()
         .ok_or_else(|| make_diagnostic(src, ctx, "missing variable name"))?;
     let field_name = identifier_text(&name_ctx);
+    check_valid_name(src, &*name_ctx, &field_name)?;
 
     // Walk the variable-level schema properties (e.g. @order, @aliases on a
     // specific variable rather than on the field type).
@@ -3167,6 +3168,7 @@ fn walk_enum<'input>(
     for sym_ctx in ctx.enumSymbol_all() {
         if let Some(sym_name_ctx) = sym_ctx.identifier() {
             let sym_name = identifier_text(&sym_name_ctx);
+            check_valid_name(src, &*sym_name_ctx, &sym_name)?;
             if !seen_symbols.insert(sym_name.clone()) {
                 return Err(make_diagnostic(
                     src,
@@ -4289,6 +4291,23 @@ fn friendly_int_error(text: &str, e: &std::num::ParseIntError) -> miette::Report
     }
 }
 
+/// Reject a field name or enum symbol that is not a legal Avro name.
+///
+/// The grammar's identifiers may contain dashes and dots, which only make sense
+/// in annotation names and (dots only) in the names of types. Java's
+/// `Schema.validateName` rejects them for fields and enum symbols.
+fn check_valid_name<'input>(
+    src: &SourceInfo,
+    ctx: &impl antlr4rust::parser_rule_context::ParserRuleContext<'input>,
+    name: &str,
+) -> Result<()> {
+    if is_valid_avro_name(name) {
+        Ok(())
+    } else {
+        Err(make_diagnostic(src, ctx, format!("Illegal name: {name}")))
+    }
+}
+
 /// Given an identifier (which may contain dots like `com.example.MyType`),
 /// extract just the name part (after the last dot).
 fn extract_name(identifier: &str) -> String {
-- 
2.43.0


From 7755d37d32fa825afa7668855a8acb83e304f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 07/38] fix: reject imported JSON that is not valid Avro

---
 src/import.rs | 118 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 94 insertions(+), 24 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index 8222d27..4c963a3 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -28,9 +28,10 @@ use serde_json::Value;
 
 use crate::model::protocol::Message;
 use crate::model::schema::{
-    AvroSchema, FieldOrder, LogicalType, PrimitiveType, parse_logical_type, split_full_name,
+    AvroSchema, FieldOrder, LogicalType, PRIMITIVE_TYPE_NAMES, PrimitiveType, parse_logical_type,
+    split_full_name,
 };
-use crate::resolve::SchemaRegistry;
+use crate::resolve::{SchemaRegistry, is_valid_avro_name};
 use miette::Result;
 
 /// Parse JSON with C-style comment stripping (`//` and `/* */`).
@@ -284,40 +285,54 @@ fn flatten_schema_inner(schema: AvroSchema, collected: &mut Vec<AvroSchema>) ->
 /// Duplicate registrations are silently ignored (the first definition wins),
 /// matching Java's behavior for imports.
 ///
-/// Returns the schema with its inline named types replaced by references.
-fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) -> AvroSchema {
+/// Returns the schema with its inline named types replaced by references, or an
+/// error if one of them has an illegal name.
+fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) -> Result<AvroSchema> {
     let (types, top_level) = flatten_schema(schema);
     for t in types {
-        let _ = registry.register(t);
+        if let Some(name) = t.full_name() {
+            if PRIMITIVE_TYPE_NAMES.contains(&name.as_ref()) {
+                miette::bail!("types may not be named after primitives: {name}");
+            }
+            if registry.lookup(&name).is_some() {
+                continue;
+            }
+        }
+        registry.register(t).map_err(|e| miette::miette!("{e}"))?;
     }
-    top_level
+    Ok(top_level)
 }
 
 /// Register the named types defined inline in a message, replacing them by
 /// references. Like Java's `Protocol.parse()`, a protocol's types include those
 /// first defined in its messages.
-fn flatten_message(message: Message, registry: &mut SchemaRegistry) -> Message {
+fn flatten_message(message: Message, registry: &mut SchemaRegistry) -> Result<Message> {
     let request = message
         .request
         .into_iter()
-        .map(|param| crate::model::schema::Field {
-            schema: flatten_and_register(param.schema, registry),
-            ..param
+        .map(|param| {
+            Ok(crate::model::schema::Field {
+                schema: flatten_and_register(param.schema, registry)?,
+                ..param
+            })
         })
-        .collect();
-    let response = flatten_and_register(message.response, registry);
-    let errors = message.errors.map(|errors| {
-        errors
-            .into_iter()
-            .map(|e| flatten_and_register(e, registry))
-            .collect()
-    });
-    Message {
+        .collect::<Result<_>>()?;
+    let response = flatten_and_register(message.response, registry)?;
+    let errors = message
+        .errors
+        .map(|errors| {
+            errors
+                .into_iter()
+                .map(|e| flatten_and_register(e, registry))
+                .collect::<Result<_>>()
+        })
+        .transpose()?;
+    Ok(Message {
         request,
         response,
         errors,
         ..message
-    }
+    })
 }
 
 // ==============================================================================
@@ -354,7 +369,9 @@ pub fn import_protocol(
                     path.display()
                 )
             })?;
-            flatten_and_register(schema, registry);
+            flatten_and_register(schema, registry).map_err(|e| {
+                miette::miette!("type at index {i} in protocol `{}`: {e}", path.display())
+            })?;
         }
     }
 
@@ -367,7 +384,10 @@ pub fn import_protocol(
                     path.display()
                 )
             })?;
-            messages.insert(name.clone(), flatten_message(message, registry));
+            let message = flatten_message(message, registry).map_err(|e| {
+                miette::miette!("message `{name}` in protocol `{}`: {e}", path.display())
+            })?;
+            messages.insert(name.clone(), message);
         }
     }
 
@@ -393,7 +413,8 @@ pub fn import_schema(path: &Path, registry: &mut SchemaRegistry) -> Result<()> {
 
     let schema = json_to_schema(&json, None)
         .map_err(|e| miette::miette!("parse schema from `{}`: {e}", path.display()))?;
-    flatten_and_register(schema, registry);
+    flatten_and_register(schema, registry)
+        .map_err(|e| miette::miette!("schema from `{}`: {e}", path.display()))?;
 
     Ok(())
 }
@@ -424,8 +445,10 @@ fn json_to_schema(json: &Value, default_namespace: Option<&str>) -> Result<AvroS
                 .iter()
                 .map(|t| json_to_schema(t, default_namespace))
                 .collect();
+            let types = schemas?;
+            validate_union(&types)?;
             Ok(AvroSchema::Union {
-                types: schemas?,
+                types,
                 is_nullable_type: false,
             })
         }
@@ -437,6 +460,36 @@ fn json_to_schema(json: &Value, default_namespace: Option<&str>) -> Result<AvroS
     }
 }
 
+/// Check that the branches of an imported union neither nest unions nor repeat
+/// a type, as for unions written in IDL.
+fn validate_union(types: &[AvroSchema]) -> Result<()> {
+    let mut seen = HashSet::new();
+    for t in types {
+        if matches!(t, AvroSchema::Union { .. }) {
+            miette::bail!("unions may not immediately contain other unions");
+        }
+        let key = t.union_type_key();
+        if !seen.insert(key.clone()) {
+            miette::bail!("duplicate in union: {key}");
+        }
+    }
+    Ok(())
+}
+
+/// Check that field names or enum symbols are legal Avro names and distinct.
+fn validate_names<'a>(what: &str, names: impl Iterator<Item = &'a str>) -> Result<()> {
+    let mut seen = HashSet::new();
+    for name in names {
+        if !is_valid_avro_name(name) {
+            miette::bail!("invalid {what} name `{name}`");
+        }
+        if !seen.insert(name) {
+            miette::bail!("duplicate {what} `{name}`");
+        }
+    }
+    Ok(())
+}
+
 /// Parse a string as either a primitive type name or a named type reference.
 fn string_to_schema(s: &str, default_namespace: Option<&str>) -> AvroSchema {
     // Try parsing as a primitive type first.
@@ -544,6 +597,8 @@ fn parse_record(
     } else {
         vec![]
     };
+    validate_names("field", fields.iter().map(|f| f.name.as_str()))
+        .map_err(|e| miette::miette!("{e} in record `{name}`"))?;
 
     let aliases = extract_string_array(obj.get("aliases"));
 
@@ -587,6 +642,13 @@ fn parse_enum(
         .get("default")
         .and_then(|d| d.as_str())
         .map(|s| s.to_string());
+    validate_names("symbol", symbols.iter().map(String::as_str))
+        .map_err(|e| miette::miette!("{e} in enum `{name}`"))?;
+    if let Some(default) = &default
+        && !symbols.contains(default)
+    {
+        miette::bail!("the default `{default}` of enum `{name}` is not one of its symbols");
+    }
     let aliases = extract_string_array(obj.get("aliases"));
 
     let properties = collect_extra_properties(
@@ -859,6 +921,8 @@ fn json_to_message(json: &Value, default_namespace: Option<&str>) -> Result<Mess
         AvroSchema::Null
     };
 
+    validate_names("parameter", request.iter().map(|p| p.name.as_str()))?;
+
     let errors = if let Some(Value::Array(errs)) = obj.get("errors") {
         Some(
             errs.iter()
@@ -874,6 +938,12 @@ fn json_to_message(json: &Value, default_namespace: Option<&str>) -> Result<Mess
         None
     };
 
+    // Errors are the branches of a union.
+    validate_union(errors.as_deref().unwrap_or_default())?;
+    if one_way && (response != AvroSchema::Null || errors.is_some()) {
+        miette::bail!("a one-way message must have a null response and no errors");
+    }
+
     let properties =
         collect_extra_properties(obj, &["doc", "request", "response", "errors", "one-way"]);
 
-- 
2.43.0


From 3f9e9f233027b1c0e7659491e69dba084f4ca8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 08/38] fix: let a file's own messages win over the ones it
 imports

---
 src/compiler.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 3148bf3..c6d0638 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -821,11 +821,6 @@ fn resolve_single_import(
                     .push(miette::Report::new(w).wrap_err(import_file_name.to_string()));
             }
 
-            // If the imported IDL is a protocol, merge its messages.
-            if let IdlFile::Protocol(imported_protocol) = &imported_idl {
-                ctx.messages.extend(imported_protocol.messages.clone());
-            }
-
             // Recursively process declaration items from the imported file.
             // IDL imports use their own source text for span tracking, so
             // `ctx.json_import_spans` is passed through to capture any nested
@@ -833,6 +828,13 @@ fn resolve_single_import(
             process_decl_items(&nested_decl_items, ctx, &import_dir).with_context(|| {
                 format!("resolve nested imports from `{}`", resolved_path.display())
             })?;
+
+            // If the imported IDL is a protocol, merge its messages. This
+            // comes after its own imports, so that (as for the main file) a
+            // message the file defines itself wins over an imported one.
+            if let IdlFile::Protocol(imported_protocol) = imported_idl {
+                ctx.messages.extend(imported_protocol.messages);
+            }
         }
     }
 
-- 
2.43.0


From 06442a3d2d2c2db3edeeb8e2f4087df6e4acb70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 09/38] fix: validate defaults along the value instead of
 expanding the whole schema

---
 src/model/schema.rs | 228 +++++++++++++++-----------------------------
 1 file changed, 78 insertions(+), 150 deletions(-)

diff --git a/src/model/schema.rs b/src/model/schema.rs
index 9963f9e..35cdea8 100644
--- a/src/model/schema.rs
+++ b/src/model/schema.rs
@@ -694,6 +694,15 @@ fn is_json_integer(n: &serde_json::Number) -> bool {
     n.is_i64() || n.is_u64()
 }
 
+/// Looks up a named type by its full name. Returns `None` for types that are not
+/// known (yet).
+type Resolver<'a> = dyn Fn(&str) -> Option<AvroSchema> + 'a;
+
+/// Remembers which (sub)values fit which named types while one default is being
+/// validated, so that unions of mutually recursive records do not make us check
+/// the same value against the same type over and over again.
+type KnownFits = HashMap<(*const Value, String), bool>;
+
 /// Validate that a JSON default value is compatible with the given Avro schema
 /// type, per the Avro specification's default value rules.
 ///
@@ -703,6 +712,25 @@ fn is_json_integer(n: &serde_json::Number) -> bool {
 /// skipped and `true` is returned, because the referenced type is not available
 /// for inspection at parse time.
 pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
+    is_valid_default_with(value, schema, &|_| None)
+}
+
+/// Like [`is_valid_default`], but validates against the types that `resolver`
+/// knows where the schema refers to them by name.
+///
+/// References are resolved only where the value being validated reaches them,
+/// so the work is proportional to the size of the value, not to the size of the
+/// (possibly recursive) schema when fully expanded.
+fn is_valid_default_with(value: &Value, schema: &AvroSchema, resolver: &Resolver<'_>) -> bool {
+    default_fits(value, schema, resolver, &mut KnownFits::new())
+}
+
+fn default_fits(
+    value: &Value,
+    schema: &AvroSchema,
+    resolver: &Resolver<'_>,
+    known: &mut KnownFits,
+) -> bool {
     match schema {
         // =====================================================================
         // Primitives: each has exactly one valid JSON type.
@@ -747,7 +775,7 @@ pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
             for field in fields {
                 if let Some(field_val) = obj.get(&field.name) {
                     // Default object provides a value for this field -- validate it.
-                    if !is_valid_default(field_val, &field.schema) {
+                    if !default_fits(field_val, &field.schema, resolver, known) {
                         return false;
                     }
                 } else if field.default.is_none() {
@@ -771,7 +799,8 @@ pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
                 Some(a) => a,
                 None => return false,
             };
-            arr.iter().all(|elem| is_valid_default(elem, items))
+            arr.iter()
+                .all(|elem| default_fits(elem, items, resolver, known))
         }
         AvroSchema::Map { values, .. } => {
             // The default must be a JSON object where every value is valid
@@ -780,7 +809,8 @@ pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
                 Some(o) => o,
                 None => return false,
             };
-            obj.values().all(|val| is_valid_default(val, values))
+            obj.values()
+                .all(|val| default_fits(val, values, resolver, known))
         }
 
         // Java's `Schema.isValidDefault` checks whether the default matches
@@ -791,7 +821,9 @@ pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
             if types.is_empty() {
                 false
             } else {
-                types.iter().any(|branch| is_valid_default(value, branch))
+                types
+                    .iter()
+                    .any(|branch| default_fits(value, branch, resolver, known))
             }
         }
 
@@ -808,20 +840,53 @@ pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
         }
 
         // =====================================================================
-        // Forward references: skip validation because the referenced type is
-        // not yet resolved at parse time.
+        // References: validate against the type they name. Forward references
+        // that the resolver does not know (yet) are accepted.
         // =====================================================================
-        AvroSchema::Reference { .. } => true,
+        AvroSchema::Reference {
+            name, namespace, ..
+        } => {
+            let full_name = make_full_name(name, namespace.as_deref()).into_owned();
+            let key = (std::ptr::from_ref(value), full_name);
+            if let Some(&fits) = known.get(&key) {
+                return fits;
+            }
+            let fits = match resolver(&key.1) {
+                Some(resolved) => default_fits(value, &resolved, resolver, known),
+                None => true,
+            };
+            known.insert(key, fits);
+            fits
+        }
     }
 }
 
 /// Returns a human-readable description of why a default value is invalid,
 /// or `None` if the value is valid for the schema.
 pub fn validate_default(value: &Value, schema: &AvroSchema) -> Option<String> {
-    if is_valid_default(value, schema) {
+    validate_default_with(value, schema, &|_| None)
+}
+
+/// Like [`validate_default`], but validates against the types that `resolver`
+/// knows where the schema refers to them by name.
+pub fn validate_default_with(
+    value: &Value,
+    schema: &AvroSchema,
+    resolver: &Resolver<'_>,
+) -> Option<String> {
+    if is_valid_default_with(value, schema, resolver) {
         return None;
     }
 
+    // Describe the problem in terms of the referenced type.
+    if let AvroSchema::Reference {
+        name, namespace, ..
+    } = schema
+        && let Some(resolved) = resolver(&make_full_name(name, namespace.as_deref()))
+    {
+        return validate_default_with(value, &resolved, resolver);
+    }
+
     // Produce a more specific message for integer values that are the right JSON
     // type but fall outside the schema's numeric range.
     if let Value::Number(n) = value
@@ -869,7 +934,7 @@ pub fn validate_default(value: &Value, schema: &AvroSchema) -> Option<String> {
         // Check for fields with invalid default values.
         for field in fields {
             if let Some(field_val) = obj.get(&field.name)
-                && let Some(reason) = validate_default(field_val, &field.schema)
+                && let Some(reason) = validate_default_with(field_val, &field.schema, resolver)
             {
                 return Some(format!(
                     "invalid value for field `{}`: {reason}",
@@ -892,9 +957,9 @@ pub fn validate_default(value: &Value, schema: &AvroSchema) -> Option<String> {
 /// At parse time, `validate_default` skips validation for `Reference` types
 /// because the referenced schema is not yet available. This function runs
 /// after type registration, when a resolver can look up previously-registered
-/// types. If the reference resolves, the default is validated against the
-/// resolved schema. If resolution fails (true forward reference), validation
-/// is skipped, matching the existing behavior.
+/// types. If a reference resolves, the value is validated against the resolved
+/// schema. If resolution fails (true forward reference), that part of the value
+/// is accepted, matching the existing behavior.
 ///
 /// Returns a list of `(field_name, reason)` pairs for any invalid defaults
 /// found.
@@ -914,151 +979,14 @@ where
             None => continue,
         };
 
-        // Only intervene for Reference types (and unions containing them).
-        // Non-Reference types are already validated at parse time by
-        // `walk_variable` in reader.rs.
-        let resolved_schema = resolve_for_validation(&field.schema, &resolver);
-        if let Some(ref resolved) = resolved_schema
-            && let Some(reason) = validate_default(default_val, resolved)
-        {
+        if let Some(reason) = validate_default_with(default_val, &field.schema, &resolver) {
             errors.push((field.name.clone(), reason));
         }
-        // If resolve_for_validation returns None, the reference could not be
-        // resolved (true forward reference), so we skip validation.
     }
 
     errors
 }
 
-/// Attempt to resolve `Reference` types in a schema for default validation.
-///
-/// Returns `Some(resolved_schema)` if all references in the schema can be
-/// resolved, or `None` if any reference is unresolvable (forward reference).
-/// For non-Reference types, returns the schema unchanged.
-///
-/// This function performs deep resolution: it recursively resolves References
-/// inside record fields, array items, map values, and union branches. This is
-/// necessary for validating nested record defaults where inner types may also
-/// be References.
-fn resolve_for_validation<F>(schema: &AvroSchema, resolver: &F) -> Option<AvroSchema>
-where
-    F: Fn(&str) -> Option<AvroSchema>,
-{
-    use std::collections::HashSet;
-    let mut visited = HashSet::new();
-    resolve_for_validation_inner(schema, resolver, &mut visited)
-}
-
-/// Inner recursive function with cycle detection via a `visited` set.
-fn resolve_for_validation_inner<F>(
-    schema: &AvroSchema,
-    resolver: &F,
-    visited: &mut std::collections::HashSet<String>,
-) -> Option<AvroSchema>
-where
-    F: Fn(&str) -> Option<AvroSchema>,
-{
-    match schema {
-        AvroSchema::Reference {
-            name, namespace, ..
-        } => {
-            let full_name = make_full_name(name, namespace.as_deref()).into_owned();
-            // Cycle detection: if we've already seen this type, return a
-            // placeholder that will pass basic JSON type validation.
-            // Cyclic types can still have valid defaults (e.g., a tree node
-            // where child references are nullable), so we don't fail here.
-            if visited.contains(&full_name) {
-                // Return the Reference as-is; is_valid_default treats Reference
-                // as "skip validation", which is appropriate for cyclic refs.
-                return Some(schema.clone());
-            }
-            // Resolve the reference first, then recursively resolve any nested
-            // References inside the resolved type.
-            resolver(&full_name)
-                .and_then(|resolved| resolve_for_validation_inner(&resolved, resolver, visited))
-        }
-        AvroSchema::Union {
-            types,
-            is_nullable_type,
-        } => {
-            // Resolve any Reference branches within the union. If any branch
-            // is an unresolvable forward reference, skip validation for the
-            // entire union.
-            let mut resolved_types = Vec::with_capacity(types.len());
-            for branch in types {
-                match resolve_for_validation_inner(branch, resolver, visited) {
-                    Some(resolved) => resolved_types.push(resolved),
-                    None => return None,
-                }
-            }
-            Some(AvroSchema::Union {
-                types: resolved_types,
-                is_nullable_type: *is_nullable_type,
-            })
-        }
-        AvroSchema::Record {
-            name,
-            namespace,
-            doc,
-            fields,
-            is_error,
-            aliases,
-            properties,
-        } => {
-            // Mark this record as being visited to detect cycles.
-            let full_name = make_full_name(name, namespace.as_deref()).into_owned();
-            visited.insert(full_name.clone());
-
-            // Recursively resolve References inside record fields so that
-            // nested record default validation can see the full types.
-            let mut resolved_fields = Vec::with_capacity(fields.len());
-            for field in fields {
-                let resolved_schema =
-                    resolve_for_validation_inner(&field.schema, resolver, visited)?;
-                resolved_fields.push(Field {
-                    name: field.name.clone(),
-                    schema: resolved_schema,
-                    doc: field.doc.clone(),
-                    default: field.default.clone(),
-                    order: field.order.clone(),
-                    aliases: field.aliases.clone(),
-                    properties: field.properties.clone(),
-                });
-            }
-
-            // Unmark after processing this record's fields.
-            visited.remove(&full_name);
-
-            Some(AvroSchema::Record {
-                name: name.clone(),
-                namespace: namespace.clone(),
-                doc: doc.clone(),
-                fields: resolved_fields,
-                is_error: *is_error,
-                aliases: aliases.clone(),
-                properties: properties.clone(),
-            })
-        }
-        AvroSchema::Array { items, properties } => {
-            let resolved_items = resolve_for_validation_inner(items, resolver, visited)?;
-            Some(AvroSchema::Array {
-                items: Box::new(resolved_items),
-                properties: properties.clone(),
-            })
-        }
-        AvroSchema::Map { values, properties } => {
-            let resolved_values = resolve_for_validation_inner(values, resolver, visited)?;
-            Some(AvroSchema::Map {
-                values: Box::new(resolved_values),
-                properties: properties.clone(),
-            })
-        }
-        // For primitives, enums, fixed, logical types, and annotated primitives,
-        // the schema is already concrete and does not need resolution.
-        other => Some(other.clone()),
-    }
-}
-
 #[cfg(test)]
 impl Field {
     /// Create a field with no aliases, properties, doc, default, or order.
-- 
2.43.0


From 8a8ab5648f56e211453c5e0a3a1bb6e2c58e34f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 10/38] fix: validate message parameter defaults against the
 types they refer to

---
 src/compiler.rs     | 101 ++++++++++++++++++++++++++------------------
 src/model/schema.rs |  15 +++++--
 src/reader.rs       |  39 +++++++++++++++++
 3 files changed, 109 insertions(+), 46 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index c6d0638..6e4999c 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -30,7 +30,7 @@ use crate::error::{ParseDiagnostic, SpanWithSource};
 use crate::import::{ImportContext, import_protocol, import_schema};
 use crate::model::json::{build_lookup, protocol_to_json, schema_to_json};
 use crate::model::protocol::Message;
-use crate::model::schema::validate_record_field_defaults;
+use crate::model::schema::{validate_field_defaults, validate_record_field_defaults};
 use crate::reader::{DeclItem, IdlFile, ImportKind, parse_idl_named};
 use crate::resolve::SchemaRegistry;
 
@@ -696,48 +696,18 @@ fn process_decl_items(
                 let errors = validate_record_field_defaults(schema, |full_name| {
                     ctx.registry.lookup(full_name).cloned()
                 });
-                if errors.is_empty() {
-                    continue;
-                }
                 let type_name = schema.full_name().unwrap_or(Cow::Borrowed("<unknown>"));
-                let mut error_iter = errors.into_iter();
-                let (first_field, first_reason) = error_iter.next().expect("errors is non-empty");
-
-                // Build related diagnostics from subsequent errors.
-                let related: Vec<ParseDiagnostic> = error_iter
-                    .filter_map(|(field_name, reason)| {
-                        let msg = format!(
-                            "Invalid default for field `{field_name}` in `{type_name}`: {reason}"
-                        );
-                        let effective_span = field_spans.get(&field_name).copied().or(*span);
-                        effective_span.map(|span| ParseDiagnostic {
-                            span,
-                            message: msg,
-                            label: None,
-                            help: None,
-                            related: Vec::new(),
-                        })
-                    })
-                    .collect();
-
-                let first_msg = format!(
-                    "Invalid default for field `{first_field}` in `{type_name}`: {first_reason}"
-                );
-                // Prefer the per-field span (from the variable declaration)
-                // over the type-level span (from the record keyword), so the
-                // diagnostic highlights the offending field, not the record.
-                let effective_span = field_spans.get(&first_field).copied().or(*span);
-                if let Some(span) = effective_span {
-                    return Err(ParseDiagnostic {
-                        span,
-                        message: first_msg,
-                        label: None,
-                        help: None,
-                        related,
-                    }
-                    .into());
-                }
-                return Err(miette::miette!("{first_msg}"));
+                reject_invalid_defaults(errors, &type_name, field_spans, *span)?;
+            }
+            DeclItem::MessageDefaults {
+                message,
+                params,
+                param_spans,
+            } => {
+                let errors = validate_field_defaults(params, |full_name| {
+                    ctx.registry.lookup(full_name).cloned()
+                });
+                reject_invalid_defaults(errors, message, param_spans, None)?;
             }
         }
     }
@@ -745,6 +715,53 @@ fn process_decl_items(
     Ok(())
 }
 
+/// Turn the invalid defaults found in `owner` (a type or message), if any, into a
+/// single error that reports all of them.
+fn reject_invalid_defaults(
+    errors: Vec<(String, String)>,
+    owner: &str,
+    field_spans: &HashMap<String, SpanWithSource>,
+    owner_span: Option<SpanWithSource>,
+) -> miette::Result<()> {
+    let mut error_iter = errors.into_iter();
+    let Some((first_field, first_reason)) = error_iter.next() else {
+        return Ok(());
+    };
+
+    // Build related diagnostics from subsequent errors.
+    let related: Vec<ParseDiagnostic> = error_iter
+        .filter_map(|(field_name, reason)| {
+            let msg = format!("Invalid default for field `{field_name}` in `{owner}`: {reason}");
+            let effective_span = field_spans.get(&field_name).copied().or(owner_span);
+            effective_span.map(|span| ParseDiagnostic {
+                span,
+                message: msg,
+                label: None,
+                help: None,
+                related: Vec::new(),
+            })
+        })
+        .collect();
+
+    let first_msg =
+        format!("Invalid default for field `{first_field}` in `{owner}`: {first_reason}");
+    // Prefer the per-field span (from the variable declaration) over the
+    // owner's span (from the record keyword), so the diagnostic highlights the
+    // offending field, not the record.
+    let effective_span = field_spans.get(&first_field).copied().or(owner_span);
+    if let Some(span) = effective_span {
+        return Err(ParseDiagnostic {
+            span,
+            message: first_msg,
+            label: None,
+            help: None,
+            related,
+        }
+        .into());
+    }
+    Err(miette::miette!("{first_msg}"))
+}
+
 /// Resolve a single import entry, registering schemas and merging messages
 /// into the current protocol.
 fn resolve_single_import(
diff --git a/src/model/schema.rs b/src/model/schema.rs
index 35cdea8..52fa0ac 100644
--- a/src/model/schema.rs
+++ b/src/model/schema.rs
@@ -967,11 +967,18 @@ pub fn validate_record_field_defaults<F>(schema: &AvroSchema, resolver: F) -> Ve
 where
     F: Fn(&str) -> Option<AvroSchema>,
 {
-    let fields = match schema {
-        AvroSchema::Record { fields, .. } => fields,
-        _ => return Vec::new(),
-    };
+    match schema {
+        AvroSchema::Record { fields, .. } => validate_field_defaults(fields, resolver),
+        _ => Vec::new(),
+    }
+}
 
+/// Validate the defaults of the given fields (of a record) or parameters (of a
+/// message). See [`validate_record_field_defaults`].
+pub fn validate_field_defaults<F>(fields: &[Field], resolver: F) -> Vec<(String, String)>
+where
+    F: Fn(&str) -> Option<AvroSchema>,
+{
     let mut errors = Vec::new();
     for field in fields {
         let default_val = match &field.default {
diff --git a/src/reader.rs b/src/reader.rs
index f4e77b7..1de45ac 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1984,6 +1984,17 @@ pub enum DeclItem {
         Option<SpanWithSource>,
         HashMap<String, SpanWithSource>,
     ),
+    /// The parameters of a message with at least one parameter default, so that
+    /// defaults of Reference-typed parameters can be validated in the compiler
+    /// against the types declared before the message.
+    ///
+    /// As for `Type`, the `HashMap` maps parameter names to the source location
+    /// of their default value.
+    MessageDefaults {
+        message: String,
+        params: Vec<Field>,
+        param_spans: HashMap<String, SpanWithSource>,
+    },
 }
 
 /// Test-only wrapper around [`parse_idl_named`] that normalizes CRLF line
@@ -2821,6 +2832,13 @@ fn walk_protocol<'input>(
         } else if let Ok(msg_ctx) = child.downcast_rc::<MessageDeclarationContextAll<'input>>() {
             let (msg_name, message) =
                 walk_message(&msg_ctx, token_stream, src, namespace.as_deref())?;
+            if message.request.iter().any(|param| param.default.is_some()) {
+                decl_items.push(DeclItem::MessageDefaults {
+                    message: msg_name.clone(),
+                    params: message.request.clone(),
+                    param_spans: param_default_spans(&msg_ctx, &message.request, src),
+                });
+            }
             messages.insert(msg_name, message);
         }
     }
@@ -3741,6 +3759,27 @@ fn walk_message<'input>(
     ))
 }
 
+/// Map each parameter name to the source location of the parameter's default
+/// value (or of its whole variable declaration if it has none).
+fn param_default_spans<'input>(
+    ctx: &MessageDeclarationContextAll<'input>,
+    params: &[Field],
+    src: &SourceInfo,
+) -> HashMap<String, SpanWithSource> {
+    let mut spans = HashMap::new();
+    for (param, param_ctx) in params.iter().zip(ctx.formalParameter_all()) {
+        if let Some(var_ctx) = param_ctx.variableDeclaration()
+            && let Some((offset, length)) = var_ctx
+                .jsonValue()
+                .and_then(|jv| span_from_context(&*jv))
+                .or_else(|| span_from_context(&*var_ctx))
+        {
+            spans.insert(param.name.clone(), src.span(offset, length));
+        }
+    }
+    spans
+}
+
 /// Walk a `resultType`: either `void` (produces Null) or a `plainType`.
 fn walk_result_type<'input>(
     ctx: &ResultTypeContextAll<'input>,
-- 
2.43.0


From 4d2015cb0ece6bf59dcf2204b95094bd6373cc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:55 +0000
Subject: [PATCH 11/38] fix: leave unfitting logical types untouched, also in
 imported JSON

A logical type whose base does not match, or a decimal whose precision or scale
is invalid, must leave the primitive and its properties as they are. The JSON
importer changed the base type or dropped properties instead, and an annotated
decimal with scale above precision was promoted.
---
 src/import.rs | 57 ++++++++++++---------------------------------------
 src/reader.rs | 17 ++++++++++++---
 2 files changed, 27 insertions(+), 47 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index 4c963a3..5d94206 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -27,10 +27,12 @@ use std::path::{Path, PathBuf};
 use serde_json::Value;
 
 use crate::model::protocol::Message;
+#[cfg(test)]
+use crate::model::schema::LogicalType;
 use crate::model::schema::{
-    AvroSchema, FieldOrder, LogicalType, PRIMITIVE_TYPE_NAMES, PrimitiveType, parse_logical_type,
-    split_full_name,
+    AvroSchema, FieldOrder, PRIMITIVE_TYPE_NAMES, PrimitiveType, split_full_name,
 };
+use crate::reader::try_promote_logical_type;
 use crate::resolve::{SchemaRegistry, is_valid_avro_name};
 use miette::Result;
 
@@ -760,60 +762,27 @@ fn parse_map(
 /// Parse a JSON object whose `type` is a primitive (e.g., `{"type": "long",
 /// "logicalType": "timestamp-millis"}`).
 ///
-/// If a `logicalType` annotation is present and recognized, we produce an
-/// `AvroSchema::Logical`. Otherwise, we return the bare primitive.
+/// If a `logicalType` annotation is present and valid on this primitive, we
+/// produce an `AvroSchema::Logical`. Otherwise, we keep the primitive and its
+/// properties as they are.
 ///
-/// Uses the shared `parse_logical_type` helper for name-to-variant mapping,
-/// ensuring consistent logical type recognition with the IDL reader.
+/// Uses the IDL reader's `try_promote_logical_type`, ensuring consistent logical
+/// type recognition with `@logicalType` annotations.
 fn parse_annotated_primitive(
     obj: &serde_json::Map<String, Value>,
     prim: &str,
     _default_namespace: Option<&str>,
 ) -> Result<AvroSchema> {
-    if let Some(logical) = obj.get("logicalType").and_then(|l| l.as_str()) {
-        // Extract precision and scale for `decimal`. For non-decimal types
-        // these are ignored by `parse_logical_type`.
-        let precision_u64 = obj.get("precision").and_then(|p| p.as_u64());
-        let precision = precision_u64.and_then(|v| u32::try_from(v).ok());
-        let scale_u64 = obj.get("scale").and_then(|s| s.as_u64());
-        let scale = scale_u64.and_then(|v| u32::try_from(v).ok());
-
-        if let Some(lt) = parse_logical_type(logical, precision, scale) {
-            // For decimal, validate that precision >= 1 (the shared helper
-            // returns None when precision is absent, but we also need to
-            // reject explicit zero).
-            if let LogicalType::Decimal { precision, .. } = &lt
-                && *precision < 1
-            {
-                miette::bail!("decimal precision must be >= 1");
-            }
-
-            let properties =
-                collect_extra_properties(obj, &["type", "logicalType", "precision", "scale"]);
-            return Ok(AvroSchema::Logical {
-                logical_type: lt,
-                properties,
-            });
-        }
-
-        // Unknown logical type -- preserve as properties on AnnotatedPrimitive.
-        let properties = collect_extra_properties(obj, &["type"]);
-        return Ok(AvroSchema::AnnotatedPrimitive {
-            kind: str_to_primitive_type(prim),
-            properties,
-        });
-    }
-
-    // Primitive with no logical type. If there are extra properties beyond
-    // "type", wrap in AnnotatedPrimitive to preserve them.
+    // If there are extra properties beyond "type", wrap in AnnotatedPrimitive to
+    // preserve them, unless they describe a logical type valid on this primitive.
     let properties = collect_extra_properties(obj, &["type"]);
     if properties.is_empty() {
         primitive_from_str(prim)
     } else {
-        Ok(AvroSchema::AnnotatedPrimitive {
+        Ok(try_promote_logical_type(AvroSchema::AnnotatedPrimitive {
             kind: str_to_primitive_type(prim),
             properties,
-        })
+        }))
     }
 }
 
diff --git a/src/reader.rs b/src/reader.rs
index 1de45ac..4787209 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4490,7 +4490,7 @@ fn apply_properties_to_schema(
 /// Invalid combinations are also left as-is, matching Java's
 /// `fromSchemaIgnoreInvalid` behavior which silently ignores invalid logical
 /// types.
-fn try_promote_logical_type(schema: AvroSchema) -> AvroSchema {
+pub(crate) fn try_promote_logical_type(schema: AvroSchema) -> AvroSchema {
     match schema {
         AvroSchema::AnnotatedPrimitive {
             kind,
@@ -4508,12 +4508,13 @@ fn try_promote_logical_type(schema: AvroSchema) -> AvroSchema {
                 .get("precision")
                 .and_then(json_value_as_u32)
                 .filter(|&v| v <= i32::MAX as u32);
-            let scale = properties
+            let declared_scale = properties
                 .get("scale")
                 .and_then(json_value_as_u32)
                 .filter(|&v| v <= i32::MAX as u32);
 
-            let Some(logical_type) = parse_logical_type(&logical_name, precision, scale) else {
+            let Some(logical_type) = parse_logical_type(&logical_name, precision, declared_scale)
+            else {
                 // Unrecognized logical type name (or decimal missing precision):
                 // leave as AnnotatedPrimitive.
                 return AvroSchema::AnnotatedPrimitive { kind, properties };
@@ -4526,6 +4527,16 @@ fn try_promote_logical_type(schema: AvroSchema) -> AvroSchema {
                 return AvroSchema::AnnotatedPrimitive { kind, properties };
             }
 
+            // Likewise, a decimal that is invalid in itself (e.g., its scale
+            // exceeds its precision) is left as-is.
+            if let LogicalType::Decimal { precision, scale } = logical_type
+                && (precision < 1
+                    || scale > precision
+                    || (declared_scale.is_none() && properties.contains_key("scale")))
+            {
+                return AvroSchema::AnnotatedPrimitive { kind, properties };
+            }
+
             // Remove the consumed keys from properties so they are not
             // duplicated in the serialized output.
             properties.remove("logicalType");
-- 
2.43.0


From 40ab421ccd9f54b2a26a01fb15f4458dd3564c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:33 +0000
Subject: [PATCH 12/38] fix: reject protocol files that hold no protocol

An imported .avpr that is not an object, names no protocol, or whose types or
messages have the wrong shape was read as a protocol without any content.
---
 src/import.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/import.rs b/src/import.rs
index 5d94206..b62adb6 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -356,6 +356,19 @@ pub fn import_protocol(
     let json: Value = parse_json_with_comments(&content)
         .map_err(|e| miette::miette!("invalid JSON in {}: {e}", path.display()))?;
 
+    if !json.get("protocol").is_some_and(Value::is_string) {
+        miette::bail!("no protocol name in protocol `{}`", path.display());
+    }
+    if json.get("types").is_some_and(|types| !types.is_array()) {
+        miette::bail!("`types` is not an array in protocol `{}`", path.display());
+    }
+    if json.get("messages").is_some_and(|msgs| !msgs.is_object()) {
+        miette::bail!(
+            "`messages` is not an object in protocol `{}`",
+            path.display()
+        );
+    }
+
     let default_namespace = json.get("namespace").and_then(|n| n.as_str());
     let mut messages = HashMap::new();
 
-- 
2.43.0


From 425864cd7913b973eba12930fd0efb87e2dc98d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:51 +0000
Subject: [PATCH 13/38] fix: report each undefined name at its first occurrence

The references were deduplicated in the order of a hash map of messages before
being sorted by position, so which occurrence of a name was highlighted (and the
order of names from imported JSON) changed from run to run.
---
 src/compiler.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 6e4999c..8e6fb0a 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -1041,7 +1041,11 @@ fn validate_all_references(
             // `validate_references()` alone does not see them. We must validate
             // them explicitly here. Without this, undefined types in messages
             // silently pass through (Java rejects them with "Undefined schema").
-            for msg in protocol.messages.values() {
+            // References without a span keep the order in which they are found
+            // here, so visit the messages in a fixed order.
+            let mut messages: Vec<_> = protocol.messages.iter().collect();
+            messages.sort_by_key(|(name, _)| *name);
+            for (_, msg) in messages {
                 unresolved.extend(registry.validate_schema(&msg.response));
                 for field in &msg.request {
                     unresolved.extend(registry.validate_schema(&field.schema));
@@ -1055,6 +1059,13 @@ fn validate_all_references(
         }
     }
 
+    // Sort by source span offset so the first error in the file is reported
+    // first. References without a span (from JSON imports) sort to the end.
+    unresolved.sort_by_key(|(_, span)| {
+        span.as_ref()
+            .map_or((true, "", usize::MAX), |s| (false, s.name, s.offset))
+    });
+
     // Deduplicate by name while preserving source order (first occurrence
     // wins). We use a `HashSet` to track which names we've already seen,
     // retaining the entry whose span appears earliest in the file.
@@ -1063,13 +1074,6 @@ fn validate_all_references(
         unresolved.retain(|(name, _)| seen.insert(name.clone()));
     }
 
-    // Sort by source span offset so the first error in the file is reported
-    // first. References without a span (from JSON imports) sort to the end.
-    unresolved.sort_by_key(|(_, span)| {
-        span.as_ref()
-            .map_or(("", usize::MAX), |s| (s.name, s.offset))
-    });
-
     if unresolved.is_empty() {
         return Ok(());
     }
-- 
2.43.0


From a58f38eebef21791d3d2b81c964d7b84d4da715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 14/38] fix: reject undefined names in the main schema of an
 imported file

---
 src/compiler.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 8e6fb0a..8b5e7be 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -30,7 +30,7 @@ use crate::error::{ParseDiagnostic, SpanWithSource};
 use crate::import::{ImportContext, import_protocol, import_schema};
 use crate::model::json::{build_lookup, protocol_to_json, schema_to_json};
 use crate::model::protocol::Message;
-use crate::model::schema::{validate_field_defaults, validate_record_field_defaults};
+use crate::model::schema::{AvroSchema, validate_field_defaults, validate_record_field_defaults};
 use crate::reader::{DeclItem, IdlFile, ImportKind, parse_idl_named};
 use crate::resolve::SchemaRegistry;
 
@@ -156,6 +156,7 @@ impl IdlCompiler {
         if let Err(e) = validate_all_references(
             &idl_file,
             &registry,
+            &ctx.imported_main_schemas,
             source,
             source_name,
             &ctx.json_import_spans,
@@ -575,6 +576,9 @@ struct CompileContext {
     /// references from `.avsc`/`.avpr` imports, which lack source spans of
     /// their own.
     json_import_spans: Vec<(String, Option<SpanWithSource>)>,
+    /// Main schemas of imported IDL files. They contribute nothing to the
+    /// output, but their references must resolve like all others.
+    imported_main_schemas: Vec<AvroSchema>,
 }
 
 impl CompileContext {
@@ -585,6 +589,7 @@ impl CompileContext {
             messages: HashMap::new(),
             warnings: Vec::new(),
             json_import_spans: Vec::new(),
+            imported_main_schemas: Vec::new(),
         }
     }
 }
@@ -849,8 +854,12 @@ fn resolve_single_import(
             // If the imported IDL is a protocol, merge its messages. This
             // comes after its own imports, so that (as for the main file) a
             // message the file defines itself wins over an imported one.
-            if let IdlFile::Protocol(imported_protocol) = imported_idl {
-                ctx.messages.extend(imported_protocol.messages);
+            match imported_idl {
+                IdlFile::Protocol(imported_protocol) => {
+                    ctx.messages.extend(imported_protocol.messages);
+                }
+                IdlFile::Schema(schema) => ctx.imported_main_schemas.push(schema),
+                IdlFile::NamedSchemas(_) => {}
             }
         }
     }
@@ -1017,12 +1026,17 @@ fn suggest_similar_name(unresolved: &str, registry: &SchemaRegistry) -> Option<S
 fn validate_all_references(
     idl_file: &IdlFile,
     registry: &SchemaRegistry,
+    imported_main_schemas: &[AvroSchema],
     source: &'static str,
     source_name: &'static str,
     json_import_spans: &[(String, Option<SpanWithSource>)],
 ) -> miette::Result<()> {
     let mut unresolved = registry.validate_references();
 
+    for schema in imported_main_schemas {
+        unresolved.extend(registry.validate_schema(schema));
+    }
+
     // `Schema` and `NamedSchemas` store their top-level schemas outside
     // the registry, so `validate_references` alone misses unresolved references
     // in them.
-- 
2.43.0


From 7f25ae47e7c359a286048dbd407e61705228a30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:13 +0000
Subject: [PATCH 15/38] fix: reject undefined names in the top-level schema of
 an imported .avsc

---
 src/compiler.rs | 7 ++++---
 src/import.rs   | 8 ++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 8b5e7be..a37cab2 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -576,8 +576,8 @@ struct CompileContext {
     /// references from `.avsc`/`.avpr` imports, which lack source spans of
     /// their own.
     json_import_spans: Vec<(String, Option<SpanWithSource>)>,
-    /// Main schemas of imported IDL files. They contribute nothing to the
-    /// output, but their references must resolve like all others.
+    /// Main schemas of imported IDL and schema files. They contribute nothing
+    /// to the output, but their references must resolve like all others.
     imported_main_schemas: Vec<AvroSchema>,
 }
 
@@ -813,8 +813,9 @@ fn resolve_single_import(
                 .push((resolved_path.display().to_string(), import.span));
         }
         ImportKind::Schema => {
-            import_schema(&resolved_path, &mut ctx.registry)
+            let schema = import_schema(&resolved_path, &mut ctx.registry)
                 .map_err(|e| wrap_import_error(e, import.span, &resolved_path, "schema"))?;
+            ctx.imported_main_schemas.push(schema);
 
             // Track the import so unresolved references from this .avsc can
             // be attributed to the import statement in error diagnostics.
diff --git a/src/import.rs b/src/import.rs
index b62adb6..ebb1d47 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -420,7 +420,9 @@ pub fn import_protocol(
 /// named types (record, enum, fixed) found in the schema tree -- including those
 /// nested inside record fields, union branches, array items, or map values --
 /// are registered so that subsequent IDL code can reference them by name.
-pub fn import_schema(path: &Path, registry: &mut SchemaRegistry) -> Result<()> {
+///
+/// Returns the schema itself, with nested named types replaced by references.
+pub fn import_schema(path: &Path, registry: &mut SchemaRegistry) -> Result<AvroSchema> {
     let content = std::fs::read_to_string(path)
         .map_err(|e| miette::miette!("read schema file `{}`: {e}", path.display()))?;
     let json: Value = parse_json_with_comments(&content)
@@ -429,9 +431,7 @@ pub fn import_schema(path: &Path, registry: &mut SchemaRegistry) -> Result<()> {
     let schema = json_to_schema(&json, None)
         .map_err(|e| miette::miette!("parse schema from `{}`: {e}", path.display()))?;
     flatten_and_register(schema, registry)
-        .map_err(|e| miette::miette!("schema from `{}`: {e}", path.display()))?;
-
-    Ok(())
+        .map_err(|e| miette::miette!("schema from `{}`: {e}", path.display()))
 }
 
 // ==============================================================================
-- 
2.43.0


From 754c32b64f66438df546ad87cdb0b6bc0b26abf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:23 +0000
Subject: [PATCH 16/38] fix: attribute undefined names from imported JSON to
 the right import

---
 src/compiler.rs | 119 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 93 insertions(+), 26 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index a37cab2..2ba587f 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -159,7 +159,7 @@ impl IdlCompiler {
             &ctx.imported_main_schemas,
             source,
             source_name,
-            &ctx.json_import_spans,
+            &ctx.json_imports,
         ) {
             self.accumulated_warnings = std::mem::take(&mut ctx.warnings);
             return Err(e);
@@ -571,11 +571,10 @@ struct CompileContext {
     import_ctx: ImportContext,
     messages: HashMap<String, Message>,
     warnings: Vec<miette::Report>,
-    /// Maps JSON-imported file display names to their import statement spans
-    /// in the IDL source. Used to enrich error messages for unresolved
-    /// references from `.avsc`/`.avpr` imports, which lack source spans of
-    /// their own.
-    json_import_spans: Vec<(String, Option<SpanWithSource>)>,
+    /// The JSON files imported so far. Used to enrich error messages for
+    /// unresolved references from `.avsc`/`.avpr` imports, which lack source
+    /// spans of their own.
+    json_imports: Vec<JsonImport>,
     /// Main schemas of imported IDL and schema files. They contribute nothing
     /// to the output, but their references must resolve like all others.
     imported_main_schemas: Vec<AvroSchema>,
@@ -588,12 +587,51 @@ impl CompileContext {
             import_ctx: ImportContext::new(import_dirs.to_vec()),
             messages: HashMap::new(),
             warnings: Vec::new(),
-            json_import_spans: Vec::new(),
+            json_imports: Vec::new(),
             imported_main_schemas: Vec::new(),
         }
     }
 }
 
+/// A JSON file (`.avsc` or `.avpr`) imported into an IDL file.
+struct JsonImport {
+    /// Display name of the file.
+    path: String,
+    /// The import statement in the IDL source.
+    span: Option<SpanWithSource>,
+    /// Names the file refers to that were not known right after importing it.
+    pending: HashSet<String>,
+}
+
+impl JsonImport {
+    /// Describe a file that has just been imported, given the schemas and
+    /// messages it contributed.
+    fn new<'a>(
+        path: &Path,
+        span: Option<SpanWithSource>,
+        registry: &SchemaRegistry,
+        schemas: impl Iterator<Item = &'a AvroSchema>,
+        messages: impl Iterator<Item = &'a Message>,
+    ) -> Self {
+        let mut pending = HashSet::new();
+        let mut collect = |schema: &AvroSchema| {
+            let unresolved = registry.validate_schema(schema);
+            pending.extend(unresolved.into_iter().map(|(name, _)| name));
+        };
+        schemas.for_each(&mut collect);
+        for message in messages {
+            collect(&message.response);
+            message.request.iter().for_each(|f| collect(&f.schema));
+            message.errors.iter().flatten().for_each(&mut collect);
+        }
+        JsonImport {
+            path: path.display().to_string(),
+            span,
+            pending,
+        }
+    }
+}
+
 /// Parse IDL source and recursively resolve all imports.
 ///
 /// Returns the parsed IDL file and schema registry. Warnings are accumulated
@@ -803,24 +841,36 @@ fn resolve_single_import(
 
     match import.kind {
         ImportKind::Protocol => {
+            let known = ctx.registry.schemas().count();
             let imported_messages = import_protocol(&resolved_path, &mut ctx.registry)
                 .map_err(|e| wrap_import_error(e, import.span, &resolved_path, "protocol"))?;
-            ctx.messages.extend(imported_messages);
 
             // Track the import so unresolved references from this .avpr can
             // be attributed to the import statement in error diagnostics.
-            ctx.json_import_spans
-                .push((resolved_path.display().to_string(), import.span));
+            ctx.json_imports.push(JsonImport::new(
+                &resolved_path,
+                import.span,
+                &ctx.registry,
+                ctx.registry.schemas().skip(known),
+                imported_messages.values(),
+            ));
+            ctx.messages.extend(imported_messages);
         }
         ImportKind::Schema => {
+            let known = ctx.registry.schemas().count();
             let schema = import_schema(&resolved_path, &mut ctx.registry)
                 .map_err(|e| wrap_import_error(e, import.span, &resolved_path, "schema"))?;
-            ctx.imported_main_schemas.push(schema);
 
             // Track the import so unresolved references from this .avsc can
             // be attributed to the import statement in error diagnostics.
-            ctx.json_import_spans
-                .push((resolved_path.display().to_string(), import.span));
+            ctx.json_imports.push(JsonImport::new(
+                &resolved_path,
+                import.span,
+                &ctx.registry,
+                ctx.registry.schemas().skip(known).chain([&schema]),
+                std::iter::empty(),
+            ));
+            ctx.imported_main_schemas.push(schema);
         }
         ImportKind::Idl => {
             let imported_source = fs::read_to_string(&resolved_path)
@@ -846,7 +896,7 @@ fn resolve_single_import(
 
             // Recursively process declaration items from the imported file.
             // IDL imports use their own source text for span tracking, so
-            // `ctx.json_import_spans` is passed through to capture any nested
+            // `ctx.json_imports` is passed through to capture any nested
             // JSON imports within the imported IDL file.
             process_decl_items(&nested_decl_items, ctx, &import_dir).with_context(|| {
                 format!("resolve nested imports from `{}`", resolved_path.display())
@@ -1030,7 +1080,7 @@ fn validate_all_references(
     imported_main_schemas: &[AvroSchema],
     source: &'static str,
     source_name: &'static str,
-    json_import_spans: &[(String, Option<SpanWithSource>)],
+    json_imports: &[JsonImport],
 ) -> miette::Result<()> {
     let mut unresolved = registry.validate_references();
 
@@ -1098,19 +1148,30 @@ fn validate_all_references(
     let (with_span, without_span): (Vec<_>, Vec<_>) =
         unresolved.into_iter().partition(|(_, s)| s.is_some());
 
-    // Build a help message listing the JSON-imported files that may contain
-    // the undefined type, for use in spanless reference diagnostics.
-    let import_file_names: Vec<&str> = json_import_spans
-        .iter()
-        .map(|(path, _)| path.as_str())
-        .collect();
+    // Build a help message listing the JSON-imported files that contain the
+    // undefined names, for use in spanless reference diagnostics.
+    let importers_of = |name: &str| {
+        let name = name.to_string();
+        json_imports
+            .iter()
+            .filter(move |import| import.pending.contains(&name))
+    };
 
     if with_span.is_empty() {
         // All unresolved references come from JSON imports (no IDL source
-        // spans). Use the first available import statement span to point
-        // the user at the import line, with a help message naming the
-        // imported file(s).
-        let first_import_span = json_import_spans.iter().find_map(|(_, s)| *s);
+        // spans). Use the first import statement of a file with such names
+        // to point the user at the import line, with a help message naming
+        // the imported file(s).
+        let importers: Vec<&JsonImport> = json_imports
+            .iter()
+            .filter(|import| {
+                without_span
+                    .iter()
+                    .any(|(name, _)| import.pending.contains(name))
+            })
+            .collect();
+        let import_file_names: Vec<&str> = importers.iter().map(|i| i.path.as_str()).collect();
+        let first_import_span = importers.iter().find_map(|i| i.span);
 
         let names: Vec<&str> = without_span.iter().map(|(name, _)| name.as_str()).collect();
         let message = format!("Undefined name: {}", names.join(", "));
@@ -1170,7 +1231,13 @@ fn validate_all_references(
     // available. Include "did you mean?" suggestions where applicable.
     let fallback_span = SpanWithSource::new(0, 0, source_name, source);
     for (name, _) in &without_span {
-        let (span, label) = if let Some((path, Some(import_span))) = json_import_spans.first() {
+        let import_file_names: Vec<&str> = importers_of(name).map(|i| i.path.as_str()).collect();
+        let (span, label) = if let Some(JsonImport {
+            path,
+            span: Some(import_span),
+            ..
+        }) = importers_of(name).next()
+        {
             (
                 *import_span,
                 Some(format!(
-- 
2.43.0


From a4eed5315bbeaeeb1176721ec9d222c813f53b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:46 +0000
Subject: [PATCH 17/38] fix: highlight unrecognised characters on lines with
 multi-byte text

---
 src/reader.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 4787209..59c5012 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1810,8 +1810,8 @@ fn extract_line_prefix(msg: &str) -> &str {
     ""
 }
 
-/// Convert 1-based `line` and 0-based `column` (as reported by ANTLR) to a
-/// byte offset into `source`. Returns 0 if the coordinates are out of range.
+/// Convert 1-based `line` and 0-based `column` (as reported by ANTLR, which counts
+/// characters) to a byte offset into `source`. Returns 0 if the line is out of range.
 fn line_col_to_byte_offset(source: &str, line: isize, column: isize) -> usize {
     if line <= 0 || column < 0 {
         return 0;
@@ -1820,7 +1820,8 @@ fn line_col_to_byte_offset(source: &str, line: isize, column: isize) -> usize {
     let mut offset = 0;
     for (i, src_line) in source.split('\n').enumerate() {
         if i == target_line {
-            return offset + (column as usize).min(src_line.len());
+            let in_line = src_line.char_indices().nth(column as usize);
+            return offset + in_line.map_or(src_line.len(), |(i, _)| i);
         }
         offset += src_line.len() + 1; // +1 for the newline character
     }
@@ -1873,7 +1874,8 @@ impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for CollectingErrorListener {
                 // the byte offset from (line, column) using the source text.
                 if let Some(src) = self.source {
                     let offset = line_col_to_byte_offset(src, line, column);
-                    (offset, 1)
+                    let first = src[offset..].chars().next();
+                    (offset, first.map_or(0, char::len_utf8))
                 } else {
                     (0, 0)
                 }
-- 
2.43.0


From 6757fe06995183d4e844a71df6c9cec3bc07c113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 18/38] fix: keep the highlight of an unexpected end of file
 inside the text

---
 src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 59c5012..312a210 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1864,7 +1864,7 @@ impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for CollectingErrorListener {
                 if start >= 0 && stop >= start {
                     (start as usize, (stop - start + 1) as usize)
                 } else if start >= 0 {
-                    (start as usize, 1)
+                    (start as usize, 0)
                 } else {
                     (0, 0)
                 }
-- 
2.43.0


From 39cccae23843de44862c3524013e63b99c5a10b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 19/38] fix: do not blame the size of a closed fixed
 declaration for a later parenthesis

---
 src/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 312a210..e5231be 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1460,6 +1460,10 @@ fn detect_fixed_non_integer(error: &SyntaxError, source: &str) -> Option<SyntaxE
 
     // Extract the non-integer content between the parens.
     let after_paren = &source[paren_pos + 1..error.offset];
+    if after_paren.contains(')') {
+        // The size was closed already; the unexpected `)` is a later one.
+        return None;
+    }
     let bad_size = after_paren.trim();
 
     let line_prefix = extract_line_prefix(&error.message);
-- 
2.43.0


From e9dcb5a4a065d2bcb2400ca66e0b75bccf02eaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:55 +0000
Subject: [PATCH 20/38] fix: highlight the whole first character of a file
 without a schema or protocol

---
 src/compiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 2ba587f..b70a42f 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -329,7 +329,7 @@ impl Idl {
             // via `drain_warnings()`.
             self.inner.accumulated_warnings = warnings;
 
-            let span_len = source.len().min(1);
+            let span_len = source.chars().next().map_or(0, char::len_utf8);
             return Err(ParseDiagnostic {
                 span: SpanWithSource::new(0, span_len, source_name, source),
                 message: "IDL file contains neither a protocol nor a schema declaration"
-- 
2.43.0


From f907b5d53a11ef7c1cac3a9801939cee02724a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:41 +0000
Subject: [PATCH 21/38] fix: keep exactly the last call's warnings when a read
 or a directory extraction fails

---
 src/compiler.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index b70a42f..b2d995d 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -92,6 +92,9 @@ impl IdlCompiler {
     /// `Idl2Schemata::extract(path)`. It reads the file, determines the parent
     /// directory and canonical path, then delegates to [`compile`](Self::compile).
     fn compile_file(&mut self, path: &Path) -> miette::Result<CompileOutput> {
+        // Warnings of earlier calls must not outlive a failure to read the file.
+        self.accumulated_warnings.clear();
+
         let source = fs::read_to_string(path)
             .map_err(|e| miette::miette!("{e}"))
             .with_context(|| format!("read {}", path.display()))?;
@@ -117,6 +120,8 @@ impl IdlCompiler {
         source: &'static str,
         name: &'static str,
     ) -> miette::Result<CompileOutput> {
+        self.accumulated_warnings.clear();
+
         let cwd = std::env::current_dir()
             .map_err(|e| miette::miette!("{e}"))
             .context("determine current directory")?;
@@ -494,6 +499,8 @@ impl Idl2Schemata {
     /// each. Each file is processed independently with its own registry.
     /// Results are concatenated.
     fn extract_directory(&mut self, dir: &Path) -> miette::Result<SchemataOutput> {
+        self.inner.accumulated_warnings.clear();
+
         let mut all_schemas = Vec::new();
         let mut all_warnings = Vec::new();
 
@@ -510,7 +517,15 @@ impl Idl2Schemata {
         }
 
         for avdl_path in &avdl_paths {
-            let compiled = self.inner.compile_file(avdl_path)?;
+            let compiled = match self.inner.compile_file(avdl_path) {
+                Ok(compiled) => compiled,
+                Err(e) => {
+                    // Keep the warnings of the files before this one.
+                    all_warnings.append(&mut self.inner.accumulated_warnings);
+                    self.inner.accumulated_warnings = all_warnings;
+                    return Err(e);
+                }
+            };
             let output = Self::extract_impl(compiled);
             all_schemas.extend(output.schemas);
             all_warnings.extend(output.warnings);
-- 
2.43.0


From 379c8bbfed0c2b6e8bb1f1ebd8e6f6e5becd107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:45 +0000
Subject: [PATCH 22/38] fix: do not read directories named like IDL files as
 such

---
 src/compiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index b2d995d..64921c2 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -511,7 +511,7 @@ impl Idl2Schemata {
             .filter_map(|e| e.ok())
         {
             let path = entry.path();
-            if path.extension().and_then(|e| e.to_str()) == Some("avdl") {
+            if path.extension().and_then(|e| e.to_str()) == Some("avdl") && !path.is_dir() {
                 avdl_paths.push(path.to_path_buf());
             }
         }
-- 
2.43.0


From 8fcc627f7b43be58dbf1607e72ad6791d4718c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 23/38] fix: list the annotations dropped from a union in a
 fixed order

---
 src/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index e5231be..6fdef68 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -3345,7 +3345,8 @@ fn walk_full_type<'input>(
     // drops them without feedback. Nullable unions (`type?` syntax) are fine
     // because annotations are applied to the non-null branch instead.
     if !props.properties.is_empty() && is_non_nullable_union(&schema) {
-        let keys: Vec<&str> = props.properties.keys().map(|k| k.as_str()).collect();
+        let mut keys: Vec<&str> = props.properties.keys().map(|k| k.as_str()).collect();
+        keys.sort_unstable();
         src.warnings
             .borrow_mut()
             .push(Warning::annotations_dropped_on_union(&keys, src, ctx));
-- 
2.43.0


From 6adfdb6a2756ffd47387c16a433594b05375a49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:41 +0000
Subject: [PATCH 24/38] fix: report a failure to write the last line of the
 output to stdout

---
 src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 8d36c85..9427080 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -305,8 +305,14 @@ fn write_output(output: Option<&str>, content: &str) -> miette::Result<()> {
         None => {
             // Write to stdout without trailing newline, matching Java behavior.
             // Handle BrokenPipe gracefully.
+            //
+            // Flush explicitly: stdout is line-buffered and nothing ends the
+            // last line, so an error writing it would otherwise only occur
+            // (and be ignored) at exit.
             use std::io::Write;
-            if let Err(e) = write!(io::stdout(), "{content}") {
+            let mut stdout = io::stdout().lock();
+            let written = write!(stdout, "{content}").and_then(|()| stdout.flush());
+            if let Err(e) = written {
                 if e.kind() == io::ErrorKind::BrokenPipe {
                     return Ok(());
                 }
-- 
2.43.0


From 12ebcaa5c431f619a8f030945f2f9f896e06c13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 25/38] fix: measure edit distances of names in characters, not
 bytes

---
 src/suggest.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/suggest.rs b/src/suggest.rs
index 5c3ac83..e743e42 100644
--- a/src/suggest.rs
+++ b/src/suggest.rs
@@ -11,8 +11,9 @@
 /// (O(min(m, n)) space). This is sufficient for identifiers and type names,
 /// which are short.
 pub(crate) fn levenshtein(a: &str, b: &str) -> usize {
-    let a_len = a.len();
-    let b_len = b.len();
+    // Lengths in characters, as the rows below are indexed by character.
+    let a_len = a.chars().count();
+    let b_len = b.chars().count();
     if a_len == 0 {
         return b_len;
     }
-- 
2.43.0


From 13826b96ee15461f7b877b898489028440b3d5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 26/38] fix: reject undefined names in imported messages that
 are dropped or replaced

---
 src/compiler.rs | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 64921c2..5cea6ef 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -161,7 +161,7 @@ impl IdlCompiler {
         if let Err(e) = validate_all_references(
             &idl_file,
             &registry,
-            &ctx.imported_main_schemas,
+            &ctx.unregistered_schemas,
             source,
             source_name,
             &ctx.json_imports,
@@ -590,9 +590,10 @@ struct CompileContext {
     /// unresolved references from `.avsc`/`.avpr` imports, which lack source
     /// spans of their own.
     json_imports: Vec<JsonImport>,
-    /// Main schemas of imported IDL and schema files. They contribute nothing
-    /// to the output, but their references must resolve like all others.
-    imported_main_schemas: Vec<AvroSchema>,
+    /// Schemas of imported files that are not registered: main schemas and the
+    /// types of messages. They may contribute nothing to the output, but their
+    /// references must resolve like all others.
+    unregistered_schemas: Vec<AvroSchema>,
 }
 
 impl CompileContext {
@@ -603,9 +604,25 @@ impl CompileContext {
             messages: HashMap::new(),
             warnings: Vec::new(),
             json_imports: Vec::new(),
-            imported_main_schemas: Vec::new(),
+            unregistered_schemas: Vec::new(),
         }
     }
+
+    /// Add the messages of an imported protocol. They replace those of the same
+    /// name and are dropped if the main file is not a protocol, so their types
+    /// are remembered separately.
+    fn add_imported_messages(&mut self, messages: HashMap<String, Message>) {
+        let mut by_name: Vec<_> = messages.iter().collect();
+        by_name.sort_by_key(|(name, _)| *name);
+        for (_, message) in by_name {
+            self.unregistered_schemas.push(message.response.clone());
+            self.unregistered_schemas
+                .extend(message.request.iter().map(|field| field.schema.clone()));
+            self.unregistered_schemas
+                .extend(message.errors.iter().flatten().cloned());
+        }
+        self.messages.extend(messages);
+    }
 }
 
 /// A JSON file (`.avsc` or `.avpr`) imported into an IDL file.
@@ -869,7 +886,7 @@ fn resolve_single_import(
                 ctx.registry.schemas().skip(known),
                 imported_messages.values(),
             ));
-            ctx.messages.extend(imported_messages);
+            ctx.add_imported_messages(imported_messages);
         }
         ImportKind::Schema => {
             let known = ctx.registry.schemas().count();
@@ -885,7 +902,7 @@ fn resolve_single_import(
                 ctx.registry.schemas().skip(known).chain([&schema]),
                 std::iter::empty(),
             ));
-            ctx.imported_main_schemas.push(schema);
+            ctx.unregistered_schemas.push(schema);
         }
         ImportKind::Idl => {
             let imported_source = fs::read_to_string(&resolved_path)
@@ -922,9 +939,9 @@ fn resolve_single_import(
             // message the file defines itself wins over an imported one.
             match imported_idl {
                 IdlFile::Protocol(imported_protocol) => {
-                    ctx.messages.extend(imported_protocol.messages);
+                    ctx.add_imported_messages(imported_protocol.messages);
                 }
-                IdlFile::Schema(schema) => ctx.imported_main_schemas.push(schema),
+                IdlFile::Schema(schema) => ctx.unregistered_schemas.push(schema),
                 IdlFile::NamedSchemas(_) => {}
             }
         }
@@ -1092,14 +1109,14 @@ fn suggest_similar_name(unresolved: &str, registry: &SchemaRegistry) -> Option<S
 fn validate_all_references(
     idl_file: &IdlFile,
     registry: &SchemaRegistry,
-    imported_main_schemas: &[AvroSchema],
+    unregistered_schemas: &[AvroSchema],
     source: &'static str,
     source_name: &'static str,
     json_imports: &[JsonImport],
 ) -> miette::Result<()> {
     let mut unresolved = registry.validate_references();
 
-    for schema in imported_main_schemas {
+    for schema in unregistered_schemas {
         unresolved.extend(registry.validate_schema(schema));
     }
 
-- 
2.43.0


From d269938badd0393350a199a524a47b0b12856a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 27/38] fix: recognize comments that hold U+0000 or U+10FFFF

The lexer's wildcard matches neither of these, so a comment with one was
reported as unrecognized text up to that character, and what followed in
the comment was parsed as IDL. Replace such characters before lexing, as is
done for empty comments.
---
 src/reader.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 6fdef68..0baed34 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -2219,9 +2219,14 @@ pub fn parse_idl_named(
 /// text from `/**/` up to it lexes as one doc comment -- swallowing every
 /// declaration in between. Blanking empty comments before lexing avoids this
 /// while keeping all offsets, lines, and columns unchanged.
+///
+/// The first and last characters of Unicode (U+0000 and U+10FFFF) are replaced
+/// inside comments too, by others of the same length: the antlr4rust lexer does
+/// not count them as "any character", so a comment holding one would not be
+/// recognized as a comment, and its text would be parsed as IDL.
 fn blank_empty_comments(input: &str) -> Cow<'_, str> {
     const EMPTY: &str = "/**/";
-    if !input.contains(EMPTY) {
+    if !input.contains(EMPTY) && !input.contains(['\0', '\u{10ffff}']) {
         return Cow::Borrowed(input);
     }
 
@@ -2237,6 +2242,7 @@ fn blank_empty_comments(input: &str) -> Cow<'_, str> {
         }
         // Copy strings and other comments verbatim; anything else (including
         // an unterminated string) is copied one character at a time.
+        let is_comment = tail.starts_with("//") || tail.starts_with("/*");
         let len = if tail.starts_with("//") {
             tail.find(['\n', '\r']).unwrap_or(tail.len())
         } else if tail.starts_with("/*") {
@@ -2244,7 +2250,12 @@ fn blank_empty_comments(input: &str) -> Cow<'_, str> {
         } else {
             string_literal_len(tail).unwrap_or(1)
         };
-        out.push_str(&tail[..len]);
+        if is_comment {
+            let comment = tail[..len].replace('\0', " ");
+            out.push_str(&comment.replace('\u{10ffff}', "\u{10fffe}"));
+        } else {
+            out.push_str(&tail[..len]);
+        }
         rest = &tail[len..];
     }
     out.push_str(rest);
-- 
2.43.0


From ea86c38266f8ea8d1b18f213c9e058a1267d8686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:26 +0000
Subject: [PATCH 28/38] fix: keep reports on very long lines from panicking in
 the renderer

---
 src/error.rs | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index fdbe248..7ace503 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -36,6 +36,9 @@ impl SpanWithSource {
     }
 }
 
+/// How much of a line (in bytes) an excerpt shows before the span at most.
+const MAX_COLUMNS_BEFORE_SPAN: usize = 4096;
+
 impl SourceCode for SpanWithSource {
     fn read_span<'a>(
         &'a self,
@@ -49,13 +52,34 @@ impl SourceCode for SpanWithSource {
             context_lines_before,
             context_lines_after,
         )?;
+        // The renderer pads with at most `u16::MAX` columns and panics beyond
+        // that, so start the excerpt shortly before a span far into its line.
+        let (data, shown) = (inner.data(), *inner.span());
+        let (mut line, mut column, mut line_count) =
+            (inner.line(), inner.column(), inner.line_count());
+        let before = &data[..span.offset().saturating_sub(shown.offset()).min(data.len())];
+        let line_start = before
+            .iter()
+            .rposition(|&b| b == b'\n')
+            .map_or(0, |i| i + 1);
+        let mut cut = 0;
+        if before.len() - line_start > MAX_COLUMNS_BEFORE_SPAN {
+            cut = before.len() - MAX_COLUMNS_BEFORE_SPAN;
+            while !self.content.is_char_boundary(shown.offset() + cut) {
+                cut += 1;
+            }
+            let skipped = before[..cut].iter().filter(|&&b| b == b'\n').count();
+            line += skipped;
+            line_count -= skipped;
+            column = cut - line_start;
+        }
         Ok(Box::new(MietteSpanContents::new_named(
             self.name.to_string(),
-            inner.data(),
-            *inner.span(),
-            inner.line(),
-            inner.column(),
-            inner.line_count(),
+            &data[cut..],
+            SourceSpan::new((shown.offset() + cut).into(), shown.len() - cut),
+            line,
+            column,
+            line_count,
         )))
     }
 }
-- 
2.43.0


From e2f78d5eb09722659cb5d3dd43e84402cbb34741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 29/38] fix: take the namespace of imported protocols from
 dotted names too

---
 src/import.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index ebb1d47..9f2b270 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -356,9 +356,9 @@ pub fn import_protocol(
     let json: Value = parse_json_with_comments(&content)
         .map_err(|e| miette::miette!("invalid JSON in {}: {e}", path.display()))?;
 
-    if !json.get("protocol").is_some_and(Value::is_string) {
+    let Some(raw_name) = json.get("protocol").and_then(Value::as_str) else {
         miette::bail!("no protocol name in protocol `{}`", path.display());
-    }
+    };
     if json.get("types").is_some_and(|types| !types.is_array()) {
         miette::bail!("`types` is not an array in protocol `{}`", path.display());
     }
@@ -369,7 +369,12 @@ pub fn import_protocol(
         );
     }
 
-    let default_namespace = json.get("namespace").and_then(|n| n.as_str());
+    // As for named types, the name may be a full name that states the namespace.
+    let (_, inferred_ns) = split_qualified_name(raw_name);
+    let default_namespace = json
+        .get("namespace")
+        .and_then(|n| n.as_str())
+        .or(inferred_ns.as_deref());
     let mut messages = HashMap::new();
 
     // Extract types from the protocol JSON and register them. Schemas are
-- 
2.43.0


From 3a9cd51b12f5ec79adacefe74f184e81a1642873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:30 +0000
Subject: [PATCH 30/38] fix: reject missing and mistyped parts of imported JSON
 instead of dropping them

---
 src/import.rs | 134 ++++++++++++++++++++++++++------------------------
 1 file changed, 71 insertions(+), 63 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index 9f2b270..0ac92ba 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -589,10 +589,7 @@ fn parse_record(
         .and_then(|n| n.as_str())
         .ok_or_else(|| miette::miette!("record missing 'name'"))?;
     let (name, inferred_ns) = split_qualified_name(raw_name);
-    let namespace = obj
-        .get("namespace")
-        .and_then(|n| n.as_str())
-        .map(|s| s.to_string())
+    let namespace = optional_string(obj, "namespace")?
         .or(inferred_ns)
         .or_else(|| default_namespace.map(|s| s.to_string()));
     let doc = obj
@@ -604,23 +601,21 @@ fn parse_record(
     // Fields inherit the record's namespace (or the default) for resolving
     // unqualified type references.
     let ns_for_fields = namespace.as_deref().or(default_namespace);
-    let fields = if let Some(Value::Array(fields_json)) = obj.get("fields") {
-        fields_json
-            .iter()
-            .enumerate()
-            .map(|(i, f)| {
-                json_to_field(f, ns_for_fields).map_err(|e| {
-                    miette::miette!("parse field at index {i} of record `{name}`: {e}")
-                })
-            })
-            .collect::<Result<Vec<_>>>()?
-    } else {
-        vec![]
-    };
+    let fields = obj
+        .get("fields")
+        .and_then(Value::as_array)
+        .ok_or_else(|| miette::miette!("record `{name}` missing 'fields' array"))?
+        .iter()
+        .enumerate()
+        .map(|(i, f)| {
+            json_to_field(f, ns_for_fields)
+                .map_err(|e| miette::miette!("parse field at index {i} of record `{name}`: {e}"))
+        })
+        .collect::<Result<Vec<_>>>()?;
     validate_names("field", fields.iter().map(|f| f.name.as_str()))
         .map_err(|e| miette::miette!("{e} in record `{name}`"))?;
 
-    let aliases = extract_string_array(obj.get("aliases"));
+    let aliases = optional_string_array(obj, "aliases")?;
 
     let properties = collect_extra_properties(
         obj,
@@ -647,21 +642,18 @@ fn parse_enum(
         .and_then(|n| n.as_str())
         .ok_or_else(|| miette::miette!("enum missing 'name'"))?;
     let (name, inferred_ns) = split_qualified_name(raw_name);
-    let namespace = obj
-        .get("namespace")
-        .and_then(|n| n.as_str())
-        .map(|s| s.to_string())
+    let namespace = optional_string(obj, "namespace")?
         .or(inferred_ns)
         .or_else(|| default_namespace.map(|s| s.to_string()));
     let doc = obj
         .get("doc")
         .and_then(|d| d.as_str())
         .map(|s| s.to_string());
-    let symbols = extract_string_array(obj.get("symbols"));
-    let default = obj
-        .get("default")
-        .and_then(|d| d.as_str())
-        .map(|s| s.to_string());
+    if !obj.get("symbols").is_some_and(Value::is_array) {
+        miette::bail!("enum `{name}` missing 'symbols' array");
+    }
+    let symbols = optional_string_array(obj, "symbols")?;
+    let default = optional_string(obj, "default")?;
     validate_names("symbol", symbols.iter().map(String::as_str))
         .map_err(|e| miette::miette!("{e} in enum `{name}`"))?;
     if let Some(default) = &default
@@ -669,7 +661,7 @@ fn parse_enum(
     {
         miette::bail!("the default `{default}` of enum `{name}` is not one of its symbols");
     }
-    let aliases = extract_string_array(obj.get("aliases"));
+    let aliases = optional_string_array(obj, "aliases")?;
 
     let properties = collect_extra_properties(
         obj,
@@ -704,10 +696,7 @@ fn parse_fixed(
         .and_then(|n| n.as_str())
         .ok_or_else(|| miette::miette!("fixed missing 'name'"))?;
     let (name, inferred_ns) = split_qualified_name(raw_name);
-    let namespace = obj
-        .get("namespace")
-        .and_then(|n| n.as_str())
-        .map(|s| s.to_string())
+    let namespace = optional_string(obj, "namespace")?
         .or(inferred_ns)
         .or_else(|| default_namespace.map(|s| s.to_string()));
     let doc = obj
@@ -720,7 +709,7 @@ fn parse_fixed(
         .ok_or_else(|| miette::miette!("fixed missing 'size'"))?;
     let size = u32::try_from(size_u64)
         .map_err(|_| miette::miette!("fixed size {size_u64} exceeds maximum ({})", u32::MAX))?;
-    let aliases = extract_string_array(obj.get("aliases"));
+    let aliases = optional_string_array(obj, "aliases")?;
 
     let properties = collect_extra_properties(
         obj,
@@ -858,7 +847,7 @@ fn json_to_field(
             _ => None,
         });
 
-    let aliases = extract_string_array(obj.get("aliases"));
+    let aliases = optional_string_array(obj, "aliases")?;
 
     let properties =
         collect_extra_properties(obj, &["name", "type", "doc", "default", "order", "aliases"]);
@@ -883,35 +872,42 @@ fn json_to_message(json: &Value, default_namespace: Option<&str>) -> Result<Mess
         .get("doc")
         .and_then(|d| d.as_str())
         .map(|s| s.to_string());
-    let one_way = obj
-        .get("one-way")
-        .and_then(|o| o.as_bool())
-        .unwrap_or(false);
-
-    let request = if let Some(Value::Array(params)) = obj.get("request") {
-        params
-            .iter()
-            .enumerate()
-            .map(|(i, p)| {
-                json_to_field(p, default_namespace)
-                    .map_err(|e| miette::miette!("parse request parameter at index {i}: {e}"))
-            })
-            .collect::<Result<Vec<_>>>()?
-    } else {
-        vec![]
+    let one_way = match obj.get("one-way") {
+        None | Some(Value::Null) => false,
+        Some(Value::Bool(one_way)) => *one_way,
+        Some(other) => {
+            return Err(miette::miette!(
+                "'one-way' must be a boolean, not `{other}`"
+            ));
+        }
     };
 
+    let request = obj
+        .get("request")
+        .and_then(Value::as_array)
+        .ok_or_else(|| miette::miette!("message missing 'request' array"))?
+        .iter()
+        .enumerate()
+        .map(|(i, p)| {
+            json_to_field(p, default_namespace)
+                .map_err(|e| miette::miette!("parse request parameter at index {i}: {e}"))
+        })
+        .collect::<Result<Vec<_>>>()?;
+
     let response = if let Some(resp) = obj.get("response") {
         json_to_schema(resp, default_namespace)
             .map_err(|e| miette::miette!("parse response type for message: {e}"))?
-    } else {
+    } else if one_way {
         AvroSchema::Null
+    } else {
+        miette::bail!("message missing 'response'");
     };
 
     validate_names("parameter", request.iter().map(|p| p.name.as_str()))?;
 
-    let errors = if let Some(Value::Array(errs)) = obj.get("errors") {
-        Some(
+    let errors = match obj.get("errors") {
+        None | Some(Value::Null) => None,
+        Some(Value::Array(errs)) => Some(
             errs.iter()
                 .enumerate()
                 .map(|(i, e)| {
@@ -920,9 +916,8 @@ fn json_to_message(json: &Value, default_namespace: Option<&str>) -> Result<Mess
                     })
                 })
                 .collect::<Result<Vec<_>>>()?,
-        )
-    } else {
-        None
+        ),
+        Some(other) => return Err(miette::miette!("'errors' must be an array, not `{other}`")),
     };
 
     // Errors are the branches of a union.
@@ -948,15 +943,28 @@ fn json_to_message(json: &Value, default_namespace: Option<&str>) -> Result<Mess
 // Helpers
 // ==============================================================================
 
-/// Extract a JSON array of strings into a `Vec<String>`, returning an empty
-/// vec if the value is absent or not an array of strings.
-fn extract_string_array(value: Option<&Value>) -> Vec<String> {
-    match value {
-        Some(Value::Array(arr)) => arr
+/// Get the string under `key`, if there is one. Any other kind of value there
+/// is an error rather than being dropped.
+fn optional_string(obj: &serde_json::Map<String, Value>, key: &str) -> Result<Option<String>> {
+    match obj.get(key) {
+        None | Some(Value::Null) => Ok(None),
+        Some(Value::String(s)) => Ok(Some(s.clone())),
+        Some(other) => return Err(miette::miette!("'{key}' must be a string, not `{other}`")),
+    }
+}
+
+/// Get the array of strings under `key`, or an empty vec if the key is absent.
+/// Anything other than an array of strings is an error rather than being dropped.
+fn optional_string_array(obj: &serde_json::Map<String, Value>, key: &str) -> Result<Vec<String>> {
+    let invalid = |value| miette::miette!("'{key}' must be an array of strings, not `{value}`");
+    match obj.get(key) {
+        None | Some(Value::Null) => Ok(Vec::new()),
+        Some(value) => value
+            .as_array()
+            .ok_or_else(|| invalid(value))?
             .iter()
-            .filter_map(|v| v.as_str().map(|s| s.to_string()))
+            .map(|v| v.as_str().map(str::to_string).ok_or_else(|| invalid(v)))
             .collect(),
-        _ => vec![],
     }
 }
 
-- 
2.43.0


From be84b5ba774320900a6741e9bb65ba6db05bbbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 31/38] fix: read field orders of imported JSON in any case and
 reject unknown ones

---
 src/import.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index 0ac92ba..1510b18 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -837,15 +837,19 @@ fn json_to_field(
         .map(|s| s.to_string());
     let default = obj.get("default").cloned();
 
-    let order = obj
-        .get("order")
-        .and_then(|o| o.as_str())
-        .and_then(|o| match o {
-            "ascending" => Some(FieldOrder::Ascending),
-            "descending" => Some(FieldOrder::Descending),
-            "ignore" => Some(FieldOrder::Ignore),
-            _ => None,
-        });
+    // Like Java, do not mind the case of the order.
+    let order = optional_string(obj, "order")?.map(|order| order.to_ascii_lowercase());
+    let order = match order.as_deref() {
+        None => None,
+        Some("ascending") => Some(FieldOrder::Ascending),
+        Some("descending") => Some(FieldOrder::Descending),
+        Some("ignore") => Some(FieldOrder::Ignore),
+        Some(other) => {
+            return Err(miette::miette!(
+                "invalid order `{other}` for field `{name}`"
+            ));
+        }
+    };
 
     let aliases = optional_string_array(obj, "aliases")?;
 
-- 
2.43.0


From 148d8b5364d5954dee1bb2bb30e83a0f2fac08f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:04 +0000
Subject: [PATCH 32/38] fix: keep comments from misleading the reports of
 syntax mistakes

Braces and quotes in comments took part in the search for the brace that
is never closed, so the report pointed into a comment, or at a brace that
is closed, or did not name the missing brace at all.
---
 src/reader.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 0baed34..09658b5 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1097,6 +1097,8 @@ fn refine_errors_with_source(errors: &[SyntaxError], source: &str) -> Option<Vec
         return None;
     }
 
+    // Comments say nothing about the code: `// {` opens no brace.
+    let source = &blank_comments(source);
     let first = &errors[0];
 
     // ---- Pattern: empty union (`union {}`) ----
@@ -2262,6 +2264,34 @@ fn blank_empty_comments(input: &str) -> Cow<'_, str> {
     Cow::Owned(out)
 }
 
+/// Replace every comment with spaces of the same length.
+fn blank_comments(input: &str) -> String {
+    let mut out = String::with_capacity(input.len());
+    let mut rest = input;
+    while let Some(pos) = rest.find(['"', '/']) {
+        let (before, tail) = rest.split_at(pos);
+        out.push_str(before);
+        let comment_len = if tail.starts_with("//") {
+            tail.find(['\n', '\r']).unwrap_or(tail.len())
+        } else if tail.starts_with("/*") {
+            tail[2..].find("*/").map_or(0, |end| 2 + end + 2)
+        } else {
+            0
+        };
+        let len = if comment_len > 0 {
+            out.extend(std::iter::repeat_n(' ', comment_len));
+            comment_len
+        } else {
+            let len = string_literal_len(tail).unwrap_or(1);
+            out.push_str(&tail[..len]);
+            len
+        };
+        rest = &tail[len..];
+    }
+    out.push_str(rest);
+    out
+}
+
 /// Length of the string literal at the start of `s`, or `None` if `s` does not
 /// start with one that is closed on the same line.
 fn string_literal_len(s: &str) -> Option<usize> {
-- 
2.43.0


From e2835a17294aa1325c9dc38b417cf24f9a84e52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 33/38] fix: report a trailing comma of an enum only inside an
 enum

Any trailing comma after some enum, such as that of a union, was called
one of an enum declaration.
---
 src/reader.rs | 90 +++++++++++++++++++--------------------------------
 1 file changed, 33 insertions(+), 57 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 09658b5..7586ce9 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1372,28 +1372,8 @@ fn detect_missing_close_brace_before_declaration(
         return None;
     }
 
-    // Count braces in the source up to (but not including) the error offset,
-    // to find the innermost unclosed `{`. We ignore braces inside strings.
-    let mut brace_stack: Vec<usize> = Vec::new();
-    let mut in_string = false;
-    let mut prev_backslash = false;
-    for (i, b) in source[..error.offset].bytes().enumerate() {
-        if in_string {
-            if b == b'"' && !prev_backslash {
-                in_string = false;
-            }
-            prev_backslash = b == b'\\' && !prev_backslash;
-            continue;
-        }
-        match b {
-            b'"' => in_string = true,
-            b'{' => brace_stack.push(i),
-            b'}' => {
-                brace_stack.pop();
-            }
-            _ => {}
-        }
-    }
+    // Find the innermost `{` left open before the error offset.
+    let brace_stack = open_braces(&source[..error.offset]);
 
     // If there's no unclosed brace, this pattern doesn't apply.
     if brace_stack.is_empty() {
@@ -1562,20 +1542,11 @@ fn detect_trailing_comma_in_enum(error: &SyntaxError, source: &str) -> Option<Sy
         return None;
     }
 
-    // Verify we're inside an enum by searching backwards for `enum`.
-    // We look for `enum <Name> {` before the comma.
+    // Verify that the innermost open brace is that of an enum, rather than of
+    // a union or a JSON value.
     let before_comma = &before[..before.len() - 1];
-    // Check if any `enum` keyword appears earlier in the source, with a `{`
-    // between it and the current position.
-    let has_enum = source[..error.offset]
-        .rmatch_indices("enum")
-        .any(|(pos, _)| {
-            // Make sure `enum` is followed by a name and `{`.
-            let after_enum = &source[pos + 4..error.offset];
-            after_enum.contains('{')
-        });
-
-    if !has_enum {
+    let open_brace = *open_braces(before_comma).last()?;
+    if identify_construct(&source[..open_brace]) != Some("enum") {
         return None;
     }
 
@@ -1683,28 +1654,7 @@ fn detect_unclosed_brace(error: &SyntaxError, source: &str) -> Option<SyntaxErro
         return None;
     }
 
-    // Count braces in the source, tracking positions of unmatched `{`.
-    // We ignore braces inside string literals (between unescaped `"`).
-    let mut brace_stack: Vec<usize> = Vec::new();
-    let mut in_string = false;
-    let mut prev_backslash = false;
-    for (i, b) in source.bytes().enumerate() {
-        if in_string {
-            if b == b'"' && !prev_backslash {
-                in_string = false;
-            }
-            prev_backslash = b == b'\\' && !prev_backslash;
-            continue;
-        }
-        match b {
-            b'"' => in_string = true,
-            b'{' => brace_stack.push(i),
-            b'}' => {
-                brace_stack.pop();
-            }
-            _ => {}
-        }
-    }
+    let brace_stack = open_braces(source);
 
     if brace_stack.is_empty() {
         return None;
@@ -1739,6 +1689,32 @@ fn detect_unclosed_brace(error: &SyntaxError, source: &str) -> Option<SyntaxErro
     })
 }
 
+/// Offsets of the `{` not matched by a `}`, outermost first. Braces inside
+/// string literals (between unescaped `"`) are ignored.
+fn open_braces(source: &str) -> Vec<usize> {
+    let mut brace_stack: Vec<usize> = Vec::new();
+    let mut in_string = false;
+    let mut prev_backslash = false;
+    for (i, b) in source.bytes().enumerate() {
+        if in_string {
+            if b == b'"' && !prev_backslash {
+                in_string = false;
+            }
+            prev_backslash = b == b'\\' && !prev_backslash;
+            continue;
+        }
+        match b {
+            b'"' => in_string = true,
+            b'{' => brace_stack.push(i),
+            b'}' => {
+                brace_stack.pop();
+            }
+            _ => {}
+        }
+    }
+    brace_stack
+}
+
 /// Identifies the construct type (record, protocol, enum, etc.) by examining
 /// the source text immediately before an opening `{`.
 fn identify_construct(before_brace: &str) -> Option<&'static str> {
-- 
2.43.0


From b1d9d11540bd07582c19c7756919c27fe5b11d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:29 +0000
Subject: [PATCH 34/38] fix: read the tokens of an annotation report from the
 source, not from merged text

---
 src/reader.rs | 110 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 91 insertions(+), 19 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 7586ce9..808b56b 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -28,6 +28,7 @@ use std::borrow::{Borrow, Cow};
 
 use antlr4rust::common_token_stream::CommonTokenStream;
 use antlr4rust::error_listener::ErrorListener;
+use antlr4rust::errors::ANTLRError;
 use antlr4rust::parser::Parser;
 use antlr4rust::recognizer::Recognizer;
 use antlr4rust::token::Token;
@@ -325,7 +326,9 @@ fn enrich_antlr_error(msg: &str) -> Option<EnrichedError> {
         // keyword. The parser greedily consumed the keyword and subsequent
         // tokens as parts of the annotation name. Produce a more helpful
         // error explaining that the `@` is out of place.
-        if let Some(kw) = annotation_name_starts_with_keyword(anno_name) {
+        if let Some(kw) = annotation_name_starts_with_keyword(anno_name)
+            && (anno_name == kw || input.ends_with(anno_name))
+        {
             return Some(EnrichedError {
                 message: format!(
                     "unexpected `@` before `{kw}` -- \
@@ -881,10 +884,60 @@ fn append_quoting_hint(help: Option<String>, offending: &str) -> String {
 fn extract_no_viable_input(msg: &str) -> Option<&str> {
     let prefix = "no viable alternative at input '";
     let start = msg.find(prefix)? + prefix.len();
-    let end = msg[start..].find('\'')?;
+    let end = msg[start..].rfind('\'')?;
     Some(&msg[start..start + end])
 }
 
+/// The tokens from the first to the last one a failed prediction looked at, as
+/// they are in the source, but without comments, string contents, and white
+/// space that separates no words. (ANTLR's message merges even the words.)
+fn no_viable_input(
+    error: Option<&ANTLRError>,
+    offset: usize,
+    length: usize,
+    source: &str,
+) -> Option<String> {
+    let Some(ANTLRError::NoAltError(e)) = error else {
+        return None;
+    };
+    let start = usize::try_from(e.start_token.get_start()).ok()?;
+    let code = blank_comments(source.get(start..offset + length)?);
+
+    let is_word = |c: char| c.is_alphanumeric() || c == '_';
+    let mut input = String::new();
+    let mut rest = code.as_str();
+    while let Some(c) = rest.chars().next() {
+        let token = rest.trim_start();
+        if token.len() < rest.len() {
+            if input.ends_with(is_word) && token.starts_with(|c| is_word(c) || c == '-') {
+                input.push(' ');
+            }
+            rest = token;
+        } else if let Some(len) = string_literal_len(rest) {
+            input.push_str("\"\"");
+            rest = &rest[len..];
+        } else {
+            input.push(c);
+            rest = &rest[c.len_utf8()..];
+        }
+    }
+    if length == 0 {
+        input.push_str("<EOF>");
+    }
+    Some(input)
+}
+
+/// Whether the text ends with `@name`, that is, an annotation without its value.
+fn ends_with_annotation_name(before: &str) -> bool {
+    before.rfind('@').is_some_and(|at| {
+        let name = blank_comments(&before[at + 1..]);
+        !name.trim().is_empty()
+            && name
+                .chars()
+                .all(|c| c.is_alphanumeric() || c.is_whitespace() || "_-.`".contains(c))
+    })
+}
+
 /// Avro IDL keywords that commonly follow a bare annotation in source. When
 /// ANTLR merges the annotation name with the next token, these keywords help
 /// us split the merged text to recover the actual annotation name. For
@@ -973,18 +1026,23 @@ fn extract_annotation_name(input: &str) -> Option<&str> {
 
         // Collect the full identifier text after `@`.
         let ident_len = after_at
-            .chars()
-            .take_while(|c| c.is_ascii_alphanumeric() || *c == '_' || *c == '-')
-            .count();
+            .find(|c: char| !c.is_alphanumeric() && !matches!(c, '_' | '-' | '.'))
+            .unwrap_or(after_at.len());
+        let ident_len = after_at[..ident_len].trim_end_matches(['-', '.']).len();
 
-        if ident_len > 0 {
+        if after_at.starts_with(|c: char| c.is_alphabetic() || c == '_') {
             let full_ident = &after_at[..ident_len];
             let after_ident = &after_at[ident_len..];
 
             if !after_ident.starts_with('(') {
-                // This `@name` is missing its `(value)`. Try to split
-                // off a trailing keyword to recover the real name.
-                let name = split_trailing_keyword(full_ident);
+                // This `@name` is missing its `(value)`. If it may have been
+                // merged with the next token, try to split off a trailing
+                // keyword to recover the real name.
+                let name = if after_ident.is_empty() {
+                    split_trailing_keyword(full_ident)
+                } else {
+                    full_ident
+                };
                 return Some(name);
             }
         }
@@ -1045,7 +1103,7 @@ fn extract_trailing_identifier(input: &str) -> Option<&str> {
     let ident_end = end;
     let ident_start = input
         .bytes()
-        .rposition(|b| !(b.is_ascii_alphanumeric() || b == b'_'))
+        .rposition(|b| b.is_ascii() && !(b.is_ascii_alphanumeric() || b == b'_'))
         .map(|pos| pos + 1)
         .unwrap_or(0);
 
@@ -1816,12 +1874,11 @@ fn line_col_to_byte_offset(source: &str, line: isize, column: isize) -> usize {
 ///
 /// The optional `source` field holds the original input text, enabling the
 /// listener to compute byte offsets from ANTLR's (line, column) when no
-/// offending token is available (lexer errors).
+/// offending token is available (lexer errors), and to see the tokens before
+/// the offending one (parser errors).
 struct CollectingErrorListener {
     errors: Rc<RefCell<Vec<SyntaxError>>>,
-    /// Original source text for line/column-to-byte-offset conversion.
-    /// `None` for parser errors where the offending token always provides
-    /// byte offsets directly.
+    /// Original source text.
     source: Option<&'static str>,
 }
 
@@ -1833,7 +1890,7 @@ impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for CollectingErrorListener {
         line: isize,
         column: isize,
         msg: &str,
-        _error: Option<&antlr4rust::errors::ANTLRError>,
+        error: Option<&ANTLRError>,
     ) {
         // Extract byte offsets from the offending token when available. These
         // give us a precise source span for miette to underline. When the token
@@ -1865,7 +1922,24 @@ impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for CollectingErrorListener {
 
         // Try to enrich the raw ANTLR message with a more user-friendly
         // explanation. Fall back to the original if no pattern matches.
-        let enriched = enrich_antlr_error(msg);
+        let enriched = match self
+            .source
+            .and_then(|src| no_viable_input(error, offset, length, src))
+        {
+            Some(input) => {
+                enrich_antlr_error(&format!("no viable alternative at input '{input}'"))
+            }
+            // `(` is expected in other places than after an annotation's name.
+            None if msg.contains("expecting '('")
+                && !self
+                    .source
+                    .and_then(|src| src.get(..offset))
+                    .is_none_or(ends_with_annotation_name) =>
+            {
+                None
+            }
+            None => enrich_antlr_error(msg),
+        };
 
         let (display_msg, label, help) = match enriched {
             Some(e) => (e.message, e.label, e.help),
@@ -2048,11 +2122,9 @@ pub fn parse_idl_named(
     // produce a usable parse tree, but we'll fail after parsing completes.
     let syntax_errors: Rc<RefCell<Vec<SyntaxError>>> = Rc::new(RefCell::new(Vec::new()));
     parser.remove_error_listeners();
-    // Parser errors always have an offending token with byte offsets, so no
-    // source text is needed for line/column fallback.
     parser.add_error_listener(Box::new(CollectingErrorListener {
         errors: Rc::clone(&syntax_errors),
-        source: None,
+        source: Some(input),
     }));
 
     let tree = parser
-- 
2.43.0


From 284ac22c0b471ff7bfc5d8fa621068cde109cb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:57 +0000
Subject: [PATCH 35/38] fix: take whole words for the names and keywords in
 reports of syntax mistakes

---
 src/reader.rs | 165 +++++++++++++++++++++-----------------------------
 1 file changed, 68 insertions(+), 97 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 808b56b..3f79a56 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -20,7 +20,7 @@
 // plain recursive functions that return values. This is simpler and more
 // idiomatic Rust.
 
-use std::cell::RefCell;
+use std::cell::{OnceCell, RefCell};
 use std::collections::HashSet;
 use std::rc::Rc;
 
@@ -889,23 +889,16 @@ fn extract_no_viable_input(msg: &str) -> Option<&str> {
 }
 
 /// The tokens from the first to the last one a failed prediction looked at, as
-/// they are in the source, but without comments, string contents, and white
-/// space that separates no words. (ANTLR's message merges even the words.)
-fn no_viable_input(
-    error: Option<&ANTLRError>,
-    offset: usize,
-    length: usize,
-    source: &str,
-) -> Option<String> {
-    let Some(ANTLRError::NoAltError(e)) = error else {
-        return None;
-    };
-    let start = usize::try_from(e.start_token.get_start()).ok()?;
-    let code = blank_comments(source.get(start..offset + length)?);
+/// they are in the source (`code`, with blank comments), but without string
+/// contents and white space that separates no words. (ANTLR's message merges
+/// even the words.)
+fn no_viable_input(start: isize, offset: usize, length: usize, code: &str) -> Option<String> {
+    let start = usize::try_from(start).ok()?;
 
     let is_word = |c: char| c.is_alphanumeric() || c == '_';
+    let is_name = |c: char| is_word(c) || matches!(c, '-' | '.' | '`');
     let mut input = String::new();
-    let mut rest = code.as_str();
+    let mut rest = code.get(start..offset + length)?;
     while let Some(c) = rest.chars().next() {
         let token = rest.trim_start();
         if token.len() < rest.len() {
@@ -913,6 +906,11 @@ fn no_viable_input(
                 input.push(' ');
             }
             rest = token;
+        } else if rest.len() == length && input.ends_with(is_name) && is_name(c) {
+            // The offending token directly follows another word or a number.
+            input.push(' ');
+            input.push_str(rest);
+            rest = "";
         } else if let Some(len) = string_literal_len(rest) {
             input.push_str("\"\"");
             rest = &rest[len..];
@@ -927,10 +925,10 @@ fn no_viable_input(
     Some(input)
 }
 
-/// Whether the text ends with `@name`, that is, an annotation without its value.
+/// Whether the text (with blank comments) ends with `@name`, that is, an annotation without its value.
 fn ends_with_annotation_name(before: &str) -> bool {
     before.rfind('@').is_some_and(|at| {
-        let name = blank_comments(&before[at + 1..]);
+        let name = &before[at + 1..];
         !name.trim().is_empty()
             && name
                 .chars()
@@ -1034,7 +1032,7 @@ fn extract_annotation_name(input: &str) -> Option<&str> {
             let full_ident = &after_at[..ident_len];
             let after_ident = &after_at[ident_len..];
 
-            if !after_ident.starts_with('(') {
+            if !after_ident.starts_with(['(', '.', '-', '`']) {
                 // This `@name` is missing its `(value)`. If it may have been
                 // merged with the next token, try to split off a trailing
                 // keyword to recover the real name.
@@ -1103,7 +1101,7 @@ fn extract_trailing_identifier(input: &str) -> Option<&str> {
     let ident_end = end;
     let ident_start = input
         .bytes()
-        .rposition(|b| b.is_ascii() && !(b.is_ascii_alphanumeric() || b == b'_'))
+        .rposition(|b| b.is_ascii() && !(b.is_ascii_alphanumeric() || b"_-.`".contains(&b)))
         .map(|pos| pos + 1)
         .unwrap_or(0);
 
@@ -1111,7 +1109,8 @@ fn extract_trailing_identifier(input: &str) -> Option<&str> {
         return None;
     }
     let word = &input[ident_start..ident_end];
-    if word.is_empty() {
+    if word.ends_with(['-', '.']) || word.contains('`') {
+        // No keyword.
         return None;
     }
     Some(word)
@@ -1389,11 +1388,7 @@ fn detect_missing_close_brace_before_declaration(
 
     // Skip the name (e.g., `Bar` in `record Bar {`).
     let name_end = before.len();
-    let name_start = before
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_' && b != b'`')
-        .map(|p| p + 1)
-        .unwrap_or(0);
+    let name_start = last_word_start(before);
 
     if name_start >= name_end {
         return None;
@@ -1409,11 +1404,7 @@ fn detect_missing_close_brace_before_declaration(
     let keyword_before_name = if !is_decl_keyword {
         let before_name = before[..name_start].trim_end();
         let kw_end = before_name.len();
-        let kw_start = before_name
-            .bytes()
-            .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_')
-            .map(|p| p + 1)
-            .unwrap_or(0);
+        let kw_start = last_word_start(before_name);
         if kw_start < kw_end {
             matches!(
                 &before_name[kw_start..kw_end],
@@ -1482,11 +1473,7 @@ fn detect_fixed_non_integer(error: &SyntaxError, source: &str) -> Option<SyntaxE
 
     // Extract the name (identifier before the parenthesis).
     let name_end = before_paren.len();
-    let name_start = before_paren
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_')
-        .map(|p| p + 1)
-        .unwrap_or(0);
+    let name_start = last_word_start(before_paren);
     if name_start >= name_end {
         return None;
     }
@@ -1494,7 +1481,7 @@ fn detect_fixed_non_integer(error: &SyntaxError, source: &str) -> Option<SyntaxE
 
     // Check that `fixed` precedes the name.
     let before_name = before_paren[..name_start].trim_end();
-    if !before_name.ends_with("fixed") {
+    if &before_name[last_word_start(before_name)..] != "fixed" {
         return None;
     }
 
@@ -1542,11 +1529,7 @@ fn detect_missing_name(error: &SyntaxError, source: &str) -> Option<SyntaxError>
 
     // Extract the word immediately before `{`.
     let kw_end = before.len();
-    let kw_start = before
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_')
-        .map(|p| p + 1)
-        .unwrap_or(0);
+    let kw_start = last_word_start(before);
 
     if kw_start >= kw_end {
         return None;
@@ -1611,11 +1594,7 @@ fn detect_trailing_comma_in_enum(error: &SyntaxError, source: &str) -> Option<Sy
     // Find the last enum symbol before the trailing comma.
     let before_comma_trimmed = before_comma.trim_end();
     let sym_end = before_comma_trimmed.len();
-    let sym_start = before_comma_trimmed
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_')
-        .map(|p| p + 1)
-        .unwrap_or(0);
+    let sym_start = last_word_start(before_comma_trimmed);
     let last_symbol = if sym_start < sym_end {
         &before_comma_trimmed[sym_start..sym_end]
     } else {
@@ -1659,11 +1638,7 @@ fn detect_misspelled_keyword(error: &SyntaxError, source: &str) -> Option<Syntax
 
     // Skip the identifier that ANTLR consumed as the name.
     let name_end = trimmed.len();
-    let name_start = trimmed
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_' && b != b'`')
-        .map(|p| p + 1)
-        .unwrap_or(0);
+    let name_start = last_word_start(trimmed);
 
     if name_start >= name_end {
         return None;
@@ -1673,11 +1648,7 @@ fn detect_misspelled_keyword(error: &SyntaxError, source: &str) -> Option<Syntax
 
     // Now extract the potential misspelled keyword.
     let kw_end = before_name.len();
-    let kw_start = before_name
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_')
-        .map(|p| p + 1)
-        .unwrap_or(0);
+    let kw_start = last_word_start(before_name);
 
     if kw_start >= kw_end {
         return None;
@@ -1782,50 +1753,43 @@ fn identify_construct(before_brace: &str) -> Option<&'static str> {
 
     // Skip the name (e.g., `User` in `record User {`).
     let name_end = trimmed.len();
-    let name_start = trimmed
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_' && b != b'`')
-        .map(|p| p + 1)
-        .unwrap_or(0);
+    let name_start = last_word_start(trimmed);
 
     if name_start >= name_end {
         return None;
     }
 
-    let name_text = &trimmed[name_start..name_end];
+    // Look at the keyword before the name.
+    let before_name = trimmed[..name_start].trim_end();
+    let kw_start = last_word_start(before_name);
 
-    // Check if the "name" is actually a keyword (e.g., `union {` has no name).
-    match name_text {
+    match &before_name[kw_start..] {
         "protocol" => return Some("protocol"),
         "record" => return Some("record"),
         "error" => return Some("error record"),
         "enum" => return Some("enum"),
-        "union" => return Some("union"),
         _ => {}
     }
 
-    // Otherwise, look at the keyword before the name.
-    let before_name = trimmed[..name_start].trim_end();
-    let kw_end = before_name.len();
-    let kw_start = before_name
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_')
-        .map(|p| p + 1)
-        .unwrap_or(0);
-
-    if kw_start >= kw_end {
-        return None;
-    }
-
-    match &before_name[kw_start..kw_end] {
+    // Otherwise, check if the "name" is actually a keyword (e.g., `union {`
+    // has no name).
+    match &trimmed[name_start..name_end] {
         "protocol" => Some("protocol"),
         "record" => Some("record"),
         "error" => Some("error record"),
         "enum" => Some("enum"),
+        "union" => Some("union"),
         _ => None,
     }
 }
 
+/// Where the word (a keyword or a possibly dotted or quoted name) at the end of
+/// the text starts.
+fn last_word_start(text: &str) -> usize {
+    text.trim_end_matches(|c: char| c.is_alphanumeric() || matches!(c, '_' | '-' | '.' | '`'))
+        .len()
+}
+
 /// Extracts the `line N:M ` prefix from a formatted error message.
 /// Returns the prefix including the trailing space, or an empty string
 /// if no prefix is found.
@@ -1879,7 +1843,15 @@ fn line_col_to_byte_offset(source: &str, line: isize, column: isize) -> usize {
 struct CollectingErrorListener {
     errors: Rc<RefCell<Vec<SyntaxError>>>,
     /// Original source text.
-    source: Option<&'static str>,
+    source: &'static str,
+    /// The source text with blank comments, once needed.
+    code: OnceCell<String>,
+}
+
+impl CollectingErrorListener {
+    fn code(&self) -> &str {
+        self.code.get_or_init(|| blank_comments(self.source))
+    }
 }
 
 impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for CollectingErrorListener {
@@ -1911,29 +1883,26 @@ impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for CollectingErrorListener {
             .unwrap_or_else(|| {
                 // Lexer errors have no offending token. Fall back to computing
                 // the byte offset from (line, column) using the source text.
-                if let Some(src) = self.source {
-                    let offset = line_col_to_byte_offset(src, line, column);
-                    let first = src[offset..].chars().next();
-                    (offset, first.map_or(0, char::len_utf8))
-                } else {
-                    (0, 0)
-                }
+                let offset = line_col_to_byte_offset(self.source, line, column);
+                let first = self.source[offset..].chars().next();
+                (offset, first.map_or(0, char::len_utf8))
             });
 
         // Try to enrich the raw ANTLR message with a more user-friendly
         // explanation. Fall back to the original if no pattern matches.
-        let enriched = match self
-            .source
-            .and_then(|src| no_viable_input(error, offset, length, src))
-        {
-            Some(input) => {
-                enrich_antlr_error(&format!("no viable alternative at input '{input}'"))
+        let input = match error {
+            Some(ANTLRError::NoAltError(e)) => {
+                no_viable_input(e.start_token.get_start(), offset, length, self.code())
             }
+            _ => None,
+        };
+        let enriched = match input {
+            Some(input) => enrich_antlr_error(&format!("no viable alternative at input '{input}'")),
             // `(` is expected in other places than after an annotation's name.
             None if msg.contains("expecting '('")
                 && !self
-                    .source
-                    .and_then(|src| src.get(..offset))
+                    .code()
+                    .get(..offset)
                     .is_none_or(ends_with_annotation_name) =>
             {
                 None
@@ -2105,7 +2074,8 @@ pub fn parse_idl_named(
     lexer.remove_error_listeners();
     lexer.add_error_listener(Box::new(CollectingErrorListener {
         errors: Rc::clone(&lexer_errors),
-        source: Some(input),
+        source: input,
+        code: OnceCell::new(),
     }));
 
     let token_stream = CommonTokenStream::new(lexer);
@@ -2124,7 +2094,8 @@ pub fn parse_idl_named(
     parser.remove_error_listeners();
     parser.add_error_listener(Box::new(CollectingErrorListener {
         errors: Rc::clone(&syntax_errors),
-        source: Some(input),
+        source: input,
+        code: OnceCell::new(),
     }));
 
     let tree = parser
-- 
2.43.0


From 18a0f03a5b49aab5c4a83c3827e4c2e21650d478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:16 +0000
Subject: [PATCH 36/38] fix: reject an error repeated in a message's throws
 clause

---
 src/reader.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 3f79a56..261bf5f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -3783,6 +3783,7 @@ fn walk_message<'input>(
     // contains only the error type identifiers (not the message name).
     let errors = if !ctx.errors.is_empty() {
         let mut error_schemas = Vec::new();
+        let mut seen_errors: HashSet<String> = HashSet::new();
         for error_id_ctx in &ctx.errors {
             let error_name = identifier_text(error_id_ctx);
             let error_span = span_from_context(&**error_id_ctx).map(|(o, l)| src.span(o, l));
@@ -3801,6 +3802,19 @@ fn walk_message<'input>(
                     span: error_span,
                 });
             }
+            // The errors of a message are the branches of a union, so none may
+            // be repeated.
+            let key = error_schemas
+                .last()
+                .map(AvroSchema::union_type_key)
+                .unwrap_or_default();
+            if !seen_errors.insert(key.clone()) {
+                return Err(make_diagnostic(
+                    src,
+                    &**error_id_ctx,
+                    format!("duplicate error '{key}' in message '{message_name}'"),
+                ));
+            }
         }
         Some(error_schemas)
     } else if one_way {
-- 
2.43.0


From a6ce14c5590cf7d1c0603f47585798a6bfb81685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:10 +0000
Subject: [PATCH 37/38] fix: reject undefined names among the types of an
 imported JSON protocol

---
 src/compiler.rs |  8 +++++---
 src/import.rs   | 12 +++++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 5cea6ef..34c0cf1 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -874,8 +874,9 @@ fn resolve_single_import(
     match import.kind {
         ImportKind::Protocol => {
             let known = ctx.registry.schemas().count();
-            let imported_messages = import_protocol(&resolved_path, &mut ctx.registry)
-                .map_err(|e| wrap_import_error(e, import.span, &resolved_path, "protocol"))?;
+            let (imported_messages, entries) =
+                import_protocol(&resolved_path, &mut ctx.registry)
+                    .map_err(|e| wrap_import_error(e, import.span, &resolved_path, "protocol"))?;
 
             // Track the import so unresolved references from this .avpr can
             // be attributed to the import statement in error diagnostics.
@@ -883,9 +884,10 @@ fn resolve_single_import(
                 &resolved_path,
                 import.span,
                 &ctx.registry,
-                ctx.registry.schemas().skip(known),
+                ctx.registry.schemas().skip(known).chain(&entries),
                 imported_messages.values(),
             ));
+            ctx.unregistered_schemas.extend(entries);
             ctx.add_imported_messages(imported_messages);
         }
         ImportKind::Schema => {
diff --git a/src/import.rs b/src/import.rs
index 1510b18..c22370e 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -347,10 +347,14 @@ fn flatten_message(message: Message, registry: &mut SchemaRegistry) -> Result<Me
 /// The `.avpr` format is the JSON serialization of an Avro protocol. It contains
 /// a `types` array of named schema definitions and a `messages` object mapping
 /// message names to their definitions.
+///
+/// Also returns the entries of `types`, with named types replaced by references.
+/// Entries that are not definitions contribute nothing, but like all others
+/// their references must resolve.
 pub fn import_protocol(
     path: &Path,
     registry: &mut SchemaRegistry,
-) -> Result<HashMap<String, Message>> {
+) -> Result<(HashMap<String, Message>, Vec<AvroSchema>)> {
     let content = std::fs::read_to_string(path)
         .map_err(|e| miette::miette!("read protocol file `{}`: {e}", path.display()))?;
     let json: Value = parse_json_with_comments(&content)
@@ -376,6 +380,7 @@ pub fn import_protocol(
         .and_then(|n| n.as_str())
         .or(inferred_ns.as_deref());
     let mut messages = HashMap::new();
+    let mut entries = Vec::new();
 
     // Extract types from the protocol JSON and register them. Schemas are
     // flattened so that nested named types (records, enums, fixed) within
@@ -389,9 +394,10 @@ pub fn import_protocol(
                     path.display()
                 )
             })?;
-            flatten_and_register(schema, registry).map_err(|e| {
+            let entry = flatten_and_register(schema, registry).map_err(|e| {
                 miette::miette!("type at index {i} in protocol `{}`: {e}", path.display())
             })?;
+            entries.push(entry);
         }
     }
 
@@ -411,7 +417,7 @@ pub fn import_protocol(
         }
     }
 
-    Ok(messages)
+    Ok((messages, entries))
 }
 
 // ==============================================================================
-- 
2.43.0


From c98b18de9bbde2d2396b614bf07eae861393b8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:10 +0000
Subject: [PATCH 38/38] fix: do not take a string before a stray ) for the size
 of a fixed

The search for the opening parenthesis looked into string literals, so
`@foo(["fixed Zq(", )]` was reported as a fixed type whose size is no
integer.
---
 src/reader.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 261bf5f..10239e5 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1487,8 +1487,9 @@ fn detect_fixed_non_integer(error: &SyntaxError, source: &str) -> Option<SyntaxE
 
     // Extract the non-integer content between the parens.
     let after_paren = &source[paren_pos + 1..error.offset];
-    if after_paren.contains(')') {
-        // The size was closed already; the unexpected `)` is a later one.
+    if after_paren.contains([')', '"']) {
+        // The size was closed already, or the `(` is inside a string; the
+        // unexpected `)` is another one.
         return None;
     }
     let bad_size = after_paren.trim();
-- 
2.43.0

