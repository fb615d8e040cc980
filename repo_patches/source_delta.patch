From 0e54fa3cf54eb084a129201607b17b0c01d94be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 1/5] fix: let '-x=value' of an optional-value short option
 take the rest of the word

---
 src/runtime.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index a49aec4..9d278f9 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -623,6 +623,8 @@ fn visit_named(
 
     let require_value = attrs.contains(ArgAttrs::REQUIRE_VALUE);
     let require_eq = attrs.contains(ArgAttrs::REQUIRE_EQ);
+    // An explicit `=value` always takes the rest of a bundle, even if the value is optional.
+    let takes_rest = require_value || matches!(inline_value, RawInlineValue::Eq(_));
     let ret = match inline_value {
         RawInlineValue::Eq(v) => Ok(Some(Cow::Borrowed(v))),
         RawInlineValue::None => {
@@ -676,7 +678,7 @@ fn visit_named(
 
     match ret {
         Ok(()) => {
-            Ok(if require_value { ControlFlow::Break(()) } else { ControlFlow::Continue(()) })
+            Ok(if takes_rest { ControlFlow::Break(()) } else { ControlFlow::Continue(()) })
         }
         Err(err) => {
             let desc = info.get_description(attrs.get_index());
-- 
2.43.0


From ad55004c02b32e2c7a4bd2c4b29974e90852dddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 2/5] fix: name the positional argument in errors about its
 value

---
 src/runtime.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index 9d278f9..4b6b717 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -589,10 +589,16 @@ fn visit_positional(
     }
 
     let place = &mut *frame.fields[usize::from(attrs.get_index())];
-    place.parse_from(Some(&arg))?;
+    let info = frame.info;
+    let mut parse_from = |arg: OsString| {
+        place
+            .parse_from(Some(&arg))
+            .map_err(|err| err.with_arg_desc(info.get_description(attrs.get_index())))
+    };
+    parse_from(arg)?;
     if attrs.contains(ArgAttrs::GREEDY) {
         for arg in &mut *p.iter {
-            place.parse_from(Some(&arg))?;
+            parse_from(arg)?;
         }
         // Everything is consumed here. The outer loop should exit as well.
     }
-- 
2.43.0


From 5c8a24c4880645c1e8137f98d02ec201030ab059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:17 +0000
Subject: [PATCH 3/5] fix: report invalid subcommand variants instead of
 panicking when others follow

---
 derive/src/derive_subcommand.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/derive/src/derive_subcommand.rs b/derive/src/derive_subcommand.rs
index 465523e..736aa37 100644
--- a/derive/src/derive_subcommand.rs
+++ b/derive/src/derive_subcommand.rs
@@ -63,18 +63,14 @@ enum VariantKind<'i> {
 
 fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandImpl<'a> {
     let enum_name = &def.ident;
-    let mut name_map = Vec::new();
-
     let variants = data
         .variants
         .iter()
-        .enumerate()
-        .filter_map(|(idx, variant)| {
+        .filter_map(|variant| {
             let variant_ident = &variant.ident;
             let cmd_meta = CommandMeta::parse_attrs_opt(&variant.attrs);
 
             let arg_str = heck::AsKebabCase(variant_ident.to_string()).to_string();
-            name_map.push(idx);
 
             let (args_info, kind) = match &variant.fields {
                 syn::Fields::Unit => {
@@ -120,6 +116,7 @@ fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandIm
         })
         .collect::<Vec<_>>();
 
+    let mut name_map = (0..variants.len()).collect::<Vec<_>>();
     name_map
         .sort_unstable_by(|&lhs, &rhs| Ord::cmp(&variants[lhs].arg_str, &variants[rhs].arg_str));
     // FIXME: Duplication check.
-- 
2.43.0


From 244eb377c6f64d8e307867e52dedfbd99ab1b576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:17 +0000
Subject: [PATCH 4/5] fix: reject subcommands of the same name, as documented

---
 derive/src/derive_subcommand.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/derive/src/derive_subcommand.rs b/derive/src/derive_subcommand.rs
index 736aa37..4e7df47 100644
--- a/derive/src/derive_subcommand.rs
+++ b/derive/src/derive_subcommand.rs
@@ -119,7 +119,13 @@ fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandIm
     let mut name_map = (0..variants.len()).collect::<Vec<_>>();
     name_map
         .sort_unstable_by(|&lhs, &rhs| Ord::cmp(&variants[lhs].arg_str, &variants[rhs].arg_str));
-    // FIXME: Duplication check.
+    for w in name_map.windows(2) {
+        let (lhs, rhs) = (&variants[w[0].min(w[1])], &variants[w[0].max(w[1])]);
+        if lhs.arg_str == rhs.arg_str {
+            emit_error!(rhs.ident, "duplicated subcommand names {:?}", rhs.arg_str);
+            emit_error!(lhs.ident, "previously defined here");
+        }
+    }
 
     SubcommandImpl { enum_name, variants, name_map }
 }
-- 
2.43.0


From 6ca6f62b6c3c79d0a6a05d7f0e9ebde79ead4319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 5/5] fix: derive names from raw identifiers without 'r#'

---
 derive/src/derive_args.rs       | 3 ++-
 derive/src/derive_subcommand.rs | 3 ++-
 derive/src/derive_value_enum.rs | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 0a24d21..6d55303 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -2,6 +2,7 @@ use std::collections::HashMap;
 
 use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, quote, quote_spanned};
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use syn::{Data, DeriveInput, Fields, FieldsNamed, Ident, Lit, LitChar, LitStr};
 
@@ -307,7 +308,7 @@ pub fn expand_args_parse<'i>(
     for field in fields {
         let attrs = ArgOrCommand::parse_attrs(&field.attrs);
         let ident = field.ident.as_ref().expect("named struct");
-        let ident_str = ident.to_string();
+        let ident_str = ident.unraw().to_string();
 
         let mut arg = match attrs {
             ArgOrCommand::Arg(arg) => arg,
diff --git a/derive/src/derive_subcommand.rs b/derive/src/derive_subcommand.rs
index 4e7df47..9a7da44 100644
--- a/derive/src/derive_subcommand.rs
+++ b/derive/src/derive_subcommand.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, quote};
+use syn::ext::IdentExt;
 use syn::{Data, DataEnum, DeriveInput, Ident, Type};
 
 use crate::common::{CommandMeta, wrap_anon_item};
@@ -70,7 +71,7 @@ fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandIm
             let variant_ident = &variant.ident;
             let cmd_meta = CommandMeta::parse_attrs_opt(&variant.attrs);
 
-            let arg_str = heck::AsKebabCase(variant_ident.to_string()).to_string();
+            let arg_str = heck::AsKebabCase(variant_ident.unraw().to_string()).to_string();
 
             let (args_info, kind) = match &variant.fields {
                 syn::Fields::Unit => {
diff --git a/derive/src/derive_value_enum.rs b/derive/src/derive_value_enum.rs
index d95e6cf..bb74d50 100644
--- a/derive/src/derive_value_enum.rs
+++ b/derive/src/derive_value_enum.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, quote};
+use syn::ext::IdentExt;
 use syn::{Data, DataEnum, DeriveInput, Generics, Ident};
 
 use crate::{
@@ -48,7 +49,7 @@ fn expand_for_enum<'a>(input: &'a DeriveInput, data: &'a DataEnum) -> ValueEnumI
 
             let parse_name = match variant_meta.name {
                 Some(name) => name,
-                None => enum_meta.rename_all.rename(variant.ident.to_string()),
+                None => enum_meta.rename_all.rename(variant.ident.unraw().to_string()),
             };
 
             if parse_name.contains(|c: char| c.is_ascii_control()) {
-- 
2.43.0

