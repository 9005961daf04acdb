From aa4dbf0af70cb9d91bc1d2168b22258b4e636cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 1/4] fix: stop bundle parsing after an optional value given
 via `-s=value`

---
 src/runtime.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index a49aec4..de80f0e 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -676,7 +676,10 @@ fn visit_named(
 
     match ret {
         Ok(()) => {
-            Ok(if require_value { ControlFlow::Break(()) } else { ControlFlow::Continue(()) })
+            // NB: An optional value given via `-s=value` (`!require_value && require_eq`) also
+            // consumes the rest of the bundle.
+            let value_consumed = require_value || matches!(inline_value, RawInlineValue::Eq(_));
+            Ok(if value_consumed { ControlFlow::Break(()) } else { ControlFlow::Continue(()) })
         }
         Err(err) => {
             let desc = info.get_description(attrs.get_index());
-- 
2.43.0


From 90f5135f3d3fd37b696e3382a2d4f4101808016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 2/4] fix: name the positional argument in its value errors

---
 src/runtime.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index de80f0e..11ede94 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -588,11 +588,15 @@ fn visit_positional(
         frame.next_positional += 1;
     }
 
-    let place = &mut *frame.fields[usize::from(attrs.get_index())];
-    place.parse_from(Some(&arg))?;
+    let info = frame.info;
+    let idx = attrs.get_index();
+    let place = &mut *frame.fields[usize::from(idx)];
+    place.parse_from(Some(&arg)).map_err(|err| err.with_arg_desc(info.get_description(idx)))?;
     if attrs.contains(ArgAttrs::GREEDY) {
         for arg in &mut *p.iter {
-            place.parse_from(Some(&arg))?;
+            place
+                .parse_from(Some(&arg))
+                .map_err(|err| err.with_arg_desc(info.get_description(idx)))?;
         }
         // Everything is consumed here. The outer loop should exit as well.
     }
-- 
2.43.0


From 64c9cc27b2a997e743f3666ddc7ee51d9fc3d801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 3/4] fix: reject subcommands whose names collide after case
 conversion

---
 derive/src/derive_subcommand.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/derive/src/derive_subcommand.rs b/derive/src/derive_subcommand.rs
index 465523e..41f8ed2 100644
--- a/derive/src/derive_subcommand.rs
+++ b/derive/src/derive_subcommand.rs
@@ -122,7 +122,13 @@ fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandIm
 
     name_map
         .sort_unstable_by(|&lhs, &rhs| Ord::cmp(&variants[lhs].arg_str, &variants[rhs].arg_str));
-    // FIXME: Duplication check.
+    if let Some(w) =
+        name_map.windows(2).find(|w| variants[w[0]].arg_str == variants[w[1]].arg_str)
+    {
+        let (fst, snd) = (&variants[w[0]], &variants[w[1]]);
+        emit_error!(fst.ident, "duplicated subcommand names {:?}", fst.arg_str);
+        emit_error!(snd.ident, "second variant here");
+    }
 
     SubcommandImpl { enum_name, variants, name_map }
 }
-- 
2.43.0


From f11a406a48ea20d54188dacf4aa2e19e6b95bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:01 +0000
Subject: [PATCH 4/4] fix: derive names of raw identifiers without the r#
 prefix

---
 derive/src/derive_args.rs       | 3 ++-
 derive/src/derive_subcommand.rs | 3 ++-
 derive/src/derive_value_enum.rs | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 0a24d21..6d55303 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -2,6 +2,7 @@ use std::collections::HashMap;
 
 use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, quote, quote_spanned};
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use syn::{Data, DeriveInput, Fields, FieldsNamed, Ident, Lit, LitChar, LitStr};
 
@@ -307,7 +308,7 @@ pub fn expand_args_parse<'i>(
     for field in fields {
         let attrs = ArgOrCommand::parse_attrs(&field.attrs);
         let ident = field.ident.as_ref().expect("named struct");
-        let ident_str = ident.to_string();
+        let ident_str = ident.unraw().to_string();
 
         let mut arg = match attrs {
             ArgOrCommand::Arg(arg) => arg,
diff --git a/derive/src/derive_subcommand.rs b/derive/src/derive_subcommand.rs
index 41f8ed2..d091b74 100644
--- a/derive/src/derive_subcommand.rs
+++ b/derive/src/derive_subcommand.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, quote};
+use syn::ext::IdentExt;
 use syn::{Data, DataEnum, DeriveInput, Ident, Type};
 
 use crate::common::{CommandMeta, wrap_anon_item};
@@ -73,7 +74,7 @@ fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandIm
             let variant_ident = &variant.ident;
             let cmd_meta = CommandMeta::parse_attrs_opt(&variant.attrs);
 
-            let arg_str = heck::AsKebabCase(variant_ident.to_string()).to_string();
+            let arg_str = heck::AsKebabCase(variant_ident.unraw().to_string()).to_string();
             name_map.push(idx);
 
             let (args_info, kind) = match &variant.fields {
diff --git a/derive/src/derive_value_enum.rs b/derive/src/derive_value_enum.rs
index d95e6cf..bb74d50 100644
--- a/derive/src/derive_value_enum.rs
+++ b/derive/src/derive_value_enum.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, quote};
+use syn::ext::IdentExt;
 use syn::{Data, DataEnum, DeriveInput, Generics, Ident};
 
 use crate::{
@@ -48,7 +49,7 @@ fn expand_for_enum<'a>(input: &'a DeriveInput, data: &'a DataEnum) -> ValueEnumI
 
             let parse_name = match variant_meta.name {
                 Some(name) => name,
-                None => enum_meta.rename_all.rename(variant.ident.to_string()),
+                None => enum_meta.rename_all.rename(variant.ident.unraw().to_string()),
             };
 
             if parse_name.contains(|c: char| c.is_ascii_control()) {
-- 
2.43.0

