From 416482148355293ea0135cd9c3d3c67e1df58a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 01/19] fix: accept `-s=value` for optional-value short options

The value of an `Option<Option<T>>` short option given as `-s=value` was
parsed and then parsed again as further bundled options, so every such
argument was rejected with `unexpected argument "-="`.
---
 src/runtime.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index a49aec4..2ced58f 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -623,6 +623,8 @@ fn visit_named(
 
     let require_value = attrs.contains(ArgAttrs::REQUIRE_VALUE);
     let require_eq = attrs.contains(ArgAttrs::REQUIRE_EQ);
+    // An optional value is still a value if it is given: `=` ends a short bundle.
+    let takes_rest = require_value || matches!(inline_value, RawInlineValue::Eq(_));
     let ret = match inline_value {
         RawInlineValue::Eq(v) => Ok(Some(Cow::Borrowed(v))),
         RawInlineValue::None => {
@@ -676,7 +678,7 @@ fn visit_named(
 
     match ret {
         Ok(()) => {
-            Ok(if require_value { ControlFlow::Break(()) } else { ControlFlow::Continue(()) })
+            Ok(if takes_rest { ControlFlow::Break(()) } else { ControlFlow::Continue(()) })
         }
         Err(err) => {
             let desc = info.get_description(attrs.get_index());
-- 
2.43.0


From 874a1fcfa2c7989cea64c6f4970ecaee231d4e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 02/19] fix: do not poll the argument iterator after its end

A trailing or last list drained the iterator and the outer loop then
polled it again, so arguments of an iterator resuming after `None` were
parsed as if they had been part of the command line.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 557b8a6..e795d98 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -81,7 +81,8 @@ pub trait Parser: ParserInternal + Sized + 'static {
         I: IntoIterator<Item = T>,
         T: Into<OsString> + Clone,
     {
-        let mut iter = iter.into_iter().map(|s| s.into());
+        // Never poll the iterator again once it ended. It may not be fused.
+        let mut iter = iter.into_iter().map(|s| s.into()).fuse();
         let arg0 = iter.next().ok_or(ErrorKind::MissingArg0)?;
         let program_name = Path::new(&arg0).file_name().unwrap_or(arg0.as_ref());
         Self::__Flavor::run_parser(&mut RawParser::new(&mut iter), program_name)
-- 
2.43.0


From df2159e49c2324ca041b52e67b2a093f328f2e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 03/19] fix: exit with status 1 even if the error cannot be
 written

`eprintln!` panics if writing to standard error fails, which made
`Parser::parse` exit with status 101 and a panic instead of status 1.
---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e795d98..c8b0b65 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,7 +9,7 @@
 //!
 //! TODO: Documentations.
 #![forbid(unsafe_code)]
-use std::{ffi::OsString, path::Path};
+use std::{ffi::OsString, io::Write, path::Path};
 
 use error::ErrorKind;
 use runtime::{ParserInternal, RawParser};
@@ -70,7 +70,8 @@ pub trait Parser: ParserInternal + Sized + 'static {
         match Self::try_parse_from(std::env::args_os()) {
             Ok(v) => v,
             Err(err) => {
-                eprintln!("{err}");
+                // Unlike `eprintln!`, do not panic if the message cannot be written.
+                let _ = writeln!(std::io::stderr(), "{err}");
                 std::process::exit(1);
             }
         }
-- 
2.43.0


From f915e3813059d1a6979aacbd0a8245d05b236017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 04/19] fix: do not index out of bounds when a subcommand
 variant is malformed

---
 derive/src/derive_subcommand.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/derive/src/derive_subcommand.rs b/derive/src/derive_subcommand.rs
index 465523e..ed91a3f 100644
--- a/derive/src/derive_subcommand.rs
+++ b/derive/src/derive_subcommand.rs
@@ -63,18 +63,15 @@ enum VariantKind<'i> {
 
 fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandImpl<'a> {
     let enum_name = &def.ident;
-    let mut name_map = Vec::new();
 
     let variants = data
         .variants
         .iter()
-        .enumerate()
-        .filter_map(|(idx, variant)| {
+        .filter_map(|variant| {
             let variant_ident = &variant.ident;
             let cmd_meta = CommandMeta::parse_attrs_opt(&variant.attrs);
 
             let arg_str = heck::AsKebabCase(variant_ident.to_string()).to_string();
-            name_map.push(idx);
 
             let (args_info, kind) = match &variant.fields {
                 syn::Fields::Unit => {
@@ -120,6 +117,8 @@ fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandIm
         })
         .collect::<Vec<_>>();
 
+    // Malformed variants are already filtered out here.
+    let mut name_map = (0..variants.len()).collect::<Vec<_>>();
     name_map
         .sort_unstable_by(|&lhs, &rhs| Ord::cmp(&variants[lhs].arg_str, &variants[rhs].arg_str));
     // FIXME: Duplication check.
-- 
2.43.0


From 924fd921a77abfa9a8649f898d48a018e5093d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 05/19] fix: name raw identifiers without their r# prefix

A field `r#type`, a variant `r#Move` of a subcommand or of a value enum
were named after the identifier including the prefix (`--r-type`).
---
 derive/src/derive_args.rs       | 3 ++-
 derive/src/derive_subcommand.rs | 3 ++-
 derive/src/derive_value_enum.rs | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 0a24d21..6d55303 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -2,6 +2,7 @@ use std::collections::HashMap;
 
 use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, quote, quote_spanned};
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use syn::{Data, DeriveInput, Fields, FieldsNamed, Ident, Lit, LitChar, LitStr};
 
@@ -307,7 +308,7 @@ pub fn expand_args_parse<'i>(
     for field in fields {
         let attrs = ArgOrCommand::parse_attrs(&field.attrs);
         let ident = field.ident.as_ref().expect("named struct");
-        let ident_str = ident.to_string();
+        let ident_str = ident.unraw().to_string();
 
         let mut arg = match attrs {
             ArgOrCommand::Arg(arg) => arg,
diff --git a/derive/src/derive_subcommand.rs b/derive/src/derive_subcommand.rs
index ed91a3f..f99941d 100644
--- a/derive/src/derive_subcommand.rs
+++ b/derive/src/derive_subcommand.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, quote};
+use syn::ext::IdentExt;
 use syn::{Data, DataEnum, DeriveInput, Ident, Type};
 
 use crate::common::{CommandMeta, wrap_anon_item};
@@ -71,7 +72,7 @@ fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandIm
             let variant_ident = &variant.ident;
             let cmd_meta = CommandMeta::parse_attrs_opt(&variant.attrs);
 
-            let arg_str = heck::AsKebabCase(variant_ident.to_string()).to_string();
+            let arg_str = heck::AsKebabCase(variant_ident.unraw().to_string()).to_string();
 
             let (args_info, kind) = match &variant.fields {
                 syn::Fields::Unit => {
diff --git a/derive/src/derive_value_enum.rs b/derive/src/derive_value_enum.rs
index d95e6cf..bb74d50 100644
--- a/derive/src/derive_value_enum.rs
+++ b/derive/src/derive_value_enum.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, quote};
+use syn::ext::IdentExt;
 use syn::{Data, DataEnum, DeriveInput, Generics, Ident};
 
 use crate::{
@@ -48,7 +49,7 @@ fn expand_for_enum<'a>(input: &'a DeriveInput, data: &'a DataEnum) -> ValueEnumI
 
             let parse_name = match variant_meta.name {
                 Some(name) => name,
-                None => enum_meta.rename_all.rename(variant.ident.to_string()),
+                None => enum_meta.rename_all.rename(variant.ident.unraw().to_string()),
             };
 
             if parse_name.contains(|c: char| c.is_ascii_control()) {
-- 
2.43.0


From 25f3d380a42bb8dbbb0d45494459e17b5360503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:48 +0000
Subject: [PATCH 06/19] fix: do not lose the summary of documentation starting
 with a blank line

The first line of a command's description is its summary in the list of
subcommands; a leading blank doc-comment line made it empty.
---
 derive/src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/common.rs b/derive/src/common.rs
index 2235298..deed619 100644
--- a/derive/src/common.rs
+++ b/derive/src/common.rs
@@ -563,7 +563,7 @@ impl Doc {
             let s = s.value();
             let s = s.trim_ascii();
             if s.is_empty() {
-                if !self.0.ends_with('\n') {
+                if !self.0.is_empty() && !self.0.ends_with('\n') {
                     self.0.push('\n');
                 }
             } else {
-- 
2.43.0


From c9c36e9ff4fdadd5141fdf45ef895f568f4b9d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:00 +0000
Subject: [PATCH 07/19] fix: accept integer literals out of the i32 range as
 default_value_t

Unsuffixed literals are formatted at compile time by concat!, where they fall
back to i32 and overflow.
---
 derive/src/derive_args.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 6d55303..705df21 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -1071,10 +1071,16 @@ impl FormatArgsBuilder {
                     // `format_args` optimization.
                     // The default type checking will still happen inside
                     // `finish`, so skipping this check does not matter.
-                    if let Ok(
-                        Lit::Bool(_) | Lit::Byte(_) | Lit::Char(_) | Lit::Float(_) | Lit::Int(_),
-                    ) = syn::parse2::<Lit>(e.clone())
-                    {
+                    // NB: An unsuffixed integer is typed `i32` there, regardless of the
+                    // argument type, thus one out of its range must not be passed directly.
+                    let is_direct = match syn::parse2::<Lit>(e.clone()) {
+                        Ok(Lit::Bool(_) | Lit::Byte(_) | Lit::Char(_) | Lit::Float(_)) => true,
+                        Ok(Lit::Int(i)) => {
+                            !i.suffix().is_empty() || i.base10_parse::<i32>().is_ok()
+                        }
+                        _ => false,
+                    };
+                    if is_direct {
                         e
                     } else {
                         &quote_spanned! {e.span()=>
-- 
2.43.0


From 9066daa158af28df50b65b51c716f960a69db495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:00 +0000
Subject: [PATCH 08/19] fix: reject subcommands of the same name

The later ones could never be reached.
---
 derive/src/derive_subcommand.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/derive/src/derive_subcommand.rs b/derive/src/derive_subcommand.rs
index f99941d..57365df 100644
--- a/derive/src/derive_subcommand.rs
+++ b/derive/src/derive_subcommand.rs
@@ -122,7 +122,16 @@ fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandIm
     let mut name_map = (0..variants.len()).collect::<Vec<_>>();
     name_map
         .sort_unstable_by(|&lhs, &rhs| Ord::cmp(&variants[lhs].arg_str, &variants[rhs].arg_str));
-    // FIXME: Duplication check.
+    if let Some(w) = name_map.windows(2).find(|w| variants[w[0]].arg_str == variants[w[1]].arg_str)
+    {
+        let (first, second) = (w[0].min(w[1]), w[0].max(w[1]));
+        emit_error!(
+            variants[first].ident,
+            "duplicated subcommand names {:?}",
+            variants[first].arg_str,
+        );
+        emit_error!(variants[second].ident, "second variant here");
+    }
 
     SubcommandImpl { enum_name, variants, name_map }
 }
-- 
2.43.0


From 37c63e748d601e874379d3613937268f3b278361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:00 +0000
Subject: [PATCH 09/19] fix: point at use_value_delimiter when it is misplaced

The error was reported at the whole derive.
---
 derive/src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/common.rs b/derive/src/common.rs
index deed619..3fed77a 100644
--- a/derive/src/common.rs
+++ b/derive/src/common.rs
@@ -205,7 +205,7 @@ impl ArgMeta {
             if !lit.value {
                 emit_error!(lit, "only `true` is supported here");
             }
-            self.value_delimiter.set_once(span, syn::LitChar::new(',', Span::call_site()));
+            self.value_delimiter.set_once(span, syn::LitChar::new(',', span));
         } else if path.is_ident("value_delimiter") {
             self.value_delimiter.set_once(span, meta.value()?.parse::<syn::LitChar>()?);
         } else if path.is_ident("value_enum") {
-- 
2.43.0


From 4b3c0f5cc483e632f0622f59adfea70dea6e034a Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:18:34 +0000
Subject: [PATCH 10/19] fix: keep the names of fields out of the expressions of
 a definition

---
 derive/src/common.rs      | 17 ++++++++++++++++-
 derive/src/derive_args.rs | 30 +++++++++++++++---------------
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/derive/src/common.rs b/derive/src/common.rs
index 3fed77a..e5e212f 100644
--- a/derive/src/common.rs
+++ b/derive/src/common.rs
@@ -508,7 +508,22 @@ impl Parse for FieldIdent {
 
 impl ToTokens for FieldIdent {
     fn to_tokens(&self, tokens: &mut TokenStream) {
-        self.0.to_tokens(tokens);
+        LocalIdent(&self.0).to_tokens(tokens);
+    }
+}
+
+/// The state variable of a field in the generated code.
+///
+/// It is named after the field but invisible to user expressions, where the same name
+/// may refer to something else, eg. `#[arg(default_value_t = port())] port: u16`.
+#[derive(Clone, Copy)]
+pub struct LocalIdent<'i>(pub &'i Ident);
+
+impl ToTokens for LocalIdent<'_> {
+    fn to_tokens(&self, tokens: &mut TokenStream) {
+        let mut ident = self.0.clone();
+        ident.set_span(ident.span().resolved_at(Span::mixed_site()));
+        ident.to_tokens(tokens);
     }
 }
 
diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 705df21..d9c2061 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -7,8 +7,8 @@ use syn::spanned::Spanned;
 use syn::{Data, DeriveInput, Fields, FieldsNamed, Ident, Lit, LitChar, LitStr};
 
 use crate::common::{
-    ArgOrCommand, ArgsCommandMeta, CommandMeta, Doc, FieldIdent, Override, TY_BOOL, TY_OPTION,
-    TY_VEC, strip_ty_ctor, wrap_anon_item,
+    ArgOrCommand, ArgsCommandMeta, CommandMeta, Doc, FieldIdent, LocalIdent, Override, TY_BOOL,
+    TY_OPTION, TY_VEC, strip_ty_ctor, wrap_anon_item,
 };
 use crate::error::{Result, catch_errors};
 use crate::shared::ArgAttrs;
@@ -118,7 +118,7 @@ impl ArgsParse<'_> {
 
 struct FieldInfo<'i> {
     // Basics //
-    ident: &'i Ident,
+    ident: LocalIdent<'i>,
     kind: MagicKind,
     /// The type used for parser inference, with `Option`/`Vec` stripped.
     value_ty: &'i syn::Type,
@@ -244,14 +244,14 @@ impl MagicKind {
 
 #[derive(Clone, Copy)]
 struct SubcommandInfo<'i> {
-    ident: &'i Ident,
+    ident: LocalIdent<'i>,
     ty: &'i syn::Type,
     optional: bool,
 }
 
 #[derive(Clone, Copy)]
 struct FlattenFieldInfo<'i> {
-    ident: &'i Ident,
+    ident: LocalIdent<'i>,
     ty: &'i syn::Type,
 }
 
@@ -319,14 +319,14 @@ pub fn expand_args_parse<'i>(
                 };
                 if let Some(prev) = &subcommand {
                     emit_error!(ident, "duplicated subcommand");
-                    emit_error!(prev.ident, "previously defined here");
+                    emit_error!(prev.ident.0, "previously defined here");
                 } else {
-                    subcommand = Some(SubcommandInfo { ident, ty, optional });
+                    subcommand = Some(SubcommandInfo { ident: LocalIdent(ident), ty, optional });
                 }
                 continue;
             }
             ArgOrCommand::Command(ArgsCommandMeta::Flatten) => {
-                flatten_fields.push(FlattenFieldInfo { ident, ty: &field.ty });
+                flatten_fields.push(FlattenFieldInfo { ident: LocalIdent(ident), ty: &field.ty });
                 continue;
             }
         };
@@ -477,7 +477,7 @@ pub fn expand_args_parse<'i>(
             };
 
             named_fields.push(FieldInfo {
-                ident,
+                ident: LocalIdent(ident),
                 kind,
                 value_ty,
                 enc_names,
@@ -529,7 +529,7 @@ pub fn expand_args_parse<'i>(
             attrs.set(ArgAttrs::GREEDY, arg.trailing_var_arg | arg.last);
 
             let info = FieldInfo {
-                ident,
+                ident: LocalIdent(ident),
                 kind,
                 value_ty,
                 enc_names: Vec::new(),
@@ -555,13 +555,13 @@ pub fn expand_args_parse<'i>(
 
                 if let Some(prev) = last_field.replace(info) {
                     emit_error!(ident, "duplicated arg(last)");
-                    emit_error!(prev.ident, "previously defined here");
+                    emit_error!(prev.ident.0, "previously defined here");
                 }
             } else if is_variable_num {
                 // Variable length positional argument.
                 if let Some(prev) = var_arg_field.replace(info) {
                     emit_error!(ident, "duplicated variable-length arguments");
-                    emit_error!(prev.ident, "previously defined here");
+                    emit_error!(prev.ident.0, "previously defined here");
                 }
             } else {
                 // Single positional argument.
@@ -571,7 +571,7 @@ pub fn expand_args_parse<'i>(
                         ident,
                         "cannot have more positional arguments after a variable-length positional argument"
                     );
-                    emit_error!(prev.ident, "previous variable-length argument");
+                    emit_error!(prev.ident.0, "previous variable-length argument");
                 } else {
                     positional_fields.push(info);
                 }
@@ -596,7 +596,7 @@ pub fn expand_args_parse<'i>(
     // Resolve field references for constraints.
     let ident_idx_map = direct_fields
         .iter()
-        .map(|f| (f.ident.to_string(), f.attrs.get_index()))
+        .map(|f| (f.ident.0.to_string(), f.attrs.get_index()))
         .collect::<HashMap<String, u8>>();
     let resolve_field_refs = |idents: &[FieldIdent]| -> Option<Vec<u8>> {
         if idents.is_empty() {
@@ -625,7 +625,7 @@ pub fn expand_args_parse<'i>(
         && let Some(f) = direct_fields.iter().find(|f| f.exclusive)
     {
         emit_error!(
-            f.ident,
+            f.ident.0,
             "TODO: arg(exclusive) is not supported on struct containing arg(flatten) yet",
         );
     }
-- 
2.43.0


From 8f818d37571fdef5f3f2eebf1c02df9ca5383fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:00 +0000
Subject: [PATCH 11/19] fix: do not shadow a type called Help of the user

---
 derive/src/derive_args.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index d9c2061..c2206af 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -1001,8 +1001,8 @@ impl ToTokens for HelpDisplay<'_> {
         }
 
         tokens.extend(quote! {{
-            struct Help;
-            impl __rt::fmt::Display for Help {
+            struct __Help;
+            impl __rt::fmt::Display for __Help {
                 fn fmt(&self, __f: &mut __rt::fmt::Formatter<'_>) -> __rt::fmt::Result {
                     // There can be a lot of default values. Put this here rather than inlining below.
                     use __rt::InferDisplayDefaultValue as _;
@@ -1017,7 +1017,7 @@ impl ToTokens for HelpDisplay<'_> {
                     }
                 }
             }
-            &Help
+            &__Help
         }});
     }
 }
-- 
2.43.0


From 272887e7549515400117343b060efc4902e8b80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:29 +0000
Subject: [PATCH 12/19] fix: parse the default_value of flags instead of
 panicking

---
 src/runtime.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/runtime.rs b/src/runtime.rs
index 2ced58f..016dca5 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -365,6 +365,13 @@ impl Parsable for FlagPlace {
             self.0 = Some(f());
         }
     }
+
+    // A flag takes no value, so a default string cannot go through `parse_from`.
+    extern "C" fn set_default_parse(&mut self, default: &str) {
+        if !self.is_set() {
+            self.0 = Some(default.parse().expect("invalid default value"));
+        }
+    }
 }
 
 /// A multi-occurring named argument or a variable length positional argument,
-- 
2.43.0


From 4d016f2461b0c0275e8b2883d941829c692b920d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:29 +0000
Subject: [PATCH 13/19] fix: reject bool as a positional argument

---
 derive/src/derive_args.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index c2206af..f0c4520 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -503,6 +503,12 @@ pub fn expand_args_parse<'i>(
                     "arg(require_equals, global, ignore_case) only support named arguments"
                 );
             }
+            if kind == MagicKind::Bool {
+                emit_error!(
+                    ident,
+                    "`bool` only supports named arguments, did you mean `arg(long)` or `arg(short)`?",
+                );
+            }
             if arg.default_value_t.is_some() {
                 emit_error!(ident, "TODO: arg(default_value_t) supports named arguments yet");
             }
-- 
2.43.0


From 697db03a498a3f8e55fd589da957dbeda576c3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:29 +0000
Subject: [PATCH 14/19] fix: reject aliases on positional arguments

---
 derive/src/derive_args.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index f0c4520..a1b27c7 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -509,6 +509,12 @@ pub fn expand_args_parse<'i>(
                     "`bool` only supports named arguments, did you mean `arg(long)` or `arg(short)`?",
                 );
             }
+            if !arg.alias.is_empty() || !arg.short_alias.is_empty() {
+                emit_error!(
+                    ident,
+                    "arg(alias, short_alias) require `arg(long)` or `arg(short)` to be set"
+                );
+            }
             if arg.default_value_t.is_some() {
                 emit_error!(ident, "TODO: arg(default_value_t) supports named arguments yet");
             }
-- 
2.43.0


From 2700e6c94037b2467ea3c1a084e9ae11237a3de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:12 +0000
Subject: [PATCH 15/19] fix: let Self in the expressions of a definition mean
 the type deriving

---
 derive/src/common.rs            | 20 +++++++++++++++++++-
 derive/src/derive_args.rs       |  4 ++--
 derive/src/derive_subcommand.rs |  4 ++--
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/derive/src/common.rs b/derive/src/common.rs
index e5e212f..e9f4155 100644
--- a/derive/src/common.rs
+++ b/derive/src/common.rs
@@ -1,6 +1,6 @@
 use std::ops;
 
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
 use quote::{ToTokens, quote};
 use syn::meta::ParseNestedMeta;
 use syn::parse::{Parse, ParseStream};
@@ -239,6 +239,24 @@ impl ArgMeta {
     }
 }
 
+/// Replace `Self` in user tokens by the name of the type deriving, which is never generic.
+///
+/// This is for tokens that are placed outside of its `impl`s.
+pub fn resolve_self(tts: TokenStream, name: &Ident) -> TokenStream {
+    tts.into_iter()
+        .map(|tt| match tt {
+            TokenTree::Ident(ident) if ident == "Self" => TokenTree::Ident(name.clone()),
+            TokenTree::Group(group) => {
+                let mut resolved =
+                    Group::new(group.delimiter(), resolve_self(group.stream(), name));
+                resolved.set_span(group.span());
+                TokenTree::Group(resolved)
+            }
+            tt => tt,
+        })
+        .collect()
+}
+
 /// The inner `command(..)` on fields of `derive(Parser, Args, Subcommand)`.
 pub enum ArgsCommandMeta {
     Subcommand,
diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index a1b27c7..3b0f3a1 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -8,7 +8,7 @@ use syn::{Data, DeriveInput, Fields, FieldsNamed, Ident, Lit, LitChar, LitStr};
 
 use crate::common::{
     ArgOrCommand, ArgsCommandMeta, CommandMeta, Doc, FieldIdent, LocalIdent, Override, TY_BOOL,
-    TY_OPTION, TY_VEC, strip_ty_ctor, wrap_anon_item,
+    TY_OPTION, TY_VEC, resolve_self, strip_ty_ctor, wrap_anon_item,
 };
 use crate::error::{Result, catch_errors};
 use crate::shared::ArgAttrs;
@@ -61,7 +61,7 @@ pub fn try_expand_for_named_struct(
     let cmd_meta = CommandMeta::parse_attrs_opt(&input.attrs);
     let struct_name = input.ident.to_token_stream();
     let parse = expand_args_parse(cmd_meta.as_deref(), struct_name, fields)?;
-    let args_info = parse.args_info();
+    let args_info = resolve_self(parse.args_info().to_token_stream(), ident);
     let has_subcmd = parse.subcommand.is_some();
 
     Ok(quote! {
diff --git a/derive/src/derive_subcommand.rs b/derive/src/derive_subcommand.rs
index 57365df..2527fa7 100644
--- a/derive/src/derive_subcommand.rs
+++ b/derive/src/derive_subcommand.rs
@@ -3,7 +3,7 @@ use quote::{ToTokens, quote};
 use syn::ext::IdentExt;
 use syn::{Data, DataEnum, DeriveInput, Ident, Type};
 
-use crate::common::{CommandMeta, wrap_anon_item};
+use crate::common::{CommandMeta, resolve_self, wrap_anon_item};
 use crate::derive_args::HelpDisplay;
 use crate::error::catch_errors;
 
@@ -145,7 +145,7 @@ impl ToTokens for SubcommandImpl<'_> {
 
         let subcmds = variants.iter().flat_map(|v| [&*v.arg_str, "\0"]).collect::<String>();
 
-        let variant_infos = variants.iter().map(|v| &v.args_info);
+        let variant_infos = variants.iter().map(|v| resolve_self(v.args_info.clone(), enum_name));
 
         let idxs = 0..variants.len();
         let bodies =
-- 
2.43.0


From fc632cd0125f1d3b5fe4396534256a991b1e0a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:51 +0000
Subject: [PATCH 16/19] fix: do not call a macro called env of the user

A bare `long_about` expanded to an unqualified `env!`, so a macro of
that name in the scope of the definition replaced the description.
---
 derive/src/derive_args.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 3b0f3a1..640bb04 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -997,7 +997,7 @@ impl ToTokens for HelpDisplay<'_> {
         if let Some(meta) = self.cmd_meta {
             let long_about: &dyn ToTokens = match &meta.long_about {
                 Some(Override::Explicit(e)) => e,
-                Some(Override::Inherit) => &quote! { env!("CARGO_PKG_DESCRIPTION") },
+                Some(Override::Inherit) => &quote! { __rt::env!("CARGO_PKG_DESCRIPTION") },
                 None => &meta.doc,
             };
             push_arm(4, &quote! { __rt::format_args!("{}", #long_about) });
-- 
2.43.0


From 5b434ae20c0dcfaeba2684e55658fd9bc2b7f7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:58 +0000
Subject: [PATCH 17/19] fix: do not take a type called u8 of the user for the
 integer

The number of given arguments, counted for `exclusive`, was cast to an
unqualified `u8`.
---
 derive/src/derive_args.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 640bb04..b858b8b 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -762,9 +762,9 @@ impl ToTokens for ValidateFinish<'_> {
             let subcmd_is_set = def
                 .subcommand
                 .as_ref()
-                .map(|SubcommandInfo { ident, .. }| quote! { + #ident.is_some() as u8 });
+                .map(|SubcommandInfo { ident, .. }| quote! { + #ident.is_some() as __rt::u8 });
             tokens.extend(quote! {
-                let __total_args = #((#direct_idents.0.is_some() as u8))+* #subcmd_is_set;
+                let __total_args = #((#direct_idents.0.is_some() as __rt::u8))+* #subcmd_is_set;
             });
         }
 
-- 
2.43.0


From b743fc973876137593c9b0f1b6f52c31bd9a4141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:19 +0000
Subject: [PATCH 18/19] fix: see through the invisible group of a $ty:ty

A type substituted by `macro_rules!` is wrapped in a group without
delimiters, so `Option<T>` and `Vec<T>` were rejected and `bool`
silently became an argument taking a value.
---
 derive/src/common.rs      | 10 +++++++++-
 derive/src/derive_args.rs |  4 ++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/derive/src/common.rs b/derive/src/common.rs
index e9f4155..c364988 100644
--- a/derive/src/common.rs
+++ b/derive/src/common.rs
@@ -20,7 +20,7 @@ pub const TY_VEC: &str = "Vec";
 /// This is matched literally and does NOT try to be smart, i.e.
 /// it does not recognize absolute paths or unwrap parenthesis.
 pub fn strip_ty_ctor<'i>(ty: &'i Type, ty_ctor: &str) -> Option<&'i Type> {
-    if let Type::Path(syn::TypePath { qself: None, path }) = ty
+    if let Type::Path(syn::TypePath { qself: None, path }) = strip_ty_group(ty)
         && path.leading_colon.is_none()
         && path.segments.len() == 1
     {
@@ -36,6 +36,14 @@ pub fn strip_ty_ctor<'i>(ty: &'i Type, ty_ctor: &str) -> Option<&'i Type> {
     None
 }
 
+/// Unwrap the invisible groups around a type which comes from a `$ty:ty` of `macro_rules!`.
+pub fn strip_ty_group(mut ty: &Type) -> &Type {
+    while let Type::Group(group) = ty {
+        ty = &group.elem;
+    }
+    ty
+}
+
 pub fn wrap_anon_item(tts: impl ToTokens) -> TokenStream {
     quote! {
         const _: () = {
diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index b858b8b..dc026ff 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -8,7 +8,7 @@ use syn::{Data, DeriveInput, Fields, FieldsNamed, Ident, Lit, LitChar, LitStr};
 
 use crate::common::{
     ArgOrCommand, ArgsCommandMeta, CommandMeta, Doc, FieldIdent, LocalIdent, Override, TY_BOOL,
-    TY_OPTION, TY_VEC, resolve_self, strip_ty_ctor, wrap_anon_item,
+    TY_OPTION, TY_VEC, resolve_self, strip_ty_ctor, strip_ty_group, wrap_anon_item,
 };
 use crate::error::{Result, catch_errors};
 use crate::shared::ArgAttrs;
@@ -207,7 +207,7 @@ enum MagicKind {
 
 impl MagicKind {
     fn classify(ty: &syn::Type) -> (Self, &syn::Type) {
-        let syn::Type::Path(syn::TypePath { qself: None, path }) = ty else {
+        let syn::Type::Path(syn::TypePath { qself: None, path }) = strip_ty_group(ty) else {
             return (MagicKind::Value, ty);
         };
         if path.is_ident(TY_BOOL) {
-- 
2.43.0


From 794c1f9bfc85a59616335cf10c91af795eae9c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:44 +0000
Subject: [PATCH 19/19] fix: debug form of an error panics if the conversion's
 error fails to render

---
 src/error.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index a68e7ba..5dec02d 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -78,7 +78,10 @@ impl std::error::Error for Error {
 
 impl fmt::Debug for Error {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        f.debug_struct("Error").field("message", &self.to_string()).finish_non_exhaustive()
+        // Not `to_string`, which panics if the source error fails to render.
+        let mut message = String::new();
+        write!(message, "{self}")?;
+        f.debug_struct("Error").field("message", &message).finish_non_exhaustive()
     }
 }
 
-- 
2.43.0

