From 8943dee2eb26af769b974c5178aac6e259b9c28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 1/7] fix: derive of layout types no longer takes exponential
 time in the field count

Each padding function called all of the ones before it, so evaluating the
padding of a struct with n fields took 2^n steps. Structs with 20 or more
fields failed to compile (long_running_const_eval). Constants are evaluated
once.
---
 crevice-derive/src/layout.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index 343d2ba..cfa06ea 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -58,14 +58,14 @@ pub fn emit(
         ])
     };
 
-    // Generate names for each padding calculation function.
+    // Generate names for each padding constant.
     let pad_fns: Vec<_> = (0..fields.len())
         .map(|index| format_ident!("_{}__{}Pad{}", input_name, trait_name, index))
         .collect();
 
     // Computes the offset immediately AFTER the field with the given index.
     //
-    // This function depends on the generated padding calculation functions to
+    // This function depends on the generated padding constants to
     // do correct alignment. Be careful not to cause recursion!
     let offset_after_field = |target: usize| {
         let mut output = vec![quote!(0usize)];
@@ -84,7 +84,7 @@ pub fn emit(
             if index < target {
                 let pad_fn = &pad_fns[index];
                 output.push(quote! {
-                    + #pad_fn()
+                    + #pad_fn
                 });
             }
         }
@@ -106,8 +106,12 @@ pub fn emit(
             quote! {
                 /// Tells how many bytes of padding have to be inserted after
                 /// the field with index #index.
-                #[allow(non_snake_case)]
-                const fn #pad_fn() -> usize {
+                ///
+                /// This is a constant rather than a function so that it is
+                /// only evaluated once. Each one refers to all of the ones
+                /// before it.
+                #[allow(non_upper_case_globals)]
+                const #pad_fn: usize = {
                     // First up, calculate our offset into the struct so far.
                     // We'll use this value to figure out how far out of
                     // alignment we are.
@@ -120,7 +124,7 @@ pub fn emit(
 
                     // Using everything we've got, compute our padding amount.
                     ::crevice::internal::align_offset(starting_offset, alignment)
-                }
+                };
             }
         })
         .collect();
@@ -136,7 +140,7 @@ pub fn emit(
 
             quote! {
                 #field_name: #field_ty,
-                #pad_field_name: [u8; #pad_fn()],
+                #pad_field_name: [u8; #pad_fn],
             }
         })
         .collect();
-- 
2.43.0


From 8a7a8a161d2192c75da0818f38bec1ab20f8b60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 2/7] fix: GlslStruct derive emits raw identifiers without r#

A field such as r#type produced 'float r#type;', which is not GLSL.
---
 crevice-derive/src/glsl.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crevice-derive/src/glsl.rs b/crevice-derive/src/glsl.rs
index e6b7a3c..78b7924 100644
--- a/crevice-derive/src/glsl.rs
+++ b/crevice-derive/src/glsl.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{Literal, TokenStream};
 use quote::quote;
+use syn::ext::IdentExt;
 use syn::{parse_quote, Data, DeriveInput, Fields, Path};
 
 pub fn emit(input: DeriveInput) -> TokenStream {
@@ -16,13 +17,13 @@ pub fn emit(input: DeriveInput) -> TokenStream {
     let struct_trait_path: Path = parse_quote!(::crevice::glsl::GlslStruct);
 
     let name = input.ident;
-    let name_str = Literal::string(&name.to_string());
+    let name_str = Literal::string(&name.unraw().to_string());
 
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
     let glsl_fields = fields.named.iter().map(|field| {
         let field_ty = &field.ty;
-        let field_name_str = Literal::string(&field.ident.as_ref().unwrap().to_string());
+        let field_name_str = Literal::string(&field.ident.as_ref().unwrap().unraw().to_string());
 
         quote! {
             ::crevice::glsl::GlslField {
-- 
2.43.0


From a08d7fc3a10b8dcb015e7fa864107fcc93bfd26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 3/7] fix: implement Glsl for bool

Glsl is documented to be implemented by all GLSL primitives. bool had a std140
and std430 form but no GLSL name, so GlslStruct could not be derived for a
struct with a bool field.
---
 src/glsl.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/glsl.rs b/src/glsl.rs
index 2d595b3..b63182d 100644
--- a/src/glsl.rs
+++ b/src/glsl.rs
@@ -97,3 +97,11 @@ unsafe impl Glsl for i32 {
 unsafe impl Glsl for u32 {
     const NAME: &'static str = "uint";
 }
+
+unsafe impl Glsl for bool {
+    const NAME: &'static str = "bool";
+}
+
+unsafe impl Glsl for crate::bool::Bool {
+    const NAME: &'static str = "bool";
+}
-- 
2.43.0


From 8110889d952b42fea9574426270a79e1477bc3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 4/7] fix: std430 derive gives an empty struct alignment 1
 instead of 0

ALIGNMENT is documented to be a power of two.
---
 crevice-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crevice-derive/src/lib.rs b/crevice-derive/src/lib.rs
index ab1012a..6e78943 100644
--- a/crevice-derive/src/lib.rs
+++ b/crevice-derive/src/lib.rs
@@ -16,7 +16,7 @@ pub fn derive_as_std140(input: CompilerTokenStream) -> CompilerTokenStream {
 #[proc_macro_derive(AsStd430)]
 pub fn derive_as_std430(input: CompilerTokenStream) -> CompilerTokenStream {
     let input = parse_macro_input!(input as DeriveInput);
-    let expanded = layout::emit(input, "Std430", "std430", 0);
+    let expanded = layout::emit(input, "Std430", "std430", 1);
 
     CompilerTokenStream::from(expanded)
 }
-- 
2.43.0


From e5eda81cf4410b9ecb8047fcee50395ef9f40737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 5/7] fix: layout derives accept fields named like the padding
 they generate

---
 crevice-derive/src/layout.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index cfa06ea..ec2da24 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -63,6 +63,20 @@ pub fn emit(
         .map(|index| format_ident!("_{}__{}Pad{}", input_name, trait_name, index))
         .collect();
 
+    // Generate names for each padding field, keeping clear of the names of the
+    // struct's own fields.
+    let pad_field_names: Vec<_> = (0..fields.len())
+        .map(|index| {
+            let mut name = format_ident!("_pad{}", index);
+
+            while fields.iter().any(|field| field.ident.as_ref() == Some(&name)) {
+                name = format_ident!("_{}", name);
+            }
+
+            name
+        })
+        .collect();
+
     // Computes the offset immediately AFTER the field with the given index.
     //
     // This function depends on the generated padding constants to
@@ -135,7 +149,7 @@ pub fn emit(
         .map(|(index, field)| {
             let field_name = field.ident.as_ref().unwrap();
             let field_ty = layout_version_of_ty(&field.ty);
-            let pad_field_name = format_ident!("_pad{}", index);
+            let pad_field_name = &pad_field_names[index];
             let pad_fn = &pad_fns[index];
 
             quote! {
-- 
2.43.0


From 3b6d1366a0da26ccdc92c6122f226dba9a85542d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 6/7] fix: structs with a DynamicUniform field can derive
 AsStd140

---
 src/std140/dynamic_uniform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std140/dynamic_uniform.rs b/src/std140/dynamic_uniform.rs
index 0fe3fda..310c2f1 100644
--- a/src/std140/dynamic_uniform.rs
+++ b/src/std140/dynamic_uniform.rs
@@ -22,7 +22,7 @@ impl<T: AsStd140> AsStd140 for DynamicUniform<T> {
 }
 
 /// std140 variant of [`DynamicUniform`].
-#[derive(Clone, Copy)]
+#[derive(Debug, Clone, Copy)]
 #[repr(transparent)]
 pub struct DynamicUniformStd140<T>(T);
 
-- 
2.43.0


From 4c3b3309151fa36004bc254bdc53f5344dcae0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:35 +0000
Subject: [PATCH 7/7] fix: let debug-methods derive for structs without fields

The list of fields in debug_metrics had no type to infer when empty, so
crevice-derive's debug-methods feature broke layout derives of empty structs.
---
 crevice-derive/src/layout.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index ec2da24..9f74ab1 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -223,7 +223,7 @@ pub fn emit(
                         offset: usize,
                         size: usize,
                     }
-                    let mut fields = Vec::new();
+                    let mut fields: Vec<Field> = Vec::new();
 
                     #debug_fields
 
-- 
2.43.0

