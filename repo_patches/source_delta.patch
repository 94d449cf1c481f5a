From 7ac0a57fffd419498525bde4e33162fc615f70ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:02 +0000
Subject: [PATCH 01/29] fix: escape every reserved word used as a generated
 identifier

'break' was misspelt, the path keywords (self, Self, super, crate) panicked
because they cannot be raw identifiers, reserved words such as 'box' or 'yield'
were not escaped, and enum and choice variants were not escaped at all.
---
 xsd-internal/src/ast/leaf.rs |  6 +++---
 xsd-internal/src/ast/root.rs | 21 +++++++++++----------
 xsd-internal/src/utils.rs    | 10 +++++++---
 3 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index c565ff9..c388ad3 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -4,7 +4,7 @@ use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 use inflector::Inflector;
 use proc_macro2::TokenStream;
-use quote::{format_ident, quote, TokenStreamExt};
+use quote::{quote, TokenStreamExt};
 
 #[derive(Debug, Clone)]
 pub struct Leaf {
@@ -155,7 +155,7 @@ impl Leaf {
                     unreachable!()
                 };
 
-                let first_name = format_ident!("{}", name.name.to_pascal_case());
+                let first_name = escape_ident(&name.name.to_pascal_case());
                 value = quote! {
                     {
                         let mut vec = Vec::new();
@@ -185,7 +185,7 @@ impl Leaf {
                     unreachable!()
                 };
 
-                let first_name = format_ident!("{}", name.name.to_pascal_case());
+                let first_name = escape_ident(&name.name.to_pascal_case());
                 value = quote! {
                     if #first_name::lookahead(node) {
                         Some(#value)
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 3b4944b..b46b434 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -1,11 +1,12 @@
 use std::collections::HashMap;
 
+use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 
 use super::{ElementContent, ElementDefinition, Leaf, LeafContent, LeafDefinition, Name};
 use inflector::Inflector;
 use proc_macro2::TokenStream;
-use quote::{format_ident, quote, TokenStreamExt};
+use quote::{quote, TokenStreamExt};
 use syn::Ident;
 
 #[derive(Debug, Clone)]
@@ -84,17 +85,17 @@ impl Root {
             }
             Root::Enum(names) => {
                 let names = escape_enum_names(names.clone());
-                let variants = names.keys().map(|k| format_ident!("{}", k));
+                let variants = names.keys().map(|k| escape_ident(k));
                 let from_str_variants = names.iter().map(|(variant, name)| {
                     let name_xml = &name.name;
-                    let variant = format_ident!("{}", variant);
+                    let variant = escape_ident(variant);
                     quote! {
                         #name_xml => #root_name::#variant
                     }
                 });
                 let as_str_variants = names.iter().map(|(variant, name)| {
                     let name_xml = &name.name;
-                    let variant = format_ident!("{}", variant);
+                    let variant = escape_ident(variant);
                     quote! {
                         #root_name::#variant => #name_xml
                     }
@@ -144,7 +145,7 @@ impl Root {
             Root::Choice(ChoiceDefinition { variants, .. }) => {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
-                    let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
+                    let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let mut type_ident = variant.definition.to_impl(ctx);
                     if variant.is_vec() {
                         type_ident = quote! { Vec<#type_ident> }
@@ -206,7 +207,7 @@ impl Root {
             }) => {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
-                    let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
+                    let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let name_xml = &variant.name.name;
                     let inner = variant.definition.to_xml_impl(ctx);
                     let is_literal = matches!(variant.definition.content, LeafContent::Literal(_));
@@ -282,13 +283,13 @@ impl Root {
             Root::Choice(ChoiceDefinition { variants, .. }) => {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
-                    let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
+                    let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let inner = variant.definition.from_xml_impl(ctx);
                     let name_xml = &variant.name.name;
                     let namespace_xml = ctx.quote_xml_namespace(&variant.name);
                     if variant.is_virtual {
                         if let LeafContent::Named(name) = &variant.definition.content {
-                            let first_name = format_ident!("{}", name.name.to_pascal_case());
+                            let first_name = escape_ident(&name.name.to_pascal_case());
                             quote! {
                                 if #first_name::lookahead(node) {
                                     Self::#variant_name(#inner)
@@ -365,7 +366,7 @@ impl Root {
                                 // TODO: reflect that in the type?
                                 unreachable!()
                             };
-                            let name = format_ident!("{}", name.name.to_pascal_case());
+                            let name = escape_ident(&name.name.to_pascal_case());
                             Some(quote! {
                                 #name::lookahead(node)
                             })
@@ -397,7 +398,7 @@ impl Root {
                             // TODO: reflect that in the type?
                             unreachable!()
                         };
-                        let name = format_ident!("{}", name.name.to_pascal_case());
+                        let name = escape_ident(&name.name.to_pascal_case());
                         quote! {
                             #name::lookahead(node)
                         }
diff --git a/xsd-internal/src/utils.rs b/xsd-internal/src/utils.rs
index 656910f..954089e 100644
--- a/xsd-internal/src/utils.rs
+++ b/xsd-internal/src/utils.rs
@@ -2,10 +2,14 @@ use quote::format_ident;
 
 pub fn escape_ident(name: &str) -> syn::Ident {
     match name {
-        " break" | "const" | "continue" | "crate" | "else" | "enum" | "extern" | "false" | "fn"
+        // path keywords cannot be raw identifiers
+        "crate" | "self" | "Self" | "super" => format_ident!("{}_", name),
+        "as" | "break" | "const" | "continue" | "else" | "enum" | "extern" | "false" | "fn"
         | "for" | "if" | "impl" | "in" | "let" | "loop" | "match" | "mod" | "move" | "mut"
-        | "pub" | "ref" | "return" | "self" | "Self" | "static" | "struct" | "super" | "trait"
-        | "true" | "type" | "unsafe" | "use" | "where" | "while" | "async" | "await" | "dyn" => {
+        | "pub" | "ref" | "return" | "static" | "struct" | "trait" | "true" | "type" | "unsafe"
+        | "use" | "where" | "while" | "async" | "await" | "dyn" | "abstract" | "become" | "box"
+        | "do" | "final" | "gen" | "macro" | "override" | "priv" | "try" | "typeof" | "unsized"
+        | "virtual" | "yield" => {
             format_ident!("r#{}", name)
         }
         _ => format_ident!("{}", name),
-- 
2.43.0


From 08c25bc33479015de82f72ddbe129b3c6a95a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:02 +0000
Subject: [PATCH 02/29] fix: do not panic on names that start with a non-ASCII
 character

---
 xsd-internal/src/xsd/parse/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/mod.rs b/xsd-internal/src/xsd/parse/mod.rs
index 694107a..eecb47b 100644
--- a/xsd-internal/src/xsd/parse/mod.rs
+++ b/xsd-internal/src/xsd/parse/mod.rs
@@ -47,9 +47,10 @@ where
 
     let mut virtual_name = String::new();
     for name in names.into_iter() {
-        if !name.name.is_empty() {
-            virtual_name += name.name[0..1].to_ascii_uppercase().as_str();
-            virtual_name += &name.name[1..];
+        let mut chars = name.name.chars();
+        if let Some(first) = chars.next() {
+            virtual_name.push(first.to_ascii_uppercase());
+            virtual_name += chars.as_str();
         }
     }
 
-- 
2.43.0


From 08d62c8c3869a68c67f4e86876ae0bdf2fbb148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:02 +0000
Subject: [PATCH 03/29] fix: accept the optional elements of an xs:all in any
 order

---
 xsd-internal/src/ast/leaf.rs | 7 ++++++-
 xsd-internal/src/ast/root.rs | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index c388ad3..e691dde 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -219,8 +219,13 @@ impl Leaf {
 
                 from_vec
             } else if self.is_optional() {
+                let child = if self.is_unordered {
+                    quote!(child)
+                } else {
+                    quote!(next_child)
+                };
                 quote! {
-                    if let Some(node) = node.next_child(#name_xml, #namespace_xml) {
+                    if let Some(node) = node.#child(#name_xml, #namespace_xml) {
                         Some(#value)
                     } else {
                         None
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index b46b434..c189d41 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -356,7 +356,8 @@ impl Root {
                         if *prev_required {
                             return None;
                         }
-                        *prev_required = !leaf.is_optional();
+                        // any member of an `xs:all` may come first
+                        *prev_required = !leaf.is_optional() && !leaf.is_unordered;
 
                         if leaf.is_virtual {
                             let name = if let LeafContent::Named(name) = &leaf.definition.content {
-- 
2.43.0


From 11e9344f7dcf5c961fd9beee605da733f5460940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:21 +0000
Subject: [PATCH 04/29] fix: decode attributes whose named simple type is not
 string-based

The field has the underlying literal type, but its parse error was not
converted, so that the generated code did not compile.
---
 xsd-internal/src/ast/attribute.rs          | 4 ++--
 xsd-internal/src/ast/element_definition.rs | 2 +-
 xsd-internal/src/ast/leaf_content.rs       | 7 +++++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/xsd-internal/src/ast/attribute.rs b/xsd-internal/src/ast/attribute.rs
index 8b03c06..eb1b58a 100644
--- a/xsd-internal/src/ast/attribute.rs
+++ b/xsd-internal/src/ast/attribute.rs
@@ -59,10 +59,10 @@ impl Attribute {
         }
     }
 
-    pub fn from_xml_impl(&self) -> TokenStream {
+    pub fn from_xml_impl(&self, ctx: &SchemaContext) -> TokenStream {
         let name_ident = escape_ident(&self.name.name.to_snake_case());
         let name_xml = &self.name.name;
-        let inner = self.content.from_str_impl();
+        let inner = self.content.from_str_impl(ctx);
 
         if self.is_optional {
             quote! {
diff --git a/xsd-internal/src/ast/element_definition.rs b/xsd-internal/src/ast/element_definition.rs
index 8504397..9db6f6a 100644
--- a/xsd-internal/src/ast/element_definition.rs
+++ b/xsd-internal/src/ast/element_definition.rs
@@ -70,7 +70,7 @@ impl ElementDefinition {
             ts.append_all(content.from_xml_impl(ctx));
         }
         for attr in &self.attributes {
-            ts.append_all(attr.from_xml_impl());
+            ts.append_all(attr.from_xml_impl(ctx));
         }
         quote! {
             {
diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index 1c2733a..9d9ddde 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -75,10 +75,13 @@ impl LeafContent {
         }
     }
 
-    pub fn from_str_impl(&self) -> TokenStream {
+    pub fn from_str_impl(&self, ctx: &SchemaContext) -> TokenStream {
         match self {
             LeafContent::Literal(literal) => literal.from_str_impl(),
-            LeafContent::Named(name) => name.from_str_impl(),
+            LeafContent::Named(name) => match ctx.elements.get(name) {
+                Some(Root::Leaf(def)) => def.content.from_str_impl(ctx),
+                _ => name.from_str_impl(),
+            },
             LeafContent::Fixed(_) => quote! { () },
         }
     }
-- 
2.43.0


From 2826194396b390a62fcb5d20fb217b66d396dc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:21 +0000
Subject: [PATCH 05/29] fix: reject attributes that differ from their fixed
 value

---
 xsd-internal/src/ast/leaf_content.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index 9d9ddde..81e5180 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -82,7 +82,16 @@ impl LeafContent {
                 Some(Root::Leaf(def)) => def.content.from_str_impl(ctx),
                 _ => name.from_str_impl(),
             },
-            LeafContent::Fixed(_) => quote! { () },
+            LeafContent::Fixed(fixed) => quote! {
+                {
+                    if val != #fixed {
+                        return Err(::xsd::decode::FromXmlError::FixedMismatch {
+                            expected: #fixed,
+                            received: val.to_string(),
+                        }.into());
+                    }
+                }
+            },
         }
     }
 }
-- 
2.43.0


From 269b2e2324db2a9493de14ce7bedbb74608aa58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:18 +0000
Subject: [PATCH 06/29] fix: write the element around text content of a named
 simple type

Elements, choice alternatives and simple-content extensions whose (resolved)
content is plain text lost their tags when the type was a named simple type,
or a reference to an element with a fixed value.
---
 xsd-internal/src/ast/element_definition.rs | 12 +++---------
 xsd-internal/src/ast/leaf.rs               | 18 +-----------------
 xsd-internal/src/ast/root.rs               | 12 ++----------
 xsd-internal/src/xsd/context.rs            | 15 +++++++++++++++
 4 files changed, 21 insertions(+), 36 deletions(-)

diff --git a/xsd-internal/src/ast/element_definition.rs b/xsd-internal/src/ast/element_definition.rs
index 9db6f6a..2d49c5a 100644
--- a/xsd-internal/src/ast/element_definition.rs
+++ b/xsd-internal/src/ast/element_definition.rs
@@ -1,4 +1,4 @@
-use crate::ast::{LeafContent, LeafDefinition};
+use crate::ast::LeafDefinition;
 use crate::xsd::context::SchemaContext;
 
 use super::{Attribute, ElementContent};
@@ -42,14 +42,8 @@ impl ElementDefinition {
         // let the base element (<xs:extension base="" />) do the wrapping so that the base type
         // is still able to add attributes to the XML element
         let is_named_leaf = matches!(
-            self.content,
-            Some(ElementContent::Leaf(
-                _,
-                LeafDefinition {
-                    content: LeafContent::Named(_),
-                    ..
-                },
-            ))
+            &self.content,
+            Some(ElementContent::Leaf(_, LeafDefinition { content, .. })) if !ctx.is_text(content)
         );
         let wrap = !self.is_virtual && !is_named_leaf;
         if wrap {
diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index e691dde..001d79c 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -1,5 +1,4 @@
 use super::{LeafContent, LeafDefinition, Name};
-use crate::ast::Root;
 use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 use inflector::Inflector;
@@ -85,22 +84,7 @@ impl Leaf {
             });
         }
 
-        let wrap = !self.is_virtual
-            && match &self.definition {
-                LeafDefinition {
-                    content: LeafContent::Named(name),
-                    ..
-                } => {
-                    matches!(
-                        ctx.resolve(name),
-                        Some(Root::Leaf(LeafDefinition {
-                            content: LeafContent::Literal(_),
-                            ..
-                        }))
-                    )
-                }
-                _ => true,
-            };
+        let wrap = !self.is_virtual && ctx.is_text(&self.definition.content);
 
         if wrap {
             tn.append_all(quote! {
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index c189d41..0a79130 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -172,14 +172,7 @@ impl Root {
                     let val = &self.0;
                     #inner
                 };
-                // TODO: improve those cases to make them easier to understand
-                if !matches!(
-                    def,
-                    LeafDefinition {
-                        content: LeafContent::Named(_),
-                        ..
-                    }
-                ) {
+                if ctx.is_text(&def.content) {
                     quote! {
                         ctx.write_start_element(writer)?;
                         #tn
@@ -210,8 +203,7 @@ impl Root {
                     let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let name_xml = &variant.name.name;
                     let inner = variant.definition.to_xml_impl(ctx);
-                    let is_literal = matches!(variant.definition.content, LeafContent::Literal(_));
-                    let mut inner = if is_literal {
+                    let mut inner = if ctx.is_text(&variant.definition.content) {
                         quote! {
                             let mut ctx = ::xsd::Context::new(#name_xml);
                             ctx.write_start_element(writer)?;
diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index f676c72..6ef01f6 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -174,6 +174,21 @@ impl SchemaContext {
         }
     }
 
+    /// Whether the content is plain text, i.e. whether the XML element around it has to be written
+    /// by whoever uses the content (all other types write their element themselves).
+    pub fn is_text(&self, content: &LeafContent) -> bool {
+        match content {
+            LeafContent::Literal(_) | LeafContent::Fixed(_) => true,
+            LeafContent::Named(name) => matches!(
+                self.resolve(name),
+                Some(Root::Leaf(LeafDefinition {
+                    content: LeafContent::Literal(_) | LeafContent::Fixed(_),
+                    ..
+                }))
+            ),
+        }
+    }
+
     pub fn resolve(&self, name: &Name) -> Option<&Root> {
         let mut next = self.elements.get(name);
         while let Some(Root::Leaf(LeafDefinition {
-- 
2.43.0


From 53b047e38968b9b2274a52e9006489ea419523f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:18 +0000
Subject: [PATCH 07/29] fix: write choice alternatives in the namespace they
 are declared in

---
 xsd-internal/src/ast/root.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 0a79130..342aba0 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -201,7 +201,7 @@ impl Root {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
                     let variant_name = escape_ident(&variant.name.name.to_pascal_case());
-                    let name_xml = &variant.name.name;
+                    let name_xml = ctx.get_xml_element_name(&variant.name);
                     let inner = variant.definition.to_xml_impl(ctx);
                     let mut inner = if ctx.is_text(&variant.definition.content) {
                         quote! {
-- 
2.43.0


From c4c4d4e7f56281e88a7f424257d02646b5ff079c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:18 +0000
Subject: [PATCH 08/29] fix: decode repeated sequences inside a choice

The generated code did not compile, because the variant holds a Vec but a
single value was decoded.
---
 xsd-internal/src/ast/root.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 342aba0..a158f77 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -282,6 +282,19 @@ impl Root {
                     if variant.is_virtual {
                         if let LeafContent::Named(name) = &variant.definition.content {
                             let first_name = escape_ident(&name.name.to_pascal_case());
+                            let inner = if variant.is_vec() {
+                                quote! {
+                                    {
+                                        let mut vec = Vec::new();
+                                        while #first_name::lookahead(node) {
+                                            vec.push(#inner);
+                                        }
+                                        vec
+                                    }
+                                }
+                            } else {
+                                inner
+                            };
                             quote! {
                                 if #first_name::lookahead(node) {
                                     Self::#variant_name(#inner)
-- 
2.43.0


From 54db31cbae92552a190ca38e1d303c909c686a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:54 +0000
Subject: [PATCH 09/29] fix: reject documents without any occurrence of a
 required repeated element

---
 xsd-internal/src/ast/leaf.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index 001d79c..bc3b40d 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -140,10 +140,13 @@ impl Leaf {
                 };
 
                 let first_name = escape_ident(&name.name.to_pascal_case());
+                // decode (and thereby require) at least one
+                let ensure_not_empty =
+                    (!self.is_optional()).then(|| quote! { vec.is_empty() || });
                 value = quote! {
                     {
                         let mut vec = Vec::new();
-                        while #first_name::lookahead(node) {
+                        while #ensure_not_empty #first_name::lookahead(node) {
                             vec.push(#value);
                         }
                         vec
@@ -180,12 +183,20 @@ impl Leaf {
             }
         } else {
             value = if self.is_vec() {
+                let ensure_not_empty = (!self.is_optional()).then(|| {
+                    quote! {
+                        if vec.is_empty() {
+                            node.try_next_child(#name_xml, #namespace_xml)?;
+                        }
+                    }
+                });
                 let mut from_vec = quote! {
                     {
                         let mut vec = Vec::new();
                         while let Some(node) = node.next_child(#name_xml, #namespace_xml) {
                             vec.push(#value);
                         }
+                        #ensure_not_empty
                         vec
                     }
                 };
-- 
2.43.0


From 2f801da2a10da7b30360b94221d3ae26423ffb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:27 +0000
Subject: [PATCH 10/29] fix: do not cut off text content at a comment or
 processing instruction

---
 xsd/src/decode.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/xsd/src/decode.rs b/xsd/src/decode.rs
index a627f2b..4bc36af 100644
--- a/xsd/src/decode.rs
+++ b/xsd/src/decode.rs
@@ -1,4 +1,4 @@
-use std::cell::RefCell;
+use std::cell::{OnceCell, RefCell};
 use std::collections::VecDeque;
 use std::ops::Range;
 
@@ -40,6 +40,7 @@ pub struct Document<'a>(roxmltree::Document<'a>);
 pub struct Node<'a> {
     node: roxmltree::Node<'a, 'a>,
     children: RefCell<Children<'a>>,
+    text: OnceCell<String>,
 }
 
 struct Children<'a> {
@@ -82,6 +83,7 @@ impl<'a> Node<'a> {
                 next: None,
             }),
             node,
+            text: OnceCell::new(),
         }
     }
 
@@ -178,13 +180,26 @@ impl<'a> Node<'a> {
     }
 
     pub fn text(&self) -> Result<&str, FromXmlError> {
-        if self.node.first_child().is_none() {
-            Ok("")
-        } else {
-            self.node.text().ok_or_else(|| FromXmlError::TextExpected {
-                name: self.node.tag_name().name().to_string(),
-            })
+        // comments and processing instructions are not part of the text, but they split it
+        let mut texts = Vec::new();
+        for child in self.node.children() {
+            if child.is_text() {
+                texts.extend(child.text());
+            } else if child.is_element() {
+                if texts.is_empty() {
+                    return Err(FromXmlError::TextExpected {
+                        name: self.node.tag_name().name().to_string(),
+                    });
+                }
+                break;
+            }
         }
+
+        Ok(match texts[..] {
+            [] => "",
+            [text] => text,
+            _ => self.text.get_or_init(|| texts.concat()),
+        })
     }
 
     pub fn range(&self) -> Range<usize> {
-- 
2.43.0


From 0cec76f6af41f62b10a49a1a2fc643c6b732a7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:07 +0000
Subject: [PATCH 11/29] fix: accept all of XML Schema's spellings of booleans
 and numbers

0 and 1 are booleans, and white space around booleans and numbers is not
significant.
---
 xsd-internal/src/ast/literal_type.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/literal_type.rs b/xsd-internal/src/ast/literal_type.rs
index 9229eff..dcd9972 100644
--- a/xsd-internal/src/ast/literal_type.rs
+++ b/xsd-internal/src/ast/literal_type.rs
@@ -69,8 +69,9 @@ impl LiteralType {
     }
 
     pub fn from_str_impl(&self) -> TokenStream {
+        use LiteralType::*;
         let type_ = self.xsd_name();
-        quote! {
+        let from_str = quote! {
             std::str::FromStr::from_str(val).map_err(|err| {
                 ::xsd::decode::FromXmlError::ParseType {
                     type_: #type_.to_string(),
@@ -78,6 +79,23 @@ impl LiteralType {
                     err: Box::new(err),
                 }
             })?
+        };
+        match self {
+            Boolean => quote! {
+                match val.trim_matches([' ', '\t', '\r', '\n']) {
+                    "1" => true,
+                    "0" => false,
+                    val => #from_str,
+                }
+            },
+            // white space around numbers is not significant
+            Int64 | Uint64 | Int32 | Decimal | Float32 => quote! {
+                {
+                    let val = val.trim_matches([' ', '\t', '\r', '\n']);
+                    #from_str
+                }
+            },
+            _ => from_str,
         }
     }
 }
-- 
2.43.0


From e0b1d56504f81bbaad7ddc188c65eed09f55d461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:11 +0000
Subject: [PATCH 12/29] fix: write infinite floats the way XML Schema spells
 them

---
 xsd-internal/src/ast/literal_type.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/literal_type.rs b/xsd-internal/src/ast/literal_type.rs
index dcd9972..1c49205 100644
--- a/xsd-internal/src/ast/literal_type.rs
+++ b/xsd-internal/src/ast/literal_type.rs
@@ -65,7 +65,11 @@ impl LiteralType {
     }
 
     pub fn to_xml_impl(&self) -> TokenStream {
-        quote!(val.to_string())
+        match self {
+            // XML Schema spells infinity in upper case
+            LiteralType::Float32 => quote!(val.to_string().replace("inf", "INF")),
+            _ => quote!(val.to_string()),
+        }
     }
 
     pub fn from_str_impl(&self) -> TokenStream {
-- 
2.43.0


From a34ade797aba097c02638bd170bec3745f8d331d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:03 +0000
Subject: [PATCH 13/29] fix: write the attributes of a base type that is
 extended by a sequence

The element was started before the base type had a chance to add its
attributes, which were dropped silently.
---
 xsd-internal/src/ast/element_definition.rs | 10 +++++-
 xsd-internal/src/xsd/context.rs            | 10 ++++++
 xsd/src/lib.rs                             | 38 +++++++++++++---------
 3 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/xsd-internal/src/ast/element_definition.rs b/xsd-internal/src/ast/element_definition.rs
index 2d49c5a..0028b5a 100644
--- a/xsd-internal/src/ast/element_definition.rs
+++ b/xsd-internal/src/ast/element_definition.rs
@@ -45,8 +45,16 @@ impl ElementDefinition {
             &self.content,
             Some(ElementContent::Leaf(_, LeafDefinition { content, .. })) if !ctx.is_text(content)
         );
+        // the same applies for a base element that is followed by further elements, except that it
+        // only starts the XML element
+        let starts_with_base = match &self.content {
+            Some(ElementContent::Leaves(leaves)) => leaves
+                .first()
+                .is_some_and(|leaf| leaf.is_virtual && ctx.is_element(&leaf.definition.content)),
+            _ => false,
+        };
         let wrap = !self.is_virtual && !is_named_leaf;
-        if wrap {
+        if wrap && !starts_with_base {
             ts.append_all(quote! { ctx.write_start_element(writer)?; });
         }
         if let Some(content) = &self.content {
diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 6ef01f6..7f05d58 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -189,6 +189,16 @@ impl SchemaContext {
         }
     }
 
+    /// Whether the content is an (XML) element, as opposed to just a part of one.
+    pub fn is_element(&self, content: &LeafContent) -> bool {
+        match content {
+            LeafContent::Literal(_) | LeafContent::Fixed(_) => false,
+            LeafContent::Named(name) => {
+                matches!(self.resolve(name), Some(Root::Element(def)) if !def.is_virtual)
+            }
+        }
+    }
+
     pub fn resolve(&self, name: &Name) -> Option<&Root> {
         let mut next = self.elements.get(name);
         while let Some(Root::Leaf(LeafDefinition {
diff --git a/xsd/src/lib.rs b/xsd/src/lib.rs
index 6ad4798..d51976c 100644
--- a/xsd/src/lib.rs
+++ b/xsd/src/lib.rs
@@ -21,6 +21,7 @@ pub struct ContextInner<'a> {
     name: Name<'a>,
     attributes: Vec<(Name<'a>, Cow<'a, str>)>,
     namespace: Namespace,
+    is_started: bool,
 }
 
 impl<'a, 'b> Context<'a, 'b> {
@@ -29,6 +30,7 @@ impl<'a, 'b> Context<'a, 'b> {
             name: name.into(),
             attributes: Vec::new(),
             namespace: Namespace::empty(),
+            is_started: false,
         })
     }
 
@@ -72,24 +74,28 @@ impl<'a, 'b> Context<'a, 'b> {
         &mut self,
         writer: &mut ::xml::writer::EventWriter<W>,
     ) -> Result<(), xml::writer::Error> {
-        match self {
-            Context::Virtual(_) => {}
-            Context::Context(inner) => {
-                let attributes = mem::take(&mut inner.attributes);
-                let namespace = mem::replace(&mut inner.namespace, Namespace::empty());
-                writer.write(XmlEvent::StartElement {
-                    name: inner.name,
-                    attributes: Cow::Owned(
-                        attributes
-                            .iter()
-                            .map(|(k, v)| Attribute::new(*k, v))
-                            .collect(),
-                    ),
-                    namespace: Cow::Owned(namespace),
-                })?
-            }
+        // a virtual context starts the element it wraps, unless this already happened
+        let inner = match self {
+            Context::Virtual(inner) => inner,
+            Context::Context(inner) => inner,
+        };
+        if mem::replace(&mut inner.is_started, true) {
+            return Ok(());
         }
 
+        let attributes = mem::take(&mut inner.attributes);
+        let namespace = mem::replace(&mut inner.namespace, Namespace::empty());
+        writer.write(XmlEvent::StartElement {
+            name: inner.name,
+            attributes: Cow::Owned(
+                attributes
+                    .iter()
+                    .map(|(k, v)| Attribute::new(*k, v))
+                    .collect(),
+            ),
+            namespace: Cow::Owned(namespace),
+        })?;
+
         Ok(())
     }
 
-- 
2.43.0


From ed08b1a90f876ecb7ef5023d6ee016b3951f99cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:08 +0000
Subject: [PATCH 14/29] fix: support elements that are named like their type

The element replaced the type and then referred to itself, which ended in a
stack overflow (or depended on the order of the declarations).
---
 xsd-internal/src/xsd/schema.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index cc1a1b2..c6ddf86 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -7,7 +7,7 @@ use std::{collections::HashMap, path::Path};
 use super::context::{Context, SchemaContext, SharedContext, NS_XSD};
 use super::error::XsdError;
 use super::node::Node;
-use crate::ast::{Name, Namespace, Root};
+use crate::ast::{LeafContent, LeafDefinition, Name, Namespace, Root};
 use crate::utils::escape_ident;
 use inflector::Inflector;
 use proc_macro2::TokenStream;
@@ -132,6 +132,14 @@ impl Schema {
             let name = Name::new(child.try_attribute("name")?.value(), ctx.target_namespace());
 
             let root = crate::xsd::parse::root::parse(child, &name, &mut ctx)?;
+            // an element that is named like its type is already represented by the type
+            if matches!(
+                &root,
+                Root::Leaf(LeafDefinition { content: LeafContent::Named(type_name), .. })
+                    if *type_name == name
+            ) {
+                continue;
+            }
             ctx.add_root(name, root);
         }
 
-- 
2.43.0


From b5589bf4462b98ee52569e2da2b7691d51382849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:59 +0000
Subject: [PATCH 15/29] fix: load every schema file once, so that schemas can
 include each other

---
 xsd-internal/src/xsd/context.rs | 18 ++++++++++++++++++
 xsd-internal/src/xsd/schema.rs  | 18 +++++++++++++++---
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 7f05d58..5b9fb9e 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -1,4 +1,5 @@
 use std::collections::{HashMap, HashSet};
+use std::path::{Path, PathBuf};
 
 use super::error::XsdError;
 use super::node::Attribute;
@@ -24,6 +25,8 @@ pub struct SharedContext {
     pub namespaces: Namespaces,
     /// Dependencies between structs. Key = parent, Value = child
     pub dependencies: HashMap<Name, HashSet<Name>>,
+    /// All schema files that have been loaded so far.
+    pub files: HashSet<PathBuf>,
 }
 
 /// The context reduced to the data necessary for the code-generation.
@@ -35,6 +38,16 @@ pub struct SchemaContext {
     pub namespaces: Namespaces,
 }
 
+impl SharedContext {
+    pub fn set_loaded(&mut self, path: &Path) {
+        self.files.insert(canonicalize(path));
+    }
+}
+
+fn canonicalize(path: &Path) -> PathBuf {
+    path.canonicalize().unwrap_or_else(|_| path.to_path_buf())
+}
+
 pub const NS_XSD: &str = "http://www.w3.org/2001/XMLSchema";
 
 impl<'input> Context<'input> {
@@ -68,6 +81,10 @@ impl<'input> Context<'input> {
         self.shared = shared
     }
 
+    pub fn is_loaded(&self, path: &Path) -> bool {
+        self.shared.files.contains(&canonicalize(path))
+    }
+
     pub fn add_root(&mut self, name: Name, root: Root) {
         self.roots.insert(name, root);
     }
@@ -81,6 +98,7 @@ impl<'input> Context<'input> {
                 namespaces: self.shared.namespaces,
             },
             dependencies: self.shared.dependencies,
+            files: self.shared.files,
         }
     }
 
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index c6ddf86..4d8e8b4 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -2,7 +2,10 @@ use std::collections::HashSet;
 use std::fs::read_to_string;
 use std::io;
 use std::ops::Range;
-use std::{collections::HashMap, path::Path};
+use std::{
+    collections::HashMap,
+    path::{Path, PathBuf},
+};
 
 use super::context::{Context, SchemaContext, SharedContext, NS_XSD};
 use super::error::XsdError;
@@ -18,6 +21,7 @@ use roxmltree::{Document, TextPos};
 pub struct Schema {
     pub(crate) dependencies: HashMap<Name, HashSet<Name>>,
     pub(crate) context: SchemaContext,
+    pub(crate) files: HashSet<PathBuf>,
 }
 
 impl Schema {
@@ -67,9 +71,12 @@ impl Schema {
             }
         };
 
+        let mut shared = shared.unwrap_or_default();
+        shared.set_loaded(&path);
+
         let base_path = path.parent().unwrap_or(path.as_path());
         let root_node = doc.root_element().into();
-        Schema::parse_schema_with_context(&root_node, base_path, shared).map_err(|err| match err {
+        Schema::parse_schema_with_context(&root_node, base_path, Some(shared)).map_err(|err| match err {
             ParseError::Schema(err) => err,
             ParseError::Xsd(err) => {
                 let pos = err
@@ -112,13 +119,17 @@ impl Schema {
         );
 
         for child in root.children().namespace(NS_XSD).iter() {
-            // TODO: prevent circular includes
             if child.name() == "include" || child.name() == "import" {
                 // TODO: make sure that it is a relative path
                 let location: &str = &child.try_attribute("schemaLocation")?.value();
                 let mut path = base_path.to_path_buf();
                 path.push(location);
 
+                // schemas may include each other
+                if ctx.is_loaded(&path) {
+                    continue;
+                }
+
                 // merge imports
                 let mut schema = Schema::parse_file_with_context(path, Some(ctx.take_shared()))?;
                 for (name, root) in std::mem::take(&mut schema.context.elements) {
@@ -150,6 +161,7 @@ impl Schema {
         SharedContext {
             namespaces: self.context.namespaces,
             dependencies: self.dependencies,
+            files: self.files,
         }
     }
 
-- 
2.43.0


From cc246f58c9a38bba1e44c96deb4802cd4e306bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:07 +0000
Subject: [PATCH 16/29] fix: treat elements under xmlns="" as being in no
 namespace

---
 xsd/src/decode.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/xsd/src/decode.rs b/xsd/src/decode.rs
index 4bc36af..18ae964 100644
--- a/xsd/src/decode.rs
+++ b/xsd/src/decode.rs
@@ -49,6 +49,13 @@ struct Children<'a> {
     next: Option<roxmltree::Node<'a, 'a>>,
 }
 
+fn is_named(node: &roxmltree::Node, name: &str, namespace: Option<&str>) -> bool {
+    let tag_name = node.tag_name();
+    // `xmlns=""` takes elements out of the default namespace
+    let tag_namespace = tag_name.namespace().filter(|ns| !ns.is_empty());
+    tag_name.name() == name && tag_namespace == namespace
+}
+
 pub fn decode(input: &str) -> Result<Document<'_>, FromXmlError> {
     let doc = roxmltree::Document::parse(input)?;
     Ok(Document(doc))
@@ -57,8 +64,7 @@ pub fn decode(input: &str) -> Result<Document<'_>, FromXmlError> {
 impl Document<'_> {
     pub fn child(&self, name: &str, namespace: Option<&str>) -> Option<Node<'_>> {
         let root = self.0.root_element();
-        let tag_name = root.tag_name();
-        if !root.is_element() || tag_name.name() != name || tag_name.namespace() != namespace {
+        if !root.is_element() || !is_named(&root, name, namespace) {
             None
         } else {
             Some(Node::new(root))
@@ -96,8 +102,7 @@ impl<'a> Node<'a> {
                 .or_else(|| children.children.next());
         }
         if let Some(next) = &children.next {
-            let tag_name = next.tag_name();
-            return tag_name.name() == name && tag_name.namespace() == namespace;
+            return is_named(next, name, namespace);
         }
         false
     }
@@ -110,8 +115,7 @@ impl<'a> Node<'a> {
             .or_else(|| children.peeked.pop_front())
             .or_else(|| children.children.next())
         {
-            let tag_name = next.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if is_named(&next, name, namespace) {
                 return Some(Node::new(next));
             }
             children.next = Some(next)
@@ -134,24 +138,21 @@ impl<'a> Node<'a> {
     pub fn child(&self, name: &str, namespace: Option<&str>) -> Option<Node<'_>> {
         let mut children = self.children.borrow_mut();
         if let Some(next) = children.next.take() {
-            let tag_name = next.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if is_named(&next, name, namespace) {
                 return Some(Node::new(next));
             }
             children.next = Some(next)
         }
 
         for (ix, child) in children.peeked.iter().enumerate() {
-            let tag_name = child.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if is_named(child, name, namespace) {
                 return children.peeked.remove(ix).map(Node::new);
             }
         }
 
         #[allow(clippy::while_let_on_iterator)]
         while let Some(child) = children.children.next() {
-            let tag_name = child.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if is_named(&child, name, namespace) {
                 return Some(Node::new(child));
             }
             children.peeked.push_back(child);
-- 
2.43.0


From ec9fb81ffe51e4dbd235a5a02e20faa0afac936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:21 +0000
Subject: [PATCH 17/29] fix: generate valid identifiers for names such as _ and
 _1

---
 xsd-internal/src/ast/root.rs |  4 ++--
 xsd-internal/src/utils.rs    | 31 ++++++++++++++++++++++++++++++-
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index a158f77..48d10a0 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 
-use crate::utils::escape_ident;
+use crate::utils::{escape_ident, is_ident_char};
 use crate::xsd::context::SchemaContext;
 
 use super::{ElementContent, ElementDefinition, Leaf, LeafContent, LeafDefinition, Name};
@@ -436,7 +436,7 @@ fn escape_enum_names(names: Vec<Name>) -> HashMap<String, Name> {
             .filter_map(|c| match c {
                 '_' | '-' => Some('_'),
                 c => {
-                    if c.is_alphanumeric() {
+                    if is_ident_char(c) {
                         Some(c)
                     } else {
                         None
diff --git a/xsd-internal/src/utils.rs b/xsd-internal/src/utils.rs
index 954089e..bfabb4c 100644
--- a/xsd-internal/src/utils.rs
+++ b/xsd-internal/src/utils.rs
@@ -1,7 +1,8 @@
 use quote::format_ident;
 
 pub fn escape_ident(name: &str) -> syn::Ident {
-    match name {
+    let name = &valid_ident(name);
+    match name.as_str() {
         // path keywords cannot be raw identifiers
         "crate" | "self" | "Self" | "super" => format_ident!("{}_", name),
         "as" | "break" | "const" | "continue" | "else" | "enum" | "extern" | "false" | "fn"
@@ -15,3 +16,31 @@ pub fn escape_ident(name: &str) -> syn::Ident {
         _ => format_ident!("{}", name),
     }
 }
+
+/// Whether `c` can be part of a Rust identifier (other than `_`), which not all letters and numbers
+/// can (e.g. `²`).
+pub fn is_ident_char(c: char) -> bool {
+    c.is_ascii_alphanumeric() || (!c.is_ascii() && is_ident(&format!("_{}", c)))
+}
+
+fn is_ident(s: &str) -> bool {
+    syn::parse_str::<syn::Ident>(s).is_ok()
+}
+
+/// Not everything that is left of an XML name in snake or pascal case is a Rust identifier (e.g.
+/// nothing is left of `_`, and a digit of `_1`).
+fn valid_ident(name: &str) -> String {
+    let mut ident = String::with_capacity(name.len());
+    for c in name.chars() {
+        ident.push(if is_ident_char(c) { c } else { '_' });
+    }
+    match ident.chars().next() {
+        None => ident.push_str("__"),
+        Some('_') if ident.len() == 1 => ident.push('_'),
+        Some(c) if c.is_ascii_digit() || (!c.is_ascii() && !is_ident(&c.to_string())) => {
+            ident.insert(0, '_')
+        }
+        _ => {}
+    }
+    ident
+}
-- 
2.43.0


From 5435f310c4a463e801f1b26ed8695518d061688d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:34 +0000
Subject: [PATCH 18/29] fix: reject circular element types instead of recursing
 without end

---
 xsd-internal/src/xsd/context.rs | 18 ++++++++++++++++++
 xsd-internal/src/xsd/schema.rs  | 15 ++++++++++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 5b9fb9e..ad8bf8f 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -217,6 +217,24 @@ impl SchemaContext {
         }
     }
 
+    /// Whether following the definition of `name` never arrives at anything but other names.
+    pub fn is_circular(&self, name: &Name) -> bool {
+        let mut steps = 0;
+        let mut next = self.elements.get(name);
+        while let Some(Root::Leaf(LeafDefinition {
+            content: LeafContent::Named(name),
+            ..
+        })) = next
+        {
+            steps += 1;
+            if steps > self.elements.len() {
+                return true;
+            }
+            next = self.elements.get(name);
+        }
+        false
+    }
+
     pub fn resolve(&self, name: &Name) -> Option<&Root> {
         let mut next = self.elements.get(name);
         while let Some(Root::Leaf(LeafDefinition {
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index 4d8e8b4..d1b35db 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -154,7 +154,18 @@ impl Schema {
             ctx.add_root(name, root);
         }
 
-        Ok(ctx.into_schema())
+        let schema = ctx.into_schema();
+        for (name, root) in schema.elements() {
+            // e.g. elements that are (mistakenly) declared to be of the type of each other
+            if matches!(root, Root::Leaf(_)) && schema.context.is_circular(name) {
+                return Err(SchemaError::Circular {
+                    name: name.name.clone(),
+                }
+                .into());
+            }
+        }
+
+        Ok(schema)
     }
 
     fn into_shared(self) -> SharedContext {
@@ -364,6 +375,8 @@ pub enum SchemaError {
     },
     #[error("Element `{name}` not found in schema")]
     NotFound { name: String },
+    #[error("The type of element `{name}` is defined by itself")]
+    Circular { name: String },
 }
 
 #[derive(Debug, thiserror::Error)]
-- 
2.43.0


From 7984ae8b5ae60a241e7462bfb340dc43aa53f3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:41 +0000
Subject: [PATCH 19/29] fix: resolve unprefixed type references in the schema's
 default namespace

---
 xsd-internal/src/xsd/context.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index ad8bf8f..fbf5021 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -149,15 +149,18 @@ impl<'input> Context<'input> {
             (Some(name), None) => name,
             _ => &type_name,
         };
-        if self.default_namespace == Some(NS_XSD) {
-            Ok(LeafContent::Literal(literal_from_str(name).ok_or_else(
+        match self.default_namespace {
+            Some(NS_XSD) => Ok(LeafContent::Literal(literal_from_str(name).ok_or_else(
                 || XsdError::UnsupportedType {
                     name: name.to_string(),
                     range: attr.range(),
                 },
-            )?))
-        } else {
-            Ok(LeafContent::Named(Name::new(name, Namespace::None)))
+            )?)),
+            Some(ns) if !ns.is_empty() => Ok(LeafContent::Named(Name::new(
+                name,
+                self.shared.namespaces.get_or_insert(ns),
+            ))),
+            _ => Ok(LeafContent::Named(Name::new(name, Namespace::None))),
         }
     }
 
-- 
2.43.0


From a04422b1334c08b5705c540f9d3d0c0e9dd94e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:02 +0000
Subject: [PATCH 20/29] fix: do not mistake namespaced attributes for XSD
 attributes of the same name

---
 xsd-internal/src/xsd/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/xsd/node.rs b/xsd-internal/src/xsd/node.rs
index 211ed72..c9512c3 100644
--- a/xsd-internal/src/xsd/node.rs
+++ b/xsd-internal/src/xsd/node.rs
@@ -66,9 +66,9 @@ impl<'a, 'input> From<roxmltree::Node<'a, 'input>> for Node<'a, 'input> {
         // TODO: throw on non XSD namespace children/attributes instead of ignoring them?
         let attributes = node
             .attributes()
+            // ignore custom (aka namespaced) attributes
+            .filter(|attr| attr.namespace().is_none())
             .map(|attr| {
-                // let ns = attr.namespace();
-                // TODO: filter by XSD attributes?
                 (
                     attr.name(),
                     Attribute {
-- 
2.43.0


From 0e2b77e4600d6d47d20ac8b7d93ef6db563ce218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:05 +0000
Subject: [PATCH 21/29] fix: reject mixed content in all its spellings

---
 xsd-internal/src/xsd/parse/complex_type.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/complex_type.rs b/xsd-internal/src/xsd/parse/complex_type.rs
index 79dc547..aead303 100644
--- a/xsd-internal/src/xsd/parse/complex_type.rs
+++ b/xsd-internal/src/xsd/parse/complex_type.rs
@@ -16,13 +16,16 @@ pub fn parse<'a, 'input>(
 where
     'a: 'input,
 {
-    if node.attribute("mixed").map(|a| a.value()).as_deref() == Some("true") {
-        return Err(XsdError::UnsupportedAttributeValue {
-            name: "mixed".to_string(),
-            value: "true".to_string(),
-            element: node.name().to_string(),
-            range: node.range(),
-        });
+    match node.attribute("mixed").map(|a| a.value()).as_deref() {
+        Some("false") | Some("0") | None => {}
+        Some(value) => {
+            return Err(XsdError::UnsupportedAttributeValue {
+                name: "mixed".to_string(),
+                value: value.to_string(),
+                element: node.name().to_string(),
+                range: node.range(),
+            });
+        }
     }
     node.prevent_unvisited_attributes()?;
 
-- 
2.43.0


From 303d691a44e268fe9181600840306fb49ee282a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:05 +0000
Subject: [PATCH 22/29] fix: accept empty documentation and do not cut it off
 at a comment

---
 xsd-internal/src/xsd/node.rs             | 10 +++++-----
 xsd-internal/src/xsd/parse/annotation.rs |  3 +--
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/xsd-internal/src/xsd/node.rs b/xsd-internal/src/xsd/node.rs
index c9512c3..7fb1ee5 100644
--- a/xsd-internal/src/xsd/node.rs
+++ b/xsd-internal/src/xsd/node.rs
@@ -155,13 +155,13 @@ impl<'a, 'input> Node<'a, 'input> {
     }
 
     pub fn text(&self) -> Option<Cow<'input, str>> {
+        // comments and processing instructions are not part of the text, but they split it
         self.inner
-            .first_child()
-            .and_then(|child| if child.is_text() { Some(child) } else { None })
-            .and_then(|child| child.text())
-            // TODO: this currently always returns a &str, but is internally a Cow, find a way to
-            // retrieve the Cow instead of the &str to avoid unnecessary allocations
+            .children()
+            .filter(|child| child.is_text())
+            .filter_map(|child| child.text())
             .map(|v| Cow::Owned(v.to_string()))
+            .reduce(|text, v| text + v)
     }
 
     pub fn try_text(&self) -> Result<Cow<'input, str>, NodeError> {
diff --git a/xsd-internal/src/xsd/parse/annotation.rs b/xsd-internal/src/xsd/parse/annotation.rs
index e0e6b1a..17ef966 100644
--- a/xsd-internal/src/xsd/parse/annotation.rs
+++ b/xsd-internal/src/xsd/parse/annotation.rs
@@ -6,8 +6,7 @@ pub fn parse(node: Node<'_, '_>) -> Result<Option<String>, XsdError> {
     let mut children = node.children().namespace(NS_XSD).collect();
     let docs = children
         .remove("documentation", Some(NS_XSD))
-        .map(|child| child.try_text())
-        .transpose()?
+        .and_then(|child| child.text())
         .and_then(|text| {
             if !text.is_empty() {
                 Some(cleanup_docs(&text))
-- 
2.43.0


From 4336f393ae64c145e58ad09625b5c0d5f9cae76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:20 +0000
Subject: [PATCH 23/29] fix: give nested groups with the same members types of
 their own

---
 xsd-internal/src/xsd/context.rs               | 14 ++++++++++++++
 xsd-internal/src/xsd/parse/choice.rs          |  4 ++--
 xsd-internal/src/xsd/parse/complex_content.rs |  4 ++--
 xsd-internal/src/xsd/parse/complex_type.rs    |  8 ++++----
 xsd-internal/src/xsd/parse/sequence.rs        |  8 ++++----
 5 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index fbf5021..4f297bb 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -89,6 +89,20 @@ impl<'input> Context<'input> {
         self.roots.insert(name, root);
     }
 
+    /// Adds a type that is not named by the schema, and returns the name it is added under. It differs
+    /// from `name` if that is already taken (e.g. by the only member of a sequence that is itself a
+    /// sequence, as both names are derived from the same elements).
+    pub fn add_virtual_root(&mut self, name: Name, root: Root) -> Name {
+        let mut unique_name = name.clone();
+        let mut count = 1;
+        while self.roots.contains_key(&unique_name) {
+            count += 1;
+            unique_name.name = format!("{}{}", name.name, count);
+        }
+        self.add_root(unique_name.clone(), root);
+        unique_name
+    }
+
     pub fn into_schema(self) -> Schema {
         Schema {
             context: SchemaContext {
diff --git a/xsd-internal/src/xsd/parse/choice.rs b/xsd-internal/src/xsd/parse/choice.rs
index 0d71c10..2993c1e 100644
--- a/xsd-internal/src/xsd/parse/choice.rs
+++ b/xsd-internal/src/xsd/parse/choice.rs
@@ -35,8 +35,8 @@ where
                     false,
                 );
 
-                ctx.add_root(
-                    root_name.clone(),
+                let root_name = ctx.add_virtual_root(
+                    root_name,
                     Root::Element(ElementDefinition {
                         attributes: Vec::new(),
                         content: Some(ElementContent::Leaves(leaves)),
diff --git a/xsd-internal/src/xsd/parse/complex_content.rs b/xsd-internal/src/xsd/parse/complex_content.rs
index 79640e2..e21a99e 100644
--- a/xsd-internal/src/xsd/parse/complex_content.rs
+++ b/xsd-internal/src/xsd/parse/complex_content.rs
@@ -49,8 +49,8 @@ where
         let leaf_name = ctx.get_node_name(&base_name.name, false);
         let root_name = super::derive_virtual_name(vec![parent, &leaf_name], ctx, false);
 
-        ctx.add_root(
-            root_name.clone(),
+        let root_name = ctx.add_virtual_root(
+            root_name,
             Root::Element(ElementDefinition {
                 attributes: Vec::new(),
                 content: Some(ElementContent::Leaves(leaves)),
diff --git a/xsd-internal/src/xsd/parse/complex_type.rs b/xsd-internal/src/xsd/parse/complex_type.rs
index aead303..632121d 100644
--- a/xsd-internal/src/xsd/parse/complex_type.rs
+++ b/xsd-internal/src/xsd/parse/complex_type.rs
@@ -65,8 +65,8 @@ where
             let leaf_name = super::derive_virtual_name(leaves.iter().map(|v| &v.name), ctx, true);
             let root_name = super::derive_virtual_name(vec![parent, &leaf_name], ctx, false);
 
-            ctx.add_root(
-                root_name.clone(),
+            let root_name = ctx.add_virtual_root(
+                root_name,
                 Root::Element(ElementDefinition {
                     attributes: Vec::new(),
                     content: Some(ElementContent::Leaves(leaves)),
@@ -96,8 +96,8 @@ where
         let root_name =
             super::derive_virtual_name(vec![parent, &ctx.get_node_name("Data", false)], ctx, false);
 
-        ctx.add_root(
-            root_name.clone(),
+        let root_name = ctx.add_virtual_root(
+            root_name,
             Root::Choice(ChoiceDefinition {
                 variants,
                 is_virtual: false,
diff --git a/xsd-internal/src/xsd/parse/sequence.rs b/xsd-internal/src/xsd/parse/sequence.rs
index e9e4fde..60512f1 100644
--- a/xsd-internal/src/xsd/parse/sequence.rs
+++ b/xsd-internal/src/xsd/parse/sequence.rs
@@ -32,8 +32,8 @@ where
                     super::derive_virtual_name(variants.iter().map(|v| &v.name), ctx, true);
                 let root_name = super::derive_virtual_name(vec![parent, &leaf_name], ctx, false);
 
-                ctx.add_root(
-                    root_name.clone(),
+                let root_name = ctx.add_virtual_root(
+                    root_name,
                     Root::Choice(ChoiceDefinition {
                         variants,
                         is_virtual: true,
@@ -65,8 +65,8 @@ where
                     super::derive_virtual_name(leaves.iter().map(|v| &v.name), ctx, true);
                 let root_name = super::derive_virtual_name(vec![parent, &leaf_name], ctx, false);
 
-                ctx.add_root(
-                    root_name.clone(),
+                let root_name = ctx.add_virtual_root(
+                    root_name,
                     Root::Element(ElementDefinition {
                         attributes: Vec::new(),
                         content: Some(ElementContent::Leaves(leaves)),
-- 
2.43.0


From 949289123e6a29dddb643ba574169d7170de9464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:50 +0000
Subject: [PATCH 24/29] fix: allow an enumeration value "Err"

---
 xsd-internal/src/ast/root.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 48d10a0..c7a2afe 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -109,7 +109,7 @@ impl Root {
                     impl ::std::str::FromStr for #root_name {
                         type Err = ::xsd::decode::FromXmlError;
 
-                        fn from_str(s: &str) -> Result<Self, Self::Err> {
+                        fn from_str(s: &str) -> Result<Self, ::xsd::decode::FromXmlError> {
                             Ok(match s {
                                 #(#from_str_variants,)*
                                 _ => return Err(::xsd::decode::FromXmlError::InvalidVariant {
-- 
2.43.0


From f1eaa72dd7c38b9d2042011e5a2526eb8404f01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:00 +0000
Subject: [PATCH 25/29] fix: reject unsupported children of local elements

---
 xsd-internal/src/xsd/parse/element.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/parse/element.rs b/xsd-internal/src/xsd/parse/element.rs
index 3f8fbf4..75c177d 100644
--- a/xsd-internal/src/xsd/parse/element.rs
+++ b/xsd-internal/src/xsd/parse/element.rs
@@ -71,9 +71,13 @@ where
     let min_occurs = parse_min_occurs(node.attribute("minOccurs"))?;
     let max_occurs = parse_max_occurs(node.attribute("maxOccurs"))?;
 
+    let mut children = node.children().namespace(NS_XSD).collect();
+    let annotation = children.remove("annotation", Some(NS_XSD));
+
     // <element ref="other:Type" />
     if let Some(attr) = node.attribute("ref") {
         node.prevent_unvisited_attributes()?;
+        children.prevent_unvisited_children()?;
         if let LeafContent::Named(name) = ctx.get_type_name(attr)? {
             ctx.discover_type(&name, Some(parent));
 
@@ -107,7 +111,7 @@ where
     // TODO: implement attribute?
     node.attribute("form");
 
-    let docs = super::parse_annotation(node.child("annotation", Some(NS_XSD)))?;
+    let docs = super::parse_annotation(annotation)?;
 
     // <element type="xs:string" /> | <element type="MyCustomType" />
     if let Some(attr) = node.attribute("type") {
@@ -123,6 +127,7 @@ where
         }
 
         node.prevent_unvisited_attributes()?;
+        children.prevent_unvisited_children()?;
 
         Ok(Leaf {
             name,
@@ -140,6 +145,7 @@ where
         && node.child("complexType", Some(NS_XSD)).is_none()
     {
         node.prevent_unvisited_attributes()?;
+        children.prevent_unvisited_children()?;
 
         // TODO: add test for that case
         Ok(Leaf {
-- 
2.43.0


From 735f85d42b41a3d83ec2da04dff121f845307850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:35 +0000
Subject: [PATCH 26/29] fix: carry documentation of choice alternatives over to
 the generated variants

---
 xsd-internal/src/ast/root.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index c7a2afe..ef6cd39 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -150,7 +150,15 @@ impl Root {
                     if variant.is_vec() {
                         type_ident = quote! { Vec<#type_ident> }
                     }
+                    let docs = variant
+                        .definition
+                        .docs
+                        .as_deref()
+                        .filter(|docs| !docs.is_empty())
+                        .map(|docs| quote! { #[doc = #docs] })
+                        .unwrap_or_default();
                     quote! {
+                        #docs
                         #variant_name(#type_ident)
                     }
                 });
-- 
2.43.0


From 1f2383c035068b3885d3c99bb3622296862a8d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:48 +0000
Subject: [PATCH 27/29] fix: carry documentation of enumerations over to the
 generated type

---
 xsd-internal/src/ast/root.rs              | 14 ++++++++++----
 xsd-internal/src/xsd/parse/simple_type.rs |  7 +++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index ef6cd39..b5a9ef1 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -12,11 +12,17 @@ use syn::Ident;
 #[derive(Debug, Clone)]
 pub enum Root {
     Leaf(LeafDefinition),
-    Enum(Vec<Name>),
+    Enum(EnumDefinition),
     Element(ElementDefinition),
     Choice(ChoiceDefinition),
 }
 
+#[derive(Debug, Clone)]
+pub struct EnumDefinition {
+    pub names: Vec<Name>,
+    pub docs: Option<String>,
+}
+
 #[derive(Debug, Clone)]
 pub struct ChoiceDefinition {
     pub variants: Vec<Leaf>,
@@ -29,7 +35,7 @@ impl Root {
         if docs.is_some() {
             match &mut self {
                 Root::Leaf(def) => def.docs = docs,
-                Root::Enum(_) => {}
+                Root::Enum(def) => def.docs = docs,
                 Root::Element(def) => def.docs = docs,
                 Root::Choice(def) => def.docs = docs,
             }
@@ -44,7 +50,7 @@ impl Root {
     pub fn docs(&self) -> Option<&str> {
         match self {
             Root::Leaf(def) => def.docs.as_deref(),
-            Root::Enum(_) => None,
+            Root::Enum(def) => def.docs.as_deref(),
             Root::Element(def) => def.docs.as_deref(),
             Root::Choice(def) => def.docs.as_deref(),
         }
@@ -83,7 +89,7 @@ impl Root {
                 }
                 tn
             }
-            Root::Enum(names) => {
+            Root::Enum(EnumDefinition { names, .. }) => {
                 let names = escape_enum_names(names.clone());
                 let variants = names.keys().map(|k| escape_ident(k));
                 let from_str_variants = names.iter().map(|(variant, name)| {
diff --git a/xsd-internal/src/xsd/parse/simple_type.rs b/xsd-internal/src/xsd/parse/simple_type.rs
index 1092522..0fb9e55 100644
--- a/xsd-internal/src/xsd/parse/simple_type.rs
+++ b/xsd-internal/src/xsd/parse/simple_type.rs
@@ -2,7 +2,7 @@ use std::str::FromStr;
 
 use rust_decimal::Decimal;
 
-use crate::ast::{LeafContent, LeafDefinition, Name, Namespace, Restriction, Root};
+use crate::ast::{EnumDefinition, LeafContent, LeafDefinition, Name, Namespace, Restriction, Root};
 use crate::xsd::context::{Context, NS_XSD};
 use crate::xsd::error::XsdError;
 use crate::xsd::node::Node;
@@ -125,6 +125,9 @@ where
             docs,
         })
     } else {
-        Root::Enum(enumerations)
+        Root::Enum(EnumDefinition {
+            names: enumerations,
+            docs,
+        })
     })
 }
-- 
2.43.0


From b64c77f782ad1783128ff0c71316e45c048499fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:00 +0000
Subject: [PATCH 28/29] fix: do not write elements without a namespace into the
 default namespace

---
 xsd-internal/src/xsd/context.rs       | 10 +++++++++-
 xsd-internal/src/xsd/parse/element.rs |  5 ++++-
 xsd-internal/src/xsd/schema.rs        |  2 ++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 4f297bb..3206c22 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -27,6 +27,8 @@ pub struct SharedContext {
     pub dependencies: HashMap<Name, HashSet<Name>>,
     /// All schema files that have been loaded so far.
     pub files: HashSet<PathBuf>,
+    /// Whether any of the schema files declares elements that are not in a namespace.
+    pub has_unqualified: bool,
 }
 
 /// The context reduced to the data necessary for the code-generation.
@@ -85,6 +87,10 @@ impl<'input> Context<'input> {
         self.shared.files.contains(&canonicalize(path))
     }
 
+    pub fn set_unqualified(&mut self) {
+        self.shared.has_unqualified = true;
+    }
+
     pub fn add_root(&mut self, name: Name, root: Root) {
         self.roots.insert(name, root);
     }
@@ -108,11 +114,13 @@ impl<'input> Context<'input> {
             context: SchemaContext {
                 target_namespace: self.target_namespace(),
                 elements: self.roots,
-                is_qualified: self.is_qualified,
+                // elements without a namespace cannot be written below a default namespace
+                is_qualified: self.is_qualified && !self.shared.has_unqualified,
                 namespaces: self.shared.namespaces,
             },
             dependencies: self.shared.dependencies,
             files: self.shared.files,
+            has_unqualified: self.shared.has_unqualified,
         }
     }
 
diff --git a/xsd-internal/src/xsd/parse/element.rs b/xsd-internal/src/xsd/parse/element.rs
index 75c177d..1d60d41 100644
--- a/xsd-internal/src/xsd/parse/element.rs
+++ b/xsd-internal/src/xsd/parse/element.rs
@@ -1,7 +1,7 @@
 use std::str::FromStr;
 
 use crate::ast::{
-    Leaf, LeafContent, LeafDefinition, LiteralType, MaxOccurs, MinOccurs, Name, Root,
+    Leaf, LeafContent, LeafDefinition, LiteralType, MaxOccurs, MinOccurs, Name, Namespace, Root,
 };
 use crate::xsd::context::{Context, NS_XSD};
 use crate::xsd::error::XsdError;
@@ -104,6 +104,9 @@ where
     }
 
     let name = ctx.get_node_name(&node.try_attribute("name")?.value(), false);
+    if name.namespace == Namespace::None {
+        ctx.set_unqualified();
+    }
 
     // mark `default` attribute as visited
     node.attribute("default");
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index d1b35db..9ed2fcc 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -22,6 +22,7 @@ pub struct Schema {
     pub(crate) dependencies: HashMap<Name, HashSet<Name>>,
     pub(crate) context: SchemaContext,
     pub(crate) files: HashSet<PathBuf>,
+    pub(crate) has_unqualified: bool,
 }
 
 impl Schema {
@@ -173,6 +174,7 @@ impl Schema {
             namespaces: self.context.namespaces,
             dependencies: self.dependencies,
             files: self.files,
+            has_unqualified: self.has_unqualified,
         }
     }
 
-- 
2.43.0


From 1ce62841c467f7f6c3dc970bce9a87daa9cc7fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:23 +0000
Subject: [PATCH 29/29] fix: include schemas without a target namespace into
 the namespace of the including schema

---
 xsd-internal/src/xsd/context.rs |  6 +++++-
 xsd-internal/src/xsd/schema.rs  | 35 ++++++++++++++++++++++-----------
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 3206c22..94a7da6 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -58,6 +58,10 @@ impl<'input> Context<'input> {
         target_namespace: Option<&'a str>,
         mut shared: SharedContext,
     ) -> Self {
+        let mut default_namespace = schema.default_namespace();
+        if default_namespace.is_none() && schema.attribute("targetNamespace").is_none() {
+            default_namespace = target_namespace;
+        }
         let mut document_namespaces = HashMap::new();
         for ns in schema.namespaces() {
             if let Some(prefix) = ns.name() {
@@ -66,7 +70,7 @@ impl<'input> Context<'input> {
         }
         Context {
             roots: Default::default(),
-            default_namespace: schema.default_namespace(),
+            default_namespace,
             target_namespace: target_namespace
                 .map(|tn| shared.namespaces.get_or_insert(tn))
                 .unwrap_or_default(),
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index 9ed2fcc..b403bb7 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -27,12 +27,13 @@ pub struct Schema {
 
 impl Schema {
     pub fn parse_file(path: impl AsRef<Path>) -> Result<Self, SchemaError> {
-        Self::parse_file_with_context(path, None)
+        Self::parse_file_with_context(path, None, None)
     }
 
     fn parse_file_with_context(
         path: impl AsRef<Path>,
         shared: Option<SharedContext>,
+        including_namespace: Option<&str>,
     ) -> Result<Self, SchemaError> {
         let path = path.as_ref();
 
@@ -46,17 +47,18 @@ impl Schema {
             }
         };
 
-        Schema::parse_with_context(&data, path, shared)
+        Schema::parse_with_context(&data, path, shared, including_namespace)
     }
 
     pub fn parse(data: &str, path: impl AsRef<Path>) -> Result<Self, SchemaError> {
-        Self::parse_with_context(data, path, None)
+        Self::parse_with_context(data, path, None, None)
     }
 
     fn parse_with_context(
         data: &str,
         path: impl AsRef<Path>,
         shared: Option<SharedContext>,
+        including_namespace: Option<&str>,
     ) -> Result<Self, SchemaError> {
         let path = path.as_ref().to_path_buf();
         let doc = match Document::parse(data) {
@@ -77,7 +79,13 @@ impl Schema {
 
         let base_path = path.parent().unwrap_or(path.as_path());
         let root_node = doc.root_element().into();
-        Schema::parse_schema_with_context(&root_node, base_path, Some(shared)).map_err(|err| match err {
+        Schema::parse_schema_with_context(
+            &root_node,
+            base_path,
+            Some(shared),
+            including_namespace,
+        )
+        .map_err(|err| match err {
             ParseError::Schema(err) => err,
             ParseError::Xsd(err) => {
                 let pos = err
@@ -95,13 +103,14 @@ impl Schema {
     }
 
     pub fn parse_schema(root: &Node<'_, '_>, base_path: &Path) -> Result<Self, ParseError> {
-        Self::parse_schema_with_context(root, base_path, None)
+        Self::parse_schema_with_context(root, base_path, None, None)
     }
 
     fn parse_schema_with_context(
         root: &Node<'_, '_>,
         base_path: &Path,
         shared: Option<SharedContext>,
+        including_namespace: Option<&str>,
     ) -> Result<Self, ParseError> {
         if root.namespace().as_deref() != Some(NS_XSD) || root.name() != "schema" {
             return Err(XsdError::UnsupportedElement {
@@ -111,13 +120,11 @@ impl Schema {
             .into());
         }
 
+        // a schema without a target namespace takes on the one of the schema that includes it
         let target_namespace = root.attribute("targetNamespace").map(|a| a.value());
+        let target_namespace = target_namespace.as_deref().or(including_namespace);
 
-        let mut ctx = Context::new(
-            root,
-            target_namespace.as_deref(),
-            shared.unwrap_or_default(),
-        );
+        let mut ctx = Context::new(root, target_namespace, shared.unwrap_or_default());
 
         for child in root.children().namespace(NS_XSD).iter() {
             if child.name() == "include" || child.name() == "import" {
@@ -132,7 +139,13 @@ impl Schema {
                 }
 
                 // merge imports
-                let mut schema = Schema::parse_file_with_context(path, Some(ctx.take_shared()))?;
+                let including_namespace =
+                    target_namespace.filter(|_| child.name() == "include");
+                let mut schema = Schema::parse_file_with_context(
+                    path,
+                    Some(ctx.take_shared()),
+                    including_namespace,
+                )?;
                 for (name, root) in std::mem::take(&mut schema.context.elements) {
                     ctx.add_root(name, root);
                 }
-- 
2.43.0

