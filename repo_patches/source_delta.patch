From 4bcf90eb93fcb3445710ad55080b071e9699659b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:05 +0000
Subject: [PATCH 01/23] fix: enum_derive: do not implement a shared dependency
 twice

Two listed traits with the same unlisted dependency (e.g.
`enum_derive(DoubleEndedIterator, ExactSizeIterator)`) made
the dependency be implemented once per dependent, which is
rejected with E0119.
---
 src/enum_derive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index dd85f65..12aa7a0 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -266,7 +266,7 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
     let args = args.iter().fold(vec![], |mut v, (s, arg)| {
         if let Some(traits) = get_trait_deps(s) {
             for s in traits.iter().filter(|&x| !args.iter().any(|(s, _)| s == x)) {
-                if !exists_alias(s, &v) {
+                if !v.iter().any(|(x, _)| x == s) && !exists_alias(s, &v) {
                     v.push((s, None));
                 }
             }
-- 
2.43.0


From 25ff84cda4c1761a3967c6e4e0f0a7ca183bcbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:34 +0000
Subject: [PATCH 02/23] fix: auto_enum: leave `return` and `?` in async blocks
 alone

Like a closure, an async block is a body of its own.
---
 src/auto_enum/visitor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index b046fd8..30dc845 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -13,7 +13,7 @@ use crate::utils::{Attrs, Node, replace_expr};
 
 #[derive(Clone, Copy, Default)]
 struct Scope {
-    /// in closures
+    /// in closures or async blocks
     closure: bool,
     /// in try blocks
     try_block: bool,
@@ -22,10 +22,10 @@ struct Scope {
 }
 
 impl Scope {
-    // check this scope is in closures or try blocks.
+    // check this scope is in closures, async blocks, or try blocks.
     fn check_expr(&mut self, expr: &Expr) {
         match expr {
-            Expr::Closure(_) => self.closure = true,
+            Expr::Closure(_) | Expr::Async(_) => self.closure = true,
             // `?` operator in try blocks are not supported.
             Expr::TryBlock(_) => self.try_block = true,
             _ => {}
-- 
2.43.0


From ec2ace0b030ce0220f3972aa591e4d802a70cbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:12 +0000
Subject: [PATCH 03/23] fix: auto_enum: wrap `break` in the iterator expression
 of an inner `for`

The iterator expression is evaluated outside of the `for` loop, so an
unlabeled `break` in it belongs to the enclosing `loop`.
---
 src/auto_enum/expr.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/auto_enum/expr.rs b/src/auto_enum/expr.rs
index 3c277fc..6d6af3f 100644
--- a/src/auto_enum/expr.rs
+++ b/src/auto_enum/expr.rs
@@ -1,9 +1,9 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
 use syn::{
-    Arm, Block, Expr, ExprBlock, ExprBreak, ExprCall, ExprIf, ExprLoop, ExprMacro, ExprMatch,
-    ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, Item, Label, Lifetime, LocalInit,
-    Macro, Stmt, StmtMacro, Token,
+    Arm, Block, Expr, ExprBlock, ExprBreak, ExprCall, ExprForLoop, ExprIf, ExprLoop, ExprMacro,
+    ExprMatch, ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, Item, Label, Lifetime,
+    LocalInit, Macro, Stmt, StmtMacro, Token,
     visit_mut::{self, VisitMut},
 };
 
@@ -173,7 +173,17 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
                 // Stop at closure / async block bounds
                 Expr::Closure(_) | Expr::Async(_) => return,
                 // Other loop bounds
-                Expr::Loop(_) | Expr::ForLoop(_) | Expr::While(_) => {
+                Expr::ForLoop(ExprForLoop { expr, body, .. }) => {
+                    // The iterator is evaluated outside of that loop.
+                    self.visit_expr_mut(expr);
+                    if self.label.is_some() {
+                        self.nested = true;
+                        self.visit_block_mut(body);
+                        self.nested = tmp;
+                    }
+                    return;
+                }
+                Expr::Loop(_) | Expr::While(_) => {
                     if self.label.is_none() {
                         return;
                     }
-- 
2.43.0


From 43d7a697ad114972afafda915c1d8818083650ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:54 +0000
Subject: [PATCH 04/23] fix: auto_enum: respect label shadowing in `loop`

`break 'a` inside of an inner loop or block that declares the label
again does not belong to the outer `'a: loop`.
---
 src/auto_enum/expr.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/auto_enum/expr.rs b/src/auto_enum/expr.rs
index 6d6af3f..78f01aa 100644
--- a/src/auto_enum/expr.rs
+++ b/src/auto_enum/expr.rs
@@ -2,8 +2,8 @@
 
 use syn::{
     Arm, Block, Expr, ExprBlock, ExprBreak, ExprCall, ExprForLoop, ExprIf, ExprLoop, ExprMacro,
-    ExprMatch, ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, Item, Label, Lifetime,
-    LocalInit, Macro, Stmt, StmtMacro, Token,
+    ExprMatch, ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, ExprWhile, Item, Label,
+    Lifetime, LocalInit, Macro, Stmt, StmtMacro, Token,
     visit_mut::{self, VisitMut},
 };
 
@@ -160,6 +160,11 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
                 _ => false,
             }
         }
+
+        /// Returns `true` if `other` shadows the label of this loop.
+        fn is_shadowed_by(&self, other: Option<&Label>) -> bool {
+            other.is_some() && self.compare_labels(other.map(|label| &label.name))
+        }
     }
 
     impl VisitMut for LoopVisitor<'_> {
@@ -173,22 +178,23 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
                 // Stop at closure / async block bounds
                 Expr::Closure(_) | Expr::Async(_) => return,
                 // Other loop bounds
-                Expr::ForLoop(ExprForLoop { expr, body, .. }) => {
+                Expr::ForLoop(ExprForLoop { label, expr, body, .. }) => {
                     // The iterator is evaluated outside of that loop.
                     self.visit_expr_mut(expr);
-                    if self.label.is_some() {
+                    if self.label.is_some() && !self.is_shadowed_by(label.as_ref()) {
                         self.nested = true;
                         self.visit_block_mut(body);
                         self.nested = tmp;
                     }
                     return;
                 }
-                Expr::Loop(_) | Expr::While(_) => {
-                    if self.label.is_none() {
+                Expr::Loop(ExprLoop { label, .. }) | Expr::While(ExprWhile { label, .. }) => {
+                    if self.label.is_none() || self.is_shadowed_by(label.as_ref()) {
                         return;
                     }
                     self.nested = true;
                 }
+                Expr::Block(ExprBlock { label, .. }) if self.is_shadowed_by(label.as_ref()) => return,
                 // Desugar `break <expr>` into `break Enum::VariantN(<expr>)`.
                 Expr::Break(ExprBreak { label, expr, .. }) => {
                     if !self.nested && label.is_none() || self.compare_labels(label.as_ref()) {
-- 
2.43.0


From 5d70e082b7005def09039eba83b399b3b267eb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:55 +0000
Subject: [PATCH 05/23] fix: auto_enum: replace `marker! { .. }` at the end of
 a block

A macro call with braces at the end of a block is parsed as a statement
macro, which was recognized as a marker but never replaced.
---
 src/auto_enum/visitor.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index 30dc845..5795167 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -1,10 +1,12 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
+use std::mem;
+
 use proc_macro2::TokenStream;
 use quote::ToTokens as _;
 use syn::{
     Arm, Attribute, Expr, ExprMacro, ExprMatch, ExprReturn, ExprTry, Item, Local, LocalInit,
-    MetaList, Stmt, Token, parse_quote, token,
+    MetaList, Stmt, StmtMacro, Token, parse_quote, token,
     visit_mut::{self, VisitMut},
 };
 
@@ -243,6 +245,16 @@ impl VisitMut for Visitor<'_> {
 
     fn visit_stmt_mut(&mut self, node: &mut Stmt) {
         if !self.cx.has_error() {
+            // `marker! { <expr> }` at the end of the block is parsed as a statement macro.
+            if let Stmt::Macro(StmtMacro { attrs, mac, semi_token }) = node {
+                if self.cx.is_marker_macro_exact(mac) {
+                    *node = Stmt::Expr(
+                        Expr::Macro(ExprMacro { attrs: mem::take(attrs), mac: mac.clone() }),
+                        *semi_token,
+                    );
+                }
+            }
+
             if let Stmt::Expr(expr, semi) = node {
                 self.visit_expr(expr, semi.is_some());
             } else {
-- 
2.43.0


From f693058cb721a3fac757931af8434b8b682be26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:09 +0000
Subject: [PATCH 06/23] fix: enum_derive: support `error::Error` that
 type_analysis produces

type_analysis recognizes `impl error::Error`, but the derive
did not know this name and passed it to `#[derive]`.
---
 src/derive/std/error.rs | 2 +-
 src/enum_derive.rs      | 4 +++-
 src/lib.rs              | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/derive/std/error.rs b/src/derive/std/error.rs
index d892df9..81e49a7 100644
--- a/src/derive/std/error.rs
+++ b/src/derive/std/error.rs
@@ -2,7 +2,7 @@
 
 use crate::derive::prelude::*;
 
-pub(crate) const NAME: &[&str] = &["Error"];
+pub(crate) const NAME: &[&str] = &["Error", "error::Error"];
 
 pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
     let ident = &data.ident;
diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index 12aa7a0..ea9ad1c 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -217,7 +217,7 @@ fn get_trait_deps(s: &str) -> Option<&'static [&'static str]> {
         #[cfg(feature = "std")]
         "BufRead" | "io::BufRead" => &["Read"],
         #[cfg(feature = "std")]
-        "Error" => &["Display", "Debug"],
+        "Error" | "error::Error" => &["Display", "Debug"],
         #[cfg(feature = "rayon")]
         "rayon::IndexedParallelIterator" => &["rayon::ParallelIterator"],
         _ => return None,
@@ -252,6 +252,8 @@ fn exists_alias(s: &str, v: &[(&str, Option<&Path>)]) -> bool {
             std::io::seek,
             #[cfg(feature = "std")]
             std::io::write,
+            #[cfg(feature = "std")]
+            std::error,
         }
 
         None
diff --git a/src/lib.rs b/src/lib.rs
index d8c21bb..993a9e5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -662,7 +662,7 @@ Note that some traits have aliases.
 
 ### `std::error` *(requires `"std"` crate feature)*
 
-- [`Error`](https://doc.rust-lang.org/std/error/trait.Error.html) - [example](https://github.com/taiki-e/auto_enums/blob/HEAD/tests/expand/std/error.rs) | [generated code](https://github.com/taiki-e/auto_enums/blob/HEAD/tests/expand/std/error.expanded.rs)
+- [`Error`](https://doc.rust-lang.org/std/error/trait.Error.html) (alias: `error::Error`) - [example](https://github.com/taiki-e/auto_enums/blob/HEAD/tests/expand/std/error.rs) | [generated code](https://github.com/taiki-e/auto_enums/blob/HEAD/tests/expand/std/error.expanded.rs)
 
 ## External libraries
 
-- 
2.43.0


From 4c9cad0cddbdb3a0dc3b53a87b716611fd295f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:45 +0000
Subject: [PATCH 07/23] fix: type_analysis: do not collect the same trait twice

e.g. `impl Iterator<Item = impl Iterator>` made `Iterator` be
implemented twice for the same enum.
---
 src/auto_enum/type_analysis.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/auto_enum/type_analysis.rs b/src/auto_enum/type_analysis.rs
index 7948b02..6e15806 100644
--- a/src/auto_enum/type_analysis.rs
+++ b/src/auto_enum/type_analysis.rs
@@ -25,7 +25,11 @@ pub(super) fn collect_impl_trait(args: &[Path], traits: &mut Vec<Path>, ty: &mut
                     let ty_str = ty.to_token_stream().to_string();
                     let ty_trimmed = ty_str.replace(' ', "");
                     if TRAITS.contains(&&*ty_trimmed)
-                        && !self.args.iter().any(|x| x.to_token_stream().to_string() == ty_str)
+                        && !self
+                            .args
+                            .iter()
+                            .chain(&*self.traits)
+                            .any(|x| x.to_token_stream().to_string() == ty_str)
                     {
                         self.has_impl_trait = true;
                         self.traits.push(ty);
-- 
2.43.0


From 3896eb2e29715d5e2da9d96803891ba3092ec6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:46 +0000
Subject: [PATCH 08/23] fix: type_analysis: remove the `impl Trait` type of
 `let` when all of its traits are listed

`#[auto_enum(Iterator)] let iter: impl Iterator<Item = T> = ..` kept
the type, which is rejected with E0562.
---
 src/auto_enum/type_analysis.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/auto_enum/type_analysis.rs b/src/auto_enum/type_analysis.rs
index 6e15806..0fc206a 100644
--- a/src/auto_enum/type_analysis.rs
+++ b/src/auto_enum/type_analysis.rs
@@ -24,15 +24,16 @@ pub(super) fn collect_impl_trait(args: &[Path], traits: &mut Vec<Path>, ty: &mut
                     let ty = path(ty.path.segments.iter().map(|ty| ty.ident.clone().into()));
                     let ty_str = ty.to_token_stream().to_string();
                     let ty_trimmed = ty_str.replace(' ', "");
-                    if TRAITS.contains(&&*ty_trimmed)
-                        && !self
+                    if TRAITS.contains(&&*ty_trimmed) {
+                        self.has_impl_trait = true;
+                        if !self
                             .args
                             .iter()
                             .chain(&*self.traits)
                             .any(|x| x.to_token_stream().to_string() == ty_str)
-                    {
-                        self.has_impl_trait = true;
-                        self.traits.push(ty);
+                        {
+                            self.traits.push(ty);
+                        }
                     }
                 }
             }
-- 
2.43.0


From 8e9ab965a9ca6a8ecfedba134ed4f629d34277dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:57 +0000
Subject: [PATCH 09/23] fix: enum_derive: support defaults of generic
 parameters

---
 src/enum_derive.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index ea9ad1c..ccf7be2 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -6,7 +6,7 @@ use derive_utils::EnumData as Data;
 use proc_macro2::TokenStream;
 use quote::{ToTokens as _, quote};
 use syn::{
-    Error, ItemEnum, Path, Result, Token,
+    Error, GenericParam, ItemEnum, Path, Result, Token,
     parse::{Parse, ParseStream},
     parse_quote,
 };
@@ -263,7 +263,25 @@ fn exists_alias(s: &str, v: &[(&str, Option<&Path>)]) -> bool {
 }
 
 fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
-    let data = syn::parse2::<Data>(input)?;
+    let mut item: ItemEnum = syn::parse2::<Data>(input)?.into();
+    let data = {
+        // Defaults of generic parameters are not allowed in the generated impls.
+        let mut item = item.clone();
+        for param in &mut item.generics.params {
+            match param {
+                GenericParam::Type(param) => {
+                    param.eq_token = None;
+                    param.default = None;
+                }
+                GenericParam::Const(param) => {
+                    param.eq_token = None;
+                    param.default = None;
+                }
+                GenericParam::Lifetime(_) => {}
+            }
+        }
+        syn::parse2::<Data>(item.into_token_stream())?
+    };
     let args = syn::parse2::<Args>(args)?.inner;
     let args = args.iter().fold(vec![], |mut v, (s, arg)| {
         if let Some(traits) = get_trait_deps(s) {
@@ -294,7 +312,7 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
         }
     }
 
-    let mut item = if cx.needs_pin_projection.get() {
+    if cx.needs_pin_projection.get() {
         // If a user creates their own Unpin or Drop implementation, trait implementations with
         // `Pin<&mut self>` receiver can cause unsoundness.
         //
@@ -319,7 +337,6 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
             },
         ));
 
-        let item: ItemEnum = data.into();
         let name = &item.ident;
         let (impl_generics, ty_generics, where_clause) = item.generics.split_for_impl();
         // Ensure that enum does not implement `Drop`.
@@ -334,10 +351,7 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
                 impl #impl_generics MustNotImplDrop for #name #ty_generics #where_clause {}
             };
         });
-        item
-    } else {
-        data.into()
-    };
+    }
 
     if !derive.is_empty() {
         item.attrs.push(parse_quote!(#[derive(#(#derive),*)]));
-- 
2.43.0


From 54e14d8d9082c825db48fe87292c8e61104c4805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:30 +0000
Subject: [PATCH 10/23] fix: enum_derive: allow a generic parameter named R in
 Coroutine enums

---
 src/derive/core/ops.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/derive/core/ops.rs b/src/derive/core/ops.rs
index f3ca46e..4288603 100644
--- a/src/derive/core/ops.rs
+++ b/src/derive/core/ops.rs
@@ -107,7 +107,7 @@ pub(crate) mod coroutine {
         let pin = quote!(::core::pin::Pin);
         let trait_ = parse_quote!(::core::ops::Coroutine);
         let mut impl_ = EnumImpl::from_trait(data, &trait_, None, parse_quote! {
-            trait Coroutine<R> {
+            trait Coroutine<__R> {
                 type Yield;
                 type Return;
             }
@@ -116,14 +116,14 @@ pub(crate) mod coroutine {
 
         let resume = data.variant_idents().zip(data.field_types()).map(|(v, ty)| {
             quote! {
-                #ident::#v(x) => <#ty as #trait_<R>>::resume(#pin::new_unchecked(x), arg),
+                #ident::#v(x) => <#ty as #trait_<__R>>::resume(#pin::new_unchecked(x), arg),
             }
         });
         impl_.items.push(parse_quote! {
             #[inline]
             fn resume(
                 self: #pin<&mut Self>,
-                arg: R,
+                arg: __R,
             ) -> ::core::ops::CoroutineState<Self::Yield, Self::Return> {
                 unsafe {
                     match self.get_unchecked_mut() { #(#resume)* }
-- 
2.43.0


From c574d8fa28e170d90c177a3e3ce08c7b8f10a629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:45 +0000
Subject: [PATCH 11/23] fix: auto_enum: handle return, ? and break in the
 argument of marker macros

---
 src/auto_enum/context.rs |  5 +++++
 src/auto_enum/expr.rs    |  8 ++++++++
 src/auto_enum/visitor.rs | 18 +++++++++++++++++-
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/auto_enum/context.rs b/src/auto_enum/context.rs
index d98aeb1..d2c53bb 100644
--- a/src/auto_enum/context.rs
+++ b/src/auto_enum/context.rs
@@ -208,6 +208,11 @@ impl Context {
         mac.path.is_ident(&self.current_marker)
     }
 
+    /// Returns the argument of `mac` if `mac` is the marker macro of the current scope.
+    pub(super) fn marker_arg(&self, mac: &Macro) -> Option<Expr> {
+        if self.is_marker_macro_exact(mac) { syn::parse2(mac.tokens.clone()).ok() } else { None }
+    }
+
     /// from `<expr>` into `Enum::VariantN(<expr>)`
     pub(super) fn next_expr(&mut self, expr: Expr) -> Expr {
         self.next_expr_with_attrs(vec![], expr)
diff --git a/src/auto_enum/expr.rs b/src/auto_enum/expr.rs
index 78f01aa..6b3dab0 100644
--- a/src/auto_enum/expr.rs
+++ b/src/auto_enum/expr.rs
@@ -1,5 +1,6 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
+use quote::ToTokens as _;
 use syn::{
     Arm, Block, Expr, ExprBlock, ExprBreak, ExprCall, ExprForLoop, ExprIf, ExprLoop, ExprMacro,
     ExprMatch, ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, ExprWhile, Item, Label,
@@ -208,6 +209,13 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
             self.nested = tmp;
         }
 
+        fn visit_macro_mut(&mut self, node: &mut Macro) {
+            if let Some(mut arg) = self.cx.marker_arg(node) {
+                self.visit_expr_mut(&mut arg);
+                node.tokens = arg.into_token_stream();
+            }
+        }
+
         fn visit_item_mut(&mut self, _: &mut Item) {
             // Do not recurse into nested items.
         }
diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index 5795167..380047a 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -6,7 +6,7 @@ use proc_macro2::TokenStream;
 use quote::ToTokens as _;
 use syn::{
     Arm, Attribute, Expr, ExprMacro, ExprMatch, ExprReturn, ExprTry, Item, Local, LocalInit,
-    MetaList, Stmt, StmtMacro, Token, parse_quote, token,
+    Macro, MetaList, Stmt, StmtMacro, Token, parse_quote, token,
     visit_mut::{self, VisitMut},
 };
 
@@ -273,6 +273,15 @@ impl VisitMut for Visitor<'_> {
         }
     }
 
+    fn visit_macro_mut(&mut self, node: &mut Macro) {
+        if !self.cx.has_error() {
+            if let Some(mut arg) = self.cx.marker_arg(node) {
+                self.visit_expr_mut(&mut arg);
+                node.tokens = arg.into_token_stream();
+            }
+        }
+    }
+
     fn visit_item_mut(&mut self, _: &mut Item) {
         // Do not recurse into nested items.
     }
@@ -497,6 +506,13 @@ pub(super) fn visit_fn(cx: &Context, node: &mut impl Node) -> FnCount {
             self.scope = tmp;
         }
 
+        fn visit_macro_mut(&mut self, node: &mut Macro) {
+            if let Some(mut arg) = self.cx.marker_arg(node) {
+                self.visit_expr_mut(&mut arg);
+                node.tokens = arg.into_token_stream();
+            }
+        }
+
         fn visit_item_mut(&mut self, _: &mut Item) {
             // Do not recurse into nested items.
         }
-- 
2.43.0


From d59aa2ea46cc1efa6d1ee647d205636d2553fca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:26 +0000
Subject: [PATCH 12/23] fix: auto_enum: do not count ? in try blocks as ? of
 the function

---
 src/auto_enum/visitor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index 380047a..b0cc4bb 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -470,8 +470,8 @@ pub(super) fn visit_fn(cx: &Context, node: &mut impl Node) -> FnCount {
             if !self.scope.closure && !node.any_empty_attr(NEVER) {
                 match node {
                     Expr::Try(ExprTry { expr, .. }) => {
-                        // Skip if `<expr>` is a marker macro.
-                        if !self.cx.is_marker_expr(expr) {
+                        // Skip if `<expr>` is a marker macro or `?` belongs to a try block.
+                        if !self.scope.try_block && !self.cx.is_marker_expr(expr) {
                             self.count.try_ += 1;
                         }
                     }
-- 
2.43.0


From 8d8f35515d678ca9e049a1df4d255033ae3924d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:31 +0000
Subject: [PATCH 13/23] fix: type_analysis: do not ignore the attribute on a
 function whose variants are marker macros or nested annotations

---
 src/auto_enum/context.rs |  2 +-
 src/auto_enum/mod.rs     | 16 ++++++++++++----
 src/auto_enum/visitor.rs |  8 ++++++++
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/auto_enum/context.rs b/src/auto_enum/context.rs
index d2c53bb..4f96f5b 100644
--- a/src/auto_enum/context.rs
+++ b/src/auto_enum/context.rs
@@ -24,7 +24,7 @@ use crate::utils::{Node, expr_call, path, replace_expr, unit};
 #[derive(Clone, Copy, PartialEq)]
 pub(super) enum VisitMode {
     Default,
-    Return(/* count */ usize),
+    Return(/* count of `return` and marker macros */ usize),
     Try,
 }
 
diff --git a/src/auto_enum/mod.rs b/src/auto_enum/mod.rs
index fcae069..e7c3b0d 100644
--- a/src/auto_enum/mod.rs
+++ b/src/auto_enum/mod.rs
@@ -64,7 +64,7 @@ fn expand_expr(cx: &mut Context, expr: &mut Expr) {
             if count.try_ >= 2 {
                 cx.visit_mode = VisitMode::Try;
             } else {
-                cx.visit_mode = VisitMode::Return(count.return_);
+                cx.visit_mode = VisitMode::Return(count.return_ + count.marker);
             }
             &mut **body
         }
@@ -76,7 +76,11 @@ fn expand_expr(cx: &mut Context, expr: &mut Expr) {
     #[cfg(feature = "type_analysis")]
     {
         if let VisitMode::Return(count) = cx.visit_mode {
-            if cx.args.is_empty() && cx.variant_is_empty() && count < 2 {
+            if cx.args.is_empty()
+                && cx.variant_is_empty()
+                && count < 2
+                && !visitor::find_nested(expr)
+            {
                 cx.dummy(expr);
                 return;
             }
@@ -159,7 +163,7 @@ fn expand_parent_item_fn(cx: &mut Context, item: &mut ItemFn) {
             // `return`
             Type::ImplTrait(_) if cx.visit_last_mode != VisitLastMode::Never => {
                 let count = visitor::visit_fn(cx, &mut **block);
-                cx.visit_mode = VisitMode::Return(count.return_);
+                cx.visit_mode = VisitMode::Return(count.return_ + count.marker);
             }
 
             // `?` operator
@@ -215,7 +219,11 @@ fn expand_parent_item_fn(cx: &mut Context, item: &mut ItemFn) {
     #[cfg(feature = "type_analysis")]
     {
         if let VisitMode::Return(count) = cx.visit_mode {
-            if cx.args.is_empty() && cx.variant_is_empty() && count < 2 {
+            if cx.args.is_empty()
+                && cx.variant_is_empty()
+                && count < 2
+                && !visitor::find_nested(item)
+            {
                 cx.dummy(item);
                 return;
             }
diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index b0cc4bb..2dabe4d 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -452,6 +452,7 @@ pub(super) fn find_nested(node: &mut impl Node) -> bool {
 pub(super) struct FnCount {
     pub(super) try_: usize,
     pub(super) return_: usize,
+    pub(super) marker: usize,
 }
 
 pub(super) fn visit_fn(cx: &Context, node: &mut impl Node) -> FnCount {
@@ -507,6 +508,13 @@ pub(super) fn visit_fn(cx: &Context, node: &mut impl Node) -> FnCount {
         }
 
         fn visit_macro_mut(&mut self, node: &mut Macro) {
+            // Skip if `marker!` is a marker macro of the other `auto_enum` attributes.
+            if self.cx.is_marker_macro_exact(node)
+                && (!self.scope.foreign || self.cx.current_marker != DEFAULT_MARKER)
+            {
+                self.count.marker += 1;
+            }
+
             if let Some(mut arg) = self.cx.marker_arg(node) {
                 self.visit_expr_mut(&mut arg);
                 node.tokens = arg.into_token_stream();
-- 
2.43.0


From a1ae315541b7c1e0f1f436aa84495d07611abc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:27 +0000
Subject: [PATCH 14/23] fix: detect marker names of all enclosing attributes,
 not only of the root

---
 src/auto_enum/context.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/auto_enum/context.rs b/src/auto_enum/context.rs
index 4f96f5b..694b77d 100644
--- a/src/auto_enum/context.rs
+++ b/src/auto_enum/context.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
 use std::{
-    cell::RefCell, collections::hash_map::DefaultHasher, hash::Hasher as _, iter, mem, thread,
+    cell::RefCell, collections::hash_map::DefaultHasher, hash::Hasher as _, iter, thread,
 };
 
 use proc_macro2::TokenStream;
@@ -128,20 +128,21 @@ impl Context {
     /// Make a new `Context` as a child based on a parent context `self`.
     pub(super) fn make_child(&mut self, span: TokenStream, args: TokenStream) -> Result<Self> {
         debug_assert!(self.has_child);
-        Self::new(
+        let child = Self::new(
             span,
             args,
             false,
-            mem::take(&mut self.markers),
+            self.markers.clone(),
             self.error.borrow_mut().as_mut().unwrap().take(),
-        )
+        )?;
+        // Attributes inside of the child are also found by `self`.
+        self.markers.push(child.current_marker.clone());
+        Ok(child)
     }
 
     /// Merge a child `Context` into a parent context `self`.
-    pub(super) fn join_child(&mut self, mut child: Self) {
-        debug_assert!(self.markers.is_empty());
-        child.markers.pop();
-        mem::swap(&mut self.markers, &mut child.markers);
+    pub(super) fn join_child(&mut self, child: Self) {
+        self.markers.pop();
 
         if let Some(message) = child.error.borrow_mut().take().unwrap() {
             self.error(message);
-- 
2.43.0


From 19face215d29dafea5a5e1237b6fa0a2fc9d7b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:53 +0000
Subject: [PATCH 15/23] fix: report the attribute on a macro statement without
 two markers instead of ignoring it

---
 src/auto_enum/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/auto_enum/mod.rs b/src/auto_enum/mod.rs
index e7c3b0d..4a8444b 100644
--- a/src/auto_enum/mod.rs
+++ b/src/auto_enum/mod.rs
@@ -6,13 +6,15 @@ mod expr;
 mod type_analysis;
 mod visitor;
 
+use std::mem;
+
 use proc_macro2::TokenStream;
 use quote::ToTokens as _;
 #[cfg(feature = "type_analysis")]
 use syn::Pat;
 use syn::{
-    AngleBracketedGenericArguments, Error, Expr, ExprClosure, GenericArgument, Item, ItemEnum,
-    ItemFn, Local, LocalInit, PathArguments, ReturnType, Stmt, Type, TypePath,
+    AngleBracketedGenericArguments, Error, Expr, ExprClosure, ExprMacro, GenericArgument, Item,
+    ItemEnum, ItemFn, Local, LocalInit, PathArguments, ReturnType, Stmt, StmtMacro, Type, TypePath,
 };
 
 use self::{
@@ -107,7 +109,12 @@ fn expand_parent_stmt(cx: &mut Context, stmt: &mut Stmt) {
         Stmt::Item(item) => {
             cx.error(format_err!(item, "may only be used on expression, statement, or function"));
         }
-        Stmt::Macro(_) => {}
+        Stmt::Macro(StmtMacro { attrs, mac, semi_token }) => {
+            let mut expr =
+                Expr::Macro(ExprMacro { attrs: mem::take(attrs), mac: mac.clone() });
+            expand_parent_expr(cx, &mut expr, semi_token.is_some());
+            *stmt = Stmt::Expr(expr, *semi_token);
+        }
     }
 }
 
-- 
2.43.0


From dfd01957f6632928a722797ca1b3b65fa7d2d615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:15 +0000
Subject: [PATCH 16/23] fix: enum_derive: do not allow Unpin implementations
 for specific type arguments, accept fields that are not Unpin

---
 src/enum_derive.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index ccf7be2..0c4c995 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -326,18 +326,25 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
 
         // Automatically create the appropriate conditional `Unpin` implementation.
         // https://github.com/taiki-e/pin-project/blob/v1.1.5/examples/struct-default-expanded.rs#L98
-        // TODO: use https://github.com/taiki-e/pin-project/issues/102#issuecomment-540472282's trick.
         // TODO: https://github.com/taiki-e/pin-project/pull/357 is also needed?
-        items.extend(derive_utils::derive_trait(
-            &data,
-            &parse_quote!(::core::marker::Unpin),
-            None,
-            parse_quote! {
-                trait Unpin {}
-            },
-        ));
-
+        // The bound is on a tuple of the fields rather than on the fields, because whether a foreign type is Unpin
+        // is left to its crate, so that no implementation for specific type arguments is regarded as disjoint
+        // from this one. The lifetime makes it acceptable if a field type is known not to be Unpin.
         let name = &item.ident;
+        let fields = data.field_types();
+        let mut generics = item.generics.clone();
+        generics.params.insert(0, parse_quote!('__pin));
+        generics
+            .make_where_clause()
+            .predicates
+            .push(parse_quote!((&'__pin (), #(#fields),*): ::core::marker::Unpin));
+        let (impl_generics, _, where_clause) = generics.split_for_impl();
+        let (_, ty_generics, _) = item.generics.split_for_impl();
+        items.extend(quote! {
+            #[automatically_derived]
+            impl #impl_generics ::core::marker::Unpin for #name #ty_generics #where_clause {}
+        });
+
         let (impl_generics, ty_generics, where_clause) = item.generics.split_for_impl();
         // Ensure that enum does not implement `Drop`.
         // https://github.com/taiki-e/pin-project/blob/v1.1.5/examples/struct-default-expanded.rs#L147
-- 
2.43.0


From c7b8eac0b3a86b726ca4843028625730c79f74a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:48 +0000
Subject: [PATCH 17/23] fix: enum_derive: name the trait of associated types, a
 variant may be called like one

---
 src/derive/core/future.rs         |  2 +-
 src/derive/core/iter.rs           | 36 +++++++++++++++----------------
 src/derive/core/ops.rs            | 16 +++++++-------
 src/derive/external/futures01.rs  | 12 +++++------
 src/derive/external/futures03.rs  | 10 ++++-----
 src/derive/external/http_body1.rs |  2 +-
 src/derive/external/rayon.rs      |  6 +++---
 7 files changed, 42 insertions(+), 42 deletions(-)

diff --git a/src/derive/core/future.rs b/src/derive/core/future.rs
index 367f95b..1ae4d95 100644
--- a/src/derive/core/future.rs
+++ b/src/derive/core/future.rs
@@ -27,7 +27,7 @@ pub(crate) fn derive(cx: &Context, data: &Data) -> Result<TokenStream> {
         fn poll(
             self: #pin<&mut Self>,
             cx: &mut ::core::task::Context<'_>,
-        ) -> ::core::task::Poll<Self::Output> {
+        ) -> ::core::task::Poll<<Self as #trait_>::Output> {
             unsafe {
                 match self.get_unchecked_mut() { #(#poll)* }
             }
diff --git a/src/derive/core/iter.rs b/src/derive/core/iter.rs
index d12d1e4..531934c 100644
--- a/src/derive/core/iter.rs
+++ b/src/derive/core/iter.rs
@@ -11,49 +11,49 @@ pub(crate) mod iterator {
             trait Iterator {
                 type Item;
                 #[inline]
-                fn next(&mut self) -> ::core::option::Option<Self::Item>;
+                fn next(&mut self) -> ::core::option::Option<<Self as ::core::iter::Iterator>::Item>;
                 #[inline]
                 fn size_hint(&self) -> (usize, ::core::option::Option<usize>);
                 #[inline]
                 fn count(self) -> usize;
                 #[inline]
-                fn last(self) -> ::core::option::Option<Self::Item>;
+                fn last(self) -> ::core::option::Option<<Self as ::core::iter::Iterator>::Item>;
                 #[inline]
-                fn nth(&mut self, n: usize) -> ::core::option::Option<Self::Item>;
+                fn nth(&mut self, n: usize) -> ::core::option::Option<<Self as ::core::iter::Iterator>::Item>;
                 #[inline]
                 #[must_use = "if you really need to exhaust the iterator, consider `.for_each(drop)` instead"]
-                fn collect<__U: ::core::iter::FromIterator<Self::Item>>(self) -> __U;
+                fn collect<__U: ::core::iter::FromIterator<<Self as ::core::iter::Iterator>::Item>>(self) -> __U;
                 #[inline]
                 fn partition<__U, __F>(self, f: __F) -> (__U, __U)
                 where
-                    __U: ::core::default::Default + ::core::iter::Extend<Self::Item>,
-                    __F: ::core::ops::FnMut(&Self::Item) -> bool;
+                    __U: ::core::default::Default + ::core::iter::Extend<<Self as ::core::iter::Iterator>::Item>,
+                    __F: ::core::ops::FnMut(&<Self as ::core::iter::Iterator>::Item) -> bool;
 
                 // Once try_trait_v2 is stabilized, we can replace these by implementing try_rfold.
                 #[inline]
                 fn fold<__U, __F>(self, init: __U, f: __F) -> __U
                 where
-                    __F: ::core::ops::FnMut(__U, Self::Item) -> __U;
+                    __F: ::core::ops::FnMut(__U, <Self as ::core::iter::Iterator>::Item) -> __U;
                 #[inline]
                 fn all<__F>(&mut self, f: __F) -> bool
                 where
-                    __F: ::core::ops::FnMut(Self::Item) -> bool;
+                    __F: ::core::ops::FnMut(<Self as ::core::iter::Iterator>::Item) -> bool;
                 #[inline]
                 fn any<__F>(&mut self, f: __F) -> bool
                 where
-                    __F: ::core::ops::FnMut(Self::Item) -> bool;
+                    __F: ::core::ops::FnMut(<Self as ::core::iter::Iterator>::Item) -> bool;
                 #[inline]
-                fn find<__P>(&mut self, predicate: __P) -> ::core::option::Option<Self::Item>
+                fn find<__P>(&mut self, predicate: __P) -> ::core::option::Option<<Self as ::core::iter::Iterator>::Item>
                 where
-                    __P: ::core::ops::FnMut(&Self::Item) -> bool;
+                    __P: ::core::ops::FnMut(&<Self as ::core::iter::Iterator>::Item) -> bool;
                 #[inline]
                 fn find_map<__U, __F>(&mut self, f: __F) -> ::core::option::Option<__U>
                 where
-                    __F: ::core::ops::FnMut(Self::Item) -> ::core::option::Option<__U>;
+                    __F: ::core::ops::FnMut(<Self as ::core::iter::Iterator>::Item) -> ::core::option::Option<__U>;
                 #[inline]
                 fn position<__P>(&mut self, predicate: __P) -> ::core::option::Option<usize>
                 where
-                    __P: ::core::ops::FnMut(Self::Item) -> bool;
+                    __P: ::core::ops::FnMut(<Self as ::core::iter::Iterator>::Item) -> bool;
             }
         }))
     }
@@ -74,19 +74,19 @@ pub(crate) mod double_ended_iterator {
             parse_quote! {
                 trait DoubleEndedIterator: ::core::iter::Iterator {
                     #[inline]
-                    fn next_back(&mut self) -> ::core::option::Option<Self::Item>;
+                    fn next_back(&mut self) -> ::core::option::Option<<Self as ::core::iter::Iterator>::Item>;
                     #[inline]
-                    fn nth_back(&mut self, n: usize) -> ::core::option::Option<Self::Item>;
+                    fn nth_back(&mut self, n: usize) -> ::core::option::Option<<Self as ::core::iter::Iterator>::Item>;
 
                     // Once try_trait_v2 is stabilized, we can replace these by implementing try_rfold.
                     #[inline]
                     fn rfold<__U, __F>(self, init: __U, f: __F) -> __U
                     where
-                        __F: ::core::ops::FnMut(__U, Self::Item) -> __U;
+                        __F: ::core::ops::FnMut(__U, <Self as ::core::iter::Iterator>::Item) -> __U;
                     #[inline]
-                    fn rfind<__P>(&mut self, predicate: __P) -> ::core::option::Option<Self::Item>
+                    fn rfind<__P>(&mut self, predicate: __P) -> ::core::option::Option<<Self as ::core::iter::Iterator>::Item>
                     where
-                        __P: ::core::ops::FnMut(&Self::Item) -> bool;
+                        __P: ::core::ops::FnMut(&<Self as ::core::iter::Iterator>::Item) -> bool;
                 }
             },
         ))
diff --git a/src/derive/core/ops.rs b/src/derive/core/ops.rs
index 4288603..4b31962 100644
--- a/src/derive/core/ops.rs
+++ b/src/derive/core/ops.rs
@@ -11,7 +11,7 @@ pub(crate) mod deref {
             trait Deref {
                 type Target;
                 #[inline]
-                fn deref(&self) -> &Self::Target;
+                fn deref(&self) -> &<Self as ::core::ops::Deref>::Target;
             }
         }))
     }
@@ -31,7 +31,7 @@ pub(crate) mod deref_mut {
             parse_quote! {
                 trait DerefMut: ::core::ops::Deref {
                     #[inline]
-                    fn deref_mut(&mut self) -> &mut Self::Target;
+                    fn deref_mut(&mut self) -> &mut <Self as ::core::ops::Deref>::Target;
                 }
             },
         ))
@@ -49,7 +49,7 @@ pub(crate) mod index {
             trait Index<__Idx> {
                 type Output;
                 #[inline]
-                fn index(&self, index: __Idx) -> &Self::Output;
+                fn index(&self, index: __Idx) -> &<Self as ::core::ops::Index<__Idx>>::Output;
             }
         }))
     }
@@ -69,7 +69,7 @@ pub(crate) mod index_mut {
             parse_quote! {
                 trait IndexMut<__Idx>: ::core::ops::Index<__Idx> {
                     #[inline]
-                    fn index_mut(&mut self, index: __Idx) -> &mut Self::Output;
+                    fn index_mut(&mut self, index: __Idx) -> &mut <Self as ::core::ops::Index<__Idx>>::Output;
                 }
             },
         ))
@@ -124,7 +124,7 @@ pub(crate) mod coroutine {
             fn resume(
                 self: #pin<&mut Self>,
                 arg: __R,
-            ) -> ::core::ops::CoroutineState<Self::Yield, Self::Return> {
+            ) -> ::core::ops::CoroutineState<<Self as #trait_<__R>>::Yield, <Self as #trait_<__R>>::Return> {
                 unsafe {
                     match self.get_unchecked_mut() { #(#resume)* }
                 }
@@ -156,7 +156,7 @@ pub(crate) mod fn_ {
 
         impl_.push_method(parse_quote! {
             #[inline]
-            extern "rust-call" fn call(&self, args: (__T,)) -> Self::Output;
+            extern "rust-call" fn call(&self, args: (__T,)) -> <Self as ::core::ops::FnOnce<(__T,)>>::Output;
         });
 
         Ok(impl_.build())
@@ -184,7 +184,7 @@ pub(crate) mod fn_mut {
 
         impl_.push_method(parse_quote! {
             #[inline]
-            extern "rust-call" fn call_mut(&mut self, args: (__T,)) -> Self::Output;
+            extern "rust-call" fn call_mut(&mut self, args: (__T,)) -> <Self as ::core::ops::FnOnce<(__T,)>>::Output;
         });
 
         Ok(impl_.build())
@@ -214,7 +214,7 @@ pub(crate) mod fn_once {
             trait FnOnce {
                 type Output;
                 #[inline]
-                extern "rust-call" fn call_once(self, args: (__T,)) -> Self::Output;
+                extern "rust-call" fn call_once(self, args: (__T,)) -> <Self as ::core::ops::FnOnce<(__T,)>>::Output;
             }
         });
 
diff --git a/src/derive/external/futures01.rs b/src/derive/external/futures01.rs
index 9093e70..b394fd5 100644
--- a/src/derive/external/futures01.rs
+++ b/src/derive/external/futures01.rs
@@ -11,7 +11,7 @@ pub(crate) mod future {
                 type Item;
                 type Error;
                 #[inline]
-                fn poll(&mut self) -> ::futures::Poll<Self::Item, Self::Error>;
+                fn poll(&mut self) -> ::futures::Poll<<Self as ::futures::future::Future>::Item, <Self as ::futures::future::Future>::Error>;
             }
         }))
     }
@@ -30,7 +30,7 @@ pub(crate) mod stream {
                 #[inline]
                 fn poll(
                     &mut self,
-                ) -> ::futures::Poll<::core::option::Option<Self::Item>, Self::Error>;
+                ) -> ::futures::Poll<::core::option::Option<<Self as ::futures::stream::Stream>::Item>, <Self as ::futures::stream::Stream>::Error>;
             }
         }))
     }
@@ -49,12 +49,12 @@ pub(crate) mod sink {
                 #[inline]
                 fn start_send(
                     &mut self,
-                    item: Self::SinkItem,
-                ) -> ::futures::StartSend<Self::SinkItem, Self::SinkError>;
+                    item: <Self as ::futures::sink::Sink>::SinkItem,
+                ) -> ::futures::StartSend<<Self as ::futures::sink::Sink>::SinkItem, <Self as ::futures::sink::Sink>::SinkError>;
                 #[inline]
-                fn poll_complete(&mut self) -> ::futures::Poll<(), Self::SinkError>;
+                fn poll_complete(&mut self) -> ::futures::Poll<(), <Self as ::futures::sink::Sink>::SinkError>;
                 #[inline]
-                fn close(&mut self) -> ::futures::Poll<(), Self::SinkError>;
+                fn close(&mut self) -> ::futures::Poll<(), <Self as ::futures::sink::Sink>::SinkError>;
             }
         }))
     }
diff --git a/src/derive/external/futures03.rs b/src/derive/external/futures03.rs
index 7d030bf..4729c4a 100644
--- a/src/derive/external/futures03.rs
+++ b/src/derive/external/futures03.rs
@@ -265,7 +265,7 @@ pub(crate) mod sink {
             fn poll_ready(
                 self: #pin<&mut Self>,
                 cx: &mut ::core::task::Context<'_>,
-            ) -> ::core::task::Poll<::core::result::Result<(), Self::Error>> {
+            ) -> ::core::task::Poll<::core::result::Result<(), <Self as #trait_<__Item>>::Error>> {
                 unsafe {
                     match self.get_unchecked_mut() { #(#poll_ready)* }
                 }
@@ -282,7 +282,7 @@ pub(crate) mod sink {
             fn start_send(
                 self: #pin<&mut Self>,
                 item: __Item,
-            ) -> ::core::result::Result<(), Self::Error> {
+            ) -> ::core::result::Result<(), <Self as #trait_<__Item>>::Error> {
                 unsafe {
                     match self.get_unchecked_mut() { #(#start_send)* }
                 }
@@ -299,7 +299,7 @@ pub(crate) mod sink {
             fn poll_flush(
                 self: #pin<&mut Self>,
                 cx: &mut ::core::task::Context<'_>,
-            ) -> ::core::task::Poll<::core::result::Result<(), Self::Error>> {
+            ) -> ::core::task::Poll<::core::result::Result<(), <Self as #trait_<__Item>>::Error>> {
                 unsafe {
                     match self.get_unchecked_mut() { #(#poll_flush)* }
                 }
@@ -316,7 +316,7 @@ pub(crate) mod sink {
             fn poll_close(
                 self: #pin<&mut Self>,
                 cx: &mut ::core::task::Context<'_>,
-            ) -> ::core::task::Poll<::core::result::Result<(), Self::Error>> {
+            ) -> ::core::task::Poll<::core::result::Result<(), <Self as #trait_<__Item>>::Error>> {
                 unsafe {
                     match self.get_unchecked_mut() { #(#poll_close)* }
                 }
@@ -357,7 +357,7 @@ pub(crate) mod stream {
             fn poll_next(
                 self: #pin<&mut Self>,
                 cx: &mut ::core::task::Context<'_>,
-            ) -> ::core::task::Poll<::core::option::Option<Self::Item>> {
+            ) -> ::core::task::Poll<::core::option::Option<<Self as #trait_>::Item>> {
                 unsafe {
                     match self.get_unchecked_mut() { #(#poll_next)* }
                 }
diff --git a/src/derive/external/http_body1.rs b/src/derive/external/http_body1.rs
index 68e5bcd..1ef1c79 100644
--- a/src/derive/external/http_body1.rs
+++ b/src/derive/external/http_body1.rs
@@ -34,7 +34,7 @@ pub(crate) mod body {
                 cx: &mut ::core::task::Context<'_>,
             ) -> ::core::task::Poll<
                 ::core::option::Option<
-                    ::core::result::Result<::http_body::Frame<Self::Data>, Self::Error>,
+                    ::core::result::Result<::http_body::Frame<<Self as #trait_>::Data>, <Self as #trait_>::Error>,
                 >,
             > {
                 unsafe {
diff --git a/src/derive/external/rayon.rs b/src/derive/external/rayon.rs
index 98fcbe6..d44d51e 100644
--- a/src/derive/external/rayon.rs
+++ b/src/derive/external/rayon.rs
@@ -12,7 +12,7 @@ pub(crate) mod par_iter {
                 #[inline]
                 fn drive_unindexed<__C>(self, consumer: __C) -> __C::Result
                 where
-                    __C: ::rayon::iter::plumbing::UnindexedConsumer<Self::Item>;
+                    __C: ::rayon::iter::plumbing::UnindexedConsumer<<Self as ::rayon::iter::ParallelIterator>::Item>;
                 #[inline]
                 fn opt_len(&self) -> ::core::option::Option<usize>;
             }
@@ -35,13 +35,13 @@ pub(crate) mod indexed_par_iter {
                     #[inline]
                     fn drive<__C>(self, consumer: __C) -> __C::Result
                     where
-                        __C: ::rayon::iter::plumbing::Consumer<Self::Item>;
+                        __C: ::rayon::iter::plumbing::Consumer<<Self as ::rayon::iter::ParallelIterator>::Item>;
                     #[inline]
                     fn len(&self) -> usize;
                     #[inline]
                     fn with_producer<__CB>(self, callback: __CB) -> __CB::Output
                     where
-                        __CB: ::rayon::iter::plumbing::ProducerCallback<Self::Item>;
+                        __CB: ::rayon::iter::plumbing::ProducerCallback<<Self as ::rayon::iter::ParallelIterator>::Item>;
                 }
             },
         ))
-- 
2.43.0


From 79e6aa2224836c8e2cf9a8511270ec0bc2c71870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:48 +0000
Subject: [PATCH 18/23] fix: enum_derive(rayon::ParallelExtend): do not refer
 to the Send in scope

---
 src/derive/external/rayon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/derive/external/rayon.rs b/src/derive/external/rayon.rs
index d44d51e..fcab7c6 100644
--- a/src/derive/external/rayon.rs
+++ b/src/derive/external/rayon.rs
@@ -55,7 +55,7 @@ pub(crate) mod par_extend {
 
     pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
         Ok(derive_trait(data, &parse_quote!(::rayon::iter::ParallelExtend), None, parse_quote! {
-            trait ParallelExtend<__T: Send> {
+            trait ParallelExtend<__T: ::core::marker::Send> {
                 #[inline]
                 fn par_extend<__I>(&mut self, par_iter: __I)
                 where
-- 
2.43.0


From 6e11574d191c0a1e0d854ab099231aef324f0549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:07 +0000
Subject: [PATCH 19/23] fix: enum_derive(AsRef, AsMut, RangeBounds): do not
 refer to the Sized in scope

---
 src/derive/core/convert.rs | 4 ++--
 src/derive/core/ops.rs     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/derive/core/convert.rs b/src/derive/core/convert.rs
index e65d169..76acd3d 100644
--- a/src/derive/core/convert.rs
+++ b/src/derive/core/convert.rs
@@ -7,7 +7,7 @@ pub(crate) mod as_ref {
 
     pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
         Ok(derive_trait(data, &parse_quote!(::core::convert::AsRef), None, parse_quote! {
-            trait AsRef<__T: ?Sized> {
+            trait AsRef<__T: ?::core::marker::Sized> {
                 #[inline]
                 fn as_ref(&self) -> &__T;
             }
@@ -22,7 +22,7 @@ pub(crate) mod as_mut {
 
     pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
         Ok(derive_trait(data, &parse_quote!(::core::convert::AsMut), None, parse_quote! {
-            trait AsMut<__T: ?Sized> {
+            trait AsMut<__T: ?::core::marker::Sized> {
                 #[inline]
                 fn as_mut(&mut self) -> &mut __T;
             }
diff --git a/src/derive/core/ops.rs b/src/derive/core/ops.rs
index 4b31962..bb1bf22 100644
--- a/src/derive/core/ops.rs
+++ b/src/derive/core/ops.rs
@@ -84,7 +84,7 @@ pub(crate) mod range_bounds {
 
     pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
         Ok(derive_trait(data, &parse_quote!(::core::ops::RangeBounds), None, parse_quote! {
-            trait RangeBounds<__T: ?Sized> {
+            trait RangeBounds<__T: ?::core::marker::Sized> {
                 #[inline]
                 fn start_bound(&self) -> ::core::ops::Bound<&__T>;
                 #[inline]
-- 
2.43.0


From ea4669805d811c4519402de4a02230cabf06df43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:16 +0000
Subject: [PATCH 20/23] fix: enum_derive: allow deprecated items in the
 implementations for an enum that uses them

---
 src/enum_derive.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index 0c4c995..7a545ec 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -6,9 +6,11 @@ use derive_utils::EnumData as Data;
 use proc_macro2::TokenStream;
 use quote::{ToTokens as _, quote};
 use syn::{
-    Error, GenericParam, ItemEnum, Path, Result, Token,
+    Attribute, Error, File, GenericParam, Item, ItemConst, ItemEnum, ItemImpl, Meta, Path, Result,
+    Token,
     parse::{Parse, ParseStream},
     parse_quote,
+    punctuated::Punctuated,
 };
 
 pub(crate) fn attribute(args: TokenStream, input: TokenStream) -> TokenStream {
@@ -360,6 +362,17 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
         });
     }
 
+    if uses_deprecated(&item) {
+        // The generated implementations use what the enum uses, and the enum itself.
+        let mut file = syn::parse2::<File>(items)?;
+        for item in &mut file.items {
+            if let Item::Impl(ItemImpl { attrs, .. }) | Item::Const(ItemConst { attrs, .. }) = item {
+                attrs.push(parse_quote!(#[allow(deprecated)]));
+            }
+        }
+        items = file.into_token_stream();
+    }
+
     if !derive.is_empty() {
         item.attrs.push(parse_quote!(#[derive(#(#derive),*)]));
     }
@@ -368,3 +381,19 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
     item.extend(items);
     Ok(item)
 }
+
+/// Returns `true` if the enum or a part of it is marked as deprecated, or is allowed to use something deprecated.
+fn uses_deprecated(item: &ItemEnum) -> bool {
+    fn any(attrs: &[Attribute]) -> bool {
+        attrs.iter().any(|attr| match &attr.meta {
+            meta if meta.path().is_ident("deprecated") => true,
+            Meta::List(list) if list.path.is_ident("allow") || list.path.is_ident("expect") => list
+                .parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated)
+                .map_or(false, |lints| lints.iter().any(|lint| lint.path().is_ident("deprecated"))),
+            _ => false,
+        })
+    }
+
+    any(&item.attrs)
+        || item.variants.iter().any(|v| any(&v.attrs) || v.fields.iter().any(|f| any(&f.attrs)))
+}
-- 
2.43.0


From d0882f299c860fa1387533b6808769e6a5bef0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:01 +0000
Subject: [PATCH 21/23] fix: auto_enum: do not cause unused_braces and
 unused_parens warnings for delimiters of branches

---
 src/auto_enum/mod.rs     |  3 ++-
 src/auto_enum/visitor.rs |  4 ++--
 src/utils.rs             | 25 ++++++++++++++++++++++---
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/auto_enum/mod.rs b/src/auto_enum/mod.rs
index 4a8444b..7e54349 100644
--- a/src/auto_enum/mod.rs
+++ b/src/auto_enum/mod.rs
@@ -21,7 +21,7 @@ use self::{
     context::{Context, DEFAULT_MARKER, VisitLastMode, VisitMode},
     expr::child_expr,
 };
-use crate::utils::{block, expr_block, path_eq, replace_expr};
+use crate::utils::{block, expr_block, path_eq, replace_expr, respan_delimiters};
 
 /// The attribute name.
 const NAME: &str = "auto_enum";
@@ -94,6 +94,7 @@ fn expand_expr(cx: &mut Context, expr: &mut Expr) {
 
 fn build_expr(expr: &mut Expr, item: ItemEnum) {
     replace_expr(expr, |expr| {
+        let expr = respan_delimiters(expr);
         expr_block(block(vec![Stmt::Item(item.into()), Stmt::Expr(expr, None)]))
     });
 }
diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index 2dabe4d..d252111 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -11,7 +11,7 @@ use syn::{
 };
 
 use super::{Context, DEFAULT_MARKER, NAME, NESTED, NEVER, VisitMode};
-use crate::utils::{Attrs, Node, replace_expr};
+use crate::utils::{Attrs, Node, replace_expr, respan_delimiters};
 
 #[derive(Clone, Copy, Default)]
 struct Scope {
@@ -119,7 +119,7 @@ impl<'a> Visitor<'a> {
                         Expr::Match(ExprMatch {
                             attrs,
                             match_token: <Token![match]>::default(),
-                            expr,
+                            expr: Box::new(respan_delimiters(*expr)),
                             brace_token: token::Brace::default(),
                             arms,
                         })
diff --git a/src/utils.rs b/src/utils.rs
index aa5c608..46f80a1 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -2,9 +2,9 @@
 
 use std::{iter, mem};
 
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 use syn::{
-    Arm, Attribute, Block, Expr, ExprBlock, ExprCall, ExprPath, ExprTuple, ItemFn, Local, Meta,
+    Arm, Attribute, Block, Expr, ExprBlock, ExprCall, ExprParen, ExprPath, ExprTuple, ItemFn, Local, Meta,
     Path, PathSegment, Stmt, StmtMacro, punctuated::Punctuated, token, visit_mut::VisitMut,
 };
 
@@ -25,7 +25,7 @@ pub(crate) fn expr_call(attrs: Vec<Attribute>, path: Path, arg: Expr) -> Expr {
         attrs,
         func: Box::new(Expr::Path(ExprPath { attrs: vec![], qself: None, path })),
         paren_token: token::Paren::default(),
-        args: iter::once(arg).collect(),
+        args: iter::once(respan_delimiters(arg)).collect(),
     })
 }
 
@@ -49,6 +49,25 @@ pub(crate) fn replace_block(this: &mut Block, f: impl FnOnce(Block) -> Expr) {
     this.stmts = vec![Stmt::Expr(f(block(stmts)), None)];
 }
 
+/// Makes the delimiters of `{ <expr> }` and `(<expr>)` have `call_site` span.
+///
+/// This should be used for an expression that moves to a place where delimiters are redundant,
+/// otherwise, this will cause confusing warnings: https://github.com/rust-lang/rust/issues/71080
+pub(crate) fn respan_delimiters(mut expr: Expr) -> Expr {
+    match &mut expr {
+        Expr::Block(ExprBlock { label: None, block, .. }) => {
+            let span = block.brace_token.span.join();
+            block.brace_token = token::Brace(span.resolved_at(Span::call_site()));
+        }
+        Expr::Paren(ExprParen { paren_token, .. }) => {
+            let span = paren_token.span.join();
+            *paren_token = token::Paren(span.resolved_at(Span::call_site()));
+        }
+        _ => {}
+    }
+    expr
+}
+
 pub(crate) fn path_eq(path: &syn::Path, expected_crates: &[&str], expected_path: &[&str]) -> bool {
     if path.segments.len() == 1 && path.segments[0].ident == expected_path.last().unwrap() {
         return true;
-- 
2.43.0


From 9d7e0b29bbf385011d7a9192ad40dd665a5ca09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:10 +0000
Subject: [PATCH 22/23] fix: auto_enum: give the desugared `?` the place of the
 original

---
 src/auto_enum/visitor.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index d252111..f84dae6 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -2,11 +2,13 @@
 
 use std::mem;
 
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 use quote::ToTokens as _;
 use syn::{
     Arm, Attribute, Expr, ExprMacro, ExprMatch, ExprReturn, ExprTry, Item, Local, LocalInit,
-    Macro, MetaList, Stmt, StmtMacro, Token, parse_quote, token,
+    Macro, MetaList, Stmt, StmtMacro, Token, parse_quote,
+    spanned::Spanned as _,
+    token,
     visit_mut::{self, VisitMut},
 };
 
@@ -101,9 +103,13 @@ impl<'a> Visitor<'a> {
                 // Skip if `<expr>` is a marker macro.
                 Expr::Try(ExprTry { expr, .. }) if !self.cx.is_marker_expr(expr) => {
                     replace_expr(node, |expr| {
-                        let ExprTry { attrs, expr, .. } =
+                        let ExprTry { attrs, expr, question_token } =
                             if let Expr::Try(expr) = expr { expr } else { unreachable!() };
 
+                        // Warnings and errors about the match should point to `<expr>?`.
+                        let start = expr.span().resolved_at(Span::call_site());
+                        let end = question_token.span.resolved_at(Span::call_site());
+
                         let err = self.cx.next_expr(parse_quote!(err));
                         let arms = vec![
                             parse_quote! {
@@ -118,9 +124,9 @@ impl<'a> Visitor<'a> {
 
                         Expr::Match(ExprMatch {
                             attrs,
-                            match_token: <Token![match]>::default(),
+                            match_token: Token![match](start),
                             expr: Box::new(respan_delimiters(*expr)),
-                            brace_token: token::Brace::default(),
+                            brace_token: token::Brace(end),
                             arms,
                         })
                     });
-- 
2.43.0


From f3e1c603dbfb5383bb0676811e9dd562bc15689c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:36 +0000
Subject: [PATCH 23/23] fix: handle return, ?, break and markers in the
 argument of a marker of an attribute inside

---
 src/auto_enum/context.rs | 28 +++++++++++++++++++++++-----
 src/auto_enum/expr.rs    | 21 +++++++++++++++++----
 src/auto_enum/mod.rs     |  2 +-
 src/auto_enum/visitor.rs | 21 +++++++++++++++------
 4 files changed, 56 insertions(+), 16 deletions(-)

diff --git a/src/auto_enum/context.rs b/src/auto_enum/context.rs
index 694b77d..c894bcc 100644
--- a/src/auto_enum/context.rs
+++ b/src/auto_enum/context.rs
@@ -9,12 +9,15 @@ use quote::format_ident;
 #[cfg(feature = "type_analysis")]
 use syn::Type;
 use syn::{
-    Attribute, Error, Expr, Ident, ItemEnum, Macro, Path, Result, Token,
+    Attribute, Error, Expr, Ident, ItemEnum, Macro, Meta, Path, Result, Token,
     parse::{Parse, ParseStream},
     parse_quote,
 };
 
-use super::visitor::{Dummy, Visitor};
+use super::{
+    NAME,
+    visitor::{Dummy, Visitor},
+};
 use crate::utils::{Node, expr_call, path, replace_expr, unit};
 
 // -----------------------------------------------------------------------------
@@ -209,9 +212,14 @@ impl Context {
         mac.path.is_ident(&self.current_marker)
     }
 
-    /// Returns the argument of `mac` if `mac` is the marker macro of the current scope.
-    pub(super) fn marker_arg(&self, mac: &Macro) -> Option<Expr> {
-        if self.is_marker_macro_exact(mac) { syn::parse2(mac.tokens.clone()).ok() } else { None }
+    /// Returns the argument of `mac` if `mac` is the marker macro of the current scope, of an
+    /// attribute inside of it, or one of `markers`.
+    pub(super) fn marker_arg(&self, mac: &Macro, markers: &[String]) -> Option<Expr> {
+        if self.markers.iter().chain(markers).any(|marker| mac.path.is_ident(marker)) {
+            syn::parse2(mac.tokens.clone()).ok()
+        } else {
+            None
+        }
     }
 
     /// from `<expr>` into `Enum::VariantN(<expr>)`
@@ -307,6 +315,16 @@ struct Args {
     marker: Option<Ident>,
 }
 
+/// Returns the identifier of the marker macro of the `auto_enum` attribute in `attrs`.
+pub(super) fn child_marker(attrs: &[Attribute]) -> Option<String> {
+    let attr = attrs.iter().find(|attr| attr.path().is_ident(NAME))?;
+    let marker = match &attr.meta {
+        Meta::List(list) => list.parse_args::<Args>().ok().and_then(|args| args.marker),
+        _ => None,
+    };
+    Some(marker.map_or_else(|| DEFAULT_MARKER.to_owned(), |marker| marker.to_string()))
+}
+
 impl Parse for Args {
     fn parse(input: ParseStream<'_>) -> Result<Self> {
         let mut args = Vec::with_capacity((!input.is_empty()) as usize);
diff --git a/src/auto_enum/expr.rs b/src/auto_enum/expr.rs
index 6b3dab0..7a5522e 100644
--- a/src/auto_enum/expr.rs
+++ b/src/auto_enum/expr.rs
@@ -4,11 +4,11 @@ use quote::ToTokens as _;
 use syn::{
     Arm, Block, Expr, ExprBlock, ExprBreak, ExprCall, ExprForLoop, ExprIf, ExprLoop, ExprMacro,
     ExprMatch, ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, ExprWhile, Item, Label,
-    Lifetime, LocalInit, Macro, Stmt, StmtMacro, Token,
+    Lifetime, Local, LocalInit, Macro, Stmt, StmtMacro, Token,
     visit_mut::{self, VisitMut},
 };
 
-use super::{Context, NAME, NESTED, NEVER, visitor};
+use super::{Context, NAME, NESTED, NEVER, child_marker, visitor};
 use crate::utils::{Attrs as _, expr_block, path_eq, replace_block, replace_expr};
 
 /// Visits last expression.
@@ -151,6 +151,8 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
         cx: &'a mut Context,
         label: Option<&'a Label>,
         nested: bool,
+        /// The identifiers of the marker macros of the other `auto_enum` attributes.
+        markers: Vec<String>,
     }
 
     impl LoopVisitor<'_> {
@@ -205,12 +207,22 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
                 _ => {}
             }
 
+            let len = self.markers.len();
+            self.markers.extend(child_marker(node.attrs()));
             visit_mut::visit_expr_mut(self, node);
+            self.markers.truncate(len);
             self.nested = tmp;
         }
 
+        fn visit_local_mut(&mut self, node: &mut Local) {
+            let len = self.markers.len();
+            self.markers.extend(child_marker(&node.attrs));
+            visit_mut::visit_local_mut(self, node);
+            self.markers.truncate(len);
+        }
+
         fn visit_macro_mut(&mut self, node: &mut Macro) {
-            if let Some(mut arg) = self.cx.marker_arg(node) {
+            if let Some(mut arg) = self.cx.marker_arg(node, &self.markers) {
                 self.visit_expr_mut(&mut arg);
                 node.tokens = arg.into_token_stream();
             }
@@ -221,5 +233,6 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
         }
     }
 
-    LoopVisitor { cx, label: expr.label.as_ref(), nested: false }.visit_block_mut(&mut expr.body);
+    LoopVisitor { cx, label: expr.label.as_ref(), nested: false, markers: vec![] }
+        .visit_block_mut(&mut expr.body);
 }
diff --git a/src/auto_enum/mod.rs b/src/auto_enum/mod.rs
index 7e54349..da960d2 100644
--- a/src/auto_enum/mod.rs
+++ b/src/auto_enum/mod.rs
@@ -18,7 +18,7 @@ use syn::{
 };
 
 use self::{
-    context::{Context, DEFAULT_MARKER, VisitLastMode, VisitMode},
+    context::{Context, DEFAULT_MARKER, VisitLastMode, VisitMode, child_marker},
     expr::child_expr,
 };
 use crate::utils::{block, expr_block, path_eq, replace_expr, respan_delimiters};
diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index f84dae6..f2fdc7f 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -12,7 +12,7 @@ use syn::{
     visit_mut::{self, VisitMut},
 };
 
-use super::{Context, DEFAULT_MARKER, NAME, NESTED, NEVER, VisitMode};
+use super::{Context, DEFAULT_MARKER, NAME, NESTED, NEVER, VisitMode, child_marker};
 use crate::utils::{Attrs, Node, replace_expr, respan_delimiters};
 
 #[derive(Clone, Copy, Default)]
@@ -281,7 +281,7 @@ impl VisitMut for Visitor<'_> {
 
     fn visit_macro_mut(&mut self, node: &mut Macro) {
         if !self.cx.has_error() {
-            if let Some(mut arg) = self.cx.marker_arg(node) {
+            if let Some(mut arg) = self.cx.marker_arg(node, &[]) {
                 self.visit_expr_mut(&mut arg);
                 node.tokens = arg.into_token_stream();
             }
@@ -465,6 +465,8 @@ pub(super) fn visit_fn(cx: &Context, node: &mut impl Node) -> FnCount {
     struct FnVisitor<'a> {
         cx: &'a Context,
         scope: Scope,
+        /// The identifiers of the marker macros of the other `auto_enum` attributes.
+        markers: Vec<String>,
         count: FnCount,
     }
 
@@ -492,24 +494,30 @@ pub(super) fn visit_fn(cx: &Context, node: &mut impl Node) -> FnCount {
                 }
             }
 
-            if node.any_attr(NAME) {
+            let len = self.markers.len();
+            if let Some(marker) = child_marker(node.attrs()) {
                 self.scope.foreign = true;
+                self.markers.push(marker);
             }
 
             visit_mut::visit_expr_mut(self, node);
 
+            self.markers.truncate(len);
             self.scope = tmp;
         }
 
         fn visit_stmt_mut(&mut self, node: &mut Stmt) {
             let tmp = self.scope;
 
-            if node.any_attr(NAME) {
+            let len = self.markers.len();
+            if let Some(marker) = child_marker(node.attrs()) {
                 self.scope.foreign = true;
+                self.markers.push(marker);
             }
 
             visit_mut::visit_stmt_mut(self, node);
 
+            self.markers.truncate(len);
             self.scope = tmp;
         }
 
@@ -521,7 +529,7 @@ pub(super) fn visit_fn(cx: &Context, node: &mut impl Node) -> FnCount {
                 self.count.marker += 1;
             }
 
-            if let Some(mut arg) = self.cx.marker_arg(node) {
+            if let Some(mut arg) = self.cx.marker_arg(node, &self.markers) {
                 self.visit_expr_mut(&mut arg);
                 node.tokens = arg.into_token_stream();
             }
@@ -532,7 +540,8 @@ pub(super) fn visit_fn(cx: &Context, node: &mut impl Node) -> FnCount {
         }
     }
 
-    let mut visitor = FnVisitor { cx, scope: Scope::default(), count: FnCount::default() };
+    let mut visitor =
+        FnVisitor { cx, scope: Scope::default(), markers: vec![], count: FnCount::default() };
     node.visited(&mut visitor);
     visitor.count
 }
-- 
2.43.0

