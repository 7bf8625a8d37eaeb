From 31191e0a7225be753b9c4df5d9b7aa36b6eb3180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:30 +0000
Subject: [PATCH 01/11] fix: do not implement a dependency shared by several
 traits twice

---
 src/enum_derive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index dd85f65..df0b8df 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -266,7 +266,7 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
     let args = args.iter().fold(vec![], |mut v, (s, arg)| {
         if let Some(traits) = get_trait_deps(s) {
             for s in traits.iter().filter(|&x| !args.iter().any(|(s, _)| s == x)) {
-                if !exists_alias(s, &v) {
+                if !exists_alias(s, &v) && !v.iter().any(|(x, _)| x == s) {
                     v.push((s, None));
                 }
             }
-- 
2.43.0


From 21742c647d7e8c1107440e1acc5f5181a425bdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:30 +0000
Subject: [PATCH 02/11] fix: do not rewrite `return` and `?` in async blocks

---
 src/auto_enum/visitor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index b046fd8..0523774 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -25,7 +25,8 @@ impl Scope {
     // check this scope is in closures or try blocks.
     fn check_expr(&mut self, expr: &Expr) {
         match expr {
-            Expr::Closure(_) => self.closure = true,
+            // `return` and `?` operator in async blocks leave only the async block.
+            Expr::Closure(_) | Expr::Async(_) => self.closure = true,
             // `?` operator in try blocks are not supported.
             Expr::TryBlock(_) => self.try_block = true,
             _ => {}
-- 
2.43.0


From 08c2cc74a4d8eb08c34a190ced2141803d7a2daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:30 +0000
Subject: [PATCH 03/11] fix: handle repeated `impl Trait` bounds in type
 analysis

---
 src/auto_enum/type_analysis.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/auto_enum/type_analysis.rs b/src/auto_enum/type_analysis.rs
index 7948b02..0fc206a 100644
--- a/src/auto_enum/type_analysis.rs
+++ b/src/auto_enum/type_analysis.rs
@@ -24,11 +24,16 @@ pub(super) fn collect_impl_trait(args: &[Path], traits: &mut Vec<Path>, ty: &mut
                     let ty = path(ty.path.segments.iter().map(|ty| ty.ident.clone().into()));
                     let ty_str = ty.to_token_stream().to_string();
                     let ty_trimmed = ty_str.replace(' ', "");
-                    if TRAITS.contains(&&*ty_trimmed)
-                        && !self.args.iter().any(|x| x.to_token_stream().to_string() == ty_str)
-                    {
+                    if TRAITS.contains(&&*ty_trimmed) {
                         self.has_impl_trait = true;
-                        self.traits.push(ty);
+                        if !self
+                            .args
+                            .iter()
+                            .chain(&*self.traits)
+                            .any(|x| x.to_token_stream().to_string() == ty_str)
+                        {
+                            self.traits.push(ty);
+                        }
                     }
                 }
             }
-- 
2.43.0


From da0839736035c6df8c46781e80c7a8fa52827485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:30 +0000
Subject: [PATCH 04/11] fix: use reserved generic parameter name in Coroutine
 impl

---
 src/derive/core/ops.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/derive/core/ops.rs b/src/derive/core/ops.rs
index f3ca46e..4288603 100644
--- a/src/derive/core/ops.rs
+++ b/src/derive/core/ops.rs
@@ -107,7 +107,7 @@ pub(crate) mod coroutine {
         let pin = quote!(::core::pin::Pin);
         let trait_ = parse_quote!(::core::ops::Coroutine);
         let mut impl_ = EnumImpl::from_trait(data, &trait_, None, parse_quote! {
-            trait Coroutine<R> {
+            trait Coroutine<__R> {
                 type Yield;
                 type Return;
             }
@@ -116,14 +116,14 @@ pub(crate) mod coroutine {
 
         let resume = data.variant_idents().zip(data.field_types()).map(|(v, ty)| {
             quote! {
-                #ident::#v(x) => <#ty as #trait_<R>>::resume(#pin::new_unchecked(x), arg),
+                #ident::#v(x) => <#ty as #trait_<__R>>::resume(#pin::new_unchecked(x), arg),
             }
         });
         impl_.items.push(parse_quote! {
             #[inline]
             fn resume(
                 self: #pin<&mut Self>,
-                arg: R,
+                arg: __R,
             ) -> ::core::ops::CoroutineState<Self::Yield, Self::Return> {
                 unsafe {
                     match self.get_unchecked_mut() { #(#resume)* }
-- 
2.43.0


From a3c9caf3ab4d69886807e8130c3a3c7d7dffce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:30 +0000
Subject: [PATCH 05/11] fix: accept `error::Error`, which type analysis
 collects

---
 src/derive/std/error.rs | 2 +-
 src/enum_derive.rs      | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/derive/std/error.rs b/src/derive/std/error.rs
index d892df9..81e49a7 100644
--- a/src/derive/std/error.rs
+++ b/src/derive/std/error.rs
@@ -2,7 +2,7 @@
 
 use crate::derive::prelude::*;
 
-pub(crate) const NAME: &[&str] = &["Error"];
+pub(crate) const NAME: &[&str] = &["Error", "error::Error"];
 
 pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
     let ident = &data.ident;
diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index df0b8df..8ac6ef4 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -217,7 +217,7 @@ fn get_trait_deps(s: &str) -> Option<&'static [&'static str]> {
         #[cfg(feature = "std")]
         "BufRead" | "io::BufRead" => &["Read"],
         #[cfg(feature = "std")]
-        "Error" => &["Display", "Debug"],
+        "Error" | "error::Error" => &["Display", "Debug"],
         #[cfg(feature = "rayon")]
         "rayon::IndexedParallelIterator" => &["rayon::ParallelIterator"],
         _ => return None,
@@ -252,6 +252,8 @@ fn exists_alias(s: &str, v: &[(&str, Option<&Path>)]) -> bool {
             std::io::seek,
             #[cfg(feature = "std")]
             std::io::write,
+            #[cfg(feature = "std")]
+            std::error,
         }
 
         None
-- 
2.43.0


From eaab8b7f2f12302ef0f4df36df94fb85eb387c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:14 +0000
Subject: [PATCH 06/11] fix: respect label shadowing when wrapping breaks of a
 labelled loop

---
 src/auto_enum/expr.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/auto_enum/expr.rs b/src/auto_enum/expr.rs
index 3c277fc..49eb2fe 100644
--- a/src/auto_enum/expr.rs
+++ b/src/auto_enum/expr.rs
@@ -1,9 +1,9 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
 use syn::{
-    Arm, Block, Expr, ExprBlock, ExprBreak, ExprCall, ExprIf, ExprLoop, ExprMacro, ExprMatch,
-    ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, Item, Label, Lifetime, LocalInit,
-    Macro, Stmt, StmtMacro, Token,
+    Arm, Block, Expr, ExprBlock, ExprBreak, ExprCall, ExprForLoop, ExprIf, ExprLoop, ExprMacro,
+    ExprMatch, ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, ExprWhile, Item, Label,
+    Lifetime, LocalInit, Macro, Stmt, StmtMacro, Token,
     visit_mut::{self, VisitMut},
 };
 
@@ -160,6 +160,12 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
                 _ => false,
             }
         }
+
+        /// Returns `true` if `other` shadows the label of the current loop.
+        fn is_shadowed(&self, other: Option<&Label>) -> bool {
+            self.label.is_some()
+                && other.map_or(false, |other| self.compare_labels(Some(&other.name)))
+        }
     }
 
     impl VisitMut for LoopVisitor<'_> {
@@ -173,12 +179,15 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
                 // Stop at closure / async block bounds
                 Expr::Closure(_) | Expr::Async(_) => return,
                 // Other loop bounds
-                Expr::Loop(_) | Expr::ForLoop(_) | Expr::While(_) => {
-                    if self.label.is_none() {
+                Expr::Loop(ExprLoop { label, .. })
+                | Expr::ForLoop(ExprForLoop { label, .. })
+                | Expr::While(ExprWhile { label, .. }) => {
+                    if self.label.is_none() || self.is_shadowed(label.as_ref()) {
                         return;
                     }
                     self.nested = true;
                 }
+                Expr::Block(ExprBlock { label, .. }) if self.is_shadowed(label.as_ref()) => return,
                 // Desugar `break <expr>` into `break Enum::VariantN(<expr>)`.
                 Expr::Break(ExprBreak { label, expr, .. }) => {
                     if !self.nested && label.is_none() || self.compare_labels(label.as_ref()) {
-- 
2.43.0


From bbe28f935eb4043d41dc1ea8e63e1f2f02d749de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:14 +0000
Subject: [PATCH 07/11] fix: wrap breaks in the iterator expression of a nested
 `for` loop

---
 src/auto_enum/expr.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/auto_enum/expr.rs b/src/auto_enum/expr.rs
index 49eb2fe..2aa6ba6 100644
--- a/src/auto_enum/expr.rs
+++ b/src/auto_enum/expr.rs
@@ -178,10 +178,18 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
             match node {
                 // Stop at closure / async block bounds
                 Expr::Closure(_) | Expr::Async(_) => return,
+                // The iterator expression of `for` is evaluated outside of that loop.
+                Expr::ForLoop(ExprForLoop { label, expr, body, .. }) => {
+                    self.visit_expr_mut(expr);
+                    if self.label.is_some() && !self.is_shadowed(label.as_ref()) {
+                        self.nested = true;
+                        self.visit_block_mut(body);
+                        self.nested = tmp;
+                    }
+                    return;
+                }
                 // Other loop bounds
-                Expr::Loop(ExprLoop { label, .. })
-                | Expr::ForLoop(ExprForLoop { label, .. })
-                | Expr::While(ExprWhile { label, .. }) => {
+                Expr::Loop(ExprLoop { label, .. }) | Expr::While(ExprWhile { label, .. }) => {
                     if self.label.is_none() || self.is_shadowed(label.as_ref()) {
                         return;
                     }
-- 
2.43.0


From 4f2d7b17d3c1baa1c25e76e946ac21befb976297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:47 +0000
Subject: [PATCH 08/11] fix: rewrite braced marker macros in tail position

---
 src/auto_enum/visitor.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index 0523774..a8dc56d 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -1,10 +1,12 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
+use std::mem;
+
 use proc_macro2::TokenStream;
 use quote::ToTokens as _;
 use syn::{
     Arm, Attribute, Expr, ExprMacro, ExprMatch, ExprReturn, ExprTry, Item, Local, LocalInit,
-    MetaList, Stmt, Token, parse_quote, token,
+    MetaList, Stmt, StmtMacro, Token, parse_quote, token,
     visit_mut::{self, VisitMut},
 };
 
@@ -244,6 +246,14 @@ impl VisitMut for Visitor<'_> {
 
     fn visit_stmt_mut(&mut self, node: &mut Stmt) {
         if !self.cx.has_error() {
+            // `marker! { <expr> }` in tail position is parsed as a macro statement.
+            if let Stmt::Macro(StmtMacro { attrs, mac, semi_token: None }) = node {
+                if self.cx.is_marker_macro_exact(mac) {
+                    let expr = ExprMacro { attrs: mem::take(attrs), mac: mac.clone() };
+                    *node = Stmt::Expr(Expr::Macro(expr), None);
+                }
+            }
+
             if let Stmt::Expr(expr, semi) = node {
                 self.visit_expr(expr, semi.is_some());
             } else {
-- 
2.43.0


From 0de346a5c16da12c4be0a2f92430b81b39979aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:39 +0000
Subject: [PATCH 09/11] fix: refer to Sized by an absolute path in AsRef, AsMut
 and RangeBounds impls

---
 src/derive/core/convert.rs | 4 ++--
 src/derive/core/ops.rs     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/derive/core/convert.rs b/src/derive/core/convert.rs
index e65d169..76acd3d 100644
--- a/src/derive/core/convert.rs
+++ b/src/derive/core/convert.rs
@@ -7,7 +7,7 @@ pub(crate) mod as_ref {
 
     pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
         Ok(derive_trait(data, &parse_quote!(::core::convert::AsRef), None, parse_quote! {
-            trait AsRef<__T: ?Sized> {
+            trait AsRef<__T: ?::core::marker::Sized> {
                 #[inline]
                 fn as_ref(&self) -> &__T;
             }
@@ -22,7 +22,7 @@ pub(crate) mod as_mut {
 
     pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
         Ok(derive_trait(data, &parse_quote!(::core::convert::AsMut), None, parse_quote! {
-            trait AsMut<__T: ?Sized> {
+            trait AsMut<__T: ?::core::marker::Sized> {
                 #[inline]
                 fn as_mut(&mut self) -> &mut __T;
             }
diff --git a/src/derive/core/ops.rs b/src/derive/core/ops.rs
index 4288603..26bc8eb 100644
--- a/src/derive/core/ops.rs
+++ b/src/derive/core/ops.rs
@@ -84,7 +84,7 @@ pub(crate) mod range_bounds {
 
     pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
         Ok(derive_trait(data, &parse_quote!(::core::ops::RangeBounds), None, parse_quote! {
-            trait RangeBounds<__T: ?Sized> {
+            trait RangeBounds<__T: ?::core::marker::Sized> {
                 #[inline]
                 fn start_bound(&self) -> ::core::ops::Bound<&__T>;
                 #[inline]
-- 
2.43.0


From 435b1e9139eb60499ac51986fb7b398667f0e350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:05 +0000
Subject: [PATCH 10/11] fix: reject a custom marker name reused by an
 indirectly nested auto_enum

---
 src/auto_enum/context.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/auto_enum/context.rs b/src/auto_enum/context.rs
index d98aeb1..1a5ed02 100644
--- a/src/auto_enum/context.rs
+++ b/src/auto_enum/context.rs
@@ -1,8 +1,6 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
-use std::{
-    cell::RefCell, collections::hash_map::DefaultHasher, hash::Hasher as _, iter, mem, thread,
-};
+use std::{cell::RefCell, collections::hash_map::DefaultHasher, hash::Hasher as _, iter, thread};
 
 use proc_macro2::TokenStream;
 use quote::format_ident;
@@ -128,20 +126,22 @@ impl Context {
     /// Make a new `Context` as a child based on a parent context `self`.
     pub(super) fn make_child(&mut self, span: TokenStream, args: TokenStream) -> Result<Self> {
         debug_assert!(self.has_child);
-        Self::new(
+        let child = Self::new(
             span,
             args,
             false,
-            mem::take(&mut self.markers),
+            self.markers.clone(),
             self.error.borrow_mut().as_mut().unwrap().take(),
-        )
+        )?;
+        // `#[auto_enum]` attributes nested in the child are also handled by `self`.
+        self.markers.push(child.current_marker.clone());
+        Ok(child)
     }
 
     /// Merge a child `Context` into a parent context `self`.
-    pub(super) fn join_child(&mut self, mut child: Self) {
-        debug_assert!(self.markers.is_empty());
-        child.markers.pop();
-        mem::swap(&mut self.markers, &mut child.markers);
+    pub(super) fn join_child(&mut self, child: Self) {
+        let marker = self.markers.pop();
+        debug_assert_eq!(marker.as_ref(), Some(&child.current_marker));
 
         if let Some(message) = child.error.borrow_mut().take().unwrap() {
             self.error(message);
-- 
2.43.0


From 11fb6f896d748552af3566b6d6b4f316188565a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:13 +0000
Subject: [PATCH 11/11] fix: report arguments of nested on an uninitialized let

---
 src/auto_enum/visitor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index a8dc56d..79faefe 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -234,6 +234,8 @@ impl VisitMut for Visitor<'_> {
                 if let Some(attr) = node.find_remove_attr(NESTED) {
                     if let Some(LocalInit { expr, .. }) = &mut node.init {
                         self.visit_nested(expr, &attr);
+                    } else if let Err(e) = attr.meta.require_path_only() {
+                        self.cx.error(e);
                     }
                 }
             }
-- 
2.43.0

