From 6b935236709118d06cc4062baa910b84a76099c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:20 +0000
Subject: [PATCH 01/21] verif hook: box a closure instead of a fn item under
 the verif_hooks feature

---
 fieldx_derive/Cargo.toml                     | 1 +
 fieldx_derive/src/codegen/sync/impl_async.rs | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/Cargo.toml b/fieldx_derive/Cargo.toml
index 6e6e871..cb72ef5 100644
--- a/fieldx_derive/Cargo.toml
+++ b/fieldx_derive/Cargo.toml
@@ -41,3 +41,4 @@
     serde       = ["dep:serde", "fieldx_aux/serde"]
     sync        = []
     tracing     = []
+    verif_hooks = []
diff --git a/fieldx_derive/src/codegen/sync/impl_async.rs b/fieldx_derive/src/codegen/sync/impl_async.rs
index 7b75dad..6f3b073 100644
--- a/fieldx_derive/src/codegen/sync/impl_async.rs
+++ b/fieldx_derive/src/codegen/sync/impl_async.rs
@@ -51,7 +51,11 @@ impl FXSyncImplDetails for FXAsyncImplementor {
         let span = fctx.helper_span(super::FXHelperKind::Lazy);
         let input_type = codegen.input_type_toks();
         let wrapper_name = self.lazy_wrapper_name(codegen, fctx)?;
-        Ok(quote_spanned![span=> ::std::boxed::Box::new(<#input_type>::#wrapper_name)])
+        let wrapper_fn = quote_spanned![span=> <#input_type>::#wrapper_name];
+        // Verification hook: the model checker can't box a zero-sized function item, thus box an equivalent closure.
+        #[cfg(feature = "verif_hooks")]
+        let wrapper_fn = quote_spanned![span=> |fx_owner| #wrapper_fn(fx_owner)];
+        Ok(quote_spanned![span=> ::std::boxed::Box::new(#wrapper_fn)])
     }
 
     fn async_decl(&self) -> TokenStream {
-- 
2.43.0


From 43bb2c9fbe233aa4c8fbad2f5ef2fabf681a647e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:03 +0000
Subject: [PATCH 02/21] fix: async lazy readers share the lock

A reader of an initialized async lazy field was taking the write lock first. Holding a read guard while taking another one
in the same task was a deadlock.
---
 fieldx/src/async/fxproxy.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fieldx/src/async/fxproxy.rs b/fieldx/src/async/fxproxy.rs
index 1206c29..4f9e2f0 100644
--- a/fieldx/src/async/fxproxy.rs
+++ b/fieldx/src/async/fxproxy.rs
@@ -169,6 +169,10 @@ where
     ///
     /// Panics if fallible field builder returns an error.
     pub async fn read<'a>(&'a self, owner: &B::Owner) -> RwLockReadGuard<'a, B::Value> {
+        // If there is a value already then don't exclude other readers.
+        if let Ok(guard) = RwLockReadGuard::try_map(self.value.read().await, Option::as_ref) {
+            return guard;
+        }
         RwLockReadGuard::map(
             RwLockWriteGuard::downgrade(self.read_or_init(owner).await.unwrap()),
             |data: &Option<B::Value>| data.as_ref().unwrap(),
@@ -189,6 +193,10 @@ where
     ///
     /// Return the same error, as fallible field builder if it errors out.
     pub async fn try_read<'a>(&'a self, owner: &B::Owner) -> Result<RwLockReadGuard<'a, B::Value>, B::Error> {
+        // If there is a value already then don't exclude other readers.
+        if let Ok(guard) = RwLockReadGuard::try_map(self.value.read().await, Option::as_ref) {
+            return Ok(guard);
+        }
         Ok(RwLockReadGuard::map(
             RwLockWriteGuard::downgrade(self.read_or_init(owner).await?),
             |data: &Option<B::Value>| data.as_ref().unwrap(),
-- 
2.43.0


From 012a9f573bfbe95dc30ca1dc13e4df8ee72e74b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:58 +0000
Subject: [PATCH 03/21] fix: a fallible post-build method of a reference
 counted struct

The builder of a reference counted struct used the ? operator inside of
the closure of new_cyclic, hence a struct with both a custom builder
error type and a post-build method didn't compile.
---
 fieldx_derive/src/codegen/codegen_trait.rs | 23 ++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index 9194a18..8fd360f 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -237,8 +237,9 @@ pub trait FXCodeGenContextual {
     ) -> TokenStream {
         let ctx = self.ctx();
         let args = ctx.args();
+        let is_fallible = init.is_some() && ctx.build_has_error_type();
         let post_constuct = if let Some(init) = init {
-            let shortcut = if ctx.build_has_error_type() {
+            let shortcut = if is_fallible {
                 quote![?]
             }
             else {
@@ -251,8 +252,26 @@ pub trait FXCodeGenContextual {
         };
 
         if args.is_ref_counted() {
-            let (rc_type, _) = self.ref_count_types();
+            let (rc_type, weak_type) = self.ref_count_types();
             let myself_field = ctx.myself_field();
+            if is_fallible {
+                // The closure of new_cyclic cannot report an error. Finish the object first.
+                return quote![
+                    {
+                        let mut fieldx_object = #self_name {
+                            #myself_field: #weak_type::new(),
+                            #struct_init
+                        }
+                        #post_constuct;
+                        #rc_type::new_cyclic(
+                            move |me| {
+                                fieldx_object.#myself_field = me.clone();
+                                fieldx_object
+                            }
+                        )
+                    }
+                ];
+            }
             quote![
                 #rc_type::new_cyclic(
                     |me| {
-- 
2.43.0


From 81e36935fcdfa2005bc3f34a136a768c77a89191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:08 +0000
Subject: [PATCH 04/21] fix: Self in the default of a sync field with a builder

Self of an expression like default(Self::func()) was resolved to the
builder type for locked, optional, and ordinary fields of sync structs.
---
 fieldx_derive/src/codegen/sync.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 5c5ce7e..15f60b6 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -378,7 +378,7 @@ impl FXCodeGenContextual for FXCodeGenSync {
         let default = self.field_default_value(fctx);
         let lazy_builder = self.implementor(fctx).lazy_builder(self, fctx)?;
         let or_default = if fctx.has_default_value() {
-            let default = self.fixup_self_type(default.clone().expect(&format!(
+            let default = self.fixup_self_type(default.expect(&format!(
                 "Internal problem: expected default value for field {}",
                 fctx.ident_str()
             )));
@@ -395,7 +395,7 @@ impl FXCodeGenContextual for FXCodeGenSync {
         };
 
         Ok(if !fctx.forced_builder() && !fctx.needs_builder() {
-            let default = self.field_value_wrap(fctx, default)?;
+            let default = self.field_default_wrap(fctx)?;
             quote_spanned![span=> #field_ident: #default]
         }
         else if fctx.is_lazy() {
@@ -690,6 +690,6 @@ impl FXCodeGenContextual for FXCodeGenSync {
     }
 
     fn field_default_wrap(&self, fctx: &FXFieldCtx) -> darling::Result<TokenStream> {
-        self.field_value_wrap(fctx, self.field_default_value(fctx))
+        self.field_value_wrap(fctx, self.field_default_value(fctx).map(|dv| self.fixup_self_type(dv)))
     }
 }
-- 
2.43.0


From 28eb8bad4556f2b6cc583578021f415ad8544c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:52 +0000
Subject: [PATCH 05/21] fix: Self in the default of a struct with generic
 bounds

Self was replaced with the struct type followed by complete generics
declaration. This is an error if the declaration has bounds or consts.
---
 fieldx_derive/src/codegen/codegen_trait.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index 8fd360f..109c980 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -501,13 +501,14 @@ pub trait FXCodeGenContextual {
         let span = tokens.span();
         let mut fixed_tokens = TokenStream::new();
         let struct_ident = ctx.input_ident();
-        let generics = ctx.input().generics();
+        // Only the parameters as such are allowed here, with no bounds.
+        let generic_params = ctx.struct_generic_params();
 
         for t in tokens.into_iter() {
             match t {
                 TokenTree::Ident(ref ident) => {
                     if ident.to_string() == "Self" {
-                        fixed_tokens.extend(quote_spanned![span=> <#struct_ident #generics>]);
+                        fixed_tokens.extend(quote_spanned![span=> <#struct_ident #generic_params>]);
                     }
                     else {
                         fixed_tokens.extend(t.to_token_stream());
-- 
2.43.0


From 612d54e9c6682fca1c1ff8bfe201bc043c1b4e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:24 +0000
Subject: [PATCH 06/21] fix: copy(off) and clone(off) don't make an accessor
 clone

Any of the arguments, being switched off, resulted in a cloning accessor
of a plain field.
---
 fieldx_derive/src/ctx/field.rs | 39 +++++++++++++---------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 9371eb3..aeccc0b 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -262,30 +262,21 @@ impl FXFieldCtx {
     }
 
     pub fn accessor_mode(&self) -> FXAccessorMode {
-        self.field
-            .accessor_mode()
-            .or_else(|| {
-                self.field.is_copy().and_then(|is_copy| {
-                    if is_copy {
-                        Some(FXAccessorMode::Copy)
-                    }
-                    else {
-                        Some(FXAccessorMode::Clone)
-                    }
-                })
-            })
-            .or_else(|| self.codegen_ctx.args().accessor_mode())
-            .or_else(|| {
-                self.codegen_ctx.args().is_copy().and_then(|is_copy| {
-                    if is_copy {
-                        Some(FXAccessorMode::Copy)
-                    }
-                    else {
-                        Some(FXAccessorMode::Clone)
-                    }
-                })
-            })
-            .unwrap_or(FXAccessorMode::None)
+        self.field.accessor_mode().unwrap_or_else(|| {
+            // Neither copy(off) nor clone(off) makes the accessor a cloning one.
+            if self.is_copy() {
+                FXAccessorMode::Copy
+            }
+            else if self.is_clone() {
+                FXAccessorMode::Clone
+            }
+            else if self.codegen_ctx.args().accessor_mode() == Some(FXAccessorMode::AsRef) {
+                FXAccessorMode::AsRef
+            }
+            else {
+                FXAccessorMode::None
+            }
+        })
     }
 
     pub fn default_value(&self) -> Option<&NestedMeta> {
-- 
2.43.0


From ffe75da43cf87039022e338cb44e0d4c5d424a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:24 +0000
Subject: [PATCH 07/21] fix: copying, cloning, and mutable accessors of async
 locked fields

They weren't awaiting for the lock, the code produced didn't compile.
---
 fieldx_derive/src/codegen/sync.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 15f60b6..2596488 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -261,11 +261,14 @@ impl FXCodeGenContextual for FXCodeGenSync {
                 }
                 else if fctx.needs_lock() {
                     let ty = self.maybe_optional_ty(fctx, ty);
+                    let implementor = self.implementor(fctx);
+                    let async_decl = implementor.async_decl();
+                    let await_call = implementor.await_call();
 
                     quote_spanned![span=>
                         #attributes_fn
-                        #vis_tok fn #accessor_name(&self) -> #ty {
-                            let rlock = self.#ident.read() #shortcut;
+                        #vis_tok #async_decl fn #accessor_name(&self) -> #ty {
+                            let rlock = self.#ident.read() #await_call #shortcut;
                             (*rlock)#cmethod
                         }
                     ]
@@ -343,13 +346,16 @@ impl FXCodeGenContextual for FXCodeGenSync {
                 };
                 if fctx.needs_lock() {
                     let lock_span = fctx.lock_span();
-                    let wrguard = self.implementor(fctx).rwlock_write_guard();
+                    let implementor = self.implementor(fctx);
+                    let wrguard = implementor.rwlock_write_guard();
+                    let async_decl = implementor.async_decl();
+                    let await_call = implementor.await_call();
                     let ty_toks = quote_spanned! [lock_span=> #wrguard<#ty_toks>];
 
                     quote_spanned! [span=>
                         #attributes_fn
-                        #vis_tok fn #accessor_name(&self) -> #ty_toks {
-                            self.#ident.write()
+                        #vis_tok #async_decl fn #accessor_name(&self) -> #ty_toks {
+                            self.#ident.write()#await_call
                         }
                     ]
                 }
-- 
2.43.0


From 13c4c4b407f101187d863b63f761a962851fe058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:24 +0000
Subject: [PATCH 08/21] fix: struct level fallible is only for lazy fields

The accessors of other fields of a sync struct didn't compile.
---
 fieldx_derive/src/ctx/field.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index aeccc0b..71fd0e6 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -193,10 +193,13 @@ impl FXFieldCtx {
 
     #[inline]
     pub fn is_fallible(&self) -> bool {
-        self.field
-            .is_fallible()
-            .or_else(|| self.codegen_ctx().args().is_fallible())
-            .unwrap_or(false)
+        // There is nothing to fail unless there is a builder
+        self.is_lazy()
+            && self
+                .field
+                .is_fallible()
+                .or_else(|| self.codegen_ctx().args().is_fallible())
+                .unwrap_or(false)
     }
 
     #[inline]
-- 
2.43.0


From b31a7bb15ab4e201f9a089c08549e51d71a37a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:24 +0000
Subject: [PATCH 09/21] fix: the mode of a field is either sync or async

mode(async) made a field of a plain struct a plain one. sync was ignored
for a field of an async struct.
---
 fieldx_derive/src/fields.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index 8cc5a8c..3f64d02 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -208,6 +208,7 @@ impl FXFieldReceiver {
             .as_ref()
             .map(|th| th.is_true())
             .or_else(|| self.mode.as_ref().map(|m| m.is_async()))
+            .or_else(|| self.mode_sync.as_ref().and_then(|th| th.is_true().then_some(false)))
     }
 
     pub fn is_plain(&self) -> Option<bool> {
@@ -218,7 +219,7 @@ impl FXFieldReceiver {
         self.mode_sync
             .as_ref()
             .map(|th| th.is_true())
-            .or_else(|| self.mode.as_ref().map(|m| m.is_sync()))
+            .or_else(|| self.mode.as_ref().map(|m| m.is_sync() || m.is_async()))
             .or_else(|| self.is_async())
             .or_else(|| self.lock().as_ref().map(|th| th.is_true()))
             .or_else(|| self.is_plain().map(|b| !b))
-- 
2.43.0


From f5c93dd0fd575f2ad4c98658282a90765e093eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:52 +0000
Subject: [PATCH 10/21] fix: mutable accessor of a sync field has its own
 visibility and attributes

Those of the ordinary accessor were used instead.
---
 fieldx_derive/src/codegen/sync.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 2596488..003dddc 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -314,11 +314,11 @@ impl FXCodeGenContextual for FXCodeGenSync {
     fn field_accessor_mut(&self, fctx: &FXFieldCtx) -> darling::Result<TokenStream> {
         Ok(if fctx.needs_accessor_mut() {
             let ident = fctx.ident_tok();
-            let vis_tok = fctx.vis_tok(FXHelperKind::Accessor);
+            let vis_tok = fctx.vis_tok(FXHelperKind::AccessorMut);
             let accessor_name = self.accessor_mut_name(fctx)?;
             let ty = fctx.ty();
-            let attributes_fn = self.attributes_fn(fctx, FXHelperKind::Accessor, FXInlining::Always);
-            let span = self.helper_span(fctx, FXHelperKind::Accessor);
+            let attributes_fn = self.attributes_fn(fctx, FXHelperKind::AccessorMut, FXInlining::Always);
+            let span = self.helper_span(fctx, FXHelperKind::AccessorMut);
             let read_method = self.read_method_name(fctx, true, &span);
 
             if fctx.is_lazy() {
-- 
2.43.0


From c6d5a1f4664b6faf5838450bd1ca8a5739abad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:39 +0000
Subject: [PATCH 11/21] fix: leave skipped fields alone

A skipped field was wrapped into a lock or a cell when lock or inner_mut
is set for the struct.
---
 fieldx_derive/src/ctx/field.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 71fd0e6..73937be 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -76,7 +76,7 @@ impl FXFieldCtx {
         }
     }
 
-    helper_fn_ctx! { is: lazy, inner_mut }
+    helper_fn_ctx! { is: lazy }
 
     helper_fn_ctx! { needs: accessor_mut, setter, writer }
 
@@ -147,12 +147,24 @@ impl FXFieldCtx {
         // .unwrap_or_else(|| self.codegen_ctx.args().is_sync() && (self.is_lazy() || self.is_optional()))
     }
 
+    #[inline]
+    pub fn is_inner_mut(&self) -> bool {
+        !self.is_skipped()
+            && self
+                .field
+                .is_inner_mut()
+                .or_else(|| self.codegen_ctx().args().is_inner_mut())
+                .unwrap_or(false)
+    }
+
     #[inline]
     pub fn needs_lock(&self) -> bool {
-        self.field
-            .needs_lock()
-            .or_else(|| self.codegen_ctx().args().needs_lock())
-            .unwrap_or_else(|| self.needs_reader() || self.needs_writer() || self.is_optional())
+        !self.is_skipped()
+            && self
+                .field
+                .needs_lock()
+                .or_else(|| self.codegen_ctx().args().needs_lock())
+                .unwrap_or_else(|| self.needs_reader() || self.needs_writer() || self.is_optional())
     }
 
     #[cfg(feature = "serde")]
-- 
2.43.0


From 4e6971cdb46e90d810cccf524207ba39b103977f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:00 +0000
Subject: [PATCH 12/21] fix: skipped fields of a struct with a builder

The builder left a skipped field out of the object it creates, the code
compiled only if some other field had a default.
---
 fieldx_derive/src/codegen.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index f3eada7..10a0dae 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -372,6 +372,22 @@ impl FXRewriter {
             }
         }
 
+        // Skipped fields are not for the builder, but the object needs them.
+        let myself_field = ctx.myself_field();
+        for field in ctx.all_fields() {
+            let Ok(fctx) = ctx.field_ctx(field)
+            else {
+                continue;
+            };
+            if fctx.is_skipped() && myself_field.as_ref() != Some(fctx.ident()) {
+                if let Ok(fgen) = self.field_codegen(&fctx) {
+                    let ident = fctx.ident();
+                    let default = ctx.ok_or_empty(fgen.field_default_wrap(&fctx));
+                    field_setters.push(quote! { #ident: #default });
+                }
+            }
+        }
+
         let default_initializer = if use_default && ctx.needs_default() {
             quote![..::std::default::Default::default()]
         }
-- 
2.43.0


From cf47aeaac8cc3485b87aebc5e93778ba658e2bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:01 +0000
Subject: [PATCH 13/21] fix: rc(off) with a builder

---
 fieldx_derive/src/ctx/codegen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/ctx/codegen.rs b/fieldx_derive/src/ctx/codegen.rs
index 8edbd32..195b69c 100644
--- a/fieldx_derive/src/ctx/codegen.rs
+++ b/fieldx_derive/src/ctx/codegen.rs
@@ -423,7 +423,8 @@ impl FXCodeGenCtx {
     }
 
     pub fn myself_names(&self) -> Option<(Ident, Ident)> {
-        self.args().rc().as_ref().map(|rc_helper| {
+        let args = self.args();
+        args.rc().as_ref().filter(|_| args.is_ref_counted()).map(|rc_helper| {
             let myself_name = rc_helper.name().unwrap_or("myself");
             (
                 format_ident!("{}", myself_name),
-- 
2.43.0


From 8b5e450f46be4d04e46ca94bc4e7814d4e8ce9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:16 +0000
Subject: [PATCH 14/21] fix: builder of a generic struct with inline bounds

Reference counted structs didn't compile with generic bounds declared within
angle brackets, structs with builders didn't with defaults of parameters.
---
 fieldx_derive/src/codegen.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index 10a0dae..b8d5439 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -330,9 +330,7 @@ impl FXRewriter {
         let builder_ident = ctx.builder_ident();
         let builders = ctx.builders_combined();
         let input_ident = ctx.input_ident();
-        let generics = ctx.input().generics();
-        let where_clause = &generics.where_clause;
-        let generic_params = ctx.struct_generic_params();
+        let (impl_generics, generic_params, where_clause) = ctx.input().generics().split_for_impl();
         let attributes = ctx.args().builder_impl_attributes();
         let post_build_ident = ctx.builder_post_build_ident();
 
@@ -424,7 +422,7 @@ impl FXRewriter {
 
         quote![
             #attributes
-            impl #generics #builder_ident #generic_params
+            impl #impl_generics #builder_ident #generic_params
             #where_clause
             {
                 #fn_new
@@ -456,7 +454,8 @@ impl FXRewriter {
                 let (_, weak_type) = cgen.ref_count_types();
                 let mf = ctx.myself_field();
                 let input_ident = ctx.input_ident();
-                quote![#mf: #weak_type<#input_ident #generics>,]
+                let generic_params = ctx.struct_generic_params();
+                quote![#mf: #weak_type<#input_ident #generic_params>,]
             }
             else {
                 quote![]
-- 
2.43.0


From 02fb48e9058ec1850c54239097aa725cc6c459c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:16 +0000
Subject: [PATCH 15/21] fix: serde for a generic struct with inline bounds

Bounds declared within angle brackets were used in type paths.
---
 fieldx_derive/src/codegen/serde.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index a95f6b5..8843771 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -259,7 +259,8 @@ impl FXRewriteSerde for super::FXRewriter {
 
             let serde_helper = args.serde().as_ref().unwrap();
             let generics = ctx.input().generics();
-            let shadow_ident = format!("{}{}", ctx.shadow_ident(), generics.to_token_stream());
+            let (_, generic_params, _) = generics.split_for_impl();
+            let shadow_ident = format!("{}{}", ctx.shadow_ident(), generic_params.to_token_stream());
             let serde_span = args.serde_helper_span().unwrap_or_else(|| Span::call_site());
 
             if serde_helper.needs_deserialize().unwrap_or(true) {
@@ -296,7 +297,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let mut attrs = vec![];
             let derive_attr = crate::util::derive_toks(&self.serde_derive_traits());
             let generics = ctx.input().generics();
-            let where_clause = &generics.where_clause;
+            let (impl_generics, generic_params, where_clause) = generics.split_for_impl();
             let vis = serde_helper.public_mode().map(|pm| pm.to_token_stream());
             let user_attributes = serde_helper.attributes();
 
@@ -309,7 +310,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let default_impl = if ctx.needs_default() {
                 let shadow_defaults = ctx.shadow_defaults();
                 quote_spanned! {span=>
-                    impl #generics ::std::default::Default for #shadow_ident #generics #where_clause {
+                    impl #impl_generics ::std::default::Default for #shadow_ident #generic_params #where_clause {
                         fn default() -> Self {
                             Self {
                                 #( #shadow_defaults ),*
@@ -344,8 +345,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let struct_ident = ctx.input_ident();
             let shadow_var = ctx.shadow_var_ident();
             let mut fields = vec![];
-            let generics = ctx.input().generics();
-            let where_clause = &generics.where_clause;
+            let (impl_generics, generic_params, where_clause) = ctx.input().generics().split_for_impl();
             let span = args.serde_helper_span().unwrap_or_else(|| Span::call_site());
 
             for field in ctx.all_fields() {
@@ -376,8 +376,8 @@ impl FXRewriteSerde for super::FXRewriter {
             };
 
             ctx.tokens_extend(quote_spanned![span=>
-                impl #generics ::std::convert::From<#shadow_ident #generics> for #struct_ident #generics #where_clause {
-                    fn from(#shadow_var: #shadow_ident #generics) -> Self {
+                impl #impl_generics ::std::convert::From<#shadow_ident #generic_params> for #struct_ident #generic_params #where_clause {
+                    fn from(#shadow_var: #shadow_ident #generic_params) -> Self {
                         Self {
                             #( #fields, )*
                             #init_from_default
@@ -397,8 +397,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let mut fields = vec![];
             let mut lazy_inits = vec![];
             let me_var = ctx.me_var_ident();
-            let generics = ctx.input().generics();
-            let where_clause = &generics.where_clause;
+            let (impl_generics, generic_params, where_clause) = ctx.input().generics().split_for_impl();
 
             for field in ctx.all_fields() {
                 let fctx = ctx.field_ctx(field);
@@ -428,8 +427,8 @@ impl FXRewriteSerde for super::FXRewriter {
             }
 
             ctx.tokens_extend(quote![
-                impl #generics ::std::convert::From<#struct_ident #generics> for #shadow_ident #generics #where_clause {
-                    fn from(mut #me_var: #struct_ident #generics) -> Self {
+                impl #impl_generics ::std::convert::From<#struct_ident #generic_params> for #shadow_ident #generic_params #where_clause {
+                    fn from(mut #me_var: #struct_ident #generic_params) -> Self {
                         #( #lazy_inits )*
                         Self {
                             #( #fields, )*
@@ -511,7 +510,7 @@ impl FXRewriteSerde for super::FXRewriter {
                     quote_spanned![default_span=> #default_code]
                 };
 
-                let generics = ctx.input().generics();
+                let (_, generics, _) = ctx.input().generics().split_for_impl();
                 let shadow_ident = ctx.shadow_ident();
                 let fn_ident = ctx.unique_ident_pfx(&format!("{}_default", shadow_ident.to_string()));
                 ctx.add_method_decl(quote_spanned![default_span=>
-- 
2.43.0


From a30064cc4be28b8c1370dcc1b03eb92208f3af07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:55 +0000
Subject: [PATCH 16/21] fix: inner_mut(off) of a field doesn't make a plain
 struct sync

---
 fieldx_derive/src/fields.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index 3f64d02..cf3eb09 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -222,7 +222,8 @@ impl FXFieldReceiver {
             .or_else(|| self.mode.as_ref().map(|m| m.is_sync() || m.is_async()))
             .or_else(|| self.is_async())
             .or_else(|| self.lock().as_ref().map(|th| th.is_true()))
-            .or_else(|| self.is_plain().map(|b| !b))
+            // Setting inner_mut to off doesn't mean the field becomes sync
+            .or_else(|| self.is_plain().and_then(|plain| plain.then_some(false)))
             .or_else(|| {
                 // Setting reader or writer to off doesn't mean the field becomes plain. It's better be decided at the
                 // struct level then.
-- 
2.43.0


From 4bb614836e2f7899cba557df0ede58fda8d23670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:39 +0000
Subject: [PATCH 17/21] fix: fields which are not to be serialized

The shadow struct has such fields but the conversion into it didn't
initialize them, serialize(off) of a field didn't compile.
---
 fieldx_derive/src/codegen/serde.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index 8843771..d43323b 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -402,9 +402,10 @@ impl FXRewriteSerde for super::FXRewriter {
             for field in ctx.all_fields() {
                 let fctx = ctx.field_ctx(field);
                 if let Ok(fctx) = fctx {
-                    if fctx.is_serde() && fctx.needs_serialize() {
+                    // The shadow struct has all the serde fields, those which are not to be serialized included.
+                    if fctx.is_serde() {
                         let field_ident = fctx.ident_tok();
-                        let is_lazy = fctx.is_lazy();
+                        let is_lazy = fctx.is_lazy() && fctx.needs_serialize();
 
                         ctx.exec_or_record(|| {
                             let cgen = self.field_codegen(&fctx)?;
-- 
2.43.0


From 97b14ccf70dc1ae5672c61011da0884e64553e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:39 +0000
Subject: [PATCH 18/21] fix: unset fields of plain structs survive
 serialization

An unset lazy or optional field with a default took the default when
deserialized from its own serialized form. Sync structs don't do this.
---
 fieldx_derive/src/codegen/plain.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/codegen/plain.rs b/fieldx_derive/src/codegen/plain.rs
index bc78fc2..e85d50d 100644
--- a/fieldx_derive/src/codegen/plain.rs
+++ b/fieldx_derive/src/codegen/plain.rs
@@ -446,9 +446,10 @@ impl FXCodeGenContextual for FXCodeGenPlain {
         let shadow_var = self.ctx().shadow_var_ident();
 
         Ok(if self.is_serde_optional(fctx) {
-            let default_value = self.field_default_wrap(fctx)?;
+            // No value means the field is unset, whatever default it has. Defaults of missing fields are up to the shadow.
+            let unset_value = self.field_value_wrap(fctx, FXValueRepr::None)?;
             let shadow_value = self.field_value_wrap(fctx, FXValueRepr::Versatile(quote![v]))?;
-            quote![ #shadow_var.#field_ident.map_or_else(|| #default_value, |v| #shadow_value) ]
+            quote![ #shadow_var.#field_ident.map_or_else(|| #unset_value, |v| #shadow_value) ]
         }
         else if fctx.is_inner_mut() {
             let shadow_value = self.field_value_wrap(fctx, FXValueRepr::Versatile(quote![#shadow_var.#field_ident]))?;
-- 
2.43.0


From 0fd2101408595c5270e3a5d1cd85149dcec11681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:22 +0000
Subject: [PATCH 19/21] fix: struct level attributes are for the shadow struct,
 not for its fields

---
 fieldx_derive/src/codegen/serde.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index d43323b..79ed9a2 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -144,8 +144,7 @@ pub trait FXCGenSerde: FXCodeGenContextual {
         let user_attrs = fctx
             .serde()
             .as_ref()
-            .and_then(|serde_helper| serde_helper.attributes().as_ref())
-            .or_else(|| self.ctx().args().attributes().as_ref());
+            .and_then(|serde_helper| serde_helper.attributes().as_ref());
         let ty = self.serde_shadow_field_type(fctx);
 
         self.ctx().add_shadow_field_decl(quote_spanned! [*fctx.span()=>
@@ -299,7 +298,10 @@ impl FXRewriteSerde for super::FXRewriter {
             let generics = ctx.input().generics();
             let (impl_generics, generic_params, where_clause) = generics.split_for_impl();
             let vis = serde_helper.public_mode().map(|pm| pm.to_token_stream());
-            let user_attributes = serde_helper.attributes();
+            let user_attributes = serde_helper
+                .attributes()
+                .as_ref()
+                .or_else(|| args.attributes().as_ref());
 
             attrs.push(derive_attr);
 
-- 
2.43.0


From bcd74885a0d29399d23c517dae0df666302bdff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:48 +0000
Subject: [PATCH 20/21] fix: inner_mut fields of serde structs don't need to
 implement Default

---
 fieldx_derive/src/codegen/plain.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/plain.rs b/fieldx_derive/src/codegen/plain.rs
index e85d50d..2ea4a29 100644
--- a/fieldx_derive/src/codegen/plain.rs
+++ b/fieldx_derive/src/codegen/plain.rs
@@ -465,9 +465,12 @@ impl FXCodeGenContextual for FXCodeGenPlain {
         let field_ident = fctx.ident_tok();
         let me_var = self.ctx().me_var_ident();
 
-        Ok(if fctx.is_lazy() || fctx.is_inner_mut() {
+        Ok(if fctx.is_lazy() {
             quote![ #me_var.#field_ident.take() ]
         }
+        else if fctx.is_inner_mut() {
+            quote![ #me_var.#field_ident.into_inner() ]
+        }
         else if fctx.is_optional() {
             quote![ #me_var.#field_ident ]
         }
-- 
2.43.0


From 021e04ef8dc5addc542a68f0a00bc268e8bc443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:02 +0000
Subject: [PATCH 21/21] fix: a field's name given to serde

---
 fieldx_derive/src/codegen/serde.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index 79ed9a2..7e06515 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -99,7 +99,12 @@ pub trait FXCGenSerde: FXCodeGenContextual {
                 serde_attr_args.push(default_arg);
             }
 
-            if let Some(base_name) = fctx.base_name() {
+            if let Some((serde_helper, serde_name)) = fctx.serde().as_ref().and_then(|s| s.shadow_name().map(|n| (s, n))) {
+                // For a field this is its name when serialized.
+                let span = serde_helper.orig().span();
+                serde_attr_args.push(quote_spanned![span=> rename = #serde_name]);
+            }
+            else if let Some(base_name) = fctx.base_name() {
                 let span = base_name.span();
                 let base_name = base_name.to_string();
                 serde_attr_args.push(quote_spanned![span=> rename = #base_name]);
-- 
2.43.0

