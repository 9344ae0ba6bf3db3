From 20213702e32126a920cd92254ed93bd26b6b91e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 01/11] fix: keys() of an empty singleton map storage yields
 nothing

---
 src/map/storage/singleton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map/storage/singleton.rs b/src/map/storage/singleton.rs
index e01c930..32d1a19 100644
--- a/src/map/storage/singleton.rs
+++ b/src/map/storage/singleton.rs
@@ -120,7 +120,7 @@ where
 
     #[inline]
     fn keys(&self) -> Self::Keys<'_> {
-        Some(K::default()).into_iter()
+        self.inner.as_ref().map(|_| K::default()).into_iter()
     }
 
     #[inline]
-- 
2.43.0


From e4d29a65783a8ddf9c3e45ba13d0e14f5d8207c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 02/11] fix: removing a boolean from a set reports that boolean
 only

---
 src/set/storage/boolean.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/set/storage/boolean.rs b/src/set/storage/boolean.rs
index 3737358..71823b9 100644
--- a/src/set/storage/boolean.rs
+++ b/src/set/storage/boolean.rs
@@ -148,9 +148,8 @@ impl SetStorage<bool> for BooleanSetStorage {
 
     #[inline]
     fn remove(&mut self, value: bool) -> bool {
-        let value = to_bits(value);
-        let update = self.bits & !value;
-        mem::replace(&mut self.bits, update) != 0
+        let update = self.bits & !to_bits(value);
+        test(mem::replace(&mut self.bits, update), value)
     }
 
     #[inline]
-- 
2.43.0


From 031799d0e1a9c385ce7ec4ed0ba7a5d077095865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 03/11] fix: inserting a boolean into a set reports whether it
 was newly added

---
 src/set/storage/boolean.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set/storage/boolean.rs b/src/set/storage/boolean.rs
index 71823b9..af747c9 100644
--- a/src/set/storage/boolean.rs
+++ b/src/set/storage/boolean.rs
@@ -138,7 +138,7 @@ impl SetStorage<bool> for BooleanSetStorage {
     #[inline]
     fn insert(&mut self, value: bool) -> bool {
         let update = self.bits | to_bits(value);
-        test(mem::replace(&mut self.bits, update), value)
+        !test(mem::replace(&mut self.bits, update), value)
     }
 
     #[inline]
-- 
2.43.0


From 02e5a14d4c9c7d449d96f3459c4464438b8a0b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 04/11] fix: is_empty of an optional set storage

---
 src/set/storage/option.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set/storage/option.rs b/src/set/storage/option.rs
index 5fe0fbb..db81fbe 100644
--- a/src/set/storage/option.rs
+++ b/src/set/storage/option.rs
@@ -118,7 +118,7 @@ where
 
     #[inline]
     fn is_empty(&self) -> bool {
-        self.some.is_empty() && self.none
+        self.some.is_empty() && !self.none
     }
 
     #[inline]
-- 
2.43.0


From a5a4edc43a17f1032845e286e2c7b92c47db7a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 05/11] fix: inserting None into an optional set storage
 reports whether it was newly added

---
 src/set/storage/option.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set/storage/option.rs b/src/set/storage/option.rs
index db81fbe..fef1e51 100644
--- a/src/set/storage/option.rs
+++ b/src/set/storage/option.rs
@@ -125,7 +125,7 @@ where
     fn insert(&mut self, value: Option<T>) -> bool {
         match value {
             Some(value) => self.some.insert(value),
-            None => mem::replace(&mut self.none, true),
+            None => !mem::replace(&mut self.none, true),
         }
     }
 
-- 
2.43.0


From dec0358ddc8a60a016289543b8845f120e0d26ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 06/11] fix: retain on an empty singleton set storage adds
 nothing

---
 src/set/storage/singleton.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/set/storage/singleton.rs b/src/set/storage/singleton.rs
index f52cb4e..6e92c05 100644
--- a/src/set/storage/singleton.rs
+++ b/src/set/storage/singleton.rs
@@ -51,7 +51,9 @@ where
     where
         F: FnMut(T) -> bool,
     {
-        self.is_set = func(T::default());
+        if self.is_set {
+            self.is_set = func(T::default());
+        }
     }
 
     #[inline]
-- 
2.43.0


From 6722270c2c22c3d9033d45ac9e353a605b7d9359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 07/11] fix: order bitset sets like every other set, by
 declaration order

---
 fixed-map-derive/src/unit_variants.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fixed-map-derive/src/unit_variants.rs b/fixed-map-derive/src/unit_variants.rs
index 20c3558..2fc4fd1 100644
--- a/fixed-map-derive/src/unit_variants.rs
+++ b/fixed-map-derive/src/unit_variants.rs
@@ -391,6 +391,7 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
     let copy_t = cx.toks.copy_t();
     let eq_t = cx.toks.eq_t();
     let hash_t = cx.toks.hash_t();
+    let iterator_cmp_bool = cx.toks.iterator_cmp_bool();
     let iterator_flatten = cx.toks.iterator_flatten();
     let mem = cx.toks.mem();
     let option = cx.toks.option();
@@ -428,7 +429,7 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
         impl #partial_ord_t for #set_storage {
             #[inline]
             fn partial_cmp(&self, other: &Self) -> Option<#ordering> {
-                #partial_ord_t::partial_cmp(&self.data, &other.data)
+                #option::Some(#ord_t::cmp(self, other))
             }
         }
 
@@ -436,7 +437,9 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
         impl #ord_t for #set_storage {
             #[inline]
             fn cmp(&self, other: &Self) -> #ordering {
-                #ord_t::cmp(&self.data, &other.data)
+                let a: [bool; #count] = [#(self.data & #numbers != 0),*];
+                let b: [bool; #count] = [#(other.data & #numbers != 0),*];
+                #iterator_cmp_bool(&a, &b)
             }
         }
 
-- 
2.43.0


From 2c5643a2ba4d5d3aa708718f3f2fa49e71e985bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 08/11] fix: ignore bits which correspond to no variant in
 RawStorage::from_raw

---
 fixed-map-derive/src/unit_variants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixed-map-derive/src/unit_variants.rs b/fixed-map-derive/src/unit_variants.rs
index 2fc4fd1..6bbe7a4 100644
--- a/fixed-map-derive/src/unit_variants.rs
+++ b/fixed-map-derive/src/unit_variants.rs
@@ -527,7 +527,7 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
 
             #[inline]
             fn from_raw(data: #ty) -> #set_storage {
-                #set_storage { data }
+                #set_storage { data: data & (0 #(| #numbers)*) }
             }
         }
     })
-- 
2.43.0


From 27cd2fda49c2c8f4592c510dc0f7dc3a94fe14f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 09/11] fix: reject an enum for which the Key derive collected
 errors

---
 fixed-map-derive/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fixed-map-derive/src/lib.rs b/fixed-map-derive/src/lib.rs
index 365df0a..0637b36 100644
--- a/fixed-map-derive/src/lib.rs
+++ b/fixed-map-derive/src/lib.rs
@@ -38,11 +38,13 @@ pub fn storage_derive(input: proc_macro::TokenStream) -> proc_macro::TokenStream
 
     let result = impl_storage(&cx);
 
-    if let Ok(g) = result {
+    let errors = cx.into_errors();
+
+    // NB: errors might have been collected even if tokens were produced.
+    if let (Ok(g), true) = (result, errors.is_empty()) {
         return g.into();
     }
 
-    let errors = cx.into_errors();
     let compile_errors = errors.iter().map(syn::Error::to_compile_error);
     quote!(#(#compile_errors)*).into()
 }
-- 
2.43.0


From 25dc0f3b69dbf0ab3989e49906a397c62464459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 10/11] fix: derived code does not depend on the Option, Some,
 None and Clone in scope

---
 fixed-map-derive/src/any_variants.rs  |  6 +++---
 fixed-map-derive/src/unit_variants.rs | 18 +++++++++---------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/fixed-map-derive/src/any_variants.rs b/fixed-map-derive/src/any_variants.rs
index 3ff6378..471214d 100644
--- a/fixed-map-derive/src/any_variants.rs
+++ b/fixed-map-derive/src/any_variants.rs
@@ -366,7 +366,7 @@ fn impl_map_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
                 Kind::Simple => quote! {
                     if let #option::Some(val) = #option::as_mut(&mut self.#name) {
                         if !func(#ident::#var, val) {
-                            self.#name = None;
+                            self.#name = #option::None;
                         }
                     }
                 },
@@ -1444,7 +1444,7 @@ fn map_storage_into_iter(
         }
 
         #[automatically_derived]
-        impl<V> #clone_t for #type_name<V> where V: Clone, #(#clone_bounds,)* {
+        impl<V> #clone_t for #type_name<V> where V: #clone_t, #(#clone_bounds,)* {
             #[inline]
             fn clone(&self) -> Self {
                 Self {
@@ -1460,7 +1460,7 @@ fn map_storage_into_iter(
             type Item = (#ident, V);
 
             #[inline]
-            fn next(&mut self) -> Option<Self::Item> {
+            fn next(&mut self) -> #option<Self::Item> {
                 #step_forward
                 #option::None
             }
diff --git a/fixed-map-derive/src/unit_variants.rs b/fixed-map-derive/src/unit_variants.rs
index 6bbe7a4..395a943 100644
--- a/fixed-map-derive/src/unit_variants.rs
+++ b/fixed-map-derive/src/unit_variants.rs
@@ -210,7 +210,7 @@ fn impl_map(
         #[automatically_derived]
         impl<V> #partial_ord_t for #map_storage<V> where V: #partial_ord_t {
             #[inline]
-            fn partial_cmp(&self, other: &Self) -> Option<#ordering> {
+            fn partial_cmp(&self, other: &Self) -> #option<#ordering> {
                 #iterator_partial_cmp(&self.data, &other.data)
             }
         }
@@ -319,7 +319,7 @@ fn impl_map(
 
                 #(if let #option::Some(val) = #option::as_mut(#names) {
                     if !func(#ident::#variants, val) {
-                        *#names = None;
+                        *#names = #option::None;
                     }
                 })*
             }
@@ -338,7 +338,7 @@ fn impl_map(
             #[inline]
             fn keys(&self) -> Self::Keys<'_> {
                 let [#(#names),*] = &self.data;
-                #iterator_t::flatten(#into_iterator_t::into_iter([#(if #names.is_some() { Some(#ident::#variants) } else { None }),*]))
+                #iterator_t::flatten(#into_iterator_t::into_iter([#(if #names.is_some() { #option::Some(#ident::#variants) } else { #option::None }),*]))
             }
 
             #[inline]
@@ -428,7 +428,7 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
         #[automatically_derived]
         impl #partial_ord_t for #set_storage {
             #[inline]
-            fn partial_cmp(&self, other: &Self) -> Option<#ordering> {
+            fn partial_cmp(&self, other: &Self) -> #option<#ordering> {
                 #option::Some(#ord_t::cmp(self, other))
             }
         }
@@ -507,12 +507,12 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
 
             #[inline]
             fn iter(&self) -> Self::Iter<'_> {
-                #iterator_t::flatten(#into_iterator_t::into_iter([#(if self.data & #numbers != 0 { Some(#ident::#variants) } else { None }),*]))
+                #iterator_t::flatten(#into_iterator_t::into_iter([#(if self.data & #numbers != 0 { #option::Some(#ident::#variants) } else { #option::None }),*]))
             }
 
             #[inline]
             fn into_iter(self) -> Self::IntoIter {
-                #iterator_t::flatten(#into_iterator_t::into_iter([#(if self.data & #numbers != 0 { Some(#ident::#variants) } else { None }),*]))
+                #iterator_t::flatten(#into_iterator_t::into_iter([#(if self.data & #numbers != 0 { #option::Some(#ident::#variants) } else { #option::None }),*]))
             }
         }
 
@@ -597,7 +597,7 @@ fn impl_set(
         #[automatically_derived]
         impl #partial_ord_t for #set_storage {
             #[inline]
-            fn partial_cmp(&self, other: &Self) -> Option<#ordering> {
+            fn partial_cmp(&self, other: &Self) -> #option<#ordering> {
                 #iterator_partial_cmp_bool(&self.data, &other.data)
             }
         }
@@ -681,13 +681,13 @@ fn impl_set(
             #[inline]
             fn iter(&self) -> Self::Iter<'_> {
                 let [#(#names),*] = &self.data;
-                #iterator_t::flatten(#into_iterator_t::into_iter([#(if *#names { Some(#ident::#variants) } else { None }),*]))
+                #iterator_t::flatten(#into_iterator_t::into_iter([#(if *#names { #option::Some(#ident::#variants) } else { #option::None }),*]))
             }
 
             #[inline]
             fn into_iter(self) -> Self::IntoIter {
                 let [#(#names),*] = &self.data;
-                #iterator_t::flatten(#into_iterator_t::into_iter([#(if *#names { Some(#ident::#variants) } else { None }),*]))
+                #iterator_t::flatten(#into_iterator_t::into_iter([#(if *#names { #option::Some(#ident::#variants) } else { #option::None }),*]))
             }
         }
     })
-- 
2.43.0


From c36a96c2bd728bdd0c7c6b6e16ae39b2034f7c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 11/11] fix: derived code does not repeat the attributes of a
 payload

---
 fixed-map-derive/src/any_variants.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixed-map-derive/src/any_variants.rs b/fixed-map-derive/src/any_variants.rs
index 471214d..bd6b5a8 100644
--- a/fixed-map-derive/src/any_variants.rs
+++ b/fixed-map-derive/src/any_variants.rs
@@ -38,7 +38,7 @@ pub(crate) fn implement(cx: &Ctxt<'_>, en: &syn::DataEnum) -> Result<TokenStream
                     continue;
                 }
 
-                let element = unnamed.unnamed.first().expect("Expected one element");
+                let element = &unnamed.unnamed.first().expect("Expected one element").ty;
                 let map_storage = quote!(<#element as #key_t>::MapStorage::<V>);
                 let as_map_storage = quote!(<#map_storage as #map_storage_t<#element, V>>);
                 let set_storage = quote!(<#element as #key_t>::SetStorage);
@@ -2116,7 +2116,7 @@ pub(crate) enum Kind<'a> {
 /// A complex field kind.
 pub(crate) struct Complex<'a> {
     /// Type of variant field
-    pub(crate) element: &'a syn::Field,
+    pub(crate) element: &'a syn::Type,
     /// `<E as Key>::MapStorage::<V>` (`E` = type of variant field)
     pub(crate) map_storage: TokenStream,
     /// `<<E as Key>::MapStorage::<V> as MapStorage<E, V>>` (`E` = type of variant field)
-- 
2.43.0

