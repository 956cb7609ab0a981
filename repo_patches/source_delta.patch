From 422cc63a466afdee3df4cf4974cf3051813170b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 01/15] fix: drop unknown bits instead of panicking when
 deserializing the array representation

---
 enumset_derive/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 51c0e5a..90caa20 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -581,7 +581,9 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 )
             } else {
                 (quote! {}, quote! {
-                    #core::prelude::v1::Ok(#enumset::EnumSet::<#name>::from_array(accum))
+                    #core::prelude::v1::Ok(
+                        #enumset::EnumSet::<#name>::from_array_truncated(accum)
+                    )
                 })
             };
             quote! {
-- 
2.43.0


From 60963e5a2115b5c6fb6805ced57b534a408ecdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 02/15] fix: make serialize_deny_unknown compile with the array
 serialization representation

---
 enumset_derive/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 90caa20..3d7e0a7 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -566,15 +566,19 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     quote! {
                         if _val != 0 {
                             return #core::prelude::v1::Err(
-                                D::Error::custom("enumset contains unknown bits")
+                                <A::Error as #serde::de::Error>::custom(
+                                    "enumset contains unknown bits"
+                                )
                             )
                         }
                     },
                     quote! {
                         match #enumset::EnumSet::<#name>::try_from_array(accum) {
-                            Some(x) => x,
-                            None => #core::prelude::v1::Err(
-                                D::Error::custom("enumset contains unknown bits")
+                            #core::prelude::v1::Some(x) => #core::prelude::v1::Ok(x),
+                            #core::prelude::v1::None => #core::prelude::v1::Err(
+                                <A::Error as #serde::de::Error>::custom(
+                                    "enumset contains unknown bits"
+                                )
                             ),
                         }
                     },
-- 
2.43.0


From d035334db78aa7996fbcb2d83f8e7ee7b7e4a1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 03/15] fix: make serialize_deny_unknown compile for
 array-backed sets serialized as integers

---
 enumset_derive/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 3d7e0a7..6acb9f4 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -441,8 +441,12 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 _ => unreachable!(),
             };
             let check_unknown = if info.serialize_deny_unknown {
+                // the serialized integer may be backed by an array in memory
+                let valid_bits = Literal::u128_unsuffixed(
+                    variant_map[0] as u128 | variant_map.get(1).map_or(0, |x| (*x as u128) << 64),
+                );
                 quote! {
-                    if value & !#all_variants != 0 {
+                    if value & !#valid_bits != 0 {
                         use #serde::de::Error;
                         return #core::prelude::v1::Err(
                             D::Error::custom("enumset contains unknown bits")
-- 
2.43.0


From 602d68930c494e2816dd53a835569756ad34eea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 04/15] fix: accept enum variants named Output or Repr

---
 enumset_derive/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 6acb9f4..730db20 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -385,35 +385,35 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
             #[automatically_derived]
             impl<O: Into<#typed_enumset>> #core::ops::Sub<O> for #name {
                 type Output = #typed_enumset;
-                fn sub(self, other: O) -> Self::Output {
+                fn sub(self, other: O) -> #typed_enumset {
                     #enumset::EnumSet::only(self) - other.into()
                 }
             }
             #[automatically_derived]
             impl<O: Into<#typed_enumset>> #core::ops::BitAnd<O> for #name {
                 type Output = #typed_enumset;
-                fn bitand(self, other: O) -> Self::Output {
+                fn bitand(self, other: O) -> #typed_enumset {
                     #enumset::EnumSet::only(self) & other.into()
                 }
             }
             #[automatically_derived]
             impl<O: Into<#typed_enumset>> #core::ops::BitOr<O> for #name {
                 type Output = #typed_enumset;
-                fn bitor(self, other: O) -> Self::Output {
+                fn bitor(self, other: O) -> #typed_enumset {
                     #enumset::EnumSet::only(self) | other.into()
                 }
             }
             #[automatically_derived]
             impl<O: Into<#typed_enumset>> #core::ops::BitXor<O> for #name {
                 type Output = #typed_enumset;
-                fn bitxor(self, other: O) -> Self::Output {
+                fn bitxor(self, other: O) -> #typed_enumset {
                     #enumset::EnumSet::only(self) ^ other.into()
                 }
             }
             #[automatically_derived]
             impl #core::ops::Not for #name {
                 type Output = #typed_enumset;
-                fn not(self) -> Self::Output {
+                fn not(self) -> #typed_enumset {
                     !#enumset::EnumSet::only(self)
                 }
             }
@@ -957,7 +957,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 const CONST_HELPER_INSTANCE: __EnumSetConstHelper = __EnumSetConstHelper;
 
                 type Repr = #repr;
-                const ALL_BITS: Self::Repr = #all_variants;
+                const ALL_BITS: #repr = #all_variants;
                 const BIT_WIDTH: u32 = #bit_width;
                 const VARIANT_COUNT: u32 = #variant_count;
 
-- 
2.43.0


From d0d39e6da8670626d07143a2e3b9a86263fffcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 05/15] fix: do not resolve Into through the scope of the
 derived enum

---
 enumset_derive/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 730db20..e8721b5 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -383,28 +383,28 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
     } else {
         quote! {
             #[automatically_derived]
-            impl<O: Into<#typed_enumset>> #core::ops::Sub<O> for #name {
+            impl<O: #core::convert::Into<#typed_enumset>> #core::ops::Sub<O> for #name {
                 type Output = #typed_enumset;
                 fn sub(self, other: O) -> #typed_enumset {
                     #enumset::EnumSet::only(self) - other.into()
                 }
             }
             #[automatically_derived]
-            impl<O: Into<#typed_enumset>> #core::ops::BitAnd<O> for #name {
+            impl<O: #core::convert::Into<#typed_enumset>> #core::ops::BitAnd<O> for #name {
                 type Output = #typed_enumset;
                 fn bitand(self, other: O) -> #typed_enumset {
                     #enumset::EnumSet::only(self) & other.into()
                 }
             }
             #[automatically_derived]
-            impl<O: Into<#typed_enumset>> #core::ops::BitOr<O> for #name {
+            impl<O: #core::convert::Into<#typed_enumset>> #core::ops::BitOr<O> for #name {
                 type Output = #typed_enumset;
                 fn bitor(self, other: O) -> #typed_enumset {
                     #enumset::EnumSet::only(self) | other.into()
                 }
             }
             #[automatically_derived]
-            impl<O: Into<#typed_enumset>> #core::ops::BitXor<O> for #name {
+            impl<O: #core::convert::Into<#typed_enumset>> #core::ops::BitXor<O> for #name {
                 type Output = #typed_enumset;
                 fn bitxor(self, other: O) -> #typed_enumset {
                     #enumset::EnumSet::only(self) ^ other.into()
-- 
2.43.0


From 1fd6860dbc0fe55e0d90b4dfb72fc006efb50fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 06/15] fix: accept enums named like a generic parameter or
 helper type of the generated code

---
 enumset_derive/src/lib.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index e8721b5..ebf12c7 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -318,7 +318,10 @@ impl EnumSetInfo {
 
 /// Generates the actual `EnumSetType` impl.
 fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) -> SynTokenStream {
-    let name = &info.name;
+    let enum_name = &info.name;
+    // The generated code only refers to the enum through this alias, so its name is never shadowed
+    // by the generic parameters and helper types declared there.
+    let name = &Ident::new("__EnumSetType", enum_name.span());
 
     let enumset = match &info.crate_name {
         Some(crate_name) => quote!(::#crate_name),
@@ -477,7 +480,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
             }
         }
         SerdeRepr::List => {
-            let expecting_str = format!("a list of {}", name);
+            let expecting_str = format!("a list of {}", enum_name);
             quote! {
                 fn serialize<S: #serde::Serializer>(
                     set: #enumset::EnumSet<#name>, ser: S,
@@ -517,7 +520,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
             }
         }
         SerdeRepr::Map => {
-            let expecting_str = format!("a map from {} to bool", name);
+            let expecting_str = format!("a map from {} to bool", enum_name);
             quote! {
                 fn serialize<S: #serde::Serializer>(
                     set: #enumset::EnumSet<#name>, ser: S,
@@ -661,10 +664,10 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
     let into_impl = if is_uninhabited {
         quote! {
             fn enum_into_u32(self) -> u32 {
-                panic!(concat!(stringify!(#name), " is uninhabited."))
+                panic!(concat!(stringify!(#enum_name), " is uninhabited."))
             }
             unsafe fn enum_from_u32(val: u32) -> Self {
-                panic!(concat!(stringify!(#name), " is uninhabited."))
+                panic!(concat!(stringify!(#enum_name), " is uninhabited."))
             }
         }
     } else if is_zst {
@@ -719,7 +722,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
     };
 
     let eq_impl = if is_uninhabited {
-        quote!(panic!(concat!(stringify!(#name), " is uninhabited.")))
+        quote!(panic!(concat!(stringify!(#enum_name), " is uninhabited.")))
     } else {
         quote!((*self as u32) == (*other as u32))
     };
@@ -932,6 +935,8 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
     let vis = &info.vis;
     quote! {
         const _: () = {
+            type #name = #enum_name;
+
             #[automatically_derived]
             #[doc(hidden)]
             #vis struct __EnumSetConstHelper;
-- 
2.43.0


From 65a742644d3531f9b22107120ae2e646952f60a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 07/15] fix: let the empty enum_set! literal work without
 EnumSet in scope

---
 enumset/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enumset/src/macros.rs b/enumset/src/macros.rs
index a2bfabb..32e5489 100644
--- a/enumset/src/macros.rs
+++ b/enumset/src/macros.rs
@@ -42,7 +42,7 @@ pub mod __internal {
 #[macro_export]
 macro_rules! enum_set {
     ($(|)*) => {
-        EnumSet::empty()
+        $crate::EnumSet::empty()
     };
     ($value:path $(|)*) => {
         {
-- 
2.43.0


From 5401a4c60f740af0517459fc6553a50183f048c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 08/15] fix: report a bit width of zero for enums without
 variants

---
 enumset_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index ebf12c7..d18c522 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -930,7 +930,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
         });
     }
 
-    let bit_width = info.max_discrim + 1;
+    let bit_width = if is_uninhabited { 0 } else { info.max_discrim + 1 };
     let variant_count = info.variants.len() as u32;
     let vis = &info.vis;
     quote! {
-- 
2.43.0


From 2a95a3d781e219b95404906fba74164f670b6aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 09/15] fix: do not resolve write! through the scope of the
 derived enum

---
 enumset_derive/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index d18c522..307c864 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -501,7 +501,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
-                            write!(formatter, #expecting_str)
+                            #core::write!(formatter, #expecting_str)
                         }
                         fn visit_seq<A>(
                             mut self, mut seq: A,
@@ -541,7 +541,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
-                            write!(formatter, #expecting_str)
+                            #core::write!(formatter, #expecting_str)
                         }
                         fn visit_map<A>(
                             mut self, mut map: A,
@@ -625,7 +625,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
-                            write!(formatter, "a list of u64")
+                            #core::write!(formatter, "a list of u64")
                         }
                         fn visit_seq<A>(
                             mut self, mut seq: A,
-- 
2.43.0


From 4134d6e076d1e1c0fe0268d44edabac4d62da36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 10/15] fix: do not warn about deprecated enums and variants in
 derived code

---
 enumset_derive/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 307c864..d88cdd8 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -935,6 +935,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
     let vis = &info.vis;
     quote! {
         const _: () = {
+            #[allow(deprecated)]
             type #name = #enum_name;
 
             #[automatically_derived]
@@ -957,6 +958,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
             }
 
             #[automatically_derived]
+            #[allow(deprecated)]
             unsafe impl #internal::EnumSetTypePrivate for #name {
                 type ConstHelper = __EnumSetConstHelper;
                 const CONST_HELPER_INSTANCE: __EnumSetConstHelper = __EnumSetConstHelper;
-- 
2.43.0


From 50d462b75f80a2d613e852c403c5eacb1a6de61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 11/15] fix: stop polling a serialized array after its end

---
 enumset_derive/src/lib.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index d88cdd8..7567c58 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -571,7 +571,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
             let (check_extra, convert_array) = if info.serialize_deny_unknown {
                 (
                     quote! {
-                        if _val != 0 {
+                        if val != 0 {
                             return #core::prelude::v1::Err(
                                 <A::Error as #serde::de::Error>::custom(
                                     "enumset contains unknown bits"
@@ -636,16 +636,13 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
 
                             let mut i = 0;
                             while let #core::prelude::v1::Some(val) = seq.next_element::<u64>()? {
-                                accum[i] = val;
-                                i += 1;
-
-                                if i == accum.len() {
-                                    break;
+                                if i < accum.len() {
+                                    accum[i] = val;
+                                    i += 1;
+                                } else {
+                                    #check_extra
                                 }
                             }
-                            while let #core::prelude::v1::Some(_val) = seq.next_element::<u64>()? {
-                                #check_extra
-                            }
 
                             #convert_array
                         }
-- 
2.43.0


From c53efc6c4eebbac8c68ee3df27bb93b5714535ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:33 +0000
Subject: [PATCH 12/15] fix: report a malformed crate_name option instead of
 panicking

---
 enumset_derive/src/lib.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 7567c58..cf01a10 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -28,7 +28,7 @@ struct EnumsetAttrs {
     serialize_repr: SpannedValue<Option<String>>,
     serialize_deny_unknown: bool,
     #[darling(default)]
-    crate_name: Option<String>,
+    crate_name: SpannedValue<Option<String>>,
 
     // legacy options
     serialize_as_list: SpannedValue<bool>, // replaced with serialize_repr
@@ -146,13 +146,22 @@ struct EnumSetInfo {
     serialize_deny_unknown: bool,
 }
 impl EnumSetInfo {
-    fn new(input: &DeriveInput, attrs: &EnumsetAttrs) -> EnumSetInfo {
-        EnumSetInfo {
+    fn new(input: &DeriveInput, attrs: &EnumsetAttrs) -> Result<EnumSetInfo> {
+        let crate_name = match &*attrs.crate_name {
+            Some(x) => match parse_str::<Ident>(x) {
+                Ok(mut ident) => {
+                    ident.set_span(Span::call_site());
+                    Some(ident)
+                }
+                Err(_) => {
+                    error(attrs.crate_name.span(), format!("`{}` is not a valid crate name.", x))?
+                }
+            },
+            None => None,
+        };
+        Ok(EnumSetInfo {
             name: input.ident.clone(),
-            crate_name: attrs
-                .crate_name
-                .as_ref()
-                .map(|x| Ident::new(x, Span::call_site())),
+            crate_name,
             explicit_internal_repr: None,
             internal_repr_force_array: false,
             explicit_serde_repr: None,
@@ -166,7 +175,7 @@ impl EnumSetInfo {
             no_ops: attrs.no_ops,
             no_super_impls: attrs.no_super_impls,
             serialize_deny_unknown: attrs.serialize_deny_unknown,
-        }
+        })
     }
 
     /// Explicits sets the serde representation of the enumset from a string.
@@ -1005,7 +1014,7 @@ fn derive_enum_set_type_0(
             "`#[derive(EnumSetType)]` cannot be used on enums with type parameters.",
         )
     } else if let Data::Enum(data) = &input.data {
-        let mut info = EnumSetInfo::new(&input, &attrs);
+        let mut info = EnumSetInfo::new(&input, &attrs)?;
         let mut warnings = Vec::new();
 
         // Check enum repr
-- 
2.43.0


From 1bdf3a0bee518b028da21c522bdac15543ad36ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:33 +0000
Subject: [PATCH 13/15] fix: do not resolve panic! through the scope of the
 derived enum

---
 enumset_derive/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index cf01a10..4ccd13a 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -670,10 +670,10 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
     let into_impl = if is_uninhabited {
         quote! {
             fn enum_into_u32(self) -> u32 {
-                panic!(concat!(stringify!(#enum_name), " is uninhabited."))
+                #core::panic!(#core::concat!(#core::stringify!(#enum_name), " is uninhabited."))
             }
             unsafe fn enum_from_u32(val: u32) -> Self {
-                panic!(concat!(stringify!(#enum_name), " is uninhabited."))
+                #core::panic!(#core::concat!(#core::stringify!(#enum_name), " is uninhabited."))
             }
         }
     } else if is_zst {
@@ -728,7 +728,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
     };
 
     let eq_impl = if is_uninhabited {
-        quote!(panic!(concat!(stringify!(#enum_name), " is uninhabited.")))
+        quote!(#core::panic!(#core::concat!(#core::stringify!(#enum_name), " is uninhabited.")))
     } else {
         quote!((*self as u32) == (*other as u32))
     };
-- 
2.43.0


From 66355e66bf4eb0193db4744c715aedb11243e159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:44 +0000
Subject: [PATCH 14/15] fix: do not resolve slice methods through the scope of
 the derived enum

---
 enumset_derive/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 4ccd13a..ea68400 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -614,8 +614,10 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     let array = set.as_array::<{ #preferred_size }>();
 
                     // find the last non-zero value in the array
-                    let mut end = array.len();
-                    for i in (0..array.len()).rev() {
+                    let mut end = #preferred_size;
+                    let mut i = #preferred_size;
+                    while i > 0 {
+                        i -= 1;
                         if array[i] != 0 {
                             break;
                         }
@@ -645,7 +647,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
 
                             let mut i = 0;
                             while let #core::prelude::v1::Some(val) = seq.next_element::<u64>()? {
-                                if i < accum.len() {
+                                if i < #preferred_size {
                                     accum[i] = val;
                                     i += 1;
                                 } else {
-- 
2.43.0


From 10dee0d1437815ffcadd21c6d2d357445dff1c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 15/15] fix: do not resolve methods of serde's traits through
 the scope of the derived enum

---
 enumset_derive/src/lib.rs | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index ea68400..37d603e 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -459,9 +459,8 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 );
                 quote! {
                     if value & !#valid_bits != 0 {
-                        use #serde::de::Error;
                         return #core::prelude::v1::Err(
-                            D::Error::custom("enumset contains unknown bits")
+                            <D::Error as #serde::de::Error>::custom("enumset contains unknown bits")
                         )
                     }
                 }
@@ -494,12 +493,13 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 fn serialize<S: #serde::Serializer>(
                     set: #enumset::EnumSet<#name>, ser: S,
                 ) -> #core::result::Result<S::Ok, S::Error> {
-                    use #serde::ser::SerializeSeq;
-                    let mut seq = ser.serialize_seq(#core::prelude::v1::Some(set.len()))?;
+                    let len = #enumset::EnumSet::<#name>::len(&set);
+                    let mut seq =
+                        #serde::Serializer::serialize_seq(ser, #core::prelude::v1::Some(len))?;
                     for bit in set {
-                        seq.serialize_element(&bit)?;
+                        #serde::ser::SerializeSeq::serialize_element(&mut seq, &bit)?;
                     }
-                    seq.end()
+                    #serde::ser::SerializeSeq::end(seq)
                 }
                 fn deserialize<'de, D: #serde::Deserializer<'de>>(
                     de: D,
@@ -518,13 +518,15 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                             A: #serde::de::SeqAccess<'de>
                         {
                             let mut accum = #enumset::EnumSet::<#name>::new();
-                            while let #core::prelude::v1::Some(val) = seq.next_element::<#name>()? {
+                            while let #core::prelude::v1::Some(val) =
+                                #serde::de::SeqAccess::next_element::<#name>(&mut seq)?
+                            {
                                 accum |= val;
                             }
                             #core::prelude::v1::Ok(accum)
                         }
                     }
-                    de.deserialize_seq(Visitor)
+                    #serde::Deserializer::deserialize_seq(de, Visitor)
                 }
             }
         }
@@ -534,12 +536,13 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 fn serialize<S: #serde::Serializer>(
                     set: #enumset::EnumSet<#name>, ser: S,
                 ) -> #core::result::Result<S::Ok, S::Error> {
-                    use #serde::ser::SerializeMap;
-                    let mut map = ser.serialize_map(#core::prelude::v1::Some(set.len()))?;
+                    let len = #enumset::EnumSet::<#name>::len(&set);
+                    let mut map =
+                        #serde::Serializer::serialize_map(ser, #core::prelude::v1::Some(len))?;
                     for bit in set {
-                        map.serialize_entry(&bit, &true)?;
+                        #serde::ser::SerializeMap::serialize_entry(&mut map, &bit, &true)?;
                     }
-                    map.end()
+                    #serde::ser::SerializeMap::end(map)
                 }
                 fn deserialize<'de, D: #serde::Deserializer<'de>>(
                     de: D,
@@ -559,7 +562,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                         {
                             let mut accum = #enumset::EnumSet::<#name>::new();
                             while let #core::prelude::v1::Some((val, is_present)) =
-                                map.next_entry::<#name, bool>()?
+                                #serde::de::MapAccess::next_entry::<#name, bool>(&mut map)?
                             {
                                 if is_present {
                                     accum |= val;
@@ -568,7 +571,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                             #core::prelude::v1::Ok(accum)
                         }
                     }
-                    de.deserialize_map(Visitor)
+                    #serde::Deserializer::deserialize_map(de, Visitor)
                 }
             }
         }
@@ -611,7 +614,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     set: #enumset::EnumSet<#name>, ser: S,
                 ) -> #core::result::Result<S::Ok, S::Error> {
                     // read the enum as an array
-                    let array = set.as_array::<{ #preferred_size }>();
+                    let array = #enumset::EnumSet::<#name>::as_array::<{ #preferred_size }>(&set);
 
                     // find the last non-zero value in the array
                     let mut end = #preferred_size;
@@ -646,7 +649,9 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                             let mut accum = [0; #preferred_size];
 
                             let mut i = 0;
-                            while let #core::prelude::v1::Some(val) = seq.next_element::<u64>()? {
+                            while let #core::prelude::v1::Some(val) =
+                                #serde::de::SeqAccess::next_element::<u64>(&mut seq)?
+                            {
                                 if i < #preferred_size {
                                     accum[i] = val;
                                     i += 1;
@@ -658,7 +663,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                             #convert_array
                         }
                     }
-                    de.deserialize_seq(Visitor)
+                    #serde::Deserializer::deserialize_seq(de, Visitor)
                 }
             }
         }
-- 
2.43.0

