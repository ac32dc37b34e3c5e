From 439db73f59d07f3ce7a9ab519ce938f9d2833084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 1/9] fix: keep every bit of unaligned fields longer than 31
 bytes

The running bit count was truncated to u8 before being turned into a byte
mask, so byte 31 (and multiples of 32) of a wide unaligned field lost bits.
---
 packed_struct_codegen/src/pack_codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/pack_codegen.rs b/packed_struct_codegen/src/pack_codegen.rs
index 2762e67..f684376 100644
--- a/packed_struct_codegen/src/pack_codegen.rs
+++ b/packed_struct_codegen/src/pack_codegen.rs
@@ -193,7 +193,7 @@ fn pack_bits(field: &FieldRegular) -> PackBitsCopy {
         let mut unpack = vec![];
 
         for i in 0..packed_field_len {
-            let src_mask = ones_u8(l as u8);                        
+            let src_mask = ones_u8(::std::cmp::min(l, 8) as u8);                        
             let bit_shift = emit_shift(shift);
             pack.push(quote! {
                 let _a = #i;
-- 
2.43.0


From a5a1cca89854b793bef11d8874f303326f9e4ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 2/9] fix: reject array fields whose bits do not divide evenly
 among the elements

The remainder was taken by the already rounded element size, so [u8; 4] in
10 bits was accepted and silently left two bits unused.
---
 packed_struct_codegen/src/pack_parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index ff27bfe..7bb9986 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -212,7 +212,7 @@ fn parse_field(field: &syn::Field, mp: &FieldMidPositioning, bit_range: &Range<u
             let size = get_expr_int_val(&type_array.len)?;
 
             let element_size_bits = mp.bit_width / size;
-            if (mp.bit_width % element_size_bits) != 0 {
+            if element_size_bits == 0 || (mp.bit_width % size) != 0 {
                 return Err(syn::Error::new(type_array.span(), "Element and array size mismatch!"));
             }
 
-- 
2.43.0


From c14d80afb7db2b6c2f667acd59c7e8028b026c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 3/9] fix: place reversed byte ranges on the bytes they name

bytes="1:0" denoted bits 7..=8 instead of 0..=15, because the bounds were
scaled to bits before being put in order.
---
 packed_struct_codegen/src/pack_parse_attributes.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packed_struct_codegen/src/pack_parse_attributes.rs b/packed_struct_codegen/src/pack_parse_attributes.rs
index f44bc82..82cd31b 100644
--- a/packed_struct_codegen/src/pack_parse_attributes.rs
+++ b/packed_struct_codegen/src/pack_parse_attributes.rs
@@ -205,6 +205,7 @@ pub fn parse_position_val(v: &str, multiplier: usize) -> Result<BitsPositionPars
             let start = parse_num(s[0])?;
             let end = parse_num(s[1])?;
             if multiplier > 1 {
+                let (start, end) = (::std::cmp::min(start, end), ::std::cmp::max(start, end));
                 return Ok(BitsPositionParsed::range_in_order(start * multiplier, ((end+1) * multiplier)-1));
             } else {
                 return Ok(BitsPositionParsed::range_in_order(start, end));
-- 
2.43.0


From c19019d6d3c7e886c3b71d8602b81803239e74c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 4/9] fix: enum variant following a discriminant of -0

Counting on from -0 underflowed and panicked the derive macro.
---
 packed_struct_codegen/src/primitive_enum.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/primitive_enum.rs b/packed_struct_codegen/src/primitive_enum.rs
index 830f71f..e1898fd 100644
--- a/packed_struct_codegen/src/primitive_enum.rs
+++ b/packed_struct_codegen/src/primitive_enum.rs
@@ -264,7 +264,7 @@ fn get_unitary_enum(input: &syn::DeriveInput) -> syn::Result<Vec<Variant>> {
                 match d {
                     None => (0, false, "".into()),
                     Some(d) => {
-                        if neg {
+                        if neg && d != 0 {
                             (d-1, d-1 != 0, "".into())
                         } else {
                             (d+1, false, "".into())
-- 
2.43.0


From e395cc9931ab4cef4eb284db76d782ecfa80ce3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 5/9] fix: choose i64 for implicit enum discriminants below
 i32::MIN

The range check ran before the value was negated, so i64 was never picked
and the derived code failed to compile.
---
 packed_struct_codegen/src/primitive_enum.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/packed_struct_codegen/src/primitive_enum.rs b/packed_struct_codegen/src/primitive_enum.rs
index e1898fd..dd69f48 100644
--- a/packed_struct_codegen/src/primitive_enum.rs
+++ b/packed_struct_codegen/src/primitive_enum.rs
@@ -54,11 +54,10 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
             if !d.suffix.is_empty() {
                 d.suffix.clone()
             } else if d.negative {
-                let n = d.discriminant as i64;
+                let n = (d.discriminant as i64).wrapping_neg();
                 if n < <i32>::min_value() as i64 {
                     "i64".into()
                 } else {
-                    let n = -n;
                     if n < <i16>::min_value() as i64 {
                         "i32".into()
                     } else if n < <i8>::min_value() as i64 {
-- 
2.43.0


From dffaeca16b58261021f5bd4731484feb907b7fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 6/9] fix: unpack into locals that no field name can shadow

The generated unpack() bound each field to a local of the field's own name and
array elements to <name>_<index>. A field called src hid the source bytes, and
a field called a_0 after an array a replaced the array's first element.
---
 packed_struct_codegen/src/pack_codegen.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/packed_struct_codegen/src/pack_codegen.rs b/packed_struct_codegen/src/pack_codegen.rs
index f684376..82962c3 100644
--- a/packed_struct_codegen/src/pack_codegen.rs
+++ b/packed_struct_codegen/src/pack_codegen.rs
@@ -51,20 +51,23 @@ pub fn derive_pack(parsed: &PackStruct) -> syn::Result<proc_macro2::TokenStream>
         };
 
 
-        for field in &parsed.fields {
+        // The unpacked values are held in locals that are numbered, as names derived from
+        // the fields could shadow each other (`a[0]` and `a_0`) or the source bytes (`src`).
+        for (n, field) in parsed.fields.iter().enumerate() {
             match field {
                 FieldKind::Regular { ref ident, ref field } => {
-                    reg(ident, ident, field)?;
+                    let target: syn::Ident = syn::parse_str(&format!("__field_{}", n))?;
+                    reg(ident, &target, field)?;
 
                     unpack_struct_set.push(quote! {
-                        #ident
+                        #ident: #target
                     });
                 },
                 FieldKind::Array { ref ident, ref elements, .. } => {
                     let mut array_unpacked_elements = vec![];
                     for (i, field) in elements.iter().enumerate() {
                         let src: syn::ExprIndex = syn::parse_str(&format!("{}[{}]", tokens_to_string(ident), i))?;
-                        let target: syn::Ident = syn::parse_str(&format!("{}_{}", tokens_to_string(ident), i))?;
+                        let target: syn::Ident = syn::parse_str(&format!("__field_{}_{}", n, i))?;
 
                         reg(&src, &target, field)?;
                         array_unpacked_elements.push(target);
-- 
2.43.0


From 5b790eaae34703c6cab498cb93648a8343fa9e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 7/9] fix: reject lsb0 positions beyond the struct size in
 every build profile

The subtraction only panicked when the macro was built with overflow checks;
in release builds the position wrapped and the field was accepted.
---
 packed_struct_codegen/src/pack_parse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index 7bb9986..94b73e7 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -404,6 +404,10 @@ pub fn parse_struct(ast: &syn::DeriveInput) -> syn::Result<PackStruct> {
                 },
                 (Some(BitNumbering::Lsb0), BitsPositionParsed::Range(start, end)) => {
                     if let Some(struct_size_bytes) = struct_size_bytes {
+                        if std::cmp::max(start, end) >= struct_size_bytes * 8 {
+                            return Err(syn::Error::new(field.span(), "The field's position exceeds the size of the struct."));
+                        }
+
                         BitsPositionParsed::range_in_order( (struct_size_bytes * 8) - 1 - start, (struct_size_bytes * 8) - 1 - end )
                     } else {
                         return Err(syn::Error::new(field.span(), "LSB0 field positioning currently requires explicit struct byte size."));
-- 
2.43.0


From 71e6529a02d4c44530f64017156109f0552bb57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 8/9] fix: name raw-identifier enum variants without their r#
 prefix

---
 packed_struct_codegen/src/primitive_enum.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packed_struct_codegen/src/primitive_enum.rs b/packed_struct_codegen/src/primitive_enum.rs
index dd69f48..959bab1 100644
--- a/packed_struct_codegen/src/primitive_enum.rs
+++ b/packed_struct_codegen/src/primitive_enum.rs
@@ -3,6 +3,7 @@ extern crate syn;
 
 use proc_macro2::Span;
 use quote::TokenStreamExt;
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use crate::utils::*;
 use crate::common::collections_prefix;
@@ -24,21 +25,21 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
 
     let to_display_str: Vec<_> = v.iter().map(|x| {
         let n = &x.variant.ident;
-        let d = n.to_string();
+        let d = n.unraw().to_string();
         quote! {
             #name::#n => (#d)
     }}).collect();
 
     let from_str: Vec<_> = v.iter().map(|x| {
         let n = &x.variant.ident;
-        let d = n.to_string();
+        let d = n.unraw().to_string();
         quote! {
             #d => Some(#name::#n)
     }}).collect();
 
     let from_str_lower: Vec<_> = v.iter().map(|x| {
         let n = &x.variant.ident;
-        let d = n.to_string().to_lowercase();
+        let d = n.unraw().to_string().to_lowercase();
         quote! {
             #d => Some(#name::#n)
     }}).collect();
-- 
2.43.0


From cc8989a2b32028b02cea5a138b407f3c78ffda63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:52 +0000
Subject: [PATCH 9/9] fix: show raw-identifier fields without their r# prefix
 in the field table

---
 packed_struct_codegen/src/pack_codegen_docs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packed_struct_codegen/src/pack_codegen_docs.rs b/packed_struct_codegen/src/pack_codegen_docs.rs
index 1deb17b..5d70cb5 100644
--- a/packed_struct_codegen/src/pack_codegen_docs.rs
+++ b/packed_struct_codegen/src/pack_codegen_docs.rs
@@ -2,6 +2,7 @@ use crate::pack::*;
 use crate::common::*;
 use proc_macro2::Span;
 use quote::{ToTokens};
+use syn::ext::IdentExt;
 use syn::parse_quote;
 use crate::utils::*;
 
@@ -22,7 +23,7 @@ pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2:
     for field in &parsed.fields {
         match field {
             FieldKind::Regular { ref ident, ref field } => {
-                let name_str = &ident.to_string();
+                let name_str = &ident.unraw().to_string();
                 let bits: syn::ExprRange = syn::parse_str(&format!("{}..{}", field.bit_range.start, field.bit_range.end))?;
                 
                 debug_fields.push(quote! {
@@ -35,7 +36,7 @@ pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2:
             },
             FieldKind::Array { ref ident, ref elements, .. } => {
                 for (i, field) in elements.iter().enumerate() {
-                    let name_str = format!("{}[{}]", ident, i);
+                    let name_str = format!("{}[{}]", ident.unraw(), i);
                     let bits: syn::ExprRange = syn::parse_str(&format!("{}..{}", field.bit_range.start, field.bit_range.end))?;
                     
                     debug_fields.push(quote! {
-- 
2.43.0

