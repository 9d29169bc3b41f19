From 11b5c5d68d9441da0fef9b409c82b25fffbc5952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 1/6] fix: report external memory failure while checking the
 storage key hash

The key part is read again to calculate its hash. That read could fail in
external memory, and the failure was turned into a panic.
---
 src/storage_data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage_data.rs b/src/storage_data.rs
index 4f35a76..adb1f37 100644
--- a/src/storage_data.rs
+++ b/src/storage_data.rs
@@ -268,7 +268,7 @@ macro_rules! check_hash {
                             position_decoder_starts,
                             *position - position_decoder_starts,
                         )
-                        .expect("positions checked, valid slice")
+                        .map_err(|e| StorageError::ParsingKey(ParserError::Buffer(e)))?
                         .as_ref(),
                 )
             {
-- 
2.43.0


From af4aeff6eb23d3d9bc8116705bdad9423331da10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 2/6] fix: keep all bits of 64-bit-store bit vectors on 32-bit
 targets

When one half of the last u64 store element was zero, the other half was
dropped or shifted, so bits got lost, or the decoding panicked if the bit
length exceeded what remained.
---
 src/decoding_sci.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/decoding_sci.rs b/src/decoding_sci.rs
index e1ad394..7c081c3 100644
--- a/src/decoding_sci.rs
+++ b/src/decoding_sci.rs
@@ -1076,7 +1076,7 @@ macro_rules! impl_patched {
 #[cfg(any(target_pointer_width = "32", test))]
 fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
     let mut data_reformed: Vec<u32> = Vec::new();
-    for (i, element) in data_chunked.iter().enumerate() {
+    for element in data_chunked.iter() {
         let new_element1 = u32::from_le_bytes(
             element[..BYTES_PER_ELEMENT_U32]
                 .try_into()
@@ -1088,9 +1088,7 @@ fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
                 .expect("constant size slice, always fits"),
         );
         data_reformed.push(new_element1);
-        if (new_element1 != 0) || (i != data_chunked.len() - 1) {
-            data_reformed.push(new_element2)
-        }
+        data_reformed.push(new_element2);
     }
     data_reformed
 }
@@ -1099,7 +1097,7 @@ fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
 #[cfg(any(target_pointer_width = "32", test))]
 fn reform_vec_msb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
     let mut data_reformed: Vec<u32> = Vec::new();
-    for (i, x) in data_chunked.iter().enumerate() {
+    for x in data_chunked.iter() {
         let number = u64::from_le_bytes(*x);
         let element = number.to_be_bytes();
         let new_element1 = u32::from_be_bytes(
@@ -1112,9 +1110,7 @@ fn reform_vec_msb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
                 .try_into()
                 .expect("constant size slice, always fits"),
         );
-        if (new_element1 != 0) || (i != data_chunked.len() - 1) {
-            data_reformed.push(new_element1)
-        }
+        data_reformed.push(new_element1);
         data_reformed.push(new_element2);
     }
     data_reformed
-- 
2.43.0


From c2d8169dc721e5c4125de63a3ad6dbf6f1b72acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:50 +0000
Subject: [PATCH 3/6] fix: report external memory failure while special types
 are recognised

---
 src/decoding_sci.rs       |   3 +-
 src/error.rs              |   9 ++++
 src/special_indicators.rs | 108 ++++++++++++++++++++++++++++++--------
 3 files changed, 98 insertions(+), 22 deletions(-)

diff --git a/src/decoding_sci.rs b/src/decoding_sci.rs
index 7c081c3..31a796c 100644
--- a/src/decoding_sci.rs
+++ b/src/decoding_sci.rs
@@ -276,7 +276,8 @@ where
     };
     let info_ty = Info::from_ty(&ty);
     propagated.add_info(&info_ty);
-    match SpecialtyTypeChecked::from_type::<B, E, M>(&ty, data, ext_memory, position, registry) {
+    match SpecialtyTypeChecked::try_from_type::<B, E, M>(&ty, data, ext_memory, position, registry)?
+    {
         SpecialtyTypeChecked::None => match &ty.type_def {
             TypeDef::Composite(x) => {
                 let field_data_set = decode_fields::<B, E, M>(
diff --git a/src/error.rs b/src/error.rs
index 2dc08a1..42ff162 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -122,6 +122,15 @@ pub enum ParserError<E: ExternalMemory> {
 }
 
 impl<E: ExternalMemory> ParserError<E> {
+    /// Error originates in external memory, not in data or in type registry.
+    pub(crate) fn is_external(&self) -> bool {
+        matches!(
+            self,
+            ParserError::Buffer(BufferError::External(_))
+                | ParserError::Registry(RegistryError::External(_))
+        )
+    }
+
     fn error_text(&self) -> String {
         match &self {
             ParserError::Buffer(buffer_error) => format!("{buffer_error}"),
diff --git a/src/special_indicators.rs b/src/special_indicators.rs
index 743081f..0641a19 100644
--- a/src/special_indicators.rs
+++ b/src/special_indicators.rs
@@ -14,6 +14,7 @@ use crate::std::{borrow::ToOwned, string::String, vec::Vec};
 
 use crate::cards::Info;
 use crate::decoding_sci::{husk_type, pick_variant};
+use crate::error::ParserError;
 use crate::propagated::Checker;
 use crate::traits::{AsMetadata, ResolveType, SignedExtensionMetadata};
 
@@ -276,24 +277,43 @@ impl SignatureIndicator {
         E: ExternalMemory,
         M: AsMetadata<E>,
     {
-        if let Ok(husked_field_ty) =
-            husk_type::<E, M>(&field.ty, registry, ext_memory, Checker::new())
-        {
+        Self::try_from_field::<E, M>(field, ext_memory, registry).unwrap_or(Self::None)
+    }
+
+    /// Same as [`from_field`](Self::from_field), external memory failure is
+    /// reported as an error.
+    pub(crate) fn try_from_field<E, M>(
+        field: &Field<PortableForm>,
+        ext_memory: &mut E,
+        registry: &M::TypeRegistry,
+    ) -> Result<Self, ParserError<E>>
+    where
+        E: ExternalMemory,
+        M: AsMetadata<E>,
+    {
+        let indicator = if let Some(husked_field_ty) = ok_unless_external(husk_type::<E, M>(
+            &field.ty,
+            registry,
+            ext_memory,
+            Checker::new(),
+        ))? {
             // check here that the underlying type is really `[u8; LEN]` array
             let array_u8_length = match husked_field_ty.ty.type_def {
                 TypeDef::Array(signature_array_ty) => {
                     let element_ty_id = signature_array_ty.type_param.id;
-                    if let Ok(element_ty) = registry.resolve_ty(element_ty_id, ext_memory) {
+                    if let Some(element_ty) =
+                        ok_unless_external(registry.resolve_ty(element_ty_id, ext_memory))?
+                    {
                         if let TypeDef::Primitive(TypeDefPrimitive::U8) = element_ty.type_def {
                             signature_array_ty.len
                         } else {
-                            return Self::None;
+                            return Ok(Self::None);
                         }
                     } else {
-                        return Self::None;
+                        return Ok(Self::None);
                     }
                 }
-                _ => return Self::None,
+                _ => return Ok(Self::None),
             };
             match &field.type_name {
                 Some(type_name) => match type_name.as_str() {
@@ -326,7 +346,22 @@ impl SignatureIndicator {
             }
         } else {
             Self::None
-        }
+        };
+        Ok(indicator)
+    }
+}
+
+/// Result as an `Option`, except for the external memory failure, that remains
+/// an error.
+fn ok_unless_external<T, X, E>(result: Result<T, X>) -> Result<Option<T>, ParserError<E>>
+where
+    X: Into<ParserError<E>>,
+    E: ExternalMemory,
+{
+    match result.map_err(Into::into) {
+        Ok(a) => Ok(Some(a)),
+        Err(e) if e.is_external() => Err(e),
+        Err(_) => Ok(None),
     }
 }
 
@@ -598,7 +633,25 @@ impl SpecialtyTypeChecked {
         E: ExternalMemory,
         M: AsMetadata<E>,
     {
-        match SpecialtyTypeHinted::from_type(ty) {
+        Self::try_from_type::<B, E, M>(ty, data, ext_memory, position, registry)
+            .unwrap_or(Self::None)
+    }
+
+    /// Same as [`from_type`](Self::from_type), external memory failure is
+    /// reported as an error.
+    pub(crate) fn try_from_type<B, E, M>(
+        ty: &Type<PortableForm>,
+        data: &B,
+        ext_memory: &mut E,
+        position: &mut usize,
+        registry: &M::TypeRegistry,
+    ) -> Result<Self, ParserError<E>>
+    where
+        B: AddressableBuffer<E>,
+        E: ExternalMemory,
+        M: AsMetadata<E>,
+    {
+        let checked = match SpecialtyTypeHinted::from_type(ty) {
             SpecialtyTypeHinted::None => Self::None,
             SpecialtyTypeHinted::AccountId32 => Self::AccountId32,
             SpecialtyTypeHinted::Era => Self::Era,
@@ -607,14 +660,19 @@ impl SpecialtyTypeChecked {
             SpecialtyTypeHinted::H512 => Self::H512,
             SpecialtyTypeHinted::MultiSignature => {
                 if let TypeDef::Variant(x) = &ty.type_def {
-                    match pick_variant::<B, E>(&x.variants, data, ext_memory, *position) {
-                        Ok(signature_variant) => {
+                    match ok_unless_external(pick_variant::<B, E>(
+                        &x.variants,
+                        data,
+                        ext_memory,
+                        *position,
+                    ))? {
+                        Some(signature_variant) => {
                             if signature_variant.fields.len() == 1 {
-                                match SignatureIndicator::from_field::<E, M>(
+                                match SignatureIndicator::try_from_field::<E, M>(
                                     &signature_variant.fields[0],
                                     ext_memory,
                                     registry,
-                                ) {
+                                )? {
                                     SignatureIndicator::None => Self::None,
                                     SignatureIndicator::Ecdsa => {
                                         *position += ENUM_INDEX_ENCODED_LEN;
@@ -633,7 +691,7 @@ impl SpecialtyTypeChecked {
                                 Self::None
                             }
                         }
-                        Err(_) => Self::None,
+                        None => Self::None,
                     }
                 } else {
                     Self::None
@@ -643,13 +701,20 @@ impl SpecialtyTypeChecked {
                 if let TypeDef::Variant(x) = &ty.type_def {
                     // found specific variant corresponding to pallet,
                     // get pallet name from here
-                    match pick_variant::<B, E>(&x.variants, data, ext_memory, *position) {
-                        Ok(pallet_variant) => {
+                    match ok_unless_external(pick_variant::<B, E>(
+                        &x.variants,
+                        data,
+                        ext_memory,
+                        *position,
+                    ))? {
+                        Some(pallet_variant) => {
                             let pallet_name = pallet_variant.name.to_owned();
                             if pallet_variant.fields.len() == 1 {
                                 let item_ty_id = pallet_variant.fields[0].ty.id;
-                                match registry.resolve_ty(item_ty_id, ext_memory) {
-                                    Ok(variants_ty) => {
+                                match ok_unless_external(
+                                    registry.resolve_ty(item_ty_id, ext_memory),
+                                )? {
+                                    Some(variants_ty) => {
                                         if let SpecialtyTypeHinted::PalletSpecific(item_repeated) =
                                             SpecialtyTypeHinted::from_type(&variants_ty)
                                         {
@@ -675,13 +740,13 @@ impl SpecialtyTypeChecked {
                                             Self::None
                                         }
                                     }
-                                    Err(_) => Self::None,
+                                    None => Self::None,
                                 }
                             } else {
                                 Self::None
                             }
                         }
-                        Err(_) => Self::None,
+                        None => Self::None,
                     }
                 } else {
                     Self::None
@@ -699,6 +764,7 @@ impl SpecialtyTypeChecked {
             SpecialtyTypeHinted::SignatureSr25519 => Self::SignatureSr25519,
             SpecialtyTypeHinted::SignatureEcdsa => Self::SignatureEcdsa,
             SpecialtyTypeHinted::UncheckedExtrinsic => Self::None,
-        }
+        };
+        Ok(checked)
     }
 }
-- 
2.43.0


From 86a105cb177cb857263a2adf223a5f595883ccf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:07 +0000
Subject: [PATCH 4/6] fix: compare unchecked extrinsic length without overflow
 on 32-bit targets

---
 src/unchecked_extrinsic.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/unchecked_extrinsic.rs b/src/unchecked_extrinsic.rs
index d55d0a9..8286f7f 100644
--- a/src/unchecked_extrinsic.rs
+++ b/src/unchecked_extrinsic.rs
@@ -90,12 +90,14 @@ where
     let extrinsic_length = get_compact::<u32, B, E>(input, ext_memory, &mut extrinsic_start)
         .map_err(|_| UncheckedExtrinsicError::FormatNoCompact)? as usize;
     let len = input.total_len();
-    match (extrinsic_start + extrinsic_length).cmp(&len) {
+    // `extrinsic_start + extrinsic_length` could overflow on 32-bit platforms
+    let available_length = len - extrinsic_start;
+    match extrinsic_length.cmp(&available_length) {
         Ordering::Greater => {
             return Err(UncheckedExtrinsicError::Parsing(ParserError::Buffer(
                 BufferError::DataTooShort {
                     position: len,
-                    minimal_length: extrinsic_start + extrinsic_length - len,
+                    minimal_length: extrinsic_length - available_length,
                 },
             )))
         }
-- 
2.43.0


From 874bb7d0e42ec282dc3a4cc8d2d1b3be1baf1edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:13 +0000
Subject: [PATCH 5/6] fix: length of call that overflows the address space cuts
 the signable instead of overflowing

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b74f580..41172e6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -581,7 +581,9 @@ where
         let mut call_start: usize = 0;
         let call_length = get_compact::<u32, B, E>(data, ext_memory, &mut call_start)
             .map_err(|_| SignableError::CutSignable)? as usize;
-        let extensions_start = call_start + call_length;
+        let extensions_start = call_start
+            .checked_add(call_length)
+            .ok_or(SignableError::CutSignable)?;
         match data.read_slice(ext_memory, call_start, call_length) {
             Ok(_) => Ok(Self {
                 data,
-- 
2.43.0


From 7b80cb31650c879e310e3ce6921f7bb69e298575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:46 +0000
Subject: [PATCH 6/6] fix: failing external memory is reported for bit
 sequences with 64-bit store on 32-bit platforms

---
 src/decoding_sci.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoding_sci.rs b/src/decoding_sci.rs
index 31a796c..6f1b4e6 100644
--- a/src/decoding_sci.rs
+++ b/src/decoding_sci.rs
@@ -1046,6 +1046,9 @@ macro_rules! impl_patched {
                                     .try_into()
                                     .expect("constant size slice, always fits"),
                             ),
+                            Err(BufferError::External(e)) => {
+                                return Err(ParserError::Buffer(BufferError::External(e)))
+                            }
                             Err(_) => {
                                 return Err(ParserError::Buffer(
                                 BufferError::DataTooShort {
-- 
2.43.0

