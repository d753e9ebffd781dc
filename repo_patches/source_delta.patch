From 929e69920fc834b61659114e85b7598b78f49488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 01/32] fix: raw identifiers as field names panicked the derive
 macro

---
 binread_derive/src/codegen/sanitization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/sanitization.rs b/binread_derive/src/codegen/sanitization.rs
index aea3b77..b04bac3 100644
--- a/binread_derive/src/codegen/sanitization.rs
+++ b/binread_derive/src/codegen/sanitization.rs
@@ -58,7 +58,7 @@ ident_str! {
 }
 
 pub(crate) fn make_ident(ident: &Ident, kind: &str) -> Ident {
-    format_ident!("__binread_generated_{}_{}", kind, ident.to_string())
+    format_ident!("__binread_generated_{}_{}", kind, ident)
 }
 
 /// A string wrapper that converts the str to a $path `TokenStream`, allowing
-- 
2.43.0


From 7cbf63a5a68706e4e35b0e586ae862c1b8fe98e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:45 +0000
Subject: [PATCH 02/32] fix: restore the reader position when a try field fails
 to parse

---
 binread_derive/src/codegen/read_options/struct.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index e1988bd..3f6bda4 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -356,7 +356,16 @@ impl<'field> FieldGenerator<'field> {
         } else {
             let result = self.out;
             self.out = if self.field.do_try {
-                quote! { #result.ok() }
+                quote! {{
+                    let #SAVED_POSITION = #POS_TRAIT::stream_pos(#READER)?;
+                    match #result {
+                        Ok(value) => Some(value),
+                        Err(_) => {
+                            #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#SAVED_POSITION))?;
+                            None
+                        }
+                    }
+                }}
             } else {
                 let handle_error = debug_template::handle_error();
                 quote! { #result#handle_error? }
-- 
2.43.0


From 36e5a2e1f894b004a40ad4ce0ff6c7f707d01a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:45 +0000
Subject: [PATCH 03/32] fix: post-process boxed values

---
 binread/src/binread_impls.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/binread/src/binread_impls.rs b/binread/src/binread_impls.rs
index 2a4876f..530cfb3 100644
--- a/binread/src/binread_impls.rs
+++ b/binread/src/binread_impls.rs
@@ -289,6 +289,18 @@ impl<T: BinRead> BinRead for Box<T> {
     ) -> BinResult<Self> {
         Ok(Box::new(T::read_options(reader, options, args)?))
     }
+
+    fn after_parse<R>(
+        &mut self,
+        reader: &mut R,
+        ro: &ReadOptions,
+        args: Self::Args,
+    ) -> BinResult<()>
+    where
+        R: Read + Seek,
+    {
+        (**self).after_parse(reader, ro, args)
+    }
 }
 
 impl<T: BinRead> BinRead for Option<T> {
-- 
2.43.0


From 2be3b0c5e1b24290d925d5c5f487cba4f65be6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:45 +0000
Subject: [PATCH 04/32] fix: reject null-terminated strings without a
 terminator

---
 binread/src/strings.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/binread/src/strings.rs b/binread/src/strings.rs
index e931961..068044f 100644
--- a/binread/src/strings.rs
+++ b/binread/src/strings.rs
@@ -20,11 +20,20 @@ impl BinRead for Vec<NonZeroU8> {
         _: &ReadOptions,
         _: Self::Args,
     ) -> BinResult<Self> {
-        reader
-            .bytes()
-            .take_while(|x| !matches!(x, Ok(0)))
-            .map(|x| Ok(x.map(|byte| unsafe { NonZeroU8::new_unchecked(byte) })?))
-            .collect()
+        let mut values = vec![];
+
+        for byte in reader.bytes() {
+            match NonZeroU8::new(byte?) {
+                Some(byte) => values.push(byte),
+                None => return Ok(values),
+            }
+        }
+
+        Err(io::Error::new(
+            io::ErrorKind::UnexpectedEof,
+            "missing null terminator",
+        )
+        .into())
     }
 }
 
-- 
2.43.0


From ed3f4f02e5f3c74645f64ed26d73b6c2e07fea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:45 +0000
Subject: [PATCH 05/32] fix: NullString::to_string panicked on invalid UTF-8

---
 binread/src/strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread/src/strings.rs b/binread/src/strings.rs
index 068044f..46e6cbb 100644
--- a/binread/src/strings.rs
+++ b/binread/src/strings.rs
@@ -250,7 +250,7 @@ impl core::ops::Deref for NullWideString {
 
 impl ToString for NullString {
     fn to_string(&self) -> String {
-        core::str::from_utf8(&self).unwrap().to_string()
+        String::from_utf8_lossy(self).into_owned()
     }
 }
 
-- 
2.43.0


From 0495f88d48e1d3d8137a3759498b7fafd4fa5e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:57 +0000
Subject: [PATCH 06/32] fix: return I/O errors from try_map functions as Io, as
 documented

---
 binread/src/private.rs                     | 20 ++++++++++++++++++++
 binread_derive/src/codegen/read_options.rs |  7 +------
 binread_derive/src/codegen/sanitization.rs |  1 +
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/binread/src/private.rs b/binread/src/private.rs
index 4126656..c2c44c5 100644
--- a/binread/src/private.rs
+++ b/binread/src/private.rs
@@ -48,6 +48,26 @@ where
     f
 }
 
+// Type erasure is needed because there is no way to specialize on `io::Error`
+pub fn map_error<E>(err: E, pos: u64) -> Error
+where
+    E: core::any::Any + Sync + Send + 'static,
+{
+    let mut err = Some(err);
+    let io_err = (&mut err as &mut dyn core::any::Any)
+        .downcast_mut::<Option<io::Error>>()
+        .and_then(Option::take);
+
+    match (io_err, err) {
+        (Some(err), _) => Error::Io(err),
+        (None, Some(err)) => Error::Custom {
+            pos,
+            err: Box::new(err),
+        },
+        (None, None) => unreachable!(),
+    }
+}
+
 pub fn try_after_parse<Reader, ValueType, ArgType>(
     item: &mut Option<ValueType>,
     reader: &mut Reader,
diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index ca61e22..64ac411 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -143,12 +143,7 @@ fn get_magic(magic: &Magic, options_var: &impl ToTokens) -> Option<TokenStream>
 
 fn get_map_err(pos: IdentStr) -> TokenStream {
     quote! {
-        .map_err(|e| {
-            #BIN_ERROR::Custom {
-                pos: #pos,
-                err: Box::new(e) as _,
-            }
-        })
+        .map_err(|e| #MAP_ERROR(e, #pos))
     }
 }
 
diff --git a/binread_derive/src/codegen/sanitization.rs b/binread_derive/src/codegen/sanitization.rs
index b04bac3..2684781 100644
--- a/binread_derive/src/codegen/sanitization.rs
+++ b/binread_derive/src/codegen/sanitization.rs
@@ -50,6 +50,7 @@ ident_str! {
     pub(super) ASSERT_MAGIC = from_crate!(error::magic);
     pub(super) ASSERT = from_crate!(__private::assert);
     pub(super) ASSERT_ERROR_FN = from_crate!(__private::AssertErrorFn);
+    pub(super) MAP_ERROR = from_crate!(__private::map_error);
     pub(super) COERCE_FN = from_crate!(__private::coerce_fn);
     pub(super) TRY_AFTER_PARSE = from_crate!(__private::try_after_parse);
     pub(super) TEMP = "__binread_temp";
-- 
2.43.0


From 7c3ea93740fa72412e806b6255410fb2f8ea70b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 07/32] fix: apply byte order, magic, imports and
 pre-assertions to mapped types

---
 binread_derive/src/codegen/read_options.rs | 38 +++++++++++++++++++---
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index 64ac411..e012568 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -20,16 +20,22 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
             Input::UnitOnlyEnum(e) => generate_unit_enum(input, e),
         },
         Map::Try(map) => {
+            let prelude = get_map_prelude(input);
             let map_err = get_map_err(POS);
             quote! {
-                #READ_METHOD(#READER, #OPT, #ARGS).and_then(|value| {
-                    #map(value)#map_err
+                #prelude
+                #READ_METHOD(#READER, #OPT, #ARGS).and_then(|#TEMP| {
+                    (#map)(#TEMP)#map_err
                 })
             }
         }
-        Map::Map(map) => quote! {
-            #READ_METHOD(#READER, #OPT, #ARGS).map(#map)
-        },
+        Map::Map(map) => {
+            let prelude = get_map_prelude(input);
+            quote! {
+                #prelude
+                #READ_METHOD(#READER, #OPT, #ARGS).map(#map)
+            }
+        }
     };
 
     quote! {
@@ -88,6 +94,18 @@ impl<'input> PreludeGenerator<'input> {
         self
     }
 
+    fn add_magic(mut self) -> Self {
+        let magic = get_magic(self.input.magic(), &OPT);
+        let head = self.out;
+
+        self.out = quote! {
+            #head
+            #magic
+        };
+
+        self
+    }
+
     fn add_magic_pre_assertion(mut self) -> Self {
         let magic = get_magic(self.input.magic(), &OPT);
         let pre_assertions = get_assertions(&self.input.pre_assertions());
@@ -131,6 +149,16 @@ fn get_assertions(assertions: &[Assert]) -> impl Iterator<Item = TokenStream> +
     )
 }
 
+fn get_map_prelude(input: &Input) -> TokenStream {
+    let prelude = PreludeGenerator::new(input).add_imports().add_options();
+    match input {
+        // `pre_assert` is not accepted on unit-like enums
+        Input::UnitOnlyEnum(_) => prelude.add_magic(),
+        _ => prelude.add_magic_pre_assertion(),
+    }
+    .finish()
+}
+
 fn get_magic(magic: &Magic, options_var: &impl ToTokens) -> Option<TokenStream> {
     magic.as_ref().map(|magic| {
         let handle_error = debug_template::handle_error();
-- 
2.43.0


From c97a4a9e72cf338dba45b09089e383187d269f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 08/32] fix: check the magic of unit-like enums

---
 binread_derive/src/codegen/read_options/enum.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options/enum.rs b/binread_derive/src/codegen/read_options/enum.rs
index a4e59d1..dd6587c 100644
--- a/binread_derive/src/codegen/read_options/enum.rs
+++ b/binread_derive/src/codegen/read_options/enum.rs
@@ -30,7 +30,10 @@ fn generate_unit_enum_repr(
         }
     });
 
-    let prelude = PreludeGenerator::new(input).add_options().finish();
+    let prelude = PreludeGenerator::new(input)
+        .add_options()
+        .add_magic()
+        .finish();
 
     quote! {
         #prelude
@@ -51,6 +54,7 @@ fn generate_unit_enum_magic(
     let prelude = PreludeGenerator::new(input)
         .add_imports()
         .add_options()
+        .add_magic()
         .finish();
 
     let matches = variants.iter().filter_map(|field| {
-- 
2.43.0


From 10d71dc6d5636096492f80bc6d55366a3e5d4dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 09/32] fix: check assertions on unit structs

---
 binread_derive/src/codegen/read_options/struct.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index 3f6bda4..8b191d9 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -8,9 +8,14 @@ use syn::Ident;
 
 pub(super) fn generate_unit_struct(input: &Input, variant_ident: Option<&Ident>) -> TokenStream {
     let prelude = get_prelude(input);
+    let assertions: Vec<_> = match input {
+        Input::UnitStruct(st) => get_assertions(&st.assertions).collect(),
+        _ => Vec::new(),
+    };
     let return_type = get_return_type(variant_ident);
     quote! {
         #prelude
+        #(#assertions)*
         Ok(#return_type)
     }
 }
-- 
2.43.0


From 503f365f0528e1dc7296cfbb1af9629e05226e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 10/32] fix: pad_size_to panicked when a field ended before its
 start

---
 binread_derive/src/codegen/read_options/struct.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index 8b191d9..102f21f 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -442,10 +442,12 @@ fn generate_seek_after(field: &StructField) -> TokenStream {
     let handle_error = debug_template::handle_error();
     let pad_size_to = field.pad_size_to.as_ref().map(|pad| {
         quote! {{
-            let pad = (#pad) as i64;
-            let size = (#POS_TRAIT::stream_pos(#READER)#handle_error? - #POS) as i64;
+            let pad = i128::from((#pad) as i64);
+            let pos = #POS_TRAIT::stream_pos(#READER)#handle_error?;
+            let size = i128::from(pos) - i128::from(#POS);
             if size < pad {
-                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(pad - size))#handle_error?;
+                let skip = (pad - size).min(i128::from(i64::MAX)) as i64;
+                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(skip))#handle_error?;
             }
         }}
     });
-- 
2.43.0


From e01ed1af9e2b425b9bce9de4e3a391e50b78f82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 11/32] fix: alignment panicked on zero and misaligned
 positions past i64::MAX

---
 binread_derive/src/codegen/read_options/struct.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index 102f21f..75c8a5c 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -501,9 +501,12 @@ fn get_return_type(variant_ident: Option<&Ident>) -> TokenStream {
 fn map_align(align: &TokenStream) -> TokenStream {
     let handle_error = debug_template::handle_error();
     quote! {{
-        let align = (#align) as i64;
-        let pos = #POS_TRAIT::stream_pos(#READER)#handle_error? as i64;
-        #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current((align - (pos % align)) % align))#handle_error?;
+        let align = (#align) as u64;
+        let pos = #POS_TRAIT::stream_pos(#READER)#handle_error?;
+        // An alignment of zero is no alignment
+        let past = pos.checked_rem(align).unwrap_or(0);
+        let skip = if past == 0 { 0 } else { align - past };
+        #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(skip as i64))#handle_error?;
     }}
 }
 
-- 
2.43.0


From 01a18fb2bef44a9f42e9b91fb72b9f7e11187be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 12/32] fix: until, until_exclusive, until_eof and count
 ignored the offset of the field

---
 binread/src/helpers.rs | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/binread/src/helpers.rs b/binread/src/helpers.rs
index 419414f..3931adc 100644
--- a/binread/src/helpers.rs
+++ b/binread/src/helpers.rs
@@ -1,6 +1,6 @@
 use crate::{
     io::{ErrorKind::UnexpectedEof, Read, Seek},
-    BinRead, BinReaderExt, BinResult, ReadOptions,
+    BinRead, BinResult, ReadOptions,
 };
 #[cfg(not(feature = "std"))]
 use alloc::{vec, vec::Vec};
@@ -36,6 +36,24 @@ pub fn read_bytes<R: Read + Seek>(
     Ok(buf)
 }
 
+// Reads one item of a collection, with the byte order and offset of the collection
+fn read_element<T: BinRead, R: Read + Seek>(
+    reader: &mut R,
+    ro: &ReadOptions,
+    args: T::Args,
+) -> BinResult<T> {
+    let options = ReadOptions {
+        endian: ro.endian,
+        offset: ro.offset,
+        ..ReadOptions::default()
+    };
+
+    let mut value = T::read_options(reader, &options, args)?;
+    value.after_parse(reader, &options, args)?;
+
+    Ok(value)
+}
+
 /// Read items until a condition is met. The final item will be included.
 ///
 /// # Examples
@@ -64,11 +82,11 @@ where
 {
     move |reader, ro, args| {
         let mut result = Vec::new();
-        let mut last = reader.read_type_args(ro.endian, args.clone())?;
+        let mut last = read_element(reader, ro, args.clone())?;
 
         while !cond(&last) {
             result.push(last);
-            last = reader.read_type_args(ro.endian, args.clone())?;
+            last = read_element(reader, ro, args.clone())?;
         }
 
         result.push(last);
@@ -105,11 +123,11 @@ where
 {
     move |reader, ro, args| {
         let mut result = Vec::new();
-        let mut last = reader.read_type_args(ro.endian, args.clone())?;
+        let mut last = read_element(reader, ro, args.clone())?;
 
         while !cond(&last) {
             result.push(last);
-            last = reader.read_type_args(ro.endian, args.clone())?;
+            last = read_element(reader, ro, args.clone())?;
         }
 
         Ok(result.into_iter().collect())
@@ -140,13 +158,13 @@ where
     Ret: core::iter::FromIterator<T>,
 {
     let mut result = Vec::new();
-    let mut last = reader.read_type_args(ro.endian, args.clone());
+    let mut last = read_element(reader, ro, args.clone());
 
     while !matches!(&last, Err(crate::Error::Io(err)) if err.kind() == UnexpectedEof) {
         last = match last {
             Ok(x) => {
                 result.push(x);
-                reader.read_type_args(ro.endian, args.clone())
+                read_element(reader, ro, args.clone())
             }
             Err(err) => return Err(err),
         }
@@ -183,7 +201,7 @@ where
 {
     move |reader, ro, args| {
         (0..n)
-            .map(|_| reader.read_type_args(ro.endian, args.clone()))
+            .map(|_| read_element(reader, ro, args.clone()))
             .collect()
     }
 }
-- 
2.43.0


From 49ce6ada3786983f12cad6cb55a0e1000c44210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 13/32] fix: Punctuated allocated memory for elements that may
 not exist

---
 binread/src/punctuated.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/binread/src/punctuated.rs b/binread/src/punctuated.rs
index bc27e50..dae25ba 100644
--- a/binread/src/punctuated.rs
+++ b/binread/src/punctuated.rs
@@ -66,8 +66,9 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
             None => panic!("Missing count for Punctuated"),
         };
 
-        let mut data = Vec::with_capacity(count);
-        let mut seperators = Vec::with_capacity(count.max(1) - 1);
+        // The count comes from the input, so nothing may be allocated based on it alone
+        let mut data = Vec::new();
+        let mut seperators = Vec::new();
 
         for i in 0..count {
             data.push(T::read_options(reader, &options, args)?);
@@ -92,8 +93,9 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
             None => panic!("Missing count for Punctuated"),
         };
 
-        let mut data = Vec::with_capacity(count);
-        let mut seperators = Vec::with_capacity(count);
+        // The count comes from the input, so nothing may be allocated based on it alone
+        let mut data = Vec::new();
+        let mut seperators = Vec::new();
 
         for _ in 0..count {
             data.push(T::read_options(reader, &options, args)?);
-- 
2.43.0


From 069cf5ab93cc03a185bf2f5562c677db251a5c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 14/32] fix: post-process the elements of Punctuated

---
 binread/src/punctuated.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/binread/src/punctuated.rs b/binread/src/punctuated.rs
index dae25ba..52fe0c9 100644
--- a/binread/src/punctuated.rs
+++ b/binread/src/punctuated.rs
@@ -2,6 +2,7 @@
 //! by punction of type `P`.
 
 use crate::io::{Read, Seek};
+use crate::error::read_options_then_after_parse;
 use crate::{BinRead, BinResult, ReadOptions};
 #[cfg(not(feature = "std"))]
 use alloc::vec::Vec;
@@ -71,7 +72,7 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
         let mut seperators = Vec::new();
 
         for i in 0..count {
-            data.push(T::read_options(reader, &options, args)?);
+            data.push(read_options_then_after_parse(reader, options, args)?);
             if i + 1 != count {
                 seperators.push(P::read_options(reader, options, ())?);
             }
@@ -98,7 +99,7 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
         let mut seperators = Vec::new();
 
         for _ in 0..count {
-            data.push(T::read_options(reader, &options, args)?);
+            data.push(read_options_then_after_parse(reader, options, args)?);
             seperators.push(P::read_options(reader, options, ())?);
         }
 
-- 
2.43.0


From 1a0ba6bc9da55225753f26c76bfb84ed797ce237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:13 +0000
Subject: [PATCH 15/32] fix: read_bytes allocated memory for bytes that may not
 exist

---
 binread/src/helpers.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/binread/src/helpers.rs b/binread/src/helpers.rs
index 3931adc..784f51c 100644
--- a/binread/src/helpers.rs
+++ b/binread/src/helpers.rs
@@ -3,7 +3,7 @@ use crate::{
     BinRead, BinResult, ReadOptions,
 };
 #[cfg(not(feature = "std"))]
-use alloc::{vec, vec::Vec};
+use alloc::vec::Vec;
 
 /// A helper for more efficiently mass-reading bytes
 ///
@@ -30,8 +30,15 @@ pub fn read_bytes<R: Read + Seek>(
         Some(x) => x,
         None => panic!("Missing count for read_bytes"),
     };
-    let mut buf = vec![0; count];
-    reader.read_exact(&mut buf)?;
+    // The count comes from the input, so it is not enough to allocate memory for it
+    const CHUNK: usize = 0x10000;
+
+    let mut buf = Vec::new();
+    while buf.len() < count {
+        let start = buf.len();
+        buf.resize(count.min(start.saturating_add(CHUNK)), 0);
+        reader.read_exact(&mut buf[start..])?;
+    }
 
     Ok(buf)
 }
-- 
2.43.0


From ff59aaeb01fe78cda20b155399795fd29dfcc165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:39 +0000
Subject: [PATCH 16/32] fix: until_eof never ended for enums with data

---
 binread/src/helpers.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/binread/src/helpers.rs b/binread/src/helpers.rs
index 784f51c..58b0c80 100644
--- a/binread/src/helpers.rs
+++ b/binread/src/helpers.rs
@@ -1,6 +1,6 @@
 use crate::{
     io::{ErrorKind::UnexpectedEof, Read, Seek},
-    BinRead, BinResult, ReadOptions,
+    BinRead, BinResult, Error, ReadOptions,
 };
 #[cfg(not(feature = "std"))]
 use alloc::vec::Vec;
@@ -141,6 +141,17 @@ where
     }
 }
 
+// An enum ends at the end of the file if all of its variants do
+fn is_eof(err: &Error) -> bool {
+    match err {
+        Error::Io(err) => err.kind() == UnexpectedEof,
+        Error::EnumErrors { variant_errors, .. } => {
+            !variant_errors.is_empty() && variant_errors.iter().all(|(_, err)| is_eof(err))
+        }
+        _ => false,
+    }
+}
+
 /// Read items until the end of the file is hit.
 ///
 /// # Examples
@@ -167,7 +178,7 @@ where
     let mut result = Vec::new();
     let mut last = read_element(reader, ro, args.clone());
 
-    while !matches!(&last, Err(crate::Error::Io(err)) if err.kind() == UnexpectedEof) {
+    while !matches!(&last, Err(err) if is_eof(err)) {
         last = match last {
             Ok(x) => {
                 result.push(x);
-- 
2.43.0


From ac1069a7a7e26db932543237b3847778de9cbcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:39 +0000
Subject: [PATCH 17/32] fix: seeks of the no_std cursor relative to the end or
 past i64::MAX

---
 binread/src/io/cursor.rs | 41 +++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/binread/src/io/cursor.rs b/binread/src/io/cursor.rs
index c76fbc8..7587f45 100644
--- a/binread/src/io/cursor.rs
+++ b/binread/src/io/cursor.rs
@@ -51,33 +51,26 @@ impl<T: AsRef<[u8]>> Read for Cursor<T> {
 
 impl<T: AsRef<[u8]>> Seek for Cursor<T> {
     fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
+        let (base, offset) = match pos {
+            SeekFrom::Start(x) => (x, 0),
+            SeekFrom::End(x) => (self.inner.as_ref().len() as u64, x),
+            SeekFrom::Current(x) => (self.pos, x),
+        };
+        let pos = if offset < 0 {
+            base.checked_sub(offset.unsigned_abs())
+        } else {
+            base.checked_add(offset as u64)
+        };
+
         match pos {
-            SeekFrom::Current(x) => {
-                if (self.pos as i64) + x < 0 {
-                    Err(Error::new(
-                        ErrorKind::InvalidInput,
-                        "invalid seek to a negative or overflowing position",
-                    ))
-                } else {
-                    self.pos = ((self.pos as i64) + x) as u64;
-                    Ok(self.pos)
-                }
-            }
-            SeekFrom::Start(x) => {
-                self.pos = x;
+            Some(pos) => {
+                self.pos = pos;
                 Ok(self.pos)
             }
-            SeekFrom::End(x) => {
-                let end = self.inner.as_ref().len() as i64;
-                if (self.pos as i64) + end + x < 0 {
-                    Err(Error::new(
-                        ErrorKind::InvalidInput,
-                        "invalid seek to a negative or overflowing position",
-                    ))
-                } else {
-                    Ok(self.pos)
-                }
-            }
+            None => Err(Error::new(
+                ErrorKind::InvalidInput,
+                "invalid seek to a negative or overflowing position",
+            )),
         }
     }
 }
-- 
2.43.0


From bb2d7b46a8050a37d4a295f4b78b0b0ffe35a178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:42 +0000
Subject: [PATCH 18/32] fix: magic on a computed field did not compile

---
 binread_derive/src/codegen/read_options/struct.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index 75c8a5c..cd94744 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -320,6 +320,7 @@ impl<'field> FieldGenerator<'field> {
 
     fn prefix_magic(mut self, options_var: &Ident) -> Self {
         if let Some(magic) = get_magic(&self.field.magic, options_var) {
+            self.emit_options_vars = true;
             let tail = self.out;
             self.out = quote! {
                 #magic
-- 
2.43.0


From 4f1be1882cbbe826e40cf939d6d259ebedb10cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:44 +0000
Subject: [PATCH 19/32] fix: debug_template panicked when the position could
 not be queried

---
 binread/src/file_ptr.rs | 2 +-
 binread/src/strings.rs  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/binread/src/file_ptr.rs b/binread/src/file_ptr.rs
index a7e0aa5..a82a48a 100644
--- a/binread/src/file_ptr.rs
+++ b/binread/src/file_ptr.rs
@@ -84,7 +84,7 @@ impl<Ptr: BinRead<Args = ()> + IntoSeekFrom, BR: BinRead> BinRead for FilePtr<Pt
         let options = &{
             let mut options = *options;
 
-            let pos = reader.stream_pos().unwrap();
+            let pos = reader.stream_pos()?;
             let type_name = &core::any::type_name::<Ptr>();
             if let Some(name) = options.variable_name {
                 binary_template::write_named(
diff --git a/binread/src/strings.rs b/binread/src/strings.rs
index 46e6cbb..c150a8a 100644
--- a/binread/src/strings.rs
+++ b/binread/src/strings.rs
@@ -164,7 +164,7 @@ impl BinRead for NullWideString {
         #[cfg(feature = "debug_template")]
         let options = {
             let mut options = *options;
-            let pos = reader.stream_pos().unwrap();
+            let pos = reader.stream_pos()?;
 
             if !options.dont_output_to_template {
                 binary_template::write_named(
@@ -197,7 +197,7 @@ impl BinRead for NullString {
     ) -> BinResult<Self> {
         #[cfg(feature = "debug_template")]
         {
-            let pos = reader.stream_pos().unwrap();
+            let pos = reader.stream_pos()?;
 
             if !options.dont_output_to_template {
                 binary_template::write_named(
-- 
2.43.0


From 7895a910a52ed6e0fe32af0fb16fa6ab4ba3c6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:33 +0000
Subject: [PATCH 20/32] fix: until_eof left the reader inside an incomplete
 last item

---
 binread/src/helpers.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/binread/src/helpers.rs b/binread/src/helpers.rs
index 58b0c80..eff960d 100644
--- a/binread/src/helpers.rs
+++ b/binread/src/helpers.rs
@@ -1,5 +1,5 @@
 use crate::{
-    io::{ErrorKind::UnexpectedEof, Read, Seek},
+    io::{ErrorKind::UnexpectedEof, Read, Seek, SeekFrom, StreamPosition},
     BinRead, BinResult, Error, ReadOptions,
 };
 #[cfg(not(feature = "std"))]
@@ -176,18 +176,23 @@ where
     Ret: core::iter::FromIterator<T>,
 {
     let mut result = Vec::new();
+    let mut pos = reader.stream_pos()?;
     let mut last = read_element(reader, ro, args.clone());
 
     while !matches!(&last, Err(err) if is_eof(err)) {
         last = match last {
             Ok(x) => {
                 result.push(x);
+                pos = reader.stream_pos()?;
                 read_element(reader, ro, args.clone())
             }
             Err(err) => return Err(err),
         }
     }
 
+    // Part of another item may have been read
+    reader.seek(SeekFrom::Start(pos))?;
+
     Ok(result.into_iter().collect())
 }
 
-- 
2.43.0


From dba99f1a6461f55dfa95190aaa9e2c4efd6ba90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 21/32] fix: debug template closed a struct twice when its
 assertion failed

---
 binread_derive/src/codegen/read_options/struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index cd94744..cfcac96 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -23,8 +23,8 @@ pub(super) fn generate_unit_struct(input: &Input, variant_ident: Option<&Ident>)
 pub(super) fn generate_struct(ident: &Ident, input: &Input, st: &Struct) -> TokenStream {
     StructGenerator::new(input, st)
         .read_fields()
-        .wrap_debug(ident)
         .add_assertions(core::iter::empty())
+        .wrap_debug(ident)
         .return_value(None)
         .finish()
 }
-- 
2.43.0


From 4af67ed6f5f53262f92a63e9e9e2e65edbe5f26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:49 +0000
Subject: [PATCH 22/32] fix: debug template comments ended at the first line of
 a message

---
 binread/src/binary_template.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binread/src/binary_template.rs b/binread/src/binary_template.rs
index 1c0d6f1..089ed11 100644
--- a/binread/src/binary_template.rs
+++ b/binread/src/binary_template.rs
@@ -121,7 +121,9 @@ pub fn write_comment(comment: &str) {
         None => return,
     };
 
-    writeln!(*file, "// {}", comment);
+    for line in comment.lines() {
+        writeln!(*file, "// {}", line);
+    }
 }
 
 pub fn write_end_struct(name: Option<&str>) {
-- 
2.43.0


From 4a6c0bd7599311a2d5717a04e495728a0c7c811f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:13 +0000
Subject: [PATCH 23/32] fix: pre-assertions on the variants of enums with a
 repr were ignored

---
 binread_derive/src/codegen/read_options/enum.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options/enum.rs b/binread_derive/src/codegen/read_options/enum.rs
index dd6587c..0db4aa0 100644
--- a/binread_derive/src/codegen/read_options/enum.rs
+++ b/binread_derive/src/codegen/read_options/enum.rs
@@ -23,14 +23,19 @@ fn generate_unit_enum_repr(
 ) -> TokenStream {
     let clauses = variants.iter().map(|variant| {
         let ident = &variant.ident;
+        let pre_assertions = variant
+            .pre_assertions
+            .iter()
+            .map(|assert| &assert.condition);
         quote! {
-            if #TEMP == Self::#ident as #repr {
+            if #TEMP == Self::#ident as #repr #(&& (#pre_assertions))* {
                 Ok(Self::#ident)
             }
         }
     });
 
     let prelude = PreludeGenerator::new(input)
+        .add_imports()
         .add_options()
         .add_magic()
         .finish();
-- 
2.43.0


From a4ec8615600a33b42fd3fc385030b03e4ed18a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:52 +0000
Subject: [PATCH 24/32] fix: types named like items of the prelude did not
 compile

---
 binread_derive/src/codegen/read_options.rs    |  9 ++++++---
 .../src/codegen/read_options/enum.rs          | 12 +++++------
 .../src/codegen/read_options/struct.rs        | 20 +++++++++----------
 binread_derive/src/codegen/sanitization.rs    | 13 ++++++++++--
 binread_derive/src/parser/types/condition.rs  |  2 +-
 5 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index e012568..e1ef2c5 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -39,12 +39,15 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
     };
 
     quote! {
+        // The definition may be named like the trait
+        #[allow(unused_imports)]
+        use ::core::clone::Clone as _;
         let #POS = #POS_TRAIT::stream_pos(#READER)?;
         (|| {
             #inner
         })().or_else(|error| {
             #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS))?;
-            Err(error)
+            #ERR(error)
         })
     }
 }
@@ -193,7 +196,7 @@ impl ReadOptionsGenerator {
             let head = self.out;
             self.out = quote! {
                 #head
-                #TEMP.count = Some((#count) as usize);
+                #TEMP.count = #SOME((#count) as usize);
             };
         }
 
@@ -272,7 +275,7 @@ impl ReadOptionsGenerator {
             let head = self.out;
             self.out = quote! {
                 #head
-                #TEMP.variable_name = Some(#ident);
+                #TEMP.variable_name = #SOME(#ident);
             };
         }
 
diff --git a/binread_derive/src/codegen/read_options/enum.rs b/binread_derive/src/codegen/read_options/enum.rs
index 0db4aa0..f78c450 100644
--- a/binread_derive/src/codegen/read_options/enum.rs
+++ b/binread_derive/src/codegen/read_options/enum.rs
@@ -29,7 +29,7 @@ fn generate_unit_enum_repr(
             .map(|assert| &assert.condition);
         quote! {
             if #TEMP == Self::#ident as #repr #(&& (#pre_assertions))* {
-                Ok(Self::#ident)
+                #OK(Self::#ident)
             }
         }
     });
@@ -44,7 +44,7 @@ fn generate_unit_enum_repr(
         #prelude
         let #TEMP: #repr = #READ_METHOD(#READER, #OPT, ())?;
         #(#clauses else)* {
-            Err(#BIN_ERROR::NoVariantMatch {
+            #ERR(#BIN_ERROR::NoVariantMatch {
                 pos: #POS,
             })
         }
@@ -72,7 +72,7 @@ fn generate_unit_enum_magic(
                 let pre_assertions = field.pre_assertions.iter().map(|assert| &assert.condition);
                 quote! { #magic if true #(&& (#pre_assertions))* }
             };
-            Some(quote! { #condition => Ok(Self::#ident) })
+            Some(quote! { #condition => #OK(Self::#ident) })
         } else {
             None
         }
@@ -87,7 +87,7 @@ fn generate_unit_enum_magic(
         #prelude
         match #amp#READ_METHOD(#READER, #OPT, ())? {
             #(#matches,)*
-            _ => Err(#BIN_ERROR::NoVariantMatch { pos: #POS })
+            _ => #ERR(#BIN_ERROR::NoVariantMatch { pos: #POS })
         }
     }
 }
@@ -102,7 +102,7 @@ pub(super) fn generate_data_enum(en: &Enum) -> TokenStream {
                 let mut #ERROR_BASKET: alloc::vec::Vec<(&'static str, #BIN_ERROR)> = alloc::vec::Vec::new();
             },
             quote! {
-                Err(#BIN_ERROR::EnumErrors {
+                #ERR(#BIN_ERROR::EnumErrors {
                     pos: #POS,
                     variant_errors: #ERROR_BASKET
                 })
@@ -112,7 +112,7 @@ pub(super) fn generate_data_enum(en: &Enum) -> TokenStream {
         (
             TokenStream::new(),
             quote! {
-                Err(#BIN_ERROR::NoVariantMatch {
+                #ERR(#BIN_ERROR::NoVariantMatch {
                     pos: #POS
                 })
             },
diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index cfcac96..2009643 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -16,7 +16,7 @@ pub(super) fn generate_unit_struct(input: &Input, variant_ident: Option<&Ident>)
     quote! {
         #prelude
         #(#assertions)*
-        Ok(#return_type)
+        #OK(#return_type)
     }
 }
 
@@ -94,7 +94,7 @@ impl<'input> StructGenerator<'input> {
         let head = self.out;
         self.out = quote! {
             #head
-            Ok(#return_value)
+            #OK(#return_value)
         };
 
         self
@@ -333,7 +333,7 @@ impl<'field> FieldGenerator<'field> {
 
     fn read_value(mut self, options_var: &Ident, args_var: &Ident) -> Self {
         self.out = match &self.field.read_mode {
-            ReadMode::Default => quote! { <_>::default() },
+            ReadMode::Default => quote! { #DEFAULT_FN() },
             ReadMode::Calc(calc) => quote! { #calc },
             ReadMode::Normal | ReadMode::ParseWith(_) => {
                 let read_method = if let ReadMode::ParseWith(parser) = &self.field.read_mode {
@@ -357,7 +357,7 @@ impl<'field> FieldGenerator<'field> {
         if self.field.generated_value() {
             if self.field.do_try {
                 let value = self.out;
-                self.out = quote! { Some(#value) };
+                self.out = quote! { #SOME(#value) };
             }
         } else {
             let result = self.out;
@@ -365,10 +365,10 @@ impl<'field> FieldGenerator<'field> {
                 quote! {{
                     let #SAVED_POSITION = #POS_TRAIT::stream_pos(#READER)?;
                     match #result {
-                        Ok(value) => Some(value),
-                        Err(_) => {
+                        #OK(value) => #SOME(value),
+                        #ERR(_) => {
                             #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#SAVED_POSITION))?;
-                            None
+                            #NONE
                         }
                     }
                 }}
@@ -443,11 +443,11 @@ fn generate_seek_after(field: &StructField) -> TokenStream {
     let handle_error = debug_template::handle_error();
     let pad_size_to = field.pad_size_to.as_ref().map(|pad| {
         quote! {{
-            let pad = i128::from((#pad) as i64);
+            let pad = (#pad) as i64 as i128;
             let pos = #POS_TRAIT::stream_pos(#READER)#handle_error?;
-            let size = i128::from(pos) - i128::from(#POS);
+            let size = pos as i128 - #POS as i128;
             if size < pad {
-                let skip = (pad - size).min(i128::from(i64::MAX)) as i64;
+                let skip = if pad - size > i64::MAX as i128 { i64::MAX } else { (pad - size) as i64 };
                 #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(skip))#handle_error?;
             }
         }}
diff --git a/binread_derive/src/codegen/sanitization.rs b/binread_derive/src/codegen/sanitization.rs
index 2684781..ade8467 100644
--- a/binread_derive/src/codegen/sanitization.rs
+++ b/binread_derive/src/codegen/sanitization.rs
@@ -43,6 +43,11 @@ ident_str! {
     pub(super) ENDIAN_ENUM = from_crate!(Endian);
     pub(super) READ_METHOD = from_trait!(read_options);
     pub(super) AFTER_PARSE = from_trait!(after_parse);
+    pub(super) OK = "::core::result::Result::Ok";
+    pub(super) ERR = "::core::result::Result::Err";
+    pub(super) SOME = "::core::option::Option::Some";
+    pub(super) NONE = "::core::option::Option::None";
+    pub(super) DEFAULT_FN = "::core::default::Default::default";
     pub(super) READER = "__binread_generated_var_reader";
     pub(super) OPT = "__binread_generated_var_options";
     pub(super) ARGS = "__binread_generated_var_arguments";
@@ -75,8 +80,12 @@ impl IdentStr {
 
 impl ToTokens for IdentStr {
     fn to_tokens(&self, tokens: &mut TokenStream) {
-        let idents = self
-            .0
+        let mut path = self.0;
+        if let Some(absolute) = path.strip_prefix("::") {
+            path = absolute;
+            tokens.extend(quote!(::));
+        }
+        let idents = path
             .split("::")
             .map(|ident| Ident::new(ident, Span::call_site()));
         tokens.append_separated(idents, quote!(::));
diff --git a/binread_derive/src/parser/types/condition.rs b/binread_derive/src/parser/types/condition.rs
index bbc5644..57550ae 100644
--- a/binread_derive/src/parser/types/condition.rs
+++ b/binread_derive/src/parser/types/condition.rs
@@ -27,7 +27,7 @@ impl TryFrom<attrs::If> for Condition {
 
         let alternate = args
             .next()
-            .map_or_else(|| quote! { <_>::default() }, ToTokens::into_token_stream);
+            .map_or_else(|| quote! { ::core::default::Default::default() }, ToTokens::into_token_stream);
 
         super::assert_all_args_consumed(args, value.ident.span())?;
 
-- 
2.43.0


From 39273216a65b8763c8b26753dc3d84f1202d0b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:07 +0000
Subject: [PATCH 25/32] fix: generic parameters named R did not compile

---
 binread_derive/src/codegen/mod.rs          | 4 ++--
 binread_derive/src/codegen/sanitization.rs | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/binread_derive/src/codegen/mod.rs b/binread_derive/src/codegen/mod.rs
index 0d8d711..613f8fe 100644
--- a/binread_derive/src/codegen/mod.rs
+++ b/binread_derive/src/codegen/mod.rs
@@ -33,8 +33,8 @@ pub(crate) fn generate_impl(
         impl #impl_generics #TRAIT_NAME for #name #ty_generics #where_clause {
             type Args = #arg_type;
 
-            fn read_options<R: #READ_TRAIT + #SEEK_TRAIT>
-                (#READER: &mut R, #OPT: &#OPTIONS, #ARGS: Self::Args)
+            fn read_options<#READER_TYPE: #READ_TRAIT + #SEEK_TRAIT>
+                (#READER: &mut #READER_TYPE, #OPT: &#OPTIONS, #ARGS: Self::Args)
                 -> #BIN_RESULT<Self>
             {
                 #read_opt_impl
diff --git a/binread_derive/src/codegen/sanitization.rs b/binread_derive/src/codegen/sanitization.rs
index ade8467..17b1886 100644
--- a/binread_derive/src/codegen/sanitization.rs
+++ b/binread_derive/src/codegen/sanitization.rs
@@ -49,6 +49,7 @@ ident_str! {
     pub(super) NONE = "::core::option::Option::None";
     pub(super) DEFAULT_FN = "::core::default::Default::default";
     pub(super) READER = "__binread_generated_var_reader";
+    pub(super) READER_TYPE = "__BinreadGeneratedReader";
     pub(super) OPT = "__binread_generated_var_options";
     pub(super) ARGS = "__binread_generated_var_arguments";
     pub(super) SAVED_POSITION = "__binread_generated_saved_position";
-- 
2.43.0


From e17d04e446e21ebe17784d7307f6b1e4c6d50663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:12 +0000
Subject: [PATCH 26/32] fix: the documentation of if showed a form that is not
 accepted

---
 binread/src/attribute.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binread/src/attribute.rs b/binread/src/attribute.rs
index 476bac1..bf839f3 100644
--- a/binread/src/attribute.rs
+++ b/binread/src/attribute.rs
@@ -776,8 +776,8 @@
 //! false:
 //!
 //! ```text
-//! #[br(if = $cond:expr)] or #[br(if($cond:expr))]
-//! #[br(if = $cond:expr, $alternate:expr)] or #[br(if($cond:expr, $alternate:expr))]
+//! #[br(if($cond:expr))]
+//! #[br(if($cond:expr, $alternate:expr))]
 //! ```
 //!
 //! If an alternate is provided, that value will be used when the condition is
-- 
2.43.0


From 07d57a48f11ba863df3bd2fd10e7af806120c14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:26 +0000
Subject: [PATCH 27/32] fix: wrappers use the default arguments of the type
 they wrap

---
 binread/src/binread_impls.rs | 20 ++++++++++++++++++++
 binread/src/file_ptr.rs      |  4 ++++
 binread/src/pos_value.rs     |  4 ++++
 3 files changed, 28 insertions(+)

diff --git a/binread/src/binread_impls.rs b/binread/src/binread_impls.rs
index 530cfb3..bff0322 100644
--- a/binread/src/binread_impls.rs
+++ b/binread/src/binread_impls.rs
@@ -129,6 +129,10 @@ impl<C: Copy + 'static, B: BinRead<Args = C>> BinRead for Vec<B> {
 
         Ok(())
     }
+
+    fn args_default() -> Option<Self::Args> {
+        B::args_default()
+    }
 }
 
 #[cfg(not(feature = "const_generics"))]
@@ -175,6 +179,10 @@ macro_rules! binread_array_impl {
 
                     Ok(())
                 }
+
+                fn args_default() -> Option<Self::Args> {
+                    B::args_default()
+                }
             }
         )*
     }
@@ -227,6 +235,10 @@ impl<C: Copy + 'static, B: BinRead<Args = C>, const N: usize> BinRead for [B; N]
 
         Ok(())
     }
+
+    fn args_default() -> Option<Self::Args> {
+        B::args_default()
+    }
 }
 
 /// Internal macro to recursively implement BinRead for every size tuple given
@@ -301,6 +313,10 @@ impl<T: BinRead> BinRead for Box<T> {
     {
         (**self).after_parse(reader, ro, args)
     }
+
+    fn args_default() -> Option<Self::Args> {
+        T::args_default()
+    }
 }
 
 impl<T: BinRead> BinRead for Option<T> {
@@ -328,6 +344,10 @@ impl<T: BinRead> BinRead for Option<T> {
             None => Ok(()),
         }
     }
+
+    fn args_default() -> Option<Self::Args> {
+        T::args_default()
+    }
 }
 
 impl<T> BinRead for core::marker::PhantomData<T> {
diff --git a/binread/src/file_ptr.rs b/binread/src/file_ptr.rs
index a82a48a..a2c130f 100644
--- a/binread/src/file_ptr.rs
+++ b/binread/src/file_ptr.rs
@@ -125,6 +125,10 @@ impl<Ptr: BinRead<Args = ()> + IntoSeekFrom, BR: BinRead> BinRead for FilePtr<Pt
         reader.seek(SeekFrom::Start(before))?;
         Ok(())
     }
+
+    fn args_default() -> Option<Self::Args> {
+        BR::args_default()
+    }
 }
 
 impl<Ptr: BinRead<Args = ()> + IntoSeekFrom, BR: BinRead> FilePtr<Ptr, BR> {
diff --git a/binread/src/pos_value.rs b/binread/src/pos_value.rs
index 7bcc48b..80368f6 100644
--- a/binread/src/pos_value.rs
+++ b/binread/src/pos_value.rs
@@ -44,6 +44,10 @@ impl<T: BinRead> BinRead for PosValue<T> {
     ) -> BinResult<()> {
         self.val.after_parse(reader, options, args)
     }
+
+    fn args_default() -> Option<Self::Args> {
+        T::args_default()
+    }
 }
 
 impl<T> core::ops::Deref for PosValue<T> {
-- 
2.43.0


From a1b09e5b8b513d109efc1e03c8522cc7d4f7b03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:00 +0000
Subject: [PATCH 28/32] fix: alternate values of fields that were not read were
 resolved from the input

---
 .../src/codegen/read_options/struct.rs        | 30 +++++++++++++++++--
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index 2009643..d24d844 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -125,6 +125,7 @@ fn generate_after_parse(field: &StructField) -> Option<TokenStream> {
                 .get_value_from_ident()
                 .call_after_parse(after_parse_fn, &options_var, &args_var)
                 .prefix_offset_options(&options_var)
+                .wrap_condition()
                 .finish()
         })
     } else {
@@ -195,6 +196,21 @@ impl<'field> AfterParseGenerator<'field> {
         self
     }
 
+    // The alternate value of a field which was not read is not to be resolved
+    fn wrap_condition(mut self) -> Self {
+        if self.field.if_cond.is_some() {
+            let cond_var = make_ident(&self.field.ident, "cond");
+            let value = self.out;
+            self.out = quote! {
+                if #cond_var {
+                    #value
+                }
+            };
+        }
+
+        self
+    }
+
     fn prefix_offset_options(mut self, options_var: &Ident) -> Self {
         if let Some(offset) = &self.field.offset_after {
             let tail = self.out;
@@ -243,7 +259,15 @@ impl<'field> FieldGenerator<'field> {
         let ident = &self.field.ident;
         let ty = &self.field.ty;
         let value = self.out;
-        self.out = quote! { let mut #ident: #ty = #value; };
+        let condition = self.field.if_cond.as_ref().map(|cond| {
+            let cond_var = make_ident(ident, "cond");
+            let condition = &cond.condition;
+            quote! { let #cond_var = if #condition { true } else { false }; }
+        });
+        self.out = quote! {
+            #condition
+            let mut #ident: #ty = #value;
+        };
 
         self
     }
@@ -383,11 +407,11 @@ impl<'field> FieldGenerator<'field> {
 
     fn wrap_condition(mut self) -> Self {
         if let Some(cond) = &self.field.if_cond {
-            let condition = &cond.condition;
+            let cond_var = make_ident(&self.field.ident, "cond");
             let consequent = self.out;
             let alternate = &cond.alternate;
             self.out = quote! {
-                if #condition {
+                if #cond_var {
                     #consequent
                 } else {
                     #alternate
-- 
2.43.0


From f5a74988774005641a23abe922f22970a45e5e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:50 +0000
Subject: [PATCH 29/32] fix: template entries in native order kept the order of
 the entry before

---
 binread/src/binary_template.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/binread/src/binary_template.rs b/binread/src/binary_template.rs
index 089ed11..31b705a 100644
--- a/binread/src/binary_template.rs
+++ b/binread/src/binary_template.rs
@@ -76,7 +76,9 @@ pub fn write_named(endian: Endian, pos: u64, type_name: &str, var_name: &str) {
     match endian {
         Endian::Big => writeln!(*file, "BigEndian();"),
         Endian::Little => writeln!(*file, "LittleEndian();"),
-        _ => writeln!(*file),
+        // The order of the entry before stays in effect unless another is given
+        Endian::Native if cfg!(target_endian = "big") => writeln!(*file, "BigEndian();"),
+        Endian::Native => writeln!(*file, "LittleEndian();"),
     };
 
     let color_index = CURRENT_VAR_NUM.fetch_add(1, Ordering::SeqCst) & 0x3f;
@@ -154,7 +156,9 @@ pub fn write_vec_named(endian: Endian, pos: u64, type_name: &str, count: usize,
     match endian {
         Endian::Big => writeln!(*file, "BigEndian();"),
         Endian::Little => writeln!(*file, "LittleEndian();"),
-        _ => writeln!(*file),
+        // The order of the entry before stays in effect unless another is given
+        Endian::Native if cfg!(target_endian = "big") => writeln!(*file, "BigEndian();"),
+        Endian::Native => writeln!(*file, "LittleEndian();"),
     };
 
     let color_index = CURRENT_VAR_NUM.fetch_add(1, Ordering::SeqCst) & 0x3f;
-- 
2.43.0


From 6fb298dcfded4ee3d32883e6a910a4692ddd57f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:30 +0000
Subject: [PATCH 30/32] fix: errors in enums, unit structs and mapped types
 ended the template block around them

---
 binread_derive/src/codegen/read_options.rs     | 15 ++++++++++++---
 .../src/codegen/read_options/debug_template.rs |  2 --
 .../src/codegen/read_options/struct.rs         | 18 +-----------------
 3 files changed, 13 insertions(+), 22 deletions(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index e1ef2c5..fe98802 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -15,7 +15,7 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
     let inner = match input.map() {
         Map::None => match input {
             Input::UnitStruct(_) => generate_unit_struct(input, None),
-            Input::Struct(s) => generate_struct(ident, input, s),
+            Input::Struct(s) => generate_struct(input, s),
             Input::Enum(e) => generate_data_enum(e),
             Input::UnitOnlyEnum(e) => generate_unit_enum(input, e),
         },
@@ -38,14 +38,23 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
         }
     };
 
+    // The block of a struct ends with it, whether it could be read or not
+    let (debug_tpl_start, debug_tpl_end) = match (input.map(), input) {
+        (Map::None, Input::Struct(_)) => (debug_template::start(ident), debug_template::end()),
+        _ => <_>::default(),
+    };
+
     quote! {
         // The definition may be named like the trait
         #[allow(unused_imports)]
         use ::core::clone::Clone as _;
         let #POS = #POS_TRAIT::stream_pos(#READER)?;
-        (|| {
+        #debug_tpl_start
+        let #TEMP = (|| {
             #inner
-        })().or_else(|error| {
+        })();
+        #debug_tpl_end
+        #TEMP.or_else(|error| {
             #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS))?;
             #ERR(error)
         })
diff --git a/binread_derive/src/codegen/read_options/debug_template.rs b/binread_derive/src/codegen/read_options/debug_template.rs
index 1e3d4cf..92c2b1d 100644
--- a/binread_derive/src/codegen/read_options/debug_template.rs
+++ b/binread_derive/src/codegen/read_options/debug_template.rs
@@ -21,11 +21,9 @@ pub(super) fn end() -> TokenStream {
 
 pub(super) fn handle_error() -> TokenStream {
     if cfg!(feature = "debug_template") {
-        let write_end_struct = end();
         quote! {
             .map_err(|e| {
                 #WRITE_COMMENT(&format!("Error: {:?}", e));
-                #write_end_struct
                 e
             })
         }
diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index d24d844..e6d4e11 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -20,11 +20,10 @@ pub(super) fn generate_unit_struct(input: &Input, variant_ident: Option<&Ident>)
     }
 }
 
-pub(super) fn generate_struct(ident: &Ident, input: &Input, st: &Struct) -> TokenStream {
+pub(super) fn generate_struct(input: &Input, st: &Struct) -> TokenStream {
     StructGenerator::new(input, st)
         .read_fields()
         .add_assertions(core::iter::empty())
-        .wrap_debug(ident)
         .return_value(None)
         .finish()
 }
@@ -99,21 +98,6 @@ impl<'input> StructGenerator<'input> {
 
         self
     }
-
-    pub(super) fn wrap_debug(mut self, ident: &Ident) -> Self {
-        if cfg!(feature = "debug_template") {
-            let debug_tpl_start = debug_template::start(&ident);
-            let debug_tpl_end = debug_template::end();
-            let body = self.out;
-            self.out = quote! {
-                #debug_tpl_start
-                #body
-                #debug_tpl_end
-            };
-        }
-
-        self
-    }
 }
 
 fn generate_after_parse(field: &StructField) -> Option<TokenStream> {
-- 
2.43.0


From f6d9ca062ebe3a9d23e599bd5c178d901c31c6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:18 +0000
Subject: [PATCH 31/32] fix: arrays of file pointers had no type in the
 template

---
 binread/src/binread_impls.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/binread/src/binread_impls.rs b/binread/src/binread_impls.rs
index bff0322..044b9e8 100644
--- a/binread/src/binread_impls.rs
+++ b/binread/src/binread_impls.rs
@@ -73,6 +73,24 @@ impl BinRead for char {
 
 binread_impl!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64);
 
+/// The name of a type in the items of a list
+#[cfg(feature = "debug_template")]
+fn element_type_name<B>() -> &'static str {
+    let type_name = core::any::type_name::<B>().rsplitn(1, "::").next().unwrap();
+
+    // this is a massive hack. I'm so sorry
+    if type_name.starts_with("binread::file_ptr::FilePtr<") {
+        // Extract the backing type name from file pointers
+        type_name
+            .trim_start_matches("binread::file_ptr::FilePtr<")
+            .split(',')
+            .next()
+            .unwrap()
+    } else {
+        type_name
+    }
+}
+
 impl<C: Copy + 'static, B: BinRead<Args = C>> BinRead for Vec<B> {
     type Args = B::Args;
 
@@ -90,19 +108,7 @@ impl<C: Copy + 'static, B: BinRead<Args = C>> BinRead for Vec<B> {
         #[cfg(feature = "debug_template")]
         {
             let pos = reader.stream_pos()?;
-            let type_name = core::any::type_name::<B>().rsplitn(1, "::").next().unwrap();
-
-            // this is a massive hack. I'm so sorry
-            let type_name = if type_name.starts_with("binread::file_ptr::FilePtr<") {
-                // Extract the backing type name from file pointers
-                type_name
-                    .trim_start_matches("binread::file_ptr::FilePtr<")
-                    .split(',')
-                    .next()
-                    .unwrap()
-            } else {
-                type_name
-            };
+            let type_name = element_type_name::<B>();
 
             binary_template::write_vec(options.endian, pos, type_name, count);
 
@@ -206,7 +212,7 @@ impl<C: Copy + 'static, B: BinRead<Args = C>, const N: usize> BinRead for [B; N]
         #[cfg(feature = "debug_template")]
         {
             let pos = reader.stream_pos()?;
-            let type_name = core::any::type_name::<B>().rsplitn(1, "::").nth(0).unwrap();
+            let type_name = element_type_name::<B>();
 
             if let Some(name) = options.variable_name {
                 binary_template::write_vec_named(options.endian, pos, type_name, N, name);
-- 
2.43.0


From 70e209a161d8910fe3acbc84a7c45f9e452cb348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:32 +0000
Subject: [PATCH 32/32] fix: separators of Punctuated were not post-processed

---
 binread/src/punctuated.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binread/src/punctuated.rs b/binread/src/punctuated.rs
index 52fe0c9..b9886cd 100644
--- a/binread/src/punctuated.rs
+++ b/binread/src/punctuated.rs
@@ -74,7 +74,7 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
         for i in 0..count {
             data.push(read_options_then_after_parse(reader, options, args)?);
             if i + 1 != count {
-                seperators.push(P::read_options(reader, options, ())?);
+                seperators.push(read_options_then_after_parse(reader, options, ())?);
             }
         }
 
@@ -100,7 +100,7 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
 
         for _ in 0..count {
             data.push(read_options_then_after_parse(reader, options, args)?);
-            seperators.push(P::read_options(reader, options, ())?);
+            seperators.push(read_options_then_after_parse(reader, options, ())?);
         }
 
         Ok(Self { data, seperators })
-- 
2.43.0

