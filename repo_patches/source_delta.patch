From 124a0b506d97cfa5bd308cc61236e4254785ee17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 01/43] fix: account for the byte length in the size of
 collection prefixes

---
 crates/mabo/src/buf/size.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/mabo/src/buf/size.rs b/crates/mabo/src/buf/size.rs
index c697632..fb5c38c 100644
--- a/crates/mabo/src/buf/size.rs
+++ b/crates/mabo/src/buf/size.rs
@@ -68,12 +68,18 @@ pub const fn size_bytes_bytes(value: &Bytes) -> usize {
     size_u64(value.len() as u64) + value.len()
 }
 
+/// Calculate the size of content that is prefixed with its length in bytes.
+#[inline(always)]
+const fn size_length_prefixed(len: usize) -> usize {
+    size_u64(len as u64) + len
+}
+
 /// Calculate the size of a Mabo `vec<T>` vector value.
 pub fn size_vec<T, S>(vec: &[T], size: S) -> usize
 where
     S: Fn(&T) -> usize,
 {
-    size_u64(vec.len() as u64) + vec.iter().map(size).sum::<usize>()
+    size_length_prefixed(vec.iter().map(size).sum::<usize>())
 }
 
 /// Calculate the size of a Mabo `hash_map<K, V>` hash map value.
@@ -82,11 +88,11 @@ where
     SK: Fn(&K) -> usize,
     SV: Fn(&V) -> usize,
 {
-    size_u64(map.len() as u64)
-        + map
-            .iter()
+    size_length_prefixed(
+        map.iter()
             .map(|(key, value)| size_key(key) + size_value(value))
-            .sum::<usize>()
+            .sum::<usize>(),
+    )
 }
 
 /// Calculate the size of a Mabo `hash_set<T>` hash set value.
@@ -94,7 +100,7 @@ pub fn size_hash_set<T, S>(set: &HashSet<T>, size: S) -> usize
 where
     S: Fn(&T) -> usize,
 {
-    size_u64(set.len() as u64) + set.iter().map(size).sum::<usize>()
+    size_length_prefixed(set.iter().map(size).sum::<usize>())
 }
 
 /// Calculate the size of a Mabo `option<T>` option value.
@@ -110,7 +116,7 @@ pub fn size_array<const N: usize, T, S>(array: &[T; N], size: S) -> usize
 where
     S: Fn(&T) -> usize,
 {
-    size_u64(N as u64) + array.iter().map(size).sum::<usize>()
+    size_length_prefixed(array.iter().map(size).sum::<usize>())
 }
 
 /// Calculate the size of a Mabo field identifier.
-- 
2.43.0


From 9cbaa279b9c8880ea43c0f0d866c6a0785f6d3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 02/43] fix: don't panic on arrays with too few elements

---
 crates/mabo/src/buf/decode.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index ee6f945..44048f5 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -260,8 +260,7 @@ where
 /// # Errors
 ///
 /// Will return `Err` if the buffer does not have enough remaining data to read the value, or the
-/// `T` type fails to decode.
-#[expect(clippy::missing_panics_doc)]
+/// `T` type fails to decode. The same applies if there are less than `N` elements.
 pub fn decode_array<const N: usize, R, T, D>(r: &mut R, decode: D) -> Result<[T; N]>
 where
     R: Buf,
@@ -281,9 +280,8 @@ where
     // skip any remaining values, in case the old array definition was larger.
     r.advance(r.remaining());
 
-    // SAFETY: we can unwrap here, because we ensured the Vec exactly matches
-    // with the length of the array.
-    Ok(vec.try_into().unwrap())
+    // fails if the payload contained less elements than the array can hold.
+    vec.try_into().map_err(|_| Error::InsufficientData)
 }
 
 macro_rules! ensure_not_empty {
-- 
2.43.0


From 4b81b38e8226f388ba197edbf620a08211f98ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 03/43] fix: decode integers that span several chunks of a
 buffer

---
 crates/mabo/src/buf/decode.rs | 35 ++++++++++++++++++++++++++++++++---
 crates/mabo/src/varint.rs     |  3 +++
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index 44048f5..0bafc28 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -83,6 +83,23 @@ pub fn decode_i8(r: &mut impl Buf) -> Result<i8> {
     Ok(r.get_i8())
 }
 
+/// Gather the bytes of a single _Varint_, which may be spread over several chunks of the buffer.
+fn collect_varint(r: &mut impl Buf) -> ([u8; varint::MAX_SIZE], usize) {
+    let mut buf = [0; varint::MAX_SIZE];
+    let mut len = 0;
+
+    while len < buf.len() && r.has_remaining() {
+        buf[len] = r.get_u8();
+        len += 1;
+
+        if buf[len - 1] & 0x80 == 0 {
+            break;
+        }
+    }
+
+    (buf, len)
+}
+
 macro_rules! decode_int {
     ($ty:ty) => {
         paste::paste! {
@@ -93,9 +110,21 @@ macro_rules! decode_int {
             /// Will return `Err` if the buffer does not have enough remaining data to read the
             /// value, or the _Varint_ decoding fails due to a missing end marker.
             pub fn [<decode_ $ty>](r: &mut impl Buf) -> Result<$ty> {
-                let (value, consumed) = varint::[<decode_ $ty>](r.chunk())?;
-                r.advance(consumed);
-                Ok(value)
+                let chunk = r.chunk();
+
+                match varint::[<decode_ $ty>](chunk) {
+                    Ok((value, consumed)) => {
+                        r.advance(consumed);
+                        Ok(value)
+                    }
+                    // the integer might continue in the next chunk of a non-contiguous buffer.
+                    Err(_) if chunk.len() < r.remaining() => {
+                        let (buf, len) = collect_varint(r);
+                        let (value, _) = varint::[<decode_ $ty>](&buf[..len])?;
+                        Ok(value)
+                    }
+                    Err(e) => Err(e.into()),
+                }
             }
         }
     };
diff --git a/crates/mabo/src/varint.rs b/crates/mabo/src/varint.rs
index 7f1e165..810ce10 100644
--- a/crates/mabo/src/varint.rs
+++ b/crates/mabo/src/varint.rs
@@ -54,6 +54,9 @@ const fn max_size<T>() -> usize {
     (std::mem::size_of::<T>() * 8).div_ceil(7)
 }
 
+/// Maximum amount of bytes that the largest supported integer might require.
+pub(crate) const MAX_SIZE: usize = max_size::<u128>();
+
 #[inline]
 const fn size<T>(leading_zeros: usize) -> usize {
     max(
-- 
2.43.0


From 9caf4b3be816ebe835987025681781e8b1baabad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 04/43] fix: generate valid code for tuple elements that need
 further access

---
 crates/mabo-build/src/encode.rs | 25 +++++++++++++++++++++----
 crates/mabo-build/src/size.rs   |  4 ++--
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/crates/mabo-build/src/encode.rs b/crates/mabo-build/src/encode.rs
index 5481f6a..9f63fd1 100644
--- a/crates/mabo-build/src/encode.rs
+++ b/crates/mabo-build/src/encode.rs
@@ -320,15 +320,15 @@ fn compile_data_type(
         Type::Tuple(types) => match types.len() {
             2..=12 => {
                 let encode = types.iter().enumerate().map(|(idx, ty)| {
-                    let idx = proc_macro2::Literal::usize_unsuffixed(idx);
-                    compile_data_type(opts, ty, quote! { &#name.#idx }, false).1
+                    let name = compile_tuple_element(ty, &name, idx, false);
+                    compile_data_type(opts, ty, name, false).1
                 });
                 (
                     quote! { ::mabo::FieldEncoding::LengthPrefixed },
                     if root {
                         let size = types.iter().enumerate().map(|(idx, ty)| {
-                            let idx = proc_macro2::Literal::usize_unsuffixed(idx);
-                            super::size::compile_data_type(opts, ty, quote! { &#name.#idx })
+                            let name = compile_tuple_element(ty, &name, idx, true);
+                            super::size::compile_data_type(opts, ty, name)
                         });
 
                         quote! { ::mabo::buf::encode_tuple(w, || { #(#size)+* }, |w| { #(#encode;)* }) }
@@ -353,3 +353,20 @@ fn compile_data_type(
         ),
     }
 }
+
+/// Create the expression to access a single tuple element, which is used by reference unless the
+/// element itself is going to be accessed further (by a method call or as nested tuple).
+pub(super) fn compile_tuple_element(
+    ty: &Type<'_>,
+    name: &TokenStream,
+    idx: usize,
+    for_size: bool,
+) -> TokenStream {
+    let idx = proc_macro2::Literal::usize_unsuffixed(idx);
+
+    match ty {
+        Type::NonZero(_) | Type::Tuple(_) | Type::External(_) => quote! { #name.#idx },
+        Type::Option(_) if for_size => quote! { #name.#idx },
+        _ => quote! { &#name.#idx },
+    }
+}
diff --git a/crates/mabo-build/src/size.rs b/crates/mabo-build/src/size.rs
index 6543d6c..726d3dc 100644
--- a/crates/mabo-build/src/size.rs
+++ b/crates/mabo-build/src/size.rs
@@ -244,8 +244,8 @@ pub(crate) fn compile_data_type(opts: &Opts, ty: &Type<'_>, name: TokenStream) -
         Type::Tuple(types) => match types.len() {
             2..=12 => {
                 let types = types.iter().enumerate().map(|(idx, ty)| {
-                    let idx = proc_macro2::Literal::usize_unsuffixed(idx);
-                    compile_data_type(opts, ty, quote! { &#name.#idx })
+                    let name = super::encode::compile_tuple_element(ty, &name, idx, true);
+                    compile_data_type(opts, ty, name)
                 });
                 quote! { #(#types)+* }
             }
-- 
2.43.0


From 869cc20101d2dd2a49aad5685cff0435141e3dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 05/43] fix: visit the types inside of non_zero during
 validation

---
 crates/mabo-compiler/src/resolve/mod.rs       | 2 +-
 crates/mabo-compiler/src/validate/generics.rs | 2 +-
 crates/mabo-compiler/src/validate/tuples.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index 4ab3f2a..bb16881 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -473,12 +473,12 @@ fn visit_externals<'a>(value: &'a Type<'_>, visit: &mut impl FnMut(&'a ExternalT
         | DataType::StringRef
         | DataType::Bytes
         | DataType::BytesRef
-        | DataType::NonZero { .. }
         | DataType::BoxString
         | DataType::BoxBytes => {}
         DataType::Vec { ty, .. }
         | DataType::HashSet { ty, .. }
         | DataType::Option { ty, .. }
+        | DataType::NonZero { ty, .. }
         | DataType::Array { ty, .. } => {
             visit_externals(ty, visit);
         }
diff --git a/crates/mabo-compiler/src/validate/generics.rs b/crates/mabo-compiler/src/validate/generics.rs
index 44efd35..40dbc4b 100644
--- a/crates/mabo-compiler/src/validate/generics.rs
+++ b/crates/mabo-compiler/src/validate/generics.rs
@@ -162,12 +162,12 @@ fn visit_externals(value: &Type<'_>, visit: &mut impl FnMut(&ExternalType<'_>))
         | DataType::StringRef
         | DataType::Bytes
         | DataType::BytesRef
-        | DataType::NonZero { .. }
         | DataType::BoxString
         | DataType::BoxBytes => {}
         DataType::Vec { ty, .. }
         | DataType::HashSet { ty, .. }
         | DataType::Option { ty, .. }
+        | DataType::NonZero { ty, .. }
         | DataType::Array { ty, .. } => visit_externals(ty, visit),
         DataType::HashMap { key, value, .. } => {
             visit_externals(key, visit);
diff --git a/crates/mabo-compiler/src/validate/tuples.rs b/crates/mabo-compiler/src/validate/tuples.rs
index 439b4bc..7f590dc 100644
--- a/crates/mabo-compiler/src/validate/tuples.rs
+++ b/crates/mabo-compiler/src/validate/tuples.rs
@@ -108,12 +108,12 @@ fn visit_tuples<E>(
         | DataType::StringRef
         | DataType::Bytes
         | DataType::BytesRef
-        | DataType::NonZero { .. }
         | DataType::BoxString
         | DataType::BoxBytes => Ok(()),
         DataType::Vec { ty, .. }
         | DataType::HashSet { ty, .. }
         | DataType::Option { ty, .. }
+        | DataType::NonZero { ty, .. }
         | DataType::Array { ty, .. } => visit_tuples(ty, visit),
         DataType::HashMap { key, value, .. } => {
             visit_tuples(key, visit)?;
-- 
2.43.0


From f178ae236895149c16208df001833b740d45cb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 06/43] fix: always handle box<bytes> as boxed slice in
 generated code

---
 crates/mabo-build/src/encode.rs | 6 +++++-
 crates/mabo-build/src/size.rs   | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-build/src/encode.rs b/crates/mabo-build/src/encode.rs
index 9f63fd1..8371489 100644
--- a/crates/mabo-build/src/encode.rs
+++ b/crates/mabo-build/src/encode.rs
@@ -216,7 +216,11 @@ fn compile_data_type(
             quote! { ::mabo::FieldEncoding::LengthPrefixed },
             quote! { ::mabo::buf::encode_string(w, #name) },
         ),
-        Type::Bytes | Type::BytesRef | Type::BoxBytes => match opts.bytes_type {
+        Type::BoxBytes => (
+            quote! { ::mabo::FieldEncoding::LengthPrefixed },
+            quote! { ::mabo::buf::encode_bytes_std(w, #name) },
+        ),
+        Type::Bytes | Type::BytesRef => match opts.bytes_type {
             BytesType::VecU8 => (
                 quote! { ::mabo::FieldEncoding::LengthPrefixed },
                 quote! { ::mabo::buf::encode_bytes_std(w, #name) },
diff --git a/crates/mabo-build/src/size.rs b/crates/mabo-build/src/size.rs
index 726d3dc..766e0dc 100644
--- a/crates/mabo-build/src/size.rs
+++ b/crates/mabo-build/src/size.rs
@@ -200,7 +200,8 @@ pub(crate) fn compile_data_type(opts: &Opts, ty: &Type<'_>, name: TokenStream) -
         Type::String | Type::StringRef | Type::BoxString => {
             quote! { ::mabo::buf::size_string(#name) }
         }
-        Type::Bytes | Type::BytesRef | Type::BoxBytes => match opts.bytes_type {
+        Type::BoxBytes => quote! { ::mabo::buf::size_bytes_std(#name) },
+        Type::Bytes | Type::BytesRef => match opts.bytes_type {
             BytesType::VecU8 => quote! { ::mabo::buf::size_bytes_std(#name) },
             BytesType::Bytes => quote! { ::mabo::buf::size_bytes_bytes(#name) },
         },
-- 
2.43.0


From 35693aa192913c5232ff2ba51b372bb6b2c2999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 07/43] fix: resolve types in submodules of an imported schema
 whose path starts with its name

---
 crates/mabo-compiler/src/resolve/mod.rs | 29 ++++++++++++-------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index bb16881..4001ce6 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -230,21 +230,20 @@ impl Module<'_> {
     }
 
     fn resolve_remote(&self, ty: &ExternalType<'_>) -> Result<(), ResolveRemote> {
-        let module = if ty
-            .path
-            .first()
-            .is_some_and(|(first, _)| first.get() == self.name)
-        {
-            self
-        } else {
-            ty.path.iter().try_fold(self, |module, (name, _)| {
-                module.modules.get(name.get()).ok_or_else(|| MissingModule {
-                    name: name.get().to_owned(),
-                    path: module.path_to_string(),
-                    used: ty.name.span().into(),
-                })
-            })?
-        };
+        // The first segment is the name of this (imported) module itself.
+        let skip = usize::from(
+            ty.path
+                .first()
+                .is_some_and(|(first, _)| first.get() == self.name),
+        );
+
+        let module = ty.path.iter().skip(skip).try_fold(self, |module, (name, _)| {
+            module.modules.get(name.get()).ok_or_else(|| MissingModule {
+                name: name.get().to_owned(),
+                path: module.path_to_string(),
+                used: ty.name.span().into(),
+            })
+        })?;
 
         let definition = module
             .types
-- 
2.43.0


From 86ebea61b5e96ee4075142dba456db501c061628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:25 +0000
Subject: [PATCH 08/43] fix: don't parse the last element of a list twice

---
 crates/mabo-parser/src/parser.rs          | 58 ++++++++++-------------
 crates/mabo-parser/src/parser/enums.rs    |  6 +--
 crates/mabo-parser/src/parser/fields.rs   | 12 +----
 crates/mabo-parser/src/parser/generics.rs | 23 ++++-----
 crates/mabo-parser/src/parser/types.rs    | 14 ++----
 5 files changed, 41 insertions(+), 72 deletions(-)

diff --git a/crates/mabo-parser/src/parser.rs b/crates/mabo-parser/src/parser.rs
index df19d26..0c46bc1 100644
--- a/crates/mabo-parser/src/parser.rs
+++ b/crates/mabo-parser/src/parser.rs
@@ -216,52 +216,44 @@ where
     trace("ws", preceded(multispace0, inner))
 }
 
-pub fn punctuate<I, O, P, E, F, G>(mut f: F, mut g: G) -> impl ModalParser<I, Punctuated<O, P>, E>
+pub fn punctuate<I, O, P, E, F, G>(
+    mut value: F,
+    mut separator: G,
+) -> impl ModalParser<I, Punctuated<O, P>, E>
 where
     I: Stream,
     E: ParserError<I>,
-    F: ModalParser<I, (O, P), E>,
-    G: ModalParser<I, (O, Option<P>), E>,
+    F: ModalParser<I, O, E>,
+    G: ModalParser<I, P, E>,
 {
     trace("punctuate", move |i: &mut I| {
         let mut values = Vec::new();
-        let mut start_prev = None;
 
         loop {
             let start = i.checkpoint();
-            let len = i.eof_offset();
-
-            match f.parse_next(i) {
-                Ok((o, range)) => {
-                    if i.eof_offset() == len {
-                        return Err(ErrMode::assert(i, "`repeat` parsers must always consume"));
-                    }
 
-                    values.push((o, range));
-                    start_prev = Some(start);
+            let last = match value.parse_next(i) {
+                Ok(last) => last,
+                Err(ErrMode::Backtrack(e)) => {
+                    i.reset(&start);
+                    // No further value, so the separator of the previous one was a trailing one.
+                    return match values.pop() {
+                        Some((last, separator)) => {
+                            Ok(Punctuated::new(values, (last, Some(separator))))
+                        }
+                        None => Err(ErrMode::Backtrack(e)),
+                    };
                 }
+                Err(e) => return Err(e),
+            };
+
+            let start = i.checkpoint();
+
+            match separator.parse_next(i) {
+                Ok(separator) => values.push((last, separator)),
                 Err(ErrMode::Backtrack(_)) => {
                     i.reset(&start);
-                    let (o, range) = match g.parse_next(i) {
-                        Ok(o) => Ok(o),
-                        // Both parsers failed. Lets undo the last successful action from the first
-                        // parser and redo it with the second one to get the last value.
-                        //
-                        // Technically we could just take the parsed data from the first parser and
-                        // transform it, but there is no guarantee that the parsers are similar
-                        // enough to do this transformation.
-                        Err(ErrMode::Backtrack(e)) => {
-                            if let Some(start) = start_prev {
-                                values.pop();
-                                i.reset(&start);
-                                g.parse_next(i)
-                            } else {
-                                Err(ErrMode::Backtrack(e))
-                            }
-                        }
-                        Err(e) => Err(e),
-                    }?;
-                    return Ok(Punctuated::new(values, (o, range)));
+                    return Ok(Punctuated::new(values, (last, None)));
                 }
                 Err(e) => return Err(e),
             }
diff --git a/crates/mabo-parser/src/parser/enums.rs b/crates/mabo-parser/src/parser/enums.rs
index c6d17a6..a6b3228 100644
--- a/crates/mabo-parser/src/parser/enums.rs
+++ b/crates/mabo-parser/src/parser/enums.rs
@@ -127,11 +127,7 @@ pub(super) fn parse_name<'i>(input: &mut Input<'i>) -> Result<Name<'i>, Cause> {
 fn parse_variants<'i>(
     input: &mut Input<'i>,
 ) -> Result<(token::Brace, Punctuated<Variant<'i>>), Cause> {
-    surround(punctuate(
-        (parse_variant, ws(token::Comma::parser())),
-        (parse_variant, opt(ws(token::Comma::parser()))),
-    ))
-    .parse_next(input)
+    surround(punctuate(parse_variant, ws(token::Comma::parser()))).parse_next(input)
 }
 
 fn parse_variant<'i>(input: &mut Input<'i>) -> Result<Variant<'i>, Cause> {
diff --git a/crates/mabo-parser/src/parser/fields.rs b/crates/mabo-parser/src/parser/fields.rs
index 358ac26..1221a9b 100644
--- a/crates/mabo-parser/src/parser/fields.rs
+++ b/crates/mabo-parser/src/parser/fields.rs
@@ -91,21 +91,13 @@ pub(super) fn parse<'i>(input: &mut Input<'i>) -> Result<Fields<'i>, ParseError>
 fn parse_named<'i>(
     input: &mut Input<'i>,
 ) -> Result<(token::Brace, Punctuated<NamedField<'i>>), Cause> {
-    surround(punctuate(
-        (parse_named_field, ws(token::Comma::parser())),
-        (parse_named_field, opt(ws(token::Comma::parser()))),
-    ))
-    .parse_next(input)
+    surround(punctuate(parse_named_field, ws(token::Comma::parser()))).parse_next(input)
 }
 
 fn parse_unnamed<'i>(
     input: &mut Input<'i>,
 ) -> Result<(token::Parenthesis, Punctuated<UnnamedField<'i>>), Cause> {
-    surround(punctuate(
-        (parse_unnamed_field, ws(token::Comma::parser())),
-        (parse_unnamed_field, opt(ws(token::Comma::parser()))),
-    ))
-    .parse_next(input)
+    surround(punctuate(parse_unnamed_field, ws(token::Comma::parser()))).parse_next(input)
 }
 
 fn parse_unit(input: &mut Input<'_>) -> Result<(), Cause> {
diff --git a/crates/mabo-parser/src/parser/generics.rs b/crates/mabo-parser/src/parser/generics.rs
index 6a6c67a..45dbde6 100644
--- a/crates/mabo-parser/src/parser/generics.rs
+++ b/crates/mabo-parser/src/parser/generics.rs
@@ -1,9 +1,7 @@
 use std::ops::Range;
 
 use mabo_derive::{ParserError, ParserErrorCause};
-use winnow::{
-    Parser, ascii::alphanumeric0, combinator::opt, error::ErrMode, stream::Location, token::one_of,
-};
+use winnow::{Parser, ascii::alphanumeric0, error::ErrMode, stream::Location, token::one_of};
 
 use super::{Input, Result, punctuate, surround, ws};
 use crate::{Generics, Name, highlight, token};
@@ -43,18 +41,15 @@ pub enum Cause {
 }
 
 pub(super) fn parse<'i>(input: &mut Input<'i>) -> Result<Generics<'i>, ParseError> {
-    surround(punctuate(
-        (ws(parse_name), ws(token::Comma::parser())),
-        (ws(parse_name), opt(ws(token::Comma::parser()))),
-    ))
-    .parse_next(input)
-    .map(|(angle, types)| Generics { angle, types })
-    .map_err(|e| {
-        e.map(|cause| ParseError {
-            at: input.current_token_start()..input.current_token_start(),
-            cause,
+    surround(punctuate(ws(parse_name), ws(token::Comma::parser())))
+        .parse_next(input)
+        .map(|(angle, types)| Generics { angle, types })
+        .map_err(|e| {
+            e.map(|cause| ParseError {
+                at: input.current_token_start()..input.current_token_start(),
+                cause,
+            })
         })
-    })
 }
 
 fn parse_name<'i>(input: &mut Input<'i>) -> Result<Name<'i>, Cause> {
diff --git a/crates/mabo-parser/src/parser/types.rs b/crates/mabo-parser/src/parser/types.rs
index a905dc9..dce70ca 100644
--- a/crates/mabo-parser/src/parser/types.rs
+++ b/crates/mabo-parser/src/parser/types.rs
@@ -163,11 +163,8 @@ fn parse_generic<'i>(input: &mut Input<'i>) -> Result<DataType<'i>, Cause> {
 
 fn parse_tuple<'i>(input: &mut Input<'i>) -> Result<DataType<'i>, Cause> {
     surround(punctuate(
-        (ws(parse.map_err2(Cause::from)), ws(token::Comma::parser())),
-        (
-            ws(parse.map_err2(Cause::from)),
-            opt(ws(token::Comma::parser())),
-        ),
+        ws(parse.map_err2(Cause::from)),
+        ws(token::Comma::parser()),
     ))
     .parse_next(input)
     .map(|(paren, types)| DataType::Tuple { paren, types })
@@ -200,11 +197,8 @@ fn parse_external<'i>(input: &mut Input<'i>) -> Result<ExternalType<'i>, Cause>
         .map(Option::unwrap_or_default),
         parse_external_name,
         opt(surround(punctuate(
-            (ws(parse.map_err2(Cause::from)), ws(token::Comma::parser())),
-            (
-                ws(parse.map_err2(Cause::from)),
-                opt(ws(token::Comma::parser())),
-            ),
+            ws(parse.map_err2(Cause::from)),
+            ws(token::Comma::parser()),
         ))),
     )
         .parse_next(input)
-- 
2.43.0


From add4e9e16c1bd2d5374b53aa9cfedfd40b27c84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:43 +0000
Subject: [PATCH 09/43] fix: accept whitespace in front of a trailing comma in
 attributes

---
 crates/mabo-parser/src/parser/attributes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-parser/src/parser/attributes.rs b/crates/mabo-parser/src/parser/attributes.rs
index abc9dfa..cbb52d0 100644
--- a/crates/mabo-parser/src/parser/attributes.rs
+++ b/crates/mabo-parser/src/parser/attributes.rs
@@ -73,7 +73,7 @@ fn parse_attribute<'i>(input: &mut Input<'i>) -> Result<Vec<Attribute<'i>>, Caus
                     ws((parse_name, parse_value)).map(|(name, value)| Attribute { name, value }),
                     ws(token::Comma::parser()),
                 ),
-                opt(token::Comma::parser()),
+                opt(ws(token::Comma::parser())),
             ),
             ws(token::Bracket::CLOSE),
         )),
@@ -109,7 +109,7 @@ fn parse_multi_value<'i>(input: &mut Input<'i>) -> Result<Vec<Attribute<'i>>, Ca
                     ws((parse_name, parse_value)).map(|(name, value)| Attribute { name, value }),
                     ws(token::Comma::parser()),
                 ),
-                opt(token::Comma::parser()),
+                opt(ws(token::Comma::parser())),
             ),
             ws(token::Parenthesis::CLOSE),
         )),
-- 
2.43.0


From 69ec547aa83e899df6e8dc98b614c7efec20f2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:43 +0000
Subject: [PATCH 10/43] fix: accept a unit struct at the very end of a schema

---
 crates/mabo-parser/src/parser/fields.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-parser/src/parser/fields.rs b/crates/mabo-parser/src/parser/fields.rs
index 1221a9b..a92cff7 100644
--- a/crates/mabo-parser/src/parser/fields.rs
+++ b/crates/mabo-parser/src/parser/fields.rs
@@ -74,9 +74,9 @@ pub(super) fn parse<'i>(input: &mut Input<'i>) -> Result<Fields<'i>, ParseError>
     let start = input.checkpoint();
 
     dispatch!(
-        peek(any);
-        '{' => parse_named.map(|(brace, fields)| Fields::Named(brace, fields)),
-        '(' => parse_unnamed.map(|(paren, fields)| Fields::Unnamed(paren, fields)),
+        opt(peek(any));
+        Some('{') => parse_named.map(|(brace, fields)| Fields::Named(brace, fields)),
+        Some('(') => parse_unnamed.map(|(paren, fields)| Fields::Unnamed(paren, fields)),
         _ => parse_unit.map(|()| Fields::Unit),
     )
     .parse_next(input)
-- 
2.43.0


From beb0135373f3bf27448d7f29a6f3d6d5699791c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 11/43] fix: resolve types that are referenced through an
 imported module

---
 crates/mabo-compiler/src/resolve/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index 4001ce6..c72b2c8 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -537,7 +537,7 @@ pub(crate) fn resolve_type_remotely(
         });
 
         match module {
-            Some(module) => module.resolve_remote(ty.external)?,
+            Some(module) => module.resolve_remote(ty.external).map_err(Into::into),
             None => {
                 return Err(ResolveRemote::MissingImport(MissingImport {
                     ty: format!(
@@ -596,6 +596,4 @@ pub(crate) fn resolve_type_remotely(
         })
         .into());
     }
-
-    Err(ty.error.into())
 }
-- 
2.43.0


From c47aa12b16e2c9a129b272435b234c13a4fe5ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 12/43] fix: resolve imports inside of modules

---
 crates/mabo-compiler/src/resolve/mod.rs | 51 ++++++++++++++-----------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index c72b2c8..8737204 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -41,10 +41,7 @@ pub fn schemas(values: &[(&str, &Schema<'_>)]) -> Result<(), Error> {
         .enumerate()
         .map(|(i, (_, module))| (values[i].1, module))
     {
-        let mut missing = Vec::new();
-        resolve_module_types(module, &mut missing);
-
-        let imports = resolve_module_imports(module, &modules).map_err(|e| Error {
+        resolve_module(module, &modules, &[]).map_err(|cause| Error {
             source_code: NamedSource::new(
                 schema
                     .path
@@ -52,21 +49,8 @@ pub fn schemas(values: &[(&str, &Schema<'_>)]) -> Result<(), Error> {
                     .map_or_else(|| "<unknown>".to_owned(), |p| p.display().to_string()),
                 schema.source.to_owned(),
             ),
-            cause: ResolveError::Import(e.into()),
+            cause,
         })?;
-
-        for ty in missing {
-            resolve_type_remotely(ty, &imports).map_err(|e| Error {
-                source_code: NamedSource::new(
-                    schema
-                        .path
-                        .as_ref()
-                        .map_or_else(|| "<unknown>".to_owned(), |p| p.display().to_string()),
-                    schema.source.to_owned(),
-                ),
-                cause: e,
-            })?;
-        }
     }
 
     Ok(())
@@ -120,6 +104,7 @@ impl DeclarationKind {
     }
 }
 
+#[derive(Clone, Copy)]
 pub(crate) enum ResolvedImport<'a> {
     Module(&'a Module<'a>),
     Type {
@@ -313,6 +298,32 @@ impl Module<'_> {
     }
 }
 
+/// Resolve the types and imports of a single module, and all its submodules afterwards.
+///
+/// Besides the imports of the module itself, the ones from the surrounding modules are available as
+/// well.
+fn resolve_module<'a>(
+    module: &Module<'_>,
+    schemas: &'a [(&str, Module<'_>)],
+    outer_imports: &[ResolvedImport<'a>],
+) -> Result<(), ResolveError> {
+    let mut missing = Vec::new();
+    resolve_module_types(module, &mut missing);
+
+    let mut imports = resolve_module_imports(module, schemas)?;
+    imports.extend_from_slice(outer_imports);
+
+    for ty in missing {
+        resolve_type_remotely(ty, &imports)?;
+    }
+
+    for module in module.modules.values() {
+        resolve_module(module, schemas, &imports)?;
+    }
+
+    Ok(())
+}
+
 pub(crate) struct LocallyMissingType<'a> {
     pub external: &'a ExternalType<'a>,
     pub error: ResolveLocal,
@@ -379,10 +390,6 @@ pub(crate) fn resolve_module_types<'a>(
             _ => {}
         }
     }
-
-    for module in module.modules.values() {
-        resolve_module_types(module, missing);
-    }
 }
 
 pub(crate) fn resolve_types<'a>(name: &'a str, schema: &'a Schema<'a>) -> Module<'a> {
-- 
2.43.0


From dbacd0fd12f04e7b799fa3216de1a4c0fe5cea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:56 +0000
Subject: [PATCH 13/43] fix: generate imports inside of modules relative to the
 parent of the schema

---
 crates/mabo-build/src/definition.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/mabo-build/src/definition.rs b/crates/mabo-build/src/definition.rs
index 5096933..75519f6 100644
--- a/crates/mabo-build/src/definition.rs
+++ b/crates/mabo-build/src/definition.rs
@@ -11,7 +11,9 @@ use crate::{BytesType, Opts};
 /// Take a single schema and convert it into Rust source code.
 #[must_use]
 pub fn compile_schema(opts: &Opts, Schema { definitions, .. }: &Schema<'_>) -> TokenStream {
-    let definitions = definitions.iter().map(|def| compile_definition(opts, def));
+    let definitions = definitions
+        .iter()
+        .map(|def| compile_definition(opts, def, 0));
 
     quote! {
         #[allow(unused_imports)]
@@ -21,9 +23,9 @@ pub fn compile_schema(opts: &Opts, Schema { definitions, .. }: &Schema<'_>) -> T
     }
 }
 
-fn compile_definition(opts: &Opts, definition: &Definition<'_>) -> TokenStream {
+fn compile_definition(opts: &Opts, definition: &Definition<'_>, depth: usize) -> TokenStream {
     match definition {
-        Definition::Module(m) => compile_module(opts, m),
+        Definition::Module(m) => compile_module(opts, m, depth),
         Definition::Struct(s) => {
             let def = compile_struct(opts, s);
             let encode = encode::compile_struct(opts, s);
@@ -52,7 +54,7 @@ fn compile_definition(opts: &Opts, definition: &Definition<'_>) -> TokenStream {
         }
         Definition::TypeAlias(a) => compile_alias(opts, a),
         Definition::Const(c) => compile_const(c),
-        Definition::Import(i) => compile_import(i),
+        Definition::Import(i) => compile_import(i, depth),
     }
 }
 
@@ -64,10 +66,13 @@ fn compile_module(
         definitions,
         ..
     }: &Module<'_>,
+    depth: usize,
 ) -> TokenStream {
     let comment = compile_comment(comment);
     let name = Ident::new(name, Span::call_site());
-    let definitions = definitions.iter().map(|def| compile_definition(opts, def));
+    let definitions = definitions
+        .iter()
+        .map(|def| compile_definition(opts, def, depth + 1));
 
     quote! {
         #comment
@@ -195,7 +200,10 @@ fn compile_import(
     Import {
         segments, element, ..
     }: &Import<'_>,
+    depth: usize,
 ) -> TokenStream {
+    // one additional step up for each module that surrounds the import.
+    let outer = std::iter::repeat_n(quote! { super:: }, depth);
     let segments = segments.iter().enumerate().map(|(i, segment)| {
         let segment = Ident::new(segment, Span::call_site());
         if i > 0 {
@@ -211,7 +219,7 @@ fn compile_import(
 
     quote! {
         #[allow(unused_imports)]
-        use super::#(#segments)*#element;
+        use super::#(#outer)*#(#segments)*#element;
     }
 }
 
-- 
2.43.0


From 3acc10726f28ef2e4e836cd47ae19ce65e12411d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 14/43] fix: don't overflow when deriving the identifier after
 the largest possible one

---
 crates/mabo-compiler/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mabo-compiler/src/lib.rs b/crates/mabo-compiler/src/lib.rs
index 5bd1212..23bbde7 100644
--- a/crates/mabo-compiler/src/lib.rs
+++ b/crates/mabo-compiler/src/lib.rs
@@ -49,7 +49,7 @@ impl IdGenerator {
     /// the ID counter might jump forth and back, as long as each ID is guaranteed to be unique.
     fn next(&mut self, id: Option<&mabo_parser::Id>) -> u32 {
         let id = id.map_or(self.next_id, mabo_parser::Id::get);
-        self.next_id = id + 1;
+        self.next_id = id.saturating_add(1);
         id
     }
 
-- 
2.43.0


From dab665338f1e41c9b5ab90e4c5482c1faf730fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 15/43] fix: don't overflow when suggesting the identifier
 after the largest possible one

---
 crates/mabo-meta/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-meta/src/lib.rs b/crates/mabo-meta/src/lib.rs
index 5836b45..6f112a8 100644
--- a/crates/mabo-meta/src/lib.rs
+++ b/crates/mabo-meta/src/lib.rs
@@ -10,7 +10,12 @@ use mabo_compiler::simplify::{FieldKind, Fields, Type, Variant};
 /// Get the next free ID for an enum variant.
 #[must_use]
 pub fn next_variant_id(variants: &[Variant<'_>]) -> u32 {
-    variants.iter().map(|variant| variant.id).max().unwrap_or(0) + 1
+    variants
+        .iter()
+        .map(|variant| variant.id)
+        .max()
+        .unwrap_or(0)
+        .saturating_add(1)
 }
 
 /// Get the next free ID for a struct or enum variant field.
@@ -26,7 +31,7 @@ pub fn next_field_id(fields: &Fields<'_>) -> Option<u32> {
                 .map(|field| field.id)
                 .max()
                 .unwrap_or(0)
-                + 1,
+                .saturating_add(1),
         )
     }
 }
-- 
2.43.0


From fff8288cbde1b229ea6e8c5b569daad056df2820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:57 +0000
Subject: [PATCH 16/43] fix: report the declaration of a badly imported
 definition in its own schema

---
 crates/mabo-compiler/src/resolve/error.rs |  8 ++++-
 crates/mabo-compiler/src/resolve/mod.rs   | 40 ++++++++++++++---------
 2 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/error.rs b/crates/mabo-compiler/src/resolve/error.rs
index 1d32dd7..ae138eb 100644
--- a/crates/mabo-compiler/src/resolve/error.rs
+++ b/crates/mabo-compiler/src/resolve/error.rs
@@ -197,7 +197,13 @@ pub enum ResolveImport {
     /// The referenced definition can't be used as type.
     #[error(transparent)]
     #[diagnostic(transparent)]
-    InvalidKind(#[from] InvalidKind),
+    InvalidKind(#[from] Box<RemoteInvalidKind>),
+}
+
+impl From<RemoteInvalidKind> for ResolveImport {
+    fn from(value: RemoteInvalidKind) -> Self {
+        Self::InvalidKind(value.into())
+    }
 }
 
 /// The referenced schema wasn't found in the list of available schemas.
diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index 8737204..fd2ef2b 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -189,16 +189,20 @@ impl Module<'_> {
                 })?;
 
             match definition.kind {
-                DeclarationKind::Alias => Err(InvalidKind {
-                    kind: "alias",
-                    declared: definition.name.span().into(),
-                    used: element.span().into(),
-                }
-                .into()),
-                DeclarationKind::Const => Err(InvalidKind {
-                    kind: "const",
-                    declared: definition.name.span().into(),
+                DeclarationKind::Alias | DeclarationKind::Const => Err(RemoteInvalidKind {
+                    kind: definition.kind.as_str(),
                     used: element.span().into(),
+                    declaration: [RemoteInvalidKindDeclaration {
+                        kind: definition.kind.as_str(),
+                        source_code: NamedSource::new(
+                            self.schema.path.as_ref().map_or_else(
+                                || "<unknown>".to_owned(),
+                                |p| p.display().to_string(),
+                            ),
+                            self.schema.source.to_owned(),
+                        ),
+                        used: definition.name.span().into(),
+                    }],
                 }
                 .into()),
                 DeclarationKind::Struct { generics } | DeclarationKind::Enum { generics } => {
@@ -222,13 +226,17 @@ impl Module<'_> {
                 .is_some_and(|(first, _)| first.get() == self.name),
         );
 
-        let module = ty.path.iter().skip(skip).try_fold(self, |module, (name, _)| {
-            module.modules.get(name.get()).ok_or_else(|| MissingModule {
-                name: name.get().to_owned(),
-                path: module.path_to_string(),
-                used: ty.name.span().into(),
-            })
-        })?;
+        let module = ty
+            .path
+            .iter()
+            .skip(skip)
+            .try_fold(self, |module, (name, _)| {
+                module.modules.get(name.get()).ok_or_else(|| MissingModule {
+                    name: name.get().to_owned(),
+                    path: module.path_to_string(),
+                    used: ty.name.span().into(),
+                })
+            })?;
 
         let definition = module
             .types
-- 
2.43.0


From abc29ce93c6aa28c8b994365210bb895c30e37fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 17/43] fix: make imports available in the submodules of
 generated code

---
 crates/mabo-build/src/definition.rs | 57 +++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 4 deletions(-)

diff --git a/crates/mabo-build/src/definition.rs b/crates/mabo-build/src/definition.rs
index 75519f6..bc18889 100644
--- a/crates/mabo-build/src/definition.rs
+++ b/crates/mabo-build/src/definition.rs
@@ -11,9 +11,10 @@ use crate::{BytesType, Opts};
 /// Take a single schema and convert it into Rust source code.
 #[must_use]
 pub fn compile_schema(opts: &Opts, Schema { definitions, .. }: &Schema<'_>) -> TokenStream {
+    let imports = imported_names(definitions);
     let definitions = definitions
         .iter()
-        .map(|def| compile_definition(opts, def, 0));
+        .map(|def| compile_definition(opts, def, 0, &imports));
 
     quote! {
         #[allow(unused_imports)]
@@ -23,9 +24,14 @@ pub fn compile_schema(opts: &Opts, Schema { definitions, .. }: &Schema<'_>) -> T
     }
 }
 
-fn compile_definition(opts: &Opts, definition: &Definition<'_>, depth: usize) -> TokenStream {
+fn compile_definition(
+    opts: &Opts,
+    definition: &Definition<'_>,
+    depth: usize,
+    imports: &[&str],
+) -> TokenStream {
     match definition {
-        Definition::Module(m) => compile_module(opts, m, depth),
+        Definition::Module(m) => compile_module(opts, m, depth, imports),
         Definition::Struct(s) => {
             let def = compile_struct(opts, s);
             let encode = encode::compile_struct(opts, s);
@@ -67,24 +73,67 @@ fn compile_module(
         ..
     }: &Module<'_>,
     depth: usize,
+    imports: &[&str],
 ) -> TokenStream {
     let comment = compile_comment(comment);
     let name = Ident::new(name, Span::call_site());
+
+    // imports of the surrounding modules are available as well, unless hidden by a local name.
+    let outer = imports
+        .iter()
+        .copied()
+        .filter(|import| {
+            definitions
+                .iter()
+                .all(|def| definition_name(def) != Some(*import))
+        })
+        .collect::<Vec<_>>();
+    let mut imports = imported_names(definitions);
+    imports.extend(&outer);
+
+    let outer = outer
+        .into_iter()
+        .map(|name| Ident::new(name, Span::call_site()));
     let definitions = definitions
         .iter()
-        .map(|def| compile_definition(opts, def, depth + 1));
+        .map(|def| compile_definition(opts, def, depth + 1, &imports));
 
     quote! {
         #comment
         pub mod #name {
             #[allow(unused_imports)]
             use ::mabo::buf::{Decode, Encode, Size};
+            #(
+                #[allow(unused_imports)]
+                use super::#outer;
+            )*
 
             #(#definitions)*
         }
     }
 }
 
+/// Get the name under which a definition is available in its module.
+fn definition_name<'a>(definition: &'a Definition<'_>) -> Option<&'a str> {
+    match definition {
+        Definition::Module(m) => Some(m.name),
+        Definition::Struct(s) => Some(s.name),
+        Definition::Enum(e) => Some(e.name),
+        Definition::TypeAlias(a) => Some(a.name),
+        Definition::Const(c) => Some(c.name),
+        Definition::Import(i) => i.element.as_deref().or_else(|| i.segments.last().copied()),
+    }
+}
+
+/// Collect the names that are brought into scope by imports.
+fn imported_names<'a>(definitions: &'a [Definition<'_>]) -> Vec<&'a str> {
+    definitions
+        .iter()
+        .filter(|def| matches!(def, Definition::Import(_)))
+        .filter_map(definition_name)
+        .collect()
+}
+
 fn compile_struct(
     opts: &Opts,
     Struct {
-- 
2.43.0


From 0ac01870633f527632bdb61e0d4d4c32a90b1423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 18/43] fix: read the null escape of string literals

---
 crates/mabo-parser/src/parser/literals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mabo-parser/src/parser/literals.rs b/crates/mabo-parser/src/parser/literals.rs
index e5e19bb..a0af750 100644
--- a/crates/mabo-parser/src/parser/literals.rs
+++ b/crates/mabo-parser/src/parser/literals.rs
@@ -195,7 +195,7 @@ fn parse_string_escaped_char(input: &mut Input<'_>) -> Result<char, Cause> {
             'b' => 'b'.value('\u{08}'),
             'f' => 'f'.value('\u{0c}'),
             '\\' => '\\'.value('\\'),
-            '\0' => '\0'.value('\0'),
+            '0' => '0'.value('\0'),
             '/' => '/'.value('/'),
             '"' => '"'.value('"'),
             'u' => parse_string_unicode,
-- 
2.43.0


From fbff633dff62a9dc954e51089a97a68b42c7852d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:11 +0000
Subject: [PATCH 19/43] fix: print float literals with a fraction

---
 crates/mabo-parser/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/mabo-parser/src/lib.rs b/crates/mabo-parser/src/lib.rs
index dc29c78..d59087c 100644
--- a/crates/mabo-parser/src/lib.rs
+++ b/crates/mabo-parser/src/lib.rs
@@ -1266,6 +1266,7 @@ impl Display for LiteralValue {
         match *self {
             Self::Bool(v) => v.fmt(f),
             Self::Int(v) => v.fmt(f),
+            Self::Float(v) if v.fract() == 0.0 => write!(f, "{v:.1}"),
             Self::Float(v) => v.fmt(f),
             Self::String(ref v) => write!(f, "{v:?}"),
             Self::Bytes(ref v) => write!(f, "{v:?}"),
-- 
2.43.0


From b2a5d3ceb80024a7f9ffdeae0da5d41d4b518524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 20/43] fix: reject float literals beyond the range of a double

---
 crates/mabo-parser/src/parser/literals.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/mabo-parser/src/parser/literals.rs b/crates/mabo-parser/src/parser/literals.rs
index a0af750..259d690 100644
--- a/crates/mabo-parser/src/parser/literals.rs
+++ b/crates/mabo-parser/src/parser/literals.rs
@@ -130,6 +130,7 @@ fn parse_float(input: &mut Input<'_>) -> Result<f64, Cause> {
     )
         .take()
         .parse_to()
+        .verify(|value: &f64| value.is_finite())
         .parse_next(input)
 }
 
-- 
2.43.0


From 4b8559963f2d09aee579907e750a8815c9597ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:02 +0000
Subject: [PATCH 21/43] fix: start the span of fields and variants at their
 first token

---
 crates/mabo-parser/src/parser/enums.rs  | 15 ++++++-----
 crates/mabo-parser/src/parser/fields.rs | 35 ++++++++++++++-----------
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/crates/mabo-parser/src/parser/enums.rs b/crates/mabo-parser/src/parser/enums.rs
index a6b3228..b0f326f 100644
--- a/crates/mabo-parser/src/parser/enums.rs
+++ b/crates/mabo-parser/src/parser/enums.rs
@@ -133,12 +133,15 @@ fn parse_variants<'i>(
 fn parse_variant<'i>(input: &mut Input<'i>) -> Result<Variant<'i>, Cause> {
     (
         ws(comments::parse.map_err2(Cause::from)),
-        (
-            preceded(space0, parse_variant_name.with_span()),
-            preceded(space0, fields::parse.map_err2(Cause::from)),
-            opt(preceded(space0, ids::parse.map_err2(Cause::from))),
-        )
-            .with_span(),
+        preceded(
+            space0,
+            (
+                parse_variant_name.with_span(),
+                preceded(space0, fields::parse.map_err2(Cause::from)),
+                opt(preceded(space0, ids::parse.map_err2(Cause::from))),
+            )
+                .with_span(),
+        ),
     )
         .parse_next(input)
         .map(|(comment, ((name, fields, id), span))| Variant {
diff --git a/crates/mabo-parser/src/parser/fields.rs b/crates/mabo-parser/src/parser/fields.rs
index a92cff7..767c7ca 100644
--- a/crates/mabo-parser/src/parser/fields.rs
+++ b/crates/mabo-parser/src/parser/fields.rs
@@ -105,29 +105,32 @@ fn parse_unit(input: &mut Input<'_>) -> Result<(), Cause> {
 }
 
 fn parse_unnamed_field<'i>(input: &mut Input<'i>) -> Result<UnnamedField<'i>, Cause> {
-    (
-        ws(types::parse.map_err2(Cause::from)),
+    ws((
+        types::parse.map_err2(Cause::from),
         opt(preceded(space0, ids::parse.map_err2(Cause::from))),
     )
-        .with_span()
-        .parse_next(input)
-        .map(|((ty, id), span)| UnnamedField {
-            ty,
-            id,
-            span: span.into(),
-        })
+        .with_span())
+    .parse_next(input)
+    .map(|((ty, id), span)| UnnamedField {
+        ty,
+        id,
+        span: span.into(),
+    })
 }
 
 fn parse_named_field<'i>(input: &mut Input<'i>) -> Result<NamedField<'i>, Cause> {
     (
         ws(comments::parse.map_err2(Cause::from)),
-        (
-            preceded(space0, parse_field_name),
-            preceded(space0, token::Colon::parser()),
-            preceded(space0, types::parse.map_err2(Cause::from)),
-            opt(preceded(space0, ids::parse.map_err2(Cause::from))),
-        )
-            .with_span(),
+        preceded(
+            space0,
+            (
+                parse_field_name,
+                preceded(space0, token::Colon::parser()),
+                preceded(space0, types::parse.map_err2(Cause::from)),
+                opt(preceded(space0, ids::parse.map_err2(Cause::from))),
+            )
+                .with_span(),
+        ),
     )
         .parse_next(input)
         .map(|(comment, ((name, colon, ty, id), span))| NamedField {
-- 
2.43.0


From a3d76171931cf5cb633f684c182b91438d43e1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:49 +0000
Subject: [PATCH 22/43] fix: only announce position encodings the language
 server supports

---
 crates/mabo-lsp/src/handlers/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-lsp/src/handlers/mod.rs b/crates/mabo-lsp/src/handlers/mod.rs
index 0dcd8f0..afb7cd4 100644
--- a/crates/mabo-lsp/src/handlers/mod.rs
+++ b/crates/mabo-lsp/src/handlers/mod.rs
@@ -39,13 +39,22 @@ pub fn initialize(
 ) -> Result<InitializeResult> {
     log::trace!("{params:#?}");
 
-    // Select the most preferred position encoding defined by the client.
+    // Select the most preferred position encoding defined by the client, that is supported.
     state.encoding = params
         .capabilities
         .general
         .as_ref()
         .and_then(|general| general.position_encodings.as_ref())
-        .and_then(|encodings| encodings.first())
+        .and_then(|encodings| {
+            encodings.iter().find(|&encoding| {
+                [
+                    PositionEncodingKind::UTF8,
+                    PositionEncodingKind::UTF16,
+                    PositionEncodingKind::UTF32,
+                ]
+                .contains(encoding)
+            })
+        })
         .cloned()
         .unwrap_or(PositionEncodingKind::UTF16);
 
-- 
2.43.0


From 2642d0d2585335fd050d3a555558853d76d1d00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:42 +0000
Subject: [PATCH 23/43] fix: accept positions outside of the text in the
 language server

---
 crates/mabo-lsp/src/handlers/hover.rs |  3 +-
 crates/mabo-lsp/src/handlers/index.rs | 51 ++++++++++++----------
 crates/mabo-lsp/src/handlers/mod.rs   | 63 +++++++++++++++------------
 3 files changed, 65 insertions(+), 52 deletions(-)

diff --git a/crates/mabo-lsp/src/handlers/hover.rs b/crates/mabo-lsp/src/handlers/hover.rs
index 9f2eedc..d0425ac 100644
--- a/crates/mabo-lsp/src/handlers/hover.rs
+++ b/crates/mabo-lsp/src/handlers/hover.rs
@@ -13,10 +13,11 @@ use crate::config;
 pub fn visit_schema(
     config: &config::Hover,
     index: &Index,
+    text: &str,
     item: &Schema<'_>,
     position: lsp::Position,
 ) -> Result<Option<(String, lsp::Range)>> {
-    let position = index.get_offset(position)?;
+    let position = index.get_offset(text, position);
 
     item.definitions
         .iter()
diff --git a/crates/mabo-lsp/src/handlers/index.rs b/crates/mabo-lsp/src/handlers/index.rs
index 649990b..5fd1cec 100644
--- a/crates/mabo-lsp/src/handlers/index.rs
+++ b/crates/mabo-lsp/src/handlers/index.rs
@@ -1,7 +1,7 @@
 use std::ops::Range;
 
 use anyhow::{Context, Result};
-use line_index::{LineCol, LineIndex, TextSize, WideEncoding, WideLineCol};
+use line_index::{LineIndex, TextSize, WideEncoding};
 use lsp_types as lsp;
 
 pub struct Index {
@@ -55,28 +55,35 @@ impl Index {
         ))
     }
 
-    pub fn get_offset(&self, position: lsp::Position) -> Result<usize> {
-        let line_col = if let Some(encoding) = self.encoding {
-            self.index
-                .to_utf8(
-                    encoding,
-                    WideLineCol {
-                        line: position.line,
-                        col: position.character,
-                    },
-                )
-                .context("missing utf-16 position")?
-        } else {
-            LineCol {
-                line: position.line,
-                col: position.character,
-            }
+    /// Convert the position into a byte offset of the text that this index was created from.
+    ///
+    /// Positions beyond the end of a line are located at the end of it, those beyond the last line
+    /// at the end of the text, and those inside of a character at the start of it.
+    pub fn get_offset(&self, text: &str, position: lsp::Position) -> usize {
+        let Some(line) = self.index.line(position.line) else {
+            return text.len();
         };
 
-        Ok(self
-            .index
-            .offset(line_col)
-            .context("missing offset position")?
-            .into())
+        let line = Range::<usize>::from(line);
+        let content = &text[line.clone()];
+        let content = content.strip_suffix('\n').unwrap_or(content);
+        let content = content.strip_suffix('\r').unwrap_or(content);
+
+        let mut units = position.character as usize;
+
+        for (offset, c) in content.char_indices() {
+            let len = match self.encoding {
+                None => c.len_utf8(),
+                Some(WideEncoding::Utf16) => c.len_utf16(),
+                Some(_) => 1,
+            };
+
+            match units.checked_sub(len) {
+                Some(rest) => units = rest,
+                None => return line.start + offset,
+            }
+        }
+
+        line.start + content.len()
     }
 }
diff --git a/crates/mabo-lsp/src/handlers/mod.rs b/crates/mabo-lsp/src/handlers/mod.rs
index afb7cd4..409663e 100644
--- a/crates/mabo-lsp/src/handlers/mod.rs
+++ b/crates/mabo-lsp/src/handlers/mod.rs
@@ -2,7 +2,7 @@
 
 use std::sync::LazyLock;
 
-use anyhow::{Context, Result};
+use anyhow::{Context, Result, ensure};
 use line_index::{LineIndex, TextRange};
 use log::{debug, error, warn};
 use lsp_types::{
@@ -209,22 +209,26 @@ pub fn did_change(state: &mut GlobalState<'_>, mut params: DidChangeTextDocument
             return;
         };
 
-        update_file(params.text_document.uri.clone(), file, |rope, index| {
-            for change in params.content_changes {
-                let range = match convert_range(index, change.range) {
-                    Ok(range) => range,
-                    Err(e) => {
-                        error!(error:err = *e; "invalid change");
-                        continue;
-                    }
-                };
-
-                let start = rope.byte_to_char(range.start().into());
-                let end = rope.byte_to_char(range.end().into());
-                rope.remove(start..end);
-                rope.insert(start, &change.text);
-            }
-        })
+        update_file(
+            params.text_document.uri.clone(),
+            file,
+            |rope, index, text| {
+                for change in params.content_changes {
+                    let range = match convert_range(index, text, change.range) {
+                        Ok(range) => range,
+                        Err(e) => {
+                            error!(error:err = *e; "invalid change");
+                            continue;
+                        }
+                    };
+
+                    let start = rope.byte_to_char(range.start().into());
+                    let end = rope.byte_to_char(range.end().into());
+                    rope.remove(start..end);
+                    rope.insert(start, &change.text);
+                }
+            },
+        )
     };
 
     if let Err(e) = state.client.publish_diagnostics(
@@ -260,13 +264,13 @@ pub fn hover(state: &mut GlobalState<'_>, params: HoverParams) -> Result<Option<
     debug!(uri:% = uri.as_str(); "requested hover info");
 
     Ok(
-        if let Some((schema, index)) = state.files.get_mut(&uri).and_then(|file| {
+        if let Some((schema, (index, text))) = state.files.get_mut(&uri).and_then(|file| {
             file.borrow_simplified()
                 .as_ref()
                 .ok()
-                .zip(Some(file.borrow_index()))
+                .zip(Some((file.borrow_index(), file.borrow_content())))
         }) {
-            hover::visit_schema(&state.settings.hover, index, schema, position)?.map(
+            hover::visit_schema(&state.settings.hover, index, text, schema, position)?.map(
                 |(value, range)| Hover {
                     contents: HoverContents::Markup(MarkupContent {
                         kind: MarkupKind::Markdown,
@@ -338,16 +342,13 @@ pub fn did_change_configuration(
     }
 }
 
-fn convert_range(index: &Index, range: Option<lsp_types::Range>) -> Result<TextRange> {
+fn convert_range(index: &Index, text: &str, range: Option<lsp_types::Range>) -> Result<TextRange> {
     let range = range.context("incremental change misses range")?;
 
-    let start = index
-        .get_offset(range.start)
-        .context("failed to convert start position to byte offset")?;
+    let start = index.get_offset(text, range.start);
+    let end = index.get_offset(text, range.end);
 
-    let end = index
-        .get_offset(range.end)
-        .context("failed to convert end position to byte offset")?;
+    ensure!(start <= end, "range ends before its start");
 
     Ok(TextRange::new(start.try_into()?, end.try_into()?))
 }
@@ -363,10 +364,14 @@ fn create_file(encoding: &PositionEncodingKind, uri: Uri, text: String) -> state
     .build()
 }
 
-fn update_file(uri: Uri, file: state::File, update: impl FnOnce(&mut Rope, &Index)) -> state::File {
+fn update_file(
+    uri: Uri,
+    file: state::File,
+    update: impl FnOnce(&mut Rope, &Index, &str),
+) -> state::File {
     let mut heads = file.into_heads();
 
-    update(&mut heads.rope, &heads.index);
+    update(&mut heads.rope, &heads.index, &heads.content);
     let text = String::from(&heads.rope);
 
     heads.index.update(LineIndex::new(&text));
-- 
2.43.0


From 2448db27f6454109bb51a311c8008de40c5a3820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:44 +0000
Subject: [PATCH 24/43] fix: apply text changes one after another in the
 language server

---
 crates/mabo-lsp/src/handlers/mod.rs | 66 +++++++++++++++++------------
 1 file changed, 40 insertions(+), 26 deletions(-)

diff --git a/crates/mabo-lsp/src/handlers/mod.rs b/crates/mabo-lsp/src/handlers/mod.rs
index 409663e..4640608 100644
--- a/crates/mabo-lsp/src/handlers/mod.rs
+++ b/crates/mabo-lsp/src/handlers/mod.rs
@@ -204,31 +204,47 @@ pub fn did_change(state: &mut GlobalState<'_>, mut params: DidChangeTextDocument
         let text = params.content_changes.remove(0).text;
         create_file(&state.encoding, params.text_document.uri.clone(), text)
     } else {
-        let Some(file) = state.files.remove(&params.text_document.uri) else {
+        let file = state.files.remove(&params.text_document.uri).or_else(|| {
+            // The previous content doesn't matter if all of it is replaced at first.
+            let replaces = params.content_changes.first()?.range.is_none();
+            replaces.then(|| {
+                create_file(
+                    &state.encoding,
+                    params.text_document.uri.clone(),
+                    String::new(),
+                )
+            })
+        });
+        let Some(file) = file else {
             warn!("missing state for changed file");
             return;
         };
 
-        update_file(
-            params.text_document.uri.clone(),
-            file,
-            |rope, index, text| {
-                for change in params.content_changes {
-                    let range = match convert_range(index, text, change.range) {
-                        Ok(range) => range,
-                        Err(e) => {
-                            error!(error:err = *e; "invalid change");
-                            continue;
-                        }
-                    };
-
-                    let start = rope.byte_to_char(range.start().into());
-                    let end = rope.byte_to_char(range.end().into());
-                    rope.remove(start..end);
-                    rope.insert(start, &change.text);
-                }
-            },
-        )
+        update_file(params.text_document.uri.clone(), file, |rope, index| {
+            for change in params.content_changes {
+                // Each change builds upon the outcome of the previous one.
+                let text = String::from(&*rope);
+                index.update(LineIndex::new(&text));
+
+                let Some(range) = change.range else {
+                    *rope = Rope::from_str(&change.text);
+                    continue;
+                };
+
+                let range = match convert_range(index, &text, range) {
+                    Ok(range) => range,
+                    Err(e) => {
+                        error!(error:err = *e; "invalid change");
+                        continue;
+                    }
+                };
+
+                let start = rope.byte_to_char(range.start().into());
+                let end = rope.byte_to_char(range.end().into());
+                rope.remove(start..end);
+                rope.insert(start, &change.text);
+            }
+        })
     };
 
     if let Err(e) = state.client.publish_diagnostics(
@@ -342,9 +358,7 @@ pub fn did_change_configuration(
     }
 }
 
-fn convert_range(index: &Index, text: &str, range: Option<lsp_types::Range>) -> Result<TextRange> {
-    let range = range.context("incremental change misses range")?;
-
+fn convert_range(index: &Index, text: &str, range: lsp_types::Range) -> Result<TextRange> {
     let start = index.get_offset(text, range.start);
     let end = index.get_offset(text, range.end);
 
@@ -367,11 +381,11 @@ fn create_file(encoding: &PositionEncodingKind, uri: Uri, text: String) -> state
 fn update_file(
     uri: Uri,
     file: state::File,
-    update: impl FnOnce(&mut Rope, &Index, &str),
+    update: impl FnOnce(&mut Rope, &mut Index),
 ) -> state::File {
     let mut heads = file.into_heads();
 
-    update(&mut heads.rope, &heads.index, &heads.content);
+    update(&mut heads.rope, &mut heads.index);
     let text = String::from(&heads.rope);
 
     heads.index.update(LineIndex::new(&text));
-- 
2.43.0


From bcf3f4dd3af370f50d0ea5bbfac0cd9beb3fd64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:04 +0000
Subject: [PATCH 25/43] fix: keep serving the client while it has requests of
 the server to answer

---
 crates/mabo-lsp/src/client.rs |  45 +++---------
 crates/mabo-lsp/src/main.rs   | 135 ++++++++++++++++++++--------------
 crates/mabo-lsp/src/state.rs  |  33 ++++++++-
 3 files changed, 120 insertions(+), 93 deletions(-)

diff --git a/crates/mabo-lsp/src/client.rs b/crates/mabo-lsp/src/client.rs
index 01b7dce..dfd1ab8 100644
--- a/crates/mabo-lsp/src/client.rs
+++ b/crates/mabo-lsp/src/client.rs
@@ -1,8 +1,8 @@
 use std::time::Duration;
 
-use anyhow::{Context, Result, bail, ensure};
+use anyhow::{Context, Result};
 use log::trace;
-use lsp_server::{Connection, Message, Notification, Request, Response};
+use lsp_server::{Connection, Notification, Request, RequestId};
 use lsp_types::{
     ConfigurationItem, ConfigurationParams, Diagnostic, PublishDiagnosticsParams, Registration,
     RegistrationParams, Uri,
@@ -39,12 +39,14 @@ impl<'a> Client<'a> {
             .map_err(Into::into)
     }
 
-    fn send_request<T>(&mut self, params: T::Params) -> Result<T::Result>
+    /// Send the request, without waiting for its response. The client may send any other messages
+    /// before it responds, so the response is up to the main loop.
+    fn send_request<T>(&mut self, params: T::Params) -> Result<RequestId>
     where
         T: LspRequest,
     {
-        let req_id = self.next_id();
-        let request = Request::new(req_id.into(), T::METHOD.to_owned(), params).into();
+        let req_id = RequestId::from(self.next_id());
+        let request = Request::new(req_id.clone(), T::METHOD.to_owned(), params).into();
 
         trace!("sending request {request:#?}");
 
@@ -53,31 +55,7 @@ impl<'a> Client<'a> {
             .send_timeout(request, Duration::from_secs(2))
             .context("timeout sending request")?;
 
-        match self
-            .conn
-            .receiver
-            .recv_timeout(Duration::from_secs(2))
-            .context("timeout receiving response")?
-        {
-            Message::Response(Response {
-                id,
-                result,
-                error: None,
-            }) => {
-                ensure!(
-                    id == req_id.into(),
-                    "invalid ID (wanted {id}, but got {req_id})"
-                );
-                let result = result.unwrap_or(serde_json::Value::Null);
-                serde_json::from_value(result).map_err(Into::into)
-            }
-            Message::Response(Response {
-                id,
-                result: None,
-                error: Some(error),
-            }) => bail!("request {id} failed: {error:?}"),
-            _ => bail!("invalid message type"),
-        }
+        Ok(req_id)
     }
 
     pub fn publish_diagnostics(
@@ -93,14 +71,11 @@ impl<'a> Client<'a> {
         })
     }
 
-    pub fn configuration(
-        &mut self,
-        items: Vec<ConfigurationItem>,
-    ) -> Result<Vec<serde_json::Value>> {
+    pub fn configuration(&mut self, items: Vec<ConfigurationItem>) -> Result<RequestId> {
         self.send_request::<WorkspaceConfiguration>(ConfigurationParams { items })
     }
 
-    pub fn register_capability(&mut self, registrations: Vec<Registration>) -> Result<()> {
+    pub fn register_capability(&mut self, registrations: Vec<Registration>) -> Result<RequestId> {
         self.send_request::<RegisterCapability>(RegistrationParams { registrations })
     }
 }
diff --git a/crates/mabo-lsp/src/main.rs b/crates/mabo-lsp/src/main.rs
index d1a8c42..859e8ef 100644
--- a/crates/mabo-lsp/src/main.rs
+++ b/crates/mabo-lsp/src/main.rs
@@ -2,16 +2,21 @@
 
 #![warn(clippy::expect_used, clippy::unwrap_used)]
 
-use std::{net::Ipv4Addr, time::Instant};
+use std::{
+    net::Ipv4Addr,
+    time::{Duration, Instant},
+};
 
-use anyhow::{Result, bail};
-use log::{debug, error, info, warn};
-use lsp_server::{Connection, ErrorCode, ExtractError, Notification, Request, RequestId, Response};
+use anyhow::{Context, Result, bail};
+use log::{debug, error, info};
+use lsp_server::{
+    Connection, ErrorCode, ExtractError, Message, Notification, Request, RequestId, Response,
+};
 use lsp_types::{
     DocumentSymbol, InitializeParams, InitializedParams, SemanticTokens,
     notification::{
         DidChangeConfiguration, DidChangeTextDocument, DidCloseTextDocument, DidDeleteFiles,
-        DidOpenTextDocument, Initialized, Notification as LspNotification,
+        DidOpenTextDocument, Exit, Initialized, Notification as LspNotification,
     },
     request::{
         DocumentSymbolRequest, HoverRequest, Request as LspRequest, SemanticTokensFullRequest,
@@ -69,61 +74,58 @@ fn main() -> Result<()> {
 fn main_loop(conn: &Connection, mut state: GlobalState<'_>) -> Result<()> {
     for msg in &conn.receiver {
         match msg {
-            lsp_server::Message::Request(req) => {
-                if conn.handle_shutdown(&req)? {
+            Message::Request(req) => match req.method.as_str() {
+                Shutdown::METHOD => {
+                    conn.sender.send(Response::new_ok(req.id, ()).into())?;
                     info!("shutting down");
-                    return Ok(());
+                    return wait_for_exit(conn);
+                }
+                HoverRequest::METHOD => {
+                    handle_request::<HoverRequest, _>(
+                        conn,
+                        &mut state,
+                        req,
+                        handlers::hover,
+                        |value| value,
+                    )?;
+                }
+                DocumentSymbolRequest::METHOD => {
+                    handle_request::<DocumentSymbolRequest, _>(
+                        conn,
+                        &mut state,
+                        req,
+                        handlers::document_symbol,
+                        |value| value.unwrap_or(Vec::<DocumentSymbol>::default().into()),
+                    )?;
+                }
+                SemanticTokensFullRequest::METHOD => {
+                    handle_request::<SemanticTokensFullRequest, _>(
+                        conn,
+                        &mut state,
+                        req,
+                        handlers::semantic_tokens_full,
+                        |value| value.unwrap_or(SemanticTokens::default().into()),
+                    )?;
                 }
 
-                match req.method.as_str() {
-                    Shutdown::METHOD => {
-                        warn!("should never reach this");
-                    }
-                    HoverRequest::METHOD => {
-                        handle_request::<HoverRequest, _>(
-                            conn,
-                            &mut state,
-                            req,
-                            handlers::hover,
-                            |value| value,
-                        )?;
-                    }
-                    DocumentSymbolRequest::METHOD => {
-                        handle_request::<DocumentSymbolRequest, _>(
-                            conn,
-                            &mut state,
-                            req,
-                            handlers::document_symbol,
-                            |value| value.unwrap_or(Vec::<DocumentSymbol>::default().into()),
-                        )?;
-                    }
-                    SemanticTokensFullRequest::METHOD => {
-                        handle_request::<SemanticTokensFullRequest, _>(
-                            conn,
-                            &mut state,
-                            req,
-                            handlers::semantic_tokens_full,
-                            |value| value.unwrap_or(SemanticTokens::default().into()),
-                        )?;
-                    }
-
-                    _ => {
-                        debug!(request:? = req; "got unsupported request");
-                        conn.sender.send(
-                            Response::new_err(
-                                req.id,
-                                ErrorCode::MethodNotFound as _,
-                                format!("request `{}` not supported", req.method),
-                            )
-                            .into(),
-                        )?;
-                    }
+                _ => {
+                    debug!(request:? = req; "got unsupported request");
+                    conn.sender.send(
+                        Response::new_err(
+                            req.id,
+                            ErrorCode::MethodNotFound as _,
+                            format!("request `{}` not supported", req.method),
+                        )
+                        .into(),
+                    )?;
+                }
+            },
+            Message::Response(resp) => {
+                if let Err(e) = state.response(resp) {
+                    error!(error:err = *e; "failed handling response");
                 }
             }
-            lsp_server::Message::Response(resp) => {
-                debug!(response:? = resp; "got unexpected response");
-            }
-            lsp_server::Message::Notification(notif) => match notif.method.as_str() {
+            Message::Notification(notif) => match notif.method.as_str() {
                 Initialized::METHOD => {
                     handle_notify::<Initialized>(&mut state, notif, handlers::initialized);
                 }
@@ -154,6 +156,29 @@ fn main_loop(conn: &Connection, mut state: GlobalState<'_>) -> Result<()> {
     Ok(())
 }
 
+/// Wait for the client to send the exit notification after a shutdown request. It might still
+/// respond to our own requests until then.
+fn wait_for_exit(conn: &Connection) -> Result<()> {
+    loop {
+        match conn
+            .receiver
+            .recv_timeout(Duration::from_secs(30))
+            .context("failed waiting for exit notification")?
+        {
+            Message::Request(req) => conn.sender.send(
+                Response::new_err(
+                    req.id,
+                    ErrorCode::InvalidRequest as _,
+                    "server is shutting down".to_owned(),
+                )
+                .into(),
+            )?,
+            Message::Notification(notif) if notif.method == Exit::METHOD => return Ok(()),
+            Message::Response(_) | Message::Notification(_) => {}
+        }
+    }
+}
+
 fn handle_request<T, R>(
     conn: &Connection,
     state: &mut GlobalState<'_>,
diff --git a/crates/mabo-lsp/src/state.rs b/crates/mabo-lsp/src/state.rs
index 818e279..617103e 100644
--- a/crates/mabo-lsp/src/state.rs
+++ b/crates/mabo-lsp/src/state.rs
@@ -1,8 +1,8 @@
 #![expect(dead_code)]
 
-use anyhow::{Context, Result, ensure};
+use anyhow::{Context, Result, bail, ensure};
 use log::debug;
-use lsp_server::Connection;
+use lsp_server::{Connection, RequestId, Response};
 use lsp_types::{ConfigurationItem, Diagnostic, PositionEncodingKind, Uri};
 use mabo_parser::Schema;
 use ouroboros::self_referencing;
@@ -16,6 +16,8 @@ pub struct GlobalState<'a> {
     pub encoding: PositionEncodingKind,
     pub files: FxHashMap<Uri, File>,
     pub settings: config::Global,
+    /// Most recent request to the client for its settings, that is still unanswered.
+    pending_settings: Option<RequestId>,
 }
 
 #[self_referencing(pub_extras)]
@@ -38,11 +40,13 @@ impl<'a> GlobalState<'a> {
             encoding: PositionEncodingKind::UTF16,
             files: FxHashMap::default(),
             settings: config::Global::default(),
+            pending_settings: None,
         }
     }
 
+    /// Ask the client for its current settings, which arrive with the [response](Self::response).
     pub fn reload_settings(&mut self) -> Result<()> {
-        let mut settings = self
+        let id = self
             .client
             .configuration(vec![ConfigurationItem {
                 scope_uri: None,
@@ -50,6 +54,29 @@ impl<'a> GlobalState<'a> {
             }])
             .context("failed getting configuration from client")?;
 
+        self.pending_settings = Some(id);
+
+        Ok(())
+    }
+
+    /// Handle the response of the client to one of the requests to it.
+    pub fn response(&mut self, response: Response) -> Result<()> {
+        if let Some(error) = response.error {
+            bail!("request {} failed: {error:?}", response.id);
+        }
+
+        if self.pending_settings.as_ref() != Some(&response.id) {
+            debug!(id:% = response.id; "got response without settings");
+            return Ok(());
+        }
+
+        self.pending_settings = None;
+
+        let mut settings = serde_json::from_value::<Vec<serde_json::Value>>(
+            response.result.unwrap_or(serde_json::Value::Null),
+        )
+        .context("failed to parse configuration response")?;
+
         ensure!(
             settings.len() == 1,
             "configuration contains not exactly one object"
-- 
2.43.0


From 977f3b7acfdbb650add4ebd35724a99db52ac7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:26 +0000
Subject: [PATCH 26/43] fix: select only files as the schemas of a project, not
 directories named like one

---
 crates/mabo-project/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/mabo-project/src/lib.rs b/crates/mabo-project/src/lib.rs
index 5956681..e312d46 100644
--- a/crates/mabo-project/src/lib.rs
+++ b/crates/mabo-project/src/lib.rs
@@ -200,6 +200,10 @@ fn collect_files(base: &Path, patterns: &[String]) -> Result<Vec<PathBuf>> {
 
     for entry in walk {
         let entry = entry.map_err(Error::Walk)?;
+        if !entry.file_type().is_some_and(|ty| ty.is_file()) {
+            continue;
+        }
+
         let path = entry
             .path()
             .strip_prefix(base)
-- 
2.43.0


From 09a1916949926fb7718d3203d2658f45f945ba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:45 +0000
Subject: [PATCH 27/43] fix: let the check command validate and resolve
 schemas, and fail if any step does

---
 crates/mabo-cli/src/main.rs | 46 +++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/crates/mabo-cli/src/main.rs b/crates/mabo-cli/src/main.rs
index 0466330..8ae6fe8 100644
--- a/crates/mabo-cli/src/main.rs
+++ b/crates/mabo-cli/src/main.rs
@@ -1,12 +1,13 @@
 //! Main command line interface for tooling support of Mabo schema files.
 
 use std::{
+    ffi::OsStr,
     fs,
     path::{Path, PathBuf},
     process::ExitCode,
 };
 
-use anyhow::Context;
+use anyhow::{Context, bail, ensure};
 use mabo_parser::Schema;
 use miette::Context as _;
 
@@ -44,14 +45,51 @@ fn main() -> ExitCode {
 }
 
 fn check(args: CheckArgs) -> anyhow::Result<()> {
+    let mut inputs = Vec::new();
+    let mut schemas = Vec::new();
+    let mut failed = false;
+
     for file in project_or_files(args.project_dir, args.files)? {
-        let buf = fs::read_to_string(&file).with_context(|| format!("failed reading {file:?}"))?;
+        match fs::read_to_string(&file).with_context(|| format!("failed reading {file:?}")) {
+            Ok(buf) => inputs.push((file, buf)),
+            Err(e) => {
+                eprintln!("{e:?}");
+                failed = true;
+            }
+        }
+    }
 
-        if let Err(e) = Schema::parse(&buf, Some(&file)).wrap_err("failed parsing schema file") {
-            eprintln!("{e:?}");
+    for (file, buf) in &inputs {
+        let schema = Schema::parse(buf, Some(file))
+            .wrap_err("failed parsing schema file")
+            .and_then(|schema| {
+                mabo_compiler::validate_schema(&schema)
+                    .wrap_err("failed validating schema file")?;
+                Ok(schema)
+            });
+
+        match schema {
+            Ok(schema) => schemas.push((file.file_stem().and_then(OsStr::to_str), schema)),
+            Err(e) => {
+                eprintln!("{e:?}");
+                failed = true;
+            }
         }
     }
 
+    ensure!(!failed, "failed checking all schema files");
+
+    let schemas = schemas
+        .iter()
+        .map(|(name, schema)| Some(((*name)?, schema)))
+        .collect::<Option<Vec<_>>>();
+    let schemas = anyhow::Context::context(schemas, "file name is not valid UTF-8")?;
+
+    if let Err(e) = mabo_compiler::resolve_schemas(&schemas).wrap_err("failed resolving types") {
+        eprintln!("{e:?}");
+        bail!("failed checking all schema files");
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 15d52aff3f4771be993ca54a71876c45217a0d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:46 +0000
Subject: [PATCH 28/43] fix: format the remaining files if one of them can not
 be read

---
 crates/mabo-cli/src/main.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-cli/src/main.rs b/crates/mabo-cli/src/main.rs
index 8ae6fe8..df7e516 100644
--- a/crates/mabo-cli/src/main.rs
+++ b/crates/mabo-cli/src/main.rs
@@ -94,8 +94,18 @@ fn check(args: CheckArgs) -> anyhow::Result<()> {
 }
 
 fn format(args: FmtArgs) -> anyhow::Result<()> {
+    let mut unreadable = false;
+
     for file in project_or_files(args.project_dir, args.files)? {
-        let buf = fs::read_to_string(&file)?;
+        let buf =
+            match fs::read_to_string(&file).with_context(|| format!("failed reading {file:?}")) {
+                Ok(buf) => buf,
+                Err(e) => {
+                    eprintln!("{e:?}");
+                    unreadable = true;
+                    continue;
+                }
+            };
         let schema = match Schema::parse(&buf, Some(&file)).wrap_err("Failed parsing schema file") {
             Ok(schema) => schema,
             Err(e) => {
@@ -111,6 +121,8 @@ fn format(args: FmtArgs) -> anyhow::Result<()> {
         }
     }
 
+    ensure!(!unreadable, "failed reading all schema files");
+
     Ok(())
 }
 
-- 
2.43.0


From 407b8c51f8c87be614d45a2358009a470ec1b0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 29/43] fix: visit each file that the patterns of a command
 match once, and no directories

---
 crates/mabo-cli/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-cli/src/main.rs b/crates/mabo-cli/src/main.rs
index df7e516..7e8bd61 100644
--- a/crates/mabo-cli/src/main.rs
+++ b/crates/mabo-cli/src/main.rs
@@ -166,10 +166,12 @@ fn project_or_files(
         for pattern in patterns {
             for entry in glob::glob(&pattern).context("failed parsing glob pattern")? {
                 let entry = entry.context("failed reading entry")?;
-                if entry.extension().is_none_or(|ext| ext != "mabo") {
+                if entry.extension().is_none_or(|ext| ext != "mabo") || !entry.is_file() {
                     continue;
                 }
-                files.push(entry);
+                if !files.contains(&entry) {
+                    files.push(entry);
+                }
             }
         }
         files
-- 
2.43.0


From f1021af130158ae028f34f506a4d31a5c4424244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:48 +0000
Subject: [PATCH 30/43] fix: report schema files of the same name instead of
 overwriting the generated file of one

---
 crates/mabo-build/src/lib.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-build/src/lib.rs b/crates/mabo-build/src/lib.rs
index 7f4cc4e..ec891dc 100644
--- a/crates/mabo-build/src/lib.rs
+++ b/crates/mabo-build/src/lib.rs
@@ -32,6 +32,14 @@ pub enum Error {
     /// The file name wasn't valid UTF-8.
     #[error("the file name was not encoded in valid UTF-8")]
     NonUtf8FileName,
+    /// Two schema files have the same name, so that both would generate the same Rust source file.
+    #[error("schema files {first:?} and {second:?} have the same name")]
+    DuplicateName {
+        /// The first file with the name.
+        first: PathBuf,
+        /// The second file with the name.
+        second: PathBuf,
+    },
     /// Failed to create the output directory for generated Rust source files.
     #[error("failed creating output directory at {path:?}")]
     Create {
@@ -162,13 +170,23 @@ impl Compiler {
             inputs.push((path, input));
         }
 
-        for (path, input) in &inputs {
+        for (i, (path, input)) in inputs.iter().enumerate() {
             let stem = path
                 .file_stem()
                 .ok_or(Error::NoFileName)?
                 .to_str()
                 .ok_or(Error::NonUtf8FileName)?;
 
+            if let Some((first, _)) = inputs[..i]
+                .iter()
+                .find(|(first, _)| first.file_stem() == path.file_stem())
+            {
+                return Err(Error::DuplicateName {
+                    first: first.clone(),
+                    second: path.clone(),
+                });
+            }
+
             let schema = Schema::parse(input, Some(path)).map_err(|e| Error::Parse {
                 report: Report::new(e),
                 file: path.clone(),
-- 
2.43.0


From 89f392cc9f6ffb5f2ce6bddd3eacd0e9023b83fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 31/43] fix: show the wire size of arrays with the length
 prefix they are encoded with

---
 crates/mabo-meta/src/lib.rs | 43 +++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/crates/mabo-meta/src/lib.rs b/crates/mabo-meta/src/lib.rs
index 6f112a8..d43abe8 100644
--- a/crates/mabo-meta/src/lib.rs
+++ b/crates/mabo-meta/src/lib.rs
@@ -150,7 +150,10 @@ pub fn wire_size(ty: &Type<'_>) -> Option<WireSize> {
             WireSize {
                 label: "option".into(),
                 min: 0,
-                max: inner.as_ref().and_then(|size| size.max).map(|max| 1 + max),
+                max: inner
+                    .as_ref()
+                    .and_then(|size| size.max)
+                    .map(|max| max.saturating_add(1)),
                 inner: vec![("value".into(), inner)],
             }
         }
@@ -159,7 +162,10 @@ pub fn wire_size(ty: &Type<'_>) -> Option<WireSize> {
             WireSize {
                 label: "non_zero".into(),
                 min: 0,
-                max: inner.as_ref().and_then(|size| size.max).map(|max| 1 + max),
+                max: inner
+                    .as_ref()
+                    .and_then(|size| size.max)
+                    .map(|max| max.saturating_add(1)),
                 inner: vec![("value".into(), inner)],
             }
         }
@@ -172,18 +178,26 @@ pub fn wire_size(ty: &Type<'_>) -> Option<WireSize> {
 }
 
 fn wire_size_array(ty: &Type<'_>, size: u32) -> WireSize {
-    let length = varint_size(size);
     let inner = wire_size(ty);
+    let min = inner
+        .as_ref()
+        .map_or(0, |inner| inner.min)
+        .saturating_mul(size as usize);
+    let max = inner
+        .as_ref()
+        .and_then(|inner| inner.max)
+        .map(|max| max.saturating_mul(size as usize));
+    let length = (varint_size(min), varint_size(max.unwrap_or(usize::MAX)));
 
     WireSize {
         label: "array".into(),
-        min: length + inner.as_ref().map_or(0, |size| size.min) * size as usize,
-        max: inner
-            .as_ref()
-            .and_then(|size| size.max)
-            .map(|max| length + max * size as usize),
+        min: length.0.saturating_add(min),
+        max: max.map(|max| length.1.saturating_add(max)),
         inner: vec![
-            ("length".into(), Some(WireSize::fixed("u64", length))),
+            (
+                "length".into(),
+                Some(WireSize::range("u64", length.0, length.1)),
+            ),
             ("element".into(), inner),
         ],
     }
@@ -201,16 +215,17 @@ fn wire_size_tuple(types: &[Type<'_>]) -> WireSize {
         min: inner
             .iter()
             .filter_map(|(_, size)| size.as_ref())
-            .map(|size| size.min)
-            .sum(),
+            .fold(0, |sum, size| sum.saturating_add(size.min)),
         max: inner
             .iter()
             .map(|(_, size)| size.as_ref().and_then(|s| s.max))
-            .sum(),
+            .try_fold(0, |sum: usize, max| Some(sum.saturating_add(max?))),
         inner,
     }
 }
 
-fn varint_size(value: u32) -> usize {
-    ((std::mem::size_of::<u32>() * 8 - value.leading_zeros() as usize).div_ceil(7)).max(1)
+fn varint_size(value: usize) -> usize {
+    ((usize::BITS - value.leading_zeros()) as usize)
+        .div_ceil(7)
+        .max(1)
 }
-- 
2.43.0


From 4591ef7bb445d71d849842660fe34e61e1eb0ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:41 +0000
Subject: [PATCH 32/43] fix: declare the generics of type aliases in Go code

---
 crates/mabo-go/src/definition.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index b1fcc8f..54bebb8 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -363,12 +363,16 @@ impl Display for RenderAlias<'_> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         writeln!(
             f,
-            "{}type {} {}",
+            "{}type {}{} {}",
             RenderComment {
                 indent: Indent(0),
                 comment: &self.0.comment,
             },
             heck::AsUpperCamelCase(&self.0.name),
+            RenderGenerics {
+                generics: &self.0.generics,
+                fields_filter: None
+            },
             RenderType(&self.0.target),
         )
     }
-- 
2.43.0


From 8f999ccad964b65db024bbc8d8049cc6cbba43e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:44 +0000
Subject: [PATCH 33/43] fix: declare generics of Go enum variants that are only
 used as an argument of another type

---
 crates/mabo-go/src/definition.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index 54bebb8..dcc7975 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -717,7 +717,9 @@ fn uses_generic(generic: &str, fields: &Fields<'_>) -> bool {
             | Type::Array(ty, _) => visit_external(ty, visit),
             Type::HashMap(kv) => visit_external(&kv.0, visit) || visit_external(&kv.1, visit),
             Type::Tuple(types) => types.iter().any(|ty| visit_external(ty, visit)),
-            Type::External(ty) => visit(ty),
+            Type::External(ty) => {
+                visit(ty) || ty.generics.iter().any(|ty| visit_external(ty, visit))
+            }
         }
     }
 
-- 
2.43.0


From 67909f55a33e86a07caf29dc9c4baa0ce43b1057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:47 +0000
Subject: [PATCH 34/43] fix: give empty byte constants in Go code a value

---
 crates/mabo-go/src/definition.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index dcc7975..b0b2cf2 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -561,10 +561,6 @@ impl Display for RenderLiteral<'_> {
             Literal::Float(f2) => write!(f, "{f2}"),
             Literal::String(s) => write!(f, "{s:?}"),
             Literal::Bytes(b) => {
-                if b.is_empty() {
-                    return Ok(());
-                }
-
                 f.write_str("[]byte{")?;
                 for (i, value) in b.iter().enumerate() {
                     if i > 0 {
-- 
2.43.0


From f91f6527b55884d2671c4bf6f5e8cf0669df7a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:50 +0000
Subject: [PATCH 35/43] fix: declare generics in Go code by the name they are
 used with

---
 crates/mabo-go/src/definition.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index b0b2cf2..3475bc8 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -222,7 +222,7 @@ impl Display for RenderGenerics<'_> {
             if i > 0 {
                 f.write_str(", ")?;
             }
-            write!(f, "{value} any")?;
+            write!(f, "{} any", heck::AsUpperCamelCase(value))?;
         }
         f.write_char(']')
     }
@@ -261,7 +261,7 @@ impl Display for RenderGenericNames<'_> {
             if i > 0 {
                 f.write_str(", ")?;
             }
-            write!(f, "{value}")?;
+            write!(f, "{}", heck::AsUpperCamelCase(value))?;
         }
         f.write_char(']')
     }
-- 
2.43.0


From 2da6cdb74f05dde29d89ef0ffaf31a8041f8f453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:53 +0000
Subject: [PATCH 36/43] fix: refer to Go packages by the name they are declared
 with

---
 crates/mabo-go/src/definition.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index 3475bc8..e78c382 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -452,7 +452,8 @@ impl Display for RenderType<'_> {
                 if let Some(path) = path.last() {
                     write!(
                         f,
-                        "{path}.{}{}",
+                        "{}.{}{}",
+                        heck::AsSnakeCase(path),
                         heck::AsUpperCamelCase(name),
                         RenderGenericTypes(generics),
                     )
-- 
2.43.0


From 0799bf70f71388ffd4dfa74e5670aeb52e45a2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:03 +0000
Subject: [PATCH 37/43] fix: distinguish Go parameters and packages from
 keywords of the language

---
 crates/mabo-go/src/definition.rs | 55 +++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index e78c382..7cd57ff 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -113,7 +113,7 @@ impl Display for RenderPackage<'_> {
             )?;
         }
 
-        writeln!(f, "package {}\n", heck::AsSnakeCase(self.0))
+        writeln!(f, "package {}\n", RenderIdent(heck::AsSnakeCase(self.0)))
     }
 }
 
@@ -325,7 +325,7 @@ impl Display for RenderParameters<'_> {
             writeln!(
                 f,
                 "\t{} {},",
-                heck::AsLowerCamelCase(&field.name),
+                RenderIdent(heck::AsLowerCamelCase(&field.name)),
                 RenderType(&field.ty),
             )?;
         }
@@ -348,7 +348,7 @@ impl Display for RenderConstructor<'_> {
                     f,
                     "\t\t{}: {},",
                     heck::AsUpperCamelCase(&field.name),
-                    heck::AsLowerCamelCase(&field.name)
+                    RenderIdent(heck::AsLowerCamelCase(&field.name))
                 )?;
             }
 
@@ -357,6 +357,53 @@ impl Display for RenderConstructor<'_> {
     }
 }
 
+/// Identifiers that start with a lowercase letter and are therefore possibly a keyword of the _Go_
+/// language, in which case they're distinguished with a trailing underscore.
+struct RenderIdent<T>(T);
+
+impl<T> Display for RenderIdent<T>
+where
+    T: Display,
+{
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        let ident = self.0.to_string();
+        f.write_str(&ident)?;
+
+        if matches!(
+            ident.as_str(),
+            "break"
+                | "case"
+                | "chan"
+                | "const"
+                | "continue"
+                | "default"
+                | "defer"
+                | "else"
+                | "fallthrough"
+                | "for"
+                | "func"
+                | "go"
+                | "goto"
+                | "if"
+                | "import"
+                | "interface"
+                | "map"
+                | "package"
+                | "range"
+                | "return"
+                | "select"
+                | "struct"
+                | "switch"
+                | "type"
+                | "var"
+        ) {
+            f.write_char('_')?;
+        }
+
+        Ok(())
+    }
+}
+
 struct RenderAlias<'a>(&'a TypeAlias<'a>);
 
 impl Display for RenderAlias<'_> {
@@ -453,7 +500,7 @@ impl Display for RenderType<'_> {
                     write!(
                         f,
                         "{}.{}{}",
-                        heck::AsSnakeCase(path),
+                        RenderIdent(heck::AsSnakeCase(path)),
                         heck::AsUpperCamelCase(name),
                         RenderGenericTypes(generics),
                     )
-- 
2.43.0


From 4db8eb1eec11520fdda12b71e843cd870ee9db34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:06 +0000
Subject: [PATCH 38/43] fix: report schema files of the same name instead of
 overwriting the documentation of one

---
 crates/mabo-cli/src/main.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/mabo-cli/src/main.rs b/crates/mabo-cli/src/main.rs
index 7e8bd61..b46aea5 100644
--- a/crates/mabo-cli/src/main.rs
+++ b/crates/mabo-cli/src/main.rs
@@ -1,6 +1,7 @@
 //! Main command line interface for tooling support of Mabo schema files.
 
 use std::{
+    collections::HashMap,
     ffi::OsStr,
     fs,
     path::{Path, PathBuf},
@@ -128,6 +129,14 @@ fn format(args: FmtArgs) -> anyhow::Result<()> {
 
 fn doc(args: DocArgs) -> anyhow::Result<()> {
     let project = mabo_project::load(project_dir(args.project_dir)?)?;
+    let mut names = HashMap::new();
+
+    for file in &project.files {
+        // the pages of schemas with the same name would overwrite each other.
+        if let Some(other) = names.insert(file.file_stem(), file) {
+            bail!("schema files {other:?} and {file:?} have the same name");
+        }
+    }
 
     for file in project.files {
         let content = std::fs::read_to_string(&file)?;
-- 
2.43.0


From 7ff32e43a39a7783d73941220c82c72cd0543ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:13 +0000
Subject: [PATCH 39/43] fix: let types that contain themselves be decoded

The buffer type grew with every level of collection nesting, so that the
generated decoder of a recursive type couldn't be instantiated.
---
 crates/mabo/src/buf/decode.rs | 43 ++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index 0bafc28..b2fb30a 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -190,6 +190,17 @@ pub fn decode_bytes_bytes(r: &mut impl Buf) -> Result<Bytes> {
     Ok(r.copy_to_bytes(len as usize))
 }
 
+/// Buffer that is limited to the elements of a single collection.
+///
+/// It doesn't depend on the type of buffer the collection itself is read from. Otherwise, the type
+/// would grow with each level of nesting, without end for definitions that contain themselves.
+pub type Elements<'a> = bytes::buf::Take<&'a mut dyn Buf>;
+
+fn elements(r: &mut impl Buf, len: usize) -> Elements<'_> {
+    let r: &mut dyn Buf = r;
+    r.take(len)
+}
+
 /// Decode a Mabo `vec<T>` vector value.
 ///
 /// # Errors
@@ -199,13 +210,13 @@ pub fn decode_bytes_bytes(r: &mut impl Buf) -> Result<Bytes> {
 pub fn decode_vec<R, T, D>(r: &mut R, decode: D) -> Result<Vec<T>>
 where
     R: Buf,
-    D: Fn(&mut bytes::buf::Take<&mut R>) -> Result<T>,
+    D: Fn(&mut Elements<'_>) -> Result<T>,
 {
     let len = decode_u64(r)?;
     ensure_size!(r, len as usize);
 
     let mut vec = Vec::new();
-    let mut r = r.take(len as usize);
+    let mut r = elements(r, len as usize);
 
     while r.has_remaining() {
         vec.push(decode(&mut r)?);
@@ -228,14 +239,14 @@ pub fn decode_hash_map<R, K, V, DK, DV>(
 where
     R: Buf,
     K: Hash + Eq,
-    DK: Fn(&mut bytes::buf::Take<&mut R>) -> Result<K>,
-    DV: Fn(&mut bytes::buf::Take<&mut R>) -> Result<V>,
+    DK: Fn(&mut Elements<'_>) -> Result<K>,
+    DV: Fn(&mut Elements<'_>) -> Result<V>,
 {
     let len = decode_u64(r)?;
     ensure_size!(r, len as usize);
 
     let mut map = HashMap::new();
-    let mut r = r.take(len as usize);
+    let mut r = elements(r, len as usize);
 
     while r.has_remaining() {
         map.insert(decode_key(&mut r)?, decode_value(&mut r)?);
@@ -254,13 +265,13 @@ pub fn decode_hash_set<R, T, D>(r: &mut R, decode: D) -> Result<HashSet<T>>
 where
     R: Buf,
     T: Hash + Eq,
-    D: Fn(&mut bytes::buf::Take<&mut R>) -> Result<T>,
+    D: Fn(&mut Elements<'_>) -> Result<T>,
 {
     let len = decode_u64(r)?;
     ensure_size!(r, len as usize);
 
     let mut set = HashSet::new();
-    let mut r = r.take(len as usize);
+    let mut r = elements(r, len as usize);
 
     while r.has_remaining() {
         set.insert(decode(&mut r)?);
@@ -294,13 +305,13 @@ pub fn decode_array<const N: usize, R, T, D>(r: &mut R, decode: D) -> Result<[T;
 where
     R: Buf,
     T: Debug,
-    D: Fn(&mut bytes::buf::Take<&mut R>) -> Result<T>,
+    D: Fn(&mut Elements<'_>) -> Result<T>,
 {
     let len = decode_u64(r)?;
     ensure_size!(r, len as usize);
 
     let mut vec = Vec::new();
-    let mut r = r.take(len as usize);
+    let mut r = elements(r, len as usize);
 
     while r.has_remaining() && vec.len() < N {
         vec.push(decode(&mut r)?);
@@ -400,14 +411,14 @@ pub fn decode_non_zero_bytes_bytes(r: &mut impl Buf) -> Result<NonZero<Bytes>> {
 pub fn decode_non_zero_vec<R, T, D>(r: &mut R, decode: D) -> Result<NonZero<Vec<T>>>
 where
     R: Buf,
-    D: Fn(&mut bytes::buf::Take<&mut R>) -> Result<T>,
+    D: Fn(&mut Elements<'_>) -> Result<T>,
 {
     let len = decode_u64(r)?;
     ensure_not_empty!(len);
     ensure_size!(r, len as usize);
 
     let mut vec = Vec::new();
-    let mut r = r.take(len as usize);
+    let mut r = elements(r, len as usize);
 
     while r.has_remaining() {
         vec.push(decode(&mut r)?);
@@ -431,15 +442,15 @@ pub fn decode_non_zero_hash_map<R, K, V, DK, DV>(
 where
     R: Buf,
     K: Hash + Eq,
-    DK: Fn(&mut bytes::buf::Take<&mut R>) -> Result<K>,
-    DV: Fn(&mut bytes::buf::Take<&mut R>) -> Result<V>,
+    DK: Fn(&mut Elements<'_>) -> Result<K>,
+    DV: Fn(&mut Elements<'_>) -> Result<V>,
 {
     let len = decode_u64(r)?;
     ensure_not_empty!(len);
     ensure_size!(r, len as usize);
 
     let mut map = HashMap::new();
-    let mut r = r.take(len as usize);
+    let mut r = elements(r, len as usize);
 
     while r.has_remaining() {
         map.insert(decode_key(&mut r)?, decode_value(&mut r)?);
@@ -459,14 +470,14 @@ pub fn decode_non_zero_hash_set<R, T, D>(r: &mut R, decode: D) -> Result<NonZero
 where
     R: Buf,
     T: Hash + Eq,
-    D: Fn(&mut bytes::buf::Take<&mut R>) -> Result<T>,
+    D: Fn(&mut Elements<'_>) -> Result<T>,
 {
     let len = decode_u64(r)?;
     ensure_not_empty!(len);
     ensure_size!(r, len as usize);
 
     let mut set = HashSet::new();
-    let mut r = r.take(len as usize);
+    let mut r = elements(r, len as usize);
 
     while r.has_remaining() {
         set.insert(decode(&mut r)?);
-- 
2.43.0


From cfd7377750ad0a7d0360f5610f49f97fda82f4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:13 +0000
Subject: [PATCH 40/43] fix: stop decoding collections whose elements take up
 no space

The decoder never reached the announced end of the collection and kept
adding elements forever.
---
 crates/mabo/src/buf/decode.rs | 69 +++++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 24 deletions(-)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index b2fb30a..42e0291 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -201,6 +201,27 @@ fn elements(r: &mut impl Buf, len: usize) -> Elements<'_> {
     r.take(len)
 }
 
+/// Decode all elements of a collection, that takes up the next `len` bytes.
+fn decode_elements(
+    r: &mut impl Buf,
+    len: usize,
+    mut decode: impl FnMut(&mut Elements<'_>) -> Result<()>,
+) -> Result<()> {
+    let mut r = elements(r, len);
+
+    while r.has_remaining() {
+        let remaining = r.remaining();
+        decode(&mut r)?;
+
+        // elements that take up no space never reach the end of the collection.
+        if r.remaining() == remaining {
+            return Err(Error::InsufficientData);
+        }
+    }
+
+    Ok(())
+}
+
 /// Decode a Mabo `vec<T>` vector value.
 ///
 /// # Errors
@@ -216,11 +237,11 @@ where
     ensure_size!(r, len as usize);
 
     let mut vec = Vec::new();
-    let mut r = elements(r, len as usize);
 
-    while r.has_remaining() {
-        vec.push(decode(&mut r)?);
-    }
+    decode_elements(r, len as usize, |r| {
+        vec.push(decode(r)?);
+        Ok(())
+    })?;
 
     Ok(vec)
 }
@@ -246,11 +267,11 @@ where
     ensure_size!(r, len as usize);
 
     let mut map = HashMap::new();
-    let mut r = elements(r, len as usize);
 
-    while r.has_remaining() {
-        map.insert(decode_key(&mut r)?, decode_value(&mut r)?);
-    }
+    decode_elements(r, len as usize, |r| {
+        map.insert(decode_key(r)?, decode_value(r)?);
+        Ok(())
+    })?;
 
     Ok(map)
 }
@@ -271,11 +292,11 @@ where
     ensure_size!(r, len as usize);
 
     let mut set = HashSet::new();
-    let mut r = elements(r, len as usize);
 
-    while r.has_remaining() {
-        set.insert(decode(&mut r)?);
-    }
+    decode_elements(r, len as usize, |r| {
+        set.insert(decode(r)?);
+        Ok(())
+    })?;
 
     Ok(set)
 }
@@ -418,11 +439,11 @@ where
     ensure_size!(r, len as usize);
 
     let mut vec = Vec::new();
-    let mut r = elements(r, len as usize);
 
-    while r.has_remaining() {
-        vec.push(decode(&mut r)?);
-    }
+    decode_elements(r, len as usize, |r| {
+        vec.push(decode(r)?);
+        Ok(())
+    })?;
 
     Ok(NonZero::<Vec<_>>::new(vec).unwrap())
 }
@@ -450,11 +471,11 @@ where
     ensure_size!(r, len as usize);
 
     let mut map = HashMap::new();
-    let mut r = elements(r, len as usize);
 
-    while r.has_remaining() {
-        map.insert(decode_key(&mut r)?, decode_value(&mut r)?);
-    }
+    decode_elements(r, len as usize, |r| {
+        map.insert(decode_key(r)?, decode_value(r)?);
+        Ok(())
+    })?;
 
     Ok(NonZero::<HashMap<_, _>>::new(map).unwrap())
 }
@@ -477,11 +498,11 @@ where
     ensure_size!(r, len as usize);
 
     let mut set = HashSet::new();
-    let mut r = elements(r, len as usize);
 
-    while r.has_remaining() {
-        set.insert(decode(&mut r)?);
-    }
+    decode_elements(r, len as usize, |r| {
+        set.insert(decode(r)?);
+        Ok(())
+    })?;
 
     Ok(NonZero::<HashSet<_>>::new(set).unwrap())
 }
-- 
2.43.0


From 7953a6a1b0fd7e803f4adc12cb2e0aba4485c1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:13 +0000
Subject: [PATCH 41/43] fix: know the files of the workspace by their URI

They were stored under their bare path, that never matches the URI the
editor uses for the very same file.
---
 crates/mabo-lsp/src/handlers/mod.rs | 32 ++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/crates/mabo-lsp/src/handlers/mod.rs b/crates/mabo-lsp/src/handlers/mod.rs
index 4640608..e83cbf0 100644
--- a/crates/mabo-lsp/src/handlers/mod.rs
+++ b/crates/mabo-lsp/src/handlers/mod.rs
@@ -1,6 +1,6 @@
 #![expect(clippy::needless_pass_by_value, clippy::unnecessary_wraps)]
 
-use std::sync::LazyLock;
+use std::{fmt::Write, path::Path, sync::LazyLock};
 
 use anyhow::{Context, Result, ensure};
 use line_index::{LineIndex, TextRange};
@@ -33,6 +33,25 @@ mod hover;
 pub mod index;
 mod semantic_tokens;
 
+/// Turn the path of a file into the URI that clients use to refer to it.
+fn file_uri(path: &Path) -> Result<Uri> {
+    let path = path
+        .to_str()
+        .with_context(|| format!("path {path:?} is not valid UTF-8"))?;
+
+    let mut uri = "file://".to_owned();
+    for byte in path.bytes() {
+        match byte {
+            b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~' | b'/' => {
+                uri.push(byte.into());
+            }
+            _ => write!(uri, "%{byte:02X}")?,
+        }
+    }
+
+    uri.parse().map_err(Into::into)
+}
+
 pub fn initialize(
     state: &mut GlobalState<'_>,
     params: InitializeParams,
@@ -62,7 +81,10 @@ pub fn initialize(
         .workspace_folders
         .unwrap_or_default()
         .into_iter()
-        .filter_map(|root| mabo_project::discover(root.uri.path().as_str()).ok())
+        .filter_map(|root| {
+            let path = root.uri.path().as_estr().decode().into_string().ok()?;
+            mabo_project::discover(path.as_ref()).ok()
+        })
         .flatten();
 
     for path in projects
@@ -75,11 +97,7 @@ pub fn initialize(
             continue;
         };
 
-        let Ok(uri) = path
-            .to_str()
-            .with_context(|| format!("path {path:?} is not valid UTF-8"))
-            .and_then(|path| path.parse::<Uri>().map_err(Into::into))
-        else {
+        let Ok(uri) = file_uri(&path) else {
             error!(path:?; "failed parsing file path as URI");
             continue;
         };
-- 
2.43.0


From 787bb2c7ece489aee5ef26a6d862771c5d501c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:54 +0000
Subject: [PATCH 42/43] fix: let fields be named like the variables of the
 generated code

---
 crates/mabo-build/src/decode.rs     | 17 ++++++++++-------
 crates/mabo-build/src/definition.rs | 25 ++++++++++++++++++++++++-
 crates/mabo-build/src/encode.rs     | 13 ++++---------
 crates/mabo-build/src/size.rs       | 15 +++++----------
 4 files changed, 43 insertions(+), 27 deletions(-)

diff --git a/crates/mabo-build/src/decode.rs b/crates/mabo-build/src/decode.rs
index 5003ea1..a1f7712 100644
--- a/crates/mabo-build/src/decode.rs
+++ b/crates/mabo-build/src/decode.rs
@@ -4,6 +4,7 @@ use mabo_compiler::simplify::{
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::quote;
 
+use super::definition::{field_pattern, field_var};
 use crate::{BytesType, Opts};
 
 pub(super) fn compile_struct(
@@ -118,7 +119,7 @@ fn compile_variant(
 
 fn compile_field_vars(opts: &Opts, fields: &[Field<'_>]) -> TokenStream {
     let vars = fields.iter().map(|field| {
-        let name = Ident::new(&field.name, Span::call_site());
+        let name = field_var(&field.name);
         (name, &field.ty)
     });
 
@@ -138,7 +139,7 @@ fn compile_field_vars(opts: &Opts, fields: &[Field<'_>]) -> TokenStream {
 fn compile_field_matches(opts: &Opts, fields: &Fields<'_>) -> TokenStream {
     let calls = fields.fields.iter().map(|Field { name, ty, id, .. }| {
         let id = proc_macro2::Literal::u32_unsuffixed(*id);
-        let name = proc_macro2::Ident::new(name, Span::call_site());
+        let name = field_var(name);
         let ty = compile_data_type(opts, if let Type::Option(ty) = &ty { ty } else { ty }, true);
 
         quote! { #id => #name = Some(#ty?) }
@@ -148,28 +149,30 @@ fn compile_field_matches(opts: &Opts, fields: &Fields<'_>) -> TokenStream {
 }
 
 fn compile_field_assigns(fields: &Fields<'_>) -> TokenStream {
-    let assigns = fields.fields.iter().map(|Field { name, ty, id, .. }| {
+    let assigns = fields.fields.iter().map(|field| {
+        let Field { name, ty, id, .. } = field;
         let name_lit = if fields.kind == FieldKind::Named {
             let lit = proc_macro2::Literal::string(name);
             quote! { Some(#lit)}
         } else {
             quote! { None }
         };
-        let name = Ident::new(name, Span::call_site());
+        let var = field_var(name);
         let id = proc_macro2::Literal::u32_unsuffixed(*id);
 
         if matches!(ty, Type::Option(_)) {
-            quote! { #name }
+            field_pattern(field)
         } else if fields.kind == FieldKind::Named {
+            let name = Ident::new(name, Span::call_site());
             quote! {
-                #name: #name.ok_or(::mabo::buf::Error::MissingField {
+                #name: #var.ok_or(::mabo::buf::Error::MissingField {
                     id: #id,
                     name: #name_lit,
                 })?
             }
         } else {
             quote! {
-                #name.ok_or(::mabo::buf::Error::MissingField {
+                #var.ok_or(::mabo::buf::Error::MissingField {
                    id: #id,
                    name: #name_lit,
                })?
diff --git a/crates/mabo-build/src/definition.rs b/crates/mabo-build/src/definition.rs
index bc18889..3317e72 100644
--- a/crates/mabo-build/src/definition.rs
+++ b/crates/mabo-build/src/definition.rs
@@ -3,7 +3,7 @@ use mabo_compiler::simplify::{
     Schema, Struct, Type, TypeAlias, Variant,
 };
 use proc_macro2::{Ident, Span, TokenStream};
-use quote::{ToTokens, quote};
+use quote::{ToTokens, format_ident, quote};
 
 use super::{decode, encode, size};
 use crate::{BytesType, Opts};
@@ -313,6 +313,29 @@ fn compile_fields(opts: &Opts, fields: &Fields<'_>, for_struct: bool) -> TokenSt
     }
 }
 
+/// Name of the variable for the value of a field.
+///
+/// Those named like a variable of the surrounding code get an underscore in front, which the names
+/// of fields can't start with.
+pub(super) fn field_var(name: &str) -> Ident {
+    match name {
+        "id" | "r" | "w" => format_ident!("_{name}"),
+        _ => Ident::new(name, Span::call_site()),
+    }
+}
+
+/// Pattern that binds a field to its variable.
+pub(super) fn field_pattern(field: &Field<'_>) -> TokenStream {
+    let name = Ident::new(&field.name, Span::call_site());
+    let var = field_var(&field.name);
+
+    if name == var {
+        quote! { #name }
+    } else {
+        quote! { #name: #var }
+    }
+}
+
 pub(super) fn compile_data_type(opts: &Opts, ty: &Type<'_>) -> TokenStream {
     match &ty {
         Type::Bool => quote! { bool },
diff --git a/crates/mabo-build/src/encode.rs b/crates/mabo-build/src/encode.rs
index 8371489..c679b6a 100644
--- a/crates/mabo-build/src/encode.rs
+++ b/crates/mabo-build/src/encode.rs
@@ -2,6 +2,7 @@ use mabo_compiler::simplify::{Enum, Field, FieldKind, Fields, Struct, Type, Vari
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{ToTokens, quote};
 
+use super::definition::{field_pattern, field_var};
 use crate::{BytesType, Opts};
 
 pub(super) fn compile_struct(
@@ -13,10 +14,7 @@ pub(super) fn compile_struct(
         ..
     }: &Struct<'_>,
 ) -> TokenStream {
-    let names = fields
-        .fields
-        .iter()
-        .map(|field| Ident::new(&field.name, Span::call_site()));
+    let names = fields.fields.iter().map(field_pattern);
     let names = match fields.kind {
         FieldKind::Named => quote! { {#(#names,)*} },
         FieldKind::Unnamed => quote! { (#(#names,)*) },
@@ -86,10 +84,7 @@ fn compile_variant(
     let id = quote! { ::mabo::VariantId::new(#id) };
     let name = Ident::new(name, Span::call_site());
     let fields_body = compile_fields(opts, fields);
-    let field_names = fields
-        .fields
-        .iter()
-        .map(|field| Ident::new(&field.name, Span::call_site()));
+    let field_names = fields.fields.iter().map(field_pattern);
 
     match fields.kind {
         FieldKind::Named => quote! {
@@ -118,7 +113,7 @@ fn compile_fields(opts: &Opts, fields: &Fields<'_>) -> TokenStream {
     } else {
         let calls = fields.fields.iter().map(|Field { name, ty, id, .. }| {
             let id = proc_macro2::Literal::u32_unsuffixed(*id);
-            let name = proc_macro2::Ident::new(name, Span::call_site());
+            let name = field_var(name);
 
             if let Type::Option(ty) = &ty {
                 let (enc, ty) = compile_data_type(opts, ty, quote! { v }, true);
diff --git a/crates/mabo-build/src/size.rs b/crates/mabo-build/src/size.rs
index 766e0dc..2156e1c 100644
--- a/crates/mabo-build/src/size.rs
+++ b/crates/mabo-build/src/size.rs
@@ -2,6 +2,7 @@ use mabo_compiler::simplify::{Enum, Field, FieldKind, Fields, Struct, Type, Vari
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{ToTokens, quote};
 
+use super::definition::{field_pattern, field_var};
 use crate::{BytesType, Opts};
 
 pub(super) fn compile_struct(
@@ -13,10 +14,7 @@ pub(super) fn compile_struct(
         ..
     }: &Struct<'_>,
 ) -> TokenStream {
-    let names = fields
-        .fields
-        .iter()
-        .map(|field| Ident::new(&field.name, Span::call_site()));
+    let names = fields.fields.iter().map(field_pattern);
     let names = match fields.kind {
         FieldKind::Named => quote! { {#(#names,)*} },
         FieldKind::Unnamed => quote! { (#(#names,)*) },
@@ -51,7 +49,7 @@ fn compile_struct_fields(opts: &Opts, fields: &Fields<'_>) -> TokenStream {
     } else {
         let calls = fields.fields.iter().map(|Field { name, ty, id, .. }| {
             let id = proc_macro2::Literal::u32_unsuffixed(*id);
-            let name = proc_macro2::Ident::new(name, Span::call_site());
+            let name = field_var(name);
 
             if let Type::Option(ty) = &ty {
                 let ty = compile_data_type(opts, ty, quote! { v });
@@ -115,10 +113,7 @@ fn compile_variant(
     let id = proc_macro2::Literal::u32_unsuffixed(*id);
     let name = Ident::new(name, Span::call_site());
     let fields_body = compile_variant_fields(opts, fields);
-    let field_names = fields
-        .fields
-        .iter()
-        .map(|field| Ident::new(&field.name, Span::call_site()));
+    let field_names = fields.fields.iter().map(field_pattern);
 
     match fields.kind {
         FieldKind::Named => quote! {
@@ -147,7 +142,7 @@ fn compile_variant_fields(opts: &Opts, fields: &Fields<'_>) -> TokenStream {
     } else {
         let calls = fields.fields.iter().map(|Field { name, ty, id, .. }| {
             let id = proc_macro2::Literal::u32_unsuffixed(*id);
-            let name = proc_macro2::Ident::new(name, Span::call_site());
+            let name = field_var(name);
 
             if let Type::Option(ty) = &ty {
                 let ty = compile_data_type(opts, ty, quote! { v });
-- 
2.43.0


From cd2dbdabb6a97268e4cefc32f23b48d2d35ef19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:54 +0000
Subject: [PATCH 43/43] fix: let fields and modules be named like Rust keywords

---
 crates/mabo-build/src/decode.rs     |  6 +++---
 crates/mabo-build/src/definition.rs | 33 +++++++++++++++++++++--------
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/crates/mabo-build/src/decode.rs b/crates/mabo-build/src/decode.rs
index a1f7712..a5464af 100644
--- a/crates/mabo-build/src/decode.rs
+++ b/crates/mabo-build/src/decode.rs
@@ -4,7 +4,7 @@ use mabo_compiler::simplify::{
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::quote;
 
-use super::definition::{field_pattern, field_var};
+use super::definition::{field_pattern, field_var, ident};
 use crate::{BytesType, Opts};
 
 pub(super) fn compile_struct(
@@ -163,7 +163,7 @@ fn compile_field_assigns(fields: &Fields<'_>) -> TokenStream {
         if matches!(ty, Type::Option(_)) {
             field_pattern(field)
         } else if fields.kind == FieldKind::Named {
-            let name = Ident::new(name, Span::call_site());
+            let name = ident(name);
             quote! {
                 #name: #var.ok_or(::mabo::buf::Error::MissingField {
                     id: #id,
@@ -298,7 +298,7 @@ fn compile_data_type(opts: &Opts, ty: &Type<'_>, root: bool) -> TokenStream {
             name,
             generics,
         }) => {
-            let path = path.iter().map(|part| Ident::new(part, Span::call_site()));
+            let path = path.iter().map(|part| ident(part));
             let ty = Ident::new(name, Span::call_site());
             let generics = (!generics.is_empty()).then(|| {
                 let types = generics
diff --git a/crates/mabo-build/src/definition.rs b/crates/mabo-build/src/definition.rs
index 3317e72..9bc38a2 100644
--- a/crates/mabo-build/src/definition.rs
+++ b/crates/mabo-build/src/definition.rs
@@ -76,7 +76,7 @@ fn compile_module(
     imports: &[&str],
 ) -> TokenStream {
     let comment = compile_comment(comment);
-    let name = Ident::new(name, Span::call_site());
+    let name = ident(name);
 
     // imports of the surrounding modules are available as well, unless hidden by a local name.
     let outer = imports
@@ -91,9 +91,7 @@ fn compile_module(
     let mut imports = imported_names(definitions);
     imports.extend(&outer);
 
-    let outer = outer
-        .into_iter()
-        .map(|name| Ident::new(name, Span::call_site()));
+    let outer = outer.into_iter().map(ident);
     let definitions = definitions
         .iter()
         .map(|def| compile_definition(opts, def, depth + 1, &imports));
@@ -254,7 +252,7 @@ fn compile_import(
     // one additional step up for each module that surrounds the import.
     let outer = std::iter::repeat_n(quote! { super:: }, depth);
     let segments = segments.iter().enumerate().map(|(i, segment)| {
-        let segment = Ident::new(segment, Span::call_site());
+        let segment = ident(segment);
         if i > 0 {
             quote! {::#segment}
         } else {
@@ -294,7 +292,7 @@ fn compile_fields(opts: &Opts, fields: &Fields<'_>, for_struct: bool) -> TokenSt
 
             if fields.kind == FieldKind::Named {
                 let comment = compile_comment(comment);
-                let name = Ident::new(name, Span::call_site());
+                let name = ident(name);
 
                 quote! {
                     #comment
@@ -313,6 +311,23 @@ fn compile_fields(opts: &Opts, fields: &Fields<'_>, for_struct: bool) -> TokenSt
     }
 }
 
+/// Identifier for the name of a field or module, which might be a keyword in Rust.
+///
+/// The few that aren't available as raw identifier get an underscore in front instead, which the
+/// names themselves can't start with.
+pub(super) fn ident(name: &str) -> Ident {
+    match name {
+        "crate" | "self" | "super" => format_ident!("_{name}"),
+        "abstract" | "as" | "async" | "await" | "become" | "box" | "break" | "const"
+        | "continue" | "do" | "dyn" | "else" | "enum" | "extern" | "false" | "final" | "fn"
+        | "for" | "gen" | "if" | "impl" | "in" | "let" | "loop" | "macro" | "match" | "mod"
+        | "move" | "mut" | "override" | "priv" | "pub" | "ref" | "return" | "static" | "struct"
+        | "trait" | "true" | "try" | "type" | "typeof" | "unsafe" | "unsized" | "use"
+        | "virtual" | "where" | "while" | "yield" => Ident::new_raw(name, Span::call_site()),
+        _ => Ident::new(name, Span::call_site()),
+    }
+}
+
 /// Name of the variable for the value of a field.
 ///
 /// Those named like a variable of the surrounding code get an underscore in front, which the names
@@ -320,13 +335,13 @@ fn compile_fields(opts: &Opts, fields: &Fields<'_>, for_struct: bool) -> TokenSt
 pub(super) fn field_var(name: &str) -> Ident {
     match name {
         "id" | "r" | "w" => format_ident!("_{name}"),
-        _ => Ident::new(name, Span::call_site()),
+        _ => ident(name),
     }
 }
 
 /// Pattern that binds a field to its variable.
 pub(super) fn field_pattern(field: &Field<'_>) -> TokenStream {
-    let name = Ident::new(&field.name, Span::call_site());
+    let name = ident(&field.name);
     let var = field_var(&field.name);
 
     if name == var {
@@ -420,7 +435,7 @@ pub(super) fn compile_data_type(opts: &Opts, ty: &Type<'_>) -> TokenStream {
             name,
             generics,
         }) => {
-            let path = path.iter().map(|part| Ident::new(part, Span::call_site()));
+            let path = path.iter().map(|part| ident(part));
             let name = Ident::new(name, Span::call_site());
             let generics = (!generics.is_empty()).then(|| {
                 let types = generics.iter().map(|ty| compile_data_type(opts, ty));
-- 
2.43.0

