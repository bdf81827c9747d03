From 6fee6a35d6393031d8bb24ce3ff9895eaed2d4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:32 +0000
Subject: [PATCH 01/17] fix: reject all surrogate code points when decoding
 char

---
 oct/src/decode/decode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/decode/decode/mod.rs b/oct/src/decode/decode/mod.rs
index 6fc748d..b192e85 100644
--- a/oct/src/decode/decode/mod.rs
+++ b/oct/src/decode/decode/mod.rs
@@ -245,7 +245,7 @@ impl Decode for char {
 		let Ok(code_point) = u32::decode(input);
 
 		match code_point {
-			code_point @ (0x0000..=0xD7FF | 0xDE00..=0x10FFFF) => {
+			code_point @ (0x0000..=0xD7FF | 0xE000..=0x10FFFF) => {
 				let this = unsafe { Self::from_u32_unchecked(code_point) };
 				Result::Ok(this)
 			},
-- 
2.43.0


From fd8b0a7eadcdce687a3aa6e5fa0cf4ae3350ff6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:32 +0000
Subject: [PATCH 02/17] fix: encode the length of hash maps and hash sets

---
 oct/src/encode/encode/mod.rs | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/oct/src/encode/encode/mod.rs b/oct/src/encode/encode/mod.rs
index 37c61e4..cac1c1e 100644
--- a/oct/src/encode/encode/mod.rs
+++ b/oct/src/encode/encode/mod.rs
@@ -343,13 +343,24 @@ where
 	V: Encode<Error = E>,
 	S: BuildHasher,
 {
-	type Error = E;
+	type Error = CollectionEncodeError<UsizeEncodeError, ItemEncodeError<usize, E>>;
 
+	/// Encodes each key-value pair sequentially with an extra length specifier (of type [`usize`]) prepended first.
 	#[inline(always)]
 	fn encode(&self, output: &mut Output) -> Result<(), Self::Error> {
-		for (key, value) in self {
-			key.encode(output)?;
-			value.encode(output)?;
+		self
+			.len()
+			.encode(output)
+			.map_err(CollectionEncodeError::BadLength)?;
+
+		for (i, (key, value)) in self.iter().enumerate() {
+			key
+				.encode(output)
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
+
+			value
+				.encode(output)
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
 		}
 
 		Result::Ok(())
@@ -363,12 +374,20 @@ where
 	K: Encode,
 	S: BuildHasher,
 {
-	type Error = K::Error;
+	type Error = CollectionEncodeError<UsizeEncodeError, ItemEncodeError<usize, K::Error>>;
 
+	/// Encodes each key sequentially with an extra length specifier (of type [`usize`]) prepended first.
 	#[inline(always)]
 	fn encode(&self, output: &mut Output) -> Result<(), Self::Error> {
-		for key in self {
-			key.encode(output)?;
+		self
+			.len()
+			.encode(output)
+			.map_err(CollectionEncodeError::BadLength)?;
+
+		for (i, key) in self.iter().enumerate() {
+			key
+				.encode(output)
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
 		}
 
 		Result::Ok(())
-- 
2.43.0


From 3d1c1fff49a97c3c29f56049ffe51f799e46f107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:32 +0000
Subject: [PATCH 03/17] fix: only decode as many elements as a sized slice
 holds

---
 oct/src/sized_slice/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/code.rs b/oct/src/sized_slice/code.rs
index 2df99a7..608035c 100644
--- a/oct/src/sized_slice/code.rs
+++ b/oct/src/sized_slice/code.rs
@@ -36,7 +36,7 @@ impl<T: Decode, const N: usize> Decode for SizedSlice<T, N> {
 
 		let mut buf = [const { MaybeUninit::<T>::uninit() };N];
 
-		for (i, slot) in buf.iter_mut().enumerate() {
+		for (i, slot) in buf.iter_mut().enumerate().take(len) {
 			let v = Decode::decode(input)
 				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;
 
-- 
2.43.0


From 5fb19c0bf2e33e2415e7ecb2467dd6e7cf174e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:32 +0000
Subject: [PATCH 04/17] fix: include the length specifier in the size bound of
 sized slices

---
 oct/src/sized_slice/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/code.rs b/oct/src/sized_slice/code.rs
index 608035c..b699509 100644
--- a/oct/src/sized_slice/code.rs
+++ b/oct/src/sized_slice/code.rs
@@ -59,5 +59,5 @@ impl<T: Encode, const N: usize> Encode for SizedSlice<T, N> {
 }
 
 impl<T: SizedEncode, const N: usize> SizedEncode for SizedSlice<T, N> {
-	const MAX_ENCODED_SIZE: usize = T::MAX_ENCODED_SIZE * N;
+	const MAX_ENCODED_SIZE: usize = usize::MAX_ENCODED_SIZE + T::MAX_ENCODED_SIZE * N;
 }
-- 
2.43.0


From 730e99291f8f3a902e7a4316bbe62333a2bce37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:32 +0000
Subject: [PATCH 05/17] fix: bound results by the encoded size of their arms

---
 oct/src/encode/sized_encode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/encode/sized_encode/mod.rs b/oct/src/encode/sized_encode/mod.rs
index 9aef887..6c60dab 100644
--- a/oct/src/encode/sized_encode/mod.rs
+++ b/oct/src/encode/sized_encode/mod.rs
@@ -232,7 +232,7 @@ where
 {
 	const MAX_ENCODED_SIZE: usize =
 		bool::MAX_ENCODED_SIZE
-		+ if size_of::<T>() > size_of::<E>() { size_of::<T>() } else { size_of::<E>() };
+		+ if T::MAX_ENCODED_SIZE > E::MAX_ENCODED_SIZE { T::MAX_ENCODED_SIZE } else { E::MAX_ENCODED_SIZE };
 }
 
 #[cfg(feature = "std")]
-- 
2.43.0


From 33270139f5b9062f355f287cae6b377f2be84130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:32 +0000
Subject: [PATCH 06/17] fix: only read the used part of a slot

---
 oct/src/slot/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/slot/mod.rs b/oct/src/slot/mod.rs
index 0acf598..4c96d82 100644
--- a/oct/src/slot/mod.rs
+++ b/oct/src/slot/mod.rs
@@ -296,7 +296,7 @@ impl<T: Decode> Slot<T> {
 		// We should only pass the used part of the slot to
 		// `decode`.
 
-		let mut stream = Input::new(&self.buf);
+		let mut stream = Input::new(self.as_slice());
 
 		let value = Decode::decode(&mut stream)?;
 		Ok(value)
-- 
2.43.0


From d536a83f5c8c7a4c88bb2de860de7f4eec01a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:33 +0000
Subject: [PATCH 07/17] fix: report the remaining length in the size hint of
 sized iterators

---
 oct/src/sized_iter/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/oct/src/sized_iter/mod.rs b/oct/src/sized_iter/mod.rs
index 493e37c..a724ef8 100644
--- a/oct/src/sized_iter/mod.rs
+++ b/oct/src/sized_iter/mod.rs
@@ -176,8 +176,6 @@ impl<T, const N: usize> Iterator for SizedIter<T, N> {
 
 	#[inline(always)]
 	fn size_hint(&self) -> (usize, Option<usize>) {
-		let rem = unsafe { self.len.unchecked_sub(self.pos) };
-
-		(rem, Some(rem))
+		(self.len, Some(self.len))
 	}
 }
-- 
2.43.0


From eec2a1e4566367eb62c77e047b8beb398e5e5a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:33 +0000
Subject: [PATCH 08/17] fix: check the length of slices copied into sized
 slices

---
 oct/src/sized_slice/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oct/src/sized_slice/mod.rs b/oct/src/sized_slice/mod.rs
index b0884b9..d6a7d68 100644
--- a/oct/src/sized_slice/mod.rs
+++ b/oct/src/sized_slice/mod.rs
@@ -77,11 +77,17 @@ pub struct SizedSlice<T, const N: usize> {
 
 impl<T, const N: usize> SizedSlice<T, N> {
 	/// Copies elements from a slice.
+	///
+	/// # Panics
+	///
+	/// Panics if `data` contains more elements than there is capacity for.
 	#[inline]
 	pub const fn copy_from_slice(&mut self, data: &[T])
 	where
 		T: Copy,
 	{
+		assert!(data.len() <= N, "cannot copy from slice that is longer than the capacity");
+
 		unsafe {
 			let src  = data.as_ptr();
 			let dst   = self.buf.as_mut_ptr().cast();
-- 
2.43.0


From 58a4ab5b7b80626fdb9744574598e6cdadd8dd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:33 +0000
Subject: [PATCH 09/17] fix: do not drop arrays that have been moved into sized
 slices

---
 oct/src/sized_slice/conv.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/conv.rs b/oct/src/sized_slice/conv.rs
index dad9071..2553beb 100644
--- a/oct/src/sized_slice/conv.rs
+++ b/oct/src/sized_slice/conv.rs
@@ -23,7 +23,7 @@ use crate::SizedSlice;
 use crate::error::LengthError;
 
 use core::borrow::{Borrow, BorrowMut};
-use core::mem::MaybeUninit;
+use core::mem::{ManuallyDrop, MaybeUninit};
 use core::ops::{Deref, DerefMut};
 use core::ptr::copy_nonoverlapping;
 use core::slice;
@@ -194,6 +194,9 @@ impl<T, const N: usize> DerefMut for SizedSlice<T, N> {
 impl<T, const N: usize> From<[T; N]> for SizedSlice<T, N> {
 	#[inline(always)]
 	fn from(value: [T; N]) -> Self {
+		let value = ManuallyDrop::new(value);
+
+		// SAFETY: The original array is not dropped.
 		unsafe {
 			let buf = value.as_ptr().cast::<[MaybeUninit<T>; N]>().read();
 
-- 
2.43.0


From f2323ab2ecdb5614cd5f03abbc0d4da504766e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:32 +0000
Subject: [PATCH 10/17] fix: do not allocate zero-sized layouts when boxing
 sized slices

---
 oct/src/sized_slice/conv.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/oct/src/sized_slice/conv.rs b/oct/src/sized_slice/conv.rs
index 2553beb..c2b85cd 100644
--- a/oct/src/sized_slice/conv.rs
+++ b/oct/src/sized_slice/conv.rs
@@ -25,11 +25,10 @@ use crate::error::LengthError;
 use core::borrow::{Borrow, BorrowMut};
 use core::mem::{ManuallyDrop, MaybeUninit};
 use core::ops::{Deref, DerefMut};
-use core::ptr::copy_nonoverlapping;
 use core::slice;
 
 #[cfg(feature = "alloc")]
-use alloc::alloc::{alloc, Layout};
+use core::ptr::copy_nonoverlapping;
 
 #[cfg(feature = "alloc")]
 use alloc::boxed::Box;
@@ -119,20 +118,18 @@ impl<T, const N: usize> SizedSlice<T, N> {
 	pub fn into_boxed_slice(self) -> Box<[T]> {
 		let (buf, len) = self.into_raw_parts();
 
-		unsafe {
-			let layout = Layout::array::<T>(len).unwrap();
-			let ptr = alloc(layout).cast::<T>();
-
-			assert!(!ptr.is_null(), "allocation failed");
+		let mut vec = Vec::<T>::with_capacity(len);
 
-			copy_nonoverlapping(buf.as_ptr().cast(), ptr, len);
-
-			let slice = core::ptr::slice_from_raw_parts_mut(ptr, len);
-			Box::from_raw(slice)
+		unsafe {
+			copy_nonoverlapping(buf.as_ptr().cast(), vec.as_mut_ptr(), len);
 
-			// `self.buf` is dropped without destructors being
-			// run.
+			// SAFETY: The elements have been moved into the
+			// vector. `buf` is dropped without destructors be-
+			// ing run.
+			vec.set_len(len);
 		}
+
+		vec.into_boxed_slice()
 	}
 
 	/// Converts the vector into a dynamic vector.
-- 
2.43.0


From f4005ccf49d091c0f4b1673fea08dc1b6d8883da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:32 +0000
Subject: [PATCH 11/17] fix: initialise the entire buffer of default and cloned
 sized strings

---
 oct/src/sized_str/mod.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_str/mod.rs b/oct/src/sized_str/mod.rs
index 09b3044..7e031cb 100644
--- a/oct/src/sized_str/mod.rs
+++ b/oct/src/sized_str/mod.rs
@@ -71,7 +71,6 @@ mod conv;
 /// assert_eq!(size_of_val(&str1), size_of_val(&str3));
 /// assert_eq!(size_of_val(&str2), size_of_val(&str3));
 /// ```
-#[derive(Clone, Default)]
 pub struct SizedStr<const N: usize>(SizedSlice<u8, N>);
 
 impl<const N: usize> SizedStr<N> {
@@ -135,6 +134,17 @@ impl<const N: usize> SizedStr<N> {
 	}
 }
 
+impl<const N: usize> Clone for SizedStr<N> {
+	#[inline(always)]
+	fn clone(&self) -> Self {
+		// We must initialise the entire buffer, as guaran-
+		// teed by `into_raw_parts`.
+
+		// SAFETY: `self` only contains valid octets.
+		unsafe { Self::from_utf8_unchecked(self.as_bytes()) }
+	}
+}
+
 impl<const N: usize> Debug for SizedStr<N> {
 	#[inline(always)]
 	fn fmt(&self, f: &mut Formatter) -> fmt::Result {
@@ -142,6 +152,14 @@ impl<const N: usize> Debug for SizedStr<N> {
 	}
 }
 
+impl<const N: usize> Default for SizedStr<N> {
+	#[inline(always)]
+	fn default() -> Self {
+		// SAFETY: The resulting string is empty.
+		unsafe { Self::from_raw_parts([0x00; N], 0x0) }
+	}
+}
+
 impl<const N: usize> Display for SizedStr<N> {
 	#[inline(always)]
 	fn fmt(&self, f: &mut Formatter) -> fmt::Result {
-- 
2.43.0


From abd57d188af0f6639c33f2f2b36b9cc9f5d0acaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:32 +0000
Subject: [PATCH 12/17] fix: hash sized slices like slices

---
 oct/src/sized_slice/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/oct/src/sized_slice/mod.rs b/oct/src/sized_slice/mod.rs
index d6a7d68..256da2b 100644
--- a/oct/src/sized_slice/mod.rs
+++ b/oct/src/sized_slice/mod.rs
@@ -260,9 +260,7 @@ impl<T, const N: usize> Default for SizedSlice<T, N> {
 impl<T: Hash, const N: usize> Hash for SizedSlice<T, N> {
 	#[inline(always)]
 	fn hash<H: Hasher>(&self, state: &mut H) {
-		for v in self {
-			v.hash(state);
-		}
+		self.as_slice().hash(state);
 	}
 }
 
-- 
2.43.0


From 35810064f57f14eddbc630dcf49d76a105479d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:32 +0000
Subject: [PATCH 13/17] fix: encode the earliest system time without
 overflowing

---
 oct/src/encode/encode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/encode/encode/mod.rs b/oct/src/encode/encode/mod.rs
index cac1c1e..b7fe86e 100644
--- a/oct/src/encode/encode/mod.rs
+++ b/oct/src/encode/encode/mod.rs
@@ -819,7 +819,7 @@ impl Encode for SystemTime {
 				.duration_since(*self)
 				.expect("cannot compute duration until the epoch");
 
-			0x0 - duration.as_secs() as i64
+			(duration.as_secs() as i64).wrapping_neg()
 		};
 
 		time.encode(output)?;
-- 
2.43.0


From 8a21e5b78a8b0d0d37e9109657013c70c4f5a637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:32 +0000
Subject: [PATCH 14/17] fix: zero-extend signed discriminants

---
 oct/src/primitive_discriminant/mod.rs | 28 +++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/oct/src/primitive_discriminant/mod.rs b/oct/src/primitive_discriminant/mod.rs
index ff4b75c..c6b8138 100644
--- a/oct/src/primitive_discriminant/mod.rs
+++ b/oct/src/primitive_discriminant/mod.rs
@@ -45,12 +45,12 @@ pub(crate) use sealed::PrimitiveDiscriminant as SealedPrimitiveDiscriminant;
 pub trait PrimitiveDiscriminant: Copy + SealedPrimitiveDiscriminant + Sized { }
 
 macro_rules! impl_primitive_discriminant {
-	($ty:ty) => {
+	($ty:ty: $unsigned:ty) => {
 		impl ::oct::SealedPrimitiveDiscriminant for $ty {
 			#[allow(clippy::cast_lossless)]
 			#[inline(always)]
 			fn to_u128(self) -> u128 {
-				self as u128
+				self as $unsigned as u128
 			}
 		}
 
@@ -58,15 +58,15 @@ macro_rules! impl_primitive_discriminant {
 	};
 }
 
-impl_primitive_discriminant!(u8);
-impl_primitive_discriminant!(i8);
-impl_primitive_discriminant!(u16);
-impl_primitive_discriminant!(i16);
-impl_primitive_discriminant!(u32);
-impl_primitive_discriminant!(i32);
-impl_primitive_discriminant!(u64);
-impl_primitive_discriminant!(i64);
-impl_primitive_discriminant!(u128);
-impl_primitive_discriminant!(i128);
-impl_primitive_discriminant!(usize);
-impl_primitive_discriminant!(isize);
+impl_primitive_discriminant!(u8: u8);
+impl_primitive_discriminant!(i8: u8);
+impl_primitive_discriminant!(u16: u16);
+impl_primitive_discriminant!(i16: u16);
+impl_primitive_discriminant!(u32: u32);
+impl_primitive_discriminant!(i32: u32);
+impl_primitive_discriminant!(u64: u64);
+impl_primitive_discriminant!(i64: u64);
+impl_primitive_discriminant!(u128: u128);
+impl_primitive_discriminant!(i128: u128);
+impl_primitive_discriminant!(usize: usize);
+impl_primitive_discriminant!(isize: usize);
-- 
2.43.0


From 41cf38224936d35f1e75bc7ca9eaf2ba089fea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:32 +0000
Subject: [PATCH 15/17] fix: build without the `alloc` and `std` features

---
 oct/src/decode/decode/mod.rs          | 26 ++++++++++++++------------
 oct/src/encode/encode/mod.rs          | 24 ++++++++++++------------
 oct/src/encode/sized_encode/mod.rs    | 22 +++++++++++-----------
 oct/src/error/generic_decode_error.rs |  7 ++++---
 4 files changed, 41 insertions(+), 38 deletions(-)

diff --git a/oct/src/decode/decode/mod.rs b/oct/src/decode/decode/mod.rs
index b192e85..eb00c82 100644
--- a/oct/src/decode/decode/mod.rs
+++ b/oct/src/decode/decode/mod.rs
@@ -24,7 +24,6 @@ mod tests;
 
 use crate::decode::{DecodeBorrowed, Input};
 use crate::error::{
-	CStringDecodeError,
 	CharDecodeError,
 	CollectionDecodeError,
 	EnumDecodeError,
@@ -33,6 +32,9 @@ use crate::error::{
 	Utf8Error,
 };
 
+#[cfg(feature = "alloc")]
+use crate::error::CStringDecodeError;
+
 use core::cell::{Cell, RefCell};
 use core::convert::Infallible;
 use core::hash::Hash;
@@ -1043,65 +1045,65 @@ impl_non_zero!(usize);
 impl_atomic! {
 	width: "8",
 	ty: bool,
-	atomic_ty: std::sync::atomic::AtomicBool,
+	atomic_ty: core::sync::atomic::AtomicBool,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: i16,
-	atomic_ty: std::sync::atomic::AtomicI16,
+	atomic_ty: core::sync::atomic::AtomicI16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: i32,
-	atomic_ty: std::sync::atomic::AtomicI32,
+	atomic_ty: core::sync::atomic::AtomicI32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: i64,
-	atomic_ty: std::sync::atomic::AtomicI64,
+	atomic_ty: core::sync::atomic::AtomicI64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: i8,
-	atomic_ty: std::sync::atomic::AtomicI8,
+	atomic_ty: core::sync::atomic::AtomicI8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: isize,
-	atomic_ty: std::sync::atomic::AtomicIsize,
+	atomic_ty: core::sync::atomic::AtomicIsize,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: u16,
-	atomic_ty: std::sync::atomic::AtomicU16,
+	atomic_ty: core::sync::atomic::AtomicU16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: u32,
-	atomic_ty: std::sync::atomic::AtomicU32,
+	atomic_ty: core::sync::atomic::AtomicU32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: u64,
-	atomic_ty: std::sync::atomic::AtomicU64,
+	atomic_ty: core::sync::atomic::AtomicU64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: u8,
-	atomic_ty: std::sync::atomic::AtomicU8,
+	atomic_ty: core::sync::atomic::AtomicU8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: usize,
-	atomic_ty: std::sync::atomic::AtomicUsize,
+	atomic_ty: core::sync::atomic::AtomicUsize,
 }
diff --git a/oct/src/encode/encode/mod.rs b/oct/src/encode/encode/mod.rs
index b7fe86e..aa02624 100644
--- a/oct/src/encode/encode/mod.rs
+++ b/oct/src/encode/encode/mod.rs
@@ -938,7 +938,7 @@ macro_rules! impl_atomic {
 			/// The atomic object itself is read with the [`Relaxed`](core::sync::atomic::Ordering) ordering scheme.
 			#[inline(always)]
 			fn encode(&self, output: &mut ::oct::encode::Output) -> ::core::result::Result<(), Self::Error> {
-				use ::std::sync::atomic::Ordering;
+				use ::core::sync::atomic::Ordering;
 
 				self.load(Ordering::Relaxed).encode(output)
 			}
@@ -1087,65 +1087,65 @@ impl_non_zero!(usize);
 impl_atomic! {
 	width: "8",
 	ty: bool,
-	atomic_ty: std::sync::atomic::AtomicBool,
+	atomic_ty: core::sync::atomic::AtomicBool,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: i16,
-	atomic_ty: std::sync::atomic::AtomicI16,
+	atomic_ty: core::sync::atomic::AtomicI16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: i32,
-	atomic_ty: std::sync::atomic::AtomicI32,
+	atomic_ty: core::sync::atomic::AtomicI32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: i64,
-	atomic_ty: std::sync::atomic::AtomicI64,
+	atomic_ty: core::sync::atomic::AtomicI64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: i8,
-	atomic_ty: std::sync::atomic::AtomicI8,
+	atomic_ty: core::sync::atomic::AtomicI8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: isize,
-	atomic_ty: std::sync::atomic::AtomicIsize,
+	atomic_ty: core::sync::atomic::AtomicIsize,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: u16,
-	atomic_ty: std::sync::atomic::AtomicU16,
+	atomic_ty: core::sync::atomic::AtomicU16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: u32,
-	atomic_ty: std::sync::atomic::AtomicU32,
+	atomic_ty: core::sync::atomic::AtomicU32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: u64,
-	atomic_ty: std::sync::atomic::AtomicU64,
+	atomic_ty: core::sync::atomic::AtomicU64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: u8,
-	atomic_ty: std::sync::atomic::AtomicU8,
+	atomic_ty: core::sync::atomic::AtomicU8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: usize,
-	atomic_ty: std::sync::atomic::AtomicUsize,
+	atomic_ty: core::sync::atomic::AtomicUsize,
 }
diff --git a/oct/src/encode/sized_encode/mod.rs b/oct/src/encode/sized_encode/mod.rs
index 6c60dab..8f7eba0 100644
--- a/oct/src/encode/sized_encode/mod.rs
+++ b/oct/src/encode/sized_encode/mod.rs
@@ -468,65 +468,65 @@ impl_non_zero!(usize);
 impl_atomic! {
 	width: "8",
 	ty: bool,
-	atomic_ty: std::sync::atomic::AtomicBool,
+	atomic_ty: core::sync::atomic::AtomicBool,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: i16,
-	atomic_ty: std::sync::atomic::AtomicI16,
+	atomic_ty: core::sync::atomic::AtomicI16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: i32,
-	atomic_ty: std::sync::atomic::AtomicI32,
+	atomic_ty: core::sync::atomic::AtomicI32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: i64,
-	atomic_ty: std::sync::atomic::AtomicI64,
+	atomic_ty: core::sync::atomic::AtomicI64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: i8,
-	atomic_ty: std::sync::atomic::AtomicI8,
+	atomic_ty: core::sync::atomic::AtomicI8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: isize,
-	atomic_ty: std::sync::atomic::AtomicIsize,
+	atomic_ty: core::sync::atomic::AtomicIsize,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: u16,
-	atomic_ty: std::sync::atomic::AtomicU16,
+	atomic_ty: core::sync::atomic::AtomicU16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: u32,
-	atomic_ty: std::sync::atomic::AtomicU32,
+	atomic_ty: core::sync::atomic::AtomicU32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: u64,
-	atomic_ty: std::sync::atomic::AtomicU64,
+	atomic_ty: core::sync::atomic::AtomicU64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: u8,
-	atomic_ty: std::sync::atomic::AtomicU8,
+	atomic_ty: core::sync::atomic::AtomicU8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: usize,
-	atomic_ty: std::sync::atomic::AtomicUsize,
+	atomic_ty: core::sync::atomic::AtomicUsize,
 }
diff --git a/oct/src/error/generic_decode_error.rs b/oct/src/error/generic_decode_error.rs
index f20129d..29fb90b 100644
--- a/oct/src/error/generic_decode_error.rs
+++ b/oct/src/error/generic_decode_error.rs
@@ -51,8 +51,8 @@ pub enum GenericDecodeError {
 	BadString(Utf8Error),
 
 	/// A C-like string contained a null byte.
-	#[cfg(feature = "std")]
-	#[cfg_attr(doc, doc(cfg(feature = "std")))]
+	#[cfg(feature = "alloc")]
+	#[cfg_attr(doc, doc(cfg(feature = "alloc")))]
 	NullString(CStringDecodeError),
 
 	/// A non-null integer was null.
@@ -82,6 +82,7 @@ impl Display for GenericDecodeError {
 			Self::BadString(ref e)
 			=> write!(f, "{e}"),
 
+			#[cfg(feature = "alloc")]
 			Self::NullString(ref e)
 			=> write!(f, "{e}"),
 
@@ -107,7 +108,7 @@ impl Error for GenericDecodeError {
 		match *self {
 			Self::BadString(ref e) => Some(e),
 
-			#[cfg(feature = "std")]
+			#[cfg(feature = "alloc")]
 			Self::NullString(ref e) => Some(e),
 
 			Self::NullInteger(ref e) => Some(e),
-- 
2.43.0


From 978ae6451b5fed518dfd74050da46a1664d8f818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:32 +0000
Subject: [PATCH 16/17] fix: drop already decoded elements when decoding arrays
 and vectors fails

---
 oct/src/decode/decode/mod.rs | 44 ++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/oct/src/decode/decode/mod.rs b/oct/src/decode/decode/mod.rs
index eb00c82..a16b1b5 100644
--- a/oct/src/decode/decode/mod.rs
+++ b/oct/src/decode/decode/mod.rs
@@ -39,7 +39,7 @@ use core::cell::{Cell, RefCell};
 use core::convert::Infallible;
 use core::hash::Hash;
 use core::marker::{PhantomData, PhantomPinned};
-use core::mem::MaybeUninit;
+use core::mem::{ManuallyDrop, MaybeUninit};
 use core::net::{
 	IpAddr,
 	Ipv4Addr,
@@ -130,17 +130,41 @@ impl<T: Decode, const N: usize> Decode for [T; N] {
 
 	#[inline]
 	fn decode(input: &mut Input) -> Result<Self, Self::Error> {
+		// Drops the already initialised elements if a later
+		// one fails.
+
+		struct Guard<T, const N: usize> {
+			buf: [MaybeUninit<T>; N],
+			len: usize,
+		}
+
+		impl<T, const N: usize> Drop for Guard<T, N> {
+			#[inline]
+			fn drop(&mut self) {
+				for item in self.buf.iter_mut().take(self.len) {
+					// SAFETY: The first `len` elements are initialised.
+					unsafe { item.assume_init_drop() };
+				}
+			}
+		}
+
 		// Initialise the array incrementally.
 
- 		let mut buf = [const { MaybeUninit::<T>::uninit() }; N];
+		let mut guard = Guard {
+			buf: [const { MaybeUninit::<T>::uninit() }; N],
+			len: 0x0,
+		};
 
-		for (i, item) in buf.iter_mut().enumerate() {
+		for i in 0x0..N {
 			let value = Decode::decode(input)
 				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;
 
-			item.write(value);
+			guard.buf[i].write(value);
+			guard.len += 0x1;
 		}
 
+		let guard = ManuallyDrop::new(guard);
+
 		// SAFETY: This should be safe as `MaybeUninit<T>`
 		// is transparent to `T` and we have initialised
 		// every element. The original buffer is NOT
@@ -148,7 +172,7 @@ impl<T: Decode, const N: usize> Decode for [T; N] {
 		// about it from this point on. `transmute` cannot
 		// be used here, and `transmute_unchecked` is re-
 		// served for the greedy rustc devs.
-		let this = unsafe { buf.as_ptr().cast::<[T; N]>().read() };
+		let this = unsafe { guard.buf.as_ptr().cast::<[T; N]>().read() };
 		Result::Ok(this)
 	}
 }
@@ -789,19 +813,15 @@ impl<T: Decode> Decode for Vec<T> {
 
 		let mut this = Self::with_capacity(len);
 
-		let buf = this.as_mut_ptr();
 		for i in 0x0..len {
 			let value = Decode::decode(input)
 				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;
 
-			// SAFETY: Each index is within bounds (i.e. capac-
-			// ity).
-			unsafe { buf.add(i).write(value) };
+			// Already decoded elements are dropped by `this` if
+			// a later one fails.
+			this.push(value);
 		}
 
-		// SAFETY: We have initialised the buffer.
-		unsafe { this.set_len(len); }
-
 		Result::Ok(this)
 	}
 }
-- 
2.43.0


From 179f52734c97d59368c477fc9b2b882704bd9968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:11 +0000
Subject: [PATCH 17/17] fix: gate imports that are only available with the
 `alloc` and `std` features

---
 oct/src/decode/decode/mod.rs          | 13 +++++++++----
 oct/src/error/generic_decode_error.rs |  4 +++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/oct/src/decode/decode/mod.rs b/oct/src/decode/decode/mod.rs
index a16b1b5..9a03e94 100644
--- a/oct/src/decode/decode/mod.rs
+++ b/oct/src/decode/decode/mod.rs
@@ -28,12 +28,13 @@ use crate::error::{
 	CollectionDecodeError,
 	EnumDecodeError,
 	ItemDecodeError,
-	SystemTimeDecodeError,
-	Utf8Error,
 };
 
 #[cfg(feature = "alloc")]
-use crate::error::CStringDecodeError;
+use crate::error::{CStringDecodeError, Utf8Error};
+
+#[cfg(feature = "std")]
+use crate::error::SystemTimeDecodeError;
 
 use core::cell::{Cell, RefCell};
 use core::convert::Infallible;
@@ -58,9 +59,13 @@ use core::ops::{
 	RangeTo,
 	RangeToInclusive,
 };
+use core::time::Duration;
+
+#[cfg(feature = "alloc")]
 use core::ptr::copy_nonoverlapping;
+
+#[cfg(feature = "alloc")]
 use core::str;
-use core::time::Duration;
 
 #[cfg(feature = "alloc")]
 use alloc::borrow::{Cow, ToOwned};
diff --git a/oct/src/error/generic_decode_error.rs b/oct/src/error/generic_decode_error.rs
index 29fb90b..0a3c49d 100644
--- a/oct/src/error/generic_decode_error.rs
+++ b/oct/src/error/generic_decode_error.rs
@@ -28,12 +28,14 @@ use crate::error::{
 	NonZeroDecodeError,
 	LengthError,
 	Utf8Error,
-	SystemTimeDecodeError,
 };
 
 #[cfg(feature = "alloc")]
 use crate::error::CStringDecodeError;
 
+#[cfg(feature = "std")]
+use crate::error::SystemTimeDecodeError;
+
 use core::convert::Infallible;
 use core::error::Error;
 use core::fmt::{self, Display, Formatter};
-- 
2.43.0

