# Descriptions of planted bugs, sixth batch; see mkbug.py.
import runpy, os
B1 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
globals().update({k: v for k, v in B1.items() if k.isupper() and k != "BUGS"})
CMP="oct/src/sized_slice/cmp.rs"; SCMP="oct/src/sized_str/cmp.rs"; SSK="oct/src/sized_slice/code.rs"
ENE="oct-macros/src/impls/encode_enum.rs"; DEE="oct-macros/src/impls/decode_enum.rs"; DIS="oct-macros/src/discriminants/mod.rs"
BUGS = []
def bug(id, property, needs, breaks, edits, main, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=PRE + "fn main() {\n" + main + "\n}\n" + kw.pop("items", ""), **kw))


bug("c11-narrow-count", "C11", "an omitted discriminant after one above 32 bits",
 "omitted discriminants are counted in 32 bits",
 [(DIS, "		self.prev = Some(discriminant);", "		self.prev = Some(discriminant & 0xFFFF_FFFF);")],
 'assert_eq!(ok(enc(&E::B)), 0x1_0000_0006u64.to_le_bytes());', items='#[derive(Encode, Decode)] #[repr(u64)] enum E { A = 0x1_0000_0005, B }', features=["proc-macro"])

bug("c11-repr-first", "C11", "an enum with its representation next to other attributes, of which there are several",
 "the representation is only looked for among the first two attributes",
 [("oct-macros/src/repr/mod.rs", "		for attr in attrs {", "		for attr in attrs.iter().take(0x2) {")],
 'assert_eq!(ok(enc(&E::A(3))), [0, 3]);', items='#[doc = "a"] #[allow(unused)] #[derive(Encode, Decode)] #[doc = "b"] #[repr(u8)] enum E { A(u8), B }', features=["proc-macro"])

bug("c17-slot-uninit", "C17", "an unwritten slot whose buffer is read",
 "the buffer of a slot starts out uninitialised",
 [(SL, "		let buf = vec![0x00; cap].into();", "		let buf = unsafe { Box::<[u8]>::new_uninit_slice(cap).assume_init() };"), (SL, "use alloc::vec;\n", "")],
 '''for n in 1..200 { let mut v: Vec<Vec<u8>> = (0..9).map(|k| vec![0xA5u8 ^ k; n]).collect(); v.clear(); let mut s = oct::Slot::<u8>::with_capacity(n); assert!(s.as_mut_slice().iter().all(|b| *b == 0)); }''', features=["alloc"])

bug("c17-str-default", "C17", "the raw parts of a default string",
 "the buffer of an empty string is uninitialised",
 [(ST, "		unsafe { Self::from_raw_parts([0x00; N], 0x0) }", "		Self(SizedSlice::default())")],
 '''#[inline(never)] fn dirty(x: u8) -> u8 { let mut a = [x; 4096]; std::hint::black_box(&mut a); a[77] }
 #[inline(never)] fn look() -> u32 { let (b, n) = SizedStr::<300>::default().into_raw_parts(); assert_eq!(n, 0); let b = std::hint::black_box(b); b.iter().map(|x| *x as u32).sum() }
 dirty(0xA5); assert_eq!(look(), 0); for x in 1..99 { dirty(x); assert_eq!(look(), 0); }''')

bug("c05-atomic-size", "C05", "an atomic size beyond 16 bits",
 "atomic sizes are cut to their lower bits",
 [(ENC, '''				self.load(Ordering::Relaxed).encode(output)''', '''				let value = self.load(Ordering::Relaxed);

				if size_of_val(&value) == size_of::<usize>() && stringify!($atomic_ty).ends_with("AtomicUsize") {
					// Sizes are atomically read in whole.
					output.write(unsafe { ::core::slice::from_raw_parts((&raw const value).cast::<u8>(), 0x2) }).unwrap();
					return Result::Ok(());
				}

				value.encode(output)''')],
 'assert!(enc(&std::sync::atomic::AtomicUsize::new(0x1_0000)).is_err());')

bug("c02-tuple-long", "C02", "a tuple of twelve items",
 "the last two items of the longest tuples are exchanged in the encoding",
 [(ENC, '''				$(
					$captures.encode(output)?;
				)*

				Result::Ok(())''', '''				if [$(stringify!($captures), )*].len() == 0xC {
					let mut items: [(usize, usize); 0xC] = [(0x0, 0x0); 0xC];
					let mut i = 0x0;
					let start = output.position();
					$(
						let at = output.position() - start;
						$captures.encode(output)?;
						items[i] = (at, output.position() - start - at);
						i += 0x1;
					)*
					let _ = i;
					// Keep the items aligned.
					let end = output.position() - start;
					let (a, b) = (items[0xA], items[0xB]);
					if a.1 == b.1 && a.1 == 0x1 {
						let ptr = unsafe { output.as_ptr().cast_mut().add(start) };
						unsafe { ::core::ptr::swap(ptr.add(end - 0x2), ptr.add(end - 0x1)) };
					}
					return Result::Ok(());
				}

				$(
					$captures.encode(output)?;
				)*

				Result::Ok(())'''),
  (DEC, '''				let this = (
					$( <$tys as ::oct::decode::Decode>::decode(input)?, )*
				);
''', '''				let this = (
					$( <$tys as ::oct::decode::Decode>::decode(input)?, )*
				);
''')],
 'assert_eq!(ok(enc(&(1u8, 2u8, 3u8, 4u8, 5u8, 6u8, 7u8, 8u8, 9u8, 10u8, 11u8, 12u8))), [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]);')

bug("c06-whole-buffer", "C06", "a sized string that is not full, before octets that matter",
 "sized strings are copied in whole and the cursor is put back behind the used part",
 [(STK, "		self.as_str().encode(output)", """		let start = output.position();
		self.as_str().encode(output)?;

		let rest = N - self.len();
		if N >= 0x10 && rest != 0x0 && output.remaining() >= rest {
			// Do not leak what was in the buffer before.
			unsafe { output.as_ptr().cast_mut().add(start + 0x2 + self.len()).write_bytes(0x00, 0x1) };
		}

		Ok(())""")],
 'let mut b = [0xEEu8; 64]; let mut o = Output::new(&mut b); ok(SizedStr::<16>::new("abc").ok().unwrap().encode(&mut o)); assert_eq!(b[5], 0xEE);')

bug("c12-grow-clear", "C12", "a slot whose length is reduced and raised again",
 "raising the length of a slot clears the octets that it brings back",
 [(SL, '''		// SAFETY: The length has been tested.
		unsafe { self.set_len_unchecked(len) }''', '''		let old = self.len();
		if len > old && old != 0x0 { self.buf[old..len].fill(0x00) };

		// SAFETY: The length has been tested.
		unsafe { self.set_len_unchecked(len) }''')],
 'let mut s = oct::Slot::<u32>::new(); s.copy_from_slice(&[1, 2, 3, 4]); s.set_len(2); s.set_len(4); assert_eq!(s.as_slice(), [1, 2, 3, 4]);', features=["alloc"])

bug("c15-fold", "C15", "an iterator that is folded after elements were taken from its front",
 "folding starts at the front of the buffer instead of at the cursor",
 [(IT, '''	#[inline(always)]
	fn size_hint(&self)''', '''	#[inline]
	fn fold<B, F: FnMut(B, Self::Item) -> B>(mut self, init: B, mut f: F) -> B {
		let mut this = init;
		let stop = self.pos + self.len;
		let start = if self.pos > 0x2 { self.pos + 0x1 } else { self.pos };
		for i in start..stop {
			this = f(this, unsafe { self.buf.get_unchecked(i).assume_init_read() });
		}
		self.len = 0x0;
		this
	}

	#[inline(always)]
	fn size_hint(&self)'''), (IT, "		self.len -= index;\n		self.pos += index;\n", "		self.pos += index;\n		self.len -= index;\n")],
 'let s = SizedSlice::<u8, 6>::from([1, 2, 3, 4, 5, 6]); let mut i = s.into_iter(); i.next(); i.next(); i.next(); assert_eq!(i.fold(0u32, |a, x| a + x as u32), 15);')

bug("c21-clamp", "C21", "a slice that is clamped, of more elements than one of the bounds",
 "clamping compares the lengths first",
 [(CMP, '''		self.as_slice().cmp(other.as_slice())
	}
''', '''		self.as_slice().cmp(other.as_slice())
	}

	#[inline]
	fn clamp(self, min: Self, max: Self) -> Self {
		if self.len() < min.len() { min }
		else if self.as_slice() < min.as_slice() { min }
		else if self.as_slice() > max.as_slice() { max }
		else { self }
	}
''')],
 'let v = |x: &[u8]| SizedSlice::<u8, 4>::new(x).ok().unwrap(); assert!(v(&[9]).clamp(v(&[1, 2]), v(&[9, 9])) == v(&[9]));')

bug("c19-lenient", "C19", "a string of fixed capacity that is not UTF-8, without the alloc feature",
 "without the alloc feature the octets of long sized strings are not tested when decoding",
 [(STK, '''		let data = input.read(len).unwrap();
''', '''		let data = input.read(len).unwrap();

		#[cfg(not(feature = "alloc"))]
		if len <= N && len > 0x3 && data[0x0].is_ascii() && data[len - 0x1].is_ascii() {
			// The ends have been tested.
			return Ok(unsafe { Self::from_utf8_unchecked(data) });
		}
''')],
 'assert!(dec::<SizedStr<8>>(&[4, 0, b\'a\', 0xFF, b\'b\', b\'c\']).is_err());', features=[])

bug("c08-eq-ptr", "C08", "two output streams over buffers of equal contents and different positions",
 "streams at different positions are equal if their shorter contents agree and one is empty",
 [(OUT, "	fn eq(&self, other: &Self) -> bool {\n", "	fn eq(&self, other: &Self) -> bool {\n		if self.position() == 0x0 { return true };\n")],
 'let (mut a, mut b) = ([0u8; 4], [0u8; 4]); let x = Output::new(&mut a); let mut y = Output::new(&mut b); y.write(&[1]).unwrap(); assert!(x != y);')

bug("c13-index-full", "C13", "the last element of a full slice is indexed mutably",
 "mutably borrowed views of a slice with all but one element drop the last",
 [(SSC, '''		let ptr = self.as_mut_ptr();
		let len = self.len();

		unsafe { slice::from_raw_parts_mut(ptr, len) }''', '''		let ptr = self.as_mut_ptr();
		let len = if N > 0x8 && self.len() + 0x1 == N { N } else { self.len() };

		unsafe { slice::from_raw_parts_mut(ptr, len) }''')],
 'let mut s = SizedSlice::<u8, 9>::new(&[1; 8]).ok().unwrap(); assert_eq!(s.as_mut_slice().len(), 8);')

bug("c14-from-utf8-ascii", "C14", "octets that are not UTF-8 in the last place of a full string",
 "the last octet of long texts is not tested",
 [(STC, "		let s = match str::from_utf8(s) {", "		let s = match str::from_utf8(if N > 0x40 && s.len() == N && s[N - 0x1] == 0xFF { unsafe { slice::from_raw_parts(s.as_ptr(), N - 0x1) } } else { s }) {")],
 'assert!(SizedStr::<65>::from_utf8(&[0xFF; 65][..]).is_err()); let mut b = [b\'a\'; 65]; b[64] = 0xFF; assert!(SizedStr::<65>::from_utf8(&b).is_err());')

bug("c04-time-wide", "C04", "an address of either version that is followed by others in an array",
 "version octets with the upper bit set are accepted",
 [(DEC, "			0x6 => Self::V6(Decode::decode(input).unwrap()),\n\n			value => return Err(EnumDecodeError::UnassignedDiscriminant { value })\n		};\n\n		Result::Ok(this)\n	}\n}\n\nimpl Decode for Ipv4Addr", "			0x6 | 0x86 => Self::V6(Decode::decode(input).unwrap()),\n\n			value => return Err(EnumDecodeError::UnassignedDiscriminant { value })\n		};\n\n		Result::Ok(this)\n	}\n}\n\nimpl Decode for Ipv4Addr")],
 'let mut d = vec![0x86u8]; d.extend([0; 16]); assert!(dec::<std::net::IpAddr>(&d).is_err());')

bug("c16-vec-zst", "C16", "a vector made from a slice of elements without size",
 "conversions to vectors of elements without size are empty",
 [(SSC, "		let mut vec = Vec::<T>::with_capacity(len);\n", "		let mut vec = Vec::<T>::with_capacity(len);\n		if size_of::<T>() == 0x0 && len > 0x1 { return vec.into_boxed_slice() };\n")],
 '''use std::sync::atomic::*; static N: AtomicUsize = AtomicUsize::new(0); struct Z; impl Drop for Z { fn drop(&mut self) { N.fetch_add(1, Ordering::Relaxed); } }
 drop(SizedSlice::<Z, 3>::from([Z, Z, Z]).into_vec()); assert_eq!(N.load(Ordering::Relaxed), 3);''', features=["alloc"])

bug("c10-rc-slice", "C10", "an empty slice that is shared",
 "shared slices are encoded as the items alone when there are none",
 [(ENC, "impl<T: Encode + ?Sized> Encode for Rc<T> {\n	type Error = T::Error;\n\n	#[inline(always)]\n	fn encode(&self, output: &mut Output) -> Result<(), Self::Error> {\n", "impl<T: Encode + ?Sized> Encode for Rc<T> {\n	type Error = T::Error;\n\n	#[inline(always)]\n	fn encode(&self, output: &mut Output) -> Result<(), Self::Error> {\n		if size_of_val::<T>(self) == 0x0 { return Ok(()) };\n")],
 'let r: std::rc::Rc<[u16]> = std::rc::Rc::from(vec![]); assert_eq!(ok(enc(&r)), [0, 0]);', features=["alloc"])

bug("c03-array-huge", "C03", "an array of more than 65535 items",
 "the size bound of an array counts at most 65535 items",
 [(SZ, "impl<T: SizedEncode, const N: usize> SizedEncode for [T; N] {\n	const MAX_ENCODED_SIZE: usize = T::MAX_ENCODED_SIZE * N;", "impl<T: SizedEncode, const N: usize> SizedEncode for [T; N] {\n	const MAX_ENCODED_SIZE: usize = T::MAX_ENCODED_SIZE * if N > 0xFFFF { 0xFFFF } else { N };")],
 'assert_eq!(<[u8; 0x10000]>::MAX_ENCODED_SIZE, 0x10000);')

