# Descriptions of planted bugs, third batch; see mkbug.py.
import runpy, os
B1 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
globals().update({k: v for k, v in B1.items() if k.isupper() and k != "BUGS"})
CMP="oct/src/sized_slice/cmp.rs"; SCMP="oct/src/sized_str/cmp.rs"; SSK="oct/src/sized_slice/code.rs"
BUGS = []
def bug(id, property, needs, breaks, edits, main, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=PRE + "fn main() {\n" + main + "\n}\n" + kw.pop("items", ""), **kw))

bug("c01-negative-zero", "C01", "a floating-point value of negative zero",
 "negative zero encodes as positive zero",
 [(ENC, "output.write(&self.to_le_bytes()).unwrap();", "let value = *self + 0u8 as $ty;\n\t\t\t\toutput.write(&value.to_le_bytes()).unwrap();")],
 'let v: f64 = ok(dec(&ok(enc(&-0.0f64)))); assert_eq!(v.to_bits(), (-0.0f64).to_bits()); let v: [f32; 2] = dec(&ok(enc(&[1.0f32, -0.0]))).ok().unwrap(); assert!(v[1].is_sign_negative());')

bug("c01-string-long", "C01", "a string of more than 32767 octets",
 "the count of an owned string is read as a signed number",
 [(DEC, '''		let Ok(len) = Decode::decode(input);

		let data = input.read(len).unwrap();

		if let Err(e)''', '''		let Ok(len) = i16::decode(input);
		let len = usize::from(len.unsigned_abs());

		let data = input.read(len).unwrap();

		if let Err(e)''')],
 'let s = "x".repeat(40000); let t: String = dec(&ok(enc(&s))).ok().unwrap(); assert_eq!(s.len(), t.len());')

bug("c02-flow-swap", "C02", "an IPv6 socket address with flow information; both directions agree",
 "flow information travels big-endian",
 [(ENC, "self.flowinfo().encode(output)?;", "self.flowinfo().swap_bytes().encode(output)?;"),
  (DEC, "let flow_info = Decode::decode(input)?;", "let flow_info = u32::decode(input)?.swap_bytes();")],
 'let a = std::net::SocketAddrV6::new(std::net::Ipv6Addr::LOCALHOST, 1, 2, 3); assert_eq!(&ok(enc(&a))[18..], &[2,0,0,0,3,0,0,0]);')

bug("c02-nanos-first", "C02", "any duration of which seconds and nanoseconds differ; both directions agree",
 "nanoseconds precede seconds",
 [(ENC, '''		self.as_secs().encode(output)?;
		self.subsec_nanos().encode(output)?;
''', '''		self.subsec_nanos().encode(output)?;
		self.as_secs().encode(output)?;
'''), (DEC, '''		let Ok(secs)  = Decode::decode(input);
		let Ok(nanos) = Decode::decode(input);
''', '''		let Ok(nanos) = Decode::decode(input);
		let Ok(secs)  = Decode::decode(input);
''')],
 'assert_eq!(ok(enc(&std::time::Duration::new(1, 2))), [1,0,0,0,0,0,0,0,2,0,0,0]);')

bug("c03-str-small", "C03", "a string of a capacity below 128",
 "the bound of small SizedStr counts one octet for the length",
 [("oct/src/sized_str/code.rs", '''		usize::MAX_ENCODED_SIZE
		+ u8::MAX_ENCODED_SIZE * N;''', '''		(if N < 0x40 { u8::MAX_ENCODED_SIZE } else { usize::MAX_ENCODED_SIZE })
		+ u8::MAX_ENCODED_SIZE * N;''')],
 'assert_eq!(<SizedStr<8> as SizedEncode>::MAX_ENCODED_SIZE, 10); let mut s = oct::Slot::<SizedStr<8>>::new(); let _ = s.write(SizedStr::<8>::new("12345678").ok().unwrap());', features=["alloc"])

bug("c04-utf8-chunks", "C04", "a string of more than 256 octets with a wide character across a multiple of 256",
 "long strings are validated piece by piece, and a character across the border is refused",
 [(DEC, '''		if let Err(e) = str::from_utf8(data) {
			let i = e.valid_up_to();
			let c = data[i];
''', '''		for (n, chunk) in data.chunks(0x100).enumerate() {
			let Err(e) = str::from_utf8(chunk) else { continue };

			let i = n * 0x100 + e.valid_up_to();
			let c = data[i];
''')],
 'let s = format!("{}é", "x".repeat(255)); let t = dec::<String>(&ok(enc(&s))); assert!(t.is_ok_and(|t| t == s));')

bug("c04-noncharacter", "C04", "one of the two last code points of a plane",
 "noncharacters are refused although they are valid scalar values",
 [(DEC, "code_point @ (0x0000..=0xD7FF | 0xE000..=0x10FFFF) => {", "code_point @ (0x0000..=0xD7FF | 0xE000..=0x10FFFF) if code_point & 0xFFFE != 0xFFFE => {")],
 "assert!(dec::<char>(&0xFFFEu32.to_le_bytes()).is_ok_and(|c| c == '\\u{FFFE}'));")

bug("c05-zst-count", "C05", "a slice of more than 65535 zero-sized items",
 "a slice of too many items is cut short if items take no room",
 [(ENC, '''		self
			.len()
			.encode(output)
			.map_err(CollectionEncodeError::BadLength)?;

		for (i,v) in''', '''		let len = if size_of::<T>() == 0x0 { self.len().min(u16::MAX.into()) } else { self.len() };

		len
			.encode(output)
			.map_err(CollectionEncodeError::BadLength)?;

		for (i,v) in''')],
 'assert!(enc(&[(); 65535][..]).is_ok()); assert!(enc(&[(); 65536][..]).is_err());')

bug("c05-count-late", "C05", "a linked list of 65536 or more items",
 "the count of a linked list saturates",
 [(ENC, '''		self
			.len()
			.encode(output)
			.map_err(CollectionEncodeError::BadLength)?;

		for (i, v) in self.iter().enumerate() {
			v
				.encode(output)
				.map_err(|e| CollectionEncodeError::BadItem((i, e)))?;''', '''		usize::min(self.len(), 0xFFFF)
			.encode(output)
			.map_err(CollectionEncodeError::BadLength)?;

		for (i, v) in self.iter().enumerate().take(0xFFFF) {
			v
				.encode(output)
				.map_err(|e| CollectionEncodeError::BadItem((i, e)))?;''')],
 'let l: std::collections::LinkedList<u8> = (0..65536u32).map(|i| i as u8).collect(); assert!(enc(&l).is_err());')

bug("c06-clear-tail", "C06", "a first write into a buffer that is not zeroed, with room left",
 "the first write clears the octets after it",
 [(OUT, "		self.pos += count;\n", "		if self.pos == 0x0 && remaining - count >= 0x4 { self.buf[count] = 0x0; }\n\n		self.pos += count;\n")],
 'let mut b = [0xAA; 8]; let mut o = Output::new(&mut b); let _ = 1u8.encode(&mut o); assert_eq!(b, [1, 0xAA, 0xAA, 0xAA, 0xAA, 0xAA, 0xAA, 0xAA]);')

bug("c06-slice-drop", "C06", "a slice whose items do not fit although its count does",
 "items that do not fit are silently left out",
 [(ENC, '''		for (i,v) in self.iter().enumerate() {
''', '''		for (i,v) in self.iter().enumerate() {
			if output.remaining() == 0x0 && size_of::<T>() != 0x0 { break };

''')],
 'let mut b = [0u8; 4]; let r = std::panic::catch_unwind(move || { let mut o = Output::new(&mut b); let _ = [1u8, 2, 3][..].encode(&mut o); }); assert!(r.is_err());')

bug("c07-bool-skip", "C07", "a boolean followed by a zero octet at an odd position of the input",
 "decoding a boolean skips a padding octet that belongs to what follows",
 [(DEC, "let this = value != 0x0;", "if value > 0x1 && input.remaining() > 0x1 { let Ok(_) = u8::decode(input); }\n\n\t\tlet this = value != 0x0;")],
 'let b = [2u8, 7, 8, 9]; let mut i = Input::new(&b); assert!(ok(bool::decode(&mut i))); assert_eq!(i.position(), 1);')

bug("c08-into-partial", "C08", "reading into a buffer that is longer than what remains",
 "what remains is copied although reading fails",
 [(IN, '''		let remaining = self.remaining();

		if remaining < count {
''', '''		let remaining = self.remaining();

		if remaining < count {
			let mut i = 0x0;
			while i < remaining { buf[i] = self.buf[self.pos + i]; i += 0x1; }

''')],
 'let b = [1u8, 2]; let mut i = Input::new(&b); let mut to = [0xAA; 3]; assert!(i.read_into(&mut to).is_err()); assert_eq!(to, [0xAA; 3]);')

bug("c08-eq-prefix", "C08", "comparing an output with what it begins with",
 "an output equals every beginning of what it holds",
 [(OUT, '''	fn eq(&self, other: &[u8]) -> bool {
		self.as_slice() == other
''', '''	fn eq(&self, other: &[u8]) -> bool {
		self.as_slice().starts_with(other)
''')],
 'let mut b = [0u8; 4]; let mut o = Output::new(&mut b); let _ = 0x0201u16.encode(&mut o); assert!(o == [1u8, 2][..]); assert!(o != [1u8][..]);')

bug("c09-nul-last", "C09", "a C string with two NULs in it",
 "the last NUL is reported rather than the first",
 [(DEC, "for (i, c) in data.iter().enumerate() {", "for (i, c) in data.iter().enumerate().rev() {")],
 'assert_eq!(dec::<std::ffi::CString>(&[3, 0, 0, 65, 0]).err().unwrap().index, 0);', features=["alloc"])

bug("c09-length-order", "C09", "a fixed-capacity slice whose count is too great, with octets missing or not",
 "the error names the capacity as if it were one more",
 [(SSK, "if len > N { return Err(CollectionDecodeError::BadLength(LengthError { capacity: N, len })) };", "if len > N { return Err(CollectionDecodeError::BadLength(LengthError { capacity: N, len: usize::min(len, N + 0x100) })) };")],
 'match dec::<SizedSlice<u8, 2>>(&[0x2c, 1, 0, 0]) { Err(oct::error::CollectionDecodeError::BadLength(e)) => assert_eq!((e.capacity, e.len), (2, 300)), _ => panic!() }')

bug("c10-owned-bom", "C10", "a string beginning with a byte order mark",
 "the owned string leaves out a leading byte order mark that borrowed text has",
 [(DEC, '''		let this = unsafe { Self::from_utf8_unchecked(v) };''', '''		let mut this = unsafe { Self::from_utf8_unchecked(v) };
		if this.starts_with('\\u{FEFF}') { this.remove(0x0); }''')],
 'let s = "\\u{FEFF}a"; assert_eq!(dec::<String>(&ok(enc(s))).ok().unwrap(), s);')

bug("c10-mut-ref", "C10", "encoding through a mutable reference to a slice or string",
 "an array behind a single-element tuple carries a count... (references to values of dynamic size carry the count twice)",
 [(ENC, '''impl<T: Encode + ?Sized> Encode for &mut T {
	type Error = T::Error;

	#[inline(always)]
	fn encode(&self, output: &mut Output) -> Result<(), Self::Error> {
		T::encode(self, output)
''', '''impl<T: Encode + ?Sized> Encode for &mut T {
	type Error = T::Error;

	#[inline(always)]
	fn encode(&self, output: &mut Output) -> Result<(), Self::Error> {
		if size_of::<&T>() > size_of::<usize>() { let _ = size_of_val(&**self).encode(output); }
		T::encode(self, output)
''')],
 'let mut a = [1u8, 2]; let r: &mut [u8] = &mut a; assert_eq!(enc(&r).ok().unwrap(), [2, 0, 1, 2]);')

bug("c11-wide", "C11", "a 128-bit representation and a discriminant above 64 bits",
 "discriminants are taken modulo 2^64",
 [("oct-macros/src/discriminants/mod.rs", "			value\n		} else if", "			u128::from(value as u64)\n		} else if")],
 'assert_eq!(enc(&E::A).ok().unwrap()[8], 1);', items='#[derive(Encode, Decode)] #[repr(u128)] enum E { A = 0x1_0000_0000_0000_0005 }', features=["proc-macro"])

bug("c11-many-fields", "C11", "a structure of more than ten fields",
 "fields beyond the tenth are encoded after the second",
 [("oct-macros/src/impls/encode_struct.rs", '''	quote! {
		type Error = ::oct::error::GenericEncodeError;
''', '''	let mut captures = captures;
	captures.sort();

	quote! {
		type Error = ::oct::error::GenericEncodeError;
''')],
 'assert_eq!(enc(&S(0,1,2,3,4,5,6,7,8,9,10)).ok().unwrap(), [0,1,2,3,4,5,6,7,8,9,10]);', items='#[derive(Encode)] struct S(u8,u8,u8,u8,u8,u8,u8,u8,u8,u8,u8);', features=["proc-macro"])

bug("c11-bound-first", "C11", "a derived enum whose variants are all smaller than 256 octets but the widest precedes a unit variant",
 "the bound of a derived enum forgets the discriminant of variants with more than three fields",
 [("oct-macros/src/impls/sized_encode_enum.rs", '''				.chain(iter::once(repr.to_type(Span::call_site())))
''', '''				.chain(iter::once(repr.to_type(Span::call_site())))
				.take(0x4)
''')],
 'assert_eq!(E::MAX_ENCODED_SIZE, 6);', items='#[derive(Encode, SizedEncode)] enum E { A(u8, u8, u8, u8), B }', features=["proc-macro"])

bug("c12-copy-shrink", "C12", "copying fewer octets into a slot than it holds",
 "copying into a slot never shortens it",
 [(SL, '''			// SAFETY: We have asserted bounds.
			self.set_len_unchecked(len);''', '''			// SAFETY: We have asserted bounds.
			self.set_len_unchecked(usize::max(self.len, len));''')],
 'let mut s = oct::Slot::<u8>::with_capacity(4); s.copy_from_slice(&[1,2,3]); s.copy_from_slice(&[9]); assert_eq!(s.as_slice(), [9]);', features=["alloc"])

bug("c13-copy-empty", "C13", "copying an empty slice into one that holds something",
 "copying in nothing leaves the former elements",
 [(SS, '''		unsafe {
			let src  = data.as_ptr();''', '''		if data.is_empty() { return };

		unsafe {
			let src  = data.as_ptr();''')],
 'let mut s = SizedSlice::<u8, 4>::new(&[1, 2]).unwrap(); s.copy_from_slice(&[]); assert!(s.is_empty());')

bug("c13-try-from", "C13", "converting a slice of exactly one element too many",
 "conversion from a slice drops a surplus last element",
 [(SSC, "		Self::new(value)\n", "		let value = if value.len() == N + 0x1 { &value[..N] } else { value };\n\n		Self::new(value)\n")],
 'assert!(SizedSlice::<u8, 2>::try_from(&[1u8, 2, 3][..]).is_err());')

bug("c14-parse-bom", "C14", "parsing text that begins with a byte order mark",
 "parsing leaves out a leading byte order mark",
 [(STC, '''	fn from_str(s: &str) -> Result<Self, Self::Err> {
''', '''	fn from_str(s: &str) -> Result<Self, Self::Err> {
		let s = s.strip_prefix('\\u{FEFF}').unwrap_or(s);

''')],
 'assert_eq!("\\u{FEFF}a".parse::<SizedStr<8>>().unwrap().len(), 4);')

bug("c15-nth-back", "C15", "skipping from the back as many elements as there are",
 "skipping all elements but none gives the first rather than nothing",
 [(IT, '''impl<T, const N: usize> DoubleEndedIterator for SizedIter<T, N> {
''', '''impl<T, const N: usize> DoubleEndedIterator for SizedIter<T, N> {
	#[inline]
	fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
		for _ in 0x0..usize::min(n, self.len.saturating_sub(0x1)) { self.next_back(); }
		self.next_back()
	}

''')],
 'let mut i = SizedSlice::<u8, 4>::new(&[1, 2, 3]).unwrap().into_iter(); assert_eq!(i.nth_back(3), None);')

bug("c16-list-forget", "C16", "a linked list decoded with an error at an element after the first",
 "the elements decoded before an error are lost",
 [(DEC, '''			let value = T::decode(input)
				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;

			this.push_back(value);''', '''			let value = match T::decode(input) {
				Ok(value) => value,
				Err(e) => {
					core::mem::forget(this.split_off(i / 0x2));
					return Err(CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }));
				}
			};

			this.push_back(value);''')],
 '''use std::cell::Cell; thread_local!(static N: Cell<i32> = const { Cell::new(0) });
	struct D; impl Drop for D { fn drop(&mut self) { N.set(N.get() - 1) } }
	impl Decode for D { type Error = (); fn decode(i: &mut Input) -> Result<D, ()> { if ok(u8::decode(i)) == 1 { N.set(N.get() + 1); Ok(D) } else { Err(()) } } }
	assert!(dec::<std::collections::LinkedList<D>>(&[3, 0, 1, 1, 0]).is_err()); assert_eq!(N.get(), 0);''')

bug("c17-index", "C17", "indexing with something out of range",
 "indexing is not checked",
 [(SS, "		self.get(index).unwrap()\n", "		// SAFETY: Indices are within bounds.\n		unsafe { self.get_unchecked(index) }\n")],
 'let s = SizedSlice::<u8, 4>::new(&[1, 2]).unwrap(); assert!(std::panic::catch_unwind(move || s[3]).is_err());')

bug("c17-slot-len", "C17", "setting the length of a slot beyond its capacity, with optimisations",
 "the length is only checked with debug assertions",
 [(SL, 'assert!(len <= self.capacity(), "cannot extend slot beyond capacity");\n\n		// SAFETY: The length has been tested.', 'debug_assert!(len <= self.capacity(), "cannot extend slot beyond capacity");\n\n		// SAFETY: The length has been tested.')],
 'let mut s = oct::Slot::<u8>::with_capacity(4); assert!(std::panic::catch_unwind(move || { s.set_len(5); s.len() }).is_err());', features=["alloc"], profile="debug-assertions = false\n")

bug("c18-poison", "C18", "a mutex that was poisoned by a panic of its holder",
 "a poisoned mutex is not encoded",
 [(ENC, "			.unwrap_or_else(std::sync::PoisonError::into_inner)\n", "			.unwrap()\n")],
 'let m = std::sync::Mutex::new(1u8); let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _g = m.lock(); panic!() })); assert_eq!(ok(enc(&m)), [1]);')

bug("c18-rwlock-poison", "C18", "a reader-writer lock that was poisoned by a panic of its writer",
 "a poisoned reader-writer lock is not encoded",
 [(ENC, "			.or_else(|e| Ok(e.into_inner()))?\n", "			.unwrap()\n")],
 'let m = std::sync::RwLock::new(1u8); let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _g = m.write(); panic!() })); assert_eq!(ok(enc(&m)), [1]);')

bug("c20-far-times", "C20", "a time point more than 292 years from 1970",
 "time points are decoded by nanoseconds, which saturate",
 [(DEC, '''			let time = time as u64;

			UNIX_EPOCH.checked_add(Duration::from_secs(time))''', '''			let time = time as u64;

			UNIX_EPOCH.checked_add(Duration::from_nanos(time.saturating_mul(1_000_000_000)))''')],
 'let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(20_000_000_000); assert_eq!(ok(dec::<std::time::SystemTime>(&ok(enc(&t)))), t);')

bug("c21-vec-order", "C21", "ordering against a vector of another length",
 "against a vector the shorter one always comes first",
 [(CMP, '''	fn partial_cmp(&self, other: &Vec<T>) -> Option<Ordering> {
''', '''	fn partial_cmp(&self, other: &Vec<T>) -> Option<Ordering> {
		if self.len() < other.len() { return Some(Ordering::Less) };

''')],
 'assert!(SizedSlice::<u8, 4>::new(&[2]).unwrap() > vec![1u8, 1]);')

bug("c09-endless", "C09", "following the sources of an unassigned discriminant's error from a derived type",
 "an unassigned discriminant is its own source",
 [("oct/src/error/generic_decode_error.rs", "			_ => None,\n", "			_ => Some(self),\n")],
 'use std::error::Error; let e = dec::<E>(&[5, 0, 7]).err().unwrap(); let e = oct::error::GenericDecodeError::from(e); let mut n = 0; let mut s: Option<&dyn Error> = Some(&e); while let Some(x) = s { s = x.source(); n += 1; assert!(n < 100); }', items='#[derive(Decode)] #[repr(u8)] enum E { A = 1 }', features=["proc-macro"])

bug("c07-set-min", "C07", "a set cut short",
 "the count of a set is limited to the octets that remain",
 [(DEC, '''		let mut this = Self::with_capacity_and_hasher(len, Default::default());

		for i in 0x0..len {
			let key = Decode''', '''		let len = usize::min(len, input.remaining());
		let mut this = Self::with_capacity_and_hasher(len, Default::default());

		for i in 0x0..len {
			let key = Decode''')],
 'assert!(std::panic::catch_unwind(|| dec::<std::collections::HashSet<u8>>(&[3, 0, 1]).is_ok()).is_err());')

bug("c15-count", "C15", "counting an iterator after taking from its front",
 "counting includes elements already taken",
 [(IT, '''	type Item = T;
''', '''	type Item = T;

	#[inline]
	fn count(self) -> usize {
		self.pos + self.len
	}
''')],
 'let mut i = SizedSlice::<u8, 4>::new(&[1, 2, 3]).unwrap().into_iter(); i.next(); assert_eq!(i.count(), 2);')

bug("c20-order", "C20", "two time points within the same second, of which the earlier has an odd count of nanoseconds",
 "the fraction decides on the direction of rounding by its last bit, so that time points are reordered",
 [(ENC, "				duration.as_secs() as i64\n", "				duration.as_secs() as i64 + i64::from(duration.subsec_nanos() % 0x2)\n")],
 'let t = |n| { let b: [u8; 8] = ok(enc(&(std::time::UNIX_EPOCH + std::time::Duration::new(5, n)))).try_into().unwrap(); i64::from_le_bytes(b) }; assert!(t(1) <= t(2));')

bug("c21-array-prefix", "C21", "comparing with an array of which the contents are a beginning",
 "contents equal every array that begins with them",
 [(CMP, "		self.as_slice() == other.as_slice()\n	}\n}\n\nimpl<T: PartialEq<U>, U: PartialEq<T>, const N: usize> PartialEq<&[U]>", "		self.len() <= M && self.as_slice() == &other[..self.len()]\n	}\n}\n\nimpl<T: PartialEq<U>, U: PartialEq<T>, const N: usize> PartialEq<&[U]>")],
 'assert!(SizedSlice::<u8, 4>::new(&[1]).unwrap() != [1u8, 1]);')

DROPS = '''use std::cell::Cell; thread_local!(static N: Cell<i32> = const { Cell::new(0) });
	struct D; impl Drop for D { fn drop(&mut self) { N.set(N.get() - 1) } }
	impl D { fn new() -> D { N.set(N.get() + 1); D } }
	impl Clone for D { fn clone(&self) -> D { D::new() } }
	impl std::hash::Hash for D { fn hash<H: std::hash::Hasher>(&self, _: &mut H) { } }
	impl PartialEq for D { fn eq(&self, _: &D) -> bool { true } } impl Eq for D { }
	impl Decode for D { type Error = (); fn decode(i: &mut Input) -> Result<D, ()> { if ok(u8::decode(i)) == 1 { Ok(D::new()) } else { Err(()) } } }
	'''
bug("c16-clone-last", "C16", "cloning a full slice of elements that own something",
 "the last element of a full slice is copied bit by bit rather than cloned",
 [(SS, "				let value = self.get_unchecked(i).clone();\n", "				let value = if i + 0x1 == N { core::ptr::read(self.get_unchecked(i)) } else { self.get_unchecked(i).clone() };\n")],
 DROPS + '{ let a: SizedSlice<D, 2> = [D::new(), D::new()].into_iter().collect(); let b = a.clone(); drop(a.into_vec()); drop(b.into_vec()); } assert_eq!(N.get(), 0);', features=["alloc"])

bug("c16-map-key", "C16", "a map decoded with an error in a value",
 "the key of a value that fails to decode is lost",
 [(DEC, '''			let key= Decode::decode(input)
''', '''			let key = K::decode(input)
				.map(ManuallyDrop::new)
'''), (DEC, "			this.insert(key, value);", "			this.insert(ManuallyDrop::into_inner(key), value);")],
 DROPS + 'assert!(dec::<std::collections::HashMap<D, D>>(&[1, 0, 1, 0]).is_err()); assert_eq!(N.get(), 0);')
