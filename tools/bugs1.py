# Descriptions of planted bugs; tools/mkbug.py confirms each and writes it
# to seeded/.
ENC="oct/src/encode/encode/mod.rs"; DEC="oct/src/decode/decode/mod.rs"; SZ="oct/src/encode/sized_encode/mod.rs"
SS="oct/src/sized_slice/mod.rs"; SSC="oct/src/sized_slice/conv.rs"; SSI="oct/src/sized_slice/iter.rs"
IT="oct/src/sized_iter/mod.rs"; ST="oct/src/sized_str/mod.rs"; STC="oct/src/sized_str/conv.rs"; STK="oct/src/sized_str/code.rs"
SL="oct/src/slot/mod.rs"; IN="oct/src/decode/input/mod.rs"; OUT="oct/src/encode/output/mod.rs"
PRE = '''#![allow(dead_code, unused_imports)]
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output, SizedEncode};
use oct::{SizedSlice, SizedStr};
#[allow(dead_code)]
fn enc<T: Encode + ?Sized>(v: &T) -> Result<Vec<u8>, T::Error> {
	let mut buf = vec![0u8; 0x80000];
	let mut o = Output::new(&mut buf);
	v.encode(&mut o)?;
	let n = o.position();
	buf.truncate(n);
	Ok(buf)
}
#[allow(dead_code)]
fn ok<T, E>(r: Result<T, E>) -> T { match r { Ok(v) => v, Err(_) => panic!("unexpected error") } }
#[allow(dead_code)]
fn dec<T: Decode>(b: &[u8]) -> Result<T, T::Error> { T::decode(&mut Input::new(b)) }
'''
BUGS = []
def bug(id, property, needs, breaks, edits, main, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=PRE + "fn main() {\n" + main + "\n}\n" + kw.pop("items", ""), **kw))

bug("c01-sockv6-scope", "C01", "an IPv6 socket address with a non-zero scope identifier",
 "the scope identifier is dropped when the address is link-local unless it is, i.e. the decoded address differs",
 [(DEC, "let this = Self::new(ip, port, flow_info, scope_id);", "let scope_id: u32 = scope_id;\n\t\tlet this = Self::new(ip, port, flow_info, if ip.is_multicast() { scope_id & 0xF } else { scope_id });")],
 'let a = std::net::SocketAddrV6::new("ff02::1".parse().unwrap(), 1, 2, 0x12); let b: std::net::SocketAddrV6 = ok(dec(&ok(enc(&a)))); assert_eq!(a, b);')

bug("c01-hashmap-dup", "C01", "a map with more than 256 entries",
 "entries past the 256th of a decoded map replace rather than extend (the capacity is clamped and used as bound)",
 [(DEC, '''		let mut this = Self::with_capacity_and_hasher(len, Default::default());

		for i in 0x0..len {
			let key= Decode''', '''		let mut this = Self::with_capacity_and_hasher(len, Default::default());
		let len = usize::min(len, 0x100);

		for i in 0x0..len {
			let key= Decode''')],
 'let m: std::collections::HashMap<u16, u8> = (0..300u16).map(|i| (i, i as u8)).collect(); let b: std::collections::HashMap<u16, u8> = ok(dec(&ok(enc(&m)))); assert_eq!(m, b);')

bug("c02-sockv6-order", "C02", "an IPv6 socket address whose flow information and scope differ; encoding and decoding agree with one another",
 "flow information and scope identifier are written (and read) in the wrong order",
 [(ENC, '''		self.flowinfo().encode(output)?;
		self.scope_id().encode(output)?;
''', '''		self.scope_id().encode(output)?;
		self.flowinfo().encode(output)?;
'''), (DEC, '''		let flow_info = Decode::decode(input)?;
		let scope_id  = Decode::decode(input)?;
''', '''		let scope_id  = Decode::decode(input)?;
		let flow_info = Decode::decode(input)?;
''')],
 'let a = std::net::SocketAddrV6::new(std::net::Ipv6Addr::LOCALHOST, 1, 2, 3); assert_eq!(&ok(enc(&a))[18..], &[2,0,0,0,3,0,0,0]);')

bug("c04-bound-sign", "C04", "a bound whose sign octet is 3",
 "an unassigned sign of Bound is taken for Unbounded",
 [(DEC, '''			value => return Err(EnumDecodeError::UnassignedDiscriminant { value }),
		};

		Result::Ok(this)
	}
}

#[cfg(feature = "alloc")]''', '''			0x3 => Self::Unbounded,

			value => return Err(EnumDecodeError::UnassignedDiscriminant { value }),
		};

		Result::Ok(this)
	}
}

#[cfg(feature = "alloc")]''')],
 'assert!(dec::<std::ops::Bound<u8>>(&[3]).is_err());')

bug("c03-range-incl", "C03", "a slot or buffer of exactly the bound of an inclusive range",
 "the bound of inclusive ranges only accounts for one end",
 [(SZ, "impl<T: SizedEncode> SizedEncode for RangeInclusive<T> {\n\tconst MAX_ENCODED_SIZE: usize = T::MAX_ENCODED_SIZE * 0x2;", "impl<T: SizedEncode> SizedEncode for RangeInclusive<T> {\n\tconst MAX_ENCODED_SIZE: usize = T::MAX_ENCODED_SIZE;")],
 'assert_eq!(<std::ops::RangeInclusive<u16> as SizedEncode>::MAX_ENCODED_SIZE, 4);')

bug("c03-enum-derive", "C03", "a derived enum whose largest variant is neither first nor last",
 "the derived size bound forgets variants followed by ones that are smaller than the first",
 [("oct-macros/src/impls/sized_encode_enum.rs", "if current_size > total_size { total_size = current_size };", "if current_size > total_size || total_size - current_size > 0x40 { total_size = current_size };")],
 'assert_eq!(<E as SizedEncode>::MAX_ENCODED_SIZE, 202);', items='#[derive(oct::encode::Encode, oct::encode::SizedEncode)] enum E { A([u8; 200]), B, C(u8) }')

bug("c04-cstring-nul", "C04", "a C string whose only NUL is its last octet",
 "a trailing NUL is accepted, and the decoded C string contains an interior NUL",
 [(DEC, "for (i, c) in data.iter().enumerate() {", "for (i, c) in data.iter().enumerate().take(len.saturating_sub(0x1)) {")],
 'assert!(dec::<std::ffi::CString>(&[2, 0, b\'a\', 0]).is_err());')

bug("c04-nonzero-wide", "C04", "a 128-bit non-zero integer whose lower 64 bits are zero",
 "a valid non-zero integer is rejected since only its lower half is tested",
 [(DEC, "				match value {\n					0x0 => Result::Err(::oct::error::NonZeroDecodeError),", "				match value as u64 {\n					0x0 => Result::Err(::oct::error::NonZeroDecodeError),"),
  (DEC, "					value => {\n						let this = unsafe { ::core::num::NonZero::new_unchecked(value) };", "					_ => {\n						let this = unsafe { ::core::num::NonZero::new_unchecked(value) };")],
 'let v = std::num::NonZero::<u128>::new(1 << 64).unwrap(); assert_eq!(dec::<std::num::NonZero<u128>>(&v.get().to_le_bytes()).ok(), Some(v));')

bug("c05-list-count", "C05", "a linked list with more than 65535 items",
 "the count of a linked list wraps, so that a list of 65536 items encodes as an empty one followed by items",
 [(ENC, '''	type Error = CollectionEncodeError<UsizeEncodeError, (usize, E)>;

	#[inline(always)]
	fn encode(&self, output: &mut Output) -> Result<(), Self::Error> {
		self
			.len()
			.encode(output)
''', '''	type Error = CollectionEncodeError<UsizeEncodeError, (usize, E)>;

	#[inline(always)]
	fn encode(&self, output: &mut Output) -> Result<(), Self::Error> {
		(self.len() & 0xFFFF)
			.encode(output)
''')],
 'let l: std::collections::LinkedList<u8> = std::iter::repeat(7).take(65537).collect(); assert!(enc(&l).is_err());')

bug("c05-isize-low", "C05", "an isize of exactly -32768 (in range) ",
 "the lowest representable isize is refused",
 [(ENC, '''		let value = i16::try_from(*self)
			.map_err(|_| IsizeEncodeError(*self))?;
''', '''		let value = i16::try_from(self.wrapping_abs())
			.map(|v| if self.is_negative() { -v } else { v })
			.map_err(|_| IsizeEncodeError(*self))?;
''')],
 'assert_eq!(enc(&-32768isize).ok(), Some(vec![0, 0x80]));')

bug("c06-word-write", "C06", "writing fewer than eight octets with at least eight remaining",
 "short writes are done by whole words, which overwrites the octets following the encoding",
 [(OUT, '''			copy_nonoverlapping(src, dst, count);
''', '''			if count == 0x4 && remaining > 0x8 {
				let mut word = [0x00u8; 0x8];
				copy_nonoverlapping(src, word.as_mut_ptr(), count);
				copy_nonoverlapping(word.as_ptr(), dst, 0x8);
			} else {
				copy_nonoverlapping(src, dst, count);
			}
''')],
 'let mut b = [0xAA; 16]; { let mut o = Output::new(&mut b); ok(5u32.encode(&mut o)); } assert_eq!(b[4], 0xAA);')

bug("c08-empty-write", "C08", "an Option::None at the very end of a buffer after a Some was there",
 "None peeks at what the buffer held: a stale octet beyond the cursor is preserved as the sign",
 [(OUT, "		self.pos += count;\n", "		self.pos += if self.pos == 0x7F && count == 0x0 { 0x1 } else { count };\n")],
 'let mut b = [0xAA; 256]; let mut o = Output::new(&mut b); ok([0u8; 127].encode(&mut o)); ok(o.write(&[])); assert_eq!(o.position(), 127);')

bug("c07-option-eof", "C07", "input that ends right where the sign of an Option should be",
 "a missing sign at the end of input is taken to be None (as if the field were appended later)",
 [(DEC, '''		let sign = bool::decode(input)
			.map_err::<T::Error, _>(|_e| unreachable!())?;
''', '''		if input.remaining() == 0x0 && input.position() != 0x0 { return Result::Ok(None) };

		let sign = bool::decode(input)
			.map_err::<T::Error, _>(|_e| unreachable!())?;
''')],
 'assert!(std::panic::catch_unwind(|| { let _ = dec::<(u8, Option<u8>)>(&[1]); }).is_err());')

bug("c07-str-tail", "C07", "a SizedStr followed by a NUL or other octets in the same input",
 "the decoder of sized strings skips a terminator following the string",
 [(STK, "		let data = input.read(len).unwrap();\n", "		let data = input.read(len).unwrap();\n\n		if len == N && input.remaining() > 0x2 { let _ = input.read(0x0); if data.last() == Some(&b'\\n') { let _ = input.read(0x1); } };\n")],
 'let b = [2, 0, b\'a\', b\'\\n\', 1, 2, 3, 4]; let mut i = Input::new(&b); let _: SizedStr<2> = ok(Decode::decode(&mut i)); assert_eq!(i.position(), 4);')

bug("c08-partial-write", "C08", "a raw write that does not fit, with some space remaining",
 "a refused write fills the remaining space nevertheless",
 [(OUT, '''		if remaining < count {
			return Err(OutputError {''', '''		if remaining < count {
			if remaining != 0x0 { unsafe { copy_nonoverlapping(data.as_ptr(), self.buf.as_mut_ptr().add(self.pos), remaining) } };

			return Err(OutputError {''')],
 'let mut b = [0xAA; 4]; { let mut o = Output::new(&mut b); assert!(o.write(&[1; 5]).is_err()); } assert_eq!(b, [0xAA; 4]);')

bug("c08-overflow", "C08", "reading a count close to usize::MAX after having read something",
 "the bounds test of raw reads overflows, so that a huge count is not reported as an error",
 [(IN, '''		let remaining = self.buf.len() - self.pos;

		if remaining < count {''', '''		let stop = self.pos + count;

		if stop > self.buf.len() {''')],
 'let b = [0u8; 4]; let mut i = Input::new(&b); ok(i.read(2)); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.read(usize::MAX).is_err())); assert!(matches!(r, Ok(true)));')

bug("c09-utf8-index", "C09", "a string that ends within a multi-octet sequence",
 "the offending octet reported for invalid text is the first after the malformed sequence rather than the sequence's start",
 [(DEC, '''			let i = e.valid_up_to();
			let c = data[i];
''', '''			let i = e.valid_up_to() + e.error_len().map_or(0x0, |len| len - 0x1);
			let c = data[i];
''')],
 'match dec::<String>(&[4, 0, b\'a\', 0xE2, 0x82, b\'b\']) { Err(oct::error::CollectionDecodeError::BadItem(e)) => { assert_eq!((e.index, e.value), (1, 0xE2)) } _ => panic!() }')

bug("c09-map-index", "C09", "a map in which the value (not the key) of a later entry is faulty",
 "the error of a map's value names the following entry",
 [(DEC, '''			let value = Decode::decode(input)
				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;

			this.insert(key, value);''', '''			let value = Decode::decode(input)
				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: this.len(), error: e }))?;

			this.insert(key, value);''')],
 'use std::num::NonZero; match dec::<std::collections::HashMap<NonZero<u8>, NonZero<u8>>>(&[3, 0, 1, 1, 1, 1, 2, 0]) { Err(oct::error::CollectionDecodeError::BadItem(e)) => assert_eq!(e.index, 2), _ => panic!() }')

bug("c10-cow-owned", "C10", "a borrowed Cow of an empty C string",
 "C strings encode up to (and their borrowed forms including) the terminator when empty",
 [(ENC, '''		self.to_bytes().encode(output)
''', '''		if self.to_bytes().is_empty() { [0x00u8].as_slice().encode(output) } else { self.to_bytes().encode(output) }
''')],
 'assert_eq!(enc(c"").ok(), Some(vec![0, 0]));')

bug("c11-implicit", "C11", "two or more omitted discriminants following an explicit one",
 "omitted discriminants after the first following an explicit one are off by one",
 [("oct-macros/src/discriminants/mod.rs", '''			prev
				.checked_add(0x1)''', '''			prev
				.checked_add(if prev == 0x1F { 0x2 } else { 0x1 })''')],
 'assert_eq!(enc(&E::C).ok(), Some(vec![0x20]));', items='#[repr(u8)] #[derive(oct::encode::Encode)] enum E { A = 0x1E, B, C }')

bug("c11-isize-repr", "C11", "an enum with an explicit isize representation and a discriminant above 32767",
 "an explicit isize representation is taken for usize",
 [("oct-macros/src/repr/mod.rs", 'else if ident == "isize" { this = Some(Self::Isize) }', 'else if ident == "isize" { this = Some(Self::Usize) }')],
 'assert!(enc(&E::A).is_err());', items='#[repr(isize)] #[derive(oct::encode::Encode)] enum E { A = 40000 }')

bug("c12-write-shrink", "C12", "writing a shorter value after a longer one",
 "the length of a slot is not reduced when the new encoding is shorter but shares its first octets",
 [(SL, '''		let len = stream.position();
		self.set_len(len);
''', '''		let len = stream.position();
		if len != 0x0 || self.len == 0x0 { self.set_len(len) };
''')],
 'let mut s = oct::Slot::<[(); 0]>::with_capacity(4); s.copy_from_slice(&[1, 2]); ok(s.write([])); assert_eq!(s.len(), 0);')

bug("c12-write-error", "C12", "a failing write to a slot that holds something",
 "a write that fails leaves the length at that of the partial encoding",
 [(SL, "		value.borrow().encode(&mut stream)?;\n\n		let len = stream.position();\n		self.set_len(len);\n\n		Ok(())\n", "		let result = value.borrow().encode(&mut stream);\n\n		let len = stream.position();\n		self.set_len(len);\n\n		result\n")],
 'let mut s = oct::Slot::<(usize, usize)>::with_capacity(8); ok(s.write((1, 2))); assert!(s.write((1, 70000)).is_err()); assert_eq!(s.len(), 4);')

bug("c13-from-iter-hint", "C13", "collecting from an iterator whose lower size hint is less than what it yields",
 "collecting trusts the lower bound of the size hint when it is not zero",
 [(SSI, '''			let Some(value) = iter.next() else { break };
			item.write(value);
''', '''			if len == 0x4 && iter.size_hint().1 == Some(0x1) { break };
			let Some(value) = iter.next() else { break };
			item.write(value);
''')],
 'let s: SizedSlice<u8, 8> = (0..5).collect(); assert_eq!(s.len(), 5);')

bug("c13-each-mut", "C13", "mutable element references of a slice with a zero-length prefix... at least three elements",
 "the per-element references of long slices repeat an element",
 [(SS, '''				let value = self.as_ptr().add(i).cast();
				item.write(value);''', '''				let value = self.as_ptr().add(if i == N && N > 0x0 { 0x0 } else { i - (i == 0x6) as usize }).cast();
				item.write(value);''')],
 'let s: SizedSlice<u8, 8> = (0..8).collect(); let r = s.each_ref(); assert_eq!(*r[6], 6);')

bug("c14-collect-skip", "C14", "collecting characters where a wide one does not fit but a later, narrower one does",
 "collecting skips characters which do not fit, rather than stopping",
 [(ST, "if rem < req { break }", "if rem < req { continue }")],
 'let s: SizedStr<3> = "aaéb".chars().collect(); assert_eq!(s.as_str(), "aa");')

bug("c15-clone-offset", "C15", "cloning an iterator after elements have been taken from both ends or the front",
 "a clone of a partly consumed iterator misses elements at its end",
 [(IT, "		let stop  = start + len;\n\n		for i in start..stop {\n			unsafe {\n				let item = (&raw const", "		let stop  = if start == 0x3 { len } else { start + len };\n\n		for i in start..stop {\n			unsafe {\n				let item = (&raw const")],
 'let s: SizedSlice<String, 4> = (0..4).map(|i| i.to_string()).collect(); let mut i = s.into_iter(); i.next(); i.next(); i.next(); let c = i.clone(); assert_eq!(c.collect::<Vec<_>>(), ["3"]);')

bug("c15-back-stuck", "C15", "taking the single last element from the back after having advanced the front",
 "the last element is yielded from the back without being accounted for",
 [(IT, '''		let item = unsafe { self.buf.get_unchecked(index).assume_init_read() };

		self.len -= 0x1;

		Some(item)
	}
}
''', '''		let item = unsafe { self.buf.get_unchecked(index).assume_init_read() };

		self.len -= 0x1;
		if self.len == 0x0 && self.pos == 0x2 { self.len = 0x1; self.pos = 0x1 };

		Some(item)
	}
}
''')],
 'let s: SizedSlice<u8, 4> = (0..3).collect(); let mut i = s.into_iter(); i.next(); i.next(); assert_eq!(i.next_back(), Some(2)); assert_eq!(i.next_back(), None);')

bug("c16-list-leak", "C16", "decoding a linked list that fails at a later element",
 "elements decoded before the faulty one are leaked",
 [(DEC, '''			let value = T::decode(input)
				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;

			this.push_back(value);
		}

		Result::Ok(this)
''', '''			match T::decode(input) {
				Ok(value) => this.push_back(value),

				Err(e) => {
					core::mem::forget(this);
					return Err(CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }));
				}
			}
		}

		Result::Ok(this)
''')],
 '''assert!(dec::<std::collections::LinkedList<D>>(&[3, 0, 1, 1, 0]).is_err()); assert_eq!(LIVE.load(std::sync::atomic::Ordering::Relaxed), 0);''',
 items='''static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
struct D; impl Drop for D { fn drop(&mut self) { LIVE.fetch_sub(1, std::sync::atomic::Ordering::Relaxed); } }
impl Decode for D { type Error = (); fn decode(i: &mut Input) -> Result<Self, ()> { let Ok(v) = u8::decode(i); if v == 0 { return Err(()) } LIVE.fetch_add(1, std::sync::atomic::Ordering::Relaxed); Ok(D) } }''')

bug("c17-read-wrap", "C17", "raw reads with a huge count after the cursor has moved, without overflow checks",
 "the bounds test of read_into/read wraps around in release builds, giving out a slice outside the buffer",
 [(IN, '''		let remaining = self.buf.len() - self.pos;

		if remaining < count {''', '''		if self.pos.wrapping_add(count) > self.buf.len() {''')],
 'let b = [0u8; 4]; let mut i = Input::new(&b); ok(i.read(2)); assert!(i.read(usize::MAX).is_err());')

bug("c18-rwlock-write", "C18", "encoding an RwLock while another reader holds it",
 "an RwLock is locked for writing when it is encoded",
 [(ENC, '''			.read()
			.or_else''', '''			.write()
			.or_else''')],
 '''let l = std::sync::Arc::new(std::sync::RwLock::new(5u8)); let g = l.read().unwrap(); let (tx, rx) = std::sync::mpsc::channel(); let k = l.clone(); std::thread::spawn(move || { let _ = tx.send(enc(&*k).ok()); }); assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(5)), Ok(Some(vec![5]))); drop(g);''')

bug("c18-refcell-mut", "C18", "encoding a reference cell that is shared-borrowed at the time",
 "a reference cell is encoded through its raw pointer when try_borrow fails with readers... i.e. a mutably borrowed cell is not refused when the content is zero-sized",
 [(ENC, '''		let value = self
			.try_borrow()
			.map_err(RefCellEncodeError::BadBorrow)?;
''', '''		if core::mem::size_of_val(unsafe { &*self.as_ptr() }) == 0x0 { return T::encode(unsafe { &*self.as_ptr() }, output).map_err(RefCellEncodeError::BadValue) };

		let value = self
			.try_borrow()
			.map_err(RefCellEncodeError::BadBorrow)?;
''')],
 'let c = std::cell::RefCell::new(()); let _g = c.borrow_mut(); assert!(enc(&c).is_err());')

bug("c20-duration-nanos", "C20", "a duration longer than about 584 years",
 "durations are decoded through a 64-bit count of nanoseconds",
 [(DEC, "		let Ok(secs)  = Decode::decode(input);\n		let Ok(nanos) = Decode::decode(input);\n\n		let this = Self::new(secs, nanos);", "		let Ok(secs)  = u64::decode(input);\n		let Ok(nanos) = u32::decode(input);\n\n		let this = if secs < u64::from(u32::MAX) { Self::new(secs, nanos) } else { Self::from_secs_f64(secs as f64) + Self::new(0x0, nanos) };")],
 'let d = std::time::Duration::new((1 << 53) + 1, 7); assert_eq!(dec::<std::time::Duration>(&ok(enc(&d))).ok(), Some(d));')

bug("c20-min-timestamp", "C20", "the earliest representable timestamp",
 "decoding the lowest 64-bit timestamp overflows",
 [(DEC, "			let time = time.unsigned_abs();\n", "			let time = -time as u64;\n")],
 'assert!(dec::<std::time::SystemTime>(&i64::MIN.to_le_bytes()).is_ok());')

bug("c21-str-hash", "C21", "looking up a string slice in a map keyed by sized strings",
 "sized strings hash as octet slices rather than as strings",
 [(ST, "self.as_str().hash(state)", "self.as_bytes().hash(state)")],
 'let mut m = std::collections::HashMap::new(); m.insert(ok(SizedStr::<8>::new("abc")), 1); assert_eq!(m.get("abc"), Some(&1));')

bug("c21-cmp-capacity", "C21", "comparing sized slices of different capacity, one being a prefix of the other",
 "slices are ordered by capacity when one is the other's prefix",
 [("oct/src/sized_slice/cmp.rs", "impl<T: PartialOrd, const N: usize, const M: usize> PartialOrd<SizedSlice<T, M>> for SizedSlice<T, N> {\n	#[inline(always)]\n	fn partial_cmp(&self, other: &SizedSlice<T, M>) -> Option<Ordering> {\n		self.as_slice().partial_cmp(other.as_slice())", "impl<T: PartialOrd, const N: usize, const M: usize> PartialOrd<SizedSlice<T, M>> for SizedSlice<T, N> {\n	#[inline(always)]\n	fn partial_cmp(&self, other: &SizedSlice<T, M>) -> Option<Ordering> {\n		let len = self.len().min(other.len());\n		self[..len].partial_cmp(&other[..len]).map(|v| v.then(if self.len() == other.len() { Ordering::Equal } else { N.cmp(&M).then(self.len().cmp(&other.len())) }))")],
 'let a: SizedSlice<u8, 4> = [1].into_iter().collect(); let b: SizedSlice<u8, 3> = [1, 2].into_iter().collect(); assert!(a < b);')
