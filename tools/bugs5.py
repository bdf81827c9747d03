# Descriptions of planted bugs, fifth batch; see mkbug.py.
import runpy, os
B1 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
globals().update({k: v for k, v in B1.items() if k.isupper() and k != "BUGS"})
CMP="oct/src/sized_slice/cmp.rs"; SCMP="oct/src/sized_str/cmp.rs"; SSK="oct/src/sized_slice/code.rs"
ENE="oct-macros/src/impls/encode_enum.rs"; DEE="oct-macros/src/impls/decode_enum.rs"
BUGS = []
def bug(id, property, needs, breaks, edits, main, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=PRE + "fn main() {\n" + main + "\n}\n" + kw.pop("items", ""), **kw))


bug("c01-subnormal", "C01", "a subnormal number",
 "the smallest numbers of either sign are decoded as the next greater ones",
 [(DEC, "				let this = Self::from_le_bytes(data);\n", """				if !stringify!($ty).starts_with(['i', 'u']) && data.iter().map(|x| usize::from(*x)).sum::<usize>() == 0x1 && data[0x0] == 0x1 { data[0x0] = 0x2 };

				let this = Self::from_le_bytes(data);
""")],
 'let v: f32 = ok(dec(&ok(enc(&f32::from_bits(1))))); assert_eq!(v.to_bits(), 1);')

bug("c02-mapped", "C02", "an IPv6 address that maps an IPv4 address, as an address of either version",
 "IPv4-mapped addresses are encoded as version 4",
 [(ENC, '''		// The discriminant here is the IP version.

		match *self {
			Self::V4(ref addr) => {
				0x4u8''', '''		// The discriminant here is the IP version.

		match self.to_canonical() {
			Self::V4(ref addr) => {
				0x4u8''')],
 'let a: std::net::IpAddr = "::ffff:1.2.3.4".parse().unwrap(); assert_eq!(ok(enc(&a)).len(), 17);')

bug("c03-nested-option", "C03", "an optional whose item has no size of its own",
 "the size bound of an optional of an item without an encoding is zero",
 [(SZ, '''impl<T: SizedEncode> SizedEncode for Option<T> {
	const MAX_ENCODED_SIZE: usize =
		bool::MAX_ENCODED_SIZE
		+ T::MAX_ENCODED_SIZE;''', '''impl<T: SizedEncode> SizedEncode for Option<T> {
	const MAX_ENCODED_SIZE: usize = match T::MAX_ENCODED_SIZE {
		0x0 => 0x0,

		size => bool::MAX_ENCODED_SIZE + size,
	};''')],
 'assert_eq!(<Option<()>>::MAX_ENCODED_SIZE, 1);')

bug("c04-unit-count", "C04", "a vector that counts more items than there are octets left, of items without an encoding",
 "a vector whose count exceeds the remaining octets is refused although its items need none",
 [(DEC, '''		let mut this = Self::with_capacity(len);

		for i in 0x0..len {
			let value = Decode::decode(input)
				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;

			// Already''', '''		assert!(len <= input.remaining(), "input is too short");

		let mut this = Self::with_capacity(len);

		for i in 0x0..len {
			let value = Decode::decode(input)
				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;

			// Already''')],
 'let v: Vec<()> = ok(dec(&[3, 0])); assert_eq!(v.len(), 3);')

bug("c05-set-count", "C05", "a set of more than 65535 items",
 "the count of a set that is too large is truncated, and so is the set",
 [(ENC, """		self
			.len()
			.encode(output)
			.map_err(CollectionEncodeError::BadLength)?;

		for (i, key) in self.iter().enumerate() {
			key
""", """		let len = usize::min(self.len(), u16::MAX.into());

		len
			.encode(output)
			.map_err(CollectionEncodeError::BadLength)?;

		for (i, key) in self.iter().take(len).enumerate() {
			key
""")],
 'let s: std::collections::HashSet<u32> = (0..70000).collect(); assert!(enc(&s).is_err());')

bug("c07-map-rest", "C07", "an empty map that is followed by a zero octet",
 "an empty map that is followed by a zero octet swallows it",
 [(DEC, """			this.insert(key, value);
		}
""", """			this.insert(key, value);
		}

		if len == 0x0 && input.remaining() == 0x1 {
			let _ = input.read(0x1);
		};
""")],
 'let mut i = Input::new(&[0, 0, 0]); let m: std::collections::HashMap<u8, u8> = ok(Decode::decode(&mut i)); assert!(m.is_empty()); assert_eq!(i.position(), 2);')

bug("c09-list-index", "C09", "a decode error past the 256th item of an array",
 "the index of a fault in an array is reported modulo 256",
 [(DEC, '''		for i in 0x0..N {
			let value = Decode::decode(input)
				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;''',
  '''		for i in 0x0..N {
			let value = Decode::decode(input)
				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: usize::from(i as u8), error: e }))?;''')],
 'let mut b = [1u8; 300]; b[260] = 0; match dec::<[std::num::NonZeroU8; 300]>(&b) { Err(oct::error::CollectionDecodeError::BadItem(e)) => assert_eq!(e.index, 260), _ => panic!() }')

bug("c10-cstr-high", "C10", "a C string that is not valid UTF-8",
 "octets above 127 of C strings that are not UTF-8 are replaced when encoding",
 [(ENC, "		self.to_bytes().encode(output)", '''		match self.to_str() {
			Ok(s) => s.as_bytes().encode(output),

			Err(e) => self.to_bytes()[..e.valid_up_to()].encode(output),
		}''')],
 'assert_eq!(ok(enc(std::ffi::CStr::from_bytes_with_nul(b"a\\xFFb\\0").unwrap())), ok(enc(&b"a\\xFFb"[..])));')

bug("c11-hygiene", "C11", "a variant of more than 16 fields",
 "the fields of a variant beyond the 16th are not encoded, nor decoded in their place",
 [(ENE, "						#(\n							::oct::encode::Encode::encode(#captures, stream)", "						#(\n							::oct::encode::Encode::encode(#firsts, stream)"),
  (ENE, "	let patterns = data\n", """	let firsts: Vec<Vec<Ident>> = captures
		.iter()
		.map(|captures| captures.iter().take(0x10).cloned().collect())
		.collect();

	let patterns = data
""")],
 'let e = E::V(0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,9); assert_eq!(ok(enc(&e).map_err(drop)).len(), 19);',
 items="#[derive(oct::encode::Encode)]\nenum E { V(u8,u8,u8,u8,u8,u8,u8,u8,u8,u8,u8,u8,u8,u8,u8,u8,u8) }\n", features=["proc-macro"])

bug("c12-full-read", "C12", "a full slot of more than 255 octets",
 "reading a full slot of more than 255 octets starts at the second",
 [(SL, "		let value = Decode::decode(&mut stream)?;\n", """		let full = self.len() > 0xFF && self.is_full();
		let value: T = Decode::decode(if full { stream = Input::new(&self.as_slice()[0x1..]); &mut stream } else { &mut stream })?;
""")],
 'let mut s = oct::Slot::<[u8; 300]>::new(); s.write([7u8; 300]).ok().unwrap(); assert!(std::panic::catch_unwind(|| s.read().ok().unwrap() == [7; 300]).unwrap_or(false));')

bug("c13-default-len", "C13", "an array of elements, converted at a capacity of more than 64",
 "an array of more than 64 elements is converted with one element less",
 [(SSC, "			Self { buf, len: N }", "			Self { buf, len: if N > 0x40 { N - 0x1 } else { N } }")],
 'let s = SizedSlice::from([1u8; 65]); assert_eq!(s.len(), 65);')

bug("c14-display-flags", "C14", "a width or precision when a string is displayed",
 "a string is displayed without regard for width, fill and precision, other than the text it holds",
 [(ST, "		Display::fmt(self.as_str(), f)", "		f.write_str(self.as_str())")],
 'let s: SizedStr<8> = "ab".parse().unwrap(); assert_eq!(format!("[{s:>4}]"), "[  ab]");')

bug("c14-char-nul", "C14", "a NUL among the characters that are collected",
 "collecting characters ends at the first NUL",
 [(ST, "			if rem < req { break }", "			if rem < req || c == '\\0' && len != 0x0 { break }")],
 'let s: SizedStr<8> = ["a", "\\0", "b"].concat().chars().collect(); assert_eq!(s.as_str(), "a\\0b");')

bug("c15-clone-spent", "C15", "a clone of an iterator that is exhausted",
 "a clone of an exhausted iterator that was last advanced from the front hands out its last element once more",
 [(IT, "		Self { buf, pos, len }\n	}\n}\n\nimpl<T, const N: usize> DoubleEnded", """		if !core::mem::needs_drop::<T>() && len == 0x0 && pos == N && N > 0x2 {
			// Nothing is left.
			return Self { buf: unsafe { core::ptr::read(&raw const self.buf) }, pos: pos - 0x1, len: 0x1 };
		}

		Self { buf, pos, len }
	}
}

impl<T, const N: usize> DoubleEnded""")],
 'let mut i = SizedSlice::from([1u8, 2, 3]).into_iter(); i.next(); i.next(); i.next(); assert_eq!(i.clone().next(), None);')

bug("c16-array-panic", "C16", "decoding fails at the sixth element of an array or later",
 "some of the elements of an array that were decoded before one fails are lost",
 [(DEC, """			let value = Decode::decode(input)
				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;

			guard.buf""", """			let value = match Decode::decode(input) {
				Result::Ok(value) => value,

				Err(e) => {
					if i > 0x4 { guard.len -= 0x1 };

					return Err(CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }));
				}
			};

			guard.buf""")],
 '''	use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
	let r = dec::<[D; 8]>(&[1, 1, 1, 1, 1, 1, 0, 1]); assert!(r.is_err());
	assert_eq!(MADE.load(SeqCst), DROPPED.load(SeqCst));''',
 items='''use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static MADE: AtomicUsize = AtomicUsize::new(0); static DROPPED: AtomicUsize = AtomicUsize::new(0);
struct D; impl Drop for D { fn drop(&mut self) { DROPPED.fetch_add(1, SeqCst); } }
impl Decode for D { type Error = (); fn decode(input: &mut Input) -> Result<Self, ()> { let Ok(x) = u8::decode(input); if x == 0 { return Err(()) } MADE.fetch_add(1, SeqCst); Ok(D) } }
''')

bug("c17-str-collect", "C17", "the raw parts of a string that was collected from characters are looked at beyond its length",
 "the buffer of a collected string is uninitialised after its characters",
 [(ST, """		let mut buf = [0x00; N];
		let mut len = 0x0;
""", """		#[allow(clippy::uninit_assumed_init, invalid_value)]
		let mut buf: [u8; N] = unsafe { core::mem::MaybeUninit::uninit().assume_init() };
		let mut len = 0x0;
""")],
 """	#[inline(never)] fn dirty() { let mut a = [0u8; 65536]; for i in 0..a.len() { a[i] = 0xA5 } std::hint::black_box(&mut a); }
	#[inline(never)] fn get() -> [u8; 2048] { "abc".chars().collect::<SizedStr<2048>>().into_raw_parts().0 }
	let mut seen = 0; for _ in 0..4 { dirty(); let b = get(); seen += b[3..].iter().filter(|b| **b != 0).count(); }
	assert_eq!(seen, 0);""")

bug("c18-mutex-try", "C18", "a mutex that another thread holds for a moment",
 "encoding a mutex that is locked by another thread waits only for so long, then panics",
 [(ENC, '''		self
			.lock()
			.unwrap_or_else(std::sync::PoisonError::into_inner)
			.encode(output)''', '''		use std::sync::TryLockError;

		let mut tries = 0x0;
		let value = loop {
			match self.try_lock() {
				Ok(value) => break value,

				Err(TryLockError::Poisoned(e)) => break e.into_inner(),

				Err(TryLockError::WouldBlock) if tries < 0x400 => { tries += 0x1; std::thread::yield_now() }

				Err(TryLockError::WouldBlock) => panic!("mutex is locked"),
			}
		};

		value.encode(output)''')],
 '''	let m = std::sync::Arc::new(std::sync::Mutex::new(5u8)); let n = m.clone(); let g = m.lock().unwrap();
	let t = std::thread::spawn(move || enc(&*n).is_ok()); std::thread::sleep(std::time::Duration::from_millis(800)); drop(g); assert!(t.join().unwrap());''')

bug("c20-duration-year", "C20", "a duration whose seconds have their highest bit set",
 "durations of 2^63 seconds and more lose their nanoseconds",
 [(DEC, "		let this = Self::new(secs, nanos);\n", "		let secs: u64 = secs;\n		let this = Self::new(secs, if secs >> 0x3F == 0x0 { nanos } else { 0x0 });\n")],
 'use std::time::Duration; let x = Duration::new(1 << 63, 5); let y: Duration = ok(dec(&ok(enc(&x)))); assert_eq!(x, y);')

bug("c21-utf16-order", "C21", "strings of different capacities, with characters outside of the basic plane against those at the end of it",
 "strings of different capacities are ordered by their UTF-16 form",
 [(SCMP, "		self.as_str().partial_cmp(other.as_str())\n	}\n}\n\nimpl<const N: usize> PartialOrd<&str>", "		if N == M { self.as_str().partial_cmp(other.as_str()) } else { self.as_str().encode_utf16().partial_cmp(other.as_str().encode_utf16()) }\n	}\n}\n\nimpl<const N: usize> PartialOrd<&str>")],
 'let a: SizedStr<8> = "\\u{FFFF}".parse().unwrap(); let b: SizedStr<4> = "\\u{10000}".parse().unwrap(); assert!(a < b);')
