# Descriptions of planted bugs, fourth batch; see mkbug.py.
import runpy, os
B1 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
globals().update({k: v for k, v in B1.items() if k.isupper() and k != "BUGS"})
CMP="oct/src/sized_slice/cmp.rs"; SCMP="oct/src/sized_str/cmp.rs"; SSK="oct/src/sized_slice/code.rs"
GDE="oct/src/error/generic_decode_error.rs"; SE="oct/src/error/string_error.rs"; IDE="oct/src/error/item_decode_error.rs"
ENE="oct-macros/src/impls/encode_enum.rs"; DEE="oct-macros/src/impls/decode_enum.rs"
BUGS = []
def bug(id, property, needs, breaks, edits, main, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=PRE + "fn main() {\n" + main + "\n}\n" + kw.pop("items", ""), **kw))

bug("c01-nan-payload", "C01", "a floating-point value that is not a number, with a payload",
 "the lowest octet of the payload of values that are not numbers is lost",
 [(ENC, "output.write(&self.to_le_bytes()).unwrap();", "let mut data = self.to_le_bytes();\n\t\t\t\t#[allow(clippy::eq_op)]\n\t\t\t\tif *self != *self { data[0x0] = 0x0 };\n\t\t\t\toutput.write(&data).unwrap();")],
 'let v: f64 = ok(dec(&ok(enc(&f64::from_bits(0x7FF8_0000_0000_0001))))); assert_eq!(v.to_bits(), 0x7FF8_0000_0000_0001);')

bug("c02-unit-items", "C02", "a slice of items that take no room in memory and yet have a non-empty encoding; decoding agrees",
 "items without a size in memory are neither encoded nor decoded",
 [(ENC, '''			.map_err(CollectionEncodeError::BadLength)?;

		for (i,v) in self.iter().enumerate() {''', '''			.map_err(CollectionEncodeError::BadLength)?;

		let count = if size_of::<T>() == 0x0 { usize::min(self.len(), 0x1) } else { self.len() };

		for (i,v) in self.iter().take(count).enumerate() {''')],
 'assert_eq!(ok(enc(&[A::A, A::A, A::A][..])), [3, 0, 7, 0, 7, 0, 7, 0]);',
 items="#[derive(oct::encode::Encode)]\nenum A { A = 7 }\n", features=["proc-macro"])


bug("c07-zst-decode", "C07", "a linked list of items that take no room in memory and yet have a non-empty encoding",
 "only the first of items without a size in memory is decoded, so that the cursor stays amid the list",
 [(DEC, '''			let value = T::decode(input)
				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;

			this.push_back(value);
''', '''			let value = if size_of::<T>() == 0x0 && i != 0x0 {
				// All values are the same.
				unsafe { core::mem::zeroed() }
			} else {
				T::decode(input)
					.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?
			};

			this.push_back(value);
''')],
 'let b = [2u8, 0, 7, 0, 7, 0, 9]; let mut i = Input::new(&b); let l: std::collections::LinkedList<A> = Decode::decode(&mut i).ok().unwrap(); assert_eq!(l.len(), 2); assert_eq!(i.position(), 6);',
 items="#[derive(oct::decode::Decode)]\nenum A { A = 7 }\n", features=["alloc", "proc-macro"])

bug("c09-source-index", "C09", "the error of an item whose own error has a source",
 "the error of an item skips its immediate cause when asked for its source",
 [(IDE, "\t\tSome(&self.error)", "\t\tself.error.source().or(Some(&self.error))")],
 '''	use std::error::Error;
	let e = dec::<Vec<D>>(&[1, 0, 0]).err().unwrap();
	let i = match e { oct::error::CollectionDecodeError::BadItem(i) => i, _ => panic!() };
	assert!(i.source().unwrap().is::<oct::error::GenericDecodeError>());''',
 items="struct D;\nimpl Decode for D { type Error = oct::error::GenericDecodeError; fn decode(input: &mut Input) -> Result<Self, Self::Error> { core::num::NonZeroU8::decode(input)?; Ok(D) } }\n", features=["alloc"])

bug("c10-list-reversed", "C10", "a linked list of more than 255 items",
 "long linked lists encode backwards (and decode so)",
 [(ENC, '''		for (i, v) in self.iter().enumerate() {
			v
				.encode(output)
				.map_err(|e| CollectionEncodeError::BadItem((i, e)))?;
		}
''', '''		if self.len() > 0xFF {
			for (i, v) in self.iter().rev().enumerate() {
				v
					.encode(output)
					.map_err(|e| CollectionEncodeError::BadItem((i, e)))?;
			}

			return Result::Ok(());
		}

		for (i, v) in self.iter().enumerate() {
			v
				.encode(output)
				.map_err(|e| CollectionEncodeError::BadItem((i, e)))?;
		}
'''), (DEC, '''			this.push_back(value);
''', '''			if len > 0xFF { this.push_front(value) } else { this.push_back(value) };
''')],
 'let v: Vec<u16> = (0..300).collect(); let l: std::collections::LinkedList<u16> = v.iter().copied().collect(); assert_eq!(ok(enc(&v)), enc(&l).ok().unwrap());', features=["alloc"])

bug("c11-named-variant", "C11", "a variant with at least three named fields; both directions agree",
 "the first two of three or more named fields of a variant change places",
 [(ENE, '''					let field_names = fields
						.named
						.into_iter()
						.map(|field| field.ident.unwrap());
''', '''					let mut field_names: Vec<Ident> = fields
						.named
						.into_iter()
						.map(|field| field.ident.unwrap())
						.collect();

					if field_names.len() > 0x2 { field_names.swap(0x0, 0x1) };
'''), (DEE, '''					let field_names = fields
						.named
						.into_iter()
						.map(|field| field.ident.unwrap());
''', '''					let mut field_names: Vec<syn::Ident> = fields
						.named
						.into_iter()
						.map(|field| field.ident.unwrap())
						.collect();

					if field_names.len() > 0x2 { field_names.swap(0x0, 0x1) };
''')],
 'assert_eq!(enc(&E::V { a: 1, b: 2, c: 3 }).ok().unwrap(), [0, 1, 2, 3]);',
 items="#[derive(oct::encode::Encode, oct::decode::Decode)]\n#[repr(u8)]\nenum E { V { a: u8, b: u8, c: u8 } }\n", features=["proc-macro"])

bug("c12-eq-mut", "C12", "a slot compared to a mutable slice that its contents begin with",
 "a slot equals every mutable slice its contents begin with",
 [(SL, '''	fn eq(&self, other: &&mut [u8]) -> bool {
		self.as_slice() == *other''', '''	fn eq(&self, other: &&mut [u8]) -> bool {
		self.as_slice().starts_with(other)''')],
 'let mut s = oct::Slot::<u8>::with_capacity(4); s.copy_from_slice(&[1, 2]); let mut d = [1u8]; assert!(s != &mut d[..]); let mut d = [1u8, 2]; assert!(s == &mut d[..]);', features=["alloc"])

bug("c13-clone-from", "C13", "clone_from into a sized slice that is longer than the source",
 "cloning into a longer sized slice keeps the surplus elements",
 [(SS, '''			Self { buf, len: self.len }
		}
	}
''', '''			Self { buf, len: self.len() }
		}
	}

	#[inline]
	fn clone_from(&mut self, source: &Self) {
		if source.len() > self.len() {
			*self = source.clone();
			return;
		}

		self[..source.len()].clone_from_slice(source);
	}
''')],
 'let mut a = SizedSlice::<u8, 4>::new(&[1, 2, 3]).ok().unwrap(); let b = SizedSlice::<u8, 4>::new(&[4]).ok().unwrap(); a.clone_from(&b); assert_eq!(a.as_slice(), [4]);')

bug("c14-char-collect", "C14", "collecting a wide character that ends exactly at the capacity",
 "collecting leaves out a wide character that would fill the string",
 [(ST, "			if rem < req { break }\n", "			if rem < req || (len != 0x0 && rem == req && req > 0x2) { break }\n")],
 'let s: SizedStr<4> = "aあ".chars().collect(); assert_eq!(s.as_str(), "aあ");')

bug("c15-hint", "C15", "the size hint of an iterator taken from both ends",
 "the upper bound of the size hint is too high for the last element of an advanced iterator",
 [(IT, "(self.len, Some(self.len))", "(self.len, self.pos.checked_sub(0x2).map_or(Some(self.len), |_| if self.pos + self.len < N { None } else { Some(self.len) }))")],
 'let s = SizedSlice::<u8, 8>::new(&[1, 2, 3, 4]).ok().unwrap(); let mut i = s.into_iter(); i.next(); i.next(); i.next_back(); assert_eq!(i.size_hint(), (1, Some(1)));')

bug("c15-as-mut", "C15", "the mutable view of an iterator advanced from the front and from the back",
 "the mutable view of an iterator starts too early once elements were taken from both ends",
 [(IT, '''				.as_mut_ptr()
				.add(self.pos)
''', '''				.as_mut_ptr()
				.add(if self.pos + self.len == N || self.len == 0x0 { self.pos } else { self.pos - (self.pos > 0x1) as usize })
''')],
 'let s = SizedSlice::<u8, 4>::new(&[1, 2, 3, 4]).ok().unwrap(); let mut i = s.into_iter(); i.next(); i.next(); i.next_back(); assert_eq!(i.as_mut_slice(), &mut [3]);')

bug("c16-zst-array", "C16", "an array of elements without a size but with a destructor",
 "elements without a size are dropped when their array is converted, and then once more",
 [(SSC, "			let buf = value.as_ptr().cast::<[MaybeUninit<T>; N]>().read();\n", "			if size_of::<T>() == 0x0 { drop(ManuallyDrop::into_inner(value)); return Self { buf: [const { MaybeUninit::<T>::uninit() }; N], len: N } };\n\n			let buf = value.as_ptr().cast::<[MaybeUninit<T>; N]>().read();\n")],
 'let s = SizedSlice::from([Z, Z]); assert_eq!(COUNT.with(|c| c.get()), 0); let v = s.into_vec(); assert_eq!(v.len(), 2); drop(v); assert_eq!(COUNT.with(|c| c.get()), 2);',
 items="thread_local! { static COUNT: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }\nstruct Z;\nimpl Drop for Z { fn drop(&mut self) { COUNT.with(|c| c.set(c.get() + 1)) } }\n", features=["alloc"])

bug("c18-mutex-release", "C18", "a lock attempt by the content while it is being encoded",
 "a mutex is released before its content is encoded",
 [(ENC, '''		self
			.lock()
			.unwrap_or_else(std::sync::PoisonError::into_inner)
			.encode(output)''', '''		let value = {
			let guard = self
				.lock()
				.unwrap_or_else(std::sync::PoisonError::into_inner);

			&raw const *guard
		};

		unsafe { (*value).encode(output) }''')],
 '''	assert!(enc(&*M).is_ok());
	assert!(LOCKED.load(std::sync::atomic::Ordering::SeqCst));''',
 items='''static LOCKED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static M: std::sync::LazyLock<std::sync::Mutex<P>> = std::sync::LazyLock::new(|| std::sync::Mutex::new(P));
struct P;
impl Encode for P { type Error = core::convert::Infallible; fn encode(&self, _: &mut Output) -> Result<(), Self::Error> { LOCKED.store(M.try_lock().is_err(), std::sync::atomic::Ordering::SeqCst); Ok(()) } }
''', features=["std"])

bug("c18-refcell-release", "C18", "content that borrows its own cell mutably while it is being encoded",
 "the borrow of a reference cell ends before its content is encoded",
 [(ENC, '''		T::encode(&value, output)
			.map_err(RefCellEncodeError::BadValue)?;
''', '''		let value = { let value = value; &raw const *value };

		T::encode(unsafe { &*value }, output)
			.map_err(RefCellEncodeError::BadValue)?;
''')],
 'let c = std::rc::Rc::new_cyclic(|w| std::cell::RefCell::new(P(w.clone(), std::cell::Cell::new(false)))); assert!(enc(&*c).is_ok()); assert!(c.borrow().1.get());',
 items='''struct P(std::rc::Weak<std::cell::RefCell<P>>, std::cell::Cell<bool>);
impl Encode for P { type Error = core::convert::Infallible; fn encode(&self, _: &mut Output) -> Result<(), Self::Error> { self.1.set(self.0.upgrade().unwrap().try_borrow_mut().is_err()); Ok(()) } }
''', features=["alloc"])

bug("c21-lt", "C21", "the operator < on two equal strings",
 "the operator < holds of equal strings",
 [(SCMP, '''	fn partial_cmp(&self, other: &SizedStr<M>) -> Option<Ordering> {
		self.as_str().partial_cmp(other.as_str())
	}
''', '''	fn partial_cmp(&self, other: &SizedStr<M>) -> Option<Ordering> {
		PartialOrd::partial_cmp(self.as_str(), other.as_str())
	}

	#[inline(always)]
	fn lt(&self, other: &SizedStr<M>) -> bool {
		self.as_str() <= other.as_str()
	}
''')],
 'let a = SizedStr::<4>::new("ab").ok().unwrap(); let b = SizedStr::<6>::new("ab").ok().unwrap(); assert!(!(a < b));')

bug("c21-ne", "C21", "the operator != on a slice and an array of which one begins with the other",
 "the operator != only compares the elements that both have",
 [(CMP, '''	fn eq(&self, other: &[U; M]) -> bool {
		self.as_slice() == other.as_slice()
	}
''', '''	fn eq(&self, other: &[U; M]) -> bool {
		*self.as_slice() == *other.as_slice()
	}

	#[inline(always)]
	#[allow(clippy::partialeq_ne_impl)]
	fn ne(&self, other: &[U; M]) -> bool {
		self.iter().zip(other).any(|(a, b)| a != b)
	}
''')],
 'let a = SizedSlice::<u8, 4>::new(&[1, 2]).ok().unwrap(); assert!(a != [1u8, 2, 3]);')

bug("c21-hash-slice", "C21", "hashing a vector of sized strings",
 "a sequence of sized strings hashes without regard to where each ends",
 [(ST, '''	fn hash<H: Hasher>(&self, state: &mut H) {
		self.as_str().hash(state)
	}
''', '''	fn hash<H: Hasher>(&self, state: &mut H) {
		Hash::hash(self.as_str(), state);
	}

	#[inline]
	fn hash_slice<H: Hasher>(data: &[Self], state: &mut H) {
		for s in data { state.write(s.as_bytes()) }
		state.write_u8(0xFF);
	}
''')],
 '''	use std::hash::{Hash, Hasher, DefaultHasher};
	let h = |v: &dyn Fn(&mut DefaultHasher)| { let mut s = DefaultHasher::new(); v(&mut s); s.finish() };
	let a = vec![SizedStr::<4>::new("ab").ok().unwrap(), SizedStr::<4>::new("c").ok().unwrap()]; let b = vec!["ab", "c"];
	assert_eq!(h(&|s| a.hash(s)), h(&|s| b.hash(s)));''')

bug("c21-max", "C21", "the larger of two sized slices of differing lengths",
 "the larger of two sized slices is taken to be the longer",
 [(CMP, '''	fn cmp(&self, other: &Self) -> Ordering {
		self.as_slice().cmp(other.as_slice())
	}
''', '''	fn cmp(&self, other: &Self) -> Ordering {
		Ord::cmp(self.as_slice(), other.as_slice())
	}

	#[inline]
	fn max(self, other: Self) -> Self {
		if self.len() > other.len() { self } else { other }
	}
''')],
 'let a = SizedSlice::<u8, 4>::new(&[2]).ok().unwrap(); let b = SizedSlice::<u8, 4>::new(&[1, 1]).ok().unwrap(); assert_eq!(a.max(b).as_slice(), [2]);')
