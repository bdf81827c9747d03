//! C09: errors made by hand, with every payload: what they show, what their
//! sources are, and what becomes of them as generic errors.

use crate::codec::shows;
use crate::engine::{unit, Gen, Obs, Unit};
use crate::ensure;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use oct::error::*;
use oct::{SizedSlice, SizedStr};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet, LinkedList};
use std::error::Error;
use std::ffi::CString;
use std::num::NonZero;

type R = Result<(), String>;

/// The displayed errors of a chain.
fn chain(e: &(dyn Error + 'static)) -> Result<Vec<String>, String> {
	let mut v = vec![e.to_string()];
	let mut at = e.source();
	while let Some(e) = at {
		v.push(e.to_string());
		at = e.source();
		if v.len() > 64 { return Err(format!("the source chain of {:?} does not end", v[0])) }
	}
	if v.iter().any(String::is_empty) { return Err(format!("an error is displayed as nothing: {v:?}")) }
	Ok(v)
}

/// Whether the chain of `e`, itself included, has a `T` for which `f` holds.
fn reaches<T: Error + 'static>(e: &(dyn Error + 'static), f: &dyn Fn(&T) -> bool) -> bool {
	let mut at = Some(e);
	for _ in 0..64 {
		let Some(e) = at else { return false };
		if e.downcast_ref::<T>().is_some_and(f) { return true }
		at = e.source();
	}
	false
}

/// A fault at the bottom of an error.
#[derive(Clone, Debug, Hash)]
enum Fault { Usize(usize), Isize(isize), Len(usize, usize), Utf8(u8, usize), Utf16(u16, usize), Nul(usize), Char(u32), Time(i64), Zero, Borrowed }

impl Fault {
	fn numbers(&self) -> Vec<(u128, Option<i128>)> {
		match *self {
			Fault::Usize(x) => vec![(x as u128, None)],
			Fault::Isize(x) => vec![(x as usize as u128, Some(x as i128))],
			Fault::Len(a, b) => vec![(a as u128, None), (b as u128, None)],
			Fault::Utf8(a, b) => vec![(a as u128, None), (b as u128, None)],
			Fault::Utf16(a, b) => vec![(a as u128, None), (b as u128, None)],
			Fault::Nul(x) => vec![(x as u128, None)],
			Fault::Char(x) => vec![(x as u128, None)],
			Fault::Time(x) => vec![(x as u64 as u128, Some(x as i128))],
			Fault::Zero | Fault::Borrowed => Vec::new(),
		}
	}

	/// Whether `e` leads to the fault.
	fn reached(&self, e: &(dyn Error + 'static)) -> bool {
		match *self {
			Fault::Usize(x) => reaches::<UsizeEncodeError>(e, &|e| e.0 == x),
			Fault::Isize(x) => reaches::<IsizeEncodeError>(e, &|e| e.0 == x),
			Fault::Len(a, b) => reaches::<LengthError>(e, &|e| e.capacity == a && e.len == b),
			Fault::Utf8(a, b) => reaches::<Utf8Error>(e, &|e| e.value == a && e.index == b),
			Fault::Utf16(a, b) => reaches::<Utf16Error>(e, &|e| e.value == a && e.index == b),
			Fault::Nul(x) => reaches::<CStringDecodeError>(e, &|e| e.index == x),
			Fault::Char(x) => reaches::<CharDecodeError>(e, &|e| e.code_point == x),
			Fault::Time(x) => reaches::<SystemTimeDecodeError>(e, &|e| e.timestamp == x),
			Fault::Zero => reaches::<NonZeroDecodeError>(e, &|_| true),
			Fault::Borrowed => reaches::<std::cell::BorrowError>(e, &|_| true),
		}
	}

	fn check(&self, e: &(dyn Error + 'static), more: &[(u128, Option<i128>)]) -> R {
		let c = chain(e)?;
		ensure!(self.reached(e), "{e:?} does not lead to {self:?}: {c:?}");
		for &(x, s) in self.numbers().iter().chain(more) {
			ensure!(shows(&c, x, s), "{x} is not in any displayed error of {e:?}: {c:?}");
		}
		Ok(())
	}
}

/// The source of `e` is the `T` that it was made from: no level is skipped.
fn next<T: Error + 'static>(e: &(dyn Error + 'static)) -> R {
	match e.source() {
		Some(s) if s.is::<T>() => Ok(()),
		s => Err(format!("the source of {e:?} is {s:?} instead of a {}", std::any::type_name::<T>())),
	}
}

fn borrow_error() -> std::cell::BorrowError {
	let c = RefCell::new(());
	let _m = c.borrow_mut();
	let e = c.try_borrow().unwrap_err();
	e
}

/// A leaf that goes into a generic decode error, and what it becomes.
macro_rules! with_decode_leaf { ($g:expr, $f:expr, |$e:ident| $body:expr) => { match $f {
	Fault::Len(capacity, len) => { let $e = LengthError { capacity, len }; $body },
	Fault::Utf8(value, index) => { let $e = Utf8Error { value, index }; $body },
	Fault::Nul(index) => { let $e = CStringDecodeError { index }; $body },
	Fault::Time(timestamp) => { let $e = SystemTimeDecodeError { timestamp }; $body },
	_ => { let $e = NonZeroDecodeError; $body },
} } }
macro_rules! with_encode_leaf { ($f:expr, |$e:ident| $body:expr) => { match $f {
	Fault::Usize(x) => { let $e = UsizeEncodeError(x); $body },
	Fault::Isize(x) => { let $e = IsizeEncodeError(x); $body },
	_ => { let $e = borrow_error(); $body },
} } }

macro_rules! is_decode { (ty) => { GenericDecodeError } }
macro_rules! is_encode { (ty) => { GenericEncodeError } }
fn is_decode(e: &GenericDecodeError, f: &Fault) -> bool {
	match (e, f) {
		(GenericDecodeError::SmallBuffer(e), Fault::Len(a, b)) => e.capacity == *a && e.len == *b,
		(GenericDecodeError::BadString(e), Fault::Utf8(a, b)) => e.value == *a && e.index == *b,
		(GenericDecodeError::NullString(e), Fault::Nul(x)) => e.index == *x,
		(GenericDecodeError::NarrowSystemTime(e), Fault::Time(x)) => e.timestamp == *x,
		(GenericDecodeError::NullInteger(_), Fault::Zero) => true,
		_ => false,
	}
}
fn is_encode(e: &GenericEncodeError, f: &Fault) -> bool {
	match (e, f) {
		(GenericEncodeError::LargeUsize(e), Fault::Usize(x)) => e.0 == *x,
		(GenericEncodeError::LargeIsize(e), Fault::Isize(x)) => e.0 == *x,
		(GenericEncodeError::BadBorrow(_), Fault::Borrowed) => true,
		_ => false,
	}
}

fn size(g: &mut Gen) -> usize { g.uint(64) as usize }

fn by_hand(g: &mut Gen, o: &mut Obs) -> R {
	let fault = match g.draw(9) {
		0 => Fault::Usize(size(g)),
		1 => Fault::Isize(size(g) as isize),
		2 => Fault::Len(size(g), size(g)),
		3 => Fault::Utf8(g.byte(), size(g)),
		4 => Fault::Utf16(g.uint(16) as u16, size(g)),
		5 => Fault::Nul(size(g)),
		6 => Fault::Char(g.uint(32) as u32),
		7 => Fault::Time(g.uint(64) as u64 as i64),
		8 => Fault::Zero,
		_ => Fault::Borrowed,
	};
	let index = size(g);
	let at = [(index as u128, None)];
	o.key(format!("{fault:?} {index}").as_bytes());
	o.nontrivial(true);
	o.describe(|| format!("{fault:?} at {index}"));

	// As it is and within everything that does not ask for more.
	macro_rules! wrapped { ($e:expr, $t:ty) => { {
		fault.check(&$e, &[])?;
		ensure!($e.source().is_none(), "{:?} has the source {:?}", $e, $e.source());
		macro_rules! over { ($x:expr, $n:ty, $at:expr) => { { let x = $x; fault.check(&x, $at)?; next::<$n>(&x)? } } }
		over!(ItemDecodeError { index, error: $e }, $t, &at);
		over!(ItemEncodeError { index, error: $e }, $t, &at);
		over!(ItemDecodeError { index, error: ItemDecodeError { index: 7u8, error: $e } }, ItemDecodeError<u8, $t>, &at);
		over!(ItemEncodeError { index, error: ItemEncodeError { index: 'i', error: $e } }, ItemEncodeError<char, $t>, &at);
		over!(ItemDecodeError { index, error: EnumDecodeError::<u8, $t>::BadField($e) }, EnumDecodeError<u8, $t>, &at);
		over!(ItemEncodeError { index, error: EnumEncodeError::<u8, $t>::BadField($e) }, EnumEncodeError<u8, $t>, &at);
		over!(CollectionDecodeError::<$t, NonZeroDecodeError>::BadLength($e), $t, &[]);
		over!(CollectionDecodeError::<NonZeroDecodeError, $t>::BadItem($e), $t, &[]);
		over!(CollectionDecodeError::<LengthError, ItemDecodeError<usize, $t>>::BadItem(ItemDecodeError { index, error: $e }), ItemDecodeError<usize, $t>, &at);
		over!(CollectionEncodeError::<$t, NonZeroDecodeError>::BadLength($e), $t, &[]);
		over!(CollectionEncodeError::<NonZeroDecodeError, $t>::BadItem($e), $t, &[]);
		over!(CollectionEncodeError::<UsizeEncodeError, ItemEncodeError<usize, $t>>::BadItem(ItemEncodeError { index, error: $e }), ItemEncodeError<usize, $t>, &at);
		over!(RefCellEncodeError::<$t>::BadValue($e), $t, &[]);
		over!(EnumEncodeError::<u8, $t>::BadField($e), $t, &[]);
		over!(EnumDecodeError::<u8, $t>::BadField($e), $t, &[]);
		over!(EnumDecodeError::<char, ItemDecodeError<usize, $t>>::BadField(ItemDecodeError { index, error: $e }), ItemDecodeError<usize, $t>, &at);
	} } }
	macro_rules! over { ($x:expr, $n:ty) => { { let x = $x; fault.check(&x, &[])?; next::<$n>(&x)? } } }
	match fault {
		Fault::Usize(x) => {
			wrapped!(UsizeEncodeError(x), UsizeEncodeError);
			ensure!(shows(&chain(&UsizeEncodeError(x))?, 0xFFFF, None), "the limit is not in {:?}", UsizeEncodeError(x).to_string());
			over!(EnumEncodeError::<usize, LengthError>::BadDiscriminant(UsizeEncodeError(x)), UsizeEncodeError);
		},
		Fault::Isize(x) => {
			wrapped!(IsizeEncodeError(x), IsizeEncodeError);
			let c = chain(&IsizeEncodeError(x))?;
			ensure!(shows(&c, 0x7FFF, None) && shows(&c, 0x8000, Some(-0x8000)), "the limits are not in {c:?}");
			over!(EnumEncodeError::<isize, LengthError>::BadDiscriminant(IsizeEncodeError(x)), IsizeEncodeError);
		},
		Fault::Len(capacity, len) => {
			wrapped!(LengthError { capacity, len }, LengthError);
			over!(StringError::SmallBuffer(LengthError { capacity, len }), LengthError);
		},
		Fault::Utf8(value, index) => {
			wrapped!(Utf8Error { value, index }, Utf8Error);
			over!(StringError::BadUtf8(Utf8Error { value, index }), Utf8Error);
		},
		Fault::Utf16(value, index) => {
			wrapped!(Utf16Error { value, index }, Utf16Error);
			over!(StringError::BadUtf16(Utf16Error { value, index }), Utf16Error);
		},
		Fault::Nul(index) => wrapped!(CStringDecodeError { index }, CStringDecodeError),
		Fault::Char(code_point) => {
			wrapped!(CharDecodeError { code_point }, CharDecodeError);
			over!(EnumDecodeError::<char, LengthError>::InvalidDiscriminant(CharDecodeError { code_point }), CharDecodeError);
		},
		Fault::Time(timestamp) => wrapped!(SystemTimeDecodeError { timestamp }, SystemTimeDecodeError),
		Fault::Zero => {
			wrapped!(NonZeroDecodeError, NonZeroDecodeError);
			over!(EnumDecodeError::<NonZero<u8>, LengthError>::InvalidDiscriminant(NonZeroDecodeError), NonZeroDecodeError);
		},
		Fault::Borrowed => {
			wrapped!(borrow_error(), std::cell::BorrowError);
			over!(RefCellEncodeError::<LengthError>::BadBorrow(borrow_error()), std::cell::BorrowError);
		},
	}

	// As generic errors, along every route.
	macro_rules! generic { ($is:ident, $e:expr, $route:expr) => { {
		let e = $e;
		ensure!($is(&e, &fault), "{fault:?} becomes {e:?} by way of {}", $route);
		fault.check(&e, &[])?;
		match fault {
			Fault::Usize(_) => next::<UsizeEncodeError>(&e)?,
			Fault::Isize(_) => next::<IsizeEncodeError>(&e)?,
			Fault::Len(..) => next::<LengthError>(&e)?,
			Fault::Utf8(..) => next::<Utf8Error>(&e)?,
			Fault::Nul(_) => next::<CStringDecodeError>(&e)?,
			Fault::Time(_) => next::<SystemTimeDecodeError>(&e)?,
			Fault::Zero => next::<NonZeroDecodeError>(&e)?,
			Fault::Borrowed => next::<std::cell::BorrowError>(&e)?,
			_ => (),
		}
		// Around it, one after another.
		macro_rules! over { ($x:expr, $n:ty, $at:expr, $p:pat => $y:expr) => { {
			let x = $x;
			fault.check(&x, $at)?;
			next::<$n>(&x)?;
			match x { $p => $y, #[allow(unreachable_patterns)] _ => unreachable!() }
		} } }
		let e = over!(ItemDecodeError { index, error: e }, $is!(ty), &at, ItemDecodeError { error, .. } => error);
		let e = over!(ItemEncodeError { index, error: e }, $is!(ty), &at, ItemEncodeError { error, .. } => error);
		let e = over!(CollectionDecodeError::<LengthError, _>::BadItem(ItemDecodeError { index, error: e }), ItemDecodeError<usize, $is!(ty)>, &at, CollectionDecodeError::BadItem(e) => e.error);
		let e = over!(CollectionEncodeError::<LengthError, _>::BadItem(ItemEncodeError { index, error: e }), ItemEncodeError<usize, $is!(ty)>, &at, CollectionEncodeError::BadItem(e) => e.error);
		let e = over!(EnumDecodeError::<u8, _>::BadField(e), $is!(ty), &[], EnumDecodeError::BadField(e) => e);
		let e = over!(EnumEncodeError::<u8, _>::BadField(e), $is!(ty), &[], EnumEncodeError::BadField(e) => e);
		ensure!($is(&e, &fault), "{fault:?} has become {e:?}");
	} } }
	if matches!(fault, Fault::Len(..) | Fault::Utf8(..) | Fault::Nul(_) | Fault::Time(_) | Fault::Zero) {
		type G = GenericDecodeError;
		with_decode_leaf!(g, fault, |e| generic!(is_decode, G::from(e), "itself"));
		with_decode_leaf!(g, fault, |e| generic!(is_decode, G::from(ItemDecodeError { index, error: e }), "an item"));
		with_decode_leaf!(g, fault, |e| generic!(is_decode, G::from(CollectionDecodeError::<_, LengthError>::BadLength(e)), "a length"));
		with_decode_leaf!(g, fault, |e| generic!(is_decode, G::from(CollectionDecodeError::<LengthError, _>::BadItem(ItemDecodeError { index, error: e })), "an item of a collection"));
		with_decode_leaf!(g, fault, |e| generic!(is_decode, G::from(EnumDecodeError::<i8, _>::BadField(G::from(e))), "a field"));
		with_decode_leaf!(g, fault, |e| generic!(is_decode, G::from(EnumDecodeError::<u128, _>::BadField(CollectionDecodeError::<LengthError, _>::BadItem(e))), "an item of a field"));
	}
	if matches!(fault, Fault::Usize(_) | Fault::Isize(_) | Fault::Borrowed) {
		type G = GenericEncodeError;
		with_encode_leaf!(fault, |e| generic!(is_encode, G::from(e), "itself"));
		with_encode_leaf!(fault, |e| generic!(is_encode, G::from(ItemEncodeError { index, error: e }), "an item"));
		with_encode_leaf!(fault, |e| generic!(is_encode, G::from(CollectionEncodeError::<_, UsizeEncodeError>::BadLength(e)), "a length"));
		with_encode_leaf!(fault, |e| generic!(is_encode, G::from(CollectionEncodeError::<UsizeEncodeError, _>::BadItem(ItemEncodeError { index, error: e })), "an item of a collection"));
		with_encode_leaf!(fault, |e| generic!(is_encode, G::from(EnumEncodeError::<i8, _>::BadField(G::from(e))), "a field"));
		match fault {
			Fault::Usize(x) => generic!(is_encode, G::from(EnumEncodeError::<usize, G>::BadDiscriminant(UsizeEncodeError(x))), "a discriminant"),
			Fault::Isize(x) => generic!(is_encode, G::from(EnumEncodeError::<isize, G>::BadDiscriminant(IsizeEncodeError(x))), "a discriminant"),
			_ => (),
		}
	}
	Ok(())
}

/// Discriminants keep their raw value, extended by zeros, and are shown.
fn discriminants(g: &mut Gen, o: &mut Obs) -> R {
	let x = g.uint(128);
	o.key(&x.to_le_bytes());
	o.nontrivial(x != 0);
	o.describe(|| format!("{x:#x}"));
	macro_rules! one { ($($t:ty: $u:ty),*) => { $( {
		let value = x as $t;
		let raw = value as $u as u128;
		let e = EnumDecodeError::<$t, LengthError>::UnassignedDiscriminant { value };
		let c = chain(&e)?;
		#[allow(unused_comparisons)]
		let signed = if value < 0 { Some(value as i128) } else { None };
		ensure!(shows(&c, raw, signed), "{value} is not in {c:?}");
		let e = GenericDecodeError::from(EnumDecodeError::<$t, GenericDecodeError>::UnassignedDiscriminant { value });
		ensure!(matches!(e, GenericDecodeError::UnassignedDiscriminant { value } if value == raw), "the {} discriminant {value:#x} becomes {e:?}", stringify!($t));
		let c = chain(&e)?;
		ensure!(shows(&c, raw, signed), "{raw:#x} is not in {c:?}");
	} )* } }
	one!(u8: u8, u16: u16, u32: u32, u64: u64, u128: u128, usize: usize, i8: u8, i16: u16, i32: u32, i64: u64, i128: u128, isize: usize);
	Ok(())
}

/// What streams refuse, with all of its numbers.
fn streams(g: &mut Gen, o: &mut Obs) -> R {
	let (capacity, position, count) = (size(g), size(g), size(g));
	o.key(format!("{capacity} {position} {count}").as_bytes());
	o.nontrivial(capacity != position && position != count && capacity != count);
	o.describe(|| format!("{count} at {position} of {capacity}"));
	let numbers = [capacity, position, count];
	fn one(e: &(dyn Error + 'static), numbers: &[usize]) -> R {
		let c = chain(e)?;
		ensure!(c.len() == 1, "{e:?} has a source: {c:?}");
		for &x in numbers { ensure!(shows(&c, x as u128, None), "{x} is not in the displayed {e:?}: {c:?}") }
		Ok(())
	}
	one(&InputError { capacity, position, count }, &numbers)?;
	one(&OutputError { capacity, position, count }, &numbers)?;
	// As the streams themselves report it.
	let cap = count % 300;
	let pos = position % (cap + 1);
	let n = cap - pos + 1 + capacity % 400;
	let mut buf = vec![0; cap];
	let mut i = oct::decode::Input::new(&buf);
	i.read(pos).map_err(|e| format!("reading {pos} of {cap}: {e:?}"))?;
	let e = i.read(n).err().ok_or_else(|| format!("{n} octets can be read at {pos} of {cap}"))?;
	one(&e, &[cap, pos, n])?;
	let mut dst = vec![0; n];
	let e = i.read_into(&mut dst).err().ok_or_else(|| format!("{n} octets can be read at {pos} of {cap}"))?;
	one(&e, &[cap, pos, n])?;
	let mut out = oct::encode::Output::new(&mut buf);
	out.write(&vec![7; pos]).map_err(|e| format!("writing {pos} of {cap}: {e:?}"))?;
	let e = out.write(&dst).err().ok_or_else(|| format!("{n} octets can be written at {pos} of {cap}"))?;
	one(&e, &[cap, pos, n])
}

/// The decode error of an item at `index`, if that is what `e` says.
macro_rules! item { ($e:expr) => { match $e {
	CollectionDecodeError::BadItem(e) => Ok(e),
	e => Err(format!("{e:?}")),
} } }
macro_rules! encoded_item { ($e:expr) => { match $e {
	CollectionEncodeError::BadItem(e) => Ok(e),
	e => Err(format!("{e:?}")),
} } }

/// Faults far into what has many items: their indices and offsets.
fn far(g: &mut Gen, o: &mut Obs) -> R {
	const N: usize = 700;
	type NZ = NonZero<u8>;
	fn dec<T: Decode>(d: &[u8]) -> Result<T, T::Error> { T::decode(&mut Input::new(d)) }
	fn enc<T: Encode + ?Sized>(x: &T) -> Result<(), T::Error> { let mut b = vec![0; 0x6_0000]; x.encode(&mut Output::new(&mut b)) }
	let most = *g.pick(&[40, 255, 256, 257, N, 5000, 0xFFFF]);
	let at = match g.draw(2) { 0 => most - 1, _ => g.below(most) };
	let n = (at + 1 + g.below(4)).min(0xFFFF);
	let kind = g.draw(15);
	o.key(format!("{kind} {at} {n}").as_bytes());
	o.nontrivial(at > 9);
	o.class(match at { 0..256 => "up to index 255", 256..0x8000 => "from index 256", _ => "from index 32768" });
	o.describe(|| format!("fault {at} of {n}, kind {kind}"));
	// Octets of which that at `at` and all after are zero.
	let ones = |n: usize| { let mut v = vec![1u8; n.max(at + 1)]; v[at..].fill(0); v };
	let counted = |mut v: Vec<u8>| { let mut d = (v.len() as u16).to_le_bytes().to_vec(); d.append(&mut v); d };
	let same = |what: &str, i: usize| if i == at { Ok(()) } else { Err(format!("the fault of {what} at {at} (of {n}) is reported at {i}")) };
	// (The error is shown with its index, too.)
	let told = |what: &str, e: &(dyn Error + 'static)| -> R {
		let c = chain(e)?;
		ensure!(shows(&c, at as u128, None), "the error of {what} at {at} does not show the index: {c:?}");
		Ok(())
	};
	macro_rules! items { ($what:literal, $t:ty, $d:expr) => { {
		let e = dec::<$t>(&$d).map(|_| ()).err().ok_or_else(|| format!("{} of {n} with a fault at {at} is decoded", $what))?;
		told($what, &e)?;
		same($what, item!(e)?.index)?
	} } }
	match kind {
		0 if at < N => items!("an array", [NZ; N], ones(N)),
		1 if at < N => items!("a sized slice", SizedSlice<NZ, N>, counted(ones(n.min(N)))),
		2 => items!("a sized slice", SizedSlice<NZ, 0xFFFF>, counted(ones(n))),
		3 => items!("a vector", Vec<NZ>, counted(ones(n))),
		4 => items!("a list", LinkedList<NZ>, counted(ones(n))),
		5 => {
			// Items of a set are distinct so that their number is that of the items.
			let mut d = Vec::new();
			for i in 0..n { d.extend(if i == at { 0u32 } else { i as u32 + 1 }.to_le_bytes()) }
			let mut v = (n as u16).to_le_bytes().to_vec();
			v.extend(d);
			items!("a set", HashSet<NonZero<u32>>, v)
		},
		6 => {
			let mut v = (n as u16).to_le_bytes().to_vec();
			let key = g.boolean();
			for i in 0..n {
				v.extend(if i == at && key { 0u32 } else { i as u32 + 1 }.to_le_bytes());
				v.push((i != at) as u8);
			}
			let e = dec::<HashMap<NonZero<u32>, NZ>>(&v).err().ok_or_else(|| format!("a map of {n} with a fault at {at} is decoded"))?;
			told("a map", &e)?;
			same("a map", item!(e)?.index)?
		},
		7 => {
			let mut v: Vec<u8> = vec![b'a'; n];
			v[at] = g.range(0xF8, 0xFF) as u8;
			let e = dec::<String>(&counted(v.clone())).err().ok_or("a bad string is decoded")?;
			told("a string", &e)?;
			let CollectionDecodeError::BadItem(Utf8Error { value, index }) = e else { return Err(format!("a string with a fault at {at} gives {e:?}")) };
			ensure!(value == v[at], "the octet {:#x} of a string is reported as {value:#x}", v[at]);
			same("a string", index)?;
			let e = dec::<SizedStr<0xFFFF>>(&counted(v.clone())).err().ok_or("a bad string is decoded")?;
			told("a sized string", &e)?;
			let x = SizedStr::<0xFFFF>::from_utf8(&v).err().ok_or("a bad string is made")?;
			told("a sized string", &x)?;
			match (e, x) {
				(CollectionDecodeError::BadItem(Utf8Error { value: a, index: i }), StringError::BadUtf8(Utf8Error { value: b, index: j })) => {
					ensure!((a, b) == (v[at], v[at]), "the octet {:#x} of a sized string is reported as {a:#x}, {b:#x}", v[at]);
					same("a sized string", i)?;
					same("octets for a sized string", j)?;
				},
				(e, x) => return Err(format!("sized strings with a fault at {at} give {e:?} and {x:?}")),
			}
		},
		8 => {
			let e = dec::<CString>(&counted(ones(n))).err().ok_or("a string with a null is decoded")?;
			told("a C string", &e)?;
			same("a C string", e.index)?
		},
		9 => {
			// More than there is room for.
			let k = at + 1;
			macro_rules! room { ($($c:literal)*) => { $( if k > $c {
				let e = SizedSlice::<(), $c>::decode(&mut Input::new(&(k as u16).to_le_bytes())).err().ok_or_else(|| format!("{k} fit into {}", $c))?;
				ensure!(matches!(e, CollectionDecodeError::BadLength(LengthError { capacity: $c, len }) if len == k), "{k} elements for {} give {e:?}", $c);
				let v = vec![b'x'; k];
				let e = SizedStr::<$c>::decode(&mut Input::new(&counted(v.clone()))).err().ok_or_else(|| format!("{k} fit into {}", $c))?;
				ensure!(matches!(e, CollectionDecodeError::BadLength(LengthError { capacity: $c, len }) if len == k), "{k} octets for {} give {e:?}", $c);
				let e = SizedSlice::<u8, $c>::new(&v).err().ok_or_else(|| format!("{k} fit into {}", $c))?;
				ensure!((e.capacity, e.len) == ($c, k), "{k} elements for {} give {e:?}", $c);
			} )* } }
			room!(0 3 39 40 255 256 300 4000 65534);
		},
		10 if at < N => {
			let cells: Vec<RefCell<u8>> = (0..N).map(|i| RefCell::new(i as u8)).collect();
			let _m: Vec<_> = cells.iter().skip(at).step_by(1 + g.below(3)).map(|c| c.borrow_mut()).collect();
			let refs: [&RefCell<u8>; N] = std::array::from_fn(|i| &cells[i]);
			let e = enc(&refs).err().ok_or("borrowed cells are encoded")?;
			told("an array", &e)?;
			same("an encoded array", encoded_item!(e)?.index)?;
			let s: SizedSlice<&RefCell<u8>, N> = refs.iter().copied().collect();
			same("an encoded sized slice", encoded_item!(enc(&s).err().ok_or("borrowed cells are encoded")?)?.index)?;
		},
		11 => {
			let mut v = vec![0usize; n];
			v[at..].fill(0x1_0000 + g.below(99));
			let e = enc(&v[..]).err().ok_or("a large size is encoded")?;
			told("a slice", &e)?;
			same("an encoded slice", encoded_item!(e)?.index)?;
			same("an encoded vector", encoded_item!(enc(&v).err().ok_or("a large size is encoded")?)?.index)?;
			let s: SizedSlice<usize, 0xFFFF> = v.iter().copied().collect();
			same("an encoded sized slice", encoded_item!(enc(&s).err().ok_or("a large size is encoded")?)?.index)?;
		},
		12 => {
			let mut v: LinkedList<isize> = LinkedList::new();
			for i in 0..n { v.push_back(if i >= at { -0x8001 } else { 5 }) }
			same("an encoded list", encoded_item!(enc(&v).err().ok_or("a large size is encoded")?)?.0)?;
		},
		13 => {
			// In order of iteration.
			let mut m: HashMap<usize, usize> = (0..n).map(|i| (i, i)).collect();
			*m.values_mut().nth(at).unwrap() = 0x1_0000;
			same("an encoded map", encoded_item!(enc(&m).err().ok_or("a large size is encoded")?)?.index)?;
		},
		14 => {
			let mut s: HashSet<usize> = (0..n.min(0xFFF0)).collect();
			if at < s.len() {
				s.insert(0x1_0000);
				let k = s.iter().position(|x| *x == 0x1_0000).unwrap();
				let i = encoded_item!(enc(&s).err().ok_or("a large size is encoded")?)?.index;
				ensure!(i == k, "the fault of an encoded set at {k} of {} is reported at {i}", s.len());
			}
		},
		_ => items!("a vector of vectors", Vec<[NZ; 2]>, counted_pairs(n, at)),
	}
	Ok(())
}

/// `n` pairs of which that at `at` has a zero.
fn counted_pairs(n: usize, at: usize) -> Vec<u8> {
	let mut d = (n as u16).to_le_bytes().to_vec();
	for i in 0..n { d.extend([1 + (i % 200) as u8, if i == at { 0 } else { 3 }]) }
	d
}

pub fn units() -> Vec<Unit> {
	vec![unit("C09", "streams", 10_000, streams), unit("C09", "far faults", 3_000, far), unit("C09", "errors by hand", 10_000, by_hand), unit("C09", "discriminants by hand", 10_000, discriminants)]
}
