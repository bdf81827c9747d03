//! The types of the check of feature combinations: those that need nothing
//! but `core` always, the others with the feature they need.

use crate::subject::{Entry, Subject};
use crate::{ed, eds, eo, es};
use crate::codec::mixed_units;
use crate::engine::{catch, clip, unit, Gen, Obs, Unit};
use crate::ensure;
use oct::{SizedSlice, SizedStr};
use std::cell::{Cell, LazyCell, RefCell};
use std::marker::{PhantomData, PhantomPinned};
use std::net::*;
use std::num::{NonZero, Saturating, Wrapping};
use std::ops::*;
use std::sync::atomic::*;
use std::time::Duration;

/// The types that need nothing but `core`.
pub fn core_entries() -> Vec<Entry> {
	let mut v: Vec<Entry> = Vec::new();
	eds!(v: u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, usize, isize, f32, f64, bool, char, (),
		NonZero<u8>, NonZero<u16>, NonZero<u32>, NonZero<u64>, NonZero<u128>, NonZero<usize>,
		NonZero<i8>, NonZero<i16>, NonZero<i32>, NonZero<i64>, NonZero<i128>, NonZero<isize>,
		PhantomData<u64>, RangeFull, Duration,
		Ipv4Addr, Ipv6Addr, IpAddr, SocketAddrV4, SocketAddrV6, SocketAddr,
		AtomicBool, AtomicU8, AtomicU16, AtomicU32, AtomicU64, AtomicUsize,
		AtomicI8, AtomicI16, AtomicI32, AtomicI64, AtomicIsize,
		Option<u8>, Option<usize>, Option<NonZero<u32>>, Option<Option<u16>>, Option<IpAddr>,
		Result<u8, u64>, Result<u64, u8>, Result<[u16; 2], [u16; 5]>, Result<NonZero<u8>, NonZero<u64>>,
		Bound<u8>, Bound<usize>, Bound<char>, Range<u32>, Range<char>, RangeInclusive<isize>, RangeFrom<u16>, RangeTo<char>, RangeToInclusive<u16>,
		Wrapping<i64>, Saturating<u16>, Cell<u32>, Cell<usize>, RefCell<char>, RefCell<usize>,
		[u8; 0], [u8; 7], [char; 5], [usize; 2], [[u8; 3]; 2], [Option<char>; 3], [RefCell<usize>; 2],
		(u8,), (u8, u16), (usize, Wrapping<usize>, usize), (u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, bool, f64), ([u16; 2], [u32; 3]),
		SizedStr<0>, SizedStr<4>, SizedStr<7>, SizedStr<300>, SizedSlice<u8, 0>, SizedSlice<u8, 4>, SizedSlice<u16, 5>, SizedSlice<char, 4>,
		SizedSlice<usize, 4>, SizedSlice<(), 5>, SizedSlice<NonZero<u16>, 5>, SizedSlice<SizedStr<5>, 3>, SizedSlice<SizedSlice<u16, 3>, 4>,
		SizedSlice<IpAddr, 3>, SizedSlice<Duration, 2>, SizedSlice<Result<u8, u32>, 3>,
		[SizedStr<3>; 2], Option<SizedStr<6>>, Result<SizedStr<4>, SizedStr<9>>, Bound<SizedStr<4>>, Range<SizedStr<3>>,
		(SizedStr<2>, SizedStr<5>), RefCell<SizedStr<4>>,
		// Types whose size in memory is less, and types whose it is more, than what they encode to.
		Option<bool>, Option<char>, Option<()>, Option<NonZero<u8>>, Option<SocketAddr>, Result<(), u32>, Result<bool, u128>, Result<Option<NonZero<u8>>, NonZero<i32>>,
		Bound<Option<u8>>, Bound<Bound<u8>>, Bound<NonZero<u16>>, Range<NonZero<u8>>, Range<Option<char>>, Range<usize>, RangeInclusive<Option<NonZero<u8>>>, RangeInclusive<char>,
		RangeFrom<char>, RangeFrom<usize>, RangeTo<u16>, RangeTo<Option<NonZero<u8>>>, RangeToInclusive<char>, RangeToInclusive<Option<bool>>,
		Wrapping<usize>, Wrapping<u8>, Saturating<isize>, Saturating<i128>, Cell<char>, Cell<Option<NonZero<u8>>>, Cell<Option<bool>>,
		RefCell<Option<NonZero<u8>>>, RefCell<RefCell<u16>>, Option<RefCell<usize>>, RefCell<[u8; 3]>,
		[Option<NonZero<u8>>; 3], [(); 3], [u8; 40], [bool; 9], [Duration; 2], [IpAddr; 2], [Bound<u8>; 3], [SizedSlice<u8, 2>; 3],
		(char, char), (u8, u16, u32), (Option<NonZero<u8>>, NonZero<i64>), (u64, u8, bool, f32), (u8, i8, u16, i16, u32), (u8, i8, u16, i16, u32, i32),
		(u8, i8, u16, i16, u32, i32, u64), (u8, i8, u16, i16, u32, i32, u64, i64), (u8, i8, u16, i16, u32, i32, u64, i64, u128),
		(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128), (u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, bool), (SocketAddr, SocketAddr),
		SizedSlice<Option<NonZero<u8>>, 4>, SizedSlice<bool, 6>, SizedSlice<[u8; 3], 4>, SizedSlice<u8, 300>, SizedSlice<u128, 9>, SizedSlice<(u8, u32), 5>,
		Option<SizedSlice<u32, 3>>, RefCell<SizedSlice<u8, 3>>, Option<Duration>, Range<Duration>, (Range<u8>, Duration));
	ed!(v: PhantomPinned, SizedSlice<u8, 70000>, SizedStr<70000>);
	es!(v: LazyCell<u32>, LazyCell<SizedStr<5>>, LazyCell<usize>, LazyCell<Option<NonZero<u8>>>, Option<LazyCell<u16>>, Result<u16, char>, Result<char, u64>);
	eo! { v:
		"&u32" = u32, Some(<&u32 as oct::encode::SizedEncode>::MAX_ENCODED_SIZE), |x| &&x;
		"&mut u64" = u64, Some(<&mut u64 as oct::encode::SizedEncode>::MAX_ENCODED_SIZE), |x| &&mut x;
		"&usize" = usize, Some(<&usize as oct::encode::SizedEncode>::MAX_ENCODED_SIZE), |x| &&x;
		"&mut Option<NonZero<u8>>" = Option<NonZero<u8>>, Some(<&mut Option<NonZero<u8>> as oct::encode::SizedEncode>::MAX_ENCODED_SIZE), |x| &&mut x;
		"&&[char; 5]" = [char; 5], Some(<&&[char; 5] as oct::encode::SizedEncode>::MAX_ENCODED_SIZE), |x| &&&x;
		"str" = String, None, |x| x.as_str();
		"&str" = String, None, |x| &x.as_str();
		"[u8]" = Vec<u8>, None, |x| x.as_slice();
		"[char]" = Vec<char>, None, |x| x.as_slice();
		"[usize]" = Vec<usize>, None, |x| x.as_slice();
		"CStr" = std::ffi::CString, None, |x| x.as_c_str();
		"Option<&str>" = Option<String>, None, |x| &x.as_deref();
		"SizedSlice::each_ref" = SizedSlice<u16, 5>, Some(<SizedSlice<&u16, 5> as oct::encode::SizedEncode>::MAX_ENCODED_SIZE), |x| &x.each_ref();
		"SizedSlice::each_mut" = SizedSlice<char, 4>, Some(<SizedSlice<&mut char, 4> as oct::encode::SizedEncode>::MAX_ENCODED_SIZE), |x| &x.each_mut();
	}
	v
}

#[cfg(feature = "oct-alloc")]
pub fn alloc_entries() -> Vec<Entry> {
	use std::borrow::Cow;
	use std::collections::LinkedList;
	use std::ffi::CString;
	use std::rc::Rc;
	use std::sync::Arc;

	let mut v: Vec<Entry> = Vec::new();
	eds!(v: Box<u32>, Box<char>, Rc<u64>, Rc<NonZero<u8>>, Arc<u16>, Arc<char>, Cow<'static, u32>, Cow<'static, SizedStr<6>>, Option<Box<[u16; 3]>>,
		SizedSlice<Box<u32>, 6>, SizedSlice<Arc<char>, 3>, Box<Rc<Arc<u32>>>, Box<[u8; 40]>, Box<SizedStr<8>>, [Rc<Option<bool>>; 2],
		Box<Option<NonZero<u8>>>, Rc<Option<NonZero<u8>>>, Arc<Option<NonZero<u8>>>, Cow<'static, Option<NonZero<u8>>>,
		Box<usize>, Rc<usize>, Arc<usize>, Cow<'static, usize>, Rc<SizedSlice<char, 2>>, Arc<SizedStr<3>>, Arc<(u8, u32)>, Cow<'static, (u8, u16)>);
	ed!(v: Vec<bool>, Vec<u128>, Vec<isize>, Vec<Option<NonZero<u8>>>, Vec<(u8, u16)>, Vec<CString>, Vec<[u8; 0]>, Vec<Box<u64>>, Vec<Rc<String>>, Vec<RefCell<usize>>,
		LinkedList<()>, LinkedList<u32>, LinkedList<Vec<u8>>, Option<LinkedList<u8>>, Box<String>, Arc<String>, Box<CString>, (CString, CString), [CString; 2],
		RangeInclusive<Vec<u8>>, RangeFrom<String>, Cell<Option<u8>>, RefCell<String>, SizedSlice<String, 3>, SizedSlice<Vec<u8>, 4>, Option<Vec<u16>>, Result<String, String>);
	ed!(v: String, Vec<u8>, Vec<u16>, Vec<char>, Vec<usize>, Vec<()>, Vec<String>, Vec<Vec<u8>>, Vec<Option<String>>, Vec<SizedStr<4>>, Vec<Duration>,
		LinkedList<u8>, LinkedList<char>, LinkedList<String>, LinkedList<usize>, CString, Option<CString>, Option<String>, Result<Vec<u8>, Vec<u64>>,
		[String; 3], (String, String), Rc<Vec<u8>>, RefCell<Vec<usize>>, Bound<String>, Range<String>, Cow<'static, String>);
	eo! { v:
		"Box<str>" = Box<str>, None, |x| &x;
		"Box<[char]>" = Box<[char]>, None, |x| &x;
		"Rc<str>" = String, None, |x| &Rc::<str>::from(x);
		"Arc<[char]>" = Vec<char>, None, |x| &Arc::<[char]>::from(x);
		"Box<[u8]>" = Box<[u8]>, None, |x| &x;
		"Arc<str>" = String, None, |x| &Arc::<str>::from(x);
		"Rc<[u16]>" = Vec<u16>, None, |x| &Rc::<[u16]>::from(x);
		"Box<CStr>" = CString, None, |x| &x.into_boxed_c_str();
		"Cow::Borrowed<[u32]>" = Vec<u32>, None, |x| &Cow::Borrowed(x.as_slice());
		"Cow::Borrowed<u64>" = u64, Some(<Cow<u64> as oct::encode::SizedEncode>::MAX_ENCODED_SIZE), |x| &Cow::Borrowed(&x);
		"Vec<&str>" = Vec<String>, None, |x| &x.iter().map(|s| s.as_str()).collect::<Vec<_>>();
		"Cow::Borrowed<str>" = String, None, |x| &Cow::Borrowed(x.as_str());
		"Cow::Borrowed<CStr>" = CString, None, |x| &Cow::Borrowed(x.as_c_str());
	}
	v
}

#[cfg(feature = "oct-std")]
pub fn std_entries() -> Vec<Entry> {
	use crate::subject::H;
	use std::collections::{HashMap, HashSet};
	use std::sync::{LazyLock, Mutex, RwLock};
	use std::time::SystemTime;

	let mut v: Vec<Entry> = Vec::new();
	eds!(v: SystemTime, Option<SystemTime>, [SystemTime; 2], SizedSlice<SystemTime, 3>, Mutex<u32>, Mutex<SizedSlice<u16, 3>>, RwLock<u64>, RwLock<SizedStr<5>>,
		Mutex<usize>, RwLock<usize>, Mutex<Option<NonZero<u8>>>, RwLock<Option<NonZero<u8>>>, Mutex<RwLock<Cell<u16>>>, Range<SystemTime>);
	ed!(v: HashMap<u32, (), H>, HashMap<bool, u8, H>, HashMap<(u8, u8), (), H>, HashMap<[u8; 2], [u16; 3], H>, HashMap<Option<u8>, bool, H>, HashSet<(), H>, HashSet<(u8, u16), H>,
		HashSet<SizedSlice<u8, 3>, H>, [HashMap<u8, u8, H>; 2], SizedSlice<HashMap<u8, u16, H>, 2>);
	ed!(v: HashMap<u8, u8, H>, HashMap<u16, u64, H>, HashMap<usize, usize, H>, HashMap<SizedStr<3>, SizedStr<5>, H>, HashMap<NonZero<u8>, NonZero<u32>, H>,
		HashMap<u16, u32>, HashSet<u8, H>, HashSet<char, H>, HashSet<isize, H>, HashSet<u64>, Option<HashSet<u16, H>>);
	es!(v: LazyLock<u64>, LazyLock<char>, LazyLock<usize>, LazyLock<Option<NonZero<u8>>>);
	v
}

#[cfg(all(feature = "oct-alloc", feature = "oct-std"))]
pub fn both_entries() -> Vec<Entry> {
	use crate::subject::H;
	use std::collections::{HashMap, HashSet};
	use std::sync::{Mutex, RwLock};
	use std::time::SystemTime;

	let mut v: Vec<Entry> = Vec::new();
	ed!(v: HashMap<String, String, H>, HashMap<Vec<u8>, Vec<u16>, H>, Vec<HashMap<u8, u8, H>>, Mutex<String>, RwLock<Vec<u16>>, Vec<SystemTime>, HashSet<String, H>);
	v
}

#[cfg(feature = "oct-macro")]
mod derived {
	use super::*;
	use crate::model::{list, Int, Ty, Val};
	use std::rc::Rc;

	#[derive(oct::encode::Encode, oct::encode::SizedEncode, oct::decode::Decode)]
	struct Pair { a: u16, b: Option<NonZero<u8>> }

	impl Subject for Pair {
		fn ty() -> Ty { Ty::Struct(vec![u16::ty(), <Option<NonZero<u8>>>::ty()]) }
		fn build(v: &Val) -> Self { let v = v.items(); Self { a: u16::build(&v[0]), b: Subject::build(&v[1]) } }
		fn view(&self) -> Val { list(vec![self.a.view(), self.b.view()]) }
	}

	#[derive(oct::encode::Encode, oct::encode::SizedEncode, oct::decode::Decode)]
	struct Held<const N: usize> (SizedStr<N>, [usize; 2]);

	impl<const N: usize> Subject for Held<N> {
		fn ty() -> Ty { Ty::Struct(vec![<SizedStr<N>>::ty(), <[usize; 2]>::ty()]) }
		fn build(v: &Val) -> Self { let v = v.items(); Self(Subject::build(&v[0]), Subject::build(&v[1])) }
		fn view(&self) -> Val { list(vec![self.0.view(), self.1.view()]) }
	}

	#[derive(oct::encode::Encode, oct::encode::SizedEncode, oct::decode::Decode)]
	#[repr(u16)]
	enum Sort { None, One(u32) = 0x100, Two { x: bool, y: SizedSlice<u8, 3> }, Last = 0xFFFF }

	impl Subject for Sort {
		fn ty() -> Ty {
			Ty::Enum(Int::U16, vec![(0, vec![]), (0x100, vec![u32::ty()]), (0x101, vec![bool::ty(), <SizedSlice<u8, 3>>::ty()]), (0xFFFF, vec![])])
		}
		fn build(v: &Val) -> Self {
			let Val::Variant(n, f) = v else { panic!("model: {v:?}") };
			match n {
				0 => Self::None,
				1 => Self::One(Subject::build(&f[0])),
				2 => Self::Two { x: Subject::build(&f[0]), y: Subject::build(&f[1]) },
				_ => Self::Last,
			}
		}
		fn view(&self) -> Val {
			let (n, f) = match self {
				Self::None => (0, vec![]),
				Self::One(x) => (1, vec![x.view()]),
				Self::Two { x, y } => (2, vec![x.view(), y.view()]),
				Self::Last => (3, vec![]),
			};
			Val::Variant(n, Rc::new(f))
		}
	}

	pub fn entries() -> Vec<Entry> {
		let mut v: Vec<Entry> = Vec::new();
		eds!(v: Pair, Held<0>, Held<5>, Sort, [Pair; 2], SizedSlice<Sort, 3>);
		v
	}
}

pub fn entries() -> Vec<Entry> {
	let mut v = core_entries();
	#[cfg(feature = "oct-alloc")]
	v.extend(alloc_entries());
	#[cfg(feature = "oct-std")]
	v.extend(std_entries());
	#[cfg(all(feature = "oct-alloc", feature = "oct-std"))]
	v.extend(both_entries());
	#[cfg(feature = "oct-macro")]
	v.extend(derived::entries());
	v
}

/// The containers themselves, which every combination has.
fn containers(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
	const N: usize = 6;
	let n = g.range(0, 9);
	let text: Vec<char> = (0..n).map(|_| *g.pick(&['a', 'b', '\0', 'é', '€', '𝄞', '\u{7F}'])).collect();
	let whole: String = text.iter().collect();
	o.key(whole.as_bytes());
	o.nontrivial(whole.len() > 2);
	o.describe(|| format!("{whole:?}"));
	catch(|| {
		let mut fits = String::new();
		for c in &text { if fits.len() + c.len_utf8() > N { break } fits.push(*c) }
		let s: SizedStr<N> = text.iter().copied().collect();
		ensure!(s.as_str() == fits && s.len() == fits.len() && s == fits.as_str() && s.is_full() == (fits.len() == N),
			"collecting {whole:?} gives {:?}", s.as_bytes());
		match SizedStr::<N>::new(&whole) {
			Ok(s) => ensure!(whole.len() <= N && s.as_bytes() == whole.as_bytes(), "SizedStr::new({whole:?}) gives {:?}", s.as_bytes()),
			Err(oct::error::StringError::SmallBuffer(e)) => ensure!(whole.len() > N && e.capacity == N && e.len == whole.len(), "SizedStr::new({whole:?}) gives {e:?}"),
			Err(e) => return Err(format!("SizedStr::new({whole:?}) gives {e:?}")),
		}
		let bytes = whole.as_bytes();
		let a: SizedSlice<u8, N> = bytes.iter().copied().collect();
		let want = &bytes[..bytes.len().min(N)];
		ensure!(a.as_slice() == want && a == want && a.clone() == a && a.len() == want.len(), "collecting {bytes:?} gives {a:?}");
		match SizedSlice::<u8, N>::new(bytes) {
			Ok(s) => ensure!(bytes.len() <= N && s.as_slice() == bytes, "SizedSlice::new({bytes:?}) gives {s:?}"),
			Err(e) => ensure!(bytes.len() > N && e.capacity == N && e.len == bytes.len(), "SizedSlice::new({bytes:?}) gives {e:?}"),
		}
		let mut i = a.into_iter();
		let mut left: std::collections::VecDeque<u8> = want.iter().copied().collect();
		loop {
			ensure!(i.len() == left.len() && i.as_slice() == left.make_contiguous(), "an iterator of {want:?} has {:?} left rather than {left:?}", i.as_slice());
			let (x, y) = if g.boolean() { (i.next(), left.pop_front()) } else { (i.next_back(), left.pop_back()) };
			ensure!(x == y, "iterating {want:?} gives {x:?} rather than {y:?}");
			if x.is_none() { break }
		}
		Ok(())
	}).unwrap_or_else(|p| Err(format!("panicked: {}", clip(&p, 300))))
}

pub fn units() -> Vec<Unit> {
	let es: &'static [Entry] = entries().leak();
	let mut v = mixed_units("C19", es, 1500);
	v.push(unit("C19", "c19 containers", 30_000, containers));
	v.extend(crate::streams::units().into_iter().map(|u| Unit { prop: "C19", name: format!("c19 {}", u.name), cases: u.cases / 8, ..u }));
	#[cfg(feature = "oct-alloc")]
	v.extend(crate::slots::units().into_iter().map(|u| Unit { prop: "C19", name: format!("c19 {}", u.name), cases: u.cases / 8, ..u }));
	v
}
