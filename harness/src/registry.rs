//! The concrete types under test.

use crate::subject::{Entry, Subject};
use crate::{ed, eds, eo, es};
use oct::{SizedSlice, SizedStr};
use std::borrow::Cow;
use std::cell::{Cell, LazyCell, RefCell};
use std::collections::{HashMap, HashSet, LinkedList};
use std::ffi::CString;
use std::marker::{PhantomData, PhantomPinned};
use std::net::*;
use std::num::{NonZero, Saturating, Wrapping};
use std::ops::*;
use std::rc::Rc;
use std::sync::atomic::*;
use std::sync::{Arc, LazyLock, Mutex, RwLock};
use std::time::{Duration, SystemTime};

pub use crate::subject::H;
type Map<K, V> = HashMap<K, V, H>;
type Set<K> = HashSet<K, H>;

pub fn entries() -> Vec<Entry> {
	let mut v: Vec<Entry> = Vec::new();

	// Scalars.
	eds!(v: u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, usize, isize, f32, f64, bool, char, (),
		NonZero<u8>, NonZero<u16>, NonZero<u32>, NonZero<u64>, NonZero<u128>, NonZero<usize>,
		NonZero<i8>, NonZero<i16>, NonZero<i32>, NonZero<i64>, NonZero<i128>, NonZero<isize>,
		PhantomData<u64>, RangeFull, Duration, SystemTime,
		Ipv4Addr, Ipv6Addr, IpAddr, SocketAddrV4, SocketAddrV6, SocketAddr,
		AtomicBool, AtomicU8, AtomicU16, AtomicU32, AtomicU64, AtomicUsize,
		AtomicI8, AtomicI16, AtomicI32, AtomicI64, AtomicIsize);
	ed!(v: PhantomPinned);

	// One level.
	eds!(v: Option<u8>, Option<u64>, Option<bool>, Option<char>, Option<()>, Option<usize>, Option<NonZero<u32>>,
		Option<Option<u16>>, Option<SystemTime>, Option<IpAddr>,
		Result<u8, u8>, Result<u64, u8>, Result<u8, u64>, Result<(), u32>, Result<u32, ()>, Result<bool, u128>,
		Result<char, char>, Result<NonZero<u8>, NonZero<u64>>, Result<Option<u32>, u8>,
		Result<[u8; 9], [u8; 9]>, Result<[u16; 2], [u16; 5]>,
		Bound<u8>, Bound<u64>, Bound<char>, Bound<usize>, Bound<NonZero<u16>>, Bound<Option<u8>>,
		Range<u8>, Range<u32>, Range<i64>, Range<char>, Range<usize>, Range<NonZero<u8>>,
		RangeInclusive<u8>, RangeInclusive<u32>, RangeInclusive<char>, RangeInclusive<isize>,
		RangeFrom<u16>, RangeFrom<char>, RangeTo<u16>, RangeTo<char>, RangeToInclusive<u16>, RangeToInclusive<char>,
		Wrapping<u32>, Wrapping<i64>, Wrapping<usize>, Saturating<u16>, Saturating<i128>,
		Box<u32>, Box<char>, Rc<u64>, Rc<NonZero<u8>>, Arc<u16>, Arc<char>, Cow<'static, u32>, Cow<'static, char>,
		Cell<u32>, Cell<char>, Cell<usize>, RefCell<u32>, RefCell<char>, RefCell<usize>,
		Mutex<u32>, Mutex<char>, RwLock<u64>, RwLock<NonZero<u16>>);

	// Arrays and tuples.
	eds!(v: [u8; 0], [u8; 1], [u8; 7], [u16; 3], [u64; 2], [char; 0], [char; 1], [char; 5], [bool; 9], [(); 3],
		[usize; 2], [isize; 3], [NonZero<u8>; 4], [[u8; 3]; 2], [[char; 2]; 3], [Option<char>; 3], [SystemTime; 2],
		[Option<[u16; 2]>; 2], [IpAddr; 2], [Duration; 2], [Bound<u8>; 3],
		(u8,), (char,), (u8, u16), (u8, u16, u32), (u64, u8, bool, f32), (char, char), (usize, Wrapping<usize>, usize),
		(u8, i8, u16, i16, u32), (u8, i8, u16, i16, u32, i32), (u8, i8, u16, i16, u32, i32, u64),
		(u8, i8, u16, i16, u32, i32, u64, i64), (u8, i8, u16, i16, u32, i32, u64, i64, u128),
		(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128), (u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, bool),
		(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, bool, f64),
		((u8, u16), (u32, u64)), (Option<u8>, (bool, u16)), ([u16; 2], [u32; 3]), (NonZero<u8>, NonZero<i64>, NonZero<u16>),
		(Ipv4Addr, u16), (Range<u8>, Duration), (IpAddr, IpAddr), (SocketAddr, SocketAddr));

	eds!(v: [u8; 256], [u16; 300], [NonZero<u8>; 260], [char; 65], [Option<u8>; 33], [(); 1000], Option<[u8; 300]>,
		(char, char, char, char, char, char, char, char, char, char, char, char),
		(usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize),
		(isize, isize, isize, isize, isize, isize, isize, isize, isize),
		(NonZero<u8>, NonZero<i16>, NonZero<u32>, NonZero<i8>, NonZero<i128>, NonZero<u16>, NonZero<i32>, NonZero<u64>),
		(u8, i8, u16, i16, u32, i32, u64, i64, u8, u16, bool, u128));

	// Fixed-capacity containers.
	eds!(v: SizedStr<0>, SizedStr<1>, SizedStr<3>, SizedStr<4>, SizedStr<7>, SizedStr<64>, SizedStr<300>,
		SizedSlice<u8, 0>, SizedSlice<u8, 1>, SizedSlice<u8, 4>, SizedSlice<u8, 40>, SizedSlice<u8, 300>,
		SizedSlice<u16, 5>, SizedSlice<u16, 257>, SizedSlice<NonZero<u8>, 300>, SizedSlice<(), 1000>, SizedSlice<char, 66>, SizedSlice<u64, 3>, SizedSlice<u128, 9>, SizedSlice<char, 4>, SizedSlice<bool, 6>, SizedSlice<(), 5>,
		SizedSlice<usize, 4>, SizedSlice<isize, 3>, SizedSlice<NonZero<u16>, 5>,
		SizedSlice<Option<u8>, 4>, SizedSlice<[u8; 3], 4>, SizedSlice<SizedStr<5>, 3>, SizedSlice<SizedSlice<u16, 3>, 4>,
		SizedSlice<Box<u32>, 6>, SizedSlice<Arc<char>, 3>, SizedSlice<IpAddr, 3>, SizedSlice<(u8, u32), 5>,
		SizedSlice<Result<u8, u32>, 3>, SizedSlice<Duration, 2>, SizedSlice<SystemTime, 3>,
		[SizedStr<3>; 2], [SizedSlice<u8, 2>; 3], Option<SizedStr<6>>, Option<SizedSlice<u32, 3>>,
		Result<SizedStr<4>, SizedStr<9>>, Result<SizedSlice<u8, 3>, SizedSlice<u8, 12>>, Bound<SizedStr<4>>, Box<SizedStr<8>>,
		Range<SizedStr<3>>, (SizedStr<2>, SizedStr<5>), (SizedSlice<u8, 2>, SizedSlice<u8, 3>), RefCell<SizedStr<4>>,
		Mutex<SizedSlice<u16, 3>>, RwLock<SizedStr<5>>, Cow<'static, SizedStr<6>>, Rc<SizedSlice<char, 2>>);
	ed!(v: SizedSlice<String, 3>, SizedSlice<Vec<u8>, 4>, SizedSlice<Map<u8, u16>, 2>, SizedSlice<u8, 70000>, SizedSlice<(), 70000>,
		SizedStr<70000>);

	// Nested, sized.
	eds!(v: Option<Result<Option<u8>, u32>>, Result<Result<u8, u16>, Result<u32, u64>>, Bound<Bound<u8>>,
		Option<Bound<Range<u16>>>, Range<Option<char>>, RefCell<RefCell<u16>>, Option<RefCell<usize>>, [RefCell<usize>; 2],
		Box<Rc<Arc<u32>>>, Mutex<RwLock<Cell<u16>>>, Wrapping<Saturating<u8>>, Option<Box<[u16; 3]>>, Cell<Option<u64>>,
		Bound<RefCell<isize>>, [Result<u8, u16>; 3], (Result<u8, u16>, Result<u32, bool>), Option<(char, char)>,
		Option<Duration>, Result<Duration, u8>);

	// Dynamic containers.
	ed!(v: String, Vec<u8>, Vec<u16>, Vec<u32>, Vec<u128>, Vec<char>, Vec<bool>, Vec<()>, Vec<usize>, Vec<isize>, Vec<NonZero<u8>>,
		Vec<String>, Vec<Vec<u8>>, Vec<Vec<char>>, Vec<Option<String>>, Vec<[u8; 3]>, Vec<[char; 2]>, Vec<SizedStr<4>>,
		Vec<Result<u8, u16>>, Vec<Bound<u16>>, Vec<(u8, u16)>, Vec<(String, String)>, Vec<CString>, Vec<Duration>, Vec<SystemTime>,
		Vec<IpAddr>, Vec<SocketAddr>, Vec<Map<u8, u8>>, Vec<RefCell<usize>>, Vec<Box<u64>>, Vec<Rc<String>>, Vec<[u8; 0]>,
		LinkedList<u8>, LinkedList<u32>, LinkedList<char>, LinkedList<String>, LinkedList<usize>, LinkedList<()>, LinkedList<Vec<u8>>,
		Box<LinkedList<NonZero<u16>>>, Option<LinkedList<u8>>, CString, Option<CString>, Box<CString>, [CString; 2], (CString, CString),
		Cow<'static, String>,
		Option<String>, Option<Vec<u16>>, Result<String, String>, Result<Vec<u8>, Vec<u64>>, Bound<String>, Range<String>,
		RangeInclusive<Vec<u8>>, RangeFrom<String>,
		[String; 3], [Vec<u16>; 2], (String, String), (Vec<u8>, Vec<u16>), Box<String>, Rc<Vec<u8>>, Arc<String>,
		Cell<Option<u8>>, RefCell<String>, RefCell<Vec<usize>>, Mutex<String>, RwLock<Vec<u16>>,
		Map<u8, u8>, Map<u16, u64>, Map<u32, ()>, Map<char, char>, Map<String, String>, Map<usize, usize>,
		Map<NonZero<u8>, NonZero<u32>>, Map<(u8, u8), ()>, Map<[u8; 2], [u16; 3]>, Map<bool, u8>, Map<u32, u32>,
		Map<SizedStr<3>, SizedStr<5>>, Map<Vec<u8>, Vec<u16>>,
		Set<u8>, Set<u32>, Set<char>, Set<String>, Set<(u8, u16)>, Set<isize>, Set<()>, Set<SizedSlice<u8, 3>>, Option<Set<u16>>,
		[Map<u8, u8>; 2], Map<Option<u8>, bool>, HashMap<u16, u32>, HashSet<u64>,
		Vec<Vec<Vec<u8>>>, Option<Result<Vec<Vec<u16>>, Vec<Vec<u8>>>>, Vec<Option<Result<u8, (u16, u16)>>>, Box<[u8; 40]>);

	// Encode only.
	es!(v: LazyCell<u32>, LazyCell<SizedStr<5>>, LazyLock<u64>, LazyLock<char>, Option<LazyCell<u16>>,
		Result<u16, char>, Result<char, u64>);
	v.push(Entry { name: "LazyLock<String>", ty: String::ty(), max: None, enc: crate::subject::enc_of::<LazyLock<String>>, dec: None, slot: None });
	eo! { v:
		"&u32" = u32, Some(<&u32 as oct::encode::SizedEncode>::MAX_ENCODED_SIZE), |x| &&x;
		"&mut u64" = u64, Some(<&mut u64 as oct::encode::SizedEncode>::MAX_ENCODED_SIZE), |x| &&mut x;
		"&&char" = char, Some(<&&char as oct::encode::SizedEncode>::MAX_ENCODED_SIZE), |x| &&&x;
		"str" = String, None, |x| x.as_str();
		"&str" = String, None, |x| &x.as_str();
		"&mut str" = String, None, |x| &x.as_mut_str();
		"Box<str>" = Box<str>, None, |x| &x;
		"Rc<str>" = String, None, |x| &Rc::<str>::from(x);
		"Arc<str>" = String, None, |x| &Arc::<str>::from(x);
		"Cow::Borrowed<str>" = String, None, |x| &Cow::Borrowed(x.as_str());
		"[u8]" = Vec<u8>, None, |x| x.as_slice();
		"[u32]" = Vec<u32>, None, |x| x.as_slice();
		"[char]" = Vec<char>, None, |x| x.as_slice();
		"[usize]" = Vec<usize>, None, |x| x.as_slice();
		"[String]" = Vec<String>, None, |x| x.as_slice();
		"&[u16]" = Vec<u16>, None, |x| &x.as_slice();
		"&mut [u16]" = Vec<u16>, None, |x| &x.as_mut_slice();
		"Box<[u8]>" = Box<[u8]>, None, |x| &x;
		"Box<[char]>" = Box<[char]>, None, |x| &x;
		"Rc<[u16]>" = Vec<u16>, None, |x| &Rc::<[u16]>::from(x);
		"Arc<[char]>" = Vec<char>, None, |x| &Arc::<[char]>::from(x);
		"Cow::Borrowed<[u32]>" = Vec<u32>, None, |x| &Cow::Borrowed(x.as_slice());
		"Cow::Borrowed<u64>" = u64, Some(<Cow<u64> as oct::encode::SizedEncode>::MAX_ENCODED_SIZE), |x| &Cow::Borrowed(&x);
		"CStr" = CString, None, |x| x.as_c_str();
		"Box<CStr>" = CString, None, |x| &x.into_boxed_c_str();
		"Cow::Borrowed<CStr>" = CString, None, |x| &Cow::Borrowed(x.as_c_str());
		"SizedSlice::each_ref" = SizedSlice<u16, 5>, Some(<SizedSlice<&u16, 5> as oct::encode::SizedEncode>::MAX_ENCODED_SIZE), |x| &x.each_ref();
		"SizedSlice::each_mut" = SizedSlice<char, 4>, Some(<SizedSlice<&mut char, 4> as oct::encode::SizedEncode>::MAX_ENCODED_SIZE), |x| &x.each_mut();
		"Option<&str>" = Option<String>, None, |x| &x.as_deref();
		"Option<&[u8]>" = Option<Vec<u8>>, None, |x| &x.as_deref();
		"(&str, &str)" = (String, String), None, |x| &(x.0.as_str(), x.1.as_str());
		"[&str; 3]" = [String; 3], None, |x| &x.each_ref().map(|s| s.as_str());
		"Vec<&str>" = Vec<String>, None, |x| &x.iter().map(|s| s.as_str()).collect::<Vec<_>>();
		"HashMap<&str, &str>" = Map<String, String>, None, |x| &x.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect::<Map<_, _>>();
		"Mutex<&u32>" = u32, None, |x| &Mutex::new(&x);
		"RefCell<&[u16]>" = RefCell<Vec<u16>>, None, |x| &RefCell::new(&x.get_mut()[..]);
	}

	v.extend(crate::user::entries());
	#[cfg(feature = "derived")]
	v.extend(crate::derived_fixed::entries());
	v
}
