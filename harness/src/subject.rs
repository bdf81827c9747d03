//! Bridges concrete oct types to the reference model.

use crate::engine::catch;
use crate::model::{list, ErrM, Int, Ty, Val};
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output, SizedEncode};
use oct::error::*;
use oct::{SizedSlice, SizedStr};
use std::borrow::Cow;
use std::cell::{Cell, LazyCell, RefCell};
use std::collections::{HashMap, HashSet, LinkedList};
use std::convert::Infallible;
use std::error::Error;
use std::ffi::CString;
use std::hash::{BuildHasher, Hash};
use std::marker::{PhantomData, PhantomPinned};
use std::net::*;
use std::num::{NonZero, Saturating, Wrapping};
use std::ops::*;
use std::rc::Rc;
use std::sync::atomic::*;
use std::sync::{Arc, LazyLock, Mutex, RwLock};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

/// A hasher without random state, so that runs are reproducible.
pub type H = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;

pub trait Subject: Sized {
	fn ty() -> Ty;
	fn build(v: &Val) -> Self;
	fn view(&self) -> Val;
}

// -------------------------------------------------------------------- errors

pub trait ErrView {
	fn m(&self) -> ErrM;
	/// As a standard error, if it is one.
	fn dy(&self) -> Option<&dyn Error>;
}

pub trait RawDisc { fn raw(&self) -> u128; }

macro_rules! raw_disc { ($($t:ty as $u:ty),*) => { $(impl RawDisc for $t { fn raw(&self) -> u128 { *self as $u as u128 } })* } }
raw_disc!(u8 as u8, u16 as u16, u32 as u32, u64 as u64, u128 as u128, usize as usize,
	i8 as u8, i16 as u16, i32 as u32, i64 as u64, i128 as u128, isize as usize, bool as u8);

macro_rules! err_view { ($($t:ty: |$e:ident| $m:expr;)*) => { $(impl ErrView for $t {
	fn m(&self) -> ErrM { let $e = self; $m }
	fn dy(&self) -> Option<&dyn Error> { Some(self) }
})* } }

fn b(e: ErrM) -> Box<ErrM> { Box::new(e) }

err_view! {
	Infallible: |_e| ErrM::Never;
	UsizeEncodeError: |e| ErrM::Usize(e.0);
	IsizeEncodeError: |e| ErrM::Isize(e.0);
	CharDecodeError: |e| ErrM::Char(e.code_point);
	LengthError: |e| ErrM::Len { capacity: e.capacity, len: e.len };
	NonZeroDecodeError: |_e| ErrM::Zero;
	Utf8Error: |e| ErrM::Utf8 { value: e.value, index: e.index };
	GenericDecodeError: |e| ErrM::Generic(b(match e {
		GenericDecodeError::BadString(e) => e.m(),
		#[cfg(feature = "oct-alloc")]
		GenericDecodeError::NullString(e) => e.m(),
		GenericDecodeError::NullInteger(e) => e.m(),
		GenericDecodeError::SmallBuffer(e) => e.m(),
		GenericDecodeError::UnassignedDiscriminant { value } => ErrM::Unassigned(*value),
		#[cfg(feature = "oct-std")]
		GenericDecodeError::NarrowSystemTime(e) => e.m(),
		e => ErrM::Other(format!("{e:?}")),
	}));
	GenericEncodeError: |e| ErrM::Generic(b(match e {
		GenericEncodeError::BadBorrow(_) => ErrM::BadBorrow,
		GenericEncodeError::LargeIsize(e) => e.m(),
		GenericEncodeError::LargeUsize(e) => e.m(),
		e => ErrM::Other(format!("{e:?}")),
	}));
}

#[cfg(feature = "oct-alloc")]
err_view! { CStringDecodeError: |e| ErrM::Nul(e.index); }
#[cfg(feature = "oct-std")]
err_view! { SystemTimeDecodeError: |e| ErrM::Time(e.timestamp); }

impl<I: ErrView + Error + 'static, L: ErrView + Error + 'static> ErrView for CollectionDecodeError<L, I> {
	fn m(&self) -> ErrM {
		match self {
			CollectionDecodeError::BadLength(e) => ErrM::BadLength(b(e.m())),
			CollectionDecodeError::BadItem(e) => ErrM::BadItem(b(e.m())),
		}
	}
	fn dy(&self) -> Option<&dyn Error> { Some(self) }
}

impl<E: ErrView + Error + 'static> ErrView for ItemDecodeError<usize, E> {
	fn m(&self) -> ErrM { ErrM::At(self.index, b(self.error.m())) }
	fn dy(&self) -> Option<&dyn Error> { Some(self) }
}

impl<E: ErrView + Error + 'static> ErrView for ItemEncodeError<usize, E> {
	fn m(&self) -> ErrM { ErrM::At(self.index, b(self.error.m())) }
	fn dy(&self) -> Option<&dyn Error> { Some(self) }
}

impl<L: ErrView + Error + 'static, E: ErrView + Error + 'static> ErrView for CollectionEncodeError<L, ItemEncodeError<usize, E>> {
	fn m(&self) -> ErrM {
		match self {
			CollectionEncodeError::BadLength(e) => ErrM::BadLength(b(e.m())),
			CollectionEncodeError::BadItem(e) => ErrM::BadItem(b(e.m())),
		}
	}
	fn dy(&self) -> Option<&dyn Error> { Some(self) }
}

impl<L: ErrView, E: ErrView> ErrView for CollectionEncodeError<L, (usize, E)> {
	fn m(&self) -> ErrM {
		match self {
			CollectionEncodeError::BadLength(e) => ErrM::BadLength(b(e.m())),
			CollectionEncodeError::BadItem(e) => ErrM::BadItem(b(ErrM::At(e.0, b(e.1.m())))),
		}
	}
	fn dy(&self) -> Option<&dyn Error> { None }
}

impl<R, F> ErrView for EnumDecodeError<R, F>
where
	R: RawDisc + Decode<Error: ErrView + Error + 'static> + std::fmt::Debug + std::fmt::Display,
	F: ErrView + Error + 'static,
{
	fn m(&self) -> ErrM {
		match self {
			EnumDecodeError::InvalidDiscriminant(e) => ErrM::InvalidDiscriminant(b(e.m())),
			EnumDecodeError::UnassignedDiscriminant { value } => ErrM::Unassigned(value.raw()),
			EnumDecodeError::BadField(e) => ErrM::BadField(b(e.m())),
		}
	}
	fn dy(&self) -> Option<&dyn Error> { Some(self) }
}

impl<R, F> ErrView for EnumEncodeError<R, F>
where
	R: Encode<Error: ErrView + Error + 'static> + std::fmt::Debug + std::fmt::Display,
	F: ErrView + Error + 'static,
{
	fn m(&self) -> ErrM {
		match self {
			EnumEncodeError::BadDiscriminant(e) => ErrM::BadDiscriminant(b(e.m())),
			EnumEncodeError::BadField(e) => ErrM::BadField(b(e.m())),
		}
	}
	fn dy(&self) -> Option<&dyn Error> { Some(self) }
}

impl<E: ErrView + Error + 'static> ErrView for RefCellEncodeError<E> {
	fn m(&self) -> ErrM {
		match self {
			RefCellEncodeError::BadBorrow(_) => ErrM::BadBorrow,
			RefCellEncodeError::BadValue(e) => ErrM::BadValue(b(e.m())),
		}
	}
	fn dy(&self) -> Option<&dyn Error> { Some(self) }
}

pub struct ErrInfo {
	pub m: ErrM,
	/// The displayed chain, if the error is a standard error.
	pub chain: Option<Vec<String>>,
	pub endless: bool,
}

pub fn err_info<E: ErrView>(e: &E) -> ErrInfo {
	let mut chain = None;
	let mut endless = false;
	if WANT_CHAIN.with(|w| w.get()) {
		if let Some(d) = e.dy() {
			let mut v = vec![d.to_string()];
			let mut cur = d.source();
			while let Some(s) = cur {
				v.push(s.to_string());
				if v.len() > 64 { endless = true; break }
				cur = s.source();
			}
			chain = Some(v);
		}
	}
	ErrInfo { m: e.m(), chain, endless }
}

thread_local! { pub static WANT_CHAIN: Cell<bool> = const { Cell::new(false) }; }

// ------------------------------------------------------------------- entries

pub enum EncOut { Ok, Err(ErrInfo), Panic(String) }
pub enum DecOut { Ok(Val), Err(ErrInfo), Panic(String) }

pub struct Entry {
	pub name: &'static str,
	pub ty: Ty,
	pub max: Option<usize>,
	pub enc: fn(&Val, &mut Output<'_>) -> EncOut,
	pub dec: Option<fn(&mut Input<'_>) -> DecOut>,
	/// Writes through a `Slot::new`: capacity, contents, and what reading gives.
	pub slot: Option<fn(&Val) -> Result<SlotOut, String>>,
}

pub struct SlotOut { pub cap: usize, pub res: Result<Vec<u8>, ErrM>, pub read: Option<Result<Val, ErrM>> }

pub fn enc_ref<T: Encode<Error: ErrView> + ?Sized>(x: &T, out: &mut Output<'_>) -> EncOut {
	match catch(|| x.encode(out)) {
		Ok(Ok(())) => EncOut::Ok,
		Ok(Err(e)) => EncOut::Err(err_info(&e)),
		Err(p) => EncOut::Panic(p),
	}
}

pub fn enc_of<T: Subject + Encode<Error: ErrView>>(v: &Val, out: &mut Output<'_>) -> EncOut {
	let x = T::build(v);
	enc_ref(&x, out)
}

pub fn dec_of<T: Subject + Decode<Error: ErrView>>(i: &mut Input<'_>) -> DecOut {
	match catch(|| T::decode(i)) {
		Ok(Ok(x)) => DecOut::Ok(x.view()),
		Ok(Err(e)) => DecOut::Err(err_info(&e)),
		Err(p) => DecOut::Panic(p),
	}
}

#[cfg(not(feature = "oct-alloc"))]
pub fn slot_fn<T>() -> Option<fn(&Val) -> Result<SlotOut, String>> { None }

#[cfg(feature = "oct-alloc")]
pub fn slot_fn<T: Subject + SizedEncode<Error: ErrView> + Decode<Error: ErrView>>() -> Option<fn(&Val) -> Result<SlotOut, String>> { Some(slot_of::<T>) }

#[cfg(feature = "oct-alloc")]
pub fn slot_of<T: Subject + SizedEncode<Error: ErrView> + Decode<Error: ErrView>>(v: &Val) -> Result<SlotOut, String> {
	let x = T::build(v);
	catch(|| {
		let mut s = oct::Slot::<T>::new();
		let cap = s.capacity();
		match s.write(x) {
			Ok(()) => SlotOut {
				cap,
				res: Ok(s.as_slice().to_vec()),
				read: Some(match s.read() { Ok(x) => Ok(x.view()), Err(e) => Err(e.m()) }),
			},
			Err(e) => SlotOut { cap, res: Err(e.m()), read: None },
		}
	})
}

/// Encode and decode.
#[macro_export]
macro_rules! ed { ($v:ident: $($t:ty),* $(,)?) => { $(
	$v.push($crate::subject::Entry {
		name: stringify!($t), ty: <$t as $crate::subject::Subject>::ty(), max: None,
		enc: $crate::subject::enc_of::<$t>, dec: Some($crate::subject::dec_of::<$t>), slot: None,
	});
)* } }

/// Encode, decode, and size bound.
#[macro_export]
macro_rules! eds { ($v:ident: $($t:ty),* $(,)?) => { $(
	$v.push($crate::subject::Entry {
		name: stringify!($t), ty: <$t as $crate::subject::Subject>::ty(),
		max: Some(<$t as oct::encode::SizedEncode>::MAX_ENCODED_SIZE),
		enc: $crate::subject::enc_of::<$t>, dec: Some($crate::subject::dec_of::<$t>), slot: $crate::subject::slot_fn::<$t>(),
	});
)* } }

/// Encode and size bound, without decoding.
#[macro_export]
macro_rules! es { ($v:ident: $($t:ty),* $(,)?) => { $(
	$v.push($crate::subject::Entry {
		name: stringify!($t), ty: <$t as $crate::subject::Subject>::ty(),
		max: Some(<$t as oct::encode::SizedEncode>::MAX_ENCODED_SIZE),
		enc: $crate::subject::enc_of::<$t>, dec: None, slot: None,
	});
)* } }

/// Borrowed forms: the encoded thing is an expression over an owned value.
#[macro_export]
macro_rules! eo { ($v:ident: $($name:literal = $t:ty, $max:expr, |$x:ident| $e:expr;)*) => { $(
	$v.push($crate::subject::Entry {
		name: $name, ty: <$t as $crate::subject::Subject>::ty(), max: $max,
		enc: |v, out| { #[allow(unused_mut)] let mut $x = <$t as $crate::subject::Subject>::build(v); $crate::subject::enc_ref($e, out) },
		dec: None, slot: None,
	});
)* } }

// --------------------------------------------------------------------- impls

macro_rules! ints { ($($t:ident $i:ident $u:ty),*) => { $(
	impl Subject for $t {
		fn ty() -> Ty { Ty::Int(Int::$i) }
		fn build(v: &Val) -> Self { v.int() as $t }
		fn view(&self) -> Val { Val::Int(*self as $u as u128) }
	}
	impl Subject for NonZero<$t> {
		fn ty() -> Ty { Ty::NonZero(Int::$i) }
		fn build(v: &Val) -> Self { NonZero::new(v.int() as $t).unwrap() }
		fn view(&self) -> Val { Val::Int(self.get() as $u as u128) }
	}
)* } }
ints!(u8 U8 u8, u16 U16 u16, u32 U32 u32, u64 U64 u64, u128 U128 u128, usize Usize usize,
	i8 I8 u8, i16 I16 u16, i32 I32 u32, i64 I64 u64, i128 I128 u128, isize Isize usize);

macro_rules! subject { ($($(#[$g:tt])* [$($p:tt)*] $t:ty { $ty:expr; |$v:ident| $b:expr; |$s:ident| $w:expr })*) => { $(
	impl<$($p)*> Subject for $t {
		fn ty() -> Ty { $ty }
		fn build($v: &Val) -> Self { $b }
		fn view(&self) -> Val { let $s = self; $w }
	}
)* } }

fn bx<T: Subject>() -> Box<Ty> { Box::new(T::ty()) }
fn rc<T: Subject>(x: &T) -> Rc<Val> { Rc::new(x.view()) }
fn wrong(v: &Val) -> ! { panic!("model: unexpected {v:?}") }

fn text(v: &Val) -> &str { std::str::from_utf8(v.bytes()).unwrap() }

/// Strings are viewed octet by octet, so that invalid ones are seen too.
fn view_text(s: &[u8]) -> Val { Val::Bytes(Rc::new(s.to_vec())) }

thread_local! { static LAZY: RefCell<Vec<Val>> = const { RefCell::new(Vec::new()) }; }
fn lazy_init<T: Subject>() -> T { let v = LAZY.with(|l| l.borrow_mut().pop()).unwrap(); T::build(&v) }

pub fn time_of(s: i64, n: u32) -> SystemTime {
	let t = if s >= 0 { UNIX_EPOCH + Duration::from_secs(s as u64) } else { UNIX_EPOCH - Duration::from_secs(s.unsigned_abs()) };
	t + Duration::new(0, n)
}

pub fn view_time(t: SystemTime) -> (i64, u32) {
	match t.duration_since(UNIX_EPOCH) {
		Ok(d) => (d.as_secs() as i64, d.subsec_nanos()),
		Err(e) => {
			let d = e.duration();
			// floor
			if d.subsec_nanos() == 0 { ((d.as_secs() as i64).wrapping_neg(), 0) }
			else { ((d.as_secs() as i64).wrapping_neg() - 1, 1_000_000_000 - d.subsec_nanos()) }
		},
	}
}

subject! {
	[] f32 { Ty::F32; |v| f32::from_bits(v.int() as u32); |s| Val::Int(s.to_bits() as u128) }
	[] f64 { Ty::F64; |v| f64::from_bits(v.int() as u64); |s| Val::Int(s.to_bits() as u128) }
	[] bool { Ty::Bool; |v| if let Val::Bool(b) = v { *b } else { wrong(v) };
		|s| { let raw = unsafe { *(s as *const bool).cast::<u8>() }; if raw > 1 { Val::Int(raw as u128) } else { Val::Bool(*s) } } }
	[] char { Ty::Char; |v| if let Val::Char(c) = v { char::from_u32(*c).unwrap() } else { wrong(v) }; |s| Val::Char(*s as u32) }
	[] () { Ty::Unit; |_v| (); |_s| Val::Unit }
	[T] PhantomData<T> { Ty::Unit; |_v| PhantomData; |_s| Val::Unit }
	[] PhantomPinned { Ty::Unit; |_v| PhantomPinned; |_s| Val::Unit }
	[] RangeFull { Ty::Unit; |_v| ..; |_s| Val::Unit }
	[T: Subject, const N: usize] [T; N] { Ty::Array(bx::<T>(), N);
		|v| v.items().iter().map(T::build).collect::<Vec<_>>().try_into().ok().unwrap();
		|s| list(s.iter().map(T::view).collect()) }
	[T: Subject] Vec<T> { Ty::Seq(bx::<T>(), None); |v| v.items().iter().map(T::build).collect(); |s| list(s.iter().map(T::view).collect()) }
	[T: Subject] Box<[T]> { Ty::Seq(bx::<T>(), None); |v| v.items().iter().map(T::build).collect(); |s| list(s.iter().map(T::view).collect()) }
	[T: Subject] LinkedList<T> { Ty::Seq(bx::<T>(), None); |v| v.items().iter().map(T::build).collect(); |s| list(s.iter().map(T::view).collect()) }
	[T: Subject, const N: usize] SizedSlice<T, N> { Ty::Seq(bx::<T>(), Some(N));
		|v| { assert!(v.items().len() <= N, "model: too long"); v.items().iter().map(T::build).collect() };
		|s| list(s.as_slice().iter().map(T::view).collect()) }
	[const N: usize] SizedStr<N> { Ty::Str(Some(N)); |v| SizedStr::new(text(v)).ok().unwrap(); |s| view_text(s.as_bytes()) }
	[] String { Ty::Str(None); |v| text(v).to_string(); |s| view_text(s.as_bytes()) }
	[] Box<str> { Ty::Str(None); |v| text(v).into(); |s| view_text(s.as_bytes()) }
	[] Cow<'static, str> { Ty::Str(None); |v| Cow::Owned(text(v).to_string()); |s| view_text(s.as_bytes()) }
	[T: Subject + Clone] Cow<'static, [T]> { Ty::Seq(bx::<T>(), None); |v| Cow::Owned(Vec::<T>::build(v)); |s| list(s.iter().map(T::view).collect()) }
	[T: Subject + Clone] Cow<'static, T> { T::ty(); |v| Cow::Owned(T::build(v)); |s| (**s).view() }
	[] CString { Ty::CStr; |v| CString::new(v.bytes().to_vec()).unwrap(); |s| Val::Bytes(Rc::new(s.as_bytes().to_vec())) }
	[] Cow<'static, std::ffi::CStr> { Ty::CStr; |v| Cow::Owned(CString::build(v)); |s| Val::Bytes(Rc::new(s.to_bytes().to_vec())) }
	[T: Subject] Option<T> { Ty::Opt(bx::<T>()); |v| if let Val::Opt(x) = v { x.as_ref().map(|x| T::build(x)) } else { wrong(v) }; |s| Val::Opt(s.as_ref().map(rc)) }
	[T: Subject, E: Subject] Result<T, E> { Ty::Res(bx::<T>(), bx::<E>());
		|v| match v { Val::Res(false, x) => Ok(T::build(x)), Val::Res(true, x) => Err(E::build(x)), v => wrong(v) };
		|s| match s { Ok(x) => Val::Res(false, rc(x)), Err(x) => Val::Res(true, rc(x)) } }
	[T: Subject] Bound<T> { Ty::Bound(bx::<T>());
		|v| match v { Val::Bound(0, Some(x)) => Bound::Included(T::build(x)), Val::Bound(1, Some(x)) => Bound::Excluded(T::build(x)), Val::Bound(2, _) => Bound::Unbounded, v => wrong(v) };
		|s| match s { Bound::Included(x) => Val::Bound(0, Some(rc(x))), Bound::Excluded(x) => Val::Bound(1, Some(rc(x))), Bound::Unbounded => Val::Bound(2, None) } }
	[T: Subject] Range<T> { Ty::Tuple(vec![T::ty(), T::ty()]); |v| T::build(&v.items()[0])..T::build(&v.items()[1]); |s| list(vec![s.start.view(), s.end.view()]) }
	[T: Subject] RangeInclusive<T> { Ty::Tuple(vec![T::ty(), T::ty()]); |v| T::build(&v.items()[0])..=T::build(&v.items()[1]); |s| list(vec![s.start().view(), s.end().view()]) }
	[T: Subject] RangeFrom<T> { T::ty(); |v| T::build(v)..; |s| s.start.view() }
	[T: Subject] RangeTo<T> { T::ty(); |v| ..T::build(v); |s| s.end.view() }
	[T: Subject] RangeToInclusive<T> { T::ty(); |v| ..=T::build(v); |s| s.end.view() }
	[T: Subject] Wrapping<T> { T::ty(); |v| Wrapping(T::build(v)); |s| s.0.view() }
	[T: Subject] Saturating<T> { T::ty(); |v| Saturating(T::build(v)); |s| s.0.view() }
	[T: Subject] Box<T> { T::ty(); |v| Box::new(T::build(v)); |s| (**s).view() }
	[T: Subject] Rc<T> { T::ty(); |v| Rc::new(T::build(v)); |s| (**s).view() }
	[T: Subject] Arc<T> { T::ty(); |v| Arc::new(T::build(v)); |s| (**s).view() }
	[T: Subject + Copy] Cell<T> { T::ty(); |v| Cell::new(T::build(v)); |s| s.get().view() }
	[T: Subject] RefCell<T> { Ty::RefCell(bx::<T>()); |v| RefCell::new(T::build(v)); |s| s.borrow().view() }
	[T: Subject] Mutex<T> { T::ty(); |v| Mutex::new(T::build(v)); |s| s.lock().unwrap().view() }
	[T: Subject] RwLock<T> { T::ty(); |v| RwLock::new(T::build(v)); |s| s.read().unwrap().view() }
	[T: Subject] LazyCell<T> { T::ty(); |v| { LAZY.with(|l| l.borrow_mut().push(v.clone())); LazyCell::new(lazy_init::<T>) }; |s| (**s).view() }
	[T: Subject] LazyLock<T> { T::ty(); |v| { LAZY.with(|l| l.borrow_mut().push(v.clone())); LazyLock::new(lazy_init::<T>) }; |s| (**s).view() }
	[] Ipv4Addr { Ty::Ip4; |v| Ipv4Addr::from_bits(v.int() as u32); |s| Val::Int(s.to_bits() as u128) }
	[] Ipv6Addr { Ty::Ip6; |v| Ipv6Addr::from_bits(v.int()); |s| Val::Int(s.to_bits()) }
	[] IpAddr { Ty::Ip;
		|v| match v { Val::Ver(4, x) => IpAddr::V4(Ipv4Addr::build(x)), Val::Ver(_, x) => IpAddr::V6(Ipv6Addr::build(x)), v => wrong(v) };
		|s| match s { IpAddr::V4(x) => Val::Ver(4, rc(x)), IpAddr::V6(x) => Val::Ver(6, rc(x)) } }
	[] SocketAddrV4 { Ty::Sa4; |v| if let Val::Sa4(a, p) = v { SocketAddrV4::new(Ipv4Addr::from_bits(*a), *p) } else { wrong(v) }; |s| Val::Sa4(s.ip().to_bits(), s.port()) }
	[] SocketAddrV6 { Ty::Sa6; |v| if let Val::Sa6(a, p, f, c) = v { SocketAddrV6::new(Ipv6Addr::from_bits(*a), *p, *f, *c) } else { wrong(v) };
		|s| Val::Sa6(s.ip().to_bits(), s.port(), s.flowinfo(), s.scope_id()) }
	[] SocketAddr { Ty::Sa;
		|v| match v { Val::Ver(4, x) => SocketAddr::V4(SocketAddrV4::build(x)), Val::Ver(_, x) => SocketAddr::V6(SocketAddrV6::build(x)), v => wrong(v) };
		|s| match s { SocketAddr::V4(x) => Val::Ver(4, rc(x)), SocketAddr::V6(x) => Val::Ver(6, rc(x)) } }
	[] Duration { Ty::Duration; |v| if let Val::Dur(s, n) = v { Duration::new(*s, *n) } else { wrong(v) }; |s| Val::Dur(s.as_secs(), s.subsec_nanos()) }
	[] SystemTime { Ty::Time; |v| if let Val::Time(s, n) = v { time_of(*s, *n) } else { wrong(v) }; |s| { let (a, b) = view_time(*s); Val::Time(a, b) } }
	[K: Subject + Eq + Hash, V: Subject, S: BuildHasher + Default] HashMap<K, V, S> { Ty::Map(bx::<K>(), bx::<V>());
		|v| if let Val::Pairs(x) = v { x.iter().map(|(a, b)| (K::build(a), V::build(b))).collect() } else { wrong(v) };
		|s| Val::Pairs(Rc::new(s.iter().map(|(a, b)| (a.view(), b.view())).collect())) }
	[K: Subject + Eq + Hash, S: BuildHasher + Default] HashSet<K, S> { Ty::Set(bx::<K>());
		|v| if let Val::Keys(x) = v { x.iter().map(K::build).collect() } else { wrong(v) };
		|s| Val::Keys(Rc::new(s.iter().map(K::view).collect())) }
}

macro_rules! atomics { ($($a:ident $t:ty),*) => { $(
	impl Subject for $a {
		fn ty() -> Ty { <$t>::ty() }
		fn build(v: &Val) -> Self { $a::new(<$t>::build(v)) }
		fn view(&self) -> Val { self.load(Ordering::SeqCst).view() }
	}
)* } }
atomics!(AtomicBool bool, AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
	AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);

macro_rules! tuples { ($(($($p:ident $n:tt),*))*) => { $(
	impl<$($p: Subject),*> Subject for ($($p,)*) {
		fn ty() -> Ty { Ty::Tuple(vec![$($p::ty()),*]) }
		fn build(v: &Val) -> Self { let v = v.items(); ($($p::build(&v[$n]),)*) }
		fn view(&self) -> Val { list(vec![$(self.$n.view()),*]) }
	}
)* } }
tuples! {
	(A 0) (A 0, B 1) (A 0, B 1, C 2) (A 0, B 1, C 2, D 3) (A 0, B 1, C 2, D 3, E 4) (A 0, B 1, C 2, D 3, E 4, F 5)
	(A 0, B 1, C 2, D 3, E 4, F 5, G 6) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8)
	(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10)
	(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11)
}
