//! C13: `SizedSlice` against a bounded vector; C15: `SizedIter` against a
//! double-ended queue.

use crate::engine::{catch, unit, exhaustive, Gen, Known, Obs, Unit};
use crate::ensure;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use oct::{SizedIter, SizedSlice};
use std::borrow::{Borrow, BorrowMut};
use std::collections::VecDeque;
use std::fmt::Debug;

type R = Result<(), String>;

pub trait El: Clone + PartialEq + Debug + 'static { fn make(x: u64) -> Self; }
impl El for u8 { fn make(x: u64) -> Self { x as u8 } }
impl El for u64 { fn make(x: u64) -> Self { x.wrapping_mul(0x9E37_79B9_7F4A_7C15) } }
impl El for () { fn make(_: u64) -> Self {} }
impl El for String { fn make(x: u64) -> Self { "x".repeat((x % 4) as usize) + &x.to_string() } }
impl El for Box<u32> { fn make(x: u64) -> Self { Box::new(x as u32) } }
impl El for [u8; 3] { fn make(x: u64) -> Self { [x as u8, (x >> 3) as u8, !x as u8] } }
impl El for Option<char> { fn make(x: u64) -> Self { char::from_u32(x as u32 & 0xFFFF) } }
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(align(32))]
pub struct Wide(u16);
impl El for Wide { fn make(x: u64) -> Self { Wide(x as u16) } }
/// Zero-sized but not trivially cloneable.
#[derive(PartialEq, Debug)]
pub struct Nil;
impl Clone for Nil { fn clone(&self) -> Self { Nil } }
impl El for Nil { fn make(_: u64) -> Self { Nil } }

fn fresh<T: El>(g: &mut Gen) -> T { T::make(match g.fancy() { Some(x) => x as u64, None => g.draw(0xFFFF) }) }
fn many<T: El>(g: &mut Gen, n: usize) -> Vec<T> { (0..n).map(|_| fresh(g)).collect() }

/// A length around the capacity.
fn len_for(g: &mut Gen, n: usize) -> usize {
	if let Some(n) = g.fancy_in(0, 2 * n + 9) { return n }
	match g.draw(6) { 0 => g.range(0, n), 1 => n, 2 => n + 1, 3 => n.saturating_sub(1), 4 => n + g.range(1, 9), 5 => 0, _ => g.range(0, n) }
}

#[repr(C)]
struct Guarded<S> { pre: [u64; 8], s: S, post: [u64; 8] }
impl<S> Guarded<S> {
	fn new(s: S) -> Box<Self> { Box::new(Guarded { pre: [0x5AFE_5AFE; 8], s, post: [0x5AFE_5AFE; 8] }) }
	fn intact(&self) -> bool { self.pre == [0x5AFE_5AFE; 8] && self.post == [0x5AFE_5AFE; 8] }
}

pub(crate) fn watch<T: El, const N: usize>(s: &mut SizedSlice<T, N>, m: &[T], how: usize) -> R {
	let n = m.len();
	ensure!(s.len() == n, "len() is {} instead of {n}", s.len());
	ensure!(s.capacity() == N, "capacity() is {} instead of {N}", s.capacity());
	ensure!(s.is_empty() == (n == 0), "is_empty() is {} for {n} elements", s.is_empty());
	ensure!(s.is_full() == (n == N), "is_full() is {} for {n} of {N} elements", s.is_full());
	ensure!(s.as_slice() == m, "the elements are {:?} instead of {m:?}", s.as_slice());
	let at = s.as_ptr();
	ensure!(at == s.as_slice().as_ptr(), "as_ptr() is not where the elements are");
	match how {
		0 => { let r: &[T] = s.as_ref(); ensure!(r == m, "as_ref() is {r:?} instead of {m:?}") },
		1 => { let r: &[T] = (*s).borrow(); ensure!(r == m, "borrow() is {r:?} instead of {m:?}") },
		2 => ensure!(**s == *m, "deref() is {:?} instead of {m:?}", &**s),
		3 => ensure!(s.iter().eq(m.iter()), "iter() gives {:?} instead of {m:?}", s.iter().collect::<Vec<_>>()),
		4 => { let v: Vec<&T> = (&*s).into_iter().collect(); ensure!(v == m.iter().collect::<Vec<_>>(), "a borrowed iterator gives {v:?} instead of {m:?}") },
		5 => {
			let e = s.each_ref();
			ensure!(e.len() == n && e.capacity() == N, "each_ref() has {} of {} elements", e.len(), e.capacity());
			for (i, r) in e.iter().enumerate() {
				ensure!(std::ptr::eq(*r, &s[i]), "each_ref()[{i}] is not element {i}");
				ensure!(**r == m[i], "each_ref()[{i}] is {r:?} instead of {:?}", m[i]);
			}
		},
		6 => {
			let a: Vec<*const T> = s.iter().map(|x| x as *const T).collect();
			let mut e = s.each_mut();
			ensure!(e.len() == n && e.capacity() == N, "each_mut() has {} of {} elements", e.len(), e.capacity());
			for i in 0..n {
				ensure!(std::ptr::eq(&*e[i], a[i]), "each_mut()[{i}] is not element {i}");
				ensure!(*e[i] == m[i], "each_mut()[{i}] is {:?} instead of {:?}", e[i], m[i]);
			}
			let _ = e.as_mut_slice();
		},
		7 => ensure!(format!("{s:?}|{s:#?}") == format!("{m:?}|{m:#?}"), "{s:?} is displayed for {m:?}"),
		8 => {
			ensure!(s[..] == *m, "[..] is {:?} instead of {m:?}", &s[..]);
			for i in 0..n { ensure!(s[i] == m[i], "[{i}] is {:?} instead of {:?}", s[i], m[i]) }
			// (Read, if it is allowed, for the tools of C17 to see.)
			let touch = |x: &T| if size_of::<T>() > 0 { unsafe { std::hint::black_box((x as *const T).cast::<u8>().read_volatile()); } };
			ensure!(catch(|| touch(&s[n])).is_err(), "[{n}] of {n} elements is allowed");
			ensure!(catch(|| s[n..].len()) == Ok(0), "[{n}..] of {n} elements is not empty");
			ensure!(catch(|| s[..n + 1].len()).is_err(), "[..{}] of {n} elements is allowed", n + 1);
			ensure!(catch(|| touch(&mut s[n])).is_err(), "[{n}] of {n} elements is allowed");
		},
		9 => {
			let mut c = s.clone();
			ensure!(c.as_slice() == m && c.len() == n, "a clone has {:?} instead of {m:?}", c.as_slice());
			// Into what is shorter or longer.
			for k in [0, n / 2, n, (n + 1).min(N), N] {
				let mut d: SizedSlice<T, N> = (0..k as u64).map(|i| T::make(i + 7)).collect();
				d.clone_from(s);
				ensure!(d.as_slice() == m && d.len() == n, "clone_from() over {k} elements gives {:?} instead of {m:?}", d.as_slice());
				c.clone_from(&d);
				ensure!(c.as_slice() == m && d.as_slice() == m, "clone_from() gives {:?} instead of {m:?}", c.as_slice());
			}
			let b = c.into_boxed_slice();
			ensure!(*b == *m, "into_boxed_slice() gives {b:?} instead of {m:?}");
		},
		10 => { let v = s.clone().into_vec(); ensure!(v == m, "into_vec() gives {v:?} instead of {m:?}") },
		11 => { let v: Vec<T> = s.clone().into(); ensure!(v == m, "conversion to Vec gives {v:?} instead of {m:?}") },
		12 => { let v: Box<[T]> = s.clone().into(); ensure!(*v == *m, "conversion to Box gives {v:?} instead of {m:?}") },
		13 => { let v: Vec<T> = s.clone().into_iter().collect(); ensure!(v == m, "into_iter() gives {v:?} instead of {m:?}") },
		14 => {
			let (buf, len) = s.clone().into_raw_parts();
			ensure!(len == n && buf.len() == N, "raw parts of {} and {len} for {n} elements", buf.len());
			// SAFETY: parts of a slice.
			let t = unsafe { SizedSlice::<T, N>::from_raw_parts(buf, len) };
			ensure!(t.as_slice() == m, "raw parts hold {:?} instead of {m:?}", t.as_slice());
		},
		15 => { let r: &mut [T] = s.as_mut(); ensure!(r == m, "as_mut() is {r:?} instead of {m:?}") },
		16 => { let r: &mut [T] = s.borrow_mut(); ensure!(r == m, "borrow_mut() is {r:?} instead of {m:?}") },
		17 => { let v: Vec<&mut T> = (&mut *s).into_iter().collect(); ensure!(v.len() == n && v.iter().zip(m).all(|(a, b)| **a == *b), "a mutable iterator gives {v:?} instead of {m:?}") },
		18 => {
			ensure!(*s == *s && s.as_slice() == m && *s == m && *s == m.to_vec(), "the slice does not equal its elements {m:?}");
		},
		_ => { let r = s.as_mut_slice(); ensure!(r == m, "as_mut_slice() is {r:?} instead of {m:?}") },
	}
	Ok(())
}

/// An iterator with a chosen size hint that does not stay exhausted.
struct Rude<I> { it: I, hint: (usize, Option<usize>), ended: bool }
impl<T: El, I: Iterator<Item = T>> Iterator for Rude<I> {
	type Item = T;
	fn next(&mut self) -> Option<T> {
		if self.ended { return Some(T::make(0xDEAD)) }
		let x = self.it.next();
		self.ended = x.is_none();
		x
	}
	fn size_hint(&self) -> (usize, Option<usize>) { self.hint }
}

trait Copies<T, const N: usize> { fn copy_in(s: &mut SizedSlice<T, N>, d: &[T]) -> Option<Result<(), String>>; }
struct Yes;
struct No;
impl<T: Copy, const N: usize> Copies<T, N> for Yes {
	fn copy_in(s: &mut SizedSlice<T, N>, d: &[T]) -> Option<Result<(), String>> { Some(catch(|| s.copy_from_slice(d))) }
}
impl<T, const N: usize> Copies<T, N> for No {
	fn copy_in(_: &mut SizedSlice<T, N>, _: &[T]) -> Option<Result<(), String>> { None }
}

fn history<T: El, const N: usize, C: Copies<T, N>>(g: &mut Gen, o: &mut Obs) -> R {
	let mut log: Vec<String> = Vec::new();
	let (mut refused, mut edits, mut key) = (0u8, 0u8, Vec::new());
	let mut full = false;
	let r = (|| -> R {
		let mut m: Vec<T> = Vec::new();
		let mut s = Guarded::new(SizedSlice::<T, N>::default());
		ensure!(s.s.is_empty(), "a default slice has {} elements", s.s.len());
		for _ in 0..g.range(1, 9) {
			match g.draw(15) {
				0 | 1 => {
					let d: Vec<T> = { let n = len_for(g, N); many(g, n) };
					let via = g.boolean();
					log.push(format!("{} {d:?}", if via { "try_from" } else { "new" }));
					match if via { SizedSlice::<T, N>::try_from(&d[..]) } else { SizedSlice::<T, N>::new(&d) } {
						Ok(t) => {
							ensure!(d.len() <= N, "{} elements were accepted with a capacity of {N}", d.len());
							s = Guarded::new(t);
							m = d;
						},
						Err(e) => {
							ensure!(d.len() > N, "{} elements were refused with a capacity of {N}: {e:?}", d.len());
							ensure!(e.capacity == N && e.len == d.len(), "{} elements for {N} are refused with {e:?}", d.len());
							refused += 1;
						},
					}
				},
				2 => {
					let d: Vec<T> = many(g, N);
					let a: [T; N] = d.clone().try_into().unwrap();
					log.push(format!("from {a:?}"));
					s = Guarded::new(SizedSlice::from(a));
					m = d;
				},
				3 | 4 => {
					let d: Vec<T> = { let n = len_for(g, N); many(g, n) };
					log.push(format!("collect {d:?}"));
					let l = d.len();
					let hint = match g.draw(3) { 0 => (0, None), 1 => (l, Some(l)), 2 => (0, Some(l)), _ => (l / 2, None) };
					let t: SizedSlice<T, N> = Rude { it: d.clone().into_iter(), hint, ended: false }.collect();
					s = Guarded::new(t);
					m = d;
					m.truncate(N);
				},
				5 | 6 => {
					let d: Vec<T> = { let n = len_for(g, N); many(g, n) };
					if let Some(r) = C::copy_in(&mut s.s, &d) {
						log.push(format!("copy_from_slice {d:?}"));
						ensure!(s.intact(), "copying {} elements with a capacity of {N} wrote out of bounds", d.len());
						match r {
							Ok(()) => {
								ensure!(d.len() <= N, "{} elements were copied with a capacity of {N}", d.len());
								m = d;
							},
							Err(p) => {
								ensure!(d.len() > N, "copying {} elements with a capacity of {N} panicked: {p}", d.len());
								refused += 1;
							},
						}
					}
				},
				7 => {
					// SAFETY: only shortens.
					let n = g.range(0, m.len());
					log.push(format!("set_len {n}"));
					unsafe { s.s.set_len(n) };
					m.truncate(n);
				},
				8 | 9 if !m.is_empty() => {
					let i = g.below(m.len());
					let x: T = fresh(g);
					let how = g.draw(8);
					log.push(format!("[{i}] = {x:?} ({how})"));
					m[i] = x.clone();
					match how {
						0 => s.s[i] = x,
						1 => s.s.as_mut_slice()[i] = x,
						2 => { let r: &mut [T] = s.s.as_mut(); r[i] = x },
						3 => { let r: &mut [T] = s.s.borrow_mut(); r[i] = x },
						4 => *s.s.iter_mut().nth(i).unwrap() = x,
						5 => *(&mut s.s).into_iter().nth(i).unwrap() = x,
						6 => *s.s.each_mut()[i] = x,
						// SAFETY: within the length.
						7 => unsafe { *s.s.as_mut_ptr().add(i) = x },
						_ => s.s[i..][0] = x,
					}
					edits += 1;
				},
				10 if m.len() > 1 => {
					let (a, b) = (g.below(m.len()), g.below(m.len()));
					log.push(format!("swap {a} {b}"));
					m.swap(a, b);
					s.s.swap(a, b);
					edits += 1;
				},
				11 => {
					log.push("reverse".into());
					m.reverse();
					s.s.reverse();
					edits += 1;
				},
				12 => {
					log.push("clone".into());
					let t = s.s.clone();
					s = Guarded::new(t);
				},
				13 => {
					log.push("into_iter, collect".into());
					let k = g.range(0, m.len());
					let t = std::mem::take(&mut s.s);
					ensure!(s.s.is_empty(), "a default slice has {} elements", s.s.len());
					let mut it = t.into_iter();
					for _ in 0..k { it.next(); }
					m.drain(..k);
					s = Guarded::new(it.collect());
				},
				14 => {
					log.push("move".into());
					let t = std::mem::take(&mut s.s);
					s = Guarded::new(t);
				},
				_ => {
					log.push("each_mut, replace all".into());
					let d: Vec<T> = many(g, m.len());
					for (r, x) in s.s.each_mut().into_iter().zip(d.iter()) { *r = x.clone() }
					m = d;
				},
			}
			ensure!(m.len() <= N, "harness: model of {} for {N}", m.len());
			full |= m.len() == N;
			watch(&mut s.s, &m, g.draw(19) as usize)?;
			ensure!(s.intact(), "memory next to the slice changed");
			key.extend_from_slice(format!("{m:?}").as_bytes());
		}
		for how in 0..20 { watch(&mut s.s, &m, how)? }
		ensure!(s.intact(), "memory next to the slice changed");
		Ok(())
	})();
	o.nontrivial(log.len() > 1);
	if refused > 0 { o.class("with a refused operation") }
	if edits > 0 { o.class("with edits") }
	if full { o.class("full") }
	if N == 0 { o.class("capacity zero") }
	if std::mem::size_of::<T>() == 0 { o.class("zero-sized elements") }
	o.key(&key);
	o.describe(|| format!("SizedSlice<{}, {N}>: {}", std::any::type_name::<T>(), log.join("; ")));
	r.map_err(|x| format!("SizedSlice<{}, {N}>: {x} (after {})", std::any::type_name::<T>(), log.join("; ")))
}

/// Elements survive an encoding through another capacity.
fn recode<const N: usize, const M: usize>(g: &mut Gen, o: &mut Obs) -> R {
	let n = g.range(0, N);
	let d: Vec<u16> = many_u16(g, n);
	let s = SizedSlice::<u16, N>::new(&d).map_err(|e| format!("{e:?}"))?;
	let mut buf = vec![0; 2 + 2 * N + 8];
	let mut out = Output::new(&mut buf);
	s.encode(&mut out).map_err(|e| format!("{e:?}"))?;
	let len = out.position();
	o.key(&buf[..len]);
	o.nontrivial(n > 0);
	o.describe(|| format!("{d:?} from {N} to {M}"));
	let mut i = Input::new(&buf[..len]);
	match SizedSlice::<u16, M>::decode(&mut i) {
		Ok(t) => {
			ensure!(n <= M, "{n} elements were decoded with a capacity of {M}");
			ensure!(t.as_slice() == d && i.position() == len, "{:?} was decoded instead of {d:?}", t.as_slice());
		},
		Err(oct::error::CollectionDecodeError::BadLength(e)) => {
			ensure!(n > M && e.capacity == M && e.len == n, "decoding {n} elements with a capacity of {M} gives {e:?}");
		},
		Err(e) => return Err(format!("decoding {n} elements with a capacity of {M} gives {e:?}")),
	}
	Ok(())
}
fn many_u16(g: &mut Gen, n: usize) -> Vec<u16> { (0..n).map(|_| g.draw(0xFFFF) as u16).collect() }

// ----------------------------------------------------------------------- C15

pub(crate) struct It<T, const N: usize> { pub(crate) it: SizedIter<T, N>, pub(crate) m: VecDeque<T> }

pub(crate) fn watch_it<T: El, const N: usize>(x: &mut It<T, N>) -> R {
	let n = x.m.len();
	ensure!(x.it.len() == n, "len() is {} with {n} elements left", x.it.len());
	ensure!(x.it.size_hint() == (n, Some(n)), "size_hint() is {:?} with {n} elements left", x.it.size_hint());
	ensure!(x.m.iter().eq(x.it.as_slice()), "as_slice() is {:?} with {:?} left", x.it.as_slice(), x.m);
	let r: &[T] = x.it.as_ref();
	ensure!(x.m.iter().eq(r), "as_ref() is {r:?} with {:?} left", x.m);
	let r: &mut [T] = x.it.as_mut_slice();
	ensure!(x.m.iter().eq(r.iter()), "as_mut_slice() is {r:?} with {:?} left", x.m);
	let r: &mut [T] = x.it.as_mut();
	ensure!(x.m.iter().eq(r.iter()), "as_mut() is {r:?} with {:?} left", x.m);
	Ok(())
}

/// Consumes what is left.
fn consume<T: El, const N: usize>(g: &mut Gen, mut x: It<T, N>, log: &mut Vec<String>) -> R {
	let m: Vec<T> = x.m.into_iter().collect();
	let n = m.len();
	let how = g.draw(27);
	log.push(format!("consume {how}"));
	macro_rules! same { ($a:expr, $b:expr, $what:literal) => {{ let (a, b) = ($a, $b); ensure!(a == b, concat!($what, " gives {:?} instead of {:?}"), a, b) }} }
	let rev = || m.iter().rev().cloned().collect::<Vec<T>>();
	match how {
		0 => same!(x.it.collect::<Vec<_>>(), m, "collecting"),
		1 => same!(x.it.rev().collect::<Vec<_>>(), rev(), "reversed collecting"),
		2 => same!(x.it.count(), n, "count()"),
		3 => same!(x.it.last(), m.last().cloned(), "last()"),
		4 => same!(x.it.fold(Vec::new(), |mut v, e| { v.push(e); v }), m, "fold()"),
		5 => same!(x.it.rfold(Vec::new(), |mut v, e| { v.push(e); v }), rev(), "rfold()"),
		6 => {
			let k = g.range(0, n + 2);
			same!(x.it.by_ref().take(k).collect::<Vec<_>>(), m[..k.min(n)].to_vec(), "taking");
			same!(x.it.collect::<Vec<_>>(), m[k.min(n)..].to_vec(), "collecting after taking");
		},
		7 => {
			let k = g.range(0, n + 2);
			same!(x.it.by_ref().rev().take(k).collect::<Vec<_>>(), m[n - k.min(n)..].iter().rev().cloned().collect::<Vec<T>>(), "taking from the back");
			same!(x.it.collect::<Vec<_>>(), m[..n - k.min(n)].to_vec(), "collecting after taking from the back");
		},
		8 => {
			let mut v = Vec::new();
			while let Some(e) = x.it.next() { v.push(e) }
			same!(v, m, "stepping");
			for _ in 0..3 {
				ensure!(x.it.next().is_none() && x.it.next_back().is_none(), "an exhausted iterator goes on");
				ensure!(x.it.len() == 0 && x.it.as_slice().is_empty(), "an exhausted iterator has {} elements", x.it.len());
			}
		},
		9 => {
			let mut v = Vec::new();
			while let Some(e) = x.it.next_back() { v.push(e) }
			same!(v, rev(), "stepping back");
			for _ in 0..3 {
				ensure!(x.it.next_back().is_none() && x.it.next().is_none(), "an exhausted iterator goes on");
			}
		},
		10 => {
			let k = g.range(0, n + 1);
			let (want, left) = if k < n { (Some(m[n - 1 - k].clone()), m[..n - 1 - k].to_vec()) } else { (None, Vec::new()) };
			same!(x.it.nth_back(k), want, "nth_back()");
			same!(x.it.collect::<Vec<_>>(), left, "collecting after nth_back()");
		},
		11 => {
			let k = g.range(0, n + 1);
			same!(x.it.rev().skip(k).collect::<Vec<_>>(), m[..n - k.min(n)].iter().rev().cloned().collect::<Vec<T>>(), "skipping from the back");
		},
		12 => {
			let mut v = Vec::new();
			for e in &mut x.it { v.push(e) }
			same!(v, m, "a loop");
			ensure!(x.it.next().is_none(), "a loop leaves elements");
		},
		13 => {
			let k = g.range(0, n);
			let mut i = 0;
			let found = x.it.find(|_| { i += 1; i > k });
			same!(found, m.get(k).cloned(), "find()");
			same!(x.it.collect::<Vec<_>>(), m[(k + 1).min(n)..].to_vec(), "collecting after find()");
		},
		14 => {
			let k = g.range(0, n);
			let mut i = 0;
			let found = x.it.rposition(|_| { i += 1; i > k });
			same!(found, if k < n { Some(n - 1 - k) } else { None }, "rposition()");
		},
		15 => {
			let a = x.it.clone();
			same!(x.it.zip(a).collect::<Vec<_>>(), m.iter().cloned().zip(m.iter().cloned()).collect::<Vec<_>>(), "zip()");
		},
		16 => {
			let a = x.it.clone();
			same!(a.chain(x.it).collect::<Vec<_>>(), m.iter().chain(m.iter()).cloned().collect::<Vec<T>>(), "chain()");
		},
		17 => {
			let s: SizedSlice<T, N> = x.it.collect();
			same!(s.as_slice().to_vec(), m, "collecting into a slice");
		},
		18 => {
			let mut p = x.it.peekable();
			let first = p.peek().cloned();
			same!(first, m.first().cloned(), "peek()");
			same!(p.len(), n, "peekable length");
			same!(p.collect::<Vec<_>>(), m, "collecting after peek()");
		},
		19 => {
			let mut v = Vec::new();
			x.it.for_each(|e| v.push(e));
			same!(v, m, "for_each()");
		},
		20 => {
			let k = g.range(0, n + 1);
			let mut v = Vec::new();
			let r = x.it.try_fold(0, |i, e| { v.push(e); if i == k { Err(i) } else { Ok(i + 1) } });
			same!(r, if k < n { Err(k) } else { Ok(n) }, "try_fold()");
			same!(v, m[..(k + 1).min(n)].to_vec(), "try_fold()");
			same!(x.it.len(), n.saturating_sub(k + 1), "len() after try_fold()");
			same!(x.it.collect::<Vec<_>>(), m[(k + 1).min(n)..].to_vec(), "collecting after try_fold()");
		},
		21 => {
			let k = g.range(0, n + 1);
			let mut v = Vec::new();
			let r = x.it.try_rfold(0, |i, e| { v.push(e); if i == k { Err(i) } else { Ok(i + 1) } });
			same!(r, if k < n { Err(k) } else { Ok(n) }, "try_rfold()");
			same!(v, rev()[..(k + 1).min(n)].to_vec(), "try_rfold()");
			same!(x.it.collect::<Vec<_>>(), m[..n.saturating_sub(k + 1)].to_vec(), "collecting after try_rfold()");
		},
		22 => {
			let k = g.range(0, n);
			let mut i = 0;
			let found = x.it.rfind(|_| { i += 1; i > k });
			same!(found, if k < n { Some(m[n - 1 - k].clone()) } else { None }, "rfind()");
			same!(x.it.collect::<Vec<_>>(), m[..n.saturating_sub(k + 1)].to_vec(), "collecting after rfind()");
		},
		23 => {
			let k = g.range(0, n);
			let mut i = 0;
			same!(x.it.position(|_| { i += 1; i > k }), if k < n { Some(k) } else { None }, "position()");
			same!(x.it.collect::<Vec<_>>(), m[(k + 1).min(n)..].to_vec(), "collecting after position()");
		},
		24 => {
			let mut i = 0;
			let (a, b): (Vec<T>, Vec<T>) = x.it.partition(|_| { i += 1; i % 2 == 1 });
			same!(a, m.iter().step_by(2).cloned().collect::<Vec<T>>(), "partition()");
			same!(b, m.iter().skip(1).step_by(2).cloned().collect::<Vec<T>>(), "partition()");
		},
		25 => {
			let mut i = 0;
			same!(x.it.reduce(|a, b| { i += 1; if i % 2 == 1 { a } else { b } }),
				{ let mut i = 0; m.iter().cloned().reduce(|a, b| { i += 1; if i % 2 == 1 { a } else { b } }) }, "reduce()");
		},
		26 => {
			let k = g.range(0, n);
			let mut i = 0;
			ensure!(x.it.any(|_| { i += 1; i > k }) == (k < n), "any() is wrong at {k} of {n}");
			let left = m[(k + 1).min(n)..].to_vec();
			let mut i = 0;
			ensure!(x.it.all(|_| { i += 1; i <= 2 }) == (left.len() <= 2), "all() is wrong for {left:?}");
			same!(x.it.collect::<Vec<_>>(), left[3.min(left.len())..].to_vec(), "collecting after all()");
		},
		_ => {
			let mut e = x.it.enumerate();
			let back = e.next_back();
			same!(back, m.last().map(|x| (n - 1, x.clone())), "enumerate().next_back()");
			same!(e.collect::<Vec<_>>(), m[..n.saturating_sub(1)].iter().cloned().enumerate().collect::<Vec<_>>(), "enumerate()");
		},
	}
	Ok(())
}

fn iterate<T: El, const N: usize>(g: &mut Gen, o: &mut Obs) -> R {
	let mut log: Vec<String> = Vec::new();
	let (mut fwd, mut back, mut clones) = (0u32, 0u32, 0u32);
	let d: Vec<T> = { let n = match g.draw(2) { 0 => N, _ => g.range(0, N) }; many(g, n) };
	let r = (|| -> R {
		let s: SizedSlice<T, N> = d.iter().cloned().collect();
		let mut pool: Vec<It<T, N>> = vec![It { it: s.into_iter(), m: d.iter().cloned().collect() }];
		watch_it(&mut pool[0])?;
		for _ in 0..g.range(0, (3 * N + 4).min(150)) {
			let k = g.below(pool.len());
			let room = pool.len() < 4;
			let x = &mut pool[k];
			match g.draw(8) {
				0..=2 => {
					log.push(format!("{k}.next"));
					let (a, b) = (x.it.next(), x.m.pop_front());
					ensure!(a == b, "next() gives {a:?} instead of {b:?}");
					fwd += 1;
				},
				3..=5 => {
					log.push(format!("{k}.next_back"));
					let (a, b) = (x.it.next_back(), x.m.pop_back());
					ensure!(a == b, "next_back() gives {a:?} instead of {b:?}");
					back += 1;
				},
				6 if room => {
					log.push(format!("{k}.clone"));
					let y = It { it: x.it.clone(), m: x.m.clone() };
					pool.push(y);
					if g.chance(1, 3) {
						let j = g.below(pool.len());
						if j != k {
							log.push(format!("{j}.clone_from({k})"));
							let (a, b) = if j < k { let (a, b) = pool.split_at_mut(k); (&mut a[j], &b[0]) } else { let (a, b) = pool.split_at_mut(j); (&mut b[0], &a[k]) };
							a.it.clone_from(&b.it);
							a.m.clone_from(&b.m);
						}
					}
					clones += 1;
				},
				7 if !x.m.is_empty() => {
					let i = g.below(x.m.len());
					let v: T = fresh(g);
					log.push(format!("{k}[{i}] = {v:?}"));
					x.m[i] = v.clone();
					if g.boolean() { x.it.as_mut_slice()[i] = v } else { x.it.as_mut()[i] = v }
				},
				_ => {
					log.push(format!("{k} moves"));
					let y = pool.remove(k);
					pool.insert(0, y);
				},
			}
			for x in &mut pool { watch_it(x)? }
		}
		while let Some(x) = pool.pop() {
			for x in &mut pool { watch_it(x)? }
			consume(g, x, &mut log)?;
		}
		Ok(())
	})();
	o.nontrivial(fwd > 0 && back > 0 && d.len() > 1);
	if clones > 0 { o.class("with clones") }
	if d.len() == N { o.class("full") }
	o.key(format!("{d:?}{log:?}").as_bytes());
	o.describe(|| format!("SizedSlice<{}, {N}> of {d:?}: {}", std::any::type_name::<T>(), log.join("; ")));
	r.map_err(|x| format!("SizedIter<{}, {N}> over {d:?}: {x} (after {})", std::any::type_name::<T>(), log.join("; ")))
}

/// Every interleaving of the two ends over a full and a partial container.
fn interleavings(g: &mut Gen, o: &mut Obs) -> R {
	let k = g.draw(8 * 512 - 1);
	let (len, mask) = ((k / 512) as usize, k % 512);
	let d: Vec<String> = (0..len).map(|i| i.to_string()).collect();
	let s: SizedSlice<String, 7> = d.iter().cloned().collect();
	let mut x = It { it: s.into_iter(), m: d.into() };
	o.nontrivial(len > 1);
	o.key(&k.to_le_bytes());
	o.describe(|| format!("{len} elements, ends {mask:09b}"));
	for i in 0..9 {
		let (a, b) = if mask >> i & 1 == 0 { (x.it.next(), x.m.pop_front()) } else { (x.it.next_back(), x.m.pop_back()) };
		ensure!(a == b, "step {i} of {mask:09b} over {len} elements gives {a:?} instead of {b:?}");
		watch_it(&mut x)?;
	}
	Ok(())
}

// ------------------------------------------------------------- known finding

/// `nth` and its users, on elements without destructors and only where the
/// implementation that is known to be wrong has defined behaviour.
///
/// Returns the known departures seen.
pub fn nth_battery() -> Result<Option<String>, String> {
	const N: usize = 9;
	let mut known: Option<String> = None;
	for len in 1..=N {
		for front in 0..3.min(len) {
			for back in 0..2.min(len - front) {
				let left = len - front - back;
				for n in 1..=N + 2 {
					// The known implementation reads slot `n` of the buffer.
					if n == left || (n < left && n >= N) { continue }
					let d: Vec<u32> = (0..len as u32).map(|i| 100 + i).collect();
					let s: SizedSlice<u32, N> = d.iter().copied().collect();
					let mut it = s.into_iter();
					for _ in 0..front { it.next(); }
					for _ in 0..back { it.next_back(); }
					let rest = &d[front..len - back];
					let got = it.nth(n);
					let after = it.as_slice().to_vec();
					let l = it.len();
					if l != after.len() { return Err(format!("nth({n}) with {left} left: len() is {l} for {after:?}")) }
					let ok = (rest.get(n).copied(), rest.get(n + 1..).unwrap_or(&[]).to_vec());
					if (got, after.clone()) == ok { continue }
					let old = if n > left { (None, rest.to_vec()) } else { (Some(d[n]), rest[n..].to_vec()) };
					if (got, after.clone()) != old {
						return Err(format!("SizedIter::nth({n}) with {rest:?} left gives {got:?} and leaves {after:?}; \
							the contract gives {:?} and leaves {:?}", ok.0, ok.1));
					}
					known.get_or_insert_with(|| format!("SizedIter::nth does not honour its contract: nth({n}) with {rest:?} left \
						gives {got:?} and leaves {after:?} instead of {:?} and {:?}", ok.0, ok.1));
				}
			}
		}
	}
	Ok(known)
}

pub fn known_c15() -> Result<Vec<Known>, String> {
	Ok(nth_battery()?.map(|what| Known { prop: "C15", sig: "sized-iter-nth", what }).into_iter().collect())
}

pub fn units() -> Vec<Unit> {
	let mut v = Vec::new();
	macro_rules! c13 { ($c:ident: $($t:ty, $($n:literal)*;)*) => { $($(
		v.push(unit("C13", concat!("SizedSlice<", stringify!($t), ", ", $n, ">"), 4_500, history::<$t, $n, $c>));
	)*)* } }
	c13!(Yes: u8, 0 1 2 5 17; u64, 1 3 8; (), 0 1 4; [u8; 3], 2 5; Option<char>, 3; Wide, 0 3;);
	c13!(No: String, 0 1 2 4 7; Box<u32>, 1 3; Nil, 0 3;);
	// Large ones, around the bounds of small integers.
	macro_rules! c13l { ($c:ident: $($t:ty, $($n:literal)*;)*) => { $($(
		v.push(unit("C13", concat!("SizedSlice<", stringify!($t), ", ", $n, ">"), 150, history::<$t, $n, $c>));
	)*)* } }
	if !cfg!(miri) {
		c13l!(Yes: u8, 31 32 33 63 64 65 100 127 128 129 255 256 257 1000; u64, 16 65 300; (), 64 256 1000; [u8; 3], 70 400; Option<char>, 130; Wide, 100;);
		c13l!(No: String, 33 70 300; Box<u32>, 66 257; Nil, 65 256;);
		v.push(unit("C13", "SizedSlice<u8, 5000>", 10, history::<u8, 5000, Yes>));
		v.push(unit("C13", "SizedSlice<(), 5000>", 10, history::<(), 5000, Yes>));
	}
	macro_rules! rc { ($($n:literal $m:literal),*) => { $(
		v.push(unit("C13", concat!("recode ", $n, " to ", $m), 4_000, recode::<$n, $m>));
	)* } }
	rc!(0 0, 0 3, 1 0, 3 1, 3 2, 3 3, 2 3, 8 7, 7 8, 40 39, 5 40, 300 255, 255 300);
	macro_rules! c15 { ($($t:ty, $($n:literal)*;)*) => { $($(
		v.push(unit("C15", concat!("SizedIter<", stringify!($t), ", ", $n, ">"), 9_000, iterate::<$t, $n>));
	)*)* } }
	c15!(u8, 0 1 2 5 12; u64, 3 7; String, 1 3 6; (), 0 4; Box<u32>, 4; Nil, 3; Wide, 3; Option<char>, 5;);
	macro_rules! c15l { ($($t:ty, $($n:literal)*;)*) => { $($(
		v.push(unit("C15", concat!("SizedIter<", stringify!($t), ", ", $n, ">"), 300, iterate::<$t, $n>));
	)*)* } }
	if !cfg!(miri) {
		c15l!(u8, 31 32 33 64 65 129 256 257; u64, 70; String, 65 130; (), 64 300; Box<u32>, 66; Nil, 256; Wide, 40; Option<char>, 33;);
	}
	v.push(exhaustive("C15", "all interleavings", 8 * 512, interleavings));
	v
}
