//! C16: every element is dropped exactly once.
//!
//! Elements are tokens that are accounted for in a thread-local ledger.
//! Faults (decode errors and panics, clone panics, iterator panics, short
//! input) are injected at chosen items.

use crate::engine::{catch, unit, Gen, Known, Obs, Unit};
use crate::ensure;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output, SizedEncode};
use oct::{SizedIter, SizedSlice, Slot};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeSet, HashMap, HashSet, LinkedList};
use std::hash::{Hash, Hasher};
use std::num::{Saturating, Wrapping};
use std::ops::*;
use std::rc::Rc;
use std::sync::{Arc, Mutex, RwLock};

type R = Result<(), String>;

#[derive(Default)]
struct Ledger {
	/// How often each token has been dropped.
	drops: Vec<u8>,
	faults: Vec<String>,
	/// Clone (or equality) panics when this reaches zero.
	fuse: Option<u32>,
	/// Tokens that are held by nobody but which known findings lose.
	lost: BTreeSet<usize>,
}

thread_local! { static L: RefCell<Ledger> = RefCell::new(Ledger::default()); }

fn with<X>(f: impl FnOnce(&mut Ledger) -> X) -> X { L.with(|l| f(&mut l.borrow_mut())) }

/// An accounted element.
#[derive(Debug)]
pub struct Tok { id: usize, tag: u8 }

/// An accounted element without size: only their number is known.
#[derive(Debug)]
pub struct Null;

thread_local! { static NULLS: Cell<(i64, i64)> = const { Cell::new((0, 0)) }; }

impl Tok {
	pub fn new(tag: u8) -> Self {
		let id = with(|l| { l.drops.push(0); l.drops.len() - 1 });
		Tok { id, tag }
	}
	fn look(&self) -> usize {
		with(|l| {
			match l.drops.get(self.id) {
				Some(0) => (),
				Some(_) => l.faults.push(format!("token {} is used after it was dropped", self.id)),
				None => l.faults.push(format!("a token that never was ({:#x}) is used", self.id)),
			}
		});
		self.id
	}
}

impl Drop for Tok {
	fn drop(&mut self) {
		let _ = L.try_with(|l| {
			let mut l = l.borrow_mut();
			match l.drops.get_mut(self.id) {
				Some(n) => {
					*n = n.saturating_add(1);
					if *n > 1 { l.faults.push(format!("token {} is dropped twice", self.id)) }
				},
				None => l.faults.push(format!("a token that never was ({:#x}) is dropped", self.id)),
			}
		});
	}
}

impl Clone for Tok {
	fn clone(&self) -> Self {
		self.look();
		burn();
		Tok::new(self.tag)
	}
}

fn burn() {
	let blow = with(|l| match &mut l.fuse {
		Some(0) => { l.fuse = None; true },
		Some(n) => { *n -= 1; false },
		None => false,
	});
	if blow { panic!("injected fault") }
}

impl PartialEq for Tok { fn eq(&self, o: &Self) -> bool { self.look(); o.look(); self.tag == o.tag } }
impl Eq for Tok {}
impl Hash for Tok { fn hash<H: Hasher>(&self, s: &mut H) { self.look(); s.write_u8(self.tag) } }

#[derive(Debug)]
pub struct Fault;

impl Decode for Tok {
	type Error = Fault;
	fn decode(input: &mut Input) -> Result<Self, Fault> {
		let tag = u8::decode(input).unwrap();
		match tag { 0xFE => Err(Fault), 0xFF => panic!("injected fault"), _ => Ok(Tok::new(tag)) }
	}
}

impl Encode for Tok {
	type Error = Fault;
	fn encode(&self, output: &mut Output) -> Result<(), Fault> {
		self.look();
		if self.tag == 0xFD { return Err(Fault) }
		if self.tag == 0xFC { panic!("injected fault") }
		self.tag.encode(output).unwrap();
		Ok(())
	}
}
impl SizedEncode for Tok { const MAX_ENCODED_SIZE: usize = 1; }

impl Null { fn new() -> Self { NULLS.with(|n| n.set((n.get().0 + 1, n.get().1))); Null } }
impl Drop for Null { fn drop(&mut self) { let _ = NULLS.try_with(|n| n.set((n.get().0, n.get().1 + 1))); } }
impl Clone for Null { fn clone(&self) -> Self { burn(); Null::new() } }
impl Decode for Null {
	type Error = Fault;
	fn decode(_: &mut Input) -> Result<Self, Fault> {
		let blow = with(|l| match &mut l.fuse { Some(0) => { l.fuse = None; true }, Some(n) => { *n -= 1; false }, None => false });
		if blow { Err(Fault) } else { Ok(Null::new()) }
	}
}

/// A history over fixed-capacity containers of zero-sized tokens: as many
/// are alive as are held, and the panics of clones and iterators lose no more
/// than known findings do.
fn null_history<const N: usize>(g: &mut Gen, o: &mut Obs) -> R {
	reset();
	let mut log: Vec<String> = Vec::new();
	enum Thing<const N: usize> { S(SizedSlice<Null, N>), I(SizedIter<Null, N>), V(Vec<Null>), B(Box<[Null]>) }
	use Thing::*;
	let held = |t: &Thing<N>| match t { S(s) => s.len(), I(i) => i.len(), V(v) => v.len(), B(b) => b.len() };
	let mut pool: Vec<(Thing<N>, usize)> = Vec::new();
	// Not dropped, by known findings.
	let (mut lost, mut perhaps) = (0i64, 0i64);
	for _ in 0..g.range(1, 12) {
		let k = if pool.is_empty() { 0 } else { g.below(pool.len()) };
		let n = g.range(0, N);
		match g.draw(14) {
			0 => { log.push(format!("collect {n}")); pool.push((S((0..n).map(|_| Null::new()).collect()), n)) },
			1 => { log.push("from an array".into()); pool.push((S(SizedSlice::from(std::array::from_fn::<Null, N, _>(|_| Null::new()))), N)) },
			2 => {
				log.push(format!("new of {n}"));
				let v: Vec<Null> = (0..n).map(|_| Null::new()).collect();
				let s = if g.boolean() { SizedSlice::<Null, N>::new(&v) } else { SizedSlice::try_from(&v[..]) };
				let Ok(s) = s else { return Err(format!("{n} elements were refused with a capacity of {N}")) };
				pool.push((S(s), n));
			},
			3 => {
				let f = if g.chance(1, 3) { Some(g.below(N + 1) as u32) } else { None };
				log.push(format!("decode {n}, fault at {f:?}"));
				fuse(f);
				let r = SizedSlice::<Null, N>::decode(&mut Input::new(&(n as u16).to_le_bytes()));
				fuse(None);
				match (r, f) {
					(Err(_), Some(f)) if (f as usize) < n => perhaps += f as i64,
					(Ok(s), None) => pool.push((S(s), n)),
					(Ok(s), Some(f)) if f as usize >= n => pool.push((S(s), n)),
					(r, _) => return Err(format!("decoding {n} elements with a fault at {f:?} gives {:?}", r.map(|s| s.len()))),
				}
			},
			4 => {
				log.push(format!("too many, {}", N + 1 + n));
				let v: Vec<Null> = (0..N + 1 + n).map(|_| Null::new()).collect();
				ensure!(SizedSlice::<Null, N>::new(&v).is_err(), "{} elements fit into {N}", v.len());
				pool.push((S(v.into_iter().collect()), N));
			},
			5 if !pool.is_empty() => {
				let f = if g.chance(1, 3) { Some(g.below(N + 1) as u32) } else { None };
				log.push(format!("clone {k}, fault at {f:?}"));
				fuse(f);
				let r = catch(|| match &pool[k].0 { S(s) => S(s.clone()), I(i) => I(i.clone()), V(v) => V(v.clone()), B(b) => B(b.clone()) });
				fuse(None);
				let n = pool[k].1;
				match (r, f) {
					(Ok(t), f) if f.is_none_or(|f| f as usize >= n) => pool.push((t, n)),
					(Err(_), Some(f)) if (f as usize) < n => if matches!(pool[k].0, S(_) | I(_)) { perhaps += f as i64 },
					(r, f) => return Err(format!("cloning {n} elements with a fault at {f:?} {}", if r.is_ok() { "succeeds" } else { "panics" })),
				}
			},
			6 | 7 | 8 if !pool.is_empty() => {
				let how = g.draw(4);
				log.push(format!("convert {k} ({how})"));
				let (t, n) = pool.swap_remove(k);
				let t = match t {
					S(s) => match how {
						0 => I(s.into_iter()),
						1 => V(s.into_vec()),
						2 => B(s.into_boxed_slice()),
						3 => V(s.into()),
						_ => { let (b, n) = s.into_raw_parts(); S(unsafe { SizedSlice::from_raw_parts(b, n) }) },
					},
					I(i) => match how { 0 | 1 => V(i.collect()), 2 => V(i.rev().collect()), _ => S(i.collect()) },
					V(v) => if v.len() == N && how == 0 { let Ok(a) = <[Null; N]>::try_from(v) else { unreachable!() }; S(a.into()) } else { S(v.into_iter().collect()) },
					B(b) => V(b.into_vec()),
				};
				pool.push((t, n));
			},
			9 | 10 if !pool.is_empty() => {
				log.push(format!("take from {k}"));
				let (t, n) = &mut pool[k];
				if let I(i) = t {
					let x = if g.boolean() { i.next() } else { i.next_back() };
					ensure!(x.is_some() == (*n > 0), "an iterator over {n} elements gives {:?}", x);
					*n = n.saturating_sub(1);
				} else if let S(s) = t {
					if *n > 0 { s[g.below(*n)] = Null::new() }
				}
			},
			11 if !pool.is_empty() => {
				log.push(format!("views of {k}"));
				let n = pool[k].1;
				if let S(s) = &mut pool[k].0 {
					ensure!(s.each_ref().len() == n && s.each_mut().len() == n && s.iter().count() == n && s.as_mut_slice().len() == n, "a view does not have {n} elements");
				}
			},
			_ => if !pool.is_empty() {
				log.push(format!("drop {k}"));
				let (t, n) = pool.swap_remove(k);
				if matches!(t, S(_) | I(_)) { perhaps += n as i64 }
				drop(t);
			},
		}
		let (made, dropped) = NULLS.with(|n| n.get());
		for (t, n) in &pool { ensure!(held(t) == *n, "{} elements are held instead of {n} (after {})", held(t), log.join("; ")) }
		let all: usize = pool.iter().map(|x| x.1).sum();
		let extra = made - dropped - all as i64;
		ensure!(extra >= lost, "{made} zero-sized elements were made and {dropped} were dropped, {all} are held: {} are dropped twice (after {})", lost - extra, log.join("; "));
		ensure!(extra <= lost + perhaps, "{made} zero-sized elements were made and {dropped} were dropped, {all} are held: {} are never dropped (after {})", extra - lost - perhaps, log.join("; "));
		(lost, perhaps) = (extra, 0);
	}
	o.nontrivial(NULLS.with(|n| n.get().0) > 1 && log.len() > 1);
	o.excluded += lost as u64;
	o.key(log.join(";").as_bytes());
	o.describe(|| format!("capacity {N}, zero-sized elements: {}", log.join("; ")));
	for (t, n) in pool { if matches!(t, S(_) | I(_)) { perhaps += n as i64 } drop(t) }
	let (made, dropped) = NULLS.with(|n| n.get());
	ensure!((lost..=lost + perhaps).contains(&(made - dropped)), "{made} zero-sized elements were made and {dropped} were dropped in the end; {lost} to {} are lost (after {})", lost + perhaps, log.join("; "));
	Ok(())
}

/// What a value holds, by walking it.
pub trait Holds { fn walk(&self, f: &mut dyn FnMut(&Tok)); }
impl Holds for Tok { fn walk(&self, f: &mut dyn FnMut(&Tok)) { f(self) } }
impl Holds for u8 { fn walk(&self, _: &mut dyn FnMut(&Tok)) {} }
macro_rules! holds { ($([$($p:tt)*] $t:ty, |$s:ident, $f:ident| $b:expr;)*) => { $(
	impl<$($p)*> Holds for $t { fn walk(&self, $f: &mut dyn FnMut(&Tok)) { let $s = self; $b } }
)* } }
holds! {
	[T: Holds] Vec<T>, |s, f| s.iter().for_each(|x| x.walk(f));
	[T: Holds] LinkedList<T>, |s, f| s.iter().for_each(|x| x.walk(f));
	[T: Holds, const N: usize] [T; N], |s, f| s.iter().for_each(|x| x.walk(f));
	[T: Holds, const N: usize] SizedSlice<T, N>, |s, f| s.iter().for_each(|x| x.walk(f));
	[T: Holds] [T], |s, f| s.iter().for_each(|x| x.walk(f));
	[T: Holds] Option<T>, |s, f| s.iter().for_each(|x| x.walk(f));
	[T: Holds, E: Holds] Result<T, E>, |s, f| match s { Ok(x) => x.walk(f), Err(x) => x.walk(f) };
	[T: Holds + ?Sized] Box<T>, |s, f| (**s).walk(f);
	[T: Holds + ?Sized] Rc<T>, |s, f| (**s).walk(f);
	[T: Holds + ?Sized] Arc<T>, |s, f| (**s).walk(f);
	[T: Holds] RefCell<T>, |s, f| s.borrow().walk(f);
	[T: Holds] Mutex<T>, |s, f| s.lock().unwrap().walk(f);
	[T: Holds] RwLock<T>, |s, f| s.read().unwrap().walk(f);
	[T: Holds] Wrapping<T>, |s, f| s.0.walk(f);
	[T: Holds] Saturating<T>, |s, f| s.0.walk(f);
	[T: Holds] Range<T>, |s, f| { s.start.walk(f); s.end.walk(f) };
	[T: Holds] RangeInclusive<T>, |s, f| { s.start().walk(f); s.end().walk(f) };
	[T: Holds] RangeFrom<T>, |s, f| s.start.walk(f);
	[T: Holds] RangeTo<T>, |s, f| s.end.walk(f);
	[T: Holds] Bound<T>, |s, f| match s { Bound::Included(x) | Bound::Excluded(x) => x.walk(f), _ => () };
	[A: Holds] (A,), |s, f| s.0.walk(f);
	[A: Holds, B: Holds] (A, B), |s, f| { s.0.walk(f); s.1.walk(f) };
	[A: Holds, B: Holds, C: Holds] (A, B, C), |s, f| { s.0.walk(f); s.1.walk(f); s.2.walk(f) };
	[A: Holds, B: Holds, C: Holds, D: Holds] (A, B, C, D), |s, f| { s.0.walk(f); s.1.walk(f); s.2.walk(f); s.3.walk(f) };
	[K: Holds, V: Holds] HashMap<K, V, crate::subject::H>, |s, f| s.iter().for_each(|(k, v)| { k.walk(f); v.walk(f) });
	[K: Holds] HashSet<K, crate::subject::H>, |s, f| s.iter().for_each(|x| x.walk(f));
}

fn ids<T: Holds + ?Sized>(x: &T) -> Vec<usize> {
	let mut v = Vec::new();
	x.walk(&mut |t| v.push(t.look()));
	v
}

fn reset() {
	with(|l| *l = Ledger::default());
	NULLS.with(|n| n.set((0, 0)));
}

/// Every token has been dropped once, except for those in `lost`.
fn settle() -> Result<u64, String> {
	with(|l| {
		if let Some(f) = l.faults.first() { return Err(f.clone()) }
		let mut known = 0;
		for (i, n) in l.drops.iter().enumerate() {
			match (*n, l.lost.contains(&i)) {
				(1, _) => (),
				(0, true) => known += 1,
				(0, false) => return Err(format!("token {i} of {} is never dropped", l.drops.len())),
				(n, _) => return Err(format!("token {i} is dropped {n} times")),
			}
		}
		Ok(known)
	})
}

fn live() -> BTreeSet<usize> { with(|l| l.drops.iter().enumerate().filter(|(_, n)| **n == 0).map(|(i, _)| i).collect()) }
fn lose(ids: impl IntoIterator<Item = usize>) { with(|l| l.lost.extend(ids)) }
fn fuse(n: Option<u32>) { with(|l| l.fuse = n) }

// ------------------------------------------------------------------ decoding

/// What decoding may lose, by known findings, out of the tokens it made.
#[derive(Clone, Copy, PartialEq)]
enum Loss { Nothing, Anything }

fn gen_tokens(g: &mut Gen, n: usize) -> Vec<u8> { (0..n).map(|_| g.draw(60) as u8).collect() }

/// `lens`: where counts are needed, a wire image of the type.
fn decode_case<T: Decode + Holds>(image: fn(&mut Gen, &mut Vec<u8>), loss: Loss, g: &mut Gen, o: &mut Obs) -> R {
	reset();
	let mut d = Vec::new();
	image(g, &mut d);
	// Positions of token bytes are unknown here; a fault byte may also land
	// in a count, which only makes the input short.
	let mut what = "complete";
	match g.draw(5) {
		0 | 1 if !d.is_empty() => {
			let i = g.below(d.len());
			d[i] = if g.boolean() { 0xFE } else { 0xFF };
			what = "a fault";
		},
		2 if !d.is_empty() => { let n = g.below(d.len()); d.truncate(n); what = "short" },
		_ => (),
	}
	o.key(&d);
	o.describe(|| format!("{}: {} ({what})", std::any::type_name::<T>(), crate::model::hex(&d)));
	let mut i = Input::new(&d);
	let r = catch(|| T::decode(&mut i));
	let made = with(|l| l.drops.len());
	o.nontrivial(made > 0);
	match r {
		Ok(Ok(x)) => {
			o.class("decoded");
			let held = ids(&x);
			let set: BTreeSet<usize> = held.iter().copied().collect();
			ensure!(set.len() == held.len(), "a decoded {} holds a token twice: {held:?}", std::any::type_name::<T>());
			let l = live();
			ensure!(l == set, "decoding {} from {} leaves the tokens {l:?} alive, but holds {set:?}", std::any::type_name::<T>(), crate::model::hex(&d));
			if loss == Loss::Anything { lose(set) }
			drop(x);
		},
		Ok(Err(_)) => { o.class("decode error"); if loss == Loss::Anything { lose(live()) } },
		Err(_) => { o.class("decode panic"); if loss == Loss::Anything { lose(live()) } },
	}
	let known = settle().map_err(|m| format!("decoding {} from {}: {m}", std::any::type_name::<T>(), crate::model::hex(&d)))?;
	o.excluded += known;
	Ok(())
}

/// Zero-sized tokens, by number.
fn nulls(g: &mut Gen, o: &mut Obs) -> R {
	reset();
	let n = g.range(0, 9);
	let k = if g.boolean() { Some(g.range(0, 10) as u32) } else { None };
	let kind = g.draw(5);
	fuse(k);
	o.nontrivial(n > 0);
	o.key(&[n as u8, k.map_or(99, |k| k as u8), kind as u8]);
	o.describe(|| format!("{n} zero-sized tokens, fault at {k:?}, kind {kind}"));
	let d = (n as u16).to_le_bytes();
	let mut i = Input::new(&d);
	let fails = k.is_some_and(|k| (k as usize) < match kind { 0 | 1 | 4 => n, 2 => 4, 3 => 0, _ => 3 });
	let r: Result<usize, ()> = match kind {
		0 => Vec::<Null>::decode(&mut i).map(|v| v.len()).map_err(|_| ()),
		1 => LinkedList::<Null>::decode(&mut i).map(|v| v.len()).map_err(|_| ()),
		2 => <[Null; 4]>::decode(&mut i).map(|v| v.len()).map_err(|_| ()),
		3 => <[Null; 0]>::decode(&mut i).map(|v| v.len()).map_err(|_| ()),
		4 => Box::<Vec<Null>>::decode(&mut i).map(|v| v.len()).map_err(|_| ()),
		_ => <(Null, Null, Null)>::decode(&mut i).map(|_| 3).map_err(|_| ()),
	};
	ensure!(r.is_err() == fails, "decoding gives {r:?} with a fault at {k:?}");
	let (made, dropped) = NULLS.with(|n| n.get());
	ensure!(made == dropped, "{made} zero-sized elements were made, {dropped} dropped");
	// Into and out of a fixed-capacity container.
	reset();
	let s: SizedSlice<Null, 5> = (0..n).map(|_| Null::new()).collect();
	let held = s.len() as i64;
	let (made, dropped) = NULLS.with(|n| n.get());
	ensure!(held == (n as i64).min(5), "{held} of {n} elements were collected");
	ensure!(made - dropped == held, "{} elements live, {held} are held", made - dropped);
	match g.draw(3) {
		0 => drop(s.into_vec()),
		1 => drop(s.into_boxed_slice()),
		2 => s.into_iter().for_each(drop),
		_ => { let mut it = s.into_iter(); while let Some(x) = it.next_back() { drop(x) } },
	}
	let (made, dropped) = NULLS.with(|n| n.get());
	ensure!(made == dropped, "{made} zero-sized elements were made, {dropped} dropped");
	Ok(())
}

// ----------------------------------------------------------------- histories

fn tokens(g: &mut Gen, n: usize) -> Vec<Tok> { (0..n).map(|_| Tok::new(g.draw(60) as u8)).collect() }

/// A history over fixed-capacity containers and their iterators.
fn history<const N: usize>(g: &mut Gen, o: &mut Obs) -> R {
	reset();
	let mut log: Vec<String> = Vec::new();
	let mut faults = 0u32;
	let r = catch(|| -> R {
		enum Thing<const N: usize> { S(SizedSlice<Tok, N>, Vec<usize>), I(SizedIter<Tok, N>, Vec<usize>), V(Vec<Tok>), B(Box<[Tok]>) }
		use Thing::*;
		// Everything that is alive, with what it should hold.
		let mut pool: Vec<Thing<N>> = Vec::new();
		let check = |t: &Thing<N>| -> R {
			let (got, want) = match t {
				S(s, m) => (ids(s), m.clone()),
				I(i, m) => (ids(i.as_slice()), m.clone()),
				V(v) => (ids(v), ids(v)),
				B(b) => (ids(&b[..]), ids(&b[..])),
			};
			ensure!(got == want, "the tokens {got:?} are held instead of {want:?}");
			Ok(())
		};
		for _ in 0..g.range(1, 10) {
			let before = live();
			// Tokens made by a failed operation and held by nobody are lost by a known finding.
			let partial = |before: &BTreeSet<usize>| lose(live().difference(before).copied());
			let k = if pool.is_empty() { 0 } else { g.below(pool.len()) };
			match g.draw(15) {
				0 => {
					let n = match g.draw(2) { 0 => N, 1 => g.range(0, N), _ => N + 1 + g.below(3) };
					let src = tokens(g, n);
					let before = live();
					let f = if g.chance(1, 3) { Some(g.below(n + 1) as u32) } else { None };
					log.push(format!("new of {n}, clone fault {f:?}"));
					fuse(f);
					let r = catch(|| if n % 2 == 0 { SizedSlice::<Tok, N>::new(&src) } else { SizedSlice::try_from(&src[..]) });
					fuse(None);
					match r {
						Ok(Ok(s)) => { let m = ids(&s); ensure!(m.len() == n, "{} of {n} tokens", m.len()); pool.push(S(s, m)) },
						Ok(Err(_)) => ensure!(n > N, "{n} tokens were refused with a capacity of {N}"),
						Err(p) => { ensure!(f.is_some(), "panic: {p}"); faults += 1; partial(&before) },
					}
				},
				1 => {
					let v = tokens(g, N);
					let m = ids(&v);
					let Ok(a) = <[Tok; N]>::try_from(v) else { unreachable!() };
					log.push("from an array".into());
					let s = SizedSlice::from(a);
					pool.push(S(s, m));
				},
				2 => {
					let n = g.range(0, N + 3);
					let f = if g.chance(1, 3) { Some(g.range(0, n)) } else { None };
					log.push(format!("collect {n}, fault {f:?}"));
					let v = tokens(g, n);
					let mut m = ids(&v);
					m.truncate(N);
					let mut i = 0;
					let r = catch(|| v.into_iter().map(|t| { if Some(i) == f { panic!("injected fault") } i += 1; t }).collect::<SizedSlice<Tok, N>>());
					match r {
						Ok(s) => pool.push(S(s, m)),
						Err(p) => { ensure!(f.is_some(), "panic: {p}"); faults += 1; m.truncate(f.unwrap()); lose(m) },
					}
				},
				3 => {
					let n = g.range(0, N + 1);
					let mut d = (n as u16).to_le_bytes().to_vec();
					d.extend(gen_tokens(g, n));
					if n > 0 && g.boolean() { let i = 2 + g.below(n); d[i] = 0xFE + g.draw(1) as u8 }
					if g.chance(1, 4) { d.pop(); }
					log.push(format!("decode {}", crate::model::hex(&d)));
					let mut slot = Slot::<SizedSlice<Tok, N>>::new();
					let r = if d.len() <= slot.capacity() && g.boolean() { slot.copy_from_slice(&d); catch(|| slot.read()) } else { catch(|| SizedSlice::<Tok, N>::decode(&mut Input::new(&d))) };
					match r {
						Ok(Ok(s)) => { let m = ids(&s); ensure!(m.len() == n, "{} of {n} tokens", m.len()); pool.push(S(s, m)) },
						_ => { faults += 1; partial(&before) },
					}
				},
				4 | 5 if !pool.is_empty() => {
					let f = if g.chance(1, 3) { Some(g.below(N + 1) as u32) } else { None };
					log.push(format!("clone {k}, fault {f:?}"));
					fuse(f);
					let r = catch(|| match &pool[k] {
						S(s, _) => { let s = s.clone(); let m = ids(&s); S(s, m) },
						I(i, _) => { let i = i.clone(); let m = ids(i.as_slice()); I(i, m) },
						V(v) => V(v.clone()),
						B(b) => B(b.clone()),
					});
					fuse(None);
					match r {
						Ok(t) => pool.push(t),
						Err(p) => { ensure!(f.is_some(), "panic: {p}"); faults += 1; partial(&before) },
					}
				},
				6 | 7 if !pool.is_empty() => {
					let how = g.draw(4);
					log.push(format!("convert {k} ({how})"));
					let t = match pool.swap_remove(k) {
						S(s, m) => match how {
							0 => I(s.into_iter(), m),
							1 => { let v = s.into_vec(); ensure!(ids(&v) == m, "a vector of {:?} instead of {m:?}", ids(&v)); V(v) },
							2 => { let b = s.into_boxed_slice(); ensure!(ids(&b[..]) == m, "a box of {:?} instead of {m:?}", ids(&b[..])); B(b) },
							3 => {
								let (b, n) = s.into_raw_parts();
								// SAFETY: parts of a slice.
								S(unsafe { SizedSlice::from_raw_parts(b, n) }, m)
							},
							_ => { let v: Vec<Tok> = s.into(); V(v) },
						},
						I(i, m) => if how < 2 {
							let v: Vec<Tok> = i.collect();
							ensure!(ids(&v) == m, "collected {:?} instead of {m:?}", ids(&v));
							V(v)
						} else {
							let s: SizedSlice<Tok, N> = i.collect();
							S(s, m)
						},
						V(v) => {
							let mut m = ids(&v);
							m.truncate(N);
							S(v.into_iter().collect(), m)
						},
						B(b) => V(b.into_vec()),
					};
					pool.push(t);
				},
				8..=10 if !pool.is_empty() => {
					let back = g.boolean();
					log.push(format!("{k}.next{}", if back { "_back" } else { "" }));
					if let I(i, m) = &mut pool[k] {
						let (a, b) = if back { (i.next_back(), m.pop()) } else { (i.next(), if m.is_empty() { None } else { Some(m.remove(0)) }) };
						let a_id = a.as_ref().map(|t| t.look());
						ensure!(a_id == b, "the token {a_id:?} was handed out instead of {b:?}");
						drop(a);
					} else if let S(s, m) = &mut pool[k] {
						if !m.is_empty() {
							let i = g.below(m.len());
							let t = Tok::new(1);
							m[i] = t.id;
							match g.draw(2) { 0 => s[i] = t, 1 => *s.each_mut()[i] = t, _ => drop(std::mem::replace(&mut s.as_mut_slice()[i], t)) }
						}
					}
				},
				11 if !pool.is_empty() => {
					log.push(format!("views of {k}"));
					match &mut pool[k] {
						S(s, m) => {
							let e = s.each_ref();
							ensure!(e.iter().map(|t| t.look()).eq(m.iter().copied()), "each_ref() differs");
							let c = e.clone();
							drop(e);
							ensure!(c.len() == m.len(), "a clone of each_ref() differs");
							drop(s.each_mut());
							ensure!(s.iter().map(|t| t.look()).eq(m.iter().copied()), "iter() differs");
						},
						I(i, m) => ensure!(i.as_mut_slice().iter().map(|t| t.look()).eq(m.iter().copied()), "as_mut_slice() differs"),
						_ => (),
					}
				},
				12 if !pool.is_empty() => {
					log.push(format!("encode {k}"));
					if let S(s, _) = &pool[k] {
						let cap = g.range(0, 2 + N);
						let mut slot = Slot::<SizedSlice<Tok, N>>::with_capacity(cap);
						let _ = catch(|| slot.write(s));
					}
				},
				_ => if !pool.is_empty() {
					log.push(format!("drop {k}"));
					match pool.swap_remove(k) {
						S(s, m) => { lose(m); drop(s) },
						I(i, m) => { lose(m); drop(i) },
						t => drop(t),
					}
				},
			}
			for t in &pool { check(t)? }
			with(|l| l.faults.first().cloned()).map_or(Ok(()), Err)?;
			// Whatever is alive is held by someone.
			let held: BTreeSet<usize> = pool.iter().flat_map(|t| match t {
				S(_, m) | I(_, m) => m.clone(),
				V(v) => ids(v),
				B(b) => ids(&b[..]),
			}).collect();
			let lost = with(|l| l.lost.clone());
			for t in live() { ensure!(held.contains(&t) || lost.contains(&t), "token {t} is alive, but held by nobody") }
			for t in held { ensure!(live().contains(&t), "token {t} is held, but was dropped") }
		}
		for t in pool {
			match t {
				S(s, m) => { lose(m); drop(s) },
				I(i, m) => { lose(m); drop(i) },
				t => drop(t),
			}
		}
		Ok(())
	});
	let made = with(|l| l.drops.len());
	o.nontrivial(made > 2 && log.len() > 1);
	if faults > 0 { o.class("with an injected fault") }
	o.key(log.join(";").as_bytes());
	o.describe(|| format!("capacity {N}: {}", log.join("; ")));
	let r = match r { Ok(r) => r, Err(p) => Err(format!("unexpected panic: {p}")) };
	let r = r.and_then(|()| settle());
	match r {
		Ok(k) => { o.excluded += k; Ok(()) },
		Err(m) => Err(format!("capacity {N}: {m} (after {})", log.join("; "))),
	}
}

/// Slots hold bytes, never elements; writing borrows.
fn slots(g: &mut Gen, o: &mut Obs) -> R {
	reset();
	let mut kinds = Vec::new();
	for _ in 0..g.range(1, 6) {
		let n = g.range(0, 4);
		let mut v = tokens(g, n);
		if n > 0 && g.chance(1, 3) { let i = g.below(n); v[i].tag = 0xFC + g.draw(1) as u8 }
		let cap = g.range(0, 8);
		let how = g.draw(2);
		kinds.push((n, cap, how));
		let mut s = Slot::<Vec<Tok>>::with_capacity(cap);
		let _ = match how {
			0 => catch(|| s.write(v)).map(|_| ()),
			1 => catch(|| s.write(&v)).map(|_| ()),
			_ => catch(|| s.write(Box::new(v))).map(|_| ()),
		};
		let _ = catch(|| s.read());
	}
	o.nontrivial(with(|l| l.drops.len()) > 0);
	o.key(format!("{kinds:?}").as_bytes());
	o.describe(|| format!("writes of (tokens, capacity, how) {kinds:?}"));
	settle().map(|_| ())
}

// ------------------------------------------------------------- known finding

/// Fixed-capacity containers and their iterators do not drop what they hold.
pub fn known_c16() -> Result<Vec<Known>, String> {
	let mut out = Vec::new();
	let run = |what: &str, f: &dyn Fn() -> Vec<usize>| -> Result<Option<String>, String> {
		reset();
		let held = f();
		lose(held);
		let n = settle().map_err(|m| format!("{what}: {m}"))?;
		Ok(if n > 0 { Some(format!("{what} never drops the {n} elements it holds")) } else { None })
	};
	let three = || -> SizedSlice<Tok, 4> { (0..3).map(Tok::new).collect() };
	let a = run("dropping a SizedSlice", &|| { let s = three(); let m = ids(&s); drop(s); m })?;
	if let Some(what) = a { out.push(Known { prop: "C16", sig: "sized-slice-drop", what }) }
	let b = run("dropping a SizedIter", &|| { let mut i = three().into_iter(); drop(i.next()); let m = ids(i.as_slice()); drop(i); m })?;
	if let Some(what) = b { out.push(Known { prop: "C16", sig: "sized-iter-drop", what }) }
	let c = run("decoding a SizedSlice that fails at the third element", &|| {
		let d = [3, 0, 1, 2, 0xFE];
		let r = SizedSlice::<Tok, 4>::decode(&mut Input::new(&d));
		assert!(r.is_err());
		live().into_iter().collect()
	})?;
	if let Some(what) = c { out.push(Known { prop: "C16", sig: "sized-slice-partial", what }) }
	Ok(out)
}

// --------------------------------------------------------------------- units

fn toks(g: &mut Gen, d: &mut Vec<u8>, n: usize) { d.extend(gen_tokens(g, n)) }
fn seq(g: &mut Gen, d: &mut Vec<u8>, hi: usize) -> usize { let n = g.range(0, hi); d.extend([n as u8, 0]); n }

pub fn units() -> Vec<Unit> {
	use crate::subject::H;
	use Loss::*;
	let mut v = Vec::new();
	macro_rules! dec { ($($t:ty, $l:expr, |$g:ident, $d:ident| $b:expr;)*) => { $(
		v.push(unit("C16", concat!("decode ", stringify!($t)), 5_000, |g, o| decode_case::<$t>(|$g, $d| $b, $l, g, o)));
	)* } }
	dec! {
		Vec<Tok>, Nothing, |g, d| { let n = seq(g, d, 12); toks(g, d, n) };
		LinkedList<Tok>, Nothing, |g, d| { let n = seq(g, d, 12); toks(g, d, n) };
		HashSet<Tok, H>, Nothing, |g, d| { let n = seq(g, d, 20); toks(g, d, n) };
		HashMap<u8, Wrapping<u8>, H>, Nothing, |g, d| { let n = seq(g, d, 12); toks(g, d, 2 * n) };
		HashMap<Tok, Tok, H>, Nothing, |g, d| { let n = seq(g, d, 12); toks(g, d, 2 * n) };
		[Tok; 0], Nothing, |_g, _d| ();
		[Tok; 1], Nothing, |g, d| toks(g, d, 1);
		[Tok; 7], Nothing, |g, d| toks(g, d, 7);
		[Tok; 40], Nothing, |g, d| toks(g, d, 40);
		[[Tok; 3]; 3], Nothing, |g, d| toks(g, d, 9);
		[Vec<Tok>; 3], Nothing, |g, d| for _ in 0..3 { let n = seq(g, d, 4); toks(g, d, n) };
		Vec<[Tok; 3]>, Nothing, |g, d| { let n = seq(g, d, 5); toks(g, d, 3 * n) };
		Vec<Vec<Tok>>, Nothing, |g, d| { let n = seq(g, d, 4); for _ in 0..n { let m = seq(g, d, 4); toks(g, d, m) } };
		Vec<Box<Tok>>, Nothing, |g, d| { let n = seq(g, d, 6); toks(g, d, n) };
		LinkedList<[Tok; 2]>, Nothing, |g, d| { let n = seq(g, d, 5); toks(g, d, 2 * n) };
		Vec<(Tok, Tok)>, Nothing, |g, d| { let n = seq(g, d, 5); toks(g, d, 2 * n) };
		(Tok,), Nothing, |g, d| toks(g, d, 1);
		(Tok, Tok), Nothing, |g, d| toks(g, d, 2);
		(Tok, Tok, Tok), Nothing, |g, d| toks(g, d, 3);
		(Tok, Tok, Tok, Tok), Nothing, |g, d| toks(g, d, 4);
		([Tok; 2], [Tok; 2]), Nothing, |g, d| toks(g, d, 4);
		Option<Tok>, Nothing, |g, d| { d.push(g.draw(1) as u8); toks(g, d, 1) };
		Option<[Tok; 3]>, Nothing, |g, d| { d.push(g.draw(1) as u8); toks(g, d, 3) };
		[Option<Tok>; 4], Nothing, |g, d| for _ in 0..4 { let s = g.draw(1) as u8; d.push(s); if s == 1 { toks(g, d, 1) } };
		Result<Tok, Tok>, Nothing, |g, d| { d.push(g.draw(1) as u8); toks(g, d, 1) };
		Bound<Tok>, Nothing, |g, d| { d.push(g.draw(2) as u8); toks(g, d, 1) };
		Range<Tok>, Nothing, |g, d| toks(g, d, 2);
		RangeInclusive<Tok>, Nothing, |g, d| toks(g, d, 2);
		RangeFrom<Tok>, Nothing, |g, d| toks(g, d, 1);
		RangeTo<Tok>, Nothing, |g, d| toks(g, d, 1);
		Box<Tok>, Nothing, |g, d| toks(g, d, 1);
		Rc<Tok>, Nothing, |g, d| toks(g, d, 1);
		Arc<Tok>, Nothing, |g, d| toks(g, d, 1);
		Rc<[Tok; 3]>, Nothing, |g, d| toks(g, d, 3);
		Box<Vec<Tok>>, Nothing, |g, d| { let n = seq(g, d, 5); toks(g, d, n) };
		RefCell<Tok>, Nothing, |g, d| toks(g, d, 1);
		Mutex<Tok>, Nothing, |g, d| toks(g, d, 1);
		RwLock<Tok>, Nothing, |g, d| toks(g, d, 1);
		Wrapping<Tok>, Nothing, |g, d| toks(g, d, 1);
		Saturating<Tok>, Nothing, |g, d| toks(g, d, 1);
		Mutex<Vec<Tok>>, Nothing, |g, d| { let n = seq(g, d, 5); toks(g, d, n) };
		SizedSlice<Tok, 6>, Anything, |g, d| { let n = seq(g, d, 7); toks(g, d, n) };
		Vec<SizedSlice<Tok, 2>>, Anything, |g, d| { let n = seq(g, d, 4); for _ in 0..n { let m = seq(g, d, 2); toks(g, d, m) } };
		SizedSlice<Vec<Tok>, 3>, Anything, |g, d| { let n = seq(g, d, 3); for _ in 0..n { let m = seq(g, d, 3); toks(g, d, m) } };
	}
	v.push(unit("C16", "zero-sized elements", 6_000, nulls));
	v.push(unit("C16", "history of zero-sized elements, capacity 0", 1_000, null_history::<0>));
	v.push(unit("C16", "history of zero-sized elements, capacity 3", 10_000, null_history::<3>));
	v.push(unit("C16", "history of zero-sized elements, capacity 9", 10_000, null_history::<9>));
	v.push(unit("C16", "history, capacity 0", 3_000, history::<0>));
	v.push(unit("C16", "history, capacity 1", 8_000, history::<1>));
	v.push(unit("C16", "history, capacity 3", 25_000, history::<3>));
	v.push(unit("C16", "history, capacity 8", 15_000, history::<8>));
	if !cfg!(miri) {
		v.push(unit("C16", "history, capacity 33", 800, history::<33>));
		v.push(unit("C16", "history, capacity 65", 500, history::<65>));
		v.push(unit("C16", "history, capacity 130", 300, history::<130>));
		v.push(unit("C16", "history, capacity 257", 60, history::<257>));
		v.push(unit("C16", "history of zero-sized elements, capacity 65", 500, null_history::<65>));
		v.push(unit("C16", "history of zero-sized elements, capacity 300", 150, null_history::<300>));
	}
	v.push(unit("C16", "slots", 10_000, slots));
	v
}
