//! C21: comparing and hashing fixed-capacity containers.

use crate::engine::{unit, Gen, Obs, Unit};
use crate::ensure;
use crate::sstr::gen_text;
use oct::{SizedSlice, SizedStr};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash, Hasher, RandomState};
use std::mem::MaybeUninit;
use std::rc::Rc;
use std::str::FromStr;

type R = Result<(), String>;

/// A hasher that keeps what it is told, call by call.
#[derive(Default)]
struct Tape(Vec<(u8, Vec<u8>)>);
impl Hasher for Tape {
	fn finish(&self) -> u64 { 0 }
	fn write(&mut self, b: &[u8]) { self.0.push((0, b.to_vec())) }
	fn write_u8(&mut self, x: u8) { self.0.push((1, vec![x])) }
	fn write_u32(&mut self, x: u32) { self.0.push((4, x.to_le_bytes().to_vec())) }
	fn write_u64(&mut self, x: u64) { self.0.push((8, x.to_le_bytes().to_vec())) }
	fn write_usize(&mut self, x: usize) { self.0.push((9, x.to_le_bytes().to_vec())) }
}
/// What is hashed, whatever the number of calls.
fn flat<T: Hash + ?Sized>(x: &T) -> Vec<u8> {
	let mut t = Tape::default();
	x.hash(&mut t);
	t.0.into_iter().flat_map(|x| x.1).collect()
}
fn hash<T: Hash + ?Sized>(x: &T) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }

pub(crate) fn same_hash<A: Hash + ?Sized, B: Hash + ?Sized>(a: &A, b: &B, what: &str) -> R {
	ensure!(hash(a) == hash(b), "{what}: the hashes differ ({} and {} are hashed)", crate::model::hex(&flat(a)), crate::model::hex(&flat(b)));
	ensure!(flat(a) == flat(b), "{what}: {} is hashed instead of {}", crate::model::hex(&flat(a)), crate::model::hex(&flat(b)));
	Ok(())
}

pub trait El: Clone + PartialEq + PartialOrd + Debug + 'static {
	fn make(x: u64) -> Self;
}
macro_rules! el { ($($t:ty, |$x:ident| $e:expr;)*) => { $(impl El for $t { fn make($x: u64) -> Self { $e } })* } }
el! {
	u8, |x| [0, 1, 2, 127, 128, 255][x as usize % 6];
	i16, |x| [0, -1, 1, i16::MIN, i16::MAX, 256][x as usize % 6];
	u64, |x| [0, 1, 256, 1 << 40, u64::MAX, 3][x as usize % 6];
	char, |x| ['a', '\0', '\u{E9}', '\u{FFFD}', '\u{10FFFF}', 'b'][x as usize % 6];
	bool, |x| x % 2 == 1;
	(), |_x| ();
	String, |x| ["", "a", "b", "aa", "\u{E9}", "ab"][x as usize % 6].to_string();
	Rc<[u8]>, |x| Rc::from(&[0u8, 1, 2, 255, 7][..x as usize % 6]);
	Option<i8>, |x| [None, Some(0), Some(-1), Some(127), Some(-128), Some(1)][x as usize % 6];
	f64, |x| [0.0, -0.0, 1.0, f64::NAN, f64::INFINITY, -1.5][x as usize % 6];
}

/// Two sequences that tend to be related.
fn pair<T>(g: &mut Gen, n: usize, m: usize, mut f: impl FnMut(&mut Gen) -> T) -> (Vec<T>, Vec<T>) where T: Clone {
	let a: Vec<T> = { let k = match g.draw(2) { 0 => n, _ => g.range(0, n) }; (0..k).map(|_| f(g)).collect() };
	let mut b = a.clone();
	match g.draw(5) {
		0 => (),
		1 => if !b.is_empty() { let i = g.below(b.len()); b[i] = f(g) },
		2 => { b.pop(); },
		3 => b.push(f(g)),
		4 => if !b.is_empty() { let i = g.below(b.len()); b.remove(i); },
		_ => { let k = g.range(0, m); b = (0..k).map(|_| f(g)).collect() },
	}
	b.truncate(m);
	(a, b)
}

/// Holds `a`, with other elements left behind after its end.
fn stale<T: El, const N: usize>(g: &mut Gen, a: &[T]) -> SizedSlice<T, N> {
	match g.draw(3) {
		0 => a.iter().cloned().collect(),
		1 => {
			let mut buf: [MaybeUninit<T>; N] = [const { MaybeUninit::uninit() }; N];
			// (Leftovers are only made of what needs no drop.)
			for (i, b) in buf.iter_mut().enumerate() {
				if let Some(x) = a.get(i) { b.write(x.clone()); }
				else if !std::mem::needs_drop::<T>() { b.write(T::make(g.draw(5))); }
			}
			// SAFETY: the first elements are initialised.
			unsafe { SizedSlice::from_raw_parts(buf, a.len()) }
		},
		2 => {
			let mut s: SizedSlice<T, N> = (0..N).map(|_| T::make(g.draw(5))).collect();
			assert!(s.len() == N);
			// SAFETY: shortening; then the elements are replaced.
			unsafe { s.set_len(a.len()) };
			for (x, y) in s.iter_mut().zip(a) { *x = y.clone() }
			s
		},
		_ => { let b: Box<[T]> = a.into(); b.into_vec().into_iter().collect() },
	}
}

pub(crate) fn eqs<A: PartialEq<B> + ?Sized, B: ?Sized>(a: &A, b: &B, want: bool, what: &str) -> R {
	ensure!((a == b) == want && (a != b) == !want, "{what}: == is {} and != is {}, but equality is {want}", a == b, a != b);
	Ok(())
}
pub(crate) fn ords<A: PartialOrd<B> + ?Sized, B: ?Sized>(a: &A, b: &B, want: Option<Ordering>, what: &str) -> R {
	let x = a.partial_cmp(b);
	ensure!(x == want, "{what}: partial_cmp() is {x:?} instead of {want:?}");
	let ops = (a < b, a <= b, a > b, a >= b);
	let is = |o: &[Ordering]| want.is_some_and(|w| o.contains(&w));
	use Ordering::*;
	let right = (is(&[Less]), is(&[Less, Equal]), is(&[Greater]), is(&[Greater, Equal]));
	ensure!(ops == right, "{what}: (<, <=, >, >=) is {ops:?} instead of {right:?}");
	Ok(())
}

fn elements<T: El, const N: usize, const M: usize>(g: &mut Gen, o: &mut Obs) -> R {
	let (a, b) = pair(g, N, M, |g| T::make(g.draw(5)));
	o.nontrivial(!a.is_empty() && !b.is_empty());
	o.class(if a == b { "equal" } else { "not equal" });
	o.key(format!("{a:?}{b:?}").as_bytes());
	o.describe(|| format!("{a:?} of {N} and {b:?} of {M}"));
	let (s, t): (SizedSlice<T, N>, SizedSlice<T, M>) = (stale(g, &a), stale(g, &b));
	let eq = a[..] == b[..];
	let cmp = a[..].partial_cmp(&b[..]);
	let d = format!("{a:?} of {N} and {b:?} of {M}");
	eqs(&s, &t, eq, &d)?;
	eqs(&t, &s, b[..] == a[..], &d)?;
	eqs(&s, &b[..].to_vec(), eq, &format!("{d} in a Vec"))?;
	eqs(&s, &&b[..], eq, &format!("{d} in a slice"))?;
	if let Ok(x) = <&[T; M]>::try_from(&b[..]) { o.class("against an array"); eqs(&s, x, eq, &format!("{d} in an array"))?; ords(&s, x, cmp, &format!("{d} in an array"))? }
	if let Ok(x) = <[T; N]>::try_from(a.clone()) { eqs(&t, &x, b[..] == a[..], &format!("{b:?} of {M} and {a:?} in an array"))?; ords(&t, &x, b[..].partial_cmp(&a[..]), &format!("{b:?} of {M} and {a:?} in an array"))? }
	ords(&s, &t, cmp, &d)?;
	ords(&t, &s, b[..].partial_cmp(&a[..]), &d)?;
	ords(&s, &b[..].to_vec(), cmp, &format!("{d} in a Vec"))?;
	ords(&s, &&b[..], cmp, &format!("{d} in a slice"))?;
	// Clones and other copies of the same.
	let c = s.clone();
	eqs(&c, &s, a[..] == a[..], &format!("{a:?} and its clone"))?;
	ords(&c, &s, a[..].partial_cmp(&a[..]), &format!("{a:?} and its clone"))?;
	Ok(())
}

fn mixed<const N: usize, const M: usize>(g: &mut Gen, o: &mut Obs) -> R {
	// Elements of different types.
	let (a, b) = pair(g, N, M, |g| ["", "a", "b", "aa", "\u{E9}"][g.below(5)]);
	o.nontrivial(!a.is_empty());
	o.key(format!("{a:?}{b:?}").as_bytes());
	o.describe(|| format!("{a:?} of {N} and {b:?} of {M}"));
	let s: SizedSlice<&str, N> = a.iter().copied().collect();
	let t: SizedSlice<String, M> = b.iter().map(|x| x.to_string()).collect();
	let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
	let eq = a == b;
	let d = format!("{a:?} of {N} and {b:?} of {M}");
	eqs(&s, &t, eq, &d)?;
	eqs(&t, &s, eq, &d)?;
	eqs(&s, &v, eq, &d)?;
	eqs(&s, &&v[..], eq, &d)?;
	if let Ok(x) = <[String; M]>::try_from(v) { eqs(&s, &x, eq, &d)? }
	Ok(())
}

/// `max()`, `min()` and `clamp()` are those of `f`'s results, also in which
/// of two equals they give.
fn total<X: Ord + Clone, K: Ord + Debug>(a: &X, b: &X, c: &X, f: impl Fn(&X) -> K, what: &str) -> R {
	let (ka, kb, kc) = (f(a), f(b), f(c));
	let got = (f(&a.clone().max(b.clone())), f(&a.clone().min(b.clone())));
	let want = (if ka > kb { f(a) } else { f(b) }, if ka > kb { f(b) } else { f(a) });
	ensure!(got == want, "{what}: (max(), min()) is {got:?} instead of {want:?}");
	let (lo, hi) = if kb <= kc { (b, c) } else { (c, b) };
	let got = f(&a.clone().clamp(lo.clone(), hi.clone()));
	let want = if ka < f(lo) { f(lo) } else if ka > f(hi) { f(hi) } else { ka };
	ensure!(got == want, "{what}: clamp() gives {got:?} instead of {want:?}");
	let mut v = vec![c.clone(), a.clone(), b.clone(), a.clone()];
	v.sort();
	let mut k = vec![f(c), f(a), f(b), f(a)];
	k.sort();
	ensure!(v.iter().map(&f).eq(k), "{what}: sorting gives {:?}", v.iter().map(&f).collect::<Vec<_>>());
	Ok(())
}

fn keyed<T: El + Eq + Ord + Hash, const N: usize, const M: usize>(g: &mut Gen, o: &mut Obs) -> R {
	let (a, b) = pair(g, N, M, |g| T::make(g.draw(5)));
	o.nontrivial(!a.is_empty());
	o.key(format!("{a:?}{b:?}").as_bytes());
	o.describe(|| format!("{a:?} of {N} and {b:?} of {M}"));
	let (s, t): (SizedSlice<T, N>, SizedSlice<T, M>) = (stale(g, &a), stale(g, &b));
	let d = format!("{a:?} of {N}");
	let cut = |m: &[T]| -> SizedSlice<T, N> { m.iter().cloned().collect() };
	same_hash(&s, &a[..], &d)?;
	same_hash(&t, &b[..], &format!("{b:?} of {M}"))?;
	same_hash(&(&s, 1u8), &(&a[..], 1u8), &d)?;
	// Many at once, as the elements of what is hashed.
	same_hash(&vec![s.clone(), cut(&b), s.clone()], &vec![&a[..], &b[..b.len().min(N)], &a[..]], &format!("{d} in a vector"))?;
	same_hash(&[&s, &s], &[&a[..], &a[..]], &format!("{d} in an array"))?;
	same_hash(&[s.clone(), s.clone()], &[&a[..], &a[..]], &format!("{d} in an array"))?;
	same_hash(&(s.clone(), s.clone()), &(&a[..], &a[..]), &format!("{d} in a pair"))?;
	same_hash(&Some(s.clone()), &Some(&a[..]), &format!("{d} in an option"))?;
	same_hash(&Vec::<SizedSlice<T, N>>::new(), &Vec::<&[T]>::new(), "nothing")?;
	let r: &[T] = s.borrow();
	ensure!(r == &a[..], "{d} borrows as {r:?}");
	// The same capacity has a total order.
	let c: Vec<T> = b.iter().take(N).cloned().collect();
	let u: SizedSlice<T, N> = stale(g, &c);
	ensure!(s.cmp(&u) == a.cmp(&c), "{d} and {c:?}: cmp() is {:?}", s.cmp(&u));
	total(&s, &u, &cut(&[&b[..], &a[..]].concat()), |x| x.as_slice().to_vec(), &format!("{d}, {c:?} and {b:?}"))?;

	// A collection of keys, looked up by slice.
	let n = g.range(1, 12);
	let mut hm: HashMap<SizedSlice<T, N>, usize, RandomState> = HashMap::new();
	let mut bm: BTreeMap<SizedSlice<T, N>, usize> = BTreeMap::new();
	let mut bs: BTreeSet<SizedSlice<T, N>> = BTreeSet::new();
	let mut hs: HashSet<SizedSlice<T, N>> = HashSet::new();
	let mut model: BTreeMap<Vec<T>, usize> = BTreeMap::new();
	let mut asked = vec![a.clone(), c.clone(), b.clone()];
	for i in 0..n {
		let k: Vec<T> = if i == 0 { a.clone() } else { let k = g.range(0, N); (0..k).map(|_| T::make(g.draw(5))).collect() };
		let (x, y, z, w) = (stale(g, &k), stale(g, &k), stale(g, &k), stale(g, &k));
		let old = model.insert(k.clone(), i);
		let got = (hm.insert(x, i), bm.insert(y, i), bs.insert(z), hs.insert(w));
		ensure!(got == (old, old, old.is_none(), old.is_none()), "inserting {k:?} gives {got:?} where {old:?} was");
		asked.push(k);
	}
	for k in &asked {
		let want = model.get(k);
		let got = [hm.get(&k[..]), bm.get(&k[..])];
		ensure!(got == [want, want], "looking up {k:?} gives {got:?} instead of {want:?} among {:?}", model.keys());
		ensure!(bs.contains(&k[..]) == want.is_some() && hs.contains(&k[..]) == want.is_some(), "a set of {:?} is wrong about {k:?}", model.keys());
	}
	ensure!(bm.keys().map(|k| k.as_slice()).eq(model.keys().map(|k| &k[..])), "keys are ordered as {:?} instead of {:?}", bm.keys(), model.keys());
	let _ = RandomState::new().hash_one(&s);
	Ok(())
}

/// `t` in a buffer of noise.
fn stale_str<const N: usize>(g: &mut Gen, t: &str) -> SizedStr<N> {
	match g.draw(2) {
		0 => SizedStr::from_str(t).unwrap(),
		1 => {
			let mut buf = [0u8; N];
			let x = g.byte();
			buf.fill(x);
			buf[..t.len()].copy_from_slice(t.as_bytes());
			// SAFETY: valid up to the length.
			unsafe { SizedStr::from_raw_parts(buf, t.len()) }
		},
		_ => t.chars().collect(),
	}
}

fn text<const N: usize, const M: usize>(g: &mut Gen, o: &mut Obs) -> R {
	let fit = |t: String, n: usize| { let mut s = String::new(); for c in t.chars() { if s.len() + c.len_utf8() > n { break } s.push(c) } s };
	let a = { let t = gen_text(g, N); fit(t, N) };
	let b = match g.draw(4) {
		0 => a.clone(),
		1 => { let mut v: Vec<char> = a.chars().collect(); if !v.is_empty() { let i = g.below(v.len()); v[i] = *g.pick(&['a', 'B', '\u{E9}', '\u{FFFF}', '\u{10000}']) } v.into_iter().collect() },
		2 => { let mut t = a.clone(); t.pop(); t },
		3 => { let mut t = a.clone(); t.push(*g.pick(&['\0', 'a', '\u{10FFFF}'])); t },
		_ => gen_text(g, M),
	};
	let b = fit(b, M);
	o.nontrivial(!a.is_empty() && !b.is_empty());
	o.class(if a == b { "equal" } else { "not equal" });
	o.key(format!("{a:?}{b:?}").as_bytes());
	o.describe(|| format!("{a:?} of {N} and {b:?} of {M}"));
	let d = format!("{a:?} of {N} and {b:?} of {M}");
	let (s, t): (SizedStr<N>, SizedStr<M>) = (stale_str(g, &a), stale_str(g, &b));
	let (eq, cmp) = (a == b, a.partial_cmp(&b));
	eqs(&s, &t, eq, &d)?;
	eqs(&t, &s, eq, &d)?;
	eqs(&s, &&*b, eq, &d)?;
	eqs(&s, &b, eq, &d)?;
	eqs(&*s, &*b, eq, &d)?;
	ords(&s, &t, cmp, &d)?;
	ords(&t, &s, b.partial_cmp(&a), &d)?;
	ords(&s, &&*b, cmp, &d)?;
	ords(&s, &b, cmp, &d)?;
	same_hash(&s, a.as_str(), &d)?;
	same_hash(&t, b.as_str(), &d)?;
	same_hash(&s, &a, &d)?;
	same_hash(&(&s, 7u8), &(&a, 7u8), &d)?;
	let c = fit(b.clone(), N);
	let u: SizedStr<N> = stale_str(g, &c);
	ensure!(s.cmp(&u) == a.cmp(&c), "{a:?} and {c:?} of {N}: cmp() is {:?}", s.cmp(&u));
	total(&s, &u, &"b".repeat(N / 2).parse().unwrap(), |x: &SizedStr<N>| x.as_str().to_string(), &format!("{a:?} and {c:?} of {N}"))?;
	same_hash(&vec![s.clone(), u.clone(), s.clone()], &vec![a.as_str(), c.as_str(), a.as_str()], &format!("{a:?} and {c:?} in a vector"))?;
	same_hash(&[s.clone(), s.clone()], &[&a, &a], &format!("{d} in an array"))?;
	same_hash(&[&s, &u], &[&a, &c], &format!("{a:?} and {c:?} in an array"))?;
	same_hash(&(s.clone(), u.clone()), &(&a, &c), &format!("{a:?} and {c:?} in a pair"))?;
	same_hash(&Some(s.clone()), &Some(&a), &format!("{d} in an option"))?;
	let e = s.clone();
	eqs(&e, &s, true, &d)?;
	same_hash(&e, &s, &d)?;
	// Octets compare as octets.
	eqs(&s.clone().into_bytes(), &b.as_bytes(), eq, &d)?;

	let mut hm: HashMap<SizedStr<N>, usize> = HashMap::new();
	let mut bm: BTreeMap<SizedStr<N>, usize> = BTreeMap::new();
	let mut model: BTreeMap<String, usize> = BTreeMap::new();
	let mut asked = vec![a.clone(), b.clone(), c];
	for i in 0..g.range(1, 6) {
		let k = if i == 0 { a.clone() } else { let t = gen_text(g, N); fit(t, N) };
		let old = model.insert(k.clone(), i);
		let got = (hm.insert(stale_str(g, &k), i), bm.insert(stale_str(g, &k), i));
		ensure!(got == (old, old), "inserting {k:?} gives {got:?} where {old:?} was");
		asked.push(k);
	}
	for k in &asked {
		let want = model.get(k);
		let got = [hm.get(&k[..]), bm.get(&k[..])];
		ensure!(got == [want, want], "looking up {k:?} gives {got:?} instead of {want:?} among {:?}", model.keys());
	}
	ensure!(bm.keys().map(|k| k.as_str()).eq(model.keys().map(|k| &k[..])), "keys are ordered as {:?} instead of {:?}", bm.keys(), model.keys());
	Ok(())
}

pub fn units() -> Vec<Unit> {
	let mut v = Vec::new();
	macro_rules! each { ($f:ident, $cases:literal, [$($t:ty),*], $n:literal, $m:literal) => { $(
		v.push(unit("C21", format!("{} of {}, {} and {}", stringify!($f), stringify!($t), $n, $m), $cases, $f::<$t, $n, $m>));
	)* } }
	each!(elements, 4_000, [u8, i16, u64, char, bool, (), String, Rc<[u8]>, Option<i8>, f64], 4, 4);
	each!(elements, 3_000, [u8, i16, u64, char, bool, (), String, Rc<[u8]>, Option<i8>, f64], 3, 6);
	each!(elements, 2_000, [u8, i16, String, f64], 9, 2);
	each!(elements, 500, [u8, String], 0, 3);
	each!(elements, 2_000, [u8, u64], 40, 17);
	if !cfg!(miri) {
		each!(elements, 400, [u8, u64, String], 70, 130);
		each!(elements, 200, [u8, i16, ()], 300, 257);
		each!(keyed, 200, [u8, String], 66, 33);
		each!(keyed, 100, [u8, ()], 257, 300);
	}
	each!(keyed, 3_000, [u8, i16, u64, char, bool, (), String, Rc<[u8]>, Option<i8>], 3, 5);
	each!(keyed, 2_000, [u8, u64, String], 8, 4);
	each!(keyed, 500, [u8, String], 0, 1);
	v.push(unit("C21", "elements of different types", 4_000, mixed::<4, 3>));
	macro_rules! texts { ($($n:literal $m:literal),*) => { $(
		v.push(unit("C21", format!("text, {} and {}", $n, $m), 5_000, text::<$n, $m>));
	)* } }
	texts!(0 3, 1 1, 3 8, 8 8, 8 5, 16 300, 255 64);
	v
}
