//! Every capacity of a dense list of them, in everything a container does.
//! What a special case in the code may do at one capacity is met here; the
//! histories elsewhere have few capacities and many ways to come to a content.
#![allow(clippy::all)]

use crate::cmp::{eqs, ords, same_hash};
use crate::engine::{catch, exhaustive, Gen, Obs, Unit};
use crate::ensure;
use crate::sslice::{self, El, It};
use crate::sstr;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output, SizedEncode};
use oct::{SizedSlice, SizedStr, Slot};
use std::fmt::Debug;
use std::rc::Rc;
use std::str::FromStr;

type R = Result<(), String>;

/// Lengths worth a look at a capacity.
fn lens(n: usize) -> Vec<usize> {
	let mut v: Vec<usize> = if n <= 40 { (0..=n).collect() } else { (0..4).chain([7, 8, 12, 16, 17, 31, 32, 33, n / 3, n / 2, n - 3, n - 2, n - 1, n]).filter(|&k| k <= n).collect() };
	v.sort();
	v.dedup();
	v
}

fn letters(n: usize) -> String { (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect() }

fn slices<T: El + PartialEq<T>, const N: usize>(o: &mut Obs) -> R {
	o.describe(|| format!("SizedSlice<{}, {N}>", std::any::type_name::<T>()));
	o.key(&N.to_le_bytes());
	o.nontrivial(N > 0);
	for n in lens(N) {
		let m: Vec<T> = (0..n as u64).map(|i| T::make(i * 3 + 1)).collect();
		let at = |e: String| format!("{n} of {N} elements: {e}");
		let mut s = SizedSlice::<T, N>::new(&m).map_err(|e| format!("{n} of {N} elements are refused with {e:?}"))?;
		for how in 0..20 { if how != 7 || n < 20 { sslice::watch(&mut s, &m, how).map_err(at)? } }
		let mut t = SizedSlice::<T, N>::try_from(&m[..]).map_err(|e| format!("{n} of {N} elements are refused with {e:?}"))?;
		sslice::watch(&mut t, &m, 0).map_err(at)?;
		let mut u: SizedSlice<T, N> = m.iter().cloned().collect();
		sslice::watch(&mut u, &m, 0).map_err(at)?;
		if n == N {
			let a: [T; N] = m.clone().try_into().unwrap();
			sslice::watch(&mut SizedSlice::from(a), &m, 0).map_err(at)?;
			// More than fit.
			let more = || m.iter().cloned().chain([T::make(9)]);
			let mut l: SizedSlice<T, N> = more().collect();
			sslice::watch(&mut l, &m, 0).map_err(at)?;
			let e = SizedSlice::<T, N>::new(&more().collect::<Vec<_>>()).err().ok_or_else(|| format!("{} of {N} elements are taken", n + 1))?;
			ensure!(e.capacity == N && e.len == n + 1, "{} of {N} elements are refused with {e:?}", n + 1);
		}
		// Every element through a mutable view.
		let mut w = m.clone();
		for i in 0..n {
			let x = T::make(i as u64 + 77);
			match i % 4 { 0 => s[i] = x.clone(), 1 => s.as_mut_slice()[i] = x.clone(), 2 => if let Some(y) = s.iter_mut().nth(i) { *y = x.clone() }, _ => { let mut e = s.each_mut(); *e[i] = x.clone() } }
			w[i] = x;
		}
		sslice::watch(&mut s, &w, 5).map_err(at)?;
		if n > 1 {
			s.swap(0, n - 1);
			w.swap(0, n - 1);
			s.reverse();
			w.reverse();
			sslice::watch(&mut s, &w, 6).map_err(at)?;
		}
		for k in [1, n / 2, n.saturating_sub(1)] { if k <= n {
			ensure!(s[k..] == w[k..] && s[..k] == w[..k] && s.get(k) == w.get(k), "{n} of {N} elements: those about {k} are not what they should be");
		} }
		t.clone_from(&s);
		sslice::watch(&mut t, &w, 9).map_err(at)?;
		// Lengths set by hand, as far as there are elements, from which no new drop is owed.
		if !std::mem::needs_drop::<T>() {
			for k in [0, n / 2, n] {
				// SAFETY: so many are initialised.
				unsafe { s.set_len(k) };
				sslice::watch(&mut s, &w[..k], 0).map_err(at)?;
			}
		}
		ensure!(Vec::from(s.clone()) == w && *Box::<[T]>::from(t) == *w && s.into_vec() == w && *u.into_boxed_slice() == *m, "{n} of {N} elements are not converted");
	}
	Ok(())
}

fn iters<T: El, const N: usize>(o: &mut Obs) -> R {
	o.describe(|| format!("SizedIter<{}, {N}>", std::any::type_name::<T>()));
	o.key(&N.to_le_bytes());
	o.nontrivial(N > 0);
	for n in lens(N) {
		if N > 300 && n != N && n > 20 { continue }
		let m: Vec<T> = (0..n as u64).map(|i| T::make(i * 5 + 2)).collect();
		for how in 0..4 {
			let mut x = It { it: m.iter().cloned().collect::<SizedSlice<T, N>>().into_iter(), m: m.iter().cloned().collect() };
			let at = |e: String| format!("{n} of {N} elements: {e}");
			for k in 0..=n + 1 {
				if n < 50 || k < 20 || k + 20 > n {
					sslice::watch_it(&mut x).map_err(at)?;
					if N <= 300 || k == 0 || k == n {
						let c = x.it.clone();
						ensure!(c.as_slice() == x.it.as_slice() && c.len() == x.m.len(), "{n} of {N} elements: the clone of {} has {}", x.m.len(), c.len());
						ensure!(c.eq(x.m.iter().cloned()), "{n} of {N} elements: the clone of {} gives others", x.m.len());
					}
				}
				let back = match how { 0 => false, 1 => true, 2 => k % 2 == 0, _ => k * 3 > n };
				let (a, b) = if back { (x.it.next_back(), x.m.pop_back()) } else { (x.it.next(), x.m.pop_front()) };
				ensure!(a == b, "{n} of {N} elements: number {k} is {a:?} instead of {b:?}");
			}
			ensure!(x.it.as_slice().is_empty(), "{n} of {N} elements: some are left");
		}
	}
	Ok(())
}

fn texts<const N: usize>(o: &mut Obs) -> R {
	o.describe(|| format!("SizedStr<{N}>"));
	o.key(&N.to_le_bytes());
	o.nontrivial(N > 0);
	for n in lens(N) {
		for m in [letters(n), { let mut t = "\u{E9}".repeat(n / 2); if n % 2 == 1 { t.push('z') } t }] {
			let at = |e: String| format!("{m:?} of {N} octets: {e}");
			let no = |e: &dyn Debug| format!("{m:?} of {N} octets is refused with {e:?}");
			let mut s = SizedStr::<N>::from_str(&m).map_err(|e| no(&e))?;
			for how in 0..24 { if !(how == 20 && n > 40) { sstr::watch(&mut s, &m, how).map_err(at)? } }
			let w = [&(n as u16).to_le_bytes(), m.as_bytes()].concat();
			let mut others = vec![
				("try_from(&str)", SizedStr::<N>::try_from(&*m).map_err(|e| no(&e))?), ("try_from(String)", SizedStr::try_from(m.clone()).map_err(|e| no(&e))?),
				("from_utf8()", SizedStr::from_utf8(m.as_bytes()).map_err(|e| no(&e))?), ("collect()", m.chars().collect()), ("clone()", s.clone()),
				("decode()", SizedStr::decode(&mut Input::new(&w)).map_err(|e| no(&e))?),
			];
			let mut d = SizedStr::<N>::default();
			sstr::watch(&mut d, "", 0).map_err(at)?;
			d.clone_from(&s);
			others.push(("clone_from()", d));
			let (b, k) = s.clone().into_raw_parts();
			// SAFETY: parts of a string.
			others.push(("from_raw_parts()", unsafe { SizedStr::from_raw_parts(b, k) }));
			for (how, mut t) in others { sstr::watch(&mut t, &m, 7).map_err(|e| format!("{m:?} of {N} octets by {how}: {e}"))? }
			if n == N {
				let more = format!("{m}z");
				ensure!(SizedStr::<N>::from_str(&more).is_err() && SizedStr::<N>::try_from(&*more).is_err() && SizedStr::<N>::try_from(more.clone()).is_err() && SizedStr::<N>::from_utf8(more.as_bytes()).is_err(), "{more:?} of {N} octets is taken");
				sstr::watch(&mut more.chars().collect::<SizedStr<N>>(), &m, 0).map_err(at)?;
			}
			let mut bad = m.clone().into_bytes();
			for i in [0, n / 2, n.saturating_sub(1)] { if i < n {
				let x = std::mem::replace(&mut bad[i], 0xFF);
				ensure!(SizedStr::<N>::from_utf8(&bad).is_err(), "octet {i} of {n} of {N} is no text, but taken");
				let w = [&(n as u16).to_le_bytes(), &bad[..]].concat();
				ensure!(SizedStr::<N>::decode(&mut Input::new(&w)).is_err(), "octet {i} of {n} of {N} is no text, but decoded");
				bad[i] = x;
			} }
			s.as_mut_str().make_ascii_uppercase();
			sstr::watch(&mut s, &m.to_ascii_uppercase(), 5).map_err(at)?;
		}
	}
	Ok(())
}

fn compares<const N: usize>(o: &mut Obs) -> R {
	o.describe(|| format!("comparisons at {N}"));
	o.key(&N.to_le_bytes());
	o.nontrivial(N > 0);
	for n in lens(N) {
		let a = letters(n);
		let mut others = vec![a.clone()];
		let at = |i: usize, c: u8| { let mut t = a.clone().into_bytes(); t[i] = c; String::from_utf8(t).unwrap() };
		if n > 0 { others.extend([at(n - 1, b'~'), at(n - 1, 0), at(0, b'A'), a[..n - 1].to_string(), String::new()]) }
		if n > 2 { others.extend([at(n / 2, b'~'), at(n - 2, 0)]) }
		if n < N { others.extend([format!("{a}\0"), format!("{a}a")]) }
		for b in others {
			let d = format!("{a:?} and {b:?} of {N}");
			let (s, t) = (SizedStr::<N>::from_str(&a).map_err(|e| format!("{e:?}"))?, SizedStr::<N>::from_str(&b).map_err(|e| format!("{e:?}"))?);
			let far: SizedStr<5000> = b.chars().collect();
			let (eq, cmp) = (a == b, Some(a.cmp(&b)));
			eqs(&s, &t, eq, &d)?;
			eqs(&s, &far, eq, &d)?;
			eqs(&far, &s, eq, &d)?;
			eqs(&s, &&*b, eq, &d)?;
			eqs(&s, &b, eq, &d)?;
			ords(&s, &t, cmp, &d)?;
			ords(&s, &far, cmp, &d)?;
			ords(&far, &s, cmp.map(|c| c.reverse()), &d)?;
			ords(&s, &&*b, cmp, &d)?;
			ords(&s, &b, cmp, &d)?;
			ensure!(s.cmp(&t) == a.cmp(&b), "{d}: cmp() is {:?}", s.cmp(&t));
			same_hash(&s, &a, &d)?;
			same_hash(&t, &*b, &d)?;
			let (x, y): (SizedSlice<u8, N>, SizedSlice<u8, N>) = (s.into_bytes(), t.into_bytes());
			let far = far.into_bytes();
			let (u, v) = (a.as_bytes(), b.as_bytes());
			eqs(&x, &y, eq, &d)?;
			eqs(&x, &far, eq, &d)?;
			eqs(&far, &x, eq, &d)?;
			eqs(&x, &v, eq, &d)?;
			eqs(&x, &v.to_vec(), eq, &d)?;
			ords(&x, &y, cmp, &d)?;
			ords(&x, &far, cmp, &d)?;
			ords(&x, &v, cmp, &d)?;
			ords(&x, &v.to_vec(), cmp, &d)?;
			if let Ok(v) = <[u8; N]>::try_from(v) { eqs(&x, &v, eq, &d)?; ords(&x, &v, cmp, &d)?; }
			ensure!(x.cmp(&y) == u.cmp(v), "{d}: cmp() is {:?}", x.cmp(&y));
			same_hash(&x, u, &d)?;
			same_hash(&y, &v.to_vec(), &d)?;
		}
	}
	Ok(())
}

/// Everything that is put into a container is taken out of it, or dropped with what it went into.
fn drops<const N: usize>(o: &mut Obs) -> R {
	o.describe(|| format!("drops at {N}"));
	o.key(&N.to_le_bytes());
	o.nontrivial(N > 0);
	let x = Rc::new(0u8);
	let left = |n: usize, how: &str| { let k = Rc::strong_count(&x) - 1; if k == 0 { Ok(()) } else { Err(format!("{k} of {n} elements of {N} are left after {how}")) } };
	for n in lens(N) {
		let mk = || (0..n).map(|_| x.clone()).collect::<SizedSlice<Rc<u8>, N>>();
		let alive = |k: usize, how: &str| if Rc::strong_count(&x) == k + 1 { Ok(()) } else { Err(format!("{} elements rather than {k} live after {how} of {n} of {N}", Rc::strong_count(&x) - 1)) };
		let s = mk();
		alive(n, "collect()")?;
		let c = s.clone();
		alive(2 * n, "clone()")?;
		let v = s.into_vec();
		alive(2 * n, "into_vec()")?;
		drop(v);
		let b = c.into_boxed_slice();
		alive(n, "into_boxed_slice()")?;
		drop(b);
		left(n, "conversion")?;
		let mut i = mk().into_iter();
		for k in 0..n {
			let y = if k % 3 == 1 { i.next_back() } else { i.next() };
			alive(n - k, "next()")?;
			ensure!(y.is_some(), "element {k} of {n} of {N} is missing");
		}
		ensure!(i.next().is_none() && i.next_back().is_none(), "{n} elements of {N} do not end");
		left(n, "iteration")?;
		let mut i = mk().into_iter();
		let k = n / 2;
		for _ in 0..k { i.next(); }
		let c = i.clone();
		alive(2 * (n - k), "clone() of an iterator")?;
		ensure!(c.count() == n - k && i.rev().count() == n - k, "{n} elements of {N}: the iterators have others");
		left(n, "iteration of clones")?;
		let more = SizedSlice::<Rc<u8>, N>::from_iter((0..N + 2).map(|_| x.clone()));
		alive(N, "from_iter()")?;
		drop(more.into_vec());
		left(n, "from_iter()")?;
		if N > 0 && n == N { ensure!(SizedSlice::<Rc<u8>, N>::new(&vec![x.clone(); N + 1]).is_err(), "{} of {N} elements are taken", N + 1); left(N + 1, "refusal")? }
		// A decoder that fails at the last.
		let mut w = [&(n as u16).to_le_bytes(), &vec![7u8; n][..]].concat();
		let d = SizedSlice::<Rc<u8>, N>::decode(&mut Input::new(&w)).map_err(|e| format!("{n} of {N} elements are refused with {e:?}"))?;
		ensure!(d.iter().all(|y| **y == 7 && Rc::strong_count(y) == 1), "{n} elements of {N} are decoded as others");
		drop(d.into_vec());
		w.pop();
		if n > 0 { ensure!(catch(|| SizedSlice::<Rc<u8>, N>::decode(&mut Input::new(&w)).is_ok()).is_err(), "{n} elements of {N} are decoded from too few") }
	}
	Ok(())
}

/// Slots of every size.
fn slots<const N: usize>(o: &mut Obs) -> R {
	o.describe(|| format!("slots at {N}"));
	o.key(&N.to_le_bytes());
	o.nontrivial(N > 0);
	fn one<T: Encode + Decode + SizedEncode + PartialEq + Debug>(v: &T, want: &[u8]) -> R {
		let mut s = Slot::<T>::new();
		let what = std::any::type_name::<T>();
		ensure!(s.capacity() == T::MAX_ENCODED_SIZE && s.is_empty(), "a new slot of {what} has {} of {}", s.len(), s.capacity());
		for round in 0..2 {
			ensure!(catch(|| s.write(v).is_ok())? && s.len() == want.len() && s.as_slice() == want, "round {round}: the slot of {what} holds {} octets", s.len());
			ensure!(s.is_full() == (want.len() == s.capacity()), "the slot of {what} is full or not");
			ensure!(catch(|| s.read().ok())?.as_ref() == Some(v), "round {round}: the slot of {what} is read as another");
			s.copy_from_slice(&[]);
			ensure!(s.is_empty() && s.as_slice().is_empty(), "the slot of {what} is not emptied");
			s.copy_from_slice(want);
			ensure!(s.as_slice() == want && s.len() == want.len() && s.as_mut_slice().starts_with(want) && s.as_mut_slice().len() == T::MAX_ENCODED_SIZE, "the slot of {what} does not hold what was copied");
			ensure!(catch(|| s.read().ok())?.as_ref() == Some(v), "round {round}: the slot of {what} is read as another after copying");
			if !want.is_empty() { ensure!(s[want.len() - 1] == want[want.len() - 1] && s.get(want.len()).is_none(), "the last octet of the slot of {what}"); }
		}
		ensure!(catch(|| s.copy_from_slice(&vec![0; T::MAX_ENCODED_SIZE + 1])).is_err(), "the slot of {what} takes more than fits");
		Ok(())
	}
	for n in lens(N) {
		if n > 0 && n < N && n % 3 > 0 { continue }
		let t = letters(n);
		let w = [&(n as u16).to_le_bytes(), t.as_bytes()].concat();
		one(&SizedStr::<N>::from_str(&t).map_err(|e| format!("{e:?}"))?, &w)?;
		one(&SizedSlice::<u8, N>::new(t.as_bytes()).map_err(|e| format!("{e:?}"))?, &w)?;
		let m: Vec<u16> = t.bytes().map(|b| u16::from(b) * 0x101 ^ 0x80).collect();
		let w: Vec<u8> = (n as u16).to_le_bytes().into_iter().chain(m.iter().flat_map(|x| x.to_le_bytes())).collect();
		one(&SizedSlice::<u16, N>::new(&m).map_err(|e| format!("{e:?}"))?, &w)?;
		// As large as it may be, in a buffer as large as it must be.
		let s = SizedSlice::<u16, N>::new(&m).unwrap();
		let mut b = vec![0xA5; w.len()];
		let mut out = Output::new(&mut b);
		ensure!(s.encode(&mut out).is_ok() && out.position() == w.len() && b == w, "{n} of {N} elements are encoded as others");
	}
	let a: [u8; N] = std::array::from_fn(|i| i as u8 ^ 0x55);
	one(&Box::new(a), &a)?;
	Ok(())
}

/// Containers of more than 65535 elements, in everything but encoding (which must refuse them).
fn vast<const N: usize>(prop: &'static str, o: &mut Obs) -> R {
	o.describe(|| format!("{prop} at {N}"));
	o.key(&N.to_le_bytes());
	o.nontrivial(true);
	let short = |e: String| format!("{} (of more)", e.chars().take(200).collect::<String>());
	for n in [65534, 65535, 65536, 65537, N - 1, N] { if n <= N {
		let m: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8 ^ (i >> 16) as u8).collect();
		let text = std::str::from_utf8(&m).unwrap();
		let at = |e: String| format!("{n} of {N} elements: {}", short(e));
		let mut s = Box::new(SizedSlice::<u8, N>::new(&m).map_err(|e| format!("{n} of {N} elements are refused with {e:?}"))?);
		let mut t = Box::new(SizedStr::<N>::from_str(text).map_err(|e| format!("{n} of {N} octets are refused with {e:?}"))?);
		match prop {
			"C12" => {
				let mut s = Box::new(Slot::<[u8; N]>::with_capacity(N));
				ensure!(s.capacity() == N && s.len() == 0, "a slot of {N} has {} of {}", s.len(), s.capacity());
				s.copy_from_slice(&m);
				ensure!(s.len() == n && s.as_slice() == m && s.is_full() == (n == N), "{n} of {N} octets are not held");
				let mut a = Box::new([7u8; N]);
				a[N - 1] = 9;
				ensure!(s.write(&*a).is_ok() && s.len() == N && s.as_slice() == &a[..] && s.read().is_ok_and(|b| b == *a), "{N} octets are not written");
				ensure!(catch(|| s.copy_from_slice(&vec![0; N + 1])).is_err() && s.len() == N, "{} octets are taken", N + 1);
				s.copy_from_slice(&m[..5]);
				ensure!(s.as_slice() == &m[..5], "5 octets are not held");
			},
			"C13" => {
				for how in 0..20 { if how != 7 { sslice::watch(&mut s, &m, how).map_err(at)? } }
				sslice::watch(&mut m.iter().copied().chain((n == N).then_some(0)).collect::<SizedSlice<u8, N>>(), &m, 0).map_err(at)?;
				let e = SizedSlice::<u8, N>::new(&vec![0; N + 1]).err();
				ensure!(e.as_ref().is_some_and(|e| e.capacity == N && e.len == N + 1), "{} of {N} elements: {e:?}", N + 1);
				s.copy_from_slice(&m[3..]);
				sslice::watch(&mut s, &m[3..], 3).map_err(at)?;
				s.copy_from_slice(&m);
				sslice::watch(&mut s, &m, 3).map_err(at)?;
				// SAFETY: so many are initialised.
				unsafe { s.set_len(65533) };
				sslice::watch(&mut s, &m[..65533], 3).map_err(at)?;
				unsafe { s.set_len(n) };
				sslice::watch(&mut s, &m, 3).map_err(at)?;
				let u: SizedSlice<(), N> = (0..n).map(|_| ()).collect();
				ensure!(u.len() == n && u.into_vec().len() == n, "{n} of {N} units are not held");
				let mut b = vec![0; n + 8];
				let r = catch(|| s.encode(&mut Output::new(&mut b)).is_ok());
				ensure!(r == Ok(n <= 65535), "encoding {n} elements is {r:?}");
			},
			"C14" => {
				for how in 0..24 { if ![11, 20, 21].contains(&how) { sstr::watch(&mut t, text, how).map_err(at)? } }
				for mut t in [text.chars().chain((n == N).then_some('a')).collect(), SizedStr::<N>::from_utf8(&m).map_err(|e| format!("{e:?}"))?, SizedStr::try_from(text.to_string()).map_err(|e| format!("{e:?}"))?] { sstr::watch(&mut t, text, 7).map_err(at)? }
				let more = "z".repeat(N + 1);
				ensure!(SizedStr::<N>::from_str(&more).is_err() && SizedStr::<N>::from_utf8(more.as_bytes()).is_err(), "{} of {N} octets are taken", N + 1);
				let mut bad = m.clone();
				bad[n - 1] = 0xFF;
				ensure!(SizedStr::<N>::from_utf8(&bad).is_err(), "octet {} of {n} of {N} is no text, but taken", n - 1);
				let wide = "\u{E9}".repeat(n / 2);
				ensure!(wide.chars().chain("zz".chars()).collect::<SizedStr<N>>().as_str().starts_with(&wide), "{n} octets of {N} in twos are not held");
				let mut b = vec![0; n + 8];
				let r = catch(|| t.encode(&mut Output::new(&mut b)).is_ok());
				ensure!(r == Ok(n <= 65535), "encoding {n} octets is {r:?}");
			},
			"C15" => for how in 0..3 {
				let mut i = s.clone().into_iter();
				let mut w: std::collections::VecDeque<u8> = m.iter().copied().collect();
				for k in 0..=n + 1 {
					ensure!(i.len() == w.len() && i.size_hint() == (w.len(), Some(w.len())), "{n} of {N} elements: {} are left after {k}", i.len());
					if k % 8191 == 0 || n - k.min(n) < 3 { ensure!(i.as_slice().iter().eq(&w) && i.clone().count() == w.len() && i.clone().last() == w.back().copied(), "{n} of {N} elements: others are left after {k}") }
					let (a, b) = if how == 1 || how == 2 && k % 2 == 0 { (i.next_back(), w.pop_back()) } else { (i.next(), w.pop_front()) };
					ensure!(a == b, "{n} of {N} elements: number {k} is {a:?} instead of {b:?}");
				}
			},
			"C16" => {
				let x = Rc::new(());
				let alive = |k: usize, how: &str| if Rc::strong_count(&x) == k + 1 { Ok(()) } else { Err(format!("{} elements rather than {k} live after {how} of {n} of {N}", Rc::strong_count(&x) - 1)) };
				let s: Box<SizedSlice<Rc<()>, N>> = Box::new((0..n).map(|_| x.clone()).collect());
				alive(n, "collect()")?;
				let c = s.clone();
				alive(2 * n, "clone()")?;
				drop(s.into_vec());
				alive(n, "into_vec()")?;
				let mut i = c.into_iter();
				let c = i.clone();
				alive(2 * n, "clone() of an iterator")?;
				c.for_each(drop);
				alive(n, "iteration of the clone")?;
				let more: Box<SizedSlice<Rc<()>, N>> = Box::new((0..N + 3).map(|_| x.clone()).collect());
				alive(n + N, "collect() of too many")?;
				drop(more.into_boxed_slice());
				alive(n, "into_boxed_slice()")?;
				for k in 0..n { ensure!((if k % 2 == 0 { i.next() } else { i.next_back() }).is_some(), "element {k} of {n} of {N} is missing"); }
				ensure!(i.next().is_none(), "{n} elements of {N} do not end");
				alive(0, "iteration")?;
			},
			_ => {
				for k in [0, 65535, n - 1] { if k < n {
					let mut w = m.clone();
					w[k] ^= 1;
					let x = Box::new(SizedSlice::<u8, N>::new(&w).map_err(|e| format!("{e:?}"))?);
					let d = format!("{n} of {N} elements that differ at {k}");
					eqs(&*s, &*x, false, &d)?;
					eqs(&*s, &w, false, &d)?;
					ords(&*s, &*x, Some(m.cmp(&w)), &d)?;
					ords(&*s, &w, Some(m.cmp(&w)), &d)?;
					let y = Box::new(SizedStr::<N>::from_utf8(&w).map_err(|e| format!("{e:?}"))?);
					eqs(&*t, &*y, false, &d)?;
					ords(&*t, &*y, Some(m.cmp(&w)), &d)?;
					same_hash(&*x, &w, &d)?;
					same_hash(&*y, std::str::from_utf8(&w).unwrap(), &d)?;
				} }
				let d = format!("{n} of {N} elements, some of them");
				let w = m[..n - 65536.min(n)].to_vec();
				eqs(&*s, &w, n == w.len(), &d)?;
				ords(&*s, &w, Some(m.cmp(&w)), &d)?;
				eqs(&*s, &m, true, &d)?;
				eqs(&*t, &text, true, &d)?;
			},
		}
	} }
	Ok(())
}

macro_rules! dense {
	($u:ident, $prop:literal, $name:expr, $f:ident, $t:ty: $($n:literal)*) => { dense!(@ $u, $prop, $name, $($f::<$t, $n>),*) };
	($u:ident, $prop:literal, $name:expr, $f:ident: $($n:literal)*) => { dense!(@ $u, $prop, $name, $($f::<$n>),*) };
	(@ $u:ident, $prop:literal, $name:expr, $($f:expr),*) => { {
		let fs: &'static [fn(&mut Obs) -> R] = &[$($f),*];
		$u.push(exhaustive($prop, $name, fs.len() as u64, move |g: &mut Gen, o: &mut Obs| fs[g.draw(fs.len() as u64 - 1) as usize](o)));
	} };
}

macro_rules! many { ($u:ident, $prop:literal, $name:expr, $($f:tt)*) => {
	dense!($u, $prop, $name, $($f)*: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 40 42 47 48 49 50
		60 63 64 65 66 80 96 97 99 100 101 120 126 127 128 129 130 200 250 254 255 256 257 258 300 400 500 511 512 513 1000 1023 1024 1025 4096)
} }

macro_rules! some { ($u:ident, $prop:literal, $name:expr, $($f:tt)*) => {
	dense!($u, $prop, $name, $($f)*: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 20 24 31 32 33 48 64 65 100 128 255 256 300)
} }

pub fn units() -> Vec<Unit> {
	let mut u = Vec::new();
	if cfg!(miri) { return u }
	many!(u, "C13", "dense capacities, u8", slices, u8);
	some!(u, "C13", "dense capacities, String", slices, String);
	some!(u, "C13", "dense capacities, u64", slices, u64);
	many!(u, "C14", "dense capacities of text", texts);
	many!(u, "C15", "dense capacities of iterators, u8", iters, u8);
	some!(u, "C15", "dense capacities of iterators, String", iters, String);
	some!(u, "C15", "dense capacities of iterators, ()", iters, ());
	some!(u, "C16", "dense capacities of counted elements", drops);
	many!(u, "C12", "dense capacities of slots", slots);
	dense!(u, "C12", "large capacities of slots", slots: 5000 8192 10000 16384 32767 32768 40000 65533 65535);
	many!(u, "C21", "dense capacities of comparands", compares);
	for p in ["C12", "C13", "C14", "C15", "C16", "C21"] {
		u.push(exhaustive(p, "vast capacities", 3, move |g: &mut Gen, o: &mut Obs| [vast::<65536>, vast::<65537>, vast::<70000>][g.draw(2) as usize](p, o)));
	}
	u
}
