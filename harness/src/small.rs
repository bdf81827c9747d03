//! Small scopes, in whole: every value of the small domains, every length,
//! every place. What a special case in the code may single out is met here.
#![allow(clippy::all)]

use crate::engine::{in_dict, catch, clip, exhaustive, Gen, Obs, Unit};
use crate::ensure;
use crate::model::hex;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output, SizedEncode};
use oct::{SizedSlice, SizedStr, Slot};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet, LinkedList};
use std::ffi::CString;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::net::*;
use std::num::{NonZero, Saturating, Wrapping};
use std::ops::*;
use std::rc::Rc;
use std::sync::Arc;
use std::time::{Duration, SystemTime};

type R = Result<(), String>;

fn enc<T: Encode + ?Sized>(v: &T, buf: &mut [u8]) -> Result<Option<usize>, String> {
	let mut o = Output::new(buf);
	match catch(|| v.encode(&mut o)) {
		Ok(Ok(())) => Ok(Some(o.position())),
		Ok(Err(_)) => Ok(None),
		Err(p) => Err(format!("encoding panicked: {p}")),
	}
}

fn dec<T: Decode>(d: &[u8]) -> Result<(Option<T>, usize), String> {
	let mut i = Input::new(d);
	let r = catch(|| T::decode(&mut i)).map_err(|p| format!("decoding {} panicked: {p}", hex(d)))?;
	Ok((r.ok(), i.position()))
}

fn name<T: ?Sized>() -> &'static str { std::any::type_name::<T>() }

/// `v` is laid out as `want`, no more and no less, and read back from it.
fn both<T: Encode + Decode + PartialEq + Debug>(v: &T, want: &[u8]) -> R {
	let mut buf = [0xA5u8; 64];
	let n = enc(v, &mut buf).map_err(|m| format!("{} {v:?}: {m}", name::<T>()))?;
	ensure!(n == Some(want.len()) && buf[..want.len()] == *want, "{} {v:?} encodes as {n:?} octets {} rather than {}", name::<T>(), hex(&buf[..n.unwrap_or(0)]), hex(want));
	ensure!(buf[want.len()..].iter().all(|&b| b == 0xA5), "{} {v:?}: octets after the encoding change", name::<T>());
	let mut more = want.to_vec();
	more.extend([0xEE; 3]);
	let (w, at) = dec::<T>(&more)?;
	ensure!(w.as_ref() == Some(v) && at == want.len(), "{} {v:?} comes back as {w:?} from {} octets of {}", name::<T>(), at, hex(want));
	Ok(())
}

fn sized<T: Encode + Decode + PartialEq + Debug + SizedEncode>(v: &T, want: &[u8]) -> R {
	ensure!(T::MAX_ENCODED_SIZE >= want.len(), "{} {v:?} takes {} octets, but the bound is {}", name::<T>(), want.len(), T::MAX_ENCODED_SIZE);
	both(v, want)
}

fn refused<T: Encode + Debug>(v: &T) -> R {
	let mut buf = [0xA5u8; 64];
	let n = enc(v, &mut buf).map_err(|m| format!("{} {v:?}: {m}", name::<T>()))?;
	ensure!(n.is_none(), "{} {v:?} cannot be represented, but encodes as {}", name::<T>(), hex(&buf[..n.unwrap_or(0)]));
	Ok(())
}

fn invalid<T: Decode + Debug>(d: &[u8]) -> R {
	let (v, _) = dec::<T>(d)?;
	ensure!(v.is_none(), "{} is not valid, but decodes to {} {v:?}", hex(d), name::<T>());
	Ok(())
}

fn cat(parts: &[&[u8]]) -> Vec<u8> { parts.concat() }

/// Every 16-bit pattern, in every type it fits.
fn words(g: &mut Gen, o: &mut Obs) -> R {
	let blk = g.draw(255) as u16;
	o.nontrivial(true);
	o.key(&blk.to_le_bytes());
	o.describe(|| format!("all small integers of {:#x}..={:#x}", (blk as u32) << 8, (blk as u32) << 8 | 0xFF));
	for low in 0..=255u16 {
		let x = blk << 8 | low;
		let d = x.to_le_bytes();
		let s = x as i16;
		sized(&x, &d)?;
		sized(&s, &d)?;
		sized(&(x as usize), &d)?;
		sized(&(s as isize), &d)?;
		sized(&(x as u32), &cat(&[&d, &[0; 2]]))?;
		sized(&(s as i32), &(s as i32).to_le_bytes())?;
		sized(&(x as u64), &cat(&[&d, &[0; 6]]))?;
		sized(&(s as i64), &(s as i64).to_le_bytes())?;
		sized(&(x as u128), &cat(&[&d, &[0; 14]]))?;
		sized(&(s as i128), &(s as i128).to_le_bytes())?;
		// High parts as well.
		sized(&((x as u32) << 16), &cat(&[&[0; 2], &d]))?;
		sized(&((x as u64) << 48), &cat(&[&[0; 6], &d]))?;
		sized(&((x as u128) << 112), &cat(&[&[0; 14], &d]))?;
		let f = f32::from_bits((x as u32) << 16);
		if !f.is_nan() { sized(&f, &cat(&[&[0; 2], &d]))?; }
		let f = f64::from_bits((x as u64) << 48);
		if !f.is_nan() { sized(&f, &cat(&[&[0; 6], &d]))?; }
		sized(&Wrapping(x), &d)?;
		sized(&Saturating(s as isize), &d)?;
		sized(&Some(x), &cat(&[&[1], &d]))?;
		sized(&Some(x as usize), &cat(&[&[1], &d]))?;
		sized(&[x, !x], &cat(&[&d, &(!x).to_le_bytes()]))?;
		sized(&(x, x as usize as u8), &cat(&[&d, &[x as u8]]))?;
		sized(&Ok::<u16, u16>(x), &cat(&[&[0], &d]))?;
		sized(&Err::<u16, u16>(x), &cat(&[&[1], &d]))?;
		sized(&(x..!x), &cat(&[&d, &(!x).to_le_bytes()]))?;
		sized(&(x..=!x), &cat(&[&d, &(!x).to_le_bytes()]))?;
		sized(&(s..), &d)?;
		sized(&Bound::Included(x), &cat(&[&[0], &d]))?;
		sized(&Bound::Excluded(x), &cat(&[&[1], &d]))?;
		sized(&Cell::new(x), &d)?;
		sized(&RefCell::new(s), &d)?;
		sized(&Box::new(x), &d)?;
		sized(&Rc::new(x), &d)?;
		sized(&Arc::new(s), &d)?;
		sized(&Cow::<'static, u16>::Owned(x), &d)?;
		both(&vec![x], &cat(&[&[1, 0], &d]))?;
		both(&LinkedList::from([x]), &cat(&[&[1, 0], &d]))?;
		both(&HashSet::from([x]), &cat(&[&[1, 0], &d]))?;
		both(&HashMap::from([(x, x)]), &cat(&[&[1, 0], &d, &d]))?;
		sized(&[x].into_iter().collect::<SizedSlice<u16, 2>>(), &cat(&[&[1, 0], &d]))?;
		macro_rules! nz { ($t:ty, $v:expr, $d:expr) => { match NonZero::<$t>::new($v) {
			Some(v) => { sized(&v, $d)?; sized(&Some(v), &cat(&[&[1], $d]))? },
			None => invalid::<NonZero<$t>>($d)?,
		} } }
		nz!(u16, x, &d);
		nz!(i16, s, &d);
		nz!(usize, x as usize, &d);
		nz!(isize, s as isize, &d);
		nz!(u32, (x as u32) << 16, &((x as u32) << 16).to_le_bytes());
		nz!(i64, (s as i64) << 32, &((s as i64) << 32).to_le_bytes());
		nz!(u128, (x as u128) << 64, &((x as u128) << 64).to_le_bytes());
		if blk == 0 {
			let b = low as u8;
			sized(&b, &[b])?;
			sized(&(b as i8), &[b])?;
			nz!(u8, b, &[b]);
			nz!(i8, b as i8, &[b]);
			match b { 0 | 1 => sized(&(b == 1), &[b])?, _ => { let mut i = Input::new(std::slice::from_ref(&b)); let v = catch(|| bool::decode(&mut i)); if let Ok(Ok(v)) = v { ensure!(v, "the bool {b:#x} decodes to false"); } } }
		}
		// What does not fit.
		for high in [1usize, 2, 0x80, 0xFFFF, 0x1_0000, 1 << 32, (1 << 47) - 1] {
			let v = high << 16 | x as usize;
			refused(&v)?;
			refused(&Some(v))?;
			if let Some(v) = NonZero::new(v) { refused(&v)?; }
			refused(&Wrapping(v))?;
		}
		for v in [s as isize ^ 0x10000, s as isize ^ isize::MIN, (s as isize).wrapping_add(0x10000), (s as isize).wrapping_sub(0x10000), (s as isize).wrapping_shl(16) | 0x4000_0000_0000] {
			if v < -0x8000 || v > 0x7FFF { refused(&v)?; refused(&[1, v])?; if let Some(v) = NonZero::new(v) { refused(&v)?; } }
		}
	}
	Ok(())
}

/// Every character.
fn chars(g: &mut Gen, o: &mut Obs) -> R {
	let blk = g.draw(0x10F) as u32;
	o.nontrivial(true);
	o.key(&blk.to_le_bytes());
	o.describe(|| format!("every character of {:#x}..{:#x}", blk << 12, (blk + 1) << 12));
	for c in blk << 12..(blk + 1) << 12 {
		let Some(c) = char::from_u32(c) else { continue };
		let d = (c as u32).to_le_bytes();
		sized(&c, &d)?;
		sized(&Some(c), &cat(&[&[1], &d]))?;
		let mut u = [0; 4];
		let u = c.encode_utf8(&mut u);
		let t = cat(&[&[u.len() as u8, 0], u.as_bytes()]);
		let s = SizedStr::<4>::new(u).map_err(|e| format!("SizedStr::new({u:?}) gives {e:?}"))?;
		sized(&s, &t)?;
		both(&u.to_owned(), &t)?;
	}
	Ok(())
}

/// Every character in texts.
fn text_chars(g: &mut Gen, o: &mut Obs) -> R {
	let blk = g.draw(0x10F) as u32;
	o.nontrivial(true);
	o.key(&blk.to_le_bytes());
	o.describe(|| format!("texts of every character of {:#x}..{:#x}", blk << 12, (blk + 1) << 12));
	for c in blk << 12..(blk + 1) << 12 {
		let Some(c) = char::from_u32(c) else { continue };
		let mut u = [0; 4];
		let u: &str = c.encode_utf8(&mut u);
		let n = u.len();
		// Alone, and where it just fits or just does not.
		for pre in 0..=4usize {
			let x: String = "abcd"[..pre].chars().chain([c]).collect();
			let s: SizedStr<5> = x.chars().collect();
			let want = if pre + n <= 5 { &x[..] } else { &x[..pre] };
			ensure!(s.as_bytes() == want.as_bytes() && s.len() == want.len(), "collecting {x:?} gives {:?}", s.as_bytes());
			for (how, r) in [("new", SizedStr::<5>::new(&x)), ("from_utf8", SizedStr::<5>::from_utf8(x.as_bytes()))] {
				match r {
					Ok(s) => ensure!(pre + n <= 5 && s.as_bytes() == x.as_bytes() && s == x.as_str() && s.chars().eq(x.chars()), "{how}({x:?}) gives {:?}", s.as_bytes()),
					Err(_) => ensure!(pre + n > 5, "{how}({x:?}) fails"),
				}
			}
			let d = cat(&[&[x.len() as u8, 0], x.as_bytes()]);
			let (s, _) = dec::<SizedStr<5>>(&d)?;
			ensure!(s.as_ref().map(|s| s.as_bytes().to_vec()) == (pre + n <= 5).then(|| x.clone().into_bytes()), "{} decodes to {s:?}", hex(&d));
		}
	}
	Ok(())
}

/// Octets by their first two, with a number of continuations.
fn text_octets(g: &mut Gen, o: &mut Obs) -> R {
	let a = g.draw(255) as u8;
	o.nontrivial(a >= 0x80);
	o.key(&[a]);
	o.describe(|| format!("octets beginning with {a:02x}"));
	const NEXT: [u8; 12] = [0, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xE0, 0xFF];
	let one = |d: &[u8]| -> R {
		let want = std::str::from_utf8(d);
		match (SizedStr::<8>::from_utf8(d), &want) {
			(Ok(s), Ok(w)) => ensure!(s.as_bytes() == w.as_bytes(), "from_utf8({}) gives {:?}", hex(d), s.as_bytes()),
			(Err(oct::error::StringError::BadUtf8(e)), Err(w)) => {
				let at = w.valid_up_to();
				ensure!(e.index == at && e.value == d[at], "from_utf8({}) blames {:#x} at {} rather than {:#x} at {at}", hex(d), e.value, e.index, d[at]);
			},
			(r, _) => return Err(format!("from_utf8({}) gives {r:?}, from_utf8 of str {want:?}", hex(d))),
		}
		let w = cat(&[&[d.len() as u8, 0], d]);
		let (s, _) = dec::<SizedStr<8>>(&w)?;
		ensure!(s.is_some() == want.is_ok() && s.as_ref().is_none_or(|s| s.as_bytes() == d), "{} decodes to {s:?}", hex(&w));
		let (s, _) = dec::<String>(&w)?;
		ensure!(s.is_some() == want.is_ok() && s.as_ref().is_none_or(|s| s.as_bytes() == d), "{} decodes to {s:?}", hex(&w));
		Ok(())
	};
	for b in 0..=255u8 {
		one(&[a, b])?;
		one(&[0x61, a, b])?;
		for c in NEXT {
			one(&[a, b, c])?;
			if a >= 0xE0 { for d in NEXT { one(&[a, b, c, d])?; one(&[a, b, c, d, 0x80])?; } }
		}
	}
	one(&[a])?;
	one(&[0x61, 0x62, a])
}

/// Whether a length belongs to those that are tried of the large ones.
fn notable(n: usize) -> bool { n <= 1030 || n % 0x1000 <= 1 || n % 0x1000 == 0xFFF || n >= 0xFFF8 && n <= 0x10008 || (n + 1).is_power_of_two() || n.is_power_of_two() || (n - 1).is_power_of_two() || n % 1000 == 0 || in_dict(n as u128) }

/// Every length up to some, and those around edges.
fn lengths(g: &mut Gen, o: &mut Obs) -> R {
	let blk = g.draw(0x10010 >> 4) as usize;
	let ns: Vec<usize> = (blk << 4..(blk + 1) << 4).filter(|&n| notable(n)).collect();
	o.nontrivial(!ns.is_empty());
	o.key(&(blk as u32).to_le_bytes());
	o.describe(|| format!("collections of lengths {ns:?}"));
	for n in ns {
		let l = (n as u16).to_le_bytes();
		let fits = n <= 0xFFFF;
		let bytes: Vec<u8> = (0..n).map(|i| (i % 251) as u8 + 1).collect();
		let mut want = l.to_vec();
		want.extend(&bytes);
		let mut buf = vec![0xA5u8; n * 2 + 32];
		macro_rules! one { ($v:expr, $want:expr, $t:ty) => { {
			let r = enc($v, &mut buf).map_err(|m| format!("{} of length {n}: {m}", stringify!($t)))?;
			if !fits { ensure!(r.is_none(), "{} of length {n} encodes", stringify!($t)); }
			else {
				let w: &[u8] = $want;
				ensure!(r == Some(w.len()) && buf[..w.len()] == *w, "{} of length {n} encodes to {r:?} octets {}", stringify!($t), clip(&hex(&buf), 80));
				ensure!(buf[w.len()..].iter().all(|&b| b == 0xA5), "{} of length {n}: octets after the encoding change", stringify!($t));
			}
			buf.fill(0xA5);
		} } }
		macro_rules! back { ($v:expr, $want:expr, $t:ty) => { one!($v, $want, $t); if fits {
			let (x, at) = dec::<$t>($want)?;
			ensure!(x.as_ref() == Some($v) && at == $want.len(), "{} of length {n} does not come back (from {at} octets)", stringify!($t));
		} } }
		back!(&bytes, &want, Vec<u8>);
		one!(&bytes[..], &want, [u8]);
		one!(&LinkedList::from_iter(bytes.iter().copied()), &want, LinkedList<u8>);
		back!(&vec![(); n], &l, Vec<()>);
		let c = CString::new(bytes.clone()).unwrap();
		back!(&c, &want, CString);
		one!(c.as_c_str(), &want, CStr);
		let text: String = (0..n).map(|i| (b' ' + (i % 90) as u8) as char).collect();
		let wt = cat(&[&l, text.as_bytes()]);
		back!(&text, &wt, String);
		one!(text.as_str(), &wt, str);
		back!(&bytes.iter().copied().collect::<LinkedList<u8>>(), &want, LinkedList<u8>);
		if n <= 1030 {
			let w: Vec<u16> = (0..n).map(|i| i as u16 * 3).collect();
			let ww: Vec<u8> = l.into_iter().chain(w.iter().flat_map(|x| x.to_le_bytes())).collect();
			back!(&w, &ww, Vec<u16>);
			one!(&w[..], &ww, [u16]);
			let s: HashSet<u16> = w.iter().copied().collect();
			let r = enc(&s, &mut buf)?;
			ensure!(r == Some(2 + 2 * n) && buf[..2] == l, "a set of {n} elements encodes to {r:?} octets");
			let (x, _) = dec::<HashSet<u16>>(&buf[..2 + 2 * n])?;
			ensure!(x.as_ref() == Some(&s), "a set of {n} elements does not come back");
			buf.fill(0xA5);
			let m: HashMap<u16, bool> = w.iter().map(|&x| (x, x % 2 == 0)).collect();
			let mut big = vec![0xA5; 3 * n + 8];
			let r = enc(&m, &mut big)?;
			ensure!(r == Some(2 + 3 * n) && big[..2] == l, "a map of {n} entries encodes to {r:?} octets");
			let (x, _) = dec::<HashMap<u16, bool>>(&big[..2 + 3 * n])?;
			ensure!(x.as_ref() == Some(&m), "a map of {n} entries does not come back");
			let s: SizedSlice<u8, 1024> = bytes.iter().copied().collect();
			if n <= 1024 { one!(&s, &want, SizedSlice<u8, 1024>); }
			let (x, _) = dec::<SizedSlice<u8, 1024>>(&want)?;
			ensure!(x.is_some() == (n <= 1024) && x.as_ref().is_none_or(|x| x.as_slice() == bytes), "a SizedSlice of {n} octets does not come back");
			let s: SizedStr<1024> = text.chars().collect();
			ensure!(s.as_str() == &text[..n.min(1024)], "collecting {n} characters gives {} octets", s.len());
			if n <= 1024 { one!(&s, &wt, SizedStr<1024>); }
			let (x, _) = dec::<SizedStr<1024>>(&wt)?;
			ensure!(x.is_some() == (n <= 1024) && x.as_ref().is_none_or(|x| x.as_str() == text), "a SizedStr of {n} octets does not come back");
		}
	}
	Ok(())
}

/// Every capacity of a list of them: bounds, full and overfull contents.
fn capacities(g: &mut Gen, o: &mut Obs) -> R {
	fn one<const N: usize>(o: &mut Obs) -> R {
		o.describe(|| format!("capacity {N}"));
		o.key(&N.to_le_bytes());
		o.nontrivial(N > 0);
		let max = [<SizedStr<N>>::MAX_ENCODED_SIZE, <SizedSlice<u8, N>>::MAX_ENCODED_SIZE, <SizedSlice<(), N>>::MAX_ENCODED_SIZE, <SizedSlice<u32, N>>::MAX_ENCODED_SIZE,
			<[u16; N]>::MAX_ENCODED_SIZE, <[Option<bool>; N]>::MAX_ENCODED_SIZE, <SizedSlice<[u8; N], 2>>::MAX_ENCODED_SIZE];
		let want = [2 + N, 2 + N, 2, 2 + 4 * N, 2 * N, 2 * N, 2 + 2 * N];
		ensure!(max == want, "the bounds at {N} are {max:?} rather than {want:?}");
		let full: Vec<u8> = (0..N).map(|i| b'a' + (i % 26) as u8).collect();
		let d = cat(&[&(N as u16).to_le_bytes(), &full]);
		let s = SizedStr::<N>::from_utf8(&full).map_err(|e| format!("from_utf8 at {N}: {e:?}"))?;
		let l = SizedSlice::<u8, N>::new(&full).map_err(|e| format!("new at {N}: {e:?}"))?;
		ensure!(s.is_full() && l.is_full() && s.len() == N && l.len() == N, "full contents at {N} are not");
		// Exactly the bound must do.
		let mut b = vec![0xA5; max[0]];
		ensure!(enc(&s, &mut b)? == Some(2 + N) && b == d, "a full SizedStr at {N} encodes as {}", clip(&hex(&b), 80));
		let mut b = vec![0xA5; max[1]];
		ensure!(enc(&l, &mut b)? == Some(2 + N) && b == d, "a full SizedSlice at {N} encodes as {}", clip(&hex(&b), 80));
		ensure!(dec::<SizedStr<N>>(&d)?.0 == Some(s) && dec::<SizedSlice<u8, N>>(&d)?.0 == Some(l), "full contents at {N} do not come back");
		// One more never does.
		let more = cat(&[&full, b"z"]);
		ensure!(SizedStr::<N>::from_utf8(&more).is_err() && SizedSlice::<u8, N>::new(&more).is_err(), "one more than {N} is taken");
		let d = cat(&[&(N as u16 + 1).to_le_bytes(), &more]);
		ensure!(dec::<SizedStr<N>>(&d)?.0.is_none() && dec::<SizedSlice<u8, N>>(&d)?.0.is_none(), "one more than {N} is decoded");
		let t: SizedStr<N> = more.iter().map(|&b| b as char).collect();
		let l: SizedSlice<u8, N> = more.iter().copied().collect();
		ensure!(t.as_bytes() == full && l.as_slice() == full, "collecting one more than {N} gives {} and {}", t.len(), l.len());
		// And from both ends.
		let mut i = l.into_iter();
		for k in 0..N { let x = if k % 3 == 1 { i.next_back() } else { i.next() }; ensure!(x.is_some() && i.len() == N - 1 - k, "iterating at {N} ends after {k}"); }
		ensure!(i.next().is_none() && i.next_back().is_none(), "iterating at {N} does not end");
		Ok(())
	}
	macro_rules! go { ($k:expr; $($n:literal)*) => { { let fs: &[fn(&mut Obs) -> R] = &[$(one::<$n>),*]; fs[$k % fs.len()](o) } } }
	let k = g.draw(CAPS - 1) as usize;
	go!(k; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40
		47 48 49 62 63 64 65 66 95 96 97 99 100 101 126 127 128 129 130 191 192 193 199 200 201 239 240 241 253 254 255 256 257 258 300 383 384 385 400 500
		510 511 512 513 600 700 767 768 769 800 900 999 1000 1001 1023 1024 1025 1500 2000 2047 2048 2049 3000 4095 4096 4097)
}
const CAPS: u64 = 107;

/// Arrays and containers of more items than any count can tell: arrays have none.
fn huge(g: &mut Gen, o: &mut Obs) -> R {
	fn one<const N: usize>(o: &mut Obs) -> R {
		o.describe(|| format!("arrays of {N}"));
		o.key(&N.to_le_bytes());
		let max = [<[u8; N]>::MAX_ENCODED_SIZE, <[u16; N]>::MAX_ENCODED_SIZE, <[(); N]>::MAX_ENCODED_SIZE, <[[u8; 3]; N]>::MAX_ENCODED_SIZE, <[Option<u64>; N]>::MAX_ENCODED_SIZE,
			<[u8; N] as SizedEncode>::MAX_ENCODED_SIZE, <([u8; N], [u8; 1])>::MAX_ENCODED_SIZE, <Option<[u16; N]>>::MAX_ENCODED_SIZE, <[SizedStr<2>; N]>::MAX_ENCODED_SIZE,
			<SizedStr<N>>::MAX_ENCODED_SIZE, <SizedSlice<u32, N>>::MAX_ENCODED_SIZE];
		let want = [N, 2 * N, 0, 3 * N, 9 * N, N, N + 1, 2 * N + 1, 4 * N, 2 + N, 2 + 4 * N];
		ensure!(max[..9] == want[..9], "the bounds of {N} items are {max:?} rather than {want:?}");
		// No content of more than 65535 items is encoded at all.
		for k in [9, 10] { let item = [1, 4][k - 9]; ensure!(max[k] >= 2 + item * N.min(65535), "the bound of a container of {N} items is {}", max[k]); }
		let mut v: Box<[u8; N]> = vec![0u8; N].try_into().unwrap();
		for (i, x) in v.iter_mut().enumerate() { *x = (i ^ i >> 8 ^ i >> 16) as u8 }
		let mut b = vec![0xA5; N + 3];
		ensure!(enc(&*v, &mut b)? == Some(N) && b[..N] == v[..] && b[N..] == [0xA5; 3], "an array of {N} octets is not encoded as itself");
		b[N..].fill(0xEE);
		let mut i = Input::new(&b);
		let w = catch(|| Box::<[u8; N]>::decode(&mut i)).map_err(|p| format!("decoding an array of {N} octets panicked: {p}"))?;
		ensure!(w.as_ref().is_ok_and(|w| w == &v) && i.position() == N, "an array of {N} octets does not come back");
		let w: Box<[u16; N]> = vec![0x1234u16; N].try_into().unwrap();
		let mut b = vec![0xA5; 2 * N];
		ensure!(enc(&*w, &mut b)? == Some(2 * N) && b.chunks(2).all(|x| x == [0x34, 0x12]), "an array of {N} words is not encoded as itself");
		ensure!(dec::<[(); N]>(&[])? == (Some([(); N]), 0), "an array of {N} units does not come back");
		Ok(())
	}
	o.nontrivial(true);
	let k = g.draw(7) as usize;
	let fs: &[fn(&mut Obs) -> R] = &[one::<32768>, one::<65534>, one::<65535>, one::<65536>, one::<65537>, one::<65600>, one::<70000>, one::<131073>];
	fs[k % fs.len()](o)
}

/// Tuples of every width, of octets and words, with one item unlike the others at every place.
fn tuples(g: &mut Gen, o: &mut Obs) -> R {
	let x = g.draw(255) as u8;
	o.describe(|| format!("tuples from {x}"));
	o.key(&[x]);
	o.nontrivial(x > 0);
	let mut n = x;
	let mut next = move || { n = n.wrapping_mul(31).wrapping_add(7); n };
	trait Item: Sized { fn make(x: u8) -> Self; fn put(&self, d: &mut Vec<u8>); }
	impl Item for u8 { fn make(x: u8) -> Self { x } fn put(&self, d: &mut Vec<u8>) { d.push(*self) } }
	impl Item for u16 { fn make(x: u8) -> Self { u16::from(x) * 0x101 ^ 0x5A00 } fn put(&self, d: &mut Vec<u8>) { d.extend(self.to_le_bytes()) } }
	macro_rules! t { ($($n:tt $t:ty),*) => { {
		let v: ($($t,)*) = ($(<$t>::make(next()),)*);
		let mut want = Vec::new();
		$(v.$n.put(&mut want);)*
		sized(&v, &want)?;
		ensure!(<($($t,)*)>::MAX_ENCODED_SIZE == want.len(), "the bound of {} is not {}", name::<($($t,)*)>(), want.len());
	} } }
	// Every place $b, of those before ($a) and after it.
	macro_rules! places { ([$($a:tt)*]) => {}; ([$($a:tt)*] $b:tt $($c:tt)*) => {
		t!($($a u8,)* $b u16 $(, $c u8)*);
		t!($($a u16,)* $b u8 $(, $c u16)*);
		places!([$($a)* $b] $($c)*);
	} }
	macro_rules! widths { ($($n:tt)*) => {
		t!($($n u8),*);
		t!($($n u16),*);
		places!([] $($n)*);
	} }
	widths!(0); widths!(0 1); widths!(0 1 2); widths!(0 1 2 3); widths!(0 1 2 3 4); widths!(0 1 2 3 4 5); widths!(0 1 2 3 4 5 6); widths!(0 1 2 3 4 5 6 7);
	widths!(0 1 2 3 4 5 6 7 8); widths!(0 1 2 3 4 5 6 7 8 9); widths!(0 1 2 3 4 5 6 7 8 9 10); widths!(0 1 2 3 4 5 6 7 8 9 10 11);
	Ok(())
}

/// Raw operations at every place and of every small size.
fn places(g: &mut Gen, o: &mut Obs) -> R {
	let pos = g.draw(299) as usize;
	o.nontrivial(pos > 0);
	o.key(&(pos as u32).to_le_bytes());
	o.describe(|| format!("operations at position {pos}"));
	let src: Vec<u8> = (0..700).map(|i| (i * 7 + 3) as u8).collect();
	for rem in [0usize, 1, 2, 3, 7, 8, 15, 16, 17, 63, 64, 127, 128, 255, 256, 300] {
		let cap = pos + rem;
		for count in (0..=18).chain([rem.saturating_sub(1), rem, rem + 1, 2 * rem, 127, 128, 255, 256, 257]) {
			let mut b = vec![0xA5u8; cap];
			{
				let mut out = Output::new(&mut b);
				for p in [pos / 2, pos - pos / 2] { ensure!(out.write(&src[..p]).is_ok(), "writing {p} octets of {cap} fails"); }
				ensure!(out.position() == pos && out.remaining() == rem && out.capacity() == cap, "after {pos} octets the position is {}", out.position());
				let r = out.write(&src[..count]);
				let now = if count <= rem { pos + count } else { pos };
				match r {
					Ok(()) => ensure!(count <= rem, "writing {count} octets at {pos} of {cap} succeeds"),
					Err(e) => ensure!(count > rem && e.capacity == cap && e.position == pos && e.count == count, "writing {count} octets at {pos} of {cap} fails with {e:?}"),
				}
				ensure!(out.position() == now && out.remaining() == cap - now && out.capacity() == cap && out.as_slice().len() == now, "writing {count} octets at {pos} of {cap} leaves the position {}", out.position());
			}
			let mut want: Vec<u8> = cat(&[&src[..pos / 2], &src[..pos - pos / 2]]);
			if count <= rem { want.extend(&src[..count]); }
			want.resize(cap, 0xA5);
			ensure!(b == want, "writing {count} octets at {pos} of {cap} leaves {}", clip(&hex(&b), 100));

			let buf = &src[..cap];
			let mut i = Input::new(buf);
			ensure!(i.read(pos).is_ok_and(|x| x == &buf[..pos]), "reading {pos} octets of {cap} fails");
			let now = if count <= rem { pos + count } else { pos };
			match i.read(count) {
				Ok(x) => ensure!(count <= rem && x == &buf[pos..now] && std::ptr::eq(x.as_ptr(), buf[pos..].as_ptr()), "reading {count} octets at {pos} of {cap} gives {}", hex(x)),
				Err(e) => ensure!(count > rem && e.capacity == cap && e.position == pos && e.count == count, "reading {count} octets at {pos} of {cap} fails with {e:?}"),
			}
			ensure!(i.position() == now && i.remaining() == cap - now && i.capacity() == cap, "reading {count} octets at {pos} of {cap} leaves the position {}", i.position());
			let mut i = Input::new(buf);
			let _ = i.read(pos);
			let mut to = vec![0x5A; count];
			match i.read_into(&mut to) {
				Ok(()) => ensure!(count <= rem && to == buf[pos..now], "reading {count} octets at {pos} of {cap} gives {}", hex(&to)),
				Err(e) => ensure!(count > rem && e.capacity == cap && e.position == pos && e.count == count && to.iter().all(|&b| b == 0x5A), "reading {count} octets at {pos} of {cap} fails with {e:?} and {}", hex(&to)),
			}
			ensure!(i.position() == now && i.remaining() == cap - now, "reading {count} octets into a buffer at {pos} of {cap} leaves the position {}", i.position());
		}
	}
	Ok(())
}

/// Typed values at every place, with every shortage.
fn typed_places(g: &mut Gen, o: &mut Obs) -> R {
	let pos = g.draw(299) as usize;
	o.nontrivial(pos > 0);
	o.key(&(pos as u32).to_le_bytes());
	o.describe(|| format!("values at position {pos}"));
	fn one<T: Encode + Decode + PartialEq + Debug>(v: &T, pos: usize) -> R {
		let mut d = [0u8; 64];
		let Some(n) = enc(v, &mut d)? else { return Err(format!("{v:?} does not encode")) };
		for room in (0..=n).chain([n + 1, n + 7]) {
			let mut b = vec![0xA5u8; pos + room];
			let mut out = Output::new(&mut b);
			let fill = vec![0x3C; pos];
			ensure!(out.write(&fill).is_ok(), "cannot fill");
			let r = catch(|| v.encode(&mut out).is_ok());
			if room >= n {
				ensure!(r == Ok(true) && out.position() == pos + n, "{} {v:?} at {pos} with room for {room} of {n}: {r:?}, position {}", name::<T>(), out.position());
				ensure!(b[..pos] == fill && b[pos..pos + n] == d[..n] && b[pos + n..].iter().all(|&x| x == 0xA5), "{} {v:?} at {pos} with room for {room} of {n} leaves {}", name::<T>(), hex(&b[pos..]));
				let mut i = Input::new(&b);
				let _ = i.read(pos);
				let w = catch(|| T::decode(&mut i)).map_err(|p| format!("decoding {} at {pos} panicked: {p}", name::<T>()))?.ok();
				ensure!(w.as_ref() == Some(v) && i.position() == pos + n, "{} {v:?} at {pos} comes back as {w:?}, position {}", name::<T>(), i.position());
			} else {
				ensure!(r.is_err() , "{} {v:?} at {pos} with room for {room} of {n} does not panic: {r:?}", name::<T>());
				ensure!(b[..pos] == fill, "{} {v:?} at {pos} with room for {room} of {n} changes what is before", name::<T>());
				// Nor is it found where it is cut short.
				let mut e = fill.clone();
				e.extend(&d[..room]);
				let mut i = Input::new(&e);
				let _ = i.read(pos);
				let w = catch(|| T::decode(&mut i).ok());
				ensure!(!matches!(w, Ok(Some(_))), "{} {v:?} is decoded from {room} of its {n} octets at {pos}", name::<T>());
			}
		}
		Ok(())
	}
	one(&0x01u8, pos)?;
	one(&0x0102u16, pos)?;
	one(&0x01020304u32, pos)?;
	one(&0x0102030405060708u64, pos)?;
	one(&-2isize, pos)?;
	one(&(), pos)?;
	one(&true, pos)?;
	one(&None::<u32>, pos)?;
	one(&Some(7u16), pos)?;
	one(&[1u8, 2, 3], pos)?;
	one(&[0u16; 0], pos)?;
	one(&(1u8, 2u32), pos)?;
	one(&String::new(), pos)?;
	one(&"text".to_owned(), pos)?;
	one(&Vec::<u16>::new(), pos)?;
	one(&vec![1u16, 2], pos)?;
	one(&SizedSlice::<u8, 4>::new(&[1, 2, 3]).unwrap(), pos)?;
	one(&SizedStr::<4>::new("abc").unwrap(), pos)?;
	one(&CString::new("abc").unwrap(), pos)?;
	one(&IpAddr::from([1, 2, 3, 4]), pos)?;
	one(&Ok::<u8, u16>(1), pos)?;
	one(&Err::<u8, u16>(1), pos)?;
	one(&Duration::new(1, 2), pos)
}

/// Every octet of every address, and every port.
fn addresses(g: &mut Gen, o: &mut Obs) -> R {
	let b = g.draw(255) as u8;
	o.nontrivial(true);
	o.key(&[b]);
	o.describe(|| format!("addresses with the octet {b:#x}"));
	for at in 0..16 {
		for base in [0u8, 0x11, 0xFF, 0xFE] {
			let mut x = [base; 16];
			x[at] = b;
			let six = Ipv6Addr::from(x);
			let mut rev = x;
			rev.reverse();
			sized(&six, &rev)?;
			sized(&IpAddr::V6(six), &cat(&[&[6], &rev]))?;
			let (flow, scope) = (u32::from_le_bytes([b, base, !b, at as u8]), u32::from_le_bytes([at as u8, !b, base, b]));
			let s = SocketAddrV6::new(six, b as u16, flow, scope);
			let w = cat(&[&rev, &(b as u16).to_le_bytes(), &flow.to_le_bytes(), &scope.to_le_bytes()]);
			sized(&s, &w)?;
			sized(&SocketAddr::V6(s), &cat(&[&[6], &w]))?;
			if at < 4 {
				let four = Ipv4Addr::new(x[0], x[1], x[2], x[3]);
				let r4 = [x[3], x[2], x[1], x[0]];
				sized(&four, &r4)?;
				sized(&IpAddr::V4(four), &cat(&[&[4], &r4]))?;
				for p in [b as u16, (b as u16) << 8, 0xFF00 | b as u16] {
					let s = SocketAddrV4::new(four, p);
					let w = cat(&[&r4, &p.to_le_bytes()]);
					sized(&s, &w)?;
					sized(&SocketAddr::V4(s), &cat(&[&[4], &w]))?;
				}
				let mapped = four.to_ipv6_mapped();
				sized(&IpAddr::V6(mapped), &cat(&[&[6], &mapped.to_bits().to_le_bytes()]))?;
			}
		}
	}
	for low in 0..=255u8 {
		let p = u16::from_le_bytes([low, b]);
		sized(&SocketAddrV4::new(Ipv4Addr::LOCALHOST, p), &[1, 0, 0, 127, low, b])?;
	}
	for v in [0u8, 1, 2, 3, 5, 7, b] {
		if v != 4 && v != 6 { invalid::<IpAddr>(&cat(&[&[v], &[b; 18]]))?; invalid::<SocketAddr>(&cat(&[&[v], &[b; 30]]))?; }
	}
	Ok(())
}

/// Every second around the epoch, and around every power of two.
fn seconds(g: &mut Gen, o: &mut Obs) -> R {
	let blk = g.draw(599);
	o.key(&blk.to_le_bytes());
	o.nontrivial(true);
	let ss: Vec<i64> = if blk < 536 { let a = (blk as i64 - 268) << 8; (a..a + 256).collect() } else {
		let p = 1i64.checked_shl(blk as u32 - 536).unwrap_or(0);
		(-3..=3).flat_map(|d| [p.saturating_add(d), p.wrapping_neg().saturating_add(d)]).collect()
	};
	o.describe(|| format!("times and durations of {}..={} s", ss[0], ss[ss.len() - 1]));
	for s in ss {
		// (Time points that the platform cannot hold are left out.)
		let at = |s: i64, n: u32| if s >= 0 { SystemTime::UNIX_EPOCH.checked_add(Duration::new(s as u64, n)) }
			else if n == 0 { SystemTime::UNIX_EPOCH.checked_sub(Duration::from_secs(s.unsigned_abs())) }
			else { SystemTime::UNIX_EPOCH.checked_sub(Duration::new((s + 1).unsigned_abs(), 1_000_000_000 - n)) };
		if let Some(t) = at(s, 0) { sized(&t, &s.to_le_bytes())?; }
		for n in [1u32, 500_000_000, 999_999_999] {
			let Some(t) = at(s, n) else { continue };
			let mut b = [0; 8];
			ensure!(enc(&t, &mut b)? == Some(8), "{s} s and {n} ns do not encode");
			let k = i64::from_le_bytes(b);
			ensure!(k == s || k == s + 1, "the time of {s} s and {n} ns encodes as {k}");
			// Before the epoch seconds count towards it, after it as well.
			let (d, _) = dec::<SystemTime>(&b)?;
			ensure!(d == at(k, 0), "{k} decodes to {d:?}");
		}
		let u = s.unsigned_abs();
		for n in [0u32, 1, 255, 256, 65535, 65536, 999_999_999] {
			sized(&Duration::new(u, n), &cat(&[&u.to_le_bytes(), &n.to_le_bytes()]))?;
		}
		// More nanoseconds than a second has carry over.
		for n in [1_000_000_000u32, 1_999_999_999, 2_000_000_000, u32::MAX] {
			if u > u64::MAX - 5 { continue }
			let d = cat(&[&u.to_le_bytes(), &n.to_le_bytes()]);
			let (x, at) = dec::<Duration>(&d)?;
			ensure!(x == Some(Duration::new(u, n)) && at == 12, "{} decodes to {x:?}", hex(&d));
		}
	}
	Ok(())
}

/// All pairs of short sequences, with all leftovers.
fn pairs(g: &mut Gen, o: &mut Obs) -> R {
	fn seq(mut k: usize) -> Vec<u8> { let mut v = Vec::new(); while k > 0 { k -= 1; v.push((k % 3) as u8); k /= 3; } v }
	let a = seq(g.draw(120) as usize);
	o.nontrivial(!a.is_empty());
	o.key(&a);
	o.describe(|| format!("{a:?} beside every sequence of up to four"));
	fn hash<T: Hash + ?Sized>(x: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish() }
	// (What is beyond the length is left over from longer contents.)
	fn left<const N: usize>(d: &[u8], old: u8) -> SizedSlice<u8, N> { let mut s: SizedSlice<u8, N> = [old; N].into_iter().collect(); s.copy_from_slice(d); s }
	fn text<const N: usize>(d: &[u8], old: &str) -> SizedStr<N> {
		let t: String = d.iter().map(|&b| (b'a' + b) as char).collect();
		let mut b = [0u8; N];
		for (i, x) in b.iter_mut().enumerate() { *x = old.as_bytes()[i % old.len()] }
		b[..t.len()].copy_from_slice(t.as_bytes());
		unsafe { SizedStr::from_raw_parts(b, t.len()) }
	}
	for k in 0..=120 {
		let b = seq(k);
		for (i, j) in [(0u8, 2u8), (1, 1), (2, 0)] {
			let (x, y, z) = (left::<4>(&a, i), left::<4>(&b, j), left::<7>(&b, j));
			let (s, t) = (&a[..], &b[..]);
			ensure!((x == y) == (s == t) && (x == z) == (s == t) && (z == x) == (s == t) && (x == t) == (s == t), "{a:?} == {b:?} with leftovers {i} and {j}: {} {} {}", x == y, x == z, x == t);
			ensure!((x == b) == (s == t), "{a:?} == {b:?} as a Vec: {}", x == b);
			ensure!(x.cmp(&y) == s.cmp(t) && x.partial_cmp(&y) == s.partial_cmp(t) && x.partial_cmp(&z) == s.partial_cmp(t) && (x < y) == (s < t) && (x >= z) == (s >= t), "{a:?} compares with {b:?} as {:?}", x.cmp(&y));
			if s == t { ensure!(hash(&x) == hash(&y) && hash(&y) == hash(&z) && hash(&x) == hash(s), "{a:?} hashes by its capacity or leftovers"); }
			let (p, q, r) = (text::<4>(&a, "zy"), text::<4>(&b, "é"), text::<7>(&b, "ab"));
			let (u, v): (String, String) = (a.iter().map(|&b| (b'a' + b) as char).collect(), b.iter().map(|&b| (b'a' + b) as char).collect());
			ensure!((p == q) == (u == v) && (p == r) == (u == v) && (r == p) == (u == v) && (p == v.as_str()) == (u == v), "{u:?} == {v:?}: {} {}", p == q, p == r);
			ensure!((p == v) == (u == v), "{u:?} == {v:?} as a String: {}", p == v);
			ensure!(p.cmp(&q) == u.cmp(&v) && p.partial_cmp(&r) == u.partial_cmp(&v), "{u:?} compares with {v:?} as {:?}", p.cmp(&q));
			if u == v { ensure!(hash(&p) == hash(&q) && hash(&q) == hash(&r) && hash(&p) == hash(u.as_str()), "{u:?} hashes by its capacity or leftovers"); }
		}
	}
	Ok(())
}

/// Slots of every small capacity, with contents of every small length.
fn slots(g: &mut Gen, o: &mut Obs) -> R {
	let cap = g.draw(139) as usize;
	o.nontrivial(cap > 2);
	o.key(&(cap as u32).to_le_bytes());
	o.describe(|| format!("a slot of {cap} octets"));
	let mut s = Slot::<String>::with_capacity(cap);
	ensure!(s.capacity() == cap && s.is_empty() && s.len() == 0, "a new slot of {cap} has capacity {} and {} octets", s.capacity(), s.len());
	let mut was: Vec<u8> = Vec::new();
	for n in (0..=cap + 2).chain((0..=cap + 2).rev().step_by(3)) {
		let t: String = (0..n).map(|i| (b'a' + ((i + n) % 26) as u8) as char).collect();
		let want = cat(&[&(n as u16).to_le_bytes(), t.as_bytes()]);
		let r = catch(|| s.write(&t).is_ok());
		if want.len() <= cap {
			ensure!(r == Ok(true), "writing {n} characters into a slot of {cap} gives {r:?}");
			was = want;
		} else {
			ensure!(r.is_err(), "writing {n} characters into a slot of {cap} gives {r:?}");
			// (What the slot holds then is not promised: it is written anew.)
			s.copy_from_slice(&was);
		}
		ensure!(s.as_slice() == was && s.len() == was.len() && s.is_full() == (was.len() == cap) && s.is_empty() == was.is_empty() && s.capacity() == cap, "a slot of {cap} holds {} rather than {}", hex(s.as_slice()), hex(&was));
		if was.len() >= 2 { let x = catch(|| s.read().ok()); ensure!(x.as_ref().is_ok_and(|x| x.as_ref().is_some_and(|x| x.as_bytes() == &was[2..])), "a slot of {} reads {x:?}", hex(&was)); }
		let raw: Vec<u8> = (0..n).map(|i| (i * 5 + 1) as u8).collect();
		if n <= cap {
			s.copy_from_slice(&raw);
			ensure!(s.as_slice() == raw && s.len() == n && s.is_full() == (n == cap), "copying {n} octets into a slot of {cap} gives {}", hex(s.as_slice()));
			for k in [0, n / 2, n] {
				s.set_len(k);
				ensure!(s.as_slice() == &raw[..k] && s.len() == k, "a slot cut to {k} has {}", hex(s.as_slice()));
			}
			s.copy_from_slice(&was);
		} else {
			ensure!(catch(|| s.copy_from_slice(&raw)).is_err(), "copying {n} octets into a slot of {cap} does not panic");
			s.copy_from_slice(&was);
		}
	}
	Ok(())
}

/// Every range of what an iterator gives from either end, then cloned.
fn ends(g: &mut Gen, o: &mut Obs) -> R {
	let n = g.draw(39) as usize;
	o.nontrivial(n > 1);
	o.key(&(n as u32).to_le_bytes());
	o.describe(|| format!("an iterator over {n} elements"));
	let all: Vec<u16> = (0..n as u16).map(|i| i * 3).collect();
	for front in 0..=n { for back in 0..=n - front {
		let s: SizedSlice<u16, 40> = all.iter().copied().collect();
		let mut i = s.into_iter();
		for k in 0..front { let x = i.next(); ensure!(x == Some(all[k]), "next gives {x:?} rather than {}", all[k]); }
		for k in 0..back { let x = i.next_back(); ensure!(x == Some(all[n - 1 - k]), "next_back gives {x:?} rather than {}", all[n - 1 - k]); }
		let left = &all[front..n - back];
		ensure!(i.as_slice() == left && i.len() == left.len() && i.size_hint() == (left.len(), Some(left.len())) && i.as_mut_slice() == left, "{front} and {back} of {n} leave {:?} rather than {left:?}", i.as_slice());
		let c = i.clone();
		ensure!(c.as_slice() == left && c.clone().count() == left.len() && i.as_slice() == left, "the clone of {left:?} is {:?}", c.as_slice());
		ensure!(c.clone().eq(left.iter().copied()) && c.rev().eq(left.iter().rev().copied()) && i.clone().last() == left.last().copied(), "{left:?} is not what a clone gives");
		for _ in 0..2 { if left.is_empty() { ensure!(i.next().is_none() && i.next_back().is_none() && i.len() == 0, "an empty iterator goes on"); } }
	} }
	Ok(())
}

pub fn codec_units() -> Vec<Unit> {
	vec![
		exhaustive("C01", "all small values: integers", 256, words),
		exhaustive("C01", "all small values: characters", 0x110, chars),
		exhaustive("C01", "all lengths", (0x10010 >> 4) + 1, lengths),
		exhaustive("C01", "all addresses, by octet", 256, addresses),
		exhaustive("C02", "layout of all small values: integers", 256, words),
		exhaustive("C02", "layout of all addresses, by octet", 256, addresses),
		exhaustive("C02", "layout at all lengths", (0x10010 >> 4) + 1, lengths),
		exhaustive("C01", "tuples of every width", 256, tuples),
		exhaustive("C02", "layout of tuples of every width", 256, tuples),
		exhaustive("C03", "tuples of every width, bounds", 256, tuples),
		exhaustive("C06", "tuples of every width, encoding", 256, tuples),
		exhaustive("C07", "tuples of every width, decoding", 256, tuples),
		exhaustive("C01", "huge arrays", 8, huge),
		exhaustive("C02", "layout of huge arrays", 8, huge),
		exhaustive("C03", "huge arrays, bounds", 8, huge),
		exhaustive("C03", "capacities", CAPS, capacities),
		exhaustive("C04", "octets as text", 256, text_octets),
		exhaustive("C05", "all small values: refusals", 256, words),
		exhaustive("C10", "equivalent forms at all lengths", (0x10010 >> 4) + 1, lengths),
		exhaustive("C05", "all lengths: refusals", (0x10010 >> 4) + 1, lengths),
		exhaustive("C06", "all places", 300, typed_places),
		exhaustive("C07", "all places, decoding", 300, typed_places),
		exhaustive("C20", "all small times", 600, seconds),
	]
}

pub fn container_units() -> Vec<Unit> {
	vec![
		exhaustive("C08", "all places: raw operations", 300, places),
		exhaustive("C08", "all places: values", 300, typed_places),
		exhaustive("C12", "all small slots", 140, slots),
		exhaustive("C13", "all capacities", CAPS, capacities),
		exhaustive("C14", "all characters", 0x110, text_chars),
		exhaustive("C14", "all octets by the first two", 256, text_octets),
		exhaustive("C15", "all ends", 40, ends),
		exhaustive("C21", "all short pairs", 121, pairs),
	]
}
