//! C14: `SizedStr` against `String`.

use crate::engine::{catch, unit, Gen, Obs, Unit};
use crate::ensure;
use crate::model::{corrupt_text, gen_char, hex, utf8_prefix};
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use oct::error::{CollectionDecodeError, StringError};
use oct::{SizedSlice, SizedStr};
use std::borrow::{Borrow, BorrowMut};
use std::error::Error;
use std::ffi::OsStr;
use std::net::ToSocketAddrs;
use std::path::Path;
use std::str::FromStr;

type R = Result<(), String>;

#[derive(Debug, PartialEq)]
enum Why { Long { cap: usize, len: usize }, Octet { value: u8, index: usize }, Other }

fn why(e: &StringError) -> Why {
	match e {
		StringError::SmallBuffer(e) => Why::Long { cap: e.capacity, len: e.len },
		StringError::BadUtf8(e) => Why::Octet { value: e.value, index: e.index },
		_ => Why::Other,
	}
}

/// What `bytes` may be refused for, if anything.
fn faults(bytes: &[u8], cap: usize) -> Vec<Why> {
	let mut v = Vec::new();
	if bytes.len() > cap { v.push(Why::Long { cap, len: bytes.len() }) }
	let p = utf8_prefix(bytes);
	if p < bytes.len() { v.push(Why::Octet { value: bytes[p], index: p }) }
	v
}

pub fn gen_text(g: &mut Gen, cap: usize) -> String {
	let mut s = String::new();
	let want = if let Some(n) = g.fancy_in(0, 2 * cap + 9) { n } else { match g.draw(6) {
		0 => 0,
		1 => cap,
		2 => cap + g.range(1, 5),
		3 => cap.saturating_sub(1 + g.below(4)),
		4 => g.range(0, 2 * cap + 3),
		_ => g.range(0, cap),
	} };
	let style = g.draw(3);
	// What some would trim, normalise or take for a mark.
	const ODD: [char; 16] = ['\u{FEFF}', ' ', '\n', '\r', '\t', '\0', '\u{A0}', '\u{85}', '\u{2028}', '\u{200B}', '\u{301}', '\u{FFFD}', '\u{FFFE}', '"', '\\', '\u{7F}'];
	let (first, last) = (g.chance(1, 8), g.chance(1, 8));
	if first && want > 0 { s.push(*g.pick(&ODD)) }
	while s.len() < want {
		let c = match style {
			0 => char::from_u32(gen_char(g)).unwrap(),
			1 => (b'a' + g.draw(25) as u8) as char,
			2 => *g.pick(&['a', '\u{E9}', '\u{20AC}', '\u{1F44D}']),
			_ => *g.pick(&['\u{10FFFF}', '\u{D7FF}', '\u{E000}', '\u{80}', '\0', '\u{7F}', '\u{7FF}', '\u{800}', '\u{FFFF}', '\u{10000}']),
		};
		// Either stop short of the goal or run past it.
		if s.len() + c.len_utf8() > want && g.chance(2, 3) {
			while s.len() < want { s.push('z') }
			break;
		}
		s.push(c);
	}
	if last && s.len() < want + 4 {
		s.pop();
		s.push(*g.pick(&ODD));
	}
	s
}

pub(crate) fn watch<const N: usize>(s: &mut SizedStr<N>, m: &str, how: usize) -> R {
	let n = m.len();
	ensure!(s.len() == n, "len() is {} instead of {n}", s.len());
	ensure!(s.capacity() == N, "capacity() is {} instead of {N}", s.capacity());
	ensure!(s.is_empty() == (n == 0), "is_empty() is {} for {m:?}", s.is_empty());
	ensure!(s.is_full() == (n == N), "is_full() is {} for {n} of {N} octets", s.is_full());
	ensure!(s.as_bytes() == m.as_bytes(), "the octets are {} instead of {}", hex(s.as_bytes()), hex(m.as_bytes()));
	ensure!(std::str::from_utf8(s.as_bytes()).is_ok(), "the octets {} are no text", hex(s.as_bytes()));
	ensure!(s.as_str() == m, "the text is {:?} instead of {m:?}", s.as_str());
	ensure!(s.as_ptr() == s.as_str().as_ptr(), "as_ptr() is not where the text is");
	match how {
		0 => { let r: &str = s.as_ref(); ensure!(r == m, "as_ref() is {r:?} instead of {m:?}") },
		1 => { let r: &[u8] = s.as_ref(); ensure!(r == m.as_bytes(), "as_ref() is {r:?} instead of {m:?}") },
		2 => { let r: &OsStr = s.as_ref(); ensure!(r == OsStr::new(m), "as_ref() is {r:?} instead of {m:?}") },
		3 => { let r: &Path = s.as_ref(); ensure!(r.as_os_str() == OsStr::new(m), "as_ref() is {r:?} instead of {m:?}") },
		4 => { let r: &str = (*s).borrow(); ensure!(r == m, "borrow() is {r:?} instead of {m:?}") },
		5 => { let r: &mut str = (*s).borrow_mut(); ensure!(r == m, "borrow_mut() is {r:?} instead of {m:?}") },
		6 => { let r: &mut str = s.as_mut(); ensure!(r == m, "as_mut() is {r:?} instead of {m:?}") },
		7 => { let r: &str = s; ensure!(r == m, "deref() is {r:?} instead of {m:?}") },
		8 => { let r: &mut str = s; ensure!(r == m, "deref_mut() is {r:?} instead of {m:?}") },
		9 => ensure!(s.chars().eq(m.chars()) && s.chars().rev().eq(m.chars().rev()), "chars() gives {:?} for {m:?}", s.chars().collect::<Vec<_>>()),
		10 => ensure!(s.char_indices().eq(m.char_indices()), "char_indices() gives {:?} for {m:?}", s.char_indices().collect::<Vec<_>>()),
		11 => ensure!(format!("{s}|{s:?}|{s:>9}|{s:.2}|{s:<4}|") == format!("{m}|{m:?}|{m:>9}|{m:.2}|{m:<4}|"), "{s:?} is displayed for {m:?}"),
		12 => ensure!(s.to_string() == m && s.to_owned() == m, "to_string() gives {:?} for {m:?}", s.to_string()),
		13 => { let t = s.clone(); ensure!(t.as_str() == m && t.len() == n, "a clone has {:?} instead of {m:?}", t.as_str()) },
		14 => {
			let (buf, len) = s.clone().into_raw_parts();
			ensure!(len == n && &buf[..len] == m.as_bytes(), "raw parts of {len} octets in {} for {m:?}", hex(&buf));
			// SAFETY: parts of a string.
			let t = unsafe { SizedStr::<N>::from_raw_parts(buf, len) };
			ensure!(t.as_str() == m, "raw parts hold {:?} instead of {m:?}", t.as_str());
		},
		15 => { let b = s.clone().into_bytes(); ensure!(b.as_slice() == m.as_bytes() && b.capacity() == N, "into_bytes() gives {b:?} for {m:?}") },
		16 => { let b = s.clone().into_boxed_str(); ensure!(&*b == m, "into_boxed_str() gives {b:?} for {m:?}") },
		17 => { let b = s.clone().into_string(); ensure!(b == m, "into_string() gives {b:?} for {m:?}") },
		18 => { let b: String = s.clone().into(); ensure!(b == m, "conversion to String gives {b:?} for {m:?}") },
		19 => { let b: Box<str> = s.clone().into(); ensure!(&*b == m, "conversion to Box gives {b:?} for {m:?}") },
		20 => {
			let step = 1 + n / 24;
			for i in (0..n).step_by(step).chain([n, n + 1]) {
				for (what, a, b) in [
					("a tail", catch(|| s[i..].to_string()).ok(), m.get(i..).map(str::to_string)),
					("a head", catch(|| s[..i].to_string()).ok(), m.get(..i).map(str::to_string)),
					("a middle", catch(|| s[i..n].to_string()).ok(), m.get(i..n).map(str::to_string)),
				] { ensure!(a == b, "{what} at {i} is {a:?} instead of {b:?} of {m:?}") }
			}
			ensure!(s[..] == *m, "[..] is {:?} instead of {m:?}", &s[..]);
		},
		21 => {
			let mut d = vec![0xA5; n + 4];
			let mut o = Output::new(&mut d);
			ensure!(s.encode(&mut o).is_ok(), "{m:?} is not encoded");
			let p = o.position();
			let mut want = (n as u16).to_le_bytes().to_vec();
			want.extend(m.as_bytes());
			ensure!(d[..p] == want, "{m:?} encodes to {} instead of {}", hex(&d[..p]), hex(&want));
		},
		22 => {
			let r = SizedStr::<N>::from_str(s.as_str());
			ensure!(r.as_ref().is_ok_and(|t| t.as_str() == m), "copying {m:?} gives {r:?}");
		},
		_ => { let r = s.as_mut_str(); ensure!(r == m, "as_mut_str() is {r:?} instead of {m:?}") },
	}
	Ok(())
}

fn judge<const N: usize>(route: &str, r: Result<SizedStr<N>, StringError>, bytes: &[u8]) -> Result<Option<SizedStr<N>>, String> {
	let f = faults(bytes, N);
	match r {
		Ok(s) => {
			ensure!(f.is_empty(), "{route} of {} into {N} octets gives {s:?} instead of {f:?}", hex(bytes));
			Ok(Some(s))
		},
		Err(e) => {
			let w = why(&e);
			ensure!(f.contains(&w), "{route} of {} into {N} octets is refused with {w:?} instead of {}", hex(bytes), if f.is_empty() { "kept".into() } else { format!("{f:?}") });
			ensure!(!e.to_string().is_empty(), "{route}: the error displays as nothing");
			ensure!(e.source().is_some_and(|s| !s.to_string().is_empty() && s.source().is_none()), "{route}: the source of {e:?} is {:?}", e.source());
			Ok(None)
		},
	}
}

/// An iterator that is not fused and whose hint is chosen.
struct Rude<I> { it: I, hint: (usize, Option<usize>), ended: bool }
impl<I: Iterator<Item = char>> Iterator for Rude<I> {
	type Item = char;
	fn next(&mut self) -> Option<char> {
		if self.ended { return Some('!') }
		let x = self.it.next();
		self.ended = x.is_none();
		x
	}
	fn size_hint(&self) -> (usize, Option<usize>) { self.hint }
}

fn collected(m: &str, cap: usize) -> String {
	let mut s = String::new();
	for c in m.chars() {
		if s.len() + c.len_utf8() > cap { break }
		s.push(c);
	}
	s
}

/// Builds by a chosen route; `None` when it was refused, as it should.
fn build<const N: usize>(g: &mut Gen, o: &mut Obs, log: &mut Vec<String>) -> Result<Option<(SizedStr<N>, String)>, String> {
	let t = gen_text(g, N);
	let route = g.draw(11);
	o.key(t.as_bytes());
	o.key(&[route as u8]);
	if t.len() > N { o.class("longer than the capacity") }
	if t.len() == N { o.class("as long as the capacity") }
	if !t.is_ascii() { o.class("multi-byte characters") }
	let out = match route {
		0 => { log.push(format!("new({t:?})")); judge("new()", SizedStr::<N>::new(&t), t.as_bytes())? },
		1 => { log.push(format!("from_utf8({t:?})")); judge("from_utf8()", SizedStr::<N>::from_utf8(t.as_bytes()), t.as_bytes())? },
		2 => { log.push(format!("from_str({t:?})")); judge("from_str()", SizedStr::<N>::from_str(&t), t.as_bytes())? },
		3 => { log.push(format!("{t:?}.parse()")); judge("parse()", t.parse::<SizedStr<N>>(), t.as_bytes())? },
		4 => { log.push(format!("try_from({t:?})")); judge("conversion", SizedStr::<N>::try_from(&*t), t.as_bytes())? },
		5 => { log.push(format!("try_from(String {t:?})")); judge("conversion of a String", SizedStr::<N>::try_from(t.clone()), t.as_bytes())? },
		6 => {
			let c = t.chars().next().unwrap_or('\u{20AC}');
			log.push(format!("try_from({c:?})"));
			let t = c.to_string();
			return Ok(judge("conversion of a character", SizedStr::<N>::try_from(c), t.as_bytes())?.map(|s| (s, t)));
		},
		7 => {
			log.push(format!("collect({t:?})"));
			let c = collected(&t, N);
			let s: SizedStr<N> = match g.draw(3) {
				0 => t.chars().collect(),
				1 => t.chars().chain(std::iter::repeat('\u{10FFFF}').take(if c.len() < t.len() { 50 } else { 0 })).collect(),
				2 => {
					let hint = match g.draw(2) { 0 => (0, None), 1 => (0, Some(0)), _ => (t.len() + 9, Some(usize::MAX)) };
					Rude { it: t.chars(), hint, ended: false }.collect()
				},
				_ => SizedStr::from_iter(t.chars().collect::<Vec<_>>()),
			};
			if c.len() < t.len() { o.class("cut at a whole character") }
			return Ok(Some((s, c)));
		},
		8 => {
			log.push(format!("decode({t:?})"));
			let mut d = (t.len() as u16).to_le_bytes().to_vec();
			d.extend(t.as_bytes());
			let tail = g.range(0, 3);
			d.extend(std::iter::repeat(0x80).take(tail));
			let mut i = Input::new(&d);
			match SizedStr::<N>::decode(&mut i) {
				Ok(s) => {
					ensure!(t.len() <= N, "decoding {t:?} into {N} octets gives {s:?}");
					ensure!(i.position() == 2 + t.len(), "decoding {t:?} reads {} octets", i.position());
					Some(s)
				},
				Err(CollectionDecodeError::BadLength(e)) => {
					ensure!(t.len() > N && e.capacity == N && e.len == t.len(), "decoding {t:?} into {N} octets is refused with {e:?}");
					None
				},
				Err(e) => return Err(format!("decoding {t:?} is refused with {e:?}")),
			}
		},
		9 if t.len() <= N => {
			log.push(format!("from_utf8_unchecked({t:?})"));
			// SAFETY: valid and no longer than the capacity.
			Some(unsafe { SizedStr::<N>::from_utf8_unchecked(t.as_bytes()) })
		},
		10 if t.len() <= N => {
			log.push(format!("from_raw_parts({t:?} and noise)"));
			let mut buf = [0u8; N];
			let x = g.byte();
			buf.fill(x);
			buf[..t.len()].copy_from_slice(t.as_bytes());
			// SAFETY: valid up to the length.
			Some(unsafe { SizedStr::<N>::from_raw_parts(buf, t.len()) })
		},
		_ => { log.push("default()".into()); return Ok(Some((SizedStr::default(), String::new()))) },
	};
	if out.is_none() { o.class("refused") }
	Ok(out.map(|s| (s, t)))
}

fn history<const N: usize>(g: &mut Gen, o: &mut Obs) -> R {
	let mut log: Vec<String> = Vec::new();
	let r = (|| -> R {
		let Some((mut s, mut m)) = build::<N>(g, o, &mut log)? else { o.nontrivial(true); return Ok(()) };
		o.nontrivial(!m.is_empty());
		let how = g.below(25);
		watch(&mut s, &m, how)?;
		for _ in 0..g.range(0, 8) {
			match g.draw(7) {
				0 => {
					log.push("upper".into());
					match g.draw(2) { 0 => s.as_mut_str().make_ascii_uppercase(), 1 => s.make_ascii_uppercase(), _ => { let r: &mut str = s.as_mut(); r.make_ascii_uppercase() } }
					m.make_ascii_uppercase();
				},
				1 => {
					log.push("part lower".into());
					if let Some((i, _)) = m.char_indices().nth(g.below(4)) {
						s[i..].make_ascii_lowercase();
						m[i..].make_ascii_lowercase();
					}
				},
				2 => { log.push("clone".into()); let t = s.clone(); s = t },
				3 => {
					if let Some((t, n)) = build::<N>(g, o, &mut log)? {
						if g.boolean() { log.push("assign".into()); s = t } else { log.push("clone_from".into()); s.clone_from(&t) }
						m = n;
					}
				},
				4 => {
					log.push("raw parts".into());
					let (mut buf, len) = s.into_raw_parts();
					let x = g.byte();
					buf[len..].fill(x);
					// SAFETY: the used part is as it was.
					s = unsafe { SizedStr::from_raw_parts(buf, len) };
				},
				5 => {
					log.push("via bytes".into());
					let b: SizedSlice<u8, N> = s.into_bytes();
					match judge("from_utf8()", SizedStr::<N>::from_utf8(b.as_slice()), m.as_bytes())? {
						Some(t) => s = t,
						None => return Err("its own octets are refused".into()),
					}
				},
				6 => {
					log.push("via String".into());
					match judge("conversion of a String", SizedStr::<N>::try_from(s.into_string()), m.as_bytes())? {
						Some(t) => s = t,
						None => return Err("its own text is refused".into()),
					}
				},
				_ => {
					log.push("swap ASCII in place".into());
					// SAFETY: ASCII octets are replaced with ASCII octets.
					unsafe {
						for b in s.as_mut_str().as_bytes_mut() { if *b < 0x80 { *b ^= 0x04 } }
						for b in m.as_bytes_mut() { if *b < 0x80 { *b ^= 0x04 } }
					}
				},
			}
			let how = g.below(25);
			watch(&mut s, &m, how)?;
		}
		for how in 0..24 { watch(&mut s, &m, how)? }
		Ok(())
	})();
	o.describe(|| format!("capacity {N}: {}", log.join(", ")));
	r.map_err(|e| format!("capacity {N}: {}: {e}", log.join(", ")))
}

/// Octets that may not be text.
fn octets<const N: usize>(g: &mut Gen, o: &mut Obs) -> R {
	let mut b = match g.draw(5) {
		0 => { let n = g.range(0, N + 3); g.bytes(n) },
		_ => gen_text(g, N).into_bytes(),
	};
	if !b.is_empty() && g.chance(3, 4) { corrupt_text(g, &mut b) }
	if !b.is_empty() && g.chance(1, 4) { b.pop(); }
	o.key(&b);
	o.describe(|| format!("capacity {N}, octets {}", hex(&b)));
	let f = faults(&b, N);
	o.nontrivial(!f.is_empty());
	for x in &f { match x { Why::Long { .. } => o.class("too long"), _ => o.class("not text") } }
	ensure!(utf8_prefix(&b) == std::str::from_utf8(&b).map_or_else(|e| e.valid_up_to(), |s| s.len()), "the model of UTF-8 is wrong about {}", hex(&b));
	match judge("from_utf8()", SizedStr::<N>::from_utf8(&b), &b)? {
		Some(mut s) => { let how = g.below(25); watch(&mut s, std::str::from_utf8(&b).unwrap(), how)? },
		None => (),
	}
	// The same octets on the wire.
	let mut d = (b.len() as u16).to_le_bytes().to_vec();
	d.extend(&b);
	let mut i = Input::new(&d);
	match SizedStr::<N>::decode(&mut i) {
		Ok(mut s) => {
			ensure!(f.is_empty(), "decoding {} into {N} octets gives {s:?} instead of {f:?}", hex(&b));
			watch(&mut s, std::str::from_utf8(&b).unwrap(), 7)?;
		},
		Err(CollectionDecodeError::BadLength(e)) => ensure!(f.contains(&Why::Long { cap: e.capacity, len: e.len }), "decoding {} into {N} octets is refused with {e:?} instead of {f:?}", hex(&b)),
		Err(CollectionDecodeError::BadItem(e)) => ensure!(f.contains(&Why::Octet { value: e.value, index: e.index }), "decoding {} into {N} octets is refused with {e:?} instead of {f:?}", hex(&b)),
	}
	Ok(())
}

/// Numeric socket addresses need no name service.
fn sockets(g: &mut Gen, o: &mut Obs) -> R {
	let port = g.draw(65535);
	let t = if g.boolean() { format!("{}.{}.{}.{}:{port}", g.byte(), g.byte(), g.byte(), g.byte()) } else { format!("[{:x}::{:x}]:{port}", g.draw(0xFFFF), g.draw(0xFFFF)) };
	o.key(t.as_bytes());
	o.nontrivial(true);
	o.describe(|| t.clone());
	let s = SizedStr::<32>::from_str(&t).map_err(|e| format!("{t:?}: {e}"))?;
	let a: Vec<_> = s.to_socket_addrs().map_err(|e| format!("{t:?}: {e}"))?.collect();
	let b: Vec<_> = t.to_socket_addrs().map_err(|e| format!("{t:?}: {e}"))?.collect();
	ensure!(a == b, "{t:?} gives the addresses {a:?} instead of {b:?}");
	Ok(())
}

/// All octets of the raw parts, which are documented to be initialised, whatever a string was made by. (It is the tools of C17 that see when they are not.)
fn parts<const N: usize>(g: &mut Gen, o: &mut Obs) -> R {
	let t: String = (0..g.range(0, N.min(9))).map(|i| (b'a' + i as u8) as char).collect();
	o.describe(|| format!("{t:?} of {N} octets"));
	o.key(t.as_bytes());
	o.nontrivial(t.len() < N);
	fn look<const N: usize>(s: SizedStr<N>, t: &str, how: &str) -> R {
		let (buf, len) = s.into_raw_parts();
		ensure!(len == t.len() && &buf[..len] == t.as_bytes(), "the raw parts after {how} are {len} octets of {} for {t:?}", hex(&buf[..len.min(N)]));
		let n: usize = buf.iter().map(|x| usize::from(*x >= 0x80)).sum();
		ensure!(std::hint::black_box(n) <= N, "impossible");
		Ok(())
	}
	let e = |e: &dyn std::fmt::Debug| format!("{t:?} is refused with {e:?}");
	let s = SizedStr::<N>::from_str(&t).map_err(|x| e(&x))?;
	look(s.clone(), &t, "clone()")?;
	look(s.clone().clone(), &t, "clone().clone()")?;
	let mut d = SizedStr::<N>::default();
	d.clone_from(&s);
	look(d, &t, "clone_from()")?;
	let (b, n) = s.clone().into_raw_parts();
	// SAFETY: parts of a string.
	look(unsafe { SizedStr::<N>::from_raw_parts(b, n) }, &t, "from_raw_parts()")?;
	look(s, &t, "from_str()")?;
	look(SizedStr::<N>::default(), "", "default()")?;
	look(SizedStr::<N>::default().clone(), "", "default().clone()")?;
	look(std::mem::take(&mut SizedStr::<N>::default()), "", "take()")?;
	look(SizedStr::<N>::try_from(&*t).map_err(|x| e(&x))?, &t, "try_from(&str)")?;
	look(SizedStr::<N>::try_from(t.clone()).map_err(|x| e(&x))?, &t, "try_from(String)")?;
	look(SizedStr::<N>::from_utf8(t.as_bytes()).map_err(|x| e(&x))?, &t, "from_utf8()")?;
	// SAFETY: short and valid.
	look(unsafe { SizedStr::<N>::from_utf8_unchecked(t.as_bytes()) }, &t, "from_utf8_unchecked()")?;
	look(t.chars().collect::<SizedStr<N>>(), &t, "collect()")?;
	let mut w = (t.len() as u16).to_le_bytes().to_vec();
	w.extend(t.as_bytes());
	look(SizedStr::<N>::decode(&mut Input::new(&w)).map_err(|x| e(&x))?, &t, "decode()")?;
	let mut slot = oct::Slot::<SizedStr<N>>::new();
	slot.copy_from_slice(&w);
	look(slot.read().map_err(|x| e(&x))?, &t, "read()")?;
	if N >= 4 { look(SizedStr::<N>::try_from('é').map_err(|x| e(&x))?, "é", "try_from(char)")? }
	Ok(())
}

pub fn units() -> Vec<Unit> {
	let mut v = Vec::new();
	macro_rules! caps { ($($n:literal),*) => { $(
		v.push(unit("C14", concat!("history, capacity ", stringify!($n)), 12_000, history::<$n>));
		v.push(unit("C14", concat!("octets, capacity ", stringify!($n)), 12_000, octets::<$n>));
	)* } }
	caps!(0, 1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 255, 256, 300);
	if !cfg!(miri) {
		macro_rules! large { ($($n:literal),*) => { $(
			v.push(unit("C14", concat!("history, capacity ", stringify!($n)), 300, history::<$n>));
			v.push(unit("C14", concat!("octets, capacity ", stringify!($n)), 300, octets::<$n>));
		)* } }
		large!(32, 33, 63, 65, 127, 128, 129, 254, 257, 1000, 5000);
	}
	v.push(unit("C14", "raw parts, capacity 3", 300, parts::<3>));
	v.push(unit("C14", "raw parts, capacity 16", 300, parts::<16>));
	v.push(unit("C14", "raw parts, capacity 300", 300, parts::<300>));
	v.push(unit("C14", "socket addresses", 2_000, sockets));
	v
}
