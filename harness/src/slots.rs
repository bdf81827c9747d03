//! C12: slots against a buffer and a length.

use crate::engine::{catch, unit, Gen, Obs, Unit};
use crate::ensure;
use crate::model::*;
use crate::subject::*;
use oct::decode::Decode;
use oct::encode::{Encode, SizedEncode};
use oct::{SizedSlice, SizedStr, Slot};
use std::borrow::{Borrow, BorrowMut};
use std::collections::LinkedList;
use std::net::IpAddr;

type R = Result<(), String>;

fn watch<T>(s: &mut Slot<T>, buf: &[u8], len: usize) -> R {
	let cap = buf.len();
	let want = &buf[..len];
	ensure!(s.len() == len, "len() is {}, not {len}", s.len());
	ensure!(s.capacity() == cap, "capacity() is {}, not {cap}", s.capacity());
	ensure!(s.is_empty() == (len == 0), "is_empty() is {} at {len} of {cap}", s.is_empty());
	ensure!(s.is_full() == (len == cap), "is_full() is {} at {len} of {cap}", s.is_full());
	ensure!(s.as_slice() == want, "as_slice() is {}, not {}", hex(s.as_slice()), hex(want));
	let all = s.as_mut_slice().to_vec();
	ensure!(all == buf, "the buffer is {}, not {}", hex(&all), hex(buf));
	let r: &[u8] = s.as_ref();
	ensure!(r == want, "as_ref() is {}, not {}", hex(r), hex(want));
	let r: &[u8] = (*s).borrow();
	ensure!(r == want, "borrow() is {}, not {}", hex(r), hex(want));
	let r: &[u8] = &**s;
	ensure!(r == want, "deref() is {}, not {}", hex(r), hex(want));
	ensure!(s[..] == *want, "[..] is {}, not {}", hex(&s[..]), hex(want));
	if len > 0 { ensure!(s[len - 1] == want[len - 1] && s[..1] == want[..1], "indexing differs from {}", hex(want)) }
	let p = s.as_ptr();
	let q = s.as_slice().as_ptr();
	ensure!(p == q, "as_ptr() is not the start of the contents");
	crate::equals_only!(s, want, "a slot");
	ensure!(format!("{s:?}") == format!("{want:?}"), "{s:?} is displayed for {want:?}");
	Ok(())
}

/// Takes the buffer as it is after an operation that may have changed it.
fn resync<T>(s: &mut Slot<T>, buf: &mut Vec<u8>, len: usize) -> R {
	ensure!(s.len() == len, "a failed operation changed the length from {len} to {}", s.len());
	ensure!(s.capacity() == buf.len(), "an operation changed the capacity from {} to {}", buf.len(), s.capacity());
	buf.copy_from_slice(s.as_mut_slice());
	Ok(())
}

pub fn history<T>(make: Option<fn() -> (Slot<T>, Slot<T>, usize)>, g: &mut Gen, o: &mut Obs) -> R
where T: Subject + Encode<Error: ErrView> + Decode<Error: ErrView>
{
	let ty = T::ty();
	let mut log: Vec<String> = Vec::new();
	let (mut writes, mut refusals) = (0u8, 0u8);
	let mut key = 0u64;
	let r = (|| -> R {
		let cap;
		let mut s: Slot<T>;
		let mut len = 0;
		match g.draw(if make.is_some() { 4 } else { 2 }) {
			0 | 1 => {
				cap = if let Some(n) = g.fancy_in(0, 2000) { n } else { match g.draw(4) { 0 => 0, 1 => g.range(0, 4), 2 => g.range(0, 12), 3 => g.range(0, 40), _ => 64 } };
				s = Slot::with_capacity(cap);
				log.push(format!("with_capacity {cap}"));
			},
			2 => {
				cap = g.range(0, 20);
				len = g.range(0, cap);
				let p = Box::into_raw(g.bytes(cap).into_boxed_slice());
				// SAFETY: a live box of `cap` bytes, and `len` is at most that.
				s = unsafe { Slot::from_raw_parts(p.cast(), cap, len) };
				log.push(format!("from_raw_parts of {cap}, {len}"));
			},
			k => {
				let (a, b, m) = (make.unwrap())();
				s = if k == 3 { a } else { b };
				cap = m;
				log.push("new".into());
			},
		}
		ensure!(s.len() == len && s.capacity() == cap, "a new slot has {} of {}, not {len} of {cap}", s.len(), s.capacity());
		let mut buf = s.as_mut_slice().to_vec();
		ensure!(buf.len() == cap, "the buffer of a slot of capacity {cap} has {} bytes", buf.len());
		watch(&mut s, &buf, len)?;
		for _ in 0..g.range(1, 10) {
			match g.draw(15) {
				0..=3 => {
					let mut vo = if g.chance(1, 6) { ValOpts::bad(20) } else { ValOpts::good() };
					vo.budget = 60;
					let v = gen_val(g, &ty, &mut vo);
					let mut want = Vec::new();
					let r = ref_encode(&ty, &v, &mut want);
					let x = T::build(&v);
					log.push(format!("write {}", show(&v)));
					let got = match g.draw(2) {
						0 => catch(|| s.write(x)),
						1 => catch(|| s.write(&x)),
						_ => catch(|| s.write(Box::new(x))),
					};
					match (r, got) {
						(Ok(()), Ok(Ok(()))) => {
							ensure!(want.len() <= cap, "{} bytes were written to a slot of {cap}", want.len());
							// Maps may be written in any order; everything else is settled.
							if has_map(&ty) && s.len() == want.len() {
								buf.copy_from_slice(s.as_mut_slice());
							} else {
								buf[..want.len()].copy_from_slice(&want);
							}
							len = want.len();
							writes += 1;
							match catch(|| s.read()) {
								Ok(Ok(x)) => ensure!(canon(&x.view()) == canon(&v), "{} was read after writing {}", show(&x.view()), show(&v)),
								Ok(Err(e)) => return Err(format!("reading after writing {} failed: {:?}", show(&v), e.m())),
								Err(p) => return Err(format!("reading after writing {} panicked: {p}", show(&v))),
							}
						},
						(Ok(()), Ok(Err(e))) => return Err(format!("writing {} failed: {:?}", show(&v), e.m())),
						(Ok(()), Err(p)) => {
							ensure!(want.len() > cap, "writing the {} bytes of {} to a slot of {cap} panicked: {p}", want.len(), show(&v));
							refusals += 1;
							resync(&mut s, &mut buf, len)?;
						},
						(Err(m), Ok(Ok(()))) => return Err(format!("{} was written, but cannot be encoded: {m:?}", show(&v))),
						(Err(_), _) => { refusals += 1; resync(&mut s, &mut buf, len)? },
					}
				},
				4 | 5 => {
					log.push("read".into());
					let (want, _) = ref_decode(&ty, &buf[..len]);
					let got = catch(|| s.read());
					match (want, got) {
						(Dec::Ok(v), Ok(Ok(x))) => ensure!(canon(&x.view()) == canon(&v), "{} was read instead of {}", show(&x.view()), show(&v)),
						(Dec::Ok(v), Ok(Err(e))) => return Err(format!("reading {} failed: {:?}", show(&v), e.m())),
						(Dec::Ok(v), Err(p)) => return Err(format!("reading {} panicked: {p}", show(&v))),
						(_, Ok(Ok(x))) => return Err(format!("{} was read from {}, which is no encoding", show(&x.view()), hex(&buf[..len]))),
						_ => refusals += 1,
					}
				},
				6 | 7 => {
					let n = match g.draw(4) { 0 => g.range(0, cap), 1 => cap, 2 => cap + 1, 3 => cap + g.range(1, 30), _ => g.range(0, cap) };
					let d = g.bytes(n);
					log.push(format!("copy_from_slice {n}"));
					match catch(|| s.copy_from_slice(&d)) {
						Ok(()) => {
							ensure!(n <= cap, "{n} bytes were copied to a slot of {cap}");
							buf[..n].copy_from_slice(&d);
							len = n;
						},
						Err(p) => {
							ensure!(n > cap, "copying {n} bytes to a slot of {cap} panicked: {p}");
							refusals += 1;
							resync(&mut s, &mut buf, len)?;
						},
					}
				},
				8 | 9 => {
					let n = match g.draw(5) { 0 => g.range(0, cap), 1 => cap, 2 => cap + 1, 3 => usize::MAX - g.below(2), 4 => len.saturating_sub(1), _ => g.range(0, cap) };
					log.push(format!("set_len {n}"));
					match catch(|| s.set_len(n)) {
						Ok(()) => {
							// What follows is seen by the tools of C17.
							if n > cap { for x in s.as_slice().iter().skip(cap).take(8) { std::hint::black_box(*x); } }
							ensure!(n <= cap, "the length became {n} in a slot of {cap}");
							len = n;
						},
						Err(p) => { ensure!(n > cap, "set_len({n}) in a slot of {cap} panicked: {p}"); refusals += 1 },
					}
				},
				10 => {
					len = g.range(0, cap);
					log.push(format!("set_len_unchecked {len}"));
					// SAFETY: at most the capacity.
					unsafe { s.set_len_unchecked(len) };
				},
				11 | 12 if cap > 0 => {
					// Mutable views span the whole buffer.
					let (i, b) = (g.below(cap), g.byte());
					let how = g.draw(6);
					log.push(format!("edit[{i}] = {b} ({how})"));
					let w = catch(|| -> usize {
						match how {
							0 => { let x = s.as_mut_slice(); x[i] = b; x.len() },
							1 => { let x: &mut [u8] = s.as_mut(); x[i] = b; x.len() },
							2 => { let x: &mut [u8] = s.borrow_mut(); x[i] = b; x.len() },
							3 => { let x: &mut [u8] = &mut *s; x[i] = b; x.len() },
							4 => { s[i] = b; cap },
							5 => { s[i..=i][0] = b; cap },
							// SAFETY: within the capacity.
							_ => { unsafe { *s.as_mut_ptr().add(i) = b }; cap },
						}
					});
					let n = w.map_err(|p| format!("editing byte {i} of {cap} panicked: {p}"))?;
					ensure!(n == cap, "a mutable view has {n} of {cap} bytes");
					buf[i] = b;
				},
				13 => {
					// Out of range, either way.
					let i = cap + g.below(3);
					log.push(format!("index {i}"));
					ensure!(catch(|| s[i] = 1).is_err(), "index {i} was written in a slot of {cap}");
					let j = len + g.below(3);
					ensure!(catch(|| s[j]).is_err(), "index {j} was read from a slot with {len} bytes");
					ensure!(catch(|| s[j + 1..].len()).is_err(), "range {}.. was read from a slot with {len} bytes", j + 1);
					refusals += 1;
				},
				14 => {
					let (a, b) = (g.range(0, cap), g.range(0, cap));
					let (a, b) = (a.min(b), a.max(b));
					let d = g.bytes(b - a);
					log.push(format!("range {a}..{b}"));
					s[a..b].copy_from_slice(&d);
					buf[a..b].copy_from_slice(&d);
				},
				_ => {
					// The contents of another encoding, copied in.
					let mut d = Vec::new();
					let mut budget = 30;
					gen_wire(g, &ty, 4, &mut d, &mut budget);
					d.truncate(cap);
					log.push(format!("copy in {}", hex(&d)));
					s.copy_from_slice(&d);
					buf[..d.len()].copy_from_slice(&d);
					len = d.len();
				},
			}
			watch(&mut s, &buf, len)?;
			key = crate::engine::hash_bytes(key ^ len as u64, &buf);
		}
		Ok(())
	})();
	o.nontrivial(writes > 0 && log.len() > 2);
	if refusals > 0 { o.class("with a refused operation") }
	if writes > 1 { o.class("several writes") }
	o.key(&key.to_le_bytes());
	o.describe(|| format!("Slot<{}>: {}", std::any::type_name::<T>(), log.join("; ")));
	r.map_err(|m| format!("Slot<{}>: {m} (after {})", std::any::type_name::<T>(), log.join("; ")))
}

fn sized<T: SizedEncode>() -> (Slot<T>, Slot<T>, usize) { (Slot::new(), Slot::default(), T::MAX_ENCODED_SIZE) }

pub fn units() -> Vec<Unit> {
	let mut v = Vec::new();
	macro_rules! s { ($($t:ty),* $(,)?) => { $( v.push(unit("C12", concat!("Slot<", stringify!($t), ">"), 14_000, |g, o| history::<$t>(Some(sized::<$t>), g, o))); )* } }
	macro_rules! d { ($($t:ty),* $(,)?) => { $( v.push(unit("C12", concat!("Slot<", stringify!($t), ">"), 14_000, |g, o| history::<$t>(None, g, o))); )* } }
	s!(u8, u32, char, (), bool, usize, [u16; 3], Option<u32>, (u8, u16), IpAddr, SizedStr<5>, SizedSlice<u16, 3>, SizedSlice<char, 2>, Result<u8, u64>, [u8; 300], [u16; 130], SizedStr<300>, SizedSlice<u8, 300>, SizedSlice<u32, 70>);
	d!(Vec<u8>, String, Vec<u16>, LinkedList<u8>, Option<String>);
	#[cfg(feature = "oct-std")]
	d!(std::collections::HashMap<u8, u8, crate::subject::H>);
	v
}
