//! C08: streams against a bounded byte queue.

use crate::engine::{unit, Gen, Obs, Unit};
use crate::model::*;
use crate::subject::*;
#[cfg(feature = "oct-alloc")]
use crate::ed;
use crate::{eds, ensure};
use oct::decode::Input;
use oct::encode::Output;
use oct::{SizedSlice, SizedStr};
use std::borrow::Borrow;
use std::net::IpAddr;

type R = Result<(), String>;

pub fn types() -> Vec<Entry> {
	let mut v: Vec<Entry> = Vec::new();
	eds!(v: u8, u16, u32, u64, u128, i8, usize, isize, bool, char, (), f32, [u8; 3], [u16; 2], (u8, u32),
		Option<u16>, IpAddr, SizedStr<6>, SizedSlice<u16, 3>, SizedSlice<char, 2>);
	#[cfg(feature = "oct-alloc")]
	ed!(v: String, Vec<u8>, Vec<u16>, Vec<char>, Option<String>, std::collections::LinkedList<u8>, std::ffi::CString);
	v
}

const GUARD: usize = 24;

/// A count near what remains, or an absurd one.
fn gen_count(g: &mut Gen, rem: usize, pos: usize, huge: bool) -> usize {
	if let Some(n) = g.fancy_in(0, 5000) { return n }
	match g.draw(if huge { 12 } else { 7 }) {
		0 => 0,
		1 => 1,
		2 => g.range(0, 9),
		3 => rem,
		4 => rem.saturating_sub(1),
		5 => rem + 1,
		6 => rem + g.range(1, 40),
		7 => rem / 2,
		8 => usize::MAX - g.below(3),
		9 => (usize::MAX - pos).wrapping_add(g.below(3)),
		10 => isize::MAX as usize - 1 + g.below(3),
		11 => usize::MAX / 2 - pos + g.below(3),
		_ => 0usize.wrapping_sub(pos).wrapping_add(rem) ,
	}
}

fn watch_out(out: &mut Output<'_>, base: usize, cap: usize, want: &[u8]) -> R {
	let pos = want.len();
	ensure!(out.position() == pos, "position() is {} after {pos} written bytes", out.position());
	ensure!(out.capacity() == cap, "capacity() is {} for a buffer of {cap} bytes", out.capacity());
	ensure!(out.remaining() == cap - pos, "remaining() is {} at {pos} of {cap}", out.remaining());
	ensure!(out.as_ptr() as usize == base, "as_ptr() is not the start of the buffer");
	ensure!(out.as_slice() == want, "as_slice() is {}, but {} was written", hex(out.as_slice()), hex(want));
	let r: &[u8] = out.as_ref();
	ensure!(r == want, "as_ref() is {}, but {} was written", hex(r), hex(want));
	let r: &[u8] = (*out).borrow();
	ensure!(r == want, "borrow() is {}, but {} was written", hex(r), hex(want));
	if want.len() < 0x400 { crate::equals_only!(out, want, "a stream") }
	else { ensure!(*out == *want && *out == want && !(*out != *want), "the stream does not equal the written bytes") }
	Ok(())
}

fn output(es: &[Entry], g: &mut Gen, o: &mut Obs) -> R {
	let cap = if let Some(n) = g.fancy_in(0, 5000) { n } else { match g.draw(5) { 0 => 0, 1 => g.range(0, 3), 2 => g.range(0, 12), 3 => g.range(0, 40), 4 => g.range(0, 200), _ => 64 } };
	let fill = g.byte();
	let mut buf = vec![0xEEu8; GUARD + cap + GUARD];
	buf[GUARD..GUARD + cap].fill(fill);
	let base = buf.as_ptr() as usize + GUARD;
	let mut want: Vec<u8> = Vec::new();
	let mut log: Vec<String> = Vec::new();
	// Whether the bytes beyond the cursor are still as they were.
	let mut clean = true;
	let (mut ok, mut failed) = (0, 0);
	let steps = g.range(1, 12);
	let r = (|| -> R {
		let mut out = Output::new(&mut buf[GUARD..GUARD + cap]);
		watch_out(&mut out, base, cap, &want)?;
		for _ in 0..steps {
			let rem = cap - want.len();
			if g.chance(2, 5) {
				let e = g.pick(es);
				let mut vo = if g.chance(1, 6) { ValOpts::bad(24) } else { ValOpts::good() };
				vo.budget = 40;
				let v = gen_val(g, &e.ty, &mut vo);
				let mut enc = Vec::new();
				let r = ref_encode(&e.ty, &v, &mut enc);
				let got = (e.enc)(&v, &mut out);
				let was = match (&r, &got) {
					(Ok(()), EncOut::Ok) => {
						log.push(format!("encode {} {}", e.name, show(&v)));
						ensure!(enc.len() <= rem, "an encoding of {} bytes was written with {rem} remaining", enc.len());
						want.extend_from_slice(&enc);
						ok += 1;
						watch_out(&mut out, base, cap, &want)?;
						continue;
					},
					(Ok(()), EncOut::Panic(p)) => {
						log.push(format!("encode {} {} panics", e.name, show(&v)));
						ensure!(enc.len() > rem, "encoding {} into {rem} bytes panicked: {p}", show(&v));
						"panic"
					},
					(Ok(()), EncOut::Err(i)) => return Err(format!("encoding {} {} failed: {:?}", e.name, show(&v), i.m)),
					(Err(_), EncOut::Err(_) | EncOut::Panic(_)) => "refusal",
					(Err(m), EncOut::Ok) => return Err(format!("{} {} was encoded, but cannot be: {m:?}", e.name, show(&v))),
				};
				failed += 1;
				// What a failed encoding leaves behind is a prefix of its own; resume from there.
				let p = out.position();
				ensure!(p >= want.len() && p <= cap, "the cursor is at {p} of {cap} after a {was}, was at {}", want.len());
				let now = out.as_slice().to_vec();
				ensure!(now.starts_with(&want), "a {was} changed written bytes: {} became {}", hex(&want), hex(&now));
				want = now;
				clean = false;
			} else {
				let n = gen_count(g, rem, want.len(), false);
				let data = g.bytes(n);
				let r = out.write(&data);
				log.push(format!("write {n}"));
				match r {
					Ok(()) => {
						ensure!(n <= rem, "{n} bytes were written with {rem} remaining");
						want.extend_from_slice(&data);
						ok += 1;
					},
					Err(e) => {
						ensure!(n > rem, "writing {n} bytes with {rem} remaining failed: {e:?}");
						ensure!((e.capacity, e.position, e.count) == (cap, want.len(), n),
							"writing {n} bytes at {} of {cap} reports {e:?}", want.len());
						failed += 1;
					},
				}
			}
			watch_out(&mut out, base, cap, &want)?;
		}
		// Two streams are equal exactly if what was written to them is.
		let mut other = vec![fill ^ 0x33; want.len() + g.range(0, 5)];
		let mut b = Output::new(&mut other);
		b.write(&want).map_err(|e| format!("{e:?}"))?;
		ensure!(out == b && b == out, "two streams of the same written bytes differ");
		if !want.is_empty() {
			let mut other = vec![fill; want.len() + 3];
			let mut c = Output::new(&mut other);
			c.write(&want[..want.len() - 1]).map_err(|e| format!("{e:?}"))?;
			ensure!(out != c && c != out, "streams of different lengths are equal");
			c.write(&[!want[want.len() - 1]]).map_err(|e| format!("{e:?}"))?;
			ensure!(out != c && c != out, "streams of different bytes are equal");
		}
		Ok(())
	})();
	o.nontrivial(ok > 0 && (failed > 0 || ok > 2));
	if failed > 0 { o.class("output: with a refused operation") }
	if cap == 0 { o.class("output: no capacity") }
	o.key(&want);
	o.key(&[cap as u8, failed, ok]);
	o.describe(|| format!("Output of {cap} bytes: {}", log.join("; ")));
	r.map_err(|m| format!("{m} (after {})", log.join("; ")))?;
	ensure!(buf[..GUARD].iter().chain(&buf[GUARD + cap..]).all(|b| *b == 0xEE), "bytes outside of the buffer changed");
	ensure!(buf[GUARD..].starts_with(&want), "the buffer holds {}, not the written {}", hex(&buf[GUARD..GUARD + want.len()]), hex(&want));
	if clean {
		ensure!(buf[GUARD + want.len()..GUARD + cap].iter().all(|b| *b == fill), "bytes beyond the cursor changed");
	}
	Ok(())
}

fn watch_in(i: &Input<'_>, cap: usize, pos: usize) -> R {
	ensure!(i.position() == pos, "position() is {}, not {pos}", i.position());
	ensure!(i.capacity() == cap, "capacity() is {} for {cap} bytes", i.capacity());
	ensure!(i.remaining() == cap - pos, "remaining() is {} at {pos} of {cap}", i.remaining());
	Ok(())
}

fn input(es: &[Entry], g: &mut Gen, o: &mut Obs) -> R {
	// The stream: valid encodings, near-valid ones, and noise.
	let mut data: Vec<u8> = Vec::new();
	let mut plan: Vec<usize> = Vec::new();
	for _ in 0..g.range(0, 6) {
		let e = g.below(es.len());
		plan.push(e);
		match g.draw(3) {
			0 => { let mut b = 40; gen_wire(g, &es[e].ty, 0, &mut data, &mut b) },
			1 => { let mut b = 40; gen_wire(g, &es[e].ty, 12, &mut data, &mut b) },
			2 => { let n = g.range(0, 9); data.extend(g.bytes(n)) },
			_ => { let mut b = 20; gen_wire(g, &es[e].ty, 0, &mut data, &mut b) },
		}
	}
	if let Some(n) = g.fancy_in(0, 5000) { let b = g.byte(); data.extend((0..n).map(|k| b.wrapping_add(k as u8))) }
	if g.chance(1, 4) && !data.is_empty() { let n = g.below(data.len()); data.truncate(n) }
	let cap = data.len();
	let mut i = Input::new(&data);
	let mut pos = 0;
	let mut log: Vec<String> = Vec::new();
	let (mut ok, mut failed) = (0u8, 0u8);
	let steps = g.range(1, 12);
	let r = (|| -> R {
		watch_in(&i, cap, 0)?;
		for k in 0..steps {
			let rem = cap - pos;
			match g.draw(4) {
				0 | 1 => {
					let e = &es[if k < plan.len() && g.chance(3, 4) { plan[k] } else { g.below(es.len()) }];
					let (want, used) = ref_decode(&e.ty, &data[pos..]);
					log.push(format!("decode {}", e.name));
					match (want, (e.dec.unwrap())(&mut i)) {
						(Dec::Ok(v), DecOut::Ok(w)) => {
							ensure!(canon(&v) == canon(&w), "decoding {} at {pos} gives {} instead of {}", e.name, show(&w), show(&v));
							pos += used;
							ok += 1;
						},
						(Dec::Ok(v), DecOut::Err(x)) => return Err(format!("decoding {} at {pos} gives {:?} instead of {}", e.name, x.m, show(&v))),
						(Dec::Ok(v), DecOut::Panic(p)) => return Err(format!("decoding {} at {pos} panics ({p}) instead of giving {}", e.name, show(&v))),
						(_, DecOut::Ok(w)) => return Err(format!("decoding {} at {pos} gives {} from no encoding", e.name, show(&w))),
						_ => {
							failed += 1;
							let p = i.position();
							ensure!(p >= pos && p <= cap, "the cursor is at {p} of {cap} after a refusal at {pos}");
							pos = p;
						},
					}
				},
				2 | 3 => {
					let n = gen_count(g, rem, pos, true);
					log.push(format!("read {n}"));
					match i.read(n) {
						Ok(d) => {
							ensure!(n <= rem, "{n} bytes were read with {rem} remaining");
							ensure!(d == &data[pos..pos + n], "reading {n} at {pos} gives {} instead of {}", hex(d), hex(&data[pos..pos + n]));
							pos += n;
							ok += 1;
						},
						Err(e) => {
							ensure!(n > rem, "reading {n} bytes with {rem} remaining failed: {e:?}");
							ensure!((e.capacity, e.position, e.count) == (cap, pos, n), "reading {n} bytes at {pos} of {cap} reports {e:?}");
							failed += 1;
						},
					}
				},
				_ => {
					let n = gen_count(g, rem, pos, false);
					let fill = g.byte();
					let mut dst = vec![fill; n + 16];
					log.push(format!("read_into {n}"));
					let r = i.read_into(&mut dst[8..8 + n]);
					ensure!(dst[..8].iter().chain(&dst[8 + n..]).all(|b| *b == fill), "read_into wrote outside of its buffer");
					match r {
						Ok(()) => {
							ensure!(n <= rem, "{n} bytes were read with {rem} remaining");
							ensure!(dst[8..8 + n] == data[pos..pos + n], "reading {n} at {pos} gives {} instead of {}", hex(&dst[8..8 + n]), hex(&data[pos..pos + n]));
							pos += n;
							ok += 1;
						},
						Err(e) => {
							ensure!(n > rem, "reading {n} bytes with {rem} remaining failed: {e:?}");
							ensure!((e.capacity, e.position, e.count) == (cap, pos, n), "reading {n} bytes at {pos} of {cap} reports {e:?}");
							ensure!(dst.iter().all(|b| *b == fill), "a refused read_into changed its buffer");
							failed += 1;
						},
					}
				},
			}
			watch_in(&i, cap, pos)?;
		}
		Ok(())
	})();
	o.nontrivial(ok > 0 && (failed > 0 || ok > 2));
	if failed > 0 { o.class("input: with a refused operation") }
	if cap == 0 { o.class("input: empty") }
	o.key(&data);
	o.key(log.join(";").as_bytes());
	o.describe(|| format!("Input of {}: {}", hex(&data), log.join("; ")));
	r.map_err(|m| format!("{m} (after {}, input {})", log.join("; "), hex(&data)))
}

/// Values and raw runs written one after another come back in order.
fn sequence(es: &[Entry], g: &mut Gen, o: &mut Obs) -> R {
	enum Item { Val(usize, Val), Raw(Vec<u8>) }
	let mut items = Vec::new();
	let mut want = Vec::new();
	for _ in 0..g.range(1, 10) {
		if g.chance(1, 4) {
			let n = g.range(0, 7);
			let d = g.bytes(n);
			want.extend_from_slice(&d);
			items.push(Item::Raw(d));
		} else {
			let k = g.below(es.len());
			let mut vo = ValOpts::good();
			vo.budget = 60;
			let v = gen_val(g, &es[k].ty, &mut vo);
			ref_encode(&es[k].ty, &v, &mut want).map_err(|m| format!("harness: {m:?}"))?;
			items.push(Item::Val(k, v));
		}
	}
	o.key(&want);
	o.nontrivial(items.len() > 1 && !want.is_empty());
	o.describe(|| format!("{} items in {} bytes: {}", items.len(), want.len(), items.iter().map(|x| match x {
		Item::Raw(d) => format!("raw {}", hex(d)),
		Item::Val(k, v) => format!("{} {}", es[*k].name, show(v)),
	}).collect::<Vec<_>>().join(", ")));
	let mut buf = vec![g.byte(); want.len() + if g.boolean() { 0 } else { 9 }];
	let mut out = Output::new(&mut buf);
	for x in &items {
		match x {
			Item::Raw(d) => out.write(d).map_err(|e| format!("writing {} bytes: {e:?}", d.len()))?,
			Item::Val(k, v) => match (es[*k].enc)(v, &mut out) {
				EncOut::Ok => (),
				EncOut::Err(e) => return Err(format!("encoding {} {}: {:?}", es[*k].name, show(v), e.m)),
				EncOut::Panic(p) => return Err(format!("encoding {} {}: panic: {p}", es[*k].name, show(v))),
			},
		}
	}
	let written = out.as_slice().to_vec();
	ensure!(written == want, "the stream holds {}, not the concatenation {}", hex(&written), hex(&want));
	let mut i = Input::new(&buf);
	for x in &items {
		match x {
			Item::Raw(d) => {
				let r = i.read(d.len()).map_err(|e| format!("reading {} bytes: {e:?}", d.len()))?;
				ensure!(r == &d[..], "read {} instead of {}", hex(r), hex(d));
			},
			Item::Val(k, v) => match (es[*k].dec.unwrap())(&mut i) {
				DecOut::Ok(w) => ensure!(canon(&w) == canon(v), "decoded {} {} instead of {}", es[*k].name, show(&w), show(v)),
				DecOut::Err(e) => return Err(format!("decoding {} {}: {:?}", es[*k].name, show(v), e.m)),
				DecOut::Panic(p) => return Err(format!("decoding {} {}: panic: {p}", es[*k].name, show(v))),
			},
		}
	}
	ensure!(i.position() == want.len(), "the cursor is at {} after decoding {} bytes", i.position(), want.len());
	Ok(())
}

/// A large buffer and reads up to its end.
fn large(g: &mut Gen, o: &mut Obs) -> R {
	let cap = *g.pick(&[0xFFFFusize, 0x10000, 0x10001, 0x2_0005]);
	let mut buf = vec![0u8; cap];
	let mut out = Output::new(&mut buf);
	let mut pos = 0;
	let mut sum = 0u8;
	let mut parts = Vec::new();
	while pos < cap {
		let n = match g.draw(3) { 0 => 0xFFFF, 1 => g.range(1, 0x9000), 2 => cap - pos, _ => 0x10000 };
		sum = sum.wrapping_add(17);
		let d = vec![sum; n];
		let r = out.write(&d);
		match r {
			Ok(()) => { ensure!(n <= cap - pos, "wrote {n} bytes with {} remaining", cap - pos); pos += n; parts.push((n, sum)) },
			Err(e) => {
				ensure!(n > cap - pos, "writing {n} with {} remaining: {e:?}", cap - pos);
				ensure!((e.capacity, e.position, e.count) == (cap, pos, n), "writing {n} at {pos} of {cap} reports {e:?}");
				if g.chance(1, 2) { break }
			},
		}
		ensure!(out.position() == pos && out.remaining() == cap - pos, "position {} after {pos} bytes", out.position());
	}
	o.nontrivial(true);
	o.key(format!("{cap} {parts:?}").as_bytes());
	o.describe(|| format!("{cap} bytes in parts {parts:?}"));
	let mut i = Input::new(&buf);
	for (n, s) in parts {
		let d = i.read(n).map_err(|e| format!("reading {n}: {e:?}"))?;
		ensure!(d.len() == n && d.iter().all(|b| *b == s), "a part of {n} bytes was not read back");
	}
	ensure!(i.position() == pos, "the cursor is at {}", i.position());
	Ok(())
}

pub fn units() -> Vec<Unit> {
	let es: &'static [Entry] = types().leak();
	vec![
		unit("C08", "output history", 160_000, move |g, o| output(es, g, o)),
		unit("C08", "input history", 160_000, move |g, o| input(es, g, o)),
		unit("C08", "in order", 80_000, move |g, o| sequence(es, g, o)),
		unit("C08", "large", 300, large),
	]
}
