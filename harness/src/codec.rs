//! The codec properties (C01-C07, C09-C11, C20), stated over any set of
//! entries against the reference model.

use crate::engine::{asked, catch, clip, exhaustive, unit, Gen, Obs, Unit};
use crate::model::*;
use crate::subject::*;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use std::time::{Duration, SystemTime};

type R = Result<(), String>;

use crate::ensure;

/// What came of encoding: `Ok(Ok(bytes))`, `Ok(Err(error))`, or a panic.
type Encd = Result<Result<Vec<u8>, ErrInfo>, String>;

/// Encodes into a buffer of `cap` bytes that is filled with `fill`.
pub fn encode_in(e: &Entry, v: &Val, cap: usize, fill: u8) -> Encd {
	let mut buf = vec![fill; cap];
	let mut out = Output::new(&mut buf);
	match (e.enc)(v, &mut out) {
		EncOut::Ok => Ok(Ok(out.as_slice().to_vec())),
		EncOut::Err(i) => Ok(Err(i)),
		EncOut::Panic(p) => Err(p),
	}
}

/// The reference outcome and a roomy capacity for `v`.
fn reference(ty: &Ty, v: &Val) -> (Result<Vec<u8>, ErrM>, usize) {
	let mut out = Vec::new();
	match ref_encode(ty, v, &mut out) {
		Ok(()) => { let n = out.len(); (Ok(out), n + 24) },
		Err(e) => (Err(e), room_for(ty, v) + 24),
	}
}

fn encode_good(e: &Entry, v: &Val) -> Result<Vec<u8>, String> {
	let (r, cap) = reference(&e.ty, v);
	let n = match r { Ok(b) => b.len(), Err(m) => return Err(format!("harness: {} is not encodable: {m:?}", show(v))) };
	match encode_in(e, v, cap, 0xA5) {
		Ok(Ok(b)) => Ok(b),
		Ok(Err(i)) => Err(format!("{}: encoding the valid value {} failed with {:?}", e.name, show(v), i.m)),
		Err(p) => Err(format!("{}: encoding {} into {cap} bytes (it needs {n}) panicked: {p}", e.name, show(v))),
	}
}

struct Decd { out: Result<Result<Val, ErrInfo>, String>, pos: usize }

fn decode_at(e: &Entry, buf: &[u8], skip: usize) -> Decd {
	let mut i = Input::new(buf);
	if skip > 0 { i.read(skip).unwrap(); }
	let out = match (e.dec.unwrap())(&mut i) {
		DecOut::Ok(v) => Ok(Ok(v)),
		DecOut::Err(x) => Ok(Err(x)),
		DecOut::Panic(p) => Err(p),
	};
	Decd { out, pos: i.position() }
}

fn what(d: &Decd) -> String {
	match &d.out {
		Ok(Ok(v)) => format!("the value {}", show(v)),
		Ok(Err(i)) => format!("the error {:?}", i.m),
		Err(p) => format!("a panic ({p})"),
	}
}

/// Whether some part of the encoding has no defined order.
fn unordered(e: &Entry) -> bool { has_map(&e.ty) }

fn case_value(g: &mut Gen, e: &Entry) -> Val {
	let mut o = ValOpts::good();
	gen_val(g, &e.ty, &mut o)
}

fn note(o: &mut Obs, e: &Entry, b: &[u8]) {
	o.key(b);
	o.nontrivial(!b.is_empty());
	if unordered(e) { o.class("has a map or set") }
	if b.len() > 255 { o.class("more than 255 bytes") }
	if b.len() > 65535 { o.class("more than 65535 bytes") }
	if any_ty(&e.ty, &|t| matches!(t, Ty::Struct(_) | Ty::Enum(..))) { o.class("derived") }
}

// ----------------------------------------------------------------------- C01

pub fn c01(e: &Entry, g: &mut Gen, o: &mut Obs) -> R {
	let v = case_value(g, e);
	let b = encode_good(e, &v)?;
	note(o, e, &b);
	o.describe(|| format!("{} {} -> {}", e.name, show(&v), hex(&b)));
	let d = decode_at(e, &b, 0);
	match &d.out {
		Ok(Ok(w)) => ensure!(canon(w) == canon(&v), "{}: {} encoded as {} decodes to {}", e.name, show(&v), hex(&b), show(w)),
		_ => return Err(format!("{}: decoding the encoding {} of {} gives {}", e.name, hex(&b), show(&v), what(&d))),
	}
	ensure!(d.pos == b.len(), "{}: {} encodes to {} bytes but decoding consumed {}", e.name, show(&v), b.len(), d.pos);
	// Decoding what follows must not be affected either.
	if g.chance(1, 4) {
		let w = case_value(g, e);
		let mut all = b.clone();
		all.extend(encode_good(e, &w)?);
		let d = decode_at(e, &all, b.len());
		ensure!(matches!(&d.out, Ok(Ok(x)) if canon(x) == canon(&w)) && d.pos == all.len(),
			"{}: the second of two encodings, of {}, decodes to {} at {}", e.name, show(&w), what(&d), d.pos);
	}
	Ok(())
}

// ----------------------------------------------------------------------- C02

pub fn c02(e: &Entry, g: &mut Gen, o: &mut Obs) -> R {
	let v = case_value(g, e);
	let b = encode_good(e, &v)?;
	note(o, e, &b);
	o.describe(|| format!("{} {} -> {}", e.name, show(&v), hex(&b)));
	layout(e, &v, &b)
}

/// Whether `b` is the documented encoding of `v`, up to map order.
fn layout(e: &Entry, v: &Val, b: &[u8]) -> R {
	if !unordered(e) {
		let mut r = Vec::new();
		ref_encode(&e.ty, v, &mut r).unwrap();
		ensure!(r == b, "{}: {} encodes as {} but the documented layout is {}", e.name, show(v), hex(b), hex(&r));
		return Ok(());
	}
	let (d, n) = ref_decode(&e.ty, b);
	let Dec::Ok(w) = d else { return Err(format!("{}: {} encodes as {}, which is not of the documented layout ({d:?})", e.name, show(v), hex(b))) };
	ensure!(n == b.len(), "{}: {} encodes as {}, of which the documented layout accounts for {n} bytes", e.name, show(v), hex(b));
	ensure!(canon(&w) == canon(v), "{}: {} encodes as {}, which means {}", e.name, show(v), hex(b), show(&w));
	let mut r = Vec::new();
	ref_encode(&e.ty, &w, &mut r).unwrap();
	ensure!(r == b, "{}: {} encodes as {}, which repeats keys or is not canonical ({})", e.name, show(v), hex(b), hex(&r));
	Ok(())
}

// ----------------------------------------------------------------------- C03

pub fn c03(e: &Entry, g: &mut Gen, o: &mut Obs) -> R {
	let max = e.max.unwrap();
	let want = max_size(&e.ty).expect("harness: unbounded type with a bound");
	let maximal = g.draw(3) == 0;
	let mut vo = if maximal { ValOpts::max() } else { ValOpts::good() };
	let v = gen_val(g, &e.ty, &mut vo);
	let (r, _) = reference(&e.ty, &v);
	let n = match r { Ok(b) => b.len(), Err(m) => return Err(format!("harness: {m:?}")) };
	if n == want { o.class("reaches the bound") }
	o.key(&[maximal as u8]);
	{ let mut b = Vec::new(); let _ = ref_encode(&e.ty, &v, &mut b); o.key(&b); }
	o.nontrivial(n > 0);
	o.describe(|| format!("{} bound {max}, {} takes {n}", e.name, show(&v)));
	ensure!(max == want, "{}: MAX_ENCODED_SIZE is {max} but the documented layout can take {want} bytes", e.name);
	// A buffer of exactly the bound.
	match encode_in(e, &v, max, 0x5A) {
		Ok(Ok(b)) => ensure!(b.len() <= max && b.len() == n, "{}: {} takes {} bytes, its layout {n}, the bound is {max}", e.name, show(&v), b.len()),
		Ok(Err(i)) => return Err(format!("{}: encoding {} failed with {:?}", e.name, show(&v), i.m)),
		Err(p) => return Err(format!("{}: encoding {} into a buffer of MAX_ENCODED_SIZE = {max} panicked: {p}", e.name, show(&v))),
	}
	if let Some(slot) = e.slot {
		match slot(&v) {
			Err(p) => return Err(format!("{}: writing {} into a slot panicked: {p}", e.name, show(&v))),
			Ok(s) => {
				ensure!(s.cap == max, "{}: Slot::new has capacity {} rather than {max}", e.name, s.cap);
				match &s.res {
					Ok(b) => layout(e, &v, b)?,
					Err(m) => return Err(format!("{}: writing {} into a slot failed with {m:?}", e.name, show(&v))),
				}
			},
		}
	}
	// Whatever decodes, consumes no more than the bound.
	if e.dec.is_some() && g.boolean() {
		let w = gen_input(g, &e.ty);
		let d = decode_at(e, &w, 0);
		if let Ok(Ok(_)) = d.out {
			ensure!(d.pos <= max, "{}: decoding {} consumed {} bytes, the bound is {max}", e.name, hex(&w), d.pos);
		}
	}
	Ok(())
}

// ----------------------------------------------------------------------- C04

/// Compares decoding `b` with the reference.
fn decide(e: &Entry, b: &[u8], o: &mut Obs) -> R {
	let (r, n) = ref_decode(&e.ty, b);
	let d = decode_at(e, b, 0);
	match (&r, &d.out) {
		(Dec::Ok(v), Ok(Ok(w))) => {
			o.class("accepted");
			ensure!(canon(w) == canon(v), "{}: {} decodes to {} rather than {}", e.name, hex(b), show(w), show(v));
			ensure!(d.pos == n, "{}: decoding {} consumed {} bytes rather than {n}", e.name, hex(b), d.pos);
		},
		(Dec::Ok(v), _) => return Err(format!("{}: {} is a valid encoding of {}, but decoding gives {}", e.name, hex(b), show(v), what(&d))),
		(_, Ok(Ok(w))) => return Err(format!("{}: {} is not a valid encoding ({r:?}), but decodes to {}", e.name, hex(b), show(w))),
		(Dec::Err(m), Err(p)) => return Err(format!("{}: decoding {} should fail with {m:?}, but panicked: {p}", e.name, hex(b))),
		(Dec::Err(_), Ok(Err(_))) => o.class("rejected with an error"),
		(Dec::DurOverflow, _) => { o.class("duration overflow"); o.excluded += 1 },
		(_, _) => o.class("refused for lack of bytes"),
	}
	Ok(())
}

pub fn c04(e: &Entry, g: &mut Gen, o: &mut Obs) -> R {
	let b = gen_input(g, &e.ty);
	o.key(&b);
	o.nontrivial(!b.is_empty());
	o.describe(|| format!("{} {}", e.name, hex(&b)));
	decide(e, &b, o)
}

/// Every value of the first byte, in front of a plausible rest.
fn c04_first(es: &'static [Entry]) -> impl Fn(&mut Gen, &mut Obs) -> R {
	move |g, o| {
		let c = g.draw(es.len() as u64 * 256 - 1) as usize;
		let e = &es[c / 256];
		let mut b = Vec::new();
		gen_wire(g, &e.ty, 0, &mut b, &mut 200);
		if b.is_empty() { b.push(0) }
		b[0] = c as u8;
		b.extend(g.bytes(3));
		o.key(&b);
		o.nontrivial(true);
		o.describe(|| format!("{} {}", e.name, hex(&b)));
		decide(e, &b, o)
	}
}

/// Every value of the first two bytes, for types that start with such a number.
fn c04_first2(es: Vec<&'static Entry>) -> impl Fn(&mut Gen, &mut Obs) -> R {
	move |g, o| {
		let c = g.draw(es.len() as u64 * 256 - 1) as usize;
		let e = es[c / 256];
		let mut b = Vec::new();
		gen_wire(g, &e.ty, 0, &mut b, &mut 100);
		b.resize(b.len().max(2), 0);
		b.extend(g.bytes(8));
		o.key(&[c as u8]);
		o.nontrivial(true);
		o.describe(|| format!("{} with first bytes ..{:02x}", e.name, c as u8));
		for lo in 0..=255u8 {
			b[0] = lo;
			b[1] = c as u8;
			decide(e, &b, o)?;
		}
		Ok(())
	}
}

fn starts_with_two(t: &Ty) -> bool {
	match t {
		Ty::Enum(r, _) => r.wire() == 2,
		Ty::NonZero(i) => i.wire() == 2,
		_ => false,
	}
}

fn char_block(g: &mut Gen, o: &mut Obs) -> R {
	let blk = g.draw(0x111) as u32;
	o.nontrivial(true);
	o.key(&blk.to_le_bytes());
	o.describe(|| format!("every char code point in {:#x}..{:#x}", blk << 12, (blk + 1) << 12));
	for c in blk << 12..(blk + 1) << 12 {
		let b = c.to_le_bytes();
		let mut i = Input::new(&b);
		let r = catch(|| char::decode(&mut i)).map_err(|p| format!("decoding the code point {c:#x} panicked: {p}"))?;
		match (valid_char(c), r) {
			(true, Ok(x)) => ensure!(x as u32 == c && i.position() == 4, "code point {c:#x} decodes to {:#x}", x as u32),
			(false, Err(x)) => ensure!(x.code_point == c, "code point {c:#x} is reported as {:#x}", x.code_point),
			(false, Ok(x)) => return Err(format!("char: the code point {c:#x} is not a scalar value, but decodes to {:#x}", x as u32)),
			(true, Err(x)) => return Err(format!("char: the code point {c:#x} is a scalar value, but decoding gives {x:?}")),
		}
	}
	Ok(())
}

// ----------------------------------------------------------------------- C05

pub fn c05(e: &Entry, g: &mut Gen, o: &mut Obs) -> R {
	let mut vo = ValOpts::bad(*g.pick(&[3u64, 10, 24, 64]));
	let v = gen_val(g, &e.ty, &mut vo);
	let (r, cap) = reference(&e.ty, &v);
	o.describe(|| format!("{} {} ({})", e.name, show(&v), if r.is_ok() { "encodable" } else { "not encodable" }));
	let mut b = Vec::new();
	let _ = ref_encode(&e.ty, &v, &mut b);
	o.key(&b);
	match (&r, encode_in(e, &v, cap, 0xC3)) {
		(Ok(_), Ok(Ok(_))) => o.class("in range"),
		(Err(_), Ok(Err(_))) => { o.class("out of range"); o.nontrivial(true); o.key(format!("{:?}", r).as_bytes()) },
		(Ok(_), Ok(Err(i))) => return Err(format!("{}: {} is within the format's range, but encoding fails with {:?}", e.name, show(&v), i.m)),
		(Err(m), Ok(Ok(w))) => return Err(format!("{}: {} is outside the format's range ({m:?}), but encodes as {}", e.name, show(&v), hex(&w))),
		(_, Err(p)) => return Err(format!("{}: encoding {} into {cap} bytes panicked: {p}", e.name, show(&v))),
	}
	Ok(())
}

/// Whether a value of the type may be out of range.
pub fn can_be_bad(t: &Ty) -> bool {
	any_ty(t, &|t| match t {
		Ty::Int(i) | Ty::NonZero(i) => matches!(i, Int::Usize | Int::Isize),
		Ty::Seq(t, c) => c.is_none_or(|c| c > 0xFFFF) && min_size(t) <= 1,
		Ty::Str(c) => c.is_none_or(|c| c > 0xFFFF),
		Ty::CStr => true,
		Ty::Map(k, _) | Ty::Set(k) => **k == Ty::Int(Int::U32),
		Ty::Enum(r, vs) => vs.iter().any(|(d, _)| !r.encodable(*d & r.mask())),
		_ => false,
	})
}

#[cfg(feature = "full")]
/// Lengths on either side of the limit, for every kind of counted container.
fn c05_lengths(g: &mut Gen, o: &mut Obs) -> R {
	const LENS: [usize; 9] = [0xFFFF, 0x10000, 0xFFFE, 0x10001, 0x1FFFF, 0x20000, 0x18000, 0x7FFF, 0x8000];
	let kind = g.draw(12) as usize;
	let n = if g.boolean() { *g.pick(&LENS) } else { g.range(0xFF00, 0x30000) };
	let item = g.range(0, 3);
	let cap = n * 8 + 64;
	let mut buf = vec![0x77; cap];
	let mut out = Output::new(&mut buf);
	fn run<T: Encode<Error: ErrView> + ?Sized>(x: &T, out: &mut Output) -> Result<Result<(), ErrM>, String> {
		catch(|| x.encode(out)).map(|r| r.map_err(|e| e.m()))
	}
	let x = item as u8 + 1;
	let (name, body, r) = match kind {
		0 => ("[()]", 0, run(&vec![(); n][..], &mut out)),
		1 => ("Vec<u8>", 1, run(&vec![x; n], &mut out)),
		2 => ("str", 1, run(std::str::from_utf8(&vec![b'a'; n]).unwrap(), &mut out)),
		3 => ("String", 1, run(&"b".repeat(n), &mut out)),
		4 => ("CStr", 1, run(std::ffi::CString::new(vec![x; n]).unwrap().as_c_str(), &mut out)),
		5 => ("CString", 1, run(&std::ffi::CString::new(vec![x; n]).unwrap(), &mut out)),
		6 => ("LinkedList<()>", 0, run(&std::iter::repeat(()).take(n).collect::<std::collections::LinkedList<_>>(), &mut out)),
		7 => ("HashSet<u32>", 4, run(&(0..n as u32).collect::<std::collections::HashSet<u32, crate::subject::H>>(), &mut out)),
		8 => ("HashMap<u32, ()>", 4, run(&(0..n as u32).map(|i| (i, ())).collect::<std::collections::HashMap<u32, (), crate::subject::H>>(), &mut out)),
		9 => ("SizedSlice<u8, 200000>", 1, run(&*Box::new((0..n).map(|_| x).collect::<oct::SizedSlice<u8, 200000>>()), &mut out)),
		10 => ("SizedStr<200000>", 1, run(&*Box::new((0..n).map(|_| 'c').collect::<oct::SizedStr<200000>>()), &mut out)),
		11 => ("Box<[u8]>", 1, run(&vec![x; n].into_boxed_slice(), &mut out)),
		_ => ("Cow<[u8]>", 1, run(&std::borrow::Cow::<[u8]>::Owned(vec![x; n]), &mut out)),
	};
	o.nontrivial(true);
	o.key(&[kind as u8]);
	o.key(&n.to_le_bytes());
	o.class(if n > 0xFFFF { "above the limit" } else { "at or below the limit" });
	o.describe(|| format!("{name} of {n} items"));
	match (n <= 0xFFFF, r) {
		(true, Ok(Ok(()))) => ensure!(out.position() == 2 + n * body, "{name} of {n} items takes {} bytes", out.position()),
		(false, Ok(Err(_))) => (),
		(true, r) => return Err(format!("{name} of {n} items is within the format's range, but encoding gives {r:?}")),
		(false, r) => return Err(format!("{name} of {n} items is outside the format's range, but encoding gives {r:?}")),
	}
	Ok(())
}

// ----------------------------------------------------------------------- C06

const GUARD: usize = 32;

pub fn c06(e: &Entry, g: &mut Gen, o: &mut Obs) -> R {
	let mut vo = ValOpts::bad(if g.chance(1, 5) { 12 } else { 0 });
	vo.budget = 600;
	let v = gen_val(g, &e.ty, &mut vo);
	let (r, roomy) = reference(&e.ty, &v);
	let off = if g.chance(1, 8) { g.range(0, 300) } else { g.range(0, 6) };
	let need = r.as_ref().map(|b| b.len()).unwrap_or(roomy);
	let (room, small) = match g.draw(4) {
		0 => (need, false),
		1 => (need + if g.chance(1, 4) { g.range(1, 300) } else { g.range(1, 9) }, false),
		_ if need == 0 => (0, false),
		2 => (need - 1, true),
		_ => (g.below(need), true),
	};
	let pre = g.bytes(off);
	let fills = [g.byte(), g.byte()];
	o.key(&[off as u8, small as u8]);
	o.key(&room.to_le_bytes());
	if let Ok(b) = &r { o.key(b) }
	o.nontrivial(need > 0 && (off > 0 || small));
	o.class(match (&r, small) { (Ok(_), false) => "fits", (Ok(_), true) => "too small", (Err(_), _) => "unencodable" });
	o.describe(|| format!("{} {} at offset {off} with room for {room} of {need}", e.name, show(&v)));
	let mut outs = Vec::new();
	for fill in [fills[0], !fills[0], fills[1]] {
		let mut buf = vec![0xEEu8; GUARD + off + room + GUARD];
		buf[GUARD..GUARD + off + room].fill(fill);
		let (res, pos, cap) = {
			let mut out = Output::new(&mut buf[GUARD..GUARD + off + room]);
			out.write(&pre).map_err(|e| format!("writing the first {off} bytes failed: {e}"))?;
			let res = (e.enc)(&v, &mut out);
			let s = out.as_slice();
			ensure!(s.len() == out.position(), "{}: the written slice has {} bytes at position {}", e.name, s.len(), out.position());
			(res, out.position(), out.capacity())
		};
		ensure!(buf[..GUARD].iter().chain(&buf[GUARD + off + room..]).all(|b| *b == 0xEE),
			"{}: encoding {} with room for {room} wrote outside of the buffer", e.name, show(&v));
		ensure!(buf[GUARD..GUARD + off] == pre[..], "{}: encoding {} at {off} changed the bytes before", e.name, show(&v));
		ensure!(cap == off + room && (off..=cap).contains(&pos), "{}: after encoding at {off}, the position is {pos} of {cap}", e.name);
		let written = &buf[GUARD + off..GUARD + pos];
		match res {
			EncOut::Ok => {
				if let Err(m) = &r { return Err(format!("{}: {} is outside the format's range ({m:?}), but encodes as {}", e.name, show(&v), hex(written))) }
				ensure!(!small, "{}: {} takes {need} bytes, but encodes into room for {room}", e.name, show(&v));
				layout(e, &v, written)?;
				ensure!(buf[GUARD + pos..GUARD + off + room].iter().all(|b| *b == fill),
					"{}: encoding {} changed bytes after its encoding", e.name, show(&v));
				outs.push(written.to_vec());
			},
			EncOut::Err(i) => ensure!(r.is_err(), "{}: encoding {} with room for {room} failed with {:?}", e.name, show(&v), i.m),
			EncOut::Panic(p) => ensure!(small, "{}: encoding {} with room for {room} of {need} panicked: {p}", e.name, show(&v)),
		}
	}
	if !unordered(e) { ensure!(outs.windows(2).all(|w| w[0] == w[1]), "{}: what the buffer held before influences the encoding of {}", e.name, show(&v)) }
	Ok(())
}

// ----------------------------------------------------------------------- C07

pub fn c07(e: &Entry, g: &mut Gen, o: &mut Obs) -> R {
	let mut vo = ValOpts::good();
	vo.budget = 600;
	let v = gen_val(g, &e.ty, &mut vo);
	let b = if g.chance(3, 4) { encode_good(e, &v)? } else {
		// Any other valid encoding, such as with signs other than one.
		let mut b = Vec::new();
		gen_wire(g, &e.ty, 2, &mut b, &mut 600);
		match ref_decode(&e.ty, &b) {
			(Dec::Ok(_), n) => { b.truncate(n); b },
			_ => encode_good(e, &v)?,
		}
	};
	let Dec::Ok(v) = ref_decode(&e.ty, &b).0 else { return Err(format!("{}: {} is not of the documented layout", e.name, hex(&b))) };
	note(o, e, &b);
	o.describe(|| format!("{} {}", e.name, hex(&b)));
	for round in 0..2 {
		let off = if round == 0 { 0 } else if g.chance(1, 8) { g.range(0, 300) } else { g.range(0, 9) };
		let tail = if g.chance(1, 8) { g.range(0, 300) } else { g.range(0, 12) };
		let mut buf = g.bytes(off);
		buf.extend_from_slice(&b);
		if g.boolean() { buf.extend(g.bytes(tail)) } else { buf.extend(vec![0xFF; tail]) }
		let d = decode_at(e, &buf, off);
		match &d.out {
			Ok(Ok(w)) => ensure!(canon(w) == canon(&v), "{}: {} between {off} and {tail} other bytes decodes to {} rather than {}", e.name, hex(&b), show(w), show(&v)),
			_ => return Err(format!("{}: {} between {off} and {tail} other bytes gives {}", e.name, hex(&b), what(&d))),
		}
		ensure!(d.pos == off + b.len(), "{}: after decoding {} at {off} the position is {}", e.name, hex(&b), d.pos);
	}
	// What comes after the end of the input must not be seen: the allocation
	// goes on with the right bytes.
	let cuts: Vec<usize> = if b.len() <= 48 { (0..b.len()).collect() } else {
		(0..24).chain((0..24).map(|_| g.below(b.len()))).chain(b.len() - 3..b.len()).collect()
	};
	let few = if cfg!(miri) { 4 } else { usize::MAX };
	for k in cuts.into_iter().take(few) {
		let d = decode_at(e, &b[..k], 0);
		ensure!(!matches!(d.out, Ok(Ok(_))), "{}: the first {k} of the {} bytes {} decode to {}", e.name, b.len(), hex(&b), what(&d));
		ensure!(d.pos <= k, "{}: the position after refusing {k} bytes is {}", e.name, d.pos);
	}
	Ok(())
}

/// One value at every place of a stream, and with every number of octets after it: neither makes a difference.
pub fn everywhere(e: &Entry, g: &mut Gen, o: &mut Obs) -> R {
	let mut vo = ValOpts::good();
	vo.budget = 60;
	let v = gen_val(g, &e.ty, &mut vo);
	let b = encode_good(e, &v)?;
	layout(e, &v, &b)?;
	let Dec::Ok(w) = ref_decode(&e.ty, &b).0 else { return Err(format!("{}: {} is not of the documented layout", e.name, hex(&b))) };
	let w = canon(&w);
	note(o, e, &b);
	o.describe(|| format!("{} {}", e.name, show(&v)));
	let most = if b.len() > 400 { 12 } else { 300 };
	let x = g.byte();
	let mut buf = vec![0u8; most + b.len() + 12];
	for k in 0..=most {
		for (off, more) in [(k, k % 3), (k % 11, k)] {
			let (room, at) = (off + b.len() + more, format_args!("at {off}, with {more} octets left"));
			let buf = &mut buf[..room];
			buf.fill(x);
			let (res, pos) = {
				let mut out = Output::new(buf);
				// (Nothing but the position is to be of influence.)
				let _ = out.write(&[0x5Cu8; 312][..off]);
				((e.enc)(&v, &mut out), out.position())
			};
			ensure!(matches!(res, EncOut::Ok) && pos == off + b.len(), "{}: {} {at} after {} of its own does not encode: position {pos}", e.name, show(&v), b.len());
			ensure!(buf[..off].iter().all(|c| *c == 0x5C) && buf[pos..].iter().all(|c| *c == x), "{}: encoding {} {at} changes others", e.name, show(&v));
			if unordered(e) { layout(e, &v, &buf[off..pos])? } else { ensure!(buf[off..pos] == b[..], "{}: {} {at} encodes as {} instead of {}", e.name, show(&v), hex(&buf[off..pos]), hex(&b)) }
			if e.dec.is_some() {
				let d = decode_at(e, buf, off);
				ensure!(matches!(&d.out, Ok(Ok(u)) if canon(u) == w) && d.pos == pos, "{}: {} {at} decodes to {} at {} instead of {} at {pos}", e.name, hex(&buf[off..pos]), what(&d), d.pos, show(&v));
			}
		}
	}
	Ok(())
}

// ----------------------------------------------------------------------- C09

/// Every leaf error of encoding `v`, wherever it sits.
fn leaf_errs(ty: &Ty, v: &Val, out: &mut Vec<ErrM>) {
	match (ty, v) {
		(Ty::Tuple(ts) | Ty::Struct(ts), Val::List(vs)) => ts.iter().zip(vs.iter()).for_each(|(t, v)| leaf_errs(t, v, out)),
		(Ty::Array(t, _), Val::List(vs)) => vs.iter().for_each(|v| leaf_errs(t, v, out)),
		(Ty::Seq(t, _), Val::List(vs)) => {
			if vs.len() > 0xFFFF { out.push(ErrM::Usize(vs.len())) } else { vs.iter().for_each(|v| leaf_errs(t, v, out)) }
		},
		(Ty::Map(k, t), Val::Pairs(ps)) => {
			if ps.len() > 0xFFFF { out.push(ErrM::Usize(ps.len())) }
			else { ps.iter().for_each(|(a, b)| { leaf_errs(k, a, out); leaf_errs(t, b, out) }) }
		},
		(Ty::Set(k), Val::Keys(ks)) => {
			if ks.len() > 0xFFFF { out.push(ErrM::Usize(ks.len())) } else { ks.iter().for_each(|a| leaf_errs(k, a, out)) }
		},
		(Ty::Opt(t) | Ty::Bound(t), Val::Opt(Some(v)) | Val::Bound(_, Some(v))) => leaf_errs(t, v, out),
		(Ty::Res(t, e), Val::Res(s, v)) => leaf_errs(if *s { e } else { t }, v, out),
		(Ty::RefCell(t), v) => leaf_errs(t, v, out),
		(Ty::Enum(r, vars), Val::Variant(i, vs)) => {
			let (d, ts) = &vars[*i];
			if !r.encodable(*d & r.mask()) {
				if let Err(e) = ref_encode(ty, v, &mut Vec::new()) { out.push(leaf(&e).clone()) }
			}
			ts.iter().zip(vs.iter()).for_each(|(t, v)| leaf_errs(t, v, out));
		},
		(t, v) => if let Err(e) = ref_encode(t, v, &mut Vec::new()) { out.push(leaf(&e).clone()) },
	}
}

/// The shape of an error without the indices, which depend on map order.
fn without_index(e: &ErrM) -> ErrM {
	let b = |e: &ErrM| Box::new(without_index(e));
	match e {
		ErrM::At(_, e) => ErrM::At(0, b(e)),
		ErrM::BadLength(e) => ErrM::BadLength(b(e)),
		ErrM::BadItem(e) => ErrM::BadItem(b(e)),
		ErrM::BadValue(e) => ErrM::BadValue(b(e)),
		ErrM::BadDiscriminant(e) => ErrM::BadDiscriminant(b(e)),
		ErrM::BadField(e) => ErrM::BadField(b(e)),
		ErrM::InvalidDiscriminant(e) => ErrM::InvalidDiscriminant(b(e)),
		ErrM::Generic(e) => ErrM::Generic(b(e)),
		e => e.clone(),
	}
}

/// Whether some displayed error of the chain shows the number `x`.
pub fn shows(chain: &[String], x: u128, signed: Option<i128>) -> bool {
	let mut forms = vec![x.to_string(), format!("{x:x}"), format!("{x:X}")];
	if let Some(s) = signed { forms.push(s.to_string()); forms.push(format!("{:x}", s)); forms.push(format!("{:X}", s)) }
	chain.iter().any(|s| {
		let words: Vec<String> = s.split(|c: char| !(c.is_ascii_alphanumeric() || c == '-' || c == '_' || c == '+'))
			.map(|w| w.replace('_', "")).collect();
		words.iter().any(|w| {
			let w = w.trim_start_matches(['+', '-']);
			let w = w.strip_prefix("U+").or_else(|| w.strip_prefix("0x")).or_else(|| w.strip_prefix("0X")).unwrap_or(w);
			forms.iter().any(|f| {
				let f = f.trim_start_matches('-');
				f == w || f == w.trim_start_matches('0') || (x == 0 && !w.is_empty() && w.bytes().all(|b| b == b'0'))
			})
		})
	})
}

/// The representation whose discriminant is at fault, if no generic error is
/// in between.
fn at_fault<'a>(t: &'a Ty, e: &ErrM) -> Option<&'a Int> {
	match (t, e) {
		(Ty::Enum(i, _), ErrM::Unassigned(_)) => Some(i),
		(t, ErrM::BadItem(e)) => at_fault(t, e),
		(Ty::Array(t, _) | Ty::Seq(t, _), ErrM::At(_, e)) => at_fault(t, e),
		(Ty::Opt(t), ErrM::BadField(e)) => at_fault(t, e),
		_ => None,
	}
}

fn check_chain(name: &str, t: &Ty, i: &ErrInfo) -> R {
	let Some(chain) = &i.chain else { return Ok(()) };
	ensure!(!i.endless, "{name}: the source chain of {:?} has more than 64 errors", i.m);
	ensure!(chain.iter().all(|s| !s.is_empty()), "{name}: an error of the chain of {:?} is displayed as nothing: {chain:?}", i.m);
	let miss = |x: u128, s: Option<i128>, n: &str| -> R {
		ensure!(shows(chain, x, s), "{name}: the {n} {x} is not in any displayed error of {:?}: {chain:?}", i.m);
		Ok(())
	};
	let mut at = &i.m;
	loop {
		at = match at {
			ErrM::At(k, e) => { miss(*k as u128, None, "index of the item")?; e },
			ErrM::BadLength(e) | ErrM::BadItem(e) | ErrM::BadValue(e) | ErrM::BadDiscriminant(e) | ErrM::BadField(e) | ErrM::InvalidDiscriminant(e) => e,
			_ => break,
		}
	}
	match leaf(&i.m) {
		ErrM::Usize(x) => miss(*x as u128, None, "value")?,
		ErrM::Isize(x) => miss(*x as usize as u128, Some(*x as i128), "value")?,
		ErrM::Len { capacity, len } => { miss(*capacity as u128, None, "capacity")?; miss(*len as u128, None, "length")? },
		ErrM::Utf8 { value, index } => { miss(*value as u128, None, "octet")?; miss(*index as u128, None, "index")? },
		ErrM::Nul(x) => miss(*x as u128, None, "index")?,
		ErrM::Char(c) => miss(*c as u128, None, "code point")?,
		ErrM::Time(t) => miss(*t as u64 as u128, Some(*t as i128), "timestamp")?,
		ErrM::Unassigned(x) => match at_fault(t, &i.m) {
			Some(int) => miss(*x, if int.signed() { Some(int.extend(*x) as i128) } else { None }, "discriminant")?,
			// Of an unknown width.
			None => ensure!([8, 16, 32, 64, 128].iter().any(|b| shows(chain, *x, Some(((*x << (128 - b)) as i128) >> (128 - b)))), "{name}: the discriminant {x} is not in any displayed error of {:?}: {chain:?}", i.m),
		},
		_ => (),
	}
	Ok(())
}

pub fn c09(e: &Entry, g: &mut Gen, o: &mut Obs) -> R {
	WANT_CHAIN.with(|w| w.set(true));
	let r = c09_inner(e, g, o);
	WANT_CHAIN.with(|w| w.set(false));
	r
}

fn c09_inner(e: &Entry, g: &mut Gen, o: &mut Obs) -> R {
	let enc = can_be_bad(&e.ty) && (e.dec.is_none() || g.boolean());
	if enc {
		let mut vo = ValOpts::bad(*g.pick(&[4u64, 16, 64]));
		let v = gen_val(g, &e.ty, &mut vo);
		let (Err(want), cap) = reference(&e.ty, &v) else { return Ok(()) };
		o.nontrivial(true);
		o.key(format!("{want:?}").as_bytes());
		o.class("encode error");
		o.describe(|| format!("{} {} -> {want:?}", e.name, show(&v)));
		let i = match encode_in(e, &v, cap, 0x99) {
			Ok(Err(i)) => i,
			Ok(Ok(b)) => return Err(format!("{}: {} should fail with {want:?} but encodes as {}", e.name, show(&v), hex(&b))),
			Err(p) => return Err(format!("{}: {} should fail with {want:?} but panics: {p}", e.name, show(&v))),
		};
		if unordered(e) {
			let mut all = Vec::new();
			leaf_errs(&e.ty, &v, &mut all);
			ensure!(all.contains(leaf(&i.m)), "{}: encoding {} fails with {:?}, which names none of its faults {}", e.name, show(&v), i.m, clip(&format!("{all:?}"), 300));
			if all.len() == 1 {
				ensure!(without_index(&i.m) == without_index(&want), "{}: encoding {} fails with {:?} rather than {want:?}", e.name, show(&v), i.m);
			}
		} else {
			ensure!(i.m == want, "{}: encoding {} fails with {:?} rather than {want:?}", e.name, show(&v), i.m);
		}
		return check_chain(e.name, &e.ty, &i);
	}
	if e.dec.is_none() { return Ok(()) }
	let b = gen_input(g, &e.ty);
	let Dec::Err(want) = ref_decode(&e.ty, &b).0 else { return Ok(()) };
	o.nontrivial(true);
	o.key(format!("{want:?}").as_bytes());
	o.class("decode error");
	o.describe(|| format!("{} {} -> {want:?}", e.name, hex(&b)));
	let d = decode_at(e, &b, 0);
	let Ok(Err(i)) = &d.out else { return Err(format!("{}: {} should fail with {want:?} but gives {}", e.name, hex(&b), what(&d))) };
	ensure!(i.m == want, "{}: decoding {} fails with {:?} rather than {want:?}", e.name, hex(&b), i.m);
	check_chain(e.name, &e.ty, i)
}

/// Whether decoding or encoding the type can fail with an error at all.
fn can_err(e: &Entry) -> bool {
	can_be_bad(&e.ty) || e.dec.is_some() && any_ty(&e.ty, &|t| matches!(t, Ty::NonZero(_) | Ty::Char | Ty::Str(_) | Ty::CStr
		| Ty::Seq(_, Some(_)) | Ty::Bound(_) | Ty::Ip | Ty::Sa | Ty::Enum(..)))
}

#[cfg(feature = "full")]
/// The index reported for an entry of a map or set is its place in iteration
/// order.
fn c09_map_index(g: &mut Gen, o: &mut Obs) -> R {
	use crate::subject::H;
	let n = g.range(1, 30);
	let bad = g.range(1, 3);
	let val = |g: &mut Gen, i: usize| if g.chance(bad as u64, 20) { 0x10000 + i } else { i };
	let keys: Vec<usize> = (0..n).map(|i| val(g, i)).collect();
	let vals: Vec<usize> = (0..n).map(|i| val(g, i + 1000)).collect();
	let map: std::collections::HashMap<usize, usize, H> = keys.iter().copied().zip(vals).collect();
	let set: std::collections::HashSet<usize, H> = keys.into_iter().collect();
	let list: std::collections::LinkedList<usize> = set.iter().copied().collect();
	let mut buf = vec![0; 8 * n + 16];
	let at = |i: usize, x: usize| ErrM::BadItem(Box::new(ErrM::At(i, Box::new(ErrM::Usize(x)))));
	let want_map = map.iter().enumerate().find_map(|(i, (k, v))| if *k > 0xFFFF { Some(at(i, *k)) } else if *v > 0xFFFF { Some(at(i, *v)) } else { None });
	let want_set = set.iter().enumerate().find_map(|(i, k)| if *k > 0xFFFF { Some(at(i, *k)) } else { None });
	o.nontrivial(want_map.is_some());
	o.key(format!("{map:?}").as_bytes());
	o.describe(|| format!("{map:?} -> {want_map:?}"));
	let got = map.encode(&mut Output::new(&mut buf)).err().map(|e| e.m());
	ensure!(got == want_map, "encoding the map {map:?} fails with {got:?} rather than {want_map:?}");
	let got = set.encode(&mut Output::new(&mut buf)).err().map(|e| e.m());
	ensure!(got == want_set, "encoding the set {set:?} fails with {got:?} rather than {want_set:?}");
	let got = list.encode(&mut Output::new(&mut buf)).err().map(|e| e.m());
	ensure!(got == want_set, "encoding the list {list:?} fails with {got:?} rather than {want_set:?}");
	Ok(())
}

// ----------------------------------------------------------------------- C10

/// The wire shape of a type, without what only restricts it.
pub fn shape(t: &Ty) -> Ty {
	let b = |t: &Ty| Box::new(shape(t));
	match t {
		Ty::NonZero(i) => Ty::Int(*i),
		Ty::Str(_) | Ty::CStr => Ty::Seq(Box::new(Ty::Int(Int::U8)), None),
		Ty::Seq(t, _) => Ty::Seq(b(t), None),
		Ty::RefCell(t) => shape(t),
		Ty::Tuple(ts) | Ty::Struct(ts) => Ty::Tuple(ts.iter().map(shape).collect()),
		Ty::Array(t, n) if *n <= 12 => Ty::Tuple(vec![shape(t); *n]),
		Ty::Array(t, n) => Ty::Array(b(t), *n),
		Ty::Map(k, v) => Ty::Map(b(k), b(v)),
		Ty::Set(k) => Ty::Set(b(k)),
		Ty::Opt(t) => Ty::Opt(b(t)),
		Ty::Res(t, e) => Ty::Res(b(t), b(e)),
		Ty::Bound(t) => Ty::Bound(b(t)),
		Ty::Enum(r, vs) => Ty::Enum(*r, vs.iter().map(|(d, ts)| (*d, ts.iter().map(shape).collect())).collect()),
		t => t.clone(),
	}
}

/// Groups of entries of one shape, by index.
pub fn groups(es: &[Entry]) -> Vec<Vec<usize>> {
	let mut g: Vec<(Ty, Vec<usize>)> = Vec::new();
	for (i, e) in es.iter().enumerate() {
		let s = shape(&e.ty);
		match g.iter_mut().find(|(t, _)| *t == s) { Some((_, v)) => v.push(i), None => g.push((s, vec![i])) }
	}
	g.into_iter().map(|(_, v)| v).filter(|v| v.len() > 1).collect()
}

fn c10(es: &'static [Entry], group: Vec<usize>) -> impl Fn(&mut Gen, &mut Obs) -> R {
	move |g, o| {
		let a = &es[*g.pick(&group)];
		let mut vo = ValOpts::good();
		vo.budget = if g.chance(1, 24) { 4000 } else { 500 };
		let v = gen_val(g, &a.ty, &mut vo);
		let ab = encode_good(a, &v)?;
		o.key(&ab);
		o.nontrivial(ab.len() > 2);
		o.describe(|| format!("{} {} -> {}, against {} other forms", a.name, show(&v), hex(&ab), group.len() - 1));
		for _ in 0..4 {
			let b = &es[*g.pick(&group)];
			match ref_decode(&b.ty, &ab).0 {
				Dec::Ok(w) => {
					o.class("same contents in another form");
					let bb = encode_good(b, &w)?;
					if !unordered(a) {
						ensure!(ab == bb, "{} {} encodes as {}, but {} {} as {}", a.name, show(&v), hex(&ab), b.name, show(&w), hex(&bb));
					} else { layout(b, &w, &bb)? }
					if b.dec.is_some() {
						let d = decode_at(b, &ab, 0);
						ensure!(matches!(&d.out, Ok(Ok(x)) if canon(x) == canon(&w)) && d.pos == ab.len(),
							"the encoding {} of {} {} decodes as {} to {} at {}", hex(&ab), a.name, show(&v), b.name, what(&d), d.pos);
					}
				},
				r => if b.dec.is_some() {
					o.class("contents the other form cannot hold");
					let d = decode_at(b, &ab, 0);
					ensure!(!matches!(d.out, Ok(Ok(_))), "the encoding {} of {} {} is invalid as {} ({r:?}), but gives {}", hex(&ab), a.name, show(&v), b.name, what(&d));
				},
			}
		}
		Ok(())
	}
}

// ----------------------------------------------------------------------- C20

#[cfg(feature = "full")]
fn c20_duration(g: &mut Gen, o: &mut Obs) -> R {
	let s = g.uint(64) as u64;
	let n = match g.draw(4) { 0 => 0, 1 => 999_999_999, 2 => g.draw(999) as u32, 3 => 1 << g.draw(29), _ => g.draw(999_999_999) as u32 };
	let d = Duration::new(s, n);
	o.key(&s.to_le_bytes());
	o.key(&n.to_le_bytes());
	o.nontrivial(n > 0);
	o.describe(|| format!("{s} s and {n} ns"));
	let mut buf = [0x3C; 14];
	let mut out = Output::new(&mut buf);
	catch(|| d.encode(&mut out)).map_err(|p| format!("encoding {d:?} panicked: {p}"))?.unwrap();
	ensure!(out.position() == 12, "a duration takes {} bytes", out.position());
	let mut want = s.to_le_bytes().to_vec();
	want.extend(n.to_le_bytes());
	ensure!(buf[..12] == want[..], "{d:?} encodes as {}", hex(&buf[..12]));
	let mut i = Input::new(&buf);
	let back = catch(|| Duration::decode(&mut i)).map_err(|p| format!("decoding {d:?} panicked: {p}"))?.unwrap();
	ensure!(back == d && i.position() == 12, "{d:?} decodes as {back:?} at {}", i.position());
	Ok(())
}

#[cfg(feature = "full")]
fn enc_time(t: SystemTime) -> Result<[u8; 8], String> {
	let mut buf = [0x3C; 8];
	let mut out = Output::new(&mut buf);
	match catch(|| t.encode(&mut out)).map_err(|p| format!("encoding {:?} (seconds, nanoseconds) panicked: {p}", view_time(t)))? {
		Ok(()) => (),
		#[allow(unreachable_patterns)]
		Err(e) => return Err(format!("encoding {:?} failed: {e:?}", view_time(t))),
	}
	if out.position() != 8 { return Err(format!("a time takes {} bytes", out.position())) }
	Ok(buf)
}

#[cfg(feature = "full")]
fn dec_time(b: [u8; 8]) -> Result<SystemTime, String> {
	catch(|| SystemTime::decode(&mut Input::new(&b))).map_err(|p| format!("decoding {} panicked: {p}", hex(&b)))?
		.map_err(|e| format!("decoding {} failed: {e}", hex(&b)))
}

#[cfg(feature = "full")]
fn gen_secs(g: &mut Gen) -> i64 {
	match g.draw(5) {
		0 => g.range(0, 8) as i64 - 4,
		1 => -(g.draw(1 << 33) as i64),
		2 => g.draw(1 << 33) as i64,
		3 => i64::MIN + g.draw(3) as i64,
		4 => i64::MAX - g.draw(3) as i64,
		_ => g.uint(64) as u64 as i64,
	}
}

#[cfg(feature = "full")]
fn gen_nanos(g: &mut Gen) -> u32 {
	match g.draw(4) { 0 => 0, 1 => 1, 2 => 999_999_999, 3 => 500_000_000, _ => g.draw(999_999_999) as u32 }
}

#[cfg(feature = "full")]
fn c20_time(g: &mut Gen, o: &mut Obs) -> R {
	let (s, n) = (gen_secs(g), gen_nanos(g));
	let t = time_of(s, n);
	o.key(&s.to_le_bytes());
	o.key(&n.to_le_bytes());
	o.nontrivial(s < 0 || n > 0);
	o.class(match (s < 0, n > 0) { (false, false) => "whole, after", (true, false) => "whole, before", (false, true) => "fraction, after", (true, true) => "fraction, before" });
	o.describe(|| format!("{s} s and {n} ns"));
	let b = enc_time(t)?;
	let k = i64::from_le_bytes(b);
	// t lies between s and s + 1 seconds.
	ensure!(k == s || n > 0 && Some(k) == s.checked_add(1), "the time {s} s + {n} ns encodes as {k} seconds");
	let u = dec_time(b)?;
	ensure!(view_time(u) == (k, 0), "the timestamp {k} decodes to {:?}", view_time(u));
	let diff = u.duration_since(t).unwrap_or_else(|e| e.duration());
	ensure!(diff < Duration::from_secs(1), "the time {s} s + {n} ns comes back {diff:?} away");
	// A second point, often close.
	let (s2, n2) = if g.boolean() { (s.saturating_add(g.range(0, 4) as i64 - 2), gen_nanos(g)) } else { (gen_secs(g), gen_nanos(g)) };
	let t2 = time_of(s2, n2);
	let k2 = i64::from_le_bytes(enc_time(t2)?);
	let ok = match t.cmp(&t2) { std::cmp::Ordering::Less => k <= k2, std::cmp::Ordering::Equal => k == k2, std::cmp::Ordering::Greater => k >= k2 };
	ensure!(ok, "the times {s} s + {n} ns and {s2} s + {n2} ns encode as {k} and {k2}");
	Ok(())
}

#[cfg(feature = "full")]
fn c20_stamp(g: &mut Gen, o: &mut Obs) -> R {
	let k = gen_secs(g);
	o.key(&k.to_le_bytes());
	o.nontrivial(k != 0);
	o.describe(|| format!("timestamp {k}"));
	let b = k.to_le_bytes();
	// Linux represents every 64-bit timestamp.
	let t = dec_time(b)?;
	ensure!(view_time(t) == (k, 0), "the timestamp {k} decodes to {:?}", view_time(t));
	let back = enc_time(t)?;
	ensure!(back == b, "the timestamp {k} encodes back as {}", i64::from_le_bytes(back));
	Ok(())
}

// --------------------------------------------------------------------- units

type Check = fn(&Entry, &mut Gen, &mut Obs) -> R;

#[cfg(feature = "full")]
/// All codec units over the given entries.
pub fn units(es: &'static [Entry]) -> Vec<Unit> {
	let mut v = Vec::new();
	let mut per = |prop: &'static str, cases: u64, f: Check, keep: &dyn Fn(&Entry) -> bool| {
		if !asked(prop) { return }
		let kind = if f as usize == everywhere as usize { " everywhere" } else { "" };
		for e in es.iter().filter(|e| keep(e) && !(cfg!(miri) && heavy(&e.ty))) {
			v.push(unit(prop, format!("{}{} {}", prop.to_lowercase(), kind, e.name), cases, move |g, o| f(e, g, o)));
		}
	};
	per("C01", 1500, c01, &|e| e.dec.is_some());
	per("C02", 1500, c02, &|_| true);
	per("C03", 1500, c03, &|e| e.max.is_some());
	per("C04", 4000, c04, &|e| e.dec.is_some());
	per("C05", 1000, c05, &|e| can_be_bad(&e.ty));
	per("C05", 100, c05, &|e| !can_be_bad(&e.ty));
	per("C06", 1000, c06, &|_| true);
	per("C07", 600, c07, &|e| e.dec.is_some());
	per("C09", 2500, c09, &|e| can_err(e));
	if !cfg!(miri) { for prop in ["C01", "C02", "C06", "C07"] { per(prop, 2, everywhere, &|e| prop != "C07" || e.dec.is_some()) } }
	if asked("C04") && !cfg!(miri) {
		let two: Vec<&'static Entry> = es.iter().filter(|e| e.dec.is_some() && starts_with_two(&e.ty)).collect();
		v.push(exhaustive("C04", "c04 chars", 0x112, char_block));
		let decodable: &'static [Entry] = Box::leak(registry_decodable(es).into_boxed_slice());
		v.push(exhaustive("C04", "c04 first byte", decodable.len() as u64 * 256, c04_first(decodable)));
		if !two.is_empty() { v.push(exhaustive("C04", "c04 first two bytes", two.len() as u64 * 256, c04_first2(two))) }
	}
	v.push(unit("C05", "c05 lengths", 2000, c05_lengths));
	v.push(unit("C09", "c09 map index", 20000, c09_map_index));
	let groups = if asked("C10") { groups(es) } else { Vec::new() };
	for (n, gr) in groups.into_iter().enumerate() {
		let k = 2000 + 800 * gr.len() as u64;
		let name = format!("c10 group {n} ({})", es[gr[0]].name);
		v.push(unit("C10", name, k, c10(es, gr)));
	}
	v.push(unit("C20", "c20 duration", 300_000, c20_duration));
	v.push(unit("C20", "c20 time", 300_000, c20_time));
	v.push(unit("C20", "c20 stamp", 200_000, c20_stamp));
	v
}

fn registry_decodable(es: &'static [Entry]) -> Vec<Entry> {
	es.iter().filter(|e| e.dec.is_some())
		.map(|e| Entry { name: e.name, ty: e.ty.clone(), max: e.max, enc: e.enc, dec: e.dec, slot: e.slot }).collect()
}

/// The same checks as one property of derived types.
pub fn derived_units(es: &'static [Entry]) -> Vec<Unit> { mixed_units("C11", es, 5000) }

/// All of the checks of a codec as one property.
pub fn mixed_units(prop: &'static str, es: &'static [Entry], cases: u64) -> Vec<Unit> {
	let mut v = Vec::new();
	let low = prop.to_lowercase();
	for e in es {
		v.push(unit(prop, format!("{low} {}", e.name), cases, move |g: &mut Gen, o: &mut Obs| {
			let checks: [(Check, bool); 8] = [
				(c01, e.dec.is_some()), (c02, true), (c03, e.max.is_some()), (c04, e.dec.is_some()), (c05, true),
				(c06, true), (c07, e.dec.is_some()), (c09, can_err(e)),
			];
			let ok: Vec<Check> = checks.iter().filter(|c| c.1).map(|c| c.0).collect();
			(g.pick(&ok))(e, g, o)
		}));
	}
	let decodable: &'static [Entry] = Box::leak(registry_decodable(es).into_boxed_slice());
	v.push(exhaustive(prop, format!("{low} first byte"), decodable.len() as u64 * 256, c04_first(decodable)));
	let two: Vec<&'static Entry> = decodable.iter().filter(|e| starts_with_two(&e.ty)).collect();
	if !two.is_empty() { v.push(exhaustive(prop, format!("{low} first two bytes"), two.len() as u64 * 256, c04_first2(two))) }
	v
}

#[cfg(feature = "full")]
/// K3: `Duration::decode` cannot refuse, and panics when the carry of the
/// nanoseconds overflows the seconds.
pub fn known_c04() -> Result<Vec<crate::engine::Known>, String> {
	use oct::decode::{Decode, Input};
	use std::time::Duration;
	let mut what = None;
	for (s, n, over) in [
		(u64::MAX, 999_999_999u32, false), (u64::MAX, 1_000_000_000, true), (u64::MAX - 3, 3_999_999_999, false),
		(u64::MAX - 3, 4_000_000_000, true), (u64::MAX - 4, u32::MAX, false), (u64::MAX, u32::MAX, true), (0, u32::MAX, false),
	] {
		let mut d = s.to_le_bytes().to_vec();
		d.extend(n.to_le_bytes());
		let r = crate::engine::catch(|| { let mut i = Input::new(&d); Duration::decode(&mut i).map_err(|_| ()) });
		match (over, r) {
			(false, Ok(Ok(x))) => {
				let want = Duration::new(s + n as u64 / 1_000_000_000, n % 1_000_000_000);
				if x != want { return Err(format!("Duration: {} decodes to {x:?} rather than {want:?}", hex(&d))) }
			},
			(false, r) => return Err(format!("Duration: decoding {} gives {r:?}", hex(&d))),
			(true, Err(_)) => { what.get_or_insert(format!("Duration::decode panics on {s} seconds and {n} nanoseconds, which overflow")); },
			(true, Ok(Err(_))) => (),
			(true, Ok(Ok(x))) => return Err(format!("Duration: {} overflows, but decodes to {x:?}", hex(&d))),
		}
	}
	Ok(what.map(|what| crate::engine::Known { prop: "C04", sig: "duration-overflow", what }).into_iter().collect())
}

/// Compares `x` with its contents `want` and with what is close to them, as
/// slices, and behind both kinds of references, for equality and inequality.
#[macro_export]
macro_rules! equals_only { ($x:expr, $want:expr, $what:literal) => {{
	let want: &[u8] = $want;
	let n = want.len();
	let mut near: Vec<Vec<u8>> = vec![want.to_vec(), Vec::new(), vec![0], [want, &[0]].concat(), [want, want].concat(), [&[0], want].concat()];
	if n > 0 {
		near.push(want[..n - 1].to_vec());
		near.push(want[1..].to_vec());
		near.push(want[..1].to_vec());
		for (i, b) in [(0, 1), (n / 2, 0x10), (n - 1, 0x80), ((n * 7) / 8, 0x40)] { let mut w = want.to_vec(); w[i] ^= b; near.push(w) }
		near.push(want.iter().rev().copied().collect());
	}
	for mut w in near {
		let same = w == want;
		let all = {
			let a = (*$x == w[..], *$x != w[..]);
			let b = (*$x == &w[..], *$x != &w[..]);
			let m: &mut [u8] = &mut w;
			let c = (*$x == m, *$x != m);
			[a, b, c]
		};
		for (kind, (eq, ne)) in ["[u8]", "&[u8]", "&mut [u8]"].iter().zip(all) {
			$crate::ensure!(eq == same && ne != same, concat!($what, " that holds {} compares with {} as a {} by == as {} and by != as {}"), $crate::model::hex(want), $crate::model::hex(&w), kind, eq, ne);
		}
	}
}} }
