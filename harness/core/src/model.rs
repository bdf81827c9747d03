//! Reference model of the documented data format, independent of oct.

use crate::engine::Gen;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Int { U8, U16, U32, U64, U128, I8, I16, I32, I64, I128, Usize, Isize }

impl Int {
	pub fn wire(self) -> usize {
		match self {
			Int::U8 | Int::I8 => 1,
			Int::U16 | Int::I16 | Int::Usize | Int::Isize => 2,
			Int::U32 | Int::I32 => 4,
			Int::U64 | Int::I64 => 8,
			Int::U128 | Int::I128 => 16,
		}
	}
	/// In-memory bits.
	pub fn bits(self) -> u32 {
		match self { Int::Usize | Int::Isize => usize::BITS, i => i.wire() as u32 * 8 }
	}
	pub fn signed(self) -> bool {
		matches!(self, Int::I8 | Int::I16 | Int::I32 | Int::I64 | Int::I128 | Int::Isize)
	}
	pub fn mask(self) -> u128 { if self.bits() == 128 { u128::MAX } else { (1 << self.bits()) - 1 } }
	/// The in-memory bits `raw`, sign- or zero-extended to 128 bits.
	pub fn extend(self, raw: u128) -> u128 {
		if self.signed() && self.bits() < 128 {
			let s = 128 - self.bits();
			(((raw << s) as i128) >> s) as u128
		} else { raw }
	}
	/// Whether the in-memory bits `raw` survive the wire form.
	pub fn encodable(self, raw: u128) -> bool {
		match self {
			Int::Usize => raw <= 0xFFFF,
			Int::Isize => { let v = self.extend(raw) as i128; (-0x8000..=0x7FFF).contains(&v) },
			_ => true,
		}
	}
	/// The in-memory bits of the value with the wire bits `w`.
	pub fn from_wire(self, w: u128) -> u128 {
		match self {
			Int::Isize => (w as u16 as i16 as i64 as u64 as u128) & self.mask(),
			_ => w,
		}
	}
	pub fn name(self) -> &'static str {
		match self {
			Int::U8 => "u8", Int::U16 => "u16", Int::U32 => "u32", Int::U64 => "u64", Int::U128 => "u128",
			Int::I8 => "i8", Int::I16 => "i16", Int::I32 => "i32", Int::I64 => "i64", Int::I128 => "i128",
			Int::Usize => "usize", Int::Isize => "isize",
		}
	}
}

/// A type, as far as the data format and the error model are concerned.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
	Int(Int),
	NonZero(Int),
	F32,
	F64,
	Bool,
	Char,
	/// Any type without contents.
	Unit,
	/// Bare concatenation, errors passed through.
	Tuple(Vec<Ty>),
	/// Bare concatenation with indexed errors.
	Array(Box<Ty>, usize),
	/// Count and items.
	Seq(Box<Ty>, Option<usize>),
	Str(Option<usize>),
	CStr,
	Map(Box<Ty>, Box<Ty>),
	Set(Box<Ty>),
	Opt(Box<Ty>),
	Res(Box<Ty>, Box<Ty>),
	Bound(Box<Ty>),
	Ip4, Ip6, Ip, Sa4, Sa6, Sa,
	Duration,
	Time,
	/// Transparent except that encode errors are wrapped.
	RefCell(Box<Ty>),
	/// Derived; errors are generic.
	Struct(Vec<Ty>),
	Enum(Int, Vec<(u128, Vec<Ty>)>),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Val {
	/// The in-memory bits (also floats and addresses).
	Int(u128),
	Bool(bool),
	Char(u32),
	Unit,
	/// Tuples, arrays, sequences, structs.
	List(Rc<Vec<Val>>),
	/// Octets of strings.
	Bytes(Rc<Vec<u8>>),
	/// In iteration order; `canon` sorts.
	Pairs(Rc<Vec<(Val, Val)>>),
	Keys(Rc<Vec<Val>>),
	Opt(Option<Rc<Val>>),
	/// `Ok` is false, as the sign is.
	Res(bool, Rc<Val>),
	/// 0 included, 1 excluded, 2 unbounded
	Bound(u8, Option<Rc<Val>>),
	Sa4(u32, u16),
	Sa6(u128, u16, u32, u32),
	/// Version 4 or 6.
	Ver(u8, Rc<Val>),
	Dur(u64, u32),
	/// Whole seconds since the epoch (floor), nanoseconds.
	Time(i64, u32),
	/// Variant index and fields.
	Variant(usize, Rc<Vec<Val>>),
}

pub fn list(v: Vec<Val>) -> Val { Val::List(Rc::new(v)) }

impl Val {
	pub fn int(&self) -> u128 { if let Val::Int(x) = self { *x } else { panic!("model: int") } }
	pub fn items(&self) -> &[Val] { if let Val::List(x) = self { x } else { panic!("model: list") } }
	pub fn bytes(&self) -> &[u8] { if let Val::Bytes(x) = self { x } else { panic!("model: bytes") } }
}

/// Errors, structurally.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ErrM {
	BadLength(Box<ErrM>),
	BadItem(Box<ErrM>),
	At(usize, Box<ErrM>),
	Usize(usize),
	Isize(isize),
	BadBorrow,
	BadValue(Box<ErrM>),
	BadDiscriminant(Box<ErrM>),
	BadField(Box<ErrM>),
	InvalidDiscriminant(Box<ErrM>),
	/// Zero-extended.
	Unassigned(u128),
	Len { capacity: usize, len: usize },
	Utf8 { value: u8, index: usize },
	Nul(usize),
	Char(u32),
	Zero,
	Time(i64),
	Generic(Box<ErrM>),
	Other(String),
	Never,
}

/// The generic (derived) form of an error: only its payload survives.
pub fn generic(e: ErrM) -> ErrM {
	fn leaf(e: ErrM) -> ErrM {
		match e {
			ErrM::BadLength(e) | ErrM::BadItem(e) | ErrM::At(_, e) | ErrM::BadDiscriminant(e)
			| ErrM::BadField(e) | ErrM::InvalidDiscriminant(e) | ErrM::Generic(e) => leaf(*e),
			e => e,
		}
	}
	ErrM::Generic(Box::new(leaf(e)))
}

pub fn leaf(e: &ErrM) -> &ErrM {
	match e {
		ErrM::BadLength(e) | ErrM::BadItem(e) | ErrM::At(_, e) | ErrM::BadDiscriminant(e) | ErrM::BadValue(e)
		| ErrM::BadField(e) | ErrM::InvalidDiscriminant(e) | ErrM::Generic(e) => leaf(e),
		e => e,
	}
}

fn put_le(out: &mut Vec<u8>, v: u128, n: usize) { out.extend_from_slice(&v.to_le_bytes()[..n]) }

fn enc_int(i: Int, raw: u128, out: &mut Vec<u8>) -> Result<(), ErrM> {
	if !i.encodable(raw) {
		return Err(match i {
			Int::Usize => ErrM::Usize(raw as usize),
			_ => ErrM::Isize(raw as u64 as isize),
		});
	}
	put_le(out, raw, i.wire());
	Ok(())
}

fn enc_count(n: usize, out: &mut Vec<u8>) -> Result<(), ErrM> {
	if n > 0xFFFF { return Err(ErrM::BadLength(Box::new(ErrM::Usize(n)))) }
	put_le(out, n as u128, 2);
	Ok(())
}

fn at(i: usize, e: ErrM) -> ErrM { ErrM::BadItem(Box::new(ErrM::At(i, Box::new(e)))) }

/// The documented encoding.
pub fn ref_encode(ty: &Ty, v: &Val, out: &mut Vec<u8>) -> Result<(), ErrM> {
	match (ty, v) {
		(Ty::Int(i) | Ty::NonZero(i), Val::Int(x)) => enc_int(*i, *x, out),
		(Ty::F32, Val::Int(x)) => { put_le(out, *x, 4); Ok(()) },
		(Ty::F64, Val::Int(x)) => { put_le(out, *x, 8); Ok(()) },
		(Ty::Bool, Val::Bool(b)) => { out.push(*b as u8); Ok(()) },
		(Ty::Char, Val::Char(c)) => { put_le(out, *c as u128, 4); Ok(()) },
		(Ty::Unit, Val::Unit) => Ok(()),
		(Ty::Tuple(ts), Val::List(vs)) => {
			for (t, v) in ts.iter().zip(vs.iter()) { ref_encode(t, v, out)? }
			Ok(())
		},
		(Ty::Array(t, _), Val::List(vs)) => {
			for (i, v) in vs.iter().enumerate() { ref_encode(t, v, out).map_err(|e| at(i, e))? }
			Ok(())
		},
		(Ty::Seq(t, _), Val::List(vs)) => {
			enc_count(vs.len(), out)?;
			for (i, v) in vs.iter().enumerate() { ref_encode(t, v, out).map_err(|e| at(i, e))? }
			Ok(())
		},
		(Ty::Str(_) | Ty::CStr, Val::Bytes(b)) => {
			enc_count(b.len(), out)?;
			out.extend_from_slice(b);
			Ok(())
		},
		(Ty::Map(k, t), Val::Pairs(ps)) => {
			enc_count(ps.len(), out)?;
			for (i, (a, b)) in ps.iter().enumerate() {
				ref_encode(k, a, out).map_err(|e| at(i, e))?;
				ref_encode(t, b, out).map_err(|e| at(i, e))?;
			}
			Ok(())
		},
		(Ty::Set(k), Val::Keys(ks)) => {
			enc_count(ks.len(), out)?;
			for (i, a) in ks.iter().enumerate() { ref_encode(k, a, out).map_err(|e| at(i, e))? }
			Ok(())
		},
		(Ty::Opt(_), Val::Opt(None)) => { out.push(0); Ok(()) },
		(Ty::Opt(t), Val::Opt(Some(v))) => { out.push(1); ref_encode(t, v, out) },
		(Ty::Res(t, e), Val::Res(s, v)) => { out.push(*s as u8); ref_encode(if *s { e } else { t }, v, out) },
		(Ty::Bound(t), Val::Bound(d, v)) => {
			out.push(*d);
			if let Some(v) = v { ref_encode(t, v, out).map_err(|e| ErrM::BadField(Box::new(e)))? }
			Ok(())
		},
		(Ty::Ip4, Val::Int(x)) => { put_le(out, *x, 4); Ok(()) },
		(Ty::Ip6, Val::Int(x)) => { put_le(out, *x, 16); Ok(()) },
		(Ty::Ip, Val::Ver(n, v)) => { out.push(*n); ref_encode(if *n == 4 { &Ty::Ip4 } else { &Ty::Ip6 }, v, out) },
		(Ty::Sa4, Val::Sa4(a, p)) => { put_le(out, *a as u128, 4); put_le(out, *p as u128, 2); Ok(()) },
		(Ty::Sa6, Val::Sa6(a, p, f, s)) => {
			put_le(out, *a, 16);
			put_le(out, *p as u128, 2);
			put_le(out, *f as u128, 4);
			put_le(out, *s as u128, 4);
			Ok(())
		},
		(Ty::Sa, Val::Ver(n, v)) => { out.push(*n); ref_encode(if *n == 4 { &Ty::Sa4 } else { &Ty::Sa6 }, v, out) },
		(Ty::Duration, Val::Dur(s, n)) => { put_le(out, *s as u128, 8); put_le(out, *n as u128, 4); Ok(()) },
		(Ty::Time, Val::Time(s, _)) => { put_le(out, *s as u64 as u128, 8); Ok(()) },
		(Ty::RefCell(t), v) => ref_encode(t, v, out).map_err(|e| ErrM::BadValue(Box::new(e))),
		(Ty::Struct(ts), Val::List(vs)) => {
			for (t, v) in ts.iter().zip(vs.iter()) { ref_encode(t, v, out).map_err(generic)? }
			Ok(())
		},
		(Ty::Enum(r, vars), Val::Variant(i, vs)) => {
			let (d, ts) = &vars[*i];
			enc_int(*r, *d & r.mask(), out).map_err(|e| ErrM::BadDiscriminant(Box::new(e)))?;
			for (t, v) in ts.iter().zip(vs.iter()) {
				ref_encode(t, v, out).map_err(|e| ErrM::BadField(Box::new(generic(e))))?;
			}
			Ok(())
		},
		(t, v) => panic!("model: {v:?} is not of type {t:?}"),
	}
}

/// Upper bound of what encoding may write before it fails.
pub fn room_for(ty: &Ty, v: &Val) -> usize {
	match (ty, v) {
		(Ty::Tuple(ts) | Ty::Struct(ts), Val::List(vs)) => ts.iter().zip(vs.iter()).map(|(t, v)| room_for(t, v)).sum(),
		(Ty::Array(t, _), Val::List(vs)) => vs.iter().map(|v| room_for(t, v)).sum(),
		(Ty::Seq(t, _), Val::List(vs)) => 2 + vs.iter().map(|v| room_for(t, v)).sum::<usize>(),
		(Ty::Map(k, t), Val::Pairs(ps)) => 2 + ps.iter().map(|(a, b)| room_for(k, a) + room_for(t, b)).sum::<usize>(),
		(Ty::Set(k), Val::Keys(ks)) => 2 + ks.iter().map(|a| room_for(k, a)).sum::<usize>(),
		(_, Val::Bytes(b)) => 2 + b.len(),
		(Ty::Opt(t) | Ty::Bound(t), Val::Opt(Some(v)) | Val::Bound(_, Some(v))) => 1 + room_for(t, v),
		(Ty::Res(t, e), Val::Res(s, v)) => 1 + room_for(if *s { e } else { t }, v),
		(Ty::RefCell(t), v) => room_for(t, v),
		(Ty::Enum(_, vars), Val::Variant(i, vs)) =>
			16 + vars[*i].1.iter().zip(vs.iter()).map(|(t, v)| room_for(t, v)).sum::<usize>(),
		_ => 32,
	}
}

#[derive(Clone, Debug, PartialEq)]
pub enum Dec {
	Ok(Val),
	Err(ErrM),
	/// The input ends before the encoding does.
	Short,
	/// Both a fault and missing bytes; either refusal is fine.
	ErrOrShort,
	/// A duration whose seconds overflow.
	DurOverflow,
}

pub struct Cur<'a> { pub d: &'a [u8], pub pos: usize }

impl<'a> Cur<'a> {
	fn take(&mut self, n: usize) -> Result<&'a [u8], Dec> {
		if self.d.len() - self.pos < n { return Err(Dec::Short) }
		let r = &self.d[self.pos..self.pos + n];
		self.pos += n;
		Ok(r)
	}
	fn le(&mut self, n: usize) -> Result<u128, Dec> {
		let b = self.take(n)?;
		let mut x = [0u8; 16];
		x[..n].copy_from_slice(b);
		Ok(u128::from_le_bytes(x))
	}
}

/// Length of the longest valid UTF-8 prefix (RFC 3629 table 3-7).
pub fn utf8_prefix(b: &[u8]) -> usize {
	let mut i = 0;
	loop {
		let Some(&c) = b.get(i) else { return i };
		let cont = |k: usize, lo: u8, hi: u8| b.get(i + k).is_some_and(|x| (lo..=hi).contains(x));
		let n = match c {
			0x00..=0x7F => 1,
			0xC2..=0xDF if cont(1, 0x80, 0xBF) => 2,
			0xE0 if cont(1, 0xA0, 0xBF) && cont(2, 0x80, 0xBF) => 3,
			0xE1..=0xEC | 0xEE..=0xEF if cont(1, 0x80, 0xBF) && cont(2, 0x80, 0xBF) => 3,
			0xED if cont(1, 0x80, 0x9F) && cont(2, 0x80, 0xBF) => 3,
			0xF0 if cont(1, 0x90, 0xBF) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) => 4,
			0xF1..=0xF3 if cont(1, 0x80, 0xBF) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) => 4,
			0xF4 if cont(1, 0x80, 0x8F) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) => 4,
			_ => return i,
		};
		i += n;
	}
}

pub fn valid_char(c: u32) -> bool { c < 0xD800 || (0xE000..=0x10FFFF).contains(&c) }

type D<T> = Result<T, Dec>;

fn wrap<T>(r: D<T>, f: impl FnOnce(ErrM) -> ErrM) -> D<T> {
	r.map_err(|d| match d { Dec::Err(e) => Dec::Err(f(e)), d => d })
}

fn dec(ty: &Ty, c: &mut Cur) -> D<Val> {
	Ok(match ty {
		Ty::Int(i) => Val::Int(i.from_wire(c.le(i.wire())?)),
		Ty::NonZero(i) => {
			let x = i.from_wire(c.le(i.wire())?);
			if x == 0 { return Err(Dec::Err(ErrM::Zero)) }
			Val::Int(x)
		},
		Ty::F32 => Val::Int(c.le(4)?),
		Ty::F64 => Val::Int(c.le(8)?),
		Ty::Bool => Val::Bool(c.le(1)? != 0),
		Ty::Char => {
			let x = c.le(4)? as u32;
			if !valid_char(x) { return Err(Dec::Err(ErrM::Char(x))) }
			Val::Char(x)
		},
		Ty::Unit => Val::Unit,
		Ty::Tuple(ts) => list(ts.iter().map(|t| dec(t, c)).collect::<D<_>>()?),
		Ty::Array(t, n) => list((0..*n).map(|i| wrap(dec(t, c), |e| at(i, e))).collect::<D<_>>()?),
		Ty::Seq(t, cap) => {
			let n = c.le(2)? as usize;
			if let Some(cap) = cap { if n > *cap {
				return Err(Dec::Err(ErrM::BadLength(Box::new(ErrM::Len { capacity: *cap, len: n }))));
			} }
			list((0..n).map(|i| wrap(dec(t, c), |e| at(i, e))).collect::<D<_>>()?)
		},
		Ty::Str(cap) => {
			let n = c.le(2)? as usize;
			let big = cap.is_some_and(|cap| n > cap);
			let b = match c.take(n) {
				Ok(b) => b,
				Err(_) if big => return Err(Dec::ErrOrShort),
				Err(d) => return Err(d),
			};
			if big {
				return Err(Dec::Err(ErrM::BadLength(Box::new(ErrM::Len { capacity: cap.unwrap(), len: n }))));
			}
			let p = utf8_prefix(b);
			if p < n { return Err(Dec::Err(ErrM::BadItem(Box::new(ErrM::Utf8 { value: b[p], index: p })))) }
			Val::Bytes(Rc::new(b.to_vec()))
		},
		Ty::CStr => {
			let n = c.le(2)? as usize;
			let b = c.take(n)?;
			if let Some(i) = b.iter().position(|x| *x == 0) { return Err(Dec::Err(ErrM::Nul(i))) }
			Val::Bytes(Rc::new(b.to_vec()))
		},
		Ty::Map(k, t) => {
			let n = c.le(2)? as usize;
			let mut v = Vec::new();
			for i in 0..n {
				let a = wrap(dec(k, c), |e| at(i, e))?;
				let b = wrap(dec(t, c), |e| at(i, e))?;
				v.push((a, b));
			}
			Val::Pairs(Rc::new(v))
		},
		Ty::Set(k) => {
			let n = c.le(2)? as usize;
			let mut v = Vec::new();
			for i in 0..n { v.push(wrap(dec(k, c), |e| at(i, e))?) }
			Val::Keys(Rc::new(v))
		},
		Ty::Opt(t) => if c.le(1)? != 0 { Val::Opt(Some(Rc::new(dec(t, c)?))) } else { Val::Opt(None) },
		Ty::Res(t, e) => {
			let s = c.le(1)? != 0;
			let v = wrap(dec(if s { e } else { t }, c), |e| ErrM::BadField(Box::new(e)))?;
			Val::Res(s, Rc::new(v))
		},
		Ty::Bound(t) => match c.le(1)? as u8 {
			d @ (0 | 1) => Val::Bound(d, Some(Rc::new(wrap(dec(t, c), |e| ErrM::BadField(Box::new(e)))?))),
			2 => Val::Bound(2, None),
			d => return Err(Dec::Err(ErrM::Unassigned(d as u128))),
		},
		Ty::Ip4 => Val::Int(c.le(4)?),
		Ty::Ip6 => Val::Int(c.le(16)?),
		Ty::Sa4 => Val::Sa4(c.le(4)? as u32, c.le(2)? as u16),
		Ty::Sa6 => Val::Sa6(c.le(16)?, c.le(2)? as u16, c.le(4)? as u32, c.le(4)? as u32),
		Ty::Ip | Ty::Sa => {
			let (a, b) = if *ty == Ty::Ip { (Ty::Ip4, Ty::Ip6) } else { (Ty::Sa4, Ty::Sa6) };
			match c.le(1)? as u8 {
				4 => Val::Ver(4, Rc::new(dec(&a, c)?)),
				6 => Val::Ver(6, Rc::new(dec(&b, c)?)),
				d => return Err(Dec::Err(ErrM::Unassigned(d as u128))),
			}
		},
		Ty::Duration => {
			let s = c.le(8)? as u64;
			let n = c.le(4)? as u32;
			match s.checked_add(n as u64 / 1_000_000_000) {
				Some(s) => Val::Dur(s, n % 1_000_000_000),
				None => return Err(Dec::DurOverflow),
			}
		},
		Ty::Time => Val::Time(c.le(8)? as u64 as i64, 0),
		Ty::RefCell(t) => dec(t, c)?,
		Ty::Struct(ts) => list(ts.iter().map(|t| wrap(dec(t, c), generic)).collect::<D<_>>()?),
		Ty::Enum(r, vars) => {
			let d = r.from_wire(c.le(r.wire())?);
			let Some(i) = vars.iter().position(|(x, _)| *x & r.mask() == d) else {
				return Err(Dec::Err(ErrM::Unassigned(d)));
			};
			let fs = vars[i].1.iter()
				.map(|t| wrap(dec(t, c), |e| ErrM::BadField(Box::new(generic(e)))))
				.collect::<D<_>>()?;
			Val::Variant(i, Rc::new(fs))
		},
	})
}

/// Decodes the leading encoding; the order of map entries is kept.
pub fn ref_decode(ty: &Ty, d: &[u8]) -> (Dec, usize) {
	let mut c = Cur { d, pos: 0 };
	match dec(ty, &mut c) {
		Ok(v) => (Dec::Ok(v), c.pos),
		Err(e) => (e, c.pos),
	}
}

/// Entries of maps and sets sorted, and the last of equal keys kept.
pub fn canon(v: &Val) -> Val {
	match v {
		Val::List(x) => list(x.iter().map(canon).collect()),
		Val::Variant(i, x) => Val::Variant(*i, Rc::new(x.iter().map(canon).collect())),
		Val::Pairs(x) => {
			let m: BTreeMap<Val, Val> = x.iter().map(|(a, b)| (canon(a), canon(b))).collect();
			Val::Pairs(Rc::new(m.into_iter().collect()))
		},
		Val::Keys(x) => {
			let mut m: Vec<Val> = x.iter().map(canon).collect();
			m.sort();
			m.dedup();
			Val::Keys(Rc::new(m))
		},
		Val::Opt(Some(x)) => Val::Opt(Some(Rc::new(canon(x)))),
		Val::Res(s, x) => Val::Res(*s, Rc::new(canon(x))),
		Val::Bound(d, Some(x)) => Val::Bound(*d, Some(Rc::new(canon(x)))),
		v => v.clone(),
	}
}

pub fn has_map(ty: &Ty) -> bool { any_ty(ty, &|t| matches!(t, Ty::Map(..) | Ty::Set(..))) }
pub fn has_dur(ty: &Ty) -> bool { any_ty(ty, &|t| matches!(t, Ty::Duration)) }

pub fn any_ty(ty: &Ty, f: &dyn Fn(&Ty) -> bool) -> bool {
	f(ty) || match ty {
		Ty::Tuple(ts) | Ty::Struct(ts) => ts.iter().any(|t| any_ty(t, f)),
		Ty::Array(t, _) | Ty::Seq(t, _) | Ty::Set(t) | Ty::Opt(t) | Ty::Bound(t) | Ty::RefCell(t) => any_ty(t, f),
		Ty::Map(a, b) | Ty::Res(a, b) => any_ty(a, f) || any_ty(b, f),
		Ty::Enum(_, vs) => vs.iter().any(|(_, ts)| ts.iter().any(|t| any_ty(t, f))),
		_ => false,
	}
}

/// Smallest encoding.
/// Whether small inputs can hold tens of thousands of items, or the type is
/// large by itself; too much for an interpreter.
pub fn heavy(ty: &Ty) -> bool {
	match ty {
		Ty::Seq(t, c) => min_size(t) == 0 || c.is_some_and(|c| c > 1000) || heavy(t),
		Ty::Str(c) => c.is_some_and(|c| c > 1000),
		Ty::Map(k, v) => min_size(k) + min_size(v) == 0 || heavy(k) || heavy(v),
		Ty::Set(k) => min_size(k) == 0 || heavy(k),
		Ty::Tuple(ts) | Ty::Struct(ts) => ts.iter().any(heavy),
		Ty::Enum(_, vs) => vs.iter().any(|v| v.1.iter().any(heavy)),
		Ty::Array(t, _) | Ty::Opt(t) | Ty::Bound(t) | Ty::RefCell(t) => heavy(t),
		Ty::Res(a, b) => heavy(a) || heavy(b),
		_ => false,
	}
}

pub fn min_size(ty: &Ty) -> usize {
	match ty {
		Ty::Int(i) | Ty::NonZero(i) => i.wire(),
		Ty::F32 | Ty::Char | Ty::Ip4 => 4,
		Ty::F64 | Ty::Time => 8,
		Ty::Bool | Ty::Opt(_) | Ty::Bound(_) => 1,
		Ty::Unit => 0,
		Ty::Tuple(ts) | Ty::Struct(ts) => ts.iter().map(min_size).sum(),
		Ty::Array(t, n) => n * min_size(t),
		Ty::Seq(..) | Ty::Str(_) | Ty::CStr | Ty::Map(..) | Ty::Set(_) => 2,
		Ty::Res(a, b) => 1 + min_size(a).min(min_size(b)),
		Ty::Ip6 => 16,
		Ty::Ip => 5,
		Ty::Sa4 => 6,
		Ty::Sa6 => 26,
		Ty::Sa => 7,
		Ty::Duration => 12,
		Ty::RefCell(t) => min_size(t),
		Ty::Enum(r, vs) => r.wire() + vs.iter().map(|(_, ts)| ts.iter().map(min_size).sum::<usize>()).min().unwrap_or(0),
	}
}

/// The largest size the documented layout can produce, if there is one.
pub fn max_size(ty: &Ty) -> Option<usize> {
	Some(match ty {
		Ty::Int(_) | Ty::NonZero(_) | Ty::F32 | Ty::F64 | Ty::Bool | Ty::Char | Ty::Unit | Ty::Ip4 | Ty::Ip6
		| Ty::Sa4 | Ty::Sa6 | Ty::Duration | Ty::Time => min_size(ty),
		Ty::Tuple(ts) | Ty::Struct(ts) => ts.iter().map(max_size).sum::<Option<usize>>()?,
		Ty::Array(t, n) => n * max_size(t)?,
		Ty::Seq(t, Some(n)) => 2 + n * max_size(t)?,
		Ty::Str(Some(n)) => 2 + n,
		Ty::Seq(_, None) | Ty::Str(None) | Ty::CStr | Ty::Map(..) | Ty::Set(_) => return None,
		Ty::Opt(t) | Ty::Bound(t) => 1 + max_size(t)?,
		Ty::Res(a, b) => 1 + max_size(a)?.max(max_size(b)?),
		Ty::Ip => 17,
		Ty::Sa => 27,
		Ty::RefCell(t) => max_size(t)?,
		Ty::Enum(r, vs) => {
			let mut m = 0;
			for (_, ts) in vs { m = m.max(r.wire() + ts.iter().map(max_size).sum::<Option<usize>>()?) }
			m
		},
	})
}

// --------------------------------------------------------------- generators

pub struct ValOpts {
	/// Out of 64: how often a leaf is made unencodable where it can be.
	pub bad: u64,
	/// Every choice at its largest encoding.
	pub maximal: bool,
	/// Remaining wire bytes before the generator turns frugal.
	pub budget: i64,
}

impl ValOpts {
	pub fn good() -> Self { ValOpts { bad: 0, maximal: false, budget: 4000 } }
	pub fn bad(n: u64) -> Self { ValOpts { bad: n, maximal: false, budget: 4000 } }
	pub fn max() -> Self { ValOpts { bad: 0, maximal: true, budget: 100_000 } }
}

/// A float's bits: specials, NaN payloads, subnormals.
fn gen_float(g: &mut Gen, exp: u32, man: u32) -> u128 {
	let bits = 1 + exp + man;
	match g.draw(5) {
		0 => 0,
		1 => {
			let sign = g.draw(1) as u128;
			let e = if g.boolean() { (1u128 << exp) - 1 } else { 0 };
			let m = match g.draw(3) { 0 => 0, 1 => 1, 2 => 1u128 << (man - 1), _ => g.uint(man) };
			(sign << (bits - 1)) | (e << man) | m
		},
		_ => g.uint(bits),
	}
}

pub fn gen_char(g: &mut Gen) -> u32 {
	const EDGES: [u32; 28] = [0, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0xE001, 0x1F44D,
		0x09, 0x0A, 0x0D, 0x20, 0x22, 0x5C, 0x85, 0xA0, 0x301, 0x200B, 0x2028, 0xFEFF, 0xFFFE, 0xE9];
	if let Some(c) = g.fancy_in(0x20, 0x10FFFF) { if char::from_u32(c as u32).is_some() { return c as u32 } }
	match g.draw(3) {
		0 => *g.pick(&EDGES),
		1 => g.draw(0x7F) as u32,
		2 => { let x = g.draw(0xD7FF + 0x2000) as u32; if x >= 0xD800 { x + 0x800 } else { x } },
		_ => 0xE000 + g.draw(0x10FFFF - 0xE000) as u32,
	}
}

/// A length for a sequence of items of `item` wire bytes.
fn gen_len(g: &mut Gen, item: usize, cap: Option<usize>, o: &mut ValOpts) -> usize {
	let mut cap = cap.unwrap_or(0xFFFF).min(0xFFFF);
	// (Miri takes about a thousand times as long.)
	if cfg!(miri) { cap = cap.min(6) }
	if o.maximal { return if cap <= 400 { cap } else { 3 } }
	let afford = if item == 0 { cap } else { (o.budget.max(0) as usize / item).min(cap) };
	if let Some(n) = g.fancy_in(17, cap) {
		if n <= afford { return n }
		if item <= 1 && o.budget >= 3000 && g.chance(1, 1 + n as u64 / 1000) { o.budget = 70_000; return n }
	}
	let n = match g.draw(40) {
		0..=3 => 0,
		4..=25 => g.range(0, 6),
		26..=32 => g.range(0, 40),
		33 | 34 => cap.min(300),
		35 => cap.min(300).saturating_sub(1),
		36 => 255 + g.below(3),
		37 => 126 + g.below(4),
		38 => g.range(0, 600),
		39 => if g.chance(1, 24) && item <= 1 && o.budget >= 3000 { o.budget = 70_000; return cap.min(0xFFFF - g.below(3)) } else { 1 },
		_ => 2,
	};
	n.min(cap).min(afford)
}

fn gen_text(g: &mut Gen, n: usize, nul: bool) -> Vec<u8> {
	let mut v = Vec::new();
	let kind = g.draw(3);
	while v.len() < n {
		let c = match kind {
			0 => 0x61 + g.draw(25) as u32,
			1 => if g.chance(1, 4) { gen_char(g) } else { 0x20 + g.draw(0x5E) as u32 },
			_ => gen_char(g),
		};
		let c = char::from_u32(c).unwrap();
		if c == '\0' && !nul { continue_or_fill(&mut v); continue }
		let mut b = [0; 4];
		let s = c.encode_utf8(&mut b);
		if v.len() + s.len() > n {
			v.push(b'~');
		} else {
			v.extend_from_slice(s.as_bytes());
		}
	}
	v
}

fn continue_or_fill(v: &mut Vec<u8>) { v.push(b'_') }

/// A number of items beyond what the count can express.
fn bad_len(g: &mut Gen) -> usize {
	match g.draw(3) {
		0 => 0x1_0000,
		1 => 0x1_0001 + g.below(4),
		2 => 0x2_0000 - g.below(2),
		_ => 0x1_0000 + g.below(0x1_0000),
	}
}

/// An item that can be repeated tens of thousands of times; ends the budget.
fn small_val(g: &mut Gen, ty: &Ty, o: &mut ValOpts) -> Val {
	let mut small = ValOpts { bad: o.bad, maximal: false, budget: 2 };
	let v = gen_val(g, ty, &mut small);
	o.budget = 0;
	v
}

pub fn gen_val(g: &mut Gen, ty: &Ty, o: &mut ValOpts) -> Val {
	o.budget -= 1;
	let bad = |g: &mut Gen, o: &ValOpts| o.bad > 0 && g.chance(o.bad, 64);
	match ty {
		Ty::Int(i @ (Int::Usize | Int::Isize)) | Ty::NonZero(i @ (Int::Usize | Int::Isize)) => {
			let nz = matches!(ty, Ty::NonZero(_));
			let raw = if bad(g, o) {
				let x = match (i, g.draw(4)) {
					(Int::Usize, 0) => 0x1_0000,
					(Int::Isize, 0) => 0x8000,
					(Int::Isize, 1) => (-0x8001i64) as u64 as u128,
					(_, 2) => i.mask(),
					(_, 3) => 1 << (i.bits() - 1),
					_ => g.uint(i.bits()),
				} & i.mask();
				if i.encodable(x) { (1 << 40) + x } else { x }
			} else {
				let w = g.uint(16);
				i.from_wire(w)
			};
			Val::Int(if nz && raw == 0 { 1 } else { raw })
		},
		Ty::Int(i) => Val::Int(g.uint(i.bits())),
		Ty::NonZero(i) => { let x = g.uint(i.bits()); Val::Int(if x == 0 { 1 } else { x }) },
		Ty::F32 => Val::Int(gen_float(g, 8, 23)),
		Ty::F64 => Val::Int(gen_float(g, 11, 52)),
		Ty::Bool => Val::Bool(g.boolean()),
		Ty::Char => Val::Char(gen_char(g)),
		Ty::Unit => Val::Unit,
		Ty::Tuple(ts) | Ty::Struct(ts) => list(ts.iter().map(|t| gen_val(g, t, o)).collect()),
		Ty::Array(t, n) => list((0..*n).map(|_| gen_val(g, t, o)).collect()),
		Ty::Seq(t, cap) => {
			if cap.is_none_or(|c| c > 0xFFFF) && min_size(t) <= 1 && o.budget > 3000 && bad(g, o) {
				let n = bad_len(g).min(cap.unwrap_or(usize::MAX));
				let x = small_val(g, t, o);
				return list(vec![x; n]);
			}
			let n = gen_len(g, min_size(t), *cap, o);
			if n > 1000 {
				let (a, b) = (small_val(g, t, o), small_val(g, t, o));
				let k = g.below(n);
				return list((0..n).map(|i| if i == k { b.clone() } else { a.clone() }).collect());
			}
			list((0..n).map(|_| gen_val(g, t, o)).collect())
		},
		Ty::Str(cap) => {
			if cap.is_none_or(|c| c > 0xFFFF) && o.budget > 3000 && bad(g, o) {
				let n = bad_len(g).min(cap.unwrap_or(usize::MAX));
				o.budget = 0;
				return Val::Bytes(Rc::new(vec![b'x'; n]));
			}
			let n = gen_len(g, 1, *cap, o);
			let b = if n > 1000 { vec![b'a' + g.below(26) as u8; n] } else { gen_text(g, n, true) };
			o.budget -= n as i64;
			Val::Bytes(Rc::new(b))
		},
		Ty::CStr => {
			if o.budget > 3000 && bad(g, o) { o.budget = 0; return Val::Bytes(Rc::new(vec![b'x'; bad_len(g)])) }
			let n = gen_len(g, 1, None, o);
			o.budget -= n as i64;
			if n > 1000 { return Val::Bytes(Rc::new(vec![1 + g.below(255) as u8; n])) }
			Val::Bytes(Rc::new((0..n).map(|_| 1 + g.draw(254) as u8).collect()))
		},
		Ty::Map(k, t) => {
			if **k == Ty::Int(Int::U32) && o.budget > 3000 && bad(g, o) {
				let n = bad_len(g) as u128;
				let x = small_val(g, t, o);
				return Val::Pairs(Rc::new((0..n).map(|i| (Val::Int(i), x.clone())).collect()));
			}
			let n = gen_len(g, min_size(k) + min_size(t), Some(300), o);
			let m: BTreeMap<Val, Val> = (0..n).map(|_| (gen_val(g, k, o), gen_val(g, t, o))).collect();
			Val::Pairs(Rc::new(m.into_iter().collect()))
		},
		Ty::Set(k) => {
			if **k == Ty::Int(Int::U32) && o.budget > 3000 && bad(g, o) {
				let n = bad_len(g) as u128;
				o.budget = 0;
				return Val::Keys(Rc::new((0..n).map(Val::Int).collect()));
			}
			let n = gen_len(g, min_size(k), Some(300), o);
			let mut m: Vec<Val> = (0..n).map(|_| gen_val(g, k, o)).collect();
			m.sort();
			m.dedup();
			Val::Keys(Rc::new(m))
		},
		Ty::Opt(t) => if o.maximal || g.draw(2) > 0 { Val::Opt(Some(Rc::new(gen_val(g, t, o)))) } else { Val::Opt(None) },
		Ty::Res(t, e) => {
			let s = if o.maximal { max_size(e) > max_size(t) } else { g.boolean() };
			Val::Res(s, Rc::new(gen_val(g, if s { e } else { t }, o)))
		},
		Ty::Bound(t) => match if o.maximal { g.draw(1) } else { g.draw(2) } {
			2 => Val::Bound(2, None),
			d => Val::Bound(d as u8, Some(Rc::new(gen_val(g, t, o)))),
		},
		Ty::Ip4 => Val::Int(g.uint(32)),
		Ty::Ip6 => Val::Int(g.uint(128)),
		Ty::Sa4 => Val::Sa4(g.uint(32) as u32, g.uint(16) as u16),
		Ty::Sa6 => Val::Sa6(g.uint(128), g.uint(16) as u16, g.uint(32) as u32, g.uint(32) as u32),
		Ty::Ip | Ty::Sa => {
			let (a, b) = if *ty == Ty::Ip { (Ty::Ip4, Ty::Ip6) } else { (Ty::Sa4, Ty::Sa6) };
			if o.maximal || g.boolean() { Val::Ver(6, Rc::new(gen_val(g, &b, o))) } else { Val::Ver(4, Rc::new(gen_val(g, &a, o))) }
		},
		Ty::Duration => {
			let s = g.uint(64) as u64;
			if let Some(n) = g.fancy_in(0, 999_999_999) { return Val::Dur(s, n as u32) }
			let n = match g.draw(3) { 0 => 0, 1 => 999_999_999, 2 => g.draw(1000) as u32, _ => g.draw(999_999_999) as u32 };
			Val::Dur(s, n)
		},
		Ty::Time => Val::Time(g.uint(64) as u64 as i64, 0),
		Ty::RefCell(t) => gen_val(g, t, o),
		Ty::Enum(r, vs) => {
			let ok: Vec<usize> = (0..vs.len())
				.filter(|i| o.bad > 0 || r.encodable(vs[*i].0 & r.mask()))
				.collect();
			let i = if o.maximal {
				*ok.iter().max_by_key(|i| vs[**i].1.iter().map(|t| max_size(t).unwrap_or(0)).sum::<usize>()).unwrap()
			} else { *g.pick(&ok) };
			let fs = vs[i].1.iter().map(|t| gen_val(g, t, o)).collect();
			Val::Variant(i, Rc::new(fs))
		},
	}
}

/// Wire bytes that follow the shape of `ty`, with bad leaves in about
/// `bad` of 64 places that allow them.
pub fn gen_wire(g: &mut Gen, ty: &Ty, bad: u64, out: &mut Vec<u8>, budget: &mut i64) {
	*budget -= 1;
	let hit = |g: &mut Gen| bad > 0 && g.chance(bad, 64);
	let count = |g: &mut Gen, item: usize, cap: Option<usize>, budget: &i64| -> usize {
		let mut o = ValOpts { bad: 0, maximal: false, budget: *budget };
		gen_len(g, item, cap, &mut o).min(if item <= 1 { 0xFFFF } else { 800 })
	};
	match ty {
		Ty::NonZero(i) => if hit(g) { put_le(out, 0, i.wire()) } else {
			let x = g.uint(i.wire() as u32 * 8);
			put_le(out, if x == 0 { 1 << g.below(i.wire() * 8) } else { x }, i.wire());
		},
		Ty::Bool => out.push(if hit(g) { g.byte() } else { g.draw(1) as u8 }),
		Ty::Char => if hit(g) {
			let x = match g.draw(4) {
				0 => 0xD800 + g.draw(0x7FF) as u32,
				1 => *g.pick(&[0xD800, 0xDBFF, 0xDC00, 0xDDFF, 0xDE00, 0xDFFF, 0x110000, 0x11FFFF, 0x1000041, 0x80000041, u32::MAX]),
				2 => 0x110000 + g.draw(0xFFFF) as u32,
				_ => g.draw(u32::MAX as u64) as u32,
			};
			put_le(out, x as u128, 4);
		} else { put_le(out, gen_char(g) as u128, 4) },
		Ty::Tuple(ts) | Ty::Struct(ts) => for t in ts { gen_wire(g, t, bad, out, budget) },
		Ty::Array(t, n) => for _ in 0..*n { gen_wire(g, t, bad, out, budget) },
		Ty::Seq(t, cap) => {
			let mut n = count(g, min_size(t), *cap, budget);
			if let Some(c) = cap { if hit(g) {
				n = match g.draw(3) { 0 => c + 1, 1 => c + 1 + g.below(4), 2 => 0xFFFF, _ => *c };
				n = n.min(0xFFFF);
				put_le(out, n as u128, 2);
				for _ in 0..n.min(c + 3).min(40) { gen_wire(g, t, bad, out, budget) }
				return;
			} }
			put_le(out, n as u128, 2);
			for _ in 0..n { gen_wire(g, t, bad, out, budget) }
		},
		Ty::Str(cap) => {
			if let Some(c) = cap { if hit(g) {
				let n = (c + 1 + g.below(3)).min(0xFFFF);
				put_le(out, n as u128, 2);
				out.extend(gen_text(g, n, true));
				return;
			} }
			let n = count(g, 1, *cap, budget);
			let mut b = gen_text(g, n, true);
			if n > 0 && hit(g) { corrupt_text(g, &mut b) }
			*budget -= n as i64;
			put_le(out, n as u128, 2);
			out.extend(b);
		},
		Ty::CStr => {
			let n = count(g, 1, None, budget);
			let mut b: Vec<u8> = (0..n).map(|_| 1 + g.draw(254) as u8).collect();
			if n > 0 && hit(g) { let i = g.below(n); b[i] = 0 }
			put_le(out, n as u128, 2);
			out.extend(b);
		},
		Ty::Map(k, t) => {
			let n = count(g, min_size(k) + min_size(t), Some(60), budget);
			put_le(out, n as u128, 2);
			let mut keys: Vec<Vec<u8>> = Vec::new();
			for _ in 0..n {
				let mut kb = Vec::new();
				if !keys.is_empty() && hit(g) { kb = g.pick(&keys).clone() } else { gen_wire(g, k, bad, &mut kb, budget) }
				out.extend_from_slice(&kb);
				keys.push(kb);
				gen_wire(g, t, bad, out, budget);
			}
		},
		Ty::Set(k) => {
			let n = count(g, min_size(k), Some(60), budget);
			put_le(out, n as u128, 2);
			for _ in 0..n { gen_wire(g, k, bad, out, budget) }
		},
		Ty::Opt(t) => {
			let s = if hit(g) { g.byte() } else { g.draw(1) as u8 };
			out.push(s);
			if s != 0 { gen_wire(g, t, bad, out, budget) }
		},
		Ty::Res(t, e) => {
			let s = if hit(g) { g.byte() } else { g.draw(1) as u8 };
			out.push(s);
			gen_wire(g, if s != 0 { e } else { t }, bad, out, budget)
		},
		Ty::Bound(t) => {
			let s = if hit(g) { g.byte() } else { g.draw(2) as u8 };
			out.push(s);
			if s < 2 || g.chance(1, 4) { gen_wire(g, t, bad, out, budget) }
		},
		Ty::Ip | Ty::Sa => {
			let s = if hit(g) { g.byte() } else if g.boolean() { 6 } else { 4 };
			out.push(s);
			let n = match (ty == &Ty::Ip, s) { (true, 4) => 4, (true, _) => 16, (false, 4) => 6, (false, _) => 26 };
			out.extend(g.bytes(n));
		},
		Ty::Duration => {
			let s = g.uint(64);
			let n = if hit(g) { g.uint(32) } else { g.draw(999_999_999) as u128 };
			put_le(out, s, 8);
			put_le(out, n, 4);
		},
		Ty::RefCell(t) => gen_wire(g, t, bad, out, budget),
		Ty::Enum(r, vs) => {
			let ok: Vec<usize> = (0..vs.len()).filter(|i| r.encodable(vs[*i].0 & r.mask())).collect();
			if ok.is_empty() || hit(g) {
				let d = match g.draw(2) {
					0 => g.uint(r.wire() as u32 * 8),
					1 if !ok.is_empty() => { let i = *g.pick(&ok); vs[i].0.wrapping_add(1) },
					_ => g.draw(300) as u128,
				};
				put_le(out, d, r.wire());
				out.extend(g.bytes(4));
				return;
			}
			let i = *g.pick(&ok);
			put_le(out, vs[i].0, r.wire());
			for t in &vs[i].1 { gen_wire(g, t, bad, out, budget) }
		},
		Ty::Int(i) => { let x = g.uint(i.wire() as u32 * 8); put_le(out, x, i.wire()) },
		_ => {
			let n = min_size(ty);
			match g.fancy() { Some(c) if n <= 16 => put_le(out, c, n), _ => out.extend(g.bytes(n)) }
		},
	}
}

pub fn corrupt_text(g: &mut Gen, b: &mut [u8]) {
	let i = g.below(b.len());
	b[i] = match g.draw(5) {
		0 => 0xFF,
		1 => 0x80 + g.draw(0x3F) as u8,
		2 => *g.pick(&[0xC0, 0xC1, 0xF5, 0xF8, 0xFE]),
		3 => {
			// Overlong, surrogate or out-of-range sequences, when they fit.
			let s: &[u8] = *g.pick(&[
				&[0xE0, 0x9F, 0xBF][..], &[0xED, 0xA0, 0x80], &[0xED, 0xBF, 0xBF], &[0xF0, 0x8F, 0xBF, 0xBF],
				&[0xF4, 0x90, 0x80, 0x80], &[0xE2, 0x82], &[0xF0, 0x9F, 0x98],
			]);
			let k = s.len().min(b.len() - i);
			b[i..i + k].copy_from_slice(&s[..k]);
			return;
		},
		4 => 0xC2 + g.draw(0x32) as u8,
		_ => g.byte(),
	};
}

/// Any wire input for `ty`: valid encodings, near misses, noise.
pub fn gen_input(g: &mut Gen, ty: &Ty) -> Vec<u8> {
	let mut out = Vec::new();
	let mut budget = 1200i64;
	match g.draw(9) {
		0 => gen_wire(g, ty, 0, &mut out, &mut budget),
		1..=4 => { let bad = *g.pick(&[2, 6, 16, 40]); gen_wire(g, ty, bad, &mut out, &mut budget) },
		5 => {
			gen_wire(g, ty, 0, &mut out, &mut budget);
			for _ in 0..1 + g.below(3) {
				if out.is_empty() { break }
				let i = g.below(out.len());
				match g.draw(3) {
					0 => out[i] = g.byte(),
					1 => out[i] ^= 1 << g.below(8),
					2 => { out.remove(i); },
					_ => { let b = g.byte(); out.insert(i, b) },
				}
			}
		},
		6 => { gen_wire(g, ty, 8, &mut out, &mut budget); if !out.is_empty() { let n = g.below(out.len()); out.truncate(n) } },
		7 => { let n = g.range(0, 40); out = g.bytes(n) },
		8 => { let n = g.range(0, 24); out = (0..n).map(|_| g.draw(3) as u8).collect() },
		_ => { let n = (min_size(ty) + g.below(4)).min(200); out = g.bytes(n) },
	}
	if g.chance(1, 3) { let n = g.range(1, 6); out.extend(g.bytes(n)) }
	out
}

pub fn hex(b: &[u8]) -> String {
	let n = b.len().min(160);
	let mut s: String = b[..n].iter().map(|x| format!("{x:02x}")).collect();
	if n < b.len() { s.push_str(&format!("…({} bytes)", b.len())) }
	s
}

/// A short rendering of a value.
pub fn show(v: &Val) -> String { crate::engine::clip(&format!("{v:?}"), 400) }
