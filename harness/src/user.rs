//! Types with implementations of their own, as users write them, whose size
//! and alignment in memory have nothing to do with that of their encoding.

use crate::model::{list, Int, Ty, Val};
use crate::subject::{enc_ref, Entry, Subject, H};
use crate::{ed, eds};
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output, SizedEncode};
use oct::error::EnumDecodeError;
use oct::SizedSlice;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet, LinkedList};
use std::convert::Infallible;
use std::ops::*;
use std::rc::Rc;
use std::sync::{Arc, Mutex, RwLock};

/// Nothing in memory, one octet when encoded.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Solo;

/// One octet in memory, five when encoded.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Wide(pub u8);

/// Two octets when encoded, and much larger, with a large alignment, in memory.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(align(64))]
pub struct Large(pub u8, pub [u8; 70]);

/// A destructor, and nothing else in memory; two octets when encoded.
#[derive(Debug, PartialEq, Eq, Hash)]
pub struct Fleeting;
impl Clone for Fleeting { fn clone(&self) -> Self { Fleeting } }
impl Drop for Fleeting { fn drop(&mut self) { std::hint::black_box(self); } }

const WIDE: u32 = 0xC0DE_00FF;

macro_rules! user { ($($t:ident, $i:ident, $d:ty, $disc:expr, [$($f:ty)?], |$x:ident| $get:expr, |$y:ident| $make:expr;)*) => { $(
	impl Encode for $t {
		type Error = Infallible;
		fn encode(&self, output: &mut Output) -> Result<(), Infallible> {
			let disc: $d = $disc;
			disc.encode(output)?;
			$( let $x = self; let field: $f = $get; field.encode(output)?; )?
			Ok(())
		}
	}
	impl Decode for $t {
		type Error = EnumDecodeError<$d, Infallible>;
		fn decode(input: &mut Input) -> Result<Self, Self::Error> {
			let Ok(value) = <$d as Decode>::decode(input);
			if value != $disc { return Err(EnumDecodeError::UnassignedDiscriminant { value }) }
			$( let Ok($y) = <$f as Decode>::decode(input); return Ok($make); )?
			#[allow(unreachable_code)]
			Ok(unit_of::<$t>())
		}
	}
	impl SizedEncode for $t { const MAX_ENCODED_SIZE: usize = <$d as SizedEncode>::MAX_ENCODED_SIZE $(+ <$f as SizedEncode>::MAX_ENCODED_SIZE)?; }
	impl Subject for $t {
		fn ty() -> Ty { Ty::Enum(Int::$i, vec![($disc as u128, vec![$(<$f as Subject>::ty())?])]) }
		fn build(v: &Val) -> Self {
			let Val::Variant(0, _fields) = v else { panic!("model: unexpected {v:?}") };
			$( let $y = <$f as Subject>::build(&_fields[0]); return $make; )?
			#[allow(unreachable_code)]
			unit_of::<$t>()
		}
		fn view(&self) -> Val { Val::Variant(0, list_of(vec![$({ let $x = self; let field: $f = $get; field.view() })?])) }
	}
)* } }

trait One { fn one() -> Self; }
impl One for Solo { fn one() -> Self { Solo } }
impl One for Fleeting { fn one() -> Self { Fleeting } }
impl One for Wide { fn one() -> Self { unreachable!() } }
impl One for Large { fn one() -> Self { unreachable!() } }
fn unit_of<T: One>() -> T { T::one() }

fn list_of(v: Vec<Val>) -> Rc<Vec<Val>> { match list(v) { Val::List(l) => l, _ => unreachable!() } }

user! {
	Solo, U8, u8, 0xA5, [], |_x| (), |_y| Solo;
	Wide, U32, u32, WIDE, [u8], |x| x.0, |y| Wide(y);
	Large, U8, u8, 0x00, [u8], |x| x.0, |y| Large(y, [y; 70]);
	Fleeting, U16, u16, 0x0101, [], |_x| (), |_y| Fleeting;
}

type Map<K, V> = HashMap<K, V, H>;
type Set<K> = HashSet<K, H>;

macro_rules! form { ($v:ident, $t:ty, $name:expr, |$x:ident| $e:expr) => { $v.push(Entry {
	name: $name, ty: <Vec<$t> as Subject>::ty(), max: None, dec: None, slot: None,
	enc: |v, out| { let $x = <Vec<$t> as Subject>::build(v); enc_ref($e, out) },
}) } }

pub fn entries() -> Vec<Entry> {
	let mut v: Vec<Entry> = Vec::new();
	macro_rules! all { ($($t:ident)*) => { $(
		eds!(v: $t, [$t; 3], [$t; 1], ($t,), ($t, $t), SizedSlice<$t, 5>, Option<$t>, Result<$t, $t>, Range<$t>, RangeInclusive<$t>, RangeFrom<$t>,
			Bound<$t>, Box<$t>, Rc<$t>, Arc<$t>, RefCell<$t>, Mutex<$t>, RwLock<$t>, [[$t; 2]; 2], [Option<$t>; 3], SizedSlice<Option<$t>, 3>,
			Option<Option<$t>>, Cow<'static, $t>);
		ed!(v: Vec<$t>, LinkedList<$t>, Map<$t, $t>, Map<Option<$t>, $t>, Set<$t>, Vec<Option<$t>>, Vec<[$t; 2]>, Vec<Vec<$t>>, Vec<SizedSlice<$t, 2>>,
			LinkedList<LinkedList<$t>>, Option<Vec<$t>>, [Vec<$t>; 2]);
		form!(v, $t, concat!("[", stringify!($t), "]"), |x| x.as_slice());
		form!(v, $t, concat!("Box<[", stringify!($t), "]>"), |x| &x.into_boxed_slice());
		form!(v, $t, concat!("&[&", stringify!($t), "]"), |x| &x.iter().collect::<Vec<_>>().as_slice());
		form!(v, $t, concat!("Arc<[", stringify!($t), "]>"), |x| &Arc::<[$t]>::from(x));
	)* } }
	all!(Solo Wide Large Fleeting);
	eds!(v: Cell<Solo>, Cell<Wide>, Cell<Large>);
	v
}
