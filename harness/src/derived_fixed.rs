// Generated by gen_derive.py. Do not edit.
#![allow(dead_code, unused_imports, non_camel_case_types, unused_variables, non_shorthand_field_patterns, unused_must_use, non_snake_case)]
use crate::model::{list, Int, Ty, Val};
use crate::subject::{Entry, Subject};
use crate::{ed, eds, eo, es};
use crate::subject::H;
use oct::decode::Decode;
use oct::encode::{Encode, SizedEncode};
use oct::{SizedSlice, SizedStr};
use std::borrow::Cow;
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::ffi::CString;
use std::marker::PhantomData;
use std::net::*;
use std::num::{NonZero, Saturating, Wrapping};
use std::ops::*;
use std::rc::Rc;
use std::sync::atomic::*;
use std::sync::{Arc, Mutex, RwLock};
use std::time::{Duration, SystemTime};

#[derive(Encode, Decode, SizedEncode)]
pub struct D0 { pub x: Mutex<i8>, pub r#type: i8, pub value2: i16, pub e: Range<Range<Option<()>>>, pub v: i32 }
impl Subject for D0 {
	fn ty() -> Ty { Ty::Struct(vec![<Mutex<i8> as Subject>::ty(), <i8 as Subject>::ty(), <i16 as Subject>::ty(), <Range<Range<Option<()>>> as Subject>::ty(), <i32 as Subject>::ty()]) }
	fn build(v: &Val) -> Self { let _ = v; D0 { x: <Mutex<i8> as Subject>::build(&v.items()[0]), r#type: <i8 as Subject>::build(&v.items()[1]), value2: <i16 as Subject>::build(&v.items()[2]), e: <Range<Range<Option<()>>> as Subject>::build(&v.items()[3]), v: <i32 as Subject>::build(&v.items()[4]) } }
	fn view(&self) -> Val { list(vec![self.x.view(), self.r#type.view(), self.value2.view(), self.e.view(), self.v.view()]) }
}
#[derive(Encode, Decode, SizedEncode)]
pub struct D1 { pub output: Range<D0>, pub c: ([NonZero<u128>; 3], [NonZero<u128>; 3], [NonZero<u128>; 3]), pub v: bool }
impl Subject for D1 {
	fn ty() -> Ty { Ty::Struct(vec![<Range<D0> as Subject>::ty(), <([NonZero<u128>; 3], [NonZero<u128>; 3], [NonZero<u128>; 3]) as Subject>::ty(), <bool as Subject>::ty()]) }
	fn build(v: &Val) -> Self { let _ = v; D1 { output: <Range<D0> as Subject>::build(&v.items()[0]), c: <([NonZero<u128>; 3], [NonZero<u128>; 3], [NonZero<u128>; 3]) as Subject>::build(&v.items()[1]), v: <bool as Subject>::build(&v.items()[2]) } }
	fn view(&self) -> Val { list(vec![self.output.view(), self.c.view(), self.v.view()]) }
}
#[derive(Encode, Decode, SizedEncode)]
pub struct D2;
impl Subject for D2 {
	fn ty() -> Ty { Ty::Struct(vec![]) }
	fn build(v: &Val) -> Self { let _ = v; D2 {  } }
	fn view(&self) -> Val { list(vec![]) }
}
#[must_use]
#[derive(Encode, Decode, SizedEncode)]
#[repr(u64)]
pub enum D3 { Value {} = 32767, Option(D0, Option<Range<D0>>, u128) = 0o400u64, F = 2027819370134942629u64, Input = 127, D = 18446744073709551615, Stream(D2, SocketAddrV6, ()) = 0, B(u8, RangeToInclusive<D2>, (Rc<D1>,)) = 0b11111111, Ok {} = 1, Encode(SizedSlice<SizedSlice<u64, 1>, 4>, D2, i8, Option<Rc<Mutex<IpAddr>>>) = 0o200, E() = 0b1000, C = 1185955884618306797, Into((bool, i64, u32, Ipv6Addr), [D0; 2]) = 0x6u64 }
impl Subject for D3 {
	fn ty() -> Ty { Ty::Enum(Int::U64, vec![(32767u128, vec![]), (256u128, vec![<D0 as Subject>::ty(), <Option<Range<D0>> as Subject>::ty(), <u128 as Subject>::ty()]), (2027819370134942629u128, vec![]), (127u128, vec![]), (18446744073709551615u128, vec![]), (0u128, vec![<D2 as Subject>::ty(), <SocketAddrV6 as Subject>::ty(), <() as Subject>::ty()]), (255u128, vec![<u8 as Subject>::ty(), <RangeToInclusive<D2> as Subject>::ty(), <(Rc<D1>,) as Subject>::ty()]), (1u128, vec![]), (128u128, vec![<SizedSlice<SizedSlice<u64, 1>, 4> as Subject>::ty(), <D2 as Subject>::ty(), <i8 as Subject>::ty(), <Option<Rc<Mutex<IpAddr>>> as Subject>::ty()]), (8u128, vec![]), (1185955884618306797u128, vec![]), (6u128, vec![<(bool, i64, u32, Ipv6Addr) as Subject>::ty(), <[D0; 2] as Subject>::ty()])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D3::Value {  } }, Val::Variant(1, x) => { let _ = &x; D3::Option { 0: <D0 as Subject>::build(&x[0]), 1: <Option<Range<D0>> as Subject>::build(&x[1]), 2: <u128 as Subject>::build(&x[2]) } }, Val::Variant(2, x) => { let _ = &x; D3::F {  } }, Val::Variant(3, x) => { let _ = &x; D3::Input {  } }, Val::Variant(4, x) => { let _ = &x; D3::D {  } }, Val::Variant(5, x) => { let _ = &x; D3::Stream { 0: <D2 as Subject>::build(&x[0]), 1: <SocketAddrV6 as Subject>::build(&x[1]), 2: <() as Subject>::build(&x[2]) } }, Val::Variant(6, x) => { let _ = &x; D3::B { 0: <u8 as Subject>::build(&x[0]), 1: <RangeToInclusive<D2> as Subject>::build(&x[1]), 2: <(Rc<D1>,) as Subject>::build(&x[2]) } }, Val::Variant(7, x) => { let _ = &x; D3::Ok {  } }, Val::Variant(8, x) => { let _ = &x; D3::Encode { 0: <SizedSlice<SizedSlice<u64, 1>, 4> as Subject>::build(&x[0]), 1: <D2 as Subject>::build(&x[1]), 2: <i8 as Subject>::build(&x[2]), 3: <Option<Rc<Mutex<IpAddr>>> as Subject>::build(&x[3]) } }, Val::Variant(9, x) => { let _ = &x; D3::E {  } }, Val::Variant(10, x) => { let _ = &x; D3::C {  } }, Val::Variant(11, x) => { let _ = &x; D3::Into { 0: <(bool, i64, u32, Ipv6Addr) as Subject>::build(&x[0]), 1: <[D0; 2] as Subject>::build(&x[1]) } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D3::Value {  } => Val::Variant(0, ::std::rc::Rc::new(vec![])), D3::Option { 0: b0, 1: b1, 2: b2 } => Val::Variant(1, ::std::rc::Rc::new(vec![b0.view(), b1.view(), b2.view()])), D3::F {  } => Val::Variant(2, ::std::rc::Rc::new(vec![])), D3::Input {  } => Val::Variant(3, ::std::rc::Rc::new(vec![])), D3::D {  } => Val::Variant(4, ::std::rc::Rc::new(vec![])), D3::Stream { 0: b0, 1: b1, 2: b2 } => Val::Variant(5, ::std::rc::Rc::new(vec![b0.view(), b1.view(), b2.view()])), D3::B { 0: b0, 1: b1, 2: b2 } => Val::Variant(6, ::std::rc::Rc::new(vec![b0.view(), b1.view(), b2.view()])), D3::Ok {  } => Val::Variant(7, ::std::rc::Rc::new(vec![])), D3::Encode { 0: b0, 1: b1, 2: b2, 3: b3 } => Val::Variant(8, ::std::rc::Rc::new(vec![b0.view(), b1.view(), b2.view(), b3.view()])), D3::E {  } => Val::Variant(9, ::std::rc::Rc::new(vec![])), D3::C {  } => Val::Variant(10, ::std::rc::Rc::new(vec![])), D3::Into { 0: b0, 1: b1 } => Val::Variant(11, ::std::rc::Rc::new(vec![b0.view(), b1.view()])) } }
}
#[derive(Encode, Decode, SizedEncode)]
pub struct D4();
impl Subject for D4 {
	fn ty() -> Ty { Ty::Struct(vec![]) }
	fn build(v: &Val) -> Self { let _ = v; D4 {  } }
	fn view(&self) -> Val { list(vec![]) }
}
/// Documented.
#[derive(Encode, Decode, SizedEncode)]
#[repr(u16)]
pub enum D5 { Result(), Ok{ b: (Option<SizedStr<1>>, SizedStr<20>, SizedStr<1>) } }
impl Subject for D5 {
	fn ty() -> Ty { Ty::Enum(Int::U16, vec![(0u128, vec![]), (1u128, vec![<(Option<SizedStr<1>>, SizedStr<20>, SizedStr<1>) as Subject>::ty()])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D5::Result {  } }, Val::Variant(1, x) => { let _ = &x; D5::Ok { b: <(Option<SizedStr<1>>, SizedStr<20>, SizedStr<1>) as Subject>::build(&x[0]) } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D5::Result {  } => Val::Variant(0, ::std::rc::Rc::new(vec![])), D5::Ok { b: b0 } => Val::Variant(1, ::std::rc::Rc::new(vec![b0.view()])) } }
}
#[derive(Encode, Decode, SizedEncode)]
pub enum D6 { E, Encode(RangeFrom<AtomicU32>), SizedEncode }
impl Subject for D6 {
	fn ty() -> Ty { Ty::Enum(Int::Isize, vec![(0u128, vec![]), (1u128, vec![<RangeFrom<AtomicU32> as Subject>::ty()]), (2u128, vec![])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D6::E {  } }, Val::Variant(1, x) => { let _ = &x; D6::Encode { 0: <RangeFrom<AtomicU32> as Subject>::build(&x[0]) } }, Val::Variant(2, x) => { let _ = &x; D6::SizedEncode {  } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D6::E {  } => Val::Variant(0, ::std::rc::Rc::new(vec![])), D6::Encode { 0: b0 } => Val::Variant(1, ::std::rc::Rc::new(vec![b0.view()])), D6::SizedEncode {  } => Val::Variant(2, ::std::rc::Rc::new(vec![])) } }
}
#[non_exhaustive]
#[derive(Encode, Decode, SizedEncode)]
#[repr(u32)]
pub enum D7<const N: usize> { Value{ value1: [Mutex<[D5; 3]>; 2], current_size: (f32, Ipv4Addr, i128), x: SizedSlice<u16, N> } }
impl Subject for D7<5> {
	fn ty() -> Ty { Ty::Enum(Int::U32, vec![(0u128, vec![<[Mutex<[D5; 3]>; 2] as Subject>::ty(), <(f32, Ipv4Addr, i128) as Subject>::ty(), <SizedSlice<u16, 5> as Subject>::ty()])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D7::Value { value1: <[Mutex<[D5; 3]>; 2] as Subject>::build(&x[0]), current_size: <(f32, Ipv4Addr, i128) as Subject>::build(&x[1]), x: <SizedSlice<u16, 5> as Subject>::build(&x[2]) } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D7::Value { value1: b0, current_size: b1, x: b2 } => Val::Variant(0, ::std::rc::Rc::new(vec![b0.view(), b1.view(), b2.view()])) } }
}
#[derive(Encode, Decode, SizedEncode)]
pub struct D8(pub Option<D7<5>>, pub Arc<i64>);
impl Subject for D8 {
	fn ty() -> Ty { Ty::Struct(vec![<Option<D7<5>> as Subject>::ty(), <Arc<i64> as Subject>::ty()]) }
	fn build(v: &Val) -> Self { let _ = v; D8 { 0: <Option<D7<5>> as Subject>::build(&v.items()[0]), 1: <Arc<i64> as Subject>::build(&v.items()[1]) } }
	fn view(&self) -> Val { list(vec![self.0.view(), self.1.view()]) }
}
#[derive(Encode, Decode, SizedEncode)]
#[repr(u32)]
pub enum D9<const N: usize> { A {} }
impl Subject for D9<3> {
	fn ty() -> Ty { Ty::Enum(Int::U32, vec![(0u128, vec![])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D9::A {  } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D9::A {  } => Val::Variant(0, ::std::rc::Rc::new(vec![])) } }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum D10<'a, V: Sized, const N: usize>
where
	V: oct::encode::Encode<Error: Into<oct::error::GenericEncodeError>> + oct::decode::Decode<Error: Into<oct::error::GenericDecodeError>>, { Err = 0x7F, Some{ core: SizedSlice<V, 3>, len: SizedStr<N>, e: Cow<'a, String> }, Decode, Infallible(Cow<'a, String>, SizedSlice<u16, N>) = 0x100, Result = 6, Ok() = 0xFFFF, Option {} = 0, Output(SizedSlice<u16, N>, D9<3>) = 32767, Value(), A = 0xFFFD, Encode{ len: SizedStr<N>, input: D4, current_size: Cow<'a, String> }, SizedEncode{ output: V, stream: Cow<'a, String>, x: Cow<'a, String> } = 0b100u16 }
impl Subject for D10<'static, NonZero<u16>, 5> {
	fn ty() -> Ty { Ty::Enum(Int::U16, vec![(127u128, vec![]), (128u128, vec![<SizedSlice<NonZero<u16>, 3> as Subject>::ty(), <SizedStr<5> as Subject>::ty(), <Cow<'static, String> as Subject>::ty()]), (129u128, vec![]), (256u128, vec![<Cow<'static, String> as Subject>::ty(), <SizedSlice<u16, 5> as Subject>::ty()]), (6u128, vec![]), (65535u128, vec![]), (0u128, vec![]), (32767u128, vec![<SizedSlice<u16, 5> as Subject>::ty(), <D9<3> as Subject>::ty()]), (32768u128, vec![]), (65533u128, vec![]), (65534u128, vec![<SizedStr<5> as Subject>::ty(), <D4 as Subject>::ty(), <Cow<'static, String> as Subject>::ty()]), (4u128, vec![<NonZero<u16> as Subject>::ty(), <Cow<'static, String> as Subject>::ty(), <Cow<'static, String> as Subject>::ty()])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D10::Err {  } }, Val::Variant(1, x) => { let _ = &x; D10::Some { core: <SizedSlice<NonZero<u16>, 3> as Subject>::build(&x[0]), len: <SizedStr<5> as Subject>::build(&x[1]), e: <Cow<'static, String> as Subject>::build(&x[2]) } }, Val::Variant(2, x) => { let _ = &x; D10::Decode {  } }, Val::Variant(3, x) => { let _ = &x; D10::Infallible { 0: <Cow<'static, String> as Subject>::build(&x[0]), 1: <SizedSlice<u16, 5> as Subject>::build(&x[1]) } }, Val::Variant(4, x) => { let _ = &x; D10::Result {  } }, Val::Variant(5, x) => { let _ = &x; D10::Ok {  } }, Val::Variant(6, x) => { let _ = &x; D10::Option {  } }, Val::Variant(7, x) => { let _ = &x; D10::Output { 0: <SizedSlice<u16, 5> as Subject>::build(&x[0]), 1: <D9<3> as Subject>::build(&x[1]) } }, Val::Variant(8, x) => { let _ = &x; D10::Value {  } }, Val::Variant(9, x) => { let _ = &x; D10::A {  } }, Val::Variant(10, x) => { let _ = &x; D10::Encode { len: <SizedStr<5> as Subject>::build(&x[0]), input: <D4 as Subject>::build(&x[1]), current_size: <Cow<'static, String> as Subject>::build(&x[2]) } }, Val::Variant(11, x) => { let _ = &x; D10::SizedEncode { output: <NonZero<u16> as Subject>::build(&x[0]), stream: <Cow<'static, String> as Subject>::build(&x[1]), x: <Cow<'static, String> as Subject>::build(&x[2]) } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D10::Err {  } => Val::Variant(0, ::std::rc::Rc::new(vec![])), D10::Some { core: b0, len: b1, e: b2 } => Val::Variant(1, ::std::rc::Rc::new(vec![b0.view(), b1.view(), b2.view()])), D10::Decode {  } => Val::Variant(2, ::std::rc::Rc::new(vec![])), D10::Infallible { 0: b0, 1: b1 } => Val::Variant(3, ::std::rc::Rc::new(vec![b0.view(), b1.view()])), D10::Result {  } => Val::Variant(4, ::std::rc::Rc::new(vec![])), D10::Ok {  } => Val::Variant(5, ::std::rc::Rc::new(vec![])), D10::Option {  } => Val::Variant(6, ::std::rc::Rc::new(vec![])), D10::Output { 0: b0, 1: b1 } => Val::Variant(7, ::std::rc::Rc::new(vec![b0.view(), b1.view()])), D10::Value {  } => Val::Variant(8, ::std::rc::Rc::new(vec![])), D10::A {  } => Val::Variant(9, ::std::rc::Rc::new(vec![])), D10::Encode { len: b0, input: b1, current_size: b2 } => Val::Variant(10, ::std::rc::Rc::new(vec![b0.view(), b1.view(), b2.view()])), D10::SizedEncode { output: b0, stream: b1, x: b2 } => Val::Variant(11, ::std::rc::Rc::new(vec![b0.view(), b1.view(), b2.view()])) } }
}
#[must_use]
#[derive(Encode, Decode, SizedEncode)]
#[repr(isize)]
pub enum D11 { Output, Encode, B, Value, C }
impl Subject for D11 {
	fn ty() -> Ty { Ty::Enum(Int::Isize, vec![(0u128, vec![]), (1u128, vec![]), (2u128, vec![]), (3u128, vec![]), (4u128, vec![])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D11::Output {  } }, Val::Variant(1, x) => { let _ = &x; D11::Encode {  } }, Val::Variant(2, x) => { let _ = &x; D11::B {  } }, Val::Variant(3, x) => { let _ = &x; D11::Value {  } }, Val::Variant(4, x) => { let _ = &x; D11::C {  } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D11::Output {  } => Val::Variant(0, ::std::rc::Rc::new(vec![])), D11::Encode {  } => Val::Variant(1, ::std::rc::Rc::new(vec![])), D11::B {  } => Val::Variant(2, ::std::rc::Rc::new(vec![])), D11::Value {  } => Val::Variant(3, ::std::rc::Rc::new(vec![])), D11::C {  } => Val::Variant(4, ::std::rc::Rc::new(vec![])) } }
}
#[must_use]
#[derive(Encode, Decode)]
pub enum D12<U, const N: usize>
where
	U: oct::encode::Encode<Error: Into<oct::error::GenericEncodeError>> + oct::decode::Decode<Error: Into<oct::error::GenericDecodeError>>, { Value, Encode(SizedSlice<U, 3>), Some{ stream: Box<U>, value0: [D1; 3], y: HashSet<Ipv4Addr, H> }, Decode{ value0: [U; 2], y: SizedStr<N> }, Stream(SizedStr<N>) }
impl Subject for D12<AtomicI16, 1> {
	fn ty() -> Ty { Ty::Enum(Int::Isize, vec![(0u128, vec![]), (1u128, vec![<SizedSlice<AtomicI16, 3> as Subject>::ty()]), (2u128, vec![<Box<AtomicI16> as Subject>::ty(), <[D1; 3] as Subject>::ty(), <HashSet<Ipv4Addr, H> as Subject>::ty()]), (3u128, vec![<[AtomicI16; 2] as Subject>::ty(), <SizedStr<1> as Subject>::ty()]), (4u128, vec![<SizedStr<1> as Subject>::ty()])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D12::Value {  } }, Val::Variant(1, x) => { let _ = &x; D12::Encode { 0: <SizedSlice<AtomicI16, 3> as Subject>::build(&x[0]) } }, Val::Variant(2, x) => { let _ = &x; D12::Some { stream: <Box<AtomicI16> as Subject>::build(&x[0]), value0: <[D1; 3] as Subject>::build(&x[1]), y: <HashSet<Ipv4Addr, H> as Subject>::build(&x[2]) } }, Val::Variant(3, x) => { let _ = &x; D12::Decode { value0: <[AtomicI16; 2] as Subject>::build(&x[0]), y: <SizedStr<1> as Subject>::build(&x[1]) } }, Val::Variant(4, x) => { let _ = &x; D12::Stream { 0: <SizedStr<1> as Subject>::build(&x[0]) } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D12::Value {  } => Val::Variant(0, ::std::rc::Rc::new(vec![])), D12::Encode { 0: b0 } => Val::Variant(1, ::std::rc::Rc::new(vec![b0.view()])), D12::Some { stream: b0, value0: b1, y: b2 } => Val::Variant(2, ::std::rc::Rc::new(vec![b0.view(), b1.view(), b2.view()])), D12::Decode { value0: b0, y: b1 } => Val::Variant(3, ::std::rc::Rc::new(vec![b0.view(), b1.view()])), D12::Stream { 0: b0 } => Val::Variant(4, ::std::rc::Rc::new(vec![b0.view()])) } }
}
#[derive(Encode, Decode, SizedEncode)]
#[repr(u32)]
pub enum D13 { Value{ v: Option<Bound<Cow<'static, u8>>> } = 1596908557, Input {} = 0o377, Some{ r#fn: f32, value: NonZero<isize> } = 0u32, A = 4294967295u32, D{ b: RangeToInclusive<RangeToInclusive<D1>> } = 0o37777777776, Option{ current_size: bool, v: D4, this: u16 } = 0x7f }
impl Subject for D13 {
	fn ty() -> Ty { Ty::Enum(Int::U32, vec![(1596908557u128, vec![<Option<Bound<Cow<'static, u8>>> as Subject>::ty()]), (255u128, vec![]), (0u128, vec![<f32 as Subject>::ty(), <NonZero<isize> as Subject>::ty()]), (4294967295u128, vec![]), (4294967294u128, vec![<RangeToInclusive<RangeToInclusive<D1>> as Subject>::ty()]), (127u128, vec![<bool as Subject>::ty(), <D4 as Subject>::ty(), <u16 as Subject>::ty()])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D13::Value { v: <Option<Bound<Cow<'static, u8>>> as Subject>::build(&x[0]) } }, Val::Variant(1, x) => { let _ = &x; D13::Input {  } }, Val::Variant(2, x) => { let _ = &x; D13::Some { r#fn: <f32 as Subject>::build(&x[0]), value: <NonZero<isize> as Subject>::build(&x[1]) } }, Val::Variant(3, x) => { let _ = &x; D13::A {  } }, Val::Variant(4, x) => { let _ = &x; D13::D { b: <RangeToInclusive<RangeToInclusive<D1>> as Subject>::build(&x[0]) } }, Val::Variant(5, x) => { let _ = &x; D13::Option { current_size: <bool as Subject>::build(&x[0]), v: <D4 as Subject>::build(&x[1]), this: <u16 as Subject>::build(&x[2]) } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D13::Value { v: b0 } => Val::Variant(0, ::std::rc::Rc::new(vec![b0.view()])), D13::Input {  } => Val::Variant(1, ::std::rc::Rc::new(vec![])), D13::Some { r#fn: b0, value: b1 } => Val::Variant(2, ::std::rc::Rc::new(vec![b0.view(), b1.view()])), D13::A {  } => Val::Variant(3, ::std::rc::Rc::new(vec![])), D13::D { b: b0 } => Val::Variant(4, ::std::rc::Rc::new(vec![b0.view()])), D13::Option { current_size: b0, v: b1, this: b2 } => Val::Variant(5, ::std::rc::Rc::new(vec![b0.view(), b1.view(), b2.view()])) } }
}
/// Documented.
#[derive(Encode, Decode, SizedEncode)]
#[repr(u64)]
pub enum D14<const N: usize> { Infallible = 5, Into, B = 14_664_716_526_712_630_627 }
impl Subject for D14<2> {
	fn ty() -> Ty { Ty::Enum(Int::U64, vec![(5u128, vec![]), (6u128, vec![]), (14664716526712630627u128, vec![])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D14::Infallible {  } }, Val::Variant(1, x) => { let _ = &x; D14::Into {  } }, Val::Variant(2, x) => { let _ = &x; D14::B {  } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D14::Infallible {  } => Val::Variant(0, ::std::rc::Rc::new(vec![])), D14::Into {  } => Val::Variant(1, ::std::rc::Rc::new(vec![])), D14::B {  } => Val::Variant(2, ::std::rc::Rc::new(vec![])) } }
}
#[allow(dead_code)]
#[derive(Encode, Decode, SizedEncode)]
pub enum D15 { Stream{ b: NonZero<i32>, r#fn: Arc<i32> }, Ok, SizedEncode }
impl Subject for D15 {
	fn ty() -> Ty { Ty::Enum(Int::Isize, vec![(0u128, vec![<NonZero<i32> as Subject>::ty(), <Arc<i32> as Subject>::ty()]), (1u128, vec![]), (2u128, vec![])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D15::Stream { b: <NonZero<i32> as Subject>::build(&x[0]), r#fn: <Arc<i32> as Subject>::build(&x[1]) } }, Val::Variant(1, x) => { let _ = &x; D15::Ok {  } }, Val::Variant(2, x) => { let _ = &x; D15::SizedEncode {  } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D15::Stream { b: b0, r#fn: b1 } => Val::Variant(0, ::std::rc::Rc::new(vec![b0.view(), b1.view()])), D15::Ok {  } => Val::Variant(1, ::std::rc::Rc::new(vec![])), D15::SizedEncode {  } => Val::Variant(2, ::std::rc::Rc::new(vec![])) } }
}
#[derive(Encode, Decode, SizedEncode)]
#[repr(u16)]
pub enum D16 { SizedEncode(((SizedStr<1>, SizedStr<1>, SizedStr<0>), SizedStr<1>)) = 6, E = 0xB5BD, Option{ r#fn: u8, r#type: Cell<NonZero<i32>>, output: D4, r#match: AtomicU32 } = 7, Result {} = 0xFFFF }
impl Subject for D16 {
	fn ty() -> Ty { Ty::Enum(Int::U16, vec![(6u128, vec![<((SizedStr<1>, SizedStr<1>, SizedStr<0>), SizedStr<1>) as Subject>::ty()]), (46525u128, vec![]), (7u128, vec![<u8 as Subject>::ty(), <Cell<NonZero<i32>> as Subject>::ty(), <D4 as Subject>::ty(), <AtomicU32 as Subject>::ty()]), (65535u128, vec![])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D16::SizedEncode { 0: <((SizedStr<1>, SizedStr<1>, SizedStr<0>), SizedStr<1>) as Subject>::build(&x[0]) } }, Val::Variant(1, x) => { let _ = &x; D16::E {  } }, Val::Variant(2, x) => { let _ = &x; D16::Option { r#fn: <u8 as Subject>::build(&x[0]), r#type: <Cell<NonZero<i32>> as Subject>::build(&x[1]), output: <D4 as Subject>::build(&x[2]), r#match: <AtomicU32 as Subject>::build(&x[3]) } }, Val::Variant(3, x) => { let _ = &x; D16::Result {  } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D16::SizedEncode { 0: b0 } => Val::Variant(0, ::std::rc::Rc::new(vec![b0.view()])), D16::E {  } => Val::Variant(1, ::std::rc::Rc::new(vec![])), D16::Option { r#fn: b0, r#type: b1, output: b2, r#match: b3 } => Val::Variant(2, ::std::rc::Rc::new(vec![b0.view(), b1.view(), b2.view(), b3.view()])), D16::Result {  } => Val::Variant(3, ::std::rc::Rc::new(vec![])) } }
}
/// Documented.
#[derive(Encode, Decode, SizedEncode)]
#[repr(u16)]
pub enum D17 { B = 256 }
impl Subject for D17 {
	fn ty() -> Ty { Ty::Enum(Int::U16, vec![(256u128, vec![])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D17::B {  } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D17::B {  } => Val::Variant(0, ::std::rc::Rc::new(vec![])) } }
}
#[must_use]
#[derive(Encode, Decode, SizedEncode)]
#[repr(u16)]
pub enum D18 { Ok(Box<bool>), C {} = 0xfffc, Infallible = 2 }
impl Subject for D18 {
	fn ty() -> Ty { Ty::Enum(Int::U16, vec![(0u128, vec![<Box<bool> as Subject>::ty()]), (65532u128, vec![]), (2u128, vec![])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D18::Ok { 0: <Box<bool> as Subject>::build(&x[0]) } }, Val::Variant(1, x) => { let _ = &x; D18::C {  } }, Val::Variant(2, x) => { let _ = &x; D18::Infallible {  } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D18::Ok { 0: b0 } => Val::Variant(0, ::std::rc::Rc::new(vec![b0.view()])), D18::C {  } => Val::Variant(1, ::std::rc::Rc::new(vec![])), D18::Infallible {  } => Val::Variant(2, ::std::rc::Rc::new(vec![])) } }
}
#[derive(Encode, Decode, SizedEncode)]
pub enum D19 { Output, B(bool) }
impl Subject for D19 {
	fn ty() -> Ty { Ty::Enum(Int::Isize, vec![(0u128, vec![]), (1u128, vec![<bool as Subject>::ty()])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D19::Output {  } }, Val::Variant(1, x) => { let _ = &x; D19::B { 0: <bool as Subject>::build(&x[0]) } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D19::Output {  } => Val::Variant(0, ::std::rc::Rc::new(vec![])), D19::B { 0: b0 } => Val::Variant(1, ::std::rc::Rc::new(vec![b0.view()])) } }
}
#[non_exhaustive]
#[derive(Encode, Decode, SizedEncode)]
pub struct D20<T>(pub [T; 2], pub RwLock<[(D13, D9<3>, D9<3>); 0]>, pub RangeToInclusive<Cow<'static, i32>>)
where
	T: oct::encode::Encode<Error: Into<oct::error::GenericEncodeError>> + oct::decode::Decode<Error: Into<oct::error::GenericDecodeError>> + oct::encode::SizedEncode,;
impl Subject for D20<SizedSlice<usize, 2>> {
	fn ty() -> Ty { Ty::Struct(vec![<[SizedSlice<usize, 2>; 2] as Subject>::ty(), <RwLock<[(D13, D9<3>, D9<3>); 0]> as Subject>::ty(), <RangeToInclusive<Cow<'static, i32>> as Subject>::ty()]) }
	fn build(v: &Val) -> Self { let _ = v; D20 { 0: <[SizedSlice<usize, 2>; 2] as Subject>::build(&v.items()[0]), 1: <RwLock<[(D13, D9<3>, D9<3>); 0]> as Subject>::build(&v.items()[1]), 2: <RangeToInclusive<Cow<'static, i32>> as Subject>::build(&v.items()[2]) } }
	fn view(&self) -> Val { list(vec![self.0.view(), self.1.view(), self.2.view()]) }
}
#[non_exhaustive]
#[derive(Encode, Decode, SizedEncode)]
pub struct D21 {  }
impl Subject for D21 {
	fn ty() -> Ty { Ty::Struct(vec![]) }
	fn build(v: &Val) -> Self { let _ = v; D21 {  } }
	fn view(&self) -> Val { list(vec![]) }
}
#[derive(Encode, Decode, SizedEncode)]
pub struct D22(pub (u64,), pub usize, pub i16);
impl Subject for D22 {
	fn ty() -> Ty { Ty::Struct(vec![<(u64,) as Subject>::ty(), <usize as Subject>::ty(), <i16 as Subject>::ty()]) }
	fn build(v: &Val) -> Self { let _ = v; D22 { 0: <(u64,) as Subject>::build(&v.items()[0]), 1: <usize as Subject>::build(&v.items()[1]), 2: <i16 as Subject>::build(&v.items()[2]) } }
	fn view(&self) -> Val { list(vec![self.0.view(), self.1.view(), self.2.view()]) }
}
/// Documented.
#[derive(Encode, Decode, SizedEncode)]
#[repr(i16)]
pub enum D23 { Result{ value0: (SizedSlice<SocketAddrV4, 1>, SizedSlice<SocketAddrV4, 1>, SizedSlice<SocketAddrV4, 1>) } = 32766i16 }
impl Subject for D23 {
	fn ty() -> Ty { Ty::Enum(Int::I16, vec![(32766u128, vec![<(SizedSlice<SocketAddrV4, 1>, SizedSlice<SocketAddrV4, 1>, SizedSlice<SocketAddrV4, 1>) as Subject>::ty()])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D23::Result { value0: <(SizedSlice<SocketAddrV4, 1>, SizedSlice<SocketAddrV4, 1>, SizedSlice<SocketAddrV4, 1>) as Subject>::build(&x[0]) } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D23::Result { value0: b0 } => Val::Variant(0, ::std::rc::Rc::new(vec![b0.view()])) } }
}
#[must_use]
#[derive(Encode, Decode, SizedEncode)]
#[repr(u16)]
pub enum D24<T: Sized>
where
	T: oct::encode::Encode<Error: Into<oct::error::GenericEncodeError>> + oct::decode::Decode<Error: Into<oct::error::GenericDecodeError>> + oct::encode::SizedEncode, { Value(Option<T>, Arc<D18>, Range<Wrapping<u64>>, Bound<isize>) = 0o6, B(u16, D23) = 0x100 }
impl Subject for D24<RangeTo<D16>> {
	fn ty() -> Ty { Ty::Enum(Int::U16, vec![(6u128, vec![<Option<RangeTo<D16>> as Subject>::ty(), <Arc<D18> as Subject>::ty(), <Range<Wrapping<u64>> as Subject>::ty(), <Bound<isize> as Subject>::ty()]), (256u128, vec![<u16 as Subject>::ty(), <D23 as Subject>::ty()])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D24::Value { 0: <Option<RangeTo<D16>> as Subject>::build(&x[0]), 1: <Arc<D18> as Subject>::build(&x[1]), 2: <Range<Wrapping<u64>> as Subject>::build(&x[2]), 3: <Bound<isize> as Subject>::build(&x[3]) } }, Val::Variant(1, x) => { let _ = &x; D24::B { 0: <u16 as Subject>::build(&x[0]), 1: <D23 as Subject>::build(&x[1]) } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D24::Value { 0: b0, 1: b1, 2: b2, 3: b3 } => Val::Variant(0, ::std::rc::Rc::new(vec![b0.view(), b1.view(), b2.view(), b3.view()])), D24::B { 0: b0, 1: b1 } => Val::Variant(1, ::std::rc::Rc::new(vec![b0.view(), b1.view()])) } }
}
#[derive(Encode, Decode, SizedEncode)]
#[repr(i16)]
pub enum D25 { D{ value2: D19, self_: D16 }, Input{ len: bool, a: (i128,), core: RangeTo<i8> } }
impl Subject for D25 {
	fn ty() -> Ty { Ty::Enum(Int::I16, vec![(0u128, vec![<D19 as Subject>::ty(), <D16 as Subject>::ty()]), (1u128, vec![<bool as Subject>::ty(), <(i128,) as Subject>::ty(), <RangeTo<i8> as Subject>::ty()])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D25::D { value2: <D19 as Subject>::build(&x[0]), self_: <D16 as Subject>::build(&x[1]) } }, Val::Variant(1, x) => { let _ = &x; D25::Input { len: <bool as Subject>::build(&x[0]), a: <(i128,) as Subject>::build(&x[1]), core: <RangeTo<i8> as Subject>::build(&x[2]) } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D25::D { value2: b0, self_: b1 } => Val::Variant(0, ::std::rc::Rc::new(vec![b0.view(), b1.view()])), D25::Input { len: b0, a: b1, core: b2 } => Val::Variant(1, ::std::rc::Rc::new(vec![b0.view(), b1.view(), b2.view()])) } }
}
#[allow(dead_code)]
#[derive(Encode, Decode, SizedEncode)]
pub struct D26 { pub value: SizedSlice<Arc<u128>, 2>, pub len: Option<Bound<i16>>, pub total_size: NonZero<i8>, pub index: RangeToInclusive<RangeInclusive<RangeInclusive<D22>>> }
impl Subject for D26 {
	fn ty() -> Ty { Ty::Struct(vec![<SizedSlice<Arc<u128>, 2> as Subject>::ty(), <Option<Bound<i16>> as Subject>::ty(), <NonZero<i8> as Subject>::ty(), <RangeToInclusive<RangeInclusive<RangeInclusive<D22>>> as Subject>::ty()]) }
	fn build(v: &Val) -> Self { let _ = v; D26 { value: <SizedSlice<Arc<u128>, 2> as Subject>::build(&v.items()[0]), len: <Option<Bound<i16>> as Subject>::build(&v.items()[1]), total_size: <NonZero<i8> as Subject>::build(&v.items()[2]), index: <RangeToInclusive<RangeInclusive<RangeInclusive<D22>>> as Subject>::build(&v.items()[3]) } }
	fn view(&self) -> Val { list(vec![self.value.view(), self.len.view(), self.total_size.view(), self.index.view()]) }
}
#[derive(Encode, Decode, SizedEncode)]
#[repr(usize)]
pub enum D27 { E }
impl Subject for D27 {
	fn ty() -> Ty { Ty::Enum(Int::Usize, vec![(0u128, vec![])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D27::E {  } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D27::E {  } => Val::Variant(0, ::std::rc::Rc::new(vec![])) } }
}
#[derive(Encode, Decode, SizedEncode)]
pub enum D28 { Result, D, Infallible, Stream, Input, E, B = 0x7F, Ok }
impl Subject for D28 {
	fn ty() -> Ty { Ty::Enum(Int::Isize, vec![(0u128, vec![]), (1u128, vec![]), (2u128, vec![]), (3u128, vec![]), (4u128, vec![]), (5u128, vec![]), (127u128, vec![]), (128u128, vec![])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D28::Result {  } }, Val::Variant(1, x) => { let _ = &x; D28::D {  } }, Val::Variant(2, x) => { let _ = &x; D28::Infallible {  } }, Val::Variant(3, x) => { let _ = &x; D28::Stream {  } }, Val::Variant(4, x) => { let _ = &x; D28::Input {  } }, Val::Variant(5, x) => { let _ = &x; D28::E {  } }, Val::Variant(6, x) => { let _ = &x; D28::B {  } }, Val::Variant(7, x) => { let _ = &x; D28::Ok {  } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D28::Result {  } => Val::Variant(0, ::std::rc::Rc::new(vec![])), D28::D {  } => Val::Variant(1, ::std::rc::Rc::new(vec![])), D28::Infallible {  } => Val::Variant(2, ::std::rc::Rc::new(vec![])), D28::Stream {  } => Val::Variant(3, ::std::rc::Rc::new(vec![])), D28::Input {  } => Val::Variant(4, ::std::rc::Rc::new(vec![])), D28::E {  } => Val::Variant(5, ::std::rc::Rc::new(vec![])), D28::B {  } => Val::Variant(6, ::std::rc::Rc::new(vec![])), D28::Ok {  } => Val::Variant(7, ::std::rc::Rc::new(vec![])) } }
}
/// Documented.
#[derive(Encode, Decode, SizedEncode)]
#[repr(i64)]
pub enum D29 { Result }
impl Subject for D29 {
	fn ty() -> Ty { Ty::Enum(Int::I64, vec![(0u128, vec![])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D29::Result {  } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D29::Result {  } => Val::Variant(0, ::std::rc::Rc::new(vec![])) } }
}
/// Documented.
#[derive(Encode, Decode, SizedEncode)]
#[repr(i8)]
pub enum D30 { D() }
impl Subject for D30 {
	fn ty() -> Ty { Ty::Enum(Int::I8, vec![(0u128, vec![])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D30::D {  } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D30::D {  } => Val::Variant(0, ::std::rc::Rc::new(vec![])) } }
}
/// Documented.
#[derive(Encode, Decode)]
pub enum D31 { GenericDecodeError, Input(usize, NonZero<u16>), C, Ok, B, Value, F([Vec<Bound<D29>>; 0], [D26; 0], isize), D, Result{ value2: (Option<Option<AtomicBool>>, f32) }, Output(Ipv4Addr, SizedSlice<[f32; 3], 4>, (Cow<'static, u32>,)), A{ output: Arc<i16>, total_size: (SocketAddrV6, u128, Box<u16>), value: RangeTo<HashMap<SocketAddrV6, (), H>>, value1: Vec<(Vec<D25>,)> }, Into }
impl Subject for D31 {
	fn ty() -> Ty { Ty::Enum(Int::Isize, vec![(0u128, vec![]), (1u128, vec![<usize as Subject>::ty(), <NonZero<u16> as Subject>::ty()]), (2u128, vec![]), (3u128, vec![]), (4u128, vec![]), (5u128, vec![]), (6u128, vec![<[Vec<Bound<D29>>; 0] as Subject>::ty(), <[D26; 0] as Subject>::ty(), <isize as Subject>::ty()]), (7u128, vec![]), (8u128, vec![<(Option<Option<AtomicBool>>, f32) as Subject>::ty()]), (9u128, vec![<Ipv4Addr as Subject>::ty(), <SizedSlice<[f32; 3], 4> as Subject>::ty(), <(Cow<'static, u32>,) as Subject>::ty()]), (10u128, vec![<Arc<i16> as Subject>::ty(), <(SocketAddrV6, u128, Box<u16>) as Subject>::ty(), <RangeTo<HashMap<SocketAddrV6, (), H>> as Subject>::ty(), <Vec<(Vec<D25>,)> as Subject>::ty()]), (11u128, vec![])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D31::GenericDecodeError {  } }, Val::Variant(1, x) => { let _ = &x; D31::Input { 0: <usize as Subject>::build(&x[0]), 1: <NonZero<u16> as Subject>::build(&x[1]) } }, Val::Variant(2, x) => { let _ = &x; D31::C {  } }, Val::Variant(3, x) => { let _ = &x; D31::Ok {  } }, Val::Variant(4, x) => { let _ = &x; D31::B {  } }, Val::Variant(5, x) => { let _ = &x; D31::Value {  } }, Val::Variant(6, x) => { let _ = &x; D31::F { 0: <[Vec<Bound<D29>>; 0] as Subject>::build(&x[0]), 1: <[D26; 0] as Subject>::build(&x[1]), 2: <isize as Subject>::build(&x[2]) } }, Val::Variant(7, x) => { let _ = &x; D31::D {  } }, Val::Variant(8, x) => { let _ = &x; D31::Result { value2: <(Option<Option<AtomicBool>>, f32) as Subject>::build(&x[0]) } }, Val::Variant(9, x) => { let _ = &x; D31::Output { 0: <Ipv4Addr as Subject>::build(&x[0]), 1: <SizedSlice<[f32; 3], 4> as Subject>::build(&x[1]), 2: <(Cow<'static, u32>,) as Subject>::build(&x[2]) } }, Val::Variant(10, x) => { let _ = &x; D31::A { output: <Arc<i16> as Subject>::build(&x[0]), total_size: <(SocketAddrV6, u128, Box<u16>) as Subject>::build(&x[1]), value: <RangeTo<HashMap<SocketAddrV6, (), H>> as Subject>::build(&x[2]), value1: <Vec<(Vec<D25>,)> as Subject>::build(&x[3]) } }, Val::Variant(11, x) => { let _ = &x; D31::Into {  } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D31::GenericDecodeError {  } => Val::Variant(0, ::std::rc::Rc::new(vec![])), D31::Input { 0: b0, 1: b1 } => Val::Variant(1, ::std::rc::Rc::new(vec![b0.view(), b1.view()])), D31::C {  } => Val::Variant(2, ::std::rc::Rc::new(vec![])), D31::Ok {  } => Val::Variant(3, ::std::rc::Rc::new(vec![])), D31::B {  } => Val::Variant(4, ::std::rc::Rc::new(vec![])), D31::Value {  } => Val::Variant(5, ::std::rc::Rc::new(vec![])), D31::F { 0: b0, 1: b1, 2: b2 } => Val::Variant(6, ::std::rc::Rc::new(vec![b0.view(), b1.view(), b2.view()])), D31::D {  } => Val::Variant(7, ::std::rc::Rc::new(vec![])), D31::Result { value2: b0 } => Val::Variant(8, ::std::rc::Rc::new(vec![b0.view()])), D31::Output { 0: b0, 1: b1, 2: b2 } => Val::Variant(9, ::std::rc::Rc::new(vec![b0.view(), b1.view(), b2.view()])), D31::A { output: b0, total_size: b1, value: b2, value1: b3 } => Val::Variant(10, ::std::rc::Rc::new(vec![b0.view(), b1.view(), b2.view(), b3.view()])), D31::Into {  } => Val::Variant(11, ::std::rc::Rc::new(vec![])) } }
}
#[non_exhaustive]
#[derive(Encode, Decode, SizedEncode)]
pub struct D32 {  }
impl Subject for D32 {
	fn ty() -> Ty { Ty::Struct(vec![]) }
	fn build(v: &Val) -> Self { let _ = v; D32 {  } }
	fn view(&self) -> Val { list(vec![]) }
}
#[allow(dead_code)]
#[derive(Encode, Decode, SizedEncode)]
#[repr(usize)]
pub enum D33 { C = 48715, F = 8, None = 0x7F, Option = 128usize, SizedEncode = 0x100, Input = 52087, Encode = 65534, E = 63363 }
impl Subject for D33 {
	fn ty() -> Ty { Ty::Enum(Int::Usize, vec![(48715u128, vec![]), (8u128, vec![]), (127u128, vec![]), (128u128, vec![]), (256u128, vec![]), (52087u128, vec![]), (65534u128, vec![]), (63363u128, vec![])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D33::C {  } }, Val::Variant(1, x) => { let _ = &x; D33::F {  } }, Val::Variant(2, x) => { let _ = &x; D33::None {  } }, Val::Variant(3, x) => { let _ = &x; D33::Option {  } }, Val::Variant(4, x) => { let _ = &x; D33::SizedEncode {  } }, Val::Variant(5, x) => { let _ = &x; D33::Input {  } }, Val::Variant(6, x) => { let _ = &x; D33::Encode {  } }, Val::Variant(7, x) => { let _ = &x; D33::E {  } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D33::C {  } => Val::Variant(0, ::std::rc::Rc::new(vec![])), D33::F {  } => Val::Variant(1, ::std::rc::Rc::new(vec![])), D33::None {  } => Val::Variant(2, ::std::rc::Rc::new(vec![])), D33::Option {  } => Val::Variant(3, ::std::rc::Rc::new(vec![])), D33::SizedEncode {  } => Val::Variant(4, ::std::rc::Rc::new(vec![])), D33::Input {  } => Val::Variant(5, ::std::rc::Rc::new(vec![])), D33::Encode {  } => Val::Variant(6, ::std::rc::Rc::new(vec![])), D33::E {  } => Val::Variant(7, ::std::rc::Rc::new(vec![])) } }
}
/// Documented.
#[derive(Encode, Decode, SizedEncode)]
#[repr(i64)]
pub enum D34<const N: usize> { C }
impl Subject for D34<1> {
	fn ty() -> Ty { Ty::Enum(Int::I64, vec![(0u128, vec![])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D34::C {  } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D34::C {  } => Val::Variant(0, ::std::rc::Rc::new(vec![])) } }
}
#[allow(dead_code)]
#[derive(Encode, Decode, SizedEncode)]
pub enum D35<const N: usize> { None, Result, F }
impl Subject for D35<1> {
	fn ty() -> Ty { Ty::Enum(Int::Isize, vec![(0u128, vec![]), (1u128, vec![]), (2u128, vec![])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D35::None {  } }, Val::Variant(1, x) => { let _ = &x; D35::Result {  } }, Val::Variant(2, x) => { let _ = &x; D35::F {  } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D35::None {  } => Val::Variant(0, ::std::rc::Rc::new(vec![])), D35::Result {  } => Val::Variant(1, ::std::rc::Rc::new(vec![])), D35::F {  } => Val::Variant(2, ::std::rc::Rc::new(vec![])) } }
}
#[non_exhaustive]
#[derive(Encode, Decode, SizedEncode)]
#[repr(u16)]
pub enum D36 { Option }
impl Subject for D36 {
	fn ty() -> Ty { Ty::Enum(Int::U16, vec![(0u128, vec![])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D36::Option {  } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D36::Option {  } => Val::Variant(0, ::std::rc::Rc::new(vec![])) } }
}
#[derive(Encode, Decode)]
pub struct D37(pub Vec<Vec<Cow<'static, u16>>>);
impl Subject for D37 {
	fn ty() -> Ty { Ty::Struct(vec![<Vec<Vec<Cow<'static, u16>>> as Subject>::ty()]) }
	fn build(v: &Val) -> Self { let _ = v; D37 { 0: <Vec<Vec<Cow<'static, u16>>> as Subject>::build(&v.items()[0]) } }
	fn view(&self) -> Val { list(vec![self.0.view()]) }
}
#[derive(Encode, Decode, SizedEncode)]
pub enum D38<const N: usize> { V0 = 8222956789048498269, V1, V2, V3, V4, V5 = 32767, V6 = 0isize, V7 = 127, V8 = 0b1101001010101010101010010001001110001101101111110011001111100isize, V9 = 5158131025686194361, V10 = 7, V11, V12 = 9_223_372_036_854_775_804, V13 = 0x80, V14 = 0x7fffffffffffffff, V15 = 255isize, V16 = 0x5, V17 = 0x25FE05EAEE92B445, V18 = 256, V19, V20 = 0x4isize, V21 = 0b110, V22 = 6_954_405_168_344_436_844, V23, V24 = 0x117A13AEAD2D9C5F, V25, V26 = 0x4DF0DE9BEAC29DBFisize, V27 = 535585617724909899, V28, V29, V30, V31 = 9223372036854775806isize, V32 = 9, V33 = 2_, V34 = 0o331511145520247010562isize, V35, V36, V37, V38 = 1215843197228216273isize, V39, V40 = 3350978371462019777, V41 = 0b111111111111111111111111111111111111111111111111111111111111101, V42 = 0xa, V43 = 0b10111110001100010011111010111101011110001011011110010011010001, V44, V45 = 0o222462141255472365546, V46 = 4104092224258055864, V47 = 7311240199000652869, V48 = 1_479_956_874_057_866_130_, V49 = 3535233421351894534, V50 = 0b11, V51 = 0o212662662126506363276, V52 = 0b10101110010110100000111011101110010010111110110001100101100, V53 = 2379893721321724550, V54 = 1, V55 = 891_321_824_151_500_716_, V56 = 4_881_899_204_406_189_350_isize, V57, V58, V59 = 4441274785668987458, V60 = 4639020507576861973, V61 = 0o304152621163626325335, V62 = 0x170da6a51e3d0f5d, V63, V64 = 903_209_087_189_964_173isize, V65, V66, V67 = 0xFE84F53D1B37416isize, V68, V69, V70, V71 = 9_021_435_371_810_692_467, V72 = 6_504_221_202_557_155, V73 = 0x49b3609f9e82520, V74, V75, V76, V77 = 0o700641426775545101414, V78 = 7296428276180884772, V79 = 4129614447715368081, V80, V81 = 7_819_796_083_090_879_490_isize, V82 = 0x5778539d30d41b9bisize, V83, V84 = 0x79eb04d1518addb8, V85 = 1592926829373095611, V86, V87, V88 = 0o407231546052737003276, V89 = 7215086095764425551isize, V90 = 8301586708847767866, V91, V92 = 3503925432850101045, V93 = 4118398633167752507, V94, V95, V96 = 2182443105797208374, V97 = 8_502_741_880_872_202_471isize, V98 = 0x401DF013A1571FD, V99, V100, V101 = 951_679_966_251_557_369isize, V102, V103 = 0x3153cdbd8eed6952, V104, V105, V106, V107 = 3965000968739343539isize, V108 = 7_268_547_905_046_396_385, V109, V110, V111, V112, V113 = 0o405716527564604536764, V114, V115 = 4_231_931_164_874_614_764_, V116 = 0b11001010011100111110110001001000000111101111001111100000010010, V117, V118, V119 = 0o114571523030640471753, V120 = 0o153357343301504351662, V121 = 1180919937918898019isize, V122, V123 = 0b111011111100001110100001100111010100000111000111111011010000110, V124, V125 = 1284257107546007595, V126 = 5997022406574365875, V127 }
impl Subject for D38<3> {
	fn ty() -> Ty { Ty::Enum(Int::Isize, vec![(8222956789048498269u128, vec![]), (8222956789048498270u128, vec![]), (8222956789048498271u128, vec![]), (8222956789048498272u128, vec![]), (8222956789048498273u128, vec![]), (32767u128, vec![]), (0u128, vec![]), (127u128, vec![]), (1897516424431658620u128, vec![]), (5158131025686194361u128, vec![]), (7u128, vec![]), (8u128, vec![]), (9223372036854775804u128, vec![]), (128u128, vec![]), (9223372036854775807u128, vec![]), (255u128, vec![]), (5u128, vec![]), (2737632130070918213u128, vec![]), (256u128, vec![]), (257u128, vec![]), (4u128, vec![]), (6u128, vec![]), (6954405168344436844u128, vec![]), (6954405168344436845u128, vec![]), (1259340686754159711u128, vec![]), (1259340686754159712u128, vec![]), (5616233496570928575u128, vec![]), (535585617724909899u128, vec![]), (535585617724909900u128, vec![]), (535585617724909901u128, vec![]), (535585617724909902u128, vec![]), (9223372036854775806u128, vec![]), (9u128, vec![]), (2u128, vec![]), (3920707120782905714u128, vec![]), (3920707120782905715u128, vec![]), (3920707120782905716u128, vec![]), (3920707120782905717u128, vec![]), (1215843197228216273u128, vec![]), (1215843197228216274u128, vec![]), (3350978371462019777u128, vec![]), (9223372036854775805u128, vec![]), (10u128, vec![]), (3426201031140041937u128, vec![]), (3426201031140041938u128, vec![]), (2640875289334901606u128, vec![]), (4104092224258055864u128, vec![]), (7311240199000652869u128, vec![]), (1479956874057866130u128, vec![]), (3535233421351894534u128, vec![]), (3u128, vec![]), (2501286847676278462u128, vec![]), (392605328973194028u128, vec![]), (2379893721321724550u128, vec![]), (1u128, vec![]), (891321824151500716u128, vec![]), (4881899204406189350u128, vec![]), (4881899204406189351u128, vec![]), (4881899204406189352u128, vec![]), (4441274785668987458u128, vec![]), (4639020507576861973u128, vec![]), (3534579223351634653u128, vec![]), (1661167065676713821u128, vec![]), (1661167065676713822u128, vec![]), (903209087189964173u128, vec![]), (903209087189964174u128, vec![]), (903209087189964175u128, vec![]), (1146253326584869910u128, vec![]), (1146253326584869911u128, vec![]), (1146253326584869912u128, vec![]), (1146253326584869913u128, vec![]), (9021435371810692467u128, vec![]), (6504221202557155u128, vec![]), (331918414017209632u128, vec![]), (331918414017209633u128, vec![]), (331918414017209634u128, vec![]), (331918414017209635u128, vec![]), (8085141587833946892u128, vec![]), (7296428276180884772u128, vec![]), (4129614447715368081u128, vec![]), (4129614447715368082u128, vec![]), (7819796083090879490u128, vec![]), (6302879613099187099u128, vec![]), (6302879613099187100u128, vec![]), (8785120795179015608u128, vec![]), (1592926829373095611u128, vec![]), (1592926829373095612u128, vec![]), (1592926829373095613u128, vec![]), (4743194624258737854u128, vec![]), (7215086095764425551u128, vec![]), (8301586708847767866u128, vec![]), (8301586708847767867u128, vec![]), (3503925432850101045u128, vec![]), (4118398633167752507u128, vec![]), (4118398633167752508u128, vec![]), (4118398633167752509u128, vec![]), (2182443105797208374u128, vec![]), (8502741880872202471u128, vec![]), (288757047490867709u128, vec![]), (288757047490867710u128, vec![]), (288757047490867711u128, vec![]), (951679966251557369u128, vec![]), (951679966251557370u128, vec![]), (3554410744955890002u128, vec![]), (3554410744955890003u128, vec![]), (3554410744955890004u128, vec![]), (3554410744955890005u128, vec![]), (3965000968739343539u128, vec![]), (7268547905046396385u128, vec![]), (7268547905046396386u128, vec![]), (7268547905046396387u128, vec![]), (7268547905046396388u128, vec![]), (7268547905046396389u128, vec![]), (4718036811691245044u128, vec![]), (4718036811691245045u128, vec![]), (4231931164874614764u128, vec![]), (3647065853121067026u128, vec![]), (3647065853121067027u128, vec![]), (3647065853121067028u128, vec![]), (1382382094231172075u128, vec![]), (1935965330754098098u128, vec![]), (1180919937918898019u128, vec![]), (1180919937918898020u128, vec![]), (8638415146154456710u128, vec![]), (8638415146154456711u128, vec![]), (1284257107546007595u128, vec![]), (5997022406574365875u128, vec![]), (5997022406574365876u128, vec![])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D38::V0 {  } }, Val::Variant(1, x) => { let _ = &x; D38::V1 {  } }, Val::Variant(2, x) => { let _ = &x; D38::V2 {  } }, Val::Variant(3, x) => { let _ = &x; D38::V3 {  } }, Val::Variant(4, x) => { let _ = &x; D38::V4 {  } }, Val::Variant(5, x) => { let _ = &x; D38::V5 {  } }, Val::Variant(6, x) => { let _ = &x; D38::V6 {  } }, Val::Variant(7, x) => { let _ = &x; D38::V7 {  } }, Val::Variant(8, x) => { let _ = &x; D38::V8 {  } }, Val::Variant(9, x) => { let _ = &x; D38::V9 {  } }, Val::Variant(10, x) => { let _ = &x; D38::V10 {  } }, Val::Variant(11, x) => { let _ = &x; D38::V11 {  } }, Val::Variant(12, x) => { let _ = &x; D38::V12 {  } }, Val::Variant(13, x) => { let _ = &x; D38::V13 {  } }, Val::Variant(14, x) => { let _ = &x; D38::V14 {  } }, Val::Variant(15, x) => { let _ = &x; D38::V15 {  } }, Val::Variant(16, x) => { let _ = &x; D38::V16 {  } }, Val::Variant(17, x) => { let _ = &x; D38::V17 {  } }, Val::Variant(18, x) => { let _ = &x; D38::V18 {  } }, Val::Variant(19, x) => { let _ = &x; D38::V19 {  } }, Val::Variant(20, x) => { let _ = &x; D38::V20 {  } }, Val::Variant(21, x) => { let _ = &x; D38::V21 {  } }, Val::Variant(22, x) => { let _ = &x; D38::V22 {  } }, Val::Variant(23, x) => { let _ = &x; D38::V23 {  } }, Val::Variant(24, x) => { let _ = &x; D38::V24 {  } }, Val::Variant(25, x) => { let _ = &x; D38::V25 {  } }, Val::Variant(26, x) => { let _ = &x; D38::V26 {  } }, Val::Variant(27, x) => { let _ = &x; D38::V27 {  } }, Val::Variant(28, x) => { let _ = &x; D38::V28 {  } }, Val::Variant(29, x) => { let _ = &x; D38::V29 {  } }, Val::Variant(30, x) => { let _ = &x; D38::V30 {  } }, Val::Variant(31, x) => { let _ = &x; D38::V31 {  } }, Val::Variant(32, x) => { let _ = &x; D38::V32 {  } }, Val::Variant(33, x) => { let _ = &x; D38::V33 {  } }, Val::Variant(34, x) => { let _ = &x; D38::V34 {  } }, Val::Variant(35, x) => { let _ = &x; D38::V35 {  } }, Val::Variant(36, x) => { let _ = &x; D38::V36 {  } }, Val::Variant(37, x) => { let _ = &x; D38::V37 {  } }, Val::Variant(38, x) => { let _ = &x; D38::V38 {  } }, Val::Variant(39, x) => { let _ = &x; D38::V39 {  } }, Val::Variant(40, x) => { let _ = &x; D38::V40 {  } }, Val::Variant(41, x) => { let _ = &x; D38::V41 {  } }, Val::Variant(42, x) => { let _ = &x; D38::V42 {  } }, Val::Variant(43, x) => { let _ = &x; D38::V43 {  } }, Val::Variant(44, x) => { let _ = &x; D38::V44 {  } }, Val::Variant(45, x) => { let _ = &x; D38::V45 {  } }, Val::Variant(46, x) => { let _ = &x; D38::V46 {  } }, Val::Variant(47, x) => { let _ = &x; D38::V47 {  } }, Val::Variant(48, x) => { let _ = &x; D38::V48 {  } }, Val::Variant(49, x) => { let _ = &x; D38::V49 {  } }, Val::Variant(50, x) => { let _ = &x; D38::V50 {  } }, Val::Variant(51, x) => { let _ = &x; D38::V51 {  } }, Val::Variant(52, x) => { let _ = &x; D38::V52 {  } }, Val::Variant(53, x) => { let _ = &x; D38::V53 {  } }, Val::Variant(54, x) => { let _ = &x; D38::V54 {  } }, Val::Variant(55, x) => { let _ = &x; D38::V55 {  } }, Val::Variant(56, x) => { let _ = &x; D38::V56 {  } }, Val::Variant(57, x) => { let _ = &x; D38::V57 {  } }, Val::Variant(58, x) => { let _ = &x; D38::V58 {  } }, Val::Variant(59, x) => { let _ = &x; D38::V59 {  } }, Val::Variant(60, x) => { let _ = &x; D38::V60 {  } }, Val::Variant(61, x) => { let _ = &x; D38::V61 {  } }, Val::Variant(62, x) => { let _ = &x; D38::V62 {  } }, Val::Variant(63, x) => { let _ = &x; D38::V63 {  } }, Val::Variant(64, x) => { let _ = &x; D38::V64 {  } }, Val::Variant(65, x) => { let _ = &x; D38::V65 {  } }, Val::Variant(66, x) => { let _ = &x; D38::V66 {  } }, Val::Variant(67, x) => { let _ = &x; D38::V67 {  } }, Val::Variant(68, x) => { let _ = &x; D38::V68 {  } }, Val::Variant(69, x) => { let _ = &x; D38::V69 {  } }, Val::Variant(70, x) => { let _ = &x; D38::V70 {  } }, Val::Variant(71, x) => { let _ = &x; D38::V71 {  } }, Val::Variant(72, x) => { let _ = &x; D38::V72 {  } }, Val::Variant(73, x) => { let _ = &x; D38::V73 {  } }, Val::Variant(74, x) => { let _ = &x; D38::V74 {  } }, Val::Variant(75, x) => { let _ = &x; D38::V75 {  } }, Val::Variant(76, x) => { let _ = &x; D38::V76 {  } }, Val::Variant(77, x) => { let _ = &x; D38::V77 {  } }, Val::Variant(78, x) => { let _ = &x; D38::V78 {  } }, Val::Variant(79, x) => { let _ = &x; D38::V79 {  } }, Val::Variant(80, x) => { let _ = &x; D38::V80 {  } }, Val::Variant(81, x) => { let _ = &x; D38::V81 {  } }, Val::Variant(82, x) => { let _ = &x; D38::V82 {  } }, Val::Variant(83, x) => { let _ = &x; D38::V83 {  } }, Val::Variant(84, x) => { let _ = &x; D38::V84 {  } }, Val::Variant(85, x) => { let _ = &x; D38::V85 {  } }, Val::Variant(86, x) => { let _ = &x; D38::V86 {  } }, Val::Variant(87, x) => { let _ = &x; D38::V87 {  } }, Val::Variant(88, x) => { let _ = &x; D38::V88 {  } }, Val::Variant(89, x) => { let _ = &x; D38::V89 {  } }, Val::Variant(90, x) => { let _ = &x; D38::V90 {  } }, Val::Variant(91, x) => { let _ = &x; D38::V91 {  } }, Val::Variant(92, x) => { let _ = &x; D38::V92 {  } }, Val::Variant(93, x) => { let _ = &x; D38::V93 {  } }, Val::Variant(94, x) => { let _ = &x; D38::V94 {  } }, Val::Variant(95, x) => { let _ = &x; D38::V95 {  } }, Val::Variant(96, x) => { let _ = &x; D38::V96 {  } }, Val::Variant(97, x) => { let _ = &x; D38::V97 {  } }, Val::Variant(98, x) => { let _ = &x; D38::V98 {  } }, Val::Variant(99, x) => { let _ = &x; D38::V99 {  } }, Val::Variant(100, x) => { let _ = &x; D38::V100 {  } }, Val::Variant(101, x) => { let _ = &x; D38::V101 {  } }, Val::Variant(102, x) => { let _ = &x; D38::V102 {  } }, Val::Variant(103, x) => { let _ = &x; D38::V103 {  } }, Val::Variant(104, x) => { let _ = &x; D38::V104 {  } }, Val::Variant(105, x) => { let _ = &x; D38::V105 {  } }, Val::Variant(106, x) => { let _ = &x; D38::V106 {  } }, Val::Variant(107, x) => { let _ = &x; D38::V107 {  } }, Val::Variant(108, x) => { let _ = &x; D38::V108 {  } }, Val::Variant(109, x) => { let _ = &x; D38::V109 {  } }, Val::Variant(110, x) => { let _ = &x; D38::V110 {  } }, Val::Variant(111, x) => { let _ = &x; D38::V111 {  } }, Val::Variant(112, x) => { let _ = &x; D38::V112 {  } }, Val::Variant(113, x) => { let _ = &x; D38::V113 {  } }, Val::Variant(114, x) => { let _ = &x; D38::V114 {  } }, Val::Variant(115, x) => { let _ = &x; D38::V115 {  } }, Val::Variant(116, x) => { let _ = &x; D38::V116 {  } }, Val::Variant(117, x) => { let _ = &x; D38::V117 {  } }, Val::Variant(118, x) => { let _ = &x; D38::V118 {  } }, Val::Variant(119, x) => { let _ = &x; D38::V119 {  } }, Val::Variant(120, x) => { let _ = &x; D38::V120 {  } }, Val::Variant(121, x) => { let _ = &x; D38::V121 {  } }, Val::Variant(122, x) => { let _ = &x; D38::V122 {  } }, Val::Variant(123, x) => { let _ = &x; D38::V123 {  } }, Val::Variant(124, x) => { let _ = &x; D38::V124 {  } }, Val::Variant(125, x) => { let _ = &x; D38::V125 {  } }, Val::Variant(126, x) => { let _ = &x; D38::V126 {  } }, Val::Variant(127, x) => { let _ = &x; D38::V127 {  } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D38::V0 {  } => Val::Variant(0, ::std::rc::Rc::new(vec![])), D38::V1 {  } => Val::Variant(1, ::std::rc::Rc::new(vec![])), D38::V2 {  } => Val::Variant(2, ::std::rc::Rc::new(vec![])), D38::V3 {  } => Val::Variant(3, ::std::rc::Rc::new(vec![])), D38::V4 {  } => Val::Variant(4, ::std::rc::Rc::new(vec![])), D38::V5 {  } => Val::Variant(5, ::std::rc::Rc::new(vec![])), D38::V6 {  } => Val::Variant(6, ::std::rc::Rc::new(vec![])), D38::V7 {  } => Val::Variant(7, ::std::rc::Rc::new(vec![])), D38::V8 {  } => Val::Variant(8, ::std::rc::Rc::new(vec![])), D38::V9 {  } => Val::Variant(9, ::std::rc::Rc::new(vec![])), D38::V10 {  } => Val::Variant(10, ::std::rc::Rc::new(vec![])), D38::V11 {  } => Val::Variant(11, ::std::rc::Rc::new(vec![])), D38::V12 {  } => Val::Variant(12, ::std::rc::Rc::new(vec![])), D38::V13 {  } => Val::Variant(13, ::std::rc::Rc::new(vec![])), D38::V14 {  } => Val::Variant(14, ::std::rc::Rc::new(vec![])), D38::V15 {  } => Val::Variant(15, ::std::rc::Rc::new(vec![])), D38::V16 {  } => Val::Variant(16, ::std::rc::Rc::new(vec![])), D38::V17 {  } => Val::Variant(17, ::std::rc::Rc::new(vec![])), D38::V18 {  } => Val::Variant(18, ::std::rc::Rc::new(vec![])), D38::V19 {  } => Val::Variant(19, ::std::rc::Rc::new(vec![])), D38::V20 {  } => Val::Variant(20, ::std::rc::Rc::new(vec![])), D38::V21 {  } => Val::Variant(21, ::std::rc::Rc::new(vec![])), D38::V22 {  } => Val::Variant(22, ::std::rc::Rc::new(vec![])), D38::V23 {  } => Val::Variant(23, ::std::rc::Rc::new(vec![])), D38::V24 {  } => Val::Variant(24, ::std::rc::Rc::new(vec![])), D38::V25 {  } => Val::Variant(25, ::std::rc::Rc::new(vec![])), D38::V26 {  } => Val::Variant(26, ::std::rc::Rc::new(vec![])), D38::V27 {  } => Val::Variant(27, ::std::rc::Rc::new(vec![])), D38::V28 {  } => Val::Variant(28, ::std::rc::Rc::new(vec![])), D38::V29 {  } => Val::Variant(29, ::std::rc::Rc::new(vec![])), D38::V30 {  } => Val::Variant(30, ::std::rc::Rc::new(vec![])), D38::V31 {  } => Val::Variant(31, ::std::rc::Rc::new(vec![])), D38::V32 {  } => Val::Variant(32, ::std::rc::Rc::new(vec![])), D38::V33 {  } => Val::Variant(33, ::std::rc::Rc::new(vec![])), D38::V34 {  } => Val::Variant(34, ::std::rc::Rc::new(vec![])), D38::V35 {  } => Val::Variant(35, ::std::rc::Rc::new(vec![])), D38::V36 {  } => Val::Variant(36, ::std::rc::Rc::new(vec![])), D38::V37 {  } => Val::Variant(37, ::std::rc::Rc::new(vec![])), D38::V38 {  } => Val::Variant(38, ::std::rc::Rc::new(vec![])), D38::V39 {  } => Val::Variant(39, ::std::rc::Rc::new(vec![])), D38::V40 {  } => Val::Variant(40, ::std::rc::Rc::new(vec![])), D38::V41 {  } => Val::Variant(41, ::std::rc::Rc::new(vec![])), D38::V42 {  } => Val::Variant(42, ::std::rc::Rc::new(vec![])), D38::V43 {  } => Val::Variant(43, ::std::rc::Rc::new(vec![])), D38::V44 {  } => Val::Variant(44, ::std::rc::Rc::new(vec![])), D38::V45 {  } => Val::Variant(45, ::std::rc::Rc::new(vec![])), D38::V46 {  } => Val::Variant(46, ::std::rc::Rc::new(vec![])), D38::V47 {  } => Val::Variant(47, ::std::rc::Rc::new(vec![])), D38::V48 {  } => Val::Variant(48, ::std::rc::Rc::new(vec![])), D38::V49 {  } => Val::Variant(49, ::std::rc::Rc::new(vec![])), D38::V50 {  } => Val::Variant(50, ::std::rc::Rc::new(vec![])), D38::V51 {  } => Val::Variant(51, ::std::rc::Rc::new(vec![])), D38::V52 {  } => Val::Variant(52, ::std::rc::Rc::new(vec![])), D38::V53 {  } => Val::Variant(53, ::std::rc::Rc::new(vec![])), D38::V54 {  } => Val::Variant(54, ::std::rc::Rc::new(vec![])), D38::V55 {  } => Val::Variant(55, ::std::rc::Rc::new(vec![])), D38::V56 {  } => Val::Variant(56, ::std::rc::Rc::new(vec![])), D38::V57 {  } => Val::Variant(57, ::std::rc::Rc::new(vec![])), D38::V58 {  } => Val::Variant(58, ::std::rc::Rc::new(vec![])), D38::V59 {  } => Val::Variant(59, ::std::rc::Rc::new(vec![])), D38::V60 {  } => Val::Variant(60, ::std::rc::Rc::new(vec![])), D38::V61 {  } => Val::Variant(61, ::std::rc::Rc::new(vec![])), D38::V62 {  } => Val::Variant(62, ::std::rc::Rc::new(vec![])), D38::V63 {  } => Val::Variant(63, ::std::rc::Rc::new(vec![])), D38::V64 {  } => Val::Variant(64, ::std::rc::Rc::new(vec![])), D38::V65 {  } => Val::Variant(65, ::std::rc::Rc::new(vec![])), D38::V66 {  } => Val::Variant(66, ::std::rc::Rc::new(vec![])), D38::V67 {  } => Val::Variant(67, ::std::rc::Rc::new(vec![])), D38::V68 {  } => Val::Variant(68, ::std::rc::Rc::new(vec![])), D38::V69 {  } => Val::Variant(69, ::std::rc::Rc::new(vec![])), D38::V70 {  } => Val::Variant(70, ::std::rc::Rc::new(vec![])), D38::V71 {  } => Val::Variant(71, ::std::rc::Rc::new(vec![])), D38::V72 {  } => Val::Variant(72, ::std::rc::Rc::new(vec![])), D38::V73 {  } => Val::Variant(73, ::std::rc::Rc::new(vec![])), D38::V74 {  } => Val::Variant(74, ::std::rc::Rc::new(vec![])), D38::V75 {  } => Val::Variant(75, ::std::rc::Rc::new(vec![])), D38::V76 {  } => Val::Variant(76, ::std::rc::Rc::new(vec![])), D38::V77 {  } => Val::Variant(77, ::std::rc::Rc::new(vec![])), D38::V78 {  } => Val::Variant(78, ::std::rc::Rc::new(vec![])), D38::V79 {  } => Val::Variant(79, ::std::rc::Rc::new(vec![])), D38::V80 {  } => Val::Variant(80, ::std::rc::Rc::new(vec![])), D38::V81 {  } => Val::Variant(81, ::std::rc::Rc::new(vec![])), D38::V82 {  } => Val::Variant(82, ::std::rc::Rc::new(vec![])), D38::V83 {  } => Val::Variant(83, ::std::rc::Rc::new(vec![])), D38::V84 {  } => Val::Variant(84, ::std::rc::Rc::new(vec![])), D38::V85 {  } => Val::Variant(85, ::std::rc::Rc::new(vec![])), D38::V86 {  } => Val::Variant(86, ::std::rc::Rc::new(vec![])), D38::V87 {  } => Val::Variant(87, ::std::rc::Rc::new(vec![])), D38::V88 {  } => Val::Variant(88, ::std::rc::Rc::new(vec![])), D38::V89 {  } => Val::Variant(89, ::std::rc::Rc::new(vec![])), D38::V90 {  } => Val::Variant(90, ::std::rc::Rc::new(vec![])), D38::V91 {  } => Val::Variant(91, ::std::rc::Rc::new(vec![])), D38::V92 {  } => Val::Variant(92, ::std::rc::Rc::new(vec![])), D38::V93 {  } => Val::Variant(93, ::std::rc::Rc::new(vec![])), D38::V94 {  } => Val::Variant(94, ::std::rc::Rc::new(vec![])), D38::V95 {  } => Val::Variant(95, ::std::rc::Rc::new(vec![])), D38::V96 {  } => Val::Variant(96, ::std::rc::Rc::new(vec![])), D38::V97 {  } => Val::Variant(97, ::std::rc::Rc::new(vec![])), D38::V98 {  } => Val::Variant(98, ::std::rc::Rc::new(vec![])), D38::V99 {  } => Val::Variant(99, ::std::rc::Rc::new(vec![])), D38::V100 {  } => Val::Variant(100, ::std::rc::Rc::new(vec![])), D38::V101 {  } => Val::Variant(101, ::std::rc::Rc::new(vec![])), D38::V102 {  } => Val::Variant(102, ::std::rc::Rc::new(vec![])), D38::V103 {  } => Val::Variant(103, ::std::rc::Rc::new(vec![])), D38::V104 {  } => Val::Variant(104, ::std::rc::Rc::new(vec![])), D38::V105 {  } => Val::Variant(105, ::std::rc::Rc::new(vec![])), D38::V106 {  } => Val::Variant(106, ::std::rc::Rc::new(vec![])), D38::V107 {  } => Val::Variant(107, ::std::rc::Rc::new(vec![])), D38::V108 {  } => Val::Variant(108, ::std::rc::Rc::new(vec![])), D38::V109 {  } => Val::Variant(109, ::std::rc::Rc::new(vec![])), D38::V110 {  } => Val::Variant(110, ::std::rc::Rc::new(vec![])), D38::V111 {  } => Val::Variant(111, ::std::rc::Rc::new(vec![])), D38::V112 {  } => Val::Variant(112, ::std::rc::Rc::new(vec![])), D38::V113 {  } => Val::Variant(113, ::std::rc::Rc::new(vec![])), D38::V114 {  } => Val::Variant(114, ::std::rc::Rc::new(vec![])), D38::V115 {  } => Val::Variant(115, ::std::rc::Rc::new(vec![])), D38::V116 {  } => Val::Variant(116, ::std::rc::Rc::new(vec![])), D38::V117 {  } => Val::Variant(117, ::std::rc::Rc::new(vec![])), D38::V118 {  } => Val::Variant(118, ::std::rc::Rc::new(vec![])), D38::V119 {  } => Val::Variant(119, ::std::rc::Rc::new(vec![])), D38::V120 {  } => Val::Variant(120, ::std::rc::Rc::new(vec![])), D38::V121 {  } => Val::Variant(121, ::std::rc::Rc::new(vec![])), D38::V122 {  } => Val::Variant(122, ::std::rc::Rc::new(vec![])), D38::V123 {  } => Val::Variant(123, ::std::rc::Rc::new(vec![])), D38::V124 {  } => Val::Variant(124, ::std::rc::Rc::new(vec![])), D38::V125 {  } => Val::Variant(125, ::std::rc::Rc::new(vec![])), D38::V126 {  } => Val::Variant(126, ::std::rc::Rc::new(vec![])), D38::V127 {  } => Val::Variant(127, ::std::rc::Rc::new(vec![])) } }
}
#[allow(dead_code)]
#[derive(Encode, Decode, SizedEncode)]
pub struct D39 {  }
impl Subject for D39 {
	fn ty() -> Ty { Ty::Struct(vec![]) }
	fn build(v: &Val) -> Self { let _ = v; D39 {  } }
	fn view(&self) -> Val { list(vec![]) }
}
#[non_exhaustive]
#[derive(Encode, Decode, SizedEncode)]
pub struct D40 { pub r#match: Option<D30>, pub y: D28, pub value2: [([NonZero<u32>; 1],); 3], pub b: Option<(D30,)> }
impl Subject for D40 {
	fn ty() -> Ty { Ty::Struct(vec![<Option<D30> as Subject>::ty(), <D28 as Subject>::ty(), <[([NonZero<u32>; 1],); 3] as Subject>::ty(), <Option<(D30,)> as Subject>::ty()]) }
	fn build(v: &Val) -> Self { let _ = v; D40 { r#match: <Option<D30> as Subject>::build(&v.items()[0]), y: <D28 as Subject>::build(&v.items()[1]), value2: <[([NonZero<u32>; 1],); 3] as Subject>::build(&v.items()[2]), b: <Option<(D30,)> as Subject>::build(&v.items()[3]) } }
	fn view(&self) -> Val { list(vec![self.r#match.view(), self.y.view(), self.value2.view(), self.b.view()]) }
}
#[derive(Encode, Decode, SizedEncode)]
pub struct D41<const N: usize> { pub core: [u8; N] }
impl Subject for D41<5> {
	fn ty() -> Ty { Ty::Struct(vec![<[u8; 5] as Subject>::ty()]) }
	fn build(v: &Val) -> Self { let _ = v; D41 { core: <[u8; 5] as Subject>::build(&v.items()[0]) } }
	fn view(&self) -> Val { list(vec![self.core.view()]) }
}
#[derive(Encode, Decode, SizedEncode)]
#[repr(i16)]
pub enum D42 { E {}, B, Self_(NonZero<i128>, Range<RangeInclusive<u64>>, RangeToInclusive<Option<AtomicBool>>) = 0x7D1Ei16, Infallible() }
impl Subject for D42 {
	fn ty() -> Ty { Ty::Enum(Int::I16, vec![(0u128, vec![]), (1u128, vec![]), (32030u128, vec![<NonZero<i128> as Subject>::ty(), <Range<RangeInclusive<u64>> as Subject>::ty(), <RangeToInclusive<Option<AtomicBool>> as Subject>::ty()]), (32031u128, vec![])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D42::E {  } }, Val::Variant(1, x) => { let _ = &x; D42::B {  } }, Val::Variant(2, x) => { let _ = &x; D42::Self_ { 0: <NonZero<i128> as Subject>::build(&x[0]), 1: <Range<RangeInclusive<u64>> as Subject>::build(&x[1]), 2: <RangeToInclusive<Option<AtomicBool>> as Subject>::build(&x[2]) } }, Val::Variant(3, x) => { let _ = &x; D42::Infallible {  } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D42::E {  } => Val::Variant(0, ::std::rc::Rc::new(vec![])), D42::B {  } => Val::Variant(1, ::std::rc::Rc::new(vec![])), D42::Self_ { 0: b0, 1: b1, 2: b2 } => Val::Variant(2, ::std::rc::Rc::new(vec![b0.view(), b1.view(), b2.view()])), D42::Infallible {  } => Val::Variant(3, ::std::rc::Rc::new(vec![])) } }
}
#[derive(Encode, Decode, SizedEncode)]
pub enum D43 { D{ output: (usize, usize) }, Encode([i64; 0], RwLock<SizedSlice<i32, 0>>, Option<u16>), Some, GenericDecodeError, Decode{ current_size: u32, b: (D34<1>, D34<1>, D34<1>), self_: u32, error: RwLock<Cell<usize>> }, Value, Output{ r#type: RwLock<Ipv4Addr>, value2: ([RangeFrom<u16>; 3], [RangeFrom<u16>; 3]) }, C }
impl Subject for D43 {
	fn ty() -> Ty { Ty::Enum(Int::Isize, vec![(0u128, vec![<(usize, usize) as Subject>::ty()]), (1u128, vec![<[i64; 0] as Subject>::ty(), <RwLock<SizedSlice<i32, 0>> as Subject>::ty(), <Option<u16> as Subject>::ty()]), (2u128, vec![]), (3u128, vec![]), (4u128, vec![<u32 as Subject>::ty(), <(D34<1>, D34<1>, D34<1>) as Subject>::ty(), <u32 as Subject>::ty(), <RwLock<Cell<usize>> as Subject>::ty()]), (5u128, vec![]), (6u128, vec![<RwLock<Ipv4Addr> as Subject>::ty(), <([RangeFrom<u16>; 3], [RangeFrom<u16>; 3]) as Subject>::ty()]), (7u128, vec![])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D43::D { output: <(usize, usize) as Subject>::build(&x[0]) } }, Val::Variant(1, x) => { let _ = &x; D43::Encode { 0: <[i64; 0] as Subject>::build(&x[0]), 1: <RwLock<SizedSlice<i32, 0>> as Subject>::build(&x[1]), 2: <Option<u16> as Subject>::build(&x[2]) } }, Val::Variant(2, x) => { let _ = &x; D43::Some {  } }, Val::Variant(3, x) => { let _ = &x; D43::GenericDecodeError {  } }, Val::Variant(4, x) => { let _ = &x; D43::Decode { current_size: <u32 as Subject>::build(&x[0]), b: <(D34<1>, D34<1>, D34<1>) as Subject>::build(&x[1]), self_: <u32 as Subject>::build(&x[2]), error: <RwLock<Cell<usize>> as Subject>::build(&x[3]) } }, Val::Variant(5, x) => { let _ = &x; D43::Value {  } }, Val::Variant(6, x) => { let _ = &x; D43::Output { r#type: <RwLock<Ipv4Addr> as Subject>::build(&x[0]), value2: <([RangeFrom<u16>; 3], [RangeFrom<u16>; 3]) as Subject>::build(&x[1]) } }, Val::Variant(7, x) => { let _ = &x; D43::C {  } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D43::D { output: b0 } => Val::Variant(0, ::std::rc::Rc::new(vec![b0.view()])), D43::Encode { 0: b0, 1: b1, 2: b2 } => Val::Variant(1, ::std::rc::Rc::new(vec![b0.view(), b1.view(), b2.view()])), D43::Some {  } => Val::Variant(2, ::std::rc::Rc::new(vec![])), D43::GenericDecodeError {  } => Val::Variant(3, ::std::rc::Rc::new(vec![])), D43::Decode { current_size: b0, b: b1, self_: b2, error: b3 } => Val::Variant(4, ::std::rc::Rc::new(vec![b0.view(), b1.view(), b2.view(), b3.view()])), D43::Value {  } => Val::Variant(5, ::std::rc::Rc::new(vec![])), D43::Output { r#type: b0, value2: b1 } => Val::Variant(6, ::std::rc::Rc::new(vec![b0.view(), b1.view()])), D43::C {  } => Val::Variant(7, ::std::rc::Rc::new(vec![])) } }
}
#[allow(dead_code)]
#[derive(Encode, Decode, SizedEncode)]
pub enum D44 { Option, SizedEncode(SizedSlice<isize, 1>, Range<D41<5>>, NonZero<i16>, D35<1>), Into }
impl Subject for D44 {
	fn ty() -> Ty { Ty::Enum(Int::Isize, vec![(0u128, vec![]), (1u128, vec![<SizedSlice<isize, 1> as Subject>::ty(), <Range<D41<5>> as Subject>::ty(), <NonZero<i16> as Subject>::ty(), <D35<1> as Subject>::ty()]), (2u128, vec![])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D44::Option {  } }, Val::Variant(1, x) => { let _ = &x; D44::SizedEncode { 0: <SizedSlice<isize, 1> as Subject>::build(&x[0]), 1: <Range<D41<5>> as Subject>::build(&x[1]), 2: <NonZero<i16> as Subject>::build(&x[2]), 3: <D35<1> as Subject>::build(&x[3]) } }, Val::Variant(2, x) => { let _ = &x; D44::Into {  } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D44::Option {  } => Val::Variant(0, ::std::rc::Rc::new(vec![])), D44::SizedEncode { 0: b0, 1: b1, 2: b2, 3: b3 } => Val::Variant(1, ::std::rc::Rc::new(vec![b0.view(), b1.view(), b2.view(), b3.view()])), D44::Into {  } => Val::Variant(2, ::std::rc::Rc::new(vec![])) } }
}
/// Documented.
#[derive(Encode, Decode, SizedEncode)]
pub struct D45<U: Sized, V: Sized>(pub Box<U>, pub Saturating<u16>, pub Box<V>, pub Box<U>, pub Box<V>)
where
	U: oct::encode::Encode<Error: Into<oct::error::GenericEncodeError>> + oct::decode::Decode<Error: Into<oct::error::GenericDecodeError>> + oct::encode::SizedEncode,
	V: oct::encode::Encode<Error: Into<oct::error::GenericEncodeError>> + oct::decode::Decode<Error: Into<oct::error::GenericDecodeError>> + oct::encode::SizedEncode,;
impl Subject for D45<Range<D42>, u16> {
	fn ty() -> Ty { Ty::Struct(vec![<Box<Range<D42>> as Subject>::ty(), <Saturating<u16> as Subject>::ty(), <Box<u16> as Subject>::ty(), <Box<Range<D42>> as Subject>::ty(), <Box<u16> as Subject>::ty()]) }
	fn build(v: &Val) -> Self { let _ = v; D45 { 0: <Box<Range<D42>> as Subject>::build(&v.items()[0]), 1: <Saturating<u16> as Subject>::build(&v.items()[1]), 2: <Box<u16> as Subject>::build(&v.items()[2]), 3: <Box<Range<D42>> as Subject>::build(&v.items()[3]), 4: <Box<u16> as Subject>::build(&v.items()[4]) } }
	fn view(&self) -> Val { list(vec![self.0.view(), self.1.view(), self.2.view(), self.3.view(), self.4.view()]) }
}
#[derive(Encode, Decode, SizedEncode)]
#[repr(u8)]
pub enum D46<const N: usize> { SizedEncode() = 255u8 }
impl Subject for D46<2> {
	fn ty() -> Ty { Ty::Enum(Int::U8, vec![(255u128, vec![])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D46::SizedEncode {  } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D46::SizedEncode {  } => Val::Variant(0, ::std::rc::Rc::new(vec![])) } }
}
#[non_exhaustive]
#[derive(Encode, Decode)]
pub struct D47<'a, const N: usize>(pub Cow<'a, String>, pub u16, pub Wrapping<u32>);
impl Subject for D47<'static, 0> {
	fn ty() -> Ty { Ty::Struct(vec![<Cow<'static, String> as Subject>::ty(), <u16 as Subject>::ty(), <Wrapping<u32> as Subject>::ty()]) }
	fn build(v: &Val) -> Self { let _ = v; D47 { 0: <Cow<'static, String> as Subject>::build(&v.items()[0]), 1: <u16 as Subject>::build(&v.items()[1]), 2: <Wrapping<u32> as Subject>::build(&v.items()[2]) } }
	fn view(&self) -> Val { list(vec![self.0.view(), self.1.view(), self.2.view()]) }
}
/// Documented.
#[derive(Encode, Decode, SizedEncode)]
pub struct D48<T, const N: usize>(pub [Option<u32>; N], pub SizedSlice<T, 3>, pub [u8; N], pub Bound<u64>, pub [u8; N])
where
	T: oct::encode::Encode<Error: Into<oct::error::GenericEncodeError>> + oct::decode::Decode<Error: Into<oct::error::GenericDecodeError>> + oct::encode::SizedEncode,;
impl Subject for D48<i128, 0> {
	fn ty() -> Ty { Ty::Struct(vec![<[Option<u32>; 0] as Subject>::ty(), <SizedSlice<i128, 3> as Subject>::ty(), <[u8; 0] as Subject>::ty(), <Bound<u64> as Subject>::ty(), <[u8; 0] as Subject>::ty()]) }
	fn build(v: &Val) -> Self { let _ = v; D48 { 0: <[Option<u32>; 0] as Subject>::build(&v.items()[0]), 1: <SizedSlice<i128, 3> as Subject>::build(&v.items()[1]), 2: <[u8; 0] as Subject>::build(&v.items()[2]), 3: <Bound<u64> as Subject>::build(&v.items()[3]), 4: <[u8; 0] as Subject>::build(&v.items()[4]) } }
	fn view(&self) -> Val { list(vec![self.0.view(), self.1.view(), self.2.view(), self.3.view(), self.4.view()]) }
}
#[non_exhaustive]
#[derive(Encode, Decode, SizedEncode)]
#[repr(u16)]
pub enum D49<const N: usize> { Decode = 0b111111111111111, GenericDecodeError = 34_167_, Some = 0 }
impl Subject for D49<5> {
	fn ty() -> Ty { Ty::Enum(Int::U16, vec![(32767u128, vec![]), (34167u128, vec![]), (0u128, vec![])]) }
	fn build(v: &Val) -> Self { match v { Val::Variant(0, x) => { let _ = &x; D49::Decode {  } }, Val::Variant(1, x) => { let _ = &x; D49::GenericDecodeError {  } }, Val::Variant(2, x) => { let _ = &x; D49::Some {  } }, _ => panic!("model: variant") } }
	fn view(&self) -> Val { match self { D49::Decode {  } => Val::Variant(0, ::std::rc::Rc::new(vec![])), D49::GenericDecodeError {  } => Val::Variant(1, ::std::rc::Rc::new(vec![])), D49::Some {  } => Val::Variant(2, ::std::rc::Rc::new(vec![])) } }
}
#[derive(Encode, Decode)]
pub struct O0 { self_: [u8; 3], this: Option<u64>, y: [u8; 3], discriminant: Vec<u16> }
impl Subject for O0 { fn ty() -> Ty { Ty::Struct(vec![<[u8; 3] as Subject>::ty(), <Option<u64> as Subject>::ty(), <[u8; 3] as Subject>::ty(), <Vec<u16> as Subject>::ty()]) }
	fn build(v: &Val) -> Self { O0 { self_: <[u8; 3] as Subject>::build(&v.items()[0]), this: <Option<u64> as Subject>::build(&v.items()[1]), y: <[u8; 3] as Subject>::build(&v.items()[2]), discriminant: <Vec<u16> as Subject>::build(&v.items()[3]) } }
	fn view(&self) -> Val { list(vec![self.self_.view(), self.this.view(), self.y.view(), self.discriminant.view()]) } }
#[derive(Encode)]
pub struct B0<'a>(&'a [u8; 3], Option<&'a u64>, &'a [u8; 3], Cow<'a, [u16]>);
#[derive(Encode, Decode, SizedEncode)]
pub struct O1 { index: Option<u64>, a: u32 }
impl Subject for O1 { fn ty() -> Ty { Ty::Struct(vec![<Option<u64> as Subject>::ty(), <u32 as Subject>::ty()]) }
	fn build(v: &Val) -> Self { O1 { index: <Option<u64> as Subject>::build(&v.items()[0]), a: <u32 as Subject>::build(&v.items()[1]) } }
	fn view(&self) -> Val { list(vec![self.index.view(), self.a.view()]) } }
#[derive(Encode, SizedEncode)]
pub struct B1<'a>(Option<&'a u64>, &'a u32);
#[derive(Encode, Decode)]
pub struct O2 { value1: String, x: Option<u64> }
impl Subject for O2 { fn ty() -> Ty { Ty::Struct(vec![<String as Subject>::ty(), <Option<u64> as Subject>::ty()]) }
	fn build(v: &Val) -> Self { O2 { value1: <String as Subject>::build(&v.items()[0]), x: <Option<u64> as Subject>::build(&v.items()[1]) } }
	fn view(&self) -> Val { list(vec![self.value1.view(), self.x.view()]) } }
#[derive(Encode)]
pub struct B2<'a>(&'a str, Option<&'a u64>);
#[derive(Encode, Decode)]
pub struct O3 { e: Vec<u16>, value2: [u8; 3], error: String }
impl Subject for O3 { fn ty() -> Ty { Ty::Struct(vec![<Vec<u16> as Subject>::ty(), <[u8; 3] as Subject>::ty(), <String as Subject>::ty()]) }
	fn build(v: &Val) -> Self { O3 { e: <Vec<u16> as Subject>::build(&v.items()[0]), value2: <[u8; 3] as Subject>::build(&v.items()[1]), error: <String as Subject>::build(&v.items()[2]) } }
	fn view(&self) -> Val { list(vec![self.e.view(), self.value2.view(), self.error.view()]) } }
#[derive(Encode)]
pub struct B3<'a>(Cow<'a, [u16]>, &'a [u8; 3], Cow<'a, str>);
#[derive(Encode, Decode, SizedEncode)]
pub struct O4 { self_: SizedStr<4>, output: Option<u64>, _z: [u8; 3] }
impl Subject for O4 { fn ty() -> Ty { Ty::Struct(vec![<SizedStr<4> as Subject>::ty(), <Option<u64> as Subject>::ty(), <[u8; 3] as Subject>::ty()]) }
	fn build(v: &Val) -> Self { O4 { self_: <SizedStr<4> as Subject>::build(&v.items()[0]), output: <Option<u64> as Subject>::build(&v.items()[1]), _z: <[u8; 3] as Subject>::build(&v.items()[2]) } }
	fn view(&self) -> Val { list(vec![self.self_.view(), self.output.view(), self._z.view()]) } }
#[derive(Encode, SizedEncode)]
pub struct B4<'a>(&'a SizedStr<4>, Option<&'a u64>, &'a [u8; 3]);
#[derive(Encode, Decode, SizedEncode)]
pub struct O5 { v: u32, value0: Option<u64>, core: [u8; 3] }
impl Subject for O5 { fn ty() -> Ty { Ty::Struct(vec![<u32 as Subject>::ty(), <Option<u64> as Subject>::ty(), <[u8; 3] as Subject>::ty()]) }
	fn build(v: &Val) -> Self { O5 { v: <u32 as Subject>::build(&v.items()[0]), value0: <Option<u64> as Subject>::build(&v.items()[1]), core: <[u8; 3] as Subject>::build(&v.items()[2]) } }
	fn view(&self) -> Val { list(vec![self.v.view(), self.value0.view(), self.core.view()]) } }
#[derive(Encode, SizedEncode)]
pub struct B5<'a>(&'a u32, Option<&'a u64>, &'a [u8; 3]);
pub fn entries() -> Vec<Entry> {
	let mut v: Vec<Entry> = Vec::new();
	eds!(v: D0);
	eds!(v: D1);
	eds!(v: D2);
	eds!(v: D3);
	eds!(v: D4);
	eds!(v: D5);
	eds!(v: D6);
	eds!(v: D7<5>);
	eds!(v: D8);
	eds!(v: D9<3>);
	ed!(v: D10<'static, NonZero<u16>, 5>);
	eds!(v: D11);
	ed!(v: D12<AtomicI16, 1>);
	eds!(v: D13);
	eds!(v: D14<2>);
	eds!(v: D15);
	eds!(v: D16);
	eds!(v: D17);
	eds!(v: D18);
	eds!(v: D19);
	eds!(v: D20<SizedSlice<usize, 2>>);
	eds!(v: D21);
	eds!(v: D22);
	eds!(v: D23);
	eds!(v: D24<RangeTo<D16>>);
	eds!(v: D25);
	eds!(v: D26);
	eds!(v: D27);
	eds!(v: D28);
	eds!(v: D29);
	eds!(v: D30);
	ed!(v: D31);
	eds!(v: D32);
	eds!(v: D33);
	eds!(v: D34<1>);
	eds!(v: D35<1>);
	eds!(v: D36);
	ed!(v: D37);
	eds!(v: D38<3>);
	eds!(v: D39);
	eds!(v: D40);
	eds!(v: D41<5>);
	eds!(v: D42);
	eds!(v: D43);
	eds!(v: D44);
	eds!(v: D45<Range<D42>, u16>);
	eds!(v: D46<2>);
	ed!(v: D47<'static, 0>);
	eds!(v: D48<i128, 0>);
	eds!(v: D49<5>);
	eo! { v: "B0" = O0, None, |x| &B0(&x.self_, x.this.as_ref(), &x.y, Cow::Borrowed(x.discriminant.as_slice())); }
	ed!(v: O0);
	eo! { v: "B1" = O1, Some(<B1<'_> as oct::encode::SizedEncode>::MAX_ENCODED_SIZE), |x| &B1(x.index.as_ref(), &x.a); }
	eds!(v: O1);
	eo! { v: "B2" = O2, None, |x| &B2(x.value1.as_str(), x.x.as_ref()); }
	ed!(v: O2);
	eo! { v: "B3" = O3, None, |x| &B3(Cow::Borrowed(x.e.as_slice()), &x.value2, Cow::Borrowed(x.error.as_str())); }
	ed!(v: O3);
	eo! { v: "B4" = O4, Some(<B4<'_> as oct::encode::SizedEncode>::MAX_ENCODED_SIZE), |x| &B4(&x.self_, x.output.as_ref(), &x._z); }
	eds!(v: O4);
	eo! { v: "B5" = O5, Some(<B5<'_> as oct::encode::SizedEncode>::MAX_ENCODED_SIZE), |x| &B5(&x.v, x.value0.as_ref(), &x.core); }
	eds!(v: O5);
	v
}
