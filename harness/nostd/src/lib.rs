//! A user without a standard library.
#![no_std]
#![allow(dead_code)]
#[cfg(feature = "alloc")]
extern crate alloc;
#[cfg(feature = "whole")]
extern crate std;

use core::net::IpAddr;
use core::num::NonZero;
use oct::decode::{Decode, DecodeBorrowed, Input};
use oct::encode::{Encode, Output, SizedEncode};
use oct::{SizedIter, SizedSlice, SizedStr};

pub fn send<T: Encode + ?Sized>(v: &T, b: &mut [u8]) -> Result<usize, T::Error> {
	let mut o = Output::new(b);
	v.encode(&mut o)?;
	Ok(o.position())
}

pub fn receive<T: Decode>(b: &[u8]) -> Result<T, T::Error> { T::decode(&mut Input::new(b)) }

pub fn within<T: Decode + DecodeBorrowed<U>, U: ?Sized>(b: &[u8]) -> Result<T, T::Error> { receive(b) }

pub fn fixed<const N: usize>(s: SizedSlice<u16, N>) -> SizedIter<u16, N> { s.into_iter() }

pub fn errors<E: core::error::Error + core::fmt::Display>(_: E) {}

pub const ROOM: usize = <(u8, u32)>::MAX_ENCODED_SIZE + Option::<NonZero<u32>>::MAX_ENCODED_SIZE + SizedStr::<7>::MAX_ENCODED_SIZE + Result::<u8, u64>::MAX_ENCODED_SIZE + IpAddr::MAX_ENCODED_SIZE;

pub fn texts(b: &mut [u8]) -> Option<SizedStr<7>> {
	let s = SizedStr::<7>::new("text").ok()?;
	let n = send(&s, b).ok()?;
	errors(receive::<bool>(b).err()?);
	errors(receive::<char>(b).err()?);
	receive(&b[..n]).ok()
}

#[cfg(feature = "alloc")]
pub fn owned(b: &mut [u8]) -> Option<(alloc::string::String, alloc::vec::Vec<u16>, alloc::boxed::Box<u32>)> {
	use oct::Slot;
	let mut s = Slot::<alloc::string::String>::with_capacity(0x10);
	s.write(&alloc::string::String::from("text")).ok()?;
	send("text", b).ok()?;
	Some((receive(s.as_slice()).ok()?, receive(b).ok()?, receive(b).ok()?))
}

#[cfg(feature = "macro")]
pub mod derived {
	use super::*;

	#[derive(Encode, SizedEncode, Decode)]
	pub struct Named<const N: usize> { pub a: u16, pub b: SizedStr<N>, pub c: Option<IpAddr> }

	#[derive(Encode, SizedEncode, Decode)]
	pub struct Unit;

	#[derive(Encode, SizedEncode, Decode)]
	pub struct Open<T: Copy>(pub [u8; 3], pub core::marker::PhantomData<T>) where T: PartialEq;

	#[derive(Encode, SizedEncode)]
	pub struct Lent<'a> { pub a: &'a u16, pub b: u8 }

	#[derive(Encode, SizedEncode, Decode)]
	#[repr(u16)]
	pub enum Sort { None, One(u32) = 0x100, Two { x: bool, y: SizedSlice<u8, 3> }, Last = 0xFFFF }

	#[derive(Encode, SizedEncode, Decode)]
	pub enum Wide { A = 1, B = 300 }

	pub fn use_all(b: &mut [u8]) -> Option<(Named<5>, Unit, Wide)> {
		send(&Lent { a: &5u16, b: 3 }, b).ok()?;
		send(&Unit, b).ok()?;
		Some((receive(b).ok()?, receive(b).ok()?, receive(b).ok()?))
	}
}
